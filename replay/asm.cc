// Replay operations on whole assemblies (C29-C31).
#include "common.h"
#include <algorithm>
#include <map>
#include "nsasm/assembler.h"
#include "nsasm/file.h"
#include "nsasm/memory.h"

using namespace nsasm;
static unsigned at(Address a) { return (unsigned)a.Bank() << 16 | a.BankAddress(); }
// Records every byte it is given.

struct Recorder : OutputSink {
  std::vector<std::pair<unsigned, int>> w;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> d) override {
    for (size_t i = 0; i < d.size(); ++i) w.push_back({(unsigned)at(a.AddWrapped((int)i)), d[i]});
    return {};
  }
};

static std::string assemble(const std::vector<std::string>& texts, const std::vector<unsigned>& q) {
  std::vector<File> files;
  for (size_t i = 0; i < texts.size(); ++i) files.push_back(MakeFakeFile("f" + std::to_string(i), texts[i]));
  Recorder r;
  auto a = Assemble(files, &r);
  if (!a.ok()) return "err";
  std::stable_sort(r.w.begin(), r.w.end(), [](auto& x, auto& y) { return x.first < y.first; });
  std::string o = "ok ";
  for (auto& p : r.w) o += fmt("%x:%x,", p.first, p.second);
  o += " ";
  for (unsigned x : q) o += a->Contains(Address((uint32_t)x)) ? "1" : "0";
  return o;
}
// asm nfiles text... nq address... -> err | ok, every byte written by address, which addresses are owned
static Op asm_("asm", [](In& in) {
  long n = dc(in);
  std::vector<std::string> t;
  while (n-- > 0) t.push_back(str(in));
  std::vector<unsigned> q;
  for (n = dc(in); n-- > 0;) q.push_back(hx(in));
  return assemble(t, q);
});
// orders nfiles text... -> the result of every order of the files, if they agree
static Op orders("orders", [](In& in) {
  long n = dc(in);
  std::vector<std::string> t;
  while (n-- > 0) t.push_back(str(in));
  std::sort(t.begin(), t.end());
  std::string first;
  do {
    std::string r = assemble(t, {});
    if (first.empty()) first = r;
    if (r != first) return "differ: " + first + " | " + r;
  } while (std::next_permutation(t.begin(), t.end()));
  return first;
});
// why: the same, with the error's text
static Op why("why", [](In& in) {
  long n = dc(in);
  std::vector<File> files;
  for (int i = 0; i < n; ++i) files.push_back(MakeFakeFile("f" + std::to_string(i), str(in)));
  Recorder r;
  auto a = Assemble(files, &r);
  return a.ok() ? "ok" : a.error().ToString();
});
int main(int argc, char** argv) { return driver_main(argc, argv); }
