// Line protocol shared by the replay drivers: one input line, one output line
// starting with "> ".
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

using In = std::istringstream;
inline std::map<std::string, std::function<std::string(In&)>>& ops() {
  static std::map<std::string, std::function<std::string(In&)>> m;
  return m;
}
struct Op {
  Op(const char* n, std::function<std::string(In&)> f) { ops()[n] = f; }
};
inline unsigned long hx(In& in) {
  std::string s;
  in >> s;
  return strtoul(s.c_str(), nullptr, 16);
}
inline long long dc(In& in) {
  std::string s;
  in >> s;
  return strtoll(s.c_str(), nullptr, 10);
}
inline std::string str(In& in) {  // hex-encoded string, "-" when empty
  std::string s, r;
  in >> s;
  if (s == "-") return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r.push_back((char)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
inline std::string hex(const std::string& s) {
  if (s.empty()) return "-";
  std::string r;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, sizeof b, "%02x", c);
    r += b;
  }
  return r;
}
template <class... A>
std::string fmt(const char* f, A... a) {
  char b[512];
  snprintf(b, sizeof b, f, a...);
  return b;
}
inline uint8_t pat(size_t i, unsigned seed) {
  return (uint8_t)(i * 31 + (i >> 8) * 57 + (i >> 16) * 101 + (i >> 4) * 7 + seed);
}
inline std::vector<uint8_t> image(size_t n, unsigned seed) {
  std::vector<uint8_t> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = pat(i, seed);
  return v;
}
inline uint32_t crc(const uint8_t* p, size_t n) {
  static uint32_t t[256];
  if (!t[1])
    for (uint32_t i = 0; i < 256; ++i) {
      uint32_t c = i;
      for (int k = 0; k < 8; ++k) c = (c & 1) ? 0xedb88320u ^ (c >> 1) : c >> 1;
      t[i] = c;
    }
  uint32_t c = ~0u;
  for (size_t i = 0; i < n; ++i) c = t[(c ^ p[i]) & 255] ^ (c >> 8);
  return ~c;
}
inline std::string bytes(const std::vector<uint8_t>& v) {
  if (v.size() <= 48) return fmt("%zu:", v.size()) + hex(std::string(v.begin(), v.end()));
  return fmt("%zu:#%08x", v.size(), crc(v.data(), v.size()));
}
inline std::string g_scratch;
inline int driver_main(int argc, char** argv) {
  g_scratch = argc > 1 ? argv[1] : ".";
  std::string line;
  while (std::getline(std::cin, line)) {
    In in(line);
    std::string op;
    in >> op;
    std::string r;
    auto it = ops().find(op);
    if (it == ops().end())
      r = "no such op";
    else
      r = it->second(in);
    fputs("> ", stdout);
    fputs(r.c_str(), stdout);
    fputc('\n', stdout);
    fflush(stdout);
  }
  return 0;
}
