// Replay driver for the modules error, memory, mnemonic, ranges, rom, test_sink
// and quick_dump.  Uses public interfaces only.
#include "common.h"

#include <memory>
#include <fcntl.h>
#include <unistd.h>

#include "nsasm/address.h"
#include "nsasm/error.h"
#include "nsasm/memory.h"
#include "nsasm/mnemonic.h"
#include "nsasm/numeric_type.h"
#include "nsasm/ranges.h"
#include "nsasm/rom.h"
#include "test/test_sink.h"

using namespace nsasm;

// ---- libc file functions, counted and failing on request ------------------------
static int g_open = 0;
static std::map<std::string, int> g_fail;  // function -> number of the failing call
static std::map<std::string, int> g_calls;
static int g_fired = 0;
static bool failing(const char* n) {
  int k = ++g_calls[n];
  auto it = g_fail.find(n);
  bool f = it != g_fail.end() && it->second == k;
  g_fired += f;
  return f;
}
static bool g_trace = false;
extern "C" {
FILE* __real_fopen(const char*, const char*);
int __real_fclose(FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fseek(FILE*, long, int);
long __real_ftell(FILE*);
FILE* __wrap_fopen(const char* p, const char* m) {
  if (!g_trace) return __real_fopen(p, m);
  if (failing("fopen")) return nullptr;
  FILE* f = __real_fopen(p, m);
  if (f) ++g_open;
  return f;
}
int __wrap_fclose(FILE* f) {
  if (!g_trace) return __real_fclose(f);
  --g_open;
  int r = __real_fclose(f);
  return failing("fclose") ? EOF : r;
}
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) {
  if (g_trace && failing("fread")) return n ? __real_fread(b, s, n / 2, f) : 0;
  return __real_fread(b, s, n, f);
}
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f) {
  if (g_trace && failing("fwrite")) return n ? n - 1 : 0;
  return __real_fwrite(b, s, n, f);
}
int __wrap_fseek(FILE* f, long o, int w) {
  if (g_trace && failing("fseek")) return -1;
  return __real_fseek(f, o, w);
}
long __wrap_ftell(FILE* f) {
  if (g_trace && failing("ftell")) return -1;
  return __real_ftell(f);
}
}
struct Trace {
  Trace(In& in) {  // plan: name:call or -
    g_fail.clear();
    g_calls.clear();
    g_open = 0;
    g_fired = 0;
    std::string s;
    while (in >> s) {
      if (s == "-") continue;
      auto c = s.find(':');
      if (c != std::string::npos) g_fail[s.substr(0, c)] = atoi(s.c_str() + c + 1);
    }
    g_trace = true;
  }
  ~Trace() { g_trace = false; }
};

static Mapping mapping(In& in) { return (Mapping)hx(in); }
static std::unique_ptr<Rom> rom(In& in) {
  Mapping m = mapping(in);
  size_t size = hx(in);
  unsigned seed = hx(in);
  return std::make_unique<Rom>(m, "rom", std::vector<uint8_t>(), image(size, seed));
}
static std::string val(const ErrorOr<std::vector<uint8_t>>& r) { return r.ok() ? "ok " + bytes(*r) : "err"; }
static std::string val(const ErrorOr<int>& r) { return r.ok() ? fmt("ok %d", *r) : "err"; }
static std::string val(const ErrorOr<void>& r) { return r.ok() ? "ok" : "err"; }

static Op s2r("s2r", [](In& in) {
  Address a(hx(in));
  auto r = SnesToROMAddress(a, mapping(in));
  return r.ok() ? fmt("ok %zx", *r) : std::string("err");
});
static Op rd("read", [](In& in) {
  auto r = rom(in);
  Address a(hx(in));
  return val(r->Read(a, (int)dc(in)));
});
static Op rb("rb", [](In& in) { auto r = rom(in); return val(r->ReadByte(Address(hx(in)))); });
static Op rw("rw", [](In& in) { auto r = rom(in); return val(r->ReadWord(Address(hx(in)))); });
static Op rl("rl", [](In& in) { auto r = rom(in); return val(r->ReadLong(Address(hx(in)))); });
// an input source giving scripted answers
struct Scripted : InputSource {
  std::vector<uint8_t> b;
  bool fail;
  std::string err;
  mutable std::string log;
  std::string Path() const override { return "scripted"; }
  ErrorOr<std::vector<uint8_t>> Read(Address a, int n) const override {
    log += fmt(" %s/%d", a.ToString().c_str(), n);
    if (fail || n > (int)b.size()) return Error("%s", err);
    return std::vector<uint8_t>(b.begin(), b.begin() + n);
  }
};
static Op src("src", [](In& in) {  // width addr bytes fail err
  int w = dc(in);
  Address a(hx(in));
  Scripted s;
  std::string x = str(in);
  s.b.assign(x.begin(), x.end());
  s.fail = dc(in);
  s.err = str(in);
  auto r = w == 1 ? s.ReadByte(a) : w == 2 ? s.ReadWord(a) : s.ReadLong(a);
  return (r.ok() ? fmt("ok %d", *r) : "err " + hex(r.error().ToString())) + s.log;
});
static Op ow("ow", [](In& in) {  // m size seed hdr n (a len seed)*
  Mapping m = mapping(in);
  size_t size = hx(in);
  unsigned seed = hx(in);
  size_t hdr = hx(in);
  auto r = std::make_unique<Rom>(m, "rom", image(hdr, seed + 1), image(size, seed));
  RomOverwriter w(std::move(r));
  std::string out;
  long n = dc(in);
  for (long i = 0; i < n; ++i) {
    Address a(hx(in));
    size_t len = hx(in);
    auto b = image(len, hx(in));
    out += val(w.Write(a, b)) + " ";
  }
  std::string path = g_scratch + "/ow.smc";
  auto c = w.CreateFile(path);
  std::vector<uint8_t> all;
  if (FILE* f = __real_fopen(path.c_str(), "rb")) {
    int ch;
    while ((ch = fgetc(f)) != EOF) all.push_back(ch);
    __real_fclose(f);
  }
  return out + val(c) + " " + bytes(all);
});
static Op id("id", [](In& in) {  // m size seed a bytes
  auto r = rom(in);
  Address a(hx(in));
  std::string x = str(in);
  std::vector<uint8_t> b(x.begin(), x.end());
  RomIdentityTest t(std::move(r));
  return val(t.Write(a, b));
});
static Op id2("id2", [](In& in) {  // m size seed a len flip: the ROM's own bytes, one changed
  Mapping m = mapping(in);
  size_t size = hx(in);
  unsigned seed = hx(in);
  Address a(hx(in));
  long len = hx(in), flip = dc(in);
  Rom r0(m, "rom", {}, image(size, seed));
  std::vector<uint8_t> b;
  for (long i = 0; i < len; ++i) {
    auto o = SnesToROMAddress(a.AddWrapped(i), m);
    b.push_back(o.ok() && *o < size ? pat(*o, seed) : 0);
  }
  if (flip >= 0 && flip < len) b[flip] ^= 0x40;
  RomIdentityTest t(std::make_unique<Rom>(m, "rom", std::vector<uint8_t>(), image(size, seed)));
  return val(t.Write(a, b));
});

// ---- addresses and numbers --------------------------------------------------------
static Op addw("addw", [](In& in) { Address a(hx(in)); return a.AddWrapped((int)dc(in)).ToString(); });
static Op addu("addu", [](In& in) { Address a(hx(in)); return a.AddUnwrapped((int)dc(in)).ToString(); });
static Op subw("subw", [](In& in) { Address a(hx(in)), b(hx(in)); return val(a.SubtractWrapped(b)); });
static Op bank("bank", [](In& in) { Address a(hx(in)); return fmt("%d %d ", a.Bank(), (int)a.BankAddress()) + a.ToString(); });
static Op mk("mk", [](In& in) { uint8_t b = hx(in); uint16_t o = hx(in); return Address(b, o).ToString(); });
static Op cmp("cmp", [](In& in) {
  Address a(hx(in)), b(hx(in));
  return fmt("%d%d%d%d%d%d", a == b, a != b, a < b, a <= b, a > b, a >= b);
});
static Op cast("cast", [](In& in) { int t = dc(in); return fmt("%d", CastTo((NumericType)t, (int)dc(in))); });
static Op conv("conv", [](In& in) { int t = dc(in); return fmt("%d", (int)ArtihmeticConversion((NumericType)t, (NumericType)dc(in))); });
static Op sgn("sgn", [](In& in) {
  auto t = (NumericType)dc(in);
  return fmt("%d %d %d", (int)Unsigned(t), (int)Signed(t), (int)IsSigned(t));
});

// ---- ranges ---------------------------------------------------------------------------
static std::string chunks(const DataRange& r) {
  std::string s;
  for (auto& c : r.Chunks()) s += c.first.ToString() + "-" + c.second.ToString() + ",";
  return s.empty() ? "-" : s;
}
static Op claim("claim", [](In& in) {  // n (a len)* m (a)*
  DataRange r;
  std::string out;
  long n = dc(in);
  for (long i = 0; i < n; ++i) {
    Address a(hx(in));
    out += r.ClaimBytes(a, (int)dc(in)) ? "1" : "0";
  }
  out += " " + chunks(r) + " ";
  long m = dc(in);
  for (long i = 0; i < m; ++i) out += r.Contains(Address(hx(in))) ? "1" : "0";
  return out;
});
static Op claimc("claimc", [](In& in) {  // n (first second)* m (a)*: chunks instead of lengths
  DataRange r;
  std::string out;
  long n = dc(in);
  for (long i = 0; i < n; ++i) {
    Address a(hx(in)), b(hx(in));
    out += r.ClaimBytes(Chunk(a, b)) ? "1" : "0";
  }
  out += " " + chunks(r) + " ";
  long m = dc(in);
  for (long i = 0; i < m; ++i) out += r.Contains(Address(hx(in))) ? "1" : "0";
  return out;
});
static Op rmap("rmap", [](In& in) {  // n (k (a len)*k value)* m (a)*
  RangeMap<int> r;
  std::string out;
  long n = dc(in);
  for (long i = 0; i < n; ++i) {
    DataRange d;
    long k = dc(in);
    for (long j = 0; j < k; ++j) {
      Address a(hx(in));
      (void)d.ClaimBytes(a, (int)dc(in));
    }
    out += r.Insert(d, (int)dc(in)) ? "1" : "0";
  }
  out += " ";
  long m = dc(in);
  for (long i = 0; i < m; ++i) {
    Address a(hx(in));
    auto v = r.Lookup(a);
    out += (v ? fmt("%d", *v) : std::string("-")) + (r.Contains(a) ? "+" : ".");
  }
  return out;
});

// ---- names ------------------------------------------------------------------------------
static Op mns("mn2s", [](In& in) { return hex(std::string(ToString((Mnemonic)dc(in)))); });
static Op sfs("sf2s", [](In& in) { return hex(std::string(ToString((Suffix)dc(in)))); });
static Op dns("dn2s", [](In& in) { return hex(std::string(ToString((DirectiveName)dc(in)))); });
static Op smn("s2mn", [](In& in) { auto r = ToMnemonic(str(in)); return r ? fmt("%d", (int)*r) : std::string("none"); });
static Op ssf("s2sf", [](In& in) { auto r = ToSuffix(str(in)); return r ? fmt("%d", (int)*r) : std::string("none"); });
static Op sdn("s2dn", [](In& in) { auto r = ToDirectiveName(str(in)); return r ? fmt("%d", (int)*r) : std::string("none"); });
static Op all("all", [](In& in) {
  std::string s;
  for (auto m : AllMnemonics()) s += fmt("%d,", (int)m);
  s += " ";
  for (auto m : AllSuffixes()) s += fmt("%d,", (int)m);
  return s;
});

// ---- errors -----------------------------------------------------------------------------
static Location loc(In& in) {  // kind path number
  std::string k;
  in >> k;
  std::string p = str(in);
  int n = dc(in);
  if (k == "p") return Location(p);
  if (k == "l") return Location(n);
  if (k == "pl") return Location(p, n);
  if (k == "a") return Location::FromAddress(n);
  return Location();
}
static Op err("err", [](In& in) {  // message n (two? loc [loc])*
  Error e("%s", str(in));
  long n = dc(in);
  for (long i = 0; i < n; ++i) {
    if (dc(in) == 2) {
      auto a = loc(in);
      auto b = loc(in);
      e.SetLocation(a, b);
    } else {
      e.SetLocation(loc(in));
    }
  }
  return hex(e.ToString());
});
static Op eor("eor", [](In& in) {  // isval value message
  bool v = dc(in);
  int x = dc(in);
  std::string m = str(in);
  ErrorOr<int> a = v ? ErrorOr<int>(x) : ErrorOr<int>(Error("%s", m));
  ErrorOr<int> b = a;
  ErrorOr<int> c = std::move(a);
  ErrorOr<void> d = v ? ErrorOr<void>() : ErrorOr<void>(Error("%s", m));
  ErrorOr<void> e = d;
  std::string s = fmt("%d%d%d%d %d %d ", b.ok(), c.ok(), d.ok(), e.ok(), b == c, d == e);
  s += c.ok() ? fmt("%d", *c) : hex(c.error().ToString());
  s += " " + (d.ok() ? std::string("-") : hex(d.error().ToString()));
  return s;
});
static Op eoq("eoq", [](In& in) {  // isval value msg  isval value msg
  std::vector<ErrorOr<int>> l;
  std::vector<ErrorOr<void>> w;
  for (int i = 0; i < 2; ++i) {
    bool v = dc(in);
    int x = dc(in);
    std::string m = str(in);
    l.push_back(v ? ErrorOr<int>(x) : ErrorOr<int>(Error("%s", m)));
    w.push_back(v ? ErrorOr<void>() : ErrorOr<void>(Error("%s", m)));
  }
  return fmt("%d%d%d%d", l[0] == l[1], l[0] != l[1], w[0] == w[1], w[0] != w[1]);
});

// ---- files --------------------------------------------------------------------------------
static std::vector<uint8_t> filebytes(In& in) {  // size seed lo hi hdr
  size_t size = hx(in);
  unsigned seed = hx(in);
  int lo = dc(in), hi = dc(in);
  size_t hdr = hx(in);
  auto d = image(size, seed);
  auto fix = [&](size_t at, int ok) {
    if (at + 4 > d.size()) return;
    d[at + 2] = d[at] ^ 0xff;
    d[at + 3] = d[at + 1] ^ 0xff;
    if (ok == 0) d[at + 2] ^= 0x10;
    if (ok == 2) d[at + 3] ^= 0x01;
  };
  fix(0x7fdc, lo);
  fix(0xffdc, hi);
  auto h = image(hdr, seed + 1);
  h.insert(h.end(), d.begin(), d.end());
  return h;
}
static void put(const std::string& path, const std::vector<uint8_t>& b) {
  FILE* f = __real_fopen(path.c_str(), "wb");
  __real_fwrite(b.data(), 1, b.size(), f);
  __real_fclose(f);
}
static Op load("load", [](In& in) {  // size seed lo hi hdr a len plan...
  auto b = filebytes(in);
  std::string path = g_scratch + "/in.smc";
  put(path, b);
  Address a(hx(in));
  int len = dc(in);
  ErrorOr<std::unique_ptr<Rom>> r = Error("unset");
  int open;
  {
    Trace t(in);
    r = LoadRomFile(path);
    open = g_open;
  }
  std::string s = fmt("fired=%d open=%d ", g_fired, open);
  if (!r.ok()) return s + "err";
  s += "ok " + val((*r)->Read(a, len)) + " ";
  s += (*r)->Path() == path ? "path" : "badpath";
  return s;
});
static Op resave("resave", [](In& in) {  // size seed lo hi hdr a len wseed plan (faults in the saving)
  auto b = filebytes(in);
  std::string path = g_scratch + "/in.smc", out = g_scratch + "/out.smc";
  put(path, b);
  unlink(out.c_str());
  Address a(hx(in));
  long len = hx(in);
  unsigned ws = hx(in);
  auto r = LoadRomFile(path);
  if (!r.ok()) return std::string("err");
  RomOverwriter w(std::move(*r));
  std::string s = val(w.Write(a, image(len, ws)));
  ErrorOr<void> c;
  {
    Trace t(in);
    c = w.CreateFile(out);
    s += fmt(" fired=%d open=%d ", g_fired, g_open);
  }
  std::vector<uint8_t> all;
  if (FILE* f = __real_fopen(out.c_str(), "rb")) {
    int ch;
    while ((ch = fgetc(f)) != EOF) all.push_back(ch);
    __real_fclose(f);
  }
  return s + val(c) + " " + (c.ok() ? bytes(all) : "");
});

// ---- test sink --------------------------------------------------------------------------------
static Op sink("sink", [](In& in) {  // e (loc bytes)*e w (a bytes)*w
  std::vector<ExpectedBytes> ex;
  long e = dc(in);
  for (long i = 0; i < e; ++i) {
    ExpectedBytes x;
    x.location = hx(in);
    std::string s = str(in);
    x.bytes.assign(s.begin(), s.end());
    ex.push_back(x);
  }
  TestSink t(ex);
  std::string out;
  long w = dc(in);
  for (long i = 0; i < w; ++i) {
    Address a(hx(in));
    std::string s = str(in);
    std::vector<uint8_t> b(s.begin(), s.end());
    out += t.Write(a, b).ok() ? "1" : "0";
  }
  return out + " " + val(t.Check());
});

// ---- the dump tool ------------------------------------------------------------------------------
int repo_main(int argc, char** argv);
static Op dump("dump", [](In& in) {  // size seed lo hi hdr nargs args...
  auto b = filebytes(in);
  std::string path = g_scratch + "/dump.smc";
  put(path, b);
  long n = dc(in);
  std::vector<std::string> a = {"quick_dump", path};
  for (long i = 0; i < n; ++i) a.push_back(str(in));
  std::vector<char*> av;
  for (auto& s : a) av.push_back(s.data());
  av.push_back(nullptr);
  std::string cap = g_scratch + "/dump.out";
  fflush(stdout);
  int save = dup(1);
  int fd = open(cap.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(fd, 1);
  close(fd);
  int rc = repo_main((int)a.size(), av.data());
  fflush(stdout);
  dup2(save, 1);
  close(save);
  std::string out;
  if (FILE* f = __real_fopen(cap.c_str(), "rb")) {
    int ch;
    while ((ch = fgetc(f)) != EOF) out.push_back((char)ch);
    __real_fclose(f);
  }
  return fmt("%d ", rc) + (out.size() > 400000 ? fmt("#%08x", crc((const uint8_t*)out.data(), out.size())) : hex(out));
});

int main(int argc, char** argv) { return driver_main(argc, argv); }
