// Replay operations on the tracked processor state (C21-C23).
#include "state.h"

static Op st("st", [](In& in) {
  StatusFlags s = flags(in);
  std::string op;
  while (in >> op && op != ".") {
    if (op == "m") s.SetMBit((BitState)dc(in));
    else if (op == "x") s.SetXBit((BitState)dc(in));
    else if (op == "c") s.SetCBit((BitState)dc(in));
    else if (op == "in") s.SetIncoming();
    else if (op == "xce") s.ExchangeCE();
    else if (op == "|") s |= flags(in);
  }
  return show(s) + " " + s.ToName();
});
static Op steq("steq", [](In& in) {
  StatusFlags a = flags(in), b = flags(in);
  bool e = a == b;
  return e == (a != b) ? std::string("inconsistent") : fmt("%d", (int)e);
});
static Op stname("stname", [](In& in) {
  auto r = StatusFlags::FromName(str(in));
  return r ? fmt("%d %d %d", (int)r->EBit(), (int)r->MBit(), (int)r->XBit()) : std::string("none");
});

static Op ent("ent", [](In& in) {
  StackValue a = entry(in), b = entry(in);
  std::string r = fmt("%d %d %d %d %d", (int)a.CanMergeWith(b), (int)b.CanMergeWith(a), (int)(a == b), (int)(b == a), (int)(a == a));
  if (!a.CanMergeWith(b)) return r;
  StackValue x = a, y = b, z = a;
  x |= b;
  y |= a;
  z |= a;
  r += " " + show(x) + " " + show(y) + " " + show(z);
  z = x;
  z |= b;
  return r + " " + show(z);
});
static Op rg("reg", [](In& in) {
  RegisterValue a = reg(in), b = reg(in), x = a, y = b, z = a;
  x |= b;
  y |= a;
  z |= a;
  std::string r = fmt("%d %d %d ", (int)(a == b), (int)(b == a), (int)(a != b)) + show(x) + " " + show(y) + " " + show(z);
  z = x;
  z |= b;
  return r + " " + show(z);
});
static Op stk("stk", [](In& in) {
  int n = (int)dc(in);
  Stack a = stack(in), b = stack(in), x = a, y = b;
  std::string r = fmt("%d %d ", (int)(a == b), (int)(b == a));
  x |= b;
  y |= a;
  return r + show(x, n) + " | " + show(y, n);
});
static Op es("es", [](In& in) {
  int n = (int)dc(in);
  ExecutionState a = state(in), b = state(in), x = a | b, y = a;
  y |= b;
  return fmt("%d %d ", (int)(a == b), (int)(a != b)) + show(x, n) + " | " + show(y, n);
});
static Op es0("es0", [](In& in) { return show(ExecutionState(flags(in)), 0); });

// A history on a tracked stack: operations up to ".", then the expected final depth.
static Op hist("hist", [](In& in) {
  ExecutionState es;
  es.GetStack() = stack(in);
  Stack& s = es.GetStack();
  std::string op, r;
  auto preg = [&](void (Stack::*f)(RegisterValue, StatusFlags)) {
    RegisterValue v = reg(in);
    (s.*f)(v, flags(in));
  };
  while (in >> op && op != ".") {
    if (op == "pa") preg(&Stack::PushA);
    else if (op == "px") preg(&Stack::PushX);
    else if (op == "py") preg(&Stack::PushY);
    else if (op == "la") r += show(s.PullA(flags(in))) + " ";
    else if (op == "lx") r += show(s.PullX(flags(in))) + " ";
    else if (op == "ly") r += show(s.PullY(flags(in))) + " ";
    else if (op == "pb") s.PushByte((uint8_t)dc(in));
    else if (op == "pw") s.PushWord((uint16_t)dc(in));
    else if (op == "ob") { bool h = dc(in); uint8_t v = (uint8_t)dc(in); s.PushByte(h ? absl::optional<uint8_t>(v) : absl::nullopt); }
    else if (op == "ow") { bool h = dc(in); uint16_t v = (uint16_t)dc(in); s.PushWord(h ? absl::optional<uint16_t>(v) : absl::nullopt); }
    else if (op == "ub") s.PushUnknownByte();
    else if (op == "uw") s.PushUnknownWord();
    else if (op == "pd") s.PushDBR(reg(in));
    else if (op == "pf") { es.Flags() = flags(in); es.PushFlags(); }
    else if (op == "lb") r += show(s.PullByte()) + " ";
    else if (op == "lv") r += show(s.PullVarsize()) + " ";
    else if (op == "lf") { es.Flags() = flags(in); es.PullFlags(); r += show(es.Flags()) + " "; }
    else if (op == "ab") s.Abandon();
  }
  return r + show(s, (int)dc(in));
});
int main(int argc, char** argv) { return driver_main(argc, argv); }
