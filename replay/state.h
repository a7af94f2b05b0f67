// Building and printing tracked processor states.
#pragma once
#include "common.h"
#include "absl/container/inlined_vector.h"
#include "absl/types/optional.h"
#include "nsasm/execution_state.h"
using namespace nsasm;

inline StatusFlags flags(In& in) {
  int v[4];
  for (int& x : v) x = (int)dc(in);
  return StatusFlags((BitState)v[0], (BitState)v[1], (BitState)v[2], (BitState)v[3]);
}
inline std::string show(const StatusFlags& s) {
  return fmt("%d %d %d %d", (int)s.EBit(), (int)s.MBit(), (int)s.XBit(), (int)s.CBit());
}
// -- stack entries: "T V e m x c" (type, value, flags)
inline RegisterValue orig(bool o) { return RegisterValue(o ? RegisterValue::T_original : RegisterValue::T_unknown); }
inline StackValue entry(In& in) {
  int t = (int)dc(in), v = (int)dc(in);
  StatusFlags f = flags(in);
  if (t == StackValue::T_unknown) return StackValue();
  if (t == StackValue::T_byte) return StackValue((uint8_t)v);
  if (t == StackValue::T_flags) return StackValue(f);
  StackValue s((StackValue::Type)t, orig(true));
  return StackValue((StackValue::Type)t, orig(!s.IsVarSize() || v == 1));
}
inline std::string show(const StackValue& v) {
  int n = 0;
  if (v.type() == StackValue::T_byte) n = v.value();
  if (v.IsVarSize()) n = v == StackValue(v.type(), orig(true));
  std::string r = fmt("%d %d ", (int)v.type(), n);
  return r + (v.type() == StackValue::T_flags ? show(v.flags()) : std::string("0 0 0 0"));
}
inline RegisterValue reg(In& in) {  // "T V"
  int t = (int)dc(in), v = (int)dc(in);
  return t == RegisterValue::T_value ? RegisterValue((uint16_t)v) : RegisterValue((RegisterValue::Type)t);
}
inline std::string show(const RegisterValue& r) { return fmt("%d %d", (int)r.type(), (int)*r); }

// Pushes an entry; the high byte of a register comes alone after a pull of its low byte.
inline void push(Stack& s, const StackValue& v) {
  StatusFlags native(B_off, B_off, B_off), small(B_off, B_on, B_on), entry(B_original, B_original, B_original);
  switch (v.type()) {
    case StackValue::T_unknown: s.PushUnknownByte(); break;
    case StackValue::T_byte: s.PushByte(v.value()); break;
    case StackValue::T_flags: s.PushFlags(v.flags()); break;
    case StackValue::T_a_hi: s.PushA(orig(true), native); s.PullByte(); break;
    case StackValue::T_x_hi: s.PushX(orig(true), native); s.PullByte(); break;
    case StackValue::T_y_hi: s.PushY(orig(true), native); s.PullByte(); break;
    case StackValue::T_a_lo: s.PushA(orig(true), small); break;
    case StackValue::T_x_lo: s.PushX(orig(true), small); break;
    case StackValue::T_y_lo: s.PushY(orig(true), small); break;
    case StackValue::T_a_varsize: s.PushA(orig(v == StackValue(v.type(), orig(true))), entry); break;
    case StackValue::T_x_varsize: s.PushX(orig(v == StackValue(v.type(), orig(true))), entry); break;
    case StackValue::T_y_varsize: s.PushY(orig(v == StackValue(v.type(), orig(true))), entry); break;
    case StackValue::T_dbr: s.PushDBR(orig(true)); break;
  }
}
inline Stack stack(In& in) {  // n (or -1: abandoned) entries, bottom first
  Stack s;
  int n = (int)dc(in);
  if (n < 0) s.Abandon();
  for (int i = 0; i < n; ++i) push(s, entry(in));
  return s;
}
inline bool tracked(Stack s) {
  s.PushByte(uint8_t(77));
  return s.PullByte() == StackValue(uint8_t(77));
}
// The entries of a stack known to hold n of them if it is tracked, bottom first.
inline std::string show(Stack s, int n) {
  if (!tracked(s)) return "-1";
  std::string r;
  int k = n;
  for (; k > 0; --k) {
    Stack t = s;
    StackValue v = t.PullByte();
    if (!tracked(t)) {
      t = s;
      v = t.PullVarsize();
      if (!tracked(t)) break;
    }
    s = t;
    r = show(v) + " " + r;
  }
  return fmt("%d ", n - k) + r;
}
// Two whole states: a x y dbr flags stack, each.
inline ExecutionState state(In& in) {
  ExecutionState s;
  s.Accumulator() = reg(in);
  s.XRegister() = reg(in);
  s.YRegister() = reg(in);
  s.DataBankRegister() = reg(in);
  s.Flags() = flags(in);
  s.GetStack() = stack(in);
  return s;
}
inline std::string show(const ExecutionState& s, int n) {
  return show(s.Accumulator()) + " " + show(s.XRegister()) + " " + show(s.YRegister()) + " " + show(s.DataBankRegister()) + " " +
         show(s.Flags()) + " " + show(s.GetStack(), n);
}
