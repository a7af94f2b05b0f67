// Replay operations on instructions (C17-C20, C24).
#include "operand.h"
#include "nsasm/decode.h"
#include "nsasm/instruction.h"

static Instruction instr(In& in) {  // mnemonic mode suffix arg1 arg2 convention
  Instruction i;
  std::string name;
  in >> name;
  i.mnemonic = *ToMnemonic(name);
  i.addressing_mode = (AddressingMode)dc(in);
  i.suffix = (Suffix)dc(in);
  i.arg1 = expr(in);
  i.arg2 = expr(in);
  int c = (int)dc(in);
  if (c == 1) i.return_convention = ReturnConvention(flags(in));
  if (c == 2) i.return_convention = ReturnConvention(NoReturn());
  return i;
}
// exec TAKEN DEPTH instruction state -> "err" or the state afterwards
static Op exec_("exec", [](In& in) {
  int taken = (int)dc(in), depth = (int)dc(in);
  Instruction i = instr(in);
  ExecutionState s = state(in);
  auto r = taken ? i.ExecuteBranch(&s) : i.Execute(&s);
  if (!r.ok()) return std::string("err");
  return show(s.Flags()) + " " + show(s.GetStack(), depth);
});
// asm instruction address fail -> size ok|err:message writes
static Op asm_("asm", [](In& in) {
  Instruction i = instr(in);
  nsasm::Address a((int)hx(in));
  Sink s;
  s.fail = dc(in);
  auto r = i.Assemble(a, NullLookupContext(), &s);
  return fmt("%d ", i.SerializedSize()) + (r.ok() ? std::string("ok") : r.error().ToString() == "sink failure" ? std::string("sink") : std::string("err")) + s.log;
});
// far instruction address -> none | target
static Op far_("far", [](In& in) {
  Instruction i = instr(in);
  auto r = i.FarBranchTarget(nsasm::Address((int)hx(in)));
  return r ? fmt("%06x", (unsigned)r->Bank() << 16 | (unsigned)r->BankAddress()) : std::string("none");
});
static Op chk("chk", [](In& in) {
  Instruction i = instr(in);
  return std::string(i.CheckConsistency(flags(in)).ok() ? "ok" : "err");
});
static Op fix("fix", [](In& in) {
  Instruction i = instr(in);
  auto r = i.FixAddressingMode(flags(in));
  return r.ok() ? fmt("ok %d", (int)i.addressing_mode) : fmt("err %d", (int)i.addressing_mode);
});
// dec bytes flags -> err | mnemonic mode size check assembled-at-$123456
static Op dec("dec", [](In& in) {
  std::string b = str(in);
  StatusFlags f = flags(in);
  std::vector<uint8_t> v(b.begin(), b.end());
  auto r = Decode(v, f);
  if (!r.ok()) return std::string("err");
  auto val = [](const ExpressionOrNull& e) {
    if (!e) return std::string("-");
    auto x = e.Evaluate(NullLookupContext());
    return x.ok() ? fmt("%d:%d", (int)e.Type(), *x) : std::string("?");
  };
  Sink s;
  bool rel = r->addressing_mode == A_rel8 || r->addressing_mode == A_rel16;
  bool ok = !rel && r->Assemble(nsasm::Address(0x123456), NullLookupContext(), &s).ok();
  return std::string(ToString(r->mnemonic)) + fmt(" %d %d %d ", (int)r->addressing_mode, r->SerializedSize(), (int)r->CheckConsistency(f).ok()) +
         val(r->arg1) + " " + val(r->arg2) + (ok ? s.log : " noasm");
});
// ded mnemonic form arg arg -> err | mode;  arg = type evaluates value is-a-name
struct Operand : Expression {
  NumericType type;
  bool has, name;
  int value;
  ErrorOr<int> Evaluate(const LookupContext&) const override {
    if (!has) return Error("no value");
    return value;
  }
  NumericType Type() const override { return type; }
  absl::optional<std::string> SimpleIdentifier() const override {
    if (!name) return absl::nullopt;
    return std::string("name");
  }
  bool RequiresLookup() const override { return !has; }
  std::set<FullIdentifier> ExternalNamesReferenced(const IsLocalContext&) const override { return {}; }
  std::string ToString() const override { return "operand"; }
  std::unique_ptr<Expression> Copy() const override { return absl::make_unique<Operand>(*this); }
};
static Operand operand(In& in) {
  Operand o;
  o.type = (NumericType)dc(in);
  o.has = dc(in);
  o.value = (int)dc(in);
  o.name = dc(in);
  return o;
}
static Op ded("ded", [](In& in) {
  std::string name;
  in >> name;
  auto mode = (SyntacticAddressingMode)dc(in);
  Operand a = operand(in), b = operand(in);
  auto r = DeduceMode(*ToMnemonic(name), mode, a, b);
  return r.ok() ? fmt("ok %d", (int)*r) : std::string("err");
});
int main(int argc, char** argv) { return driver_main(argc, argv); }
