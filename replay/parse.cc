// Replay operations on source text (C25, C26, C28).
#include "operand.h"
#include "nsasm/decode.h"
#include "nsasm/instruction.h"
#include "nsasm/opcode_map.h"
#include "nsasm/parse.h"
#include "nsasm/token.h"

// A name that starts with 'u' is undefined; the others have a value computed from their spelling.
struct Names : LookupContext {
  ErrorOr<int> Lookup(const FullIdentifier& id) const override {
    std::string s = id.ToString();
    if (id.Identifier()[0] == 'u') return Error("undefined");
    unsigned v = id.Qualified() ? 7 : 1;
    for (unsigned char c : s) v = v * 31 + c;
    return (int)v;
  }
};
// expr text -> err | type:value or type:? for the expression, for a copy of it and for one with a label put on it
static Op expr_("expr", [](In& in) {
  auto r = ParseExpression(str(in));
  if (!r.ok()) return std::string("err");
  auto show = [](const Expression& e) {
    auto v = e.Evaluate(Names());
    return fmt("%d:", (int)e.Type()) + (v.ok() ? fmt("%d", *v) : std::string("?"));
  };
  ExpressionOrNull copy = *r, label = copy;
  label.ApplyLabel("here");
  return show(*r) + " " + show(copy) + " " + show(label) + " " + show(ExpressionOrNull(label));
});
// tok text -> err | the tokens
static Op tok("tok", [](In& in) {
  auto r = Tokenize(str(in), Location("f", 1));
  if (!r.ok()) return std::string("err");
  std::string o;
  for (const Token& t : *r) {
    if (t.EndOfLine()) o += "eol ";
    if (auto p = t.Identifier()) o += "id:" + hex(*p) + " ";
    if (auto p = t.Literal()) o += fmt("num:%d:%d ", *p, (int)t.Type());
    if (auto p = t.Mnemonic()) o += std::string("mn:") + std::string(ToString(*p)) + " ";
    if (auto p = t.Suffix()) o += std::string("suf:") + std::string(ToString(*p)) + " ";
    if (auto p = t.DirectiveName()) o += std::string("dir:") + std::string(ToString(*p)) + " ";
    if (auto p = t.Punctuation()) o += fmt("p:%d ", (int)*p);
  }
  return o;
});
// rt bytes flags suffix -> err | text in hex, bytes it assembles to: decode, print, read back, assemble under the same flags
static Op rt("rt", [](In& in) {
  std::string b = str(in);
  StatusFlags f = flags(in);
  int suffix = (int)dc(in);
  std::vector<uint8_t> v(b.begin(), b.end());
  auto i = Decode(v, f);
  if (!i.ok()) return std::string("err");
  if (suffix) {
    auto used = FlagControllingInstructionSize(i->mnemonic);
    BitState s = used == kUsesMFlag ? f.MBit() : used == kUsesXFlag ? f.XBit() : B_unknown;
    if (s == B_on) i->suffix = S_b;
    if (s == B_off) i->suffix = S_w;
  }
  std::string text = i->ToString();
  std::string out = hex(text) + " ";
  auto t = Tokenize(text, Location("f", 1));
  if (!t.ok()) return out + "no tokens";
  auto p = Parse(*t);
  if (!p.ok()) return out + "no parse";
  if (p->size() != 1 || !absl::holds_alternative<Statement>((*p)[0])) return out + "not one statement";
  Statement& st = absl::get<Statement>((*p)[0]);
  if (!st.Instruction()) return out + "no instruction";
  Instruction& j = *st.Instruction();
  if (!j.CheckConsistency(f).ok()) return out + "inconsistent";
  if (!j.FixAddressingMode(f).ok()) return out + "not fixed";
  Sink s;
  if (!j.Assemble(nsasm::Address(0x123456), NullLookupContext(), &s).ok()) return out + "no bytes";
  return out + s.log;
});
int main(int argc, char** argv) { return driver_main(argc, argv); }
