// Operands and a recording sink.
#pragma once
#include "state.h"
#include "absl/memory/memory.h"
#include "nsasm/expression.h"
#include "nsasm/memory.h"

inline ExpressionOrNull expr(In& in) {  // "v N", "t TYPE N", "?" (not evaluable) or "-" (absent)
  std::string k;
  in >> k;
  if (k == "v") return absl::make_unique<Literal>((int)dc(in));
  if (k == "t") {
    int t = (int)dc(in);
    return absl::make_unique<Literal>((int)dc(in), (NumericType)t);
  }
  if (k == "?") return absl::make_unique<IdentifierExpression>(FullIdentifier("nowhere"));
  return ExpressionOrNull();
}
struct Sink : OutputSink {
  std::string log;
  bool fail = false;
  ErrorOr<void> Write(nsasm::Address a, absl::Span<const uint8_t> d) override {
    log += fmt(" %06x=", (unsigned)a.Bank() << 16 | (unsigned)a.BankAddress()) + hex(std::string(d.begin(), d.end()));
    if (fail) return Error("sink failure");
    return {};
  }
};
