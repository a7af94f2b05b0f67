// Replay operations on data directives (C27).
#include "operand.h"
#include "nsasm/directive.h"

// dir NAME address fail n operands -> size ok|err|sink writes
static Op dir("dir", [](In& in) {
  Directive d;
  std::string name;
  in >> name;
  d.name = *ToDirectiveName("." + name);
  nsasm::Address a((int)hx(in));
  Sink s;
  s.fail = dc(in);
  d.argument = expr(in);
  for (int n = (int)dc(in); n > 0; --n) d.list_argument.push_back(expr(in));
  auto r = d.Assemble(a, NullLookupContext(), &s);
  return fmt("%d ", d.SerializedSize()) + (r.ok() ? std::string("ok") : r.error().ToString() == "sink failure" ? std::string("sink") : std::string("err")) + s.log;
});
int main(int argc, char** argv) { return driver_main(argc, argv); }
