// Makes the front end extract what the assembly goals construct.
#include "nsasm/assembler.h"
namespace {
[[maybe_unused]] bool use(nsasm::Assembler& a, nsasm::Address x) { return a.Contains(x); }
}  // namespace
