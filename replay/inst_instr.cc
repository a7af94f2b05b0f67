// Makes the front end extract what the instruction goals construct.
#include "nsasm/instruction.h"
namespace {
[[maybe_unused]] nsasm::Instruction* use() { return new nsasm::Instruction(); }
}  // namespace
