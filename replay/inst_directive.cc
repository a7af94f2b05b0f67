// Makes the front end extract what the directive goals construct.
#include "nsasm/directive.h"
namespace {
[[maybe_unused]] nsasm::Directive* use() { return new nsasm::Directive(); }
}  // namespace
