// Makes the front end extract the members of RangeMap<T> for one T.
#include <set>
#include "nsasm/ranges.h"
template class nsasm::RangeMap<int>;
namespace {
// the type of the ghost sets of addresses
[[maybe_unused]] void ghost(std::set<unsigned> s) {}
}  // namespace
