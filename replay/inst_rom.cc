// Makes the front end extract members that rom.cc itself does not use.
#include "nsasm/rom.h"
namespace {
[[maybe_unused]] void use(std::unique_ptr<nsasm::Rom> r, std::unique_ptr<nsasm::Rom> s) {
  nsasm::RomOverwriter o(std::move(r));
  nsasm::RomIdentityTest t(std::move(s));
}
}  // namespace
