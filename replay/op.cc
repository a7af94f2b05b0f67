// Replay operations on the opcode map (C15).
#include "common.h"
#include "nsasm/opcode_map.h"
using namespace nsasm;

static Op dec("dec", [](In& in) {
  auto r = DecodeOpcode((uint8_t)hx(in));
  return fmt("%d %d", (int)r.first, (int)r.second);
});
static Op enc("enc", [](In& in) {
  auto m = (Mnemonic)dc(in);
  auto a = (AddressingMode)dc(in);
  auto r = EncodeOpcode(m, a);
  return (r ? fmt("%02x", *r) : std::string("none")) + fmt(" %d", (int)IsLegalCombination(m, a));
});
static Op cls("cls", [](In& in) {
  auto m = (Mnemonic)dc(in);
  return fmt("%d %d %d %d", (int)ImmediateArgumentUsesMBit(m), (int)ImmediateArgumentUsesXBit(m), (int)TakesOffsetArgument(m),
             (int)TakesLongOffsetArgument(m));
});
int main(int argc, char** argv) { return driver_main(argc, argv); }
