From 483d692d5fd5a7d7ccdfc1410ba27237e67bf662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 01/23] fix: derive ExHiROM offset bit 22 from the bank's high
 bit

The test looked at bit 23 of the already masked result, so it was always
clear and every ExHiROM address was sent to the upper half of the cart.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4cf8731..7891440 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -26,7 +26,7 @@ ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   } else if (mapping == kExHiRom) {
     int result = bank_address | ((bank & 0x3f) << 16);
     // address bit 23 is inverted and used as bit 22 of the CART address
-    if ((result & 0x800000) == 0) {
+    if ((bank & 0x80) == 0) {
       result |= 0x400000;
     }
     return result;
-- 
2.43.0


From 81fabcb5e94dff49a27e01eb96f37a8b6ccf829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 02/23] fix: take Rom::Read's fast path only for reads that do
 not wrap

A read longer than a bank could pass the old test and return too few bytes.
---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 7891440..baa9bc1 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -47,7 +47,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
       SnesToROMAddress(address.AddWrapped(length - 1), mapping_mode_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(first_address, path_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(last_address, path_);
-  if (*last_address > *first_address) {
+  if (*last_address - *first_address == static_cast<size_t>(length) - 1) {
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-- 
2.43.0


From ae0651f43aee36ca81705aa559dea100766f77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 03/23] fix: read the ROM's data after moving it into
 RomOverwriter

The constructor used the moved-from pointer.
---
 nsasm/rom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.h b/nsasm/rom.h
index 9245a70..b0ac4a4 100644
--- a/nsasm/rom.h
+++ b/nsasm/rom.h
@@ -75,7 +75,7 @@ class RomIdentityTest : public OutputSink {
 class RomOverwriter : public OutputSink {
  public:
   RomOverwriter(std::unique_ptr<Rom> rom)
-      : rom_(std::move(rom)), data_(rom->data_) {}
+      : rom_(std::move(rom)), data_(rom_->data_) {}
 
   ErrorOr<void> Write(nsasm::Address address,
                       absl::Span<const std::uint8_t> data) override;
-- 
2.43.0


From f3d55ddcb6e655fedcd9e5a44c9deedd60f316a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 04/23] fix: reject a write just past the end of the ROM image

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index baa9bc1..0488485 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -175,7 +175,7 @@ ErrorOr<void> RomOverwriter::Write(Address address,
     auto rom_index =
         SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);
     NSASM_RETURN_IF_ERROR(rom_index);
-    if (*rom_index > data_.size()) {
+    if (*rom_index >= data_.size()) {
       return Error("Attempt to write at %s, past end of file",
                    address.AddWrapped(i).ToString());
     }
-- 
2.43.0


From e46128ae5c4ec30561a602aedcba8a3aca2d38b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 05/23] fix: close the ROM file when its header cannot be read

---
 nsasm/rom.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 0488485..5b28dd7 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -117,6 +117,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     header.resize(0x200);
     int bytes_read = fread(&header[0], 1, 0x200, f);
     if (bytes_read != 0x200) {
+      fclose(f);
       return Error("Failed to read file").SetLocation(path);
     }
     file_size -= 0x200;
-- 
2.43.0


From 6757d8ee85eb818beb72b3292821180b331b39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 06/23] fix: do not truncate the size of a large ROM file to an
 int

---
 nsasm/rom.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 5b28dd7..8c90aac 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -95,7 +95,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
     fclose(f);
     return Error("Failed to read file").SetLocation(path);
   }
-  int file_size = ftell(f);
+  long file_size = ftell(f);
   if (file_size <= 0) {
     fclose(f);
     return Error("Failed to read file").SetLocation(path);
@@ -124,7 +124,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
   }
   std::vector<uint8_t> data;
   data.resize(file_size);
-  int bytes_read = fread(&data[0], 1, file_size, f);
+  long bytes_read = fread(data.data(), 1, file_size, f);
   fclose(f);
   if (bytes_read != file_size || file_size < 0x10000) {
     return Error("Failed to read file e").SetLocation(path);
-- 
2.43.0


From c64484369a8db77485b4e922795c426ed2366281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 07/23] fix: close the output file when writing a ROM fails

---
 nsasm/rom.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 8c90aac..073f62b 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -194,11 +194,13 @@ ErrorOr<void> RomOverwriter::CreateFile(const std::string& path) const {
   if (!rom_->header_.empty()) {
     size_t written = fwrite(&rom_->header_[0], 1, 0x200, f);
     if (written != 0x200) {
+      fclose(f);
       return Error("Failed to write header").SetLocation(path);
     }
   }
   size_t written = fwrite(&data_[0], 1, data_.size(), f);
   if (written != data_.size()) {
+    fclose(f);
     return Error("Failed to write payload").SetLocation(path);
   }
   if (fclose(f) != 0) {
-- 
2.43.0


From 8403536ce1ae9cc8debfe07e0fb0843c2501fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 08/23] fix: write exactly the ROM's header and image, whatever
 their size

---
 nsasm/rom.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 073f62b..7937865 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -192,13 +192,14 @@ ErrorOr<void> RomOverwriter::CreateFile(const std::string& path) const {
     return Error("Failed to open file for write").SetLocation(path);
   }
   if (!rom_->header_.empty()) {
-    size_t written = fwrite(&rom_->header_[0], 1, 0x200, f);
-    if (written != 0x200) {
+    size_t written =
+        fwrite(rom_->header_.data(), 1, rom_->header_.size(), f);
+    if (written != rom_->header_.size()) {
       fclose(f);
       return Error("Failed to write header").SetLocation(path);
     }
   }
-  size_t written = fwrite(&data_[0], 1, data_.size(), f);
+  size_t written = fwrite(data_.data(), 1, data_.size(), f);
   if (written != data_.size()) {
     fclose(f);
     return Error("Failed to write payload").SetLocation(path);
-- 
2.43.0


From 08bd99281a60daa9cb4f412220fb84978c7c775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 09/23] fix: ToString(DirectiveName) left out .REMOTE

---
 nsasm/mnemonic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/mnemonic.cc b/nsasm/mnemonic.cc
index 6a066ef..a78e74f 100644
--- a/nsasm/mnemonic.cc
+++ b/nsasm/mnemonic.cc
@@ -44,7 +44,7 @@ std::string_view ToString(Suffix m) {
 }
 
 std::string_view ToString(DirectiveName d) {
-  if (d < D_begin || d > D_org) {
+  if (d < D_begin || d > D_remote) {
     return "";
   }
   return directive_names[d];
-- 
2.43.0


From aa836362891c7d1152879bd52e53882f4b8d316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 10/23] fix: claiming an empty chunk must not add an empty
 chunk

---
 nsasm/ranges.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/ranges.cc b/nsasm/ranges.cc
index ee72b41..e82064c 100644
--- a/nsasm/ranges.cc
+++ b/nsasm/ranges.cc
@@ -41,6 +41,10 @@ bool DataRange::Contains(nsasm::Address location) const {
 }
 
 bool DataRange::ClaimBytes(Chunk new_chunk) {
+  if (new_chunk.first >= new_chunk.second) {
+    return true;  // nothing to claim
+  }
+
   if (ranges_.empty()) {
     ranges_.push_back(new_chunk);
     return true;
-- 
2.43.0


From 3e921529d094d8d68d50d99c2c60915321a7736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 11/23] fix: quick_dump: print the error of a failed read, not
 the ROM's

---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 097ef5f..305fe49 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         break;
     }
     if (!value.ok()) {
-      absl::PrintF("%s\n", rom.error().ToString());
+      absl::PrintF("%s\n", value.error().ToString());
       return 1;
     }
     switch (stride) {
-- 
2.43.0


From 4b1ea627768c17eb472d7410054c8b34ce92f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 12/23] fix: quick_dump: reject empty numeric arguments and
 addresses past 24 bits

---
 util/quick_dump.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 305fe49..469f822 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -28,19 +28,19 @@ int main(int argc, char** argv) {
   int count;
   int stride = 1;
   int per_line = 8;
-  if (!sscanf(argv[2], "%x", &start)) {
+  if (sscanf(argv[2], "%x", &start) != 1 || start > 0xffffffu) {
     usage(argv[0]);
     return 1;
   }
-  if (!sscanf(argv[3], "%d", &count)) {
+  if (sscanf(argv[3], "%d", &count) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 4 && !sscanf(argv[4], "%d", &stride)) {
+  if (argc > 4 && sscanf(argv[4], "%d", &stride) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 5 && !sscanf(argv[5], "%d", &per_line)) {
+  if (argc > 5 && sscanf(argv[5], "%d", &per_line) != 1) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From b3be1aaf7cb545c63c9cdea214f1f29546a6b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 13/23] fix: assemble a pulled word from its high and low byte
 in that order

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bc7fc73..b8fc21b 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -459,7 +459,7 @@ class Stack {
         return RegisterValue(RegisterValue::T_original);
       } else if (lo_byte.type() == StackValue::T_byte &&
                  hi_byte.type() == StackValue::T_byte) {
-        return RegisterValue((lo_byte.value() << 8) + hi_byte.value());
+        return RegisterValue((hi_byte.value() << 8) + lo_byte.value());
       } else {
         return RegisterValue();
       }
-- 
2.43.0


From 7735b075efcd3aa5528887992873fcea3a8c6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 14/23] fix: pulling a variable-sized register from an empty
 tracked stack abandons tracking

---
 nsasm/execution_state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index b8fc21b..768b92b 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -391,7 +391,8 @@ class Stack {
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
-    if (abandoned_) {
+    if (abandoned_ || stack_.empty()) {
+      Abandon();
       return StackValue();
     }
     StackValue result = stack_.back();
-- 
2.43.0


From 42a4cc8a9179a4873638c487226fe14674adfc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 15/23] fix: pulling a variable-sized register must not trip
 the byte-value assertion

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index 768b92b..b547436 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -291,7 +291,7 @@ struct StackValue {
 
   Type type() const { return type_; }
   uint8_t value() const {
-    assert(type_ == T_byte);
+    assert(type_ == T_byte || IsVarSize());
     return value_;
   }
   StatusFlags flags() const {
-- 
2.43.0


From 9618196e1275dbddbad2857e8ccc34e505a88ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 16/23] fix: XCE must not move an 'original value' claim
 between the c and e bits

---
 nsasm/execution_state.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index b547436..b2c27c8 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -97,9 +97,12 @@ class StatusFlags {
     // "I'd use std::swap here, but c_bit_ and e_bit_ are bitfield members,
     // and thus can't be passed to functions by reference."
     // "Sir, this is an Arby's."
+    //
+    // B_original means "this bit's own value on entrance", so it does not
+    // survive a move to the other bit.
     uint8_t old_c_bit = c_bit_;
-    c_bit_ = e_bit_;
-    e_bit_ = old_c_bit;
+    c_bit_ = (e_bit_ == B_original) ? B_unknown : e_bit_;
+    e_bit_ = (old_c_bit == B_original) ? B_unknown : old_c_bit;
     m_bit_ = ConstrainedForEBit(MBit(), EBit());
     x_bit_ = ConstrainedForEBit(XBit(), EBit());
   }
-- 
2.43.0


From 775dbc7520b1680a2edc8a4d6fbd5b2b26a91803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 17/23] fix: track the stack effect of PHB, PHD, PHK, PLB, PLD,
 TCS and TXS

---
 nsasm/instruction.cc | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6ac13fb..2d8267a 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -356,6 +356,47 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Other registers pushed to and pulled from the stack.  Apart from the data
+  // bank register we don't track their values, but the stack depth must agree.
+  if (m == M_phb) {
+    es->GetStack().PushDBR(es->DataBankRegister());
+    return {};
+  }
+
+  if (m == M_phd) {
+    es->GetStack().PushUnknownWord();
+    return {};
+  }
+
+  if (m == M_phk) {
+    es->GetStack().PushUnknownByte();
+    return {};
+  }
+
+  if (m == M_plb) {
+    StackValue value = es->GetStack().PullByte();
+    if (value.type() == StackValue::T_dbr) {
+      es->DataBankRegister() = RegisterValue(RegisterValue::T_original);
+    } else if (value.type() == StackValue::T_byte) {
+      es->DataBankRegister() = RegisterValue(value.value());
+    } else {
+      es->DataBankRegister() = RegisterValue();
+    }
+    return {};
+  }
+
+  if (m == M_pld) {
+    es->GetStack().PullByte();
+    es->GetStack().PullByte();
+    return {};
+  }
+
+  // Instructions that change the stack pointer.
+  if (m == M_tcs || m == M_txs) {
+    es->GetStack().Abandon();
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From ed1d902e884e3e9104f8b9c5db47a7b352456f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 18/23] fix: block moves take their length from the accumulator

MVN and MVP adjusted the tracked index registers by their first operand,
overflowing when it is near the limits of an int.
---
 nsasm/instruction.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 2d8267a..a51493d 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -287,7 +287,12 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
   }
 
   if (m == M_mvn || m == M_mvp) {
-    auto initial_a = maybe_arg1();
+    // The length of the block is in the full 16-bit accumulator, which is only
+    // tracked while the `m` flag is off.
+    RegisterValue initial_a;
+    if (es->Flags().MBit() == B_off) {
+      initial_a = es->Accumulator();
+    }
     if (es->Flags().MBit() == B_on) {
       es->Accumulator() = 0xff;
     } else if (es->Flags().MBit() == B_off) {
@@ -295,7 +300,7 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     } else {
       es->WipeAccumulator();
     }
-    if (!initial_a.has_value()) {
+    if (!initial_a.HasValue()) {
       es->XRegister() = RegisterValue();
       es->YRegister() = RegisterValue();
     } else {
-- 
2.43.0


From 7f5b8f5eb60e8afec508f1eed7008600fa8a9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:11 +0000
Subject: [PATCH 19/23] fix: a branch target outside the address space is an
 error

Assembling such a branch hit an assertion in Address.
---
 nsasm/instruction.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index a51493d..887365d 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -527,6 +527,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel8) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (*val1 < 0 || *val1 > 0xffffff) {
+      return Error("Branch target out of range");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(2);
     auto offset = target.SubtractWrapped(branch_base);
@@ -541,6 +544,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel16) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (*val1 < 0 || *val1 > 0xffffff) {
+      return Error("Branch target out of range");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(3);
     auto offset = target.SubtractWrapped(branch_base);
-- 
2.43.0


From eec44005247e4437516fae49c7f1a49d2279bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:11 +0000
Subject: [PATCH 20/23] fix: the far target of a jump is the 24 bits assembled

FarBranchTarget hit an assertion in Address for a larger operand, which
assembles to its low three bytes.
---
 nsasm/instruction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 887365d..82cd395 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -564,7 +564,7 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_l && (mnemonic == M_jmp || mnemonic == M_jsl)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(*target);
+      return nsasm::Address(*target & 0xffffff);
     }
     return absl::nullopt;
   }
-- 
2.43.0


From 8c05814f8f9c772f9a681010c0ccada2f27cf29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 21/23] fix: evaluate expressions in wrapping 32-bit arithmetic

Overflow in +, -, * and negation was undefined, and dividing the smallest
number by -1 stopped the program.
---
 nsasm/expression.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/nsasm/expression.h b/nsasm/expression.h
index 1f9bddb..aefedbf 100644
--- a/nsasm/expression.h
+++ b/nsasm/expression.h
@@ -23,16 +23,33 @@ struct BinaryOp {
   char symbol = 0;
 };
 
+// Arithmetic on 32-bit values wraps around.
+inline int WrappingAdd(int a, int b) {
+  return static_cast<int>(static_cast<unsigned>(a) + static_cast<unsigned>(b));
+}
+inline int WrappingSubtract(int a, int b) {
+  return static_cast<int>(static_cast<unsigned>(a) - static_cast<unsigned>(b));
+}
+inline int WrappingMultiply(int a, int b) {
+  return static_cast<int>(static_cast<unsigned>(a) * static_cast<unsigned>(b));
+}
+
 inline BinaryOp MakePlusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a + b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrappingAdd(a, b);
+  };
   return BinaryOp(op, '+');
 }
 inline BinaryOp MakeMinusOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a - b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrappingSubtract(a, b);
+  };
   return BinaryOp(op, '-');
 }
 inline BinaryOp MakeMultiplyOp() {
-  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> { return a * b; };
+  BinaryOp::FnPtr op = [](int a, int b) -> ErrorOr<int> {
+    return WrappingMultiply(a, b);
+  };
   return BinaryOp(op, '*');
 }
 inline BinaryOp MakeDivideOp() {
@@ -40,6 +57,9 @@ inline BinaryOp MakeDivideOp() {
     if (b == 0) {
       return Error("division by zero");
     }
+    if (b == -1) {
+      return WrappingSubtract(0, a);
+    }
     return a / b;
   };
   return BinaryOp(op, '/');
@@ -59,7 +79,9 @@ struct UnaryOp {
 };
 
 inline UnaryOp MakeNegateOp() {
-  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> { return -a; };
+  UnaryOp::FnPtr fn = [](int a) -> ErrorOr<int> {
+    return WrappingSubtract(0, a);
+  };
   UnaryOp::TypeFnPtr tfn = [](NumericType t) { return Signed(t); };
   return UnaryOp(fn, tfn, '-');
 }
-- 
2.43.0


From 12b96b271db4e9437c6a354efff94ff934dd72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 22/23] fix: values outside the address space crashed the
 assembler

.org and .remote now reject values that are no 24-bit address (before, they
ran into the assertion in Address, or, for $1000000, wrapped to bank 0).  An
exported .equ constant that is no address is no longer taken for one.
---
 nsasm/module.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index a5a2985..7b5c4a3 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -7,6 +7,17 @@
 #include "nsasm/token.h"
 
 namespace nsasm {
+namespace {
+
+// Converts the value of an expression to an address, if it is one.
+ErrorOr<Address> AddressFromInt(int value) {
+  if (value < 0 || value > 0xffffff) {
+    return Error("Value %d is not a 24-bit address", value);
+  }
+  return Address(static_cast<uint32_t>(value));
+}
+
+}  // namespace
 
 class ModuleLookupContext : public LookupContext {
  public:
@@ -257,7 +268,9 @@ ErrorOr<void> Module::RunFirstPass() {
     if (dir && dir->name == D_org) {
       auto v = dir->argument.Evaluate(NullLookupContext());
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, dir->location);
-      pc = nsasm::Address(*v);
+      auto origin = AddressFromInt(*v);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(origin, dir->location);
+      pc = *origin;
     }
     int statement_size = line.statement.SerializedSize();
     if (statement_size > 0 && !pc.has_value()) {
@@ -358,7 +371,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     } else if (directive && directive->name == D_remote) {
       auto arg_val = directive->argument.Evaluate(context);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(arg_val, directive->location);
-      Address address(*arg_val);
+      auto remote = AddressFromInt(*arg_val);
+      NSASM_RETURN_IF_ERROR_WITH_LOCATION(remote, directive->location);
+      Address address = *remote;
       auto it = unnamed_targets_.find(address);
       if (it == unnamed_targets_.end()) {
         unnamed_targets_[address] = directive->flag_state_argument;
@@ -391,7 +406,11 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
     }
-    nsasm::Address address = line.value->ToAddress();
+    auto label_address = AddressFromInt(line.value->ToInt());
+    if (!label_address.ok()) {
+      continue;  // an .equ value need not be an address
+    }
+    nsasm::Address address = *label_address;
     if (!address_to_global_.contains(address)) {
       address_to_global_[address] = node.first;
     }
-- 
2.43.0


From ce10cdd2a6334c35bed2c32c29d2f4c9ad66145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 23/23] fix: a line reached again keeps the states it was
 reached in before

---
 nsasm/module.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index 7b5c4a3..52324f6 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -212,6 +212,10 @@ ErrorOr<void> Module::RunFirstPass() {
       return Error("Execution continues past end of file");
     }
     Line& line = lines_[node.first];
+    if (line.reached) {
+      // The analysis must hold on every path to this line.
+      node.second |= line.incoming_state;
+    }
     const ExecutionState& current_state = node.second;
     if (line.reached && line.incoming_state == current_state) {
       // we've been here before under these conditions; nothing more to do
-- 
2.43.0

