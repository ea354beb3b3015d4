From fee679156f2301859c428a30cdef64cab9df8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 1/4] fix: a sub-variant is available from its minimal version
 on

is_available_for_version compared the wrong way round, so variants_for_version
returned nothing for the default ISA version.
---
 src/definitions/opcode_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/opcode_trait.rs b/src/definitions/opcode_trait.rs
index a71ee48..b7c5e2f 100644
--- a/src/definitions/opcode_trait.rs
+++ b/src/definitions/opcode_trait.rs
@@ -90,7 +90,7 @@ pub trait OpcodeVariantProps: Sized + 'static + Send + Sync {
     fn minimal_version(&self) -> ISAVersion;
     fn max_variant_idx_for_version(version: ISAVersion) -> usize;
     fn is_available_for_version(&self, version: ISAVersion) -> bool {
-        self.minimal_version() >= version
+        self.minimal_version() <= version
     }
     fn is_added_in_version(&self, version: ISAVersion) -> bool {
         self.minimal_version() == version
-- 
2.43.0


From 1eeea85a3b8162ab9de225570bf259a149ece7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 2/4] fix: largest sub-variant index of the pointer opcode is
 that of shrink

max_variant_idx disagreed with max_variant_idx_for_version and variants_data.
---
 src/definitions/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/ptr.rs b/src/definitions/ptr.rs
index 609ba64..7fb899d 100644
--- a/src/definitions/ptr.rs
+++ b/src/definitions/ptr.rs
@@ -65,7 +65,7 @@ impl OpcodeProps for PtrOpcode {
         }
     }
     fn max_variant_idx(&self, _version: ISAVersion) -> usize {
-        PtrOpcode::Pack.variant_index()
+        PtrOpcode::Shrink.variant_index()
     }
     fn input_operands(&self, _version: ISAVersion) -> Vec<Operand> {
         vec![
-- 
2.43.0


From 3d7b9ff74d36c3bde18da97baf11548e1c24bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 3/4] fix: the default variant is the NOP the opcode table
 lists

Nop with RegOnly operands has no opcode number, so encoding a default
instruction panicked.
---
 src/definitions/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/definitions/mod.rs b/src/definitions/mod.rs
index bcb8041..791e9d6 100644
--- a/src/definitions/mod.rs
+++ b/src/definitions/mod.rs
@@ -166,8 +166,8 @@ impl std::default::Default for OpcodeVariant {
     fn default() -> Self {
         OpcodeVariant {
             opcode: Opcode::Nop(NopOpcode),
-            src0_operand_type: Operand::RegOnly,
-            dst0_operand_type: Operand::RegOnly,
+            src0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
+            dst0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
             flags: [false; NUM_NON_EXCLUSIVE_FLAGS],
         }
     }
-- 
2.43.0


From 7c137f82da2d0d40dc7ffaa4e463c0c71e638fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 4/4] fix: words with bits set above the second immediate are
 not canonical

The 128-bit testing encoding uses 96 bits; the upper 32 were ignored by both the
decoder and the canonicality check, so distinct words passed as canonical
encodings of the same instruction.
---
 src/decoding/encoding_mode_testing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoding/encoding_mode_testing.rs b/src/decoding/encoding_mode_testing.rs
index 4018320..bcc665b 100644
--- a/src/decoding/encoding_mode_testing.rs
+++ b/src/decoding/encoding_mode_testing.rs
@@ -24,7 +24,10 @@ impl EncodingModeTesting {
     const UNUSED_GAP_RAW_MASK: u128 = (1u128
         << (Self::VARIANT_AND_CONDITION_BITS - OPCODES_TABLE_WIDTH - CONDITIONAL_BITS_WIDTH))
         - 1;
-    const UNUSED_BITS_MASK: u128 = Self::UNUSED_GAP_RAW_MASK << OPCODES_TABLE_WIDTH;
+    // bits above the second immediate are not decoded either
+    const UNUSED_TOP_MASK: u128 = !((1u128 << (Self::IMM1_SHIFT + u32::BITS)) - 1);
+    const UNUSED_BITS_MASK: u128 =
+        (Self::UNUSED_GAP_RAW_MASK << OPCODES_TABLE_WIDTH) | Self::UNUSED_TOP_MASK;
 
     pub fn variant_and_condition_from_u128_word(
         raw_value: u128,
-- 
2.43.0

