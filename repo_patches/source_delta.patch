From 037535d3d27d413f1f58957c30847d6419f93660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:23 +0000
Subject: [PATCH 1/3] fix: a variant is available from its minimal version on

is_available_for_version compared the wrong way round, so it reported variants as
available only before they were introduced (variants_for_version was empty for
every variant introduced earlier than the requested version).
---
 src/definitions/opcode_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/opcode_trait.rs b/src/definitions/opcode_trait.rs
index a71ee48..b7c5e2f 100644
--- a/src/definitions/opcode_trait.rs
+++ b/src/definitions/opcode_trait.rs
@@ -90,7 +90,7 @@ pub trait OpcodeVariantProps: Sized + 'static + Send + Sync {
     fn minimal_version(&self) -> ISAVersion;
     fn max_variant_idx_for_version(version: ISAVersion) -> usize;
     fn is_available_for_version(&self, version: ISAVersion) -> bool {
-        self.minimal_version() >= version
+        self.minimal_version() <= version
     }
     fn is_added_in_version(&self, version: ISAVersion) -> bool {
         self.minimal_version() == version
-- 
2.43.0


From f68349f56e15ec4be576d71d7276245d58d10d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:23 +0000
Subject: [PATCH 2/3] fix: report Shrink as the largest ptr variant

max_variant_idx disagreed with max_variant_idx_for_version and variants_data,
which include ptr.shrink.
---
 src/definitions/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definitions/ptr.rs b/src/definitions/ptr.rs
index 609ba64..7fb899d 100644
--- a/src/definitions/ptr.rs
+++ b/src/definitions/ptr.rs
@@ -65,7 +65,7 @@ impl OpcodeProps for PtrOpcode {
         }
     }
     fn max_variant_idx(&self, _version: ISAVersion) -> usize {
-        PtrOpcode::Pack.variant_index()
+        PtrOpcode::Shrink.variant_index()
     }
     fn input_operands(&self, _version: ISAVersion) -> Vec<Operand> {
         vec![
-- 
2.43.0


From 24cc9988a845973ab992a6c2ff7bf4d72a1c60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:23 +0000
Subject: [PATCH 3/3] fix: make the default variant the existing nop variant

The default OpcodeVariant used an operand combination that is not in the opcode
table, so serializing a default DecodedOpcode panicked.
---
 src/definitions/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/definitions/mod.rs b/src/definitions/mod.rs
index bcb8041..791e9d6 100644
--- a/src/definitions/mod.rs
+++ b/src/definitions/mod.rs
@@ -166,8 +166,8 @@ impl std::default::Default for OpcodeVariant {
     fn default() -> Self {
         OpcodeVariant {
             opcode: Opcode::Nop(NopOpcode),
-            src0_operand_type: Operand::RegOnly,
-            dst0_operand_type: Operand::RegOnly,
+            src0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
+            dst0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
             flags: [false; NUM_NON_EXCLUSIVE_FLAGS],
         }
     }
-- 
2.43.0

