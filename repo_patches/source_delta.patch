From 4acea1f3f766c65c9d5755d5e3efe8e7b701d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 1/7] fix: x86: Do not expand cfg_has_atomic_cas without
 CMPXCHG

With --cfg atomic_maybe_uninit_no_cmpxchg, compare_exchange is not
available on x86, but cfg_has_atomic_cas! still expanded its contents.
---
 src/arch/cfgs/x86.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/arch/cfgs/x86.rs b/src/arch/cfgs/x86.rs
index bb374de..c5896fb 100644
--- a/src/arch/cfgs/x86.rs
+++ b/src/arch/cfgs/x86.rs
@@ -78,11 +78,24 @@ macro_rules! cfg_has_atomic_128 {
 macro_rules! cfg_no_atomic_128 {
     ($($tt:tt)*) => {};
 }
+// swap is always available, but compare_exchange requires CMPXCHG.
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_has_atomic_cas {
     ($($tt:tt)*) => { $($tt)* };
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_no_atomic_cas {
     ($($tt:tt)*) => {};
 }
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_has_atomic_cas {
+    ($($tt:tt)*) => {};
+}
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_no_atomic_cas {
+    ($($tt:tt)*) => { $($tt)* };
+}
-- 
2.43.0


From 96b6c3a4343f4084af748b6fbefaeb8648454111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 2/7] fix: x86: Declare the whole register clobbered in the
 legacy compare_exchange

The code for compilers without MaybeUninit operands loads the new value
into ax/eax/rax-sized $tmp_new_reg (cx, ecx or rcx) but declared only cl as
an output, so the compiler could keep a live value in ch across it.
---
 src/arch_legacy/x86.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arch_legacy/x86.rs b/src/arch_legacy/x86.rs
index bf1b920..db1d16b 100644
--- a/src/arch_legacy/x86.rs
+++ b/src/arch_legacy/x86.rs
@@ -186,7 +186,7 @@ macro_rules! atomic {
                 //
                 // Refs: https://www.felixcloutier.com/x86/cmpxchg
                 unsafe {
-                    let mut r: u8;
+                    let mut r: $ty;
                     // compare_exchange is always SeqCst.
                     asm!(
                         // load from old/new to $cmpxchg_cmp_reg/$tmp_new_reg
@@ -205,11 +205,13 @@ macro_rules! atomic {
                         old = in(reg) old,
                         new = in(reg) new,
                         out = in(reg) out_ptr,
-                        out("cl") r,
+                        // This is not only cl because the whole of $tmp_new_reg is overwritten by new.
+                        out($tmp_new_reg) r,
                         out($cmpxchg_cmp_reg) _,
                         // Do not use `preserves_flags` because CMPXCHG modifies the ZF flag.
                         options(nostack),
                     );
+                    let r = r.to_ne_bytes()[0];
                     crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
                     (out, r != 0)
                 }
-- 
2.43.0


From 9768284ff6770960abf671efc394aba034653fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 3/7] fix: arm: Do not select the Armv8 implementation on Armv7

Recent nightly compilers expose target_feature="v8m" (LLVM's HasV8MBaseline
feature, which the Armv7 features imply) on Armv7 targets, so armv8.rs was
selected there and its LDA/STL instructions failed to assemble. Check
target_feature="acquire-release", the feature of these instructions, instead.
---
 build.rs               | 2 +-
 src/arch/mod.rs        | 4 ++--
 src/arch_legacy/mod.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/build.rs b/build.rs
index a6d5cbf..c14e8c9 100644
--- a/build.rs
+++ b/build.rs
@@ -30,7 +30,7 @@ fn main() {
 
     if version.minor >= 80 {
         println!(
-            r#"cargo:rustc-check-cfg=cfg(target_feature,values("x87","v8m","fast-serialization","isa-68020"))"#
+            r#"cargo:rustc-check-cfg=cfg(target_feature,values("acquire-release","x87","v8m","fast-serialization","isa-68020"))"#
         );
 
         // Custom cfgs set by build script. Not public API.
diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index 7ad4b26..739bb5b 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -64,7 +64,7 @@ mod aarch64;
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
+        target_feature = "acquire-release",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -79,7 +79,7 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
+    target_feature = "acquire-release",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
diff --git a/src/arch_legacy/mod.rs b/src/arch_legacy/mod.rs
index 7713b0e..35c192e 100644
--- a/src/arch_legacy/mod.rs
+++ b/src/arch_legacy/mod.rs
@@ -32,7 +32,7 @@ mod aarch64;
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
+        target_feature = "acquire-release",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -47,7 +47,7 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
+    target_feature = "acquire-release",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
-- 
2.43.0


From ad101a5b67b0d892380adf892ada16cd86ca9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 4/7] fix: riscv64: Sign-extend the expected value of 32-bit
 compare_exchange

LR.W sign-extends the loaded value, while the upper bits of the register that
holds a 32-bit asm! operand are unspecified, so comparing the registers could
report a mismatch for equal values.
---
 src/arch/riscv.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index a7392e2..da68dc1 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -58,6 +58,26 @@ macro_rules! w {
     };
 }
 
+// LR.W sign-extends the loaded value on RV64, but the upper bits of the register holding a 32-bit
+// operand of asm! are unspecified, so the operand must be sign-extended before comparing registers.
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv64")]
+macro_rules! sext_if_word {
+    ("w", $reg:tt) => {
+        concat!("sext.w ", $reg, ", ", $reg)
+    };
+    ("d", $reg:tt) => {
+        ""
+    };
+}
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv32")]
+macro_rules! sext_if_word {
+    ("w", $reg:tt) => {
+        ""
+    };
+}
+
 #[cfg(any(
     target_feature = "a",
     atomic_maybe_uninit_target_feature = "a",
@@ -227,6 +247,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($acquire:tt, $release:tt) => {
                             asm!(
+                                sext_if_word!($size, "{old}"),                                // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("lr.", $size, $acquire, " {out}, 0({dst})"),      // atomic { out = *dst; RS = dst }
                                     "bne {out}, {old}, 3f",                                   // if out != old { jump 'cmp-fail }
@@ -236,7 +257,7 @@ macro_rules! atomic {
                                 "xor {r}, {out}, {old}",                                      // r = out ^ old
                                 "seqz {r}, {r}",                                              // if r == 0 { r = 1 } else { r = 0 }
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 r = out(reg) r,
-- 
2.43.0


From df5f133306a0eec04e4dcabb62d5b004aa0e91c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 5/7] fix: loongarch64: Sign-extend the expected value of
 32-bit compare_exchange

LL.W sign-extends the loaded value, while the upper bits of the register that
holds a 32-bit asm! operand are unspecified, so comparing the registers could
report a mismatch for equal values.
---
 src/arch/loongarch.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/arch/loongarch.rs b/src/arch/loongarch.rs
index e8fe47f..1e37aae 100644
--- a/src/arch/loongarch.rs
+++ b/src/arch/loongarch.rs
@@ -21,6 +21,17 @@ use core::{
 
 use crate::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap};
 
+// LL.W sign-extends the loaded value on LA64, but the upper bits of the register holding a 32-bit
+// operand of asm! are unspecified, so the operand must be sign-extended before comparing registers.
+macro_rules! sext_if_word {
+    ("w", $reg:tt) => {
+        concat!("slli.w ", $reg, ", ", $reg, ", 0")
+    };
+    ("d", $reg:tt) => {
+        ""
+    };
+}
+
 #[rustfmt::skip]
 macro_rules! atomic_load {
     ($ty:ident, $size:tt) => {
@@ -137,6 +148,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($failure_fence:tt) => {
                             asm!(
+                                sext_if_word!($size, "{old}"),                 // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("ll.", $size, " {out}, {dst}, 0"), // atomic { out = *dst; LL = dst }
                                     "bne {out}, {old}, 3f",                    // if out != old { jump 'cmp-fail }
@@ -149,7 +161,7 @@ macro_rules! atomic {
                                     "move {tmp}, $zero",                       // tmp = 0
                                 "4:", // 'success:
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
-- 
2.43.0


From d255ee1f03ca6aba7b1422ffe412405091710da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 6/7] fix: m68k: Fix the assumption on the result of SEQ in
 compare_exchange

Scc sets the byte to all ones when the condition is true, so the success path
reached assert_unchecked(false) and returned an invalid bool.
---
 src/arch/m68k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/m68k.rs b/src/arch/m68k.rs
index 23511d5..64ba1cf 100644
--- a/src/arch/m68k.rs
+++ b/src/arch/m68k.rs
@@ -109,7 +109,7 @@ macro_rules! atomic {
                     let r: u8;
                     asm!(
                         concat!("cas.", $size, " {out}, {new}, ({dst})"), // atomic { if *dst == out { cc.Z = 1; *dst = new } else { cc.Z = 0; out = *dst } }
-                        "seq {r}",                                        // r = cc.Z
+                        "seq {r}",                                        // if cc.Z { r = 0xFF } else { r = 0 }
                         dst = in(reg_addr) ptr_reg!(dst),
                         new = in(reg_data) new,
                         out = inout(reg_data) old => out,
@@ -117,7 +117,7 @@ macro_rules! atomic {
                         // Do not use `preserves_flags` because CAS modifies N, Z, V, and C bits in the condition codes.
                         options(nostack),
                     );
-                    crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
+                    crate::utils::assert_unchecked(r == 0 || r == !0); // may help remove extra test
                     (out, r != 0)
                 }
             }
-- 
2.43.0


From e09a138271f5e2b78223a517a78dfc519b139748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:10 +0000
Subject: [PATCH 7/7] fix: arm: Support Thumb mode of Armv6

On thumbv6-none-eabi, all operations other than relaxed loads and stores failed
to assemble: 16-bit Thumb code has neither exclusive access instructions nor
MCR. Compile the functions containing them as A32 code there.
---
 src/arch/arm.rs | 83 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/src/arch/arm.rs b/src/arch/arm.rs
index 82b85f2..0224429 100644
--- a/src/arch/arm.rs
+++ b/src/arch/arm.rs
@@ -108,6 +108,9 @@ macro_rules! clrex {
     };
 }
 
+// The 16-bit Thumb instruction set of Armv6 (thumbv6-none-eabi) has neither LDREX{,B,H,D}/STREX{,B,H,D}
+// nor MCR, so the functions below are always compiled as A32 code there (see instruction_set attributes).
+
 macro_rules! asm_no_dmb {
     ($($asm:tt)*) => {
         core::arch::asm!($($asm)*)
@@ -170,6 +173,14 @@ macro_rules! atomic {
     ($ty:ident, $suffix:tt) => {
         impl AtomicLoad for $ty {
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_load(
                 src: *const MaybeUninit<Self>,
                 order: Ordering,
@@ -202,6 +213,14 @@ macro_rules! atomic {
         }
         impl AtomicStore for $ty {
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_store(
                 dst: *mut MaybeUninit<Self>,
                 val: MaybeUninit<Self>,
@@ -238,6 +257,14 @@ macro_rules! atomic {
         ))]
         impl AtomicSwap for $ty {
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_swap(
                 dst: *mut MaybeUninit<Self>,
                 val: MaybeUninit<Self>,
@@ -288,6 +315,14 @@ macro_rules! atomic {
         ))]
         impl AtomicCompareExchange for $ty {
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_compare_exchange(
                 dst: *mut MaybeUninit<Self>,
                 old: MaybeUninit<Self>,
@@ -412,6 +447,14 @@ macro_rules! atomic {
                 }
             }
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_compare_exchange_weak(
                 dst: *mut MaybeUninit<Self>,
                 old: MaybeUninit<Self>,
@@ -544,6 +587,14 @@ macro_rules! atomic64 {
         #[cfg(not(any(target_feature = "mclass", atomic_maybe_uninit_target_feature = "mclass")))]
         impl AtomicLoad for $ty {
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_load(
                 src: *const MaybeUninit<Self>,
                 order: Ordering,
@@ -580,6 +631,14 @@ macro_rules! atomic64 {
         #[cfg(not(any(target_feature = "mclass", atomic_maybe_uninit_target_feature = "mclass")))]
         impl AtomicStore for $ty {
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_store(
                 dst: *mut MaybeUninit<Self>,
                 val: MaybeUninit<Self>,
@@ -624,6 +683,14 @@ macro_rules! atomic64 {
         #[cfg(not(any(target_feature = "mclass", atomic_maybe_uninit_target_feature = "mclass")))]
         impl AtomicSwap for $ty {
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_swap(
                 dst: *mut MaybeUninit<Self>,
                 val: MaybeUninit<Self>,
@@ -673,6 +740,14 @@ macro_rules! atomic64 {
         #[cfg(not(any(target_feature = "mclass", atomic_maybe_uninit_target_feature = "mclass")))]
         impl AtomicCompareExchange for $ty {
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_compare_exchange(
                 dst: *mut MaybeUninit<Self>,
                 old: MaybeUninit<Self>,
@@ -823,6 +898,14 @@ macro_rules! atomic64 {
                 }
             }
             #[inline]
+            #[cfg_attr(
+                all(
+                    target_os = "none",
+                    target_feature = "thumb-mode",
+                    not(any(target_feature = "thumb2", target_feature = "mclass")),
+                ),
+                instruction_set(arm::a32)
+            )]
             unsafe fn atomic_compare_exchange_weak(
                 dst: *mut MaybeUninit<Self>,
                 old: MaybeUninit<Self>,
-- 
2.43.0

