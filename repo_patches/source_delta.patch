From 889c0e04af3de280fe21a29b57fa3ced2d93c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 1/5] fix: x86: do not expand cfg_has_atomic_cas when CAS is
 not implemented

With --cfg atomic_maybe_uninit_no_cmpxchg on 32-bit x86, AtomicCompareExchange
is not implemented for 8/16/32-bit and pointer-sized integers, but
cfg_has_atomic_cas still expanded (and cfg_no_atomic_cas did not).
---
 src/arch/cfgs/x86.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/arch/cfgs/x86.rs b/src/arch/cfgs/x86.rs
index bb374de..3c89a77 100644
--- a/src/arch/cfgs/x86.rs
+++ b/src/arch/cfgs/x86.rs
@@ -78,11 +78,23 @@ macro_rules! cfg_has_atomic_128 {
 macro_rules! cfg_no_atomic_128 {
     ($($tt:tt)*) => {};
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_has_atomic_cas {
     ($($tt:tt)*) => { $($tt)* };
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_no_atomic_cas {
     ($($tt:tt)*) => {};
 }
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_has_atomic_cas {
+    ($($tt:tt)*) => {};
+}
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_no_atomic_cas {
+    ($($tt:tt)*) => { $($tt)* };
+}
-- 
2.43.0


From 1ee6db814b0f9d0ae09b028c8c75a419426b2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 2/5] fix: arm: do not mistake Armv7 for Armv8-M when rustc
 exposes the v8m target feature

---
 src/arch/mod.rs        | 5 +++--
 src/arch_legacy/mod.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index 7ad4b26..3327654 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -58,13 +58,15 @@ mod unsupported;
 
 #[cfg(any(target_arch = "aarch64", all(target_arch = "arm64ec", not(atomic_maybe_uninit_no_asm))))]
 mod aarch64;
+// Note: cfg(target_feature = "v8m") is not used here, because compilers that know it set it also for
+// Armv7 (LLVM's v8m means the Armv8-M Baseline operations, which Armv7 has), so that it doesn't tell
+// whether load-acquire/store-release are available. The build script always tells about v8m by itself.
 #[cfg(target_arch = "arm")]
 #[cfg(all(
     any(target_feature = "v6", atomic_maybe_uninit_target_feature = "v6"),
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -79,7 +81,6 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
diff --git a/src/arch_legacy/mod.rs b/src/arch_legacy/mod.rs
index 7713b0e..32a52f3 100644
--- a/src/arch_legacy/mod.rs
+++ b/src/arch_legacy/mod.rs
@@ -26,13 +26,15 @@ mod unsupported;
 
 #[cfg(target_arch = "aarch64")]
 mod aarch64;
+// Note: cfg(target_feature = "v8m") is not used here, because compilers that know it set it also for
+// Armv7 (LLVM's v8m means the Armv8-M Baseline operations, which Armv7 has), so that it doesn't tell
+// whether load-acquire/store-release are available. The build script always tells about v8m by itself.
 #[cfg(target_arch = "arm")]
 #[cfg(all(
     any(target_feature = "v6", atomic_maybe_uninit_target_feature = "v6"),
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -47,7 +49,6 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
-- 
2.43.0


From aa88b28d024752cb555b48d0736f94ee021868b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 3/5] fix: x86 (legacy): declare the whole of ecx clobbered by
 compare_exchange

---
 src/arch_legacy/x86.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arch_legacy/x86.rs b/src/arch_legacy/x86.rs
index bf1b920..5d74eaf 100644
--- a/src/arch_legacy/x86.rs
+++ b/src/arch_legacy/x86.rs
@@ -186,7 +186,7 @@ macro_rules! atomic {
                 //
                 // Refs: https://www.felixcloutier.com/x86/cmpxchg
                 unsafe {
-                    let mut r: u8;
+                    let r: u32;
                     // compare_exchange is always SeqCst.
                     asm!(
                         // load from old/new to $cmpxchg_cmp_reg/$tmp_new_reg
@@ -205,11 +205,13 @@ macro_rules! atomic {
                         old = in(reg) old,
                         new = in(reg) new,
                         out = in(reg) out_ptr,
-                        out("cl") r,
+                        // $tmp_new_reg may be wider than cl, and ch is allocatable separately from cl on x86_32.
+                        out("ecx") r,
                         out($cmpxchg_cmp_reg) _,
                         // Do not use `preserves_flags` because CMPXCHG modifies the ZF flag.
                         options(nostack),
                     );
+                    let r = r as u8;
                     crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
                     (out, r != 0)
                 }
-- 
2.43.0


From 228651119b92a4fda79d37e08bbfb89f82f26a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 4/5] fix: riscv64, loongarch64: sign-extend the expected value
 of 32-bit compare_exchange

The upper 32 bits of a register holding a 32-bit asm operand are
unspecified (e.g. garbage after a truncation from u64), whereas lr.w/ll.w
sign-extend and bne compares all 64 bits. compare_exchange could fail for
ever although the current value equals the expected one.
---
 src/arch/loongarch.rs | 20 +++++++++++++++++++-
 src/arch/riscv.rs     | 21 ++++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/arch/loongarch.rs b/src/arch/loongarch.rs
index e8fe47f..4116f9c 100644
--- a/src/arch/loongarch.rs
+++ b/src/arch/loongarch.rs
@@ -59,6 +59,23 @@ macro_rules! atomic_load {
     };
 }
 
+// The upper 32 bits of a register holding a 32-bit operand are unspecified on LA64, whereas ll.w sign-extends.
+#[cfg(target_arch = "loongarch64")]
+macro_rules! sign_extend_old {
+    ("w") => {
+        "slli.w {old}, {old}, 0"
+    };
+    ("d") => {
+        ""
+    };
+}
+#[cfg(not(target_arch = "loongarch64"))]
+macro_rules! sign_extend_old {
+    ("w") => {
+        ""
+    };
+}
+
 macro_rules! atomic {
     ($ty:ident, $size:tt) => {
         atomic_load!($ty, $size);
@@ -137,6 +154,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($failure_fence:tt) => {
                             asm!(
+                                sign_extend_old!($size),                       // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("ll.", $size, " {out}, {dst}, 0"), // atomic { out = *dst; LL = dst }
                                     "bne {out}, {old}, 3f",                    // if out != old { jump 'cmp-fail }
@@ -149,7 +167,7 @@ macro_rules! atomic {
                                     "move {tmp}, $zero",                       // tmp = 0
                                 "4:", // 'success:
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index a7392e2..43d8e68 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -57,6 +57,24 @@ macro_rules! w {
         "w"
     };
 }
+// The upper 32 bits of a register holding a 32-bit operand are unspecified on RV64, whereas lr.w sign-extends.
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv64")]
+macro_rules! sign_extend_old {
+    ("w") => {
+        "sext.w {old}, {old}"
+    };
+    ("d") => {
+        ""
+    };
+}
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv32")]
+macro_rules! sign_extend_old {
+    ("w") => {
+        ""
+    };
+}
 
 #[cfg(any(
     target_feature = "a",
@@ -227,6 +245,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($acquire:tt, $release:tt) => {
                             asm!(
+                                sign_extend_old!($size),                                      // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("lr.", $size, $acquire, " {out}, 0({dst})"),      // atomic { out = *dst; RS = dst }
                                     "bne {out}, {old}, 3f",                                   // if out != old { jump 'cmp-fail }
@@ -236,7 +255,7 @@ macro_rules! atomic {
                                 "xor {r}, {out}, {old}",                                      // r = out ^ old
                                 "seqz {r}, {r}",                                              // if r == 0 { r = 1 } else { r = 0 }
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 r = out(reg) r,
-- 
2.43.0


From b31ffab335b2bb7216a6c0f91190d62d22f5f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 5/5] fix: m68k: Scc sets the byte to all-ones, not 1

SEQ writes 0xFF on success, so assert_unchecked(r == 0 || r == 1) was
undefined behavior on every successful compare_exchange (the returned bool
was materialized as 255).
---
 src/arch/m68k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/m68k.rs b/src/arch/m68k.rs
index 23511d5..c59adf6 100644
--- a/src/arch/m68k.rs
+++ b/src/arch/m68k.rs
@@ -109,7 +109,7 @@ macro_rules! atomic {
                     let r: u8;
                     asm!(
                         concat!("cas.", $size, " {out}, {new}, ({dst})"), // atomic { if *dst == out { cc.Z = 1; *dst = new } else { cc.Z = 0; out = *dst } }
-                        "seq {r}",                                        // r = cc.Z
+                        "seq {r}",                                        // r = if cc.Z == 1 { !0 } else { 0 }
                         dst = in(reg_addr) ptr_reg!(dst),
                         new = in(reg_data) new,
                         out = inout(reg_data) old => out,
@@ -117,7 +117,7 @@ macro_rules! atomic {
                         // Do not use `preserves_flags` because CAS modifies N, Z, V, and C bits in the condition codes.
                         options(nostack),
                     );
-                    crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
+                    crate::utils::assert_unchecked(r == 0 || r == !0); // may help remove extra test
                     (out, r != 0)
                 }
             }
-- 
2.43.0

