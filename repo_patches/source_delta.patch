From 44bbbfc9369090944134ac056aa18e67adc70e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 1/7] fix: match the chain implementation's cfg to the backend
 selection

The ARM backend is only selected on little-endian targets, but the chain
implementation built on its pre_enc/pre_dec was selected on big-endian ones
too, which then failed to compile (the software backends have neither).
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7eaf1fe..769297e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -339,6 +339,7 @@ cfg_if! {
                 all(feature = "nightly", target_arch = "arm", target_feature = "v8")
             ),
             target_feature = "aes",
+            target_endian = "little"
         ), all(
                 feature = "nightly",
                 target_arch = "riscv32",
-- 
2.43.0


From c98c19e088f19282e913ece28a4d3b76406e9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 2/7] fix: declare the RISC-V intrinsics with the current LLVM
 intrinsic ABI

The nightly compiler no longer has the abi_unadjusted feature and the
"unadjusted" ABI; LLVM intrinsics are declared extern "llvm-intrinsic".
Neither RISC-V backend compiled.
---
 src/aes_riscv32.rs | 2 +-
 src/aes_riscv64.rs | 2 +-
 src/lib.rs         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index fc26a38..5b34582 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -6,7 +6,7 @@ use core::{mem, slice};
 #[must_use]
 pub struct AesBlock(u32, u32, u32, u32);
 
-extern "unadjusted" {
+extern "llvm-intrinsic" {
     #[link_name = "llvm.riscv.aes32esmi"]
     fn aes32esmi(rs1: u32, rs2: u32, bs: u32) -> u32;
     #[link_name = "llvm.riscv.aes32esi"]
diff --git a/src/aes_riscv64.rs b/src/aes_riscv64.rs
index f6e6520..0abd079 100644
--- a/src/aes_riscv64.rs
+++ b/src/aes_riscv64.rs
@@ -1,7 +1,7 @@
 use core::mem;
 use core::ops::{BitAnd, BitOr, BitXor, Not};
 
-extern "unadjusted" {
+extern "llvm-intrinsic" {
     #[link_name = "llvm.riscv.aes64esm"]
     fn aes64esm(rs1: u64, rs2: u64) -> u64;
     #[link_name = "llvm.riscv.aes64es"]
diff --git a/src/lib.rs b/src/lib.rs
index 769297e..36fe917 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@
         target_feature = "zkne",
         target_feature = "zknd"
     ),
-    feature(link_llvm_intrinsics, abi_unadjusted)
+    feature(link_llvm_intrinsics)
 )]
 #![allow(
     internal_features,
-- 
2.43.0


From 39e46e994d635cd748414c3f6e0a2d90818c4207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 3/7] fix: rotate the word in the RISC-V 32 key schedules

RotWord was missing from the AES-128 and AES-192 key schedules and from the
last word of the AES-256 one.
---
 src/aes_riscv32.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index 5b34582..d2cfe21 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -204,7 +204,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3]);
+        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3].rotate_right(8));
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -224,7 +224,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5]);
+        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5].rotate_right(8));
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -232,7 +232,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47]);
+    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47].rotate_right(8));
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -261,7 +261,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55]);
+    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55].rotate_right(8));
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From 234de8164e40c3947adc8274ce55c0f8046181b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 4/7] fix: do not transmute a nested tuple in the RISC-V 64
 AES-192 key schedule

The layout of a tuple is unspecified, so the round keys may not be in order
(or even be in the array). Build the array field by field.
---
 src/aes_riscv64.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/aes_riscv64.rs b/src/aes_riscv64.rs
index 0abd079..557f1cc 100644
--- a/src/aes_riscv64.rs
+++ b/src/aes_riscv64.rs
@@ -216,9 +216,21 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         let state24 = aes64ks2(aes64ks1i(state7.2, 7), state7.0);
         let state25 = aes64ks2(state24, state7.1);
 
-        mem::transmute((
-            state0, state1, state2, state3, state4, state5, state6, state7, state24, state25,
-        ))
+        [
+            AesBlock(state0.0, state0.1),
+            AesBlock(state0.2, state1.0),
+            AesBlock(state1.1, state1.2),
+            AesBlock(state2.0, state2.1),
+            AesBlock(state2.2, state3.0),
+            AesBlock(state3.1, state3.2),
+            AesBlock(state4.0, state4.1),
+            AesBlock(state4.2, state5.0),
+            AesBlock(state5.1, state5.2),
+            AesBlock(state6.0, state6.1),
+            AesBlock(state6.2, state7.0),
+            AesBlock(state7.1, state7.2),
+            AesBlock(state24, state25),
+        ]
     }
 }
 
-- 
2.43.0


From 54c482734198291ea2daedb2870a01b8de0fba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 5/7] fix: expand keys correctly on big-endian targets with
 constant-time

The bitsliced key schedule rotates words and adds the round constants as on
a little-endian machine, but loaded the words in native byte order. Load
them as little-endian words and store them back in memory order.
---
 src/aes_bitslice.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/aes_bitslice.rs b/src/aes_bitslice.rs
index 2dda97a..0acd7c0 100644
--- a/src/aes_bitslice.rs
+++ b/src/aes_bitslice.rs
@@ -342,7 +342,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     let columns = unsafe { slice::from_raw_parts_mut(expanded_keys.as_mut_ptr().cast(), 44) };
 
     for (i, chunk) in key.chunks_exact(4).enumerate() {
-        columns[i] = u32::from_ne_bytes(chunk.try_into().unwrap());
+        columns[i] = u32::from_le_bytes(chunk.try_into().unwrap());
     }
 
     for i in (0..40).step_by(4) {
@@ -352,6 +352,10 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
     }
 
+    for column in columns {
+        *column = column.to_le();
+    }
+
     expanded_keys
 }
 
@@ -360,7 +364,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     let columns = unsafe { slice::from_raw_parts_mut(expanded_keys.as_mut_ptr().cast(), 52) };
 
     for (i, chunk) in key.chunks_exact(4).enumerate() {
-        columns[i] = u32::from_ne_bytes(chunk.try_into().unwrap());
+        columns[i] = u32::from_le_bytes(chunk.try_into().unwrap());
     }
 
     for i in (0..42).step_by(6) {
@@ -377,6 +381,10 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
 
+    for column in columns {
+        *column = column.to_le();
+    }
+
     expanded_keys
 }
 
@@ -385,7 +393,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
     let columns = unsafe { slice::from_raw_parts_mut(expanded_keys.as_mut_ptr().cast(), 60) };
 
     for (i, chunk) in key.chunks_exact(4).enumerate() {
-        columns[i] = u32::from_ne_bytes(chunk.try_into().unwrap());
+        columns[i] = u32::from_le_bytes(chunk.try_into().unwrap());
     }
 
     for i in (0..48).step_by(8) {
@@ -404,6 +412,10 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
 
+    for column in columns {
+        *column = column.to_le();
+    }
+
     expanded_keys
 }
 
-- 
2.43.0


From 415014083b5366f732e6d395d93cc279d62ae03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 6/7] fix: do not build the chains on pre_enc/pre_dec on RISC-V
 32

There, pre_enc and pre_dec add the round key after the round like enc and
dec do, not before it as the ARM instructions do. chain_enc, chain_dec and
everything built on them left out the first key and added the last two at
once.
---
 src/lib.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fe917..989628d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,21 +331,15 @@ fn enc_round_keys<const N: usize>(dec_round_keys: &[AesBlock; N]) -> [AesBlock;
 }
 
 cfg_if! {
-    if #[cfg(any(
-        all(
-            any(
-                target_arch = "aarch64",
-                target_arch = "arm64ec",
-                all(feature = "nightly", target_arch = "arm", target_feature = "v8")
-            ),
-            target_feature = "aes",
-            target_endian = "little"
-        ), all(
-                feature = "nightly",
-                target_arch = "riscv32",
-                target_feature = "zkne",
-                target_feature = "zknd"
-        )))] {
+    if #[cfg(all(
+        any(
+            target_arch = "aarch64",
+            target_arch = "arm64ec",
+            all(feature = "nightly", target_arch = "arm", target_feature = "v8")
+        ),
+        target_feature = "aes",
+        target_endian = "little"
+    ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
                 impl $name {
-- 
2.43.0


From dc7f53b8d1929c4a448244c610e7f5f5aa559c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 7/7] fix: apply InvShiftRows when decrypting on RISC-V 32

---
 src/aes_riscv32.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index d2cfe21..f2d6a51 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -18,7 +18,13 @@ extern "llvm-intrinsic" {
 }
 
 macro_rules! outer {
-    ($name:ident, $msg:ident, $rk:ident) => {{
+    (enc $name:ident, $msg:ident, $rk:ident) => {
+        outer!($name, $msg, $rk, [0 1 2 3], [1 2 3 0], [2 3 0 1], [3 0 1 2])
+    };
+    (dec $name:ident, $msg:ident, $rk:ident) => {
+        outer!($name, $msg, $rk, [0 3 2 1], [1 0 3 2], [2 1 0 3], [3 2 1 0])
+    };
+    ($name:ident, $msg:ident, $rk:ident, $([$c0:tt $c1:tt $c2:tt $c3:tt]),*) => {{
         #[inline(always)]
         fn inner(t0: u32, t1: u32, t2: u32, t3: u32, rk: u32) -> u32 {
             let mut value = rk;
@@ -30,12 +36,7 @@ macro_rules! outer {
             }
             value
         }
-        AesBlock(
-            inner($msg.0, $msg.1, $msg.2, $msg.3, $rk.0),
-            inner($msg.1, $msg.2, $msg.3, $msg.0, $rk.1),
-            inner($msg.2, $msg.3, $msg.0, $msg.1, $rk.2),
-            inner($msg.3, $msg.0, $msg.1, $msg.2, $rk.3),
-        )
+        AesBlock($(inner($msg.$c0, $msg.$c1, $msg.$c2, $msg.$c3, $rk.$c0)),*)
     }};
 }
 
@@ -124,7 +125,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_enc(self, round_key: Self) -> Self {
-        outer!(aes32esmi, self, round_key)
+        outer!(enc aes32esmi, self, round_key)
     }
 
     /// Performs one round of AES encryption function (`ShiftRows`->`SubBytes`->`MixColumns`->`AddRoundKey`)
@@ -135,7 +136,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_enc_last(self, round_key: Self) -> Self {
-        outer!(aes32esi, self, round_key)
+        outer!(enc aes32esi, self, round_key)
     }
 
     /// Performs one round of AES encryption function without `MixColumns` (`ShiftRows`->`SubBytes`->`AddRoundKey`)
@@ -146,7 +147,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_dec(self, round_key: Self) -> Self {
-        outer!(aes32dsmi, self, round_key)
+        outer!(dec aes32dsmi, self, round_key)
     }
 
     /// Performs one round of AES decryption function (`InvShiftRows`->`InvSubBytes`->`InvMixColumn`s->`AddRoundKey`)
@@ -157,7 +158,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_dec_last(self, round_key: Self) -> Self {
-        outer!(aes32dsi, self, round_key)
+        outer!(dec aes32dsi, self, round_key)
     }
 
     /// Performs one round of AES decryption function without `InvMixColumn`s (`InvShiftRows`->`InvSubBytes`->`AddRoundKey`)
-- 
2.43.0

