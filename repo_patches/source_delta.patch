From 3e92c1232feedeae9b17a8c583e922c6ec54ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:59 +0000
Subject: [PATCH 1/8] fix: restore SHA-512 family engines from all eight
 midstate words

from_midstate split the 64 byte midstate into 4 byte pieces and then asked
for 8 byte words, so it panicked for every input (also for SHA-384 and
SHA-512/256, which wrap it).
---
 src/sha512.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sha512.rs b/src/sha512.rs
index 7c73967..36480e1 100644
--- a/src/sha512.rs
+++ b/src/sha512.rs
@@ -124,8 +124,8 @@ impl HashEngine for Engine {
         assert!(length % BLOCK_SIZE == 0, "length is no multiple of the block size");
 
         let mut ret = [0; 8];
-        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+        for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(8)) {
+            *ret_val = u64::from_be_bytes(midstate_bytes.try_into().expect("8 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From 2836a8b4658400ba85c7cbc801200789aa742a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:59 +0000
Subject: [PATCH 2/8] fix: restore RIPEMD-160 engines in the byte order
 midstate() writes

midstate() writes the state words little endian, from_midstate() read them
big endian, so a restored engine computed unrelated digests.
---
 src/ripemd160.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripemd160.rs b/src/ripemd160.rs
index e064084..2794c4f 100644
--- a/src/ripemd160.rs
+++ b/src/ripemd160.rs
@@ -92,7 +92,7 @@ impl HashEngine for Engine {
 
         let mut ret = [0; 5];
         for (ret_val, midstate_bytes) in ret.iter_mut().zip(midstate[..].chunks_exact(4)) {
-            *ret_val = u32::from_be_bytes(midstate_bytes.try_into().expect("4 byte slice"));
+            *ret_val = u32::from_le_bytes(midstate_bytes.try_into().expect("4 byte slice"));
         }
 
         Engine { buffer: [0; BLOCK_SIZE], h: ret, length }
-- 
2.43.0


From bce65cb5a2f07403f177ffa4cefb646e5f8dc362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:02 +0000
Subject: [PATCH 3/8] fix: keep the length when restoring a SipHash engine

The length is part of the final SipHash word, dropping it made a restored
engine compute wrong hashes and report a wrong byte count.
---
 src/siphash24.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 2f93fe8..64164d0 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -199,8 +199,8 @@ impl HashEngine for Engine {
     fn midstate(&self) -> State { self.state.clone() }
 
     #[inline]
-    fn from_midstate(midstate: Self::Midstate, _length: usize) -> Engine {
-        Engine { state: midstate, ..Default::default() }
+    fn from_midstate(midstate: Self::Midstate, length: usize) -> Engine {
+        Engine { state: midstate, length, ..Default::default() }
     }
 }
 
-- 
2.43.0


From c0c7ed766a89c412d44b9ff64151fb16874358f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:43 +0000
Subject: [PATCH 4/8] fix: restore the outer HMAC engine with its own length

The outer engine has been fed exactly the key block when a midstate is
taken; restoring it with the inner engine's length made its padding encode
the wrong message length, so the HMAC came out wrong.
---
 src/hmac.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 8aa4470..6338155 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -264,9 +264,11 @@ impl<E: HashEngine> HashEngine for Engine<E> {
 
     #[inline]
     fn from_midstate(midstate: Midstate<E>, length: usize) -> Self {
+        // The outer engine has only been fed the key block, whatever was input since.
+        let outer_length = E::new().n_bytes_hashed() + E::BLOCK_SIZE;
         Engine {
             iengine: E::from_midstate(midstate.inner, length),
-            oengine: E::from_midstate(midstate.outer, length),
+            oengine: E::from_midstate(midstate.outer, outer_length),
         }
     }
 }
-- 
2.43.0


From 25d14cfbd8848e7f6ba67fc4564f2c6d12e82f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:22 +0000
Subject: [PATCH 5/8] fix: show the right digits of an HMAC output when a
 precision is given

With an odd precision the last digit was the low nibble of the wrong byte
(or one digit too many was shown), and upper-hex output with a precision
came out in lower case.
---
 src/hmac.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index 6338155..b9ab990 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -8,9 +8,9 @@
 //! Hash-based Message Authentication Code (HMAC).
 //!
 
-use core::{fmt, ops, str};
+use core::{cmp, fmt, ops, str};
 
-use hex::DisplayHex;
+use hex::buf_encoder::BufEncoder;
 
 use crate::{FromSliceError, HashEngine};
 
@@ -85,6 +85,34 @@ impl<const N: usize> Hash<N> {
     /// create it, however it is used in various places in Bitcoin e.g., the Bitcoin genesis
     /// block's previous blockhash and the coinbase transaction's outpoint txid.
     pub fn all_zeros() -> Self { Self([0x00; N]) }
+
+    /// Formats as hex; a precision counts hex digits.
+    fn fmt_hex(&self, f: &mut fmt::Formatter, case: hex::Case) -> fmt::Result {
+        use fmt::Write;
+
+        let n_digits = cmp::min(f.precision().unwrap_or(N * 2), N * 2);
+        let padding = f.width().unwrap_or(0).saturating_sub(n_digits);
+        let left = match f.align().unwrap_or(fmt::Alignment::Left) {
+            fmt::Alignment::Left => 0,
+            fmt::Alignment::Center => padding / 2,
+            fmt::Alignment::Right => padding,
+        };
+        let fill = f.fill();
+
+        for _ in 0..left {
+            f.write_char(fill)?;
+        }
+        let mut encoder = BufEncoder::<2>::new();
+        for (i, byte) in self.0[..(n_digits + 1) / 2].iter().enumerate() {
+            encoder.clear();
+            encoder.put_byte(*byte, case);
+            f.write_str(&encoder.as_str()[..cmp::min(2, n_digits - i * 2)])?;
+        }
+        for _ in left..padding {
+            f.write_char(fill)?;
+        }
+        Ok(())
+    }
 }
 
 #[cfg(feature = "schemars")]
@@ -123,14 +151,14 @@ impl<const N: usize> fmt::Debug for Hash<N> {
 impl<const N: usize> fmt::LowerHex for Hash<N> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         // FIXME: Can't use hex_fmt_exact because of N.
-        fmt::LowerHex::fmt(&self.0.as_hex(), f)
+        self.fmt_hex(f, hex::Case::Lower)
     }
 }
 
 impl<const N: usize> fmt::UpperHex for Hash<N> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         // FIXME: Can't use hex_fmt_exact because of N.
-        fmt::UpperHex::fmt(&self.0.as_hex(), f)
+        self.fmt_hex(f, hex::Case::Upper)
     }
 }
 impl<const N: usize> ops::Index<usize> for Hash<N> {
-- 
2.43.0


From f761a1f20774b919d2ee73d4c2bdebdd5c6ac94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:36 +0000
Subject: [PATCH 6/8] fix: read SipHash words through a pointer that covers
 them

`get_unchecked(i)` borrows a single byte, so copying 2, 4 or 8 bytes from
that reference reads outside what it may access (Miri: Undefined Behavior,
Stacked Borrows). Use the slice's own pointer, as the standard library does.
---
 src/siphash24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/siphash24.rs b/src/siphash24.rs
index 64164d0..132a85c 100644
--- a/src/siphash24.rs
+++ b/src/siphash24.rs
@@ -43,7 +43,7 @@ macro_rules! load_int_le {
         debug_assert!($i + mem::size_of::<$int_ty>() <= $buf.len());
         let mut data = 0 as $int_ty;
         ptr::copy_nonoverlapping(
-            $buf.get_unchecked($i),
+            $buf.as_ptr().add($i),
             &mut data as *mut _ as *mut u8,
             mem::size_of::<$int_ty>(),
         );
-- 
2.43.0


From 79cb59e92551fcf6ae66d60e188391e9c3c2666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:38 +0000
Subject: [PATCH 7/8] fix: build with alloc or schemars but without std

`Vec`, `String`, `Box` and `to_owned` are not in the prelude of a no_std
crate, so every feature combination with `alloc` or `schemars` and without
`std` failed to compile. Name them through the alloc crate.
---
 src/hmac.rs            | 11 ++++++-----
 src/internal_macros.rs | 11 ++++++-----
 src/lib.rs             |  2 +-
 src/sha256t.rs         | 11 ++++++-----
 4 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/hmac.rs b/src/hmac.rs
index b9ab990..77302b8 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -77,7 +77,7 @@ impl<const N: usize> Hash<N> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
@@ -117,14 +117,15 @@ impl<const N: usize> Hash<N> {
 
 #[cfg(feature = "schemars")]
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
-    fn schema_name() -> std::string::String { "Hash".to_owned() }
+    fn schema_name() -> alloc::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject =
+            <alloc::string::String>::json_schema(gen).into();
+        schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(N as u32 * 2), // FIXME: Remove cast.
             min_length: Some(N as u32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index cc36cc2..46e7afd 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -213,7 +213,7 @@ macro_rules! hash_type {
             /// Copies the underlying bytes into a new `Vec`.
             #[cfg(feature = "alloc")]
             #[inline]
-            pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+            pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
             /// Returns an all zero hash.
             ///
@@ -225,15 +225,16 @@ macro_rules! hash_type {
 
         #[cfg(feature = "schemars")]
         impl schemars::JsonSchema for Hash {
-            fn schema_name() -> String { "Hash".to_owned() }
+            fn schema_name() -> alloc::string::String { "Hash".into() }
 
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
-                let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-                schema.string = Some(Box::new(schemars::schema::StringValidation {
+                let mut schema: schemars::schema::SchemaObject =
+                    <alloc::string::String>::json_schema(gen).into();
+                schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
                     max_length: Some(len * 2),
                     min_length: Some(len * 2),
-                    pattern: Some("[0-9a-fA-F]+".to_owned()),
+                    pattern: Some("[0-9a-fA-F]+".into()),
                 }));
                 schema.into()
             }
diff --git a/src/lib.rs b/src/lib.rs
index 4caa767..148e418 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,7 +83,7 @@
 #![allow(clippy::manual_range_contains)] // More readable than clippy's format.
 #![allow(clippy::needless_borrows_for_generic_args)] // https://github.com/rust-lang/rust-clippy/issues/12454
 
-#[cfg(all(feature = "alloc", not(feature = "std")))]
+#[cfg(any(feature = "alloc", feature = "schemars"))]
 extern crate alloc;
 #[cfg(any(test, feature = "std"))]
 extern crate core;
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 798c111..3247bc5 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -118,7 +118,7 @@ impl<T: Tag> Hash<T> {
 
     /// Copies the underlying bytes into a new `Vec`.
     #[cfg(feature = "alloc")]
-    pub fn to_bytes(&self) -> Vec<u8> { self.0.to_vec() }
+    pub fn to_bytes(&self) -> alloc::vec::Vec<u8> { self.0.to_vec() }
 
     /// Returns an all zero hash.
     ///
@@ -130,14 +130,15 @@ impl<T: Tag> Hash<T> {
 
 #[cfg(feature = "schemars")]
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
-    fn schema_name() -> String { "Hash".to_owned() }
+    fn schema_name() -> alloc::string::String { "Hash".into() }
 
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
-        let mut schema: schemars::schema::SchemaObject = <String>::json_schema(gen).into();
-        schema.string = Some(Box::new(schemars::schema::StringValidation {
+        let mut schema: schemars::schema::SchemaObject =
+            <alloc::string::String>::json_schema(gen).into();
+        schema.string = Some(alloc::boxed::Box::new(schemars::schema::StringValidation {
             max_length: Some(32 * 2),
             min_length: Some(32 * 2),
-            pattern: Some("[0-9a-fA-F]+".to_owned()),
+            pattern: Some("[0-9a-fA-F]+".into()),
         }));
         schema.into()
     }
-- 
2.43.0


From fada4a4ab6762bbd19db6a3a3540ca3d36552611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:51 +0000
Subject: [PATCH 8/8] fix: do not share one JSON schema definition between hash
 types

All hash types are named "Hash", so a schema that contains two of them
referred to a single definition: that of the type seen first. Values of the
other type were invalid under it. Inline the schemas, like that of String.
---
 src/hmac.rs            | 3 +++
 src/internal_macros.rs | 3 +++
 src/sha256t.rs         | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/hmac.rs b/src/hmac.rs
index 77302b8..ec2a8ed 100644
--- a/src/hmac.rs
+++ b/src/hmac.rs
@@ -119,6 +119,9 @@ impl<const N: usize> Hash<N> {
 impl<const N: usize> schemars::JsonSchema for Hash<N> {
     fn schema_name() -> alloc::string::String { "Hash".into() }
 
+    // The name is shared by all hash types, so a reference to it would be ambiguous.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject =
             <alloc::string::String>::json_schema(gen).into();
diff --git a/src/internal_macros.rs b/src/internal_macros.rs
index 46e7afd..d054e95 100644
--- a/src/internal_macros.rs
+++ b/src/internal_macros.rs
@@ -227,6 +227,9 @@ macro_rules! hash_type {
         impl schemars::JsonSchema for Hash {
             fn schema_name() -> alloc::string::String { "Hash".into() }
 
+            // The name is shared by all hash types, so a reference to it would be ambiguous.
+            fn is_referenceable() -> bool { false }
+
             fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
                 let len = $bits / 8;
                 let mut schema: schemars::schema::SchemaObject =
diff --git a/src/sha256t.rs b/src/sha256t.rs
index 3247bc5..6363381 100644
--- a/src/sha256t.rs
+++ b/src/sha256t.rs
@@ -132,6 +132,9 @@ impl<T: Tag> Hash<T> {
 impl<T: Tag> schemars::JsonSchema for Hash<T> {
     fn schema_name() -> alloc::string::String { "Hash".into() }
 
+    // The name is shared by all hash types, so a reference to it would be ambiguous.
+    fn is_referenceable() -> bool { false }
+
     fn json_schema(gen: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
         let mut schema: schemars::schema::SchemaObject =
             <alloc::string::String>::json_schema(gen).into();
-- 
2.43.0

