From a43cb05e4fa92897ae1607025be164ba05428bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 01/21] fix: deliver end of stream to a half-decoded item in
 Collect

---
 src/combinator.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3f0bcbf..e483aaa 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -586,6 +586,7 @@ impl<E: SizedEncode> SizedEncode for Optional<E> {
 pub struct Collect<D, T> {
     inner: D,
     items: T,
+    started: bool,
     eos: bool,
 }
 impl<D, T: Default> Collect<D, T> {
@@ -608,6 +609,7 @@ impl<D, T: Default> Collect<D, T> {
         Collect {
             inner,
             items: T::default(),
+            started: false,
             eos: false,
         }
     }
@@ -625,9 +627,17 @@ where
         }
 
         let mut offset = 0;
-        while offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while offset < buf.len() || (self.started && eos.is_reached()) {
+            if !self.inner.is_idle() {
+                let size = track!(self.inner.decode(&buf[offset..], eos))?;
+                offset += size;
+                self.started |= size != 0;
+                if !self.inner.is_idle() {
+                    return Ok(offset);
+                }
+            }
 
+            self.started = false;
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
         }
-- 
2.43.0


From d606a46d246bb5b121ea905fb1894a0bc1b0a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 02/21] fix: let CollectN items see the end of stream and take
 no bytes

---
 src/combinator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index e483aaa..aca898c 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -861,14 +861,19 @@ where
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
-        while self.remaining_items != 0 && offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while self.remaining_items != 0 {
+            if !self.inner.is_idle() {
+                offset += track!(self.inner.decode(&buf[offset..], eos))?;
+                if !self.inner.is_idle() {
+                    break;
+                }
+            }
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
             self.remaining_items -= 1;
         }
-        if self.remaining_items != 0 {
+        if self.remaining_items != 0 && offset == buf.len() {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
         Ok(offset)
-- 
2.43.0


From 5b7995e7981744a83914d12670a41ab00b27c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 03/21] fix: report truncated input at once in the Length
 decoder

---
 src/combinator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index aca898c..bef2200 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -734,8 +734,7 @@ impl<D: Decode> Decode for Length<D> {
         let limit = cmp::min(buf.len() as u64, self.remaining_bytes) as usize;
         let required = self.remaining_bytes - limit as u64;
         let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
-        if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
-            remaining += buf.len() as u64;
+        if let Some(remaining) = eos.remaining_bytes().to_u64() {
             track_assert!(remaining >= required, ErrorKind::UnexpectedEos; remaining, required);
         }
 
-- 
2.43.0


From a6a832cef9c2bb5ac61c66d9cdd0b932da72a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 04/21] fix: make the Length encoder idle when fresh and
 reusable after an item

---
 src/combinator.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index bef2200..400ced8 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -675,6 +675,7 @@ pub struct Length<C> {
     inner: C,
     expected_bytes: u64,
     remaining_bytes: u64,
+    started: bool,
 }
 impl<C> Length<C> {
     pub(crate) fn new(inner: C, expected_bytes: u64) -> Self {
@@ -682,6 +683,7 @@ impl<C> Length<C> {
             inner,
             expected_bytes,
             remaining_bytes: expected_bytes,
+            started: false,
         }
     }
 
@@ -762,6 +764,9 @@ impl<E: Encode> Encode for Length<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
         if (buf.len() as u64) < self.remaining_bytes {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
@@ -780,31 +785,35 @@ impl<E: Encode> Encode for Length<E> {
                 ErrorKind::InvalidInput,
                 "Too small item"
             );
+            self.remaining_bytes = self.expected_bytes;
+            self.started = false;
         }
         Ok(size)
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track_assert_eq!(
-            self.remaining_bytes,
-            self.expected_bytes,
-            ErrorKind::EncoderFull
-        );
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        track!(self.inner.start_encoding(item))?;
         self.remaining_bytes = self.expected_bytes;
-        track!(self.inner.start_encoding(item))
+        self.started = true;
+        Ok(())
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.remaining_bytes)
+        ByteCount::Finite(self.exact_requiring_bytes())
     }
 
     fn is_idle(&self) -> bool {
-        self.remaining_bytes == 0
+        !self.started && self.inner.is_idle()
     }
 }
 impl<E: Encode> SizedEncode for Length<E> {
     fn exact_requiring_bytes(&self) -> u64 {
-        self.remaining_bytes
+        if self.is_idle() {
+            0
+        } else {
+            self.remaining_bytes
+        }
     }
 }
 
-- 
2.43.0


From 784cdf6f180db35714c39aa0ac1c5b489204ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 05/21] fix: keep a decoded item in MonolithicDecoder until it
 is taken

---
 src/monolithic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index cdd14db..f0bde91 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -50,6 +50,9 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
     type Item = D::Item;
 
     fn decode(&mut self, mut buf: &[u8], eos: Eos) -> Result<usize> {
+        if self.item.is_some() {
+            return Ok(0);
+        }
         if eos.is_reached() {
             let original_len = buf.len();
             let item = track!(
-- 
2.43.0


From db44e732401f76205cf25b85e034cdc5c72806df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 06/21] fix: report early end of output in MonolithicEncoder

---
 src/monolithic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index f0bde91..df54cc5 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -143,6 +143,7 @@ impl<E: MonolithicEncode> Encode for MonolithicEncoder<E> {
             if extra.is_empty() {
                 Ok(original_len - buf.len())
             } else {
+                track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos; original_len, extra.len());
                 track!(self.buf.start_encoding(extra))?;
                 Ok(original_len)
             }
-- 
2.43.0


From ca239e0ba8287cd4b663b07a802416c6fa42ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 07/21] fix: go on after an item that encodes to no bytes in
 Repeat

---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 400ced8..4e87770 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -424,7 +424,7 @@ where
 
             let size = track!(self.inner.encode(&mut buf[offset..], eos))?;
             offset += size;
-            if size == 0 {
+            if size == 0 && !self.inner.is_idle() {
                 return Ok(offset);
             }
         }
-- 
2.43.0


From e76f78cc430fcf6fd54c40b3744ba8f3c1aa56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 08/21] fix: do not pre-allocate what untrusted input merely
 declares

---
 src/bytes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 09c334b..39cd1e5 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -305,8 +305,12 @@ impl Decode for RemainingBytesDecoder {
             return Ok(0);
         }
 
+        // The distance to EOS may be declared by the input, so only reasonable sizes are reserved.
+        const MAX_RESERVE_BYTES: u64 = 1024 * 1024;
         if let Some(remaining) = eos.remaining_bytes().to_u64() {
-            self.buf.reserve_exact(buf.len() + remaining as usize);
+            if remaining <= MAX_RESERVE_BYTES {
+                self.buf.reserve_exact(buf.len() + remaining as usize);
+            }
         }
         self.buf.extend_from_slice(buf);
         self.eos = eos.is_reached();
-- 
2.43.0


From b244957862d03e26cf836ab3f965968a6fda820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 09/21] fix: refuse an item in TupleEncoder unless every member
 is idle

---
 src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 294165b..8255f41 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -1,5 +1,5 @@
 //! Encoders and decoders for tuples.
-use crate::{ByteCount, Decode, Encode, Eos, Result, SizedEncode};
+use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode};
 
 /// Decoder for tuples.
 #[derive(Debug, Default)]
@@ -108,6 +108,7 @@ macro_rules! impl_encode {
             }
 
             fn start_encoding(&mut self, t: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull);
                 $(track!(self.inner.$i.start_encoding(t.$i), "i={}", $i)?;)*
                 Ok(())
             }
-- 
2.43.0


From 8e5b3e8c8896d9234a985ba3c15180accf1f9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 10/21] fix: keep the items in progress when TupleDecoder is
 finished too early or fails

---
 src/tuple.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 8255f41..ec8528f 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -43,9 +43,11 @@ macro_rules! impl_decode {
             }
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
-                Ok((
-                    $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
-                ))
+                track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
+                let items = (
+                    $(track!(self.inner.$i.finish_decoding(), "i={}", $i)),*,
+                );
+                Ok(($(items.$i?),*,))
             }
 
             fn requiring_bytes(&self) -> ByteCount {
-- 
2.43.0


From f0dd7972e3b405e447009518edc099866917bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 11/21] fix: keep decoding state on a premature finish of
 AndThen, MaxBytes and MaybeEos

---
 src/combinator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 4e87770..8788175 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -221,6 +221,7 @@ where
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         let mut d = track_assert_some!(self.inner1.take(), ErrorKind::IncompleteDecoding);
         track!(d.finish_decoding())
     }
@@ -1055,7 +1056,9 @@ impl<D: Decode> Decode for MaxBytes<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.consumed_bytes = 0;
+        if self.inner.is_idle() {
+            self.consumed_bytes = 0;
+        }
         track!(self.inner.finish_decoding())
     }
 
@@ -1461,7 +1464,9 @@ impl<D: Decode> Decode for MaybeEos<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-        self.started = false;
+        if self.inner.is_idle() {
+            self.started = false;
+        }
         track!(self.inner.finish_decoding())
     }
 
-- 
2.43.0


From 90e03950f60eeaa42ff1591f5c8f849d58f5760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 12/21] fix: saturate instead of overflowing when adding byte
 counts

---
 src/byte_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/byte_count.rs b/src/byte_count.rs
index 23d0040..bb5da7e 100644
--- a/src/byte_count.rs
+++ b/src/byte_count.rs
@@ -51,7 +51,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_decoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
@@ -75,7 +75,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_encoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (_, ByteCount::Unknown) => ByteCount::Unknown,
-- 
2.43.0


From d42e2f3c5cc6afd3e75d6bb0c57da3b361181c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 13/21] fix: go on with the last item in the same call in Last

---
 src/combinator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 8788175..f411e73 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1299,12 +1299,13 @@ impl<E: Encode> Encode for Last<E> {
     type Item = Never;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        if self.inner.is_idle() {
-            if let Some(item) = self.item.take() {
-                track!(self.inner.start_encoding(item))?;
-            }
+        let mut offset = 0;
+        bytecodec_try_encode!(self.inner, offset, buf, eos);
+        if let Some(item) = self.item.take() {
+            track!(self.inner.start_encoding(item))?;
+            offset += track!(self.inner.encode(&mut buf[offset..], eos))?;
         }
-        track!(self.inner.encode(buf, eos))
+        Ok(offset)
     }
 
     fn start_encoding(&mut self, _item: Self::Item) -> Result<()> {
-- 
2.43.0


From daf961b01abe0363b5f4a23c4d827cf171b4de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 14/21] fix: end decode_exact when the stream ended without
 completing an item

---
 src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.rs b/src/io.rs
index 0a3951a..41c641f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -48,6 +48,7 @@ pub trait IoDecodeExt: Decode {
                 let item = track!(self.finish_decoding())?;
                 return Ok(item);
             }
+            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
     }
 }
-- 
2.43.0


From 0ec2893cf39c79a25a87481049127d80195c6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 15/21] fix: wake the task waiting for room when poll_flush
 drains a full buffer

---
 src/io_async.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io_async.rs b/src/io_async.rs
index 2e766fd..938b85a 100644
--- a/src/io_async.rs
+++ b/src/io_async.rs
@@ -75,8 +75,14 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
                     self.stream_state = StreamState::Normal;
                     self.head += size;
                     if self.head == self.tail {
+                        let was_full = self.is_full();
                         self.head = 0;
                         self.tail = 0;
+                        if was_full {
+                            if let Some(waker) = self.waker.take() {
+                                waker.wake();
+                            }
+                        }
                     }
                 }
                 Poll::Pending => {
-- 
2.43.0


From 54df45399fd1333fd221970f9c2e51ab9e1a27c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 16/21] fix: tell the encoder inside Length how many bytes
 remain

---
 src/combinator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index f411e73..21971d0 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -772,11 +772,12 @@ impl<E: Encode> Encode for Length<E> {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
 
-        let (limit, eos) = if (buf.len() as u64) < self.remaining_bytes {
-            (buf.len(), eos)
-        } else {
-            (self.remaining_bytes as usize, Eos::new(true))
-        };
+        let limit = cmp::min(buf.len() as u64, self.remaining_bytes) as usize;
+        let mut required = self.remaining_bytes - limit as u64;
+        if let Some(remaining) = eos.remaining_bytes().to_u64() {
+            required = cmp::min(required, remaining);
+        }
+        let eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
         let size = track!(self.inner.encode(&mut buf[..limit], eos))?;
         self.remaining_bytes -= size as u64;
         if self.inner.is_idle() {
-- 
2.43.0


From 98d05d53bf861dfd753de5d7a4bf604d59e2a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 17/21] fix: saturate instead of overflowing in Eos::back

---
 src/eos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eos.rs b/src/eos.rs
index 06801ab..402920d 100644
--- a/src/eos.rs
+++ b/src/eos.rs
@@ -47,7 +47,7 @@ impl Eos {
     /// ```
     pub fn back(&self, bytes: u64) -> Self {
         if let ByteCount::Finite(n) = self.0 {
-            Eos(ByteCount::Finite(n + bytes))
+            Eos(ByteCount::Finite(n.saturating_add(bytes)))
         } else {
             *self
         }
-- 
2.43.0


From 04f6b853608869453bf500ee81a5ec0547b20308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 18/21] fix: do not overflow on a huge announced distance in
 MaxBytes

---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 21971d0..4d32a65 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1045,7 +1045,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64) + remaining_bytes <= consumable_bytes,
+                track_assert!((buf.len() as u64).saturating_add(remaining_bytes) <= consumable_bytes,
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
-- 
2.43.0


From 997612262f7d4b6a53941d20563bde3677b9beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 19/21] fix: saturate instead of overflowing in
 TupleEncoder::exact_requiring_bytes

---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index ec8528f..02bbd26 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -128,7 +128,7 @@ macro_rules! impl_encode {
             $($t: SizedEncode),*
         {
             fn exact_requiring_bytes(&self) -> u64 {
-                0 $(+ self.inner.$i.exact_requiring_bytes())*
+                0u64 $(.saturating_add(self.inner.$i.exact_requiring_bytes()))*
             }
         }
     };
-- 
2.43.0


From e9502728a9ccab4e128697bf52594816a533c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:34 +0000
Subject: [PATCH 20/21] fix: let decode_exact end for a collection whose items
 may start without a byte

---
 src/combinator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 4d32a65..b486305 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -659,7 +659,12 @@ where
         if self.eos {
             ByteCount::Finite(0)
         } else {
-            self.inner.requiring_bytes()
+            match self.inner.requiring_bytes() {
+                // Only the end of the stream completes this decoder,
+                // even if the inner one can go on without a byte.
+                ByteCount::Finite(0) => ByteCount::Unknown,
+                n => n,
+            }
         }
     }
 
-- 
2.43.0


From b752cae7ca27ffb72c1e4e16a2974fca5b0a87de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:02 +0000
Subject: [PATCH 21/21] fix: bincode decoding allocates memory only for bytes
 that are there

A string or byte sequence whose declared length exceeds the stream made
BincodeDecoder allocate (and zero) that many bytes up front, which panics
with a capacity overflow or aborts the process for large lengths.
---
 src/bincode_codec.rs | 47 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/bincode_codec.rs b/src/bincode_codec.rs
index fc5115c..d43314f 100644
--- a/src/bincode_codec.rs
+++ b/src/bincode_codec.rs
@@ -3,8 +3,9 @@
 //! [bincode]: https://crates.io/crates/bincode
 use crate::monolithic::{MonolithicDecode, MonolithicDecoder, MonolithicEncode, MonolithicEncoder};
 use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result};
+use serde::de::Visitor;
 use serde::{Deserialize, Serialize};
-use std::io::{Read, Write};
+use std::io::{self, Read, Write};
 use std::marker::PhantomData;
 use trackable::error::ErrorKindExt;
 
@@ -75,9 +76,47 @@ where
     type Item = T;
 
     fn monolithic_decode<R: Read>(&self, reader: R) -> Result<Self::Item> {
-        track!(
-            bincode::deserialize_from(reader).map_err(|e| ErrorKind::InvalidInput.cause(e).into())
-        )
+        track!(bincode::deserialize_from_custom(BoundedReader(reader))
+            .map_err(|e| ErrorKind::InvalidInput.cause(e).into()))
+    }
+}
+
+/// Reader that allocates memory only for the bytes actually read,
+/// because the lengths of strings and byte sequences are declared by the input.
+#[derive(Debug)]
+struct BoundedReader<R>(R);
+impl<R: Read> Read for BoundedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.read(buf)
+    }
+}
+impl<'a, R: Read> bincode::BincodeRead<'a> for BoundedReader<R> {
+    fn forward_read_str<V>(&mut self, length: usize, visitor: V) -> bincode::Result<V::Value>
+    where
+        V: Visitor<'a>,
+    {
+        let bytes = self.get_byte_buffer(length)?;
+        let s = std::str::from_utf8(&bytes).map_err(bincode::ErrorKind::InvalidUtf8Encoding)?;
+        visitor.visit_str(s)
+    }
+
+    fn get_byte_buffer(&mut self, length: usize) -> bincode::Result<Vec<u8>> {
+        let mut bytes = Vec::new();
+        self.0
+            .by_ref()
+            .take(length as u64)
+            .read_to_end(&mut bytes)?;
+        if bytes.len() < length {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
+        Ok(bytes)
+    }
+
+    fn forward_read_bytes<V>(&mut self, length: usize, visitor: V) -> bincode::Result<V::Value>
+    where
+        V: Visitor<'a>,
+    {
+        visitor.visit_bytes(&self.get_byte_buffer(length)?)
     }
 }
 
-- 
2.43.0

