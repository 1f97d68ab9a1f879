From fc56c66fcc0d42e9a55e21c3a04dce1e302b8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:24 +0000
Subject: [PATCH 01/17] fix: drop the rest of an over-long COBS frame in
 CobsAccumulator

After reporting OverFull the remainder of the over-long message was
treated as the start of a new message, so its tail could be reported as
a frame (or swallow part of the next one), depending on how the input
was chunked.
---
 source/postcard-rpc/src/accumulator.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/source/postcard-rpc/src/accumulator.rs b/source/postcard-rpc/src/accumulator.rs
index 493ba80..9cb1ed7 100644
--- a/source/postcard-rpc/src/accumulator.rs
+++ b/source/postcard-rpc/src/accumulator.rs
@@ -13,6 +13,8 @@ pub mod raw {
     pub struct CobsAccumulator<const N: usize> {
         buf: [u8; N],
         idx: usize,
+        // The start of the current message did not fit, drop the rest of it
+        discard: bool,
     }
 
     /// The result of feeding the accumulator.
@@ -43,6 +45,7 @@ pub mod raw {
             CobsAccumulator {
                 buf: [0; N],
                 idx: 0,
+                discard: false,
             }
         }
 
@@ -72,6 +75,13 @@ pub mod raw {
                 // of the buffer, rather than in "release".
                 let (take, release) = input.split_at(n + 1);
 
+                // This is the end of a message we already reported as overfull,
+                // the next message starts after it
+                if self.discard {
+                    self.discard = false;
+                    return self.feed_ref(release);
+                }
+
                 // Does it fit?
                 if (self.idx + take.len()) <= N {
                     // Aw yiss - add to array
@@ -90,13 +100,16 @@ pub mod raw {
                     self.idx = 0;
                     FeedResult::OverFull(release)
                 }
+            } else if self.discard {
+                FeedResult::Consumed
             } else {
                 // Does it fit?
                 if (self.idx + input.len()) > N {
-                    // nope
-                    let new_start = N - self.idx;
+                    // nope, and everything up to the end of this message is
+                    // not the start of a message either
                     self.idx = 0;
-                    FeedResult::OverFull(&input[new_start..])
+                    self.discard = true;
+                    FeedResult::OverFull(&input[input.len()..])
                 } else {
                     // yup!
                     self.extend_unchecked(input);
-- 
2.43.0


From c86cfab3daf8e5af84b4284430931aa798dd0609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:11 +0000
Subject: [PATCH 02/17] fix: take the error key into account when picking the
 key length

The device answers with ERROR_KEY as well as with the endpoint and topic
keys, so a shortened ERROR_KEY that coincides with a shortened response
or topic key made the client take one for the other.
---
 source/postcard-rpc/src/server/dispatch_macro.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/server/dispatch_macro.rs b/source/postcard-rpc/src/server/dispatch_macro.rs
index 323210f..b169574 100644
--- a/source/postcard-rpc/src/server/dispatch_macro.rs
+++ b/source/postcard-rpc/src/server/dispatch_macro.rs
@@ -352,6 +352,7 @@ macro_rules! define_dispatch {
             pub const NEEDED_SZ_OUT: usize = $crate::server::min_key_needed(&[
                 &EP_OUT_KEYS,
                 &TP_OUT_KEYS,
+                &[$crate::standard_icd::ERROR_KEY],
             ]);
             pub const NEEDED_SZ: usize = const {
                 assert!(
-- 
2.43.0


From 1b515fb52a7b8681618b1f346baad0bbb9950ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:49 +0000
Subject: [PATCH 03/17] fix: honour the configured sequence number width for
 requests

HostClientConfig::seq_kind was stored but never applied: requests were
always sent with a 4-byte sequence number, although send_resp documents
that send_resp_raw shrinks it.
---
 source/postcard-rpc/src/host_client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 3202c88..5528a0b 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -359,6 +359,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();
         rqst.header.key.shrink_to(kkind);
+        rqst.header.seq_no.resize(self.seq_kind);
         let mut resp_key = VarKey::Key8(resp_key);
         let mut err_key = VarKey::Key8(self.err_key);
         resp_key.shrink_to(kkind);
-- 
2.43.0


From 5e5d2b302682e0c42499352e5c75870b369a1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:44 +0000
Subject: [PATCH 04/17] fix: report a closed client from publish and subscribe
 once it is closed

close() promises that no further communication will succeed, but until
the workers had stopped, publish and the subscribe methods picked at
random between the closed error and success.
---
 source/postcard-rpc/src/host_client/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 5528a0b..b8af3ae 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -455,6 +455,7 @@ where
         let operate_fut = self.out.send(frame);
 
         select! {
+            biased;
             _ = cancel_fut => Err(IoClosed),
             res = operate_fut => res.map_err(|_| IoClosed),
         }
@@ -479,6 +480,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let operate_fut = self.subscribe_multi_inner::<T>(depth);
         select! {
+            biased;
             _ = cancel_fut => Err(IoClosed),
             res = operate_fut => res,
         }
@@ -524,6 +526,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let operate_fut = self.subscribe_multi_inner_raw(key, depth);
         select! {
+            biased;
             _ = cancel_fut => Err(IoClosed),
             res = operate_fut => res,
         }
@@ -575,6 +578,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let operate_fut = self.subscribe_inner::<T>(depth);
         select! {
+            biased;
             _ = cancel_fut => Err(IoClosed),
             res = operate_fut => res,
         }
@@ -625,6 +629,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let operate_fut = self.subscribe_inner_raw(key, depth);
         select! {
+            biased;
             _ = cancel_fut => Err(IoClosed),
             res = operate_fut => res,
         }
@@ -676,6 +681,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let operate_fut = self.subscribe_inner_exclusive::<T>(depth);
         select! {
+            biased;
             _ = cancel_fut => Err(SubscribeError::IoClosed),
             res = operate_fut => res,
         }
@@ -729,6 +735,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let operate_fut = self.subscribe_inner_exclusive_raw(key, depth);
         select! {
+            biased;
             _ = cancel_fut => Err(SubscribeError::IoClosed),
             res = operate_fut => res,
         }
-- 
2.43.0


From 1a3ca504eaac2a806485b43f6523b51b34097797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:35 +0000
Subject: [PATCH 05/17] fix: list the types nested inside newtype enum variants

---
 source/postcard-rpc/src/uniques.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/postcard-rpc/src/uniques.rs b/source/postcard-rpc/src/uniques.rs
index 250e459..a81842c 100644
--- a/source/postcard-rpc/src/uniques.rs
+++ b/source/postcard-rpc/src/uniques.rs
@@ -549,17 +549,25 @@ const fn type_chewer_dmt<const MAX: usize>(
                 match nvars[i].ty {
                     DataModelVariant::UnitVariant => {}
                     DataModelVariant::NewtypeVariant(nt) => {
-                        let mut k = 0;
-                        let mut found = is_prim(nt.ty);
-                        // Check against all currently known tys
-                        while !found && k < outidx {
-                            let Some(kty) = out[k] else { panic!() };
-                            found |= nty_eq(kty, nt);
-                            k += 1;
-                        }
-                        if !found {
-                            out[outidx] = Some(nt);
-                            outidx += 1;
+                        // Get the types used by the contents of this variant
+                        let (arr, used) = type_chewer_nty::<MAX>(nt);
+                        let mut j = 0;
+                        // For each type in the contents...
+                        while j < used {
+                            let Some(ty) = arr[j] else { panic!() };
+                            let mut k = 0;
+                            let mut found = is_prim(ty.ty);
+                            // Check against all currently known tys
+                            while !found && k < outidx {
+                                let Some(kty) = out[k] else { panic!() };
+                                found |= nty_eq(kty, ty);
+                                k += 1;
+                            }
+                            if !found {
+                                out[outidx] = Some(ty);
+                                outidx += 1;
+                            }
+                            j += 1;
                         }
                     }
                     DataModelVariant::TupleVariant(nts) => {
-- 
2.43.0


From b44f70501dc50d483eac9fe4345a85a80ced9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:13 +0000
Subject: [PATCH 06/17] fix: report lost data when discovery misses a type

---
 source/postcard-rpc/src/host_client/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index b8af3ae..02d5dd2 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -274,10 +274,12 @@ where
         };
         let mut rpt = SchemaReport::default();
         let mut e_and_t = vec![];
+        let mut types_received = 0;
 
         for d in data {
             match d {
                 OwnedSchemaData::Type(d) => {
+                    types_received += 1;
                     rpt.add_type(d);
                 }
                 e @ OwnedSchemaData::Endpoint { .. } => e_and_t.push(e),
@@ -307,6 +309,7 @@ where
         }
 
         let mut data_matches = true;
+        data_matches &= resp.types_sent as usize == types_received;
         data_matches &= resp.endpoints_sent as usize == rpt.endpoints.len();
         data_matches &= resp.topics_in_sent as usize == rpt.topics_in.len();
         data_matches &= resp.topics_out_sent as usize == rpt.topics_out.len();
-- 
2.43.0


From 8dd79670d13cb94f108cac8cd686cb31da5258f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:39 +0000
Subject: [PATCH 07/17] fix: resolve byte array, usize and isize types in
 schema reports

---
 source/postcard-rpc/src/host_client/mod.rs | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 02d5dd2..30dbcd8 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -18,7 +18,10 @@ use maitake_sync::{
     wait_map::{WaitError, WakeOutcome},
     WaitMap,
 };
-use postcard_schema::{schema::owned::OwnedNamedType, Schema};
+use postcard_schema::{
+    schema::owned::{OwnedDataModelType, OwnedNamedType},
+    Schema,
+};
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use tokio::{
     select,
@@ -1027,10 +1030,16 @@ impl Default for SchemaReport {
         me.add_type(OwnedNamedType::from(<u64 as Schema>::SCHEMA));
         // DataModelType::U128
         me.add_type(OwnedNamedType::from(<u128 as Schema>::SCHEMA));
-        // // DataModelType::Usize
-        // me.add_type(OwnedNamedType::from(<usize as Schema>::SCHEMA));
-        // // DataModelType::Isize
-        // me.add_type(OwnedNamedType::from(<isize as Schema>::SCHEMA));
+        // DataModelType::Usize, which has no `Schema` impl to take it from
+        me.add_type(OwnedNamedType {
+            name: "usize".into(),
+            ty: OwnedDataModelType::Usize,
+        });
+        // DataModelType::Isize, which has no `Schema` impl to take it from
+        me.add_type(OwnedNamedType {
+            name: "isize".into(),
+            ty: OwnedDataModelType::Isize,
+        });
         // DataModelType::F32
         me.add_type(OwnedNamedType::from(<f32 as Schema>::SCHEMA));
         // DataModelType::F64
@@ -1039,7 +1048,11 @@ impl Default for SchemaReport {
         me.add_type(OwnedNamedType::from(<char as Schema>::SCHEMA));
         // DataModelType::String
         me.add_type(OwnedNamedType::from(<String as Schema>::SCHEMA));
-        // DataModelType::ByteArray
+        // DataModelType::ByteArray, which has no `Schema` impl to take it from
+        me.add_type(OwnedNamedType {
+            name: "[u8]".into(),
+            ty: OwnedDataModelType::ByteArray,
+        });
         me.add_type(OwnedNamedType::from(<Vec<u8> as Schema>::SCHEMA));
         // DataModelType::Unit
         me.add_type(OwnedNamedType::from(<() as Schema>::SCHEMA));
-- 
2.43.0


From 4a34b6fda16fac8e67331b26e5c88e00b0b2fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:04 +0000
Subject: [PATCH 08/17] fix: reserve enough length bytes for formatted log
 messages

A varint byte holds 7 bits, so one byte only covers lengths below 1 << 7. With
the old limits a formatted message of 128..=255 bytes (or 16384..=32767, ...)
did not fit the reserved field and send_log_fmt panicked.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 8 ++++----
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 261c61e..cfb8d8c 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -515,13 +515,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 431e5ba..be07465 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -563,13 +563,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
-- 
2.43.0


From 3800c79d1381a2e6dbe0eb49bfbc8429aa3452b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:04 +0000
Subject: [PATCH 09/17] fix: do not panic when a formatted log message does not
 fit

SliceWriter copied the whole piece into the part that was left, which panics
in copy_from_slice instead of truncating as intended.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 2 +-
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index cfb8d8c..4a962ab 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -469,7 +469,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index be07465..4faa0bb 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -517,7 +517,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0


From 1e9daa66c7ce4b28fd6f51b9176c80a50a975c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:51 +0000
Subject: [PATCH 10/17] fix: keep truncated formatted log messages decodable

The three dots could replace only a part of a multi-byte character, so the
host could not decode the message at all. Truncation also went unmarked when
a Display impl ignored the write error, and with fewer than three bytes of
room; the latter is now refused.
---
 .../src/server/impls/embassy_usb_v0_3.rs      | 41 ++++++++++++-------
 .../src/server/impls/embassy_usb_v0_4.rs      | 41 ++++++++++++-------
 2 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 4a962ab..38d8d36 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -371,19 +371,28 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
 
         // Then, do the formatting
         let body_len = body.len();
-        let mut sw = SliceWriter(body);
+        let mut sw = SliceWriter {
+            remain: body,
+            truncated: false,
+        };
         let res = core::fmt::write(&mut sw, args);
+        let truncated = res.is_err() || sw.truncated;
 
         // Calculate the number of bytes used *for formatting*.
-        let remain = sw.0.len();
-        let used = body_len - remain;
-
-        // If we had an error, that's probably because we ran out
-        // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
-        if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+        let mut used = body_len - sw.remain.len();
+
+        // If the message was cut short, that's probably because we ran
+        // out of room: end it with '.'s like ..., replacing whole
+        // characters so that the message is still a valid string.
+        if truncated {
+            let Some(mut start) = body_len.checked_sub(3).map(|s| s.min(used)) else {
+                return Err(WireTxErrorKind::Other);
+            };
+            while start > 0 && start < used && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
+            used = start + 3;
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -402,7 +411,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - body_len + used;
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame).await
     }
@@ -458,11 +467,14 @@ where
     }
 }
 
-struct SliceWriter<'a>(&'a mut [u8]);
+struct SliceWriter<'a> {
+    remain: &'a mut [u8],
+    truncated: bool,
+}
 
 impl<'a> core::fmt::Write for SliceWriter<'a> {
     fn write_str(&mut self, s: &str) -> Result<(), core::fmt::Error> {
-        let sli = core::mem::take(&mut self.0);
+        let sli = core::mem::take(&mut self.remain);
 
         // If this write would overflow us, note that, but still take
         // as much as we possibly can here
@@ -470,10 +482,11 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
         now.copy_from_slice(&s.as_bytes()[..to_write]);
-        self.0 = later;
+        self.remain = later;
 
         // Now, report whether we overflowed or not
         if bad {
+            self.truncated = true;
             Err(core::fmt::Error)
         } else {
             Ok(())
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 4faa0bb..c08f4f1 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -418,19 +418,28 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
 
         // Then, do the formatting
         let body_len = body.len();
-        let mut sw = SliceWriter(body);
+        let mut sw = SliceWriter {
+            remain: body,
+            truncated: false,
+        };
         let res = core::fmt::write(&mut sw, args);
+        let truncated = res.is_err() || sw.truncated;
 
         // Calculate the number of bytes used *for formatting*.
-        let remain = sw.0.len();
-        let used = body_len - remain;
-
-        // If we had an error, that's probably because we ran out
-        // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
-        if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+        let mut used = body_len - sw.remain.len();
+
+        // If the message was cut short, that's probably because we ran
+        // out of room: end it with '.'s like ..., replacing whole
+        // characters so that the message is still a valid string.
+        if truncated {
+            let Some(mut start) = body_len.checked_sub(3).map(|s| s.min(used)) else {
+                return Err(WireTxErrorKind::Other);
+            };
+            while start > 0 && start < used && (body[start] & 0xC0) == 0x80 {
+                start -= 1;
+            }
+            used = start + 3;
+            body[start..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -449,7 +458,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - body_len + used;
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame, *timeout_ms_per_frame).await
     }
@@ -506,11 +515,14 @@ where
     }
 }
 
-struct SliceWriter<'a>(&'a mut [u8]);
+struct SliceWriter<'a> {
+    remain: &'a mut [u8],
+    truncated: bool,
+}
 
 impl<'a> core::fmt::Write for SliceWriter<'a> {
     fn write_str(&mut self, s: &str) -> Result<(), core::fmt::Error> {
-        let sli = core::mem::take(&mut self.0);
+        let sli = core::mem::take(&mut self.remain);
 
         // If this write would overflow us, note that, but still take
         // as much as we possibly can here
@@ -518,10 +530,11 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
         now.copy_from_slice(&s.as_bytes()[..to_write]);
-        self.0 = later;
+        self.remain = later;
 
         // Now, report whether we overflowed or not
         if bad {
+            self.truncated = true;
             Err(core::fmt::Error)
         } else {
             Ok(())
-- 
2.43.0


From 0aef2ba947d889b3459b53716c4868a9e57e31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:39 +0000
Subject: [PATCH 11/17] fix: claim the USB interface that matched

The position in the interface list was taken for the interface number, so on a
device whose interface numbers have gaps the wrong interface (or none) was
claimed.
---
 source/postcard-rpc/src/host_client/raw_nusb.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/raw_nusb.rs b/source/postcard-rpc/src/host_client/raw_nusb.rs
index b88f4b5..7035eba 100644
--- a/source/postcard-rpc/src/host_client/raw_nusb.rs
+++ b/source/postcard-rpc/src/host_client/raw_nusb.rs
@@ -94,7 +94,8 @@ where
         #[cfg(not(target_os = "windows"))]
         let interface_id = x
             .interfaces()
-            .position(|i| i.class() == 0xFF)
+            .find(|i| i.class() == 0xFF)
+            .map(|i| i.interface_number() as usize)
             .ok_or_else(|| String::from("Failed to find matching interface!!"))?;
 
         #[cfg(target_os = "windows")]
@@ -160,7 +161,7 @@ where
         F2: FnMut(&InterfaceInfo) -> bool,
     >(
         device_func: F1,
-        interface_func: F2,
+        mut interface_func: F2,
         err_uri_path: &str,
         outgoing_depth: usize,
         seq_no_kind: VarSeqKind,
@@ -171,7 +172,8 @@ where
             .ok_or_else(|| String::from("Failed to find matching nusb device!"))?;
         let interface_id = x
             .interfaces()
-            .position(interface_func)
+            .find(|i| interface_func(i))
+            .map(|i| i.interface_number() as usize)
             .ok_or_else(|| String::from("Failed to find matching interface!!"))?;
 
         Self::try_from_nusb_and_interface(
-- 
2.43.0


From 2f55d9d5a5f1854d91fc7177765cc674db9ba427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 12/17] fix: accept serial messages with short headers

Headers have variable length keys, so a complete message may be as short as
3 bytes. The serial client dropped every message shorter than 9 bytes.
---
 source/postcard-rpc/src/host_client/serial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 98e2a34..b5473a3 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -211,10 +211,10 @@ impl SerialWireRx {
                     }
                     // We got a message! Attempt to dispatch it
                     FeedResult::Success { data, remaining } => {
-                        // TODO hacky check: the minimum size of a message is 9 bytes,
-                        // 8 for the header and one for the seq_no. Discard any "obviously"
-                        // malformed messages.
-                        if data.len() >= 9 {
+                        // TODO hacky check: the minimum size of a message is 3 bytes,
+                        // one for the header kinds, and at least one each for the key and
+                        // the seq_no. Discard any "obviously" malformed messages.
+                        if data.len() >= 3 {
                             self.pending.push_back(data.to_vec());
                         } else {
                             tracing::warn!("Ignoring too-short message: {} bytes", data.len());
-- 
2.43.0


From 14574c72520daf36060d194ae297aa9014a4cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 13/17] fix: close the serial client when the port hangs up

A read of zero bytes means end of file: without this the receive loop spins
forever and pending requests are never told that the connection is gone.
---
 source/postcard-rpc/src/host_client/serial.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index b5473a3..24dfb00 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -192,6 +192,11 @@ impl SerialWireRx {
             // data from the serial port
             let used = self.rx.read(self.buf.as_mut_slice()).await?;
 
+            // Reading nothing means the other side is gone
+            if used == 0 {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+
             let mut window = &self.buf[..used];
 
             // This buffering loop is necessary as a single `read()` might include
-- 
2.43.0


From 7b6d7aee264f15f0044575a2ccad64f065f22ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:23 +0000
Subject: [PATCH 14/17] fix: stopping a client is no longer undone by a
 concurrently finishing operation

WaitQueue::close can be lost when the last waiter is released at the same time,
leaving the client open (is_closed() false, workers running) after close().
---
 source/postcard-rpc/src/host_client/util.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/postcard-rpc/src/host_client/util.rs b/source/postcard-rpc/src/host_client/util.rs
index 98f1580..60a6085 100644
--- a/source/postcard-rpc/src/host_client/util.rs
+++ b/source/postcard-rpc/src/host_client/util.rs
@@ -60,7 +60,14 @@ impl Stopper {
     ///
     /// All current and future calls to [Self::wait_stopped] will complete immediately
     pub fn stop(&self) {
-        self.inner.close();
+        // If the last waiter is removed concurrently, `close` may be undone by it,
+        // make sure that we really are stopped before returning
+        loop {
+            self.inner.close();
+            if self.inner.is_closed() {
+                return;
+            }
+        }
     }
 }
 
-- 
2.43.0


From b3bd32c782256e31c126e53764540dffb12fc99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:37 +0000
Subject: [PATCH 15/17] verification hook: allow building the webusb transport
 natively (cfg vp_native_webusb)

---
 source/postcard-rpc/src/host_client/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 30dbcd8..78f0039 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -2,6 +2,7 @@
 //!
 //! This library is meant to be used with the `Dispatch` type and the
 //! postcard-rpc wire protocol.
+#![allow(unexpected_cfgs)]
 
 use core::time::Duration;
 use std::{
@@ -44,7 +45,9 @@ mod raw_nusb;
 #[cfg(all(feature = "cobs-serial", not(target_family = "wasm")))]
 mod serial;
 
-#[cfg(all(feature = "webusb", target_family = "wasm"))]
+// `vp_native_webusb` lets a verification harness build this transport natively against a
+// simulated browser.
+#[cfg(all(feature = "webusb", any(target_family = "wasm", vp_native_webusb)))]
 pub mod webusb;
 
 pub(crate) mod util;
-- 
2.43.0


From e832dc0d902ec99a1a2348d91c7f1bd812460334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 16/17] fix: report a stalled outgoing WebUSB transfer as an
 error

transferOut() resolves with a status; a stall was taken for success and the
frame silently lost.
---
 source/postcard-rpc/src/host_client/webusb.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/webusb.rs b/source/postcard-rpc/src/host_client/webusb.rs
index 8609f82..ad5ecad 100644
--- a/source/postcard-rpc/src/host_client/webusb.rs
+++ b/source/postcard-rpc/src/host_client/webusb.rs
@@ -7,7 +7,7 @@ use serde_json::json;
 use tracing::info;
 use wasm_bindgen::{prelude::*, JsCast};
 use wasm_bindgen_futures::{spawn_local, JsFuture};
-use web_sys::{UsbDevice, UsbInTransferResult, UsbTransferStatus};
+use web_sys::{UsbDevice, UsbInTransferResult, UsbOutTransferResult, UsbTransferStatus};
 
 use crate::header::VarSeqKind;
 use crate::host_client::{HostClient, WireRx, WireSpawn, WireTx};
@@ -159,8 +159,17 @@ impl WireTx for WebUsbWire {
         let data: js_sys::Uint8Array = data.as_slice().into();
         // TODO for reasons unknown, web-sys wants mutable access to the send buffer.
         // tracking issue: https://github.com/rustwasm/wasm-bindgen/issues/3963
-        JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, &data)?).await?;
-        Ok(())
+        let res: UsbOutTransferResult =
+            JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, &data)?)
+                .await?
+                .into();
+
+        let status = res.status();
+        if status == UsbTransferStatus::Ok {
+            Ok(())
+        } else {
+            Err(status.into())
+        }
     }
 }
 
-- 
2.43.0


From 08522a485838bc56bf8fbbd2b7a71c61ad4ff55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:29 +0000
Subject: [PATCH 17/17] fix: end outgoing WebUSB frames of full packets with an
 empty transfer

A frame whose length is a multiple of the packet size was not delimited: the
device kept waiting for more and took the next frame for its continuation.
---
 source/postcard-rpc/src/host_client/webusb.rs | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/webusb.rs b/source/postcard-rpc/src/host_client/webusb.rs
index ad5ecad..1cd70ee 100644
--- a/source/postcard-rpc/src/host_client/webusb.rs
+++ b/source/postcard-rpc/src/host_client/webusb.rs
@@ -12,6 +12,9 @@ use web_sys::{UsbDevice, UsbInTransferResult, UsbOutTransferResult, UsbTransferS
 use crate::header::VarSeqKind;
 use crate::host_client::{HostClient, WireRx, WireSpawn, WireTx};
 
+/// Packet size of full speed bulk endpoints. Those of faster devices are multiples of it.
+const PACKET_SIZE: usize = 64;
+
 /// Implementation of the wire interface for WebUsb
 #[derive(Clone)]
 pub struct WebUsbWire {
@@ -151,12 +154,9 @@ impl WebUsbWire {
     }
 }
 
-impl WireTx for WebUsbWire {
-    type Error = Error;
-
-    async fn send(&mut self, data: Vec<u8>) -> Result<(), Self::Error> {
-        tracing::trace!("send…");
-        let data: js_sys::Uint8Array = data.as_slice().into();
+impl WebUsbWire {
+    async fn transfer_out(&self, data: &[u8]) -> Result<(), Error> {
+        let data: js_sys::Uint8Array = data.into();
         // TODO for reasons unknown, web-sys wants mutable access to the send buffer.
         // tracking issue: https://github.com/rustwasm/wasm-bindgen/issues/3963
         let res: UsbOutTransferResult =
@@ -173,6 +173,22 @@ impl WireTx for WebUsbWire {
     }
 }
 
+impl WireTx for WebUsbWire {
+    type Error = Error;
+
+    async fn send(&mut self, data: Vec<u8>) -> Result<(), Self::Error> {
+        tracing::trace!("send…");
+        self.transfer_out(&data).await?;
+
+        // A transfer that ends with a full packet has to be followed by an empty
+        // one, otherwise the device keeps waiting for the rest of the frame.
+        if data.len() % PACKET_SIZE == 0 {
+            self.transfer_out(&[]).await?;
+        }
+        Ok(())
+    }
+}
+
 impl WireRx for WebUsbWire {
     type Error = Error;
 
-- 
2.43.0

