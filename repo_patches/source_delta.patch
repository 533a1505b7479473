From 4bdf201308212726c8afaa2b1ab2ea6d6732724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 01/12] fix: report a truncated name pointer as an error
 instead of panicking

---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index ee710bd..d00b1a2 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -110,7 +110,7 @@ impl<'a> Reader<'a> {
             match length & 0b1100_0000 {
                 0b1100_0000 => {
                     // 16-bit pointer to somewhere else in the UDP message.
-                    let ptr = usize::from(copy.read_u16().unwrap() & 0b0011_1111_1111_1111);
+                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                     if ptr >= min_pos {
                         // We require pointers to point to an earlier part of the message, to
                         // prevent loops. The specification is unclear about what exactly is
-- 
2.43.0


From 1c1f847ee8cff39d23bb1294500bd42dc82c0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 02/12] fix: keep all 15 bits of a question's class

---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index d00b1a2..9a17dc5 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -146,7 +146,7 @@ impl<'a> Reader<'a> {
         let qtype = QType(self.read_u16()?);
         let qclass = self.read_u16()?;
         let prefer_unicast = qclass & 0x8000 != 0;
-        let qclass = QClass(qclass & 0xff);
+        let qclass = QClass(qclass & !0x8000);
         Ok(Question {
             qname,
             qtype,
-- 
2.43.0


From 597168e4f2390544e636234b0b3de5fb7d098728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 03/12] fix: detect multicast resolvers by their server address

---
 src/resolver.rs             | 2 +-
 uwuhi-async/src/resolver.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 6a98bf1..c7b2669 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -42,7 +42,7 @@ impl SyncResolver {
             servers: vec![sock],
             sock: UdpSocket::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: sock.ip().is_multicast(),
         };
         this.set_timeout(Self::DEFAULT_TIMEOUT)?;
         Ok(this)
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index c1221eb..f9301a4 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -33,7 +33,7 @@ impl AsyncResolver {
             servers: vec![server],
             sock: Async::<UdpSocket>::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: server.ip().is_multicast(),
             timeout: Self::DEFAULT_TIMEOUT,
         })
     }
-- 
2.43.0


From c5ac5703d3b70ac329d285fe21488a7475df31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 04/12] fix: do not return addresses from responses that failed
 to decode

---
 src/resolver.rs             | 2 ++
 uwuhi-async/src/resolver.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index c7b2669..fef0dad 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -142,6 +142,8 @@ impl SyncResolver {
                 }
                 Err(e) => {
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
+                    // Discard any addresses decoded before the error was hit.
+                    self.ip_buf.clear();
                 }
             }
         }
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index f9301a4..2c02682 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -139,6 +139,8 @@ impl AsyncResolver {
                 }
                 Err(e) => {
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
+                    // Discard any addresses decoded before the error was hit.
+                    self.ip_buf.clear();
                 }
             }
         }
-- 
2.43.0


From 7b812ae0d3dc088724bc51441d7846a3026818e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 05/12] fix: reject PTR targets whose service name lacks the
 leading underscore

---
 src/service.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index cb0a898..171238a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -81,6 +81,9 @@ impl Service {
             // Domain missing, this is probably not a valid service.
             return Err(Error::Eof);
         }
+        if !service_name.as_bytes().starts_with(b"_") {
+            return Err(Error::InvalidValue);
+        }
         Ok(Service {
             name: service_name.clone(),
             transport: match transport.as_bytes() {
@@ -156,6 +159,9 @@ impl ServiceInstance {
             // Domain missing, this is probably not a valid service.
             return Err(Error::Eof);
         }
+        if !service_name.as_bytes().starts_with(b"_") {
+            return Err(Error::InvalidValue);
+        }
         Ok(ServiceInstance {
             instance_name: instance_name.clone(),
             service: Service {
-- 
2.43.0


From b1180b54ed247a6db560460db02d391fda979d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 06/12] fix: ignore TXT strings with an empty key

---
 src/service.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 171238a..cecf547 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -283,6 +283,10 @@ impl TxtRecords {
         for entry in txt.entries() {
             let mut split = entry.splitn(2, |&b| b == b'=');
             let key = split.next().unwrap();
+            if key.is_empty() {
+                // RFC 6763: strings with a missing key must be silently ignored.
+                continue;
+            }
             let key = match String::from_utf8(key.to_vec()) {
                 Ok(key) => key,
                 Err(e) => {
-- 
2.43.0


From 33ad0bf8f118c0ed377e592c6d9c2ed547107a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 07/12] fix: place the reserved Z bits at bits 9 to 11 of the
 header flags

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 17d5689..aac3bdb 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -345,7 +345,7 @@ bitflags! {
         /// Recursion Available: This bit can be set in a response to indicate that the responding
         /// server supports recursion.
         const RA = 1 << be_pos(8);
-        const Z = 0b111 << be_pos(9);
+        const Z = 0b111 << be_pos(11);
         const RCODE = Self::RCODE_MASK;
     }
 }
-- 
2.43.0


From f16a90b8182476e92466b88b4643e7a63afebc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 08/12] fix: panic in MessageEncoder::new when the buffer
 cannot hold a header

---
 src/packet/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index d6a7e6d..9e74740 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -144,6 +144,10 @@ impl<'a> MessageEncoder<'a, section::Question> {
     /// `buf` must be large enough to fit at least the message header (`size_of::<Header>()`),
     /// otherwise this function will panic.
     pub fn new(buf: &'a mut [u8]) -> Self {
+        assert!(
+            buf.len() >= size_of::<Header>(),
+            "buffer too small for the message header",
+        );
         let mut w = Writer::new(buf);
         w.write_obj(Header::zeroed());
         Self {
-- 
2.43.0


From 975b4aed684f7961918f11969cb0caf284550e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 09/12] fix: only count entries that were stored completely in
 the header

---
 src/packet/encoder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index 9e74740..0800d01 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -167,7 +167,9 @@ impl<'a> MessageEncoder<'a, section::Question> {
         self.inner.w.write_domain_name(question.name);
         self.inner.w.write_u16(question.ty.0);
         self.inner.w.write_u16(question.class.0);
-        self.inner.qdcount += 1;
+        if !self.inner.w.trunc {
+            self.inner.qdcount += 1;
+        }
     }
 
     /// Moves the encoder to the *Answer* section.
@@ -212,7 +214,9 @@ impl<'a, S: Section> MessageEncoder<'a, S> {
 impl<'a> MessageEncoder<'a, section::Answer> {
     pub fn add_answer(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.ancount += 1;
+        if !self.inner.w.trunc {
+            self.inner.ancount += 1;
+        }
     }
 
     /// Moves the encoder to the *Authority* section.
@@ -228,7 +232,9 @@ impl<'a> MessageEncoder<'a, section::Answer> {
 impl<'a> MessageEncoder<'a, section::Authority> {
     pub fn add_authority(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.nscount += 1;
+        if !self.inner.w.trunc {
+            self.inner.nscount += 1;
+        }
     }
 
     /// Moves the encoder to the *Additional Records* section.
@@ -244,7 +250,9 @@ impl<'a> MessageEncoder<'a, section::Authority> {
 impl<'a> MessageEncoder<'a, section::Additional> {
     pub fn add_additional(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.arcount += 1;
+        if !self.inner.w.trunc {
+            self.inner.arcount += 1;
+        }
     }
 }
 
-- 
2.43.0


From 5efdcb057cded135c5d5368eb8db2f3b0b5b56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 10/12] fix: continue decoding right after the first pointer of
 a compressed name

---
 src/packet/decoder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index 9a17dc5..11b5bdb 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -1,7 +1,7 @@
 //! DNS packet decoder.
 
 use core::mem;
-use std::{any::TypeId, cell::Cell, cmp, fmt, marker::PhantomData, mem::size_of};
+use std::{any::TypeId, cell::Cell, fmt, marker::PhantomData, mem::size_of};
 
 use bytemuck::AnyBitPattern;
 
@@ -105,6 +105,8 @@ impl<'a> Reader<'a> {
         let mut domain_name = DomainName::ROOT;
         let mut min_pos = self.pos.get();
         let mut copy = self.clone();
+        // Position after the first pointer, which ends the encoded name.
+        let mut end = None;
         loop {
             let length = copy.peek_u8()?;
             match length & 0b1100_0000 {
@@ -117,7 +119,7 @@ impl<'a> Reader<'a> {
                         // allowed.
                         return Err(Error::PointerLoop);
                     } else {
-                        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+                        end.get_or_insert(copy.pos.get());
                         min_pos = ptr;
                         copy.pos = ptr.into();
                     }
@@ -137,7 +139,7 @@ impl<'a> Reader<'a> {
             }
         }
 
-        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+        self.pos.set(end.unwrap_or(copy.pos.get()));
         Ok(domain_name)
     }
 
-- 
2.43.0


From ecf3fdb631c06b1cba014eec83f2830585c4c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 11/12] fix: receive resolver responses into a buffer of
 MDNS_BUFFER_SIZE

---
 src/resolver.rs             | 4 ++--
 uwuhi-async/src/resolver.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index fef0dad..ad6405c 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -18,7 +18,7 @@ use crate::{
     Error,
 };
 
-use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use crate::MDNS_BUFFER_SIZE;
 
 /// A simple, synchronous, non-recursive (m)DNS stub resolver.
 pub struct SyncResolver {
@@ -128,7 +128,7 @@ impl SyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 2c02682..ad7823d 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -9,7 +9,7 @@ use std::{
 use async_io::{Async, Timer};
 use futures_lite::future;
 pub use uwuhi::resolver::*;
-use uwuhi::{name::DomainName, DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use uwuhi::{name::DomainName, MDNS_BUFFER_SIZE};
 
 pub struct AsyncResolver {
     servers: Vec<SocketAddr>,
@@ -121,7 +121,7 @@ impl AsyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let timeout = async {
                 Timer::after(self.timeout).await;
                 Err(io::ErrorKind::TimedOut.into())
-- 
2.43.0


From 139f4e198390bae06ad9403fc8734d680acd825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 12/12] fix: escape the keys of TXT attributes when they are
 printed or logged

---
 src/service.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index cecf547..44293ff 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -296,7 +296,10 @@ impl TxtRecords {
             };
             let entry = map.entry(key.to_ascii_lowercase());
             if let Entry::Occupied(_) = entry {
-                log::debug!("TXT key '{}' already occupied, ignoring", entry.key());
+                log::debug!(
+                    "TXT key '{}' already occupied, ignoring",
+                    entry.key().as_bytes().escape_ascii()
+                );
             }
 
             match split.next() {
@@ -351,7 +354,7 @@ impl fmt::Display for TxtRecords {
                 f.write_str(" ")?;
             }
 
-            f.write_str(&rec.key)?;
+            rec.key.as_bytes().escape_ascii().fmt(f)?;
             match &rec.value {
                 Some(v) => {
                     f.write_str("=")?;
-- 
2.43.0

