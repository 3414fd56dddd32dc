From c2d7aca343c61ee63c4cad8ef08f1174b71ef49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 01/39] fix: compare domain names ignoring case

---
 src/shared/dns/name.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 90a0cdb..48322ea 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -1,15 +1,33 @@
 use crate::shared::buffer::*;
 use serde::{Deserialize, Serialize};
 use std::fmt::{self, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::str;
 
 /// A wrapper for domain names. The [`Name`] struct is used to hold valid
 /// absolute domain names. This is the invariant that must be guaranteed
 /// in every method that creates or modifies names. [`Name`] implements
 /// `AsRef<str>`, so a reference to the inner string can be easily obtained.  
-#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[derive(Debug, Clone, Eq, Serialize, Deserialize)]
 pub struct Name(String);
 
+// Domain names are compared ignoring the case (RFC 1035, 2.3.3), but the
+// original case is preserved. Note that equal names must have equal hashes.
+impl PartialEq for Name {
+    fn eq(&self, other: &Self) -> bool {
+        self.0.eq_ignore_ascii_case(&other.0)
+    }
+}
+
+impl Hash for Name {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        for byte in self.0.bytes() {
+            state.write_u8(byte.to_ascii_lowercase());
+        }
+        state.write_u8(0xff);
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
@@ -185,7 +203,7 @@ impl Name {
                 None => return false,
                 Some(v) => v,
             };
-            if nl != zl {
+            if !nl.eq_ignore_ascii_case(zl) {
                 return false;
             }
         }
-- 
2.43.0


From f7aef125e575bde575d1427ee2bd81a321f8278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 02/39] fix: every name is in the root zone

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 48322ea..222e4f2 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -196,6 +196,9 @@ impl Name {
     /// Reports if the [`Name`] is contained in the passed zone. The zone
     /// must be a valid name to ensure a correct comparison.
     pub fn is_in_zone(&self, zone: &Self) -> bool {
+        if zone.0 == "." {
+            return true;
+        }
         let mut name_labels = self.0.rsplit('.');
         let zone_labels = zone.0.rsplit('.');
         for zl in zone_labels {
-- 
2.43.0


From 3fa3d444ff1d5e62ffdea6c0d4bd410c60636f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 03/39] fix: reject compression pointers beyond the end of the
 message

---
 src/shared/buffer/buffer.rs | 5 +++++
 src/shared/dns/name.rs      | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index a78abb0..3f11ff2 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -66,6 +66,11 @@ impl BitsBuf {
         self.buf
     }
 
+    /// Returns the length of the buffer (expressed in bits).
+    pub fn len(&self) -> usize {
+        self.last
+    }
+
     /// Returns the current reading position in the buffer.
     /// Note that the reading position is expressed in bits.
     pub fn read_pos(&self) -> usize {
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 222e4f2..0c01ed1 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -73,8 +73,11 @@ impl Name {
                     }
                     let second_byte = check_end(buffer.read_u8())? as u16;
                     let jump_pos = (((len_byte as u16) << 8) | second_byte) & Self::POINTER_MASK;
-                    let jump_pos = jump_pos * 8;
-                    buffer.set_read_pos(jump_pos as usize);
+                    let jump_pos = jump_pos as usize * 8;
+                    if jump_pos >= buffer.len() {
+                        return Err(NameErr::PointerOutOfBonds);
+                    }
+                    buffer.set_read_pos(jump_pos);
                     n_jumps += 1;
                 }
                 // Normal label type. Could be found either after
-- 
2.43.0


From 132f86fb191ac67fda5c59ac366165cefd22964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 04/39] fix: encode the root name as a single zero byte

---
 src/shared/dns/name.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 0c01ed1..734f4c5 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -123,7 +123,10 @@ impl Name {
     /// (a series of labels, divided by a length byte).
     pub fn to_bytes(&self) -> Vec<u8> {
         debug_assert!(validate_name(&self.0).is_ok());
-        let mut vec = Vec::with_capacity(self.0.len());
+        if self.0 == "." {
+            return vec![0];
+        }
+        let mut vec = Vec::with_capacity(self.0.len() + 1);
         for n in self.0.split('.') {
             let n_bytes = n.as_bytes();
             vec.push(n_bytes.len() as u8);
-- 
2.43.0


From c9c313222349704cdfffcbeabc55d15fec232ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 05/39] fix: reject labels and names too long to be encoded

---
 src/shared/dns/name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 734f4c5..bfdf1e2 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -142,7 +142,9 @@ fn validate_name(name: &str) -> Result<(), NameErr> {
     if name == "." {
         return Ok(());
     }
-    if name.len() > 255 {
+    // At most 255 bytes in wire format, which is one byte
+    // longer than the absolute name in textual format.
+    if name.len() > 254 {
         return Err(NameErr::LongName);
     }
     if !name.ends_with('.') {
@@ -170,6 +172,9 @@ fn validate_label(label: &str) -> Result<(), NameErr> {
     if label.len() == 0 {
         return Err(NameErr::MalformedLabel("empty label"));
     }
+    if label.len() > 63 {
+        return Err(NameErr::LongLabel);
+    }
     let first = label.chars().next().unwrap();
     let last = label.chars().last().unwrap();
     if !first.is_ascii_alphanumeric() {
-- 
2.43.0


From 894db26baf3c7c87be6d4b0e6c0440c98907a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 06/39] fix: avoid overflows checking the length of the records
 data

---
 src/shared/dns/records.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index fe82ccb..3f59c71 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -338,7 +338,7 @@ fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingEr
     let before = buffer.read_pos();
     let nameserver = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(nameserver)
@@ -357,7 +357,7 @@ fn decode_cname_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, Parsin
     let before = buffer.read_pos();
     let alias = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(alias)
@@ -384,7 +384,7 @@ fn decode_soa_data(buffer: &mut BitsBuf, data_len: u16) -> Result<SoaData, Parsi
     let expire = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let minimum = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((mname, rname, serial, refresh, retry, expire, minimum))
@@ -450,7 +450,7 @@ fn decode_ptr_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingE
     let before = buffer.read_pos();
     let name = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(name)
@@ -470,7 +470,7 @@ fn decode_hinfo_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(String, Str
     let cpu = decode_character_string(buffer)?;
     let os = decode_character_string(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((cpu, os))
@@ -492,7 +492,7 @@ fn decode_mx_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(u16, Name), Pa
     let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
     let exchange = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((preference, exchange))
-- 
2.43.0


From 31ce37c4cfdb8bed3da1dfb30144a1c5e32dd53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 07/39] fix: decode the strings of TXT records from their
 length byte

---
 src/shared/dns/records.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 3f59c71..1647469 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -510,11 +510,12 @@ fn encode_mx_data(buffer: &mut BitsBuf, priority: u16, name: &Name) -> Result<()
 // TXT records data encoding and decoding functions.
 fn decode_txt_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Vec<String>, ParsingErr> {
     let mut strings = vec![];
-    let mut read: u16 = 0;
+    let data_len = data_len as usize;
+    let mut read: usize = 0;
     loop {
         let pos = buffer.read_pos();
-        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as u16;
-        buffer.set_read_pos(pos - 1);
+        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as usize;
+        buffer.set_read_pos(pos);
         if read + len + 1 > data_len {
             return Err(ParsingErr::DataLenMismatch);
         }
-- 
2.43.0


From 7155d83659c62e4da5a3d6a4e318e5be53a6b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 08/39] fix: decode and encode the ports bit map of WKS records

---
 src/shared/dns/records.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 1647469..c66d126 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -409,36 +409,37 @@ fn encode_soa_data(buffer: &mut BitsBuf, data: (&Name, &Name, u32, u32, u32, u32
 type WksData = ([u8; 4], u8, Vec<u32>);
 
 fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, ParsingErr> {
+    if data_len < 5 {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     let address = buffer.read_bytes().ok_or(ParsingErr::BytesEnd)?;
     let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;
-    let ports = if data_len > 5 {
-        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).unwrap();
-        parse_wks_ports(&ports_bytes)
-    } else {
-        vec![]
-    };
-
-    Ok((address, protocol, ports))
+    let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize);
+    let ports_bytes = ports_bytes.ok_or(ParsingErr::BytesEnd)?;
+    Ok((address, protocol, parse_wks_ports(&ports_bytes)))
 }
 
 fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) {
-    buffer.write_u16((5 + ports.len()) as u16);
+    // The ports are encoded as a bit map, the first bit is port zero.
+    let mut bit_map = vec![];
+    for p in ports.iter().map(|p| *p as usize) {
+        if bit_map.len() <= p / 8 {
+            bit_map.resize(p / 8 + 1, 0_u8);
+        }
+        bit_map[p / 8] |= 0b10000000 >> (p % 8);
+    }
+    buffer.write_u16((5 + bit_map.len()) as u16);
     buffer.write_bytes(address);
     buffer.write_u8(protocol);
-    for p in ports {
-        buffer.write_u32(*p);
-    }
+    buffer.write_bytes(&bit_map);
 }
 
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
     let mut ports = vec![];
     for (i, &byte) in ports_bytes.iter().enumerate() {
-        if byte == 0 {
-            continue;
-        }
-        for j in 1.. {
-            if byte << j == 0 {
-                ports.push((i * 8 + j - 1) as u32);
+        for j in 0..8 {
+            if byte & (0b10000000 >> j) != 0 {
+                ports.push((i * 8 + j) as u32);
             };
         }
     }
-- 
2.43.0


From 7ad618408259984a151a6cb950ac5eb19332ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 09/39] fix: answer questions of unknown type instead of
 skipping them

---
 src/nameserver/handler.rs | 1 +
 src/resolver/handler.rs   | 1 +
 src/shared/dns/message.rs | 1 -
 3 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index a642b17..95b4b78 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -162,6 +162,7 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedOpCode(_) => dns::RespCode::NotImp,
         dns::ParsingErr::UnsupportedClass(_) => dns::RespCode::NotImp,
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
+        dns::ParsingErr::UnknownType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
     let resp_header = resp_header_from_req_header(&req_header, resp_code);
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 5cf6baf..81cb220 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -91,6 +91,7 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedOpCode(_) => dns::RespCode::NotImp,
         dns::ParsingErr::UnsupportedClass(_) => dns::RespCode::NotImp,
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
+        dns::ParsingErr::UnknownType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
     let resp_header = resp_header_from_req_header(&req_header, resp_code);
diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 8dce77e..95d6c8e 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -43,7 +43,6 @@ impl Message {
         for i in 0..header.questions_count as usize {
             let decoded_question = Question::decode_from_buf(&mut buffer);
             match decoded_question {
-                Err(ParsingErr::UnknownType(_)) => continue,
                 Err(err) => return Err(MessageErr::QuestionErr(i, err)),
                 Ok(v) => questions.push(v),
             };
-- 
2.43.0


From 725b02d29acf89fbad2a6870edeffd37595a1d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 10/39] fix: zero the counts in replies to requests that cannot
 be decoded

---
 src/nameserver/handler.rs | 6 +++++-
 src/resolver/handler.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 95b4b78..ceb9733 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -165,7 +165,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnknownType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 81cb220..388528f 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -94,7 +94,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnknownType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
-- 
2.43.0


From f3b51fa05885381ad9192214ded368e701c63509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 11/39] fix: reply to requests with an unsupported opcode

---
 src/shared/dns/header.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/header.rs b/src/shared/dns/header.rs
index 165c4f3..597405f 100644
--- a/src/shared/dns/header.rs
+++ b/src/shared/dns/header.rs
@@ -85,10 +85,9 @@ impl Header {
     }
 
     /// Encode a dns [`Header`] to raw bytes, writing them into the provided
-    /// buffer. The function panics if some unsupported op codes are provided
-    /// (this helps maintaining invariants about supported features).
+    /// buffer. Unsupported op codes are allowed since they must be repeated
+    /// in the response to the request that contained them.
     pub fn encode_to_buf(&self, buffer: &mut BitsBuf) {
-        assert!(self.op_code.is_supported());
         buffer.write_u16(self.id);
         buffer.write_bits(self.query_resp as u8, 1);
         buffer.write_bits(self.op_code.to_num(), 4);
-- 
2.43.0


From 1c8aa6812d6c0ff0d3f9a16caa30619e1e87afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 12/39] fix: do not copy the truncation flag of requests into
 responses

---
 src/nameserver/handler.rs | 1 +
 src/resolver/handler.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index ceb9733..cbb111f 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -238,6 +238,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: false,
         z: 0,
         resp_code,
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 388528f..1465269 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -145,6 +145,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: true,
         z: 0,
         resp_code,
-- 
2.43.0


From 066c070f9eb9a1a9400338617e374b1f4326db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 13/39] fix: never answer messages that are responses

---
 src/nameserver/handler.rs | 8 ++++++++
 src/resolver/handler.rs   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index cbb111f..abebfce 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -14,6 +14,14 @@ impl DnsHandler for NameserverHandler {
 
 fn handle_dns_request<R: DnsRead, W: DnsWrite>(req: R, resp: W, zones: &ManagedZone) {
     let dns_request = match req.read() {
+        DnsReadResult::FullMessage(msg) if !msg.header.is_request() => {
+            log::warn!("[{}] Response received by the server, ignoring it.", msg.id());
+            return;
+        }
+        DnsReadResult::HeaderOnly(hdr, _) if !hdr.is_request() => {
+            log::warn!("[{}] Response received by the server, ignoring it.", hdr.id);
+            return;
+        }
         DnsReadResult::FullMessage(req) => req,
         DnsReadResult::HeaderOnly(hdr, err) => {
             handle_decode_err(resp, hdr, err);
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 1465269..96f0cd3 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -13,6 +13,14 @@ impl DnsHandler for ResolverHandler {
 
 fn handle_request<R: DnsRead, W: DnsWrite>(req: R, resp: W, resolver: &Resolver) {
     let dns_request = match req.read() {
+        DnsReadResult::FullMessage(msg) if !msg.header.is_request() => {
+            log::warn!("[{}] Response received by the server, ignoring it.", msg.id());
+            return;
+        }
+        DnsReadResult::HeaderOnly(hdr, _) if !hdr.is_request() => {
+            log::warn!("[{}] Response received by the server, ignoring it.", hdr.id);
+            return;
+        }
         DnsReadResult::FullMessage(req) => req,
         DnsReadResult::HeaderOnly(header, err) => {
             handle_decode_err(resp, header, err);
-- 
2.43.0


From 93c79c02a38ab144a025ef91443680ecdec6a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 14/39] fix: do not lose a worker when a TCP connection cannot
 be cloned

---
 src/shared/net/tcp_server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index de94449..9eb7f24 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -110,7 +110,13 @@ where
                 return;
             };
 
-            let request = TcpRequest(tcp_stream.try_clone().unwrap());
+            let request = match tcp_stream.try_clone() {
+                Ok(tcp_stream) => TcpRequest(tcp_stream),
+                Err(err) => {
+                    log::error!("Cannot clone the conn: {}", err);
+                    return;
+                }
+            };
             let response = TcpResponse(tcp_stream);
             handler.handle_request(request, response);
         })
-- 
2.43.0


From 20ddbe4aec76911651d295bd87bb5adb7f873153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 15/39] fix: truncate TCP responses that do not fit the length
 prefix

---
 src/shared/dns/message.rs    | 15 +++++++++++----
 src/shared/net/tcp_server.rs |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 95d6c8e..1b87206 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -6,6 +6,7 @@ use crate::shared::dns::questions::*;
 use crate::shared::dns::records::*;
 
 pub const MAX_UDP_LEN_BYTES: usize = 512;
+pub const MAX_TCP_LEN_BYTES: usize = 65535;
 
 /// Represents a complete dns message. Contains the [`Header`], which fields
 /// must be concordant with the [`Question`]s and [`Record`]s carried in the other
@@ -120,6 +121,12 @@ impl Message {
     /// is truncated before reaching [`MAX_UDP_LEN`] bytes of length (512 bytes). In
     /// this case the header is modified appropriately.
     pub fn encode_to_bytes_trunc(&self) -> Result<Vec<u8>, MessageErr> {
+        self.encode_to_bytes_max(MAX_UDP_LEN_BYTES)
+    }
+
+    /// Encode a dns [`Message`] to raw bytes like [Message::encode_to_bytes_trunc],
+    /// but truncating it before reaching the length passed in (in bytes).
+    pub fn encode_to_bytes_max(&self, max_len: usize) -> Result<Vec<u8>, MessageErr> {
         let mut buffer = BitsBuf::new();
         buffer.write_bytes(&[0; 12]);
         let mut header = dns::Header {
@@ -136,7 +143,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::QuestionErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -153,7 +160,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AnswerErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -170,7 +177,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AuthorityErr(i, err)),
                 Ok(v) => v,
             }
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -187,7 +194,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AdditionalErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index 9eb7f24..d27398b 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -41,7 +41,7 @@ pub struct TcpResponse(net::TcpStream);
 
 impl DnsWrite for TcpResponse {
     fn reply(mut self, response: dns::Message) -> io::Result<()> {
-        let resp_bytes = response.encode_to_bytes().unwrap();
+        let resp_bytes = response.encode_to_bytes_max(dns::MAX_TCP_LEN_BYTES).unwrap();
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
-- 
2.43.0


From 9683b037be792b5daf8e731f6075948278902e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 16/39] fix: reject character strings too long to be encoded in
 zone files

---
 src/nameserver/zones/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e55c035..7544a74 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -83,7 +83,7 @@ pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
         _ => return Err(ParseErr::UnexpectedToken(token)),
     };
-    if !is_valid {
+    if !is_valid || str.len() > 255 {
         Err(ParseErr::MalformedData(str))
     } else {
         Ok(str)
-- 
2.43.0


From 3ada0f8ecfb7fc9b4f79e3821a5fe78b03014243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 17/39] fix: treat every whitespace in zone files as a
 separator

---
 src/nameserver/zones/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a308e09..f433c34 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -83,7 +83,7 @@ impl Tokenizer {
         // Parse the token. Note that some branches only consume
         // some characters and invoke 'next' recursively.
         match self.line_chars[self.pos] {
-            ' ' | '\t' => Ok(self.process_whitespace()),
+            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
             '$' => self.process_directive(),
             '"' => self.process_quoted_string(),
             '(' => {
-- 
2.43.0


From f19aad932d8788170998239cbc4122b5393c6157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 18/39] fix: stop both servers also when one of them panics

---
 src/shared/net/setup.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 2d1a8d2..fc71f5e 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -18,9 +18,9 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let stop_clone = Arc::clone(&stop);
     let tx_clone = tx.clone();
     thread::spawn(move || {
+        let _notifier = ExitNotifier(tx_clone);
         start_udp_server(handler_clone, udp_params_clone, &stop_clone);
         log::warn!("UDP server shut down.");
-        tx_clone.send(()).unwrap();
     });
 
     // Setup tcp parameters and spawn the tcp server in a new thread.
@@ -29,9 +29,9 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let stop_clone = Arc::clone(&stop);
     let tx_clone = tx.clone();
     thread::spawn(move || {
+        let _notifier = ExitNotifier(tx_clone);
         start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
         log::warn!("TCP server shut down.");
-        tx_clone.send(()).unwrap();
     });
 
     // Wait for errors or teardowns. Note that in any case
@@ -42,6 +42,15 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     rx.recv_timeout(time::Duration::from_secs(4)).unwrap();
 }
 
+/// Notifies the exit of the thread that owns it, also when the thread panics.
+struct ExitNotifier(mpsc::Sender<()>);
+
+impl Drop for ExitNotifier {
+    fn drop(&mut self) {
+        let _ = self.0.send(());
+    }
+}
+
 /// Dirty hack. The only way to interrupt the UDP 'recv' and the TCP 'accept' calls
 /// is sending them a message. Those calls are blocking and without this hack the
 /// servers cannot unblock and check the stop signal (and so exit properly).
-- 
2.43.0


From 8e28f99e0c661f72e33c0f5dc723769c472db8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 19/39] fix: wake up the TCP server also when the UDP one
 cannot be reached

---
 src/shared/net/setup.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index fc71f5e..8078912 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -57,10 +57,9 @@ impl Drop for ExitNotifier {
 #[allow(unused_must_use)]
 fn wake_up_servers(udp_conf: &UdpParams, tcp_conf: &TcpParams) {
     let udp_server_addr: (&str, u16) = (&udp_conf.address, udp_conf.port);
-    match net::UdpSocket::bind("0.0.0.0:0") {
-        Ok(udp_sock) => udp_sock.send_to(&[0], udp_server_addr),
-        Err(_) => return,
-    };
+    if let Ok(udp_sock) = net::UdpSocket::bind("0.0.0.0:0") {
+        udp_sock.send_to(&[0], udp_server_addr);
+    }
     let tcp_server_addr: (&str, u16) = (&tcp_conf.address, tcp_conf.port);
     match net::TcpStream::connect(tcp_server_addr) {
         Ok(mut tcp_sock) => tcp_sock.write_all(&[0]),
-- 
2.43.0


From bf3299f32f766a30e4ec11d1f562f7c415118b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 20/39] fix: decide the membership in zones on whole labels

---
 src/resolver/back_end/requests.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 21e446e..ab360fb 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -129,7 +129,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.as_ref().ends_with(rec.node().as_ref()))
+        .filter(|rec| cname.is_in_zone(rec.node()))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
@@ -178,7 +178,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
 fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -> bool {
-    if !searched_node.as_ref().ends_with(&ns_zone.as_ref()) {
+    if !searched_node.is_in_zone(ns_zone) {
         // TODO: trace?
         return false;
     }
@@ -201,7 +201,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
 fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
-    if ns_node.as_ref().ends_with(ns_zone.as_ref()) && no_addr {
+    if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
     }
-- 
2.43.0


From c724f601840983e755289d27f46b8c38bf25a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 21/39] fix: do not mix the nameservers of different zones in a
 delegation

---
 src/resolver/back_end/requests.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index ab360fb..4453c1d 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -144,6 +144,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
 /// Extract from the [`dns::Message`] response all records related to a sub zone
 /// delegation. Some validation is performed so some records could be discarded.
 fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str) -> Vec<NextSubzoneNs> {
+    let mut delegated_zone: Option<Name> = None;
     let authority_records = mem::take(&mut resp.authorities);
     authority_records
         .into_iter()
@@ -153,6 +154,11 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
             let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone);
             is_auth && is_sub
         })
+        .filter(|rec| {
+            // A delegation regards one zone. Records of other zones can't be mixed.
+            let delegated_zone = delegated_zone.get_or_insert_with(|| rec.node().clone());
+            rec.node() == delegated_zone
+        })
         .map(|ns_record| {
             let ns_node = ns_record.ns_data();
             let ns_addrs = extract_records(&mut resp.additionals, dns::RecordType::A, ns_node);
-- 
2.43.0


From afd4b9c166688a79b91bc134f9600a53ad1a9c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 22/39] fix: ignore hints and glue records outside of the zone
 of the queried nameserver

---
 src/resolver/back_end/requests.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 4453c1d..e2de2a9 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -102,7 +102,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     let cname = extract_record(&mut dns_resp.answers, dns::RecordType::CNAME, searched_node);
     if let Some(cname_rec) = cname {
         let cname = cname_rec.cname_data();
-        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname);
+        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname, ns_req.nameserver.zone());
         return Ok(NsResponse::Alias {
             header: dns_resp.header,
             cname_rec,
@@ -111,7 +111,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     }
 
     let current_zone = ns_req.nameserver.zone();
-    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone.as_ref());
+    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
             header: dns_resp.header,
@@ -124,15 +124,16 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
 /// Extracts from the [`dns::Message`] response all records useful to re-start
 /// the cname resolution. Those are typically NS records and their addresses.
-fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<NextSubzoneNs> {
+/// Only the records of names in the zone of the queried nameserver are trusted.
+fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut response.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.is_in_zone(rec.node()))
+        .filter(|rec| cname.is_in_zone(rec.node()) && rec.node().is_in_zone(zone))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
-            let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_glue_records(&mut response.additionals, ns_node, zone);
             NextSubzoneNs {
                 ns_record: next_record,
                 a_records: ns_addrs,
@@ -143,7 +144,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
 
 /// Extract from the [`dns::Message`] response all records related to a sub zone
 /// delegation. Some validation is performed so some records could be discarded.
-fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let mut delegated_zone: Option<Name> = None;
     let authority_records = mem::take(&mut resp.authorities);
     authority_records
@@ -151,7 +152,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
         .filter(|rec| {
             let is_auth = is_nameserver_authoritative_over_node(rec.node(), node);
-            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone);
+            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone.as_ref());
             is_auth && is_sub
         })
         .filter(|rec| {
@@ -161,7 +162,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
         })
         .map(|ns_record| {
             let ns_node = ns_record.ns_data();
-            let ns_addrs = extract_records(&mut resp.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_glue_records(&mut resp.additionals, ns_node, zone);
             NextSubzoneNs {
                 ns_record: ns_record,
                 a_records: ns_addrs,
@@ -180,6 +181,15 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
         .collect()
 }
 
+// Extract the addresses of a nameserver. A server is not trusted about names outside
+// of its zone: in that case no addresses are returned, they must be resolved.
+fn extract_glue_records(additionals: &mut Vec<dns::Record>, ns_node: &Name, zone: &Name) -> Vec<dns::Record> {
+    if !ns_node.is_in_zone(zone) {
+        return vec![];
+    }
+    extract_records(additionals, dns::RecordType::A, ns_node)
+}
+
 // Make sure the zone managed by the queried nameserver contains the node we
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
-- 
2.43.0


From 78a292afd1f0678b4280eaf0eb3c565cf8db6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 23/39] fix: skip nameservers that have no address

---
 src/resolver/back_end/recursive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8714691..b321eab 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -263,7 +263,10 @@ impl<'a> Lookup<'a> {
         let (response, sub_trace) = resolver.perform();
         self.trace.add_sub_trace(sub_trace);
         match response {
-            Ok(mut v) => Ok(extract_records(&mut v.0, dns::RecordType::A, node)),
+            Ok(mut v) => match extract_records(&mut v.0, dns::RecordType::A, node) {
+                addrs if addrs.is_empty() => Err((node.to_string(), LookupErr::UnexpectedEmptyResp)),
+                addrs => Ok(addrs),
+            },
             Err(err) => return Err(err),
         }
     }
-- 
2.43.0


From c9181b76dc64975c33a52962502f6cb3e85be779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 24/39] fix: search the addresses of cached nameservers from
 the parent zone

---
 src/resolver/back_end/recursive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index b321eab..6fbec5a 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -304,6 +304,11 @@ impl<'a> Lookup<'a> {
         let domains = generate_domain_hierarchy(&self.searched_node.as_ref());
         let ns_records: Option<Vec<dns::Record>> = domains.iter().find_map(|name| {
             let name = dns::Name::from_string(name).unwrap();
+            // The addresses of the nameservers of this zone are being searched,
+            // they can be obtained from a parent zone only.
+            if self.previous_zones.contains(&name) {
+                return None;
+            }
             let records = search_records_in_cache(&self.cache, &name, dns::RecordType::NS);
             if records.len() > 0 {
                 Some(records)
-- 
2.43.0


From c628663b78ec6a1a40e4efabc4a8643a4168b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 25/39] fix: limit the queries and the nested lookups caused by
 a request

---
 src/resolver/back_end/errors.rs    |  1 +
 src/resolver/back_end/recursive.rs | 14 ++++++++++++++
 src/resolver/back_end/requests.rs  |  5 +++++
 src/resolver/back_end/utils.rs     |  8 ++++++++
 4 files changed, 28 insertions(+)

diff --git a/src/resolver/back_end/errors.rs b/src/resolver/back_end/errors.rs
index 84ba1e7..adfee0a 100644
--- a/src/resolver/back_end/errors.rs
+++ b/src/resolver/back_end/errors.rs
@@ -17,6 +17,7 @@ pub enum LookupErr {
     CnamesLoop,
     UnexpectedCname,
     MaxCnameRedir,
+    TooMuchWork,
 
     // Error resolving a sub-lookup,
     // usually resolving a NS name.
diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 6fbec5a..8d2127c 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -4,9 +4,16 @@ use crate::resolver::back_end::requests::*;
 use crate::resolver::back_end::trace::*;
 use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
+use std::cell::Cell;
+use std::rc::Rc;
 use std::sync::Arc;
 use std::{mem, time};
 
+// Limits on the work done for a single client request. Malicious nameservers
+// could otherwise cause any number of queries and of nested lookups.
+const MAX_QUERIES: usize = 300;
+const MAX_NESTED_LOOKUPS: usize = 16;
+
 /// The resolver parameters passed to the [`Resolver`] constructor.
 /// A good default configuration is provided via the [`Default`] trait.
 #[derive(Debug, Clone)]
@@ -65,6 +72,7 @@ impl Resolver {
             previous_cnames: vec![],
             cache: &self.cache,
             next_nss: vec![],
+            queries_left: Rc::new(Cell::new(MAX_QUERIES)),
             conf: self.rsv_conf.clone(),
             trace,
         }
@@ -80,6 +88,7 @@ pub struct Lookup<'a> {
     previous_zones: Vec<dns::Name>,
     previous_cnames: Vec<dns::Record>,
     next_nss: Vec<NextSubzoneNs>,
+    queries_left: Rc<Cell<usize>>,
     cache: &'a RecordsCache,
     trace: Trace,
     conf: ResolverParams,
@@ -210,6 +219,7 @@ impl<'a> Lookup<'a> {
                     r_timeout: self.conf.read_timeout,
                     w_timeout: self.conf.write_timeout,
                     nameserver: &next_ns,
+                    queries_left: &Rc::clone(&self.queries_left),
                 });
                 let ns_response = match ns_response {
                     Ok(resp) => resp,
@@ -242,6 +252,9 @@ impl<'a> Lookup<'a> {
     /// not allowed when resolving a nameserver name.
     fn resolve_ns_subquery(&mut self, node: &dns::Name, zone: &dns::Name) -> Result<Vec<dns::Record>, LookupErrCtx> {
         detect_zones_loop(zone, &self.previous_zones)?;
+        if self.previous_zones.len() >= MAX_NESTED_LOOKUPS || !spend_query(&self.queries_left) {
+            return Err((node.to_string(), LookupErr::TooMuchWork));
+        }
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
 
@@ -257,6 +270,7 @@ impl<'a> Lookup<'a> {
             cache: &self.cache,
             trace: self.trace.clone_empty(),
             next_nss: vec![],
+            queries_left: Rc::clone(&self.queries_left),
             conf,
         };
 
diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index e2de2a9..16c3539 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -3,6 +3,7 @@ use crate::resolver::back_end::trace::*;
 use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
 use crate::shared::dns::Name;
+use std::cell::Cell;
 use std::fmt::Debug;
 use std::net::IpAddr;
 use std::{io, mem, net, time};
@@ -17,6 +18,7 @@ pub struct NsRequest<'a> {
     pub retries: usize,
     pub r_timeout: time::Duration,
     pub w_timeout: time::Duration,
+    pub queries_left: &'a Cell<usize>,
 }
 
 /// Parsed response from a nameserver. Different variants represent different
@@ -233,6 +235,9 @@ fn send_query_with_retries(next_ns_request: &NsRequest) -> Result<dns::Message,
         if i >= next_ns_request.retries {
             return Err(err.unwrap());
         }
+        if !spend_query(next_ns_request.queries_left) {
+            return Err(LookupErr::TooMuchWork);
+        }
         match send_query(next_ns_request) {
             Ok(resp) => return Ok(resp),
             Err(er) => err = Some(er),
diff --git a/src/resolver/back_end/utils.rs b/src/resolver/back_end/utils.rs
index 1ad1d49..4397a52 100644
--- a/src/resolver/back_end/utils.rs
+++ b/src/resolver/back_end/utils.rs
@@ -2,6 +2,7 @@ use crate::resolver::back_end::errors::*;
 use crate::resolver::back_end::requests::*;
 use crate::shared::dns;
 use crate::shared::dns::*;
+use std::cell::Cell;
 use std::cmp;
 
 // The list of root nameservers of the domain name system.
@@ -117,3 +118,10 @@ pub fn detect_zones_loop(next_zone: &Name, previous_zones: &[Name]) -> Result<()
     }
     Ok(())
 }
+
+/// Reports if one more query can be sent, and counts it.
+pub fn spend_query(queries_left: &Cell<usize>) -> bool {
+    let left = queries_left.get();
+    queries_left.set(left.saturating_sub(1));
+    left > 0
+}
-- 
2.43.0


From 98f4cba1cb7e2537237224bba32b8f3f7f46986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 26/39] fix: accept only the responses of the queries sent

---
 src/resolver/back_end/requests.rs | 64 ++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 16c3539..e294e33 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -249,25 +249,7 @@ fn send_query_with_retries(next_ns_request: &NsRequest) -> Result<dns::Message,
 fn send_query(ns_request: &NsRequest) -> Result<dns::Message, LookupErr> {
     let request = build_dns_request(ns_request);
     let request_bytes = request.encode_to_bytes().unwrap();
-
-    let (response_bytes, n_recv) = send_udp_packet(ns_request, &request_bytes)?;
-    let response = dns::Message::decode_from_bytes(&response_bytes[..n_recv]);
-    let response = match response {
-        Ok(v) => v,
-        Err(err) => {
-            let err_msg = format!("decoding error: {:?}", err);
-            return Err(LookupErr::MalformedResp(err_msg));
-        }
-    };
-
-    if response.header.id != request.header.id {
-        return Err(LookupErr::MalformedResp(format!(
-            "expected header id: {}, got: {}",
-            request.id(),
-            response.id()
-        )));
-    }
-
+    let response = send_udp_query(ns_request, &request, &request_bytes)?;
     return Ok(response);
 }
 
@@ -288,13 +270,43 @@ fn build_dns_request(ns_request: &NsRequest) -> dns::Message {
     }
 }
 
-fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::MAX_UDP_LEN_BYTES], usize)> {
-    let addr = *request.nameserver.addrs().first().unwrap();
+/// Send the query and wait for its response. Anything else received meanwhile (other
+/// senders, other ids or other questions) is ignored, since everyone could have sent it.
+fn send_udp_query(ns_request: &NsRequest, request: &dns::Message, bytes: &[u8]) -> io::Result<dns::Message> {
+    let addr = *ns_request.nameserver.addrs().first().unwrap();
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
-    udp_socket.set_write_timeout(Some(request.w_timeout))?;
-    udp_socket.set_read_timeout(Some(request.r_timeout))?;
-    udp_socket.send_to(&bytes, (addr, 53))?;
+    udp_socket.set_write_timeout(Some(ns_request.w_timeout))?;
+    udp_socket.connect((addr, 53))?;
+    udp_socket.send(bytes)?;
+    let deadline = time::Instant::now() + ns_request.r_timeout;
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
-    let (n_recv, _) = udp_socket.recv_from(&mut buffer)?;
-    Ok((buffer, n_recv))
+    loop {
+        udp_socket.set_read_timeout(Some(time_left(deadline)?))?;
+        let n_recv = match udp_socket.recv(&mut buffer) {
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+            res => res?,
+        };
+        match dns::Message::decode_from_bytes(&buffer[..n_recv]) {
+            Ok(response) if is_response_of(&response, request) => return Ok(response),
+            Ok(response) => log::warn!("Mismatched response {} from {}, ignoring it.", response.id(), addr),
+            Err(err) => log::warn!("Malformed response from {}, ignoring it: {:?}", addr, err),
+        }
+    }
+}
+
+/// Reports if the message is a response to the request.
+fn is_response_of(response: &dns::Message, request: &dns::Message) -> bool {
+    if response.header.is_request() || response.id() != request.id() || response.questions.len() != 1 {
+        return false;
+    }
+    let (question, expected) = (&response.questions[0], &request.questions[0]);
+    question.node == expected.node && question.record_type == expected.record_type
+}
+
+/// The time left before the deadline, or an error if there is none.
+fn time_left(deadline: time::Instant) -> io::Result<time::Duration> {
+    match deadline.saturating_duration_since(time::Instant::now()) {
+        left if left.is_zero() => Err(io::Error::from(io::ErrorKind::TimedOut)),
+        left => Ok(left),
+    }
 }
-- 
2.43.0


From d132828d289198c733d91d3b4cce756cf120a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 27/39] fix: repeat over TCP the queries whose response is
 truncated

---
 src/resolver/back_end/requests.rs | 42 +++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index e294e33..79db468 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -5,6 +5,7 @@ use crate::shared::dns;
 use crate::shared::dns::Name;
 use std::cell::Cell;
 use std::fmt::Debug;
+use std::io::{Read, Write};
 use std::net::IpAddr;
 use std::{io, mem, net, time};
 
@@ -250,6 +251,10 @@ fn send_query(ns_request: &NsRequest) -> Result<dns::Message, LookupErr> {
     let request = build_dns_request(ns_request);
     let request_bytes = request.encode_to_bytes().unwrap();
     let response = send_udp_query(ns_request, &request, &request_bytes)?;
+    if response.header.truncated {
+        // Parts of the records are missing: ask again over TCP.
+        return send_tcp_query(ns_request, &request, &request_bytes);
+    }
     return Ok(response);
 }
 
@@ -294,6 +299,43 @@ fn send_udp_query(ns_request: &NsRequest, request: &dns::Message, bytes: &[u8])
     }
 }
 
+/// Send the query over TCP and read its response, which must be complete
+/// before the read timeout expires.
+fn send_tcp_query(ns_request: &NsRequest, request: &dns::Message, bytes: &[u8]) -> Result<dns::Message, LookupErr> {
+    let addr = *ns_request.nameserver.addrs().first().unwrap();
+    let deadline = time::Instant::now() + ns_request.r_timeout;
+    let mut stream = net::TcpStream::connect_timeout(&net::SocketAddr::new(addr, 53), ns_request.r_timeout)?;
+    stream.set_write_timeout(Some(ns_request.w_timeout))?;
+    let mut message = (bytes.len() as u16).to_be_bytes().to_vec();
+    message.extend(bytes);
+    stream.write_all(&message)?;
+
+    let mut length = [0_u8; 2];
+    read_before(&mut stream, &mut length, deadline)?;
+    let mut buffer = vec![0_u8; u16::from_be_bytes(length) as usize];
+    read_before(&mut stream, &mut buffer, deadline)?;
+    match dns::Message::decode_from_bytes(&buffer) {
+        Ok(response) if is_response_of(&response, request) && !response.header.truncated => Ok(response),
+        Ok(response) => Err(LookupErr::MalformedResp(format!("mismatched response {}", response.id()))),
+        Err(err) => Err(LookupErr::MalformedResp(format!("decoding error: {:?}", err))),
+    }
+}
+
+/// Fill the buffer with the bytes read from the stream before the deadline.
+fn read_before(stream: &mut net::TcpStream, buffer: &mut [u8], deadline: time::Instant) -> io::Result<()> {
+    let mut n_read = 0;
+    while n_read < buffer.len() {
+        stream.set_read_timeout(Some(time_left(deadline)?))?;
+        match stream.read(&mut buffer[n_read..]) {
+            Ok(0) => return Err(io::Error::from(io::ErrorKind::UnexpectedEof)),
+            Ok(n) => n_read += n,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+            Err(err) => return Err(err),
+        }
+    }
+    Ok(())
+}
+
 /// Reports if the message is a response to the request.
 fn is_response_of(response: &dns::Message, request: &dns::Message) -> bool {
     if response.header.is_request() || response.id() != request.id() || response.questions.len() != 1 {
-- 
2.43.0


From d2b9901a1ddbb211fc7253b66bfdd608170ab4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 28/39] fix: compute the time left of cached records after
 accessing the cache

---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8d2127c..8471243 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -357,8 +357,9 @@ impl<'a> Lookup<'a> {
 /// All the records should have the same ttl and record type.The TTL of the returned
 /// records is properly lowered since they were inserted in the cache in the past.
 fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::RecordType) -> Vec<dns::Record> {
-    let before_get = time::Instant::now();
     let cache_entry = cache.get_clone(&(node.clone(), kind));
+    // Measured after the access, the entry could have been set while waiting for it.
+    let after_get = time::Instant::now();
     let (exp, mut records) = match cache_entry {
         Some(v) if v.1.is_empty() => return vec![],
         None => return vec![],
@@ -371,12 +372,11 @@ fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::Re
     for rec in &records {
         assert_eq!(rec.record_type(), rec_type);
         assert_eq!(rec.ttl(), rec_ttl);
-        assert!(exp > before_get);
     }
 
     // Correct records TTLs.
     for record in &mut records {
-        let ttl = (exp - before_get).as_secs();
+        let ttl = exp.saturating_duration_since(after_get).as_secs();
         let remaining_ttl = u32::try_from(ttl).unwrap();
         record.set_ttl(remaining_ttl);
     }
-- 
2.43.0


From 4200d2b51cf21f6d9bda7d84c09af28807f1b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 29/39] fix: do not shorten the life of cached aliases every
 time they are used

---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8471243..0f23a5a 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -153,7 +153,8 @@ impl<'a> Lookup<'a> {
                 }
                 // Cname found. Stash the cname, save data in cache and restart.
                 NsResponse::Alias { cname_rec, next_nss, .. } => {
-                    self.handle_cname(cname_rec, next_nss)?;
+                    self.handle_cname(cname_rec.clone(), next_nss)?;
+                    save_records_in_cache(&self.cache, vec![cname_rec]);
                     continue;
                 }
                 // Nothing found for the searched domain, a SOA record could be present.
@@ -177,11 +178,10 @@ impl<'a> Lookup<'a> {
     fn handle_cname(&mut self, cname_record: dns::Record, next_nss: Vec<NextSubzoneNs>) -> Result<(), LookupErrCtx> {
         let cname = cname_record.cname_data().clone();
         detect_cname_loops(&cname_record, &self.previous_cnames)?;
-        self.previous_cnames.push(cname_record.clone());
+        self.previous_cnames.push(cname_record);
         if self.conf.no_follow_cname {
             return Err((cname.to_string(), LookupErr::UnexpectedCname));
         }
-        save_records_in_cache(&self.cache, vec![cname_record]);
         self.next_nss = next_nss;
         self.searched_node = cname;
         Ok(())
-- 
2.43.0


From 080e39557e7b11a2acd75d18a8856eb91ada4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 30/39] fix: never follow the aliases that are themselves
 searched

---
 src/resolver/back_end/recursive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 0f23a5a..ea375d3 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -127,7 +127,11 @@ impl<'a> Lookup<'a> {
                 answers.extend(cached_answers);
                 return Ok(LookupResponse(answers, vec![], vec![], false));
             }
-            let mut cached_cnames = self.search_records_in_cache_with_trace(dns::RecordType::CNAME);
+            // A cname that is itself searched is not followed, even if it gets cached meanwhile.
+            let mut cached_cnames = match self.searched_kind {
+                dns::RecordType::CNAME => vec![],
+                _ => self.search_records_in_cache_with_trace(dns::RecordType::CNAME),
+            };
             if cached_cnames.len() > 0 {
                 self.handle_cname(cached_cnames.swap_remove(0), vec![])?;
                 continue;
-- 
2.43.0


From e932ad387d3e9da2243a2a050b431b4524790fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 31/39] fix: do not wait for minutes for a TCP address of
 another machine when stopping

---
 src/shared/net/setup.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 8078912..dbe57fb 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -2,6 +2,7 @@ use crate::shared::net::tcp_server::*;
 use crate::shared::net::traits::*;
 use crate::shared::net::udp_server::*;
 use std::io::Write;
+use std::net::ToSocketAddrs;
 use std::sync::{atomic, mpsc, Arc};
 use std::{net, thread, time};
 
@@ -60,9 +61,13 @@ fn wake_up_servers(udp_conf: &UdpParams, tcp_conf: &TcpParams) {
     if let Ok(udp_sock) = net::UdpSocket::bind("0.0.0.0:0") {
         udp_sock.send_to(&[0], udp_server_addr);
     }
+    // The address could be one of another machine (that is, the binding
+    // failed), which possibly never replies: don't wait for it forever.
     let tcp_server_addr: (&str, u16) = (&tcp_conf.address, tcp_conf.port);
-    match net::TcpStream::connect(tcp_server_addr) {
-        Ok(mut tcp_sock) => tcp_sock.write_all(&[0]),
-        Err(_) => return,
-    };
+    let timeout = time::Duration::from_secs(1);
+    for addr in tcp_server_addr.to_socket_addrs().into_iter().flatten() {
+        if let Ok(mut tcp_sock) = net::TcpStream::connect_timeout(&addr, timeout) {
+            tcp_sock.write_all(&[0]);
+        }
+    }
 }
-- 
2.43.0


From 0ed193e642e08b8a98f9f7122499aeb12831244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 32/39] fix: drain accepted requests also when a server thread
 cannot be created

---
 src/shared/net/setup.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index dbe57fb..f5aabb1 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -17,23 +17,29 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let udp_params_clone = udp_params.clone();
     let handler_clone = Arc::clone(&handler);
     let stop_clone = Arc::clone(&stop);
-    let tx_clone = tx.clone();
-    thread::spawn(move || {
-        let _notifier = ExitNotifier(tx_clone);
+    let notifier = ExitNotifier(tx.clone());
+    let udp_thread = thread::Builder::new().spawn(move || {
+        let _notifier = notifier;
         start_udp_server(handler_clone, udp_params_clone, &stop_clone);
         log::warn!("UDP server shut down.");
     });
+    if let Err(err) = udp_thread {
+        log::error!("Cannot start the UDP server thread: {}", err);
+    }
 
     // Setup tcp parameters and spawn the tcp server in a new thread.
     let tcp_params_clone = tcp_params.clone();
     let handler_clone = Arc::clone(&handler);
     let stop_clone = Arc::clone(&stop);
-    let tx_clone = tx.clone();
-    thread::spawn(move || {
-        let _notifier = ExitNotifier(tx_clone);
+    let notifier = ExitNotifier(tx.clone());
+    let tcp_thread = thread::Builder::new().spawn(move || {
+        let _notifier = notifier;
         start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
         log::warn!("TCP server shut down.");
     });
+    if let Err(err) = tcp_thread {
+        log::error!("Cannot start the TCP server thread: {}", err);
+    }
 
     // Wait for errors or teardowns. Note that in any case
     // we have a timeout on the second recv to avoid locks.
@@ -43,7 +49,8 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     rx.recv_timeout(time::Duration::from_secs(4)).unwrap();
 }
 
-/// Notifies the exit of the thread that owns it, also when the thread panics.
+/// Notifies the exit of the thread that owns it, also when the
+/// thread panics and when it could not be created.
 struct ExitNotifier(mpsc::Sender<()>);
 
 impl Drop for ExitNotifier {
-- 
2.43.0


From 7df6a1d943c5aa46acb5918ae4025de5c4b96f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 33/39] fix: do not read past the end of a zone file line with
 escapes

---
 src/nameserver/zones/tokens.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index f433c34..0e0ff59 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -174,7 +174,7 @@ impl Tokenizer {
         let mut directive = String::from('$');
         self.pos += 1;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -206,7 +206,7 @@ impl Tokenizer {
         let mut string = String::with_capacity(20);
         let mut closed = false;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -257,7 +257,7 @@ impl Tokenizer {
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
-- 
2.43.0


From 473e0976b200c27a1543ca43c01825e5a51cd90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 34/39] fix: refuse a TCP read timeout of zero

---
 src/nameserver/conf.rs | 3 +++
 src/resolver/conf.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nameserver/conf.rs b/src/nameserver/conf.rs
index 8949dbe..3e0b9bb 100644
--- a/src/nameserver/conf.rs
+++ b/src/nameserver/conf.rs
@@ -80,6 +80,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
diff --git a/src/resolver/conf.rs b/src/resolver/conf.rs
index 88648c4..244df2f 100644
--- a/src/resolver/conf.rs
+++ b/src/resolver/conf.rs
@@ -88,6 +88,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
-- 
2.43.0


From 08a91617cc1a4c6230e7316dab90d5324d542bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 35/39] fix: refuse a TXT record with no strings

---
 src/nameserver/zones/parser_auth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 061e1ef..ce3a6d6 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -455,6 +455,9 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
             }
         };
     }
+    if txts.is_empty() {
+        return Err(ParseErr::MalformedData("no strings in txt record".to_string()));
+    }
 
     Ok(dns::Record::TXT {
         node: rec_data.0,
-- 
2.43.0


From da2e4a6d848e0b6a9d1bef92abfec471e7885443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 36/39] fix: do not let failures to write the log end the
 threads that log

---
 src/shared/logs.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/shared/logs.rs b/src/shared/logs.rs
index d2c189f..69c65bb 100644
--- a/src/shared/logs.rs
+++ b/src/shared/logs.rs
@@ -1,16 +1,36 @@
 pub use log::Level;
+use log::{Log, Metadata, Record};
 use simple_logger::SimpleLogger;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 
 /// Initialize the logging facility with Debug level.
 /// Panics if it's called more than one time.
 pub fn init_log() {
-    SimpleLogger::new()
-        .with_level(Level::Debug.to_level_filter())
-        .init()
-        .unwrap()
+    let logger = SimpleLogger::new().with_level(Level::Debug.to_level_filter());
+    log::set_max_level(Level::Debug.to_level_filter());
+    log::set_boxed_logger(Box::new(Logger(logger))).unwrap()
 }
 
 #[inline]
 pub fn set_max_level(lvl: Level) {
     log::set_max_level(lvl.to_level_filter())
 }
+
+// The wrapped logger panics if the output cannot be written (e.g. the disk is full or
+// the reader of the output is gone). Losing some log lines must not take down the thread
+// that is logging and, with it, a part of the service.
+struct Logger(SimpleLogger);
+
+impl Log for Logger {
+    fn enabled(&self, metadata: &Metadata) -> bool {
+        self.0.enabled(metadata)
+    }
+
+    fn log(&self, record: &Record) {
+        let _ = catch_unwind(AssertUnwindSafe(|| self.0.log(record)));
+    }
+
+    fn flush(&self) {
+        self.0.flush()
+    }
+}
-- 
2.43.0


From c5bc8a959e79cdbf29a47367c28463657ff9d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 37/39] fix: accept any read timeout when computing the
 deadline of a response

A timeout near the largest value that can be configured overflowed the
instant it was added to, and the panic ended a worker at each query.
---
 src/resolver/back_end/requests.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 79db468..409aef9 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -283,7 +283,7 @@ fn send_udp_query(ns_request: &NsRequest, request: &dns::Message, bytes: &[u8])
     udp_socket.set_write_timeout(Some(ns_request.w_timeout))?;
     udp_socket.connect((addr, 53))?;
     udp_socket.send(bytes)?;
-    let deadline = time::Instant::now() + ns_request.r_timeout;
+    let deadline = deadline_of(ns_request.r_timeout);
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
     loop {
         udp_socket.set_read_timeout(Some(time_left(deadline)?))?;
@@ -303,7 +303,7 @@ fn send_udp_query(ns_request: &NsRequest, request: &dns::Message, bytes: &[u8])
 /// before the read timeout expires.
 fn send_tcp_query(ns_request: &NsRequest, request: &dns::Message, bytes: &[u8]) -> Result<dns::Message, LookupErr> {
     let addr = *ns_request.nameserver.addrs().first().unwrap();
-    let deadline = time::Instant::now() + ns_request.r_timeout;
+    let deadline = deadline_of(ns_request.r_timeout);
     let mut stream = net::TcpStream::connect_timeout(&net::SocketAddr::new(addr, 53), ns_request.r_timeout)?;
     stream.set_write_timeout(Some(ns_request.w_timeout))?;
     let mut message = (bytes.len() as u16).to_be_bytes().to_vec();
@@ -345,6 +345,14 @@ fn is_response_of(response: &dns::Message, request: &dns::Message) -> bool {
     question.node == expected.node && question.record_type == expected.record_type
 }
 
+/// The end of a wait of the given length. Since any length can be configured, waits
+/// beyond what an instant can represent last for years.
+fn deadline_of(timeout: time::Duration) -> time::Instant {
+    let now = time::Instant::now();
+    now.checked_add(timeout)
+        .unwrap_or_else(|| now + time::Duration::from_secs(u32::MAX.into()))
+}
+
 /// The time left before the deadline, or an error if there is none.
 fn time_left(deadline: time::Instant) -> io::Result<time::Duration> {
     match deadline.saturating_duration_since(time::Instant::now()) {
-- 
2.43.0


From f98a4c4bf55905d674710551f065525810115dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 38/39] fix: keep the trace empty when tracing is disabled and
 a nameserver is looked up

---
 src/resolver/back_end/trace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 783019e..c438461 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -213,6 +213,7 @@ impl Trace {
 
     /// Consume another trace and add to the present one as a sub trace.
     pub fn add_sub_trace(&mut self, sub_trace: Trace) {
+        skip_if_silent!(self);
         let item = TraceLine::SubResolution(sub_trace.lines);
         self.lines.push(item);
     }
-- 
2.43.0


From 2d353e2f94582ed4e51ebc2b4cc4406edd94bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 39/39] fix: do not color failures in the trace unless
 configured

---
 src/resolver/back_end/trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index c438461..22cd95e 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -310,7 +310,11 @@ fn display_trace_lines(f: &mut Formatter<'_>, lines: &[TraceLine], depth: u8, co
             }
             TraceLine::NameserverErr(header) => {
                 indent(f, depth)?;
-                writeln!(f, "{}", header.bold().bright_red())?;
+                if conf.color {
+                    writeln!(f, "{}", header.bold().bright_red())?
+                } else {
+                    writeln!(f, "{}", header)?
+                }
             }
             TraceLine::SubResolution(sub_trace) => {
                 display_trace_lines(f, sub_trace, depth + 1, conf)?;
-- 
2.43.0

