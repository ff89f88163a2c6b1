From 6550cdfcf25233553393ffc182a5fd1eab19248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:19 +0000
Subject: [PATCH 01/42] fix: reject names that run past the end of the buffer
 instead of panicking

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 38f4717..05444b6 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -137,7 +137,7 @@ impl<'a> DnsBuffer<'a> {
         let mut data = Vec::<Vec<u8>>::new();
         let mut org_pos = None;
         loop {
-            let len = self.data[self.pos];
+            let len = self.peek_bytes(1)?[0];
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
                 // Instead of returning an error we should look up what the pointer value is
                 // and reolve the fqdn here
@@ -153,7 +153,7 @@ impl<'a> DnsBuffer<'a> {
                     self.pos = org_pos.unwrap_or(0);
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
-            } else if self.pos + len as usize > self.data.len() {
+            } else if self.pos + 1 + len as usize > self.data.len() {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
             } else if len == 0 {
-- 
2.43.0


From 79022416ad8f029cceaa97c793565d68335da30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 02/42] fix: only follow compression pointers to earlier
 positions so that cyclic names terminate

---
 src/buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 05444b6..ee4ffe6 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -136,6 +136,8 @@ impl<'a> DnsBuffer<'a> {
 
         let mut data = Vec::<Vec<u8>>::new();
         let mut org_pos = None;
+        // Start of the labels currently read; a pointer has to refer to an earlier position
+        let mut start_pos = self.pos;
         loop {
             let len = self.peek_bytes(1)?[0];
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
@@ -149,10 +151,11 @@ impl<'a> DnsBuffer<'a> {
                 self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
                     & !COMPRESSION_MASK_U16) as usize;
 
-                if self.pos >= org_pos.unwrap_or(0) {
+                if self.pos >= start_pos {
                     self.pos = org_pos.unwrap_or(0);
                     return Err(DnsError::UnresolveableCompressionPointer);
                 }
+                start_pos = self.pos;
             } else if self.pos + 1 + len as usize > self.data.len() {
                 // Length encoded in FQDN would run out of the buffer
                 return Err(DnsError::LengthViolation);
-- 
2.43.0


From 44b3dee03794c62142fbd17656e434df64ea70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 03/42] fix: reject names longer than 255 bytes when parsing

---
 src/buffer.rs | 8 +++++++-
 src/lib.rs    | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index ee4ffe6..2d3a601 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -132,12 +132,14 @@ impl<'a> DnsBuffer<'a> {
     /// This also resolves DNS domain name compression, so that the returned FQDN is no longer
     /// compressed.
     pub fn extract_fqdn(&mut self) -> Result<FQDN, DnsError> {
-        use crate::{COMPRESSION_MASK, COMPRESSION_MASK_U16};
+        use crate::{COMPRESSION_MASK, COMPRESSION_MASK_U16, MAX_FQDN_LEN};
 
         let mut data = Vec::<Vec<u8>>::new();
         let mut org_pos = None;
         // Start of the labels currently read; a pointer has to refer to an earlier position
         let mut start_pos = self.pos;
+        // Size of the uncompressed name including the terminating zero byte
+        let mut name_len = 1;
         loop {
             let len = self.peek_bytes(1)?[0];
             if len & COMPRESSION_MASK == COMPRESSION_MASK {
@@ -170,6 +172,10 @@ impl<'a> DnsBuffer<'a> {
                 return Ok(FQDN::from(data));
             } else {
                 // Consume next part to FQDN
+                name_len += 1 + len as usize;
+                if name_len > MAX_FQDN_LEN {
+                    return Err(DnsError::LengthViolation);
+                }
                 self.pos += 1;
                 data.push(self.data[self.pos..self.pos + len as usize].to_vec());
                 self.pos += len as usize;
diff --git a/src/lib.rs b/src/lib.rs
index c500a16..727aa11 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,7 @@ mod util;
 
 const COMPRESSION_MASK: u8 = 0b1100_0000;
 const COMPRESSION_MASK_U16: u16 = 0b1100_0000_0000_0000;
+const MAX_FQDN_LEN: usize = 255;
 
 /// Simple abstraction over a non-owning binary buffer containing methods to extract DNS data types
 pub use self::buffer::DnsBuffer;
-- 
2.43.0


From ee0bbb5f8ac37e3b9e41890cccfee3f6a6d03c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 04/42] fix: never emit compression pointers to offsets beyond
 14 bits

---
 src/fqdn.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index d1f37ed..020c7c0 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -8,6 +8,9 @@ use crate::error::DnsError;
 use crate::util::hash_fqdn;
 use crate::COMPRESSION_MASK_U16;
 
+/// Largest offset that can be expressed by a compression pointer.
+const MAX_POINTER_OFFSET: usize = !COMPRESSION_MASK_U16 as usize;
+
 // struct Label<'a> {
 //     data: &'a [u8],
 // }
@@ -204,7 +207,10 @@ impl CompressedByteConvertible for FQDN {
                 size += 2;
                 return size;
             } else {
-                names.insert(remaining_hash, offset);
+                // Only offsets that fit into a pointer can be referenced later on
+                if offset <= MAX_POINTER_OFFSET {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
                 size += self.data[i].len() + 1;
             }
@@ -229,7 +235,10 @@ impl CompressedByteConvertible for FQDN {
                 buffer.push(self.data[i].len() as u8);
                 buffer.extend_from_slice(&self.data[i]);
 
-                names.insert(remaining_hash, offset);
+                // Only offsets that fit into a pointer can be referenced later on
+                if offset <= MAX_POINTER_OFFSET {
+                    names.insert(remaining_hash, offset);
+                }
                 offset += self.data[i].len() + 1;
             }
         }
-- 
2.43.0


From d1043b6f9398bbfc55463b843d13ec775980133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 05/42] fix: skip empty labels in the compressed form like in
 the plain form

---
 src/fqdn.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 020c7c0..a3352fd 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -199,6 +199,10 @@ impl CompressedByteConvertible for FQDN {
     fn byte_size_compressed(&self, names: &mut HashMap<u64, usize>, mut offset: usize) -> usize {
         let mut size = 0;
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
@@ -224,6 +228,10 @@ impl CompressedByteConvertible for FQDN {
         let mut buffer = Vec::new();
 
         for i in 0..self.data.len() {
+            if self.data[i].is_empty() {
+                continue;
+            }
+
             let remaining_fqdn = &self.data[i..];
             let remaining_hash = hash_fqdn(remaining_fqdn);
 
-- 
2.43.0


From 30c77ab892f270fb2d9b0fb30da25077e2e3b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 06/42] fix: do not treat labels read from the wire as valid
 UTF-8 when displaying names

---
 src/fqdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index a3352fd..a830aee 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -90,8 +90,8 @@ impl FQDN {
 impl Display for FQDN {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         for (idx, name_part) in self.iter().enumerate() {
-            // SAFETY: Safe because the u8 in self.data are parsed from a &str in the constructor
-            write!(f, "{}", unsafe { std::str::from_utf8_unchecked(name_part) })?;
+            // Labels read from the wire may contain arbitrary bytes
+            write!(f, "{}", String::from_utf8_lossy(name_part))?;
             if idx + 1 != self.data.len() {
                 write!(f, ".")?;
             }
-- 
2.43.0


From cb327a8b7a5eadcabc24cf4b0ce23add9ac0356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 07/42] fix: write the actual section counts in the compressed
 form

---
 src/packet.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/packet.rs b/src/packet.rs
index d542777..69cc8e3 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -244,6 +244,12 @@ impl Packet {
 
         let mut bin = self.header.to_bytes();
 
+        // Set correct number of element into the header
+        bin[4..6].copy_from_slice(&(self.questions.len() as u16).to_be_bytes());
+        bin[6..8].copy_from_slice(&(self.answers.len() as u16).to_be_bytes());
+        bin[8..10].copy_from_slice(&(self.authorities.len() as u16).to_be_bytes());
+        bin[10..12].copy_from_slice(&(self.additional.len() as u16).to_be_bytes());
+
         for ques in self.questions.iter() {
             bin.extend_from_slice(&ques.to_bytes_compressed(&mut used_fqdn, bin.len()));
         }
-- 
2.43.0


From 4d1ae2560c4f43c27267ce57e27a4bd468794364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 08/42] fix: taking the authorities resets their own count

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 69cc8e3..a31a572 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -205,7 +205,7 @@ impl Packet {
     }
 
     pub fn take_authorities(&mut self) -> Vec<ResourceRecord> {
-        self.header.ans_count = 0;
+        self.header.auth_count = 0;
         std::mem::take(&mut self.authorities)
     }
 
-- 
2.43.0


From 73aa2e541d3e4744ad1fc822046b935e73d6bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:20 +0000
Subject: [PATCH 09/42] fix: reject reserved response codes when parsing
 instead of panicking in the getter

---
 src/header.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 91497a3..b70d419 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -203,9 +203,14 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Header {
     type Error = DnsError;
 
     fn try_from(buffer: &mut DnsBuffer) -> Result<Self, Self::Error> {
+        let id = buffer.extract_u16()?;
+        let flags = FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?);
+        // Reject codes that can not be represented by the getter later on
+        ResponseCode::try_from(flags.rcode())?;
+
         Ok(Header {
-            id: buffer.extract_u16()?,
-            flags: FlagBitfield::from_bytes(buffer.extract_bytes(2)?.try_into()?),
+            id,
+            flags,
             ques_count: buffer.extract_u16()?,
             ans_count: buffer.extract_u16()?,
             auth_count: buffer.extract_u16()?,
-- 
2.43.0


From 929a1f5c0dd7f929ed8d1374fc28b35cf59fecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 10/42] fix: adding an entry does not overflow the count of a
 replaced header

---
 src/packet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index a31a572..4837a9b 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -173,7 +173,7 @@ impl Packet {
 
     pub fn add_question(&mut self, question: Question) {
         self.questions.push(question);
-        self.header.ques_count += 1;
+        self.header.ques_count = self.questions.len() as u16;
     }
 
     pub fn set_questions(&mut self, questions: Vec<Question>) {
@@ -192,7 +192,7 @@ impl Packet {
 
     pub fn add_answer(&mut self, answer: ResourceRecord) {
         self.answers.push(answer);
-        self.header.ans_count += 1;
+        self.header.ans_count = self.answers.len() as u16;
     }
 
     pub fn set_answers(&mut self, answers: Vec<ResourceRecord>) {
@@ -211,7 +211,7 @@ impl Packet {
 
     pub fn add_authority(&mut self, auth: ResourceRecord) {
         self.authorities.push(auth);
-        self.header.auth_count += 1;
+        self.header.auth_count = self.authorities.len() as u16;
     }
 
     pub fn set_authorities(&mut self, authorities: Vec<ResourceRecord>) {
@@ -230,7 +230,7 @@ impl Packet {
 
     pub fn add_additional(&mut self, add: ResourceRecord) {
         self.additional.push(add);
-        self.header.add_count += 1;
+        self.header.add_count = self.additional.len() as u16;
     }
 
     pub fn set_additionals(&mut self, additionals: Vec<ResourceRecord>) {
-- 
2.43.0


From 67c1275e052097250c7fd0d475ec86aa00bbfd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 11/42] fix: accept the CDS and CDNSKEY type codes that can be
 written

---
 src/question.rs | 4 ++++
 src/resource.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/question.rs b/src/question.rs
index 89667f3..59e5199 100644
--- a/src/question.rs
+++ b/src/question.rs
@@ -159,6 +159,10 @@ impl TryFrom<u16> for QType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
diff --git a/src/resource.rs b/src/resource.rs
index d79acb8..12f7701 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -193,6 +193,10 @@ impl TryFrom<u16> for RecordType {
             49 => Ok(Self::DHCID),
             52 => Ok(Self::TLSA),
             55 => Ok(Self::HIP),
+            #[cfg(feature = "dnssec")]
+            59 => Ok(Self::CDS),
+            #[cfg(feature = "dnssec")]
+            60 => Ok(Self::CDNSKEY),
             61 => Ok(Self::OPENPGPKEY),
             62 => Ok(Self::CSYNC),
             64 => Ok(Self::SVCB),
-- 
2.43.0


From fa1576a3e08ab8b24c8551db94699857a14b0e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 12/42] fix: read the whole address length of APL items

---
 src/rdata/apl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index f2febbe..48f62b9 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -52,7 +52,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let prefix = buffer.extract_u8()?;
         let coded_byte = buffer.extract_u8()?;
         let n = coded_byte & 0x80 != 0;
-        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7E) as usize)?.to_vec();
+        let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
             1 => {
-- 
2.43.0


From bbac50224b23d61ff535ee74fbef795e549dc5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 13/42] fix: reject APL addresses that are longer than their
 family allows

---
 src/rdata/apl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index 48f62b9..ec2b63e 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -55,6 +55,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
         let mut afd_bytes = buffer.extract_bytes((coded_byte & 0x7F) as usize)?.to_vec();
 
         let afd_part = match family {
+            1 if afd_bytes.len() > 4 => return Err(DnsError::LengthViolation),
             1 => {
                 afd_bytes.resize(4, 0);
                 Afd::IpV4(Ipv4Addr::new(
@@ -64,6 +65,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Apl {
                     afd_bytes[3],
                 ))
             }
+            2 if afd_bytes.len() > 16 => return Err(DnsError::LengthViolation),
             2 => {
                 afd_bytes.resize(16, 0);
                 Afd::IpV6(Ipv6Addr::from(u128::from_be_bytes(
-- 
2.43.0


From 5bccaa94a457fccceb20735aafe8178d59d8e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 14/42] fix: include the tag in the announced size of CAA data

---
 src/rdata/caa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 79a13f0..108ea95 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -68,7 +68,7 @@ impl RData for Caa {
 
 impl ByteConvertible for Caa {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.value.len()
+        (2 * std::mem::size_of::<u8>()) + self.tag.len() + self.value.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From e1c949e6df259bcd689cef11f592d2cf285ff0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 15/42] fix: count code and length of every option in the
 announced size of OPT data

---
 src/rdata/opt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rdata/opt.rs b/src/rdata/opt.rs
index e9ec4fa..1e89cff 100644
--- a/src/rdata/opt.rs
+++ b/src/rdata/opt.rs
@@ -53,7 +53,9 @@ impl RData for Opt {
 
 impl ByteConvertible for Opt {
     fn byte_size(&self) -> usize {
-        (2 * std::mem::size_of::<u8>()) + self.0.iter().fold(0, |acc, elem| acc + elem.1.len())
+        self.0.iter().fold(0, |acc, elem| {
+            acc + (2 * std::mem::size_of::<u16>()) + elem.1.len()
+        })
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From a42b49623af06a216d78cc44f63d084d2d099688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 16/42] fix: read the SSHFP fingerprint as the rest of the
 record data

---
 src/rdata/sshfp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/sshfp.rs b/src/rdata/sshfp.rs
index 701afa1..80755e3 100644
--- a/src/rdata/sshfp.rs
+++ b/src/rdata/sshfp.rs
@@ -36,7 +36,7 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Sshfp {
         Ok(Self {
             algorithm: buffer.extract_u8()?.try_into()?,
             fingerprint_type: buffer.extract_u8()?.try_into()?,
-            fingerprint: buffer.extract_character_string()?,
+            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),
         })
     }
 }
-- 
2.43.0


From 8e48de9e5ad75c2406a82b972806e65c7f88a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 17/42] fix: derive the record data length field from the data
 that is written

---
 src/resource.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resource.rs b/src/resource.rs
index 12f7701..37880d1 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -448,9 +448,10 @@ impl ByteConvertible for ResourceRecord {
 
         buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));
 
-        buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));
+        let rdata = self.rdata.to_bytes();
+        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));
 
-        buffer.extend_from_slice(&self.rdata.to_bytes());
+        buffer.extend_from_slice(&rdata);
 
         buffer
     }
-- 
2.43.0


From cc5352607f053b88d137adf979349a0d1c8cfc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 18/42] fix: reject CAA tags that are not text instead of
 altering them

---
 src/rdata/caa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rdata/caa.rs b/src/rdata/caa.rs
index 108ea95..efecb8d 100644
--- a/src/rdata/caa.rs
+++ b/src/rdata/caa.rs
@@ -45,7 +45,8 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Caa {
             return Err(DnsError::InvalidPacketData);
         }
 
-        let tag = String::from_utf8_lossy(buffer.extract_bytes(tag_len as usize)?).to_string();
+        let tag = String::from_utf8(buffer.extract_bytes(tag_len as usize)?.to_vec())
+            .map_err(|_| DnsError::InvalidPacketData)?;
         let value = buffer.extract_bytes(buffer.remaining())?.to_vec();
 
         Ok(Self {
-- 
2.43.0


From 9d826e3c5b30ee617ec5d9037d5e237b4a72e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 19/42] fix: reject unsupported NAPTR flags instead of dropping
 them

---
 src/rdata/naptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/naptr.rs b/src/rdata/naptr.rs
index 72ac6ab..a0ed730 100644
--- a/src/rdata/naptr.rs
+++ b/src/rdata/naptr.rs
@@ -99,8 +99,8 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Naptr {
             flags: buffer
                 .extract_character_string()?
                 .iter()
-                .flat_map(|ch| Flag::try_from(*ch))
-                .collect(),
+                .map(|ch| Flag::try_from(*ch))
+                .collect::<Result<_, _>>()?,
             service: buffer.extract_character_string()?,
             regexp: buffer.extract_string()?,
             replacement: buffer.extract_fqdn()?,
-- 
2.43.0


From ee98ebb0d15b52b26412dce28384dfcaf3aaaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 20/42] fix: report invalid TLSA selectors and matching types
 as such

---
 src/rdata/tlsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/tlsa.rs b/src/rdata/tlsa.rs
index 8093f05..ec0ea5a 100644
--- a/src/rdata/tlsa.rs
+++ b/src/rdata/tlsa.rs
@@ -138,7 +138,7 @@ impl TryFrom<u8> for Selector {
         match value {
             0 => Ok(Self::Full),
             1 => Ok(Self::SubjectPublicKeyInfo),
-            _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
+            _ => Err(DnsError::InvalidTLSASelector(value)),
         }
     }
 }
@@ -167,7 +167,7 @@ impl TryFrom<u8> for MatchingType {
             0 => Ok(Self::ExactMatch),
             1 => Ok(Self::SHA256),
             2 => Ok(Self::SHA512),
-            _ => Err(DnsError::InvalidSSHFPAlgorithm(value)),
+            _ => Err(DnsError::InvalidTLSAMatchingType(value)),
         }
     }
 }
-- 
2.43.0


From 2ec56501db82be73a73153e76e532238baa763a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 21/42] fix: reject type bitmap blocks longer than 32 bytes
 instead of overflowing

---
 src/rdata/csync.rs  | 3 +++
 src/rdata/dnssec.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index 5bd957e..b1ea398 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -85,6 +85,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Csync {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ac8fa45..9c20742 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -62,6 +62,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Nsec {
         while buffer.remaining() > 0 {
             let window_num = buffer.extract_u8()? as u16;
             let window_len = buffer.extract_u8()? as u16;
+            if window_len > 32 {
+                return Err(DnsError::LengthViolation);
+            }
 
             // By extracting the RRTypes from the bitmap it is "guaranteed" that the resulting vec
             // self.types is sorted
-- 
2.43.0


From 80ec0edc2b36f57012155777026947b4b2c8b7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:39 +0000
Subject: [PATCH 22/42] fix: reject lengths near the largest integer instead of
 overflowing the position

---
 src/buffer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 2d3a601..09ff995 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -18,10 +18,10 @@ impl<'a> DnsBuffer<'a> {
     /// but with a custom length parameter. The start of the new buffer is at index 0 of
     /// the parent buffer.
     pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
+        len += self.pos;
         Ok(Self {
             data: &self.data[0..len],
             pos: self.pos,
@@ -50,10 +50,10 @@ impl<'a> DnsBuffer<'a> {
 
     /// Advances the current index by `len` bytes.
     pub fn advance(&mut self, mut len: usize) -> Result<(), DnsError> {
-        len += self.pos;
-        if len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
+        len += self.pos;
         self.pos = len;
         Ok(())
     }
@@ -61,7 +61,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len without modifying the internal state (e.g. the current index).
     pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
         Ok(&self.data[self.pos..self.pos + len])
@@ -70,7 +70,7 @@ impl<'a> DnsBuffer<'a> {
     /// Returns a read-only view into the buffer that starts at the current index and ends at
     /// the current position + len and sets the current index to the end of the returned slice.
     pub fn extract_bytes(&mut self, len: usize) -> Result<&[u8], DnsError> {
-        if self.pos + len > self.data.len() {
+        if len > self.remaining() {
             return Err(DnsError::LengthViolation);
         }
 
-- 
2.43.0


From daad6b3b8365ab6531c22239404681a357b1098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:39 +0000
Subject: [PATCH 23/42] fix: reject SVCB parameters whose length does not fit
 their value

---
 src/rdata/svcb.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rdata/svcb.rs b/src/rdata/svcb.rs
index f790ac8..ab6d570 100644
--- a/src/rdata/svcb.rs
+++ b/src/rdata/svcb.rs
@@ -199,22 +199,21 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
 
     fn try_from(buffer: &mut DnsBuffer<'a>) -> Result<Self, Self::Error> {
         let key = ParamKey::try_from(buffer.extract_u16()?)?;
-        let mut len = buffer.extract_u16()? as usize;
+        let len = buffer.extract_u16()? as usize;
+        let end = buffer.position() + len;
         let val = match key {
             ParamKey::Mandatory => {
                 let mut keys = BTreeSet::default();
-                while len > 0 {
+                while buffer.position() < end {
                     keys.insert(buffer.extract_u16()?.try_into()?);
-                    len -= 2;
                 }
                 Self::Mandatory(keys)
             }
             ParamKey::Alpn => {
                 let mut alpn = Vec::default();
-                while len > 0 {
+                while buffer.position() < end {
                     let inner_len = buffer.extract_u8()? as usize;
                     alpn.push(buffer.extract_bytes(inner_len)?.to_vec());
-                    len -= inner_len + 1;
                 }
                 Self::Alpn(alpn)
             }
@@ -231,6 +230,9 @@ impl<'a> TryFrom<&mut DnsBuffer<'a>> for Param {
             },
             ParamKey::Invalid => Self::Invalid,
         };
+        if buffer.position() != end {
+            return Err(DnsError::LengthViolation);
+        }
         Ok(val)
     }
 }
-- 
2.43.0


From 9ca97c757c05a69230fa8f6f8a9f057f783881d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:01 +0000
Subject: [PATCH 24/42] fix: omit type bitmap blocks that contain no types

---
 src/rdata/csync.rs  | 19 ++++++++++++-------
 src/rdata/dnssec.rs | 38 ++++++++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/rdata/csync.rs b/src/rdata/csync.rs
index b1ea398..bb623be 100644
--- a/src/rdata/csync.rs
+++ b/src/rdata/csync.rs
@@ -131,9 +131,12 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Blocks without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -161,10 +164,12 @@ impl ByteConvertible for Csync {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer if it contains any types
+                if block_data[block_len as usize] != 0 {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 9c20742..e64b5e7 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -97,9 +97,12 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Blocks without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -126,10 +129,12 @@ impl ByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer if it contains any types
+                if block_data[block_len as usize] != 0 {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
@@ -157,9 +162,12 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                byte_size += 2; // window number and block length
-                let num_octets = ((last_rtype.unwrap_or(0) / 8) - (32 * block_num)) as usize;
-                byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                // Blocks without any types are not part of the bitmap
+                if let Some(last_rtype) = last_rtype {
+                    byte_size += 2; // window number and block length
+                    let num_octets = ((last_rtype / 8) - (32 * block_num)) as usize;
+                    byte_size += num_octets + 1; // Octet index of last entry equals the block length
+                }
 
                 if rtype.is_none() {
                     break;
@@ -190,10 +198,12 @@ impl CompressedByteConvertible for Nsec {
         loop {
             let rtype = rtype_iter.next();
             if rtype.is_none() || *rtype.unwrap() as u16 - (block_num * 32) > 255 {
-                // Finish block by pushing it into the output buffer
-                buffer.push(block_num as u8);
-                buffer.push(block_len + 1_u8);
-                buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                // Finish block by pushing it into the output buffer if it contains any types
+                if block_data[block_len as usize] != 0 {
+                    buffer.push(block_num as u8);
+                    buffer.push(block_len + 1_u8);
+                    buffer.extend_from_slice(&block_data[0..=block_len as usize]);
+                }
 
                 if rtype.is_none() {
                     break;
-- 
2.43.0


From 64fb56293c557cbb1e33a4df8c9fd17e30e9c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:47 +0000
Subject: [PATCH 25/42] fix: verify RSA/SHA-256 and RSA/SHA-512 signatures with
 the padding they are created with

---
 src/rdata/dnssec.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index e64b5e7..a017739 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -596,13 +596,14 @@ impl Rrsig {
                 let verifier = rsa::RsaPublicKey::new(modulus, exponent)
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier
-                    .verify(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        &sig,
-                        &self.signature,
-                    )
-                    .is_ok())
+                // Use the same padding scheme that is used to create the signature
+                let scheme = match self.algorithm {
+                    Algorithm::RSA_SHA256 => rsa::Pkcs1v15Sign::new::<rsa::sha2::Sha256>(),
+                    Algorithm::RSA_SHA512 => rsa::Pkcs1v15Sign::new::<rsa::sha2::Sha512>(),
+                    _ => rsa::Pkcs1v15Sign::new_unprefixed(),
+                };
+
+                Ok(verifier.verify(scheme, &sig, &self.signature).is_ok())
             }
             Algorithm::DSA_SHA1 => {
                 use dsa::signature::Verifier;
-- 
2.43.0


From 36c30fecbeb3e880b42afa0aefc89251e2f68bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:47 +0000
Subject: [PATCH 26/42] fix: store RRSIG validity times in seconds

---
 src/rdata/dnssec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index a017739..200e97c 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -484,11 +484,11 @@ impl Rrsig {
         let expiration = expiration
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
         let inception = inception
             .duration_since(UNIX_EPOCH)
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
-            .as_millis() as u32;
+            .as_secs() as u32;
 
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
-- 
2.43.0


From 538d707ffa597e27ec108dcb36a780d52bcc98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 27/42] fix: DSA signatures use the fixed size format and
 verify with the hash they are created with

---
 src/rdata/dnssec.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 200e97c..fd0141e 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -606,7 +606,7 @@ impl Rrsig {
                 Ok(verifier.verify(scheme, &sig, &self.signature).is_ok())
             }
             Algorithm::DSA_SHA1 => {
-                use dsa::signature::Verifier;
+                use dsa::signature::hazmat::PrehashVerifier;
 
                 // Key data field:
                 // T         1  octet
@@ -627,10 +627,22 @@ impl Rrsig {
                 )
                 .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                let signature = dsa::Signature::try_from(self.signature.as_slice())
+                // Signature field:
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                let mut signature_data = DnsBuffer::from(self.signature.as_slice());
+                let signature_t = signature_data.extract_u8()? as usize;
+                let r = BigUint::from_bytes_be(signature_data.extract_bytes(20)?);
+                let s = BigUint::from_bytes_be(signature_data.extract_bytes(20)?);
+                if signature_t != t || signature_data.remaining() > 0 {
+                    return Ok(false);
+                }
+                let signature = dsa::Signature::from_components(r, s)
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
-                Ok(verifier.verify(&sig, &signature).is_ok())
+                // The data to verify is already hashed
+                Ok(verifier.verify_prehash(&sig, &signature).is_ok())
             }
             Algorithm::ECDSA_P256 => {
                 // Key data field:
@@ -808,8 +820,19 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let signature = signing_key.sign_digest(hasher);
 
-                let mut sign_data = signature.r().to_bytes_be();
-                sign_data.extend_from_slice(&signature.s().to_bytes_be());
+                // Signature field:
+                // T         1  octet
+                // R        20  octets
+                // S        20  octets
+                let p_len = signing_key.verifying_key().components().p().to_bytes_be().len();
+                let mut sign_data = vec![(p_len.saturating_sub(64) / 8) as u8];
+                for part in [signature.r().to_bytes_be(), signature.s().to_bytes_be()] {
+                    if part.len() > 20 {
+                        return Err(DnsError::DnsSecSigningError("Unsupported key size".into()));
+                    }
+                    sign_data.resize(sign_data.len() + 20 - part.len(), 0);
+                    sign_data.extend_from_slice(&part);
+                }
 
                 Ok(sign_data)
             }
-- 
2.43.0


From f7af30d4ce054ff5491542597d5ee6ee25041951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 28/42] fix: verify ECDSA signatures with keys in DNSKEY format

---
 src/rdata/dnssec.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index fd0141e..f3b318f 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -649,7 +649,7 @@ impl Rrsig {
                 // 64 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P256_SHA256_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    ecdsa_point(public_key_data.as_slice(), 64),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
@@ -659,7 +659,7 @@ impl Rrsig {
                 // 97 bytes (x | y)
                 let verifier = ring::signature::UnparsedPublicKey::new(
                     &ring::signature::ECDSA_P384_SHA384_FIXED,
-                    public_key_data.extract_bytes(public_key_data.remaining())?,
+                    ecdsa_point(public_key_data.as_slice(), 96),
                 );
 
                 Ok(verifier.verify(&sig, &self.signature).is_ok())
@@ -702,6 +702,17 @@ impl Rrsig {
     }
 }
 
+/// The key data of ECDSA keys is the plain point (x | y) but the verification algorithm expects a
+/// leading marker byte for uncompressed points.
+fn ecdsa_point(key_data: &[u8], point_len: usize) -> Vec<u8> {
+    let mut point = Vec::with_capacity(1 + key_data.len());
+    if key_data.len() == point_len {
+        point.push(4);
+    }
+    point.extend_from_slice(key_data);
+    point
+}
+
 impl<'a> TryFrom<&mut DnsBuffer<'a>> for Rrsig {
     type Error = DnsError;
 
-- 
2.43.0


From 526491a81303cdfb2542378fcc8ba878f2163e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 29/42] fix: report the code of algorithms that can not sign

---
 src/rdata/dnssec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index f3b318f..27dc393 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -933,9 +933,9 @@ impl Algorithm {
                 let signature = ed448_key.sign_raw(data);
                 Ok(signature.to_vec())
             }
-            Self::Indirect => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
-            Self::PrivateDns => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
-            Self::PrivateOid => Err(DnsError::InvalidDnsSecAlgorithm(*self as u8)),
+            Self::Indirect => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
+            Self::PrivateDns => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
+            Self::PrivateOid => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),
         }
     }
 }
-- 
2.43.0


From c86d07340132d478bc29c7287d816b5df6e8ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 30/42] fix: return an error instead of panicking if RSA
 signing fails

---
 src/rdata/dnssec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 27dc393..2a5c85a 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -871,28 +871,28 @@ impl Algorithm {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA256,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::RSA_SHA512 => {
                 let rsa_key_pair = ring::rsa::KeyPair::from_pkcs8(private_key)
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 let mut signature = vec![0; rsa_key_pair.public().modulus_len()];
-                let _ = rsa_key_pair
+                rsa_key_pair
                     .sign(
                         &ring::signature::RSA_PKCS1_SHA512,
                         &rng,
                         data,
                         &mut signature,
                     )
-                    .map_err(|_| todo!());
+                    .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
                 Ok(signature)
             }
             Self::ECDSA_P256 => {
-- 
2.43.0


From 409fb1eddb33b865ac555dcafebeadbd90b12407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 31/42] fix: do not print to stdout while serialising TSIG data

---
 src/rdata/tsig.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rdata/tsig.rs b/src/rdata/tsig.rs
index 7db281f..5238c08 100644
--- a/src/rdata/tsig.rs
+++ b/src/rdata/tsig.rs
@@ -106,7 +106,6 @@ impl ByteConvertible for Tsig {
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
-        println!("Test: {:?}", self.algorithm.to_bytes());
         buf.extend(self.algorithm.to_bytes());
         buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes
         buf.extend(self.fudge.to_be_bytes()); // 16 b
-- 
2.43.0


From 60c6cc91861869d5cad5f098e7861435e52441f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:33 +0000
Subject: [PATCH 32/42] verification hook: export private value types under
 cfg(maybe_dns_verif)

---
 src/rdata/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rdata/mod.rs b/src/rdata/mod.rs
index 3c016c7..12c184d 100644
--- a/src/rdata/mod.rs
+++ b/src/rdata/mod.rs
@@ -73,6 +73,16 @@ pub use self::txt::Txt;
 pub use self::uri::Uri;
 pub use self::wks::Wks;
 
+/// Value types of private modules, exported for the verification harness only
+#[cfg(maybe_dns_verif)]
+pub mod verif {
+    pub use super::apl::Afd;
+    pub use super::csync::Flags as CsyncFlags;
+    #[cfg(feature = "dnssec")]
+    pub use super::dnssec::{Algorithm as DnssecAlgorithm, DigestType};
+    pub use super::svcb::{Param, ParamKey};
+}
+
 /// This trait is implemented by all record data types in this crate to get
 /// the type and to transfer it into a wrapping enum `RecordData`.
 pub trait RData {
-- 
2.43.0


From 5ffde64245eda18d1d1acad80a195405e2c47633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:45 +0000
Subject: [PATCH 33/42] fix: a name without labels is empty

---
 src/fqdn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index a830aee..2dd6531 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -38,7 +38,7 @@ impl FQDN {
 
     /// Checks if the FQDN does not contain any labels.
     pub fn is_empty(&self) -> bool {
-        self.byte_size() == 0
+        self.data.is_empty()
     }
 
     /// Returns the byte-size of this FQDN in its binary representation.
-- 
2.43.0


From 66ab7bb7c20a52b7bedb0787611483eb4c450b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:25 +0000
Subject: [PATCH 34/42] fix: omit trailing zero octets of APL addresses

---
 src/rdata/apl.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rdata/apl.rs b/src/rdata/apl.rs
index ec2b63e..ea90312 100644
--- a/src/rdata/apl.rs
+++ b/src/rdata/apl.rs
@@ -123,19 +123,25 @@ impl Afd {
     }
 }
 
+/// Trailing zero octets of an address are not part of its wire format (RFC 3123 section 4).
+fn significant_octets(octets: &[u8]) -> &[u8] {
+    let len = octets.iter().rposition(|octet| *octet != 0);
+    &octets[..len.map_or(0, |idx| idx + 1)]
+}
+
 impl ByteConvertible for Afd {
     fn byte_size(&self) -> usize {
         match self {
-            Self::IpV4(_) => 4,
-            Self::IpV6(_) => 16,
+            Self::IpV4(ref v4) => significant_octets(&v4.octets()).len(),
+            Self::IpV6(ref v6) => significant_octets(&v6.octets()).len(),
         }
     }
 
     fn to_bytes(&self) -> Vec<u8> {
         let mut buf = Vec::with_capacity(self.byte_size());
         match self {
-            Self::IpV4(ref v4) => buf.extend(v4.octets()),
-            Self::IpV6(ref v6) => buf.extend(v6.octets()),
+            Self::IpV4(ref v4) => buf.extend(significant_octets(&v4.octets())),
+            Self::IpV6(ref v6) => buf.extend(significant_octets(&v6.octets())),
         }
         buf
     }
-- 
2.43.0


From 8418ba8ff9c8f5dfc3b6eaed1131ec654c36b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:53 +0000
Subject: [PATCH 35/42] fix: count all fixed octets in the size of RRSIG data

---
 src/rdata/dnssec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 2a5c85a..5a1b4bc 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -744,7 +744,7 @@ impl RData for Rrsig {
 impl ByteConvertible for Rrsig {
     #[inline(always)]
     fn byte_size(&self) -> usize {
-        17 + self.signers_name.len() + self.signature.len()
+        18 + self.signers_name.len() + self.signature.len()
     }
 
     fn to_bytes(&self) -> Vec<u8> {
-- 
2.43.0


From 02e0615cb1a2b24d8131377698030bc1450cf042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:46 +0000
Subject: [PATCH 36/42] fix: an error is not its own cause

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index ff3b1e0..2e98a9e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -80,7 +80,10 @@ pub enum DnsError {
 
 impl std::error::Error for DnsError {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
-        Some(self)
+        match self {
+            Self::InvalidDnsSecSignatureTimespan(e) => Some(e),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0


From 34d4dd7a34823128ca3b73ecf543159295e53bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:46 +0000
Subject: [PATCH 37/42] verification hook: export the mode of service bindings
 under cfg(maybe_dns_verif)

---
 src/rdata/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rdata/mod.rs b/src/rdata/mod.rs
index 12c184d..51867cb 100644
--- a/src/rdata/mod.rs
+++ b/src/rdata/mod.rs
@@ -80,7 +80,7 @@ pub mod verif {
     pub use super::csync::Flags as CsyncFlags;
     #[cfg(feature = "dnssec")]
     pub use super::dnssec::{Algorithm as DnssecAlgorithm, DigestType};
-    pub use super::svcb::{Param, ParamKey};
+    pub use super::svcb::{Mode as SvcbMode, Param, ParamKey};
 }
 
 /// This trait is implemented by all record data types in this crate to get
-- 
2.43.0


From 0074f69ffa7ab361f68e10cf8334446ace9fdb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 38/42] fix: record sets and signatures cover the canonical
 form of domain names

The letters of the owner name, of the signer's name and of the names in the
record data (RFC 4034 section 6.2, RFC 6840 section 5.1) were signed as
spelled, so that signatures of other implementations over names with upper
case letters were rejected and the other way around.
---
 src/fqdn.rs                | 15 +++++++++++++++
 src/rdata/dnssec.rs        | 11 +++++++++--
 src/rdata/mod.rs           | 26 ++++++++++++++++++++++++++
 src/rdata/naptr.rs         |  5 +++++
 src/resource_record_set.rs |  6 +++---
 5 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/fqdn.rs b/src/fqdn.rs
index 2dd6531..513ce4a 100644
--- a/src/fqdn.rs
+++ b/src/fqdn.rs
@@ -85,6 +85,21 @@ impl FQDN {
     pub fn append_label(&mut self, name: &str) {
         self.data.push(name.as_bytes().to_vec());
     }
+
+    /// Brings the FQDN into its canonical form (RFC 4034, section 6.2) by replacing all uppercase
+    /// US-ASCII letters by their lowercase counterparts.
+    pub(crate) fn make_canonical(&mut self) {
+        for label in self.iter_mut() {
+            label.make_ascii_lowercase();
+        }
+    }
+
+    /// Wire format of the canonical form of the FQDN.
+    pub(crate) fn to_canonical_bytes(&self) -> Vec<u8> {
+        let mut canonical = self.clone();
+        canonical.make_canonical();
+        canonical.to_bytes()
+    }
 }
 
 impl Display for FQDN {
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 5a1b4bc..fc1ce93 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -507,6 +507,11 @@ impl Rrsig {
         Ok(rrsig)
     }
 
+    /// Brings the name of the signer into its canonical form.
+    pub(crate) fn make_canonical(&mut self) {
+        self.signers_name.make_canonical();
+    }
+
     pub fn key_tag(&self) -> u16 {
         self.key_tag
     }
@@ -541,7 +546,7 @@ impl Rrsig {
         sig.extend(u32::to_be_bytes(self.sig_expiration));
         sig.extend(u32::to_be_bytes(self.sig_inception));
         sig.extend(u16::to_be_bytes(self.key_tag));
-        sig.extend(self.signers_name.to_bytes());
+        sig.extend(self.signers_name.to_canonical_bytes());
         sig.extend(rr_set.to_bytes());
 
         // For some algorithms the hash is calculated independently of the verification algorithm
@@ -693,7 +698,9 @@ impl Rrsig {
         rr_set: &ResourceRecordSet,
         private_key: &[u8],
     ) -> Result<(), DnsError> {
-        let mut sig = self.to_bytes();
+        let mut canonical = self.clone();
+        canonical.make_canonical();
+        let mut sig = canonical.to_bytes();
         sig.extend(rr_set.to_bytes());
 
         self.signature = self.algorithm.sign_data(&sig, private_key)?;
diff --git a/src/rdata/mod.rs b/src/rdata/mod.rs
index 51867cb..3a06214 100644
--- a/src/rdata/mod.rs
+++ b/src/rdata/mod.rs
@@ -233,6 +233,32 @@ impl RecordData {
             RecordType::CAA => Self::CAA(Caa::try_from(buffer)?),
         })
     }
+
+    /// Wire format with the domain names in canonical form for the types that are listed in
+    /// RFC 4034, section 6.2 (as updated by RFC 6840, section 5.1).
+    pub(crate) fn to_canonical_bytes(&self) -> Vec<u8> {
+        let mut canonical = self.clone();
+        match canonical {
+            Self::NS(ref mut ns) => ns.nsdname.make_canonical(),
+            Self::CNAME(ref mut cname) => cname.cname.make_canonical(),
+            Self::SOA(ref mut soa) => {
+                soa.mname.make_canonical();
+                soa.rname.make_canonical();
+            }
+            Self::PTR(ref mut ptr) => ptr.inner_mut().make_canonical(),
+            Self::MINFO(ref mut minfo) => {
+                minfo.rmailbx.make_canonical();
+                minfo.emailbx.make_canonical();
+            }
+            Self::MX(ref mut mx) => mx.exchange.make_canonical(),
+            Self::SRV(ref mut srv) => srv.target.make_canonical(),
+            Self::NAPTR(ref mut naptr) => naptr.make_canonical(),
+            #[cfg(feature = "dnssec")]
+            Self::RRSIG(ref mut rrsig) => rrsig.make_canonical(),
+            _ => {}
+        }
+        canonical.to_bytes()
+    }
 }
 
 impl ByteConvertible for RecordData {
diff --git a/src/rdata/naptr.rs b/src/rdata/naptr.rs
index a0ed730..2e52ba3 100644
--- a/src/rdata/naptr.rs
+++ b/src/rdata/naptr.rs
@@ -87,6 +87,11 @@ impl Naptr {
             replacement,
         }
     }
+
+    /// Brings the replacement name into its canonical form.
+    pub(crate) fn make_canonical(&mut self) {
+        self.replacement.make_canonical();
+    }
 }
 
 impl<'a> TryFrom<&mut DnsBuffer<'a>> for Naptr {
diff --git a/src/resource_record_set.rs b/src/resource_record_set.rs
index 1a1f4f8..0a0932f 100644
--- a/src/resource_record_set.rs
+++ b/src/resource_record_set.rs
@@ -48,7 +48,7 @@ impl<'a> ResourceRecordSet<'a> {
     /// This function is costly because it needs to create the wire format of all the records to
     /// identify the correct order
     pub fn canonical_reorder(&mut self) {
-        self.records.sort_by_key(|a| a.to_bytes());
+        self.records.sort_by_key(|a| a.to_canonical_bytes());
     }
 
     pub fn name(&self) -> &'a FQDN {
@@ -84,7 +84,7 @@ impl<'a> ByteConvertible for ResourceRecordSet<'a> {
         // signature = sign(RRSIG_RDATA | RR(1) | RR(2)... ) where
         //    "|" denotes concatenation;
         let mut binary_records = Vec::with_capacity(self.records.len());
-        let name_bin = self.name.to_bytes();
+        let name_bin = self.name.to_canonical_bytes();
 
         // RRSIG_RDATA is the wire format of the RRSIG RDATA fields
         //    with the Signer's Name field in canonical form and
@@ -93,7 +93,7 @@ impl<'a> ByteConvertible for ResourceRecordSet<'a> {
         // Create canonical ordering of the record set
         let mut sig_size = 0;
         self.records.iter().for_each(|rr| {
-            let bin = rr.to_bytes();
+            let bin = rr.to_canonical_bytes();
             let pos = binary_records
                 .binary_search(&bin)
                 .unwrap_or_else(|insert_pos| insert_pos);
-- 
2.43.0


From 63e19962ba31423fc8bd9acf3fee6ac2d849175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 39/42] fix: DS and DHCID digests cover the canonical form of
 the owner name

RFC 4034 section 5.1.4 and RFC 4701 section 3.5 hash the canonical wire
format, in which all letters are lower case.
---
 src/rdata/dhcid.rs  | 2 +-
 src/rdata/dnssec.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rdata/dhcid.rs b/src/rdata/dhcid.rs
index 833c36b..10d9d85 100644
--- a/src/rdata/dhcid.rs
+++ b/src/rdata/dhcid.rs
@@ -50,7 +50,7 @@ impl Dhcid {
 
         let mut ctx = digest::Context::new(&digest::SHA256);
         ctx.update(identifier);
-        ctx.update(&fqdn.to_bytes());
+        ctx.update(&fqdn.to_canonical_bytes());
 
         Self {
             identifier_code,
diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index fc1ce93..ab0b8ab 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -368,7 +368,7 @@ impl Ds {
         digest_type: DigestType,
     ) -> Result<Self, DnsError> {
         let mut digest_data = Vec::with_capacity(owner_name.byte_size() + dnskey.byte_size());
-        digest_data.extend_from_slice(&owner_name.to_bytes());
+        digest_data.extend_from_slice(&owner_name.to_canonical_bytes());
         digest_data.extend_from_slice(&dnskey.to_bytes());
 
         Ok(Self {
-- 
2.43.0


From 729b613e78a3aa01df6592df08bdcd2992e56cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:26 +0000
Subject: [PATCH 40/42] fix: key tag of RSA/MD5 keys is taken from the modulus
 (RFC 4034, appendix B.1)

---
 src/rdata/dnssec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ab0b8ab..9bb9f76 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -268,6 +268,12 @@ impl DnsKey {
     /// First octet of the key tag is the most significant 8 bits of the return value
     /// Second octet of the key tag is the least significant 8 bits of the return value
     fn compute_key_tag(&self) -> u16 {
+        if let (Algorithm::RSA_MD5, [.., high, low, _]) = (self.algorithm, &self.public_key[..]) {
+            // RFC 4034, appendix B.1: most significant 16 bits of the least significant 24 bits of
+            // the modulus
+            return u16::from_be_bytes([*high, *low]);
+        }
+
         let mut key_tag = self
             .to_bytes()
             .iter()
-- 
2.43.0


From ad74a81314fd2ffc2523804e762102a5423a83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:01 +0000
Subject: [PATCH 41/42] fix: RSA/MD5 and RSA/SHA-1 signatures name the digest
 algorithm in their padding

RFC 2537 section 3 and RFC 3110 section 3 prescribe the PKCS #1 prefix of the
digest algorithm. Without it signatures of other implementations were rejected
and the other way around.
---
 src/rdata/dnssec.rs | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index 9bb9f76..ec694fb 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -608,13 +608,9 @@ impl Rrsig {
                     .map_err(|err| DnsError::DnsSecVerificationError(err.to_string()))?;
 
                 // Use the same padding scheme that is used to create the signature
-                let scheme = match self.algorithm {
-                    Algorithm::RSA_SHA256 => rsa::Pkcs1v15Sign::new::<rsa::sha2::Sha256>(),
-                    Algorithm::RSA_SHA512 => rsa::Pkcs1v15Sign::new::<rsa::sha2::Sha512>(),
-                    _ => rsa::Pkcs1v15Sign::new_unprefixed(),
-                };
-
-                Ok(verifier.verify(scheme, &sig, &self.signature).is_ok())
+                Ok(verifier
+                    .verify(self.algorithm.rsa_padding(), &sig, &self.signature)
+                    .is_ok())
             }
             Algorithm::DSA_SHA1 => {
                 use dsa::signature::hazmat::PrehashVerifier;
@@ -808,6 +804,29 @@ impl Algorithm {
         }
     }
 
+    /// Padding scheme of RSA signatures which includes the identifier of the digest algorithm
+    /// (RFC 2537 section 3, RFC 3110 section 3, RFC 5702 section 3).
+    fn rsa_padding(&self) -> rsa::Pkcs1v15Sign {
+        let (hash_len, prefix): (_, &[u8]) = match self {
+            Self::RSA_MD5 => (
+                16,
+                b"\x30\x20\x30\x0c\x06\x08\x2a\x86\x48\x86\xf7\x0d\x02\x05\x05\x00\x04\x10",
+            ),
+            Self::RSA_SHA1 => (
+                20,
+                b"\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14",
+            ),
+            Self::RSA_SHA256 => return rsa::Pkcs1v15Sign::new::<rsa::sha2::Sha256>(),
+            Self::RSA_SHA512 => return rsa::Pkcs1v15Sign::new::<rsa::sha2::Sha512>(),
+            _ => return rsa::Pkcs1v15Sign::new_unprefixed(),
+        };
+
+        rsa::Pkcs1v15Sign {
+            hash_len: Some(hash_len),
+            prefix: prefix.into(),
+        }
+    }
+
     pub fn sign_data(&self, data: &[u8], private_key: &[u8]) -> Result<Vec<u8>, DnsError> {
         let rng = ring::rand::SystemRandom::new();
 
@@ -824,10 +843,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 let signature = private_key
-                    .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        digest.as_ref(),
-                    )
+                    .sign(self.rsa_padding(), digest.as_ref())
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 Ok(signature)
@@ -872,10 +888,7 @@ impl Algorithm {
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 let signature = private_key
-                    .sign(
-                        rsa::pkcs1v15::Pkcs1v15Sign::new_unprefixed(),
-                        digest.as_ref(),
-                    )
+                    .sign(self.rsa_padding(), digest.as_ref())
                     .map_err(|err| DnsError::DnsSecSigningError(err.to_string()))?;
 
                 Ok(signature)
-- 
2.43.0


From 330eb5553c134ed4486339cac5fe7109dc3bc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 42/42] fix: labels field of a signature does not count the
 asterisk of a wildcard name

---
 src/rdata/dnssec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rdata/dnssec.rs b/src/rdata/dnssec.rs
index ec694fb..61f6f41 100644
--- a/src/rdata/dnssec.rs
+++ b/src/rdata/dnssec.rs
@@ -496,10 +496,13 @@ impl Rrsig {
             .map_err(DnsError::InvalidDnsSecSignatureTimespan)?
             .as_secs() as u32;
 
+        // The asterisk of a wildcard name is not counted (RFC 4034, section 3.1.3)
+        let wildcard = matches!(rr_set.name().iter().next(), Some(label) if label == b"*");
+
         let mut rrsig = Self {
             type_covered: rr_set.set_type(),
             algorithm: dnskey.algorithm,
-            labels: rr_set.name().label_count(),
+            labels: rr_set.name().label_count().saturating_sub(wildcard as u8),
             original_ttl: rr_set.ttl(),
             sig_expiration: expiration,
             sig_inception: inception,
-- 
2.43.0

