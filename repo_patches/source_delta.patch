From fec68af0827a525468c8d17300f052620be6606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 01/15] fix: place the method bits of the message type at the
 positions the decoder and RFC 5389 use

Methods >= 0x10 were encoded with the wrong shifts, so the bytes on the wire
carried another method (or were rejected by the decoder).
---
 src/message.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1ac08c2..c70a474 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -569,9 +569,9 @@ impl Type {
         let method = self.method.as_u16();
         (method & 0b0000_0000_1111)
             | ((class & 0b01) << 4)
-            | ((method & 0b0000_0111_0000) << 5)
+            | ((method & 0b0000_0111_0000) << 1)
             | ((class & 0b10) << 7)
-            | ((method & 0b1111_1000_0000) << 9)
+            | ((method & 0b1111_1000_0000) << 2)
     }
 
     fn from_u16(value: u16) -> Result<Self> {
-- 
2.43.0


From 9ede4decebfca5adbf9d6d96e368803cc2adc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 02/15] fix: read the CHANGE-REQUEST flags from the bits they
 are written to

The encoder (and RFC 5780) put change-IP in bit 2 and change-port in bit 1;
the decoder looked at bits 1 and 0.
---
 src/rfc5780/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index c91492e..7f8aea0 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -121,7 +121,7 @@ impl ChangeRequestDecoder {
     }
 }
 impl_decode!(ChangeRequestDecoder, ChangeRequest, |item| {
-    Ok(ChangeRequest((item & 0x2) != 0, (item & 0x1) != 0))
+    Ok(ChangeRequest((item & 0x4) != 0, (item & 0x2) != 0))
 });
 
 /// [`ChangeRequest`] encoder.
-- 
2.43.0


From 6e364134957231dff37f8797106f23919a6a45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 03/15] fix: encode the port of RESPONSE-PORT

The encoder always wrote port 0.
---
 src/rfc5780/attributes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfc5780/attributes.rs b/src/rfc5780/attributes.rs
index 7f8aea0..efdabcc 100644
--- a/src/rfc5780/attributes.rs
+++ b/src/rfc5780/attributes.rs
@@ -316,4 +316,6 @@ impl ResponsePortEncoder {
         Self::default()
     }
 }
-impl_encode!(ResponsePortEncoder, ResponsePort, |_item: Self::Item| 0u16);
+impl_encode!(ResponsePortEncoder, ResponsePort, |item: Self::Item| {
+    u32::from(item.0) << 16
+});
-- 
2.43.0


From d41cd0ca33f6610db25098ec2bc1c805e0f74b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 04/15] fix: treat an attribute that overruns its message as an
 error on every path

When the last attribute claimed more bytes than the message contains,
`decode()` consumed everything without becoming idle, and the next call (for
example the one `decode_exact` makes) silently dropped the attribute and
delivered the message as a valid one.
---
 src/message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index c70a474..ff726cc 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -345,7 +345,11 @@ impl<A: Attribute> Decode for AttributesDecoder<A> {
                 Err(e) => {
                     self.last_error = Some(e);
                 }
-                Ok(size) => return Ok(size),
+                Ok(size) if !eos.is_reached() || self.inner.is_idle() => return Ok(size),
+                Ok(_) => {
+                    // The message ended in the middle of an attribute
+                    self.last_error = Some(track!(Error::from(ErrorKind::UnexpectedEos)));
+                }
             }
         }
 
-- 
2.43.0


From ade2c9e5d8da603eed94a182aa7baa759a1550b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 05/15] fix: discard the attribute state of a message when its
 decoding finishes

After a broken message the decoder kept part of its state (and in any case the
expected length), so the following message was reported as broken too, and
`requiring_bytes()` asked for more bytes than the next message header has.
---
 src/message.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index ff726cc..87cf8a7 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -8,7 +8,7 @@ use bytecodec::bytes::{BytesEncoder, CopyableBytesDecoder};
 use bytecodec::combinator::{Collect, Length, Peekable, PreEncode, Repeat};
 use bytecodec::fixnum::{U16beDecoder, U16beEncoder, U32beDecoder, U32beEncoder};
 use bytecodec::{ByteCount, Decode, Encode, Eos, Error, ErrorKind, Result, SizedEncode};
-use std::{fmt, vec};
+use std::{fmt, mem, vec};
 use trackable::error::ErrorKindExt;
 
 /// Message decoded by [`MessageDecoder`].
@@ -403,7 +403,8 @@ impl<A: Attribute> MessageDecoder<A> {
         class: MessageClass,
         transaction_id: TransactionId,
     ) -> Result<Message<A>> {
-        let attributes = track!(self.attributes.finish_decoding())?;
+        // The state for this message is discarded even if finishing it fails
+        let attributes = track!(mem::take(&mut self.attributes).finish_decoding())?;
         let mut message = Message {
             class,
             method,
-- 
2.43.0


From e54dfef410a8aeacf001355cdcbd92e3a6af976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 06/15] fix: reset the message decoder when it rejects a
 message

After an invalid or truncated header the decoder kept the parts of that header
it had read and mixed them into the next message.
---
 src/message.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 87cf8a7..5591b47 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -397,6 +397,18 @@ impl<A: Attribute> MessageDecoder<A> {
         Self::default()
     }
 
+    fn decode_header_and_attributes(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
+        let mut offset = 0;
+        if !self.header.is_idle() {
+            bytecodec_try_decode!(self.header, offset, buf, eos);
+
+            let message_len = self.header.peek().expect("never fails").1;
+            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
+        }
+        bytecodec_try_decode!(self.attributes, offset, buf, eos);
+        Ok(offset)
+    }
+
     fn finish_decoding_with_header(
         &mut self,
         method: Method,
@@ -438,15 +450,12 @@ impl<A: Attribute> Decode for MessageDecoder<A> {
     type Item = DecodedMessage<A>;
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
-        let mut offset = 0;
-        if !self.header.is_idle() {
-            bytecodec_try_decode!(self.header, offset, buf, eos);
-
-            let message_len = self.header.peek().expect("never fails").1;
-            track!(self.attributes.set_expected_bytes(u64::from(message_len)))?;
+        let result = self.decode_header_and_attributes(buf, eos);
+        if result.is_err() {
+            // The rejected message must not affect the decoding of the next one
+            *self = Self::default();
         }
-        bytecodec_try_decode!(self.attributes, offset, buf, eos);
-        Ok(offset)
+        result
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
-- 
2.43.0


From eb8888a7083980c92fb1c253d826e05b5411ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 07/15] fix: refuse to start a busy message encoder, and leave
 it untouched when starting fails

Starting a second message while one was being written replaced the parts already
sent and corrupted both; a message that was too large left the encoder stuck.
---
 src/message.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 5591b47..0f3ae93 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -522,6 +522,8 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
     }
 
     fn start_encoding(&mut self, mut item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+
         let attributes_len = item.attributes.len();
         for i in 0..attributes_len {
             unsafe {
@@ -534,23 +536,27 @@ impl<A: Attribute> Encode for MessageEncoder<A> {
             }
         }
 
-        let message_type = Type {
-            class: item.class,
-            method: item.method,
-        };
-        track!(self.message_type.start_encoding(message_type.as_u16()))?;
-        track!(self.magic_cookie.start_encoding(MAGIC_COOKIE))?;
-        track!(self.transaction_id.start_encoding(item.transaction_id))?;
-        track!(self.attributes.start_encoding(item.attributes.into_iter()))?;
+        // Everything that may fail is done before the state of the encoder is changed
+        let mut attributes = PreEncode::<Repeat<_, _>>::default();
+        track!(attributes.start_encoding(item.attributes.into_iter()))?;
 
-        let message_len = self.attributes.exact_requiring_bytes();
+        let message_len = attributes.exact_requiring_bytes();
         track_assert!(
             message_len < 0x10000,
             ErrorKind::InvalidInput,
             "Too large message length: actual={}, limit=0xFFFF",
             message_len
         );
+
+        let message_type = Type {
+            class: item.class,
+            method: item.method,
+        };
+        track!(self.message_type.start_encoding(message_type.as_u16()))?;
+        track!(self.magic_cookie.start_encoding(MAGIC_COOKIE))?;
+        track!(self.transaction_id.start_encoding(item.transaction_id))?;
         track!(self.message_len.start_encoding(message_len as u16))?;
+        self.attributes = attributes;
         Ok(())
     }
 
-- 
2.43.0


From bce4b63a4e1ef5ba3d9bb2cbd7f4010700317e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 08/15] fix: compute the length covered by FINGERPRINT without
 overflow

A received message of the maximum length that ends with FINGERPRINT made the
decoder panic (with overflow checks) because the preceding bytes exceed u16.
---
 src/rfc5389/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index b70cf90..f249c99 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -251,7 +251,7 @@ impl Fingerprint {
     /// Calculates the CRC-32 value of `message` and returns a `Fingerprint` instance containing it.
     pub fn new<A: Attribute>(message: &Message<A>) -> Result<Self> {
         let mut bytes = track!(MessageEncoder::default().encode_into_bytes(message.clone()))?;
-        let final_len = bytes.len() as u16 - 20 + 8; // Adds `Fingerprint` attribute length
+        let final_len = (bytes.len() - 20 + 8) as u16; // Adds `Fingerprint` attribute length
         BigEndian::write_u16(&mut bytes[2..4], final_len);
         let crc32 = crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(&bytes[..]) ^ 0x5354_554e;
         Ok(Fingerprint { crc32 })
-- 
2.43.0


From bd3f62f5bde5e0eec1e25a77f4bc99cf201134f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 09/15] fix: enforce the documented length limit of
 MOBILITY-TICKET

`MobilityTicket::new` is documented to fail on exceeding length, but accepted
data that no attribute can carry.
---
 src/rfc8016/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfc8016/attributes.rs b/src/rfc8016/attributes.rs
index f32ea79..3eef56a 100644
--- a/src/rfc8016/attributes.rs
+++ b/src/rfc8016/attributes.rs
@@ -3,7 +3,7 @@
 //! [RFC 8016]: https://tools.ietf.org/html/rfc8016
 
 use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
-use bytecodec::{ByteCount, Decode, Encode, Eos, Result, SizedEncode, TryTaggedDecode};
+use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
 
 use crate::attribute::{Attribute, AttributeType};
 
@@ -83,7 +83,7 @@ impl MobilityTicket {
     ///
     /// Fails on exceeding length.
     pub fn new(data: Vec<u8>) -> Result<Self> {
-        //track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
+        track_assert!(data.len() <= 0xFFFF, ErrorKind::InvalidInput);
         Ok(MobilityTicket(data))
     }
 
-- 
2.43.0


From 2091cb4a1d2785c32f79f03597f65d49977fa136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 10/15] fix: count characters, not bytes, in
 `Software::new_static`

The documented limit (and the one `Software::new` and the decoder apply) is in
characters, but non-ASCII descriptions were refused by their byte length.
---
 src/rfc5389/attributes.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index f249c99..deac9cd 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -676,7 +676,17 @@ impl Software {
     /// The length of `description` must be less than `128` characters.
     /// Panics if the string is longer.
     pub const fn new_static(description: &'static str) -> Self {
-        if description.len() >= 128 {
+        let bytes = description.as_bytes();
+        let mut chars = 0;
+        let mut i = 0;
+        while i < bytes.len() {
+            // Every byte that is not a UTF-8 continuation byte starts a character
+            if bytes[i] & 0b1100_0000 != 0b1000_0000 {
+                chars += 1;
+            }
+            i += 1;
+        }
+        if chars >= 128 {
             panic!("Description for `Software` cannot be longer than 128 characters.");
         }
         Self {
-- 
2.43.0


From 717f05ddabe7e7d0492497cdd5a28aae5e9771b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 11/15] fix: refuse to start busy address and ERROR-CODE
 encoders without damaging them

The encoders that consist of several parts restarted the parts already written
before noticing that the last part was still busy.
---
 src/net.rs                | 1 +
 src/rfc5389/attributes.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 993cd2c..2b5d545 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -142,6 +142,7 @@ impl Encode for SocketAddrEncoder {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
         track!(self.unused.start_encoding(0))?;
         if item.ip().is_ipv4() {
             track!(self.family.start_encoding(FAMILY_IPV4))?;
diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index deac9cd..dbde810 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -62,6 +62,7 @@ macro_rules! impl_encode {
 
             #[allow(clippy::redundant_closure_call)]
             fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+                track_assert!(self.0.is_idle(), ErrorKind::EncoderFull);
                 track!(self.0.start_encoding($map_from(item)))
             }
 
-- 
2.43.0


From 274257975b09156cc010981221acf35c3591b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 12/15] fix: share the bytes covered by MESSAGE-INTEGRITY
 instead of copying them with the message

Every MESSAGE-INTEGRITY or FINGERPRINT of a received message clones the
preceding attributes, and each preceding MESSAGE-INTEGRITY copied all the bytes
before it: the cost of decoding one 64 KB message was cubic (about a minute).
---
 src/rfc5389/attributes.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index dbde810..30d6246 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -18,6 +18,7 @@ use hmac::{Hmac, Mac};
 use sha1::Sha1;
 use std::borrow::Cow;
 use std::net::SocketAddr;
+use std::sync::Arc;
 use std::vec;
 
 macro_rules! impl_decode {
@@ -371,7 +372,7 @@ impl_encode!(MappedAddressEncoder, MappedAddress, |item: Self::Item| item
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct MessageIntegrity {
     hmac_sha1: [u8; 20],
-    preceding_message_bytes: Vec<u8>,
+    preceding_message_bytes: Arc<[u8]>,
 }
 impl MessageIntegrity {
     /// The codepoint of the type of the attribute.
@@ -400,7 +401,7 @@ impl MessageIntegrity {
         let hmac_sha1 = Self::generate_hmac_token(key, &preceding_message_bytes);
         Ok(MessageIntegrity {
             hmac_sha1,
-            preceding_message_bytes,
+            preceding_message_bytes: preceding_message_bytes.into(),
         })
     }
 
@@ -420,7 +421,7 @@ impl MessageIntegrity {
         let hmac_sha1 = Self::generate_hmac_token(&key.0[..], &preceding_message_bytes);
         Ok(MessageIntegrity {
             hmac_sha1,
-            preceding_message_bytes,
+            preceding_message_bytes: preceding_message_bytes.into(),
         })
     }
 
@@ -476,7 +477,7 @@ impl Attribute for MessageIntegrity {
     }
 
     fn after_decode<A: Attribute>(&mut self, message: &Message<A>) -> Result<()> {
-        self.preceding_message_bytes = track!(Self::message_into_bytes(message.clone()))?;
+        self.preceding_message_bytes = track!(Self::message_into_bytes(message.clone()))?.into();
         Ok(())
     }
 }
@@ -493,7 +494,7 @@ impl MessageIntegrityDecoder {
 impl_decode!(MessageIntegrityDecoder, MessageIntegrity, |hmac_sha1| Ok(
     MessageIntegrity {
         hmac_sha1,
-        preceding_message_bytes: Vec::new() // dummy
+        preceding_message_bytes: Arc::new([]) // dummy
     }
 ));
 
-- 
2.43.0


From a0ae32fdb67e0c5d5a1f64edc8692c33ddb4829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 13/15] fix: pad forwarded attributes according to the value
 that is sent

---
 src/attribute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index bec8de4..8040baf 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -525,7 +525,12 @@ impl<T: Attribute> Encode for LosslessAttributeEncoder<T> {
             self.known_value.exact_requiring_bytes() + self.unknown_value.exact_requiring_bytes();
         track_assert!(value_len < 0x10000, ErrorKind::InvalidInput; value_len);
 
-        let padding = padding.unwrap_or_else(|| Padding::new(value_len as usize));
+        // The received padding does not fit any more if the value has been changed since
+        let required = Padding::new(value_len as usize);
+        let padding = match padding {
+            Some(received) if received.len == required.len => received,
+            _ => required,
+        };
         track!(self.value_len.start_encoding(value_len as u16))?;
         track!(self.padding.start_encoding(padding))?;
         Ok(())
-- 
2.43.0


From 9bb1f9d1de91b557e33e1d62f69f62657b856937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 14/15] fix: enforce the documented length limits of DATA and
 MOBILITY-TICKET when decoding values

The standalone decoders delivered values which the constructors refuse and
which can not be sent.
---
 src/rfc5766/attributes.rs | 2 +-
 src/rfc8016/attributes.rs | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rfc5766/attributes.rs b/src/rfc5766/attributes.rs
index 1bdd5fa..10b2021 100644
--- a/src/rfc5766/attributes.rs
+++ b/src/rfc5766/attributes.rs
@@ -356,7 +356,7 @@ impl DataDecoder {
         Self::default()
     }
 }
-impl_decode!(DataDecoder, Data, |item| Ok(Data(item)));
+impl_decode!(DataDecoder, Data, Data::new);
 
 /// [`Data`] encoder.
 #[derive(Debug, Default)]
diff --git a/src/rfc8016/attributes.rs b/src/rfc8016/attributes.rs
index 3eef56a..7c6e37d 100644
--- a/src/rfc8016/attributes.rs
+++ b/src/rfc8016/attributes.rs
@@ -115,9 +115,7 @@ impl MobilityTicketDecoder {
         Self::default()
     }
 }
-impl_decode!(MobilityTicketDecoder, MobilityTicket, |item| Ok(
-    MobilityTicket(item)
-));
+impl_decode!(MobilityTicketDecoder, MobilityTicket, MobilityTicket::new);
 
 /// [`Data`] encoder.
 #[derive(Debug, Default)]
-- 
2.43.0


From 084fee30db8ecda2943f06d14de71e0033cb9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 15/15] fix: refuse an UNKNOWN-ATTRIBUTES value of odd length
 wherever its end is announced

The standalone decoder accepted it, without its last byte, if the end of the
value was announced by an empty buffer.
---
 src/rfc5389/attributes.rs | 40 +++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/rfc5389/attributes.rs b/src/rfc5389/attributes.rs
index 30d6246..6d13386 100644
--- a/src/rfc5389/attributes.rs
+++ b/src/rfc5389/attributes.rs
@@ -774,13 +774,41 @@ impl UnknownAttributesDecoder {
         Self::default()
     }
 }
-impl_decode!(UnknownAttributesDecoder, UnknownAttributes, |vs: Vec<
-    u16,
->| Ok(
-    UnknownAttributes {
-        unknowns: vs.into_iter().map(AttributeType::new).collect()
+impl Decode for UnknownAttributesDecoder {
+    type Item = UnknownAttributes;
+
+    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
+        let size = track!(self.0.decode(buf, eos))?;
+        if eos.is_reached() && self.0.inner_ref().requiring_bytes() != ByteCount::Finite(2) {
+            // The value ended in the middle of an attribute type
+            *self = Self::default();
+            track_panic!(ErrorKind::UnexpectedEos);
+        }
+        Ok(size)
     }
-));
+
+    fn finish_decoding(&mut self) -> Result<Self::Item> {
+        let vs = track!(self.0.finish_decoding())?;
+        Ok(UnknownAttributes {
+            unknowns: vs.into_iter().map(AttributeType::new).collect(),
+        })
+    }
+
+    fn requiring_bytes(&self) -> ByteCount {
+        self.0.requiring_bytes()
+    }
+
+    fn is_idle(&self) -> bool {
+        self.0.is_idle()
+    }
+}
+impl TryTaggedDecode for UnknownAttributesDecoder {
+    type Tag = AttributeType;
+
+    fn try_start_decoding(&mut self, attr_type: Self::Tag) -> Result<bool> {
+        Ok(attr_type.as_u16() == UnknownAttributes::CODEPOINT)
+    }
+}
 
 /// [`UnknownAttributes`] encoder.
 #[derive(Debug, Default)]
-- 
2.43.0

