From baa05609c9a5a437cf410fae7e194484a10f0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 01/54] fix: keep the connection when a requester sends a
 vendor-defined request

send_spdm_vendor_defined_request() reset the whole context before encoding the
request: the negotiated version, algorithms, peer data and every session were
gone, so the request could never be answered and the connection was lost.
---
 spdmlib/src/requester/vendor_req.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index b75e36b..acaaa28 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -21,9 +21,6 @@ impl<'a> RequesterContext<'a> {
             session_id,
         );
 
-        // clear cache data
-        self.common.reset_context();
-
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
         let request = SpdmMessage {
-- 
2.43.0


From 962e959ccbc48298f066f325de1d98fd69d7c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 02/54] fix: report each slot's own digest in DIGESTS

Every provisioned slot's certificate chain digest was written over the last
digest field, so with more than one slot the earlier fields kept the 0xff
placeholder and the digests did not match their slots.
---
 spdmlib/src/responder/digest_rsp.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index b1b7ef2..29381ab 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -110,21 +110,22 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
+        // patch the digests, in slot order, before send
+        let mut digest_offset =
+            writer.used() - slot_mask.count_ones() as usize * digest_size as usize;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
+            if let Some(my_cert_chain) = self.common.provision_info.my_cert_chain[slot_id].as_ref()
+            {
                 let cert_chain_hash = crypto::hash::hash_all(
                     self.common.negotiate_info.base_hash_sel,
                     my_cert_chain.as_ref(),
                 )
                 .unwrap();
 
-                // patch the message before send
-                let used = writer.used();
-                writer.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
+                let digest_end = digest_offset + digest_size as usize;
+                writer.mut_used_slice()[digest_offset..digest_end]
                     .copy_from_slice(cert_chain_hash.as_ref());
+                digest_offset = digest_end;
             }
         }
 
-- 
2.43.0


From b9243b14f2695b7fe691eaa6482a33f8c009e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 03/54] fix: let an ERROR replace a partly written response

write_spdm_error() appended the ERROR after whatever was already encoded, so a
failure late in building a response sent the response, signed or not, with the
ERROR bytes behind it.
---
 codec/src/codec.rs                 | 5 +++++
 spdmlib/src/responder/error_rsp.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/codec/src/codec.rs b/codec/src/codec.rs
index 46ebe51..6364028 100644
--- a/codec/src/codec.rs
+++ b/codec/src/codec.rs
@@ -101,6 +101,11 @@ impl<'a> Writer<'a> {
     pub fn mut_used_slice(&mut self) -> &mut [u8] {
         &mut self.buf[..self.offs]
     }
+
+    /// Forget everything written so far.
+    pub fn clear(&mut self) {
+        self.offs = 0;
+    }
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/spdmlib/src/responder/error_rsp.rs b/spdmlib/src/responder/error_rsp.rs
index a8c3f76..2229002 100644
--- a/spdmlib/src/responder/error_rsp.rs
+++ b/spdmlib/src/responder/error_rsp.rs
@@ -27,6 +27,8 @@ impl<'a> ResponderContext<'a> {
                 ),
             }),
         };
+        // the error replaces whatever part of a response is already written
+        writer.clear();
         let _ = error.spdm_encode(&mut self.common, writer);
     }
 
-- 
2.43.0


From 809bf4d7f0beedf63c4bbd4e28d9be2b9c0aaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 04/54] fix: answer a failed signature with one ERROR

When signing failed, CHALLENGE and GET_MEASUREMENTS sent an ERROR of their own
and then still sent the response with its placeholder signature (for a session,
the ERROR even went out in the clear).
---
 spdmlib/src/responder/challenge_rsp.rs   | 2 +-
 spdmlib/src/responder/measurement_rsp.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 5974d33..1272d4b 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -172,7 +172,7 @@ impl<'a> ResponderContext<'a> {
 
         let signature = self.generate_challenge_auth_signature();
         if signature.is_err() {
-            self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
             return;
         }
         let signature = signature.unwrap();
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index f4d53e7..390f827 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -230,7 +230,7 @@ impl<'a> ResponderContext<'a> {
 
             let signature = self.generate_measurement_signature(session_id);
             if signature.is_err() {
-                self.send_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0);
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 return;
             }
             let signature = signature.unwrap();
-- 
2.43.0


From 9dbb9569beae390021b9554aaad79ac178a2ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 05/54] fix: refuse encapsulated requests the connection does
 not allow

The version, capability and state check wrote (or separately sent, in the
clear) an ERROR and then the request was processed anyway, so the reply was an
ERROR followed by an ENCAPSULATED_REQUEST or ACK.
---
 spdmlib/src/responder/encap_rsp.rs | 33 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 4b8044e..5c5df13 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -26,11 +26,12 @@ impl<'a> ResponderContext<'a> {
         let mut encapsulated_request = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encapsulated_request);
 
-        self.encap_check_version_cap_state(
+        if self.encap_check_version_cap_state(
             SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
             &mut writer,
-        );
-        self.write_encap_request_response(bytes, &mut writer);
+        ) {
+            self.write_encap_request_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -81,11 +82,12 @@ impl<'a> ResponderContext<'a> {
         let mut encap_response_ack = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut encap_response_ack);
 
-        self.encap_check_version_cap_state(
-            SpdmRequestResponseCode::SpdmRequestGetEncapsulatedRequest.get_u8(),
+        if self.encap_check_version_cap_state(
+            SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse.get_u8(),
             &mut writer,
-        );
-        self.write_encap_response_ack_response(bytes, &mut writer);
+        ) {
+            self.write_encap_response_ack_response(bytes, &mut writer);
+        }
 
         self.send_secured_message(session_id, writer.used_slice(), false)
     }
@@ -119,14 +121,21 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
-    fn encap_check_version_cap_state(&mut self, request_response_code: u8, writer: &mut Writer) {
+    // Return true if the request may go on, false once the error is written.
+    fn encap_check_version_cap_state(
+        &mut self,
+        request_response_code: u8,
+        writer: &mut Writer,
+    ) -> bool {
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             < SpdmVersion::SpdmVersion11.get_u8()
         {
-            self.send_spdm_error(
+            self.write_spdm_error(
                 SpdmErrorCode::SpdmErrorUnsupportedRequest,
                 request_response_code,
-            )
+                writer,
+            );
+            return false;
         }
 
         if !self
@@ -145,14 +154,16 @@ impl<'a> ResponderContext<'a> {
                 request_response_code,
                 writer,
             );
-            return;
+            return false;
         }
 
         if self.common.runtime_info.get_connection_state().get_u8()
             < SpdmConnectionState::SpdmConnectionAfterCertificate.get_u8()
         {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorUnexpectedRequest, 0, writer);
+            return false;
         }
+        true
     }
 
     fn process_encapsulated_response(
-- 
2.43.0


From cbd90ec348732a2bd1c7f5a520f8f2c2367d8687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 06/54] fix: parse ENCAPSULATED_RESPONSE_ACK by its real length

The requester expected the 8-byte SPDM 1.2 header in SPDM 1.1 too, where it is
4 bytes, so mutual authentication could not finish; and it parsed the whole
receive buffer, not just the received message.
---
 spdmlib/src/requester/encap_req.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 3e5c64d..5e72691 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -16,7 +16,7 @@ use crate::{
         SpdmEncapsulatedResponseAckPayload, SpdmEncapsulatedResponseAckPayloadType, SpdmErrorCode,
         SpdmGetDigestsRequestPayload, SpdmGetEncapsulatedRequestPayload,
         SpdmKeyExchangeMutAuthAttributes, SpdmMessage, SpdmMessageHeader, SpdmMessagePayload,
-        SpdmRequestResponseCode, ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE,
+        SpdmRequestResponseCode,
     },
     protocol::{
         SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion, SPDM_MAX_SLOT_NUMBER,
@@ -99,8 +99,8 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let _ = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -117,14 +117,14 @@ impl<'a> RequesterContext<'a> {
         self.process_encapsulated_request(
             session_id,
             encapsulated_request.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )
     }
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
-        let mut reader = Reader::init(&receive_buffer);
+        let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
 
@@ -137,10 +137,12 @@ impl<'a> RequesterContext<'a> {
         let ack_header =
             SpdmEncapsulatedResponseAckPayload::spdm_read(&mut self.common, &mut reader)
                 .ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
+        // 8 bytes, or 4 before SPDM 1.2
+        let ack_header_size = reader.used();
 
         match ack_header.payload_type {
             SpdmEncapsulatedResponseAckPayloadType::Absent => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE {
+                if size == ack_header_size {
                     return Ok(false);
                 } else {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
@@ -148,7 +150,7 @@ impl<'a> RequesterContext<'a> {
             }
             SpdmEncapsulatedResponseAckPayloadType::Present => {}
             SpdmEncapsulatedResponseAckPayloadType::ReqSlotNumber => {
-                if size == ENCAPSULATED_RESPONSE_ACK_HEADER_SIZE + 1 {
+                if size == ack_header_size + 1 {
                     let req_slot_id = u8::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
                     if req_slot_id >= SPDM_MAX_SLOT_NUMBER as u8 {
                         return Err(SPDM_STATUS_INVALID_MSG_FIELD);
@@ -167,7 +169,7 @@ impl<'a> RequesterContext<'a> {
         self.process_encapsulated_request(
             session_id,
             ack_header.request_id,
-            &receive_buffer[reader.used()..],
+            &receive_buffer[reader.used()..size],
         )?;
 
         Ok(true)
-- 
2.43.0


From 60447f7019441683748b4b53f3a9e1984277a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 07/54] fix: send the KEY_EXCHANGE_RSP signature when the
 handshake is in the clear

With HANDSHAKE_IN_THE_CLEAR the response kept the 0xbb placeholder where its
signature belongs, so no such session could be established.
---
 spdmlib/src/responder/key_exchange_rsp.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 66321b5..be9877e 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -410,11 +410,10 @@ impl<'a> ResponderContext<'a> {
             }
 
             // patch the message before send
-            writer.mut_used_slice()
-                [(used - base_hash_size - base_asym_size)..(used - base_hash_size)]
-                .copy_from_slice(signature.as_ref());
             writer.mut_used_slice()[(used - base_hash_size)..used].copy_from_slice(hmac.as_ref());
         }
+        writer.mut_used_slice()[temp_used..(temp_used + base_asym_size)]
+            .copy_from_slice(signature.as_ref());
 
         let heartbeat_period = self.common.config_info.heartbeat_period;
         let session = self.common.get_session_via_id(session_id).unwrap();
-- 
2.43.0


From f541b053a9e1e9ba88d5ad20cda4d08d8d0a598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 08/54] fix: answer a failed handshake with its ERROR and free
 its session slot

KEY_EXCHANGE, PSK_EXCHANGE, FINISH and PSK_FINISH wrote an ERROR and then
returned without sending it, so the Requester could only time out; and the
session set up so far kept its slot, so a handful of failed handshakes left the
Responder unable to start any session until the next GET_VERSION.
---
 spdmlib/src/common/mod.rs                 | 12 +++++++++
 spdmlib/src/responder/context.rs          | 15 ++++++------
 spdmlib/src/responder/finish_rsp.rs       | 22 ++++++++++++++---
 spdmlib/src/responder/key_exchange_rsp.rs | 22 ++++++++++++++---
 spdmlib/src/responder/psk_exchange_rsp.rs | 30 ++++++++++++++++++-----
 spdmlib/src/responder/psk_finish_rsp.rs   | 19 +++++++++++---
 6 files changed, 98 insertions(+), 22 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 0202a98..c2291bf 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -239,6 +239,18 @@ impl<'a> SpdmContext<'a> {
         Err(SPDM_STATUS_SESSION_NUMBER_EXCEED)
     }
 
+    /// Free every session that `before`, an earlier get_session_status(), does not list.
+    pub fn release_sessions_since(
+        &mut self,
+        before: &[(u32, SpdmSessionState); config::MAX_SPDM_SESSION_COUNT],
+    ) {
+        for s in &mut self.session {
+            if !before.iter().any(|(id, _)| *id == s.get_session_id()) {
+                s.set_default();
+            }
+        }
+    }
+
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
             if self.provision_info.my_cert_chain[slot_id].is_none()
diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 357fdab..eeae28d 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -32,10 +32,14 @@ impl<'a> ResponderContext<'a> {
         }
     }
 
+    // Return true if the Requester said it cannot receive a message of this size.
+    pub(crate) fn response_too_large(&self, size: usize) -> bool {
+        self.common.negotiate_info.req_data_transfer_size_sel != 0
+            && size > self.common.negotiate_info.req_data_transfer_size_sel as usize
+    }
+
     pub fn send_message(&mut self, send_buffer: &[u8]) -> SpdmResult {
-        if self.common.negotiate_info.req_data_transfer_size_sel != 0
-            && (send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize)
-        {
+        if self.response_too_large(send_buffer.len()) {
             let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
             let mut writer = Writer::init(&mut err_buffer);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
@@ -98,10 +102,7 @@ impl<'a> ResponderContext<'a> {
         send_buffer: &[u8],
         is_app_message: bool,
     ) -> SpdmResult {
-        if !is_app_message
-            && self.common.negotiate_info.req_data_transfer_size_sel != 0
-            && send_buffer.len() > self.common.negotiate_info.req_data_transfer_size_sel as usize
-        {
+        if !is_app_message && self.response_too_large(send_buffer.len()) {
             let mut err_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
             let mut writer = Writer::init(&mut err_buffer);
             self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 2412a7a..4f98b7e 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -32,12 +32,24 @@ impl<'a> ResponderContext<'a> {
 
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_finish_response(session_id, bytes, &mut writer)?;
-        if in_clear_text {
+        let mut result = self.write_spdm_finish_response(session_id, bytes, &mut writer);
+        if result.is_ok() && self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
+            result = Err(SPDM_STATUS_INVALID_STATE_LOCAL);
+        }
+        let result = if in_clear_text {
             self.send_message(writer.used_slice())
         } else {
             self.send_secured_message(session_id, writer.used_slice(), false)
         }
+        .and(result);
+        if result.is_err() {
+            // the session of a failed handshake must not keep its slot
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+        result
     }
 
     // Return true on success, false otherwise.
@@ -292,7 +304,11 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        if session.generate_data_secret(spdm_version_sel, &th2).is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        Ok(())
     }
 
     #[cfg(not(feature = "hashed-transcript-data"))]
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index be9877e..1c17f50 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -25,8 +25,18 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_key_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_key_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let sessions = self.common.get_session_status();
+        let mut result = self.write_spdm_key_exchange_response(bytes, &mut writer);
+        if result.is_ok() && self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
+            result = Err(SPDM_STATUS_INVALID_STATE_LOCAL);
+        }
+        let result = self.send_message(writer.used_slice()).and(result);
+        if result.is_err() {
+            // the session of a failed handshake must not keep its slot
+            self.common.release_sessions_since(&sessions);
+        }
+        result
     }
 
     pub fn write_spdm_key_exchange_response(
@@ -369,7 +379,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         if !in_clear_text {
             let session = self
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 06a49d5..22fa545 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -25,8 +25,18 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_exchange(&mut self, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_exchange_response(bytes, &mut writer)?;
-        self.send_message(writer.used_slice())
+        let sessions = self.common.get_session_status();
+        let mut result = self.write_spdm_psk_exchange_response(bytes, &mut writer);
+        if result.is_ok() && self.response_too_large(writer.used()) {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorResponseTooLarge, 0, &mut writer);
+            result = Err(SPDM_STATUS_INVALID_STATE_LOCAL);
+        }
+        let result = self.send_message(writer.used_slice()).and(result);
+        if result.is_err() {
+            // the session of a failed handshake must not keep its slot
+            self.common.release_sessions_since(&sessions);
+        }
+        result
     }
 
     pub fn write_spdm_psk_exchange_response(
@@ -285,7 +295,13 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th1 : {:02x?}\n", th1.as_ref());
 
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_handshake_secret(spdm_version_sel, &th1)?;
+        if session
+            .generate_handshake_secret(spdm_version_sel, &th1)
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
 
         let session = self
             .common
@@ -346,9 +362,11 @@ impl<'a> ResponderContext<'a> {
             debug!("!!! th2 : {:02x?}\n", th2.as_ref());
             let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
             let session = self.common.get_session_via_id(session_id).unwrap();
-            session
-                .generate_data_secret(spdm_version_sel, &th2)
-                .unwrap();
+            if session.generate_data_secret(spdm_version_sel, &th2).is_err() {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return Err(SPDM_STATUS_CRYPTO_ERROR);
+            }
+            let session = self.common.get_session_via_id(session_id).unwrap();
             session.set_session_state(
                 crate::common::session::SpdmSessionState::SpdmSessionEstablished,
             );
diff --git a/spdmlib/src/responder/psk_finish_rsp.rs b/spdmlib/src/responder/psk_finish_rsp.rs
index 5134fa2..cc6df93 100644
--- a/spdmlib/src/responder/psk_finish_rsp.rs
+++ b/spdmlib/src/responder/psk_finish_rsp.rs
@@ -15,8 +15,17 @@ impl<'a> ResponderContext<'a> {
     pub fn handle_spdm_psk_finish(&mut self, session_id: u32, bytes: &[u8]) -> SpdmResult {
         let mut send_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let mut writer = Writer::init(&mut send_buffer);
-        self.write_spdm_psk_finish_response(session_id, bytes, &mut writer)?;
-        self.send_secured_message(session_id, writer.used_slice(), false)
+        let result = self.write_spdm_psk_finish_response(session_id, bytes, &mut writer);
+        let result = self
+            .send_secured_message(session_id, writer.used_slice(), false)
+            .and(result);
+        if result.is_err() {
+            // the session of a failed handshake must not keep its slot
+            if let Some(session) = self.common.get_session_via_id(session_id) {
+                let _ = session.teardown(session_id);
+            }
+        }
+        result
     }
 
     // Return true on success, false otherwise
@@ -166,6 +175,10 @@ impl<'a> ResponderContext<'a> {
         debug!("!!! th2 : {:02x?}\n", th2.as_ref());
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        session.generate_data_secret(spdm_version_sel, &th2)
+        if session.generate_data_secret(spdm_version_sel, &th2).is_err() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        }
+        Ok(())
     }
 }
-- 
2.43.0


From b1dd6b922a9827f2b3dc65f7f4af86c535488e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 09/54] fix: free the Requester's session slot when its
 handshake fails

A KEY_EXCHANGE_RSP or PSK_EXCHANGE_RSP that was refused, for instance for a bad
signature, and a failed mutual authentication left the half-made session in its
slot, with an id the caller never gets; four of them and no session can start.
---
 spdmlib/src/requester/context.rs          |  8 +++++++-
 spdmlib/src/requester/key_exchange_req.rs | 10 ++++++++--
 spdmlib/src/requester/psk_exchange_req.rs | 10 ++++++++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index e73026d..d54bae7 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -47,7 +47,13 @@ impl<'a> RequesterContext<'a> {
             #[cfg(not(feature = "mut-auth"))]
             let req_slot_id: Option<u8> = None;
             #[cfg(feature = "mut-auth")]
-            self.session_based_mutual_authenticate(session_id)?;
+            if let Err(e) = self.session_based_mutual_authenticate(session_id) {
+                // the session of a failed handshake must not keep its slot
+                if let Some(session) = self.common.get_session_via_id(session_id) {
+                    let _ = session.teardown(session_id);
+                }
+                return Err(e);
+            }
             #[cfg(feature = "mut-auth")]
             let req_slot_id = Some(self.common.runtime_info.get_local_used_cert_chain_slot_id());
             self.send_receive_spdm_finish(req_slot_id, session_id)?;
diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index 1eaf9bd..f834655 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -54,14 +54,20 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_key_exhcange_response(
+        let sessions = self.common.get_session_status();
+        let result = self.handle_spdm_key_exhcange_response(
             req_session_id,
             slot_id,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
             measurement_summary_hash_type,
             key_exchange_context,
-        )
+        );
+        if result.is_err() {
+            // the session of a failed handshake must not keep its slot
+            self.common.release_sessions_since(&sessions);
+        }
+        result
     }
 
     pub fn encode_spdm_key_exchange(
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 7886632..0c427bf 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -48,13 +48,19 @@ impl<'a> RequesterContext<'a> {
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = self.receive_message(&mut receive_buffer, false)?;
-        self.handle_spdm_psk_exchange_response(
+        let sessions = self.common.get_session_status();
+        let result = self.handle_spdm_psk_exchange_response(
             half_session_id,
             measurement_summary_hash_type,
             &psk_hint,
             &send_buffer[..send_used],
             &receive_buffer[..receive_used],
-        )
+        );
+        if result.is_err() {
+            // the session of a failed handshake must not keep its slot
+            self.common.release_sessions_since(&sessions);
+        }
+        result
     }
 
     pub fn encode_spdm_psk_exchange(
-- 
2.43.0


From 86e62ee15de35cd340cdf5977e7925f531c33115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 10/54] fix: skip PSK_FINISH when the Responder has no PSK
 context

Without a Responder context PSK_EXCHANGE_RSP already starts the session, so the
PSK_FINISH that start_session() sent was always refused and tore it down.
---
 spdmlib/src/requester/context.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index d54bae7..0cdf5f6 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -61,7 +61,14 @@ impl<'a> RequesterContext<'a> {
         } else {
             let session_id =
                 self.send_receive_spdm_psk_exchange(measurement_summary_hash_type, None)?;
-            self.send_receive_spdm_psk_finish(session_id)?;
+            if !self
+                .common
+                .negotiate_info
+                .rsp_capabilities_sel
+                .contains(SpdmResponseCapabilityFlags::PSK_CAP_WITHOUT_CONTEXT)
+            {
+                self.send_receive_spdm_psk_finish(session_id)?;
+            }
             Ok(session_id)
         }
     }
-- 
2.43.0


From 0897324fae7f966d6cf013eaf7b9fdc0a0b45b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 11/54] fix: put a random context in PSK_EXCHANGE_RSP

The test was inverted: a Responder that contributes a context sent zeros, so it
added nothing fresh to the session keys, and a replayed PSK_EXCHANGE gave the
same session keys again.
---
 spdmlib/src/responder/psk_exchange_rsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index 22fa545..bfc80e5 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -180,7 +180,7 @@ impl<'a> ResponderContext<'a> {
             MAX_SPDM_PSK_CONTEXT_SIZE as u16
         };
         let mut psk_context = [0u8; MAX_SPDM_PSK_CONTEXT_SIZE];
-        if psk_without_context {
+        if !psk_without_context {
             let res = crypto::rand::get_random(&mut psk_context);
             if res.is_err() {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-- 
2.43.0


From 9d35e21e50bdd85eaf026f65db699134d55a774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 12/54] fix: sign FINISH with the negotiated Requester
 algorithm

---
 spdmlib/src/common/mod.rs           | 10 +++++++++
 spdmlib/src/common/spdm_codec.rs    | 32 +++++++++++++++++++----------
 spdmlib/src/message/finish.rs       |  8 ++++++--
 spdmlib/src/requester/finish_req.rs | 30 +++++++++++++--------------
 spdmlib/src/responder/finish_rsp.rs |  4 ++--
 5 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index c2291bf..cf0698f 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -170,6 +170,16 @@ impl<'a> SpdmContext<'a> {
     pub fn get_asym_key_size(&self) -> u16 {
         self.negotiate_info.base_asym_sel.get_size()
     }
+    /// The algorithm the Requester signs with: req_asym_sel carries the same
+    /// values as base_asym_sel, which is used if none has been negotiated.
+    pub fn get_req_asym_sel(&self) -> SpdmBaseAsymAlgo {
+        let req_asym_sel = self.negotiate_info.req_asym_sel;
+        if req_asym_sel.is_empty() {
+            self.negotiate_info.base_asym_sel
+        } else {
+            SpdmBaseAsymAlgo::from_bits_truncate(req_asym_sel.bits() as u32)
+        }
+    }
     pub fn get_dhe_key_size(&self) -> u16 {
         self.negotiate_info.dhe_sel.get_size()
     }
diff --git a/spdmlib/src/common/spdm_codec.rs b/spdmlib/src/common/spdm_codec.rs
index dad3de4..ba856d2 100644
--- a/spdmlib/src/common/spdm_codec.rs
+++ b/spdmlib/src/common/spdm_codec.rs
@@ -55,25 +55,35 @@ impl SpdmCodec for SpdmDigestStruct {
     }
 }
 
+impl SpdmSignatureStruct {
+    /// Read a signature of a known size.
+    pub(crate) fn read_sized(data_size: u16, r: &mut Reader) -> Option<SpdmSignatureStruct> {
+        let mut data = [0u8; SPDM_MAX_ASYM_KEY_SIZE];
+        for d in data.iter_mut().take(data_size as usize) {
+            *d = u8::read(r)?;
+        }
+        Some(SpdmSignatureStruct { data_size, data })
+    }
+    /// Write a signature of a known size.
+    pub(crate) fn encode_sized(&self, data_size: u16, bytes: &mut Writer) -> SpdmResult<usize> {
+        assert_eq!(self.data_size, data_size);
+        for d in self.data.iter().take(data_size as usize) {
+            d.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
+        }
+        Ok(data_size as usize)
+    }
+}
+
 impl SpdmCodec for SpdmSignatureStruct {
     fn spdm_encode(
         &self,
         context: &mut SpdmContext,
         bytes: &mut Writer,
     ) -> Result<usize, SpdmStatus> {
-        assert_eq!(self.data_size, context.get_asym_key_size());
-        for d in self.data.iter().take(self.data_size as usize) {
-            d.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?;
-        }
-        Ok(self.data_size as usize)
+        self.encode_sized(context.get_asym_key_size(), bytes)
     }
     fn spdm_read(context: &mut SpdmContext, r: &mut Reader) -> Option<SpdmSignatureStruct> {
-        let data_size = context.get_asym_key_size();
-        let mut data = [0u8; SPDM_MAX_ASYM_KEY_SIZE];
-        for d in data.iter_mut().take(data_size as usize) {
-            *d = u8::read(r)?;
-        }
-        Some(SpdmSignatureStruct { data_size, data })
+        SpdmSignatureStruct::read_sized(context.get_asym_key_size(), r)
     }
 }
 
diff --git a/spdmlib/src/message/finish.rs b/spdmlib/src/message/finish.rs
index 5f72bd6..34ba806 100644
--- a/spdmlib/src/message/finish.rs
+++ b/spdmlib/src/message/finish.rs
@@ -56,7 +56,10 @@ impl SpdmCodec for SpdmFinishRequestPayload {
             .finish_request_attributes
             .contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED)
         {
-            cnt += self.signature.spdm_encode(context, bytes)?;
+            // the Requester signs FINISH, with its own algorithm
+            cnt += self
+                .signature
+                .encode_sized(context.get_req_asym_sel().get_size(), bytes)?;
         }
         cnt += self.verify_data.spdm_encode(context, bytes)?;
         Ok(cnt)
@@ -70,7 +73,8 @@ impl SpdmCodec for SpdmFinishRequestPayload {
         let req_slot_id = u8::read(r)?; // param2
         let mut signature = SpdmSignatureStruct::default();
         if finish_request_attributes.contains(SpdmFinishRequestAttributes::SIGNATURE_INCLUDED) {
-            signature = SpdmSignatureStruct::spdm_read(context, r)?;
+            signature =
+                SpdmSignatureStruct::read_sized(context.get_req_asym_sel().get_size(), r)?;
         }
         let verify_data = SpdmDigestStruct::spdm_read(context, r)?;
 
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 1c50b3b..23b620f 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -119,7 +119,7 @@ impl<'a> RequesterContext<'a> {
             .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?;
         if !session.get_mut_auth_requested().is_empty() {
             finish_request_attributes = SpdmFinishRequestAttributes::SIGNATURE_INCLUDED;
-            signature.data_size = self.common.negotiate_info.req_asym_sel.get_size();
+            signature.data_size = self.common.get_req_asym_sel().get_size();
             is_mut_auth = true;
         }
 
@@ -343,7 +343,7 @@ impl<'a> RequesterContext<'a> {
 
         crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_sel(),
             transcript_sign.as_ref(),
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)
@@ -385,29 +385,29 @@ impl<'a> RequesterContext<'a> {
 
         let signature = crate::secret::asym_sign::sign(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_sel(),
             transcript_sign.as_ref(),
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
-        let peer_slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
-        let peer_cert = &self.common.provision_info.my_cert_chain[peer_slot_id as usize]
+        // verify with the Requester's own certificate what the Responder will verify
+        let slot_id = self.common.runtime_info.get_local_used_cert_chain_slot_id();
+        let cert_chain = self.common.provision_info.my_cert_chain[slot_id as usize]
             .as_ref()
-            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-            .data[(4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize)
-            ..(self.common.peer_info.peer_cert_chain[peer_slot_id as usize]
-                .as_ref()
-                .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
-                .data_size as usize)];
+            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
+        let cert_offset = 4usize + self.common.negotiate_info.base_hash_sel.get_size() as usize;
+        let cert = cert_chain
+            .as_ref()
+            .get(cert_offset..)
+            .ok_or(SPDM_STATUS_INVALID_PARAMETER)?;
 
         crate::crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
-            peer_cert,
+            self.common.get_req_asym_sel(),
+            cert,
             transcript_sign.as_ref(),
             &signature,
-        )
-        .unwrap();
+        )?;
 
         Ok(signature)
     }
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 4f98b7e..0a622da 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -351,7 +351,7 @@ impl<'a> ResponderContext<'a> {
 
         crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_sel(),
             peer_cert,
             transcript_sign.as_ref(),
             signature,
@@ -402,7 +402,7 @@ impl<'a> ResponderContext<'a> {
 
         let res = crypto::asym_verify::verify(
             self.common.negotiate_info.base_hash_sel,
-            self.common.negotiate_info.base_asym_sel,
+            self.common.get_req_asym_sel(),
             peer_cert,
             transcript_hash_sign.as_ref(),
             signature,
-- 
2.43.0


From 1cf6b7a2ec3337b9113a33fd98c0a339880e2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 13/54] fix: do not read a response code out of an application
 message

---
 spdmlib/src/responder/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index eeae28d..055776f 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -118,7 +118,8 @@ impl<'a> ResponderContext<'a> {
             is_app_message,
         )?;
         let result = self.common.device_io.send(&transport_buffer[..used]);
-        if result.is_ok() {
+        // only SPDM messages carry an SPDM response code
+        if result.is_ok() && !is_app_message && send_buffer.len() >= 2 {
             let opcode = send_buffer[1];
             // change state after message is sent.
             if opcode == SpdmRequestResponseCode::SpdmResponseEndSessionAck.get_u8() {
-- 
2.43.0


From f6760411ba33c4e4dc5ace70ffb8a8ec478ea40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 14/54] fix: derive an AEAD key of the size its algorithm takes

---
 spdmlib/src/common/key_schedule.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/common/key_schedule.rs b/spdmlib/src/common/key_schedule.rs
index ff8bf48..3c1bcca 100644
--- a/spdmlib/src/common/key_schedule.rs
+++ b/spdmlib/src/common/key_schedule.rs
@@ -221,7 +221,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -229,7 +229,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str5,
-                SPDM_MAX_AEAD_KEY_SIZE as u16,
+                aead_algo.get_key_size(),
             )?,
         };
         let encrypt_key = SpdmAeadKeyStruct::from_spdm_hkdf_okm(okm)?;
@@ -248,7 +248,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionHandshakeSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
             SpdmMajorSecret::SpdmDirectionDataSecret(k) => crypto::hkdf::hkdf_expand(
                 hash_algo,
@@ -256,7 +256,7 @@ impl SpdmKeySchedule {
                     &SpdmHkdfInputKeyingMaterial::SpdmDirectionDataSecret(k),
                 )?,
                 bin_str6,
-                SPDM_MAX_AEAD_IV_SIZE as u16,
+                aead_algo.get_iv_size(),
             )?,
         };
         let iv = SpdmAeadIvStruct::from_spdm_hkdf_okm(okm)?;
-- 
2.43.0


From 0f52d4ee61d5581662a2309a9b1107a6d1420079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 15/54] fix: do not wrap an exhausted sequence number

---
 spdmlib/src/common/session.rs | 46 +++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 31665d1..2687ed1 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -807,7 +807,10 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    self.handshake_secret.request_direction.sequence_number =
+                        next_sequence_number(
+                            self.handshake_secret.request_direction.sequence_number,
+                        );
                     r
                 } else {
                     let r = self.encode_msg(
@@ -815,7 +818,10 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    self.handshake_secret.response_direction.sequence_number =
+                        next_sequence_number(
+                            self.handshake_secret.response_direction.sequence_number,
+                        );
                     r
                 }
             }
@@ -826,7 +832,10 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    self.application_secret.request_direction.sequence_number =
+                        next_sequence_number(
+                            self.application_secret.request_direction.sequence_number,
+                        );
                     r
                 } else {
                     let r = self.encode_msg(
@@ -834,7 +843,10 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    self.application_secret.response_direction.sequence_number =
+                        next_sequence_number(
+                            self.application_secret.response_direction.sequence_number,
+                        );
                     r
                 }
             }
@@ -857,7 +869,10 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number += 1;
+                    self.handshake_secret.request_direction.sequence_number =
+                        next_sequence_number(
+                            self.handshake_secret.request_direction.sequence_number,
+                        );
                     r
                 } else {
                     let r = self.decode_msg(
@@ -865,7 +880,10 @@ impl SpdmSession {
                         app_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number += 1;
+                    self.handshake_secret.response_direction.sequence_number =
+                        next_sequence_number(
+                            self.handshake_secret.response_direction.sequence_number,
+                        );
                     r
                 }
             }
@@ -876,7 +894,10 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number += 1;
+                    self.application_secret.request_direction.sequence_number =
+                        next_sequence_number(
+                            self.application_secret.request_direction.sequence_number,
+                        );
                     r
                 } else {
                     let r = self.decode_msg(
@@ -884,7 +905,10 @@ impl SpdmSession {
                         app_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number += 1;
+                    self.application_secret.response_direction.sequence_number =
+                        next_sequence_number(
+                            self.application_secret.response_direction.sequence_number,
+                        );
                     r
                 }
             }
@@ -1053,6 +1077,12 @@ impl SpdmSession {
     }
 }
 
+// The last sequence number is never used: once there, the direction is exhausted
+// and must not wrap around to a nonce that has been used already.
+fn next_sequence_number(sequence_number: u64) -> u64 {
+    sequence_number.saturating_add(1)
+}
+
 #[cfg(all(test,))]
 mod tests_session {
     use super::*;
-- 
2.43.0


From f5e9dc406f2d987fb560e6e3d97eb5b9ea7cd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 16/54] fix: refuse a secured message that does not fit its
 buffer

---
 pcidoe_transport/src/header.rs | 11 ++++++++++-
 spdmlib/src/common/session.rs  |  5 +++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pcidoe_transport/src/header.rs b/pcidoe_transport/src/header.rs
index b247322..311edd7 100644
--- a/pcidoe_transport/src/header.rs
+++ b/pcidoe_transport/src/header.rs
@@ -5,7 +5,10 @@
 use codec::enum_builder;
 use codec::{Codec, Reader, Writer};
 use spdmlib::common::SpdmTransportEncap;
-use spdmlib::error::{SpdmResult, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_FAIL};
+use spdmlib::error::{
+    SpdmResult, SPDM_STATUS_DECAP_APP_FAIL, SPDM_STATUS_DECAP_FAIL, SPDM_STATUS_ENCAP_APP_FAIL,
+    SPDM_STATUS_ENCAP_FAIL,
+};
 
 enum_builder! {
     @U16
@@ -149,6 +152,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &mut [u8],
         _is_app_message: bool,
     ) -> SpdmResult<usize> {
+        if app_buffer.len() < spdm_buffer.len() {
+            return Err(SPDM_STATUS_ENCAP_APP_FAIL);
+        }
         app_buffer[0..spdm_buffer.len()].copy_from_slice(spdm_buffer);
         Ok(spdm_buffer.len())
     }
@@ -158,6 +164,9 @@ impl SpdmTransportEncap for PciDoeTransportEncap {
         app_buffer: &[u8],
         spdm_buffer: &mut [u8],
     ) -> SpdmResult<(usize, bool)> {
+        if spdm_buffer.len() < app_buffer.len() {
+            return Err(SPDM_STATUS_DECAP_APP_FAIL);
+        }
         spdm_buffer[0..app_buffer.len()].copy_from_slice(app_buffer);
         Ok((app_buffer.len(), false))
     }
diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 2687ed1..8cd1b2d 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -956,6 +956,11 @@ impl SpdmSession {
         assert_eq!(aad_size, 6 + transport_param.sequence_number_count as usize);
 
         let mut plain_text_buf = [0; config::SENDER_BUFFER_SIZE];
+        if cipher_text_size > plain_text_buf.len()
+            || aad_size + cipher_text_size + tag_size > secured_buffer.len()
+        {
+            return Err(SPDM_STATUS_BUFFER_TOO_SMALL);
+        }
         let mut writer = Writer::init(&mut plain_text_buf);
         app_length
             .encode(&mut writer)
-- 
2.43.0


From 58225a3299f29b2a046fcc8db2daf6fdcfb40266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 17/54] fix: only dispatch application messages in an
 established session

---
 spdmlib/src/responder/context.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 055776f..41d6cbf 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -370,8 +370,17 @@ impl<'a> ResponderContext<'a> {
     ) -> SpdmResult {
         debug!("dispatching secured app message\n");
 
+        // application data is only exchanged once the handshake has finished
+        let session = self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .ok_or(SPDM_STATUS_UNSUPPORTED_CAP)?;
+        if session.get_session_state() != SpdmSessionState::SpdmSessionEstablished {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let (rsp_app_buffer, size) =
-            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data).unwrap();
+            dispatch_secured_app_message_cb(self, session_id, bytes, auxiliary_app_data)?;
         self.send_secured_message(session_id, &rsp_app_buffer[..size], true)
     }
     pub fn dispatch_message(&mut self, bytes: &[u8]) -> SpdmResult {
-- 
2.43.0


From fe862e76c012ab903b531a9a38170d9e722cc24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 18/54] fix: do not overflow on a large CTExponent

---
 spdmlib/src/requester/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 0cdf5f6..3573988 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -119,7 +119,9 @@ impl<'a> RequesterContext<'a> {
         info!("receive_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            2usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32)
+                .unwrap_or(usize::MAX)
         } else {
             ST1
         };
@@ -143,7 +145,9 @@ impl<'a> RequesterContext<'a> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
-            2 << self.common.negotiate_info.rsp_ct_exponent_sel
+            2usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32)
+                .unwrap_or(usize::MAX)
         } else {
             ST1
         };
-- 
2.43.0


From d1c40142a39022c50f61b0c6f631c401c990e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 19/54] fix: report the number of measurements of a device that
 has only one

---
 spdmlib/src/message/measurement.rs       | 12 ++++--------
 spdmlib/src/responder/measurement_rsp.rs |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/message/measurement.rs b/spdmlib/src/message/measurement.rs
index 01a5e03..432b910 100644
--- a/spdmlib/src/message/measurement.rs
+++ b/spdmlib/src/message/measurement.rs
@@ -149,14 +149,10 @@ impl SpdmCodec for SpdmMeasurementsResponsePayload {
         //When Param2 in the requested measurement operation is 0 , this
         //parameter shall return the total number of measurement indices on
         //the device. Otherwise, this field is reserved.
-        if self.number_of_measurement == 1 {
-            cnt += 0_u8.encode(bytes).map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        } else {
-            cnt += self
-                .number_of_measurement
-                .encode(bytes)
-                .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
-        }
+        cnt += self
+            .number_of_measurement
+            .encode(bytes)
+            .map_err(|_| SPDM_STATUS_BUFFER_FULL)?; // param1
         if context.negotiate_info.spdm_version_sel.get_u8() >= SpdmVersion::SpdmVersion12.get_u8()
             && context.runtime_info.need_measurement_signature
         {
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 390f827..3e61c13 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -133,7 +133,7 @@ impl<'a> ResponderContext<'a> {
         {
             real_measurement_block_count
         } else {
-            1
+            0
         };
         let measurement_record = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
-- 
2.43.0


From aaa0d3b806525e0a9a38fdada433e68ff91eb99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 20/54] fix: report each slot's own digest in encapsulated
 DIGESTS

---
 spdmlib/src/requester/encap_digest.rs | 29 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/requester/encap_digest.rs b/spdmlib/src/requester/encap_digest.rs
index 0a2c5b5..da088b4 100644
--- a/spdmlib/src/requester/encap_digest.rs
+++ b/spdmlib/src/requester/encap_digest.rs
@@ -107,21 +107,32 @@ impl<'a> RequesterContext<'a> {
             return;
         }
 
+        // patch the digests, in slot order, before send
+        let digest_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
+        let mut digest_offset =
+            encap_response.used() - slot_mask.count_ones() as usize * digest_size;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
-                let my_cert_chain = self.common.provision_info.my_cert_chain[slot_id]
-                    .as_ref()
-                    .unwrap();
+            if let Some(my_cert_chain) = self.common.provision_info.my_cert_chain[slot_id].as_ref()
+            {
                 let cert_chain_hash = crypto::hash::hash_all(
                     self.common.negotiate_info.base_hash_sel,
                     my_cert_chain.as_ref(),
-                )
-                .unwrap();
+                );
+                let cert_chain_hash = if let Some(cert_chain_hash) = cert_chain_hash {
+                    cert_chain_hash
+                } else {
+                    self.encode_encap_error_response(
+                        SpdmErrorCode::SpdmErrorUnspecified,
+                        0,
+                        encap_response,
+                    );
+                    return;
+                };
 
-                // patch the message before send
-                let used = encap_response.used();
-                encap_response.mut_used_slice()[(used - cert_chain_hash.data_size as usize)..used]
+                let digest_end = digest_offset + digest_size;
+                encap_response.mut_used_slice()[digest_offset..digest_end]
                     .copy_from_slice(cert_chain_hash.as_ref());
+                digest_offset = digest_end;
             }
         }
         debug!("!!! encap get_digests : complete\n");
-- 
2.43.0


From 6c2bc3347046b9eda4e396ef59321834775fc310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 21/54] fix: answer a failed hash, key pair or measurement
 collection with an ERROR

---
 spdmlib/src/common/mod.rs                 |  3 +--
 spdmlib/src/responder/challenge_rsp.rs    | 11 ++++++---
 spdmlib/src/responder/digest_rsp.rs       |  9 +++++--
 spdmlib/src/responder/key_exchange_rsp.rs | 10 ++++++--
 spdmlib/src/responder/measurement_rsp.rs  | 30 ++++++++++++++---------
 5 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index cf0698f..2886744 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -273,8 +273,7 @@ impl<'a> SpdmContext<'a> {
                     crypto::cert_operation::get_cert_from_cert_chain(
                         &cert_chain.data[..(cert_chain.data_size as usize)],
                         0,
-                    )
-                    .unwrap();
+                    )?;
                 let root_cert = &cert_chain.data[root_cert_begin..root_cert_end];
                 if let Some(root_hash) =
                     crypto::hash::hash_all(self.negotiate_info.base_hash_sel, root_cert)
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 1272d4b..17f0ce7 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -114,8 +114,13 @@ impl<'a> ResponderContext<'a> {
         let cert_chain_hash = crypto::hash::hash_all(
             self.common.negotiate_info.base_hash_sel,
             my_cert_chain.as_ref(),
-        )
-        .unwrap();
+        );
+        let cert_chain_hash = if let Some(cert_chain_hash) = cert_chain_hash {
+            cert_chain_hash
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        };
 
         let mut nonce = [0u8; SPDM_NONCE_SIZE];
         let res = crypto::rand::get_random(&mut nonce);
@@ -191,7 +196,7 @@ impl<'a> ResponderContext<'a> {
                 .digest_context_m1m2
                 .as_ref()
                 .cloned()
-                .unwrap(),
+                .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
 
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index 29381ab..a8cb426 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -119,8 +119,13 @@ impl<'a> ResponderContext<'a> {
                 let cert_chain_hash = crypto::hash::hash_all(
                     self.common.negotiate_info.base_hash_sel,
                     my_cert_chain.as_ref(),
-                )
-                .unwrap();
+                );
+                let cert_chain_hash = if let Some(cert_chain_hash) = cert_chain_hash {
+                    cert_chain_hash
+                } else {
+                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                    return;
+                };
 
                 let digest_end = digest_offset + digest_size as usize;
                 writer.mut_used_slice()[digest_offset..digest_end]
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index 1c17f50..a131643 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -190,8 +190,14 @@ impl<'a> ResponderContext<'a> {
             .runtime_info
             .set_local_used_cert_chain_slot_id(key_exchange_req.slot_id);
 
-        let (exchange, key_exchange_context) =
-            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel).unwrap();
+        let (exchange, key_exchange_context) = if let Some(key_pair) =
+            crypto::dhe::generate_key_pair(self.common.negotiate_info.dhe_sel)
+        {
+            key_pair
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return Err(SPDM_STATUS_CRYPTO_ERROR);
+        };
 
         debug!("!!! exchange data : {:02x?}\n", exchange);
 
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index 3e61c13..a19a97d 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -117,14 +117,18 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        let real_measurement_block_count = secret::measurement::measurement_collection(
-            spdm_version_sel,
-            measurement_specification_sel,
-            measurement_hash_sel,
-            SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
-        )
-        .unwrap()
-        .number_of_blocks;
+        let real_measurement_block_count =
+            if let Some(measurement_record) = secret::measurement::measurement_collection(
+                spdm_version_sel,
+                measurement_specification_sel,
+                measurement_hash_sel,
+                SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber.get_u8() as usize,
+            ) {
+                measurement_record.number_of_blocks
+            } else {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+                return;
+            };
 
         let number_of_measurement: u8 = if get_measurements.measurement_operation
             == SpdmMeasurementOperation::SpdmMeasurementRequestAll
@@ -144,7 +148,6 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 SpdmMeasurementOperation::SpdmMeasurementRequestAll.get_u8() as usize,
             )
-            .unwrap()
         } else if let SpdmMeasurementOperation::Unknown(index) =
             get_measurements.measurement_operation
         {
@@ -158,9 +161,14 @@ impl<'a> ResponderContext<'a> {
                 measurement_hash_sel,
                 index as usize,
             )
-            .unwrap()
         } else {
-            SpdmMeasurementRecordStructure::default()
+            Some(SpdmMeasurementRecordStructure::default())
+        };
+        let measurement_record = if let Some(measurement_record) = measurement_record {
+            measurement_record
+        } else {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         };
 
         let content_changed = if runtime_content_change_support
-- 
2.43.0


From df24fda30ba73307b1a93f9ae8274797d2dbf9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 22/54] fix: rebuild the certificate chain for the negotiated
 hash algorithm

---
 spdmlib/src/common/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 2886744..af21fb6 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -263,9 +263,8 @@ impl<'a> SpdmContext<'a> {
 
     pub fn construct_my_cert_chain(&mut self) -> SpdmResult {
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.provision_info.my_cert_chain[slot_id].is_none()
-                && self.provision_info.my_cert_chain_data[slot_id].is_some()
-            {
+            // built anew by every negotiation: it starts with a hash by the selected algorithm
+            if self.provision_info.my_cert_chain_data[slot_id].is_some() {
                 let cert_chain = self.provision_info.my_cert_chain_data[slot_id]
                     .as_ref()
                     .unwrap();
-- 
2.43.0


From 0e36b9742d636aeb7c3f752e4141962d529ec436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 23/54] fix: do not ask for ever for a certificate portion that
 never comes

---
 spdmlib/src/requester/get_certificate_req.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 5e46537..4e648e5 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -125,6 +125,11 @@ impl<'a> RequesterContext<'a> {
                             {
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
                             }
+                            if certificate.portion_length == 0 && certificate.remainder_length != 0
+                            {
+                                // no progress: do not ask for ever
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
                             if certificate.slot_id != slot_id {
                                 error!("slot id is not match between requester and responder!\n");
                                 return Err(SPDM_STATUS_INVALID_MSG_FIELD);
-- 
2.43.0


From 15447e4028054ecfb3020af5540d498c8de76198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 24/54] fix: reset the challenge transcript on the same
 requests on both sides

AfterCertificate and Authenticated have one value, so a Responder asked for a
certificate kept the transcript over KEY_EXCHANGE and the like, which the
Requester drops: the next CHALLENGE failed.
---
 spdmlib/src/common/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index af21fb6..1c726ab 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -957,12 +957,10 @@ impl<'a> SpdmContext<'a> {
             | SpdmRequestResponseCode::SpdmRequestKeyUpdate
             | SpdmRequestResponseCode::SpdmRequestHeartbeat
             | SpdmRequestResponseCode::SpdmRequestEndSession => {
-                if self.runtime_info.connection_state.get_u8()
-                    < SpdmConnectionState::SpdmConnectionAuthenticated.get_u8()
-                {
-                    self.reset_message_b();
-                    self.reset_message_c();
-                }
+                // both sides must agree on this, and a Requester does not track the
+                // connection state
+                self.reset_message_b();
+                self.reset_message_c();
             }
             SpdmRequestResponseCode::SpdmRequestGetDigests => {
                 self.reset_message_b();
-- 
2.43.0


From ffb669179c7b8f4fe2c6fc1e8634317e77e59e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 25/54] fix: finish a PSK session when the handshake may be in
 the clear

HANDSHAKE_IN_THE_CLEAR is about KEY_EXCHANGE. With it negotiated the Responder
dropped every PSK_FINISH.
---
 spdmlib/src/responder/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 41d6cbf..876a3b4 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -247,7 +247,8 @@ impl<'a> ResponderContext<'a> {
                         .negotiate_info
                         .rsp_capabilities_sel
                         .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
-                if in_clear_text {
+                // only the handshake of a KEY_EXCHANGE session can be in the clear
+                if in_clear_text && !session.get_use_psk() {
                     return Err(SPDM_STATUS_UNSUPPORTED_CAP);
                 }
 
-- 
2.43.0


From d61e2a873a29fc2798db88cf26576394a8f9e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 26/54] fix: sign the transcript in FINISH before SPDM 1.2

The signature of mutual authentication was over no bytes at all, so that any
earlier one served for every session.
---
 spdmlib/src/requester/finish_req.rs | 9 ++++++++-
 spdmlib/src/responder/finish_rsp.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 23b620f..98e0fdc 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -322,7 +322,14 @@ impl<'a> RequesterContext<'a> {
             .common
             .calc_req_transcript_hash(false, slot_id, true, session)?;
 
-        let mut transcript_sign = ManagedBuffer12Sign::default();
+        // before SPDM 1.2 the transcript itself is signed
+        let mut transcript_sign = self.common.calc_req_transcript_data(
+            false,
+            slot_id,
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 0a622da..3be74b7 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -330,7 +330,14 @@ impl<'a> ResponderContext<'a> {
                 .as_ref()
                 .ok_or(SPDM_STATUS_INVALID_PARAMETER)?
                 .data_size as usize)];
-        let mut transcript_sign = ManagedBuffer12Sign::default();
+        // before SPDM 1.2 the transcript itself is signed
+        let mut transcript_sign = self.common.calc_rsp_transcript_data(
+            false,
+            session.get_slot_id(),
+            true,
+            &session.runtime_info.message_k,
+            Some(&session.runtime_info.message_f),
+        )?;
         if self.common.negotiate_info.spdm_version_sel.get_u8()
             >= SpdmVersion::SpdmVersion12.get_u8()
         {
-- 
2.43.0


From 30f7d2fb3eec123e25bc6dd1068c2971d4299ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 27/54] fix: accept only algorithms that were offered

The Requester took whatever ALGORITHMS selects, also algorithms it never
offered and several of a kind at once, so a later step could panic on them
or run with keys of the wrong size. Refuse such a response.
---
 .../src/requester/negotiate_algorithms_req.rs | 47 +++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/spdmlib/src/requester/negotiate_algorithms_req.rs b/spdmlib/src/requester/negotiate_algorithms_req.rs
index dafdf9a..a820eb9 100644
--- a/spdmlib/src/requester/negotiate_algorithms_req.rs
+++ b/spdmlib/src/requester/negotiate_algorithms_req.rs
@@ -90,6 +90,10 @@ impl<'a> RequesterContext<'a> {
                         if let Some(algorithms) = algorithms {
                             debug!("!!! algorithms : {:02x?}\n", algorithms);
 
+                            if !self.is_algorithms_offered(&algorithms) {
+                                return Err(SPDM_STATUS_NEGOTIATION_FAIL);
+                            }
+
                             self.common.negotiate_info.measurement_specification_sel =
                                 algorithms.measurement_specification_sel;
 
@@ -149,4 +153,47 @@ impl<'a> RequesterContext<'a> {
             None => Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
     }
+
+    // The responder selects at most one of the algorithms the requester offered.
+    fn is_algorithms_offered(&self, algorithms: &SpdmAlgorithmsResponsePayload) -> bool {
+        fn is_offered(selected: u32, offered: u32) -> bool {
+            selected & !offered == 0 && selected.count_ones() <= 1
+        }
+
+        let offer = &self.common.config_info;
+        is_offered(
+            algorithms.measurement_specification_sel.bits() as u32,
+            offer.measurement_specification.bits() as u32,
+        ) && is_offered(
+            algorithms.other_params_selection.bits() as u32,
+            offer.opaque_support.bits() as u32,
+        ) && is_offered(algorithms.measurement_hash_algo.bits(), u32::MAX)
+            && is_offered(
+                algorithms.base_hash_sel.bits(),
+                offer.base_hash_algo.bits(),
+            )
+            && is_offered(
+                algorithms.base_asym_sel.bits(),
+                offer.base_asym_algo.bits(),
+            )
+            && algorithms
+                .alg_struct
+                .iter()
+                .take(algorithms.alg_struct_count as usize)
+                .all(|alg| match &alg.alg_supported {
+                    SpdmAlg::SpdmAlgoDhe(v) => {
+                        is_offered(v.bits() as u32, offer.dhe_algo.bits() as u32)
+                    }
+                    SpdmAlg::SpdmAlgoAead(v) => {
+                        is_offered(v.bits() as u32, offer.aead_algo.bits() as u32)
+                    }
+                    SpdmAlg::SpdmAlgoReqAsym(v) => {
+                        is_offered(v.bits() as u32, offer.req_asym_algo.bits() as u32)
+                    }
+                    SpdmAlg::SpdmAlgoKeySchedule(v) => {
+                        is_offered(v.bits() as u32, offer.key_schedule_algo.bits() as u32)
+                    }
+                    SpdmAlg::SpdmAlgoUnknown(_v) => true,
+                })
+    }
 }
-- 
2.43.0


From e21677430754c552b8d4a88712549c333749713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 28/54] fix: agree only to configured versions in
 GET_CAPABILITIES

The Responder took any version from 0x10 up as the negotiated one, also
versions VERSION does not list or that do not exist.
---
 spdmlib/src/responder/capability_rsp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/responder/capability_rsp.rs b/spdmlib/src/responder/capability_rsp.rs
index 1f0ba40..5caaed4 100644
--- a/spdmlib/src/responder/capability_rsp.rs
+++ b/spdmlib/src/responder/capability_rsp.rs
@@ -35,6 +35,10 @@ impl<'a> ResponderContext<'a> {
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+            if !self.common.config_info.spdm_version.contains(&version) {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorVersionMismatch, 0, writer);
+                return;
+            }
             self.common.negotiate_info.spdm_version_sel = version;
         } else {
             error!("!!! get_capabilities : fail !!!\n");
-- 
2.43.0


From 0d6aef3950a3531f1f8a6e5573f6797c77892b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 29/54] fix: know the SHA3-384 and SHA3-512 measurement hashes

The mask of measurement hashes named SHA3-256 three times, so the
Requester read the two others as none.
---
 spdmlib/src/protocol/algo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdmlib/src/protocol/algo.rs b/spdmlib/src/protocol/algo.rs
index 600c976..e1a07cc 100644
--- a/spdmlib/src/protocol/algo.rs
+++ b/spdmlib/src/protocol/algo.rs
@@ -118,8 +118,8 @@ bitflags! {
             | Self::TPM_ALG_SHA_384.bits
             | Self::TPM_ALG_SHA_512.bits
             | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
-            | Self::TPM_ALG_SHA3_256.bits
+            | Self::TPM_ALG_SHA3_384.bits
+            | Self::TPM_ALG_SHA3_512.bits
             | Self::TPM_ALG_SM3.bits;
     }
 }
-- 
2.43.0


From 771874c1eef66e8df3b026ec9fe7ad8562cc263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 30/54] fix: require version 1.0 in the header of VERSION

---
 spdmlib/src/requester/get_version_req.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index c8a9b6e..1a4dec9 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -43,6 +43,10 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult {
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(SpdmMessageHeader {
+                version,
+                request_response_code: SpdmRequestResponseCode::SpdmResponseVersion,
+            }) if version != SpdmVersion::SpdmVersion10 => Err(SPDM_STATUS_INVALID_MSG_FIELD),
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseVersion => {
                     let version =
-- 
2.43.0


From 9f451545ea8bc00589385b59b5bedfe75b25541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 31/54] fix: refuse NEGOTIATE_ALGORITHMS without a common hash
 or signature algorithm

The Responder carried on with an empty selection, and panicked on the size
of the missing hash, already when it put its certificate chain together.
---
 spdmlib/src/responder/algorithm_rsp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spdmlib/src/responder/algorithm_rsp.rs b/spdmlib/src/responder/algorithm_rsp.rs
index 3e2a62c..2b3aef1 100644
--- a/spdmlib/src/responder/algorithm_rsp.rs
+++ b/spdmlib/src/responder/algorithm_rsp.rs
@@ -47,6 +47,16 @@ impl<'a> ResponderContext<'a> {
             SpdmNegotiateAlgorithmsRequestPayload::spdm_read(&mut self.common, &mut reader);
         if let Some(negotiate_algorithms) = negotiate_algorithms {
             debug!("!!! negotiate_algorithms : {:02x?}\n", negotiate_algorithms);
+            if !negotiate_algorithms
+                .base_hash_algo
+                .intersects(self.common.config_info.base_hash_algo)
+                || !negotiate_algorithms
+                    .base_asym_algo
+                    .intersects(self.common.config_info.base_asym_algo)
+            {
+                self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+                return;
+            }
             other_params_support = negotiate_algorithms.other_params_support;
             self.common.negotiate_info.measurement_specification_sel =
                 negotiate_algorithms.measurement_specification;
-- 
2.43.0


From 38769fe786c88d427ccea47998f0c2137a8313ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 32/54] fix: accept only the acknowledgement of the key update
 that was asked for

KEY_UPDATE_ACK repeats operation and tag. The Requester ignored both, so a
late acknowledgement of an earlier update activated keys the Responder does
not have.
---
 spdmlib/src/requester/key_update_req.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index 9777323..e475d96 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -43,6 +43,8 @@ impl<'a> RequesterContext<'a> {
 
         self.handle_spdm_key_update_op_response(
             session_id,
+            key_update_operation,
+            tag,
             update_requester,
             update_responder,
             &receive_buffer[..used],
@@ -72,6 +74,8 @@ impl<'a> RequesterContext<'a> {
     pub fn handle_spdm_key_update_op_response(
         &mut self,
         session_id: u32,
+        key_update_operation: SpdmKeyUpdateOperation,
+        tag: u8,
         update_requester: bool,
         update_responder: bool,
         receive_buffer: &[u8],
@@ -85,7 +89,12 @@ impl<'a> RequesterContext<'a> {
                 match message_header.request_response_code {
                     SpdmRequestResponseCode::SpdmResponseKeyUpdateAck => {
                         let key_update_rsp =
-                            SpdmKeyUpdateResponsePayload::spdm_read(&mut self.common, &mut reader);
+                            SpdmKeyUpdateResponsePayload::spdm_read(&mut self.common, &mut reader)
+                                // the acknowledgement repeats the operation and the tag
+                                .filter(|ack| {
+                                    ack.key_update_operation == key_update_operation
+                                        && ack.tag == tag
+                                });
                         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
                         let session = if let Some(s) = self.common.get_session_via_id(session_id) {
                             s
-- 
2.43.0


From d34eb50e758dd3d80865c9b3a1450b0921d16e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 33/54] fix: no session without a negotiated DHE group and AEAD

KEY_EXCHANGE and PSK_EXCHANGE need algorithms ALGORITHMS may have left
empty; both sides panicked on their sizes.
---
 spdmlib/src/requester/key_exchange_req.rs | 6 ++++++
 spdmlib/src/requester/psk_exchange_req.rs | 4 ++++
 spdmlib/src/responder/key_exchange_rsp.rs | 8 +++++++-
 spdmlib/src/responder/psk_exchange_rsp.rs | 5 +++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/key_exchange_req.rs b/spdmlib/src/requester/key_exchange_req.rs
index f834655..1e73ebc 100644
--- a/spdmlib/src/requester/key_exchange_req.rs
+++ b/spdmlib/src/requester/key_exchange_req.rs
@@ -37,6 +37,12 @@ impl<'a> RequesterContext<'a> {
             return Err(SPDM_STATUS_INVALID_PARAMETER);
         }
 
+        if self.common.negotiate_info.dhe_sel.is_empty()
+            || self.common.negotiate_info.aead_sel.is_empty()
+        {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let req_session_id = self.common.get_next_half_session_id(true)?;
 
         self.common
diff --git a/spdmlib/src/requester/psk_exchange_req.rs b/spdmlib/src/requester/psk_exchange_req.rs
index 0c427bf..e96ac9d 100644
--- a/spdmlib/src/requester/psk_exchange_req.rs
+++ b/spdmlib/src/requester/psk_exchange_req.rs
@@ -25,6 +25,10 @@ impl<'a> RequesterContext<'a> {
     ) -> SpdmResult<u32> {
         info!("send spdm psk exchange\n");
 
+        if self.common.negotiate_info.aead_sel.is_empty() {
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
+
         let psk_hint = if let Some(hint) = psk_hint {
             hint.clone()
         } else {
diff --git a/spdmlib/src/responder/key_exchange_rsp.rs b/spdmlib/src/responder/key_exchange_rsp.rs
index a131643..e7f6ad9 100644
--- a/spdmlib/src/responder/key_exchange_rsp.rs
+++ b/spdmlib/src/responder/key_exchange_rsp.rs
@@ -11,7 +11,7 @@ use crate::common::SpdmOpaqueSupport;
 use crate::crypto;
 use crate::error::{
     SpdmResult, SPDM_STATUS_BUFFER_FULL, SPDM_STATUS_CRYPTO_ERROR, SPDM_STATUS_INVALID_MSG_FIELD,
-    SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_INVALID_STATE_PEER,
+    SPDM_STATUS_INVALID_STATE_LOCAL, SPDM_STATUS_INVALID_STATE_PEER, SPDM_STATUS_UNSUPPORTED_CAP,
 };
 use crate::protocol::*;
 use crate::responder::*;
@@ -65,6 +65,12 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
+        if self.common.negotiate_info.dhe_sel.is_empty()
+            || self.common.negotiate_info.aead_sel.is_empty()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
 
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestKeyExchange, None);
diff --git a/spdmlib/src/responder/psk_exchange_rsp.rs b/spdmlib/src/responder/psk_exchange_rsp.rs
index bfc80e5..e6a9b97 100644
--- a/spdmlib/src/responder/psk_exchange_rsp.rs
+++ b/spdmlib/src/responder/psk_exchange_rsp.rs
@@ -13,6 +13,7 @@ use crate::error::SPDM_STATUS_CRYPTO_ERROR;
 use crate::error::SPDM_STATUS_INVALID_MSG_FIELD;
 use crate::error::SPDM_STATUS_INVALID_STATE_LOCAL;
 use crate::error::SPDM_STATUS_INVALID_STATE_PEER;
+use crate::error::SPDM_STATUS_UNSUPPORTED_CAP;
 use crate::message::*;
 use crate::protocol::*;
 use crate::responder::*;
@@ -65,6 +66,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
             return Err(SPDM_STATUS_INVALID_MSG_FIELD);
         }
+        if self.common.negotiate_info.aead_sel.is_empty() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnsupportedRequest, 0, writer);
+            return Err(SPDM_STATUS_UNSUPPORTED_CAP);
+        }
 
         self.common
             .reset_buffer_via_request_code(SpdmRequestResponseCode::SpdmRequestPskExchange, None);
-- 
2.43.0


From e2949f36ce01d42426ad2459f7a00c46e84c77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 34/54] fix: start each retrieval of the Requester's
 certificate chain afresh

The Responder continued an abandoned encapsulated GET_CERTIFICATE where it
had stopped, so the next session's mutual authentication ran on a chain put
together from two retrievals.
---
 spdmlib/src/responder/encap_rsp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 5c5df13..31c84c0 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -198,6 +198,9 @@ impl<'a> ResponderContext<'a> {
             SpdmRequestResponseCode::SpdmResponseDigests => {
                 self.handle_encap_response_digest(encap_response)?;
 
+                // what an abandoned retrieval left is no part of this chain
+                self.common.peer_info.peer_cert_chain_temp = None;
+
                 let _ = ack_params.spdm_encode(&mut self.common, encap_response_ack);
                 self.encode_encap_requst_get_certificate(encap_response_ack)
             }
-- 
2.43.0


From df33a484e792f4590ac0eb265f3e73eab40a0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 35/54] fix: accept measurements only for the operation that
 was asked for

---
 spdmlib/src/requester/get_measurements_req.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 63b384b..4307d7d 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -130,6 +130,23 @@ impl<'a> RequesterContext<'a> {
                         if let Some(measurements) = measurements {
                             debug!("!!! measurements : {:02x?}\n", measurements);
 
+                            // the response must be to the operation that was asked for
+                            let record = &measurements.measurement_record;
+                            let is_expected = match measurement_operation {
+                                SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber => {
+                                    record.number_of_blocks == 0
+                                }
+                                SpdmMeasurementOperation::SpdmMeasurementRequestAll => true,
+                                SpdmMeasurementOperation::Unknown(index) => {
+                                    record.number_of_blocks == 1
+                                        && record.measurement_record_data[0] == index
+                                }
+                            };
+                            if !is_expected {
+                                error!("!!! measurements : not what was asked for !!!\n");
+                                return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+                            }
+
                             if self.common.negotiate_info.spdm_version_sel.get_u8()
                                 >= SpdmVersion::SpdmVersion12.get_u8()
                             {
-- 
2.43.0


From e45ad22051cfd02301db6ca076bc88bd99223465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 36/54] fix: report a failed duplication of a digest context
 instead of panicking

---
 spdmlib/src/common/mod.rs                     | 4 ++--
 spdmlib/src/requester/challenge_req.rs        | 2 +-
 spdmlib/src/requester/get_measurements_req.rs | 4 ++--
 spdmlib/src/responder/challenge_rsp.rs        | 2 +-
 spdmlib/src/responder/measurement_rsp.rs      | 8 ++++----
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 1c726ab..ce1d47b 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -860,7 +860,7 @@ impl<'a> SpdmContext<'a> {
                 .runtime_info
                 .digest_context_th
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
@@ -880,7 +880,7 @@ impl<'a> SpdmContext<'a> {
                 .runtime_info
                 .digest_context_th
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_INVALID_STATE_LOCAL)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
diff --git a/spdmlib/src/requester/challenge_req.rs b/spdmlib/src/requester/challenge_req.rs
index 7ac271e..6e690ad 100644
--- a/spdmlib/src/requester/challenge_req.rs
+++ b/spdmlib/src/requester/challenge_req.rs
@@ -157,7 +157,7 @@ impl<'a> RequesterContext<'a> {
                 .runtime_info
                 .digest_context_m1m2
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index 4307d7d..eec0abf 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -259,7 +259,7 @@ impl<'a> RequesterContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
                 crypto::hash::hash_ctx_finalize(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?
             }
@@ -274,7 +274,7 @@ impl<'a> RequesterContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
+                    .and_then(crypto::hash::hash_ctx_dup)
                     .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
                 crypto::hash::hash_ctx_finalize(ctx).ok_or(SPDM_STATUS_CRYPTO_ERROR)?
             }
diff --git a/spdmlib/src/responder/challenge_rsp.rs b/spdmlib/src/responder/challenge_rsp.rs
index 17f0ce7..a3994d6 100644
--- a/spdmlib/src/responder/challenge_rsp.rs
+++ b/spdmlib/src/responder/challenge_rsp.rs
@@ -195,7 +195,7 @@ impl<'a> ResponderContext<'a> {
                 .runtime_info
                 .digest_context_m1m2
                 .as_ref()
-                .cloned()
+                .and_then(crypto::hash::hash_ctx_dup)
                 .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         )
         .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index a19a97d..e627a7d 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -269,8 +269,8 @@ impl<'a> ResponderContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
-                    .unwrap(),
+                    .and_then(crypto::hash::hash_ctx_dup)
+                    .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             None => crypto::hash::hash_ctx_finalize(
@@ -278,8 +278,8 @@ impl<'a> ResponderContext<'a> {
                     .runtime_info
                     .digest_context_l1l2
                     .as_ref()
-                    .cloned()
-                    .unwrap(),
+                    .and_then(crypto::hash::hash_ctx_dup)
+                    .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
             )
             .ok_or(SPDM_STATUS_CRYPTO_ERROR)?,
         };
-- 
2.43.0


From 1a5e6838bf80db4a9f740632de559ffdb914f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 37/54] fix: acknowledge a key update only when the keys were
 updated

---
 spdmlib/src/common/session.rs           | 103 ++++++++++++------------
 spdmlib/src/responder/key_update_rsp.rs |  20 +++--
 2 files changed, 64 insertions(+), 59 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index 8cd1b2d..a89962a 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -569,6 +569,32 @@ impl SpdmSession {
         Ok(())
     }
 
+    fn derive_data_secret_update(
+        &self,
+        spdm_version: SpdmVersion,
+        data_secret: &SpdmDirectionDataSecretStruct,
+    ) -> SpdmResult<(
+        SpdmDirectionDataSecretStruct,
+        SpdmAeadKeyStruct,
+        SpdmAeadIvStruct,
+    )> {
+        let hash_algo = self.crypto_param.base_hash_algo;
+        let data_secret = self
+            .key_schedule
+            .derive_update_secret(spdm_version, hash_algo, data_secret)
+            .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+        let (encryption_key, salt) = self
+            .key_schedule
+            .derive_aead_key_iv(
+                spdm_version,
+                hash_algo,
+                self.crypto_param.aead_algo,
+                &SpdmMajorSecret::SpdmDirectionDataSecret(&data_secret),
+            )
+            .ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
+        Ok((data_secret, encryption_key, salt))
+    }
+
     pub fn create_data_secret_update(
         &mut self,
         spdm_version: SpdmVersion,
@@ -579,44 +605,38 @@ impl SpdmSession {
             "!!! create_data_secret_update {:?} {:?} !!!:\n",
             update_requester, update_responder
         );
-        let hash_algo = self.crypto_param.base_hash_algo;
-        let aead_algo = self.crypto_param.aead_algo;
+        // nothing is replaced before everything is derived: a failure leaves the keys in use as they are
+        let request_update = if update_requester {
+            Some(self.derive_data_secret_update(
+                spdm_version,
+                &self.application_secret.request_data_secret,
+            )?)
+        } else {
+            None
+        };
+        let response_update = if update_responder {
+            Some(self.derive_data_secret_update(
+                spdm_version,
+                &self.application_secret.response_data_secret,
+            )?)
+        } else {
+            None
+        };
 
-        if update_requester {
+        if let Some((data_secret, encryption_key, salt)) = request_update {
             self.application_secret_backup.request_data_secret =
                 self.application_secret.request_data_secret.clone();
             self.application_secret_backup.request_direction =
                 self.application_secret.request_direction.clone();
 
-            self.application_secret.request_data_secret = if let Some(us) =
-                self.key_schedule.derive_update_secret(
-                    spdm_version,
-                    hash_algo,
-                    &self.application_secret.request_data_secret,
-                ) {
-                us
-            } else {
-                return Err(SPDM_STATUS_CRYPTO_ERROR);
-            };
+            self.application_secret.request_data_secret = data_secret;
             debug!(
                 "!!! request_data_secret !!!: {:02x?}\n",
                 self.application_secret.request_data_secret.as_ref()
             );
 
-            let res = if let Some(aki) = self.key_schedule.derive_aead_key_iv(
-                spdm_version,
-                hash_algo,
-                aead_algo,
-                &SpdmMajorSecret::SpdmDirectionDataSecret(
-                    &self.application_secret.request_data_secret,
-                ),
-            ) {
-                aki
-            } else {
-                return Err(SPDM_STATUS_CRYPTO_ERROR);
-            };
-            self.application_secret.request_direction.encryption_key = res.0;
-            self.application_secret.request_direction.salt = res.1;
+            self.application_secret.request_direction.encryption_key = encryption_key;
+            self.application_secret.request_direction.salt = salt;
             debug!(
                 "!!! request_direction.encryption_key !!!: {:02x?}\n",
                 self.application_secret
@@ -631,41 +651,20 @@ impl SpdmSession {
             self.application_secret.request_direction.sequence_number = 0;
         }
 
-        if update_responder {
+        if let Some((data_secret, encryption_key, salt)) = response_update {
             self.application_secret_backup.response_data_secret =
                 self.application_secret.response_data_secret.clone();
             self.application_secret_backup.response_direction =
                 self.application_secret.response_direction.clone();
 
-            self.application_secret.response_data_secret = if let Some(us) =
-                self.key_schedule.derive_update_secret(
-                    spdm_version,
-                    hash_algo,
-                    &self.application_secret.response_data_secret,
-                ) {
-                us
-            } else {
-                return Err(SPDM_STATUS_CRYPTO_ERROR);
-            };
+            self.application_secret.response_data_secret = data_secret;
             debug!(
                 "!!! response_data_secret !!!: {:02x?}\n",
                 self.application_secret.response_data_secret.as_ref()
             );
 
-            let res = if let Some(aki) = self.key_schedule.derive_aead_key_iv(
-                spdm_version,
-                hash_algo,
-                aead_algo,
-                &SpdmMajorSecret::SpdmDirectionDataSecret(
-                    &self.application_secret.response_data_secret,
-                ),
-            ) {
-                aki
-            } else {
-                return Err(SPDM_STATUS_CRYPTO_ERROR);
-            };
-            self.application_secret.response_direction.encryption_key = res.0;
-            self.application_secret.response_direction.salt = res.1;
+            self.application_secret.response_direction.encryption_key = encryption_key;
+            self.application_secret.response_direction.salt = salt;
             debug!(
                 "!!! response_direction.encryption_key !!!: {:02x?}\n",
                 self.application_secret
diff --git a/spdmlib/src/responder/key_update_rsp.rs b/spdmlib/src/responder/key_update_rsp.rs
index b088047..a416ed8 100644
--- a/spdmlib/src/responder/key_update_rsp.rs
+++ b/spdmlib/src/responder/key_update_rsp.rs
@@ -50,22 +50,28 @@ impl<'a> ResponderContext<'a> {
 
         let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
         let session = self.common.get_session_via_id(session_id).unwrap();
-        match key_update_req.key_update_operation {
+        let updated = match key_update_req.key_update_operation {
             SpdmKeyUpdateOperation::SpdmUpdateSingleKey => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, false);
-            }
-            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => {
-                let _ = session.create_data_secret_update(spdm_version_sel, true, true);
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, true, true);
+                session.create_data_secret_update(spdm_version_sel, true, false)
             }
+            SpdmKeyUpdateOperation::SpdmUpdateAllKeys => session
+                .create_data_secret_update(spdm_version_sel, true, true)
+                .and_then(|_| {
+                    session.activate_data_secret_update(spdm_version_sel, true, true, true)
+                }),
             SpdmKeyUpdateOperation::SpdmVerifyNewKey => {
-                let _ = session.activate_data_secret_update(spdm_version_sel, true, false, true);
+                session.activate_data_secret_update(spdm_version_sel, true, false, true)
             }
             _ => {
                 error!("!!! key_update req : fail !!!\n");
                 self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
                 return;
             }
+        };
+        if updated.is_err() {
+            error!("!!! key_update : fail !!!\n");
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
         }
 
         info!("send spdm key_update rsp\n");
-- 
2.43.0


From 8186cd9920c1b1a5cf837735966dc4172593af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 38/54] fix: GET_DIGESTS discards what a failed CHALLENGE has
 left in the transcript

---
 spdmlib/src/common/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index ce1d47b..102a02a 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -964,6 +964,8 @@ impl<'a> SpdmContext<'a> {
             }
             SpdmRequestResponseCode::SpdmRequestGetDigests => {
                 self.reset_message_b();
+                // and with it whatever a CHALLENGE that failed has left
+                self.reset_message_c();
             }
             _ => {}
         }
-- 
2.43.0


From 34c153d2e5a3ae1cc5e716cc045bc3495c99d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 39/54] fix: no encapsulated DIGESTS with digests that could
 not be computed

---
 spdmlib/src/requester/encap_digest.rs | 64 +++++++++------------------
 1 file changed, 22 insertions(+), 42 deletions(-)

diff --git a/spdmlib/src/requester/encap_digest.rs b/spdmlib/src/requester/encap_digest.rs
index da088b4..648936e 100644
--- a/spdmlib/src/requester/encap_digest.rs
+++ b/spdmlib/src/requester/encap_digest.rs
@@ -12,13 +12,9 @@ use crate::{
         SpdmMessageHeader, SpdmMessagePayload, SpdmRequestResponseCode,
     },
     protocol::{
-        gen_array_clone, SpdmDigestStruct, SpdmRequestCapabilityFlags, SPDM_MAX_HASH_SIZE,
-        SPDM_MAX_SLOT_NUMBER,
+        gen_array_clone, SpdmDigestStruct, SpdmRequestCapabilityFlags, SPDM_MAX_SLOT_NUMBER,
     },
 };
-extern crate alloc;
-use alloc::boxed::Box;
-
 use super::RequesterContext;
 
 impl<'a> RequesterContext<'a> {
@@ -71,9 +67,28 @@ impl<'a> RequesterContext<'a> {
             return;
         }
 
+        // the digests of the provisioned slots, in slot order
         let mut slot_mask = 0u8;
+        let mut digests = gen_array_clone(SpdmDigestStruct::default(), SPDM_MAX_SLOT_NUMBER);
+        let mut digest_count = 0;
         for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if self.common.provision_info.my_cert_chain[slot_id].is_some() {
+            if let Some(my_cert_chain) = self.common.provision_info.my_cert_chain[slot_id].as_ref()
+            {
+                let cert_chain_hash = crypto::hash::hash_all(
+                    self.common.negotiate_info.base_hash_sel,
+                    my_cert_chain.as_ref(),
+                );
+                digests[digest_count] = if let Some(cert_chain_hash) = cert_chain_hash {
+                    cert_chain_hash
+                } else {
+                    self.encode_encap_error_response(
+                        SpdmErrorCode::SpdmErrorUnspecified,
+                        0,
+                        encap_response,
+                    );
+                    return;
+                };
+                digest_count += 1;
                 slot_mask |= (1 << slot_id) as u8;
             }
         }
@@ -85,13 +100,7 @@ impl<'a> RequesterContext<'a> {
             },
             payload: SpdmMessagePayload::SpdmDigestsResponse(SpdmDigestsResponsePayload {
                 slot_mask,
-                digests: gen_array_clone(
-                    SpdmDigestStruct {
-                        data_size: self.common.negotiate_info.base_hash_sel.get_size(),
-                        data: Box::new([0xffu8; SPDM_MAX_HASH_SIZE]),
-                    },
-                    SPDM_MAX_SLOT_NUMBER,
-                ),
+                digests,
             }),
         };
 
@@ -106,35 +115,6 @@ impl<'a> RequesterContext<'a> {
             );
             return;
         }
-
-        // patch the digests, in slot order, before send
-        let digest_size = self.common.negotiate_info.base_hash_sel.get_size() as usize;
-        let mut digest_offset =
-            encap_response.used() - slot_mask.count_ones() as usize * digest_size;
-        for slot_id in 0..SPDM_MAX_SLOT_NUMBER {
-            if let Some(my_cert_chain) = self.common.provision_info.my_cert_chain[slot_id].as_ref()
-            {
-                let cert_chain_hash = crypto::hash::hash_all(
-                    self.common.negotiate_info.base_hash_sel,
-                    my_cert_chain.as_ref(),
-                );
-                let cert_chain_hash = if let Some(cert_chain_hash) = cert_chain_hash {
-                    cert_chain_hash
-                } else {
-                    self.encode_encap_error_response(
-                        SpdmErrorCode::SpdmErrorUnspecified,
-                        0,
-                        encap_response,
-                    );
-                    return;
-                };
-
-                let digest_end = digest_offset + digest_size;
-                encap_response.mut_used_slice()[digest_offset..digest_end]
-                    .copy_from_slice(cert_chain_hash.as_ref());
-                digest_offset = digest_end;
-            }
-        }
         debug!("!!! encap get_digests : complete\n");
     }
 }
-- 
2.43.0


From bb698a786c17225aa25ba0f64ac376cdc8ee6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 40/54] fix: nothing negotiated in an earlier connection
 outlives the Requester's next VERSION

---
 spdmlib/src/requester/get_version_req.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index 1a4dec9..57bcaa4 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -96,8 +96,11 @@ impl<'a> RequesterContext<'a> {
                             }
                         }
 
-                        // clear cache data
+                        // clear cache data, and what an earlier connection has negotiated
                         self.common.reset_runtime_info();
+                        let spdm_version_sel = self.common.negotiate_info.spdm_version_sel;
+                        self.common.reset_negotiate_info();
+                        self.common.negotiate_info.spdm_version_sel = spdm_version_sel;
 
                         self.common.append_message_a(send_buffer)?;
                         self.common.append_message_a(&receive_buffer[..used])?;
-- 
2.43.0


From 9e49f6d5147010c9982beb7e5d512a00cd644fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 41/54] fix: choose the version from the listed entries of
 VERSION only

---
 spdmlib/src/requester/get_version_req.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/get_version_req.rs b/spdmlib/src/requester/get_version_req.rs
index 57bcaa4..00a387d 100644
--- a/spdmlib/src/requester/get_version_req.rs
+++ b/spdmlib/src/requester/get_version_req.rs
@@ -60,7 +60,8 @@ impl<'a> RequesterContext<'a> {
                             mut versions,
                         } = version;
 
-                        versions
+                        // only what the Responder has listed, not the unused entries behind it
+                        versions[..version_number_entry_count as usize]
                             .sort_unstable_by(|a, b| b.version.get_u8().cmp(&a.version.get_u8()));
 
                         self.common.negotiate_info.spdm_version_sel = SpdmVersion::Unknown(0);
-- 
2.43.0


From 934f81d5925527ad05a9557a53251921ea9f0bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 42/54] fix: FINISH is not for PSK sessions

---
 spdmlib/src/responder/context.rs    | 2 ++
 spdmlib/src/responder/finish_rsp.rs | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index 876a3b4..ca26ac4 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -434,8 +434,10 @@ impl<'a> ResponderContext<'a> {
                             if let Some(session) =
                                 self.common.get_immutable_session_via_id(session_id)
                             {
+                                // a PSK session may have taken the identifier over
                                 if session.get_session_state()
                                     == SpdmSessionState::SpdmSessionHandshaking
+                                    && !session.get_use_psk()
                                 {
                                     return self.handle_spdm_finish(session_id, bytes);
                                 }
diff --git a/spdmlib/src/responder/finish_rsp.rs b/spdmlib/src/responder/finish_rsp.rs
index 3be74b7..3235f49 100644
--- a/spdmlib/src/responder/finish_rsp.rs
+++ b/spdmlib/src/responder/finish_rsp.rs
@@ -86,6 +86,15 @@ impl<'a> ResponderContext<'a> {
         }
         let finish_req = finish_req.unwrap();
 
+        if self
+            .common
+            .get_immutable_session_via_id(session_id)
+            .map_or(true, |session| session.get_use_psk())
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return Err(SPDM_STATUS_INVALID_MSG_FIELD);
+        }
+
         if self
             .common
             .append_message_f(false, session_id, &bytes[..4])
-- 
2.43.0


From 377db00f06468d31fce06b4bd6e75597a2b4a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:50 +0000
Subject: [PATCH 43/54] fix: refuse ENCAPSULATED_RESPONSE_ACK with an unknown
 payload type

---
 spdmlib/src/requester/encap_req.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index 5e72691..ba088a1 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -163,7 +163,7 @@ impl<'a> RequesterContext<'a> {
                     return Err(SPDM_STATUS_INVALID_MSG_SIZE);
                 }
             }
-            _ => {}
+            _ => return Err(SPDM_STATUS_INVALID_MSG_FIELD),
         }
 
         self.process_encapsulated_request(
-- 
2.43.0


From 21d0cb623f78366dce3fe8a55477a862fdb48616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:50 +0000
Subject: [PATCH 44/54] fix: require the negotiated version in FINISH_RSP

---
 spdmlib/src/requester/finish_req.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index 98e0fdc..b6caaac 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -208,6 +208,11 @@ impl<'a> RequesterContext<'a> {
 
         let mut reader = Reader::init(receive_buffer);
         match SpdmMessageHeader::read(&mut reader) {
+            Some(message_header)
+                if message_header.version != self.common.negotiate_info.spdm_version_sel =>
+            {
+                Err(SPDM_STATUS_INVALID_MSG_FIELD)
+            }
             Some(message_header) => match message_header.request_response_code {
                 SpdmRequestResponseCode::SpdmResponseFinishRsp => {
                     let finish_rsp =
-- 
2.43.0


From 5cad2d90cb5f14c1bf72455a9e24719bb096df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 45/54] fix: refuse a truncated GET_ENCAPSULATED_REQUEST

---
 spdmlib/src/responder/encap_rsp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/encap_rsp.rs b/spdmlib/src/responder/encap_rsp.rs
index 31c84c0..c28be03 100644
--- a/spdmlib/src/responder/encap_rsp.rs
+++ b/spdmlib/src/responder/encap_rsp.rs
@@ -14,7 +14,8 @@ use crate::{
     message::{
         SpdmDeliverEncapsulatedResponsePayload, SpdmEncapsulatedRequestPayload,
         SpdmEncapsulatedResponseAckPayload, SpdmEncapsulatedResponseAckPayloadType, SpdmErrorCode,
-        SpdmMessage, SpdmMessageHeader, SpdmMessagePayload, SpdmRequestResponseCode,
+        SpdmGetEncapsulatedRequestPayload, SpdmMessage, SpdmMessageHeader, SpdmMessagePayload,
+        SpdmRequestResponseCode,
     },
     protocol::{SpdmRequestCapabilityFlags, SpdmResponseCapabilityFlags, SpdmVersion},
 };
@@ -47,6 +48,10 @@ impl<'a> ResponderContext<'a> {
             self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
             return;
         };
+        if SpdmGetEncapsulatedRequestPayload::spdm_read(&mut self.common, &mut reader).is_none() {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorInvalidRequest, 0, writer);
+            return;
+        }
 
         let encapsulated_request = SpdmMessage {
             header: SpdmMessageHeader {
-- 
2.43.0


From 5a2db109853169fe5d75324a0d46369f4ec1174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 46/54] fix: refuse FINISH inside a PSK session there

---
 spdmlib/src/responder/context.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spdmlib/src/responder/context.rs b/spdmlib/src/responder/context.rs
index ca26ac4..c2917d0 100644
--- a/spdmlib/src/responder/context.rs
+++ b/spdmlib/src/responder/context.rs
@@ -248,7 +248,8 @@ impl<'a> ResponderContext<'a> {
                         .rsp_capabilities_sel
                         .contains(SpdmResponseCapabilityFlags::HANDSHAKE_IN_THE_CLEAR_CAP);
                 // only the handshake of a KEY_EXCHANGE session can be in the clear
-                if in_clear_text && !session.get_use_psk() {
+                let use_psk = session.get_use_psk();
+                if in_clear_text && !use_psk {
                     return Err(SPDM_STATUS_UNSUPPORTED_CAP);
                 }
 
@@ -262,6 +263,13 @@ impl<'a> ResponderContext<'a> {
                         SpdmRequestResponseCode::SpdmRequestDeliverEncapsulatedResponse => {
                             self.handle_deliver_encapsulated_reponse(session_id, bytes)
                         }
+                        // it would be answered in the clear
+                        SpdmRequestResponseCode::SpdmRequestFinish if use_psk => self
+                            .handle_error_request(
+                                SpdmErrorCode::SpdmErrorUnexpectedRequest,
+                                Some(session_id),
+                                bytes,
+                            ),
                         SpdmRequestResponseCode::SpdmRequestFinish => {
                             self.handle_spdm_finish(session_id, bytes)
                         }
-- 
2.43.0


From c134a805499eaa7aebcf90f2a035e98c503e38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 47/54] fix: a message that cannot be protected does not use up
 a sequence number

---
 spdmlib/src/common/session.rs | 41 +++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/spdmlib/src/common/session.rs b/spdmlib/src/common/session.rs
index a89962a..57321ee 100644
--- a/spdmlib/src/common/session.rs
+++ b/spdmlib/src/common/session.rs
@@ -797,6 +797,7 @@ impl SpdmSession {
         secured_buffer: &mut [u8],
         is_requester: bool,
     ) -> SpdmResult<usize> {
+        // a message that could not be protected leaves its sequence number to the next one
         match self.session_state {
             SpdmSessionState::SpdmSessionNotStarted => Err(SPDM_STATUS_INVALID_STATE_LOCAL),
             SpdmSessionState::SpdmSessionHandshaking => {
@@ -806,10 +807,12 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.request_direction,
                     );
-                    self.handshake_secret.request_direction.sequence_number =
-                        next_sequence_number(
-                            self.handshake_secret.request_direction.sequence_number,
-                        );
+                    if r.is_ok() {
+                        self.handshake_secret.request_direction.sequence_number =
+                            next_sequence_number(
+                                self.handshake_secret.request_direction.sequence_number,
+                            );
+                    }
                     r
                 } else {
                     let r = self.encode_msg(
@@ -817,10 +820,12 @@ impl SpdmSession {
                         secured_buffer,
                         &self.handshake_secret.response_direction,
                     );
-                    self.handshake_secret.response_direction.sequence_number =
-                        next_sequence_number(
-                            self.handshake_secret.response_direction.sequence_number,
-                        );
+                    if r.is_ok() {
+                        self.handshake_secret.response_direction.sequence_number =
+                            next_sequence_number(
+                                self.handshake_secret.response_direction.sequence_number,
+                            );
+                    }
                     r
                 }
             }
@@ -831,10 +836,12 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.request_direction,
                     );
-                    self.application_secret.request_direction.sequence_number =
-                        next_sequence_number(
-                            self.application_secret.request_direction.sequence_number,
-                        );
+                    if r.is_ok() {
+                        self.application_secret.request_direction.sequence_number =
+                            next_sequence_number(
+                                self.application_secret.request_direction.sequence_number,
+                            );
+                    }
                     r
                 } else {
                     let r = self.encode_msg(
@@ -842,10 +849,12 @@ impl SpdmSession {
                         secured_buffer,
                         &self.application_secret.response_direction,
                     );
-                    self.application_secret.response_direction.sequence_number =
-                        next_sequence_number(
-                            self.application_secret.response_direction.sequence_number,
-                        );
+                    if r.is_ok() {
+                        self.application_secret.response_direction.sequence_number =
+                            next_sequence_number(
+                                self.application_secret.response_direction.sequence_number,
+                            );
+                    }
                     r
                 }
             }
-- 
2.43.0


From 305ae3e0eedae7e69602490734dc218a3040b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 48/54] fix: refuse a vendor-defined payload longer than its
 buffer

---
 spdmlib/src/message/vendor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spdmlib/src/message/vendor.rs b/spdmlib/src/message/vendor.rs
index be9fd74..ac38a5e 100644
--- a/spdmlib/src/message/vendor.rs
+++ b/spdmlib/src/message/vendor.rs
@@ -89,6 +89,9 @@ pub struct VendorDefinedReqPayloadStruct {
 }
 impl Codec for VendorDefinedReqPayloadStruct {
     fn encode(&self, bytes: &mut Writer) -> Result<usize, codec::EncodeErr> {
+        if self.req_length as usize > self.vendor_defined_req_payload.len() {
+            return Err(codec::EncodeErr);
+        }
         let mut cnt = 0usize;
         cnt += self.req_length.encode(bytes)?;
         for d in self
@@ -104,6 +107,9 @@ impl Codec for VendorDefinedReqPayloadStruct {
     fn read(r: &mut Reader) -> Option<VendorDefinedReqPayloadStruct> {
         let req_length = u16::read(r)?;
         let mut vendor_defined_req_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
+        if req_length as usize > vendor_defined_req_payload.len() {
+            return None;
+        }
         for d in vendor_defined_req_payload
             .iter_mut()
             .take(req_length as usize)
@@ -125,6 +131,9 @@ pub struct VendorDefinedRspPayloadStruct {
 
 impl Codec for VendorDefinedRspPayloadStruct {
     fn encode(&self, bytes: &mut Writer) -> Result<usize, codec::EncodeErr> {
+        if self.rsp_length as usize > self.vendor_defined_rsp_payload.len() {
+            return Err(codec::EncodeErr);
+        }
         let mut cnt = 0usize;
         cnt += self.rsp_length.encode(bytes)?;
         for d in self
@@ -140,6 +149,9 @@ impl Codec for VendorDefinedRspPayloadStruct {
     fn read(r: &mut Reader) -> Option<VendorDefinedRspPayloadStruct> {
         let rsp_length = u16::read(r)?;
         let mut vendor_defined_rsp_payload = [0u8; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE];
+        if rsp_length as usize > vendor_defined_rsp_payload.len() {
+            return None;
+        }
         for d in vendor_defined_rsp_payload
             .iter_mut()
             .take(rsp_length as usize)
-- 
2.43.0


From 88957503955ca57e686b115487aa87c4f64a9394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 49/54] fix: a certificate or digests request that is refused
 stays out of the transcript

---
 spdmlib/src/responder/certificate_rsp.rs | 26 ++++++++++--------------
 spdmlib/src/responder/digest_rsp.rs      | 26 ++++++++++--------------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index 29217bc..5fc3814 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -65,20 +65,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let get_certificate = get_certificate.unwrap();
         let slot_id = get_certificate.slot_id as usize;
         if slot_id >= SPDM_MAX_SLOT_NUMBER {
@@ -138,7 +124,17 @@ impl<'a> ResponderContext<'a> {
 
         match session_id {
             None => {
-                if self.common.append_message_b(writer.used_slice()).is_err() {
+                // a request that is refused is no part of the transcript
+                if self.response_too_large(writer.used()) {
+                    return;
+                }
+
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .is_err()
+                    || self.common.append_message_b(writer.used_slice()).is_err()
+                {
                     self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 }
             }
diff --git a/spdmlib/src/responder/digest_rsp.rs b/spdmlib/src/responder/digest_rsp.rs
index a8cb426..75725a3 100644
--- a/spdmlib/src/responder/digest_rsp.rs
+++ b/spdmlib/src/responder/digest_rsp.rs
@@ -64,20 +64,6 @@ impl<'a> ResponderContext<'a> {
             return;
         }
 
-        match session_id {
-            None => {
-                if self
-                    .common
-                    .append_message_b(&bytes[..reader.used()])
-                    .is_err()
-                {
-                    self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-                    return;
-                }
-            }
-            Some(_session_id) => {}
-        }
-
         let digest_size = self.common.negotiate_info.base_hash_sel.get_size();
 
         let mut slot_mask = 0u8;
@@ -136,7 +122,17 @@ impl<'a> ResponderContext<'a> {
 
         match session_id {
             None => {
-                if self.common.append_message_b(writer.used_slice()).is_err() {
+                // a request that is refused is no part of the transcript
+                if self.response_too_large(writer.used()) {
+                    return;
+                }
+
+                if self
+                    .common
+                    .append_message_b(&bytes[..reader.used()])
+                    .is_err()
+                    || self.common.append_message_b(writer.used_slice()).is_err()
+                {
                     self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
                 }
             }
-- 
2.43.0


From 08de14a5becb9795ef0634d5a8289b65c1225bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 50/54] fix: certificate portions fit the requester's transfer
 size

---
 spdmlib/src/responder/certificate_rsp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spdmlib/src/responder/certificate_rsp.rs b/spdmlib/src/responder/certificate_rsp.rs
index 5fc3814..a5656cc 100644
--- a/spdmlib/src/responder/certificate_rsp.rs
+++ b/spdmlib/src/responder/certificate_rsp.rs
@@ -84,6 +84,11 @@ impl<'a> ResponderContext<'a> {
         if length > MAX_SPDM_CERT_PORTION_LEN as u16 {
             length = MAX_SPDM_CERT_PORTION_LEN as u16;
         }
+        // what is left of the requester's transfer size once the fixed fields are taken off
+        let transfer_size = self.common.negotiate_info.req_data_transfer_size_sel;
+        if transfer_size != 0 && length as u32 > transfer_size.saturating_sub(8) {
+            length = transfer_size.saturating_sub(8) as u16;
+        }
 
         let offset = get_certificate.offset;
         if offset > my_cert_chain.data_size {
-- 
2.43.0


From 3752ee12a9525d3e6669498505844e3b1d81a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 51/54] fix: a measurement request that is refused stays out of
 the transcript

---
 spdmlib/src/responder/measurement_rsp.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/spdmlib/src/responder/measurement_rsp.rs b/spdmlib/src/responder/measurement_rsp.rs
index e627a7d..e2d64e2 100644
--- a/spdmlib/src/responder/measurement_rsp.rs
+++ b/spdmlib/src/responder/measurement_rsp.rs
@@ -108,15 +108,6 @@ impl<'a> ResponderContext<'a> {
         let content_changed = self.common.runtime_info.content_changed;
         let base_asym_sel = self.common.negotiate_info.base_asym_sel;
 
-        if self
-            .common
-            .append_message_m(session_id, &bytes[..reader.used()])
-            .is_err()
-        {
-            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
-            return;
-        }
-
         let real_measurement_block_count =
             if let Some(measurement_record) = secret::measurement::measurement_collection(
                 spdm_version_sel,
@@ -219,6 +210,20 @@ impl<'a> ResponderContext<'a> {
         }
         let used = writer.used();
 
+        // a request that is refused is no part of the transcript
+        if self.response_too_large(used) {
+            return;
+        }
+
+        if self
+            .common
+            .append_message_m(session_id, &bytes[..reader.used()])
+            .is_err()
+        {
+            self.write_spdm_error(SpdmErrorCode::SpdmErrorUnspecified, 0, writer);
+            return;
+        }
+
         // generat signature
         if get_measurements
             .measurement_attributes
-- 
2.43.0


From d1528388e53d6ec244cc6f1f08e3724a379df542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:04 +0000
Subject: [PATCH 52/54] fix: the largest CTExponent makes a long wait, not none

---
 spdmlib/src/requester/context.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index 3573988..f3645d2 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -119,8 +119,8 @@ impl<'a> RequesterContext<'a> {
         info!("receive_message!\n");
 
         let timeout: usize = if crypto_request {
-            2usize
-                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32)
+            1usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32 + 1)
                 .unwrap_or(usize::MAX)
         } else {
             ST1
@@ -145,8 +145,8 @@ impl<'a> RequesterContext<'a> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
-            2usize
-                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32)
+            1usize
+                .checked_shl(self.common.negotiate_info.rsp_ct_exponent_sel as u32 + 1)
                 .unwrap_or(usize::MAX)
         } else {
             ST1
-- 
2.43.0


From b350945b41d27c464b5b7e33dc178069e912068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:29 +0000
Subject: [PATCH 53/54] fix: an application message is not the response to an
 SPDM request

---
 spdmlib/src/common/mod.rs                     | 20 +++++++++---
 spdmlib/src/requester/context.rs              | 31 +++++++++++++++++--
 spdmlib/src/requester/encap_req.rs            |  4 +--
 spdmlib/src/requester/end_session_req.rs      |  2 +-
 spdmlib/src/requester/finish_req.rs           |  2 +-
 spdmlib/src/requester/get_certificate_req.rs  |  2 +-
 spdmlib/src/requester/get_digests_req.rs      |  2 +-
 spdmlib/src/requester/get_measurements_req.rs |  2 +-
 spdmlib/src/requester/heartbeat_req.rs        |  2 +-
 spdmlib/src/requester/key_update_req.rs       |  2 +-
 spdmlib/src/requester/psk_finish_req.rs       |  2 +-
 spdmlib/src/requester/vendor_req.rs           |  2 +-
 12 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/spdmlib/src/common/mod.rs b/spdmlib/src/common/mod.rs
index 102a02a..82c08df 100644
--- a/spdmlib/src/common/mod.rs
+++ b/spdmlib/src/common/mod.rs
@@ -1026,6 +1026,19 @@ impl<'a> SpdmContext<'a> {
         transport_buffer: &[u8],
         receive_buffer: &mut [u8],
     ) -> SpdmResult<usize> {
+        let (used, _) =
+            self.decode_secured_message_kind(session_id, transport_buffer, receive_buffer)?;
+
+        Ok(used)
+    }
+
+    // Also return true if it is an application message.
+    pub(crate) fn decode_secured_message_kind(
+        &mut self,
+        session_id: u32,
+        transport_buffer: &[u8],
+        receive_buffer: &mut [u8],
+    ) -> SpdmResult<(usize, bool)> {
         let mut encoded_receive_buffer = [0u8; config::RECEIVER_BUFFER_SIZE];
         let (used, secured_message) = self
             .transport_encap
@@ -1046,11 +1059,8 @@ impl<'a> SpdmContext<'a> {
             false,
         )?;
 
-        let used = self
-            .transport_encap
-            .decap_app(&app_buffer[0..decode_size], receive_buffer)?;
-
-        Ok(used.0)
+        self.transport_encap
+            .decap_app(&app_buffer[0..decode_size], receive_buffer)
     }
 }
 
diff --git a/spdmlib/src/requester/context.rs b/spdmlib/src/requester/context.rs
index f3645d2..3f42c5f 100644
--- a/spdmlib/src/requester/context.rs
+++ b/spdmlib/src/requester/context.rs
@@ -5,7 +5,9 @@
 use crate::common::ST1;
 use crate::common::{self, SpdmDeviceIo, SpdmTransportEncap};
 use crate::config;
-use crate::error::{SpdmResult, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL};
+use crate::error::{
+    SpdmResult, SPDM_STATUS_INVALID_MSG_FIELD, SPDM_STATUS_RECEIVE_FAIL, SPDM_STATUS_SEND_FAIL,
+};
 use crate::protocol::*;
 
 pub struct RequesterContext<'a> {
@@ -142,6 +144,31 @@ impl<'a> RequesterContext<'a> {
         receive_buffer: &mut [u8],
         crypto_request: bool,
     ) -> SpdmResult<usize> {
+        let (used, _) =
+            self.receive_secured_message_kind(session_id, receive_buffer, crypto_request)?;
+
+        Ok(used)
+    }
+
+    // The response to an SPDM request is never an application message.
+    pub(crate) fn receive_secured_spdm_message(
+        &mut self,
+        session_id: u32,
+        receive_buffer: &mut [u8],
+        crypto_request: bool,
+    ) -> SpdmResult<usize> {
+        match self.receive_secured_message_kind(session_id, receive_buffer, crypto_request)? {
+            (used, false) => Ok(used),
+            (_, true) => Err(SPDM_STATUS_INVALID_MSG_FIELD),
+        }
+    }
+
+    fn receive_secured_message_kind(
+        &mut self,
+        session_id: u32,
+        receive_buffer: &mut [u8],
+        crypto_request: bool,
+    ) -> SpdmResult<(usize, bool)> {
         info!("receive_secured_message!\n");
 
         let timeout: usize = if crypto_request {
@@ -161,6 +188,6 @@ impl<'a> RequesterContext<'a> {
             .map_err(|_| SPDM_STATUS_RECEIVE_FAIL)?;
 
         self.common
-            .decode_secured_message(session_id, &transport_buffer[..used], receive_buffer)
+            .decode_secured_message_kind(session_id, &transport_buffer[..used], receive_buffer)
     }
 }
diff --git a/spdmlib/src/requester/encap_req.rs b/spdmlib/src/requester/encap_req.rs
index ba088a1..348e00f 100644
--- a/spdmlib/src/requester/encap_req.rs
+++ b/spdmlib/src/requester/encap_req.rs
@@ -99,7 +99,7 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_request(&mut self, session_id: u32) -> SpdmResult {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
@@ -123,7 +123,7 @@ impl<'a> RequesterContext<'a> {
 
     pub fn receive_encapsulated_response_ack(&mut self, session_id: u32) -> SpdmResult<bool> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let size = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let size = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         let mut reader = Reader::init(&receive_buffer[..size]);
 
         let header = SpdmMessageHeader::read(&mut reader).ok_or(SPDM_STATUS_INVALID_MSG_SIZE)?;
diff --git a/spdmlib/src/requester/end_session_req.rs b/spdmlib/src/requester/end_session_req.rs
index 6260369..1594e4f 100644
--- a/spdmlib/src/requester/end_session_req.rs
+++ b/spdmlib/src/requester/end_session_req.rs
@@ -23,7 +23,7 @@ impl<'a> RequesterContext<'a> {
         self.send_secured_message(session_id, &send_buffer[..used], false)?;
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_end_session_response(session_id, &receive_buffer[..used])
     }
 
diff --git a/spdmlib/src/requester/finish_req.rs b/spdmlib/src/requester/finish_req.rs
index b6caaac..0617959 100644
--- a/spdmlib/src/requester/finish_req.rs
+++ b/spdmlib/src/requester/finish_req.rs
@@ -79,7 +79,7 @@ impl<'a> RequesterContext<'a> {
         let res = if in_clear_text {
             self.receive_message(&mut receive_buffer, false)
         } else {
-            self.receive_secured_message(session_id, &mut receive_buffer, false)
+            self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)
         };
         if res.is_err() {
             let _ = self
diff --git a/spdmlib/src/requester/get_certificate_req.rs b/spdmlib/src/requester/get_certificate_req.rs
index 4e648e5..4b7b75d 100644
--- a/spdmlib/src/requester/get_certificate_req.rs
+++ b/spdmlib/src/requester/get_certificate_req.rs
@@ -37,7 +37,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
diff --git a/spdmlib/src/requester/get_digests_req.rs b/spdmlib/src/requester/get_digests_req.rs
index f890666..cfd791b 100644
--- a/spdmlib/src/requester/get_digests_req.rs
+++ b/spdmlib/src/requester/get_digests_req.rs
@@ -29,7 +29,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
diff --git a/spdmlib/src/requester/get_measurements_req.rs b/spdmlib/src/requester/get_measurements_req.rs
index eec0abf..7570d3b 100644
--- a/spdmlib/src/requester/get_measurements_req.rs
+++ b/spdmlib/src/requester/get_measurements_req.rs
@@ -53,7 +53,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, true)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, true)?
             }
             None => self.receive_message(&mut receive_buffer, true)?,
         };
diff --git a/spdmlib/src/requester/heartbeat_req.rs b/spdmlib/src/requester/heartbeat_req.rs
index 33eef0e..5504103 100644
--- a/spdmlib/src/requester/heartbeat_req.rs
+++ b/spdmlib/src/requester/heartbeat_req.rs
@@ -21,7 +21,7 @@ impl<'a> RequesterContext<'a> {
 
         // Receive
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
         self.handle_spdm_heartbeat_response(session_id, &receive_buffer[..used])
     }
 
diff --git a/spdmlib/src/requester/key_update_req.rs b/spdmlib/src/requester/key_update_req.rs
index e475d96..338b9c8 100644
--- a/spdmlib/src/requester/key_update_req.rs
+++ b/spdmlib/src/requester/key_update_req.rs
@@ -39,7 +39,7 @@ impl<'a> RequesterContext<'a> {
         let update_responder = key_update_operation == SpdmKeyUpdateOperation::SpdmUpdateAllKeys;
         session.create_data_secret_update(spdm_version_sel, update_requester, update_responder)?;
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let used = self.receive_secured_message(session_id, &mut receive_buffer, false)?;
+        let used = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?;
 
         self.handle_spdm_key_update_op_response(
             session_id,
diff --git a/spdmlib/src/requester/psk_finish_req.rs b/spdmlib/src/requester/psk_finish_req.rs
index a33051e..acb69f5 100644
--- a/spdmlib/src/requester/psk_finish_req.rs
+++ b/spdmlib/src/requester/psk_finish_req.rs
@@ -47,7 +47,7 @@ impl<'a> RequesterContext<'a> {
         }
 
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
-        let res = self.receive_secured_message(session_id, &mut receive_buffer, false);
+        let res = self.receive_secured_spdm_message(session_id, &mut receive_buffer, false);
         if res.is_err() {
             let _ = self
                 .common
diff --git a/spdmlib/src/requester/vendor_req.rs b/spdmlib/src/requester/vendor_req.rs
index acaaa28..9147318 100644
--- a/spdmlib/src/requester/vendor_req.rs
+++ b/spdmlib/src/requester/vendor_req.rs
@@ -51,7 +51,7 @@ impl<'a> RequesterContext<'a> {
         let mut receive_buffer = [0u8; config::MAX_SPDM_MSG_SIZE];
         let receive_used = match session_id {
             Some(session_id) => {
-                self.receive_secured_message(session_id, &mut receive_buffer, false)?
+                self.receive_secured_spdm_message(session_id, &mut receive_buffer, false)?
             }
             None => self.receive_message(&mut receive_buffer, false)?,
         };
-- 
2.43.0


From 18ebd35e718081bfbde42ca6cca5edff75429d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:15 +0000
Subject: [PATCH 54/54] fix: the DMTF opaque data identifier is four characters
 long

---
 spdmlib/src/common/opaque.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdmlib/src/common/opaque.rs b/spdmlib/src/common/opaque.rs
index e15ad78..c3a6e9d 100644
--- a/spdmlib/src/common/opaque.rs
+++ b/spdmlib/src/common/opaque.rs
@@ -17,7 +17,7 @@ pub const MAX_SPDM_OPAQUE_SIZE: usize = 1024;
 pub const MAX_SECURE_SPDM_VERSION_COUNT: usize = 0x02;
 pub const MAX_OPAQUE_LIST_ELEMENTS_COUNT: usize = 3;
 
-pub const DMTF_SPEC_ID: u32 = 0x444D546;
+pub const DMTF_SPEC_ID: u32 = 0x444D5446;
 pub const DMTF_OPAQUE_VERSION: u8 = 0x01;
 pub const SM_DATA_VERSION: u8 = 0x01;
 pub const DMTF_ID: u8 = 0x00;
-- 
2.43.0

