From 058ccb49935bdf6c0286251815a91e9bc1b07338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:54 +0000
Subject: [PATCH 01/22] verification hooks behind cfg(verif_hooks)

---
 src/connection.rs           | 27 +++++++++++++++
 src/lib.rs                  | 17 +++++++++
 src/packet.rs               | 69 +++++++++++++++++++++++++++++++++++++
 src/quictls/mod.rs          |  9 ++++-
 src/routing.rs              | 45 ++++++++++++++++++++++++
 src/transport_parameters.rs | 19 ++++++++++
 6 files changed, 185 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index 060251d..785d0f6 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -246,3 +246,30 @@ impl Connection {
         self.version.get_version_field_val()
     }
 }
+
+#[cfg(verif_hooks)]
+impl Connection {
+    /// Installs traffic secrets, as a completed handshake step would.
+    pub fn verif_set_secrets(
+        &mut self,
+        pn_space: PacketNumberSpace,
+        local: Option<quictls::Secrets>,
+        remote: Option<quictls::Secrets>,
+    ) {
+        let info = self.borrow_mut_pn_info(pn_space);
+        info.local_tls_secrets = local;
+        info.remote_tls_secrets = remote;
+    }
+    /// Sets the largest packet number of ours the peer is known to have received.
+    pub fn verif_set_largest_local_ack(&mut self, pn_space: PacketNumberSpace, pn: Option<u64>) {
+        self.borrow_mut_pn_info(pn_space).largest_local_ack = pn;
+    }
+    /// Sets the largest packet number received from the peer.
+    pub fn verif_set_largest_remote_ack(&mut self, pn_space: PacketNumberSpace, pn: Option<u64>) {
+        self.borrow_mut_pn_info(pn_space).largest_remote_ack = pn;
+    }
+    /// Sets the most recently issued packet number.
+    pub fn verif_set_next_pn(&mut self, pn_space: PacketNumberSpace, pn: u64) {
+        self.borrow_mut_pn_info(pn_space).next_pn = pn;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 206771c..3b004d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 mod connection;
 mod error;
 mod frame;
@@ -11,3 +12,19 @@ mod transport_parameters;
 mod utils;
 mod version;
 pub use interface::*;
+
+// Re-exports for out-of-tree verification harnesses; compiled only with
+// RUSTFLAGS="--cfg verif_hooks".
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::connection::*;
+    pub use crate::error::*;
+    pub use crate::frame::*;
+    pub use crate::packet::*;
+    pub use crate::quictls::verif_hooks as tls;
+    pub use crate::routing::verif_hooks as routing;
+    pub use crate::transport_parameters::*;
+    pub use crate::utils::prelude::{DecodeFromBytes, FloorLog2, FromDatagram};
+    pub use crate::utils::*;
+    pub use crate::version::*;
+}
diff --git a/src/packet.rs b/src/packet.rs
index 8e0aeb6..cdda776 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -980,3 +980,72 @@ mod test {
     #[test]
     fn test_long_packet_header() {}
 }
+
+#[cfg(verif_hooks)]
+impl PacketInitial {
+    pub fn verif_serialize(&self, connection: &Connection) -> error::Result<Vec<u8>> {
+        self.serialize(connection)
+    }
+    pub fn verif_token(&self) -> &[u8] {
+        &self.token
+    }
+}
+
+#[cfg(verif_hooks)]
+impl PacketHandshake {
+    pub fn verif_serialize(&self, connection: &Connection) -> error::Result<Vec<u8>> {
+        self.serialize(connection)
+    }
+}
+
+#[cfg(verif_hooks)]
+impl PacketVersionNegotiation {
+    pub fn verif_header(&self) -> &LongPacketHeader {
+        &self.header
+    }
+    pub fn verif_supported_versions(&self) -> &[u32] {
+        &self.supported_versions
+    }
+}
+
+#[cfg(verif_hooks)]
+impl LongPacketHeader {
+    pub fn verif_version_negotiation(&self) -> Option<&VersionNegotiationHeaderUnionFields> {
+        self.version_negotiation.as_ref()
+    }
+}
+
+/// What a decoded, unprotected packet says: unprotected header bytes, full packet number,
+/// its truncated encoding, and the frames.
+#[cfg(verif_hooks)]
+impl Packet {
+    pub fn verif_parts(&self) -> Option<(Vec<u8>, u64, &[u8], &[Frame])> {
+        match self {
+            Packet::Initial(x) => Some((
+                x.header.to_bytes(),
+                x.packet_number,
+                &x.packet_number_bytes[..],
+                &x.packet_payload[..],
+            )),
+            Packet::ZeroRtt(x) => Some((
+                x.header.to_bytes(),
+                x.packet_number,
+                &x.packet_number_bytes[..],
+                &x.packet_payload[..],
+            )),
+            Packet::Handshake(x) => Some((
+                x.header.to_bytes(),
+                x.packet_number,
+                &x.packet_number_bytes[..],
+                &x.packet_payload[..],
+            )),
+            Packet::OneRtt(x) => Some((
+                x.header.to_bytes(),
+                x.packet_number,
+                &x.packet_number_bytes[..],
+                &x.packet_payload[..],
+            )),
+            _ => None,
+        }
+    }
+}
diff --git a/src/quictls/mod.rs b/src/quictls/mod.rs
index 3fd1d88..af289fe 100644
--- a/src/quictls/mod.rs
+++ b/src/quictls/mod.rs
@@ -1,4 +1,11 @@
 mod cipher_suite;
 mod secrets;
 pub mod utils;
-pub use secrets::Secrets;
\ No newline at end of file
+pub use secrets::Secrets;
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use super::cipher_suite::*;
+    pub use super::secrets::Secrets;
+    pub use super::utils::get_connection_id;
+}
diff --git a/src/routing.rs b/src/routing.rs
index 92f0617..1031591 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -196,3 +196,48 @@ impl InternalQuicSocket {
         self.streams.write().unwrap().remove(&cid);
     }
 }
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub struct Socket(InternalQuicSocket);
+
+    impl Socket {
+        pub fn bind(addr: SocketAddr) -> std::io::Result<Self> {
+            Ok(Socket(InternalQuicSocket::bind(addr)?))
+        }
+        /// Registers a connection under `key`, as accepting one does.
+        pub fn insert(&self, key: U160, connection: Connection) {
+            self.0
+                .streams
+                .write()
+                .unwrap()
+                .insert(key, InternalQuicStream::from_connection(connection));
+        }
+        pub fn contains(&self, key: U160) -> bool {
+            self.0.streams.read().unwrap().contains_key(&key)
+        }
+        pub fn len(&self) -> usize {
+            self.0.streams.read().unwrap().len()
+        }
+        /// Next datagram queued for the connection under `key`.
+        pub fn queued(&self, key: U160) -> Option<Vec<u8>> {
+            let streams = self.0.streams.read().unwrap();
+            let stream = streams.get(&key)?;
+            stream.receiver.try_recv().ok().map(|d| d.data)
+        }
+        pub fn route(&self, data: Vec<u8>, addr: SocketAddr) -> error::Result<()> {
+            self.0.route_datagram(InternalDatagram { data, addr })
+        }
+        pub fn recv_new_initial(&self) -> std::io::Result<(Vec<u8>, SocketAddr)> {
+            self.0.recv_new_initial_datagram().map(|d| (d.data, d.addr))
+        }
+        pub fn packets(&self, data: Vec<u8>, addr: SocketAddr) -> error::Result<Vec<Packet>> {
+            self.0.packets_from_datagram(&InternalDatagram { data, addr })
+        }
+        pub fn drop_connection(&self, key: U160) {
+            self.0.drop_connection(key)
+        }
+    }
+}
diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 92941a0..78635b9 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -90,3 +90,22 @@ impl TransportParameter {
         Ok([&identifier_bytes[..], &length_bytes[..], &value_bytes[..]].concat())
     }
 }
+
+#[cfg(verif_hooks)]
+impl PreferredAddress {
+    pub fn verif_new(
+        ipv4_address: Ipv4Addr,
+        ipv4_port: u16,
+        ipv6_address: Ipv6Addr,
+        ipv6_port: u16,
+        connection_id: Vec<u8>,
+    ) -> Self {
+        Self {
+            ipv4_address,
+            ipv4_port,
+            ipv6_address,
+            ipv6_port,
+            connection_id,
+        }
+    }
+}
-- 
2.43.0


From 9c0bf9d84464e22b4c4acab8b34463e0ef2a7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:12 +0000
Subject: [PATCH 02/22] fix: decode 4 and 8 byte variable-length integers from
 slices

The two length bits are the log2 of the encoded length, not the number of
following bytes, so decode_var_int misread every 4 and 8 byte integer.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 922da40..639fd7d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -324,7 +324,7 @@ pub fn decode_var_int(data: &[u8]) -> error::Result<(u64, usize)> {
     if data.len() == 0 {
         return Err(Error::InternalError("missing first byte for varint"));
     }
-    let n_shifts = usize::from(data[0] >> 6);
+    let n_shifts = (1usize << usize::from(data[0] >> 6)) - 1;
     if data.len() < n_shifts + 1 {
         return Err(Error::InternalError("not enough bytes for varint"));
     }
-- 
2.43.0


From 75e8a3b6dabd3518132a9b17cf60730268d0436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:12 +0000
Subject: [PATCH 03/22] fix: read only the declared length of CRYPTO data

The offset was added to the number of bytes read, so CRYPTO frames with a
nonzero offset swallowed the following frames or were rejected.
---
 src/frame.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 360cfaf..ffc6a91 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -222,8 +222,7 @@ impl FrameCrypto {
     {
         let offset = var_int_from_stream(datagram)?;
         let length = var_int_from_stream(datagram)?;
-        let total_size = (length + offset) as usize;
-        let crypto_data = var_bytes_from_stream(datagram, total_size)?;
+        let crypto_data = var_bytes_from_stream(datagram, length as usize)?;
         Ok(Self {
             offset,
             length,
-- 
2.43.0


From 79b961be9db102dafbd3f1a7bee5bdedd660c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:12 +0000
Subject: [PATCH 04/22] fix: honour the OFF and LEN bits of STREAM frames

The masked bits were compared with 1 and never matched, so the offset and
length fields were delivered as stream data together with all later frames.
---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index ffc6a91..705f0e7 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -297,8 +297,8 @@ impl FrameStream {
     where
         T: Iterator<Item = error::Result<u8>>,
     {
-        let has_offset = type_byte & 0x04 == 1;
-        let has_length = type_byte & 0x02 == 1;
+        let has_offset = type_byte & 0x04 != 0;
+        let has_length = type_byte & 0x02 != 0;
         let is_fin = type_byte & 0x01 == 1;
         let stream_id = var_int_from_stream(datagram)?;
         let offset = if has_offset {
-- 
2.43.0


From b1c7b30c1d439c15c361f00d772247f8c803ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:12 +0000
Subject: [PATCH 05/22] fix: reject frame types above 0xff instead of
 truncating them

A frame type such as 0x4100 was cut to its low byte and taken for a known
frame.
---
 src/frame.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index 705f0e7..aa091da 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -798,7 +798,10 @@ where
     T: Iterator<Item = error::Result<u8>>,
 {
     let type_byte = var_int_from_stream(datagram)?;
-    let type_byte = (type_byte & (1 << 8) - 1) as u8;
+    if type_byte > u8::MAX as u64 {
+        return Err(Error::InternalError("Invalid type byte"));
+    }
+    let type_byte = type_byte as u8;
     match type_byte {
         0x00 => Ok(Frame::Padding),
         0x01 => Ok(Frame::Ping),
-- 
2.43.0


From 6fac8577537f15d3d3230a67b8adfadba1b74dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:11 +0000
Subject: [PATCH 06/22] fix: encode packet numbers with enough bytes to be
 recovered

The encoding covered only the distance to the largest acknowledged packet
number, not twice that distance, and could exceed four bytes.
---
 src/connection.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index 785d0f6..2b7791d 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -48,8 +48,14 @@ fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
                 ));
             }
             let diff = pn - x;
-            let bit_len = diff.floor_log2()?;
+            // must represent more than twice the range (www.rfc-editor.org/rfc/rfc9000#section-17.1)
+            let bit_len = diff.floor_log2()? + 1;
             let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };
+            if byte_len > 4 {
+                return Err(Error::InternalError(
+                    "too few bytes to encode truncated packet number",
+                ));
+            }
             Ok(pn.to_be_bytes()[(8 - byte_len)..].to_vec())
         }
     }
-- 
2.43.0


From 40d750918bd20d23b45931d7d27d647ab2cdd0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:11 +0000
Subject: [PATCH 07/22] fix: recover packet numbers relative to the largest one
 received

The high half of the largest number was compared and shifts were in bits
rather than bytes; follow RFC 9000 appendix A.3.
---
 src/connection.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 2b7791d..0a9dca3 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -209,15 +209,18 @@ impl Connection {
         let mut tp_pn_bytes = [0u8; 4];
         tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
         let tp_pn = u32::from_be_bytes(tp_pn_bytes);
-        // TODO handle overflow
+        // www.rfc-editor.org/rfc/rfc9000#appendix-A.3
         let rv = if let Some(x) = largest_ack {
-            let mut la_bytes = [0u8; 4];
-            la_bytes.clone_from_slice(&x.to_be_bytes()[..4]);
-            let tp_la = u32::from_be_bytes(la_bytes);
-            if tp_pn > tp_la {
-                ((x >> pn_length) << pn_length) + u64::from(tp_pn)
+            let expected_pn = x + 1;
+            let pn_win = 1u64 << (pn_length * 8);
+            let pn_hwin = pn_win / 2;
+            let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
+            if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1 << 62) - pn_win {
+                candidate_pn + pn_win
+            } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
+                candidate_pn - pn_win
             } else {
-                (((x >> pn_length) + 1) << pn_length) + u64::from(tp_pn)
+                candidate_pn
             }
         } else {
             u64::from(tp_pn)
-- 
2.43.0


From a02e28092dfadd0781cea9d1540e7f2aa5cdfb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:11 +0000
Subject: [PATCH 08/22] fix: do not issue packet numbers above 2^62-1

---
 src/connection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/connection.rs b/src/connection.rs
index 0a9dca3..ff99b62 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -31,6 +31,8 @@ impl PacketNumberSpaceInfo {
     }
 }
 
+const MAX_PACKET_NUMBER: u64 = (1 << 62) - 1;
+
 fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
     match largest_ack {
         None => {
@@ -244,6 +246,9 @@ impl Connection {
             PacketNumberSpace::Handshake => &mut self.handshake_pn_info,
             PacketNumberSpace::Application => &mut self.application_pn_info,
         };
+        if pn_info.next_pn >= MAX_PACKET_NUMBER {
+            return Err(Error::InternalError("packet numbers exhausted"));
+        }
         pn_info.next_pn += 1;
         Ok((
             pn_info.next_pn,
-- 
2.43.0


From f6f5b83b331a1ebc3c42437560f7647398bc932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:12 +0000
Subject: [PATCH 09/22] fix: report truncated packets instead of panicking

A datagram whose header is cut short made decode_next_packet panic.
---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index cdda776..b39376f 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -773,7 +773,7 @@ where
     T: Iterator<Item = error::Result<u8>> + Clone,
 {
     let mut header_stream = stream.clone();
-    let header = next_header_from_stream(&mut header_stream).unwrap();
+    let header = next_header_from_stream(&mut header_stream)?;
     match header {
         PacketHeader::Short(_) => {
             let res = PacketOneRtt::from_stream(stream, connection)?;
-- 
2.43.0


From 0c6d5ce1961e54eb2127e27cc590606f0ffb8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:12 +0000
Subject: [PATCH 10/22] fix: reject length fields shorter than the packet
 number

The subtraction underflowed and panicked on such packets.
---
 src/packet.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index b39376f..d7f6136 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -34,6 +34,13 @@ fn xor_pn_protection(pn_bytes: &mut [u8], mask: &[u8; 5]) -> error::Result<()> {
     }
 }
 
+/// Length of the protected payload given the value of the length field
+fn protected_payload_length(length: u64, packet_number_length: usize) -> error::Result<usize> {
+    (length as usize)
+        .checked_sub(packet_number_length)
+        .ok_or(Error::InternalError("length does not cover packet number"))
+}
+
 impl LongPacketHeader {
     const HEADER_BITS: u8 = 0xc0;
     pub fn from_connection(connection: &Connection, header_byte: u8) -> error::Result<Self> {
@@ -269,7 +276,7 @@ impl PacketInitial {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, protected_payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -369,7 +376,7 @@ impl PacketZeroRtt {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, protected_payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -450,7 +457,7 @@ impl PacketHandshake {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, protected_payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
-- 
2.43.0


From 39d457e559cbf29d788399abfdcfb65743e7fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:12 +0000
Subject: [PATCH 11/22] fix: reject protected payloads shorter than the tag

They made decryption panic.
---
 src/quictls/cipher_suite.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quictls/cipher_suite.rs b/src/quictls/cipher_suite.rs
index d8cb9b4..0c6bfdf 100644
--- a/src/quictls/cipher_suite.rs
+++ b/src/quictls/cipher_suite.rs
@@ -151,6 +151,9 @@ fn internal_decrypt_aes_128_gcm(
     associated_data: &[u8],
     payload: &[u8],
 ) -> error::Result<Vec<u8>> {
+    if payload.len() < AES_128_GCM_TAG_LEN {
+        return Err(Error::InternalError("payload too short for aes_128_gcm tag"));
+    }
     let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
     let cipher_text = &payload[..(payload.len() - 16)];
     decrypt_aead(
-- 
2.43.0


From 48d40f17bd097c5298f2c1499ece202b2a5afaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:12 +0000
Subject: [PATCH 12/22] fix: report Retry packets as unsupported instead of
 panicking

Any peer could abort the endpoint with one.
---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index d7f6136..6c5b122 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -537,7 +537,7 @@ impl PacketRetry {
         T: Iterator<Item = error::Result<u8>>,
     {
         // TODO implement this after retry packet integrity implemented
-        todo!();
+        Err(Error::InternalError("retry packets are not supported"))
         // let version = u32::from_datagram(stream)?;
         // let destination_connection_id_length = u8::from_datagram(stream)?;
         // if destination_connection_id_length > 20 {
-- 
2.43.0


From 7d1475bd6bf360a8d5093cd92ca78946b7fcd9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:12 +0000
Subject: [PATCH 13/22] fix: recover Handshake packet numbers from their own
 bytes

Up to three payload bytes were taken for part of the packet number.
---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 6c5b122..43d91e3 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -455,7 +455,7 @@ impl PacketHandshake {
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
-            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
         let protected_frame_data =
             var_bytes_from_stream(stream, protected_payload_length(length, packet_number_length)?)?;
         // create associated data
-- 
2.43.0


From fbe32605317c8234b6fabc2bbfca4d2d88709b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:48 +0000
Subject: [PATCH 14/22] fix: consume only the bytes of the packet number

All packet types swallowed four bytes whatever the packet number length, so
packets with shorter numbers could not be opened.
---
 src/packet.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 43d91e3..84555de 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -266,11 +266,13 @@ impl PacketInitial {
         let token = var_bytes_from_stream(stream, token_length as usize)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // the payload starts right after the actual packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
@@ -366,11 +368,13 @@ impl PacketZeroRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // the payload starts right after the actual packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
@@ -446,12 +450,14 @@ impl PacketHandshake {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;
         // assumes packet is encoded by the remote
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // the payload starts right after the actual packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
@@ -684,11 +690,13 @@ impl PacketOneRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = ShortPacketHeader::from_stream(stream, header_byte)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // the payload starts right after the actual packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
-- 
2.43.0


From f7d538d7f146f5d8e822e0be4a34f6232ec5a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:28 +0000
Subject: [PATCH 15/22] fix: do not write to stdout when received data is too
 short

Printing and flushing panic when stdout is not writable, so a truncated
packet could abort the endpoint.
---
 src/utils.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 639fd7d..633bc03 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,6 @@
 use crate::error;
 use crate::error::Error;
 use std::alloc::{self, Layout};
-use std::io::{self, Write};
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
 pub struct U160 {
@@ -429,14 +428,10 @@ where
 {
     // this needs to be dynamic to avoid malicious large allocations
     let mut rv = Vec::<u8>::new();
-    for i in 0..n_bytes {
+    for _ in 0..n_bytes {
         let tp = stream
             .next()
             .unwrap_or(Err(Error::InternalError("not enough bytes for var_bytes")));
-        if tp.is_err() {
-            println!("failed at: {}", i);
-            io::stdout().flush().unwrap();
-        }
         rv.push(tp?);
     }
     Ok(rv)
-- 
2.43.0


From 1cae893854d69910225421c1d54b781b7ebc716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:28 +0000
Subject: [PATCH 16/22] fix: write the ids of version negotiation headers

Zeroes were written instead, and ids longer than 20 bytes panicked.
---
 src/packet.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/packet.rs b/src/packet.rs
index 84555de..781790a 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -123,6 +123,18 @@ impl LongPacketHeader {
         Ok(rv)
     }
     pub fn to_bytes(&self) -> Vec<u8> {
+        // version negotiation ids are kept separately as they may be longer than 20 bytes
+        if let Some(ref x) = self.version_negotiation {
+            return [
+                &[self.header_byte][..],
+                &self.version.to_be_bytes(),
+                &[self.destination_connection_id_length][..],
+                &x.destination_connection_id[..],
+                &[self.source_connection_id_length][..],
+                &x.source_connection_id[..],
+            ]
+            .concat();
+        }
         [
             &[self.header_byte][..],
             &self.version.to_be_bytes(),
-- 
2.43.0


From 9be5364d2ab9d79cd2d5953b6b00e56f19816c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:28 +0000
Subject: [PATCH 17/22] fix: complete the encoding of the preferred address

RFC 9000 section 18.2 puts the length of the connection id before it and the
stateless reset token after it.
---
 src/transport_parameters.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 78635b9..4ee7355 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -8,6 +8,7 @@ pub struct PreferredAddress {
     ipv6_address: Ipv6Addr,
     ipv6_port: u16,
     connection_id: Vec<u8>,
+    stateless_reset_token: [u8; 16],
 }
 
 impl PreferredAddress {
@@ -17,7 +18,9 @@ impl PreferredAddress {
             &self.ipv4_port.to_be_bytes()[..],
             &self.ipv6_address.octets()[..],
             &self.ipv6_port.to_be_bytes()[..],
+            &[self.connection_id.len() as u8][..],
             &self.connection_id[..],
+            &self.stateless_reset_token[..],
         ]
         .concat()
     }
-- 
2.43.0


From 7a8bb2386b585325f58fce8974deadd339f3ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:28 +0000
Subject: [PATCH 18/22] verification hooks: preferred address token

---
 src/transport_parameters.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 4ee7355..0cb5543 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -102,6 +102,7 @@ impl PreferredAddress {
         ipv6_address: Ipv6Addr,
         ipv6_port: u16,
         connection_id: Vec<u8>,
+        stateless_reset_token: [u8; 16],
     ) -> Self {
         Self {
             ipv4_address,
@@ -109,6 +110,7 @@ impl PreferredAddress {
             ipv6_address,
             ipv6_port,
             connection_id,
+            stateless_reset_token,
         }
     }
 }
-- 
2.43.0


From b37b19e718b00547c8980d375551b5608f79f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:39 +0000
Subject: [PATCH 19/22] verification hooks: map of connections without hashing

---
 src/routing.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/routing.rs b/src/routing.rs
index 1031591..70419f1 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -4,10 +4,13 @@ use crate::packet::{decode_packets, next_header_from_stream, Packet, PacketHeade
 use crate::quictls;
 use crate::utils::{self, U160};
 use crate::version;
+#[cfg(not(verif_hooks))]
 use std::collections::HashMap;
 use std::net::{SocketAddr, ToSocketAddrs, UdpSocket};
 use std::sync::mpsc::{channel, Receiver, Sender};
 use std::sync::{Mutex, RwLock};
+#[cfg(verif_hooks)]
+use verif_hooks::HashMap;
 
 #[derive(Debug)]
 pub(crate) struct InternalDatagram {
@@ -201,6 +204,42 @@ impl InternalQuicSocket {
 pub mod verif_hooks {
     use super::*;
 
+    /// The standard map with a hash that is the same for every key, so that lookups by symbolic
+    /// keys compare keys instead of inverting the hash.
+    #[derive(Debug)]
+    pub struct HashMap<K, V>(std::collections::HashMap<K, V, SameHash>);
+    #[derive(Debug, Default, Clone, Copy)]
+    pub struct SameHash;
+
+    impl std::hash::Hasher for SameHash {
+        fn finish(&self) -> u64 {
+            0
+        }
+        fn write(&mut self, _bytes: &[u8]) {}
+    }
+    impl std::hash::BuildHasher for SameHash {
+        type Hasher = SameHash;
+        fn build_hasher(&self) -> SameHash {
+            SameHash
+        }
+    }
+    impl<K, V> HashMap<K, V> {
+        pub fn new() -> Self {
+            HashMap(std::collections::HashMap::with_hasher(SameHash))
+        }
+    }
+    impl<K, V> std::ops::Deref for HashMap<K, V> {
+        type Target = std::collections::HashMap<K, V, SameHash>;
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+    impl<K, V> std::ops::DerefMut for HashMap<K, V> {
+        fn deref_mut(&mut self) -> &mut Self::Target {
+            &mut self.0
+        }
+    }
+
     pub struct Socket(InternalQuicSocket);
 
     impl Socket {
-- 
2.43.0


From 1af863a677c3a034f2ddb0b4627aab4883fc7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:30 +0000
Subject: [PATCH 20/22] fix: drop datagrams that belong to no connection

Waiting for new connections panicked on any such datagram.
---
 src/routing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/routing.rs b/src/routing.rs
index 70419f1..68b23c9 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -107,7 +107,8 @@ impl InternalQuicSocket {
             if ret_datagram {
                 return Ok(datagram);
             } else {
-                self.route_datagram(datagram).unwrap();
+                // datagrams that belong to no connection are dropped
+                let _ = self.route_datagram(datagram);
             }
         }
     }
-- 
2.43.0


From 1b19af611ff0314349a561347730d9ca05026c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:18 +0000
Subject: [PATCH 21/22] verification hooks: stream handles, addresses of queued
 datagrams, logging

---
 src/interface.rs | 10 ++++++++++
 src/routing.rs   | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/interface.rs b/src/interface.rs
index ee73893..1ac4300 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -48,3 +48,13 @@ impl QuicSocket {
     }
     pub fn set_log_traffic(&self, _log_traffic_flag: bool) {}
 }
+
+#[cfg(verif_hooks)]
+impl QuicStream {
+    pub(crate) fn verif_new(socket: Arc<InternalQuicSocket>, connection_id: U160) -> Self {
+        QuicStream {
+            socket,
+            connection_id,
+        }
+    }
+}
diff --git a/src/routing.rs b/src/routing.rs
index 68b23c9..1600096 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -204,6 +204,7 @@ impl InternalQuicSocket {
 #[cfg(verif_hooks)]
 pub mod verif_hooks {
     use super::*;
+    use std::sync::Arc;
 
     /// The standard map with a hash that is the same for every key, so that lookups by symbolic
     /// keys compare keys instead of inverting the hash.
@@ -228,6 +229,23 @@ pub mod verif_hooks {
         pub fn new() -> Self {
             HashMap(std::collections::HashMap::with_hasher(SameHash))
         }
+        pub fn with_capacity(n: usize) -> Self {
+            HashMap(std::collections::HashMap::with_capacity_and_hasher(
+                n, SameHash,
+            ))
+        }
+    }
+    impl<K, V> Default for HashMap<K, V> {
+        fn default() -> Self {
+            Self::new()
+        }
+    }
+    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
+        type Item = (&'a K, &'a V);
+        type IntoIter = std::collections::hash_map::Iter<'a, K, V>;
+        fn into_iter(self) -> Self::IntoIter {
+            self.0.iter()
+        }
     }
     impl<K, V> std::ops::Deref for HashMap<K, V> {
         type Target = std::collections::HashMap<K, V, SameHash>;
@@ -241,11 +259,11 @@ pub mod verif_hooks {
         }
     }
 
-    pub struct Socket(InternalQuicSocket);
+    pub struct Socket(Arc<InternalQuicSocket>);
 
     impl Socket {
         pub fn bind(addr: SocketAddr) -> std::io::Result<Self> {
-            Ok(Socket(InternalQuicSocket::bind(addr)?))
+            Ok(Socket(Arc::new(InternalQuicSocket::bind(addr)?)))
         }
         /// Registers a connection under `key`, as accepting one does.
         pub fn insert(&self, key: U160, connection: Connection) {
@@ -267,6 +285,19 @@ pub mod verif_hooks {
             let stream = streams.get(&key)?;
             stream.receiver.try_recv().ok().map(|d| d.data)
         }
+        /// As `queued`, with the address the datagram came from.
+        pub fn queued_from(&self, key: U160) -> Option<(Vec<u8>, SocketAddr)> {
+            let streams = self.0.streams.read().unwrap();
+            let stream = streams.get(&key)?;
+            stream.receiver.try_recv().ok().map(|d| (d.data, d.addr))
+        }
+        pub fn set_log_traffic(&mut self, flag: bool) {
+            Arc::get_mut(&mut self.0).unwrap().set_log_traffic(flag)
+        }
+        /// The application's handle of the connection under `key`.
+        pub fn stream(&self, key: U160) -> crate::interface::QuicStream {
+            crate::interface::QuicStream::verif_new(self.0.clone(), key)
+        }
         pub fn route(&self, data: Vec<u8>, addr: SocketAddr) -> error::Result<()> {
             self.0.route_datagram(InternalDatagram { data, addr })
         }
-- 
2.43.0


From 5b75950ed50b5c311c9479ff13f9dc63f4d11737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:33 +0000
Subject: [PATCH 22/22] verification hooks: accepting

---
 src/routing.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/routing.rs b/src/routing.rs
index 1600096..e5ab578 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -273,6 +273,19 @@ pub mod verif_hooks {
                 .unwrap()
                 .insert(key, InternalQuicStream::from_connection(connection));
         }
+        /// Waits for a new connection and registers it.
+        pub fn accept(&self) -> std::io::Result<U160> {
+            self.0.accept()
+        }
+        pub fn keys(&self) -> Vec<U160> {
+            self.0.streams.read().unwrap().keys().cloned().collect()
+        }
+        /// The id the connection under `key` gave itself.
+        pub fn scid(&self, key: U160) -> Option<(U160, u8)> {
+            let streams = self.0.streams.read().unwrap();
+            let connection = streams.get(&key)?.connection.read().unwrap();
+            connection.get_scid().ok()
+        }
         pub fn contains(&self, key: U160) -> bool {
             self.0.streams.read().unwrap().contains_key(&key)
         }
-- 
2.43.0

