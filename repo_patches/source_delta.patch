From 003e022a0a73d5147468cba242c2b4c48d5539ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:30 +0000
Subject: [PATCH 01/21] hooks: access to internals for runtime monitors behind
 cfg(quic_sea_verif)

---
 src/connection.rs                 |   3 +
 src/connection/verif.rs           |  61 ++++++
 src/frame.rs                      |   3 +
 src/frame/verif.rs                | 295 ++++++++++++++++++++++++++++++
 src/interface.rs                  |   3 +
 src/interface/verif.rs            |  18 ++
 src/lib.rs                        |   3 +
 src/packet.rs                     |   3 +
 src/packet/verif.rs               | 179 ++++++++++++++++++
 src/quictls/mod.rs                |   2 +
 src/quictls/verif.rs              |  11 ++
 src/routing.rs                    |   3 +
 src/routing/verif.rs              |  67 +++++++
 src/transport_parameters.rs       |   3 +
 src/transport_parameters/verif.rs |  20 ++
 src/verif.rs                      |  14 ++
 16 files changed, 688 insertions(+)
 create mode 100644 src/connection/verif.rs
 create mode 100644 src/frame/verif.rs
 create mode 100644 src/interface/verif.rs
 create mode 100644 src/packet/verif.rs
 create mode 100644 src/quictls/verif.rs
 create mode 100644 src/routing/verif.rs
 create mode 100644 src/transport_parameters/verif.rs
 create mode 100644 src/verif.rs

diff --git a/src/connection.rs b/src/connection.rs
index 060251d..f1114c1 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -3,6 +3,9 @@ use crate::quictls;
 use crate::utils::prelude::*;
 use crate::version;
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 #[derive(Debug)]
 pub enum PacketNumberSpace {
     Initial,
diff --git a/src/connection/verif.rs b/src/connection/verif.rs
new file mode 100644
index 0000000..512d8ed
--- /dev/null
+++ b/src/connection/verif.rs
@@ -0,0 +1,61 @@
+//! Runtime-monitor access to connections (`--cfg quic_sea_verif`).
+use super::*;
+
+pub use super::{Connection, PacketNumberSpace};
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+pub enum Space {
+    Initial,
+    Handshake,
+    Application,
+}
+
+impl Space {
+    pub fn pn_space(self) -> PacketNumberSpace {
+        match self {
+            Space::Initial => PacketNumberSpace::Initial,
+            Space::Handshake => PacketNumberSpace::Handshake,
+            Space::Application => PacketNumberSpace::Application,
+        }
+    }
+}
+
+pub fn truncate(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
+    truncate_pn(pn, largest_ack)
+}
+
+/// largest packet number of ours that the remote acknowledged
+pub fn set_largest_acked(connection: &mut Connection, space: Space, val: Option<u64>) {
+    connection.borrow_mut_pn_info(space.pn_space()).largest_local_ack = val;
+}
+
+/// largest packet number received from the remote
+pub fn set_largest_received(connection: &mut Connection, space: Space, val: Option<u64>) {
+    connection.borrow_mut_pn_info(space.pn_space()).largest_remote_ack = val;
+}
+
+/// packet number counter (the last number allotted)
+pub fn set_pn_counter(connection: &mut Connection, space: Space, val: u64) {
+    connection.borrow_mut_pn_info(space.pn_space()).next_pn = val;
+}
+
+/// stands in for the (not yet implemented) handshake: installs keys derived from
+/// the given traffic secrets
+pub fn install_secrets(
+    connection: &mut Connection,
+    space: Space,
+    local: Option<&[u8]>,
+    remote: Option<&[u8]>,
+) -> error::Result<()> {
+    let local = local.map(quictls::verif::secrets_from_secret).transpose()?;
+    let remote = remote.map(quictls::verif::secrets_from_secret).transpose()?;
+    let info = connection.borrow_mut_pn_info(space.pn_space());
+    info.local_tls_secrets = local;
+    info.remote_tls_secrets = remote;
+    Ok(())
+}
+
+/// everything the connection holds, as text
+pub fn snapshot(connection: &Connection) -> String {
+    format!("{:?}", connection)
+}
diff --git a/src/frame.rs b/src/frame.rs
index 360cfaf..f193997 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -5,6 +5,9 @@ use crate::utils::{
     self, all_bytes_from_stream, var_bytes_from_stream, var_int_from_stream, var_u160_from_stream,
 };
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 #[derive(Debug)]
 struct EcnCounts {
     ect0_count: u64,
diff --git a/src/frame/verif.rs b/src/frame/verif.rs
new file mode 100644
index 0000000..7e5eb48
--- /dev/null
+++ b/src/frame/verif.rs
@@ -0,0 +1,295 @@
+//! Runtime-monitor access to frames (`--cfg quic_sea_verif`).
+use super::*;
+
+pub use super::{
+    deserialize_frame, deserialize_frames, serialize_frames, Frame, FrameConnectionClose,
+    FrameCrypto, FrameDataBlocked, FrameMaxData, FrameMaxStreamData, FrameMaxStreams,
+    FrameNewConnectionId, FrameNewToken, FramePathChallenge, FramePathResponse, FrameResetStream,
+    FrameRetireConnectionId, FrameStopSending, FrameStream, FrameStreamDataBlocked,
+    FrameStreamsBlocked,
+};
+
+/// Every field of a frame, in public form
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub enum FrameView {
+    Padding,
+    Ping,
+    Ack {
+        largest: u64,
+        delay: u64,
+        range_count: u64,
+        first_range: u64,
+        ranges: Vec<(u64, u64)>,
+        ecn: Option<(u64, u64, u64)>,
+    },
+    ResetStream {
+        id: u64,
+        code: u64,
+        final_size: u64,
+    },
+    StopSending {
+        id: u64,
+        code: u64,
+    },
+    Crypto {
+        offset: u64,
+        length: u64,
+        data: Vec<u8>,
+    },
+    NewToken {
+        length: u64,
+        token: Vec<u8>,
+    },
+    Stream {
+        id: u64,
+        offset: u64,
+        length: u64,
+        data: Vec<u8>,
+        fin: bool,
+    },
+    MaxData {
+        max: u64,
+    },
+    MaxStreamData {
+        id: u64,
+        max: u64,
+    },
+    MaxStreams {
+        max: u64,
+        uni: bool,
+    },
+    DataBlocked {
+        max: u64,
+    },
+    StreamDataBlocked {
+        id: u64,
+        max: u64,
+    },
+    StreamsBlocked {
+        max: u64,
+        uni: bool,
+    },
+    NewConnectionId {
+        seq: u64,
+        retire: u64,
+        len: u8,
+        id: U160,
+        token: u128,
+    },
+    RetireConnectionId {
+        seq: u64,
+    },
+    PathChallenge {
+        data: u64,
+    },
+    PathResponse {
+        data: u64,
+    },
+    ConnectionClose {
+        code: u64,
+        frame_type: Option<u64>,
+        reason_length: u64,
+        reason: Vec<u8>,
+        app: bool,
+    },
+    HandshakeDone,
+}
+
+pub fn view(frame: &Frame) -> FrameView {
+    match frame {
+        Frame::Padding => FrameView::Padding,
+        Frame::Ping => FrameView::Ping,
+        Frame::Ack(x) => FrameView::Ack {
+            largest: x.largest_acknowledged,
+            delay: x.ack_delay,
+            range_count: x.ack_range_count,
+            first_range: x.first_ack_range,
+            ranges: x
+                .ack_range
+                .iter()
+                .map(|r| (r.gap, r.ack_range_length))
+                .collect(),
+            ecn: x
+                .ecn_counts
+                .as_ref()
+                .map(|e| (e.ect0_count, e.ect1_count, e.ecn_ce_count)),
+        },
+        Frame::ResetStream(x) => FrameView::ResetStream {
+            id: x.stream_id,
+            code: x.application_protocol_error_code,
+            final_size: x.final_size,
+        },
+        Frame::StopSending(x) => FrameView::StopSending {
+            id: x.stream_id,
+            code: x.application_protocol_error_code,
+        },
+        Frame::Crypto(x) => FrameView::Crypto {
+            offset: x.offset,
+            length: x.length,
+            data: x.crypto_data.clone(),
+        },
+        Frame::NewToken(x) => FrameView::NewToken {
+            length: x.token_length,
+            token: x.token.clone(),
+        },
+        Frame::Stream(x) => FrameView::Stream {
+            id: x.stream_id,
+            offset: x.offset,
+            length: x.length,
+            data: x.stream_data.clone(),
+            fin: x.is_fin,
+        },
+        Frame::MaxData(x) => FrameView::MaxData {
+            max: x.maximum_data,
+        },
+        Frame::MaxStreamData(x) => FrameView::MaxStreamData {
+            id: x.stream_id,
+            max: x.maximum_stream_data,
+        },
+        Frame::MaxStreams(x) => FrameView::MaxStreams {
+            max: x.maximum_streams,
+            uni: x.is_unidirectional,
+        },
+        Frame::DataBlocked(x) => FrameView::DataBlocked {
+            max: x.maximum_data,
+        },
+        Frame::StreamDataBlocked(x) => FrameView::StreamDataBlocked {
+            id: x.stream_id,
+            max: x.maximum_stream_data,
+        },
+        Frame::StreamsBlocked(x) => FrameView::StreamsBlocked {
+            max: x.maximum_streams,
+            uni: x.is_unidirectional_limit,
+        },
+        Frame::NewConnectionId(x) => FrameView::NewConnectionId {
+            seq: x.sequence_number,
+            retire: x.retire_prior_to,
+            len: x.length,
+            id: x.connection_id,
+            token: x.stateless_reset_token,
+        },
+        Frame::RetireConnectionId(x) => FrameView::RetireConnectionId {
+            seq: x.sequence_number,
+        },
+        Frame::PathChallenge(x) => FrameView::PathChallenge { data: x.data },
+        Frame::PathResponse(x) => FrameView::PathResponse { data: x.data },
+        Frame::ConnectionClose(x) => FrameView::ConnectionClose {
+            code: x.error_code,
+            frame_type: x.frame_type,
+            reason_length: x.reason_phrase_length,
+            reason: x.reason_phrase.clone(),
+            app: x.is_application_error,
+        },
+        Frame::HandshakeDone => FrameView::HandshakeDone,
+    }
+}
+
+pub fn build(view: &FrameView) -> Frame {
+    match view.clone() {
+        FrameView::Padding => Frame::Padding,
+        FrameView::Ping => Frame::Ping,
+        FrameView::Ack {
+            largest,
+            delay,
+            range_count,
+            first_range,
+            ranges,
+            ecn,
+        } => Frame::Ack(FrameAck {
+            largest_acknowledged: largest,
+            ack_delay: delay,
+            ack_range_count: range_count,
+            first_ack_range: first_range,
+            ack_range: ranges
+                .into_iter()
+                .map(|(gap, ack_range_length)| AckRange {
+                    gap,
+                    ack_range_length,
+                })
+                .collect(),
+            ecn_counts: ecn.map(|(ect0_count, ect1_count, ecn_ce_count)| EcnCounts {
+                ect0_count,
+                ect1_count,
+                ecn_ce_count,
+            }),
+        }),
+        FrameView::ResetStream {
+            id,
+            code,
+            final_size,
+        } => Frame::ResetStream(FrameResetStream::new(id, code, final_size)),
+        FrameView::StopSending { id, code } => Frame::StopSending(FrameStopSending::new(id, code)),
+        FrameView::Crypto {
+            offset,
+            length,
+            data,
+        } => {
+            let mut frame = FrameCrypto::new(data);
+            frame.offset = offset;
+            frame.length = length;
+            Frame::Crypto(frame)
+        }
+        FrameView::NewToken { length, token } => {
+            let mut frame = FrameNewToken::new(token);
+            frame.token_length = length;
+            Frame::NewToken(frame)
+        }
+        FrameView::Stream {
+            id,
+            offset,
+            length,
+            data,
+            fin,
+        } => {
+            let mut frame = FrameStream::new(id, data, fin);
+            frame.offset = offset;
+            frame.length = length;
+            Frame::Stream(frame)
+        }
+        FrameView::MaxData { max } => Frame::MaxData(FrameMaxData::new(max)),
+        FrameView::MaxStreamData { id, max } => {
+            Frame::MaxStreamData(FrameMaxStreamData::new(id, max))
+        }
+        FrameView::MaxStreams { max, uni } => Frame::MaxStreams(FrameMaxStreams::new(max, uni)),
+        FrameView::DataBlocked { max } => Frame::DataBlocked(FrameDataBlocked::new(max)),
+        FrameView::StreamDataBlocked { id, max } => {
+            Frame::StreamDataBlocked(FrameStreamDataBlocked::new(id, max))
+        }
+        FrameView::StreamsBlocked { max, uni } => {
+            Frame::StreamsBlocked(FrameStreamsBlocked::new(max, uni))
+        }
+        FrameView::NewConnectionId {
+            seq,
+            retire,
+            len,
+            id,
+            token,
+        } => {
+            let mut frame = FrameNewConnectionId::new(seq, retire, id, token);
+            frame.length = len;
+            Frame::NewConnectionId(frame)
+        }
+        FrameView::RetireConnectionId { seq } => {
+            Frame::RetireConnectionId(FrameRetireConnectionId::new(seq))
+        }
+        FrameView::PathChallenge { data } => Frame::PathChallenge(FramePathChallenge::new(data)),
+        FrameView::PathResponse { data } => Frame::PathResponse(FramePathResponse::new(data)),
+        FrameView::ConnectionClose {
+            code,
+            frame_type,
+            reason_length,
+            reason,
+            app,
+        } => {
+            let mut frame = if app {
+                FrameConnectionClose::new_application_error(code, reason)
+            } else {
+                FrameConnectionClose::new_error(code, 0, reason)
+            };
+            frame.frame_type = frame_type;
+            frame.reason_phrase_length = reason_length;
+            Frame::ConnectionClose(frame)
+        }
+        FrameView::HandshakeDone => Frame::HandshakeDone,
+    }
+}
diff --git a/src/interface.rs b/src/interface.rs
index ee73893..6a0a050 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -3,6 +3,9 @@ use crate::utils::U160;
 use std::net::ToSocketAddrs;
 use std::sync::Arc;
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 #[derive(Debug)]
 pub struct QuicSocket {
     socket: Arc<InternalQuicSocket>,
diff --git a/src/interface/verif.rs b/src/interface/verif.rs
new file mode 100644
index 0000000..3c1aff1
--- /dev/null
+++ b/src/interface/verif.rs
@@ -0,0 +1,18 @@
+//! Runtime-monitor access to the public handles (`--cfg quic_sea_verif`).
+use super::*;
+use crate::routing::verif::MonitoredSocket;
+
+/// the handle that accepting or connecting hands out for a connection
+pub fn stream_handle(socket: &MonitoredSocket, connection_id: U160) -> QuicStream {
+    QuicStream {
+        socket: socket.inner.clone(),
+        connection_id,
+    }
+}
+
+/// what happens behind a public socket
+pub fn monitored(socket: &QuicSocket) -> MonitoredSocket {
+    MonitoredSocket {
+        inner: socket.socket.clone(),
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 206771c..b054f55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 mod connection;
 mod error;
 mod frame;
@@ -9,5 +10,7 @@ mod routing;
 mod tests;
 mod transport_parameters;
 mod utils;
+#[cfg(quic_sea_verif)]
+pub mod verif;
 mod version;
 pub use interface::*;
diff --git a/src/packet.rs b/src/packet.rs
index 8e0aeb6..20c65a0 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -3,6 +3,9 @@ use crate::error::{self, Error};
 use crate::frame::{deserialize_frames, serialize_frames, Frame};
 use crate::utils::{self, prelude::*, var_bytes_from_stream, var_u160_from_stream};
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 const VERSION_NEGOTIATION_VERSION_VALUE: u32 = 0;
 
 #[derive(Debug, Clone)]
diff --git a/src/packet/verif.rs b/src/packet/verif.rs
new file mode 100644
index 0000000..06283c0
--- /dev/null
+++ b/src/packet/verif.rs
@@ -0,0 +1,179 @@
+//! Runtime-monitor access to packets (`--cfg quic_sea_verif`).
+use super::*;
+use crate::frame::verif::{view as frame_view, FrameView};
+
+pub use super::{
+    decode_next_packet, decode_packets, next_header_from_stream, LongPacketHeader, Packet,
+    PacketHandshake, PacketHeader, PacketInitial, PacketType, PacketVersionNegotiation,
+    ShortPacketHeader,
+};
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+pub enum Kind {
+    VersionNegotiation,
+    Initial,
+    ZeroRtt,
+    Handshake,
+    Retry,
+    OneRtt,
+    StatelessReset,
+}
+
+pub fn kind(packet_type: PacketType) -> Kind {
+    match packet_type {
+        PacketType::VersionNegotiation => Kind::VersionNegotiation,
+        PacketType::Initial => Kind::Initial,
+        PacketType::ZeroRtt => Kind::ZeroRtt,
+        PacketType::Handshake => Kind::Handshake,
+        PacketType::Retry => Kind::Retry,
+        PacketType::OneRtt => Kind::OneRtt,
+        PacketType::StatelessReset => Kind::StatelessReset,
+    }
+}
+
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct HeaderView {
+    pub kind: Kind,
+    pub first_byte: u8,
+    pub version: Option<u32>,
+    pub dcid_len: u8,
+    pub dcid: U160,
+    pub scid: Option<(U160, u8)>,
+    /// raw ids of a version negotiation header
+    pub negotiation_ids: Option<(Vec<u8>, Vec<u8>)>,
+    pub is_protected: bool,
+}
+
+pub fn long_header_view(x: &LongPacketHeader) -> HeaderView {
+    HeaderView {
+        kind: kind(x.packet_type()),
+        first_byte: x.header_byte,
+        version: Some(x.version),
+        dcid_len: x.destination_connection_id_length,
+        dcid: x.destination_connection_id,
+        scid: Some((x.source_connection_id, x.source_connection_id_length)),
+        negotiation_ids: x.version_negotiation.as_ref().map(|v| {
+            (
+                v.destination_connection_id.clone(),
+                v.source_connection_id.clone(),
+            )
+        }),
+        is_protected: x.is_protected,
+    }
+}
+
+pub fn short_header_view(x: &ShortPacketHeader) -> HeaderView {
+    HeaderView {
+        kind: kind(x.packet_type()),
+        first_byte: x.header_byte,
+        version: None,
+        dcid_len: 8,
+        dcid: x.destination_connection_id,
+        scid: None,
+        negotiation_ids: None,
+        is_protected: x.is_protected,
+    }
+}
+
+pub fn header_view(header: &PacketHeader) -> HeaderView {
+    match header {
+        PacketHeader::Long(x) => long_header_view(x),
+        PacketHeader::Short(x) => short_header_view(x),
+    }
+}
+
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct PacketView {
+    pub header: HeaderView,
+    pub token: Option<Vec<u8>>,
+    pub packet_number: Option<u64>,
+    pub packet_number_bytes: Option<Vec<u8>>,
+    pub frames: Vec<FrameView>,
+    pub supported_versions: Option<Vec<u32>>,
+}
+
+fn frame_views(frames: &[Frame]) -> Vec<FrameView> {
+    frames.iter().map(frame_view).collect()
+}
+
+pub fn initial_view(x: &PacketInitial) -> PacketView {
+    PacketView {
+        header: long_header_view(&x.header),
+        token: Some(x.token.clone()),
+        packet_number: Some(x.packet_number),
+        packet_number_bytes: Some(x.packet_number_bytes.clone()),
+        frames: frame_views(&x.packet_payload),
+        supported_versions: None,
+    }
+}
+
+pub fn handshake_view(x: &PacketHandshake) -> PacketView {
+    PacketView {
+        header: long_header_view(&x.header),
+        token: None,
+        packet_number: Some(x.packet_number),
+        packet_number_bytes: Some(x.packet_number_bytes.clone()),
+        frames: frame_views(&x.packet_payload),
+        supported_versions: None,
+    }
+}
+
+pub fn view(packet: &Packet) -> PacketView {
+    match packet {
+        Packet::VersionNegotiation(x) => PacketView {
+            header: long_header_view(&x.header),
+            token: None,
+            packet_number: None,
+            packet_number_bytes: None,
+            frames: vec![],
+            supported_versions: Some(x.supported_versions.clone()),
+        },
+        Packet::Initial(x) => initial_view(x),
+        Packet::ZeroRtt(x) => PacketView {
+            header: long_header_view(&x.header),
+            token: None,
+            packet_number: Some(x.packet_number),
+            packet_number_bytes: Some(x.packet_number_bytes.clone()),
+            frames: frame_views(&x.packet_payload),
+            supported_versions: None,
+        },
+        Packet::Handshake(x) => handshake_view(x),
+        Packet::Retry(x) => PacketView {
+            header: HeaderView {
+                kind: Kind::Retry,
+                first_byte: 0,
+                version: Some(x.version),
+                dcid_len: x.destination_connection_id_length,
+                dcid: x.destination_connection_id,
+                scid: Some((x.source_connection_id, x.source_connection_id_length)),
+                negotiation_ids: None,
+                is_protected: false,
+            },
+            token: Some(x.retry_token.clone()),
+            packet_number: None,
+            packet_number_bytes: None,
+            frames: vec![],
+            supported_versions: None,
+        },
+        Packet::OneRtt(x) => PacketView {
+            header: short_header_view(&x.header),
+            token: None,
+            packet_number: Some(x.packet_number),
+            packet_number_bytes: Some(x.packet_number_bytes.clone()),
+            frames: frame_views(&x.packet_payload),
+            supported_versions: None,
+        },
+    }
+}
+
+pub fn serialize_initial(x: &PacketInitial, connection: &Connection) -> error::Result<Vec<u8>> {
+    x.serialize(connection)
+}
+
+pub fn serialize_handshake(x: &PacketHandshake, connection: &Connection) -> error::Result<Vec<u8>> {
+    x.serialize(connection)
+}
+
+pub fn xor_pn(pn_bytes: &mut [u8], mask: &[u8; 5]) -> error::Result<()> {
+    xor_pn_protection(pn_bytes, mask)
+}
diff --git a/src/quictls/mod.rs b/src/quictls/mod.rs
index 3fd1d88..a0fdf59 100644
--- a/src/quictls/mod.rs
+++ b/src/quictls/mod.rs
@@ -1,4 +1,6 @@
 mod cipher_suite;
 mod secrets;
 pub mod utils;
+#[cfg(quic_sea_verif)]
+pub mod verif;
 pub use secrets::Secrets;
\ No newline at end of file
diff --git a/src/quictls/verif.rs b/src/quictls/verif.rs
new file mode 100644
index 0000000..ba8bc72
--- /dev/null
+++ b/src/quictls/verif.rs
@@ -0,0 +1,11 @@
+//! Runtime-monitor access to the key schedule (`--cfg quic_sea_verif`).
+use super::cipher_suite;
+use crate::error;
+
+pub use super::utils::get_connection_id;
+pub use super::Secrets;
+pub use crate::version::Version;
+
+pub fn secrets_from_secret(secret: &[u8]) -> error::Result<Secrets> {
+    Secrets::from_secret(&cipher_suite::TLS13_AES_128_GCM_SHA256, secret)
+}
diff --git a/src/routing.rs b/src/routing.rs
index 92f0617..acd9604 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -9,6 +9,9 @@ use std::net::{SocketAddr, ToSocketAddrs, UdpSocket};
 use std::sync::mpsc::{channel, Receiver, Sender};
 use std::sync::{Mutex, RwLock};
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 #[derive(Debug)]
 pub(crate) struct InternalDatagram {
     pub data: Vec<u8>,
diff --git a/src/routing/verif.rs b/src/routing/verif.rs
new file mode 100644
index 0000000..4a9adb4
--- /dev/null
+++ b/src/routing/verif.rs
@@ -0,0 +1,67 @@
+//! Runtime-monitor access to sockets (`--cfg quic_sea_verif`).
+use super::*;
+use crate::packet::verif::{view as packet_view, PacketView};
+use std::sync::Arc;
+
+/// A socket together with the operations the monitors drive and observe
+#[derive(Debug, Clone)]
+pub struct MonitoredSocket {
+    pub(crate) inner: Arc<InternalQuicSocket>,
+}
+
+impl MonitoredSocket {
+    pub fn bind(addr: SocketAddr, log_traffic: bool) -> std::io::Result<Self> {
+        let mut inner = InternalQuicSocket::bind(addr)?;
+        inner.set_log_traffic(log_traffic);
+        Ok(Self {
+            inner: Arc::new(inner),
+        })
+    }
+    /// a second handle on the bound UDP socket
+    pub fn udp_handle(&self) -> std::io::Result<UdpSocket> {
+        self.inner.socket.lock().unwrap().try_clone()
+    }
+    /// registers a connection under the given id as accepting it would
+    pub fn insert(&self, id: U160, connection: Connection) {
+        let stream = InternalQuicStream::from_connection(connection);
+        self.inner.streams.write().unwrap().insert(id, stream);
+    }
+    pub fn live_ids(&self) -> Vec<U160> {
+        self.inner.streams.read().unwrap().keys().copied().collect()
+    }
+    pub fn with_connection<R>(&self, id: U160, f: impl FnOnce(&mut Connection) -> R) -> Option<R> {
+        let streams = self.inner.streams.read().unwrap();
+        let stream = streams.get(&id)?;
+        let mut connection = stream.connection.write().unwrap();
+        Some(f(&mut connection))
+    }
+    /// takes everything queued for a connection
+    pub fn drain(&self, id: U160) -> Option<Vec<(Vec<u8>, SocketAddr)>> {
+        let streams = self.inner.streams.read().unwrap();
+        let stream = streams.get(&id)?;
+        Some(stream.receiver.try_iter().map(|x| (x.data, x.addr)).collect())
+    }
+    pub fn recv_datagram(&self) -> std::io::Result<(Vec<u8>, SocketAddr)> {
+        self.inner.recv_datagram().map(|x| (x.data, x.addr))
+    }
+    pub fn recv_new_initial(&self) -> std::io::Result<(Vec<u8>, SocketAddr)> {
+        self.inner
+            .recv_new_initial_datagram()
+            .map(|x| (x.data, x.addr))
+    }
+    pub fn route(&self, data: Vec<u8>, addr: SocketAddr) -> error::Result<()> {
+        self.inner.route_datagram(InternalDatagram { data, addr })
+    }
+    pub fn packets(&self, data: Vec<u8>, addr: SocketAddr) -> error::Result<Vec<PacketView>> {
+        let packets = self
+            .inner
+            .packets_from_datagram(&InternalDatagram { data, addr })?;
+        Ok(packets.iter().map(packet_view).collect())
+    }
+    pub fn accept(&self) -> std::io::Result<U160> {
+        self.inner.accept()
+    }
+    pub fn drop_connection(&self, id: U160) {
+        self.inner.drop_connection(id)
+    }
+}
diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 92941a0..7d80ed7 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -2,6 +2,9 @@ use crate::error;
 use crate::utils;
 use std::net::{Ipv4Addr, Ipv6Addr};
 
+#[cfg(quic_sea_verif)]
+pub mod verif;
+
 pub struct PreferredAddress {
     ipv4_address: Ipv4Addr,
     ipv4_port: u16,
diff --git a/src/transport_parameters/verif.rs b/src/transport_parameters/verif.rs
new file mode 100644
index 0000000..7e04068
--- /dev/null
+++ b/src/transport_parameters/verif.rs
@@ -0,0 +1,20 @@
+//! Runtime-monitor access to transport parameters (`--cfg quic_sea_verif`).
+use super::*;
+
+pub use super::{PreferredAddress, TransportParameter};
+
+pub fn preferred_address(
+    ipv4_address: Ipv4Addr,
+    ipv4_port: u16,
+    ipv6_address: Ipv6Addr,
+    ipv6_port: u16,
+    connection_id: Vec<u8>,
+) -> PreferredAddress {
+    PreferredAddress {
+        ipv4_address,
+        ipv4_port,
+        ipv6_address,
+        ipv6_port,
+        connection_id,
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..9d5c618
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,14 @@
+//! Access to the crate's internals for runtime monitors that live outside of this
+//! repository. Only compiled with `--cfg quic_sea_verif`; nothing here changes behaviour.
+pub use crate::connection::verif as connection;
+pub use crate::error::{Error, Result};
+pub use crate::frame::verif as frame;
+pub use crate::interface::verif as interface;
+pub use crate::packet::verif as packet;
+pub use crate::quictls::verif as quictls;
+pub use crate::routing::verif as routing;
+pub use crate::transport_parameters::verif as transport_parameters;
+pub mod utils {
+    pub use crate::utils::prelude::*;
+    pub use crate::utils::*;
+}
-- 
2.43.0


From ba057efd51acfa19d89ddc37492c37731ab4919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:56 +0000
Subject: [PATCH 02/21] fix: preferred_address transport parameter lacked its
 connection id length and reset token

RFC 9000 section 18.2 requires a one byte connection id length before the
connection id and a 16 byte stateless reset token after it; without them no
peer can parse the parameter.
---
 src/transport_parameters.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 7d80ed7..f6ef800 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -1,4 +1,4 @@
-use crate::error;
+use crate::error::{self, Error};
 use crate::utils;
 use std::net::{Ipv4Addr, Ipv6Addr};
 
@@ -11,18 +11,27 @@ pub struct PreferredAddress {
     ipv6_address: Ipv6Addr,
     ipv6_port: u16,
     connection_id: Vec<u8>,
+    stateless_reset_token: [u8; 16],
 }
 
 impl PreferredAddress {
-    fn to_bytes(&self) -> Vec<u8> {
-        [
+    fn to_bytes(&self) -> error::Result<Vec<u8>> {
+        let connection_id_length = self.connection_id.len();
+        if !(0 < connection_id_length && connection_id_length <= 20) {
+            return Err(Error::InternalError(
+                "invalid preferred address connection id length",
+            ));
+        }
+        Ok([
             &self.ipv4_address.octets()[..],
             &self.ipv4_port.to_be_bytes()[..],
             &self.ipv6_address.octets()[..],
             &self.ipv6_port.to_be_bytes()[..],
+            &[connection_id_length as u8][..],
             &self.connection_id[..],
+            &self.stateless_reset_token[..],
         ]
-        .concat()
+        .concat())
     }
 }
 
@@ -84,7 +93,7 @@ impl TransportParameter {
             Self::AckDelayExponent(x) => utils::encode_var_int(*x)?,
             Self::MaxAckDelay(x) => utils::encode_var_int(*x)?,
             Self::DisableActiveMigration => vec![],
-            Self::PreferredAddress(x) => x.to_bytes(),
+            Self::PreferredAddress(x) => x.to_bytes()?,
             Self::ActiveConnectionIdLimit(x) => utils::encode_var_int(*x)?,
             Self::InitialSourceConnectionId(x) => x.clone(),
             Self::RetrySourceConnectionId(x) => x.clone(),
-- 
2.43.0


From be0463ce4e94c71f4382943114fb958062ff652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:56 +0000
Subject: [PATCH 03/21] hooks: preferred address with its reset token (cfg
 quic_sea_verif)

---
 src/transport_parameters/verif.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transport_parameters/verif.rs b/src/transport_parameters/verif.rs
index 7e04068..9a710ca 100644
--- a/src/transport_parameters/verif.rs
+++ b/src/transport_parameters/verif.rs
@@ -9,6 +9,7 @@ pub fn preferred_address(
     ipv6_address: Ipv6Addr,
     ipv6_port: u16,
     connection_id: Vec<u8>,
+    stateless_reset_token: [u8; 16],
 ) -> PreferredAddress {
     PreferredAddress {
         ipv4_address,
@@ -16,5 +17,6 @@ pub fn preferred_address(
         ipv6_address,
         ipv6_port,
         connection_id,
+        stateless_reset_token,
     }
 }
-- 
2.43.0


From 30923ea450ec1add39031017f0deff2adadaf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 04/21] fix: STREAM frame offset and length flags were never
 recognised

type & 0x04 and type & 0x02 can never equal 1, so offset and length were read
as stream data and every following frame was swallowed.
---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index f193997..c2c40ff 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -301,8 +301,8 @@ impl FrameStream {
     where
         T: Iterator<Item = error::Result<u8>>,
     {
-        let has_offset = type_byte & 0x04 == 1;
-        let has_length = type_byte & 0x02 == 1;
+        let has_offset = type_byte & 0x04 != 0;
+        let has_length = type_byte & 0x02 != 0;
         let is_fin = type_byte & 0x01 == 1;
         let stream_id = var_int_from_stream(datagram)?;
         let offset = if has_offset {
-- 
2.43.0


From dd893dd3494e5e835b3130f06f76214feef07c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:04 +0000
Subject: [PATCH 05/21] fix: CRYPTO frame decoding took offset + length bytes
 of data

Only length bytes follow; with a non zero offset the following frames were
swallowed or decoding failed.
---
 src/frame.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index c2c40ff..e4cf539 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -225,8 +225,7 @@ impl FrameCrypto {
     {
         let offset = var_int_from_stream(datagram)?;
         let length = var_int_from_stream(datagram)?;
-        let total_size = (length + offset) as usize;
-        let crypto_data = var_bytes_from_stream(datagram, total_size)?;
+        let crypto_data = var_bytes_from_stream(datagram, length as usize)?;
         Ok(Self {
             offset,
             length,
-- 
2.43.0


From d4304946aca8ccb5558cd7478e1d2296a164431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 06/21] fix: unknown frame types above 0xff were taken for
 their low byte

---
 src/frame.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index e4cf539..5671d35 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -800,8 +800,11 @@ pub fn deserialize_frame<T>(datagram: &mut T) -> error::Result<Frame>
 where
     T: Iterator<Item = error::Result<u8>>,
 {
-    let type_byte = var_int_from_stream(datagram)?;
-    let type_byte = (type_byte & (1 << 8) - 1) as u8;
+    let frame_type = var_int_from_stream(datagram)?;
+    if frame_type > u8::MAX as u64 {
+        return Err(Error::InternalError("unrecognised frame type"));
+    }
+    let type_byte = frame_type as u8;
     match type_byte {
         0x00 => Ok(Frame::Padding),
         0x01 => Ok(Frame::Ping),
-- 
2.43.0


From adf465fa4785d2021bfe5e6aafbc988a5a25c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:08 +0000
Subject: [PATCH 07/21] fix: packets with a packet number of fewer than 4 bytes
 could not be decoded

Four bytes were always consumed for the packet number, so the start of the
protected payload was lost unless the number really took 4 bytes.
---
 src/packet.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 20c65a0..4fd1551 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -262,11 +262,13 @@ impl PacketInitial {
         let token = var_bytes_from_stream(stream, token_length as usize)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // whatever follows a shorter packet number belongs to the payload
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
@@ -362,11 +364,13 @@ impl PacketZeroRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // whatever follows a shorter packet number belongs to the payload
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
@@ -442,12 +446,14 @@ impl PacketHandshake {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;
         // assumes packet is encoded by the remote
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // whatever follows a shorter packet number belongs to the payload
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
@@ -680,11 +686,13 @@ impl PacketOneRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = ShortPacketHeader::from_stream(stream, header_byte)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // whatever follows a shorter packet number belongs to the payload
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
-- 
2.43.0


From fa1b7483764ceec91da24858653fc04ebfb9c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:09 +0000
Subject: [PATCH 08/21] fix: handshake packets reconstructed their number from
 4 bytes whatever its length

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 4fd1551..010deb7 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -457,7 +457,7 @@ impl PacketHandshake {
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
-            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
         let protected_frame_data =
             var_bytes_from_stream(stream, length as usize - packet_number_length)?;
         // create associated data
-- 
2.43.0


From 18ae6a8c8a53acfb299ae2aa1d0c9653a6ba6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:11 +0000
Subject: [PATCH 09/21] fix: a length field smaller than the packet number made
 decoding panic

---
 src/packet.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 010deb7..67141a3 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -37,6 +37,15 @@ fn xor_pn_protection(pn_bytes: &mut [u8], mask: &[u8; 5]) -> error::Result<()> {
     }
 }
 
+/// length of the protected payload given the length field of a long header packet
+fn payload_length(length: u64, packet_number_length: usize) -> error::Result<usize> {
+    (length as usize)
+        .checked_sub(packet_number_length)
+        .ok_or(Error::InternalError(
+            "packet length is shorter than its packet number",
+        ))
+}
+
 impl LongPacketHeader {
     const HEADER_BITS: u8 = 0xc0;
     pub fn from_connection(connection: &Connection, header_byte: u8) -> error::Result<Self> {
@@ -274,7 +283,7 @@ impl PacketInitial {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -376,7 +385,7 @@ impl PacketZeroRtt {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -459,7 +468,7 @@ impl PacketHandshake {
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
         let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+            var_bytes_from_stream(stream, payload_length(length, packet_number_length)?)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
-- 
2.43.0


From 0d01cf5eb1dcb968af9de33cf67950c8ba30e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:12 +0000
Subject: [PATCH 10/21] fix: decrypting a payload shorter than the
 authentication tag panicked

---
 src/quictls/cipher_suite.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quictls/cipher_suite.rs b/src/quictls/cipher_suite.rs
index d8cb9b4..e2a9817 100644
--- a/src/quictls/cipher_suite.rs
+++ b/src/quictls/cipher_suite.rs
@@ -151,8 +151,11 @@ fn internal_decrypt_aes_128_gcm(
     associated_data: &[u8],
     payload: &[u8],
 ) -> error::Result<Vec<u8>> {
-    let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
-    let cipher_text = &payload[..(payload.len() - 16)];
+    let cipher_text_len = payload
+        .len()
+        .checked_sub(AES_128_GCM_TAG_LEN)
+        .ok_or(Error::InternalError("payload too short for aes_128_gcm"))?;
+    let (cipher_text, tag) = payload.split_at(cipher_text_len);
     decrypt_aead(
         Cipher::aes_128_gcm(),
         &key,
-- 
2.43.0


From 077dfe19041e34a111e271bacc74577b8fc4b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:14 +0000
Subject: [PATCH 11/21] fix: decoding a packet with a malformed header panicked

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 67141a3..0283606 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -793,7 +793,7 @@ where
     T: Iterator<Item = error::Result<u8>> + Clone,
 {
     let mut header_stream = stream.clone();
-    let header = next_header_from_stream(&mut header_stream).unwrap();
+    let header = next_header_from_stream(&mut header_stream)?;
     match header {
         PacketHeader::Short(_) => {
             let res = PacketOneRtt::from_stream(stream, connection)?;
-- 
2.43.0


From 93f0e71da3585ecbcb1392e48a6bece7acfa4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 12/21] fix: receiving a retry packet panicked

Retry packets are not supported yet; anyone can send one, so it has to be
refused with an error like any other undecodable packet.
---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 0283606..0f22e11 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -548,7 +548,7 @@ impl PacketRetry {
         T: Iterator<Item = error::Result<u8>>,
     {
         // TODO implement this after retry packet integrity implemented
-        todo!();
+        Err(Error::InternalError("retry packets are not supported"))
         // let version = u32::from_datagram(stream)?;
         // let destination_connection_id_length = u8::from_datagram(stream)?;
         // if destination_connection_id_length > 20 {
-- 
2.43.0


From b05612d827d5a7f56997c4921740b80e0472d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:14 +0000
Subject: [PATCH 13/21] fix: received packet numbers were not reconstructed as
 RFC 9000 A.3 prescribes

The truncated number was combined with the wrong half of the largest received
number and shifted by bytes instead of bits, so every packet after the first
acknowledged ones got a wrong number and could not be decrypted.
---
 src/connection.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index f1114c1..e7a4af9 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -206,18 +206,17 @@ impl Connection {
         let mut tp_pn_bytes = [0u8; 4];
         tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
         let tp_pn = u32::from_be_bytes(tp_pn_bytes);
-        // TODO handle overflow
-        let rv = if let Some(x) = largest_ack {
-            let mut la_bytes = [0u8; 4];
-            la_bytes.clone_from_slice(&x.to_be_bytes()[..4]);
-            let tp_la = u32::from_be_bytes(la_bytes);
-            if tp_pn > tp_la {
-                ((x >> pn_length) << pn_length) + u64::from(tp_pn)
-            } else {
-                (((x >> pn_length) + 1) << pn_length) + u64::from(tp_pn)
-            }
+        // RFC 9000 A.3
+        let expected_pn = largest_ack.map_or(0, |x| x + 1);
+        let pn_win = 1u64 << (8 * pn_length);
+        let pn_hwin = pn_win / 2;
+        let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
+        let rv = if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1 << 62) - pn_win {
+            candidate_pn + pn_win
+        } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
+            candidate_pn - pn_win
         } else {
-            u64::from(tp_pn)
+            candidate_pn
         };
         Ok(rv)
     }
-- 
2.43.0


From 0c97502237d5f146acf1a749bf3eff82a602b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:16 +0000
Subject: [PATCH 14/21] fix: packet numbers were truncated to too few bytes

RFC 9000 17.1 requires an encoding that covers more than twice the range of
unacknowledged packets; with exactly the range the receiver may reconstruct
another number. Numbers that need more than 4 bytes are refused.
---
 src/connection.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index e7a4af9..ee98528 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -37,7 +37,7 @@ impl PacketNumberSpaceInfo {
 fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
     match largest_ack {
         None => {
-            if pn > u32::MAX as u64 {
+            if pn > (u32::MAX >> 1) as u64 {
                 return Err(Error::InternalError(
                     "too few bytes to encode truncated packet number",
                 ));
@@ -50,9 +50,15 @@ fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
                     "Cannot truncate packet number smaller than largest acknowledged packet number",
                 ));
             }
+            // the encoding must be able to represent twice the unacknowledged range
             let diff = pn - x;
-            let bit_len = diff.floor_log2()?;
+            let bit_len = (2 * diff - 1).floor_log2()?;
             let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };
+            if byte_len > 4 {
+                return Err(Error::InternalError(
+                    "too few bytes to encode truncated packet number",
+                ));
+            }
             Ok(pn.to_be_bytes()[(8 - byte_len)..].to_vec())
         }
     }
-- 
2.43.0


From 0bec2eb1736de9524dede0cb0976d540cbfb0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:17 +0000
Subject: [PATCH 15/21] fix: an unroutable datagram made the accepting thread
 panic

Malformed datagrams and datagrams for unknown connections are dropped instead.
---
 src/routing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/routing.rs b/src/routing.rs
index acd9604..9a63112 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -107,7 +107,10 @@ impl InternalQuicSocket {
             if ret_datagram {
                 return Ok(datagram);
             } else {
-                self.route_datagram(datagram).unwrap();
+                // anyone can send datagrams that cannot be routed, drop them
+                if let Err(x) = self.route_datagram(datagram) {
+                    eprintln!("{:?}", x);
+                }
             }
         }
     }
-- 
2.43.0


From e4328b0f8baa0405d4effe675b5e640b1620a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:18 +0000
Subject: [PATCH 16/21] fix: datagrams longer than 4096 bytes were silently
 truncated

---
 src/routing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 9a63112..bed6774 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -62,8 +62,8 @@ impl InternalQuicSocket {
     }
     fn recv_datagram(&self) -> std::io::Result<InternalDatagram> {
         let socket = self.socket.lock().unwrap();
-        // TODO investigate proper buffer size
-        let mut buff = [0u8; 4096];
+        // large enough for any udp payload
+        let mut buff = [0u8; 65535];
         let (amt, addr) = socket.recv_from(&mut buff)?;
         // to_vec used for length safety for allocated obj
         let data = buff[..amt].to_vec();
-- 
2.43.0


From 73f5521b065b7a39da7d97ef3017dd4d5e51c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:20 +0000
Subject: [PATCH 17/21] fix: decode_var_int read 4 and 8 byte integers as 3 and
 4 bytes

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 922da40..98cc9ac 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -324,7 +324,7 @@ pub fn decode_var_int(data: &[u8]) -> error::Result<(u64, usize)> {
     if data.len() == 0 {
         return Err(Error::InternalError("missing first byte for varint"));
     }
-    let n_shifts = usize::from(data[0] >> 6);
+    let n_shifts = (1usize << (data[0] >> 6)) - 1;
     if data.len() < n_shifts + 1 {
         return Err(Error::InternalError("not enough bytes for varint"));
     }
-- 
2.43.0


From 0162e8dbff377a83dff75fbf2d0faef63700879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:22 +0000
Subject: [PATCH 18/21] fix: connection ids of other lengths were routed to
 numerically equal connections

An id is its bytes: a 4 byte id 00000001 is not the 8 byte id 0000000000000001,
and version negotiation headers do not address the connection with id zero.
---
 src/packet.rs  | 19 +++++++++++++++++++
 src/routing.rs | 20 +++++++++-----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 0f22e11..454fd44 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -743,6 +743,25 @@ impl PacketHeader {
             PacketHeader::Long(ref x) => x.destination_connection_id_length,
         }
     }
+    /// Id to look up the receiving connection with
+    ///
+    /// Issued connection ids are always 8 bytes long, an id of any other length cannot
+    /// refer to a connection even if it is numerically equal to an issued one
+    pub fn get_routing_id(&self) -> Option<U160> {
+        if self.get_destination_id_length() != 8 {
+            return None;
+        }
+        match self {
+            PacketHeader::Long(LongPacketHeader {
+                version_negotiation: Some(x),
+                ..
+            }) => {
+                let mut stream = utils::make_result_stream(&x.destination_connection_id);
+                var_u160_from_stream(&mut stream, 8).ok()
+            }
+            _ => Some(self.get_destination_id()),
+        }
+    }
     pub fn get_packet_type(&self) -> PacketType {
         match self {
             PacketHeader::Short(ref x) => x.packet_type(),
diff --git a/src/routing.rs b/src/routing.rs
index bed6774..0d2f119 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -85,13 +85,11 @@ impl InternalQuicSocket {
                             PacketHeader::Long(ref x) => x.packet_type(),
                             PacketHeader::Short(ref x) => x.packet_type(),
                         };
-                        let dcid = match x {
-                            PacketHeader::Long(ref x) => x.destination_connection_id,
-                            PacketHeader::Short(ref x) => x.destination_connection_id,
-                        };
                         match packet_type {
                             PacketType::Initial => {
-                                !self.streams.read().unwrap().contains_key(&dcid)
+                                let streams = self.streams.read().unwrap();
+                                x.get_routing_id()
+                                    .map_or(true, |id| !streams.contains_key(&id))
                             }
                             // TODO ZeroRtt packets should be buffered from here
                             _ => false,
@@ -120,10 +118,9 @@ impl InternalQuicSocket {
             .iter()
             .map(|x| -> error::Result<u8> { Ok(x.clone()) });
         let route_header = next_header_from_stream(&mut stream)?;
-        let connection_id = match route_header {
-            PacketHeader::Short(ref x) => x.destination_connection_id,
-            PacketHeader::Long(ref x) => x.destination_connection_id,
-        };
+        let connection_id = route_header
+            .get_routing_id()
+            .ok_or(Error::InternalError("missing connection"))?;
         match self.streams.read().unwrap().get(&connection_id) {
             Some(x) => x
                 .sender
@@ -141,8 +138,9 @@ impl InternalQuicSocket {
         let header = next_header_from_stream(&mut header_stream)?;
         let rv = {
             let streams_map = self.streams.read().unwrap();
-            let route_stream = streams_map
-                .get(&header.get_destination_id())
+            let route_stream = header
+                .get_routing_id()
+                .and_then(|id| streams_map.get(&id))
                 .ok_or(Error::InternalError("connection not found"))?;
             let connection = route_stream.connection.read().unwrap();
             decode_packets(&mut stream, &connection)
-- 
2.43.0


From 450fae15f22eeb5d7bbf5ae1260aaffdfa8cb521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:23 +0000
Subject: [PATCH 19/21] fix: packet numbers beyond 2^62-1 were allotted

---
 src/connection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection.rs b/src/connection.rs
index ee98528..0703c1b 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -243,6 +243,10 @@ impl Connection {
             PacketNumberSpace::Handshake => &mut self.handshake_pn_info,
             PacketNumberSpace::Application => &mut self.application_pn_info,
         };
+        // RFC 9000 12.3
+        if pn_info.next_pn >= (1 << 62) - 1 {
+            return Err(Error::InternalError("packet numbers exhausted"));
+        }
         pn_info.next_pn += 1;
         Ok((
             pn_info.next_pn,
-- 
2.43.0


From 0bb78bd65bb0d4eeaacefc44382383b3eb178ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:35 +0000
Subject: [PATCH 20/21] hooks: lean on fewer private helpers

---
 src/connection/verif.rs | 16 ++++++++++------
 src/packet/verif.rs     |  4 ----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/connection/verif.rs b/src/connection/verif.rs
index 512d8ed..e748cc1 100644
--- a/src/connection/verif.rs
+++ b/src/connection/verif.rs
@@ -20,23 +20,27 @@ impl Space {
     }
 }
 
-pub fn truncate(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
-    truncate_pn(pn, largest_ack)
+fn info(connection: &mut Connection, space: Space) -> &mut PacketNumberSpaceInfo {
+    match space {
+        Space::Initial => &mut connection.initial_pn_info,
+        Space::Handshake => &mut connection.handshake_pn_info,
+        Space::Application => &mut connection.application_pn_info,
+    }
 }
 
 /// largest packet number of ours that the remote acknowledged
 pub fn set_largest_acked(connection: &mut Connection, space: Space, val: Option<u64>) {
-    connection.borrow_mut_pn_info(space.pn_space()).largest_local_ack = val;
+    info(connection, space).largest_local_ack = val;
 }
 
 /// largest packet number received from the remote
 pub fn set_largest_received(connection: &mut Connection, space: Space, val: Option<u64>) {
-    connection.borrow_mut_pn_info(space.pn_space()).largest_remote_ack = val;
+    info(connection, space).largest_remote_ack = val;
 }
 
 /// packet number counter (the last number allotted)
 pub fn set_pn_counter(connection: &mut Connection, space: Space, val: u64) {
-    connection.borrow_mut_pn_info(space.pn_space()).next_pn = val;
+    info(connection, space).next_pn = val;
 }
 
 /// stands in for the (not yet implemented) handshake: installs keys derived from
@@ -49,7 +53,7 @@ pub fn install_secrets(
 ) -> error::Result<()> {
     let local = local.map(quictls::verif::secrets_from_secret).transpose()?;
     let remote = remote.map(quictls::verif::secrets_from_secret).transpose()?;
-    let info = connection.borrow_mut_pn_info(space.pn_space());
+    let info = info(connection, space);
     info.local_tls_secrets = local;
     info.remote_tls_secrets = remote;
     Ok(())
diff --git a/src/packet/verif.rs b/src/packet/verif.rs
index 06283c0..39b5f3a 100644
--- a/src/packet/verif.rs
+++ b/src/packet/verif.rs
@@ -173,7 +173,3 @@ pub fn serialize_initial(x: &PacketInitial, connection: &Connection) -> error::R
 pub fn serialize_handshake(x: &PacketHandshake, connection: &Connection) -> error::Result<Vec<u8>> {
     x.serialize(connection)
 }
-
-pub fn xor_pn(pn_bytes: &mut [u8], mask: &[u8; 5]) -> error::Result<()> {
-    xor_pn_protection(pn_bytes, mask)
-}
-- 
2.43.0


From aea0172a11b9274babe9f0143b695dfbec60a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:39 +0000
Subject: [PATCH 21/21] fix: refuse to encode a NEW_CONNECTION_ID whose id does
 not fit its length

---
 src/frame.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame.rs b/src/frame.rs
index 5671d35..2e6ab11 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -595,6 +595,12 @@ impl FrameNewConnectionId {
         })
     }
     fn to_bytes(&self) -> error::Result<Vec<u8>> {
+        let unused_bytes = U160::BITS / 8 - self.length as usize;
+        if self.connection_id.to_bytes()[..unused_bytes] != vec![0u8; unused_bytes] {
+            return Err(Error::InternalError(
+                "connection id does not fit in its length",
+            ));
+        }
         Ok([
             &[0x18u8][..],
             &utils::encode_var_int(self.sequence_number)?[..],
-- 
2.43.0

