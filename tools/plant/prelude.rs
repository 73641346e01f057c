#![allow(unused)]
use quic_sea::verif::connection::{self as qc, Connection, Space};
use quic_sea::verif::frame::{self as qf, Frame, FrameView};
use quic_sea::verif::packet::{self as qp, Packet, PacketHandshake, PacketHeader, PacketInitial};
use quic_sea::verif::quictls::{self as qt, Secrets, Version};
use quic_sea::verif::routing::MonitoredSocket;
use quic_sea::verif::utils::{self as qu, DecodeFromBytes, FromDatagram, U160};
use quic_sea::verif::{Error, Result as QResult};

fn id(b: &[u8]) -> U160 {
    qu::var_u160_from_stream(&mut qu::make_result_stream(b), b.len() as u8).unwrap()
}
fn conn(server: bool, dcid: &[u8]) -> Connection {
    let mut c = Connection::new(server, Version::V1, id(dcid), dcid.len()).unwrap();
    c.set_scid(U160::from(77), 8);
    c
}
fn frames(b: &[u8]) -> Option<Vec<FrameView>> {
    qf::deserialize_frames(&mut qu::make_result_stream(b))
        .ok()
        .map(|v| v.iter().map(qf::view).collect())
}
fn decode(b: &[u8], c: &Connection) -> Option<Vec<qp::PacketView>> {
    qp::decode_packets(&mut qu::make_result_stream(b), c)
        .ok()
        .map(|v| v.iter().map(qp::view).collect())
}
fn header(b: &[u8]) -> Option<qp::HeaderView> {
    qp::next_header_from_stream(&mut qu::make_result_stream(b))
        .ok()
        .map(|h| qp::header_view(&h))
}
fn crypto(n: usize) -> Frame {
    Frame::Crypto(qf::FrameCrypto::new(vec![0x41; n]))
}
fn initial(c: &mut Connection, f: Vec<Frame>, token: Option<Vec<u8>>) -> Vec<u8> {
    let p = PacketInitial::new(f, token, c).unwrap();
    qp::serialize_initial(&p, c).unwrap()
}
fn handshake(c: &mut Connection, f: Vec<Frame>) -> Vec<u8> {
    let p = PacketHandshake::new(f, c).unwrap();
    qp::serialize_handshake(&p, c).unwrap()
}
const CLIENT_SECRET: [u8; 32] = [7; 32];
const SERVER_SECRET: [u8; 32] = [9; 32];
fn keys(c: &mut Connection, server: bool, space: Space) {
    let (l, r) = if server { (&SERVER_SECRET, &CLIENT_SECRET) } else { (&CLIENT_SECRET, &SERVER_SECRET) };
    qc::install_secrets(c, space, Some(l), Some(r)).unwrap();
}
/// seals a packet: `aad` is the clear header up to and including the packet number
fn seal(secret: &[u8], aad: &[u8], pn: u64, pn_len: usize, payload: &[u8]) -> Vec<u8> {
    let s = qt::secrets_from_secret(secret).unwrap();
    let body = s.encrypt_payload(payload, Some(aad), pn).unwrap();
    let mask = s
        .get_header_protection_mask(&mut qu::make_result_stream(&body[4 - pn_len..]))
        .unwrap();
    let mut h = aad.to_vec();
    h[0] ^= mask[0] & if h[0] & 0x80 != 0 { 0x0f } else { 0x1f };
    let n = h.len();
    for i in 0..pn_len {
        h[n - pn_len + i] ^= mask[1 + i];
    }
    [h, body].concat()
}
