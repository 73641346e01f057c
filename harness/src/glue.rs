//! Conversions between the library's observable values and the reference's.
use crate::crypto::{Keys, Spec};
use crate::wire::{hexs, PK, RF};
use quic_sea::verif::connection::{self as qc, Connection, Space};
use quic_sea::verif::frame::{self as qf, FrameView};
use quic_sea::verif::packet::{self as qp, HeaderView, Kind, PacketView};
use quic_sea::verif::quictls::Version;
use quic_sea::verif::utils::{self as qu, U160};
use quic_sea::verif::{Error, Result as QResult};
use std::cell::Cell;

pub const FAULT: &str = "injected fault of the byte source";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum After {
    /// the source fails once and then continues with the next byte
    Continue,
    /// the source fails once and then ends
    End,
    /// the source keeps failing
    Persist,
}

thread_local! {
    /// the error that the byte source reported last
    static REPORTED: Cell<u8> = const { Cell::new(0) };
}

fn fault_error(kind: u8) -> Error {
    match kind {
        1 => Error::NoError,
        2 => Error::NoViablePath,
        3 => Error::ApplicationError,
        4 => Error::FlowControlError,
        _ => Error::InternalError(FAULT),
    }
}

/// What a byte source was asked for, summed over all of its clones
#[derive(Default)]
pub struct Meter {
    pub pulls: Cell<u64>,
    pub budget: Cell<u64>,
    /// 1 + highest position ever handed out (or asked for)
    pub high: Cell<usize>,
    pub faulted: Cell<bool>,
}

impl Meter {
    pub fn new(budget: u64) -> Self {
        let m = Meter::default();
        m.budget.set(budget);
        m
    }
    /// budget proportional to the input
    pub fn linear(n: usize) -> Self {
        Meter::new(64 * n as u64 + 16384)
    }
}

/// A metered, optionally failing byte source
#[derive(Clone)]
pub struct Src<'a> {
    pub b: &'a [u8],
    pub i: usize,
    pub fault: Option<(usize, After)>,
    dead: u8,
    pub m: &'a Meter,
}

impl<'a> Src<'a> {
    pub fn new(b: &'a [u8], m: &'a Meter) -> Self {
        Src {
            b,
            i: 0,
            fault: None,
            dead: 0,
            m,
        }
    }
    pub fn failing(b: &'a [u8], m: &'a Meter, at: usize, after: After) -> Self {
        Src {
            b,
            i: 0,
            fault: Some((at, after)),
            dead: 0,
            m,
        }
    }
}

impl<'a> Iterator for Src<'a> {
    type Item = QResult<u8>;
    fn next(&mut self) -> Option<QResult<u8>> {
        let n = self.m.pulls.get() + 1;
        self.m.pulls.set(n);
        if n > self.m.budget.get() {
            panic!(
                "STEP-BUDGET: more than {} reads from a {}-byte input",
                self.m.budget.get(),
                self.b.len()
            );
        }
        if self.dead == 1 {
            return None;
        }
        if let Some((at, after)) = self.fault {
            if self.i == at && self.dead != 2 {
                self.m.faulted.set(true);
                match after {
                    After::Continue => self.dead = 2,
                    After::End => self.dead = 1,
                    After::Persist => {}
                }
                let kind = ((at * 5 + self.b.len() * 3) % 8) as u8;
                REPORTED.with(|x| x.set(kind));
                return Some(Err(fault_error(kind)));
            }
        }
        let r = self.b.get(self.i).copied();
        if self.i + 1 > self.m.high.get() {
            self.m.high.set(self.i + 1);
        }
        if r.is_some() {
            self.i += 1;
        }
        r.map(Ok)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}

pub fn es(e: &Error) -> String {
    format!("{:?}", e)
}

pub fn is_fault(e: &Error) -> bool {
    match (e, fault_error(REPORTED.with(|x| x.get()))) {
        (Error::InternalError(a), Error::InternalError(b)) => *a == b,
        (a, b) => std::mem::discriminant(a) == std::mem::discriminant(&b),
    }
}

pub fn id(bytes: &[u8]) -> U160 {
    assert!(bytes.len() <= 20);
    qu::var_u160_from_stream(&mut qu::make_result_stream(bytes), bytes.len() as u8)
        .expect("reading a connection id from memory failed")
}

pub fn id_bytes(x: &U160, len: usize) -> Result<Vec<u8>, String> {
    if len > 20 {
        return Err(format!("connection id length {} reported", len));
    }
    let b = x.to_var_bytes(len);
    if b.len() != len {
        return Err(format!("id written as {} bytes instead of {}", b.len(), len));
    }
    if id(&b) != *x {
        return Err(format!(
            "id {:?} is not the {}-byte id {} it was read as",
            x,
            len,
            hexs(&b)
        ));
    }
    Ok(b)
}

pub fn rf(v: &FrameView) -> Result<RF, String> {
    let same = |what: &str, declared: u64, actual: usize| {
        if declared == actual as u64 {
            Ok(())
        } else {
            Err(format!(
                "{} frame says length {} but holds {} bytes",
                what, declared, actual
            ))
        }
    };
    Ok(match v {
        FrameView::Padding => RF::Padding,
        FrameView::Ping => RF::Ping,
        FrameView::Ack {
            largest,
            delay,
            range_count,
            first_range,
            ranges,
            ecn,
        } => {
            if *range_count != ranges.len() as u64 {
                return Err(format!(
                    "ACK says {} ranges, holds {}",
                    range_count,
                    ranges.len()
                ));
            }
            RF::Ack {
                largest: *largest,
                delay: *delay,
                first: *first_range,
                ranges: ranges.clone(),
                ecn: *ecn,
            }
        }
        FrameView::ResetStream {
            id,
            code,
            final_size,
        } => RF::ResetStream(*id, *code, *final_size),
        FrameView::StopSending { id, code } => RF::StopSending(*id, *code),
        FrameView::Crypto {
            offset,
            length,
            data,
        } => {
            same("CRYPTO", *length, data.len())?;
            RF::Crypto {
                offset: *offset,
                data: data.clone(),
            }
        }
        FrameView::NewToken { length, token } => {
            same("NEW_TOKEN", *length, token.len())?;
            RF::NewToken(token.clone())
        }
        FrameView::Stream {
            id,
            offset,
            length,
            data,
            fin,
        } => {
            same("STREAM", *length, data.len())?;
            RF::Stream {
                id: *id,
                offset: *offset,
                data: data.clone(),
                fin: *fin,
            }
        }
        FrameView::MaxData { max } => RF::MaxData(*max),
        FrameView::MaxStreamData { id, max } => RF::MaxStreamData(*id, *max),
        FrameView::MaxStreams { max, uni } => RF::MaxStreams {
            max: *max,
            uni: *uni,
        },
        FrameView::DataBlocked { max } => RF::DataBlocked(*max),
        FrameView::StreamDataBlocked { id, max } => RF::StreamDataBlocked(*id, *max),
        FrameView::StreamsBlocked { max, uni } => RF::StreamsBlocked {
            max: *max,
            uni: *uni,
        },
        FrameView::NewConnectionId {
            seq,
            retire,
            len,
            id,
            token,
        } => RF::NewConnectionId {
            seq: *seq,
            retire: *retire,
            id: id_bytes(id, *len as usize)?,
            token: token.to_be_bytes(),
        },
        FrameView::RetireConnectionId { seq } => RF::RetireConnectionId(*seq),
        FrameView::PathChallenge { data } => RF::PathChallenge(data.to_be_bytes()),
        FrameView::PathResponse { data } => RF::PathResponse(data.to_be_bytes()),
        FrameView::ConnectionClose {
            code,
            frame_type,
            reason_length,
            reason,
            app,
        } => {
            same("CONNECTION_CLOSE", *reason_length, reason.len())?;
            match (app, frame_type) {
                (true, None) => RF::AppClose {
                    code: *code,
                    reason: reason.clone(),
                },
                (false, Some(t)) => RF::ConnClose {
                    code: *code,
                    frame_type: *t,
                    reason: reason.clone(),
                },
                _ => {
                    return Err(format!(
                        "CONNECTION_CLOSE with app={} and frame type {:?}",
                        app, frame_type
                    ))
                }
            }
        }
        FrameView::HandshakeDone => RF::HandshakeDone,
    })
}

pub fn rfs(v: &[FrameView]) -> Result<Vec<RF>, String> {
    v.iter().map(rf).collect()
}

pub fn fv(f: &RF) -> FrameView {
    match f {
        RF::Padding => FrameView::Padding,
        RF::Ping => FrameView::Ping,
        RF::Ack {
            largest,
            delay,
            first,
            ranges,
            ecn,
        } => FrameView::Ack {
            largest: *largest,
            delay: *delay,
            range_count: ranges.len() as u64,
            first_range: *first,
            ranges: ranges.clone(),
            ecn: *ecn,
        },
        RF::ResetStream(a, b, c) => FrameView::ResetStream {
            id: *a,
            code: *b,
            final_size: *c,
        },
        RF::StopSending(a, b) => FrameView::StopSending { id: *a, code: *b },
        RF::Crypto { offset, data } => FrameView::Crypto {
            offset: *offset,
            length: data.len() as u64,
            data: data.clone(),
        },
        RF::NewToken(t) => FrameView::NewToken {
            length: t.len() as u64,
            token: t.clone(),
        },
        RF::Stream {
            id,
            offset,
            data,
            fin,
        } => FrameView::Stream {
            id: *id,
            offset: *offset,
            length: data.len() as u64,
            data: data.clone(),
            fin: *fin,
        },
        RF::MaxData(a) => FrameView::MaxData { max: *a },
        RF::MaxStreamData(a, b) => FrameView::MaxStreamData { id: *a, max: *b },
        RF::MaxStreams { max, uni } => FrameView::MaxStreams {
            max: *max,
            uni: *uni,
        },
        RF::DataBlocked(a) => FrameView::DataBlocked { max: *a },
        RF::StreamDataBlocked(a, b) => FrameView::StreamDataBlocked { id: *a, max: *b },
        RF::StreamsBlocked { max, uni } => FrameView::StreamsBlocked {
            max: *max,
            uni: *uni,
        },
        RF::NewConnectionId {
            seq,
            retire,
            id: b,
            token,
        } => FrameView::NewConnectionId {
            seq: *seq,
            retire: *retire,
            len: b.len() as u8,
            id: id(b),
            token: u128::from_be_bytes(*token),
        },
        RF::RetireConnectionId(a) => FrameView::RetireConnectionId { seq: *a },
        RF::PathChallenge(d) => FrameView::PathChallenge {
            data: u64::from_be_bytes(*d),
        },
        RF::PathResponse(d) => FrameView::PathResponse {
            data: u64::from_be_bytes(*d),
        },
        RF::ConnClose {
            code,
            frame_type,
            reason,
        } => FrameView::ConnectionClose {
            code: *code,
            frame_type: Some(*frame_type),
            reason_length: reason.len() as u64,
            reason: reason.clone(),
            app: false,
        },
        RF::AppClose { code, reason } => FrameView::ConnectionClose {
            code: *code,
            frame_type: None,
            reason_length: reason.len() as u64,
            reason: reason.clone(),
            app: true,
        },
        RF::HandshakeDone => FrameView::HandshakeDone,
    }
}

pub fn lib_frames(fs: &[RF]) -> Vec<qf::Frame> {
    fs.iter().map(|f| qf::build(&fv(f))).collect()
}

/// decodes a payload with the library
pub fn lib_decode_frames(b: &[u8], m: &Meter) -> Result<Result<Vec<RF>, String>, String> {
    let mut s = Src::new(b, m);
    match qf::deserialize_frames(&mut s) {
        Ok(v) => {
            let out: Vec<FrameView> = v.iter().map(qf::view).collect();
            if s.i != b.len() {
                return Err(format!(
                    "decoded {} frames but left {} bytes unread",
                    v.len(),
                    b.len() - s.i
                ));
            }
            Ok(Ok(rfs(&out)?))
        }
        Err(e) => Ok(Err(es(&e))),
    }
}

pub fn pk(k: Kind) -> Option<PK> {
    Some(match k {
        Kind::VersionNegotiation => PK::Vn,
        Kind::Initial => PK::Initial,
        Kind::ZeroRtt => PK::ZeroRtt,
        Kind::Handshake => PK::Handshake,
        Kind::Retry => PK::Retry,
        Kind::OneRtt => PK::OneRtt,
        Kind::StatelessReset => return None,
    })
}

pub fn brief(f: &[RF]) -> String {
    let s = format!("{:?}", f);
    if s.len() > 400 {
        let mut k = 400;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}.. ({} frames)", &s[..k], f.len())
    } else {
        s
    }
}

/// the ids of a parsed header, as bytes
pub fn header_ids(h: &HeaderView) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    if let Some((d, s)) = &h.negotiation_ids {
        return Ok((d.clone(), Some(s.clone())));
    }
    let d = id_bytes(&h.dcid, h.dcid_len as usize)?;
    let s = match &h.scid {
        Some((s, l)) => Some(id_bytes(s, *l as usize)?),
        None => None,
    };
    Ok((d, s))
}

/// compares a decoded packet with what its sender meant
pub fn same_packet(v: &PacketView, spec: &Spec) -> Result<(), String> {
    let k = pk(v.header.kind);
    if k != Some(spec.kind) {
        return Err(format!("packet type {:?} decoded for {:?}", k, spec.kind));
    }
    if v.header.first_byte != spec.first_byte() {
        return Err(format!(
            "first byte {:02x} decoded, {:02x} was sent",
            v.header.first_byte,
            spec.first_byte()
        ));
    }
    if v.header.is_protected {
        return Err("decoded header still counts as protected".into());
    }
    let (d, s) = header_ids(&v.header)?;
    if d != spec.dcid {
        return Err(format!("dcid {} decoded, {} was sent", hexs(&d), hexs(&spec.dcid)));
    }
    if spec.kind != PK::OneRtt {
        if v.header.version != Some(spec.version) {
            return Err(format!("version {:?} decoded, {} was sent", v.header.version, spec.version));
        }
        if s.as_ref() != Some(&spec.scid) {
            return Err(format!("scid {:?} decoded, {} was sent", s.map(|x| hexs(&x)), hexs(&spec.scid)));
        }
    }
    if spec.kind == PK::Initial && v.token.as_ref() != Some(&spec.token) {
        return Err(format!("token {:?} decoded, {} was sent", v.token.as_ref().map(|x| hexs(x)), hexs(&spec.token)));
    }
    if v.packet_number != Some(spec.pn) {
        return Err(format!("packet number {:?} decoded, {} was sent", v.packet_number, spec.pn));
    }
    if v.packet_number_bytes.as_ref() != Some(&spec.pn_bytes()) {
        return Err(format!(
            "packet number bytes {:?} decoded, {:?} were sent",
            v.packet_number_bytes,
            spec.pn_bytes()
        ));
    }
    let got = rfs(&v.frames)?;
    let want = crate::wire::get_frames(&spec.payload)
        .map_err(|_| "decoded a payload that is not a frame sequence".to_string())?
        .frames;
    if got != want {
        return Err(format!("frames {} decoded, {} were sent", brief(&got), brief(&want)));
    }
    Ok(())
}

/// One endpoint of a connection: the library's state plus the reference keys around it
pub struct End {
    pub conn: Connection,
    pub server: bool,
    pub orig_dcid: Vec<u8>,
    /// traffic secrets installed per level: (ours, the peer's)
    pub hs: Option<(Vec<u8>, Vec<u8>)>,
    pub app: Option<(Vec<u8>, Vec<u8>)>,
}

pub fn new_conn(server: bool, dcid: &[u8]) -> Result<Connection, String> {
    Connection::new(server, Version::V1, id(dcid), dcid.len())
        .map_err(|e| format!("creating a connection failed: {}", es(&e)))
}

impl End {
    pub fn new(server: bool, orig_dcid: &[u8]) -> Result<End, String> {
        Ok(End {
            conn: new_conn(server, orig_dcid)?,
            server,
            orig_dcid: orig_dcid.to_vec(),
            hs: None,
            app: None,
        })
    }
    pub fn install(&mut self, space: Space, ours: Vec<u8>, theirs: Vec<u8>) -> Result<(), String> {
        qc::install_secrets(&mut self.conn, space, Some(&ours), Some(&theirs))
            .map_err(|e| format!("installing secrets failed: {}", es(&e)))?;
        match space {
            Space::Handshake => self.hs = Some((ours, theirs)),
            Space::Application => self.app = Some((ours, theirs)),
            Space::Initial => {}
        }
        Ok(())
    }
    /// reference keys for what the peer sends us
    pub fn peer_keys(&self, kind: PK) -> Option<Keys> {
        Some(match kind {
            PK::Initial => Keys::initial(&self.orig_dcid, !self.server),
            PK::Handshake => Keys::from_secret(&self.hs.as_ref()?.1),
            PK::ZeroRtt | PK::OneRtt => Keys::from_secret(&self.app.as_ref()?.1),
            _ => return None,
        })
    }
    /// reference keys for what we send
    pub fn own_keys(&self, kind: PK) -> Option<Keys> {
        Some(match kind {
            PK::Initial => Keys::initial(&self.orig_dcid, self.server),
            PK::Handshake => Keys::from_secret(&self.hs.as_ref()?.0),
            PK::ZeroRtt | PK::OneRtt => Keys::from_secret(&self.app.as_ref()?.0),
            _ => return None,
        })
    }
}

pub fn space_of(k: PK) -> Space {
    match k {
        PK::Initial => Space::Initial,
        PK::Handshake => Space::Handshake,
        _ => Space::Application,
    }
}

/// decodes a datagram with the library
pub fn lib_decode(b: &[u8], conn: &Connection) -> Result<Vec<PacketView>, String> {
    let m = Meter::linear(b.len());
    let mut s = Src::new(b, &m);
    match qp::decode_packets(&mut s, conn) {
        Ok(v) => Ok(v.iter().map(qp::view).collect()),
        Err(e) => Err(es(&e)),
    }
}
