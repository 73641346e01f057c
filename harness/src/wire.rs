//! Independent reference for the RFC 9000 wire format (sections 16-19, RFC 8999).
//! Shares no code with the library; values cross over only as plain integers and bytes.
use crate::rng::Rng;

pub const MAX62: u64 = (1 << 62) - 1;

// ---------------------------------------------------------------- varints
pub fn min_width(v: u64) -> Option<usize> {
    match v {
        0..=63 => Some(1),
        64..=16383 => Some(2),
        16384..=1_073_741_823 => Some(4),
        1_073_741_824..=4_611_686_018_427_387_903 => Some(8),
        _ => None,
    }
}

pub fn put_width(out: &mut Vec<u8>, v: u64, width: usize) {
    let tag = match width {
        1 => 0u8,
        2 => 0x40,
        4 => 0x80,
        8 => 0xc0,
        _ => unreachable!(),
    };
    let b = v.to_be_bytes();
    let at = out.len();
    out.extend_from_slice(&b[8 - width..]);
    out[at] |= tag;
}

/// None if the value cannot be represented
pub fn put(out: &mut Vec<u8>, v: u64) -> Option<()> {
    put_width(out, v, min_width(v)?);
    Some(())
}

/// How integers are put on the wire
pub enum Wire<'a> {
    Minimal,
    Any(&'a mut Rng),
}

impl<'a> Wire<'a> {
    fn put(&mut self, out: &mut Vec<u8>, v: u64) -> Option<()> {
        let w = min_width(v)?;
        let w = match self {
            Wire::Minimal => w,
            Wire::Any(r) => {
                if r.chance(3, 4) {
                    w
                } else {
                    *r.pick(&[1usize, 2, 4, 8]
                        .iter()
                        .copied()
                        .filter(|x| *x >= w)
                        .collect::<Vec<_>>())
                }
            }
        };
        put_width(out, v, w);
        Some(())
    }
    fn coin(&mut self) -> bool {
        match self {
            Wire::Minimal => false,
            Wire::Any(r) => r.chance(1, 3),
        }
    }
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Bad;
pub type R<T> = Result<T, Bad>;

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.i
    }
    pub fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if n > self.left() as u64 {
            return Err(Bad);
        }
        let n = n as usize;
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn varint(&mut self) -> R<u64> {
        let first = *self.b.get(self.i).ok_or(Bad)?;
        let w = [1usize, 2, 4, 8][(first / 64) as usize];
        let s = self.take(w as u64)?;
        let mut v = (s[0] % 64) as u64;
        for b in &s[1..] {
            v = v * 256 + *b as u64;
        }
        Ok(v)
    }
}

// ---------------------------------------------------------------- frames
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RF {
    Padding,
    Ping,
    Ack {
        largest: u64,
        delay: u64,
        first: u64,
        ranges: Vec<(u64, u64)>,
        ecn: Option<(u64, u64, u64)>,
    },
    ResetStream(u64, u64, u64),
    StopSending(u64, u64),
    Crypto {
        offset: u64,
        data: Vec<u8>,
    },
    NewToken(Vec<u8>),
    Stream {
        id: u64,
        offset: u64,
        data: Vec<u8>,
        fin: bool,
    },
    MaxData(u64),
    MaxStreamData(u64, u64),
    MaxStreams {
        max: u64,
        uni: bool,
    },
    DataBlocked(u64),
    StreamDataBlocked(u64, u64),
    StreamsBlocked {
        max: u64,
        uni: bool,
    },
    NewConnectionId {
        seq: u64,
        retire: u64,
        id: Vec<u8>,
        token: [u8; 16],
    },
    RetireConnectionId(u64),
    PathChallenge([u8; 8]),
    PathResponse([u8; 8]),
    ConnClose {
        code: u64,
        frame_type: u64,
        reason: Vec<u8>,
    },
    AppClose {
        code: u64,
        reason: Vec<u8>,
    },
    HandshakeDone,
}

impl RF {
    pub fn kind(&self) -> &'static str {
        match self {
            RF::Padding => "PADDING",
            RF::Ping => "PING",
            RF::Ack { ecn: None, .. } => "ACK",
            RF::Ack { .. } => "ACK_ECN",
            RF::ResetStream(..) => "RESET_STREAM",
            RF::StopSending(..) => "STOP_SENDING",
            RF::Crypto { .. } => "CRYPTO",
            RF::NewToken(_) => "NEW_TOKEN",
            RF::Stream { .. } => "STREAM",
            RF::MaxData(_) => "MAX_DATA",
            RF::MaxStreamData(..) => "MAX_STREAM_DATA",
            RF::MaxStreams { uni: false, .. } => "MAX_STREAMS_BIDI",
            RF::MaxStreams { .. } => "MAX_STREAMS_UNI",
            RF::DataBlocked(_) => "DATA_BLOCKED",
            RF::StreamDataBlocked(..) => "STREAM_DATA_BLOCKED",
            RF::StreamsBlocked { uni: false, .. } => "STREAMS_BLOCKED_BIDI",
            RF::StreamsBlocked { .. } => "STREAMS_BLOCKED_UNI",
            RF::NewConnectionId { .. } => "NEW_CONNECTION_ID",
            RF::RetireConnectionId(_) => "RETIRE_CONNECTION_ID",
            RF::PathChallenge(_) => "PATH_CHALLENGE",
            RF::PathResponse(_) => "PATH_RESPONSE",
            RF::ConnClose { .. } => "CONNECTION_CLOSE",
            RF::AppClose { .. } => "CONNECTION_CLOSE_APP",
            RF::HandshakeDone => "HANDSHAKE_DONE",
        }
    }
    /// well-formed on the wire, but with values an endpoint is told to reject by rules
    /// beyond the wire format (RFC 9000 sections 4.6, 19.3.1, 19.6-19.8, 19.15): decoders may refuse
    pub fn semantically_dubious(&self) -> bool {
        match self {
            RF::Ack {
                largest,
                first,
                ranges,
                ..
            } => {
                let mut smallest = match largest.checked_sub(*first) {
                    Some(x) => x,
                    None => return true,
                };
                for (gap, len) in ranges {
                    let l = match smallest.checked_sub(*gap).and_then(|x| x.checked_sub(2)) {
                        Some(x) => x,
                        None => return true,
                    };
                    smallest = match l.checked_sub(*len) {
                        Some(x) => x,
                        None => return true,
                    };
                }
                false
            }
            RF::Crypto { offset, data } | RF::Stream { offset, data, .. } => {
                *offset as u128 + data.len() as u128 > MAX62 as u128
            }
            RF::NewToken(t) => t.is_empty(),
            RF::MaxStreams { max, .. } | RF::StreamsBlocked { max, .. } => *max > 1 << 60,
            RF::NewConnectionId { seq, retire, .. } => retire > seq,
            _ => false,
        }
    }
}

/// encodes one frame; `last_open`: a stream frame leaves its length out
pub fn put_frame(out: &mut Vec<u8>, f: &RF, open: bool, w: &mut Wire) -> Option<()> {
    match f {
        RF::Padding => out.push(0),
        RF::Ping => out.push(1),
        RF::Ack {
            largest,
            delay,
            first,
            ranges,
            ecn,
        } => {
            out.push(if ecn.is_some() { 3 } else { 2 });
            w.put(out, *largest)?;
            w.put(out, *delay)?;
            w.put(out, ranges.len() as u64)?;
            w.put(out, *first)?;
            for (g, l) in ranges {
                w.put(out, *g)?;
                w.put(out, *l)?;
            }
            if let Some((a, b, c)) = ecn {
                w.put(out, *a)?;
                w.put(out, *b)?;
                w.put(out, *c)?;
            }
        }
        RF::ResetStream(a, b, c) => {
            out.push(4);
            w.put(out, *a)?;
            w.put(out, *b)?;
            w.put(out, *c)?;
        }
        RF::StopSending(a, b) => {
            out.push(5);
            w.put(out, *a)?;
            w.put(out, *b)?;
        }
        RF::Crypto { offset, data } => {
            out.push(6);
            w.put(out, *offset)?;
            w.put(out, data.len() as u64)?;
            out.extend_from_slice(data);
        }
        RF::NewToken(t) => {
            out.push(7);
            w.put(out, t.len() as u64)?;
            out.extend_from_slice(t);
        }
        RF::Stream {
            id,
            offset,
            data,
            fin,
        } => {
            let off = *offset != 0 || w.coin();
            let mut ty = 8u8;
            if off {
                ty += 4;
            }
            if !open {
                ty += 2;
            }
            if *fin {
                ty += 1;
            }
            out.push(ty);
            w.put(out, *id)?;
            if off {
                w.put(out, *offset)?;
            }
            if !open {
                w.put(out, data.len() as u64)?;
            }
            out.extend_from_slice(data);
        }
        RF::MaxData(a) => {
            out.push(0x10);
            w.put(out, *a)?;
        }
        RF::MaxStreamData(a, b) => {
            out.push(0x11);
            w.put(out, *a)?;
            w.put(out, *b)?;
        }
        RF::MaxStreams { max, uni } => {
            out.push(if *uni { 0x13 } else { 0x12 });
            w.put(out, *max)?;
        }
        RF::DataBlocked(a) => {
            out.push(0x14);
            w.put(out, *a)?;
        }
        RF::StreamDataBlocked(a, b) => {
            out.push(0x15);
            w.put(out, *a)?;
            w.put(out, *b)?;
        }
        RF::StreamsBlocked { max, uni } => {
            out.push(if *uni { 0x17 } else { 0x16 });
            w.put(out, *max)?;
        }
        RF::NewConnectionId {
            seq,
            retire,
            id,
            token,
        } => {
            out.push(0x18);
            w.put(out, *seq)?;
            w.put(out, *retire)?;
            out.push(id.len() as u8);
            out.extend_from_slice(id);
            out.extend_from_slice(token);
        }
        RF::RetireConnectionId(a) => {
            out.push(0x19);
            w.put(out, *a)?;
        }
        RF::PathChallenge(d) => {
            out.push(0x1a);
            out.extend_from_slice(d);
        }
        RF::PathResponse(d) => {
            out.push(0x1b);
            out.extend_from_slice(d);
        }
        RF::ConnClose {
            code,
            frame_type,
            reason,
        } => {
            out.push(0x1c);
            w.put(out, *code)?;
            w.put(out, *frame_type)?;
            w.put(out, reason.len() as u64)?;
            out.extend_from_slice(reason);
        }
        RF::AppClose { code, reason } => {
            out.push(0x1d);
            w.put(out, *code)?;
            w.put(out, reason.len() as u64)?;
            out.extend_from_slice(reason);
        }
        RF::HandshakeDone => out.push(0x1e),
    }
    Some(())
}

/// canonical encoding of a list; `open_end`: a final stream frame runs to the end
pub fn put_frames(fs: &[RF], open_end: bool) -> Option<Vec<u8>> {
    let mut out = vec![];
    for (i, f) in fs.iter().enumerate() {
        put_frame(&mut out, f, open_end && i + 1 == fs.len(), &mut Wire::Minimal)?;
    }
    Some(out)
}

pub struct Parsed {
    pub frame: RF,
    /// the frame type used more bytes than necessary (decoders may refuse)
    pub loose_type: bool,
}

pub fn get_frame(r: &mut Rd) -> R<Parsed> {
    let at = r.i;
    let ty = r.varint()?;
    let loose_type = r.i - at != min_width(ty).unwrap();
    let frame = match ty {
        0x00 => RF::Padding,
        0x01 => RF::Ping,
        0x02 | 0x03 => {
            let largest = r.varint()?;
            let delay = r.varint()?;
            let n = r.varint()?;
            let first = r.varint()?;
            let mut ranges = vec![];
            for _ in 0..n {
                let g = r.varint()?;
                let l = r.varint()?;
                ranges.push((g, l));
            }
            let ecn = if ty == 3 {
                Some((r.varint()?, r.varint()?, r.varint()?))
            } else {
                None
            };
            RF::Ack {
                largest,
                delay,
                first,
                ranges,
                ecn,
            }
        }
        0x04 => RF::ResetStream(r.varint()?, r.varint()?, r.varint()?),
        0x05 => RF::StopSending(r.varint()?, r.varint()?),
        0x06 => {
            let offset = r.varint()?;
            let n = r.varint()?;
            RF::Crypto {
                offset,
                data: r.take(n)?.to_vec(),
            }
        }
        0x07 => {
            let n = r.varint()?;
            RF::NewToken(r.take(n)?.to_vec())
        }
        0x08..=0x0f => {
            let id = r.varint()?;
            let offset = if ty & 4 != 0 { r.varint()? } else { 0 };
            let n = if ty & 2 != 0 {
                r.varint()?
            } else {
                r.left() as u64
            };
            RF::Stream {
                id,
                offset,
                data: r.take(n)?.to_vec(),
                fin: ty & 1 != 0,
            }
        }
        0x10 => RF::MaxData(r.varint()?),
        0x11 => RF::MaxStreamData(r.varint()?, r.varint()?),
        0x12 | 0x13 => RF::MaxStreams {
            max: r.varint()?,
            uni: ty == 0x13,
        },
        0x14 => RF::DataBlocked(r.varint()?),
        0x15 => RF::StreamDataBlocked(r.varint()?, r.varint()?),
        0x16 | 0x17 => RF::StreamsBlocked {
            max: r.varint()?,
            uni: ty == 0x17,
        },
        0x18 => {
            let seq = r.varint()?;
            let retire = r.varint()?;
            let n = r.u8()?;
            if n == 0 || n > 20 {
                return Err(Bad);
            }
            let id = r.take(n as u64)?.to_vec();
            let mut token = [0u8; 16];
            token.copy_from_slice(r.take(16)?);
            RF::NewConnectionId {
                seq,
                retire,
                id,
                token,
            }
        }
        0x19 => RF::RetireConnectionId(r.varint()?),
        0x1a | 0x1b => {
            let mut d = [0u8; 8];
            d.copy_from_slice(r.take(8)?);
            if ty == 0x1a {
                RF::PathChallenge(d)
            } else {
                RF::PathResponse(d)
            }
        }
        0x1c => {
            let code = r.varint()?;
            let frame_type = r.varint()?;
            let n = r.varint()?;
            RF::ConnClose {
                code,
                frame_type,
                reason: r.take(n)?.to_vec(),
            }
        }
        0x1d => {
            let code = r.varint()?;
            let n = r.varint()?;
            RF::AppClose {
                code,
                reason: r.take(n)?.to_vec(),
            }
        }
        0x1e => RF::HandshakeDone,
        _ => return Err(Bad),
    };
    Ok(Parsed { frame, loose_type })
}

pub struct ParsedList {
    pub frames: Vec<RF>,
    /// a decoder may legitimately refuse (loose frame type, semantic rules)
    pub may_refuse: bool,
}

pub fn get_frames(b: &[u8]) -> R<ParsedList> {
    let mut r = Rd::new(b);
    let mut frames = vec![];
    let mut may_refuse = false;
    while r.left() > 0 {
        let p = get_frame(&mut r)?;
        may_refuse |= p.loose_type || p.frame.semantically_dubious();
        frames.push(p.frame);
    }
    Ok(ParsedList { frames, may_refuse })
}

// ---------------------------------------------------------------- headers
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PK {
    Vn,
    Initial,
    ZeroRtt,
    Handshake,
    Retry,
    OneRtt,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RH {
    pub kind: PK,
    pub first: u8,
    pub version: Option<u32>,
    pub dcid: Vec<u8>,
    pub scid: Option<Vec<u8>>,
    pub len: usize,
}

pub fn get_header(b: &[u8]) -> R<RH> {
    let mut r = Rd::new(b);
    let first = r.u8()?;
    if first < 0x80 {
        let dcid = r.take(8)?.to_vec();
        return Ok(RH {
            kind: PK::OneRtt,
            first,
            version: None,
            dcid,
            scid: None,
            len: r.i,
        });
    }
    let v = r.take(4)?;
    let version = u32::from_be_bytes([v[0], v[1], v[2], v[3]]);
    let dl = r.u8()?;
    if version != 0 && dl > 20 {
        return Err(Bad);
    }
    let dcid = r.take(dl as u64)?.to_vec();
    let sl = r.u8()?;
    if version != 0 && sl > 20 {
        return Err(Bad);
    }
    let scid = r.take(sl as u64)?.to_vec();
    let kind = if version == 0 {
        PK::Vn
    } else {
        match (first / 16) % 4 {
            0 => PK::Initial,
            1 => PK::ZeroRtt,
            2 => PK::Handshake,
            _ => PK::Retry,
        }
    };
    Ok(RH {
        kind,
        first,
        version: Some(version),
        dcid,
        scid: Some(scid),
        len: r.i,
    })
}

// ---------------------------------------------------------------- packet numbers
/// RFC 9000 A.3
pub fn decode_pn(largest: Option<u64>, truncated: u64, nbits: u32) -> u64 {
    let expected: i128 = match largest {
        Some(x) => x as i128 + 1,
        None => 0,
    };
    let win: i128 = 1 << nbits;
    let hwin = win / 2;
    let candidate = (expected & !(win - 1)) | truncated as i128;
    if candidate <= expected - hwin && candidate < (1i128 << 62) - win {
        (candidate + win) as u64
    } else if candidate > expected + hwin && candidate >= win {
        (candidate - win) as u64
    } else {
        candidate as u64
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// hex, shortened in the middle
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex(b)
    } else {
        format!(
            "{}..{} ({} bytes)",
            hex(&b[..64]),
            hex(&b[b.len() - 24..]),
            b.len()
        )
    }
}
