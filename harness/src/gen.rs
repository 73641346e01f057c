//! Workload generators, biased towards boundaries.
use crate::crypto::Spec;
use crate::rng::Rng;
use crate::wire::{self, Wire, MAX62, PK, RF};

/// a 62-bit value, mostly near a boundary that some encoding cares about
pub fn v62(r: &mut Rng) -> u64 {
    let v = match r.below(10) {
        0 => r.below(4),
        1 => r.below(300),
        2 => *r.pick(&[
            63,
            64,
            255,
            256,
            16383,
            16384,
            65535,
            65536,
            (1 << 24) - 1,
            1 << 24,
            (1 << 30) - 1,
            1 << 30,
            (1 << 31) - 1,
            1 << 31,
            (1 << 32) - 1,
            1 << 32,
            (1 << 60) - 1,
            1 << 60,
            (1 << 61) - 1,
            1 << 61,
            MAX62 - 1,
            MAX62,
        ]),
        3 => (1u64 << r.below(62)).wrapping_add(r.below(3)).wrapping_sub(1),
        4 | 5 => {
            let bits = r.range(1, 62);
            r.u64() >> (64 - bits)
        }
        6 => r.below(1 << 14),
        7 => r.below(1 << 30),
        8 => {
            // repeated byte
            let b = r.u8() as u64;
            b * 0x0101_0101_0101_0101 >> 2
        }
        _ => r.u64() >> 2,
    };
    v & MAX62
}

/// any 64-bit value, sometimes not representable
pub fn v64(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => *r.pick(&[MAX62 + 1, MAX62 + 2, u64::MAX, u64::MAX - 1, 1 << 63, 3 << 62]),
        1 => r.u64(),
        _ => v62(r),
    }
}

/// a data length, small but often at an integer-width boundary
pub fn dlen(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(12) {
        0 | 1 => 0,
        2 => 1,
        3 => r.usize(0, 8),
        4 => *r.pick(&[62usize, 63, 64, 65]),
        5 => r.usize(0, 200),
        6 => *r.pick(&[255usize, 256, 257, 1000, 1200]),
        7 => {
            match r.below(8) {
                0 => *r.pick(&[16382usize, 16383, 16384, 16385]),
                // around every power of two that a limit might sit at
                1 => (1usize << r.range(6, 16)) + r.usize(0, 2) - 1,
                // any magnitude
                2 => {
                    let top = 1usize << r.range(8, 16);
                    r.usize(top / 2, top)
                }
                _ => r.usize(0, 600),
            }
        }
        _ => r.usize(0, 40),
    };
    // (the interpreter would take minutes)
    n.min(if cfg!(miri) { max.min(500) } else { max })
}

pub fn cid(r: &mut Rng) -> Vec<u8> {
    let n = cid_len(r);
    r.texture(n)
}

pub fn cid_len(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 8,
        1 => 20,
        2 => 0,
        3 => *r.pick(&[15usize, 16, 17, 18, 19]),
        _ => r.usize(0, 20),
    }
}

/// what may appear where (RFC 9000 table 3)
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Where {
    Any,
    Handshake,
    ZeroRtt,
    OneRtt,
}

pub fn allowed(w: Where) -> &'static [u8] {
    match w {
        Where::Any | Where::OneRtt => &[
            0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23,
        ],
        Where::Handshake => &[0, 1, 2, 3, 6, 6, 6, 21],
        Where::ZeroRtt => &[0, 1, 4, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22],
    }
}

pub fn where_for(k: PK) -> Where {
    match k {
        PK::Initial | PK::Handshake => Where::Handshake,
        PK::ZeroRtt => Where::ZeroRtt,
        _ => Where::OneRtt,
    }
}

/// a frame of one of 24 shapes; `val` draws the integers; `sane` keeps clear of values that
/// rules beyond the wire format forbid
pub fn frame_of(r: &mut Rng, shape: u8, maxdata: usize, val: fn(&mut Rng) -> u64, sane: bool) -> RF {
    match shape {
        0 => RF::Padding,
        1 => RF::Ping,
        2 | 3 => {
            let n = match r.below(8) {
                0 => 0,
                1 => r.usize(0, 40),
                2 => *r.pick(&[63usize, 64, 65]),
                3 if !cfg!(miri) && r.chance(1, 6) => r.usize(100, 1100),
                _ => r.usize(0, 4),
            };
            let n = n.min(maxdata / 16);
            let ecn = if shape == 3 {
                Some((val(r), val(r), val(r)))
            } else {
                None
            };
            if sane {
                let largest = val(r).min(MAX62);
                let first = if largest == 0 { 0 } else { r.range(0, largest) };
                let mut small = largest - first;
                let mut ranges = vec![];
                for _ in 0..n {
                    if small < 2 {
                        break;
                    }
                    let top = (small - 2).min(if r.bool() { 100 } else { MAX62 });
                    let gap = r.range(0, top);
                    let l = small - 2 - gap;
                    let len = r.range(0, l);
                    small = l - len;
                    ranges.push((gap, len));
                }
                RF::Ack {
                    largest,
                    delay: val(r),
                    first,
                    ranges,
                    ecn,
                }
            } else {
                RF::Ack {
                    largest: val(r),
                    delay: val(r),
                    first: val(r),
                    ranges: (0..n).map(|_| (val(r), val(r))).collect(),
                    ecn,
                }
            }
        }
        4 => RF::ResetStream(val(r), val(r), val(r)),
        5 => RF::StopSending(val(r), val(r)),
        6 => {
            let n = dlen(r, maxdata);
            let o = if r.chance(1, 3) { 0 } else { val(r) };
            RF::Crypto {
                offset: if sane { o.min(MAX62 - n as u64) } else { o },
                data: r.texture(n),
            }
        }
        7 => {
            let n = dlen(r, maxdata).max(if sane { 1 } else { 0 });
            RF::NewToken(r.texture(n))
        }
        8..=11 => {
            let n = dlen(r, maxdata);
            let o = match shape {
                8 => 0,
                9 => 1 + r.below(63),
                _ => val(r),
            };
            RF::Stream {
                id: val(r),
                offset: if sane { o.min(MAX62 - n as u64) } else { o },
                data: r.texture(n),
                fin: r.bool(),
            }
        }
        12 => RF::MaxData(val(r)),
        13 => RF::MaxStreamData(val(r), val(r)),
        14 | 15 => {
            let v = val(r);
            RF::MaxStreams {
                max: if sane { v.min(1 << 60) } else { v },
                uni: shape == 15,
            }
        }
        16 => RF::DataBlocked(val(r)),
        17 => RF::StreamDataBlocked(val(r), val(r)),
        18 => {
            let v = val(r);
            RF::StreamsBlocked {
                max: if sane { v.min(1 << 60) } else { v },
                uni: r.bool(),
            }
        }
        19 => {
            let n = match r.below(4) {
                0 => 20,
                1 => 8,
                _ => r.usize(1, 20),
            };
            let seq = val(r);
            let retire = if sane { r.range(0, seq) } else { val(r) };
            let mut token = [0u8; 16];
            token.copy_from_slice(&r.texture(16));
            RF::NewConnectionId {
                seq,
                retire,
                id: r.texture(n),
                token,
            }
        }
        20 => RF::RetireConnectionId(val(r)),
        21 => {
            let n = dlen(r, maxdata);
            if r.bool() {
                RF::ConnClose {
                    code: val(r),
                    frame_type: val(r),
                    reason: r.texture(n),
                }
            } else {
                RF::AppClose {
                    code: val(r),
                    reason: r.texture(n),
                }
            }
        }
        22 => {
            let mut d = [0u8; 8];
            d.copy_from_slice(&r.texture(8));
            if r.bool() {
                RF::PathChallenge(d)
            } else {
                RF::PathResponse(d)
            }
        }
        _ => RF::HandshakeDone,
    }
}

pub fn frame(r: &mut Rng, w: Where, maxdata: usize) -> RF {
    let s = *r.pick(allowed(w));
    let f = frame_of(r, s, maxdata, v62, true);
    match (w, f) {
        // only the transport form of CONNECTION_CLOSE is allowed during the handshake
        (Where::Handshake, RF::AppClose { code, reason }) => RF::ConnClose {
            code,
            frame_type: v62(r),
            reason,
        },
        (_, f) => f,
    }
}

/// a valid payload of at least `min` bytes and its frames; integers may be non-minimal
pub fn payload(r: &mut Rng, w: Where, min: usize, max: usize) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 1,
        1 => r.usize(1, 30),
        _ => r.usize(1, 5),
    };
    let mut out = vec![];
    if !cfg!(miri) && max > 600 && r.chance(1, 24) {
        // very many small frames first
        let many = if r.bool() { r.usize(30, 300) } else { r.usize(250, 3000) };
        let open = r.chance(1, 2);
        for _ in 0..many {
            if out.len() + 200 > max {
                break;
            }
            if open || w == Where::Handshake {
                out.push(if r.chance(7, 8) { 0 } else { 1 });
            } else {
                let f = match r.below(4) {
                    0 => RF::MaxData(r.below(64)),
                    1 => RF::StopSending(r.below(64), r.below(64)),
                    2 => RF::Ping,
                    _ => RF::Padding,
                };
                wire::put_frame(&mut out, &f, false, &mut Wire::Any(r)).unwrap();
            }
        }
    }
    for i in 0..n {
        let room = max.saturating_sub(out.len());
        if room < 80 {
            break;
        }
        let f = frame(r, w, room - 70);
        let open = i + 1 == n && out.len() + 1 >= min && r.chance(1, 3);
        let at = out.len();
        wire::put_frame(&mut out, &f, open, &mut Wire::Any(r)).unwrap();
        if out.len() > max {
            out.truncate(at);
            break;
        }
        if open {
            if let RF::Stream { .. } = f {
                break;
            }
        }
    }
    let open_tail = wire::get_frames(&out).is_ok() && {
        // padding after an open-ended stream frame would become its data; harmless, still valid
        true
    };
    debug_assert!(open_tail);
    while out.len() < min {
        out.push(if r.bool() { 0 } else { 1 });
    }
    if r.chance(1, 5) && out.len() + 60 < max {
        for _ in 0..r.usize(1, 60) {
            out.push(0);
        }
    }
    // the padding may have landed in an open-ended frame whose rules it now breaks: keep it sane
    match wire::get_frames(&out) {
        Ok(p) if !p.may_refuse => out,
        _ => vec![1; min.max(1)],
    }
}

/// a version number: known, draft, greased, reserved or random; never 0
pub fn version(r: &mut Rng) -> u32 {
    let v = match r.below(12) {
        0 => r.u64() as u32,
        1 => 0x6b33_43cf,
        2 => 0xff00_0000 | r.below(64) as u32,
        3 => (r.u64() as u32 & 0xf0f0_f0f0) | 0x0a0a_0a0a,
        4 => *r.pick(&[2u32, 0x709a_50c4, 0x5130_3433, 0x5130_3530, u32::MAX, 0x0100_0000, 0x8000_0001, 0x0a0a_0a0a]),
        _ => 1,
    };
    v.max(1)
}

/// the widths a length may take on the wire
pub fn any_width(r: &mut Rng, v: u64) -> usize {
    let w = wire::min_width(v).unwrap();
    if r.chance(2, 3) {
        return w;
    }
    let c: Vec<usize> = [1usize, 2, 4, 8].iter().copied().filter(|x| *x >= w).collect();
    *r.pick(&c)
}

/// a packet number a peer may use and the state of the receiver: (pn, pn_len, largest received)
pub fn pn_for(r: &mut Rng, pn_len: usize) -> (u64, Option<u64>) {
    let win = 1u64 << (8 * pn_len);
    let hwin = win / 2;
    if r.chance(1, 4) {
        // nothing received yet
        let pn = match r.below(4) {
            0 => r.below(4),
            1 => win - 1 - r.below(3),
            2 => hwin + r.below(3) - 1,
            _ => r.below(win),
        };
        return (pn, None);
    }
    let largest = match r.below(5) {
        0 => r.below(4),
        1 => (v62(r) & !(win - 1)).wrapping_add(r.below(5)).wrapping_sub(2) & MAX62,
        2 => MAX62 - r.below(600),
        _ => v62(r),
    }
    .min(MAX62 - 1);
    let expected = largest + 1;
    // anything the receiver can tell apart: (expected - hwin, expected + hwin]
    let lo = expected.saturating_sub(hwin - 1);
    let hi = (expected + hwin).min(MAX62);
    let pn = match r.below(6) {
        0 => lo,
        1 => hi,
        2 => expected,
        3 => (expected + r.below(3)).min(hi),
        4 => expected.saturating_sub(1 + r.below(3)).max(lo),
        _ => r.range(lo, hi),
    };
    // (near the ends of the space the decoding rule clamps; keep what it recovers)
    let t = pn & (win - 1);
    let back = wire::decode_pn(Some(largest), t, 8 * pn_len as u32);
    (back.min(MAX62), Some(largest))
}

/// a sealed-packet description of the given kind
pub fn spec(r: &mut Rng, kind: PK, dcid: Vec<u8>, pn: u64, pn_len: usize, max_payload: usize) -> Spec {
    let p = payload(r, where_for(kind), (4 - pn_len).max(1), max_payload);
    let mut s = Spec::new(kind, dcid, pn, pn_len, p);
    if kind != PK::OneRtt {
        s.scid = cid(r);
    } else {
        s.spin = r.bool();
    }
    if kind == PK::Initial && r.chance(1, 2) {
        let n = dlen(r, 20000);
        s.token = r.texture(n);
    }
    s.token_len_width = any_width(r, s.token.len() as u64);
    s.length_width = any_width(r, s.length_value());
    s
}
