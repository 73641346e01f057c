//! Fixtures shared by the workloads.
use crate::crypto::Spec;
use crate::gen;
use crate::glue::*;
use crate::rng::Rng;
use crate::wire::{self, Wire, MAX62, PK};
use quic_sea::verif::connection::{self as qc, Space};

pub const PROTECTED: [PK; 4] = [PK::Initial, PK::ZeroRtt, PK::Handshake, PK::OneRtt];
pub const SPACES: [Space; 3] = [Space::Initial, Space::Handshake, Space::Application];

/// an endpoint, with the given probability (of 8) of having each level's keys
pub fn end(r: &mut Rng, p: u64) -> Result<End, String> {
    let c = gen::cid(r);
    let server = r.bool();
    end_with(r, server, &c, p)
}

pub fn end_with(r: &mut Rng, server: bool, dcid: &[u8], p: u64) -> Result<End, String> {
    let mut e = End::new(server, dcid)?;
    if r.below(8) < p {
        let (a, b) = (r.bytes(32), r.bytes(32));
        e.install(Space::Handshake, a, b)?;
    }
    if r.below(8) < p {
        let (a, b) = (r.bytes(32), r.bytes(32));
        e.install(Space::Application, a, b)?;
    }
    Ok(e)
}

/// the other end of a connection
pub fn mirror(e: &End) -> Result<End, String> {
    let mut o = End::new(!e.server, &e.orig_dcid)?;
    if let Some((a, b)) = &e.hs {
        o.install(Space::Handshake, b.clone(), a.clone())?;
    }
    if let Some((a, b)) = &e.app {
        o.install(Space::Application, b.clone(), a.clone())?;
    }
    Ok(o)
}

/// an identical endpoint built separately
pub fn twin(e: &End) -> Result<End, String> {
    let mut o = End::new(e.server, &e.orig_dcid)?;
    if let Some((a, b)) = &e.hs {
        o.install(Space::Handshake, a.clone(), b.clone())?;
    }
    if let Some((a, b)) = &e.app {
        o.install(Space::Application, a.clone(), b.clone())?;
    }
    Ok(o)
}

/// kinds the peer of `e` may send and whose keys are installed
pub fn receivable(e: &End) -> Vec<PK> {
    let mut v = vec![PK::Initial];
    if e.hs.is_some() {
        v.push(PK::Handshake);
    }
    if e.app.is_some() {
        v.push(PK::OneRtt);
        if e.server {
            v.push(PK::ZeroRtt);
        }
    }
    v
}

/// a packet its (conforming) peer could send to `e`
pub fn peer_spec(r: &mut Rng, e: &End, kind: PK, pn: u64, pn_len: usize, max_payload: usize) -> Spec {
    let dcid = if kind == PK::OneRtt {
        r.texture(8)
    } else {
        gen::cid(r)
    };
    let mut s = gen::spec(r, kind, dcid, pn, pn_len, max_payload);
    if !e.server {
        // servers send no token
        s.token.clear();
        s.token_len_width = gen::any_width(r, 0);
    } else {
        // frames only a server may send
        let p = wire::get_frames(&s.payload).expect("generated payload");
        if p.frames
            .iter()
            .any(|f| matches!(f, wire::RF::NewToken(_) | wire::RF::HandshakeDone))
        {
            let mut out = vec![];
            for f in &p.frames {
                if !matches!(f, wire::RF::NewToken(_) | wire::RF::HandshakeDone) {
                    wire::put_frame(&mut out, f, false, &mut Wire::Any(r)).unwrap();
                }
            }
            while out.len() < 4 {
                out.push(1);
            }
            s.payload = out;
            s.length_width = gen::any_width(r, s.length_value());
        }
    }
    s
}

/// picks packet number, its length and sets the receiver's state accordingly
pub fn arrange_pn(r: &mut Rng, e: &mut End, kind: PK) -> (u64, usize, Option<u64>) {
    let pn_len = r.usize(1, 4);
    let (pn, largest) = gen::pn_for(r, pn_len);
    qc::set_largest_received(&mut e.conn, space_of(kind), largest);
    (pn, pn_len, largest)
}

/// a genuine packet for `e`: description and datagram
pub fn genuine(r: &mut Rng, e: &mut End, kind: PK, max_payload: usize) -> (Spec, Vec<u8>) {
    let (pn, pn_len, _) = arrange_pn(r, e, kind);
    let s = peer_spec(r, e, kind, pn, pn_len, max_payload);
    let k = e.peer_keys(kind).expect("keys");
    let d = s.seal(&k).expect("sealable");
    (s, d)
}

/// lengths and counts that lie
pub fn lie(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => MAX62,
        1 => MAX62 - r.below(20),
        2 => 1 << r.range(16, 61),
        3 => (1 << r.range(16, 61)) - 1,
        4 => u32::MAX as u64 + r.below(3) - 1,
        5 => (i32::MAX as u64) + r.below(3) - 1,
        _ => gen::v62(r),
    }
}

fn put_any(r: &mut Rng, out: &mut Vec<u8>, v: u64) {
    let w = gen::any_width(r, v);
    wire::put_width(out, v, w);
}

/// payload bytes meant to confuse a frame parser
pub fn hostile_payload(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut out = vec![];
    match r.below(9) {
        0 => {
            let n = r.usize(0, 60.min(max));
            out = r.texture(n);
        }
        1 => {
            // valid, then broken
            out = gen::payload(r, gen::Where::Any, 1, max.max(120));
            mutate(r, &mut out);
        }
        2 => {
            out.push(*r.pick(&[2u8, 3]));
            let (a, b, c) = (gen::v62(r), lie(r), gen::v62(r));
            put_any(r, &mut out, a);
            put_any(r, &mut out, 0);
            put_any(r, &mut out, b);
            put_any(r, &mut out, c);
            let n = r.usize(0, 20);
            out.extend(r.texture(n));
        }
        3 => {
            out.push(6);
            let (a, b) = (lie(r), lie(r));
            put_any(r, &mut out, a);
            put_any(r, &mut out, b);
            let n = r.usize(0, 20);
            out.extend(r.texture(n));
        }
        4 => {
            out.push(7);
            let a = lie(r);
            put_any(r, &mut out, a);
            let n = r.usize(0, 20);
            out.extend(r.texture(n));
        }
        5 => {
            out.push(8 + r.below(8) as u8);
            for _ in 0..3 {
                let a = lie(r);
                put_any(r, &mut out, a);
            }
            let n = r.usize(0, 20);
            out.extend(r.texture(n));
        }
        6 => {
            out.push(*r.pick(&[0x1cu8, 0x1d]));
            for _ in 0..3 {
                let a = lie(r);
                put_any(r, &mut out, a);
            }
            let n = r.usize(0, 20);
            out.extend(r.texture(n));
        }
        7 => {
            out.push(0x18);
            let (a, b) = (gen::v62(r), gen::v62(r));
            put_any(r, &mut out, a);
            put_any(r, &mut out, b);
            out.push(if r.bool() { r.u8() } else { r.range(0, 21) as u8 });
            let n = r.usize(0, 60);
            out.extend(r.texture(n));
        }
        _ => {
            // many frames
            let n = r.usize(1, 400);
            for _ in 0..n {
                out.push(r.below(0x22) as u8);
                let k = r.usize(0, 3);
                out.extend(r.texture(k));
            }
        }
    }
    out.truncate(max);
    out
}

pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.usize(1, 3) {
        if b.is_empty() {
            b.push(r.u8());
            continue;
        }
        let i = r.usize(0, b.len() - 1);
        match r.below(8) {
            0 => b.truncate(i),
            1 => b[i] ^= 1 << r.below(8),
            2 => b[i] = r.u8(),
            3 => b.insert(i, r.u8()),
            4 => {
                b.remove(i);
            }
            5 => {
                let n = r.usize(1, 30);
                b.extend(r.texture(n));
            }
            6 => {
                let j = (i + r.usize(1, 8)).min(b.len());
                let c = b[i..j].to_vec();
                let at = r.usize(0, b.len());
                for (k, x) in c.into_iter().enumerate() {
                    b.insert(at + k, x);
                }
            }
            _ => {
                for k in i..(i + 8).min(b.len()) {
                    b[k] = 0xff;
                }
            }
        }
    }
}

pub fn header_bytes(r: &mut Rng, kind: Option<PK>) -> Vec<u8> {
    let mut b = vec![];
    let first = r.u8();
    let kind = kind.unwrap_or(*r.pick(&[
        PK::Initial,
        PK::ZeroRtt,
        PK::Handshake,
        PK::Retry,
        PK::OneRtt,
        PK::Vn,
    ]));
    match kind {
        PK::OneRtt => {
            b.push(first & 0x7f);
            b.extend(r.texture(8));
            return b;
        }
        PK::Vn => {
            b.push(first | 0x80);
            b.extend([0, 0, 0, 0]);
            let n = if r.bool() { r.usize(0, 255) } else { r.usize(0, 20) };
            b.push(n as u8);
            b.extend(r.texture(n));
            let n = if r.bool() { r.usize(0, 255) } else { r.usize(0, 20) };
            b.push(n as u8);
            b.extend(r.texture(n));
            return b;
        }
        k => {
            let t = match k {
                PK::Initial => 0,
                PK::ZeroRtt => 0x10,
                PK::Handshake => 0x20,
                _ => 0x30,
            };
            b.push((first & 0x4f) | 0x80 | t);
        }
    }
    let v = gen::version(r);
    b.extend(v.to_be_bytes());
    let n = if r.chance(1, 12) { r.usize(0, 255) } else { gen::cid_len(r) };
    b.push(n as u8);
    b.extend(r.texture(n));
    let n = if r.chance(1, 12) { r.usize(0, 255) } else { gen::cid_len(r) };
    b.push(n as u8);
    b.extend(r.texture(n));
    b
}

/// A datagram an attacker (who may hold the keys) could send to `e`
pub fn hostile(r: &mut Rng, e: &mut End, big: bool) -> (Vec<u8>, &'static str) {
    let class = r.below(if big { 18 } else { 13 });
    let kinds = receivable(e);
    let kind = *r.pick(&kinds);
    match class {
        0 => {
            let n = r.usize(0, 80);
            (r.texture(n), "random")
        }
        1 => {
            let n = r.usize(0, 60);
            let mut b = header_bytes(r, None);
            b.extend(r.texture(n));
            (b, "header+random")
        }
        2 => {
            // declared token / packet length lies
            let k = *r.pick(&PROTECTED);
            let mut b = header_bytes(r, Some(k));
            if k == PK::Initial {
                let v = if r.bool() { lie(r) } else { 0 };
                put_any(r, &mut b, v);
            }
            if k != PK::OneRtt {
                let v = if r.bool() { lie(r) } else { r.below(64) };
                put_any(r, &mut b, v);
            }
            let n = r.usize(0, 60);
            b.extend(r.texture(n));
            (b, "lying lengths")
        }
        3 => {
            let mut b = header_bytes(r, Some(PK::Vn));
            let n = if r.chance(1, 6) { 4 * r.usize(10, 400) } else { r.usize(0, 40) };
            b.extend(r.texture(n));
            (b, "version negotiation")
        }
        4 => {
            let mut b = header_bytes(r, Some(PK::Retry));
            let n = r.usize(0, 40);
            b.extend(r.texture(n));
            (b, "retry")
        }
        5 | 6 => {
            // really sealed, hostile contents
            let (pn, pn_len, _) = arrange_pn(r, e, kind);
            let mut s = peer_spec(r, e, kind, pn, pn_len, 60);
            s.payload = hostile_payload(r, 1200);
            while s.payload.len() + pn_len < 4 {
                s.payload.push(r.u8());
            }
            s.length_width = gen::any_width(r, s.length_value());
            let d = s.seal(&e.peer_keys(kind).unwrap()).unwrap();
            (d, "sealed hostile payload")
        }
        7 => {
            // header protected properly around a length that does not fit
            let (pn, pn_len, _) = arrange_pn(r, e, kind);
            let mut s = peer_spec(r, e, kind, pn, pn_len, 60);
            let len = match r.below(6) {
                0 => r.below(pn_len as u64 + 1),
                1 => r.below(4),
                2 => r.range(pn_len as u64, pn_len as u64 + 20),
                3 => lie(r),
                _ => r.below(64),
            };
            s.length_width = gen::any_width(r, len);
            let header = s.clear_header_with_length(len);
            let n = r.usize(20, 60);
            let body = r.texture(n);
            let k = e.peer_keys(kind).unwrap();
            (
                Spec::protect(kind, pn_len, header, body, &k).unwrap(),
                "protected, wrong length",
            )
        }
        8 => {
            // correctly sealed but (nearly) empty plaintext, followed by filler
            let (pn, pn_len, _) = arrange_pn(r, e, kind);
            let mut s = peer_spec(r, e, kind, pn, pn_len, 60);
            let n = r.usize(0, 3);
            s.payload = r.texture(n);
            s.length_width = gen::any_width(r, s.length_value());
            let k = e.peer_keys(kind).unwrap();
            let header = s.clear_header();
            let mut sealed = k.seal(s.pn, &header, &s.payload);
            let n = r.usize(4, 40);
            sealed.extend(r.texture(n));
            (
                Spec::protect(kind, pn_len, header, sealed, &k).unwrap(),
                "tiny sealed payload",
            )
        }
        9 => {
            let (_, mut d) = genuine(r, e, kind, 300);
            mutate(r, &mut d);
            (d, "mutated genuine packet")
        }
        10 => {
            let (_, d) = genuine(r, e, kind, 300);
            let n = r.usize(0, d.len());
            (d[..n].to_vec(), "truncated genuine packet")
        }
        11 => {
            let mut b = vec![];
            for _ in 0..r.usize(2, 5) {
                let ks: Vec<PK> = kinds.iter().copied().filter(|k| *k != PK::OneRtt).collect();
                let k = *r.pick(&ks);
                // keep the receiver's window where it is
                qc::set_largest_received(&mut e.conn, space_of(k), None);
                let pn_len = r.usize(1, 4);
                let pn = r.below(1 << (8 * pn_len - 1));
                let s = peer_spec(r, e, k, pn, pn_len, 100);
                b.extend(s.seal(&e.peer_keys(k).unwrap()).unwrap());
            }
            let (t, _) = hostile(r, e, false);
            b.extend(t);
            (b, "coalesced")
        }
        12 => {
            let (_, d) = genuine(r, e, kind, 600);
            (d, "genuine packet")
        }
        13 => {
            // floods of the maximum size
            let n = r.usize(2000, 65527);
            let mut b = header_bytes(r, None);
            let unit_n = r.usize(1, 12);
            let unit = r.texture(unit_n);
            while b.len() < n {
                b.extend_from_slice(&unit);
            }
            b.truncate(n);
            (b, "large flood")
        }
        14 => {
            // as many of the smallest valid packets as fit
            let ks: Vec<PK> = kinds.iter().copied().filter(|k| *k != PK::OneRtt).collect();
            let n = r.usize(2000, 65000);
            for s in SPACES {
                qc::set_largest_received(&mut e.conn, s, None);
            }
            let mut b = vec![];
            while b.len() < n {
                let k = *r.pick(&ks);
                let pn_len = r.usize(1, 4);
                let pn = r.below(1 << (8 * pn_len - 1));
                let mut s = Spec::new(k, vec![], pn, pn_len, vec![1; (4 - pn_len).max(1)]);
                s.scid = vec![];
                s.fit_widths();
                b.extend(s.seal(&e.peer_keys(k).unwrap()).unwrap());
            }
            (b, "thousands of packets")
        }
        16 => {
            // a large token in front of anything
            let (pn, pn_len, _) = arrange_pn(r, e, PK::Initial);
            let mut s = peer_spec(r, e, PK::Initial, pn, pn_len, 60);
            let n = r.usize(2000, 65300);
            s.token = r.texture(n);
            s.fit_widths();
            let mut d = s.seal(&e.peer_keys(PK::Initial).unwrap()).unwrap();
            if r.chance(1, 4) {
                let n = r.usize(0, d.len());
                d.truncate(n);
            }
            (d, "large token")
        }
        17 => {
            let k = if r.bool() { PK::Vn } else { PK::Retry };
            let mut b = header_bytes(r, Some(k));
            let n = r.usize(2000, 65000);
            b.extend(r.texture(n));
            (b, "large negotiation or retry")
        }
        _ => {
            let (pn, pn_len, _) = arrange_pn(r, e, kind);
            let mut s = peer_spec(r, e, kind, pn, pn_len, 60);
            s.payload = big_payload(r);
            s.length_width = gen::any_width(r, s.length_value());
            let d = s.seal(&e.peer_keys(kind).unwrap()).unwrap();
            (d, "large sealed")
        }
    }
}

/// a payload that costs as much as possible to parse
pub fn big_payload(r: &mut Rng) -> Vec<u8> {
    let n = if !cfg!(miri) && r.chance(1, 40) { r.usize(65000, 80000) } else { r.usize(2000, 65000) };
    match r.below(9) {
        0 => vec![0; n],
        1 => vec![1; n],
        7 | 8 => {
            // one large field
            let mut p = match r.below(4) {
                0 => vec![0x06, 0x00],
                1 => vec![0x07],
                2 => vec![0x0f, 0x04, 0x01],
                _ => vec![0x1d, 0x03],
            };
            wire::put_width(&mut p, n as u64, *r.pick(&[4usize, 8]));
            p.extend(r.texture(n));
            let n = r.usize(0, 30);
            p.extend(r.texture(n));
            p
        }
        2 => {
            // as many ack ranges as fit
            let mut p = vec![2, 0x40, 0x40, 0];
            wire::put_width(&mut p, (n / 2) as u64, 4);
            p.push(0);
            while p.len() < n {
                p.push(0);
            }
            p
        }
        3 => {
            let mut p = vec![];
            while p.len() < n {
                p.extend([0x06, 0x00, 0x01, 0xaa]);
            }
            p
        }
        5 => {
            // one-byte streams, offsets and lengths present
            let mut p = vec![];
            while p.len() < n {
                p.extend([0x0e, 0x04, 0x01, 0x01, 0xaa]);
            }
            p
        }
        4 => {
            let mut p = vec![0x08, 0x04];
            p.extend(r.texture(n));
            p
        }
        _ => {
            let mut p = vec![];
            while p.len() < n {
                p.push(*r.pick(&[0u8, 1, 0x1e]));
            }
            p
        }
    }
}
