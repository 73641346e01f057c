//! C11 allotment of packet numbers, C12 their truncation and reconstruction, C19 decoding is pure
use super::fixtures::*;
use crate::crypto::{self};
use crate::gen;
use crate::glue::*;
use crate::obs::Case;
use crate::rng::Rng;
use crate::wire::{self, hexs, MAX62, PK, RF};
use crate::{ensure, Ctx};
use quic_sea::verif::connection::{self as qc, Space};
use quic_sea::verif::packet as qp;
use std::collections::HashMap;

fn si(s: Space) -> usize {
    match s {
        Space::Initial => 0,
        Space::Handshake => 1,
        Space::Application => 2,
    }
}

// ------------------------------------------------------------------ C11
/// what one sending operation gave: the number and its truncated form, and the packet if built
#[derive(PartialEq, Debug, Clone)]
enum Sent {
    Refused,
    Number(u64, Vec<u8>),
    Unserializable(u64, Vec<u8>),
    Packet(u64, Vec<u8>, Vec<u8>),
}

impl Sent {
    fn pn(&self) -> Option<u64> {
        match self {
            Sent::Refused => None,
            Sent::Number(p, _) | Sent::Unserializable(p, _) | Sent::Packet(p, _, _) => Some(*p),
        }
    }
}

#[derive(Clone, Debug)]
enum Send {
    Next,
    Build { fs: Vec<RF>, token: Option<Vec<u8>> },
}

fn send(e: &mut End, space: Space, op: &Send) -> Result<Sent, String> {
    let build = |v: qp::PacketView, out: Result<Vec<u8>, quic_sea::verif::Error>, again: Result<Vec<u8>, quic_sea::verif::Error>| {
        let pn = v.packet_number.ok_or("packet without a number")?;
        let b = v.packet_number_bytes.ok_or("packet without number bytes")?;
        match (out, again) {
            (Ok(x), Ok(y)) => {
                if x != y {
                    return Err(format!(
                        "serializing packet {} twice sealed two different packets under one number: {} and {}",
                        pn,
                        hexs(&x),
                        hexs(&y)
                    ));
                }
                Ok(Sent::Packet(pn, b, x))
            }
            (Err(_), Err(_)) => Ok(Sent::Unserializable(pn, b)),
            _ => Err(format!("serializing packet {} works only sometimes", pn)),
        }
    };
    match op {
        Send::Next => Ok(match e.conn.get_next_pn(space.pn_space()) {
            Ok((pn, b)) => Sent::Number(pn, b),
            Err(_) => Sent::Refused,
        }),
        Send::Build { fs, token } => match space {
            Space::Initial => match qp::PacketInitial::new(lib_frames(fs), token.clone(), &mut e.conn) {
                Ok(p) => build(
                    qp::initial_view(&p),
                    qp::serialize_initial(&p, &e.conn),
                    qp::serialize_initial(&p, &e.conn),
                ),
                Err(_) => Ok(Sent::Refused),
            },
            Space::Handshake => match qp::PacketHandshake::new(lib_frames(fs), &mut e.conn) {
                Ok(p) => build(
                    qp::handshake_view(&p),
                    qp::serialize_handshake(&p, &e.conn),
                    qp::serialize_handshake(&p, &e.conn),
                ),
                Err(_) => Ok(Sent::Refused),
            },
            Space::Application => Ok(match e.conn.get_next_pn(space.pn_space()) {
                Ok((pn, b)) => Sent::Number(pn, b),
                Err(_) => Sent::Refused,
            }),
        },
    }
}

pub fn c11(c: &mut Ctx) -> Case {
    let mut e = end(&mut c.r, 6)?;
    // one isolated connection per space: it only ever sees that space's operations
    let mut alone = vec![twin(&e)?, twin(&e)?, twin(&e)?];
    if c.r.chance(9, 10) {
        let s = gen::cid(&mut c.r);
        e.conn.set_scid(id(&s), s.len());
        for a in alone.iter_mut() {
            a.conn.set_scid(id(&s), s.len());
        }
    }
    let mut last: [Option<u64>; 3] = [None; 3];
    let mut acked: [Option<u64>; 3] = [None; 3];
    let mut nonces: HashMap<(usize, u64), Vec<u8>> = HashMap::new();
    let mut log: Vec<String> = vec![];
    let steps = if c.r.chance(1, 40) { 300 } else { c.r.usize(4, 30) };
    for step in 0..steps {
        let space = *c.r.pick(&SPACES);
        let i = si(space);
        match c.r.below(15) {
            12 => {
                // another source id for what is sent from here on
                let s = gen::cid(&mut c.r);
                e.conn.set_scid(id(&s), s.len());
                for a in alone.iter_mut() {
                    a.conn.set_scid(id(&s), s.len());
                }
                log.push("new source id".into());
                c.o.count("source id replaced");
            }
            13 => {
                // the counter is far along but nothing has been acknowledged for long: allotting may fail
                let to = last[i].unwrap_or(0)
                    + match c.r.below(6) {
                        4 | 5 => {
                            // about to cross a power of two (nothing is said about where it started)
                            let b = c.r.range(8, 61);
                            (1u64 << b).saturating_sub(c.r.range(1, 4)).saturating_sub(last[i].unwrap_or(0))
                        }
                        0 => (1 << 31) + c.r.below(8) - 4,
                        1 => c.r.range(1 << 30, 1 << 34),
                        2 => (1 << 32) + c.r.below(1 << 10),
                        _ => c.r.below(1 << 40),
                    };
                if to < MAX62 && last[i].map_or(true, |l| to > l) {
                    for x in [&mut e, &mut alone[i]] {
                        qc::set_pn_counter(&mut x.conn, space, to);
                    }
                    last[i] = to.checked_sub(1).or(last[i]);
                    log.push(format!("{:?} at {} without acknowledgement", space, to));
                    c.o.count("counter far beyond the acknowledgements");
                }
            }
            14 => {
                if c.r.chance(1, 3) && (e.hs.is_none() || e.app.is_none()) {
                    // keys arrive while packets are being sent
                    let sp = if e.hs.is_none() { Space::Handshake } else { Space::Application };
                    let (a, b) = (c.r.bytes(32), c.r.bytes(32));
                    e.install(sp, a.clone(), b.clone())?;
                    for x in alone.iter_mut() {
                        x.install(sp, a.clone(), b.clone())?;
                    }
                    log.push(format!("{:?} keys", sp));
                    c.o.count("keys installed in between");
                } else if c.r.chance(1, 8) {
                    // many numbers in a row
                    let n = if c.r.chance(1, 20) { 70_000 } else { c.r.usize(100, 1500) };
                    let mut given = 0u64;
                    for _ in 0..n {
                        let got = e.conn.get_next_pn(space.pn_space()).ok();
                        let iso = alone[i].conn.get_next_pn(space.pn_space()).ok();
                        ensure!(
                            got == iso,
                            "step {}: a run of {} numbers in {:?} gave {:?}, but {:?} on a connection that saw only this space's operations, after [{}]",
                            step, n, space, got, iso, log[log.len().saturating_sub(12)..].join("; ")
                        );
                        if let Some((pn, _)) = got {
                            ensure!(
                                pn <= MAX62 && last[i].map_or(true, |l| pn > l),
                                "step {}: a run of {} numbers in {:?} gave {} after {:?}, after [{}]",
                                step, n, space, pn, last[i], log[log.len().saturating_sub(12)..].join("; ")
                            );
                            last[i] = Some(pn);
                            given += 1;
                        }
                    }
                    c.o.eval();
                    c.o.max("numbers in one run", given);
                    log.push(format!("{:?} {} in a row", space, given));
                }
            }
            0 => {
                // an acknowledgement arrives
                if let Some(l) = last[i] {
                    let a = if c.r.bool() { l } else { c.r.range(l.saturating_sub(300), l) };
                    if acked[i].map_or(true, |x| a >= x) {
                        acked[i] = Some(a);
                        qc::set_largest_acked(&mut e.conn, space, acked[i]);
                        qc::set_largest_acked(&mut alone[i].conn, space, acked[i]);
                        log.push(format!("{:?} ack {}", space, a));
                    }
                }
            }
            1 => {
                // long after: the counter is far along (both it and the acknowledgements)
                let to = match c.r.below(8) {
                    6 | 7 => (1u64 << c.r.range(6, 61)) - c.r.range(1, 4),
                    0 => MAX62 - c.r.below(4),
                    1 => MAX62 - c.r.below(20),
                    2 => (1 << 32) - c.r.below(3),
                    3 => c.r.below(1 << 20),
                    4 => c.r.below(1 << 31),
                    _ => gen::v62(&mut c.r),
                };
                if last[i].map_or(true, |l| to > l) {
                    for x in [&mut e, &mut alone[i]] {
                        qc::set_pn_counter(&mut x.conn, space, to);
                        qc::set_largest_acked(&mut x.conn, space, Some(to.saturating_sub(1)));
                    }
                    acked[i] = Some(to.saturating_sub(1));
                    // (whether the counter holds the last or the next number is the library's choice)
                    last[i] = to.checked_sub(1).or(last[i]);
                    log.push(format!("{:?} at {}", space, to));
                }
            }
            2 | 3 => {
                // something arrives
                let kinds = receivable(&e);
                let k = *c.r.pick(&kinds);
                let d = match c.r.below(3) {
                    0 => hostile(&mut c.r, &mut e, false).0,
                    1 => {
                        let mut d = genuine(&mut c.r, &mut e, k, 200).1;
                        mutate(&mut c.r, &mut d);
                        d
                    }
                    _ => genuine(&mut c.r, &mut e, k, 200).1,
                };
                let r = lib_decode(&d, &e.conn);
                log.push(format!("received {} bytes ({})", d.len(), if r.is_ok() { "valid" } else { "refused" }));
                c.o.count(if r.is_ok() { "packet received in between" } else { "junk received in between" });
            }
            k => {
                let op = if k < 6 {
                    Send::Next
                } else {
                    let mut fs: Vec<RF> = vec![];
                    for _ in 0..c.r.usize(0, 3) {
                        let w = if c.r.chance(1, 4) { gen::Where::Any } else { gen::Where::Handshake };
                        fs.push(gen::frame(&mut c.r, w, 60));
                    }
                    if c.r.chance(1, 4) {
                        // fails when it is serialized
                        fs.push(RF::Crypto { offset: u64::MAX, data: vec![1] });
                    }
                    let token = if c.r.bool() {
                        let n = c.r.usize(0, 30);
                        Some(c.r.texture(n))
                    } else {
                        None
                    };
                    Send::Build { fs, token }
                };
                let ctx = |log: &[String]| {
                    format!(
                        "step {}: {:?} in {:?} after [{}]",
                        step,
                        op,
                        space,
                        log[log.len().saturating_sub(12)..].join("; ")
                    )
                };
                let got = send(&mut e, space, &op).map_err(|x| format!("{}: {}", ctx(&log), x))?;
                let iso = send(&mut alone[i], space, &op).map_err(|x| format!("{} (alone): {}", ctx(&log), x))?;
                c.o.eval();
                ensure!(
                    got == iso,
                    "{}: gave {:?}, but {:?} on a connection that saw only this space's operations",
                    ctx(&log),
                    got,
                    iso
                );
                if let Some(pn) = got.pn() {
                    ensure!(
                        pn <= MAX62,
                        "{}: packet number {} exceeds 2^62-1",
                        ctx(&log),
                        pn
                    );
                    ensure!(
                        last[i].map_or(true, |l| pn > l),
                        "{}: packet number {} was allotted although {} was allotted before",
                        ctx(&log),
                        pn,
                        last[i].unwrap_or(0)
                    );
                    last[i] = Some(pn);
                    c.o.max("largest number allotted", pn);
                }
                match &got {
                    Sent::Refused => c.o.count("refused"),
                    Sent::Number(..) => c.o.count("number allotted"),
                    Sent::Unserializable(..) => c.o.count("packet built but not serializable"),
                    Sent::Packet(pn, _, d) => {
                        c.o.count("packet sealed");
                        // the number the packet is really sealed under
                        let kind = if i == 0 { PK::Initial } else { PK::Handshake };
                        let keys = e.own_keys(kind).ok_or_else(|| format!("{}: sealed without keys", ctx(&log)))?;
                        // (a receiver that has everything up to the number before)
                        let mut under = crypto::open(d, &keys, pn.checked_sub(1)).ok().map(|o| o.spec.pn);
                        if under.is_none() {
                            // not under its own number (C08's business); under another one?
                            let mut cand: Vec<u64> = (0..64).chain(pn.saturating_sub(64)..=*pn).collect();
                            cand.extend(nonces.keys().filter(|k| k.0 == i).map(|k| k.1));
                            under = cand.into_iter().find(|n| crypto::opens_under(d, &keys, *n));
                            c.o.count(if under.is_some() {
                                "sealed under another number than its own"
                            } else {
                                "number it is sealed under not found"
                            });
                        }
                        if let Some(n) = under {
                            if let Some(other) = nonces.insert((i, n), d.clone()) {
                                ensure!(
                                    other == *d,
                                    "{}: {} and {} are sealed under the same key and number {}",
                                    ctx(&log),
                                    hexs(&other),
                                    hexs(d),
                                    n
                                );
                            }
                        }
                    }
                }
                log.push(format!("{:?} -> {:?}", space, got.pn()));
            }
        }
    }
    c.o.distinct(&[log.join("|").as_bytes()]);
    c.o.sample(|| log[..log.len().min(12)].join("; "));
    Ok(())
}

// ------------------------------------------------------------------ C12
fn pn_near(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => {
            let bits = *r.pick(&[7u64, 8, 15, 16, 23, 24, 31, 32, 40, 61]);
            (1u64 << bits).wrapping_add(r.below(7)).wrapping_sub(3) & MAX62
        }
        1 => {
            let b = *r.pick(&[2u64, 8, 16, 24, 32]);
            MAX62 - r.below(1 << b)
        }
        _ => gen::v62(r),
    }
}

/// the truncated form that comes with an allotted number
fn judge_truncation(c: &mut Ctx, e: &mut End, pn: u64, la: Option<u64>) -> Result<Option<Vec<u8>>, String> {
    let space = *c.r.pick(&SPACES);
    // does the counter hold the last or the next number?
    qc::set_largest_acked(&mut e.conn, space, Some(998));
    qc::set_pn_counter(&mut e.conn, space, 1000);
    let ahead = match e.conn.get_next_pn(space.pn_space()) {
        Ok((x, _)) if (1000..=1001).contains(&x) => x - 1000,
        x => return Err(format!("after packet number 1000 comes {:?}", x.map_err(|x| es(&x)))),
    };
    let Some(counter) = pn.checked_sub(ahead) else { return Ok(None) };
    qc::set_pn_counter(&mut e.conn, space, counter);
    for s in SPACES {
        // acknowledgements in the other spaces do not matter
        let v = if s == space {
            la
        } else if c.r.bool() {
            None
        } else {
            Some(pn_near(&mut c.r))
        };
        qc::set_largest_acked(&mut e.conn, s, v);
    }
    c.o.eval();
    c.o.distinct(&[b"t", &pn.to_be_bytes(), format!("{:?}", la).as_bytes()]);
    let unacked: u128 = match la {
        None => pn as u128 + 1,
        Some(x) if x < pn => (pn - x) as u128,
        Some(_) => 0,
    };
    match e.conn.get_next_pn(space.pn_space()) {
        Err(x) => {
            ensure!(
                unacked == 0 || unacked > 1 << 31 || pn >= MAX62,
                "packet number {} with largest acknowledged {:?} cannot be truncated: {}",
                pn,
                la,
                es(&x)
            );
            c.o.count("truncation refused");
            Ok(None)
        }
        Ok((p, b)) => {
            ensure!(p == pn, "packet number {} allotted instead of {}", p, pn);
            ensure!(
                unacked != 0,
                "packet number {} truncated to {} although {:?} is acknowledged",
                pn,
                wire::hex(&b),
                la
            );
            ensure!(
                (1..=4).contains(&b.len()),
                "packet number {} with largest acknowledged {:?} truncated to {} bytes",
                pn,
                la,
                b.len()
            );
            ensure!(
                b[..] == pn.to_be_bytes()[8 - b.len()..],
                "packet number {:#x} truncated to {}",
                pn,
                wire::hex(&b)
            );
            ensure!(
                1u128 << (8 * b.len()) >= 2 * unacked,
                "packet number {} with largest acknowledged {:?} truncated to {} bytes, too few for {} unacknowledged",
                pn,
                la,
                b.len(),
                unacked
            );
            c.o.count(&format!("truncated to {} bytes", b.len()));
            Ok(Some(b))
        }
    }
}

/// reconstructs in one space while the others hold something else
fn judge_reconstruction(c: &mut Ctx, e: &mut End, space: Space, largest: Option<u64>, t: &[u8]) -> Result<u64, String> {
    for s in SPACES {
        let v = if s == space {
            largest
        } else if c.r.bool() {
            None
        } else {
            Some(pn_near(&mut c.r))
        };
        qc::set_largest_received(&mut e.conn, s, v);
        // what we sent and had acknowledged does not matter for what we receive
        if c.r.bool() {
            let v = Some(pn_near(&mut c.r));
            qc::set_largest_acked(&mut e.conn, s, v);
        }
    }
    let mut v = 0u64;
    for b in t {
        v = v << 8 | *b as u64;
    }
    let want = wire::decode_pn(largest, v, 8 * t.len() as u32);
    c.o.eval();
    c.o.distinct(&[b"r", format!("{:?}", largest).as_bytes(), t]);
    match e.conn.reconstruct_remote_pn(space.pn_space(), t) {
        Ok(x) => {
            ensure!(
                x == want,
                "{} in the {:?} space with largest received {:?} reconstructed to {}, RFC 9000 A.3 gives {}",
                wire::hex(t),
                space,
                largest,
                x,
                want
            );
            c.o.count(&format!("{}-byte number reconstructed", t.len()));
        }
        Err(x) => {
            ensure!(
                want > MAX62,
                "{} in the {:?} space with largest received {:?} was not reconstructed: {}",
                wire::hex(t),
                space,
                largest,
                es(&x)
            );
        }
    }
    Ok(want)
}

pub fn c12(c: &mut Ctx) -> Case {
    let d = gen::cid(&mut c.r);
    let server = c.r.bool();
    let mut e = End::new(server, &d)?;
    if c.idx < 256 {
        // every one-byte number around every window position
        let b = c.idx as u8;
        for l in 0..600u64 {
            judge_reconstruction(c, &mut e, Space::Application, l.checked_sub(1), &[b])?;
        }
        for k in 0..300u64 {
            judge_reconstruction(c, &mut e, Space::Initial, Some(MAX62 - k), &[b])?;
        }
        c.o.count("chunk of all one-byte numbers");
        return Ok(());
    }
    if c.idx < 256 + 64 {
        // every distance near every width boundary
        let bit = c.idx - 256;
        for d in 0..9u64 {
            let diff = (1u64 << bit.min(62)).wrapping_add(d).wrapping_sub(4);
            if diff == 0 || diff > MAX62 {
                continue;
            }
            for la in [0, 1, 255, 256, c.r.below(1 << 32), gen::v62(&mut c.r)] {
                if la + diff <= MAX62 {
                    judge_truncation(c, &mut e, la + diff, Some(la))?;
                }
            }
            judge_truncation(c, &mut e, diff, None)?;
            judge_truncation(c, &mut e, diff, Some(diff))?;
        }
        c.o.count("chunk of all distances near powers of two");
        return Ok(());
    }
    let space = *c.r.pick(&SPACES);
    // plain reconstruction of anything
    let n = c.r.usize(1, 4);
    let t = c.r.texture(n);
    let win = 1u64 << (8 * n);
    let largest = if c.r.chance(1, 8) {
        None
    } else {
        let mut v = 0u64;
        for b in &t {
            v = v << 8 | *b as u64;
        }
        Some(match c.r.below(3) {
            0 => pn_near(&mut c.r),
            1 => {
                // at a decision boundary of the rule
                let base = pn_near(&mut c.r) & !(win - 1);
                (base | v)
                    .wrapping_add(win / 2)
                    .wrapping_add(c.r.below(5))
                    .wrapping_sub(3)
                    & MAX62
            }
            _ => {
                let base = pn_near(&mut c.r) & !(win - 1);
                (base | v)
                    .wrapping_sub(win / 2)
                    .wrapping_add(c.r.below(5))
                    .wrapping_sub(3)
                    & MAX62
            }
        })
    };
    judge_reconstruction(c, &mut e, space, largest, &t)?;
    // truncated by the library, recovered by the library
    let pn = pn_near(&mut c.r);
    let la = if c.r.chance(1, 6) {
        None
    } else {
        let back = match c.r.below(6) {
            0 => c.r.below(4),
            1 => c.r.below(1 << 9),
            2 => {
                let b = *c.r.pick(&[7u64, 8, 15, 16, 23, 24, 31, 32]);
                (1u64 << b).wrapping_add(c.r.below(5)).wrapping_sub(2)
            }
            3 => 3u64 << c.r.below(30),
            4 => c.r.below(1 << 32),
            _ => {
                let n = c.r.range(1, 62);
                c.r.u64() >> (64 - n)
            }
        };
        Some(pn.saturating_sub(back))
    };
    if let Some(b) = judge_truncation(c, &mut e, pn, la)? {
        let mut receivers: Vec<Option<u64>> = vec![la, pn.checked_sub(1)];
        let lo = la.unwrap_or(0);
        if pn > lo {
            for _ in 0..3 {
                receivers.push(Some(c.r.range(lo, pn - 1)));
            }
        }
        for r in receivers {
            let back = judge_reconstruction(c, &mut e, space, r, &b)?;
            ensure!(
                back == pn,
                "packet number {} (largest acknowledged {:?}) was sent as {} and is recovered as {} by a receiver that has {:?}",
                pn,
                la,
                wire::hex(&b),
                back,
                r
            );
        }
        c.o.count("truncated and recovered");
        c.o.sample(|| format!("{} acknowledged {:?} -> {}", pn, la, wire::hex(&b)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C19
/// what a history must leave alone: receive windows, counters and the source id
struct Kept {
    largest: Vec<Option<u64>>,
    counter: Vec<u64>,
    scid: Option<Vec<u8>>,
}

/// something a caller can observe about `e` that is not as `k` says; the packet number counters are put back
fn drifted(e: &mut End, k: &Kept) -> Result<Option<String>, String> {
    let mut f = twin(e)?;
    if let Some(s) = &k.scid {
        f.conn.set_scid(id(s), s.len());
    }
    for (i, s) in SPACES.iter().enumerate() {
        qc::set_largest_received(&mut f.conn, *s, k.largest[i]);
        qc::set_pn_counter(&mut f.conn, *s, k.counter[i]);
    }
    for (i, s) in SPACES.iter().enumerate() {
        for len in 1..=4usize {
            for low in 0..256u32 {
                let b = &(low << (8 * (len - 1))).to_be_bytes()[4 - len..];
                let x = e.conn.reconstruct_remote_pn(s.pn_space(), b).ok();
                let y = f.conn.reconstruct_remote_pn(s.pn_space(), b).ok();
                if x != y {
                    return Ok(Some(format!("{:?}: number bytes {} now stand for {:?} instead of {:?}", s, hexs(b), x, y)));
                }
            }
        }
        let seal = |c: &qc::Connection| c.encrypt_local_payload(s.pn_space(), &[1, 2, 3], &[4, 5], 6).ok();
        if seal(&e.conn) != seal(&f.conn) {
            return Ok(Some(format!("{:?}: packets are now sealed differently", s)));
        }
        let x = e.conn.get_next_pn(s.pn_space()).ok();
        let y = f.conn.get_next_pn(s.pn_space()).ok();
        qc::set_pn_counter(&mut e.conn, *s, k.counter[i]);
        if x != y {
            return Ok(Some(format!("{:?}: the next packet number is now {:?} instead of {:?}", s, x, y)));
        }
    }
    let about = |c: &qc::Connection| (c.get_dcid(), c.get_scid().ok(), c.get_version_field());
    if about(&e.conn) != about(&f.conn) {
        return Ok(Some(format!("ids and version are now {:?} instead of {:?}", about(&e.conn), about(&f.conn))));
    }
    Ok(None)
}

pub fn c19(c: &mut Ctx) -> Case {
    // several connections, each with an untouched twin that sees only single datagrams
    let n = c.r.usize(1, 3);
    let mut ends = vec![];
    for _ in 0..n {
        let mut e = end(&mut c.r, 6)?;
        let scid = if c.r.bool() {
            let s = gen::cid(&mut c.r);
            e.conn.set_scid(id(&s), s.len());
            Some(s)
        } else {
            None
        };
        // fixed receiver state for the whole history
        let mut largest = vec![];
        let mut counter = vec![];
        for s in SPACES {
            let v = if c.r.bool() { None } else { Some(gen::v62(&mut c.r).min(MAX62 - 1)) };
            qc::set_largest_received(&mut e.conn, s, v);
            largest.push(v);
            let v = if c.r.bool() { gen::v62(&mut c.r) } else { 0 };
            qc::set_pn_counter(&mut e.conn, s, v);
            counter.push(v);
        }
        ends.push((e, Kept { largest, counter, scid }));
    }
    // genuine packets to probe with
    let mut probes: Vec<(usize, Vec<u8>)> = vec![];
    for (k, (e, kept)) in ends.iter_mut().enumerate() {
        for kind in receivable(e) {
            let l = kept.largest[si(space_of(kind))];
            let pn_len = c.r.usize(1, 4);
            let low = c.r.below(1 << (8 * pn_len));
            let pn = wire::decode_pn(l, low, 8 * pn_len as u32);
            if pn > MAX62 {
                continue;
            }
            let s = peer_spec(&mut c.r, e, kind, pn, pn_len, 150);
            let d = s.seal(&e.peer_keys(kind).unwrap()).unwrap();
            probes.push((k, d));
        }
    }
    let first: Vec<Result<Vec<qp::PacketView>, String>> =
        probes.iter().map(|(k, d)| lib_decode(d, &ends[*k].0.conn)).collect();
    for r in first.iter() {
        c.o.count(if r.is_ok() { "genuine probe decoded" } else { "genuine probe refused (not judged here)" });
    }
    let mut snaps: Vec<String> = ends.iter().map(|(e, _)| qc::snapshot(&e.conn)).collect();
    let mut seen: Vec<(usize, Vec<u8>, Result<Vec<qp::PacketView>, String>)> = vec![];
    let mut digest: Vec<Vec<u8>> = vec![];
    for _ in 0..c.r.usize(3, 14) {
        let k = c.r.usize(0, n - 1);
        // hostile() arranges the receiver's state for its packet: work on a copy of the endpoint
        let d = match c.r.below(6) {
            0 if !seen.is_empty() => c.r.pick(&seen).1.clone(),
            1 if !probes.is_empty() => c.r.pick(&probes).1.clone(),
            2 if !probes.is_empty() => {
                let mut d = c.r.pick(&probes).1.clone();
                mutate(&mut c.r, &mut d);
                d
            }
            3 if !probes.is_empty() => {
                let mut d = vec![];
                for _ in 0..c.r.usize(2, 4) {
                    d.extend(c.r.pick(&probes).1.clone());
                }
                d
            }
            _ => {
                let mut t = twin(&ends[k].0)?;
                hostile(&mut c.r, &mut t, false).0
            }
        };
        let e = &ends[k].0;
        let a = lib_decode(&d, &e.conn);
        c.o.eval();
        for (j, (x, kept)) in ends.iter_mut().enumerate() {
            let now = qc::snapshot(&x.conn);
            if now != snaps[j] {
                // something inside moved (a cache, say): it must not show
                if let Some(what) = drifted(x, kept)? {
                    return Err(format!(
                        "decoding {} on connection {} changed connection {}: {} ({} became {})",
                        hexs(&d),
                        k,
                        j,
                        what,
                        snaps[j],
                        now
                    ));
                }
                c.o.count("internal state moved without effect");
                snaps[j] = qc::snapshot(&x.conn);
            }
        }
        let e = &ends[k].0;
        let b = lib_decode(&d, &e.conn);
        ensure!(
            same_outcome(&a, &b),
            "decoding {} twice gave {:?}, then {:?}",
            hexs(&d),
            a,
            b
        );
        // an identical connection with no history
        let mut fresh = twin(e)?;
        for (s, l) in SPACES.iter().zip(ends[k].1.largest.iter()) {
            qc::set_largest_received(&mut fresh.conn, *s, *l);
        }
        let f = lib_decode(&d, &fresh.conn);
        ensure!(
            same_outcome(&a, &f),
            "{} decoded to {:?}, but on an identical connection without a history to {:?}",
            hexs(&d),
            a,
            f
        );
        c.o.count(if a.is_ok() { "valid datagram decoded" } else { "invalid datagram refused" });
        digest.push(d.clone());
        seen.push((k, d, a));
        if c.r.chance(1, 3) && !probes.is_empty() {
            let i = c.r.usize(0, probes.len() - 1);
            let r = lib_decode(&probes[i].1, &ends[probes[i].0].0.conn);
            c.o.eval();
            ensure!(
                same_outcome(&r, &first[i]),
                "genuine packet {} decoded to {:?} at first and to {:?} after {} other datagrams",
                hexs(&probes[i].1),
                first[i],
                r,
                seen.len()
            );
        }
    }
    if c.r.chance(1, 48) && !probes.is_empty() {
        // a long run of forgeries
        let kinds = c.r.usize(1, 40);
        let mut junk = vec![];
        for _ in 0..kinds {
            let mut d = c.r.pick(&probes).1.clone();
            mutate(&mut c.r, &mut d);
            junk.push(d);
        }
        let total = if c.r.chance(1, 60) { 70_000 } else { c.r.usize(200, 4000) };
        for i in 0..total {
            let k = c.r.usize(0, n - 1);
            let _ = lib_decode(&junk[i % kinds], &ends[k].0.conn);
        }
        // and one against a single connection and level, judged at once
        let (k, d) = c.r.pick(&probes).clone();
        let before = lib_decode(&d, &ends[k].0.conn);
        for _ in 0..total {
            let mut x = d.clone();
            let i = x.len() - 1 - c.r.usize(0, 15);
            x[i] ^= 1 << c.r.below(8);
            let _ = lib_decode(&x, &ends[k].0.conn);
        }
        if c.r.bool() {
            // what is genuine may come again and again, too
            for _ in 0..total {
                let _ = lib_decode(&d, &ends[k].0.conn);
            }
        }
        let after = lib_decode(&d, &ends[k].0.conn);
        ensure!(
            same_outcome(&before, &after),
            "genuine packet {} decoded to {:?} at first and to {:?} after {} forgeries of it",
            hexs(&d),
            before,
            after,
            total
        );
        c.o.eval();
        c.o.count("long run of forgeries");
        c.o.max("longest run of forgeries", total as u64);
    }
    if let Some(s) = unsettled() {
        return Err(s);
    }
    c.o.eval();
    if c.r.chance(1, 16) {
        // and regardless of what the snapshots say
        for (j, (x, kept)) in ends.iter_mut().enumerate() {
            c.o.eval();
            if let Some(what) = drifted(x, kept)? {
                return Err(format!("after {} datagrams connection {} is not as before: {}", seen.len(), j, what));
            }
        }
        c.o.count("connections compared with untouched ones");
    }
    for (i, p) in probes.iter().enumerate() {
        let r = lib_decode(&p.1, &ends[p.0].0.conn);
        c.o.eval();
        ensure!(
            same_outcome(&r, &first[i]),
            "genuine packet {} decoded to {:?} at first and to {:?} after the whole history",
            hexs(&p.1),
            first[i],
            r
        );
    }
    for (k, d, r) in &seen {
        let again = lib_decode(d, &ends[*k].0.conn);
        c.o.eval();
        ensure!(
            same_outcome(r, &again),
            "{} decoded to {:?} at first and to {:?} after the whole history",
            hexs(d),
            r,
            again
        );
    }
    let parts: Vec<&[u8]> = digest.iter().map(|x| &x[..]).collect();
    c.o.distinct(&parts);
    c.o.sample(|| format!("{} connections, {} datagrams, {} probes", n, seen.len(), probes.len()));
    Ok(())
}

struct Settled {
    conn: quic_sea::verif::connection::Connection,
    datagrams: Vec<(Vec<u8>, Result<Vec<qp::PacketView>, String>)>,
    next: usize,
}

/// what a fixed set of connections made of fixed datagrams when this process started must still
/// hold after everything it has decoded since (on whatever connection)
fn unsettled() -> Option<String> {
    thread_local! {
        static BASE: std::cell::RefCell<Vec<Settled>> = std::cell::RefCell::new(vec![]);
    }
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_empty() {
            let mut r = Rng::new(77, 1919, 0);
            for _ in 0..4 {
                let mut e = end(&mut r, 8).ok()?;
                let mut datagrams = vec![];
                for s in SPACES {
                    qc::set_largest_received(&mut e.conn, s, None);
                }
                for k in receivable(&e) {
                    for pn_len in 1..=4 {
                        let pn = r.below(1 << (8 * pn_len - 1));
                        let s = peer_spec(&mut r, &e, k, pn, pn_len, 150);
                        let d = s.seal(&e.peer_keys(k).unwrap()).unwrap();
                        let out = lib_decode(&d, &e.conn);
                        datagrams.push((d, out));
                    }
                }
                b.push(Settled { conn: e.conn, datagrams, next: 0 });
            }
        }
        for (k, s) in b.iter_mut().enumerate() {
            let i = s.next % s.datagrams.len();
            s.next += 1;
            let now = lib_decode(&s.datagrams[i].0, &s.conn);
            if !same_outcome(&now, &s.datagrams[i].1) {
                return Some(format!(
                    "datagram {} of bystander connection {} ({}) decoded to {:?} at the start and to {:?} after what other connections decoded",
                    i, k, hexs(&s.datagrams[i].0), s.datagrams[i].1, now
                ));
            }
        }
        None
    })
}

fn same_outcome(a: &Result<Vec<qp::PacketView>, String>, b: &Result<Vec<qp::PacketView>, String>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
