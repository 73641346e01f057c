//! C24 conversations between two ends of the library over a network that loses, repeats and reorders
use super::fixtures::*;
use super::sockets::bind;
use crate::gen;
use crate::glue::*;
use crate::obs::Case;
use crate::rng::Rng;
use crate::wire::{self, hexs, PK, RF};
use crate::{ensure, Ctx};
use quic_sea::verif::connection::{self as qc, Space};
use quic_sea::verif::packet::{self as qp, PacketView};
use quic_sea::verif::routing::MonitoredSocket;
use std::collections::BTreeSet;
use std::net::{SocketAddr, UdpSocket};

#[derive(Clone)]
struct Sent {
    kind: PK,
    pn: u64,
    pn_len: usize,
    token: Vec<u8>,
    frames: Vec<RF>,
}

#[derive(Clone)]
struct Flight {
    /// which side sent it, for which connection
    side: usize,
    pair: usize,
    bytes: Vec<u8>,
    packets: Vec<Sent>,
}

/// what one side of one connection knows of a number space
#[derive(Default)]
struct Known {
    received: BTreeSet<u64>,
    largest: Option<u64>,
    acked: Option<u64>,
}

struct Side {
    s: MonitoredSocket,
    u: UdpSocket,
    addr: SocketAddr,
}

struct Pair {
    dcid: Vec<u8>,
    scid: [Vec<u8>; 2],
    secrets: (Vec<u8>, Vec<u8>),
    handshake: bool,
    /// by side, then space
    known: [[Known; 2]; 2],
}

fn si(k: PK) -> usize {
    (k == PK::Handshake) as usize
}
const SP: [Space; 2] = [Space::Initial, Space::Handshake];

fn same(v: &PacketView, s: &Sent, dcid: &[u8], scid: &[u8]) -> Result<(), String> {
    let k = pk(v.header.kind);
    if k != Some(s.kind) {
        return Err(format!("read as {:?}", v.header.kind));
    }
    let (d, sc) = header_ids(&v.header)?;
    if d != dcid || sc.as_deref() != Some(scid) {
        return Err(format!("read with ids {} and {:?}", hexs(&d), sc.map(|x| hexs(&x))));
    }
    if v.packet_number != Some(s.pn) {
        return Err(format!("read with number {:?}", v.packet_number));
    }
    if s.kind == PK::Initial && v.token.as_deref().unwrap_or(&[]) != &s.token[..] {
        return Err(format!("read with token {:?}", v.token.as_ref().map(|x| hexs(x))));
    }
    let got = rfs(&v.frames)?;
    if got != s.frames {
        return Err(format!("read as {}", brief(&got)));
    }
    Ok(())
}

fn name(side: usize) -> &'static str {
    ["client", "server"][side]
}

struct Talk {
    sides: [Side; 2],
    pairs: Vec<Pair>,
    net: Vec<Flight>,
}

impl Talk {
    fn with<R>(&self, side: usize, pair: usize, f: impl FnOnce(&mut qc::Connection) -> R) -> Result<R, String> {
        self.sides[side]
            .s
            .with_connection(id(&self.pairs[pair].dcid), f)
            .ok_or_else(|| "INCONCLUSIVE a registered connection is gone".to_string())
    }

    /// builds a datagram of some packets and hands it to the network
    fn send(&mut self, c: &mut Ctx, side: usize, pair: usize) -> Case {
        let mut f = Flight { side, pair, bytes: vec![], packets: vec![] };
        for _ in 0..if c.r.chance(1, 3) { c.r.usize(2, 5) } else { 1 } {
            let hs = self.pairs[pair].handshake && c.r.bool();
            let kind = if hs { PK::Handshake } else { PK::Initial };
            let mut fs: Vec<RF> = vec![];
            for _ in 0..c.r.usize(0, 3) {
                let max = if c.r.chance(1, 16) { 3000 } else { 200 };
                fs.push(gen::frame(&mut c.r, gen::Where::Handshake, max));
            }
            let n = c.r.usize(4, 20);
            fs.push(RF::Crypto { offset: gen::v62(&mut c.r) >> 8, data: c.r.texture(n) });
            let token = if !hs && side == 0 && c.r.chance(1, 3) {
                let n = gen::dlen(&mut c.r, 300);
                c.r.texture(n)
            } else {
                vec![]
            };
            if f.bytes.len() + token.len() + wire::put_frames(&fs, false).map_or(60_000, |x| x.len()) > 50_000 {
                break;
            }
            let frames = lib_frames(&fs);
            let t = if token.is_empty() { None } else { Some(token.clone()) };
            let out = self.with(side, pair, |conn| {
                if hs {
                    qp::PacketHandshake::new(frames, conn)
                        .and_then(|p| Ok((qp::handshake_view(&p), qp::serialize_handshake(&p, conn)?)))
                } else {
                    qp::PacketInitial::new(frames, t, conn)
                        .and_then(|p| Ok((qp::initial_view(&p), qp::serialize_initial(&p, conn)?)))
                }
            })?;
            let k = &self.pairs[pair].known[side][si(kind)];
            let (v, b) = out.map_err(|x| {
                format!(
                    "{} {} cannot send a {:?} packet of {} (acknowledged: {:?}): {}",
                    name(side),
                    pair,
                    kind,
                    brief(&fs),
                    k.acked,
                    es(&x)
                )
            })?;
            let (pn, pn_len) = match (v.packet_number, v.packet_number_bytes) {
                (Some(n), Some(b)) => (n, b.len()),
                _ => return Err("INCONCLUSIVE a packet without a number".into()),
            };
            f.bytes.extend_from_slice(&b);
            f.packets.push(Sent { kind, pn, pn_len, token, frames: fs });
        }
        c.o.count(if f.packets.len() > 1 { "coalesced datagram sent" } else { "single packet sent" });
        self.net.push(f);
        Ok(())
    }

    /// takes a datagram across to the other side
    fn carry(&self, side: usize, bytes: &[u8]) -> Result<Vec<u8>, String> {
        let to = &self.sides[1 - side];
        self.sides[side]
            .u
            .send_to(bytes, to.addr)
            .map_err(|e| format!("INCONCLUSIVE send: {}", e))?;
        let (got, from) = to.s.recv_datagram().map_err(|e| format!("INCONCLUSIVE receive: {}", e))?;
        ensure_ok(got == bytes && from == self.sides[side].addr, || {
            format!("LATE {} bytes from {:?} arrived as {} from {:?}", bytes.len(), self.sides[side].addr, got.len(), from)
        })?;
        Ok(got)
    }

    fn deliver(&mut self, c: &mut Ctx, f: &Flight) -> Case {
        let to = 1 - f.side;
        let got = self.carry(f.side, &f.bytes)?;
        let ctx = |t: &Talk| {
            format!(
                "{} {} sent {} in {} bytes; the {} had received up to {:?}/{:?}",
                name(f.side),
                f.pair,
                f.packets
                    .iter()
                    .map(|p| format!("{:?} {} ({} number bytes, {})", p.kind, p.pn, p.pn_len, brief(&p.frames)))
                    .collect::<Vec<_>>()
                    .join(" + "),
                f.bytes.len(),
                name(to),
                t.pairs[f.pair].known[to][0].largest,
                t.pairs[f.pair].known[to][1].largest
            )
        };
        let from = self.sides[f.side].addr;
        let r = self.sides[to].s.route(got, from);
        c.o.eval();
        ensure!(r.is_ok(), "{}: cannot be routed: {}", ctx(self), es(&r.unwrap_err()));
        // exactly the connection it belongs to gets it
        for (k, p) in self.pairs.iter().enumerate() {
            let q = self.sides[to].s.drain(id(&p.dcid)).ok_or("INCONCLUSIVE a registered connection is gone")?;
            if k == f.pair {
                ensure!(
                    q.len() == 1 && q[0].0 == f.bytes && q[0].1 == from,
                    "{}: {} datagrams wait for it",
                    ctx(self),
                    q.len()
                );
            } else {
                ensure!(q.is_empty(), "{}: it waits for connection {}", ctx(self), k);
            }
        }
        // whether RFC 9000 A.3 finds the numbers again: it must for what is new
        let reachable = f.packets.iter().all(|p| {
            let bits = 8 * p.pn_len as u32;
            let known = &self.pairs[f.pair].known[to][si(p.kind)];
            known.largest.map_or(true, |l| p.pn > l)
                || wire::decode_pn(known.largest, p.pn & ((1u64 << bits) - 1), bits) == p.pn
        });
        let p = &self.pairs[f.pair];
        match self.sides[to].s.packets(f.bytes.clone(), from) {
            Err(x) => {
                ensure!(!reachable, "{}: refused: {}", ctx(self), es(&x));
                c.o.count("too old for its number to be found again: refused");
                return Ok(());
            }
            Ok(v) => {
                ensure!(v.len() == f.packets.len(), "{}: read as {} packets", ctx(self), v.len());
                for (v, s) in v.iter().zip(&f.packets) {
                    same(v, s, &p.dcid, &p.scid[f.side]).map_err(|x| format!("{}: {:?} {} was {}", ctx(self), s.kind, s.pn, x))?;
                }
            }
        }
        c.o.distinct(&[&f.bytes]);
        for s in &f.packets {
            c.o.eval();
            let space = SP[si(s.kind)];
            let late;
            {
                let k = &mut self.pairs[f.pair].known[to][si(s.kind)];
                late = k.largest.map_or(false, |l| s.pn < l);
                let new = k.received.insert(s.pn);
                k.largest = k.largest.max(Some(s.pn));
                c.o.count(match (new, late) {
                    (true, false) => "read in order",
                    (true, true) => "read after later ones",
                    (false, _) => "read again",
                });
                c.o.count(&format!("read with a {}-byte number", s.pn_len));
            }
            let l = self.pairs[f.pair].known[to][si(s.kind)].largest;
            self.with(to, f.pair, |conn| qc::set_largest_received(conn, space, l))?;
        }
        Ok(())
    }
}

fn ensure_ok(b: bool, f: impl FnOnce() -> String) -> Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(f())
    }
}

fn side(r: &mut Rng, six: bool) -> Result<Side, String> {
    // (of 200 attempts some are over the protocol asked for)
    for _ in 0..200 {
        let log = r.chance(1, 6);
        let (s, u, addr) = bind(r, log)?;
        if addr.is_ipv6() == six {
            return Ok(Side { s, u, addr });
        }
    }
    Err("INCONCLUSIVE no IPv6".into())
}

pub fn c24(c: &mut Ctx) -> Case {
    let six = c.r.chance(1, 8) && UdpSocket::bind("[::1]:0").is_ok();
    let sides = [side(&mut c.r, six)?, side(&mut c.r, six)?];
    let mut t = Talk { sides, pairs: vec![], net: vec![] };
    let n = c.r.usize(1, 4);
    while t.pairs.len() < n {
        let dcid = if c.r.chance(1, 4) { c.r.texture(8) } else { c.r.bytes(8) };
        if t.pairs.iter().any(|p| p.dcid == dcid) {
            continue;
        }
        let mut p = Pair {
            dcid: dcid.clone(),
            scid: [gen::cid(&mut c.r), gen::cid(&mut c.r)],
            secrets: (c.r.bytes(32), c.r.bytes(32)),
            handshake: false,
            known: Default::default(),
        };
        let mut conns = vec![];
        for side in 0..2 {
            let mut conn = new_conn(side == 1, &dcid)?;
            conn.set_scid(id(&p.scid[side]), p.scid[side].len());
            conns.push(conn);
        }
        // a conversation that has been going on for a while
        for k in 0..2 {
            for from in 0..2 {
                if c.r.bool() {
                    continue;
                }
                let edge = *c.r.pick(&[1u64 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 23, 1 << 24, 1 << 31, 1 << 32, 1 << 48, (1 << 62) - 20_000]);
                let last = edge - c.r.below(edge.min(100)) - 1;
                let lag = if c.r.chance(1, 3) { 1 << c.r.range(8, 28) } else { 300 };
                // (what was sent lately may have been lost, and no acknowledgement may ever have come)
                let acked = Some(last - c.r.below(last.min(lag) + 1)).filter(|_| last >= 1 << 30 || c.r.chance(3, 4));
                // (as much in flight as the number's width can just tell apart)
                let half = (1u64 << (8 * c.r.range(1, 3) - 1)) - 2;
                let acked = if last > half && c.r.chance(1, 3) { Some(last - half + c.r.below(half.min(6))) } else { acked };
                let largest = match acked {
                    Some(a) if c.r.chance(1, 3) => Some(a),
                    _ if c.r.bool() => Some(last),
                    Some(a) => Some(c.r.range(a, last)),
                    None if c.r.bool() => None,
                    None => Some(c.r.range(0, last)),
                };
                qc::set_pn_counter(&mut conns[from], SP[k], last);
                qc::set_largest_acked(&mut conns[from], SP[k], acked);
                qc::set_largest_received(&mut conns[1 - from], SP[k], largest);
                p.known[from][k].acked = acked;
                p.known[1 - from][k].largest = largest;
                p.known[1 - from][k].received.extend(largest);
            }
        }
        for (side, conn) in conns.into_iter().enumerate() {
            t.sides[side].s.insert(id(&dcid), conn);
        }
        t.pairs.push(p);
    }
    let steps = if c.r.chance(1, 40) { c.r.usize(700, 1500) } else { c.r.usize(10, 120) };
    // how the network behaves
    let loss = *c.r.pick(&[0u64, 5, 30]);
    let disorder = *c.r.pick(&[0u64, 20, 80]);
    let repeat = *c.r.pick(&[0u64, 10, 40]);
    let acks = *c.r.pick(&[0u64, 5, 30]);
    let delay = *c.r.pick(&[1usize, 8, 200]);
    for _ in 0..steps {
        let pair = c.r.usize(0, t.pairs.len() - 1);
        let side = c.r.usize(0, 1);
        if !t.pairs[pair].handshake && c.r.chance(1, 10) {
            // the handshake has got far enough for its keys
            let (a, b) = t.pairs[pair].secrets.clone();
            for s in 0..2 {
                let (l, r) = if s == 0 { (&a, &b) } else { (&b, &a) };
                t.with(s, pair, |conn| qc::install_secrets(conn, Space::Handshake, Some(l), Some(r)))?
                    .map_err(|x| format!("INCONCLUSIVE {}", es(&x)))?;
            }
            t.pairs[pair].handshake = true;
        }
        t.send(c, side, pair)?;
        if c.r.chance(loss, 100) {
            t.net.pop();
            c.o.count("lost");
        }
        while t.net.len() > delay || (!t.net.is_empty() && c.r.chance(1, 2)) {
            let i = if c.r.chance(disorder, 100) { c.r.usize(0, t.net.len() - 1) } else { 0 };
            let f = t.net.remove(i);
            t.deliver(c, &f)?;
            if c.r.chance(repeat, 100) {
                t.net.push(f);
            }
        }
        if c.r.chance(acks, 100) {
            // an acknowledgement of anything that has been received gets through
            for k in 0..2 {
                let rx = &t.pairs[pair].known[1 - side][k].received;
                if rx.is_empty() {
                    continue;
                }
                let all: Vec<u64> = rx.iter().rev().take(50).copied().collect();
                let a = *c.r.pick(&all);
                let now = t.pairs[pair].known[side][k].acked.max(Some(a));
                t.pairs[pair].known[side][k].acked = now;
                t.with(side, pair, |conn| qc::set_largest_acked(conn, SP[k], now))?;
                c.o.count("acknowledged");
            }
        }
        if c.r.chance(1, 25) {
            // strangers send to the same sockets
            let mut e = End::new(c.r.bool(), &t.pairs[pair].dcid)?;
            let (d, _) = hostile(&mut c.r, &mut e, false);
            if d.len() < 60_000 {
                if let Ok(got) = t.carry(side, &d) {
                    let _ = t.sides[1 - side].s.route(got, t.sides[side].addr);
                    for p in &t.pairs {
                        for (d, a) in t.sides[1 - side].s.drain(id(&p.dcid)).unwrap_or_default() {
                            let _ = t.sides[1 - side].s.packets(d, a);
                        }
                    }
                    c.o.count("a stranger's datagram in between");
                }
            }
        }
    }
    for f in std::mem::take(&mut t.net) {
        t.deliver(c, &f)?;
    }
    c.o.max("datagrams in one conversation", steps as u64);
    c.o.sample(|| format!("{} connections, {} steps, loss {}%, disorder {}%, repeats {}%", n, steps, loss, disorder, repeat));
    Ok(())
}
