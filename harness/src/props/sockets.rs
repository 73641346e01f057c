//! C14 routing, C15 waiting for connections, C16 life of connections
use super::fixtures::*;
use crate::alloc;
use crate::crypto::{Keys, Spec};
use crate::gen;
use crate::glue::*;
use crate::obs::Case;
use crate::rng::Rng;
use crate::wire::{self, hexs, PK};
use crate::{ensure, Ctx};
use quic_sea::verif::connection as qc;
use quic_sea::verif::interface as qi;
use quic_sea::verif::packet as qp;
use quic_sea::verif::routing::MonitoredSocket;
use std::collections::BTreeMap;
use std::net::{SocketAddr, UdpSocket};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

type Queue = Vec<(Vec<u8>, SocketAddr)>;

/// the model: live connections by their 8-byte id, with what must be waiting for them
struct Model {
    live: BTreeMap<Vec<u8>, (End, Queue)>,
    stale: Vec<Vec<u8>>,
}

fn loopback(r: &mut Rng) -> SocketAddr {
    if r.chance(1, 3) {
        let mut ip = [0u8; 16];
        match r.below(4) {
            // (loopback, an IPv4 address in disguise, link-local)
            0 => ip[15] = 1,
            1 => {
                ip[10..12].fill(if r.bool() { 0xff } else { 0 });
                ip[12..].copy_from_slice(&r.texture(4));
            }
            2 => {
                ip[0] = 0xfe;
                ip[1] = 0x80;
                ip[8..].copy_from_slice(&r.texture(8));
            }
            _ => ip.copy_from_slice(&r.texture(16)),
        }
        let scope = if r.chance(1, 4) { r.below(9) as u32 } else { 0 };
        let flow = if r.chance(1, 8) { r.below(1 << 20) as u32 } else { 0 };
        std::net::SocketAddrV6::new(ip.into(), r.range(1, 65535) as u16, flow, scope).into()
    } else {
        SocketAddr::from(([r.u8(), r.u8(), r.u8(), r.u8()], r.range(1, 65535) as u16))
    }
}

pub fn bind(r: &mut Rng, log: bool) -> Result<(MonitoredSocket, UdpSocket, SocketAddr), String> {
    // over IPv6 too, where there is any
    let six = r.chance(1, 4);
    let m = if six { MonitoredSocket::bind("[::1]:0".parse().unwrap(), log).ok() } else { None };
    let m = match m {
        Some(m) => m,
        None => MonitoredSocket::bind("127.0.0.1:0".parse().unwrap(), log)
            .map_err(|e| format!("INCONCLUSIVE cannot bind a loopback socket: {}", e))?,
    };
    let u = m
        .udp_handle()
        .map_err(|e| format!("INCONCLUSIVE cannot clone the socket: {}", e))?;
    u.set_read_timeout(Some(Duration::from_secs(6)))
        .map_err(|e| format!("INCONCLUSIVE cannot set a timeout: {}", e))?;
    let a = u.local_addr().map_err(|e| format!("INCONCLUSIVE {}", e))?;
    Ok((m, u, a))
}

pub fn sender(r: &mut Rng, to: SocketAddr) -> Result<(UdpSocket, SocketAddr), String> {
    // (whatever port it sends from; where that is taken, one the kernel chooses)
    let port = match r.below(6) {
        0 => r.below(1024) as u16,
        1 => (r.below(64) * 1024 + r.below(2)) as u16,
        2 => r.below(65536) as u16,
        3 => *r.pick(&[53u16, 443, 4433, 65535]),
        _ => 0,
    };
    let at: SocketAddr = if to.is_ipv6() {
        (std::net::Ipv6Addr::LOCALHOST, port).into()
    } else {
        let ip = if r.bool() { [127, 0, 0, 1] } else { [127, r.u8(), r.u8(), r.range(1, 254) as u8] };
        (ip, port).into()
    };
    let s = UdpSocket::bind(at)
        .or_else(|_| UdpSocket::bind((at.ip(), 0)))
        .or_else(|_| UdpSocket::bind("127.0.0.1:0"))
        .map_err(|e| format!("INCONCLUSIVE cannot bind: {}", e))?;
    let a = s.local_addr().map_err(|e| format!("INCONCLUSIVE {}", e))?;
    Ok((s, a))
}

/// what the kernel says of a socket: bytes waiting in it and datagrams dropped for want of space
fn kernel_state(addr: SocketAddr) -> (u64, u64) {
    let file = if addr.is_ipv6() { "/proc/net/udp6" } else { "/proc/net/udp" };
    let t = std::fs::read_to_string(file).unwrap_or_default();
    let mut local = format!(":{:04X}", addr.port());
    if let std::net::IpAddr::V4(ip) = addr.ip() {
        local = format!("{:08X}{}", u32::from_ne_bytes(ip.octets()), local);
    }
    for l in t.lines().skip(1) {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() > 12 && f[1].ends_with(&local) {
            let waiting = f[4].split_once(':').and_then(|x| u64::from_str_radix(x.1, 16).ok());
            return (waiting.unwrap_or(0), f[f.len() - 1].parse().unwrap_or(0));
        }
    }
    (0, 0)
}

/// datagrams the kernel dropped for want of buffer space
fn kernel_drops(addr: SocketAddr) -> u64 {
    kernel_state(addr).1
}

fn new_id(r: &mut Rng, m: &Model) -> Vec<u8> {
    loop {
        let b: Vec<u8> = match r.below(7) {
            0 => r.texture(8),
            1 => r.below(3).to_be_bytes().to_vec(),
            2 => {
                // short when written without its leading zeros
                let n = r.range(1, 64);
                (r.u64() >> (64 - n)).to_be_bytes().to_vec()
            }
            3 | 4 if !m.live.is_empty() => {
                let k: Vec<&Vec<u8>> = m.live.keys().collect();
                near(r, *r.clone().pick(&k))
            }
            5 if !m.stale.is_empty() => r.pick(&m.stale).clone(),
            _ => r.bytes(8),
        };
        if !m.live.contains_key(&b) {
            return b;
        }
    }
}

fn near(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let v = u64::from_be_bytes(b.try_into().unwrap());
    let w = match r.below(10) {
        5 => v ^ (r.range(1, u32::MAX as u64) << 32),
        6 => v ^ r.range(1, u32::MAX as u64),
        7 => v.rotate_left(32),
        8 => !v,
        9 => {
            // the same bytes in another order
            let mut b = v.to_be_bytes();
            b.swap(r.usize(0, 7), r.usize(0, 7));
            u64::from_be_bytes(b)
        }
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => v.swap_bytes(),
        3 => v.rotate_left(8),
        _ => v ^ (1 << r.below(64)),
    };
    w.to_be_bytes().to_vec()
}

/// ids of other lengths with the same numeric value as an 8-byte id
fn alias(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    if zeros > 0 && r.bool() {
        return b[r.usize(1, zeros)..].to_vec();
    }
    let mut v = vec![0u8; r.usize(1, 12)];
    v.extend_from_slice(b);
    v
}

/// something for a packet with a given destination id; `first` chooses among header forms
fn datagram_to(r: &mut Rng, dcid: &[u8], short_ok: bool) -> (Vec<u8>, &'static str) {
    let mut b;
    let what;
    if dcid.len() == 8 && short_ok && r.bool() {
        b = vec![0x40 | (r.u8() & 0x3f)];
        b.extend_from_slice(dcid);
        what = "short";
    } else {
        let vn = r.chance(1, 8);
        let v: u32 = if vn {
            0
        } else if r.chance(1, 6) {
            gen::version(r)
        } else {
            1
        };
        // (only the form bit means anything when negotiating)
        let fixed = if vn && r.bool() { 0x80 } else { 0xc0 };
        b = vec![fixed | (r.u8() & 0x3f)];
        b.extend(v.to_be_bytes());
        b.push(dcid.len() as u8);
        b.extend_from_slice(dcid);
        let s = gen::cid(r);
        b.push(s.len() as u8);
        b.extend_from_slice(&s);
        what = if vn {
            "version negotiation"
        } else {
            match b[0] >> 4 & 3 {
                0 => "initial",
                1 => "0-rtt",
                2 => "handshake",
                _ => "retry",
            }
        };
    }
    let n = match r.below(6) {
        0 => 0,
        1 => r.usize(0, 1400),
        2 if r.bool() => r
            .pick(&[1200usize, 1252, 1280, 1350, 1472, 1500, 2048, 4096, 8192, 9000, 16384])
            .saturating_sub(b.len() + r.usize(0, 1)),
        2 => r.usize(0, 6000),
        _ => r.usize(0, 60),
    };
    b.extend(r.texture(n));
    (b, what)
}

/// the 8-byte id a datagram is addressed to: Err(()) = malformed, None = an id of another length;
/// the flag tells that refusing it is legitimate too (cleared fixed bit)
fn addressed(b: &[u8]) -> (Result<Option<Vec<u8>>, ()>, bool) {
    match wire::get_header(b) {
        Err(_) => (Err(()), false),
        Ok(h) => {
            let soft = h.kind != PK::Vn && b[0] & 0x40 == 0;
            if h.dcid.len() == 8 {
                (Ok(Some(h.dcid)), soft)
            } else {
                (Ok(None), soft)
            }
        }
    }
}

fn check_live(s: &MonitoredSocket, m: &Model) -> Case {
    let mut got: Vec<Vec<u8>> = vec![];
    for i in s.live_ids() {
        got.push(id_bytes(&i, 8)?);
    }
    got.sort();
    let want: Vec<Vec<u8>> = m.live.keys().cloned().collect();
    ensure!(
        got == want,
        "live connections are {:?} instead of {:?}",
        got.iter().map(|x| hexs(x)).collect::<Vec<_>>(),
        want.iter().map(|x| hexs(x)).collect::<Vec<_>>()
    );
    Ok(())
}

fn check_queue(s: &MonitoredSocket, k: &[u8], want: &Queue, when: &str) -> Case {
    let got = s
        .drain(id(k))
        .ok_or_else(|| format!("{}: connection {} is gone", when, hexs(k)))?;
    if got != *want {
        let show = |q: &Queue| {
            q.iter()
                .map(|(d, a)| format!("{} from {}", hexs(d), a))
                .collect::<Vec<_>>()
                .join(", ")
        };
        return Err(format!(
            "{}: connection {} received [{}] instead of [{}]",
            when,
            hexs(k),
            show(&got),
            show(want)
        ));
    }
    Ok(())
}

fn add_connection(r: &mut Rng, s: &MonitoredSocket, m: &mut Model) -> Result<Vec<u8>, String> {
    let k = new_id(r, m);
    let d = gen::cid(r);
    let e = end_with(r, true, &d, 4)?;
    // the socket's own copy
    let mut x = twin(&e)?;
    x.conn.set_scid(id(&k), 8);
    s.insert(id(&k), x.conn);
    m.live.insert(k.clone(), (e, vec![]));
    Ok(k)
}

fn pick_live(r: &mut Rng, m: &Model) -> Option<Vec<u8>> {
    if m.live.is_empty() {
        return None;
    }
    let n = r.usize(0, m.live.len() - 1);
    m.live.keys().nth(n).cloned()
}

// ------------------------------------------------------------------ C14
pub fn c14(c: &mut Ctx) -> Case {
    let log = c.r.chance(1, 4);
    let (s, _u, addr) = bind(&mut c.r, log)?;
    let (tx, tx_addr) = sender(&mut c.r, addr)?;
    let mut m = Model { live: BTreeMap::new(), stale: vec![] };
    let mut hist: Vec<String> = vec![];
    let max_live = if c.r.chance(1, 6) { 40 } else { c.r.usize(1, 6) };
    for _ in 0..c.r.usize(0, max_live) {
        let k = add_connection(&mut c.r, &s, &mut m)?;
        hist.push(format!("+{}", hexs(&k)));
    }
    for _ in 0..c.r.usize(6, 40) {
        c.o.eval();
        let tail = |h: &Vec<String>| h[h.len().saturating_sub(8)..].join("; ");
        if c.r.chance(1, 800) {
            // a burst for one connection (others in between) that nobody reads yet
            let Some(k) = pick_live(&mut c.r, &m) else { continue };
            let n = match c.r.below(60) {
                0 if !cfg!(any(miri, qmon_asan)) => 70_000,
                1..=15 => 5000,
                _ => c.r.usize(200, 1100),
            };
            let base = datagram_to(&mut c.r, &k, true).0;
            if addressed(&base) != (Ok(Some(k.clone())), false) {
                continue;
            }
            let from = loopback(&mut c.r);
            for i in 0..n {
                let mut d = base.clone();
                d.truncate(120);
                d.extend((i as u32).to_be_bytes());
                if addressed(&d) != (Ok(Some(k.clone())), false) {
                    break;
                }
                s.route(d.clone(), from).map_err(|x| {
                    format!("{}: datagram {} of a burst for {} was refused: {}", tail(&hist), i, hexs(&k), es(&x))
                })?;
                m.live.get_mut(&k).unwrap().1.push((d, from));
            }
            hist.push(format!("burst of {} for {}", n, hexs(&k)));
            c.o.count("burst without a reader");
            c.o.max("datagrams waiting in one queue", m.live[&k].1.len() as u64);
            continue;
        }
        match c.r.below(14) {
            0 => {
                if m.live.len() < max_live {
                    let k = add_connection(&mut c.r, &s, &mut m)?;
                    hist.push(format!("+{}", hexs(&k)));
                    c.o.count("connection added");
                }
            }
            1 => {
                if let Some(k) = pick_live(&mut c.r, &m) {
                    s.drop_connection(id(&k));
                    m.live.remove(&k);
                    hist.push(format!("-{}", hexs(&k)));
                    m.stale.push(k);
                    c.o.count("connection dropped");
                }
            }
            2 => {
                if let Some(k) = pick_live(&mut c.r, &m) {
                    let want = std::mem::take(&mut m.live.get_mut(&k).unwrap().1);
                    check_queue(&s, &k, &want, &tail(&hist))?;
                    c.o.count("queue compared in between");
                }
            }
            3 | 4 => {
                // decoded with the addressed connection's keys
                let (Some(k), Some(o)) = (pick_live(&mut c.r, &m), pick_live(&mut c.r, &m)) else {
                    continue;
                };
                let from = if c.r.chance(2, 3) { &k } else { &o };
                let e = &m.live[from].0;
                let kinds = receivable(e);
                let kind = *c.r.pick(&kinds);
                let pn_len = c.r.usize(1, 4);
                let pn = c.r.below(1 << (8 * pn_len - 1));
                let mut sp = peer_spec(&mut c.r, e, kind, pn, pn_len, 200);
                sp.dcid = k.clone();
                let mut d = vec![];
                if c.r.chance(1, 3) {
                    // behind other packets of the same connection in one datagram
                    let long: Vec<PK> = kinds.iter().copied().filter(|x| *x != PK::OneRtt).collect();
                    let n = if c.r.chance(1, 6) { c.r.usize(8, 60) } else { c.r.usize(1, 8) };
                    for _ in 0..if long.is_empty() { 0 } else { n } {
                        let k2 = *c.r.pick(&long);
                        let l2 = c.r.usize(1, 4);
                        let p2 = c.r.below(1 << (8 * l2 - 1));
                        let mut q = peer_spec(&mut c.r, e, k2, p2, l2, 60);
                        q.dcid = k.clone();
                        d.extend(q.seal(&e.peer_keys(k2).unwrap()).unwrap());
                    }
                    c.o.max("packets in one decoded datagram", n as u64 + 1);
                    c.o.count("coalesced datagram decoded");
                }
                d.extend(sp.seal(&e.peer_keys(kind).unwrap()).unwrap());
                let a = loopback(&mut c.r);
                let got = s.packets(d.clone(), a);
                hist.push(format!("decode for {}", hexs(&k)));
                // the same connection on its own
                let alone = lib_decode(&d, &m.live[&k].0.conn);
                match (got, alone) {
                    (Ok(v), Ok(w)) => {
                        ensure!(
                            v == w,
                            "{}: a packet for connection {} (keys of {}) decoded to {:?}, the connection alone decodes {:?}",
                            tail(&hist),
                            hexs(&k),
                            hexs(from),
                            v,
                            w
                        );
                        c.o.count("decoded with the connection's keys");
                    }
                    (Err(_), Err(_)) => c.o.count("foreign keys refused"),
                    (Ok(_), Err(x)) => {
                        return Err(format!(
                            "{}: a packet for connection {} sealed with the keys of {} was accepted; the connection alone refuses it: {}",
                            tail(&hist),
                            hexs(&k),
                            hexs(from),
                            x
                        ))
                    }
                    (Err(x), Ok(_)) => {
                        return Err(format!(
                            "{}: a packet for {} among {} connections, which it decodes alone, was refused: {}",
                            tail(&hist),
                            hexs(&k),
                            m.live.len(),
                            es(&x)
                        ))
                    }
                }
                // no such connection: nothing to decode with
                let mut sp2 = sp.clone();
                sp2.dcid = if kind != PK::OneRtt && c.r.bool() { alias(&mut c.r, &k) } else { near(&mut c.r, &k) };
                if !m.live.contains_key(&sp2.dcid) && sp2.dcid.len() <= 20 {
                    let d2 = sp2.seal(&m.live[from].0.peer_keys(kind).unwrap()).unwrap();
                    ensure!(
                        s.packets(d2.clone(), a).is_err(),
                        "{}: a packet for the unknown id {} was decoded",
                        tail(&hist),
                        hexs(&sp2.dcid)
                    );
                    c.o.count("unknown id not decoded");
                }
            }
            k => {
                let live = pick_live(&mut c.r, &m);
                let (dcid, class) = match (c.r.below(10), &live) {
                    (0..=3, Some(l)) => (l.clone(), "live id"),
                    (4, Some(l)) => (alias(&mut c.r, l), "alias of another length"),
                    (5, Some(l)) => (near(&mut c.r, l), "nearby id"),
                    (6, _) if !m.stale.is_empty() => (c.r.pick(&m.stale).clone(), "stale id"),
                    (7, _) => (vec![0; c.r.usize(0, 20)], "zero id"),
                    (8, Some(l)) => {
                        // the id as the tail or head of a longer one
                        let mut v = l.clone();
                        let n = c.r.usize(1, 12);
                        let x = c.r.texture(n);
                        if c.r.bool() {
                            v.extend(x);
                        } else {
                            v.splice(0..0, x);
                        }
                        (v, "id with more bytes")
                    }
                    _ => (gen::cid(&mut c.r), "random id"),
                };
                let (mut d, form) = datagram_to(&mut c.r, &dcid, true);
                let mut class = class;
                if c.r.chance(1, 60) && d[0] & 0x80 != 0 {
                    d[0] &= !0x40;
                }
                if !cfg!(miri) && c.r.chance(1, 40) {
                    // as large as they come
                    let n = if c.r.bool() { c.r.usize(60000, 65507) } else { c.r.usize(d.len(), 65507) };
                    if n > d.len() {
                        let x = c.r.texture(n - d.len());
                        d.extend(x);
                    }
                }
                if c.r.chance(1, 6) {
                    match c.r.below(4) {
                        0 => {
                            let n = c.r.usize(0, d.len().min(30));
                            d.truncate(n);
                        }
                        1 => d.clear(),
                        2 => {
                            let n = c.r.usize(0, 40);
                            d = c.r.texture(n);
                        }
                        _ => mutate(&mut c.r, &mut d),
                    }
                    class = "damaged";
                }
                let mut from = loopback(&mut c.r);
                if k == 13 || k == 12 {
                    // over the network
                    if k == 13 && c.r.chance(1, 8) {
                        let n = c.r.usize(d.len(), 65507);
                        d.resize(n, 0x77);
                        let l = d.len();
                        d[l - 1] = 0x78;
                    }
                    d.truncate(65507);
                    tx.send_to(&d, addr).map_err(|e| format!("INCONCLUSIVE send: {}", e))?;
                    let (g, a) = s.recv_datagram().map_err(|e| {
                        if kernel_drops(addr) > 0 {
                            format!("INCONCLUSIVE kernel dropped a datagram: {}", e)
                        } else {
                            format!("LATE receiving a {}-byte datagram failed: {}", d.len(), e)
                        }
                    })?;
                    ensure!(
                        g == d && a == tx_addr,
                        "LATE a datagram of {} bytes from {} was received as {} bytes from {} ({} / {})",
                        d.len(),
                        tx_addr,
                        g.len(),
                        a,
                        hexs(&d),
                        hexs(&g)
                    );
                    from = a;
                    c.o.count("received over UDP");
                    c.o.max("largest datagram over UDP", d.len() as u64);
                }
                let (to, soft) = addressed(&d);
                let got = s.route(d.clone(), from);
                hist.push(format!("{} {} to {}", class, form, hexs(&dcid)));
                let owner = match &to {
                    Ok(Some(k)) if m.live.contains_key(k) => Some(k.clone()),
                    _ => None,
                };
                match (&owner, got) {
                    (Some(k), Ok(())) => {
                        m.live.get_mut(k).unwrap().1.push((d, from));
                        c.o.count(&format!("{} delivered", form));
                    }
                    (Some(k), Err(x)) => {
                        ensure!(
                            soft,
                            "{}: datagram {} for the live connection {} was refused: {}",
                            tail(&hist),
                            hexs(&d),
                            hexs(k),
                            es(&x)
                        );
                        c.o.count("cleared fixed bit refused");
                    }
                    (None, Ok(())) => {
                        return Err(format!(
                            "{}: datagram {} for no live connection ({}) was accepted by the router; live: {:?}",
                            tail(&hist),
                            hexs(&d),
                            class,
                            m.live.keys().map(|x| hexs(x)).collect::<Vec<_>>()
                        ))
                    }
                    (None, Err(_)) => c.o.count(&format!("{}: reported", class)),
                }
            }
        }
    }
    check_live(&s, &m)?;
    for (k, (_, want)) in &m.live {
        check_queue(&s, k, want, &hist[hist.len().saturating_sub(30)..].join("; "))?;
        c.o.eval();
        c.o.add("datagrams found in queues at the end", want.len() as u64);
        if !want.is_empty() {
            c.o.count("non-empty queue compared at the end");
        }
    }
    c.o.max("live connections", m.live.len() as u64);
    c.o.distinct(&[hist.join("|").as_bytes()]);
    c.o.sample(|| hist[..hist.len().min(10)].join("; "));
    Ok(())
}

// ------------------------------------------------------------------ C15
#[derive(Debug, Clone, PartialEq)]
enum Fate {
    /// handed out
    Surface,
    /// handed out or dropped (nothing is promised)
    Either,
    Queue(Vec<u8>),
    /// queued or dropped
    MayQueue(Vec<u8>),
    Drop,
}

fn fate(d: &[u8], m: &Model, complete: bool) -> Fate {
    let h = match wire::get_header(d) {
        Err(_) => return Fate::Drop,
        Ok(h) => h,
    };
    let live = h.dcid.len() == 8 && m.live.contains_key(&h.dcid);
    let odd = (h.kind != PK::Vn && d[0] & 0x40 == 0) || (h.kind != PK::OneRtt && h.version != Some(1));
    match (live, h.kind) {
        (true, _) if odd => Fate::MayQueue(h.dcid),
        (true, _) => Fate::Queue(h.dcid),
        (false, PK::Initial) if odd || !complete => Fate::Either,
        (false, PK::Initial) => Fate::Surface,
        (false, _) => Fate::Drop,
    }
}

/// a complete Initial as a client sends it
pub fn client_initial(r: &mut Rng, dcid: &[u8], pad: usize, tag: u64) -> Vec<u8> {
    let pn_len = r.usize(1, 4);
    let pn = r.below(200);
    let mut s = gen::spec(r, PK::Initial, dcid.to_vec(), pn, pn_len, 300);
    s.token = if r.chance(1, 3) {
        let n = r.usize(0, 100);
        r.texture(n)
    } else {
        vec![]
    };
    s.token_len_width = gen::any_width(r, s.token.len() as u64);
    // something unique, in a PATH_CHALLENGE-free way: a CRYPTO frame
    let mut p = vec![0x06, 0x00, 0x08];
    p.extend(tag.to_be_bytes());
    if p.len() < pad {
        p.resize(pad, 0);
    }
    s.payload = p;
    s.length_width = gen::any_width(r, s.length_value());
    s.seal(&Keys::initial(dcid, false)).unwrap()
}

fn fresh_dcid(r: &mut Rng, m: &Model) -> Vec<u8> {
    loop {
        let d = match r.below(5) {
            0 => {
                // numerically an issued id, but of another length
                match pick_live(r, m) {
                    Some(k) => alias(r, &k),
                    None => r.bytes(8),
                }
            }
            1 => match pick_live(r, m) {
                Some(k) => near(r, &k),
                None => r.bytes(8),
            },
            2 => r.bytes(8),
            _ => gen::cid(r),
        };
        if d.len() <= 20 && !m.live.contains_key(&d) {
            return d;
        }
    }
}

/// one wait through a flood: hundreds of datagrams that concern nobody (or a live connection)
/// before, between and after the ones that must be handed out
fn flood(c: &mut Ctx) -> Case {
    let log = c.r.chance(1, 4);
    let (s, _u, addr) = bind(&mut c.r, log)?;
    let mut txs = vec![];
    for _ in 0..c.r.usize(1, 8) {
        txs.push(sender(&mut c.r, addr)?);
    }
    let mut m = Model { live: BTreeMap::new(), stale: vec![] };
    for _ in 0..if c.r.chance(1, 4) { c.r.usize(20, 120) } else { c.r.usize(0, 3) } {
        add_connection(&mut c.r, &s, &mut m)?;
    }
    let mut sent: Vec<(Vec<u8>, SocketAddr, Fate, usize)> = vec![];
    let kinds = c.r.usize(1, 4);
    let mut classes = vec![];
    for _ in 0..kinds {
        classes.push(c.r.below(8));
    }
    for run in 0..c.r.usize(1, 3) {
        // (the same over and over, or all different)
        let same = c.r.bool();
        let n = if c.r.chance(1, 6) { c.r.usize(1000, 3000) } else { c.r.usize(20, 400) };
        let mut prev: Option<Vec<u8>> = None;
        for i in 0..=n {
            let mut complete = false;
            let d = if i == n {
                complete = true;
                let dc = fresh_dcid(&mut c.r, &m);
                client_initial(&mut c.r, &dc, 60, (run as u64) << 32 | i as u64)
            } else if let (true, Some(p)) = (same, &prev) {
                p.clone()
            } else {
                match *c.r.pick(&classes) {
                    0 => vec![],
                    1 => {
                        let n = c.r.usize(1, 40);
                        c.r.texture(n)
                    }
                    2 => {
                        let d = header_bytes(&mut c.r, None);
                        let n = c.r.usize(0, d.len() - 1);
                        d[..n].to_vec()
                    }
                    3 => {
                        let k = c.r.bytes(8);
                        let mut d = vec![0x40 | c.r.u8() & 0x3f];
                        d.extend(k);
                        d
                    }
                    4 => {
                        let mut d = vec![0xc0, 0, 0, 0, 1, 21];
                        d.extend(c.r.bytes(40));
                        d
                    }
                    5 | 6 => {
                        let k = match pick_live(&mut c.r, &m) {
                            Some(k) => k,
                            None => c.r.bytes(8),
                        };
                        let mut d = vec![0x40 | c.r.u8() & 0x3f];
                        d.extend(k);
                        d.extend((i as u32).to_be_bytes());
                        d
                    }
                    _ => {
                        // (each of these must be handed out)
                        complete = true;
                        let dc = fresh_dcid(&mut c.r, &m);
                        client_initial(&mut c.r, &dc, 30, (run as u64) << 32 | i as u64)
                    }
                }
            };
            // the same Initial again is a new datagram, but an application may see it as a repeat
            let f = match fate(&d, &m, complete) {
                Fate::Surface if Some(&d) == prev.as_ref() => Fate::Either,
                f => f,
            };
            prev = Some(d.clone());
            let t = c.r.usize(0, txs.len() - 1);
            sent.push((d, txs[t].1, f, t));
        }
    }
    let total = sent.len();
    c.o.max("datagrams in a flood", total as u64);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let late = std::sync::atomic::AtomicUsize::new(0);
    let r = std::thread::scope(|scope| -> Case {
        let (txs, sent, stop, late) = (&txs, &sent, &stop, &late);
        scope.spawn(move || {
            use std::sync::atomic::Ordering::Relaxed;
            stay();
            for (i, (d, _, _, t)) in sent.iter().enumerate() {
                if i % 24 == 0 {
                    // no more than the socket can hold
                    let t0 = std::time::Instant::now();
                    while kernel_state(addr).0 > 60_000 && !stop.load(Relaxed) && t0.elapsed().as_secs() < 5 {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                }
                if stop.load(Relaxed) {
                    return;
                }
                if txs[*t].0.send_to(d, addr).is_err() {
                    late.store(i + 1, Relaxed);
                    return;
                }
            }
        });
        let run = || -> Case {
            let blame = |e: String| {
                let bad = late.load(std::sync::atomic::Ordering::Relaxed);
                if kernel_drops(addr) > 0 || bad > 0 {
                    format!("INCONCLUSIVE the flood did not arrive whole ({} drops, send {})", kernel_drops(addr), bad)
                } else {
                    e
                }
            };
            let mut at = 0;
            while at < sent.len() {
                let (d, from) = match catch_unwind(AssertUnwindSafe(|| s.recv_new_initial())) {
                    Err(_) => {
                        return Err(blame(format!(
                            "the wait for connections ended with a {} in a flood of {} datagrams",
                            crate::last_panic(),
                            total
                        )))
                    }
                    Ok(Err(e)) => {
                        return Err(blame(format!(
                            "LATE the wait for connections ended with {} after {} of {} datagrams of a flood",
                            e, at, total
                        )))
                    }
                    Ok(Ok(x)) => x,
                };
                c.o.eval();
                let mut j = at;
                loop {
                    let Some(x) = sent.get(j) else {
                        return Err(blame(format!("handed out {} from {} in a flood, which is not among the rest of it", hexs(&d), from)));
                    };
                    if x.0 == d && x.1 == from && matches!(x.2, Fate::Surface | Fate::Either) {
                        break;
                    }
                    if x.2 == Fate::Surface {
                        return Err(blame(format!(
                            "{} from {}, number {} of a flood of {}, was not handed out; next came {} from {}",
                            hexs(&x.0),
                            x.1,
                            j,
                            total,
                            hexs(&d),
                            from
                        )));
                    }
                    j += 1;
                }
                c.o.count("handed out of a flood");
                at = j + 1;
            }
            Ok(())
        };
        // (sent is not empty and its last entry must be handed out)
        let mut run = run;
        let r = run();
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        r
    });
    r?;
    for (d, from, f, _) in &sent {
        match f {
            Fate::Queue(k) => m.live.get_mut(k).unwrap().1.push((d.clone(), *from)),
            Fate::MayQueue(k) => m.live.get_mut(k).unwrap().1.push((d.clone(), SocketAddr::from(([0, 0, 0, 0], from.port())))),
            _ => {}
        }
    }
    compare_queues(c, &s, &mut m).map_err(|e| {
        if kernel_drops(addr) > 0 {
            "INCONCLUSIVE kernel dropped datagrams".to_string()
        } else {
            e
        }
    })?;
    check_live(&s, &m)?;
    c.o.count("flood survived");
    let parts: Vec<&[u8]> = sent.iter().map(|x| &x.0[..]).collect();
    c.o.distinct(&parts);
    Ok(())
}

pub fn c15(c: &mut Ctx) -> Case {
    let r = if c.idx % 64 == 21 { flood(c) } else { rounds(c) };
    // (the kernel may lose or swap datagrams of a busy machine, but not the same ones again)
    r.map_err(|e| {
        if e.starts_with("INCONCLUSIVE") || e.starts_with("LATE ") || e.contains("the wait for connections ended with a ") {
            e
        } else {
            format!("LATE {}", e)
        }
    })
}

/// a sender that stays on its processor keeps the order of what it sends
fn stay() {
    unsafe {
        let cpu = libc::sched_getcpu();
        if cpu >= 0 {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpu as usize % 1024, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
        }
    }
}

fn rounds(c: &mut Ctx) -> Case {
    let log = c.r.bool();
    let (s, _u, addr) = bind(&mut c.r, log)?;
    let (tx1, a1) = sender(&mut c.r, addr)?;
    let (tx2, a2) = sender(&mut c.r, addr)?;
    let mut m = Model { live: BTreeMap::new(), stale: vec![] };
    for _ in 0..c.r.usize(0, 4) {
        add_connection(&mut c.r, &s, &mut m)?;
    }
    let mut digest: Vec<Vec<u8>> = vec![];
    let mut tag = 0u64;
    for _round in 0..c.r.usize(1, 4) {
        let mut sent: Vec<(Vec<u8>, SocketAddr, Fate, &'static str)> = vec![];
        let n = c.r.usize(0, 14);
        let mut large = 0;
        for i in 0..=n {
            tag += 1;
            let last = i == n;
            let mut complete = false;
            let (d, class): (Vec<u8>, &'static str) = match if last { 0 } else { c.r.below(13) } {
                0 | 1 => {
                    let dc = fresh_dcid(&mut c.r, &m);
                    let pad = if c.r.bool() { 1200 } else { c.r.usize(0, 300) };
                    complete = true;
                    (client_initial(&mut c.r, &dc, pad, tag), "new initial")
                }
                2 => {
                    // more packets behind it, up to the largest datagram
                    let dc = fresh_dcid(&mut c.r, &m);
                    let mut d = client_initial(&mut c.r, &dc, 100, tag);
                    let n = if large == 0 && c.r.chance(1, 3) {
                        large += 1;
                        *c.r.pick(&[4095usize, 4096, 4097, 9000, 65506, 65507])
                    } else {
                        c.r.usize(300, 3000)
                    };
                    let k = n.saturating_sub(d.len());
                    d.extend(c.r.texture(k));
                    complete = true;
                    (d, "initial with more behind it")
                }
                3 => (vec![], "empty"),
                4 => {
                    let n = c.r.usize(1, 40);
                    (c.r.texture(n), "random")
                }
                5 => {
                    let d = header_bytes(&mut c.r, None);
                    let n = c.r.usize(0, d.len() - 1);
                    (d[..n].to_vec(), "cut header")
                }
                6 => {
                    let k = match pick_live(&mut c.r, &m) {
                        Some(k) => k,
                        None => c.r.bytes(8),
                    };
                    (datagram_to(&mut c.r, &k, true).0, "for a live connection")
                }
                7 => match pick_live(&mut c.r, &m) {
                    Some(k) => {
                        complete = true;
                        (client_initial(&mut c.r, &k, 50, tag), "initial for a live connection")
                    }
                    None => (vec![0x40], "short and cut"),
                },
                8 => {
                    let k = c.r.bytes(8);
                    (datagram_to(&mut c.r, &k, true).0, "unknown connection")
                }
                9 => {
                    let mut d = header_bytes(&mut c.r, Some(PK::Vn));
                    let n = c.r.usize(0, 40);
                    d.extend(c.r.texture(n));
                    (d, "version negotiation")
                }
                10 => {
                    // id too long for a header that is not version negotiation
                    let mut d = vec![0xc0 | c.r.u8() & 0x3f, 0, 0, 0, 1, c.r.range(21, 255) as u8];
                    d.extend(c.r.bytes(280));
                    (d, "id too long")
                }
                11 => {
                    let dc = fresh_dcid(&mut c.r, &m);
                    let mut d = client_initial(&mut c.r, &dc, 60, tag);
                    mutate(&mut c.r, &mut d);
                    (d, "damaged initial")
                }
                _ => {
                    let k = *c.r.pick(&[PK::ZeroRtt, PK::Handshake, PK::Retry, PK::OneRtt]);
                    let mut d = header_bytes(&mut c.r, Some(k));
                    let n = c.r.usize(0, 60);
                    d.extend(c.r.texture(n));
                    (d, "other packet types")
                }
            };
            // datagrams may arrive more than once: each time counts
            let times = if d.len() < 3000 && c.r.chance(1, 12) { 2 } else { 1 };
            for again in 0..times {
                let f = fate(&d, &m, complete);
                let (tx, from) = match sent.last() {
                    Some(x) if again > 0 && c.r.bool() => (if x.1 == a1 { &tx1 } else { &tx2 }, x.1),
                    _ if c.r.bool() => (&tx1, a1),
                    _ => (&tx2, a2),
                };
                tx.send_to(&d, addr)
                    .map_err(|e| format!("INCONCLUSIVE sending {} bytes: {}", d.len(), e))?;
                digest.push(d.clone());
                sent.push((d.clone(), from, f, class));
            }
            if times > 1 {
                c.o.count("sent twice");
            }
        }
        // wait for as many as must surface; the last one must
        let mut at = 0usize;
        let dropped = |e: String| {
            if kernel_drops(addr) > 0 {
                format!("INCONCLUSIVE kernel dropped datagrams")
            } else {
                e
            }
        };
        let story = |upto: usize| {
            sent[..=upto.min(sent.len() - 1)]
                .iter()
                .map(|x| format!("{} ({} bytes)", x.3, x.0.len()))
                .collect::<Vec<_>>()
                .join(", ")
        };
        while at < sent.len() {
            let got = catch_unwind(AssertUnwindSafe(|| s.recv_new_initial()));
            let (d, from) = match got {
                Err(_) => {
                    return Err(dropped(format!(
                        "the wait for connections ended with a {} (log {}); traffic: {}",
                        crate::last_panic(),
                        log,
                        story(sent.len())
                    )))
                }
                Ok(Err(e)) => {
                    let missing = sent[at..].iter().find(|x| x.2 == Fate::Surface).unwrap();
                    return Err(dropped(format!(
                        "LATE {} {} was not handed out within 6 s ({}); traffic: {}",
                        missing.3,
                        hexs(&missing.0),
                        e,
                        story(sent.len())
                    )));
                }
                Ok(Ok(x)) => x,
            };
            c.o.eval();
            // which one is it?
            let mut j = at;
            loop {
                if j >= sent.len() {
                    return Err(dropped(format!(
                        "handed out {} from {}, which is not among the remaining traffic (in order, once): {}",
                        hexs(&d),
                        from,
                        story(sent.len())
                    )));
                }
                let x = &sent[j];
                if x.0 == d && x.1 == from && matches!(x.2, Fate::Surface | Fate::Either) {
                    break;
                }
                if x.2 == Fate::Surface {
                    return Err(dropped(format!(
                        "{} {} ({} bytes, from {}) was not handed out; next came {} ({} bytes) from {}",
                        x.3,
                        hexs(&x.0),
                        x.0.len(),
                        x.1,
                        hexs(&d),
                        d.len(),
                        from
                    )));
                }
                j += 1;
            }
            c.o.count(&format!("handed out: {}", sent[j].3));
            c.o.max("largest datagram handed out", d.len() as u64);
            at = j + 1;
        }
        // everything up to the last one has been dealt with by now
        for (d, from, f, class) in &sent {
            c.o.eval();
            match f {
                Fate::Queue(k) => {
                    m.live.get_mut(k).unwrap().1.push((d.clone(), *from));
                    c.o.count(&format!("queued: {}", class));
                }
                Fate::MayQueue(k) => {
                    m.live.get_mut(k).unwrap().1.push((d.clone(), SocketAddr::from(([0, 0, 0, 0], from.port()))));
                    c.o.count("queued or dropped");
                }
                Fate::Drop => c.o.count(&format!("dropped: {}", class)),
                _ => {}
            }
        }
        if c.r.bool() {
            compare_queues(c, &s, &mut m)?;
        }
        check_live(&s, &m)?;
    }
    compare_queues(c, &s, &mut m)?;
    let parts: Vec<&[u8]> = digest.iter().map(|x| &x[..]).collect();
    c.o.distinct(&parts);
    c.o.sample(|| format!("{} datagrams, {} live connections, log {}", digest.len(), m.live.len(), log));
    Ok(())
}

/// the queues hold what they must; entries with address 0.0.0.0 may be missing
fn compare_queues(c: &mut Ctx, s: &MonitoredSocket, m: &mut Model) -> Case {
    for (k, (_, want)) in m.live.iter_mut() {
        let got = s
            .drain(id(k))
            .ok_or_else(|| format!("connection {} is gone", hexs(k)))?;
        let mut i = 0;
        for (d, a) in want.iter() {
            let optional = a.ip().is_unspecified();
            let hit = got
                .get(i)
                .map_or(false, |(x, b)| x == d && b.port() == a.port() && (optional || a == b));
            if hit {
                i += 1;
            } else {
                ensure!(
                    optional,
                    "datagram {} from {} for the live connection {} was not queued in its place (found {:?})",
                    hexs(d),
                    a,
                    hexs(k),
                    got.get(i).map(|(x, b)| format!("{} from {}", hexs(x), b))
                );
            }
        }
        ensure!(
            i == got.len(),
            "connection {} also received {} from {}",
            hexs(k),
            hexs(&got[i].0),
            got[i].1
        );
        want.clear();
        c.o.count("queue compared");
    }
    Ok(())
}

// ------------------------------------------------------------------ C16
/// accepts one connection for a client with the given id; returns the new connection's id
fn accept_one(c: &mut Ctx, s: &MonitoredSocket, m: &mut Model, tx: &UdpSocket, addr: SocketAddr, n: u64) -> Result<Vec<u8>, String> {
    let dc = fresh_dcid(&mut c.r, m);
    let pad = if c.r.bool() { 1200 } else { 60 };
    let d = client_initial(&mut c.r, &dc, pad, n);
    tx.send_to(&d, addr).map_err(|e| format!("INCONCLUSIVE send: {}", e))?;
    let before: Vec<Vec<u8>> = m.live.keys().cloned().collect();
    // randomness that repeats itself, or looks like anything but random
    let mut draws: Vec<[u8; 8]> = vec![];
    if c.r.chance(1, 3) {
        for _ in 0..c.r.usize(1, 5) {
            if let Some(k) = pick_live(&mut c.r, m) {
                draws.push(k[..].try_into().unwrap());
            }
        }
    }
    if c.r.chance(1, 4) {
        let k = c.r.texture(8);
        if !m.stale.contains(&k) && !m.live.contains_key(&k) {
            draws.push(k[..].try_into().unwrap());
        }
    }
    let scripted = draws.len();
    crate::rand::script(draws);
    let r = catch_unwind(AssertUnwindSafe(|| s.accept()));
    let used = scripted - crate::rand::unscript();
    c.o.add("scripted random draws", used as u64);
    let given = match r {
        Ok(Ok(x)) => Some(x),
        Ok(Err(e)) => {
            return Err(if kernel_drops(addr) > 0 {
                "INCONCLUSIVE kernel dropped a datagram".to_string()
            } else {
                format!("LATE accepting {} failed: {}", hexs(&d), e)
            })
        }
        // the handshake that should follow is documented as not implemented
        Err(_) if crate::last_panic().contains("not yet implemented") => None,
        Err(_) => return Err(format!("accepting {} ended with a {}", hexs(&d), crate::last_panic())),
    };
    let mut fresh = vec![];
    let mut kept = 0;
    for i in s.live_ids() {
        let b = id_bytes(&i, 8).map_err(|x| format!("connection registered under an id that is not 8 bytes: {}", x))?;
        if before.contains(&b) {
            kept += 1;
        } else {
            fresh.push((i, b));
        }
    }
    ensure!(
        kept == before.len(),
        "accepting a connection lost {} of {} live ones ({} scripted random draws)",
        before.len() - kept,
        before.len(),
        used
    );
    ensure!(
        fresh.len() == 1,
        "accepting one connection registered {} new ids ({} scripted random draws)",
        fresh.len(),
        used
    );
    let (i, k) = fresh.pop().unwrap();
    if let Some(g) = given {
        ensure!(g == i, "accept returned {:?}, registered {:?}", g, i);
    }
    ensure!(
        !m.stale.contains(&k),
        "id {} was issued before",
        hexs(&k)
    );
    // what it holds
    let e = End::new(true, &dc)?;
    s.with_connection(i, |conn| -> Case {
        let (x, l) = conn.get_scid().map_err(|x| format!("accepted connection has no source id: {}", es(&x)))?;
        ensure!(
            x == i && l == 8,
            "connection {} has the source id {:?} of {} bytes",
            hexs(&k),
            x,
            l
        );
        let (x, l) = conn.get_dcid();
        ensure!(
            x == id(&dc) && l as usize == dc.len(),
            "connection for client id {} has the destination id {:?} of {} bytes",
            hexs(&dc),
            x,
            l
        );
        ensure!(conn.get_version_field() == 1, "version {}", conn.get_version_field());
        // its keys: the server's, for the id the client chose
        let space = qc::Space::Initial.pn_space();
        let ours = e.own_keys(PK::Initial).unwrap();
        let theirs = e.peer_keys(PK::Initial).unwrap();
        let sealed = conn
            .encrypt_local_payload(qc::Space::Initial.pn_space(), b"from the server", b"header", 77)
            .map_err(|x| format!("the accepted connection cannot seal: {}", es(&x)))?;
        ensure!(
            sealed == ours.seal(77, b"header", b"from the server"),
            "the connection accepted for client id {} does not seal with the server's Initial keys of that id",
            hexs(&dc)
        );
        let opened = conn.decrypt_remote_payload(space, &theirs.seal(78, b"header", b"from the client"), b"header", 78);
        ensure!(
            opened.as_ref().ok().map(|x| &x[..]) == Some(&b"from the client"[..]),
            "the connection accepted for client id {} does not open with the client's Initial keys of that id",
            hexs(&dc)
        );
        // the packets it decodes and builds are those of such a connection on its own
        let mut t = End::new(true, &dc)?;
        t.conn.set_scid(i, 8);
        let (a, b) = (lib_decode(&d, conn), lib_decode(&d, &t.conn));
        ensure!(
            a.as_ref().ok() == b.as_ref().ok(),
            "the accepted connection decodes the Initial that created it ({}) to {:?}, such a connection on its own to {:?}",
            hexs(&d),
            a,
            b
        );
        let fs = [wire::RF::Ping, wire::RF::Ping, wire::RF::Ping, wire::RF::Ping];
        let build = |conn: &mut qc::Connection| {
            qp::PacketInitial::new(lib_frames(&fs), None, conn)
                .and_then(|p| qp::serialize_initial(&p, conn))
                .map_err(|x| es(&x))
        };
        let (a, b) = (build(conn), build(&mut t.conn));
        ensure!(
            a.as_ref().ok() == b.as_ref().ok(),
            "the accepted connection builds the Initial {:?}, such a connection on its own {:?}",
            a,
            b
        );
        if let Ok(out) = a {
            if let Ok(h) = wire::get_header(&out) {
                ensure!(
                    h.scid.as_deref() == Some(&k[..]),
                    "the accepted connection sends the source id {:?} instead of {}",
                    h.scid.map(|x| hexs(&x)),
                    hexs(&k)
                );
            }
            ensure!(lib_decode(&out, conn).is_err(), "the accepted connection accepts its own packets");
        }
        Ok(())
    })
    .ok_or("the accepted connection is not reachable")??;
    // nothing may be waiting except, legitimately, the datagram that created it
    let waiting = s.drain(i).ok_or("the accepted connection is not reachable")?;
    ensure!(
        waiting.iter().all(|(x, _)| *x == d) && waiting.len() <= 1,
        "{} datagrams were waiting for a new connection",
        waiting.len()
    );
    m.live.insert(k.clone(), (e, vec![]));
    c.o.eval();
    c.o.count("connection accepted");
    Ok(k)
}

/// many connections at a time, with ids that have much in common
fn crowd(c: &mut Ctx) -> Case {
    let (s, _u, addr) = bind(&mut c.r, false)?;
    let (tx, _) = sender(&mut c.r, addr)?;
    let mut m = Model { live: BTreeMap::new(), stale: vec![] };
    let mut handles: BTreeMap<Vec<u8>, quic_sea::QuicStream> = BTreeMap::new();
    let n = match c.r.below(20) {
        0 if !cfg!(miri) => c.r.usize(700, 4500),
        1..=4 => c.r.usize(200, 700),
        _ => c.r.usize(30, 200),
    };
    let seed = c.r.texture(8);
    let base = u64::from_be_bytes(seed[..].try_into().unwrap());
    let d = gen::cid(&mut c.r);
    for i in 0..n as u64 {
        let mut k = match c.r.below(5) {
            0 => base ^ i << 32,
            1 => base ^ i,
            2 => base ^ i << 56,
            3 => base.rotate_left(i as u32),
            _ => c.r.u64(),
        }
        .to_be_bytes()
        .to_vec();
        while m.live.contains_key(&k) {
            k = c.r.bytes(8);
        }
        let e = End::new(true, &d)?;
        let mut x = twin(&e)?;
        x.conn.set_scid(id(&k), 8);
        s.insert(id(&k), x.conn);
        handles.insert(k.clone(), qi::stream_handle(&s, id(&k)));
        m.live.insert(k, (e, vec![]));
    }
    check_live(&s, &m)?;
    c.o.max("live connections", n as u64);
    let mut accepted = 0;
    for step in 0..n + n / 2 {
        c.o.eval();
        match c.r.below(8) {
            0 if accepted < 6 => {
                accepted += 1;
                let k = accept_one(c, &s, &mut m, &tx, addr, step as u64)?;
                handles.insert(k.clone(), qi::stream_handle(&s, id(&k)));
            }
            1 | 2 => {
                let Some(k) = pick_live(&mut c.r, &m) else { continue };
                let (d, _) = datagram_to(&mut c.r, &k, true);
                let a = loopback(&mut c.r);
                s.route(d.clone(), a)
                    .map_err(|x| format!("datagram {} for {}, one of {} live connections, refused: {}", hexs(&d), hexs(&k), m.live.len(), es(&x)))?;
                m.live.get_mut(&k).unwrap().1.push((d, a));
            }
            3..=5 => {
                let Some(k) = pick_live(&mut c.r, &m) else { continue };
                handles.remove(&k);
                m.live.remove(&k);
                let (d, _) = datagram_to(&mut c.r, &k, true);
                ensure!(
                    s.route(d, addr).is_err(),
                    "a datagram for the dropped connection {} (one of {}) was accepted",
                    hexs(&k),
                    m.live.len() + 1
                );
                m.stale.push(k);
                c.o.count("stream handle dropped in a crowd");
            }
            6 if !m.stale.is_empty() => {
                let k = c.r.pick(&m.stale).clone();
                if !m.live.contains_key(&k) {
                    drop(qi::stream_handle(&s, id(&k)));
                }
            }
            _ => {}
        }
        if c.r.chance(1, 12 + n as u64 / 20) {
            check_live(&s, &m).map_err(|x| format!("crowd of {}: {}", n, x))?;
        }
    }
    // all but a few leave, in whatever order
    if c.r.bool() {
        let stay = c.r.usize(0, 12);
        let mut ids: Vec<Vec<u8>> = m.live.keys().cloned().collect();
        for i in (1..ids.len()).rev() {
            ids.swap(i, c.r.usize(0, i));
        }
        for k in ids.iter().skip(stay) {
            handles.remove(k);
            m.live.remove(k);
        }
        c.o.count("crowd left but for a few");
    }
    check_live(&s, &m).map_err(|x| format!("crowd of {}: {}", n, x))?;
    for (k, (_, want)) in &m.live {
        check_queue(&s, k, want, "crowd")?;
    }
    drop(handles);
    ensure!(s.live_ids().is_empty(), "connections left after all streams were dropped");
    c.o.count("crowd");
    c.o.distinct(&[b"crowd", &c.idx.to_le_bytes()]);
    Ok(())
}

pub fn c16(c: &mut Ctx) -> Case {
    if c.idx % 10 == 7 {
        return release(c);
    }
    if c.idx % 50 == 23 {
        return crowd(c);
    }
    let log = c.r.chance(1, 4);
    let (s, _u, addr) = bind(&mut c.r, log)?;
    let (tx, _) = sender(&mut c.r, addr)?;
    let mut m = Model { live: BTreeMap::new(), stale: vec![] };
    let mut handles: Vec<(Vec<u8>, quic_sea::QuicStream)> = vec![];
    let mut hist: Vec<String> = vec![];
    let mut n = 0;
    for _ in 0..c.r.usize(3, 25) {
        n += 1;
        let ops = c.r.below(10);
        match ops {
            0..=2 => {
                let k = accept_one(c, &s, &mut m, &tx, addr, n)?;
                handles.push((k.clone(), qi::stream_handle(&s, id(&k))));
                hist.push("accept".into());
            }
            3 => {
                // a connection with a chosen, close id
                if m.live.len() < 12 {
                    let k = add_connection(&mut c.r, &s, &mut m)?;
                    // ids drawn at random never repeat, chosen ones may
                    m.stale.retain(|x| *x != k);
                    handles.push((k.clone(), qi::stream_handle(&s, id(&k))));
                    hist.push("add".into());
                }
            }
            4 | 5 => {
                // data for anyone
                for _ in 0..c.r.usize(1, 4) {
                    if let Some(k) = pick_live(&mut c.r, &m) {
                        let (d, _) = datagram_to(&mut c.r, &k, true);
                        let a = loopback(&mut c.r);
                        s.route(d.clone(), a)
                            .map_err(|x| format!("datagram {} for live connection {} refused: {}", hexs(&d), hexs(&k), es(&x)))?;
                        m.live.get_mut(&k).unwrap().1.push((d, a));
                        hist.push(format!("data for {}", hexs(&k)));
                    }
                }
            }
            6 | 7 => {
                if handles.is_empty() {
                    continue;
                }
                let i = c.r.usize(0, handles.len() - 1);
                let (k, h) = handles.swap_remove(i);
                if c.r.chance(1, 8) {
                    // its owner dies of a panic of its own
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _h = h;
                        std::panic::resume_unwind(Box::new("the application's own panic"));
                    }));
                    c.o.count(if r.is_err() { "stream handle dropped by a panic" } else { "no panic" });
                } else {
                    drop(h);
                }
                m.live.remove(&k);
                hist.push(format!("drop {}", hexs(&k)));
                c.o.count("stream handle dropped");
                ensure!(
                    s.drain(id(&k)).is_none() && s.with_connection(id(&k), |_| ()).is_none(),
                    "connection {} is still there after its stream was dropped; {}",
                    hexs(&k),
                    hist.join("; ")
                );
                m.stale.push(k);
            }
            8 => {
                // again, or something that never was
                let k = if !m.stale.is_empty() && c.r.bool() {
                    c.r.pick(&m.stale).clone()
                } else if let (Some(k), true) = (pick_live(&mut c.r, &m), c.r.bool()) {
                    near(&mut c.r, &k)
                } else {
                    gen::cid(&mut c.r)
                };
                // (an id that is numerically a live 8-byte id names that connection)
                let mut k8 = vec![0u8; 20 - k.len()];
                k8.extend(&k);
                let numeric_live = k8[..12].iter().all(|x| *x == 0) && m.live.contains_key(&k8[12..].to_vec());
                if numeric_live {
                    continue;
                }
                if c.r.bool() {
                    drop(qi::stream_handle(&s, id(&k)));
                } else {
                    s.drop_connection(id(&k));
                }
                c.o.count("unknown or repeated drop");
                hist.push(format!("drop unknown {}", hexs(&k)));
            }
            _ => {
                // stale traffic
                if let Some(k) = m.stale.last().cloned() {
                    if !m.live.contains_key(&k) {
                        let (d, _) = datagram_to(&mut c.r, &k, true);
                        let a = loopback(&mut c.r);
                        ensure!(
                            s.route(d.clone(), a).is_err(),
                            "datagram {} for the dropped connection {} was accepted",
                            hexs(&d),
                            hexs(&k)
                        );
                        c.o.count("datagram for a dropped connection refused");
                    }
                }
            }
        }
        c.o.eval();
        check_live(&s, &m).map_err(|x| format!("{} after [{}]", x, hist.join("; ")))?;
        if c.r.chance(1, 5) {
            if let Some(k) = pick_live(&mut c.r, &m) {
                let want = std::mem::take(&mut m.live.get_mut(&k).unwrap().1);
                check_queue(&s, &k, &want, &hist.join("; "))?;
            }
        }
    }
    for (k, (e, want)) in &m.live {
        check_queue(&s, k, want, &hist.join("; "))?;
        // still able to decode
        let sp: Spec = peer_spec(&mut c.r, e, PK::Initial, 5, 2, 100);
        let d = sp.seal(&e.peer_keys(PK::Initial).unwrap()).unwrap();
        let v = s
            .with_connection(id(k), |conn| {
                qc::set_largest_received(conn, qc::Space::Initial, None);
                lib_decode(&d, conn)
            })
            .ok_or("connection is gone")?;
        let alone = lib_decode(&d, &e.conn);
        ensure!(
            v.as_ref().ok() == alone.as_ref().ok(),
            "live connection {} decodes {} to {:?}, the same connection without this history to {:?}; {}",
            hexs(k),
            hexs(&d),
            v,
            alone,
            hist.join("; ")
        );
        c.o.eval();
        c.o.count("surviving connection still works");
    }
    c.o.distinct(&[hist.join("|").as_bytes(), &c.idx.to_le_bytes()]);
    c.o.max("live connections", m.live.len() as u64);
    c.o.sample(|| hist[..hist.len().min(12)].join("; "));
    // the socket goes away with its connections; handles dropped after it are harmless
    let after = c.r.bool();
    if after {
        drop(s);
        drop(handles);
    } else {
        drop(handles);
        ensure!(s.live_ids().is_empty(), "connections left after all streams were dropped");
    }
    Ok(())
}

/// many short-lived connections leave no memory behind
fn release(c: &mut Ctx) -> Case {
    let (s, _u, addr) = bind(&mut c.r, false)?;
    let (tx, _) = sender(&mut c.r, addr)?;
    let rounds = if c.r.chance(1, 4) { 400 } else { 60 };
    let accept = c.r.bool();
    let mut mark = 0i64;
    for round in 0..2 * rounds {
        if round == rounds {
            mark = alloc::snap().live as i64;
        }
        let k;
        {
            let mut m = Model { live: BTreeMap::new(), stale: vec![] };
            k = if accept {
                accept_one(c, &s, &mut m, &tx, addr, round as u64)?
            } else {
                add_connection(&mut c.r, &s, &mut m)?
            };
            for _ in 0..3 {
                let mut d = vec![0x40];
                d.extend(&k);
                d.resize(400, 7);
                s.route(d, addr).map_err(|x| format!("datagram for a live connection refused: {}", es(&x)))?;
            }
            if c.r.bool() {
                let _ = s.drain(id(&k));
            }
        }
        drop(qi::stream_handle(&s, id(&k)));
        ensure!(s.live_ids().is_empty(), "connection {} survives its drop", hexs(&k));
    }
    let grown = alloc::snap().live as i64 - mark;
    c.o.eval();
    c.o.max(if rounds > 60 { "bytes kept after 400 accept/drop cycles" } else { "bytes kept after 60 accept/drop cycles" }, grown.max(0) as u64);
    ensure!(
        grown < 12_000,
        "{} {}/drop cycles left {} bytes allocated",
        rounds,
        if accept { "accept" } else { "create" },
        grown
    );
    c.o.count("release measured");
    c.o.distinct(&[b"release", &c.idx.to_le_bytes()]);
    Ok(())
}
