//! C01 (no panic, no hang), C02 (bounded memory), C18 (memory safety mix), C20 (failing sources)
use super::fixtures::*;
use crate::gen;
use crate::glue::*;
use crate::obs::Case;
use crate::rng::Rng;
use crate::wire::{self, hexs, Wire, MAX62, PK};
use crate::{alloc, ensure, Ctx};
use quic_sea::verif::connection::Connection;
use quic_sea::verif::frame as qf;
use quic_sea::verif::packet as qp;
use quic_sea::verif::utils::{self as qu, DecodeFromBytes, FromDatagram, U160};
use quic_sea::verif::Result as QResult;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Parser {
    Header,
    Packets,
    NextPacket,
    Frames,
    Frame,
    Vn,
    VarInt,
    VarIntBytes,
    Id(u8),
    FixedId,
    Bytes(u64),
    All,
    U8,
    U16,
    U32,
    U64,
    U128,
    U160,
    VarU32(u8),
}

pub enum Out {
    Header(qp::PacketHeader),
    Packets(Vec<qp::Packet>),
    Packet(qp::Packet),
    Vn(qp::PacketVersionNegotiation),
    Frames(Vec<qf::Frame>),
    Frame(qf::Frame),
    Int(u128),
    IntBytes(u64, Vec<u8>),
    Id(U160),
    Bytes(Vec<u8>),
}

impl Out {
    pub fn text(&self) -> String {
        match self {
            Out::Header(h) => format!("{:?}", qp::header_view(h)),
            Out::Packets(v) => format!("{:?}", v.iter().map(qp::view).collect::<Vec<_>>()),
            Out::Packet(p) => format!("{:?}", qp::view(p)),
            Out::Vn(p) => format!("{:?}", p),
            Out::Frames(v) => format!("{:?}", v.iter().map(qf::view).collect::<Vec<_>>()),
            Out::Frame(f) => format!("{:?}", qf::view(f)),
            Out::Int(x) => format!("{}", x),
            Out::IntBytes(x, b) => format!("{} {:?}", x, b),
            Out::Id(x) => format!("{:?}", x),
            Out::Bytes(b) => format!("{:?}", b),
        }
    }
}

pub fn parse<S>(p: Parser, s: &mut S, conn: &Connection) -> QResult<Out>
where
    S: Iterator<Item = QResult<u8>> + Clone,
{
    Ok(match p {
        Parser::Header => Out::Header(qp::next_header_from_stream(s)?),
        Parser::Packets => Out::Packets(qp::decode_packets(s, conn)?),
        Parser::NextPacket => Out::Packet(qp::decode_next_packet(s, conn)?),
        Parser::Vn => Out::Vn(qp::PacketVersionNegotiation::from_stream(s)?),
        Parser::Frames => Out::Frames(qf::deserialize_frames(s)?),
        Parser::Frame => Out::Frame(qf::deserialize_frame(s)?),
        Parser::VarInt => Out::Int(qu::var_int_from_stream(s)? as u128),
        Parser::VarIntBytes => {
            let (a, b) = qu::var_int_with_bytes_from_stream(s)?;
            Out::IntBytes(a, b)
        }
        Parser::Id(n) => Out::Id(qu::var_u160_from_stream(s, n)?),
        Parser::FixedId => Out::Id(qu::fixed_len_dcid_from_stream(s)?),
        Parser::Bytes(n) => Out::Bytes(qu::var_bytes_from_stream(s, n as usize)?),
        Parser::All => Out::Bytes(qu::all_bytes_from_stream(s)?),
        Parser::U8 => Out::Int(u8::from_datagram(s)? as u128),
        Parser::U16 => Out::Int(u16::from_datagram(s)? as u128),
        Parser::U32 => Out::Int(u32::from_datagram(s)? as u128),
        Parser::U64 => Out::Int(u64::from_datagram(s)? as u128),
        Parser::U128 => Out::Int(u128::from_datagram(s)?),
        Parser::U160 => Out::Id(U160::from_datagram(s)?),
        Parser::VarU32(n) => Out::Int(qu::var_u32_from_stream(s, n as usize)? as u128),
    })
}

fn small_parsers(r: &mut Rng) -> Vec<Parser> {
    vec![
        Parser::VarInt,
        Parser::VarIntBytes,
        Parser::Id(r.usize(0, 20) as u8),
        Parser::FixedId,
        Parser::Bytes(if r.bool() { lie(r) } else { r.below(40) }),
        Parser::All,
        Parser::U8,
        Parser::U16,
        Parser::U32,
        Parser::U64,
        Parser::U128,
        Parser::U160,
        Parser::VarU32(r.usize(0, 4) as u8),
    ]
}

// ------------------------------------------------------------------ C01
fn cpu_us() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1_000_000 + t.tv_nsec as u64 / 1000
    }
}

/// processor time one decode may take (measured on the unchanged tree: under 10 ms for the
/// largest datagrams); what was decrypted is not read through a metered source
const CPU_US: u64 = 1_500_000;

fn in_time(c: &mut Ctx, what: &str, d: &[u8], first: u64, again: impl Fn()) -> Case {
    c.o.max("most processor time for one decode (us)", first);
    let mut least = first;
    for _ in 0..3 {
        if least <= CPU_US {
            return Ok(());
        }
        let t0 = cpu_us();
        again();
        least = least.min(cpu_us() - t0);
    }
    ensure!(
        least <= CPU_US,
        "{}: decoding {} bytes took {} ms of processor time: {}",
        what,
        d.len(),
        least / 1000,
        hexs(d)
    );
    Ok(())
}

pub fn c01(c: &mut Ctx) -> Case {
    let mut e = end(&mut c.r, 5)?;
    let big = c.idx % 64 == 0;
    let n = if big { 2 } else { 8 };
    for _ in 0..n {
        let (d, class) = hostile(&mut c.r, &mut e, big);
        if c.r.chance(1, 10) {
            // whatever the receiver has seen so far
            for s in SPACES {
                let v = match c.r.below(4) {
                    0 => None,
                    1 => Some(MAX62),
                    2 => Some(MAX62 - c.r.below(300)),
                    _ => Some(gen::v62(&mut c.r)),
                };
                quic_sea::verif::connection::set_largest_received(&mut e.conn, s, v);
            }
        }
        c.o.distinct(&[&d]);
        c.o.sample(|| format!("{}: {}", class, hexs(&d)));
        c.o.max("longest datagram", d.len() as u64);
        let mut ps = vec![
            Parser::Packets,
            Parser::Header,
            Parser::NextPacket,
            Parser::Frames,
            Parser::Frame,
        ];
        if d.len() > 5 && d[0] & 0x80 != 0 && d[1..5] == [0, 0, 0, 0] {
            ps.push(Parser::Vn);
        }
        if c.r.chance(1, 4) {
            ps.extend(small_parsers(&mut c.r));
        }
        for p in ps {
            let m = Meter::linear(d.len());
            let mut s = Src::new(&d, &m);
            let t0 = cpu_us();
            let ok = parse(p, &mut s, &e.conn).is_ok();
            let t = cpu_us() - t0;
            c.o.eval();
            in_time(c, &format!("{:?}", p), &d, t, || {
                let _ = parse(p, &mut qu::make_result_stream(&d), &e.conn);
            })?;
            c.o.count(&format!(
                "{:?}: {}",
                match p {
                    Parser::Packets => class,
                    _ => "other parsers",
                },
                if ok { "decoded" } else { "refused" }
            ));
            c.o.max(
                "reads per input byte (x100, inputs of 100+ bytes)",
                if d.len() >= 100 { m.pulls.get() * 100 / d.len() as u64 } else { 0 },
            );
        }
        // payloads straight into the frame parser
        let p = if big { big_payload(&mut c.r) } else { hostile_payload(&mut c.r, 2000) };
        let m = Meter::linear(p.len());
        let t0 = cpu_us();
        let ok = qf::deserialize_frames(&mut Src::new(&p, &m)).is_ok();
        let t = cpu_us() - t0;
        c.o.eval();
        in_time(c, "payload", &p, t, || {
            let _ = qf::deserialize_frames(&mut qu::make_result_stream(&p));
        })?;
        c.o.count(if ok { "payload: decoded" } else { "payload: refused" });
        // slice readers
        let k = c.r.usize(0, d.len().min(24));
        let _ = qu::decode_var_int(&d[..k]);
        let _ = qu::decode_bytes(&d[..k], if c.r.bool() { usize::MAX } else { c.r.usize(0, 40) });
        let _ = u8::decode_from_bytes(&d[..k]);
        let _ = u16::decode_from_bytes(&d[..k]);
        let _ = u32::decode_from_bytes(&d[..k]);
        let _ = u64::decode_from_bytes(&d[..k]);
        let _ = u128::decode_from_bytes(&d[..k]);
        c.o.eval();
    }
    Ok(())
}

// ------------------------------------------------------------------ C02
/// bytes a decode call may request: a constant plus a multiple of the input (measured on the
/// unchanged tree: at most 3 KiB + 290 bytes per byte)
pub const MEM_CONST: u64 = 12 * 1024;
pub const MEM_PER_BYTE: u64 = 1024;

fn spend<T>(f: impl FnOnce() -> T) -> (u64, u64, Option<T>) {
    let a = alloc::snap();
    alloc::reset_largest();
    // (whether it panics is C01's business)
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    let (t, l) = (alloc::snap().total - a.total, alloc::largest());
    (if x.is_some() { t } else { 0 }, if x.is_some() { l } else { 0 }, x)
}

fn judge_mem(c: &mut Ctx, what: &str, d: &[u8], spent: u64, largest: u64) -> Case {
    c.o.eval();
    let n = d.len() as u64;
    c.o.max(&format!("{}: bytes requested for inputs under 64 bytes", what), if n < 64 { spent } else { 0 });
    c.o.max(
        &format!("{}: bytes requested per input byte (inputs of 1000+ bytes)", what),
        if n >= 1000 { spent / n } else { 0 },
    );
    c.o.max("largest single request for inputs under 64 bytes", if n < 64 { largest } else { 0 });
    ensure!(
        spent <= MEM_CONST + MEM_PER_BYTE * n,
        "{}: decoding {} input bytes requested {} bytes of memory (largest single request {}): {}",
        what,
        n,
        spent,
        largest,
        hexs(d)
    );
    Ok(())
}

pub fn c02(c: &mut Ctx) -> Case {
    let mut e = end(&mut c.r, 6)?;
    // warm up whatever is lazily initialised
    let (w, _) = hostile(&mut c.r, &mut e, false);
    let _ = parse(Parser::Packets, &mut qu::make_result_stream(&w), &e.conn);
    let _ = parse(Parser::Bytes(9), &mut qu::make_result_stream(&[1, 2]), &e.conn);
    let big = c.idx % 24 == 0;
    let n = if big { 2 } else { 6 };
    for _ in 0..n {
        let (d, _) = hostile(&mut c.r, &mut e, big);
        c.o.distinct(&[&d]);
        for p in [Parser::Packets, Parser::Header, Parser::NextPacket, Parser::Frames] {
            let (spent, largest, _x) = spend(|| parse(p, &mut qu::make_result_stream(&d), &e.conn));
            judge_mem(c, &format!("{:?}", p), &d, spent, largest)?;
        }
        if c.r.chance(1, 3) {
            let m = Meter::linear(d.len());
            let (spent, largest, _x) = spend(|| parse(Parser::Packets, &mut Src::new(&d, &m), &e.conn));
            judge_mem(c, "Packets, unsized source", &d, spent, largest)?;
        }
        // frame payloads that declare more than they hold
        let f = hostile_payload(&mut c.r, 1500);
        c.o.distinct(&[&f]);
        c.o.sample(|| format!("payload {}", hexs(&f)));
        let (spent, largest, _x) = spend(|| parse(Parser::Frames, &mut qu::make_result_stream(&f), &e.conn));
        judge_mem(c, "Frames", &f, spent, largest)?;
        let (spent, largest, _x) = spend(|| parse(Parser::Frame, &mut qu::make_result_stream(&f), &e.conn));
        judge_mem(c, "Frame", &f, spent, largest)?;
        // the same, sealed
        let kinds = receivable(&e);
        let k = *c.r.pick(&kinds);
        let (pn, pn_len, _) = arrange_pn(&mut c.r, &mut e, k);
        let mut s = peer_spec(&mut c.r, &e, k, pn, pn_len, 40);
        s.payload = f;
        while s.payload.len() < 4 {
            s.payload.push(1);
        }
        s.fit_widths();
        let d = s.seal(&e.peer_keys(k).unwrap()).unwrap();
        let (spent, largest, _x) = spend(|| parse(Parser::Packets, &mut qu::make_result_stream(&d), &e.conn));
        judge_mem(c, "Packets", &d, spent, largest)?;
        // byte strings shorter than asked for
        let ask = lie(&mut c.r).max(1 << 16);
        let k = c.r.usize(0, 30);
        let b = c.r.texture(k);
        let (spent, largest, _x) = spend(|| parse(Parser::Bytes(ask), &mut qu::make_result_stream(&b), &e.conn));
        judge_mem(c, "byte string", &b, spent, largest)?;
        let (spent, largest, _x) = spend(|| qu::decode_bytes(&b, ask as usize).is_ok());
        judge_mem(c, "byte slice", &b, spent, largest)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
extern "C" {
    #[cfg(qmon_asan)]
    fn __sanitizer_get_current_allocated_bytes() -> usize;
}

/// bytes of heap in use: everything malloc'd (OpenSSL included) under the sanitizer,
/// otherwise what the Rust code holds
fn in_use() -> u64 {
    #[cfg(qmon_asan)]
    unsafe {
        return __sanitizer_get_current_allocated_bytes() as u64;
    }
    #[cfg(not(qmon_asan))]
    alloc::snap().live
}

fn balanced(what: &str, mut f: impl FnMut()) -> Case {
    f(); // lazily initialised state
    f();
    let a = in_use();
    f();
    let b = in_use();
    ensure!(
        b <= a,
        "{}: {} bytes of heap still in use after everything was dropped",
        what,
        b - a
    );
    Ok(())
}

pub fn c18(c: &mut Ctx) -> Case {
    let others: Vec<&'static super::Prop> = super::ALL
        .iter()
        .filter(|p| p.id != "C18" && p.id != "C23")
        .collect();
    match c.idx % 4 {
        0 => {
            // another check's workload, here for the instrumentation watching it; its verdict is
            // that check's business, its crashes are ours
            let p = others[(c.idx / 4) as usize % others.len()];
            let before = c.o.evals;
            let mut sub = crate::obs::Obs::new();
            let i = c.idx / 4 + c.r.below(1000) * 1_000_003;
            let mut ctx = Ctx {
                r: Rng::new(c.r.u64(), 18, i),
                idx: i,
                o: &mut sub,
                thorough: c.thorough,
            };
            let f = p.run;
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
            c.o.evals = before + sub.evals.min(1);
            c.o.count(&format!("workload of {}", p.id));
            c.o.distinct(&[p.id.as_bytes(), &i.to_le_bytes()]);
        }
        1 => {
            let mut e = end(&mut c.r, 6)?;
            let (mut d, mut class) = hostile(&mut c.r, &mut e, c.idx % 64 == 1);
            if c.r.chance(1, 8) {
                // what follows the header fills a buffer exactly, or nearly
                let k = *c.r.pick(&[PK::Vn, PK::OneRtt, PK::Retry, PK::Initial]);
                d = header_bytes(&mut c.r, Some(k));
                let n = (1usize << c.r.usize(3, 15)) + c.r.usize(0, 2) - 1;
                d.extend(c.r.texture(n));
                class = "exact size";
            }
            let f = hostile_payload(&mut c.r, 600);
            c.o.distinct(&[&d]);
            c.o.sample(|| format!("heap balance after {}: {}", class, hexs(&d)));
            for p in [Parser::Packets, Parser::Header, Parser::NextPacket] {
                balanced(&format!("{:?} on {}", p, hexs(&d)), || {
                    let _ = parse(p, &mut qu::make_result_stream(&d), &e.conn);
                })?;
                c.o.eval();
            }
            balanced(&format!("frames {}", hexs(&f)), || {
                let _ = qf::deserialize_frames(&mut qu::make_result_stream(&f));
            })?;
            c.o.eval();
            c.o.count("heap balance of decoding");
        }
        2 => {
            // building, sealing and dropping
            let dcid = gen::cid(&mut c.r);
            let server = c.r.bool();
            let mut fs = vec![];
            for _ in 0..c.r.usize(1, 5) {
                fs.push(gen::frame(&mut c.r, gen::Where::Handshake, 200));
            }
            fs.push(wire::RF::ResetStream(gen::v64(&mut c.r), 1, 2));
            let scid = gen::cid(&mut c.r);
            let tn = c.r.usize(0, 60);
            let token = c.r.texture(tn);
            balanced("packet building", || {
                if let Ok(mut conn) = new_conn(server, &dcid) {
                    conn.set_scid(id(&scid), scid.len());
                    if let Ok(p) = qp::PacketInitial::new(lib_frames(&fs), Some(token.clone()), &mut conn) {
                        let _ = qp::serialize_initial(&p, &conn);
                    }
                    if let Ok(p) = qp::PacketHandshake::new(lib_frames(&fs), &mut conn) {
                        let _ = qp::serialize_handshake(&p, &conn);
                    }
                }
            })?;
            c.o.eval();
            c.o.distinct(&[&dcid, &scid, &token]);
            c.o.count("heap balance of sealing");
        }
        _ => buffers(c)?,
    }
    Ok(())
}

/// the raw buffer helpers
fn buffers(c: &mut Ctx) -> Case {
    macro_rules! go {
        ($t:ty, $n:expr) => {{
            let n: usize = $n;
            // dirty the heap so that "zeroed" is not an accident
            let junk: Vec<Vec<u8>> = (0..4).map(|_| vec![0xa5u8; n * std::mem::size_of::<$t>()]).collect();
            drop(junk);
            let before = alloc::snap();
            let mut b = qu::calloc_box_buffer::<$t>(n);
            ensure!(b.len() == n, "zeroed buffer of {} elements asked for, {} returned", n, b.len());
            let got = alloc::snap();
            ensure!(
                got.live - before.live == (n * std::mem::size_of::<$t>()) as u64,
                "zeroed buffer of {} x {} bytes allocated {} bytes",
                n, std::mem::size_of::<$t>(), got.live - before.live
            );
            ensure!(b.iter().all(|x| *x == 0 as $t), "zeroed buffer is not zero");
            for x in b.iter_mut() {
                *x = 0x5a as $t;
            }
            ensure!(b.iter().all(|x| *x == 0x5a as $t), "buffer does not hold what was written");
            drop(b);
            let mut b = qu::alloc_box_buffer::<$t>(n);
            ensure!(b.len() == n, "buffer of {} elements asked for, {} returned", n, b.len());
            for x in b.iter_mut() {
                *x = 0x5a as $t;
            }
            ensure!(b.iter().all(|x| *x == 0x5a as $t), "buffer does not hold what was written");
            drop(b);
            let after = alloc::snap();
            ensure!(
                after.live == before.live && after.blocks == before.blocks,
                "buffers of {} elements: {} bytes not released", n, after.live as i64 - before.live as i64
            );
            c.o.eval();
            c.o.distinct(&[stringify!($t).as_bytes(), &n.to_le_bytes()]);
        }};
    }
    let n = gen::dlen(&mut c.r, 5000);
    match c.r.below(4) {
        0 => go!(u8, n),
        1 => go!(u16, n),
        2 => go!(u64, n),
        _ => go!(u128, n),
    }
    c.o.count("raw buffer round");
    Ok(())
}

// ------------------------------------------------------------------ C20
/// how many bytes a parser has to read of well-formed input, where that is less than all
fn needed(p: Parser, d: &[u8], packet: Option<usize>) -> Option<usize> {
    match p {
        Parser::NextPacket => packet,
        Parser::Header => wire::get_header(d).ok().map(|h| h.len),
        Parser::Frame => {
            let mut rd = wire::Rd::new(d);
            let f = wire::get_frame(&mut rd).ok()?;
            // (a stream frame without a length takes all there is)
            if f.loose_type || d[0] & 0xfa == 0x08 {
                return None;
            }
            Some(rd.i)
        }
        Parser::VarInt | Parser::VarIntBytes => d.first().map(|b| 1 << (b >> 6)),
        Parser::Id(n) | Parser::VarU32(n) => Some(n as usize),
        Parser::FixedId => Some(8),
        Parser::Bytes(n) => Some(n as usize),
        Parser::U8 => Some(1),
        Parser::U16 => Some(2),
        Parser::U32 => Some(4),
        Parser::U64 => Some(8),
        Parser::U128 => Some(16),
        Parser::U160 => Some(20),
        _ => None,
    }
}

fn subject(r: &mut Rng, e: &mut End) -> (Parser, Vec<u8>, Option<usize>) {
    let mut packet = None;
    let big = !cfg!(miri) && r.chance(1, 60);
    let (p, d) = match r.below(if big { 12 } else { 16 }) {
        0 | 1 | 2 => {
            let kinds = receivable(e);
            let k = *r.pick(&kinds);
            let (_, mut d) = genuine(r, e, k, if big { 6000 } else { 120 });
            if k != PK::OneRtt {
                packet = Some(d.len());
            }
            if r.chance(1, 3) {
                let n = r.usize(1, 8);
                d.extend(r.texture(n));
            }
            (Parser::NextPacket, d)
        }
        3 | 4 | 5 => {
            // several packets, valid together
            let mut d = vec![];
            let kinds = receivable(e);
            for s in SPACES {
                quic_sea::verif::connection::set_largest_received(&mut e.conn, s, None);
            }
            for _ in 0..r.usize(1, 3) {
                let ks: Vec<PK> = kinds.iter().copied().filter(|k| *k != PK::OneRtt).collect();
                let k = *r.pick(&ks);
                let pn_len = r.usize(1, 4);
                let pn = r.below(1 << (8 * pn_len - 1));
                let s = peer_spec(r, e, k, pn, pn_len, if big { 2000 } else { 60 });
                d.extend(s.seal(&e.peer_keys(k).unwrap()).unwrap());
            }
            if kinds.contains(&PK::OneRtt) && r.bool() {
                let pn_len = r.usize(1, 4);
                let pn = r.below(1 << (8 * pn_len - 1));
                let s = peer_spec(r, e, PK::OneRtt, pn, pn_len, if big { 4000 } else { 60 });
                d.extend(s.seal(&e.peer_keys(PK::OneRtt).unwrap()).unwrap());
            }
            (Parser::Packets, d)
        }
        6 | 7 => {
            let mut d = header_bytes(r, None);
            let n = r.usize(0, 8);
            d.extend(r.texture(n));
            (Parser::Header, d)
        }
        8 => {
            let mut d = header_bytes(r, Some(PK::Vn));
            let n = 4 * r.usize(1, if big { 2000 } else { 8 });
            d.extend(r.texture(n));
            (*r.pick(&[Parser::Vn, Parser::Packets, Parser::NextPacket]), d)
        }
        9 | 10 if big => {
            // a field that takes up a lot of bytes, to the end or not
            let n = r.usize(1000, 8000);
            let data = r.texture(n);
            let f = match r.below(3) {
                0 => wire::RF::Crypto { offset: r.below(1 << 20), data },
                1 => wire::RF::NewToken(data),
                _ => wire::RF::Stream { id: 4, offset: r.below(1 << 20), fin: r.bool(), data },
            };
            let open = matches!(f, wire::RF::Stream { .. }) && r.bool();
            let mut d = vec![];
            wire::put_frame(&mut d, &f, open, &mut Wire::Any(r)).unwrap();
            (Parser::Frames, d)
        }
        9 | 10 | 11 => (Parser::Frames, gen::payload(r, gen::Where::Any, 1, if big { 4000 } else { 400 })),
        12 | 13 => {
            let f = gen::frame(r, gen::Where::Any, 60);
            let open = r.chance(1, 4);
            let mut d = vec![];
            wire::put_frame(&mut d, &f, open, &mut Wire::Any(r)).unwrap();
            if !open {
                let n = r.usize(0, 6);
                d.extend(r.texture(n));
            }
            (Parser::Frame, d)
        }
        _ => {
            let n = r.usize(0, 30);
            let d = r.texture(n);
            let ps = small_parsers(r);
            let mut p = *r.pick(&ps);
            if let Parser::Bytes(_) = p {
                p = Parser::Bytes(r.below(n as u64 + 2));
            }
            (p, d)
        }
    };
    let need = needed(p, &d, packet);
    (p, d, need)
}

pub fn c20(c: &mut Ctx) -> Case {
    let mut e = end(&mut c.r, 7)?;
    for _ in 0..2 {
        let (p, d, need) = subject(&mut c.r, &mut e);
        let m0 = Meter::linear(d.len());
        let mut s0 = Src::new(&d, &m0);
        let r0 = parse(p, &mut s0, &e.conn);
        let consumed = s0.i;
        let asked = m0.high.get();
        // does the parser run to the end of the data (and so ask for a byte after the last one)?
        let to_end = asked > d.len() && consumed == d.len();
        let t0 = match &r0 {
            Ok(o) => Ok(o.text()),
            Err(x) => Err(es(x)),
        };
        c.o.count(&format!(
            "{}: {}",
            format!("{:?}", p).split('(').next().unwrap(),
            if r0.is_ok() { "valid input" } else { "invalid input" }
        ));
        c.o.sample(|| format!("{:?} on {} -> fault at each of 0..={}", p, hexs(&d), d.len()));
        let positions: Vec<usize> = if d.len() <= 120 {
            (0..=d.len()).collect()
        } else {
            let mut v: Vec<usize> = (0..80).map(|_| c.r.usize(0, d.len())).collect();
            v.extend([0, 1, d.len() - 1, d.len(), consumed.min(d.len()), consumed.saturating_sub(1)]);
            v
        };
        for at in positions {
            let mode = *c.r.pick(&[After::Continue, After::End, After::Persist]);
            let m = Meter::linear(d.len());
            let mut s = Src::failing(&d, &m, at, mode);
            let got = parse(p, &mut s, &e.conn);
            c.o.eval();
            c.o.distinct(&[format!("{:?}", p).as_bytes(), &d, &at.to_le_bytes(), &[mode as u8]]);
            let what = || {
                format!(
                    "{:?} on {} with the source failing at byte {} ({:?})",
                    p,
                    hexs(&d),
                    at,
                    mode
                )
            };
            match (&t0, &got) {
                (Ok(t), Ok(o)) => {
                    ensure!(
                        at >= consumed,
                        "{}: decoded anyway, although the byte was needed: {}",
                        what(),
                        o.text()
                    );
                    ensure!(
                        !(at >= d.len() && to_end),
                        "{}: the failure was taken for the end of the data: {}",
                        what(),
                        o.text()
                    );
                    ensure!(
                        *t == o.text(),
                        "{}: result changed from {} to {}",
                        what(),
                        t,
                        o.text()
                    );
                    c.o.count("fault beyond what is needed: no effect");
                }
                (Ok(t), Err(x)) => {
                    ensure!(
                        (at < consumed || at < asked) && need.map_or(true, |n| at < n),
                        "{}: refused ({}) although the fault is beyond what is read; without it: {}",
                        what(),
                        es(x),
                        t
                    );
                    ensure!(
                        is_fault(x),
                        "{}: reported as {} instead of the source's own error",
                        what(),
                        es(x)
                    );
                    c.o.count("fault reported");
                }
                (Err(t), Ok(o)) => {
                    return Err(format!(
                        "{}: decoded to {} although the input is refused without the fault ({})",
                        what(),
                        o.text(),
                        t
                    ));
                }
                (Err(_), Err(x)) if at < consumed => {
                    // it had read this byte before it found anything wrong
                    ensure!(
                        is_fault(x),
                        "{}: reported as {} instead of the source's own error",
                        what(),
                        es(x)
                    );
                    c.o.count("fault before the flaw of invalid input: reported");
                }
                (Err(_), Err(_)) => c.o.count("invalid input, still refused"),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ for Miri
/// one step of the workloads that call no foreign code (frames, headers, integers, ids,
/// transport parameters, header protection, raw buffers, failing sources)
pub fn interpreted(seed: u64, idx: u64, o: &mut crate::obs::Obs) -> &'static str {
    use super::{frames, ints, packets};
    let k = idx % 8;
    // past the exhaustive chunks of those workloads
    let sub = 1_000_000 + idx * 7919;
    let mut c = Ctx { r: Rng::new(seed, 1800 + k, idx), idx: sub, o, thorough: false };
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match k {
        0 => frames::c03(&mut c),
        1 => frames::c04(&mut c),
        2 => ints::c05(&mut c),
        3 => ints::c17(&mut c),
        4 => ints::c21(&mut c),
        5 => packets::c22(&mut c),
        6 => packets::headers_only(&mut c),
        _ => {
            let p = hostile_payload(&mut c.r, 60);
            let m = Meter::linear(p.len());
            let _ = qf::deserialize_frames(&mut Src::new(&p, &m));
            let at = c.r.usize(0, p.len());
            let _ = qf::deserialize_frames(&mut Src::failing(&p, &m, at, After::Persist));
            raw_buffers(&mut c)
        }
    }));
    [
        "interpreted frame decoding",
        "interpreted frame encoding",
        "interpreted variable-length integers",
        "interpreted transport parameters",
        "interpreted ids and integers",
        "interpreted header protection",
        "interpreted headers",
        "interpreted hostile payloads and raw buffers",
    ][k as usize]
}

fn raw_buffers(c: &mut Ctx) -> Case {
    let n = c.r.usize(0, 20);
    // (a fresh buffer may only be written)
    let mut b = qu::alloc_box_buffer::<u16>(n);
    for x in b.iter_mut() {
        *x = 7;
    }
    let z = qu::calloc_box_buffer::<u32>(n);
    c.o.eval();
    ensure!(z.iter().all(|x| *x == 0) && b.iter().all(|x| *x == 7), "raw buffers");
    Ok(())
}
