//! C06 headers, C07 decoding, C08 sealing, C09 tampering, C10 keys, C13 coalescing, C22 header protection
use super::fixtures::*;
use crate::crypto::{self, Keys, Spec};
use crate::gen;
use crate::glue::*;
use crate::obs::Case;
use crate::rng::Rng;
use crate::wire::{self, hexs, PK, RF};
use crate::{ensure, Ctx};
use quic_sea::verif::connection::{self as qc, Space};
use quic_sea::verif::packet as qp;
use quic_sea::verif::quictls as ql;
use quic_sea::verif::utils as qu;

// ------------------------------------------------------------------ C06
fn judge_header(c: &mut Ctx, b: &[u8]) -> Case {
    c.o.eval();
    c.o.distinct(&[b]);
    let m = Meter::linear(b.len());
    let mut s = Src::new(b, &m);
    let got = qp::next_header_from_stream(&mut s);
    match (wire::get_header(b), got) {
        (Err(_), Err(_)) => c.o.count("malformed header refused"),
        (Err(_), Ok(h)) => {
            return Err(format!(
                "{} is not a header but was parsed as {:?}",
                hexs(b),
                qp::header_view(&h)
            ))
        }
        (Ok(w), Err(e)) => {
            // a cleared fixed bit may be refused (RFC 9000 section 17.2), where version 1 or
            // a short header gives the bit that meaning
            ensure!(
                matches!(w.version, None | Some(1)) && b[0] & 0x40 == 0,
                "header {} was refused: {}",
                hexs(b),
                es(&e)
            );
            c.o.count("cleared fixed bit refused");
        }
        (Ok(w), Ok(h)) => {
            let v = qp::header_view(&h);
            let k = pk(v.kind);
            ensure!(
                k == Some(w.kind),
                "header {} has type {:?}, parsed as {:?}",
                hexs(b),
                w.kind,
                v.kind
            );
            ensure!(
                s.i == w.len,
                "header {} is {} bytes long, {} were consumed",
                hexs(b),
                w.len,
                s.i
            );
            ensure!(
                v.first_byte == b[0],
                "first byte {:02x} parsed as {:02x}",
                b[0],
                v.first_byte
            );
            ensure!(
                v.version == w.version,
                "version {:?} parsed as {:?}",
                w.version,
                v.version
            );
            let (d, sc) = header_ids(&v)?;
            ensure!(
                d == w.dcid && v.dcid_len as usize == w.dcid.len(),
                "destination id of {} parsed as {} ({} bytes)",
                hexs(b),
                hexs(&d),
                v.dcid_len
            );
            ensure!(
                sc == w.scid,
                "source id of {} parsed as {:?}",
                hexs(b),
                sc.map(|x| hexs(&x))
            );
            if let (Some(x), Some((_, l))) = (&w.scid, &v.scid) {
                ensure!(*l as usize == x.len(), "source id length {} parsed as {}", x.len(), l);
            }
            ensure!(
                v.is_protected == !matches!(w.kind, PK::Vn | PK::Retry),
                "header {} parsed with protected = {}",
                hexs(b),
                v.is_protected
            );
            // the accessors routing uses
            ensure!(
                h.get_destination_id_length() as usize == w.dcid.len(),
                "destination id length of {} reported as {}",
                hexs(b),
                h.get_destination_id_length()
            );
            ensure!(
                pk(qp::kind(h.get_packet_type())) == Some(w.kind),
                "packet type of {} reported as {:?}",
                hexs(b),
                h.get_packet_type()
            );
            if w.kind != PK::Vn {
                ensure!(
                    h.get_destination_id() == id(&w.dcid),
                    "destination id of {} reported as {:?}",
                    hexs(b),
                    h.get_destination_id()
                );
                let back = match &h {
                    qp::PacketHeader::Long(x) => x.to_bytes(),
                    qp::PacketHeader::Short(x) => x.to_bytes(),
                };
                ensure!(
                    back == b[..w.len],
                    "header {} written back as {}",
                    hexs(&b[..w.len]),
                    hexs(&back)
                );
            }
            c.o.count(&format!("{:?} header", w.kind));
        }
    }
    Ok(())
}

fn judge_negotiation(c: &mut Ctx, b: &[u8], e: &End) -> Case {
    c.o.eval();
    let w = match wire::get_header(b) {
        Ok(w) if w.kind == PK::Vn => w,
        _ => return Ok(()),
    };
    let tail = &b[w.len..];
    let want: Option<Vec<u32>> = if tail.len() % 4 == 0 {
        Some(
            tail.chunks(4)
                .map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]))
                .collect(),
        )
    } else {
        None
    };
    let m = Meter::linear(b.len());
    let mut s = Src::new(b, &m);
    let direct = qp::PacketVersionNegotiation::from_stream(&mut s)
        .map(|p| qp::view(&qp::Packet::VersionNegotiation(p)));
    let whole = lib_decode(b, &e.conn).and_then(|v| {
        if v.len() == 1 {
            Ok(v[0].clone())
        } else {
            Err(format!("{} packets", v.len()))
        }
    });
    for (how, got) in [("alone", direct.map_err(|e| es(&e))), ("as a datagram", whole)] {
        match (&want, got) {
            (None, Ok(p)) => {
                return Err(format!(
                    "version list of {} is not a multiple of 4 bytes but decoded ({}) to {:?}",
                    hexs(b),
                    how,
                    p.supported_versions
                ))
            }
            (None, Err(_)) => c.o.count("misaligned version list refused"),
            (Some(v), Err(e)) => ensure!(
                v.is_empty(),
                "version negotiation {} was refused ({}): {}",
                hexs(b),
                how,
                e
            ),
            (Some(v), Ok(p)) => {
                ensure!(
                    p.supported_versions.as_ref() == Some(v),
                    "versions {:?} decoded ({}) as {:?}",
                    v,
                    how,
                    p.supported_versions
                );
                let (d, s) = header_ids(&p.header)?;
                ensure!(
                    d == w.dcid && s == w.scid,
                    "ids of version negotiation {} decoded ({}) as {} and {:?}",
                    hexs(b),
                    how,
                    hexs(&d),
                    s.map(|x| hexs(&x))
                );
                ensure!(
                    !p.header.is_protected && pk(p.header.kind) == Some(PK::Vn),
                    "version negotiation treated as {:?}, protected {}",
                    p.header.kind,
                    p.header.is_protected
                );
                c.o.count("version list decoded");
            }
        }
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) -> Case {
    let i = c.idx;
    if i < 256 {
        // every first byte, with every destination id length and every version class
        for l in 0..=255usize {
            let v: u32 = match l % 4 {
                0 => 0,
                1 => 1,
                2 => c.r.u64() as u32,
                _ => 1 << c.r.below(32),
            };
            let mut b = vec![i as u8];
            b.extend(v.to_be_bytes());
            b.push(l as u8);
            b.extend(c.r.texture(l));
            let k = if c.r.bool() { c.r.usize(0, 20) } else { c.r.usize(0, 255) };
            b.push(k as u8);
            b.extend(c.r.texture(k));
            let n = c.r.usize(0, 5);
            b.extend(c.r.texture(n));
            judge_header(c, &b)?;
        }
        c.o.count("chunk of all first bytes x id lengths");
        return Ok(());
    }
    if i < 256 + 21 {
        // all pairs of legal id lengths
        let l = (i - 256) as usize;
        for k in 0..=21usize {
            let mut b = vec![0x80 | c.r.u8(), 0, 0, 0, 1, l as u8];
            b.extend(c.r.texture(l));
            b.push(k as u8);
            b.extend(c.r.texture(k));
            judge_header(c, &b)?;
        }
        return Ok(());
    }
    match i % 5 {
        0 => {
            // every truncation
            let b = header_bytes(&mut c.r, None);
            for k in 0..=b.len() {
                judge_header(c, &b[..k])?;
            }
            Ok(())
        }
        1 => {
            let e = End::new(true, &[1, 2, 3])?;
            let mut b = header_bytes(&mut c.r, Some(PK::Vn));
            let n = if c.r.chance(1, 4) { c.r.usize(0, 60) } else { 4 * c.r.usize(0, 30) };
            let n = if c.r.chance(1, 12) { 4 * c.r.usize(30, 2000) } else { n };
            let n = if !cfg!(miri) && c.r.chance(1, 60) { 4 * c.r.usize(2000, 16300) } else { n };
            if c.r.bool() {
                b.extend(c.r.texture(n));
            } else {
                // versions one might meet, also several times
                let mut l = vec![];
                while l.len() < n {
                    let v = if c.r.chance(1, 12) { 0 } else { gen::version(&mut c.r) };
                    l.extend(v.to_be_bytes());
                    if c.r.chance(1, 6) {
                        l.extend(v.to_be_bytes());
                    }
                }
                l.truncate(n);
                b.extend(l);
            }
            c.o.distinct(&[&b]);
            c.o.sample(|| hexs(&b));
            judge_header(c, &b)?;
            judge_negotiation(c, &b, &e)
        }
        2 => {
            let n = c.r.usize(0, 60);
            let b = c.r.texture(n);
            judge_header(c, &b)
        }
        _ => {
            let mut b = header_bytes(&mut c.r, None);
            let n = c.r.usize(0, 20);
            b.extend(c.r.texture(n));
            c.o.sample(|| hexs(&b));
            judge_header(c, &b)?;
            mutate(&mut c.r, &mut b);
            judge_header(c, &b)
        }
    }
}

/// the part that needs no connection
pub fn headers_only(c: &mut Ctx) -> Case {
    let mut b = header_bytes(&mut c.r, None);
    let n = c.r.usize(0, 20);
    b.extend(c.r.texture(n));
    judge_header(c, &b)?;
    mutate(&mut c.r, &mut b);
    judge_header(c, &b)?;
    let n = c.r.usize(0, 60);
    let b = c.r.texture(n);
    judge_header(c, &b)
}

// ------------------------------------------------------------------ C07
pub fn c07(c: &mut Ctx) -> Case {
    let mut e = end(&mut c.r, 7)?;
    let kinds = receivable(&e);
    for _ in 0..2 {
        let kind = *c.r.pick(&kinds);
        let max = match c.r.below(30) {
            0 => 60000,
            1 => 17000,
            _ => 1200,
        };
        let (pn, pn_len, largest) = arrange_pn(&mut c.r, &mut e, kind);
        let mut s = peer_spec(&mut c.r, &e, kind, pn, pn_len, max);
        let keys = e.peer_keys(kind).unwrap();
        if !cfg!(miri) && kind == PK::Initial && c.r.chance(1, 600) && s.payload.len() < 4000 {
            let n = c.r.usize(1000, 60000);
            s.token = c.r.texture(n);
            s.fit_widths();
            c.o.max("longest token", n as u64);
        }
        let mut d = s.seal(&keys).unwrap();
        if !cfg!(miri) && c.r.chance(1, 600) && d.len() < 20000 {
            // up to the largest datagram there is
            let to = if c.r.bool() { 65527 } else { c.r.usize(20000, 65527) };
            let mut p = vec![0; to - d.len()];
            p.extend_from_slice(&s.payload);
            s.payload = p;
            s.length_width = s.length_width.max(wire::min_width(s.length_value()).unwrap());
            d = s.seal(&keys).unwrap();
        }
        c.o.eval();
        c.o.distinct(&[&d]);
        c.o.count(&format!(
            "{:?} to {} with {}-byte number",
            kind,
            if e.server { "server" } else { "client" },
            pn_len
        ));
        c.o.max("longest packet", d.len() as u64);
        let ctx = || {
            format!(
                "{:?} packet number {} in {} bytes (largest received {:?}), id {} of {} bytes, payload {} bytes, {} [{}]",
                kind,
                pn,
                pn_len,
                largest,
                hexs(&s.dcid),
                s.dcid.len(),
                s.payload.len(),
                if e.server { "server" } else { "client" },
                hexs(&d)
            )
        };
        c.o.sample(ctx);
        let v = lib_decode(&d, &e.conn).map_err(|x| format!("{}: refused: {}", ctx(), x))?;
        ensure!(v.len() == 1, "{}: decoded as {} packets", ctx(), v.len());
        same_packet(&v[0], &s).map_err(|x| format!("{}: {}", ctx(), x))?;
        // alone in a stream that goes on
        let mut longer = d.clone();
        if kind != PK::OneRtt {
            let n = c.r.usize(0, 30);
            longer.extend(c.r.texture(n));
        }
        let m = Meter::linear(longer.len());
        let mut src = Src::new(&longer, &m);
        let p = qp::decode_next_packet(&mut src, &e.conn)
            .map_err(|x| format!("{}: refused when followed by more: {}", ctx(), es(&x)))?;
        same_packet(&qp::view(&p), &s).map_err(|x| format!("{} followed by more: {}", ctx(), x))?;
        ensure!(
            src.i == d.len(),
            "{}: {} bytes consumed instead of {}",
            ctx(),
            src.i,
            d.len()
        );
        c.o.eval();
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
pub fn c08(c: &mut Ctx) -> Case {
    let mut e = end(&mut c.r, 6)?;
    let mut peer = mirror(&e)?;
    let with_scid = c.r.chance(9, 10);
    let scid = gen::cid(&mut c.r);
    if with_scid {
        e.conn.set_scid(id(&scid), scid.len());
    }
    let mut last: [Option<u64>; 2] = [None, None];
    let mut acked: [Option<u64>; 2] = [None, None];
    for step in 0..c.r.usize(1, 6) {
        let hs = c.r.bool();
        let si = hs as usize;
        let (kind, space) = if hs {
            (PK::Handshake, Space::Handshake)
        } else {
            (PK::Initial, Space::Initial)
        };
        // move along the packet number space
        if c.r.chance(1, 3) {
            let to = match c.r.below(4) {
                0 => c.r.below(1 << 9),
                1 => c.r.below(1 << 18),
                2 => c.r.below(1 << 33),
                _ => gen::v62(&mut c.r).min(wire::MAX62 - 100),
            };
            if last[si].map_or(true, |l| to >= l) {
                qc::set_pn_counter(&mut e.conn, space, to);
                last[si] = Some(to).filter(|x| *x > 0);
            }
        }
        if let Some(l) = last[si] {
            if c.r.chance(1, 2) {
                let back = match c.r.below(5) {
                    0 => c.r.below(3),
                    1 => c.r.below(200),
                    2 => c.r.below(1 << 16),
                    3 => c.r.below(1 << 24),
                    _ => c.r.below(1 << 31),
                };
                let a = l.saturating_sub(back);
                if acked[si].map_or(true, |x| a >= x) {
                    acked[si] = Some(a);
                    qc::set_largest_acked(&mut e.conn, space, acked[si]);
                }
            }
        }
        // contents
        let unencodable = c.r.chance(1, 20);
        // frames that have no place in such a packet may be refused, but not altered
        let foreign = c.r.chance(1, 10);
        let mut fs: Vec<RF> = vec![];
        for _ in 0..c.r.usize(0, 4) {
            let max = if c.r.chance(1, 20) { 20000 } else { 300 };
            let w = if foreign { gen::Where::Any } else { gen::Where::Handshake };
            fs.push(gen::frame(&mut c.r, w, max));
        }
        if c.r.chance(1, 3) {
            let n = if c.r.chance(1, 12) { c.r.usize(100, 4000) } else { c.r.usize(1, 40) };
            for _ in 0..n {
                fs.push(if n > 40 && c.r.chance(1, 9) { RF::Ping } else { RF::Padding });
            }
        }
        if unencodable {
            fs.push(RF::Crypto {
                offset: *c.r.pick(&[1 << 62, u64::MAX, 3 << 62]),
                data: vec![1],
            });
        }
        let token = if kind == PK::Initial && !e.server && c.r.bool() {
            let n = if !cfg!(miri) && c.r.chance(1, 500) { c.r.usize(65500, 70000) } else { gen::dlen(&mut c.r, 20000) };
            c.r.texture(n)
        } else {
            vec![]
        };
        if !unencodable && c.r.chance(1, 12) {
            // up to the sizes where the length field changes its width
            let to = match c.r.below(160) {
                0 => c.r.usize(16384, 65000),
                1..=19 => 16384usize + c.r.usize(0, 6),
                _ => 64 + c.r.usize(0, 6),
            };
            let now = wire::put_frames(&fs, false).map_or(usize::MAX, |p| p.len() + 16);
            if !cfg!(miri) && now < to {
                fs.extend((now..to - 2).map(|_| RF::Padding));
                if !foreign {
                    c.o.count("padded to a length boundary");
                }
            }
        }
        let may_refuse = foreign || token.len() > 60000;
        let frames = lib_frames(&fs);
        let built = if hs {
            qp::PacketHandshake::new(frames, &mut e.conn).map(|p| {
                let v = qp::handshake_view(&p);
                (v, qp::serialize_handshake(&p, &e.conn))
            })
        } else {
            let t = if token.is_empty() && c.r.bool() {
                None
            } else {
                Some(token.clone())
            };
            qp::PacketInitial::new(frames, t, &mut e.conn).map(|p| {
                let v = qp::initial_view(&p);
                (v, qp::serialize_initial(&p, &e.conn))
            })
        };
        c.o.eval();
        let payload = wire::put_frames(&fs, false);
        let has_keys = !hs || e.hs.is_some();
        let was = last[si];
        let ctx = || {
            format!(
                "step {} {:?} packet by {} (last number {:?}, acknowledged {:?}, {} frames, token {} bytes)",
                step,
                kind,
                if e.server { "server" } else { "client" },
                was,
                acked[si],
                fs.len(),
                token.len()
            )
        };
        let must_refuse = if !with_scid {
            Some("no source id")
        } else if !has_keys {
            Some("no keys")
        } else if payload.is_none() {
            Some("a value that cannot be encoded")
        } else {
            None
        };
        let (view, out) = match built {
            Err(x) => {
                let next = last[si].unwrap_or(0) + 1;
                let unreachable_pn = match acked[si] {
                    None => next >= 1 << 31,
                    Some(a) => next.saturating_sub(a) >= 1 << 31,
                };
                ensure!(
                    must_refuse.is_some() || unreachable_pn || may_refuse,
                    "{} was refused: {}",
                    ctx(),
                    es(&x)
                );
                c.o.count("refused at construction");
                // whether a number was used up is not ours to say: resynchronise
                let probe = resync(&mut e, space)?;
                if probe.is_some() {
                    last[si] = probe;
                }
                continue;
            }
            Ok(x) => x,
        };
        let pn = view
            .packet_number
            .ok_or_else(|| format!("{}: no packet number", ctx()))?;
        ensure!(
            last[si].map_or(true, |l| pn > l),
            "{}: packet number {} is not new",
            ctx(),
            pn
        );
        let before = last[si];
        last[si] = Some(pn);
        let d = match out {
            Err(x) => {
                let p = payload.as_ref().map_or(0, |p| p.len());
                let pnl = view.packet_number_bytes.as_ref().map_or(0, |b| b.len());
                ensure!(
                    must_refuse.is_some() || p + pnl < 4 || p == 0 || may_refuse,
                    "{} was refused when serialized: {}",
                    ctx(),
                    es(&x)
                );
                c.o.count("refused at serialization");
                continue;
            }
            Ok(d) => d,
        };
        if let Some(w) = must_refuse {
            return Err(format!("{} has {} but was emitted as {}", ctx(), w, hexs(&d)));
        }
        c.o.distinct(&[&d]);
        // what the receiver may have seen: anything from the acknowledged number to the one before
        let largest = match (acked[si], before) {
            (Some(a), _) => Some(c.r.range(a, pn - 1)),
            (None, None) => None,
            (None, Some(b)) => {
                if c.r.bool() {
                    None
                } else {
                    Some(c.r.range(0, b))
                }
            }
        };
        let keys = e.own_keys(kind).unwrap();
        let o = crypto::open(&d, &keys, largest)
            .map_err(|x| format!("{}: an RFC 9001 peer cannot open {}: {}", ctx(), hexs(&d), x))?;
        ensure!(
            o.consumed == d.len(),
            "{}: {} bytes after the packet",
            ctx(),
            d.len() - o.consumed
        );
        let clean = match kind {
            PK::Initial => 0xc0u8,
            _ => 0xe0,
        };
        ensure!(
            o.first_clear == clean | (o.spec.pn_len as u8 - 1),
            "{}: first byte {:02x}",
            ctx(),
            o.first_clear
        );
        ensure!(o.spec.kind == kind, "{}: emitted as {:?}", ctx(), o.spec.kind);
        ensure!(o.spec.version == 1, "{}: version {:#x}", ctx(), o.spec.version);
        ensure!(
            o.spec.dcid == e.orig_dcid,
            "{}: destination id {}",
            ctx(),
            hexs(&o.spec.dcid)
        );
        ensure!(o.spec.scid == scid, "{}: source id {}", ctx(), hexs(&o.spec.scid));
        ensure!(o.spec.token == token, "{}: token {}", ctx(), hexs(&o.spec.token));
        ensure!(
            o.spec.pn == pn,
            "{}: number {} is read by the peer as {} (largest it received: {:?})",
            ctx(),
            pn,
            o.spec.pn,
            largest
        );
        ensure!(
            view.packet_number_bytes.as_ref() == Some(&o.spec.pn_bytes()),
            "{}: packet number bytes {:?}, emitted {:?}",
            ctx(),
            view.packet_number_bytes,
            o.spec.pn_bytes()
        );
        let mut want = fs.clone();
        let got = wire::get_frames(&o.spec.payload)
            .map_err(|_| format!("{}: payload {} is malformed", ctx(), hexs(&o.spec.payload)))?
            .frames;
        if payload.as_ref().unwrap().len() + o.spec.pn_len < 4 {
            // padding a packet that is too small to protect is legitimate
            while want.len() < got.len() {
                want.push(RF::Padding);
            }
        }
        ensure!(
            got == want,
            "{}: carries {} instead of {}",
            ctx(),
            brief(&got),
            brief(&want)
        );
        c.o.count(&format!(
            "{:?} by {} with {}-byte number opened",
            kind,
            if e.server { "server" } else { "client" },
            o.spec.pn_len
        ));
        c.o.sample(|| format!("{}: {}", ctx(), hexs(&d)));
        // the library's own peer
        qc::set_largest_received(&mut peer.conn, space, largest);
        let v = lib_decode(&d, &peer.conn)
            .map_err(|x| format!("{}: the library's peer refuses {}: {}", ctx(), hexs(&d), x))?;
        ensure!(v.len() == 1, "{}: decoded as {} packets", ctx(), v.len());
        same_packet(&v[0], &o.spec).map_err(|x| format!("{}: decoded by the peer: {}", ctx(), x))?;
        // serializing is repeatable
        c.o.eval();
    }
    Ok(())
}

/// the number handed out last, found by asking for another one
fn resync(e: &mut End, space: Space) -> Result<Option<u64>, String> {
    Ok(e.conn.get_next_pn(space.pn_space()).ok().map(|x| x.0))
}

// ------------------------------------------------------------------ C09
fn occurs(hay: &[u8], needle: &[u8]) -> bool {
    needle.len() <= hay.len() && hay.windows(needle.len()).any(|w| w == needle)
}

/// everything decoded from `d` must be one of the packets the peer really sealed
fn judge_forgery(
    c: &mut Ctx,
    what: &str,
    d: &[u8],
    conn: &qc::Connection,
    genuine: &[(Spec, Vec<u8>)],
) -> Case {
    c.o.eval();
    c.o.distinct(&[d]);
    match lib_decode(d, conn) {
        Err(_) => {
            c.o.count("refused");
            Ok(())
        }
        Ok(v) => {
            for p in v {
                if p.supported_versions.is_some() {
                    c.o.count("version negotiation (unauthenticated)");
                    continue;
                }
                let known = genuine
                    .iter()
                    .any(|(s, raw)| same_packet(&p, s).is_ok() && occurs(d, raw));
                ensure!(
                    known,
                    "{}: {} yielded a packet its peer never sealed: {:?} number {:?}, frames {}",
                    what,
                    hexs(d),
                    p.header.kind,
                    p.packet_number,
                    rfs(&p.frames).map(|f| brief(&f)).unwrap_or_default()
                );
                c.o.count("untouched genuine packet recovered");
            }
            Ok(())
        }
    }
}

/// descriptions that differ from `s` in one header field or in how it is written
fn rewritten(r: &mut Rng, s: &Spec) -> Vec<Spec> {
    let mut v = vec![];
    let mut edit = |f: &mut dyn FnMut(&mut Spec)| {
        let mut x = s.clone();
        f(&mut x);
        v.push(x);
    };
    // the number written in another width
    for n in 1..=4usize {
        edit(&mut |x| {
            x.pn_len = n;
            x.length_width = x.length_width.max(wire::min_width(x.length_value()).unwrap());
        });
    }
    let t = r.u64();
    edit(&mut |x| x.pn = (x.pn & !0xff) | (t & 0xff));
    if s.kind == PK::OneRtt {
        edit(&mut |x| x.spin = !x.spin);
        let i = r.usize(0, 7);
        edit(&mut |x| x.dcid[i] = x.dcid[i].wrapping_add(1));
        edit(&mut |x| x.dcid = vec![0; 8]);
        return v;
    }
    for w in [1usize, 2, 4, 8] {
        if w >= wire::min_width(s.length_value()).unwrap() {
            edit(&mut |x| x.length_width = w);
        }
        if s.kind == PK::Initial && w >= wire::min_width(s.token.len() as u64).unwrap() {
            edit(&mut |x| x.token_len_width = w);
        }
    }
    for _ in 0..3 {
        let ver = gen::version(r);
        edit(&mut |x| x.version = ver);
    }
    for k in [PK::Initial, PK::ZeroRtt, PK::Handshake] {
        edit(&mut |x| {
            x.kind = k;
            x.token = vec![];
            x.token_len_width = 1;
        });
        edit(&mut |x| x.kind = k);
    }
    // ids shortened, extended, emptied, swapped, with the border between them moved
    edit(&mut |x| std::mem::swap(&mut x.dcid, &mut x.scid));
    let b = r.u8();
    for which in 0..2 {
        let mut on = |f: &mut dyn FnMut(&mut Vec<u8>)| {
            edit(&mut |x| {
                let y = if which == 0 { &mut x.dcid } else { &mut x.scid };
                f(y);
                y.truncate(20);
            })
        };
        on(&mut |y| y.clear());
        on(&mut |y| y.insert(0, 0));
        on(&mut |y| y.push(0));
        on(&mut |y| y.push(b));
        on(&mut |y| {
            y.pop();
        });
        on(&mut |y| {
            if !y.is_empty() {
                y.remove(0);
            }
        });
        on(&mut |y| {
            for z in y.iter_mut() {
                *z = 0
            }
        });
        on(&mut |y| {
            if let Some(z) = y.last_mut() {
                *z ^= 0x80
            }
        });
    }
    if !s.dcid.is_empty() && s.scid.len() < 20 {
        edit(&mut |x| {
            let z = x.dcid.pop().unwrap();
            x.scid.insert(0, z);
        });
    }
    if !s.scid.is_empty() && s.dcid.len() < 20 {
        edit(&mut |x| {
            let z = x.scid.remove(0);
            x.dcid.push(z);
        });
    }
    if s.kind == PK::Initial {
        let mut on = |f: &mut dyn FnMut(&mut Vec<u8>)| {
            edit(&mut |x| {
                f(&mut x.token);
                x.token_len_width = x.token_len_width.max(wire::min_width(x.token.len() as u64).unwrap());
            })
        };
        on(&mut |y| y.clear());
        on(&mut |y| y.push(0));
        on(&mut |y| y.insert(0, b));
        on(&mut |y| {
            y.pop();
        });
        on(&mut |y| y.reverse());
        on(&mut |y| {
            if let Some(z) = y.last_mut() {
                *z ^= 1
            }
        });
    }
    v
}

/// packets the library sealed itself, altered on the way to its own other end: what sealing and
/// opening leave out alike would not show between it and an independent peer
fn altered_between_own_ends(c: &mut Ctx) -> Case {
    let mut e = end(&mut c.r, 6)?;
    let peer = mirror(&e)?;
    let scid = gen::cid(&mut c.r);
    e.conn.set_scid(id(&scid), scid.len());
    let hs = e.hs.is_some() && c.r.bool();
    let space = if hs { Space::Handshake } else { Space::Initial };
    if c.r.bool() {
        let at = c.r.below(1 << 30);
        qc::set_pn_counter(&mut e.conn, space, at);
    }
    let mut fs = vec![RF::Crypto { offset: c.r.below(1 << 20), data: c.r.texture(24) }];
    let most = if c.r.chance(1, 20) { 9000 } else { 100 };
    let n = gen::dlen(&mut c.r, most);
    fs.extend((0..n).map(|_| RF::Padding));
    let frames = lib_frames(&fs);
    let out = if hs {
        qp::PacketHandshake::new(frames, &mut e.conn).and_then(|p| qp::serialize_handshake(&p, &e.conn))
    } else {
        let token = (!e.server && c.r.bool()).then(|| {
            let n = if !cfg!(miri) && c.r.chance(1, 4) { c.r.usize(300, 40000) } else { gen::dlen(&mut c.r, 300) };
            c.r.texture(n)
        });
        qp::PacketInitial::new(frames, token, &mut e.conn).and_then(|p| qp::serialize_initial(&p, &e.conn))
    };
    let d = match out {
        Ok(d) => d,
        // C08 is about this
        Err(_) => {
            c.o.count("own packet not built (not judged here)");
            return Ok(());
        }
    };
    if lib_decode(&d, &peer.conn).is_err() {
        c.o.count("own packet refused (not judged here)");
        return Ok(());
    }
    c.o.count("own packet accepted first");
    let body = d.len() - 16;
    for j in 0..if d.len() <= 160 { d.len() * 8 } else { 60 } {
        let (i, b) = if d.len() <= 160 {
            (j / 8, j % 8)
        } else {
            let i = match j % 4 {
                0 => c.r.usize(0, 40),
                1 => body + c.r.usize(0, 15),
                _ => c.r.usize(0, d.len() - 1),
            };
            (i, c.r.below(8) as usize)
        };
        let mut x = d.clone();
        x[i] ^= 1 << b;
        judge_forgery(c, "bit flip between own ends", &x, &peer.conn, &[])?;
    }
    for _ in 0..6 {
        let k = c.r.usize(0, d.len() - 1);
        judge_forgery(c, "truncation between own ends", &d[..k], &peer.conn, &[])?;
    }
    judge_forgery(c, "reflected to its sender", &d, &e.conn, &[])?;
    let other = end(&mut c.r, 6)?;
    if other.orig_dcid != e.orig_dcid {
        judge_forgery(c, "unrelated connection", &d, &other.conn, &[])?;
    }
    c.o.count(if hs { "own handshake packets altered" } else { "own initial packets altered" });
    Ok(())
}

pub fn c09(c: &mut Ctx) -> Case {
    if c.r.chance(1, 8) {
        return altered_between_own_ends(c);
    }
    let mut e = end(&mut c.r, 7)?;
    let kinds = receivable(&e);
    let kind = *c.r.pick(&kinds);
    let max = if c.r.chance(1, 6) { 400 } else { 90 };
    let (s, d) = genuine(&mut c.r, &mut e, kind, max);
    if !cfg!(miri) && kind == PK::Initial && c.r.chance(1, 30) {
        // a token that makes a long header: no part of it is beyond the tag's reach
        let mut s = s.clone();
        let n = c.r.usize(700, 40000);
        s.token = c.r.texture(n);
        s.fit_widths();
        let d = s.seal(&e.peer_keys(kind).unwrap()).unwrap();
        let h = s.clear_header().len();
        match lib_decode(&d, &e.conn) {
            Ok(v) => ensure!(v.len() == 1 && same_packet(&v[0], &s).is_ok(), "genuine packet misread: {}", hexs(&d)),
            Err(_) => c.o.count("genuine packet refused (not judged here)"),
        }
        for j in 0..24 {
            let i = match j {
                0 => h - s.pn_len - 1,
                1 => h - s.pn_len - s.length_width - 1,
                _ => c.r.usize(0, h - 1),
            };
            let mut x = d.clone();
            x[i] ^= 1 << c.r.below(8);
            judge_forgery(c, "bit flip in a long header", &x, &e.conn, &[])?;
        }
        c.o.count("long headers altered");
    }
    let (s, d) = if d.len() > 700 {
        // keep the exhaustive part affordable
        let mut s = s;
        s.token = vec![];
        s.token_len_width = 1;
        let k = e.peer_keys(kind).unwrap();
        let d = s.seal(&k).unwrap();
        (s, d)
    } else {
        (s, d)
    };
    let g = vec![(s.clone(), d.clone())];
    // the untouched packet is fine: the receiver is really able to open it
    match lib_decode(&d, &e.conn) {
        Ok(v) => {
            ensure!(v.len() == 1 && same_packet(&v[0], &s).is_ok(), "genuine packet misread: {}", hexs(&d));
            c.o.count("genuine packet accepted first");
        }
        // C07 is about this
        Err(_) => c.o.count("genuine packet refused (not judged here)"),
    }
    c.o.sample(|| format!("{:?} {}", kind, hexs(&d)));
    match c.idx % 8 {
        0 => {
            // every bit
            for i in 0..d.len() {
                for b in 0..8 {
                    let mut x = d.clone();
                    x[i] ^= 1 << b;
                    judge_forgery(c, "bit flip", &x, &e.conn, &[])?;
                }
            }
            c.o.count("packets with every bit flipped");
        }
        1 => {
            // every truncation, and extensions
            for k in 0..d.len() {
                judge_forgery(c, "truncation", &d[..k], &e.conn, &[])?;
            }
            for _ in 0..20 {
                let n = c.r.usize(1, 40);
                let mut x = d.clone();
                x.extend(c.r.texture(n));
                let ok: &[(Spec, Vec<u8>)] = if kind == PK::OneRtt { &[] } else { &g };
                judge_forgery(c, "extension", &x, &e.conn, ok)?;
            }
            // cut inside, keep the tag
            for _ in 0..40 {
                let i = c.r.usize(1, d.len() - 1);
                let j = (i + c.r.usize(1, 20)).min(d.len());
                let mut x = d[..i].to_vec();
                x.extend_from_slice(&d[j..]);
                if x != d {
                    judge_forgery(c, "excision", &x, &e.conn, &[])?;
                }
            }
        }
        2 => {
            for _ in 0..60 {
                let mut x = d.clone();
                mutate(&mut c.r, &mut x);
                if x != d {
                    let ok: &[(Spec, Vec<u8>)] = if kind == PK::OneRtt { &[] } else { &g };
                    judge_forgery(c, "mutation", &x, &e.conn, ok)?;
                }
            }
        }
        3 => {
            // splices of two genuine packets (same kind or not)
            let k2 = *c.r.pick(&kinds);
            let pn_len = c.r.usize(1, 4);
            let pn = s.pn.wrapping_add(c.r.range(1, 5)).min(wire::MAX62);
            let s2 = peer_spec(&mut c.r, &e, k2, pn, pn_len, 90);
            let d2 = s2.seal(&e.peer_keys(k2).unwrap()).unwrap();
            let g2 = vec![(s.clone(), d.clone()), (s2.clone(), d2.clone())];
            for _ in 0..60 {
                let i = c.r.usize(0, d.len());
                let j = c.r.usize(0, d2.len());
                let mut x = d[..i].to_vec();
                x.extend_from_slice(&d2[j..]);
                judge_forgery(c, "splice", &x, &e.conn, &g2)?;
            }
            // header of one, body of the other
            let h1 = s.clear_header().len();
            let h2 = s2.clear_header().len();
            let mut x = d[..h1].to_vec();
            x.extend_from_slice(&d2[h2..]);
            judge_forgery(c, "header swap", &x, &e.conn, &g2)?;
        }
        4 => {
            // another connection, the other role, another level, another window
            let other = end(&mut c.r, 7)?;
            // (Initial keys depend on nothing but the id and the role)
            if other.orig_dcid != e.orig_dcid {
                judge_forgery(c, "unrelated connection", &d, &other.conn, &[])?;
            }
            let m = mirror(&e)?;
            judge_forgery(c, "reflected to its sender", &d, &m.conn, &[])?;
            let mut near = e.orig_dcid.clone();
            if !near.is_empty() {
                let i = c.r.usize(0, near.len() - 1);
                near[i] ^= 1 << c.r.below(8);
                let o = End::new(e.server, &near)?;
                judge_forgery(c, "connection with a similar id", &d, &o.conn, &[])?;
            }
            let mut longer = e.orig_dcid.clone();
            if longer.len() < 20 {
                longer.insert(0, 0);
                let o = End::new(e.server, &longer)?;
                judge_forgery(c, "connection with a zero-extended id", &d, &o.conn, &[])?;
            }
            // keys of one level used for another
            for k in &kinds {
                for k2 in &kinds {
                    if space_of(*k) as u8 == space_of(*k2) as u8 {
                        continue;
                    }
                    let pn_len = c.r.usize(1, 4);
                    let pn = c.r.below(1 << (8 * pn_len - 1));
                    for s in SPACES {
                        qc::set_largest_received(&mut e.conn, s, None);
                    }
                    let s2 = peer_spec(&mut c.r, &e, *k, pn, pn_len, 60);
                    let d2 = s2.seal(&e.peer_keys(*k2).unwrap()).unwrap();
                    judge_forgery(c, "sealed with another level's keys", &d2, &e.conn, &[])?;
                    // and with our own sending keys
                    let d3 = s2.seal(&e.own_keys(*k).unwrap()).unwrap();
                    judge_forgery(c, "sealed with the receiver's own keys", &d3, &e.conn, &[])?;
                }
            }
            // a level whose keys are not there yet (or never will be) opens nothing at all
            for k in PROTECTED {
                if e.peer_keys(k).is_some() {
                    continue;
                }
                let pn_len = c.r.usize(1, 4);
                let pn = c.r.below(1 << (8 * pn_len - 1));
                for s in SPACES {
                    qc::set_largest_received(&mut e.conn, s, None);
                }
                let s2 = peer_spec(&mut c.r, &e, k, pn, pn_len, 60);
                let mut keys = vec![
                    Keys::from_secret(&[0; 32]),
                    Keys::initial(&s2.dcid, !e.server),
                    Keys::initial(&s2.dcid, e.server),
                    Keys::initial(&[], !e.server),
                    Keys::initial(&[], e.server),
                ];
                for k2 in &kinds {
                    keys.push(e.peer_keys(*k2).unwrap());
                    keys.push(e.own_keys(*k2).unwrap());
                }
                for w in keys {
                    let x = s2.seal(&w).unwrap();
                    judge_forgery(c, "packet of a level without keys", &x, &e.conn, &[])?;
                    c.o.count("packet of a level without keys");
                }
            }
            // only one of the two keys is the peer's: the other belongs to someone else
            for k in &kinds {
                for s in SPACES {
                    qc::set_largest_received(&mut e.conn, s, None);
                }
                let pn_len = c.r.usize(1, 4);
                let pn = c.r.below(1 << (8 * pn_len - 1));
                let s2 = peer_spec(&mut c.r, &e, *k, pn, pn_len, 60);
                let right = e.peer_keys(*k).unwrap();
                let mut wrong: Vec<(&str, Keys)> = vec![];
                for k2 in &kinds {
                    wrong.push(("the receiver's own keys", e.own_keys(*k2).unwrap()));
                    if space_of(*k) as u8 != space_of(*k2) as u8 {
                        wrong.push(("another level's keys", e.peer_keys(*k2).unwrap()));
                    }
                }
                if other.orig_dcid != e.orig_dcid {
                    wrong.push(("another connection's keys", other.peer_keys(PK::Initial).unwrap()));
                }
                wrong.push(("keys of the secret of all zeros", Keys::from_secret(&[0; 32])));
                wrong.push(("keys of the empty id", {
                    let id: &[u8] = if e.orig_dcid.is_empty() { &[1] } else { &[] };
                    Keys::initial(id, !e.server)
                }));
                if *k != PK::Initial {
                    wrong.push(("keys of the destination id", Keys::initial(&s2.dcid, !e.server)));
                }
                let h = s2.clear_header();
                for (whose, w) in &wrong {
                    let sealed = w.seal(s2.pn, &h, &s2.payload);
                    if let Some(x) = Spec::protect(*k, pn_len, h.clone(), sealed, &right) {
                        let what = format!("payload sealed with {}", whose);
                        judge_forgery(c, &what, &x, &e.conn, &[])?;
                    }
                    let sealed = right.seal(s2.pn, &h, &s2.payload);
                    if let Some(x) = Spec::protect(*k, pn_len, h.clone(), sealed, w) {
                        // (for one packet in 2^37 the masks may agree)
                        if Some(&x) != s2.seal(&right).as_ref() {
                            let what = format!("header protected with {}", whose);
                            judge_forgery(c, &what, &x, &e.conn, &[])?;
                        }
                    }
                    c.o.count("only one of the two keys right");
                }
            }
        }
        5 => {
            // the packet number window moved: the number is read differently
            for _ in 0..10 {
                let l = gen::v62(&mut c.r);
                qc::set_largest_received(&mut e.conn, space_of(kind), Some(l));
                judge_forgery(c, "moved window", &d, &e.conn, &g)?;
            }
            // a nonce for another number
            let (pn, pn_len, _) = arrange_pn(&mut c.r, &mut e, kind);
            let s2 = peer_spec(&mut c.r, &e, kind, pn, pn_len, 60);
            let k = e.peer_keys(kind).unwrap();
            for _ in 0..8 {
                let wrong = if c.r.bool() {
                    pn ^ (1 << c.r.below(62))
                } else {
                    pn.wrapping_add(c.r.range(1, 300)) & wire::MAX62
                };
                let h = s2.clear_header();
                let sealed = k.seal(wrong, &h, &s2.payload);
                let x = Spec::protect(kind, pn_len, h, sealed, &k).unwrap();
                judge_forgery(c, "nonce of another packet number", &x, &e.conn, &[])?;
            }
        }
        6 => {
            // header fields rewritten under a valid header protection
            let k = e.peer_keys(kind).unwrap();
            let clear = s.clear_header();
            let sealed = k.seal(s.pn, &clear, &s.payload);
            for _ in 0..60 {
                let mut h = clear.clone();
                let i = c.r.usize(0, h.len() - 1);
                h[i] ^= 1 << c.r.below(8);
                let pn_len = (h[0] & 3) as usize + 1;
                if pn_len != s.pn_len {
                    continue;
                }
                if let Some(x) = Spec::protect(kind, pn_len, h, sealed.clone(), &k) {
                    if x != d {
                        judge_forgery(c, "rewritten header", &x, &e.conn, &[])?;
                    }
                }
            }
            // whole fields rewritten (the parts in the clear anyone can change on the way)
            for s2 in rewritten(&mut c.r, &s) {
                let h = s2.clear_header();
                if let Some(x) = Spec::protect(s2.kind, s2.pn_len, h, sealed.clone(), &k) {
                    if x != d {
                        judge_forgery(c, "rewritten field", &x, &e.conn, &[])?;
                        c.o.count("rewritten field");
                    }
                }
            }
            // tag variations
            let n = sealed.len();
            for i in n - 16..n {
                let mut b = sealed.clone();
                b[i] = b[i].wrapping_add(c.r.range(1, 255) as u8);
                if let Some(x) = Spec::protect(kind, s.pn_len, clear.clone(), b, &k) {
                    judge_forgery(c, "altered tag", &x, &e.conn, &[])?;
                }
            }
            let mut b = sealed.clone();
            for x in b[n - 16..].iter_mut() {
                *x = 0;
            }
            if let Some(x) = Spec::protect(kind, s.pn_len, clear.clone(), b, &k) {
                judge_forgery(c, "zero tag", &x, &e.conn, &[])?;
            }
            // no protection at all
            let mut plain = clear.clone();
            plain.extend_from_slice(&s.payload);
            plain.extend([0; 16]);
            if let Some(x) = Spec::protect(kind, s.pn_len, clear, [s.payload.clone(), vec![0; 16]].concat(), &k) {
                judge_forgery(c, "unencrypted payload", &x, &e.conn, &[])?;
            }
            judge_forgery(c, "unprotected packet", &plain, &e.conn, &[])?;
        }
        _ => {
            // a shorter tag: sealed data without its last bytes, with a length field that says so
            let k = e.peer_keys(kind).unwrap();
            for cut in 1..=16usize {
                let mut s2 = s.clone();
                let len = s2.length_value() - cut as u64;
                if s2.kind != PK::OneRtt {
                    s2.length_width = s2.length_width.max(wire::min_width(len).unwrap());
                }
                let h = s2.clear_header_with_length(len);
                let mut sealed = k.seal(s2.pn, &h, &s2.payload);
                let keep = sealed.len() - cut;
                let mut pad = vec![];
                if kind != PK::OneRtt && keep < 20 {
                    pad = c.r.texture(20);
                }
                sealed.truncate(keep);
                sealed.extend(pad);
                if let Some(x) = Spec::protect(kind, s2.pn_len, h, sealed, &k) {
                    judge_forgery(c, "shortened tag", &x, &e.conn, &[])?;
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
fn judge_secrets(c: &mut Ctx, what: &str, lib: &ql::Secrets, k: &Keys) -> Case {
    for _ in 0..2 {
        let pn = gen::v62(&mut c.r);
        let big = !cfg!(miri) && c.r.chance(1, 40);
        let n = if big && c.r.bool() { c.r.usize(3000, 70000) } else { gen::dlen(&mut c.r, 3000) };
        let aad = {
            let n = if big { c.r.usize(600, 66000) } else { gen::dlen(&mut c.r, 600) };
            c.r.texture(n)
        };
        let payload = c.r.texture(n);
        c.o.eval();
        c.o.distinct(&[&k.key, &aad, &payload, &pn.to_be_bytes()]);
        let ctx = || {
            format!(
                "{}: number {}, {} bytes of payload, {} of associated data",
                what,
                pn,
                payload.len(),
                aad.len()
            )
        };
        let sealed = lib
            .encrypt_payload(&payload, Some(&aad), pn)
            .map_err(|e| format!("{}: sealing failed: {}", ctx(), es(&e)))?;
        let want = k.seal(pn, &aad, &payload);
        ensure!(
            sealed == want,
            "{}: sealed to {} instead of {}",
            ctx(),
            hexs(&sealed),
            hexs(&want)
        );
        ensure!(
            sealed.len() == payload.len() + 16
                && lib.get_protected_payload_len(payload.len()) == payload.len() + 16,
            "{}: announced length {}",
            ctx(),
            lib.get_protected_payload_len(payload.len())
        );
        let opened = lib
            .decrypt_payload(&sealed, Some(&aad), pn)
            .map_err(|e| format!("{}: opening failed: {}", ctx(), es(&e)))?;
        ensure!(opened == payload, "{}: opened to something else", ctx());
        // everything else is refused
        let mut bad = sealed.clone();
        let i = c.r.usize(0, bad.len() - 1);
        bad[i] ^= 1 << c.r.below(8);
        ensure!(
            lib.decrypt_payload(&bad, Some(&aad), pn).is_err(),
            "{}: altered byte {} accepted",
            ctx(),
            i
        );
        let other = pn ^ (1 << c.r.below(62));
        ensure!(
            lib.decrypt_payload(&sealed, Some(&aad), other).is_err(),
            "{}: accepted as number {}",
            ctx(),
            other
        );
        let mut aad2 = aad.clone();
        if aad2.is_empty() || c.r.chance(1, 4) {
            aad2.push(0);
        } else {
            let i = c.r.usize(0, aad2.len() - 1);
            aad2[i] ^= 1 << c.r.below(8);
        }
        ensure!(
            lib.decrypt_payload(&sealed, Some(&aad2), pn).is_err(),
            "{}: accepted with other associated data",
            ctx()
        );
        let cut = c.r.usize(0, sealed.len() - 1);
        ensure!(
            lib.decrypt_payload(&sealed[..cut], Some(&aad), pn).is_err(),
            "{}: {} of {} bytes accepted",
            ctx(),
            cut,
            sealed.len()
        );
        let cut = c.r.usize(0, 16);
        ensure!(
            lib.decrypt_payload(&sealed[..cut], Some(&aad), pn).is_err() || (cut == 16 && payload.is_empty()),
            "{}: input of {} bytes accepted",
            ctx(),
            cut
        );
        // something nobody sealed: any text with any tag, however regular
        let mut text = match c.r.below(3) {
            0 => vec![],
            1 => payload.clone(),
            _ => sealed[..payload.len()].to_vec(),
        };
        if c.r.chance(1, 4) {
            let n = c.r.usize(0, 15);
            text.extend(vec![0; n]);
        }
        let tag = match c.r.below(6) {
            0 => vec![0; 16],
            1 => vec![0xff; 16],
            2 => k.key[..16].to_vec(),
            3 => k.seal(0, &[], &[])[..16].to_vec(),
            4 => aad.iter().copied().chain([0; 16]).take(16).collect(),
            _ => c.r.texture(16),
        };
        text.extend(tag);
        if text != sealed && text != k.seal(pn, &aad, &[]) {
            ensure!(
                lib.decrypt_payload(&text, Some(&aad), pn).is_err(),
                "{}: {} is opened although nobody sealed it",
                ctx(),
                hexs(&text)
            );
            c.o.count("made-up sealed text refused");
        }
        // header protection
        let sample = c.r.texture(16);
        let mut more = sample.clone();
        let n = c.r.usize(0, 5);
        more.extend(c.r.texture(n));
        let m = Meter::linear(64);
        let mask = lib
            .get_header_protection_mask(&mut Src::new(&more, &m))
            .map_err(|e| format!("{}: mask failed: {}", what, es(&e)))?;
        ensure!(
            mask == k.mask(&sample),
            "{}: mask for {} is {} instead of {}",
            what,
            hexs(&sample),
            hexs(&mask),
            hexs(&k.mask(&sample))
        );
        let short = c.r.usize(0, 15);
        ensure!(
            lib.get_header_protection_mask(&mut Src::new(&sample[..short], &m)).is_err(),
            "{}: mask from {} sample bytes",
            what,
            short
        );
        c.o.eval();
        c.o.count("seal/open/mask compared");
    }
    Ok(())
}

pub fn c10(c: &mut Ctx) -> Case {
    let dcid = if c.idx < 21 * 6 {
        c.r.texture((c.idx % 21) as usize)
    } else {
        gen::cid(&mut c.r)
    };
    for server in [false, true] {
        let lib = ql::Secrets::from_initial(server, &dcid, &ql::Version::V1)
            .map_err(|e| format!("initial keys for {} failed: {}", hexs(&dcid), es(&e)))?;
        let k = Keys::initial(&dcid, server);
        judge_secrets(
            c,
            &format!("{} initial keys of id {}", if server { "server" } else { "client" }, hexs(&dcid)),
            &lib,
            &k,
        )?;
    }
    let secret = c.r.texture(32);
    let lib = ql::secrets_from_secret(&secret)
        .map_err(|e| format!("keys from secret {} failed: {}", hexs(&secret), es(&e)))?;
    let k = Keys::from_secret(&secret);
    judge_secrets(c, &format!("secret {}", hexs(&secret)), &lib, &k)?;

    // both ends of a connection
    let server = c.r.bool();
    let a = end_with(&mut c.r, server, &dcid, 6)?;
    let b = mirror(&a)?;
    let (cd, cl) = a.conn.get_dcid();
    ensure!(
        cd == id(&dcid) && cl as usize == dcid.len(),
        "connection for id {} has id {:?} of {} bytes",
        hexs(&dcid),
        cd,
        cl
    );
    for k in [PK::Initial, PK::Handshake, PK::OneRtt] {
        let sp = space_of(k);
        let have = a.own_keys(k).is_some();
        let n = c.r.usize(0, 200);
        let payload = c.r.texture(n);
        let n = c.r.usize(0, 40);
        let aad = c.r.texture(n);
        let pn = gen::v62(&mut c.r);
        c.o.eval();
        let sealed = a.conn.encrypt_local_payload(sp.pn_space(), &payload, &aad, pn);
        if !have {
            ensure!(sealed.is_err(), "sealed at {:?} level without keys", sp);
            ensure!(
                a.conn.decrypt_remote_payload(sp.pn_space(), &[0; 32], &aad, pn).is_err(),
                "opened at {:?} level without keys",
                sp
            );
            let m = Meter::linear(64);
            ensure!(
                a.conn.get_local_hp_mask(sp.pn_space(), &mut Src::new(&[0; 16], &m)).is_err()
                    && a.conn.get_remote_hp_mask(sp.pn_space(), &mut Src::new(&[0; 16], &m)).is_err(),
                "mask at {:?} level without keys",
                sp
            );
            continue;
        }
        let sealed = sealed.map_err(|e| format!("sealing at {:?} level failed: {}", sp, es(&e)))?;
        let own = a.own_keys(k).unwrap();
        let theirs = a.peer_keys(k).unwrap();
        ensure!(
            sealed == own.seal(pn, &aad, &payload),
            "{:?} level: sealed with other than the {} keys",
            sp,
            if server { "server" } else { "client" }
        );
        ensure!(
            a.conn.get_local_protected_payload_len(sp.pn_space(), n).ok() == Some(n + 16),
            "announced sealed length is wrong"
        );
        let opened = b
            .conn
            .decrypt_remote_payload(sp.pn_space(), &sealed, &aad, pn)
            .map_err(|e| format!("{:?} level: the other end cannot open: {}", sp, es(&e)))?;
        ensure!(opened == payload, "{:?} level: the other end opened something else", sp);
        ensure!(
            a.conn.decrypt_remote_payload(sp.pn_space(), &sealed, &aad, pn).is_err(),
            "{:?} level: an endpoint accepts its own packets",
            sp
        );
        let from_peer = theirs.seal(pn, &aad, &payload);
        ensure!(
            a.conn
                .decrypt_remote_payload(sp.pn_space(), &from_peer, &aad, pn)
                .ok()
                .as_ref()
                == Some(&payload),
            "{:?} level: what the peer sealed is not opened",
            sp
        );
        let sample = c.r.texture(16);
        let m = Meter::linear(64);
        let l = a.conn.get_local_hp_mask(sp.pn_space(), &mut Src::new(&sample, &m));
        let r = a.conn.get_remote_hp_mask(sp.pn_space(), &mut Src::new(&sample, &m));
        ensure!(
            l.as_ref().ok() == Some(&own.mask(&sample)) && r.as_ref().ok() == Some(&theirs.mask(&sample)),
            "{:?} level: masks {:?}/{:?}",
            sp,
            l.map_err(|e| es(&e)),
            r.map_err(|e| es(&e))
        );
        c.o.count(&format!("both ends compared at {:?} level", sp));
    }
    c.o.sample(|| format!("id {} secret {}", hexs(&dcid), hexs(&secret)));
    Ok(())
}

// ------------------------------------------------------------------ C13
fn window_pn(r: &mut Rng, largest: Option<u64>, pn_len: usize) -> u64 {
    let win = 1u64 << (8 * pn_len);
    match largest {
        None => r.below(win),
        Some(l) => {
            let e = l + 1;
            let lo = e.saturating_sub(win / 2 - 1);
            let hi = (e + win / 2).min(wire::MAX62);
            let pn = r.range(lo, hi);
            wire::decode_pn(Some(l), pn & (win - 1), 8 * pn_len as u32).min(wire::MAX62)
        }
    }
}

/// a version negotiation packet takes all that follows the other packets
fn negotiation_tail(c: &mut Ctx, e: &End, mut d: Vec<u8>, specs: &[Spec], ends: &[usize]) -> Case {
    let start = d.len();
    debug_assert_eq!(ends.last(), Some(&start));
    d.push(0x80 | c.r.below(256) as u8);
    d.extend([0; 4]);
    let max = if c.r.chance(1, 4) { 255 } else { 20 };
    let mut ids = vec![];
    for _ in 0..2 {
        let n = c.r.usize(0, max);
        let x = c.r.texture(n);
        d.push(n as u8);
        d.extend_from_slice(&x);
        ids.push(x);
    }
    let head = d.len();
    let mut versions = vec![];
    let n = if c.r.chance(1, 20) { c.r.usize(12, 400) } else { c.r.usize(1, 12) };
    for _ in 0..n {
        // (an entry may look like the start of another packet)
        let v = match c.r.below(4) {
            0 => 0xc000_0000 | c.r.below(1 << 28) as u32,
            1 => *c.r.pick(&[0u32, 1, 0x0100_0000, 0x6b33_43cf]),
            2 => gen::version(&mut c.r),
            _ => c.r.u64() as u32,
        };
        versions.push(v);
        d.extend_from_slice(&v.to_be_bytes());
    }
    c.o.eval();
    c.o.distinct(&[&d]);
    c.o.count("version negotiation after other packets");
    let v = lib_decode(&d, &e.conn).map_err(|x| {
        format!("{} packets and version negotiation [{}] refused: {}", specs.len(), hexs(&d), x)
    })?;
    ensure!(
        v.len() == specs.len() + 1,
        "{} packets and version negotiation [{}] decoded as {} packets",
        specs.len(),
        hexs(&d),
        v.len()
    );
    for (p, s) in v.iter().zip(specs) {
        same_packet(p, s)?;
    }
    let p = &v[specs.len()];
    let (dcid, scid) = header_ids(&p.header)?;
    ensure!(
        p.supported_versions.as_ref() == Some(&versions) && dcid == ids[0] && scid.as_ref() == Some(&ids[1]),
        "version negotiation of {} packets and [{}] decoded as {:?} for {} from {:?}",
        specs.len(),
        hexs(&d),
        p.supported_versions,
        hexs(&dcid),
        scid.map(|x| hexs(&x))
    );
    for k in start + 1..d.len() {
        c.o.eval();
        let got = lib_decode(&d[..k], &e.conn);
        if k >= head && (k - head) % 4 == 0 {
            // a shorter list
            if let Ok(v) = got {
                ensure!(
                    v.len() == specs.len() + 1
                        && v[specs.len()].supported_versions.as_deref() == Some(&versions[..(k - head) / 4]),
                    "{} packets and version negotiation [{}] decoded as {} packets",
                    specs.len(),
                    hexs(&d[..k]),
                    v.len()
                );
            } else {
                ensure!(k == head, "{} packets and version negotiation [{}] refused", specs.len(), hexs(&d[..k]));
            }
            continue;
        }
        ensure!(
            got.is_err(),
            "{} packets and version negotiation, cut inside [{}], decoded",
            specs.len(),
            hexs(&d[..k])
        );
        c.o.count("cut inside version negotiation refused");
    }
    Ok(())
}

pub fn c13(c: &mut Ctx) -> Case {
    let e0 = end(&mut c.r, 7)?;
    let mut e = e0;
    let kinds = receivable(&e);
    let long: Vec<PK> = kinds.iter().copied().filter(|k| *k != PK::OneRtt).collect();
    let mut largest = [None; 3];
    for (i, s) in SPACES.iter().enumerate() {
        largest[i] = if c.r.chance(1, 3) {
            None
        } else {
            Some(gen::v62(&mut c.r).min(wire::MAX62 - 1))
        };
        qc::set_largest_received(&mut e.conn, *s, largest[i]);
    }
    let short_end = kinds.contains(&PK::OneRtt) && c.r.bool();
    let dcid = if short_end { c.r.texture(8) } else { gen::cid(&mut c.r) };
    let (n, usual) = match c.r.below(8) {
        0 => (1, 140),
        1 if c.r.chance(1, 8) => (c.r.usize(41, 1400), 24),
        1 => (c.r.usize(5, 40), 140),
        _ => (c.r.usize(1, 4), 140),
    };
    // packets of one datagram need not name the same id
    let mixed_ids = c.r.chance(1, 4);
    let mut specs = vec![];
    let mut ends = vec![0usize];
    let mut d = vec![];
    let mut list: Vec<PK> = (0..n).map(|_| *c.r.pick(&long)).collect();
    if short_end {
        list.push(PK::OneRtt);
    }
    for k in list {
        let pn_len = c.r.usize(1, 4);
        let l = largest[space_of(k) as usize];
        let pn = window_pn(&mut c.r, l, pn_len);
        let max = if n <= 40 && c.r.chance(1, 20) { 8000 } else { usual };
        let mut s = peer_spec(&mut c.r, &e, k, pn, pn_len, max);
        if k == PK::OneRtt || !mixed_ids {
            s.dcid = dcid.clone();
        }
        let longest = if n <= 40 { 300 } else { 8 };
        if s.token.len() > longest {
            s.token.truncate(longest);
            s.fit_widths();
        }
        if !cfg!(miri) && n <= 4 && d.len() < 20000 && c.r.chance(1, 400) {
            // one that fills most of the datagram
            let fill = c.r.usize(20000, 61000 - d.len());
            let mut p = vec![0; fill.saturating_sub(s.payload.len())];
            p.extend_from_slice(&s.payload);
            s.payload = p;
            if k != PK::OneRtt {
                s.length_width = s.length_width.max(wire::min_width(s.length_value()).unwrap());
            }
        }
        let b = s.seal(&e.peer_keys(k).unwrap()).unwrap();
        if !d.is_empty() && d.len() + b.len() > 65527 {
            break;
        }
        d.extend_from_slice(&b);
        ends.push(d.len());
        specs.push(s);
    }
    if !short_end && c.r.chance(1, 5) {
        return negotiation_tail(c, &e, d, &specs, &ends);
    }
    c.o.eval();
    c.o.distinct(&[&d]);
    c.o.max("packets in a datagram", specs.len() as u64);
    c.o.add("packets", specs.len() as u64);
    let names = || specs.iter().map(|s| format!("{:?}/{}", s.kind, s.pn_len)).collect::<Vec<_>>().join("+");
    c.o.sample(|| format!("{}: {}", names(), hexs(&d)));
    let v = lib_decode(&d, &e.conn).map_err(|x| format!("datagram {} [{}] refused: {}", names(), hexs(&d), x))?;
    ensure!(
        v.len() == specs.len(),
        "datagram {} [{}] decoded as {} packets",
        names(),
        hexs(&d),
        v.len()
    );
    for (i, (p, s)) in v.iter().zip(&specs).enumerate() {
        same_packet(p, s).map_err(|x| format!("packet {} of datagram {} [{}]: {}", i, names(), hexs(&d), x))?;
    }
    // one at a time: exact bounds
    let m = Meter::linear(d.len());
    let mut src = Src::new(&d, &m);
    for (i, s) in specs.iter().enumerate() {
        let p = qp::decode_next_packet(&mut src, &e.conn)
            .map_err(|x| format!("packet {} of datagram {} [{}]: {}", i, names(), hexs(&d), es(&x)))?;
        same_packet(&qp::view(&p), s)
            .map_err(|x| format!("packet {} of datagram {} [{}]: {}", i, names(), hexs(&d), x))?;
        ensure!(
            src.i == ends[i + 1],
            "packet {} of datagram {} [{}] ends at {} but {} bytes were consumed",
            i,
            names(),
            hexs(&d),
            ends[i + 1],
            src.i
        );
    }
    // truncations
    let cuts: Vec<usize> = if d.len() <= 150 {
        (1..d.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..25).map(|_| c.r.usize(1, d.len() - 1)).collect();
        for x in &ends {
            for k in [x.wrapping_sub(16), x.wrapping_sub(1), *x, x + 1, x + 5] {
                if k > 0 && k < d.len() {
                    v.push(k);
                }
            }
        }
        v.truncate(120);
        v
    };
    for k in cuts {
        c.o.eval();
        let got = lib_decode(&d[..k], &e.conn);
        match ends.iter().position(|x| *x == k) {
            Some(j) => {
                let v = got.map_err(|x| {
                    format!("first {} packets of {} [{}] refused: {}", j, names(), hexs(&d[..k]), x)
                })?;
                ensure!(
                    v.len() == j,
                    "first {} packets of {} [{}] decoded as {}",
                    j,
                    names(),
                    hexs(&d[..k]),
                    v.len()
                );
                for (p, s) in v.iter().zip(&specs) {
                    same_packet(p, s)?;
                }
                c.o.count("cut between packets");
            }
            None => {
                if let Ok(v) = got {
                    return Err(format!(
                        "datagram {} cut at byte {} (inside a packet) decoded to {} packets [{}]",
                        names(),
                        k,
                        v.len(),
                        hexs(&d[..k])
                    ));
                }
                c.o.count("cut inside a packet refused");
            }
        }
    }
    overstated(c, &e, &d, &specs, &ends)
}

/// one packet declares more bytes (of itself, or of its token) than the datagram holds, by an
/// amount that would vanish if the field were narrowed; everything else about it is genuine
fn overstated(c: &mut Ctx, e: &End, d: &[u8], specs: &[Spec], ends: &[usize]) -> Case {
    let at: Vec<usize> = (0..specs.len()).filter(|i| specs[*i].kind != PK::OneRtt).collect();
    if at.is_empty() {
        return Ok(());
    }
    for _ in 0..3 {
        let i = *c.r.pick(&at);
        let mut s = specs[i].clone();
        let k = e.peer_keys(s.kind).unwrap();
        let excess = match c.r.below(4) {
            0 => 1u64 << 32,
            1 => 1 << 61,
            2 => 1u64 << c.r.range(16, 61),
            _ => c.r.range(1, (1 << 29) - 1) << 32,
        };
        let (h, what) = if s.kind == PK::Initial && c.r.bool() {
            let real = s.token.len() as u64;
            s.token_len_width = 8;
            let mut h = s.clear_header();
            let p = 7 + s.dcid.len() + s.scid.len();
            let mut f = vec![];
            wire::put_width(&mut f, real + excess, 8);
            h[p..p + 8].copy_from_slice(&f);
            (h, "token")
        } else {
            s.length_width = 8;
            (s.clear_header_with_length(s.length_value() + excess), "packet")
        };
        let sealed = k.seal(s.pn, &h, &s.payload);
        let Some(x) = Spec::protect(s.kind, s.pn_len, h, sealed, &k) else { continue };
        let mut y = d[..ends[i]].to_vec();
        y.extend_from_slice(&x);
        if c.r.bool() {
            y.extend_from_slice(&d[ends[i + 1]..]);
        }
        if y.len() > 65500 {
            continue;
        }
        c.o.eval();
        if let Ok(v) = lib_decode(&y, &e.conn) {
            return Err(format!(
                "packet {} ({:?}) of a datagram of {} bytes declares a {} longer than that by {} but the datagram decoded to {} packets [{}]",
                i,
                s.kind,
                y.len(),
                what,
                excess,
                v.len(),
                hexs(&y)
            ));
        }
        c.o.count("overstated length refused");
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
/// header protection as packets go through it: what the mask touches and what it leaves
fn protected_exchange(c: &mut Ctx) -> Case {
    let mut e = end(&mut c.r, 6)?;
    if c.r.bool() {
        // inbound, with any bits under the mask
        let kinds = receivable(&e);
        let kind = *c.r.pick(&kinds);
        let (pn, pn_len, _) = arrange_pn(&mut c.r, &mut e, kind);
        let s = peer_spec(&mut c.r, &e, kind, pn, pn_len, 60);
        let keys = e.peer_keys(kind).unwrap();
        let mut h = s.clear_header();
        let (own, reserved) = if kind == PK::OneRtt { (0x1c, 0x1c) } else { (0x0c, 0x0c) };
        if c.r.bool() {
            h[0] |= c.r.u8() & own;
        }
        let first = h[0];
        let sealed = keys.seal(pn, &h, &s.payload);
        let Some(d) = Spec::protect(kind, pn_len, h, sealed, &keys) else { return Ok(()) };
        c.o.eval();
        c.o.distinct(&[&d]);
        match lib_decode(&d, &e.conn) {
            Ok(v) => {
                ensure!(
                    v.len() == 1
                        && v[0].header.first_byte == first
                        && !v[0].header.is_protected
                        && v[0].packet_number_bytes.as_ref() == Some(&s.pn_bytes()),
                    "{:?} with first byte {:02x} and packet number bytes {} [{}] read as {:?}",
                    kind,
                    first,
                    hexs(&s.pn_bytes()),
                    hexs(&d),
                    v.iter()
                        .map(|p| (p.header.first_byte, p.header.is_protected, p.packet_number_bytes.clone()))
                        .collect::<Vec<_>>()
                );
                c.o.count("protected packet read");
            }
            // (bits that must be zero, and a key phase nobody agreed on, may be refused)
            Err(x) => ensure!(first & reserved != 0, "{:?} [{}] refused: {}", kind, hexs(&d), x),
        }
        return Ok(());
    }
    // outbound
    let scid = gen::cid(&mut c.r);
    e.conn.set_scid(id(&scid), scid.len());
    let hs = e.hs.is_some() && c.r.bool();
    let (kind, space) = if hs { (PK::Handshake, Space::Handshake) } else { (PK::Initial, Space::Initial) };
    let at = c.r.below(1 << 30);
    let acked = at.saturating_sub(1u64 << c.r.below(30));
    qc::set_pn_counter(&mut e.conn, space, at);
    qc::set_largest_acked(&mut e.conn, space, Some(acked));
    let frames = lib_frames(&[RF::Crypto { offset: c.r.below(1 << 20), data: c.r.texture(24) }, RF::Padding]);
    let built = if hs {
        qp::PacketHandshake::new(frames, &mut e.conn).map(|p| (qp::serialize_handshake(&p, &e.conn), qp::handshake_view(&p)))
    } else {
        qp::PacketInitial::new(frames, None, &mut e.conn).map(|p| (qp::serialize_initial(&p, &e.conn), qp::initial_view(&p)))
    };
    let (out, v) = built.map_err(|x| format!("{:?} packet refused: {}", kind, es(&x)))?;
    let d = out.map_err(|x| format!("{:?} packet refused when serialized: {}", kind, es(&x)))?;
    c.o.eval();
    c.o.distinct(&[&d]);
    let o = crypto::open(&d, &e.own_keys(kind).unwrap(), Some(acked))
        .map_err(|x| format!("protection of {:?} [{}] cannot be removed: {}", kind, hexs(&d), x))?;
    let mut h = o.spec.clear_header();
    h[0] = o.first_clear;
    let at = h.len() - o.spec.pn_len;
    ensure!(
        v.header.first_byte == o.first_clear && !v.header.is_protected && v.packet_number_bytes.as_deref() == Some(&h[at..]),
        "{:?} with header {:?} and number {:?} was emitted as [{}], whose header in the clear is {}",
        kind,
        v.header,
        v.packet_number_bytes,
        hexs(&d),
        hexs(&h)
    );
    ensure!(
        (d[0] ^ h[0]) & 0xf0 == 0 && d[1..at] == h[1..at],
        "protection of {} touched other bytes: {}",
        hexs(&h),
        hexs(&d)
    );
    c.o.count("protected packet emitted");
    Ok(())
}

pub fn c22(c: &mut Ctx) -> Case {
    if !cfg!(miri) && c.idx >= 4096 && c.r.chance(1, 12) {
        return protected_exchange(c);
    }
    let mut mask = [0u8; 5];
    mask.copy_from_slice(&c.r.texture(5));

    let first = if c.idx < 4096 { (c.idx % 256) as u8 } else { c.r.u8() };
    let mut log = vec![first];
    if first & 0x80 != 0 {
        let mut body = vec![];
        let version: u32 = if c.r.chance(1, 6) { 0 } else { *c.r.pick(&[1, 1, 0xdead_beef]) };
        body.extend(version.to_be_bytes());
        for _ in 0..2 {
            let n = gen::cid_len(&mut c.r);
            body.push(n as u8);
            body.extend(c.r.texture(n));
        }
        let m = Meter::linear(64);
        let mut h = match qp::LongPacketHeader::from_stream(&mut Src::new(&body, &m), first) {
            Ok(h) => h,
            Err(e) => {
                ensure!(first & 0x40 == 0, "header refused: {}", es(&e));
                return Ok(());
            }
        };
        let vn = version == 0;
        let retry = !vn && first & 0x30 == 0x30;
        let mut prot = !vn && !retry;
        let mut byte = first;
        ensure!(
            qp::long_header_view(&h).is_protected == prot,
            "header {:02x} version {} starts as protected = {}",
            first,
            version,
            !prot
        );
        for _ in 0..c.r.usize(1, 8) {
            let mut mk = mask;
            if c.r.chance(1, 3) {
                mk.copy_from_slice(&c.r.texture(5));
            }
            let op = c.r.below(4);
            log.push(op as u8);
            log.push(mk[0]);
            match op {
                0 => {
                    h.remove_protection(&mk);
                    if prot {
                        byte ^= mk[0] & 0x0f;
                        prot = false;
                    }
                }
                1 => {
                    if vn || retry {
                        // nobody protects these; whatever it does is confined and undone
                        let mut x = h.clone();
                        x.add_protection(&mk);
                        let on = qp::long_header_view(&x).first_byte;
                        x.remove_protection(&mk);
                        let off = qp::long_header_view(&x).first_byte;
                        ensure!(
                            (on ^ byte) & 0xf0 == 0 && off == byte,
                            "protecting the {} header {:02x} gives {:02x}, removing that {:02x}",
                            if vn { "version negotiation" } else { "retry" },
                            byte,
                            on,
                            off
                        );
                        continue;
                    }
                    h.add_protection(&mk);
                    if !prot {
                        byte ^= mk[0] & 0x0f;
                        prot = true;
                    }
                }
                2 => {
                    // and straight back
                    if vn || retry {
                        // nobody protects these; whatever it does is confined and undone
                        let mut x = h.clone();
                        x.add_protection(&mk);
                        let on = qp::long_header_view(&x).first_byte;
                        x.remove_protection(&mk);
                        let off = qp::long_header_view(&x).first_byte;
                        ensure!(
                            (on ^ byte) & 0xf0 == 0 && off == byte,
                            "protecting the {} header {:02x} gives {:02x}, removing that {:02x}",
                            if vn { "version negotiation" } else { "retry" },
                            byte,
                            on,
                            off
                        );
                        continue;
                    }
                    if prot {
                        h.remove_protection(&mk);
                        h.add_protection(&mk);
                    } else {
                        h.add_protection(&mk);
                        h.remove_protection(&mk);
                    }
                }
                _ => {
                    let got = h.packet_number_length();
                    if prot {
                        ensure!(got.is_err(), "packet number length read from a protected header");
                    } else if !vn && !retry {
                        ensure!(
                            got.as_ref().ok() == Some(&((byte & 3) as usize + 1)),
                            "packet number length of {:02x} read as {:?}",
                            byte,
                            got.map_err(|e| es(&e))
                        );
                    }
                }
            }
            c.o.eval();
            let v = qp::long_header_view(&h);
            ensure!(
                v.first_byte == byte && v.is_protected == prot,
                "after {:?} the header is {:02x} (protected {}) instead of {:02x} ({})",
                log,
                v.first_byte,
                v.is_protected,
                byte,
                prot
            );
            if !vn {
                let raw = h.to_bytes();
                ensure!(
                    raw[0] == byte && raw[1..] == body[..],
                    "protection changed the header to {}",
                    hexs(&raw)
                );
            }
            ensure!(
                (v.first_byte ^ first) & 0xf0 == 0,
                "bits outside the protected ones changed: {:02x} -> {:02x}",
                first,
                v.first_byte
            );
        }
        c.o.distinct(&[&log, &body]);
        c.o.count(if vn { "version negotiation header" } else if retry { "retry header" } else { "long header" });
    } else {
        let idb = c.r.texture(8);
        let m = Meter::linear(64);
        let mut h = match qp::ShortPacketHeader::from_stream(&mut Src::new(&idb, &m), first) {
            Ok(h) => h,
            Err(e) => {
                ensure!(first & 0x40 == 0, "header refused: {}", es(&e));
                return Ok(());
            }
        };
        let mut prot = true;
        let mut byte = first;
        for _ in 0..c.r.usize(1, 8) {
            let mut mk = mask;
            if c.r.chance(1, 3) {
                mk.copy_from_slice(&c.r.texture(5));
            }
            let op = c.r.below(4);
            log.push(op as u8);
            log.push(mk[0]);
            match op {
                0 => {
                    h.remove_protection(&mk);
                    if prot {
                        byte ^= mk[0] & 0x1f;
                        prot = false;
                    }
                }
                1 => {
                    h.add_protection(&mk);
                    if !prot {
                        byte ^= mk[0] & 0x1f;
                        prot = true;
                    }
                }
                2 => {
                    if prot {
                        h.remove_protection(&mk);
                        h.add_protection(&mk);
                    } else {
                        h.add_protection(&mk);
                        h.remove_protection(&mk);
                    }
                }
                _ => {
                    let l = h.packet_number_length().ok();
                    let k = h.key_phase().ok();
                    let s = h.spin_bit().ok();
                    let rb = h.reserved_bits().ok();
                    if prot {
                        ensure!(
                            l.is_none() && k.is_none() && s.is_none() && rb.is_none(),
                            "fields read from a protected header: {:?} {:?} {:?} {:?}",
                            l,
                            k,
                            s,
                            rb
                        );
                    } else {
                        ensure!(
                            l == Some((byte & 3) as usize + 1)
                                && k == Some(byte & 4 != 0)
                                && s == Some(byte & 0x20 != 0)
                                && rb == Some((byte >> 3) & 3),
                            "fields of {:02x} read as length {:?} phase {:?} spin {:?} reserved {:?}",
                            byte,
                            l,
                            k,
                            s,
                            rb
                        );
                    }
                }
            }
            c.o.eval();
            let v = qp::short_header_view(&h);
            ensure!(
                v.first_byte == byte && v.is_protected == prot,
                "after {:?} the short header is {:02x} (protected {}) instead of {:02x} ({})",
                log,
                v.first_byte,
                v.is_protected,
                byte,
                prot
            );
            let raw = h.to_bytes();
            ensure!(
                raw[0] == byte && raw[1..] == idb[..],
                "protection changed the short header to {}",
                hexs(&raw)
            );
        }
        c.o.distinct(&[&log, &idb]);
        c.o.count("short header");
    }
    c.o.sample(|| format!("operations {:?} mask {}", log, hexs(&mask)));
    let _ = qu::U160::BITS;
    Ok(())
}
