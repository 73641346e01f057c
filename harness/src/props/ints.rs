//! C05 (variable-length integers), C17 (transport parameters), C21 (ids and fixed-width integers)
use crate::gen;
use crate::glue::*;
use crate::obs::Case;
use crate::wire::{self, hexs, Rd, MAX62};
use crate::{ensure, Ctx};
use quic_sea::verif::transport_parameters as qt;
use quic_sea::verif::utils::{self as qu, DecodeFromBytes, FromDatagram, U160};
use std::collections::HashMap;

// ------------------------------------------------------------------ C05
fn judge_decode(c: &mut Ctx, b: &[u8]) -> Case {
    c.o.eval();
    c.o.distinct(&[b"d", b]);
    let mut rd = Rd::new(b);
    let want = rd.varint().ok().map(|v| (v, rd.i));
    let m = Meter::linear(b.len());
    let mut s1 = Src::new(b, &m);
    let a = qu::var_int_from_stream(&mut s1).ok().map(|v| (v, s1.i));
    ensure!(
        a == want,
        "{} read from a stream as {:?} instead of {:?}",
        hexs(b),
        a,
        want
    );
    let mut s2 = Src::new(b, &m);
    let d = qu::var_int_with_bytes_from_stream(&mut s2).ok();
    let d2 = d.as_ref().map(|(v, _)| (*v, s2.i));
    ensure!(
        d2 == want,
        "{} read with its bytes as {:?} instead of {:?}",
        hexs(b),
        d2,
        want
    );
    if let Some((_, raw)) = d {
        ensure!(
            raw == b[..s2.i],
            "{} read with bytes {} instead of {}",
            hexs(b),
            hexs(&raw),
            hexs(&b[..s2.i])
        );
    }
    let e = qu::decode_var_int(b).ok();
    ensure!(
        e == want,
        "{} read from a slice as {:?} instead of {:?}",
        hexs(b),
        e,
        want
    );
    c.o.count(match want {
        None => "truncated integer refused",
        Some((_, 1)) => "1-byte integer decoded",
        Some((_, 2)) => "2-byte integer decoded",
        Some((_, 4)) => "4-byte integer decoded",
        _ => "8-byte integer decoded",
    });
    Ok(())
}

fn judge_encode(c: &mut Ctx, v: u64) -> Case {
    c.o.eval();
    c.o.distinct(&[b"e", &v.to_be_bytes()]);
    let mut want = vec![];
    let ok = wire::put(&mut want, v).is_some();
    match qu::encode_var_int(v) {
        Ok(b) => {
            ensure!(ok, "{} cannot be encoded but gave {}", v, hexs(&b));
            ensure!(
                b == want,
                "{} was encoded as {} instead of {}",
                v,
                hexs(&b),
                hexs(&want)
            );
            c.o.count("value encoded");
            judge_decode(c, &b)?;
        }
        Err(e) => {
            ensure!(!ok, "{} was refused: {}", v, es(&e));
            c.o.count("unencodable value refused");
        }
    }
    Ok(())
}

pub fn c05(c: &mut Ctx) -> Case {
    let i = c.idx;
    if i < 256 {
        // all 2-byte prefixes; and the first 65,536 values
        for x in 0..=255u8 {
            let n = c.r.usize(6, 10);
            let mut b = vec![i as u8, x];
            b.extend(c.r.texture(n));
            judge_decode(c, &b)?;
            judge_encode(c, i * 256 + x as u64)?;
        }
        for n in 0..10 {
            let mut b = vec![i as u8];
            b.extend(c.r.texture(9));
            judge_decode(c, &b[..n])?;
        }
        c.o.count("chunk of all 2-byte prefixes");
        return Ok(());
    }
    if i < 320 {
        // around every power of two
        let p = 1u64 << (i - 256);
        for d in 0..200u64 {
            judge_encode(c, p.wrapping_add(d))?;
            judge_encode(c, p.wrapping_sub(d))?;
        }
        judge_encode(c, MAX62)?;
        judge_encode(c, MAX62 + 1)?;
        return Ok(());
    }
    for _ in 0..8 {
        let v = gen::v64(&mut c.r);
        judge_encode(c, v)?;
        let v = gen::v62(&mut c.r);
        let w = gen::any_width(&mut c.r, v);
        let mut b = vec![];
        wire::put_width(&mut b, v, w);
        // (what follows is none of its business, however much)
        let n = match c.r.below(20_000) {
            0 if !cfg!(miri) => c.r.usize(60_000, 140_000),
            1..=200 => c.r.usize(5, 300),
            _ => c.r.usize(0, 4),
        };
        b.extend(c.r.texture(n));
        c.o.max("bytes the integer was read from", b.len() as u64);
        c.o.sample(|| format!("{} <-> {}", v, hexs(&b)));
        judge_decode(c, &b)?;
        let k = c.r.usize(0, b.len());
        judge_decode(c, &b[..k])?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
enum Val {
    Int(u64),
    Raw(Vec<u8>),
    /// no RFC 9000 form
    Never,
}

pub fn c17(c: &mut Ctx) -> Case {
    use qt::TransportParameter as T;
    let n = c.r.usize(1, 20);
    let mut all = vec![];
    let mut want_list: Vec<(u64, Vec<u8>)> = vec![];
    for _ in 0..n {
        let k = c.r.below(17);
        let int = gen::v64(&mut c.r);
        let idb = if c.r.chance(1, 20) {
            let n = if !cfg!(miri) && c.r.chance(1, 10) { c.r.usize(60_000, 140_000) } else { gen::dlen(&mut c.r, 20000) };
            c.r.texture(n)
        } else {
            gen::cid(&mut c.r)
        };
        let mut tok = [0u8; 16];
        tok.copy_from_slice(&c.r.texture(16));
        let (p, v) = match k {
            0 => (T::OriginalDestinationConnectionId(idb.clone()), Val::Raw(idb)),
            1 => (T::MaxIdleTimeout(int), Val::Int(int)),
            2 => (T::StatelessResetToken(tok), Val::Raw(tok.to_vec())),
            3 => (T::MaxUdpPayloadSize(int), Val::Int(int)),
            4 => (T::InitialMaxData(int), Val::Int(int)),
            5 => (T::InitialMaxStreamDataBidiLocal(int), Val::Int(int)),
            6 => (T::InitialMaxStreamDataBidiRemote(int), Val::Int(int)),
            7 => (T::InitialMaxStreamDataUni(int), Val::Int(int)),
            8 => (T::InitialMaxStreamsBidi(int), Val::Int(int)),
            9 => (T::InitialMaxStreamsUni(int), Val::Int(int)),
            10 => (T::AckDelayExponent(int), Val::Int(int)),
            11 => (T::MaxAckDelay(int), Val::Int(int)),
            12 => (T::DisableActiveMigration, Val::Raw(vec![])),
            13 => {
                let v4 = match c.r.below(6) {
                    0 => vec![0; 4],
                    1 => c.r.pick(&[[127u8, 0, 0, 1], [255; 4], [224, 0, 0, 1], [169, 254, 0, 1], [10, 0, 0, 0]]).to_vec(),
                    _ => c.r.texture(4),
                };
                let v6 = match c.r.below(6) {
                    0 => vec![0; 16],
                    // kinds of addresses with a meaning of their own
                    1 | 2 => {
                        let head: &[u8] = *c.r.pick(&[
                            &[0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff][..],
                            &[0; 12][..],
                            &[0; 15][..],
                            &[0, 0x64, 0xff, 0x9b, 0, 0, 0, 0, 0, 0, 0, 0][..],
                            &[0xfe, 0x80, 0, 0, 0, 0, 0, 0][..],
                            &[0x20, 0x02][..],
                            &[0xff, 0x02][..],
                        ]);
                        let mut x = head.to_vec();
                        if c.r.chance(1, 3) && x.len() == 12 {
                            x.extend_from_slice(&v4);
                        }
                        x.extend(c.r.texture(16 - x.len()));
                        x
                    }
                    _ => c.r.texture(16),
                };
                let p4 = if c.r.chance(1, 5) { *c.r.pick(&[0, 1, 443, 256, 65535]) } else { c.r.u64() as u16 };
                let p6 = if c.r.chance(1, 5) { *c.r.pick(&[0, 1, 443, 256, 65535, p4]) } else { c.r.u64() as u16 };
                let n = match c.r.below(12) {
                    0 => 0,
                    1 => c.r.usize(21, 300),
                    2 => *c.r.pick(&[21usize, 255, 256, 257, 264, 512, 65544]),
                    _ => c.r.usize(1, 20),
                };
                let id = c.r.texture(n);
                let mut raw = vec![];
                raw.extend_from_slice(&v4);
                raw.extend_from_slice(&p4.to_be_bytes());
                raw.extend_from_slice(&v6);
                raw.extend_from_slice(&p6.to_be_bytes());
                raw.push(id.len() as u8);
                raw.extend_from_slice(&id);
                raw.extend_from_slice(&tok);
                let mut a4 = [0u8; 4];
                a4.copy_from_slice(&v4);
                let mut a6 = [0u8; 16];
                a6.copy_from_slice(&v6);
                (
                    T::PreferredAddress(qt::preferred_address(
                        a4.into(),
                        p4,
                        a6.into(),
                        p6,
                        id,
                        tok,
                    )),
                    if (1..=20).contains(&n) { Val::Raw(raw) } else { Val::Never },
                )
            }
            14 => (T::ActiveConnectionIdLimit(int), Val::Int(int)),
            15 => (T::InitialSourceConnectionId(idb.clone()), Val::Raw(idb)),
            _ => (T::RetrySourceConnectionId(idb.clone()), Val::Raw(idb)),
        };
        c.o.eval();
        c.o.count(&format!("parameter {:#04x}", k));
        let value = match &v {
            Val::Int(x) => {
                let mut b = vec![];
                wire::put(&mut b, *x).map(|_| b)
            }
            Val::Raw(b) => Some(b.clone()),
            Val::Never => None,
        };
        let got = p.serialize();
        match (value, got) {
            (None, Ok(b)) => {
                return Err(format!(
                    "parameter {:#x} with value {} cannot be represented but gave {}",
                    k,
                    int,
                    hexs(&b)
                ))
            }
            (None, Err(_)) => c.o.count("unrepresentable value refused"),
            (Some(v), Err(e)) => {
                // values RFC 9000 section 18.2 forbids may be refused
                let forbidden = match (k, &v) {
                    (3, _) => int < 1200,
                    (8 | 9, _) => int > 1 << 60,
                    (10, _) => int > 20,
                    (11, _) => int >= 1 << 14,
                    (14, _) => int < 2,
                    (0 | 15 | 16, v) => v.len() > 20,
                    _ => false,
                };
                ensure!(
                    forbidden,
                    "parameter {:#x} with value {} was refused: {}",
                    k,
                    hexs(&v),
                    es(&e)
                );
                c.o.count("forbidden value refused");
            }
            (Some(v), Ok(b)) => {
                let mut w = vec![];
                wire::put(&mut w, k).unwrap();
                wire::put(&mut w, v.len() as u64).unwrap();
                w.extend_from_slice(&v);
                ensure!(
                    b == w,
                    "parameter {:#x} was encoded as {} instead of {}",
                    k,
                    hexs(&b),
                    hexs(&w)
                );
                ensure!(
                    p.identifier_val() == k,
                    "parameter {:#x} identifies itself as {:#x}",
                    k,
                    p.identifier_val()
                );
                c.o.distinct(&[&b]);
                all.extend_from_slice(&b);
                want_list.push((k, v));
            }
        }
    }
    // the concatenation parses back
    let mut rd = Rd::new(&all);
    let mut got = vec![];
    while rd.left() > 0 {
        let t = rd.varint().map_err(|_| "bad identifier".to_string())?;
        let l = rd.varint().map_err(|_| "bad length".to_string())?;
        let v = rd
            .take(l)
            .map_err(|_| format!("parameter {:#x} runs over the end", t))?;
        got.push((t, v.to_vec()));
    }
    ensure!(
        got == want_list,
        "a concatenation of {} parameters does not parse back",
        want_list.len()
    );
    c.o.sample(|| hexs(&all));
    Ok(())
}

// ------------------------------------------------------------------ C21
fn judge_id(c: &mut Ctx, b: &[u8]) -> Result<U160, String> {
    c.o.eval();
    c.o.distinct(&[b]);
    let n = b.len();
    let m = Meter::linear(64);
    let mut padded = b.to_vec();
    padded.extend([0xee, 0xdd]);
    let mut s = Src::new(&padded, &m);
    let x = qu::var_u160_from_stream(&mut s, n as u8)
        .map_err(|e| format!("id {} was refused: {}", hexs(b), es(&e)))?;
    ensure!(s.i == n, "reading a {}-byte id took {} bytes", n, s.i);
    let back = x.to_var_bytes(n);
    ensure!(
        back == b,
        "id {} was written back as {}",
        hexs(b),
        hexs(&back)
    );
    let mut full = vec![0u8; 20 - n];
    full.extend_from_slice(b);
    ensure!(
        x.to_bytes()[..] == full[..],
        "id {} has full form {}",
        hexs(b),
        hexs(&x.to_bytes())
    );
    let mut s = Src::new(&full, &m);
    let y = U160::from_datagram(&mut s).map_err(|e| format!("20-byte id refused: {}", es(&e)))?;
    ensure!(
        y == x && s.i == 20,
        "fixed and variable readers disagree on {}: {:?} {:?}",
        hexs(b),
        x,
        y
    );
    if n == 8 {
        let mut s = Src::new(&padded, &m);
        let z = qu::fixed_len_dcid_from_stream(&mut s)
            .map_err(|e| format!("8-byte id refused: {}", es(&e)))?;
        ensure!(
            z == x && s.i == 8,
            "8-byte id {} read as {:?} and as {:?}",
            hexs(b),
            x,
            z
        );
        let mut q = [0u8; 8];
        q.copy_from_slice(b);
        let w = U160::from(u64::from_be_bytes(q));
        ensure!(w == x, "8-byte id {} converted to {:?}, read as {:?}", hexs(b), w, x);
    }
    // truncated
    if n > 0 {
        let k = c.r.usize(0, n - 1);
        let mut s = Src::new(&b[..k], &m);
        ensure!(
            qu::var_u160_from_stream(&mut s, n as u8).is_err(),
            "a {}-byte id was read from {} bytes",
            n,
            k
        );
        let k = c.r.usize(0, 19);
        let mut s = Src::new(&full[..k], &m);
        ensure!(
            U160::from_datagram(&mut s).is_err(),
            "a 20-byte id was read from {} bytes",
            k
        );
        let k = c.r.usize(0, 7);
        let mut s = Src::new(&full[..k], &m);
        ensure!(
            qu::fixed_len_dcid_from_stream(&mut s).is_err(),
            "an 8-byte id was read from {} bytes",
            k
        );
    }
    c.o.count(&format!("id of {} bytes", n));
    Ok(x)
}

fn ints(c: &mut Ctx) -> Case {
    let long = !cfg!(miri) && c.r.chance(1, 4000);
    let n = if long { c.r.usize(24, 140_000) } else { c.r.usize(0, 24) };
    let b = c.r.texture(n);
    macro_rules! t {
        ($t:ty, $w:expr) => {{
            c.o.eval();
            c.o.distinct(&[stringify!($t).as_bytes(), &b]);
            let want = if b.len() < $w {
                None
            } else {
                let mut v = 0u128;
                for x in &b[..$w] {
                    v = v * 256 + *x as u128;
                }
                Some((v, $w as usize))
            };
            let m = Meter::linear(64 + b.len());
            let mut s = Src::new(&b, &m);
            let a = <$t>::from_datagram(&mut s).ok().map(|v| (v as u128, s.i));
            ensure!(
                a == want,
                "{} read from stream {} as {:?} instead of {:?}",
                stringify!($t),
                hexs(&b),
                a,
                want
            );
            let d = <$t>::decode_from_bytes(&b).ok().map(|(v, n)| (v as u128, n));
            ensure!(
                d == want,
                "{} read from slice {} as {:?} instead of {:?}",
                stringify!($t),
                hexs(&b),
                d,
                want
            );
            c.o.count(if want.is_some() { "integer read" } else { "truncated integer refused" });
        }};
    }
    t!(u8, 1);
    t!(u16, 2);
    t!(u32, 4);
    t!(u64, 8);
    t!(u128, 16);
    // byte strings and short integers
    let m = Meter::linear(64 + b.len());
    let k = c.r.usize(0, 4);
    let mut s = Src::new(&b, &m);
    let got = qu::var_u32_from_stream(&mut s, k).ok().map(|v| (v, s.i));
    let want = if b.len() < k {
        None
    } else {
        Some((b[..k].iter().fold(0u32, |a, x| a.wrapping_mul(256) + *x as u32), k))
    };
    c.o.eval();
    ensure!(got == want, "{}-byte integer read from {} as {:?} instead of {:?}", k, hexs(&b), got, want);
    let k = if long { c.r.usize(0, n + 2) } else { c.r.usize(0, 26) };
    let want = if b.len() < k { None } else { Some((b[..k].to_vec(), k)) };
    let mut s = Src::new(&b, &m);
    let got = qu::var_bytes_from_stream(&mut s, k).ok().map(|v| (v, s.i));
    ensure!(got == want, "{} bytes read from {} as {:?}", k, hexs(&b), got);
    let got = qu::decode_bytes(&b, k).ok();
    ensure!(got == want, "{} bytes read from slice {} as {:?}", k, hexs(&b), got);
    let mut s = Src::new(&b, &m);
    let got = qu::all_bytes_from_stream(&mut s).ok();
    ensure!(got.as_ref() == Some(&b), "all bytes of {} read as {:?}", hexs(&b), got);
    c.o.eval();
    Ok(())
}

pub fn c21(c: &mut Ctx) -> Case {
    // a population of ids of one length, close to each other
    let n = (c.idx % 21) as usize;
    let mut ids: Vec<Vec<u8>> = vec![];
    let base = c.r.texture(n);
    ids.push(base.clone());
    for i in 0..n {
        let mut x = base.clone();
        x[i] ^= 1 << c.r.below(8);
        ids.push(x);
    }
    for _ in 0..6 {
        ids.push(c.r.texture(n));
    }
    // rotations and swaps of 4-byte groups
    if n >= 8 {
        let mut x = base.clone();
        x.rotate_left(4);
        ids.push(x);
        let mut x = base.clone();
        x.swap(0, n - 1);
        ids.push(x);
    }
    ids.sort();
    ids.dedup();
    let mut map: HashMap<U160, Vec<u8>> = HashMap::new();
    let mut xs = vec![];
    for b in &ids {
        let x = judge_id(c, b)?;
        if let Some(other) = map.insert(x, b.clone()) {
            return Err(format!(
                "ids {} and {} share a lookup key",
                hexs(&other),
                hexs(b)
            ));
        }
        xs.push(x);
    }
    for (b, x) in ids.iter().zip(&xs) {
        ensure!(
            map.get(x) == Some(b),
            "looking up id {} found {:?}",
            hexs(b),
            map.get(x)
        );
        for (b2, y) in ids.iter().zip(&xs) {
            ensure!(
                (x == y) == (b == b2),
                "ids {} and {} compare wrongly",
                hexs(b),
                hexs(b2)
            );
        }
    }
    // the empty and zero ids are distinct from all non-zero ones
    let z = U160::zero();
    for (b, x) in ids.iter().zip(&xs) {
        ensure!(
            (*x == z) == b.iter().all(|v| *v == 0),
            "id {} compares wrongly with zero",
            hexs(b)
        );
    }
    c.o.sample(|| ids.iter().map(|x| hexs(x)).collect::<Vec<_>>().join(" "));
    ints(c)
}
