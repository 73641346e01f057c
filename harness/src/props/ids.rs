//! C23 the ids a socket issues cannot be predicted or linked
use super::sockets::{bind, client_initial, sender};
use crate::glue::*;
use crate::obs::Case;
use crate::rng::Rng;
use crate::wire::hexs;
use crate::{ensure, Ctx};
use quic_sea::verif::interface as qi;
use quic_sea::verif::routing::MonitoredSocket;
use std::collections::HashSet;
use std::net::{SocketAddr, UdpSocket};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Door {
    s: MonitoredSocket,
    _u: UdpSocket,
    tx: UdpSocket,
    addr: SocketAddr,
}

impl Door {
    fn open(r: &mut Rng) -> Result<Self, String> {
        let (s, u, addr) = bind(r, false)?;
        let (tx, _) = sender(r, addr)?;
        Ok(Self { s, _u: u, tx, addr })
    }
    /// accepts a connection for a client that chose the given id
    fn accept(&self, d: &[u8]) -> Result<u64, String> {
        let before: HashSet<_> = self.s.live_ids().into_iter().collect();
        self.tx.send_to(d, self.addr).map_err(|e| format!("INCONCLUSIVE send: {}", e))?;
        let r = catch_unwind(AssertUnwindSafe(|| self.s.accept()));
        match r {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => return Err(format!("INCONCLUSIVE accept: {}", e)),
            // the handshake that should follow is documented as not implemented
            Err(_) if crate::last_panic().contains("not yet implemented") => {}
            // (C15 and C16 judge what else may happen)
            Err(_) => return Err(format!("INCONCLUSIVE accept ended with a {}", crate::last_panic())),
        }
        let fresh: Vec<_> = self.s.live_ids().into_iter().filter(|x| !before.contains(x)).collect();
        if fresh.len() != 1 {
            return Err(format!("INCONCLUSIVE accepting registered {} ids", fresh.len()));
        }
        let b = id_bytes(&fresh[0], 8).map_err(|x| format!("INCONCLUSIVE {}", x))?;
        Ok(u64::from_be_bytes(b[..].try_into().unwrap()))
    }
    fn leave(&self, id: u64) {
        drop(qi::stream_handle(&self.s, self::id(&id.to_be_bytes())));
    }
}

/// prints the ids that a socket in this process issues
pub fn print(n: u64, stream: u64) {
    crate::install_panic_hook();
    if stream != 0 {
        crate::rand::stream(stream);
    }
    let mut r = Rng::new(n, 23, 0);
    let run = || -> Result<(), String> {
        let door = Door::open(&mut r)?;
        let d = client_initial(&mut r, &[7; 8], 60, 0);
        for _ in 0..n {
            let x = door.accept(&d)?;
            println!("id {:016x}", x);
            door.leave(x);
        }
        println!("drawn {}", crate::rand::drawn());
        Ok(())
    };
    if let Err(e) = { let mut run = run; run() } {
        println!("{}", e);
    }
}

/// the ids, and how many random bytes were drawn for them
fn of_another_process(n: u64, stream: u64) -> Result<(Vec<u64>, u64), String> {
    let exe = std::env::current_exe().map_err(|e| format!("INCONCLUSIVE {}", e))?;
    let out = std::process::Command::new(exe)
        .args(["ids", &n.to_string(), &stream.to_string()])
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| format!("INCONCLUSIVE {}", e))?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let ids: Vec<u64> = text
        .lines()
        .filter_map(|l| u64::from_str_radix(l.strip_prefix("id ")?, 16).ok())
        .collect();
    let drawn = text.lines().find_map(|l| l.strip_prefix("drawn ")?.parse().ok());
    match drawn {
        Some(k) if ids.len() as u64 == n => Ok((ids, k)),
        _ => Err("INCONCLUSIVE the other process issued too few ids".into()),
    }
}

/// how many standard deviations a count of ones is off the middle; 8.5 are out of reach of chance
/// (probability below 1e-15 for each of the comparisons)
fn off(ones: usize, n: usize) -> f64 {
    (2.0 * ones as f64 - n as f64).abs() / (n as f64).sqrt()
}
const FAR: f64 = 8.5;

fn balanced(words: &[u64], what: &str) -> Case {
    for bit in 0..64 {
        let ones = words.iter().filter(|w| *w >> bit & 1 == 1).count();
        ensure!(
            off(ones, words.len()) < FAR,
            "bit {} of {} is set in {} of {} ids ({:016x}, {:016x}, {:016x} ...)",
            bit,
            what,
            ones,
            words.len(),
            words[0],
            words[1],
            words[2]
        );
    }
    Ok(())
}

/// whether a bit of the ids is a linear function (over GF(2)) of the given observations: learnt
/// from the first ones, tried on the rest
fn linear(seen: &[([u64; 3], u64)]) -> Option<(u32, usize)> {
    let mut basis: Vec<Option<([u64; 3], u64)>> = vec![None; 192];
    let mut open = u64::MAX;
    let mut tried = 0;
    for (x, y) in seen {
        let (mut x, mut y) = (*x, *y);
        let mut placed = false;
        for col in 0..192 {
            if x[col / 64] >> (col % 64) & 1 == 0 {
                continue;
            }
            match &basis[col] {
                Some((bx, by)) => {
                    for k in 0..3 {
                        x[k] ^= bx[k];
                    }
                    y ^= by;
                }
                None => {
                    basis[col] = Some((x, y));
                    placed = true;
                    break;
                }
            }
        }
        if !placed {
            // determined by what was seen before: every bit of y that is not zero was mispredicted
            open &= !y;
            tried += 1;
        }
    }
    (tried >= 100 && open != 0).then(|| (open.trailing_zeros(), tried))
}

/// a relation between the bits of every id: fewer than 64 dimensions (one constant included)
fn dependent(ids: &[u64]) -> Option<usize> {
    let mut basis = [0u128; 65];
    let mut rank = 0;
    for x in ids {
        let mut x = (*x as u128) << 1 | 1;
        for col in (0..65).rev() {
            if x >> col & 1 == 0 {
                continue;
            }
            if basis[col] == 0 {
                basis[col] = x;
                rank += 1;
                break;
            }
            x ^= basis[col];
        }
    }
    (rank < 65).then_some(rank)
}

/// the inverse of an odd number
fn inverse(a: u64) -> u64 {
    let mut x = a;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

fn unshift(x: u64, k: u32) -> u64 {
    let mut y = x;
    let mut s = k;
    while s < 64 {
        y = x ^ (y >> k);
        s += k;
    }
    y
}

/// what usual generators were in before they put out a value
fn generators(x: u64) -> [(&'static str, u64); 4] {
    let split = |x: u64, a, m: u64, b, k: u64, c| {
        unshift(unshift(unshift(x, c).wrapping_mul(inverse(k)), b).wrapping_mul(inverse(m)), a)
    };
    [
        ("splitmix64", split(x, 30, 0xbf58476d1ce4e5b9, 27, 0x94d049bb133111eb, 31)),
        ("murmur3", split(x, 33, 0xff51afd7ed558ccd, 33, 0xc4ceb9fe1a85ec53, 33)),
        ("multiplicative", x.wrapping_mul(inverse(0x9e3779b97f4a7c15))),
        ("xorshift64*", x.wrapping_mul(inverse(0x2545f4914f6cdd1d))),
    ]
}

pub fn c23(c: &mut Ctx) -> Case {
    if c.idx % 16 == 9 {
        // a restart must not bring back what was issued before
        let n = c.r.range(2, 12);
        let (a, b) = (of_another_process(n, 0)?.0, of_another_process(n, 0)?.0);
        let door = Door::open(&mut c.r)?;
        let d = client_initial(&mut c.r, &[7; 8], 60, 0);
        let mut here = vec![];
        for _ in 0..n {
            let x = door.accept(&d)?;
            here.push(x);
            door.leave(x);
        }
        for (p, q) in [(&a, &b), (&a, &here), (&b, &here)] {
            for x in p.iter() {
                c.o.eval();
                ensure!(
                    !q.contains(x),
                    "two processes issue the same ids: {:016x?} and {:016x?}",
                    p,
                    q
                );
            }
        }
        // whether the ids follow from fewer random bytes than they consist of: the same bytes are
        // drawn by two processes, which then issue the same ids
        let n = c.r.range(200, 500);
        let t = c.r.u64() | 1;
        let (a, drawn) = of_another_process(n, t)?;
        let (b, _) = of_another_process(n, t)?;
        c.o.eval();
        ensure!(
            a != b || drawn >= 8 * n,
            "{} ids follow from {} random bytes: {:016x}, {:016x}, {:016x} ...",
            n,
            drawn,
            a[0],
            a[1],
            a[2]
        );
        if a == b {
            c.o.count("ids traced to the random bytes they follow from");
        }
        c.o.count("ids of several processes compared");
        c.o.distinct(&[b"processes", &a[0].to_le_bytes()]);
        return Ok(());
    }
    // one in a hundred is long: enough for every value of a byte to occur
    let long = c.idx % 100 == 3;
    // one or two sockets, clients that choose random ids or always the same
    let n = if long { 6000 } else { c.r.usize(420, 900) };
    let same_client = c.r.chance(1, 4);
    let doors = [Door::open(&mut c.r)?, Door::open(&mut c.r)?];
    // clashes: the first draws give an id in use, so that accepting has to try again
    let clash = c.r.chance(1, 4);
    let two = !clash && c.r.chance(1, 3);
    let stay = !long && !clash && c.r.chance(1, 4);
    let fixed = c.r.bytes(8);
    let mut ids: Vec<u64> = vec![];
    let mut clients: Vec<u64> = vec![];
    let mut all = HashSet::new();
    let mut parked: Vec<u64> = vec![];
    let mut hits: Vec<u64> = vec![];
    if clash {
        for _ in 0..c.r.range(1, 4) {
            let d = client_initial(&mut c.r, &fixed, 60, 0);
            parked.push(doors[0].accept(&d)?);
        }
        all.extend(parked.iter().copied());
    }
    for k in 0..n {
        let dc = if same_client { fixed.clone() } else { c.r.bytes(8) };
        let door = &doors[if two { k % 2 } else { 0 }];
        let d = client_initial(&mut c.r, &dc, 60, k as u64);
        if clash {
            let hit = *c.r.pick(&parked);
            crate::rand::script(vec![hit.to_be_bytes(); c.r.usize(1, 2)]);
            hits.push(hit);
        }
        let x = door.accept(&d);
        crate::rand::unscript();
        let x = x?;
        c.o.eval();
        ensure!(
            all.insert(x),
            "id {:016x}, the {}th, was issued before ({} sockets, clients of {} id)",
            x,
            k,
            1 + two as u8,
            if same_client { "one" } else { "any" }
        );
        ids.push(x);
        clients.push(u64::from_be_bytes(dc[..].try_into().unwrap()));
        if !stay {
            door.leave(x);
        }
    }
    balanced(&ids, "the ids")?;
    if clash {
        let x: Vec<u64> = ids.iter().zip(&hits).map(|(i, h)| i ^ h).collect();
        balanced(&x, "ids xor the ones in use that were drawn before them")?;
        let x: Vec<u64> = ids.iter().zip(&hits).map(|(i, h)| i.wrapping_sub(*h)).collect();
        balanced(&x, "ids minus the ones in use that were drawn before them")?;
        let seen: Vec<([u64; 3], u64)> = (0..n).map(|k| ([hits[k], clients[k], 1 | (k as u64) << 1], ids[k])).collect();
        ensure!(
            linear(&seen).is_none(),
            "an id follows from the one in use that was drawn before it ({:016x} after {:016x})",
            ids[0],
            hits[0]
        );
        c.o.count("sequence of ids, each issued after one in use was drawn");
    }
    for lag in 1..4 {
        let x: Vec<u64> = ids.windows(lag + 1).map(|w| w[0] ^ w[lag]).collect();
        balanced(&x, &format!("ids xor those {} earlier", lag))?;
        let x: Vec<u64> = ids.windows(lag + 1).map(|w| w[lag].wrapping_sub(w[0])).collect();
        balanced(&x, &format!("ids minus those {} earlier", lag))?;
    }
    for rot in 1..64 {
        let x: Vec<u64> = ids.iter().map(|i| i ^ i.rotate_left(rot)).collect();
        balanced(&x, &format!("ids xor themselves rotated by {}", rot))?;
    }
    if !same_client {
        for rot in [0, 8, 16, 24, 32, 40, 48, 56] {
            let x: Vec<u64> = ids.iter().zip(&clients).map(|(i, k)| i ^ k.rotate_left(rot)).collect();
            balanced(&x, &format!("ids xor the client's (rotated by {})", rot))?;
        }
        let x: Vec<u64> = ids.iter().zip(&clients).map(|(i, k)| i ^ k.swap_bytes()).collect();
        balanced(&x, "ids xor the client's (reversed)")?;
    }
    if let Some(rank) = dependent(&ids) {
        return Err(format!(
            "the bits of an id depend on each other: {} ids have only {} dimensions ({:016x}, {:016x}, {:016x} ...)",
            n,
            rank.max(1) - 1,
            ids[0],
            ids[1],
            ids[2]
        ));
    }
    for k in 0..4 {
        let state: Vec<u64> = ids.iter().map(|x| generators(*x)[k].1).collect();
        let d = state[1].wrapping_sub(state[0]);
        let steps = state.windows(2).filter(|w| w[1].wrapping_sub(w[0]) == d).count();
        let bits: Vec<_> = state.windows(2).map(|w| ([w[0], 0, 1], w[1])).collect();
        ensure!(
            steps < 5 && linear(&bits).is_none(),
            "the ids are those of a {} generator ({:016x}, {:016x}, {:016x} ...)",
            generators(0)[k].0,
            ids[0],
            ids[1],
            ids[2]
        );
    }
    if long {
        let mut seen = [0usize; 256];
        for b in ids.iter().flat_map(|x| x.to_be_bytes()) {
            seen[b as usize] += 1;
        }
        let mean = ids.len() as f64 * 8.0 / 256.0;
        for (b, k) in seen.iter().enumerate() {
            c.o.eval();
            ensure!(
                (*k as f64 - mean).abs() < 9.5 * mean.sqrt(),
                "byte {:02x} occurs {} times in {} ids, not about {}",
                b,
                k,
                n,
                mean as u64
            );
        }
        c.o.count("long sequence");
    }
    // congruential generators: the ratio of successive differences is constant
    let e: Vec<u64> = ids.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
    ensure!(
        !e.windows(3).all(|w| w[0].wrapping_mul(w[2]) == w[1].wrapping_mul(w[1])),
        "the ids are a congruential sequence: {:016x?}",
        &ids[..4]
    );
    let seen: Vec<([u64; 3], u64)> = (1..n)
        .map(|k| ([ids[k - 1], clients[k], 1 | (k as u64) << 1 | (clients[k - 1] & 0xffff_ffff) << 20], ids[k]))
        .collect();
    c.o.eval();
    if let Some((bit, tried)) = linear(&seen) {
        return Err(format!(
            "bit {} of an id follows from the previous id, the client's and the count: predicted {} times in a row ({:016x}, {:016x}, {:016x} ...)",
            bit, tried, ids[0], ids[1], ids[2]
        ));
    }
    c.o.count(if same_client { "sequence of ids for one client" } else { "sequence of ids for many clients" });
    c.o.max("ids in one sequence", n as u64);
    c.o.distinct(&[b"sequence", &ids[0].to_le_bytes()]);
    c.o.sample(|| format!("{} ids: {} {} ...", n, hexs(&ids[0].to_be_bytes()), hexs(&ids[1].to_be_bytes())));
    Ok(())
}
