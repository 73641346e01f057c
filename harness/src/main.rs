//! qmon: runs the real quic-sea code under generated workloads while monitors watch it.
//!
//!   qmon check <ID> <quick|thorough> <seed>     all shards, evidence, verdict (exit 0/1/2)
//!   qmon one   <ID> <quick|thorough> <seed> <case>   one case again, verbosely (exit 0/1)
//!   qmon worker ...                             internal
mod alloc;
mod crypto;
mod gen;
mod glue;
mod obs;
mod parent;
mod props;
mod rand;
mod rng;
mod wire;

use obs::{Case, Obs};
use rng::Rng;
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Ctx<'a> {
    pub r: Rng,
    pub idx: u64,
    pub o: &'a mut Obs,
    pub thorough: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// a permutation within blocks of 64, so that the kinds of cases (told apart by their number's
/// remainder) are spread evenly over the workers
fn spread(i: u64) -> u64 {
    let (block, x) = (i / 64, i % 64);
    block * 64 + 8 * ((x % 8 + block) % 8) + x / 8
}

/// runs one case; any panic that escapes it is an outcome no property allows
pub fn run_case(p: &props::Prop, seed: u64, idx: u64, thorough: bool, o: &mut Obs) -> Case {
    o.cases += 1;
    let mut ctx = Ctx {
        r: Rng::new(seed, props::stream_of(p.id), idx),
        idx: spread(idx),
        o,
        thorough,
    };
    let f = p.run;
    match catch_unwind(AssertUnwindSafe(|| f(&mut ctx))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

/// a verdict that rests on something not arriving in time counts only if it comes up again
pub fn run_confirmed(p: &props::Prop, seed: u64, idx: u64, thorough: bool, o: &mut Obs) -> Case {
    let mut r = run_case(p, seed, idx, thorough, o);
    for _ in 0..2 {
        match &r {
            Err(e) if e.starts_with("LATE ") => {}
            _ => return r,
        }
        let mut scrap = Obs::new();
        match run_case(p, seed, idx, thorough, &mut scrap) {
            Ok(()) => return Err("INCONCLUSIVE a late datagram".into()),
            again => r = again,
        }
    }
    r
}

fn arg(a: &[String], i: usize) -> &str {
    a.get(i).map(|s| s.as_str()).unwrap_or("")
}

fn num(a: &[String], i: usize) -> u64 {
    arg(a, i).parse().unwrap_or_else(|_| {
        eprintln!("bad number {:?}", arg(a, i));
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match arg(&a, 1) {
        "list" => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        "check" => {
            let p = find(arg(&a, 2));
            std::process::exit(parent::check(p, arg(&a, 3) == "thorough", num(&a, 4)));
        }
        "one" => {
            let p = find(arg(&a, 2));
            install_panic_hook();
            let mut o = Obs::new();
            o.verbose = std::env::var("QMON_QUIET").is_err();
            match run_confirmed(p, num(&a, 4), num(&a, 5), arg(&a, 3) == "thorough", &mut o) {
                Ok(()) => println!("case {} of {}: held", arg(&a, 5), p.id),
                Err(e) => {
                    println!("case {} of {}: {}", arg(&a, 5), p.id, e);
                    std::process::exit(if e.starts_with("INCONCLUSIVE") { 2 } else { 1 });
                }
            }
        }
        "worker" => worker(&a),
        "ids" => props::ids::print(num(&a, 2), num(&a, 3)),
        "interpret" => interpret(num(&a, 2), num(&a, 3), num(&a, 4), num(&a, 5)),
        _ => {
            eprintln!("usage: qmon check|one|list ...");
            std::process::exit(2);
        }
    }
}

fn find(id: &str) -> &'static props::Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {:?}", id);
        std::process::exit(2)
    })
}

/// interpret seed first step cases: the part of the workloads that needs no foreign code, for an
/// undefined-behaviour interpreter; its verdicts are the other checks' business
fn interpret(seed: u64, first: u64, step: u64, cases: u64) {
    install_panic_hook();
    let mut o = Obs::new();
    let mut idx = first;
    let t0 = std::time::Instant::now();
    let cap_ms: u128 = std::env::var("QMON_CAP_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX);
    while idx < cases && t0.elapsed().as_millis() < cap_ms {
        println!("interpreting {}", idx);
        let what = props::robust::interpreted(seed, idx, &mut o);
        o.count(what);
        o.cases += 1;
        idx += step;
    }
    println!("interpreted cases {} evaluations {}", o.cases, o.evals);
    for (k, v) in &o.counts {
        if k.starts_with("interpreted") {
            println!("{} {}", v, k);
        }
    }
}

/// worker ID tier seed first step cases cap_ms dir
fn worker(a: &[String]) {
    let p = find(arg(a, 2));
    let thorough = arg(a, 3) == "thorough";
    let (seed, first, step, cases, cap_ms) =
        (num(a, 4), num(a, 5), num(a, 6), num(a, 7), num(a, 8));
    let dir = arg(a, 9).to_string();
    let tag = arg(a, 10).to_string();
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    install_panic_hook();
    let prog = parent::Progress::map(&format!("{}/{}.progress", dir, tag), true).unwrap();
    // the library prints while it works
    unsafe {
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(n, 1);
        if std::env::var("QMON_STDERR").is_err() {
            libc::dup2(n, 2);
        }
    }
    let t0 = std::time::Instant::now();
    let mut o = Obs::new();
    let mut verdict = "ok".to_string();
    let mut message = String::new();
    let mut idx = first;
    while idx < cases {
        prog.set(idx);
        match run_confirmed(p, seed, idx, thorough, &mut o) {
            Ok(()) => {}
            Err(e) if e.starts_with("INCONCLUSIVE") => {
                o.inconclusive += 1;
                let k = format!("inconclusive: {}", &e[13..].trim());
                o.count(&k);
            }
            Err(e) => {
                verdict = format!("violation {}", idx);
                message = e;
                break;
            }
        }
        if t0.elapsed().as_millis() as u64 > cap_ms {
            verdict = "capped".into();
            break;
        }
        idx += step;
    }
    let mut f = std::io::BufWriter::new(
        std::fs::File::create(format!("{}/{}.result", dir, tag)).unwrap(),
    );
    let one = |s: &str| s.replace('\n', " ");
    writeln!(f, "verdict {}", verdict).unwrap();
    writeln!(f, "message {}", one(&message)).unwrap();
    writeln!(f, "cases {}", o.cases).unwrap();
    writeln!(f, "evals {}", o.evals).unwrap();
    writeln!(f, "inconclusive {}", o.inconclusive).unwrap();
    for (k, v) in &o.counts {
        writeln!(f, "count {} {}", v, one(k)).unwrap();
    }
    for (k, v) in &o.maxima {
        writeln!(f, "max {} {}", v, one(k)).unwrap();
    }
    for s in &o.samples {
        writeln!(f, "sample {}", one(s)).unwrap();
    }
    writeln!(f, "end").unwrap();
    f.flush().unwrap();
    let mut d = std::io::BufWriter::new(
        std::fs::File::create(format!("{}/{}.digests", dir, tag)).unwrap(),
    );
    for h in &o.distinct {
        d.write_all(&h.to_le_bytes()).unwrap();
    }
    d.flush().unwrap();
    unsafe { libc::_exit(0) }
}
