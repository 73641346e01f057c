//! The driver: shards a property's cases over worker processes, notices crashes and hangs,
//! confirms them, merges what the workers observed and writes evidence and verdict.
use crate::props::Prop;
use std::collections::{BTreeMap, HashSet};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// case counter shared with a worker through a mapped file: survives the worker's death
pub struct Progress {
    p: *mut u64,
}

impl Progress {
    pub fn map(path: &str, create: bool) -> std::io::Result<Progress> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .open(path)?;
        if create {
            f.set_len(16)?;
        }
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Progress { p: p as *mut u64 })
    }
    pub fn set(&self, idx: u64) {
        unsafe {
            std::ptr::write_volatile(self.p, idx);
            let n = std::ptr::read_volatile(self.p.add(1));
            std::ptr::write_volatile(self.p.add(1), n + 1);
        }
    }
    pub fn get(&self) -> (u64, u64) {
        unsafe {
            (
                std::ptr::read_volatile(self.p),
                std::ptr::read_volatile(self.p.add(1)),
            )
        }
    }
}

struct Merged {
    cases: u64,
    evals: u64,
    inconclusive: u64,
    counts: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<String>,
    digests: HashSet<u64>,
    capped: bool,
}

impl Merged {
    fn read(&mut self, dir: &str, tag: &str) -> Option<(String, String)> {
        let t = std::fs::read_to_string(format!("{}/{}.result", dir, tag)).ok()?;
        let mut verdict = String::new();
        let mut message = String::new();
        let mut ended = false;
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "verdict" => verdict = v.into(),
                "message" => message = v.into(),
                "cases" => self.cases += v.parse::<u64>().unwrap_or(0),
                "evals" => self.evals += v.parse::<u64>().unwrap_or(0),
                "inconclusive" => self.inconclusive += v.parse::<u64>().unwrap_or(0),
                "count" | "max" => {
                    let (n, name) = v.split_once(' ')?;
                    let n: u64 = n.parse().ok()?;
                    if k == "count" {
                        *self.counts.entry(name.into()).or_insert(0) += n;
                    } else {
                        let e = self.maxima.entry(name.into()).or_insert(0);
                        *e = (*e).max(n);
                    }
                }
                "sample" => {
                    if self.samples.len() < 6 {
                        self.samples.push(v.into())
                    }
                }
                "end" => ended = true,
                _ => {}
            }
        }
        if !ended {
            return None;
        }
        if verdict == "capped" {
            self.capped = true;
        }
        if let Ok(d) = std::fs::read(format!("{}/{}.digests", dir, tag)) {
            for c in d.chunks_exact(8) {
                let mut b = [0u8; 8];
                b.copy_from_slice(c);
                self.digests.insert(u64::from_le_bytes(b));
            }
        }
        Some((verdict, message))
    }
}

struct Worker {
    child: Child,
    tag: String,
    prog: Progress,
    last: u64,
    since: Instant,
    shard: u64,
    started: Instant,
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

fn spawn(
    p: &Prop,
    tier: &str,
    seed: u64,
    shard: u64,
    first: u64,
    step: u64,
    cases: u64,
    cap: u64,
    dir: &str,
    tag: String,
) -> Worker {
    let prog = Progress::map(&format!("{}/{}.progress", dir, tag), true).unwrap();
    let child = Command::new(exe())
        .args(["worker", p.id, tier])
        .args([seed, first, step, cases, cap].map(|x| x.to_string()))
        .arg(dir)
        .arg(&tag)
        .stdin(Stdio::null())
        .spawn()
        .unwrap();
    Worker {
        child,
        tag,
        prog,
        last: 0,
        since: Instant::now(),
        shard,
        started: Instant::now(),
    }
}

const SANITIZER: &str = "AddressSanitizer report";

enum One {
    Held,
    Violated(String),
    Unclear(String),
}

/// runs a single case in a process of its own
fn rerun(p: &Prop, tier: &str, seed: u64, idx: u64, limit: Duration) -> One {
    let mut c = match Command::new(exe())
        .args(["one", p.id, tier, &seed.to_string(), &idx.to_string()])
        .env("QMON_QUIET", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return One::Unclear(format!("cannot start: {}", e)),
    };
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => return classify(st).map_or(One::Held, |m| m),
            Ok(None) => {}
            Err(e) => return One::Unclear(e.to_string()),
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return One::Violated(format!(
                "case does not finish within {} s (run twice)",
                limit.as_secs()
            ));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// runs a shard's cases up to one again
fn rerun_prefix(p: &Prop, tier: &str, seed: u64, shard: u64, n: u64, idx: u64, dir: &str) -> One {
    let mut w = spawn(p, tier, seed, shard, shard, n, idx + 1, 100_000, dir, format!("p{}", shard));
    let t0 = Instant::now();
    loop {
        match w.child.try_wait() {
            Ok(Some(st)) => return classify(st).unwrap_or(One::Held),
            Ok(None) => {}
            Err(e) => return One::Unclear(e.to_string()),
        }
        if t0.elapsed() > Duration::from_secs(200) {
            let at = w.prog.get().0;
            let _ = w.child.kill();
            let _ = w.child.wait();
            return if at == idx {
                One::Violated("stuck again".into())
            } else {
                One::Unclear("too long".into())
            };
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn classify(st: std::process::ExitStatus) -> Option<One> {
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = st.signal() {
        return Some(match s {
            libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP => {
                One::Unclear(format!("ended by signal {}", s))
            }
            _ => One::Violated(format!("process died of signal {} (crash)", s)),
        });
    }
    match st.code() {
        Some(0) => None,
        Some(1) => Some(One::Violated("see replay".into())),
        Some(42) => Some(One::Violated(
            "more than 1 GiB requested from the allocator at once".into(),
        )),
        Some(2) => Some(One::Unclear("inconclusive".into())),
        Some(99) => Some(One::Violated(SANITIZER.into())),
        c => Some(One::Unclear(format!("exit code {:?}", c))),
    }
}

/// what the sanitizer wrote about the process that died
fn sanitizer_summary(dir: &str) -> String {
    let mut out = String::new();
    for f in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if f.file_name().to_string_lossy().starts_with("asan.") {
            let t = std::fs::read_to_string(f.path()).unwrap_or_default();
            for l in t.lines() {
                if l.contains("ERROR: ") || l.starts_with("SUMMARY: ") || (l.contains(" in ") && l.contains("quic_sea")) {
                    out.push_str(l.trim());
                    out.push_str("; ");
                }
            }
            if !out.is_empty() {
                break;
            }
        }
    }
    out.chars().take(900).collect()
}

/// the interpreter for undefined behaviour, running beside the sanitized workers
struct Interpreters {
    running: Vec<(Child, u64, String)>,
    n: u64,
    cases: u64,
    done: u64,
    evals: u64,
    counts: BTreeMap<String, u64>,
    notes: Vec<String>,
}

impl Interpreters {
    fn start(thorough: bool, seed: u64, cores: u64, dir: &str) -> Option<Interpreters> {
        let target = std::env::var("QMON_MIRI").ok()?;
        let n = (cores - 1).clamp(1, 7) | 1;
        let cases: u64 = if thorough { 4000 } else { 175 };
        let mut i = Interpreters {
            running: vec![],
            n,
            cases,
            done: 0,
            evals: 0,
            counts: BTreeMap::new(),
            notes: vec![],
        };
        for k in 0..n {
            let log = format!("{}/miri{}", dir, k);
            let f = std::fs::File::create(&log).ok()?;
            let g = f.try_clone().ok()?;
            match Command::new("cargo")
                .args(["+nightly", "miri", "run", "--offline", "--quiet", "--", "interpret"])
                .args([seed, k, n, cases].map(|x| x.to_string()))
                .current_dir(format!("{}/harness", verif_dir()))
                .env("CARGO_TARGET_DIR", &target)
                // (as build.sh does, or everything is built again)
                .env("CARGO_NET_OFFLINE", "true")
                .env("OPENSSL_NO_VENDOR", "1")
                .env("RUSTFLAGS", "--cfg quic_sea_verif")
                .env("MIRIFLAGS", "-Zmiri-disable-isolation")
                .env("QMON_CAP_MS", if thorough { "600000" } else { "90000" })
                .env_remove("ASAN_OPTIONS")
                .stdin(Stdio::null())
                .stdout(f)
                .stderr(g)
                .spawn()
            {
                Ok(c) => i.running.push((c, k, log)),
                Err(e) => i.notes.push(format!("interpreter not started: {}", e)),
            }
        }
        Some(i)
    }
    /// case and message of what it objected to
    fn finish(&mut self, limit: Duration) -> Option<(u64, String)> {
        let t0 = Instant::now();
        let mut bad = None;
        while !self.running.is_empty() && bad.is_none() {
            let mut j = 0;
            while j < self.running.len() {
                let ended = match self.running[j].0.try_wait() {
                    Ok(None) if t0.elapsed() > limit => {
                        kill_group(&mut self.running[j].0);
                        Some(None)
                    }
                    Ok(None) => None,
                    Ok(Some(st)) => Some(st.code()),
                    Err(_) => Some(None),
                };
                let Some(code) = ended else {
                    j += 1;
                    continue;
                };
                let (_, k, log) = self.running.swap_remove(j);
                let t = std::fs::read_to_string(&log).unwrap_or_default();
                let mut at = k;
                for l in t.lines() {
                    if let Some(x) = l.strip_prefix("interpreting ") {
                        at = x.parse().unwrap_or(k);
                        self.done += 1;
                    } else if let Some((x, y)) = l.split_once(" interpreted ") {
                        *self.counts.entry(format!("interpreted {}", y)).or_insert(0) += x.parse().unwrap_or(0);
                    } else if let Some(x) = l.strip_prefix("interpreted cases ") {
                        if let Some((_, e)) = x.split_once(" evaluations ") {
                            self.evals += e.parse::<u64>().unwrap_or(0);
                        }
                    }
                }
                if code != Some(0) {
                    let mut report: Vec<&str> = t
                        .lines()
                        .filter(|l| {
                            l.contains("Undefined Behavior") || l.contains("memory leaked") || l.contains("data race")
                        })
                        .collect();
                    report.truncate(2);
                    if !report.is_empty() && !t.contains("unsupported operation") {
                        let loc: Vec<&str> = t.lines().filter(|l| l.contains("/repo/src")).take(2).collect();
                        bad = Some((at, format!("Miri: {} {}", report.join("; "), loc.join("; "))));
                    } else {
                        let last = t.lines().rev().find(|l| l.contains("error")).unwrap_or("");
                        self.notes.push(format!("interpreter {} ended without a verdict ({:?}) {}", k, code, last));
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(30));
        }
        for (c, _, _) in self.running.iter_mut() {
            kill_group(c);
        }
        bad
    }
}

fn kill_group(c: &mut Child) {
    // cargo passes nothing on to the interpreter it started
    let pid = c.id();
    if let Ok(t) = std::fs::read_to_string(format!("/proc/{}/task/{}/children", pid, pid)) {
        for x in t.split_whitespace() {
            if let Ok(n) = x.parse::<i32>() {
                unsafe {
                    libc::kill(n, libc::SIGKILL);
                }
            }
        }
    }
    let _ = c.kill();
    let _ = c.wait();
}

pub fn verif_dir() -> String {
    std::env::var("QMON_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(p: &'static Prop, thorough: bool, seed: u64) -> i32 {
    let tier = if thorough { "thorough" } else { "quick" };
    let t0 = Instant::now();
    let cases = if thorough { p.thorough } else { p.quick };
    let cap_ms: u64 = std::env::var("QMON_CAP_MS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 700_000 } else { 150_000 });
    let vd = verif_dir();
    let dir = format!("{}/work/{}-{}-{}", vd, p.id, tier, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(format!("{}/evidence", vd)).unwrap();
    std::fs::create_dir_all(format!("{}/replays", vd)).unwrap();
    let cores = std::thread::available_parallelism()
        .map(|n| n.get() as u64)
        .unwrap_or(4);
    let n = p.max_workers.min(cores.clamp(2, 8)).min(cases);
    let mut m = Merged {
        cases: 0,
        evals: 0,
        inconclusive: 0,
        counts: BTreeMap::new(),
        maxima: BTreeMap::new(),
        samples: vec![],
        digests: HashSet::new(),
        capped: false,
    };
    let mut ws: Vec<Worker> = (0..n)
        .map(|k| spawn(p, tier, seed, k, k, n, cases, cap_ms, &dir, format!("w{}", k)))
        .collect();
    let mut miri = if p.id == "C18" { Interpreters::start(thorough, seed, cores, &dir) } else { None };
    let stuck_after = Duration::from_secs(60);
    let mut violation: Option<(u64, String)> = None;
    let mut trouble: Vec<String> = vec![];
    let mut restarts = 0;
    while !ws.is_empty() && violation.is_none() {
        std::thread::sleep(Duration::from_millis(15));
        let mut i = 0;
        while i < ws.len() {
            let w = &mut ws[i];
            let (idx, count) = w.prog.get();
            let mut gone: Option<One> = None;
            let mut done = false;
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    if st.success() {
                        match m.read(&dir, &w.tag) {
                            Some((v, msg)) => {
                                if let Some(k) = v.strip_prefix("violation ") {
                                    violation = Some((k.parse().unwrap_or(0), msg));
                                }
                                done = true;
                            }
                            None => gone = Some(One::Unclear("no result".into())),
                        }
                    } else {
                        gone = classify(st);
                    }
                }
                Ok(None) => {
                    if count != w.last {
                        w.last = count;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > stuck_after {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        gone = Some(One::Violated("stuck".into()));
                    }
                }
                Err(e) => gone = Some(One::Unclear(e.to_string())),
            }
            if let Some(g) = gone {
                // a crash or hang counts only if the case does it again on its own
                let what = match &g {
                    One::Violated(s) | One::Unclear(s) => s.clone(),
                    One::Held => String::new(),
                };
                // (a sanitizer's report needs no second one)
                let mut again = if what == SANITIZER {
                    One::Violated(what.clone())
                } else {
                    rerun(p, tier, seed, idx, stuck_after)
                };
                if let (One::Held, One::Violated(_)) = (&again, &g) {
                    // on its own it does not; after the same cases as before?
                    again = rerun_prefix(p, tier, seed, w.shard, n, idx, &dir);
                }
                match again {
                    One::Violated(s) => {
                        let s = if s == "see replay" || s == what {
                            what
                        } else {
                            format!("{}; again: {}", what, s)
                        };
                        violation = Some((idx, s));
                        done = true;
                    }
                    _ => {
                        trouble.push(format!("worker lost at case {} ({})", idx, what));
                        restarts += 1;
                        if restarts > 12 {
                            done = true;
                        } else {
                            let used = w.started.elapsed().as_millis() as u64;
                            let nw = spawn(
                                p,
                                tier,
                                seed,
                                w.shard,
                                idx + n,
                                n,
                                cases,
                                cap_ms.saturating_sub(used).max(1000),
                                &dir,
                                format!("w{}r{}", w.shard, restarts),
                            );
                            ws[i] = nw;
                            continue;
                        }
                    }
                }
            }
            if done {
                ws.swap_remove(i);
            } else {
                i += 1;
            }
            if violation.is_some() {
                break;
            }
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let mut what_ran = "case";
    if let Some(i) = &mut miri {
        let limit = if violation.is_some() { 0 } else if thorough { 640 } else { 300 };
        if let Some(v) = i.finish(Duration::from_secs(limit)) {
            if violation.is_none() {
                violation = Some(v);
                what_ran = "interpreted";
            }
        }
        trouble.append(&mut i.notes);
        m.evals += i.evals;
        m.counts.append(&mut i.counts);
        m.counts.insert("interpreter processes".into(), i.n);
        m.counts.insert("interpreted steps (of the workload without foreign code)".into(), i.done);
        m.counts.insert("interpreted steps planned".into(), i.cases);
    }
    if let Some((_, msg)) = &mut violation {
        if msg == SANITIZER {
            *msg = format!("{}: {}", msg, sanitizer_summary(&format!("{}/work", vd)));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if m.maxima.is_empty() {
        m.maxima.insert("none".into(), 0);
    }

    let wall = t0.elapsed().as_secs_f64();
    let mut replay = String::new();
    if let Some((idx, msg)) = &violation {
        replay = format!("{}/replays/{}-{}-{}-{}.json", vd, p.id, tier, seed, idx);
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"case\": {},\n \"kind\": \"{}\",\n \"what\": {},\n \"how\": {}\n}}\n",
            js(p.id),
            js(tier),
            seed,
            idx,
            what_ran,
            js(msg),
            js(&format!("cd {} && ./check.sh replay {}", vd, replay)),
        );
        let _ = std::fs::write(&replay, body);
    }
    let counts: Vec<String> = m
        .counts
        .iter()
        .map(|(k, v)| format!("   {}: {}", js(k), v))
        .collect();
    let maxima: Vec<String> = m
        .maxima
        .iter()
        .map(|(k, v)| format!("   {}: {}", js(k), v))
        .collect();
    let samples: Vec<String> = m.samples.iter().map(|s| format!("   {}", js(s))).collect();
    let enough = m.evals >= p.min_evals && m.inconclusive * 5 <= m.cases.max(1);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n{}\n  ],\n  \"cases\": {},\n  \"cases_planned\": {},\n  \"cut_short_by_time\": {},\n  \"inconclusive_cases\": {},\n  \"worker_trouble\": [{}],\n  \"observed\": {{\n{}\n  }},\n  \"maxima\": {{\n{}\n  }}\n }},\n \"verdict\": {},\n \"wall_s\": {:.3}\n}}\n",
        js(p.id),
        js(tier),
        seed,
        js(p.level),
        m.evals,
        m.digests.len(),
        js(p.rule),
        samples.join(",\n"),
        m.cases,
        cases,
        m.capped,
        m.inconclusive,
        trouble.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        counts.join(",\n"),
        maxima.join(",\n"),
        js(if violation.is_some() {
            "violation"
        } else if enough {
            "held"
        } else {
            "too little observed"
        }),
        wall
    );
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", vd, p.id), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{} {} seed={} cases={}/{} evaluations={} distinct={} inconclusive={} wall={:.1}s{}",
        p.id,
        tier,
        seed,
        m.cases,
        cases,
        m.evals,
        m.digests.len(),
        m.inconclusive,
        wall,
        if m.capped { " (time cap)" } else { "" }
    );
    for t in &trouble {
        println!("note: {}", t);
    }
    if let Some((idx, msg)) = violation {
        println!("case {}: {}", idx, msg);
        println!("VIOLATION property={} replay={}", p.id, replay);
        return 1;
    }
    if !enough {
        println!("too little was observed to decide {}", p.id);
        return 2;
    }
    0
}
