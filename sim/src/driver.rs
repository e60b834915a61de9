//! Search, minimisation, replay and evidence. The parent hands seeds to worker processes; each worker
//! forks one child per run from the same pristine state, so a run is a function of its seed (or of its
//! decision list) and of the code only.
use crate::choice::{hash_bytes, mix, Choices, Rng, Source};
use crate::sys;
use crate::world::{run_once, Outcome};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Read;

pub struct Prop {
    pub id: &'static str,
    pub scenario: fn(),
    /// Runs of the quick tier.
    pub runs: u64,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const DEC_MAX: usize = 1 << 21;
/// A run that uses this much processor time is hung.
const CPU_LIMIT_S: u64 = 40;

#[repr(C)]
struct Shared {
    n: u64,
    dec: [u64; DEC_MAX],
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Cmd {
    seed: u64,
    mode: u64, // 0 search, 1 replay, 2 replay with trace, 3 search with trace
    prop: u64,
}

const CMD: usize = std::mem::size_of::<Cmd>();
const WORKERS: usize = 8;

struct Worker {
    cmd: i32,
    res: i32,
    pid: i32,
    shared: *mut Shared,
    prop: u64,
    busy: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Res {
    pub outcome: Outcome,
    pub hash: u64,
    pub sched: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub counters: BTreeMap<String, u64>,
    pub dec: Vec<u64>,
    pub trace: Vec<String>,
    pub sample: Vec<String>,
    pub stderr: String,
}

fn outcome_json(o: &Outcome) -> (String, String) {
    match o {
        Outcome::Finished => ("finished".into(), String::new()),
        Outcome::Violation { class, msg } => (format!("v:{class}"), msg.clone()),
        Outcome::Deadlock(m) => ("v:deadlock".into(), m.clone()),
        Outcome::StepLimit => ("v:no-progress".into(), "the step limit was reached".into()),
        Outcome::Broken(m) => ("broken".into(), m.clone()),
    }
}

fn child(p: &Prop, cmd: Cmd, shared: *const Shared, out: i32) -> ! {
    unsafe {
        let l = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
    }
    let src = if cmd.mode == 0 || cmd.mode == 3 {
        Source::Search(Rng(cmd.seed))
    } else {
        let s = unsafe { &*shared };
        Source::Replay(s.dec[..s.n as usize].to_vec())
    };
    let f = p.scenario;
    let r = run_once(Choices::new(src, cmd.seed), cmd.mode >= 2, Box::new(f));
    let (kind, msg) = outcome_json(&r.outcome);
    let keep = kind != "finished";
    // sparse decisions
    let dec: Vec<Value> = if keep || cmd.mode == 1 || cmd.mode == 2 { r.decisions.iter().enumerate().filter(|(_, v)| **v != 0).map(|(i, v)| json!([i, v])).collect() } else { vec![] };
    let v = json!({
        "k": kind, "m": msg, "h": r.hash, "s": r.sched_hash, "st": r.steps, "sw": r.switches, "ns": r.sim_ns,
        "c": r.counters, "d": dec, "n": r.decisions.len(), "t": r.trace, "sm": r.sample, "e": if keep || cmd.mode == 2 { r.stderr } else { String::new() },
    });
    let b = serde_json::to_vec(&v).unwrap();
    sys::raw_write(out, &(b.len() as u64).to_le_bytes());
    sys::raw_write(out, &b);
    sys::exit_now(0)
}

fn worker(props: &[Prop], cmd_fd: i32, res_fd: i32, shared: *mut Shared) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL, 0, 0, 0);
        loop {
            let mut c = Cmd { seed: 0, mode: 0, prop: 0 };
            let mut got = 0usize;
            while got < CMD {
                let r = sys::sc6(libc::SYS_read, cmd_fd as i64, (&mut c as *mut Cmd as *mut u8).add(got) as i64, (CMD - got) as i64, 0, 0, 0);
                if r <= 0 {
                    sys::exit_now(0);
                }
                got += r as usize;
            }
            let pid = libc::fork();
            if pid == 0 {
                child(&props[c.prop as usize], c, shared, res_fd);
            }
            if pid < 0 {
                sys::raw_write(res_fd, &(u64::MAX).to_le_bytes());
                sys::raw_write(res_fd, &(0u64).to_le_bytes());
                continue;
            }
            let mut st = 0i32;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            // trailer: how the child ended
            sys::raw_write(res_fd, &(u64::MAX).to_le_bytes());
            sys::raw_write(res_fd, &(st as u32 as u64).to_le_bytes());
        }
    }
}

/// Fork the workers before anything else has touched the heap or the address space, so that every worker
/// of every invocation starts from the same layout: code under test that hashes addresses (parking_lot's
/// buckets, for one) then behaves the same wherever and whenever a seed is run.
fn spawn_workers(props: &[Prop]) -> [Worker; WORKERS] {
    unsafe {
        let mut v: [Worker; WORKERS] = std::array::from_fn(|_| Worker { cmd: -1, res: -1, pid: 0, shared: std::ptr::null_mut(), prop: 0, busy: None });
        let mut theirs = [(0i32, 0i32); WORKERS];
        for (w, t) in v.iter_mut().zip(theirs.iter_mut()) {
            let sh = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(sh != libc::MAP_FAILED);
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert_eq!(libc::pipe(a.as_mut_ptr()), 0);
            assert_eq!(libc::pipe(b.as_mut_ptr()), 0);
            (w.cmd, w.res, w.shared) = (a[1], b[0], sh as *mut Shared);
            *t = (a[0], b[1]);
        }
        for i in 0..WORKERS {
            let pid = libc::fork();
            if pid == 0 {
                for j in 0..WORKERS {
                    libc::close(v[j].cmd);
                    libc::close(v[j].res);
                    if i != j {
                        libc::close(theirs[j].0);
                        libc::close(theirs[j].1);
                    }
                }
                libc::clearenv();
                libc::setenv(c"HOME".as_ptr(), c"/sim/home".as_ptr(), 1);
                libc::setenv(c"TZ".as_ptr(), c"UTC".as_ptr(), 1);
                worker(props, theirs[i].0, theirs[i].1, v[i].shared);
            }
            assert!(pid > 0);
            v[i].pid = pid;
        }
        for t in theirs {
            libc::close(t.0);
            libc::close(t.1);
        }
        v
    }
}

fn read_n(fd: i32, n: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; n];
    let mut got = 0;
    while got < n {
        let r = unsafe { sys::sc6(libc::SYS_read, fd as i64, v.as_mut_ptr().add(got) as i64, (n - got) as i64, 0, 0, 0) };
        if r <= 0 {
            return None;
        }
        got += r as usize;
    }
    Some(v)
}
fn read_u64(fd: i32) -> Option<u64> {
    read_n(fd, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
}

fn parse(v: Value) -> Res {
    let k = v["k"].as_str().unwrap_or("").to_string();
    let m = v["m"].as_str().unwrap_or("").to_string();
    let outcome = if k == "finished" {
        Outcome::Finished
    } else if let Some(c) = k.strip_prefix("v:") {
        Outcome::Violation { class: c.into(), msg: m }
    } else {
        Outcome::Broken(m)
    };
    let mut dec = Vec::new();
    if let Some(a) = v["d"].as_array() {
        if !a.is_empty() {
            dec = vec![0; v["n"].as_u64().unwrap_or(0) as usize];
            for x in a {
                dec[x[0].as_u64().unwrap() as usize] = x[1].as_u64().unwrap();
            }
        }
    }
    let strs = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
    Res {
        outcome,
        hash: v["h"].as_u64().unwrap_or(0),
        sched: v["s"].as_u64().unwrap_or(0),
        steps: v["st"].as_u64().unwrap_or(0),
        switches: v["sw"].as_u64().unwrap_or(0),
        sim_ns: v["ns"].as_u64().unwrap_or(0),
        counters: v["c"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect()).unwrap_or_default(),
        dec,
        trace: strs(&v["t"]),
        sample: strs(&v["sm"]),
        stderr: v["e"].as_str().unwrap_or("").to_string(),
    }
}

impl Worker {
    fn start(&mut self, seed: u64, mode: u64, dec: &[u64], tag: u64) {
        unsafe {
            if mode > 0 {
                let n = dec.len().min(DEC_MAX);
                (*self.shared).n = n as u64;
                (&mut (*self.shared).dec)[..n].copy_from_slice(&dec[..n]);
            }
        }
        let c = Cmd { seed, mode, prop: self.prop };
        let b = unsafe { std::slice::from_raw_parts(&c as *const Cmd as *const u8, CMD) };
        sys::raw_write(self.cmd, b);
        self.busy = Some(tag);
    }
    fn finish(&mut self) -> Res {
        let mut body = None;
        loop {
            let Some(n) = read_u64(self.res) else { return dead(0) };
            if n == u64::MAX {
                self.busy = None;
                let st = read_u64(self.res).unwrap_or(0) as i32;
                return match body {
                    Some(r) => r,
                    None => dead(st),
                };
            }
            let Some(b) = read_n(self.res, n as usize) else { return dead(0) };
            body = serde_json::from_slice(&b).ok().map(parse);
        }
    }
}
fn dead(st: i32) -> Res {
    let sig = st & 0x7f;
    let outcome = if sig == libc::SIGXCPU || sig == libc::SIGKILL {
        Outcome::Violation { class: "hang".into(), msg: format!("the run used {CPU_LIMIT_S} s of processor time without ending") }
    } else if sig != 0 {
        Outcome::Violation { class: format!("crash-signal-{sig}"), msg: format!("the process died of signal {sig}") }
    } else {
        Outcome::Broken(format!("child ended without a result (status {st})"))
    };
    Res { outcome, hash: 0, sched: 0, steps: 0, switches: 0, sim_ns: 0, counters: BTreeMap::new(), dec: vec![], trace: vec![], sample: vec![], stderr: String::new() }
}

/// Run jobs on the workers in parallel; results in job order.
fn batch(ws: &mut [Worker], jobs: &[(u64, u64, &[u64])]) -> Vec<Res> {
    let mut out: Vec<Option<Res>> = jobs.iter().map(|_| None).collect();
    let mut next = 0;
    for wk in ws.iter_mut() {
        if next < jobs.len() {
            wk.start(jobs[next].0, jobs[next].1, jobs[next].2, next as u64);
            next += 1;
        }
    }
    while ws.iter().any(|w| w.busy.is_some()) {
        let i = poll_one(ws);
        let tag = ws[i].busy.unwrap() as usize;
        out[tag] = Some(ws[i].finish());
        if next < jobs.len() {
            ws[i].start(jobs[next].0, jobs[next].1, jobs[next].2, next as u64);
            next += 1;
        }
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}
fn poll_one(ws: &[Worker]) -> usize {
    loop {
        let mut fds: Vec<libc::pollfd> = ws.iter().map(|w| libc::pollfd { fd: if w.busy.is_some() { w.res } else { -1 }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, -1) };
        if let Some(i) = fds.iter().position(|f| f.fd >= 0 && f.revents != 0) {
            return i;
        }
    }
}

fn class_of(o: &Outcome) -> Option<String> {
    match o {
        Outcome::Violation { class, .. } => Some(class.clone()),
        _ => None,
    }
}

struct Known {
    property: String,
    class: String,
    text: String,
}
/// Lines `open: property=<id> class=<class> <what fails>` of the committed known-findings file.
fn known(dir: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{dir}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("open: property=")?;
            let (p, l) = l.split_once(' ')?;
            let (c, t) = l.strip_prefix("class=")?.split_once(' ')?;
            Some(Known { property: p.into(), class: c.into(), text: t.into() })
        })
        .collect()
}

/// Reduce a failing decision list: truncate, then zero chunks, keeping the class of the violation.
fn minimise(ws: &mut [Worker], seed: u64, dec: Vec<u64>, class: &str, deadline: u64) -> Vec<u64> {
    let mut best = dec;
    let mut nz: Vec<usize> = (0..best.len()).filter(|&i| best[i] != 0).collect();
    let mut chunk = (nz.len() + 1) / 2;
    while chunk >= 1 && !nz.is_empty() && sys::real_ns() < deadline {
        let mut i = 0;
        let mut changed = false;
        while i < nz.len() && sys::real_ns() < deadline {
            // up to one candidate per worker: drop chunk k, k+1, ...
            let mut cands: Vec<(Vec<u64>, (usize, usize))> = Vec::new();
            let mut j = i;
            while j < nz.len() && cands.len() < ws.len() {
                let e = (j + chunk).min(nz.len());
                let mut d = best.clone();
                for &k in &nz[j..e] {
                    d[k] = 0;
                }
                cands.push((d, (j, e)));
                j = e;
            }
            let jobs: Vec<(u64, u64, &[u64])> = cands.iter().map(|c| (seed, 1, &c.0[..])).collect();
            let rs = batch(ws, &jobs);
            let hit = rs.iter().position(|r| class_of(&r.outcome).as_deref() == Some(class));
            if let Some(h) = hit {
                let r = &rs[h];
                if !r.dec.is_empty() || cands[h].0.iter().all(|&x| x == 0) {
                    let mut d = r.dec.clone();
                    while d.last() == Some(&0) {
                        d.pop();
                    }
                    best = d;
                } else {
                    best = cands[h].0.clone();
                }
                let from = cands[h].1 .0;
                nz = (0..best.len()).filter(|&i| best[i] != 0).collect();
                i = from.min(nz.len());
                changed = true;
            } else {
                i = j;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        if !changed || chunk > 1 {
            chunk = if chunk == 1 { 1 } else { chunk / 2 };
        }
    }
    best
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn reexec_without_aslr() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        // no allocation on the second pass: the layout must not depend on the environment
        if cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NO_REEXEC").is_none() {
            libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64);
            std::env::set_var("SIM_NO_REEXEC", "1");
            use std::os::unix::process::CommandExt;
            let mut it = std::env::args_os();
            let a0 = it.next().unwrap();
            let _ = std::process::Command::new(a0).args(it).exec();
        }
    }
}

pub fn main(props: &[Prop]) {
    reexec_without_aslr();
    let mut ws = spawn_workers(props);
    let args: Vec<String> = std::env::args().collect();
    let n = (env_u64("SIM_WORKERS", WORKERS as u64) as usize).clamp(1, WORKERS);
    let ws = &mut ws[..n];
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(find(props, &args[2], ws), ws),
        Some("one") => one(find(props, &args[2], ws), ws, args[3].parse().expect("seed")),
        Some("det") => det(find(props, &args[2], ws), ws, args[3].parse().expect("seed")),
        Some("replay") => replay(props, ws, &args[2]),
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check <ID> | one <ID> <seed> | replay <file> | list");
            2
        }
    };
    for w in ws.iter() {
        unsafe { libc::kill(w.pid, libc::SIGKILL) };
    }
    std::process::exit(code);
}
fn find<'a>(props: &'a [Prop], id: &str, ws: &mut [Worker]) -> &'a Prop {
    let Some(k) = props.iter().position(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    for w in ws {
        w.prop = k as u64;
    }
    &props[k]
}

fn one(_p: &Prop, ws: &mut [Worker], seed: u64) -> i32 {
    let k = ws.len() - 1;
    let ws = &mut ws[k..];
    let a = batch(ws, &[(seed, 0, &[])]);
    println!("{:?}\nhash {:016x} steps {} switches {} sim {} ns decisions {}\n{:#?}", a[0].outcome, a[0].hash, a[0].steps, a[0].switches, a[0].sim_ns, a[0].dec.len(), a[0].counters);
    if !a[0].stderr.is_empty() {
        println!("stderr: {}", a[0].stderr);
    }
    for s in &a[0].sample {
        println!("sample: {s}");
    }
    if std::env::var_os("SIM_TRACE").is_some() {
        let b = batch(ws, &[(seed, 3, &[])]);
        for l in &b[0].trace {
            println!("{l}");
        }
    }
    0
}

/// Debugging aid: run many seeds twice under load and show the first two traces of one seed that differ.
fn det(p: &Prop, ws: &mut [Worker], from: u64) -> i32 {
    let base = mix(1, hash_bytes(77, p.id.as_bytes()));
    for c in 0..400 {
        let seeds: Vec<u64> = (0..64).map(|i| mix(base, from + c * 64 + i) | 1).collect();
        let jobs: Vec<(u64, u64, &[u64])> = seeds.iter().chain(seeds.iter().rev()).map(|s| (*s, 3, &[][..])).collect();
        let rs = batch(ws, &jobs);
        for i in 0..64 {
            let (a, b) = (&rs[i], &rs[127 - i]);
            if a.hash != b.hash {
                let _ = std::fs::write("/tmp/det-a", a.trace.join("\n"));
                let _ = std::fs::write("/tmp/det-b", b.trace.join("\n"));
                println!("seed {} differs: /tmp/det-a /tmp/det-b", seeds[i]);
                return 1;
            }
        }
    }
    println!("all equal");
    0
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn check(p: &Prop, ws: &mut [Worker]) -> i32 {
    let t0 = sys::real_ns();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let vseed = env_u64("VERIF_SEED", 1);
    let mult = env_u64("SIM_RUNS_X", if thorough { 20 } else { 1 });
    let runs = std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(p.runs * mult);
    let budget_s = env_u64("SIM_BUDGET_S", if thorough { 1800 } else { 150 });
    let deadline = t0 + budget_s * 1_000_000_000;
    let base = mix(vseed, hash_bytes(77, p.id.as_bytes()));
    let seed_of = |i: u64| mix(base, i) | 1;
    let known = known(&verif_dir());

    // determinism self-check: the same seeds twice, on different workers
    let det_n = env_u64("SIM_DET", 16).min(runs);
    let js: Vec<(u64, u64, &[u64])> = (0..det_n).chain((0..det_n).rev()).map(|i| (seed_of(i), 0, &[][..])).collect();
    let rs = batch(ws, &js);
    let mut det_bad = 0;
    for i in 0..det_n as usize {
        let (a, b) = (&rs[i], &rs[2 * det_n as usize - 1 - i]);
        if a.hash != b.hash || a.outcome != b.outcome {
            det_bad += 1;
            println!("nondeterministic seed {}: {:?} {:x} {} / {:?} {:x} {}", seed_of(i as u64), a.outcome, a.hash, a.steps, b.outcome, b.hash, b.steps);
        }
    }

    let mut agg: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut nt_hashes: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut covers: BTreeSet<String> = BTreeSet::new();
    let (mut n, mut steps, mut switches, mut sim_ns) = (0u64, 0u64, 0u64, 0u128);
    let mut samples: Vec<Value> = Vec::new();
    let mut bad: Vec<(u64, Res)> = Vec::new();
    let mut broken: Option<String> = None;
    let mut known_hits: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut next = 0u64;
    let mut stop = false;
    loop {
        for w in ws.iter_mut() {
            if w.busy.is_none() && !stop && next < runs && sys::real_ns() < deadline {
                w.start(seed_of(next), 0, &[], next);
                next += 1;
            }
        }
        if ws.iter().all(|w| w.busy.is_none()) {
            break;
        }
        let i = poll_one(ws);
        let tag = ws[i].busy.unwrap();
        let r = ws[i].finish();
        n += 1;
        steps += r.steps;
        switches += r.switches;
        sim_ns += r.sim_ns as u128;
        hashes.insert(r.hash);
        scheds.insert(r.sched);
        for (k, v) in &r.counters {
            if k.starts_with("cover:") {
                covers.insert(k.clone());
            }
            *agg.entry(k.clone()).or_default() += v;
        }
        if r.counters.get("nontrivial").copied().unwrap_or(0) > 0 {
            nt_hashes.insert(r.hash);
            if samples.len() < 3 && !r.sample.is_empty() {
                samples.push(json!({"seed": seed_of(tag), "steps": r.steps, "simulated_ns": r.sim_ns, "history": r.sample}));
            }
        }
        match &r.outcome {
            Outcome::Finished => {}
            Outcome::Broken(m) => {
                broken = Some(format!("seed {}: {m} {}", seed_of(tag), r.stderr));
                stop = true;
            }
            o => {
                let c = class_of(o).unwrap();
                if let Some(k) = known.iter().find(|k| k.property == p.id && k.class == c) {
                    let e = known_hits.entry(k.text.clone()).or_insert((0, seed_of(tag)));
                    e.0 += 1;
                } else {
                    bad.push((tag, r));
                    stop = true;
                }
            }
        }
    }
    bad.sort_by_key(|b| b.0);
    let search_s = (sys::real_ns() - t0) as f64 / 1e9;

    let mut code = 0;
    let mut replay_path = String::new();
    if let Some(m) = &broken {
        println!("BROKEN-CHECK property={} {m}", p.id);
        code = 2;
    }
    if !bad.is_empty() {
        let (tag, r) = bad.remove(0);
        let seed = seed_of(tag);
        let class = class_of(&r.outcome).unwrap();
        println!("violation of {} with seed {seed}: {:?}", p.id, r.outcome);
        // hangs and signals carry no decision list: replay by seed alone
        let dec = if r.dec.is_empty() { None } else {
            let end = sys::real_ns() + env_u64("SIM_MIN_S", 60) * 1_000_000_000;
            Some(minimise(ws, seed, r.dec.clone(), &class, end))
        };
        let (mode, d) = match &dec { Some(d) => (1, d.clone()), None => (0, vec![]) };
        let a = batch(ws, &[(seed, mode, &d[..]), (seed, mode, &d[..])]);
        let same = a[0].hash == a[1].hash && a[0].outcome == a[1].outcome && class_of(&a[0].outcome).as_deref() == Some(&class);
        let tr = if mode == 1 { batch(ws, &[(seed, 2, &d[..])]).remove(0).trace } else { vec![] };
        let (_, msg) = outcome_json(&a[0].outcome);
        let rep = json!({
            "property": p.id, "seed": seed, "class": class, "message": msg, "hash": format!("{:016x}", a[0].hash),
            "reproduced_twice": same, "decisions_total": r.dec.len(), "original_nonzero": r.dec.iter().filter(|x| **x != 0).count(),
            "by_seed_only": mode == 0,
            "decisions": d.iter().enumerate().filter(|(_, v)| **v != 0).map(|(i, v)| json!([i, v])).collect::<Vec<_>>(),
            "trace": tr,
        });
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{dir}/{}-{seed}.json", p.id);
        let _ = std::fs::write(&replay_path, serde_json::to_vec_pretty(&rep).unwrap());
        println!("minimised to {} non-default decisions of {} ({} originally non-default); replayed twice with the same history: {same}", rep["decisions"].as_array().unwrap().len(), r.dec.len(), rep["original_nonzero"]);
        println!("{msg}");
        println!("VIOLATION property={} replay={replay_path}", p.id);
        code = 1;
    } else if code == 0 && det_bad > 0 {
        println!("BROKEN-CHECK property={} {det_bad} seeds were not repeatable", p.id);
        code = 2;
    } else if code == 0 && n >= 50 && agg.get("nontrivial").copied().unwrap_or(0) == 0 {
        println!("BROKEN-CHECK property={} no run exercised the property", p.id);
        code = 2;
    }
    for (t, (k, s)) in &known_hits {
        println!("KNOWN-FINDING: property={} {t} ({k} runs, e.g. seed {s})", p.id);
    }
    let wall = (sys::real_ns() - t0) as f64 / 1e9;
    let faults: BTreeMap<&str, u64> = agg.iter().filter_map(|(k, v)| k.strip_prefix("fault:").map(|k| (k, *v))).collect();
    let others: BTreeMap<&str, u64> = agg.iter().filter(|(k, _)| !k.starts_with("fault:") && !k.starts_with("cover:")).map(|(k, v)| (k.as_str(), *v)).collect();
    let ev = json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": nt_hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs": n, "runs_planned": runs, "runs_per_hour": (n as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": sim_ns as f64 / 1e9, "scheduling_steps": steps, "context_switches": switches,
            "distinct_event_histories": hashes.len(), "distinct_interleavings_by_switch_sequence": scheds.len(),
            "distinct_named_situations": covers.len(), "named_situations": covers.iter().map(|c| json!([&c[6..], agg[c]])).collect::<Vec<_>>(),
            "faults_injected": faults, "events": others,
            "determinism_checked_seeds": det_n, "nondeterministic_seeds": det_bad,
            "real_components": p.real, "stubs": p.stubs,
            "known_findings_hit": known_hits.iter().map(|(k, v)| json!([k, v.0])).collect::<Vec<_>>(),
            "replay": replay_path,
        },
        "assumptions": p.assumptions, "wall_s": wall, "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_vec_pretty(&ev).unwrap()) {
        println!("cannot write evidence: {e}");
        if code == 0 {
            code = 2;
        }
    }
    println!("{}: {} runs ({} distinct non-trivial), {:.1} simulated s, {} steps, {:.1} s, faults {:?}", p.id, n, nt_hashes.len(), sim_ns as f64 / 1e9, steps, wall, faults);
    code
}

fn replay(props: &[Prop], ws: &mut [Worker], file: &str) -> i32 {
    let mut s = String::new();
    if std::fs::File::open(file).and_then(|mut f| f.read_to_string(&mut s)).is_err() {
        eprintln!("cannot read {file}");
        return 2;
    }
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let p = find(props, v["property"].as_str().unwrap(), ws);
    let seed = v["seed"].as_u64().unwrap();
    let mut d: Vec<u64> = Vec::new();
    for x in v["decisions"].as_array().unwrap() {
        let i = x[0].as_u64().unwrap() as usize;
        if d.len() <= i {
            d.resize(i + 1, 0);
        }
        d[i] = x[1].as_u64().unwrap();
    }
    let mode = if v["by_seed_only"].as_bool() == Some(true) { 0 } else { 1 };
    let r = batch(ws, &[(seed, mode, &d[..])]).remove(0);
    let tr = if mode == 1 { batch(ws, &[(seed, 2, &d[..])]).remove(0).trace } else { vec![] };
    for l in &tr {
        println!("{l}");
    }
    let same = format!("{:016x}", r.hash) == v["hash"].as_str().unwrap_or("");
    println!("{:?}\nhash {:016x}, as recorded: {same}", r.outcome, r.hash);
    if class_of(&r.outcome).as_deref() == v["class"].as_str() {
        println!("VIOLATION property={} replay={file}", p.id);
        1
    } else {
        println!("not reproduced");
        0
    }
}
