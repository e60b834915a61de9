//! S01-S04: the journal and the virtual file system.
use crate::util::*;
use logicaffeine_data::crdt::Merge;
use logicaffeine_system::fs::{NativeVfs, Vfs};
use logicaffeine_system::storage::Persistent;
use sim::{ensure, node, Prop};
use std::collections::BTreeSet;
use std::sync::Arc;

/// A grow-only set of operation marks: the journalled value. Every change adds two marks, so a change
/// that is only half there is visible.
#[derive(Clone, Default, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Marks(pub BTreeSet<u64>);
impl Merge for Marks {
    fn merge(&mut self, o: &Self) {
        self.0.extend(o.0.iter().copied());
    }
}
impl Marks {
    pub fn add(&mut self, op: u64) {
        self.0.insert(2 * op);
        self.0.insert(2 * op + 1);
    }
    pub fn has(&self, op: u64) -> bool {
        self.0.contains(&(2 * op)) && self.0.contains(&(2 * op + 1))
    }
    pub fn half(&self, op: u64) -> bool {
        self.0.contains(&(2 * op)) != self.0.contains(&(2 * op + 1))
    }
}

#[derive(Default)]
pub struct Hist {
    pub next: u64,
    pub acked: BTreeSet<u64>,
    pub begun: BTreeSet<u64>,
    pub log: Vec<String>,
    pub mounts: u32,
    pub mount_err: Option<String>,
}

/// Injected I/O errors so far that a mount may legitimately report.
fn errors_injected() -> u64 {
    let _g = sim::OsGuard::new();
    let c = &sim::world::w().counters;
    ["fault:open_error", "fault:read_error", "fault:write_error", "fault:sync_error", "fault:rename_unlink_error", "fault:stat_error"].iter().map(|k| c.get(*k).copied().unwrap_or(0)).sum()
}

fn judge(h: &mut Hist, s: &Marks, when: &str) {
    for op in &h.acked {
        ensure!(s.has(*op), "acked-change-lost", "{when}: change {op} was acknowledged but is missing; recovered {:?}; history: {}", s.0, h.log.join("; "));
    }
    for op in &h.begun {
        ensure!(!s.half(*op), "half-change", "{when}: change {op} is half there; recovered {:?}", s.0);
    }
    for m in &s.0 {
        ensure!(h.begun.contains(&(m / 2)), "invented-change", "{when}: mark {m} was never written");
    }
}

pub fn swarm_disk(crashes: u64) {
    let f = sim::fs_cfg();
    f.ordered = sim::pick(2) == 0;
    f.p_power = [0.7, 0.0, 1.0][sim::pick(3) as usize];
    f.crashes_left = sim::pick(crashes + 1) as u32;
    f.p_crash = [0.03, 0.1, 0.3][sim::pick(3) as usize];
    if sim::chance(0.4) {
        f.p_err = [0.02, 0.1][sim::pick(2) as usize];
        f.errs_left = 1 + sim::pick(4) as u32;
    }
    if sim::chance(0.4) {
        f.p_short = 0.2;
    }
    if sim::chance(0.15) {
        f.space = Some(20 + sim::pick(400));
    }
}

fn s01() {
    journal_scenario(false)
}
fn s02() {
    journal_scenario(true)
}

/// Incarnations of one process that mounts a journalled value and changes it from several tasks.
fn journal_scenario(compacting: bool) {
    swarm_sched();
    let n = node::add("n1");
    let h = Host::new(Hist::default());
    swarm_disk(3);
    let path = ["state.lsf", "a/b/state.lsf", "state"][sim::pick(3) as usize];
    // a root that is there, or one the file system makes itself
    let root = ["/sim/n1", "/sim/n1/data"][sim::weighted(2, 0.2) as usize];
    let incarnations = 2 + sim::pick(3);
    for inc in 0..incarnations {
        if inc == incarnations - 1 {
            sim::faults_off();
        }
        let tasks = 1 + sim::pick(3);
        let multi = sim::pick(2) == 1;
        let per = 1 + sim::pick(4);
        let h2 = h.clone();
        let last = inc == incarnations - 1;
        let errs0 = errors_injected();
        node::spawn(n, "main", move || {
            let rt = if multi { rtn(2) } else { rt1() };
            rt.block_on(async move {
                let vfs: Arc<dyn Vfs + Send + Sync> = Arc::new(NativeVfs::new(root));
                let p = match Persistent::<Marks>::mount(vfs, path).await {
                    Ok(p) => Arc::new(p),
                    Err(e) => {
                        h2.with(|h| h.mount_err = Some(format!("{e}")));
                        return;
                    }
                };
                let s = p.get().await;
                h2.with(|h| {
                    h.mounts += 1;
                    h.log.push(format!("mount -> {} marks", s.0.len()));
                    judge(h, &s, "after a mount");
                });
                if last {
                    return;
                }
                let mut js = Vec::new();
                for _ in 0..tasks {
                    let (p, h) = (p.clone(), h2.clone());
                    js.push(tokio::spawn(async move {
                        for _ in 0..per {
                            if compacting && sim::chance(0.35) {
                                let r = p.compact().await;
                                h.with(|h| h.log.push(format!("compact {}", r.is_ok())));
                                sim::count("compactions");
                                continue;
                            }
                            if compacting && sim::chance(0.1) {
                                let _ = p.maybe_compact(2).await;
                                continue;
                            }
                            let op = h.with(|h| {
                                h.next += 1;
                                h.begun.insert(h.next);
                                h.next
                            });
                            let r = p.mutate(|m| m.add(op)).await;
                            sim::count("changes");
                            let s = p.get().await;
                            h.with(|h| {
                                h.log.push(format!("change {op} {}", r.is_ok()));
                                if r.is_ok() {
                                    h.acked.insert(op);
                                }
                                judge(h, &s, "in the running process");
                            });
                        }
                    }));
                }
                for j in js {
                    let _ = j.await;
                }
            });
            drop(rt);
        });
        node::wait_for(1_000_000, 100_000_000_000, || node::finished(n));
        ensure!(node::finished(n), "stuck", "the process neither finished nor crashed; {}", h.with(|h| h.log.join("; ")));
        if let Some(e) = h.with(|h| h.mount_err.take()) {
            let injected = errors_injected() > errs0;
            ensure!(injected, "recovery-failed", "mount failed after crashes only: {e}; history: {}", h.with(|h| h.log.join("; ")));
            h.with(|h| h.log.push(format!("mount failed: {e}")));
        }
        if node::alive(n) {
            // an orderly end; power may still fail afterwards
            if !last && sim::chance(0.3) {
                node::crash(n, true);
                h.with(|h| h.log.push("power loss after the end".into()));
            }
        } else {
            h.with(|h| h.log.push("crashed".into()));
        }
    }
    h.with(|h| {
        if !h.acked.is_empty() && h.mounts > 1 {
            sim::nontrivial();
        }
        sim::sample(h.log.join("; "));
    });
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S01",
            scenario: s01,
            runs: 24000,
            rule: "one run = up to 4 incarnations of a process that mounts the journal and changes the value from up to 3 tasks, with seeded scheduling, crashes at storage calls, power loss, I/O errors, short writes and full disk; non-trivial when at least one change was acknowledged and a later mount was judged; distinct by event-history hash",
            real: &["logicaffeine_system::storage::Persistent", "logicaffeine_system::fs::NativeVfs", "tokio runtime and blocking pool", "std::fs"],
            stubs: &["the kernel's file system (in-memory, with a durable and a volatile view)", "the journalled value is a harness type (set of operation marks)"],
            assumptions: &["a torn append leaves a prefix of the appended bytes (the file size never covers unwritten data)"],
        },
        Prop {
            id: "S02",
            scenario: s02,
            runs: 9000,
            rule: "as S01, with compactions mixed into the concurrent tasks; non-trivial when at least one change was acknowledged and a later mount was judged; distinct by event-history hash",
            real: &["logicaffeine_system::storage::Persistent", "logicaffeine_system::fs::NativeVfs", "tokio runtime and blocking pool", "std::fs"],
            stubs: &["the kernel's file system (in-memory, with a durable and a volatile view)", "the journalled value is a harness type (set of operation marks)"],
            assumptions: &["a torn append leaves a prefix of the appended bytes (the file size never covers unwritten data)"],
        },
        Prop {
            id: "S03",
            scenario: s03,
            runs: 20000,
            rule: "one run = up to 3 rounds of changing a journalled value and damaging the file on the medium (bit flips, overwritten, stale, missing or added bytes), each followed by a mount; every run is non-trivial (damage is always applied); distinct by event-history hash",
            real: &["logicaffeine_system::storage::Persistent", "logicaffeine_system::distributed::Distributed (disk part)", "logicaffeine_system::fs::NativeVfs", "tokio", "std::fs"],
            stubs: &["the kernel's file system (in-memory)", "the journalled value is a harness type (set of operation marks)"],
            assumptions: &["a CRC32 collision does not happen by chance in the runs made"],
        },
        Prop {
            id: "S04",
            scenario: s04,
            runs: 8000,
            rule: "one run = up to 3 incarnations of a process whose tasks write, append, rename, remove and read 6 paths of their own and 3 shared paths of one root concurrently, with crashes, power loss, I/O errors, short writes and full disk; every read during the run and after a restart is compared with the contents the model allows; non-trivial when an operation was acknowledged; distinct by event-history hash",
            real: &["logicaffeine_system::fs::NativeVfs", "tokio runtime and blocking pool", "std::fs"],
            stubs: &["the kernel's file system (in-memory, with a durable and a volatile view)"],
            assumptions: &["a torn append leaves a prefix of the appended bytes"],
        },
    ]
}

// ---------------------------------------------------------------- S03

/// The states a value went through, by content.
fn s03() {
    use logicaffeine_system::distributed::Distributed;
    sim::cfg().max_alloc = 32 << 20;
    crate::mesh::install();
    node::add("n1");
    let dist = sim::pick(3) == 2;
    let rounds = 1 + sim::pick(3);
    let mut seen: Vec<Marks> = vec![Marks::default()];
    let mut log: Vec<String> = Vec::new();
    let file = "/sim/n1/state.lsf";
    let mut op = 0u64;
    let mut damaged = 0;
    for _ in 0..rounds {
        let rt = rt1();
        let vfs: Arc<dyn Vfs + Send + Sync> = Arc::new(NativeVfs::new("/sim/n1"));
        let n_ops = 1 + sim::pick(6);
        let plan: Vec<u64> = (0..n_ops).map(|_| sim::weighted(2, 0.2)).collect();
        let res: Result<(Vec<Marks>, Marks), String> = rt.block_on(async {
            let mut states = Vec::new();
            macro_rules! go {
                ($p:expr) => {{
                    let p = $p.map_err(|e| format!("{e}"))?;
                    let first = p.get().await;
                    for compact in &plan {
                        if *compact == 1 {
                            p.compact().await.map_err(|e| format!("{e}"))?;
                        } else {
                            op += 1;
                            p.mutate(|m| m.add(op)).await.map_err(|e| format!("{e}"))?;
                        }
                        states.push(p.get().await);
                    }
                    Ok((states, first))
                }};
            }
            if dist {
                go!(Distributed::<Marks>::mount(vfs, "state.lsf", None).await)
            } else {
                go!(Persistent::<Marks>::mount(vfs, "state.lsf").await)
            }
        });
        drop(rt);
        match res {
            Ok((states, first)) => {
                ensure!(seen.contains(&first), "misread-journal", "mounting the damaged journal gave {:?}, which the value never was; damage: {}", first.0, log.join("; "));
                log.push(format!("mounted as {} marks", first.0.len()));
                seen.extend(states);
                if damaged > 0 {
                    sim::count("damage_recovered");
                }
            }
            Err(e) => {
                ensure!(damaged > 0, "healthy-journal-refused", "no damage, but {e}");
                sim::count("damage_refused");
                log.push(format!("refused: {e}"));
                sim::nontrivial();
                sim::sample(log.join("; "));
                return;
            }
        }
        // damage the medium
        let mut b = sim::fs::peek(file).unwrap_or_default();
        for _ in 0..1 + sim::pick(3) {
            if b.is_empty() {
                break;
            }
            let n = b.len() as u64;
            let at = sim::pick(n) as usize;
            let what = match sim::pick(8) {
                0 => {
                    b.truncate(at);
                    "truncate"
                }
                1 => {
                    b[at] ^= 1 << sim::pick(8);
                    "flip"
                }
                2 => {
                    b[at] = sim::pick(256) as u8;
                    "byte"
                }
                3 => {
                    let l = (1 + sim::pick(16) as usize).min(b.len() - at);
                    b[at..at + l].fill([0, 0xff][sim::pick(2) as usize]);
                    "fill"
                }
                4 => {
                    for _ in 0..1 + sim::pick(12) {
                        b.push(sim::pick(256) as u8);
                    }
                    "garbage tail"
                }
                5 => {
                    b.extend(std::iter::repeat(0).take(1 + sim::pick(20) as usize));
                    "zero tail"
                }
                6 => {
                    // a stale sector: an earlier part of the file over a later one
                    let l = (1 + sim::pick(64) as usize).min(b.len() - at);
                    let from = sim::pick((b.len() - l) as u64 + 1) as usize;
                    let piece = b[from..from + l].to_vec();
                    b[at..at + l].copy_from_slice(&piece);
                    "stale sector"
                }
                _ => {
                    let l = (1 + sim::pick(40) as usize).min(b.len() - at);
                    b.drain(at..at + l);
                    "hole removed"
                }
            };
            sim::count(&format!("fault:medium_{}", what.replace(' ', "_")));
            log.push(format!("{what}@{at}/{n}"));
            damaged += 1;
        }
        sim::fs::poke(file, &b);
    }
    // a last mount to judge the last damage
    let rt = rt1();
    let vfs: Arc<dyn Vfs + Send + Sync> = Arc::new(NativeVfs::new("/sim/n1"));
    let r = rt.block_on(async {
        if dist {
            Distributed::<Marks>::mount(vfs, "state.lsf", None).await.map_err(|e| e.to_string())?.get().await.pipe_ok()
        } else {
            Persistent::<Marks>::mount(vfs, "state.lsf").await.map_err(|e| e.to_string())?.get().await.pipe_ok()
        }
    });
    if let Ok(s) = &r {
        ensure!(seen.contains(s), "misread-journal", "mounting the damaged journal gave {:?}, which the value never was; damage: {}", s.0, log.join("; "));
        sim::count("damage_recovered");
    } else {
        sim::count("damage_refused");
    }
    log.push(format!("final mount {:?}", r.map(|s| s.0.len())));
    sim::nontrivial();
    sim::sample(log.join("; "));
}
trait PipeOk: Sized {
    fn pipe_ok(self) -> Result<Self, String> {
        Ok(self)
    }
}
impl PipeOk for Marks {}

// ---------------------------------------------------------------- S04

type Content = Option<Vec<u8>>;
#[derive(Default)]
struct PathM {
    /// What the file may hold now.
    now: Vec<Content>,
    /// What it may additionally hold after a crash.
    after_crash: Vec<Content>,
}
#[derive(Default)]
struct VfsHist {
    paths: std::collections::BTreeMap<&'static str, PathM>,
    readers: std::collections::BTreeMap<u64, (&'static str, Vec<Content>)>,
    next_reader: u64,
    log: Vec<String>,
    reads: u64,
    acked: u64,
    /// Paths every task may write at the same time.
    shared: std::collections::BTreeMap<&'static str, Vec<Wr>>,
    /// Appends every task makes to one file: length of the piece and whether it was acknowledged.
    pieces: Vec<(usize, bool)>,
    clock: u64,
}
/// A whole-file write by any task, on the clock of the history.
struct Wr {
    body: Content,
    begun: u64,
    ended: Option<u64>,
    acked: bool,
}
impl VfsHist {
    fn tick(&mut self) -> u64 {
        self.clock += 1;
        self.clock
    }
    /// A read of a shared path that began at `a` and ended now may return what some write put there
    /// that no acknowledged write wholly after it, and wholly before the read, replaced.
    fn judge_shared(&self, p: &'static str, a: u64, c: &Content, when: &str) {
        let ws = &self.shared[p];
        let ok = ws.iter().any(|w| &w.body == c && !ws.iter().any(|v| v.acked && w.ended.map_or(false, |e| v.begun > e) && v.ended.unwrap() < a));
        ensure!(ok, "shared-content", "{when}: {p}, written by several tasks, holds {}, which no write in force put there; written: {}; history: {}", show(c), ws.iter().map(|w| format!("{}{}", show(&w.body), if w.acked { " (acknowledged)" } else { "" })).collect::<Vec<_>>().join(", "), self.log.join("; "));
    }
    fn judge_pieces(&self, acked: &[bool], c: &Content, when: &str) {
        let b = c.as_deref().unwrap_or_default();
        for (i, (len, _)) in self.pieces.iter().enumerate() {
            let n = b.iter().filter(|x| **x as usize == i).count();
            ensure!(n <= *len, "appended-twice", "{when}: piece {i} of {len} bytes is there with {n} bytes; history: {}", self.log.join("; "));
            if acked.get(i) == Some(&true) {
                ensure!(n == *len, "append-lost", "{when}: the acknowledged piece {i} of {len} bytes is there with {n} bytes; history: {}", self.log.join("; "));
            }
        }
        ensure!(b.iter().all(|x| (*x as usize) < self.pieces.len()), "invented-bytes", "{when}: {LOG} holds bytes nobody appended");
    }
    fn set(&mut self, p: &'static str, v: Vec<Content>) {
        for (_, (q, seen)) in self.readers.iter_mut() {
            if *q == p {
                seen.extend(v.iter().cloned());
            }
        }
        let m = self.paths.get_mut(p).unwrap();
        m.now = v;
        m.now.dedup();
    }
    fn add(&mut self, p: &'static str, v: Vec<Content>) {
        let mut all = self.paths[p].now.clone();
        all.extend(v);
        self.set(p, all);
    }
}
fn show(c: &Content) -> String {
    match c {
        None => "absent".into(),
        Some(b) => format!("{} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(12)])),
    }
}

const S04_PATHS: [&str; 6] = ["a.txt", "a.bin", "d/a.txt", "a.tmp", "a", "d/a"];
const SHARED: [&str; 2] = ["d/s.txt", "e/f/s"];
const LOG: &str = "e/log";

async fn content(vfs: &NativeVfs, p: &str) -> Option<Content> {
    // the contents of the log are no text
    let r = if p != LOG && sim::pick(2) == 1 { vfs.read_to_string(p).await.map(String::into_bytes) } else { vfs.read(p).await };
    match r {
        Ok(b) => Some(Some(b)),
        Err(logicaffeine_system::fs::VfsError::NotFound(_)) => Some(None),
        Err(_) => None,
    }
}

fn s04() {
    swarm_sched();
    let n = node::add("n1");
    // a root that is there, or one the file system makes itself
    if sim::pick(3) > 0 {
        sim::fs::mkdirs("/sim/n1/base");
    }
    sim::fs::poke("/sim/n1/secret", b"outside");
    sim::fs::poke("/sim/n1/esc", b"outside too");
    swarm_disk(2);
    let h = Host::new(VfsHist::default());
    h.with(|h| {
        for p in S04_PATHS {
            h.paths.insert(p, PathM { now: vec![None], after_crash: vec![] });
        }
        for p in SHARED {
            h.shared.insert(p, vec![Wr { body: None, begun: 0, ended: Some(0), acked: true }]);
        }
    });
    let incarnations = 1 + sim::pick(3);
    for inc in 0..=incarnations {
        let last = inc == incarnations;
        if last {
            sim::faults_off();
        }
        let multi = sim::pick(2) == 1;
        let per = 2 + sim::pick(5);
        let readers = sim::pick(3);
        let h2 = h.clone();
        node::spawn(n, "main", move || {
            let rt = if multi { rtn(2) } else { rt1() };
            rt.block_on(async move {
                let vfs: Arc<NativeVfs> = Arc::new(NativeVfs::new("/sim/n1/base"));
                for p in S04_PATHS {
                    let c = match content(&vfs, p).await {
                        Some(c) => c,
                        None => {
                            h2.with(|h| {
                                let m = h.paths.get_mut(p).unwrap();
                                let extra = std::mem::take(&mut m.after_crash);
                                m.now.extend(extra);
                            });
                            continue;
                        }
                    };
                    h2.with(|h| {
                        let m = h.paths.get_mut(p).unwrap();
                        ensure!(m.now.contains(&c) || m.after_crash.contains(&c), "content-after-restart", "{p} holds {} after a restart, expected one of [{}]; history: {}", show(&c), m.now.iter().chain(&m.after_crash).map(show).collect::<Vec<_>>().join(", "), h.log.join("; "));
                        let extra = std::mem::take(&mut m.after_crash);
                        m.now.extend(extra);
                        h.reads += 1;
                    });
                }
                for p in SHARED {
                    let a = h2.with(|h| h.tick());
                    if let Some(c) = content(&vfs, p).await {
                        h2.with(|h| h.judge_shared(p, a, &c, "after a restart"));
                    }
                }
                if let Some(c) = content(&vfs, LOG).await {
                    h2.with(|h| {
                        let acked: Vec<bool> = h.pieces.iter().map(|p| p.1).collect();
                        h.judge_pieces(&acked, &c, "after a restart");
                    });
                }
                if last {
                    return;
                }
                let mut js = Vec::new();
                for t in 0..3usize {
                    let (vfs, h) = (vfs.clone(), h2.clone());
                    js.push(tokio::spawn(async move {
                        for _ in 0..per {
                            s04_op(&vfs, &h, t).await;
                        }
                    }));
                }
                for _ in 0..readers {
                    let (vfs, h) = (vfs.clone(), h2.clone());
                    js.push(tokio::spawn(async move {
                        for _ in 0..per {
                            s04_read(&vfs, &h).await;
                        }
                    }));
                }
                for j in js {
                    let _ = j.await;
                }
            });
        });
        node::wait_for(1_000_000, 100_000_000_000, || node::finished(n));
        ensure!(node::finished(n), "stuck", "the process neither finished nor crashed");
        if !node::alive(n) {
            h.with(|h| h.log.push("crashed".into()));
        } else if !last && sim::chance(0.3) {
            node::crash(n, true);
            h.with(|h| h.log.push("power loss after the end".into()));
        }
        h.with(|h| {
            h.readers.clear();
            let t = h.tick();
            for w in h.shared.values_mut().flatten() {
                w.ended.get_or_insert(t);
            }
        });
    }
    for (p, c) in [("/sim/n1/secret", &b"outside"[..]), ("/sim/n1/esc", b"outside too")] {
        ensure!(sim::fs::peek(p).as_deref() == Some(c), "escaped-root", "{p}, outside the root, was changed");
    }
    for p in sim::fs::list("/sim/n1") {
        ensure!(p.starts_with("/sim/n1/base") || p == "/sim/n1/secret" || p == "/sim/n1/esc", "escaped-root", "{p} was created outside the root");
    }
    h.with(|h| {
        if h.acked > 0 {
            sim::nontrivial();
        }
        sim::sample(h.log.join("; "));
    });
}

async fn s04_read(vfs: &NativeVfs, h: &Host<VfsHist>) {
    if sim::pick(3) == 2 {
        let (a, acked) = h.with(|h| (h.tick(), h.pieces.iter().map(|p| p.1).collect::<Vec<_>>()));
        if sim::pick(3) == 2 {
            if let Some(c) = content(vfs, LOG).await {
                h.with(|h| h.judge_pieces(&acked, &c, "in the running process"));
            }
        } else {
            let p = sim::one(&SHARED);
            if let Some(c) = content(vfs, p).await {
                h.with(|h| h.judge_shared(p, a, &c, "in the running process"));
            }
        }
        return;
    }
    let p = sim::one(&S04_PATHS);
    let id = h.with(|h| {
        h.next_reader += 1;
        let now = h.paths[p].now.clone();
        h.readers.insert(h.next_reader, (p, now));
        h.next_reader
    });
    let r = content(vfs, p).await;
    h.with(|h| {
        let (_, seen) = h.readers.remove(&id).unwrap();
        let Some(c) = r else { return };
        ensure!(seen.contains(&c), "torn-read", "a read of {p} returned {}, expected one of [{}]; history: {}", show(&c), seen.iter().map(show).collect::<Vec<_>>().join(", "), h.log.join("; "));
        h.reads += 1;
    });
}

/// A write or an append that may overlap with others to the same path.
async fn s04_shared(vfs: &NativeVfs, h: &Host<VfsHist>) {
    if sim::pick(3) == 2 {
        let len = 1 + sim::pick(60) as usize;
        let i = h.with(|h| {
            h.pieces.push((len, false));
            h.pieces.len() - 1
        });
        let r = vfs.append(LOG, &vec![i as u8; len]).await;
        h.with(|h| {
            h.log.push(format!("append {LOG} piece {i} {}", r.is_ok()));
            h.pieces[i].1 = r.is_ok();
            h.acked += r.is_ok() as u64;
        });
        return;
    }
    let p = SHARED[sim::weighted(2, 0.3) as usize];
    let size = [5usize, 0, 60, 900][sim::pick(4) as usize];
    let i = h.with(|h| {
        let t = h.tick();
        // every write is its own content
        let body = Some(format!("{t}:").into_bytes().into_iter().chain(std::iter::repeat(b'a' + (t % 26) as u8).take(size)).collect());
        let ws = h.shared.get_mut(p).unwrap();
        ws.push(Wr { body, begun: t, ended: None, acked: false });
        ws.len() - 1
    });
    let body = h.with(|h| h.shared[p][i].body.clone().unwrap());
    let r = vfs.write(p, &body).await;
    h.with(|h| {
        let t = h.tick();
        let w = &mut h.shared.get_mut(p).unwrap()[i];
        w.ended = Some(t);
        w.acked = r.is_ok();
        h.acked += r.is_ok() as u64;
        h.log.push(format!("write {p} {} {}", show(&Some(body)), r.is_ok()));
    });
}

async fn s04_op(vfs: &NativeVfs, h: &Host<VfsHist>, t: usize) {
    if sim::pick(3) == 2 {
        return s04_shared(vfs, h).await;
    }
    let mine = [S04_PATHS[2 * t], S04_PATHS[2 * t + 1]];
    let p = mine[sim::pick(2) as usize];
    let tag = sim::entropy();
    let size = [8usize, 0, 40, 700, 3000][sim::weighted(5, 0.5) as usize];
    let body: Vec<u8> = (0..size).map(|i| b'a' + ((tag >> (i % 50)) % 26) as u8).collect();
    let (kind, cands) = h.with(|h| (sim::world::w().ch.weighted(6, 0.6), h.paths[p].now.clone()));
    match kind {
        1 => {
            // reads see growing content while an append is in progress
            if cands.len() > 1 {
                return;
            }
            let chunk = &body[..body.len().min(40)];
            let base = cands[0].clone().unwrap_or_default();
            let all: Vec<Content> = (0..=chunk.len()).map(|k| Some([&base[..], &chunk[..k]].concat())).collect();
            let other = if p == mine[0] { mine[1] } else { mine[0] };
            h.with(|h| {
                h.add(p, all.clone());
                // a reader that opened the file before it was renamed here sees it grow too
                for (_, (q, seen)) in h.readers.iter_mut() {
                    if *q == other {
                        seen.extend(all.iter().cloned());
                    }
                }
            });
            let r = vfs.append(p, chunk).await;
            h.with(|h| {
                h.log.push(format!("append {p} {} {}", chunk.len(), r.is_ok()));
                if r.is_ok() {
                    h.acked += 1;
                    h.set(p, vec![all.last().unwrap().clone()]);
                    h.paths.get_mut(p).unwrap().after_crash.clear();
                }
            });
        }
        2 => {
            h.with(|h| h.add(p, vec![None]));
            let r = vfs.remove(p).await;
            h.with(|h| {
                h.log.push(format!("remove {p} {}", r.is_ok()));
                if r.is_ok() {
                    // removal is not promised to be durable
                    h.paths.get_mut(p).unwrap().after_crash.extend(cands);
                    h.set(p, vec![None]);
                }
            });
        }
        3 => {
            let q = if p == mine[0] { mine[1] } else { mine[0] };
            if cands.len() > 1 || cands[0].is_none() {
                return;
            }
            h.with(|h| {
                h.add(q, cands.clone());
                h.add(p, vec![None]);
            });
            let r = vfs.rename(p, q).await;
            h.with(|h| {
                h.log.push(format!("rename {p} {q} {}", r.is_ok()));
                if r.is_ok() {
                    h.acked += 1;
                    h.set(q, cands);
                    h.set(p, vec![None]);
                    h.paths.get_mut(p).unwrap().after_crash.clear();
                    h.paths.get_mut(q).unwrap().after_crash.clear();
                }
            });
        }
        4 => {
            // names that try to leave the root
            let esc = sim::one(&["../esc", "x/../../esc", "/../secret", "../../n1/secret", "./../secret", "..//secret"]);
            let r = vfs.write(esc, &body).await;
            h.with(|h| h.log.push(format!("write {esc} {}", r.is_ok())));
            let _ = vfs.append(esc, b"more").await;
        }
        _ => {
            h.with(|h| h.add(p, vec![Some(body.clone())]));
            let r = vfs.write(p, &body).await;
            h.with(|h| {
                h.log.push(format!("write {p} {size} {}", r.is_ok()));
                if r.is_ok() {
                    h.acked += 1;
                    h.set(p, vec![Some(body)]);
                    h.paths.get_mut(p).unwrap().after_crash.clear();
                }
            });
        }
    }
}
