//! The simulated machine: threads (real OS threads released one at a time), virtual time, the event
//! log and the outcome of the run. All state is touched only by the thread that holds the baton.
use crate::choice::{hash_bytes, Choices};
use crate::fs::Fs;
use crate::net::Net;
use crate::sys;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};

thread_local! {
    static CUR: Cell<u32> = const { Cell::new(0) };
    static IN_OS: Cell<u32> = const { Cell::new(0) };
}

static WORLD: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());
/// 0 while running, 1 once the run has ended.
static ENDED: AtomicU32 = AtomicU32::new(0);

#[derive(Clone, Debug)]
pub enum Wait {
    Futex(usize),
    Sleep,
    Stall,
    Epoll(i32),
    Join(u32),
    /// Blocked until some other thread calls `notify(token)`.
    Token(u64),
    Never,
}

#[derive(Clone, Debug)]
pub enum St {
    Run,
    Blocked(Wait, Option<u64>),
    Done,
    Dead,
}

pub struct Thread {
    pub name: String,
    pub node: u32,
    pub st: St,
    pub timed_out: bool,
    pub baton: Box<AtomicU32>,
    pub pthread: u64,
    pub prio: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Finished,
    Violation { class: String, msg: String },
    Deadlock(String),
    StepLimit,
    /// The harness itself is broken.
    Broken(String),
}

/// Per-run knobs; set by the scenario at its start (usually from choices: swarm testing).
#[derive(Clone, Debug)]
pub struct Cfg {
    pub p_switch: f64,
    /// Mean number of allocations between two forced scheduling points (0: none).
    pub alloc_gap: u64,
    pub p_stall: f64,
    pub max_stall_ns: u64,
    pub max_steps: u64,
    pub step_ns: u64,
    /// Largest single allocation the simulated system may ask for.
    pub max_alloc: usize,
    /// Panics outside of harness code count as violations.
    pub panic_is_violation: bool,
    pub cpus: usize,
    pub p_spurious: f64,
    /// Traces show every system call.
    pub verbose: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            p_switch: 0.1,
            alloc_gap: 0,
            p_stall: 0.0,
            max_stall_ns: 50_000_000,
            max_steps: 400_000,
            step_ns: 500,
            max_alloc: 256 << 20,
            panic_is_violation: true,
            cpus: 4,
            p_spurious: 0.0,
            verbose: false,
        }
    }
}

pub struct World {
    pub cfg: Cfg,
    pub ch: Choices,
    pub now: u64,
    pub wall_offset: i64,
    pub threads: Vec<Thread>,
    pub cur: u32,
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub outcome: Option<Outcome>,
    pub fs: Fs,
    pub net: Net,
    pub counters: BTreeMap<String, u64>,
    pub trace: Option<Vec<String>>,
    pub nodes: Vec<Node>,
    pub panics: Vec<String>,
    pub stderr: Vec<u8>,
    pub alloc_left: u64,
    pub alloc_on: bool,
    /// (thread, node): the next thread that thread starts belongs to this node.
    pub next_node: Option<(u32, u32)>,
    pub tokens: BTreeMap<u64, u64>,
    pub quiet: u32,
    pub sample: Vec<String>,
    /// The working directory, for scenarios that use relative paths.
    pub cwd: Option<String>,
}

pub struct Node {
    pub name: String,
    pub alive: bool,
    pub stalled_until: u64,
    pub wall_skew: i64,
}

/// The world, if the calling thread is simulated.
#[inline]
pub fn in_sim() -> bool {
    CUR.with(|c| c.get()) != 0
}
#[inline]
pub fn active() -> bool {
    in_sim() && IN_OS.with(|c| c.get()) == 0
}
#[inline]
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD.load(Ordering::Relaxed) }
}
pub fn ended() -> bool {
    ENDED.load(Ordering::Relaxed) != 0
}

/// Marks the extent in which the simulator itself runs: no interposition, no scheduling.
pub struct OsGuard;
impl OsGuard {
    #[inline]
    pub fn new() -> OsGuard {
        IN_OS.with(|c| c.set(c.get() + 1));
        OsGuard
    }
}
impl Drop for OsGuard {
    #[inline]
    fn drop(&mut self) {
        IN_OS.with(|c| c.set(c.get() - 1));
    }
}

impl World {
    pub fn new(ch: Choices, trace: bool) -> World {
        World {
            cfg: Cfg::default(),
            ch,
            now: 0,
            wall_offset: 1_700_000_000_000_000_000,
            threads: vec![Thread { name: "host".into(), node: 0, st: St::Dead, timed_out: false, baton: Box::new(AtomicU32::new(0)), pthread: 0, prio: 0 }],
            cur: 0,
            steps: 0,
            switches: 0,
            hash: 0x1234_5678,
            sched_hash: 0x9999,
            outcome: None,
            fs: Fs::new(),
            net: Net::new(),
            counters: BTreeMap::new(),
            trace: if trace { Some(Vec::new()) } else { None },
            nodes: vec![Node { name: "root".into(), alive: true, stalled_until: 0, wall_skew: 0 }],
            panics: Vec::new(),
            stderr: Vec::new(),
            alloc_left: 0,
            alloc_on: false,
            next_node: None,
            tokens: BTreeMap::new(),
            quiet: 0,
            sample: Vec::new(), cwd: None
        }
    }
    pub fn count(&mut self, k: &str) {
        self.count_n(k, 1)
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// Fold an event into the run's hash, and into the readable trace when one is wanted.
    pub fn event(&mut self, tag: &str, a: u64, b: u64, text: impl FnOnce() -> String) {
        self.hash = hash_bytes(self.hash ^ a.wrapping_mul(0x9E37_79B9) ^ b.rotate_left(17) ^ self.now.rotate_left(31), tag.as_bytes());
        if self.trace.is_some() {
            let line = format!("[{:>12}ns t{} {}] {} {}", self.now, self.cur, self.threads.get(self.cur as usize).map(|t| t.name.as_str()).unwrap_or(""), tag, text());
            if let Some(t) = &mut self.trace {
                if t.len() < 20_000 {
                    t.push(line);
                }
            }
        }
    }
    /// A line of the readable trace only.
    pub fn detail(&mut self, text: impl FnOnce() -> String) {
        if let (Some(t), true) = (&mut self.trace, self.cfg.verbose) {
            t.push(format!("[{:>12}ns t{}]   {}", self.now, self.cur, text()));
        }
    }
    pub fn node_of(&self, tid: u32) -> u32 {
        self.threads[tid as usize].node
    }
    pub fn cur_node(&self) -> u32 {
        self.node_of(self.cur)
    }
    fn satisfied(&mut self, i: usize) -> Option<bool> {
        let (wait, dl) = match &self.threads[i].st {
            St::Blocked(wt, dl) => (wt.clone(), *dl),
            _ => return None,
        };
        let node = self.threads[i].node as usize;
        if self.nodes[node].stalled_until > self.now {
            return None;
        }
        let ok = match wait {
            Wait::Epoll(fd) => self.net.epoll_ready(fd),
            Wait::Join(t) => matches!(self.threads[t as usize].st, St::Done),
            Wait::Token(k) => self.tokens.get(&k).copied().unwrap_or(0) > 0,
            _ => false,
        };
        if ok {
            return Some(false);
        }
        if let Some(d) = dl {
            if d <= self.now {
                return Some(true);
            }
        }
        None
    }
    /// Runnable thread ids; advances virtual time when there are none.
    fn runnable(&mut self) -> Vec<u32> {
        loop {
            self.net_events();
            let mut v = Vec::new();
            for i in 1..self.threads.len() {
                if let Some(to) = self.satisfied(i) {
                    self.threads[i].st = St::Run;
                    self.threads[i].timed_out = to;
                }
                if let St::Run = self.threads[i].st {
                    if self.nodes[self.threads[i].node as usize].stalled_until <= self.now {
                        v.push(i as u32);
                    }
                }
            }
            if !v.is_empty() {
                return v;
            }
            let mut next: Option<u64> = self.net.next_event();
            let mut upd = |t: u64| next = Some(next.map_or(t, |n: u64| n.min(t)));
            for t in &self.threads[1..] {
                let st = self.nodes[t.node as usize].stalled_until;
                match &t.st {
                    St::Blocked(_, Some(d)) => upd((*d).max(st)),
                    St::Run => upd(st),
                    // Already satisfied but on a stalled node: becomes runnable at the end of the stall.
                    St::Blocked(_, None) if st > self.now => upd(st),
                    _ => {}
                }
            }
            match next {
                Some(t) => {
                    self.now = t.max(self.now + 1);
                }
                None => return v,
            }
        }
    }
    fn net_events(&mut self) {
        while let Some(t) = self.net.next_event() {
            if t > self.now {
                break;
            }
            let evs = self.net.take_due(self.now);
            for e in evs {
                crate::net::apply(self, e);
            }
        }
    }
}

/// Park the calling OS thread until it holds the baton.
fn wait_baton(b: *const AtomicU32) {
    unsafe {
        while (*b).load(Ordering::Acquire) == 0 {
            sys::futex_wait(b as *const u32, 0);
        }
        (*b).store(0, Ordering::Relaxed);
    }
}
fn give_baton(tid: u32) {
    let b: *const AtomicU32 = &*w().threads[tid as usize].baton;
    unsafe {
        (*b).store(1, Ordering::Release);
        sys::futex_wake(b as *const u32);
    }
}
fn park_forever() -> ! {
    let z = AtomicU32::new(0);
    loop {
        unsafe { sys::futex_wait(&z as *const _ as *const u32, 0) };
    }
}

/// End the run; the calling thread never continues (unless it is about to return anyway).
pub fn finish(o: Outcome) {
    let w = w();
    if w.outcome.is_none() {
        w.outcome = Some(o);
    }
    ENDED.store(1, Ordering::Release);
    unsafe { sys::futex_wake(&ENDED as *const _ as *const u32) };
}
pub fn finish_and_stop(o: Outcome) -> ! {
    finish(o);
    park_forever()
}

/// Hand the baton to the next thread. `keep` says whether the caller may be picked again at once.
fn switch(keep: bool) {
    switch_p(keep, w().cfg.p_switch)
}
fn switch_p(keep: bool, p: f64) {
    let wd = w();
    let me = wd.cur;
    if ended() {
        park_forever();
    }
    wd.steps += 1;
    wd.now += wd.cfg.step_ns;
    if wd.steps > wd.cfg.max_steps {
        finish_and_stop(Outcome::StepLimit);
    }
    let mut run = wd.runnable();
    if run.is_empty() {
        let d = describe_threads(wd);
        finish_and_stop(Outcome::Deadlock(d));
    }
    let next = if keep && run.contains(&me) {
        // decision 0: stay
        run.retain(|&t| t != me);
        if run.is_empty() {
            me
        } else {
            let c = wd.ch.weighted(run.len() as u64 + 1, p);
            if c == 0 { me } else { run[c as usize - 1] }
        }
    } else {
        // forced switch: decision 0 is the next thread in cyclic order
        let k = run.iter().position(|&t| t > me).unwrap_or(0);
        run.rotate_left(k);
        let c = wd.ch.weighted(run.len() as u64, 0.5);
        run[c as usize]
    };
    if next != me {
        wd.switches += 1;
        wd.sched_hash = hash_bytes(wd.sched_hash ^ (next as u64) << 32, &wd.steps.to_le_bytes());
        wd.event("switch", me as u64, next as u64, || format!("-> t{next}"));
        wd.cur = next;
        let dead = matches!(wd.threads[me as usize].st, St::Dead | St::Done);
        let mine: *const AtomicU32 = &*wd.threads[me as usize].baton;
        // from here on the world, and the heap, belong to the other thread
        drop(run);
        give_baton(next);
        if dead {
            return;
        }
        wait_baton(mine);
        if ended() {
            park_forever();
        }
    }
}

fn describe_threads(w: &World) -> String {
    w.threads.iter().enumerate().skip(1).filter(|(_, t)| !matches!(t.st, St::Done)).map(|(i, t)| format!("t{i}:{}@{} {:?}", t.name, w.nodes[t.node as usize].name, t.st)).collect::<Vec<_>>().join("; ")
}

/// A scheduling point: the simulator may let another thread run, or stall this one for a while.
pub fn point() {
    if w().quiet > 0 {
        return;
    }
    if ended() {
        park_forever();
    }
    let p = w().cfg.p_stall;
    if p > 0.0 {
        let wd = w();
        let c = wd.ch.weighted(9, p);
        if c > 0 {
            // exponentially distributed durations: max/256 .. max
            let d = wd.cfg.max_stall_ns >> (8 - c);
            wd.count("fault:stall");
            wd.event("stall", d, 0, || format!("{d}ns"));
            let until = wd.now + d;
            block(Wait::Stall, Some(until));
            return;
        }
    }
    switch(true);
}

/// Block the calling thread. Returns true if it was released by its deadline.
pub fn block(wait: Wait, deadline: Option<u64>) -> bool {
    let wd = w();
    let me = wd.cur as usize;
    wd.threads[me].timed_out = false;
    wd.threads[me].st = St::Blocked(wait, deadline);
    switch(false);
    let wd = w();
    if let St::Blocked(..) = wd.threads[me].st {
        wd.threads[me].st = St::Run;
    }
    wd.threads[me].timed_out
}

pub fn cur_tid() -> u32 {
    CUR.with(|c| c.get())
}

// ---------------------------------------------------------------- futex

pub fn futex(addr: usize, op: i32, val: u32, ts: *const libc::timespec, mask_wait_abs: bool, clock_real: bool) -> i64 {
    let _g = OsGuard::new();
    let cmd = op & 0x7f;
    w().detail(|| format!("futex {cmd} {addr:x} {val}"));
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            point();
            let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if cur != val {
                return -(libc::EAGAIN as i64);
            }
            let wd = w();
            let dl = if ts.is_null() {
                None
            } else {
                let t = unsafe { (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128 };
                Some(if mask_wait_abs {
                    if clock_real {
                        (t - wd.wall_offset as i128).max(0) as u64
                    } else {
                        t.max(0) as u64
                    }
                } else {
                    wd.now + t.max(0) as u64
                })
            };
            let p = wd.cfg.p_spurious;
            if p > 0.0 && wd.ch.weighted(2, p) == 1 {
                wd.count("fault:spurious_wake");
                return 0;
            }
            if block(Wait::Futex(addr), dl) {
                -(libc::ETIMEDOUT as i64)
            } else {
                0
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let wd = w();
            let mut left = val;
            let mut n = 0;
            let mut waiters: Vec<usize> = Vec::new();
            for (i, t) in wd.threads.iter().enumerate() {
                if let St::Blocked(Wait::Futex(a), _) = t.st {
                    if a == addr {
                        waiters.push(i);
                    }
                }
            }
            while left > 0 && !waiters.is_empty() {
                let c = wd.ch.weighted(waiters.len() as u64, 0.3) as usize;
                let i = waiters.remove(c);
                wd.threads[i].st = St::Run;
                wd.threads[i].timed_out = false;
                left -= 1;
                n += 1;
            }
            point();
            n
        }
        _ => -(libc::ENOSYS as i64),
    }
}

// ---------------------------------------------------------------- threads

struct Start {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    tid: u32,
    baton: *const AtomicU32,
}

static KEY: AtomicU32 = AtomicU32::new(u32::MAX);

extern "C" fn thread_gone(v: *mut libc::c_void) {
    // Runs after the thread's thread-local destructors.
    let tid = v as usize as u32;
    IN_OS.with(|c| c.set(c.get() + 1));
    if ended() {
        return;
    }
    let wd = w();
    wd.threads[tid as usize].st = St::Done;
    wd.event("exit", tid as u64, 0, String::new);
    CUR.with(|c| c.set(0));
    switch(false);
    // A real exit would return the stack and the allocator's caches at an arbitrary moment.
    park_forever();
}

extern "C" fn trampoline(a: *mut libc::c_void) -> *mut libc::c_void {
    let s = unsafe { Box::from_raw(a as *mut Start) };
    unsafe {
        libc::pthread_setspecific(KEY.load(Ordering::Relaxed), s.tid as usize as *const libc::c_void);
    }
    CUR.with(|c| c.set(s.tid));
    {
        let _g = OsGuard::new();
        wait_baton(s.baton);
        if ended() {
            park_forever();
        }
    }
    let (f, arg) = (s.f, s.arg);
    drop(s);
    f(arg)
}

type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;

unsafe fn next_sym(name: &[u8]) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const libc::c_char);
    if p.is_null() {
        sys::raw_write(2, b"sim: missing libc symbol\n");
        sys::exit_now(2);
    }
    p
}
pub unsafe fn real_pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
    static P: AtomicPtr<libc::c_void> = AtomicPtr::new(std::ptr::null_mut());
    let mut p = P.load(Ordering::Relaxed);
    if p.is_null() {
        p = next_sym(b"pthread_create\0");
        P.store(p, Ordering::Relaxed);
    }
    std::mem::transmute::<_, CreateFn>(p)(t, a, f, arg)
}
pub unsafe fn real_pthread_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    static P: AtomicPtr<libc::c_void> = AtomicPtr::new(std::ptr::null_mut());
    let mut p = P.load(Ordering::Relaxed);
    if p.is_null() {
        p = next_sym(b"pthread_join\0");
        P.store(p, Ordering::Relaxed);
    }
    std::mem::transmute::<_, JoinFn>(p)(t, r)
}

pub unsafe fn sim_pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
    let _g = OsGuard::new();
    let wd = w();
    let tid = wd.threads.len() as u32;
    let node = match wd.next_node {
        Some((t, n)) if t == wd.cur => {
            wd.next_node = None;
            n
        }
        _ => wd.cur_node(),
    };
    wd.threads.push(Thread { name: format!("th{tid}"), node, st: St::Run, timed_out: false, baton: Box::new(AtomicU32::new(0)), pthread: 0, prio: 0 });
    let baton: *const AtomicU32 = &*wd.threads[tid as usize].baton;
    let s = Box::into_raw(Box::new(Start { f, arg, tid, baton }));
    let r = real_pthread_create(t, a, trampoline, s as *mut libc::c_void);
    if r != 0 {
        wd.threads[tid as usize].st = St::Done;
        return r;
    }
    wd.threads[tid as usize].pthread = *t as u64;
    wd.count("threads");
    wd.event("spawn", tid as u64, node as u64, || format!("t{tid}"));
    point();
    0
}

pub unsafe fn sim_pthread_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    let _g = OsGuard::new();
    let wd = w();
    // pthread ids are reused: the youngest one is meant
    if let Some(i) = (1..wd.threads.len()).rev().find(|&i| wd.threads[i].pthread == t as u64) {
        if !matches!(wd.threads[i].st, St::Done) {
            block(Wait::Join(i as u32), None);
        }
        w().threads[i].pthread = 0;
        return 0;
    }
    real_pthread_join(t, r)
}

/// Mark every thread of `node` as gone. If the caller belongs to it, never returns.
pub fn kill_node(node: u32) {
    let wd = w();
    wd.nodes[node as usize].alive = false;
    let me = wd.cur as usize;
    let mut self_dead = false;
    for (i, t) in wd.threads.iter_mut().enumerate() {
        if t.node == node && !matches!(t.st, St::Done) && i != 0 {
            t.st = St::Dead;
            if i == me {
                self_dead = true;
            }
        }
    }
    if self_dead {
        switch(false);
        park_forever();
    }
}

// ---------------------------------------------------------------- running one simulation

pub struct RunOut {
    pub outcome: Outcome,
    pub decisions: Vec<u64>,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub counters: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub sample: Vec<String>,
    pub stderr: String,
}

/// Payload of the panic used by oracles.
pub struct ViolationPanic;

/// Run `body` as the root thread of a fresh simulated machine. Once per process.
pub fn run_once(ch: Choices, trace: bool, body: Box<dyn FnOnce() + Send>) -> RunOut {
    let world = Box::into_raw(Box::new(World::new(ch, trace)));
    WORLD.store(world, Ordering::Release);
    unsafe {
        let mut k: libc::pthread_key_t = 0;
        libc::pthread_key_create(&mut k, Some(thread_gone2));
        KEY.store(k, Ordering::Relaxed);
    }
    std::panic::set_hook(Box::new(|info| {
        if in_sim() && !ended() {
            let _g = OsGuard::new();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else if info.payload().is::<ViolationPanic>() { return } else { "?".into() };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let wd = w();
            wd.event("panic", 0, 0, || format!("{loc}: {msg}"));
            if let Some(t) = &mut wd.trace {
                t.push(std::backtrace::Backtrace::force_capture().to_string());
            }
            if wd.cfg.panic_is_violation {
                finish_and_stop(Outcome::Violation { class: "panic".into(), msg: format!("panic at {loc}: {msg}") });
            }
            wd.panics.push(format!("{loc}: {msg}"));
        } else if !in_sim() {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
            sys::raw_write(2, format!("harness panic at {loc}: {msg}\n").as_bytes());
        }
    }));
    // The root thread.
    let wd = unsafe { &mut *world };
    wd.threads.push(Thread { name: "root".into(), node: 0, st: St::Run, timed_out: false, baton: Box::new(AtomicU32::new(0)), pthread: 0, prio: 0 });
    wd.cur = 1;
    extern "C" fn root(a: *mut libc::c_void) -> *mut libc::c_void {
        let body = unsafe { *Box::from_raw(a as *mut Box<dyn FnOnce() + Send>) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
        let _g = OsGuard::new();
        match r {
            Ok(()) => finish_and_stop(Outcome::Finished),
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "root panicked".into() };
                finish_and_stop(Outcome::Broken(m))
            }
        }
    }
    let s = Box::into_raw(Box::new(Start { f: root, arg: Box::into_raw(Box::new(body)) as *mut libc::c_void, tid: 1, baton: &*wd.threads[1].baton }));
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 64 << 20);
        let mut t: libc::pthread_t = 0;
        let r = real_pthread_create(&mut t, &attr, trampoline, s as *mut libc::c_void);
        assert_eq!(r, 0, "root thread");
        give_baton(1);
        while ENDED.load(Ordering::Acquire) == 0 {
            sys::futex_wait(&ENDED as *const _ as *const u32, 0);
        }
    }
    let wd = w();
    let mut outcome = wd.outcome.clone().unwrap_or(Outcome::Broken("no outcome".into()));
    if let Outcome::Finished = outcome {
        if let (true, Some(p)) = (wd.cfg.panic_is_violation, wd.panics.first()) {
            outcome = Outcome::Violation { class: "panic".into(), msg: p.clone() };
        }
    }
    RunOut {
        outcome,
        decisions: wd.ch.log.clone(),
        hash: wd.hash,
        sched_hash: wd.sched_hash,
        steps: wd.steps,
        switches: wd.switches,
        sim_ns: wd.now,
        counters: wd.counters.clone(),
        trace: wd.trace.clone().unwrap_or_default(),
        sample: wd.sample.clone(),
        stderr: String::from_utf8_lossy(&wd.stderr).into_owned(),
    }
}

unsafe extern "C" fn thread_gone2(v: *mut libc::c_void) {
    thread_gone(v)
}

// ---------------------------------------------------------------- allocation hook

/// Called before every allocation of the process.
#[inline]
pub fn on_alloc(size: usize) -> bool {
    if CUR.with(|c| c.get()) == 0 || IN_OS.with(|c| c.get()) != 0 {
        return true;
    }
    let wd = w();
    if size > wd.cfg.max_alloc {
        let _g = OsGuard::new();
        wd.event("huge-alloc", size as u64, 0, || format!("{size} bytes"));
        if let Some(t) = &mut wd.trace {
            t.push(std::backtrace::Backtrace::force_capture().to_string());
        }
        finish_and_stop(Outcome::Violation { class: "huge-allocation".into(), msg: format!("an allocation of {size} bytes was requested (limit {})", wd.cfg.max_alloc) });
    }
    if wd.alloc_on && !ended() {
        if wd.alloc_left > 1 {
            wd.alloc_left -= 1;
        } else if wd.alloc_left == 1 {
            let _g = OsGuard::new();
            let mean = wd.cfg.alloc_gap;
            wd.alloc_left = wd.ch.gap(mean);
            wd.count("alloc_points");
            if wd.quiet == 0 {
                switch_p(true, 0.7);
            }
        }
    }
    true
}
