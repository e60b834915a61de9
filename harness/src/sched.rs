//! The cooperative scheduler and its parallel driver: T01, T02, T03.
//!
//! A program is a handful of scripts (fixed operation lists). Script tasks run on the real
//! scheduler; every poll is recorded and checked step by step against a reference model that
//! allows exactly the documented freedom (which ready arm wins, order among equal timers, and
//! what the policy leaves open).

use logicaffeine_runtime::*;
use sim::{chance, ensure, one, pick, range, Prop};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- programs

#[derive(Clone, Copy, Debug, PartialEq)]
enum Arm {
    Recv(u8),
    After(u8),
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Yield,
    Recv(u8),
    Send(u8),
    /// Send a task handle.
    SendTask(u8, u8),
    TrySend(u8),
    TryRecv(u8),
    Select(Vec<Arm>),
    Sleep(u8),
    NewChan(Option<u8>),
    Spawn(u8),
    Await(u8),
    Abort(u8),
    Close(u8),
    Io,
}
#[derive(Clone, Debug)]
pub struct Program {
    /// Priority and operations of each script; script 0 is the main task.
    scripts: Vec<(u8, Vec<Op>)>,
}
const HANDLE: i64 = 1 << 40;

fn program(io: bool) -> Program {
    let n = range(1, 4);
    let mut scripts = Vec::new();
    for s in 0..n {
        let mut ops = Vec::new();
        if s == 0 {
            for _ in 0..range(1, 3) {
                ops.push(Op::NewChan([Some(0), Some(1), Some(2), None][pick(4) as usize]));
            }
        }
        for _ in 0..range(1, 10) {
            let c = pick(4) as u8;
            let op = match pick(25) {
                0 => Op::Yield,
                1..=4 => Op::Recv(c),
                5..=8 => Op::Send(c),
                9 => Op::TrySend(c),
                10 => Op::TryRecv(c),
                11..=13 => Op::Select((0..range(1, 3)).map(|_| if chance(0.3) { Arm::After(pick(4) as u8) } else { Arm::Recv(pick(4) as u8) }).collect()),
                14 => Op::Sleep(pick(4) as u8),
                15..=19 if s + 1 < n => Op::Spawn((s + 1 + pick(n - s - 1)) as u8),
                20 => Op::Await(c),
                21 => Op::Abort(c),
                22 => Op::Close(c),
                23 => Op::SendTask(c, pick(4) as u8),
                24 if io => Op::Io,
                _ => Op::Yield,
            };
            ops.push(op);
        }
        scripts.push((pick(3) as u8, ops));
    }
    Program { scripts }
}

// ---------------------------------------------------------------- script tasks

type Ctx = (RtPayload, Option<usize>, Option<u64>, Option<u64>);
#[derive(Clone, Debug)]
enum Step {
    Yield,
    Recv(u64),
    Send(u64, RtPayload),
    TrySend(u64, RtPayload),
    TryRecv(u64),
    Select(Vec<Result<u64, u64>>),
    Sleep(u64),
    NewChan(Option<usize>),
    Spawn(String, u8),
    Await(u64),
    Abort(u64),
    Close(u64),
    Io,
    Exit(RtPayload),
}
#[derive(Clone, Debug)]
struct Polled {
    key: String,
    ctx: Ctx,
    step: Step,
}
type Log = Rc<RefCell<Vec<Polled>>>;

struct Script {
    prog: Arc<Program>,
    which: usize,
    key: String,
    pc: usize,
    kids: usize,
    chans: Vec<u64>,
    tasks: Vec<u64>,
    acc: i64,
    out: Vec<String>,
    log: Option<Log>,
    /// Spawn by descriptor (parallel driver).
    desc: bool,
}
impl Script {
    fn step(&mut self, ctx: Ctx) -> Step {
        if let Some(c) = ctx.2 {
            self.chans.push(c);
        }
        if let Some(t) = ctx.3 {
            self.tasks.push(t);
        }
        match &ctx.0 {
            RtPayload::Int(v) if *v >= HANDLE => self.tasks.push((*v - HANDLE) as u64),
            RtPayload::Int(v) => self.acc = self.acc.wrapping_mul(31).wrapping_add(*v) & 0xffff,
            _ => {}
        }
        if self.pc > 0 {
            self.out.push(format!("{} {}: {:?} {:?} {:?} {:?}", self.key, self.pc, ctx.0, ctx.1, ctx.2, ctx.3));
        }
        let prog = self.prog.clone();
        let chan = |s: &Self, c: u8| (!s.chans.is_empty()).then(|| s.chans[c as usize % s.chans.len()]);
        let task = |s: &Self, c: u8| (!s.tasks.is_empty()).then(|| s.tasks[c as usize % s.tasks.len()]);
        let value = RtPayload::Int((self.acc << 20) + (self.key.len() as i64 * 64 + self.pc as i64) * 1024 + self.key.bytes().fold(0u64, |a, b| (a * 7 + b as u64) % 1021) as i64);
        let op = prog.scripts[self.which].1.get(self.pc);
        self.pc += 1;
        match op {
            None => Step::Exit(RtPayload::Int(self.acc)),
            Some(Op::Yield) => Step::Yield,
            Some(Op::Recv(c)) => chan(self, *c).map(Step::Recv).unwrap_or(Step::Yield),
            Some(Op::Send(c)) => chan(self, *c).map(|c| Step::Send(c, value)).unwrap_or(Step::Yield),
            Some(Op::SendTask(c, t)) => match (chan(self, *c), task(self, *t)) {
                (Some(c), Some(t)) => Step::Send(c, RtPayload::Int(HANDLE + t as i64)),
                _ => Step::Yield,
            },
            Some(Op::TrySend(c)) => chan(self, *c).map(|c| Step::TrySend(c, value)).unwrap_or(Step::Yield),
            Some(Op::TryRecv(c)) => chan(self, *c).map(Step::TryRecv).unwrap_or(Step::Yield),
            Some(Op::Select(arms)) => {
                let arms: Vec<_> = arms
                    .iter()
                    .filter_map(|a| match a {
                        Arm::Recv(c) => chan(self, *c).map(Ok),
                        Arm::After(d) => Some(Err(*d as u64)),
                    })
                    .collect();
                if arms.is_empty() { Step::Yield } else { Step::Select(arms) }
            }
            Some(Op::Sleep(d)) => Step::Sleep(*d as u64),
            Some(Op::NewChan(c)) => Step::NewChan(c.map(|c| c as usize)),
            Some(Op::Spawn(s)) => {
                self.kids += 1;
                Step::Spawn(format!("{}.{}", self.key, self.kids), *s)
            }
            Some(Op::Await(t)) => task(self, *t).map(Step::Await).unwrap_or(Step::Yield),
            Some(Op::Abort(t)) => task(self, *t).map(Step::Abort).unwrap_or(Step::Yield),
            Some(Op::Close(c)) => chan(self, *c).map(Step::Close).unwrap_or(Step::Yield),
            Some(Op::Io) => Step::Io,
        }
    }
    fn child(&self, key: String, s: u8) -> Script {
        Script {
            prog: self.prog.clone(),
            which: s as usize,
            key,
            pc: 0,
            kids: 0,
            chans: self.chans.clone(),
            tasks: self.tasks.clone(),
            acc: 0,
            out: vec![],
            log: self.log.clone(),
            desc: self.desc,
        }
    }
    fn args(&self, key: &str) -> Vec<RtPayload> {
        let ints = |v: &Vec<u64>| RtPayload::List(v.iter().map(|x| RtPayload::Int(*x as i64)).collect());
        vec![RtPayload::Text(key.into()), ints(&self.chans), ints(&self.tasks)]
    }
    fn main(prog: &Arc<Program>, log: Option<Log>, desc: bool) -> Script {
        Script { prog: prog.clone(), which: 0, key: "m".into(), pc: 0, kids: 0, chans: vec![], tasks: vec![], acc: 0, out: vec![], log, desc }
    }
}
impl Task<'static> for Script {
    fn poll(&mut self, c: &mut TaskCtx) -> TaskStep<'static> {
        let ctx = (std::mem::replace(&mut c.resumed_with, RtPayload::Nothing), c.selected_arm, c.new_chan.map(|c| c.0), c.spawned.map(|t| t.0));
        let step = self.step(ctx.clone());
        if let Some(l) = &self.log {
            l.borrow_mut().push(Polled { key: self.key.clone(), ctx, step: step.clone() });
        }
        match step {
            Step::Yield => TaskStep::Yield,
            Step::Recv(c) => TaskStep::Recv(ChanId(c)),
            Step::Send(c, v) => TaskStep::Send(ChanId(c), v),
            Step::TrySend(c, v) => TaskStep::TrySend(ChanId(c), v),
            Step::TryRecv(c) => TaskStep::TryRecv(ChanId(c)),
            Step::Select(a) => TaskStep::Select(
                a.into_iter()
                    .map(|a| match a {
                        Ok(c) => SelectArm::Recv(ChanId(c)),
                        Err(d) => SelectArm::Timeout(d),
                    })
                    .collect(),
            ),
            Step::Sleep(d) => TaskStep::Sleep(d),
            Step::NewChan(c) => TaskStep::NewChan(c),
            Step::Spawn(key, s) if self.desc => TaskStep::SpawnDesc { func: s as u16, args: self.args(&key), want_handle: true },
            Step::Spawn(key, s) => TaskStep::Spawn(Box::new(self.child(key, s))),
            Step::Await(t) => TaskStep::Await(TaskId(t)),
            Step::Abort(t) => TaskStep::Abort(TaskId(t)),
            Step::Close(c) => TaskStep::Close(ChanId(c)),
            Step::Io => TaskStep::IoPending,
            Step::Exit(v) => TaskStep::Exit(v),
        }
    }
    fn priority(&self) -> u8 {
        self.prog.scripts[self.which].0
    }
    fn take_output(&mut self) -> Vec<String> {
        std::mem::take(&mut self.out)
    }
}
fn rebuild(prog: &Arc<Program>, d: SpawnDesc) -> Script {
    let mut s = Script::main(prog, None, true);
    if d.is_main {
        return s;
    }
    let ints = |p: &RtPayload| match p {
        RtPayload::List(v) => v.iter().map(|x| if let RtPayload::Int(i) = x { *i as u64 } else { unreachable!() }).collect(),
        _ => unreachable!(),
    };
    s.which = d.func as usize;
    if let RtPayload::Text(k) = &d.args[0] {
        s.key = k.clone();
    }
    s.chans = ints(&d.args[1]);
    s.tasks = ints(&d.args[2]);
    s
}

// ---------------------------------------------------------------- reference model

#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready,
    Recv,
    Send,
    Select(Vec<Result<u64, u64>>),
    Timer,
    Await,
    Io,
    Done,
}
#[derive(Clone, Debug, PartialEq)]
struct MTask {
    st: St,
    stamp: u64,
    prio: u8,
    id: Option<u64>,
    // what the next poll must see
    val: RtPayload,
    arm: Option<usize>,
    chan: Option<Option<usize>>,
    child: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
struct MChan {
    cap: usize,
    queue: VecDeque<RtPayload>,
    senders: VecDeque<(String, RtPayload)>,
    receivers: VecDeque<String>,
    closed: bool,
}
#[derive(Clone, Debug, PartialEq)]
struct Model {
    clock: u64,
    step: u64,
    tasks: BTreeMap<String, MTask>,
    chans: BTreeMap<u64, MChan>,
    timers: Vec<(u64, String, Option<usize>)>,
    results: BTreeMap<String, RtPayload>,
    awaiting: Vec<(String, String)>,
    main: Option<RtPayload>,
}
impl Model {
    fn new(prio: u8, id: u64) -> Model {
        let mut m = Model { clock: 0, step: 0, tasks: BTreeMap::new(), chans: BTreeMap::new(), timers: vec![], results: BTreeMap::new(), awaiting: vec![], main: None };
        m.add("m".into(), prio, Some(id));
        m
    }
    fn add(&mut self, key: String, prio: u8, id: Option<u64>) {
        self.tasks.insert(key, MTask { st: St::Ready, stamp: self.step, prio, id, val: RtPayload::Nothing, arm: None, chan: None, child: None });
    }
    fn t(&mut self, k: &str) -> &mut MTask {
        self.tasks.get_mut(k).unwrap()
    }
    fn ready(&mut self, k: &str, v: RtPayload) {
        let s = self.step;
        let t = self.t(k);
        t.st = St::Ready;
        t.stamp = s;
        t.val = v;
    }
    /// A blocked select or receive ends; the task is out of every queue.
    fn unpark(&mut self, k: &str) {
        for c in self.chans.values_mut() {
            c.receivers.retain(|r| r != k);
        }
        self.timers.retain(|t| t.1 != k);
    }
    /// Hand `v` to a waiting receiver; each state is one legal choice of arm.
    fn hand(mut self, ch: u64, k: &str, v: RtPayload) -> Vec<Model> {
        match self.tasks[k].st.clone() {
            St::Select(arms) => {
                self.unpark(k);
                arms.iter()
                    .enumerate()
                    .filter(|(_, a)| **a == Ok(ch))
                    .map(|(i, _)| {
                        let mut m = self.clone();
                        m.ready(k, v.clone());
                        m.t(k).arm = Some(i);
                        m
                    })
                    .collect()
            }
            _ => {
                self.unpark(k);
                self.ready(k, v);
                vec![self]
            }
        }
    }
    fn take(&mut self, ch: u64) -> Option<RtPayload> {
        let c = self.chans.get_mut(&ch).unwrap();
        if let Some(v) = c.queue.pop_front() {
            if let Some((s, w)) = c.senders.pop_front() {
                c.queue.push_back(w);
                self.ready(&s, RtPayload::Nothing);
            }
            return Some(v);
        }
        if let Some((s, v)) = c.senders.pop_front() {
            self.ready(&s, RtPayload::Nothing);
            return Some(v);
        }
        None
    }
    fn give(mut self, me: &str, ch: u64, v: RtPayload, wait: bool) -> Vec<Model> {
        let c = self.chans.get_mut(&ch).unwrap();
        let ok = if wait { RtPayload::Nothing } else { RtPayload::Bool(true) };
        if let Some(r) = c.receivers.front().cloned() {
            self.ready(me, ok);
            return self.hand(ch, &r, v);
        }
        if c.queue.len() < c.cap {
            c.queue.push_back(v);
            self.ready(me, ok);
        } else if wait {
            c.senders.push_back((me.into(), v));
            self.t(me).st = St::Send;
        } else {
            self.ready(me, RtPayload::Bool(false));
        }
        vec![self]
    }
    fn finish(&mut self, k: &str, v: RtPayload) {
        self.t(k).st = St::Done;
        let wake: Vec<String> = self.awaiting.iter().filter(|(_, t)| t == k).map(|(w, _)| w.clone()).collect();
        self.awaiting.retain(|(w, t)| t != k && w != k);
        self.results.insert(k.into(), v.clone());
        for w in wake {
            if self.tasks[&w].st == St::Await {
                self.ready(&w, v.clone());
            }
        }
    }
    fn key_of(&self, id: u64) -> Option<String> {
        self.tasks.iter().find(|(_, t)| t.id == Some(id)).map(|(k, _)| k.clone())
    }
    /// May `k` run now, and must it see `ctx`?
    fn may_poll(&self, p: &Polled, policy: SchedulePolicy) -> Result<(), &'static str> {
        let Some(t) = self.tasks.get(&p.key) else { return Err("unknown-task") };
        if t.st != St::Ready {
            return Err(if t.st == St::Done { "finished-task-ran" } else { "blocked-task-ran" });
        }
        let ready: Vec<&MTask> = self.tasks.values().filter(|t| t.st == St::Ready).collect();
        let fair = match policy {
            SchedulePolicy::Fifo | SchedulePolicy::RoundRobin => ready.iter().all(|o| o.stamp >= t.stamp),
            SchedulePolicy::Lifo => ready.iter().all(|o| o.stamp <= t.stamp),
            SchedulePolicy::Priority => ready.iter().all(|o| o.prio < t.prio || (o.prio == t.prio && o.stamp >= t.stamp)),
            SchedulePolicy::Random => true,
        };
        if !fair {
            return Err("policy-not-followed");
        }
        if p.ctx.0 != t.val {
            return Err("wrong-value");
        }
        if p.ctx.1 != t.arm {
            return Err("wrong-arm");
        }
        if p.ctx.2.is_some() != t.chan.is_some() || p.ctx.3.is_some() != t.child.is_some() {
            return Err("wrong-handle");
        }
        if p.ctx.2.is_some_and(|c| self.chans.contains_key(&c)) {
            return Err("channel-id-reused");
        }
        if let (Some(id), Some(child)) = (p.ctx.3, &t.child) {
            if self.tasks.iter().any(|(k, t)| t.id == Some(id) && k != child) {
                return Err("task-id-reused");
            }
        }
        Ok(())
    }
    fn polled(mut self, p: &Polled, prog: &Program, default_cap: usize) -> Vec<Model> {
        let k = p.key.as_str();
        self.step += 1;
        {
            let t = self.t(k);
            t.val = RtPayload::Nothing;
            t.arm = None;
            let chan = t.chan.take();
            let child = t.child.take();
            if let (Some(cap), Some(c)) = (chan, p.ctx.2) {
                self.chans.insert(c, MChan { cap: cap.unwrap_or(default_cap), queue: VecDeque::new(), senders: VecDeque::new(), receivers: VecDeque::new(), closed: false });
            }
            if let (Some(child), Some(id)) = (child, p.ctx.3) {
                self.t(&child).id = Some(id);
            }
        }
        match &p.step {
            Step::Yield => self.ready(k, RtPayload::Nothing),
            Step::Recv(c) => match self.take(*c) {
                Some(v) => self.ready(k, v),
                None if self.chans[c].closed => self.ready(k, RtPayload::Nothing),
                None => {
                    self.chans.get_mut(c).unwrap().receivers.push_back(k.into());
                    self.t(k).st = St::Recv;
                }
            },
            Step::TryRecv(c) => {
                let v = self.take(*c).unwrap_or(RtPayload::Nothing);
                self.ready(k, v);
            }
            Step::Send(c, v) => return self.give(k, *c, v.clone(), true),
            Step::TrySend(c, v) => return self.give(k, *c, v.clone(), false),
            Step::Select(arms) => {
                let can: Vec<usize> = (0..arms.len()).filter(|i| matches!(arms[*i], Ok(c) if { let c = &self.chans[&c]; !c.queue.is_empty() || !c.senders.is_empty() || c.closed })).collect();
                if !can.is_empty() {
                    return can
                        .into_iter()
                        .map(|i| {
                            let mut m = self.clone();
                            let v = m.take(*arms[i].as_ref().unwrap()).unwrap_or(RtPayload::Nothing);
                            m.ready(k, v);
                            m.t(k).arm = Some(i);
                            m
                        })
                        .collect();
                }
                for (i, a) in arms.iter().enumerate() {
                    match a {
                        Ok(c) => {
                            let r = &mut self.chans.get_mut(c).unwrap().receivers;
                            if !r.contains(&k.to_string()) {
                                r.push_back(k.into());
                            }
                        }
                        Err(d) => self.timers.push((self.clock + d, k.into(), Some(i))),
                    }
                }
                self.t(k).st = St::Select(arms.clone());
            }
            Step::Sleep(d) => {
                self.timers.push((self.clock + d, k.into(), None));
                self.t(k).st = St::Timer;
            }
            Step::NewChan(c) => {
                self.ready(k, RtPayload::Nothing);
                self.t(k).chan = Some(*c);
            }
            Step::Spawn(key, s) => {
                self.add(key.clone(), prog.scripts[*s as usize].0, None);
                self.ready(k, RtPayload::Nothing);
                self.t(k).child = Some(key.clone());
            }
            Step::Await(id) => match self.key_of(*id) {
                Some(t) => match self.results.get(&t).cloned() {
                    Some(v) => self.ready(k, v),
                    None => {
                        self.awaiting.push((k.into(), t));
                        self.t(k).st = St::Await;
                    }
                },
                None => self.ready(k, RtPayload::Nothing),
            },
            Step::Abort(id) => {
                self.ready(k, RtPayload::Nothing);
                if let Some(t) = self.key_of(*id) {
                    if self.tasks[&t].st != St::Done {
                        self.unpark(&t);
                        for c in self.chans.values_mut() {
                            c.senders.retain(|(s, _)| *s != t);
                        }
                        self.finish(&t, RtPayload::Nothing);
                    }
                }
            }
            Step::Close(c) => {
                let ch = self.chans.get_mut(c).unwrap();
                ch.closed = true;
                let woken: Vec<String> = ch.receivers.iter().cloned().collect();
                self.ready(k, RtPayload::Nothing);
                let mut all = vec![self];
                for w in woken {
                    all = distinct(all.into_iter().flat_map(|m| m.hand(*c, &w, RtPayload::Nothing)).collect());
                }
                return all;
            }
            Step::Io => self.t(k).st = St::Io,
            Step::Exit(v) => {
                if k == "m" {
                    self.main = Some(v.clone());
                }
                self.finish(k, v.clone());
            }
        }
        vec![self]
    }
    fn any_ready(&self) -> bool {
        self.tasks.values().any(|t| t.st == St::Ready)
    }
    fn tick(mut self) -> Vec<Model> {
        self.step += 1;
        let Some(at) = self.timers.iter().map(|t| t.0).min() else { return vec![] };
        self.clock = at;
        let due: Vec<_> = self.timers.iter().filter(|t| t.0 == at).cloned().collect();
        let who: BTreeSet<String> = due.iter().map(|d| d.1.clone()).collect();
        let mut all = vec![self];
        for k in who {
            let arms: Vec<Option<usize>> = due.iter().filter(|d| d.1 == k).map(|d| d.2).collect();
            all = all
                .into_iter()
                .flat_map(|mut m| {
                    m.unpark(&k);
                    m.ready(&k, RtPayload::Nothing);
                    arms.iter()
                        .map(|a| {
                            let mut m = m.clone();
                            m.t(&k).arm = *a;
                            m
                        })
                        .collect::<Vec<_>>()
                })
                .collect();
            all = distinct(all);
        }
        all
    }
    fn outcome(&self) -> Option<RunOutcome> {
        if self.any_ready() || !self.timers.is_empty() {
            return None;
        }
        Some(if self.tasks.values().all(|t| t.st == St::Done) {
            RunOutcome::Done(self.main.clone().unwrap_or(RtPayload::Nothing))
        } else if self.tasks.values().any(|t| t.st == St::Io) {
            RunOutcome::WaitingForIo
        } else {
            RunOutcome::Deadlock
        })
    }
    /// Does the public snapshot show this state?
    fn shown(&self, s: &SchedSnapshot) -> Result<(), &'static str> {
        if s.clock != self.clock {
            return Err("wrong-time");
        }
        if s.ready_len != self.tasks.values().filter(|t| t.st == St::Ready).count() {
            return Err("wrong-ready-set");
        }
        if s.tasks.len() != self.tasks.len() {
            return Err("wrong-task-count");
        }
        for v in &s.tasks {
            if let Some(k) = self.key_of(v.id.0) {
                let same = match (&self.tasks[&k].st, v.kind) {
                    (St::Ready, TaskStateKind::Ready) => true,
                    (St::Recv, TaskStateKind::BlockedRecv) => true,
                    (St::Send, TaskStateKind::BlockedSend) => true,
                    (St::Select(_), TaskStateKind::BlockedSelect) => true,
                    (St::Timer, TaskStateKind::BlockedTimer) => true,
                    (St::Await, TaskStateKind::BlockedAwait) => true,
                    (St::Io, TaskStateKind::BlockedIo) => true,
                    (St::Done, TaskStateKind::Done) => true,
                    _ => false,
                };
                if !same {
                    return Err("wrong-task-state");
                }
            }
        }
        for v in &s.channels {
            if let Some(c) = self.chans.get(&v.id.0) {
                if v.depth != c.queue.len() || v.depth > c.cap {
                    return Err("wrong-pipe-content");
                }
                if v.closed != c.closed || v.blocked_senders != c.senders.len() || (v.blocked_receivers == 0) != c.receivers.is_empty() {
                    return Err("wrong-pipe-waiters");
                }
            }
        }
        Ok(())
    }
}

fn config() -> SchedulerConfig {
    SchedulerConfig::default()
        .with_policy(one(&[SchedulePolicy::Fifo, SchedulePolicy::Lifo, SchedulePolicy::RoundRobin, SchedulePolicy::Random, SchedulePolicy::Priority]))
        .with_channel_capacity(range(0, 3) as usize)
}
thread_local!(static TOO_MANY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// Without repetitions; the run is given up when too many legal states are left to follow.
fn distinct(mut states: Vec<Model>) -> Vec<Model> {
    if states.len() > 16 {
        let mut seen = std::collections::HashSet::new();
        states.retain(|m| seen.insert(format!("{m:?}")));
    }
    if states.len() > 1000 {
        TOO_MANY.with(|t| t.set(true));
        states.truncate(1000);
    }
    states
}

/// Keep the states for which `f` holds; if none is left the step was illegal.
fn keep(states: Vec<Model>, what: &dyn std::fmt::Debug, prog: &Program, hist: &[String], f: impl Fn(&Model) -> Result<(), &'static str>) -> Vec<Model> {
    let mut why = "no-legal-step";
    let last = states.last().cloned();
    let left: Vec<Model> = states
        .into_iter()
        .filter(|m| match f(m) {
            Ok(()) => true,
            Err(e) => {
                why = e;
                false
            }
        })
        .collect();
    if left.is_empty() {
        sim::violation(why, format!("{what:?} is not allowed; model: {last:?}; before: {}; program {:?}", hist.join("; "), prog.scripts));
    }
    left
}

fn t02() {
    let prog = Arc::new(program(true));
    let cfg = config();
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let mut s: Scheduler<'static> = Scheduler::new(cfg, Chooser::record(SchedSeed(sim::entropy())));
    let main = s.spawn_main(Box::new(Script::main(&prog, Some(log.clone()), false)));
    let mut states = vec![Model::new(prog.scripts[0].0, main.0)];
    let mut hist: Vec<String> = Vec::new();
    let mut idle = 0;
    for n in 0.. {
        ensure!(n < 5000, "never-ends", "the program is finite and the scheduler still runs: {}", hist.join("; "));
        if chance(0.05) {
            let any = s.wake_io();
            states = keep(states, &"wake_io", &prog, &hist, |m| if m.tasks.values().any(|t| t.st == St::Io) == any { Ok(()) } else { Err("wake-io") });
            for m in &mut states {
                m.step += 1;
                let io: Vec<String> = m.tasks.iter().filter(|(_, t)| t.st == St::Io).map(|(k, _)| k.clone()).collect();
                for k in io {
                    m.ready(&k, RtPayload::Nothing);
                }
            }
        }
        let out = s.poll_once();
        let ev = log.borrow_mut().pop();
        match (&ev, &out) {
            (Some(p), None) => {
                sim::note("poll", format!("{} {:?} -> {:?}", p.key, p.ctx, p.step));
                hist.push(format!("{} {:?} -> {:?}", p.key, p.ctx, p.step));
                states = keep(states, p, &prog, &hist, |m| m.may_poll(p, cfg.policy));
                states = states.into_iter().flat_map(|m| m.polled(p, &prog, cfg.default_channel_capacity)).collect();
                match p.step {
                    Step::Abort(_) => sim::count("fault:task_stopped"),
                    Step::Close(_) => sim::count("fault:pipe_closed"),
                    _ => {}
                }
            }
            (None, None) => {
                hist.push("tick".into());
                sim::note("tick", String::new());
                sim::count("timer_ticks");
                states = keep(states, &"advancing time", &prog, &hist, |m| if m.any_ready() { Err("time-moved-with-work-left") } else if m.timers.is_empty() { Err("time-moved-without-timer") } else { Ok(()) });
                states = states.into_iter().flat_map(|m| m.tick()).collect();
            }
            (None, Some(o)) => {
                states = keep(states, o, &prog, &hist, |m| if m.outcome().as_ref() == Some(o) { Ok(()) } else { Err("wrong-outcome") });
                if *o == RunOutcome::WaitingForIo && idle < 50 {
                    idle += 1;
                    s.wake_io();
                    for m in &mut states {
                        m.step += 1;
                        let io: Vec<String> = m.tasks.iter().filter(|(_, t)| t.st == St::Io).map(|(k, _)| k.clone()).collect();
                        for k in io {
                            m.ready(&k, RtPayload::Nothing);
                        }
                    }
                    continue;
                }
                sim::count(match o {
                    RunOutcome::Done(_) => "finished",
                    RunOutcome::Deadlock => "deadlocked",
                    RunOutcome::WaitingForIo => "waiting",
                });
                break;
            }
            (Some(p), Some(_)) => sim::violation("ran-at-the-end", format!("{p:?}")),
        }
        states = distinct(states);
        if TOO_MANY.with(|t| t.get()) {
            sim::count("not followed to the end");
            break;
        }
        let snap = s.snapshot();
        let what = hist.last().cloned();
        states = keep(states, &(what, &snap), &prog, &hist, |m| m.shown(&snap));
    }
    if hist.len() > 6 {
        sim::nontrivial();
    }
    sim::sample(format!("{:?} {:?}: {} polls and ticks, {} legal states at the end", cfg.policy, prog.scripts, hist.len(), states.len()));
}

// ---------------------------------------------------------------- T01

struct Ran {
    out: Vec<String>,
    end: RunOutcome,
    trace: SchedTrace,
}
/// A task that also writes its output lines where the caller sees them.
struct Loud(Script, Rc<RefCell<Vec<String>>>);
impl Task<'static> for Loud {
    fn poll(&mut self, c: &mut TaskCtx) -> TaskStep<'static> {
        let step = self.0.poll(c);
        self.1.borrow_mut().extend(self.0.take_output());
        match step {
            TaskStep::Spawn(_) => {
                let (key, s) = (format!("{}.{}", self.0.key, self.0.kids), match &self.0.prog.scripts[self.0.which].1[self.0.pc - 1] {
                    Op::Spawn(s) => *s,
                    _ => unreachable!(),
                });
                TaskStep::Spawn(Box::new(Loud(self.0.child(key, s), self.1.clone())))
            }
            o => o,
        }
    }
    fn priority(&self) -> u8 {
        self.0.priority()
    }
}
fn cooperative(prog: &Arc<Program>, cfg: SchedulerConfig, chooser: Chooser, slices: bool) -> Ran {
    let out = Rc::new(RefCell::new(Vec::new()));
    let mut s: Scheduler<'static> = Scheduler::new(cfg, chooser);
    s.spawn_main(Box::new(Loud(Script::main(prog, None, false), out.clone())));
    let mut io = 0;
    let end = loop {
        let r = if slices {
            let r = s.run_slice(pick(5) as usize);
            s.snapshot();
            r
        } else {
            Some(s.run())
        };
        match r {
            Some(RunOutcome::WaitingForIo) if io < 50 => {
                io += 1;
                s.wake_io();
            }
            Some(o) => break o,
            None => {}
        }
    };
    let out = out.borrow().clone();
    Ran { out, end, trace: s.into_trace() }
}
fn same(a: &Ran, b: &Ran, what: &str, prog: &Program) {
    ensure!(a.out == b.out, "output-differs", "{what}: {:?} and {:?}; program {:?}", a.out, b.out, prog.scripts);
    ensure!(a.end == b.end, "outcome-differs", "{what}: {:?} and {:?}; program {:?}", a.end, b.end, prog.scripts);
    ensure!(a.trace == b.trace, "decisions-differ", "{what}: {:?} and {:?}; program {:?}", a.trace, b.trace, prog.scripts);
}
/// Move the heap and the clock, so that addresses and times differ between the runs.
pub fn disturb() -> Vec<Vec<u8>> {
    sim::clock_jump(0, range(0, 10_000_000) as i64 - 5_000_000);
    (0..pick(8)).map(|_| vec![0u8; pick(300) as usize]).collect()
}
fn t01_runtime() {
    let prog = Arc::new(program(true));
    let cfg = config();
    let seed = SchedSeed(sim::entropy());
    let a = cooperative(&prog, cfg, Chooser::record(seed), false);
    let _heap = disturb();
    let b = cooperative(&prog, cfg, Chooser::record(seed), chance(0.5));
    same(&a, &b, "the same seed twice", &prog);
    let _heap = disturb();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cooperative(&prog, cfg, Chooser::replay(a.trace.clone()), chance(0.5))));
    match r {
        Ok(c) => same(&a, &c, "a recorded run and its replay", &prog),
        Err(_) => sim::violation("replay-refused", format!("replaying {:?} failed; program {:?}", a.trace, prog.scripts)),
    }
    if a.trace.choices.len() > 1 && a.out.len() > 3 {
        sim::nontrivial();
    }
    sim::note("run", format!("{:?} {:?}", a.out, a.trace));
    sim::sample(format!("{:?}: {} lines, {} decisions, {:?}", cfg.policy, a.out.len(), a.trace.choices.len(), a.end));
}

// ---------------------------------------------------------------- T03

fn t03_runtime() {
    let prog = Arc::new(program(false));
    let cfg = SchedulerConfig::default().with_channel_capacity(range(0, 3) as usize).with_workers(range(1, 4) as usize);
    let seed = SchedSeed(sim::entropy());
    let a = cooperative(&prog, cfg, Chooser::record(seed), false);
    let p2 = prog.clone();
    let w = run_workstealing_seeded(cfg, seed, SpawnDesc { func: 0, args: vec![], priority: 0, is_main: true }, move |d| -> Box<dyn Task<'static>> { Box::new(rebuild(&p2, d)) });
    let b = Ran { out: w.output, end: w.outcome, trace: w.trace };
    same(&a, &b, &format!("one thread and {} workers", cfg.workers), &prog);
    if a.out.len() > 3 && cfg.workers > 1 {
        sim::nontrivial();
    }
    sim::sample(format!("{} workers: {} lines, {:?}", cfg.workers, a.out.len(), a.end));
}

fn t01() {
    if chance(0.2) {
        crate::lang::t01()
    } else {
        t01_runtime()
    }
}

fn t03() {
    let node = sim::node::add("n");
    crate::util::swarm_sched();
    sim::node::spawn(node, "main", if chance(0.4) { crate::lang::t03 } else { t03_runtime });
    sim::node::wait_for(1_000_000, 60_000_000_000, || sim::node::finished(node));
    ensure!(sim::node::finished(node), "hangs", "the parallel run does not end");
}

const REAL: &[&str] = &["logicaffeine_runtime::scheduler", "logicaffeine_runtime::channel", "logicaffeine_runtime::seed"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "T01",
            scenario: t01,
            runs: 30000,
            rule: "one run = one random program of tasks and pipes with one scheduling seed and policy, executed twice and replayed from its trace with other slicing, heap layout, hash keys and wall clock; non-trivial when it printed more than three lines and took more than one decision; distinct by history hash",
            real: REAL,
            stubs: &["task bodies (fixed operation lists)"],
            assumptions: &[],
        },
        Prop {
            id: "T02",
            scenario: t02,
            runs: 90000,
            rule: "one run = one random program of tasks and pipes under one policy and seed, each poll, time step and public snapshot compared with the set of states the reference model allows; non-trivial with more than six steps; distinct by history hash",
            real: REAL,
            stubs: &["task bodies (fixed operation lists)"],
            assumptions: &["waiting parties of a pipe are served in the order they came", "a send to a closed pipe is accepted like any other"],
        },
        Prop {
            id: "T03",
            scenario: t03,
            runs: 8000,
            rule: "one run = one random program executed by the single-threaded driver and by 1-4 real worker threads under simulated thread scheduling, same seed; non-trivial with several workers and more than three output lines; distinct by thread-interleaving hash",
            real: &["logicaffeine_runtime::executor", "logicaffeine_runtime::scheduler", "std::sync::mpsc", "std::thread"],
            stubs: &["task bodies (fixed operation lists)"],
            assumptions: &[],
        },
    ]
}
