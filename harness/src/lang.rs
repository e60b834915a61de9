//! Concurrent LOGOS programs: a generator, and the cross-tier checks built on it.

use sim::{chance, one, pick, range, Prop};

/// Generates one program from the run's decisions. Every line it prints names its task.
pub struct Gen {
    out: String,
    vars: u32,
    /// Functions still to be generated; function `i` may launch or call only later ones.
    funs: u64,
    me: u64,
    pub sources: Sources,
}
/// Which constructs a program may use.
#[derive(Clone, Copy)]
pub struct Sources {
    pub select: bool,
    pub stop: bool,
    pub attempt: bool,
    pub errors: bool,
    pub hot: bool,
}
/// Names visible at a point of the program.
#[derive(Clone, Default)]
struct Scope {
    ints: Vec<String>,
    pipes: Vec<String>,
    texts: Vec<String>,
    lists: Vec<String>,
    handles: Vec<String>,
}
impl Gen {
    fn line(&mut self, depth: usize, s: &str) {
        self.out.push_str(&"    ".repeat(depth));
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn fresh(&mut self, p: &str) -> String {
        self.vars += 1;
        format!("{p}{}", self.vars)
    }
    fn int(&mut self, sc: &Scope) -> String {
        let v = |sc: &Scope| if sc.ints.is_empty() { "2".to_string() } else { one(&sc.ints) };
        match pick(7) {
            0 => format!("{}", pick(10)),
            1 | 2 => v(sc),
            3 => format!("{} + {}", v(sc), pick(5)),
            4 => format!("{} * {}", v(sc), 1 + pick(3)),
            5 => format!("{} - {}", v(sc), v(sc)),
            _ if !sc.lists.is_empty() => format!("length of {}", one(&sc.lists)),
            _ => v(sc),
        }
    }
    fn cond(&mut self, sc: &Scope) -> String {
        let (a, b) = (self.int(sc), self.int(sc));
        format!("{a} is {} {b}", one(&["less than", "greater than", "equal to"]))
    }
    fn block(&mut self, d: usize, sc: &Scope, left: u64) {
        let mut sc = sc.clone();
        for _ in 0..range(1, 3) {
            self.stmt(d, &mut sc, left);
        }
    }
    fn stmt(&mut self, d: usize, sc: &mut Scope, left: u64) {
        let me = self.me;
        match pick(26) {
            0 | 1 => {
                let e = self.int(sc);
                let v = self.fresh("v");
                self.line(d, &format!("Let {v} be {e}."));
                self.line(d, &format!("Show {v}."));
                sc.ints.push(v);
            }
            2 => {
                let e = self.int(sc);
                self.line(d, &format!("Show {e}."));
            }
            3..=6 if !sc.pipes.is_empty() => {
                let (e, p) = (self.int(sc), one(&sc.pipes));
                self.line(d, &format!("Send {e} into {p}."));
            }
            7 | 8 if !sc.pipes.is_empty() => {
                let (v, p) = (self.fresh("v"), one(&sc.pipes));
                self.line(d, &format!("Receive {v} from {p}."));
                self.line(d, &format!("Show \"f{me} got\"."));
                self.line(d, &format!("Show {v}."));
                sc.ints.push(v);
            }
            9 if !sc.pipes.is_empty() && self.sources.select => {
                let (e, p) = (self.int(sc), one(&sc.pipes));
                self.line(d, &format!("Try to send {e} into {p}."));
            }
            10 if !sc.pipes.is_empty() && self.sources.select => {
                let (v, p) = (self.fresh("t"), one(&sc.pipes));
                self.line(d, &format!("Try to receive {v} from {p}."));
                self.line(d, &format!("Show {v}."));
            }
            11 | 12 if !sc.pipes.is_empty() && self.sources.select && left > 0 => {
                self.line(d, "Await the first of:");
                let mut any = false;
                for _ in 0..range(1, 2) {
                    let (v, p) = (self.fresh("v"), one(&sc.pipes));
                    self.line(d + 1, &format!("Receive {v} from {p}:"));
                    let mut inner = sc.clone();
                    inner.ints.push(v.clone());
                    self.line(d + 2, &format!("Show {v}."));
                    self.block(d + 2, &inner, left - 1);
                    any = true;
                }
                if !any || chance(0.6) {
                    self.line(d + 1, &format!("After {} seconds:", pick(4)));
                    self.line(d + 2, &format!("Show \"f{me} late\"."));
                    self.block(d + 2, sc, left - 1);
                }
            }
            13 | 14 if left > 0 => {
                let i = self.fresh("i");
                self.line(d, &format!("Let {i} be 0."));
                self.line(d, &format!("While {i} is less than {}:", 1 + pick(4)));
                let mut inner = sc.clone();
                inner.ints.push(i.clone());
                self.line(d + 1, &format!("Set {i} to {i} + 1."));
                self.block(d + 1, &inner, left - 1);
            }
            15 if left > 0 => {
                let c = self.cond(sc);
                self.line(d, &format!("If {c}:"));
                self.block(d + 1, sc, left - 1);
                if chance(0.5) {
                    self.line(d, "Otherwise:");
                    self.block(d + 1, sc, left - 1);
                }
            }
            16 | 17 if self.me + 1 < self.funs && sc.pipes.len() > 1 => {
                let f = self.me + 1 + pick(self.funs - self.me - 1);
                let (a, b, e) = (one(&sc.pipes), one(&sc.pipes), pick(6));
                if self.sources.stop && chance(0.4) {
                    let h = self.fresh("h");
                    self.line(d, &format!("Let {h} be Launch a task to work{f} with {a} and {b} and words and {e}."));
                    sc.handles.push(h);
                } else {
                    self.line(d, &format!("Launch a task to work{f} with {a} and {b} and words and {e}."));
                }
            }
            18 if !sc.handles.is_empty() => {
                let h = one(&sc.handles);
                self.line(d, &format!("Stop {h}."));
            }
            19 => self.line(d, &format!("Sleep {}.", pick(4))),
            20 if self.sources.errors && chance(0.3) => {
                let (v, e) = (self.fresh("v"), self.int(sc));
                self.line(d, &format!("Let {v} be {e} / 0."));
            }
            20 if self.sources.attempt && sc.pipes.len() > 1 => {
                let kind = one(&["Attempt all of the following:", "Simultaneously:"]);
                self.line(d, kind);
                for _ in 0..range(1, 3) {
                    let (e, p) = (self.int(sc), one(&sc.pipes));
                    self.line(d + 1, &format!("Send {e} into {p}."));
                }
            }
            21 if self.sources.hot => {
                let (i, t) = (self.fresh("i"), self.fresh("v"));
                self.line(d, &format!("Let {t} be 0."));
                self.line(d, &format!("Let {i} be 0."));
                self.line(d, &format!("While {i} is less than {}:", 50 + pick(400)));
                let e = self.int(sc);
                self.line(d + 1, &format!("Set {t} to {t} + {i}."));
                self.line(d + 1, &format!("If {i} is greater than {e}:"));
                self.line(d + 2, &format!("Set {t} to {t} - 3."));
                self.line(d + 1, &format!("Set {i} to {i} + 1."));
                self.line(d, &format!("Show {t}."));
                sc.ints.push(t);
            }
            22 if self.me + 1 < self.funs && sc.pipes.len() > 1 => {
                // A call: the callee's pipe operations suspend this task too.
                let f = self.me + 1 + pick(self.funs - self.me - 1);
                let (a, b) = (one(&sc.pipes), one(&sc.pipes));
                self.line(d, &format!("Call work{f} with {a} and {b} and words and {}.", pick(6)));
            }
            23 => {
                let v = self.int(sc);
                let t = match sc.texts.is_empty() {
                    true => format!("\"f{me} says\""),
                    false => format!("{} + \"!\"", one(&sc.texts)),
                };
                if chance(0.5) {
                    self.line(d, &format!("Show {v}."));
                }
                self.line(d, &format!("Send {t} into words."));
            }
            24 => {
                let v = self.fresh("s");
                let w = if chance(0.5) { "Try to receive" } else { "Receive" };
                self.line(d, &format!("{w} {v} from words."));
                self.line(d, &format!("Show {v}."));
                if w == "Receive" {
                    sc.texts.push(v);
                }
            }
            25 => {
                let l = self.fresh("l");
                let (a, b) = (self.int(sc), self.int(sc));
                self.line(d, &format!("Let {l} be [{a}, {b}]."));
                self.line(d, &format!("Push {} to {l}.", pick(9)));
                self.line(d, &format!("Show {l}."));
                sc.lists.push(l);
            }
            _ => {
                let e = self.int(sc);
                self.line(d, &format!("Show {e}."));
            }
        }
    }
    pub fn program(sources: Sources) -> String {
        let funs = range(1, 4);
        let mut g = Gen { out: String::new(), vars: 0, funs, me: 0, sources };
        for f in 1..funs {
            g.me = f;
            g.line(0, &format!("## To work{f} (a: Int, b: Int, words: Int, n: Int):"));
            let mut sc = Scope { ints: vec!["n".into()], pipes: vec!["a".into(), "b".into()], ..Default::default() };
            g.line(1, &format!("Show \"f{f} starts\"."));
            for _ in 0..range(1, 6) {
                g.stmt(1, &mut sc, 2);
            }
            g.line(0, "");
        }
        g.me = 0;
        g.line(0, "## Main");
        g.line(1, "Let words be a Pipe of Text.");
        let mut sc = Scope::default();
        for _ in 0..range(2, 3) {
            let p = g.fresh("p");
            g.line(1, &format!("Let {p} be a Pipe of Int."));
            sc.pipes.push(p);
        }
        for _ in 0..range(2, 9) {
            g.stmt(1, &mut sc, 2);
        }
        g.out
    }
}
pub fn full() -> Sources {
    Sources { select: true, stop: true, attempt: true, errors: true, hot: false }
}

/// Drives a future that never waits for anything outside the program.
fn drive<T>(f: impl std::future::Future<Output = T>) -> T {
    let waker = std::sync::Arc::new(Idle).into();
    let mut cx = std::task::Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
struct Idle;
impl std::task::Wake for Idle {
    fn wake(self: std::sync::Arc<Self>) {}
}

type Res = (Vec<String>, Option<String>);
fn treewalker(src: &str, seed: u64) -> Res {
    let r = logicaffeine_compile::run_treewalker_concurrent_seeded(src, seed);
    (r.lines, r.error)
}
fn machine(src: &str, seed: u64) -> Res {
    let r = logicaffeine_compile::run_vm_concurrent_seeded(src, seed);
    (r.lines, r.error)
}
fn told(src: &str, r: &Res) {
    match &r.1 {
        None => sim::count("finished"),
        Some(e) if e.contains("deadlock") => sim::count("deadlocked"),
        Some(e) => sim::count(if e == "Division by zero" { "failed" } else { "rejected" }),
    }
    sim::note("program", format!("{src}\n{r:?}"));
    if r.0.len() > 2 {
        sim::nontrivial();
    }
    sim::sample(format!("{} lines of output, {:?}, program:\n{src}", r.0.len(), r.1));
}

/// The same program and seed again, and through the entry points that stream their output.
pub fn t01() {
    let src = Gen::program(full());
    let seed = if chance(0.5) { 0 } else { sim::entropy() };
    let vm = chance(0.5);
    let run = |seed| if vm { machine(&src, seed) } else { treewalker(&src, seed) };
    let a = run(seed);
    let _heap = crate::sched::disturb();
    let b = run(seed);
    sim::ensure!(a == b, "runs-differ", "first {a:?}, then {b:?}; seed {seed}, vm {vm}, program:\n{src}");
    if seed == 0 && !vm {
        let heard = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
        let h2 = heard.clone();
        let r = drive(logicaffeine_compile::interpret_streaming(&src, std::rc::Rc::new(std::cell::RefCell::new(move |l: String| h2.borrow_mut().push(l)))));
        let c = (r.lines, r.error);
        sim::ensure!(a == c, "streaming-differs", "plain {a:?}, streaming {c:?}; program:\n{src}");
        sim::ensure!(*heard.borrow() == c.0, "stream-differs", "streamed {:?}, result {c:?}; program:\n{src}", heard.borrow());
        sim::count("streamed");
    }
    told(&src, &a);
}

/// One thread against several workers, on the bytecode machine.
pub fn t03() {
    let src = Gen::program(full());
    let seed = sim::entropy();
    let workers = range(1, 4);
    let a = machine(&src, seed);
    let r = logicaffeine_compile::run_vm_workstealing_seeded(&src, seed, workers as usize);
    let b = (r.lines, r.error);
    sim::ensure!(a == b, "workers-differ", "one thread {a:?}, {workers} workers {b:?}; seed {seed}, program:\n{src}");
    told(&src, &a);
}

fn t04() {
    let src = Gen::program(full());
    let seed = sim::entropy();
    let (tw, vm) = (treewalker(&src, seed), machine(&src, seed));
    sim::ensure!(tw.0 == vm.0, "output-differs", "interpreter {tw:?}, bytecode machine {vm:?}; seed {seed}, program:\n{src}");
    sim::ensure!(tw.1 == vm.1, "error-differs", "interpreter {:?}, bytecode machine {:?}; seed {seed}, program:\n{src}", tw.1, vm.1);
    told(&src, &tw);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "T04",
        scenario: t04,
        runs: 12000,
        rule: "one run = one random concurrent program and scheduling seed, run by the tree-walking interpreter and by the bytecode machine; non-trivial with more than two lines of output; distinct by program and output hash",
        real: &["parser", "tree-walking interpreter", "bytecode compiler and machine", "logicaffeine_runtime::scheduler"],
        stubs: &[],
        assumptions: &[],
    }]
}
