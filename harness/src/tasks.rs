//! T05: the tasks and pipes linked into compiled programs, on the real executor.
//!
//! A run builds a random set of pipes with several senders, one receiver each, tasks that are
//! stopped at arbitrary moments, and computations that take simulated time between cooperative
//! yields. Everything the program can observe is recorded in order and judged at the end.

use crate::util::{rt1, rtn, swarm_sched, Host};
use logicaffeine_runtime::seed::{SchedSeed, SeededRng};
use logicaffeine_system::concurrency::*;
use sim::{chance, ensure, node, pick, range, Prop};

const MS: u64 = 1_000_000;

#[derive(Clone, Copy, Default)]
struct Value {
    begun: u64,
    accepted: Option<u64>,
    received: Option<u64>,
}
#[derive(Default)]
struct Line {
    cap: usize,
    /// Values by sender, in the order the sender offered them.
    sent: Vec<Vec<Value>>,
    got: Vec<(usize, usize)>,
    open: usize,
    accepted: usize,
    ended: Option<u64>,
    /// The receiver is being given up, at which order.
    closing: Option<u64>,
    gone: Option<u64>,
}
#[derive(Default)]
struct Task {
    finished: bool,
    ended: bool,
    aborted: Option<u64>,
}
#[derive(Default)]
struct Log {
    seq: u64,
    lines: Vec<Line>,
    tasks: Vec<Task>,
    picks: Vec<(usize, usize)>,
    ticks: Vec<u64>,
    single: bool,
    ran_on: Option<String>,
}
type H = Host<Log>;

fn tick(h: &H) -> u64 {
    h.with(|l| {
        l.seq += 1;
        l.seq
    })
}
/// A suspension point of task `id` that certainly gives up the thread: nothing may follow it once
/// the task has been stopped.
struct Susp(H, usize, u64);
impl Susp {
    fn new(h: &H, id: usize) -> Susp {
        Susp(h.clone(), id, tick(h))
    }
    fn resumed(self) {
        let now = tick(&self.0);
        let (h, id, begun) = (self.0.clone(), self.1, self.2);
        h.with(|l| {
            if let Some(a) = l.tasks[id].aborted {
                if now > a && (l.single || begun > a) && l.ran_on.is_none() {
                    l.ran_on = Some(format!("task {id} was stopped at step {a} and still resumed at step {now} from a wait begun at step {begun}"));
                }
            }
        })
    }
}
/// Marks a sender as gone. Dropped before the sender itself, on return or when stopped.
struct Gone(H, usize);
impl Drop for Gone {
    fn drop(&mut self) {
        self.0.with(|l| l.lines[self.1].open -= 1)
    }
}
/// One sender: the fields go in this order.
struct Tx {
    _gone: Gone,
    tx: PipeSender<(usize, usize)>,
}
/// Marks the end of a task, however it ends.
struct Ended(H, usize);
impl Drop for Ended {
    fn drop(&mut self) {
        self.0.with(|l| l.tasks[self.1].ended = true)
    }
}

#[derive(Clone, Copy, Debug)]
enum Step {
    Send,
    Try,
    Yield,
    Sleep(u64),
    Burn(u64),
}
#[derive(Clone, Copy, Debug)]
enum Take {
    Recv,
    Try,
    Yield,
    Burn(u64),
}
#[derive(Clone, Copy, Debug)]
enum Finish {
    Drain,
    Close,
    Drop,
}

async fn pause(h: &H, id: usize) {
    let s = Susp::new(h, id);
    NativeRuntime.yield_now().await;
    s.resumed();
}
async fn rest(h: &H, id: usize, ms: u64) {
    let t = sim::now();
    let s = Susp::new(h, id);
    NativeRuntime.sleep_ms(ms).await;
    // A wait of no time at all need not give up the thread.
    if ms > 0 {
        s.resumed();
    }
    let d = sim::now() - t;
    ensure!(d >= ms * MS, "short-sleep", "a sleep of {ms} ms returned after {d} ns");
}
async fn burn(ms: u64) {
    node::sleep(ms * MS);
    check_preemption().await;
}

async fn sender(e: Ended, line: usize, me: usize, tx: Tx, steps: Vec<Step>) -> usize {
    let (h, id) = (e.0.clone(), e.1);
    let tx = &tx;
    for s in steps {
        match s {
            Step::Send | Step::Try => {
                let begun = tick(&h);
                let k = h.with(|l| {
                    let v = &mut l.lines[line].sent[me];
                    v.push(Value { begun, ..Value::default() });
                    v.len() - 1
                });
                let ok = match s {
                    Step::Send => match tx.tx.send((me, k)).await {
                        Ok(()) => true,
                        Err(e) => {
                            ensure!(e.0 == (me, k), "value-changed", "a refused send handed back {:?} for {:?}", e.0, (me, k));
                            let closing = h.with(|l| l.lines[line].closing.is_some());
                            ensure!(closing, "refused-send", "a send was refused while the receiver was there");
                            ensure!(tx.tx.is_closed(), "refused-send", "a send was refused but the pipe says it is open");
                            false
                        }
                    },
                    _ => match tx.tx.try_send((me, k)) {
                        Ok(()) => true,
                        Err(e) => {
                            let closed = format!("{e:?}").starts_with("Closed");
                            let closing = h.with(|l| l.lines[line].closing.is_some());
                            ensure!(!closed || closing, "refused-send", "an immediate send was refused as closed while the receiver was there");
                            false
                        }
                    },
                };
                let at = tick(&h);
                let cap = h.with(|l| l.lines[line].cap);
                if ok {
                    let (over, late) = h.with(|l| {
                        let n = &mut l.lines[line];
                        n.sent[me][k].accepted = Some(at);
                        n.accepted += 1;
                        (n.accepted > n.got.len() + n.cap + 1 && n.gone.is_none(), [n.gone, n.ended].iter().flatten().any(|g| *g < begun))
                    });
                    ensure!(!over, "over-capacity", "pipe {line} of capacity {cap} accepted more values than it can hold");
                    ensure!(!late, "accepted-after-end", "pipe {line} accepted a value after its receiver had gone");
                    sim::count("values accepted");
                } else {
                    sim::count("values refused");
                }
                let c = tx.tx.capacity();
                ensure!(c <= cap, "over-capacity", "pipe {line} of capacity {cap} reports room for {c} values");
            }
            Step::Yield => pause(&h, id).await,
            Step::Sleep(ms) => rest(&h, id, ms).await,
            Step::Burn(ms) => burn(ms).await,
        }
    }
    h.with(|l| l.tasks[id].finished = true);
    id
}

fn got(h: &H, line: usize, v: (usize, usize)) {
    let at = tick(h);
    let twice = h.with(|l| {
        let n = &mut l.lines[line];
        n.got.push(v);
        let s = &mut n.sent[v.0][v.1];
        let twice = s.received.is_some();
        s.received = Some(at);
        twice
    });
    ensure!(!twice, "received-twice", "pipe {line} delivered value {v:?} twice");
    sim::count("values received");
}
fn ended(h: &H, line: usize) {
    let at = tick(h);
    let (open, missing, closing) = h.with(|l| {
        let n = &mut l.lines[line];
        n.ended = Some(at);
        let missing = n.sent.iter().enumerate().flat_map(|(s, v)| v.iter().enumerate().filter(|(_, v)| v.accepted.is_some() && v.received.is_none()).map(move |(k, _)| (s, k))).collect::<Vec<_>>();
        (n.open, missing, n.closing.is_some())
    });
    ensure!(open == 0 || closing, "early-end", "pipe {line} reported that all senders are gone while {open} were left");
    ensure!(missing.is_empty(), "lost-values", "pipe {line} ended with accepted values {missing:?} undelivered");
}

async fn receiver(e: Ended, line: usize, mut rx: PipeReceiver<(usize, usize)>, takes: Vec<Take>, fin: Finish) -> usize {
    let (h, id) = (e.0.clone(), e.1);
    let cap = h.with(|l| l.lines[line].cap);
    for t in takes {
        match t {
            Take::Recv => match rx.recv().await {
                Some(v) => got(&h, line, v),
                None => ended(&h, line),
            },
            Take::Try => {
                let held = rx.len();
                ensure!(held <= cap, "over-capacity", "pipe {line} of capacity {cap} holds {held} values");
                match rx.try_recv() {
                    Ok(v) => got(&h, line, v),
                    Err(e) => {
                        ensure!(held == 0, "false-empty", "pipe {line} holding {held} values had nothing to give");
                        if format!("{e:?}").starts_with("Disconnected") {
                            ended(&h, line);
                        }
                    }
                }
            }
            Take::Yield => pause(&h, id).await,
            Take::Burn(ms) => burn(ms).await,
        }
    }
    finish(&h, line, rx, fin).await;
    h.with(|l| l.tasks[id].finished = true);
    id
}
async fn finish(h: &H, line: usize, mut rx: PipeReceiver<(usize, usize)>, fin: Finish) {
    match fin {
        Finish::Drop => {
            let at = tick(h);
            h.with(|l| l.lines[line].closing = Some(at));
            // What is left at this moment goes down with the pipe.
            drop(rx);
            let at = tick(h);
            h.with(|l| l.lines[line].gone = Some(at));
        }
        Finish::Drain | Finish::Close => {
            if matches!(fin, Finish::Close) {
                let at = tick(h);
                h.with(|l| l.lines[line].closing = Some(at));
                rx.close();
                let at = tick(h);
                h.with(|l| l.lines[line].gone = Some(at));
            }
            while let Some(v) = rx.recv().await {
                got(h, line, v);
            }
            ended(h, line);
        }
    }
}

/// What a compiled `Select` does in deterministic mode: read every arm's readiness, pick one by
/// the seed, take it.
async fn selector(e: Ended, mut rx: Vec<(usize, PipeReceiver<(usize, usize)>)>, rounds: u64) -> usize {
    let (h, id) = (e.0.clone(), e.1);
    for _ in 0..rounds {
        let ready: Vec<usize> = (0..rx.len()).filter(|i| rx[*i].1.len() > 0).collect();
        if ready.is_empty() {
            pause(&h, id).await;
            continue;
        }
        let k = seeded_pick(ready.len());
        ensure!(k < ready.len(), "seeded-choice", "a choice among {} gave {k}", ready.len());
        h.with(|l| l.picks.push((ready.len(), k)));
        let (line, r) = &mut rx[ready[k]];
        match r.recv().await {
            Some(v) => got(&h, *line, v),
            None => sim::violation("false-ready", format!("pipe {line} said it held a value and then ended")),
        }
    }
    for (line, r) in rx {
        finish(&h, line, r, Finish::Drain).await;
    }
    h.with(|l| l.tasks[id].finished = true);
    id
}

/// A computation, or a task that only wants a turn now and then.
async fn hog(e: Ended, n: u64, ms: u64) -> usize {
    let (h, id) = (e.0.clone(), e.1);
    for _ in 0..n {
        burn(ms).await;
    }
    h.with(|l| l.tasks[id].finished = true);
    id
}
async fn ticker(e: Ended, stop: usize) -> usize {
    let (h, id) = (e.0.clone(), e.1);
    loop {
        let busy = h.with(|l| {
            l.ticks.push(sim::now());
            (0..stop).any(|t| !l.tasks[t].ended)
        });
        if !busy || h.with(|l| l.ticks.len() > 20000) {
            break;
        }
        NativeRuntime.yield_now().await;
    }
    h.with(|l| l.tasks[id].finished = true);
    id
}

enum Handle {
    Full(TaskHandle<usize>),
    Bare(SpawnedTask),
    Dropped,
}

fn t05() {
    let h: H = Host::new(Log::default());
    let workers = [0, 1, 2, 3][pick(4) as usize] as usize;
    let single = workers == 0;
    let fair = single && chance(0.4);
    swarm_sched();
    if fair {
        sim::cfg().p_stall = 0.0;
    }
    h.with(|l| l.single = single);
    let seed = if chance(0.7) { Some(sim::entropy()) } else { None };
    match seed {
        Some(s) => std::env::set_var("LOGOS_SEED", s.to_string()),
        None => std::env::remove_var("LOGOS_SEED"),
    }
    ensure!(deterministic_replay_enabled() == seed.is_some(), "seeded-mode", "deterministic mode does not follow the seed variable");

    let n = node::add("p");
    let hh = h.clone();
    node::spawn(n, "main", move || {
        let rt = if single { rt1() } else { rtn(workers) };
        rt.block_on(async move { program(hh, fair).await });
    });
    let done = node::wait_for(50 * MS, 3600_000 * MS, || node::finished(n));
    ensure!(done, "stuck", "the program did not finish within an hour of simulated time");
    h.with(|l| {
        if let Some(m) = &l.ran_on {
            sim::violation("ran-after-stop", m.clone());
        }
        for (i, n) in l.lines.iter().enumerate() {
            judge(i, n);
        }
        let mut r = SeededRng::new(SchedSeed(seed.unwrap_or(0)));
        for (k, (n, got)) in l.picks.iter().enumerate() {
            let want = r.below(*n);
            ensure!(*got == want, "seeded-choice", "choice {k} among {n} under seed {seed:?} was {got}, the interpreter's is {want}");
        }
        sim::count_n("seeded choices", l.picks.iter().filter(|p| p.0 > 1).count() as u64);
        let total: usize = l.lines.iter().map(|n| n.got.len()).sum();
        if total > 3 {
            sim::nontrivial();
        }
        sim::sample(format!("{} workers, {} pipes, {} tasks, {} stopped, {total} values received, {} seeded choices", workers, l.lines.len(), l.tasks.len(), l.tasks.iter().filter(|t| t.aborted.is_some()).count(), l.picks.len()));
    });
}

fn judge(i: usize, n: &Line) {
    // Order: per sender, and across senders wherever one send ended before the other began.
    for (x, a) in n.got.iter().enumerate() {
        let va = n.sent[a.0][a.1];
        for b in &n.got[x + 1..] {
            let vb = n.sent[b.0][b.1];
            ensure!(
                !(a.0 == b.0 && a.1 > b.1) && !vb.accepted.map_or(false, |e| e < va.begun),
                "reordered",
                "pipe {i} delivered {a:?} before {b:?}, which had been accepted before {a:?} was offered"
            );
        }
    }
    for (s, v) in n.sent.iter().enumerate() {
        for (k, v) in v.iter().enumerate() {
            if v.accepted.is_none() {
                ensure!(v.received.is_none(), "refused-delivered", "pipe {i} delivered value {k} of sender {s}, which it never accepted");
            }
        }
    }
}

async fn program(h: H, fair: bool) {
    let mut tasks: Vec<(Handle, bool)> = Vec::new();
    let lines = if fair { pick(2) + 1 } else { range(1, 3) } as usize;
    let slice = range(1, 8);
    let mut burners = 0;
    // A round of the program's tasks may start with a fresh timer or a stale one.
    if chance(0.3) {
        node::sleep(range(1, 15) * MS);
    }
    if chance(0.3) {
        reset_preemption_timer();
    }
    let mut sel = Vec::new();
    let selecting = chance(0.4);
    let add = |h: &H| {
        h.with(|l| {
            l.tasks.push(Task::default());
            l.tasks.len() - 1
        })
    };
    for line in 0..lines {
        let cap = range(1, 4) as usize;
        let (tx, rx) = Pipe::<(usize, usize)>::new(cap);
        ensure!(tx.capacity() == cap, "over-capacity", "a new pipe of capacity {cap} reports {}", tx.capacity());
        let k = range(1, 3) as usize;
        h.with(|l| l.lines.push(Line { cap, sent: vec![Vec::new(); k], open: k, ..Line::default() }));
        for s in 0..k {
            let mut burns = false;
            let steps: Vec<Step> = (0..range(1, 10))
                .map(|_| match pick(10) {
                    0..=5 => Step::Send,
                    6 => Step::Try,
                    7 => Step::Yield,
                    8 => Step::Sleep(pick(20)),
                    _ => {
                        burns = true;
                        Step::Burn(range(1, slice))
                    }
                })
                .collect();
            burners += burns as u64;
            let id = add(&h);
            let f = sender(Ended(h.clone(), id), line, s, Tx { _gone: Gone(h.clone(), line), tx: tx.clone() }, steps);
            tasks.push((start(f), true));
        }
        drop(tx);
        if selecting && line < 2 {
            sel.push((line, rx));
            continue;
        }
        let mut burns = false;
        let takes: Vec<Take> = (0..pick(12))
            .map(|_| match pick(10) {
                0..=4 => Take::Recv,
                5..=6 => Take::Try,
                7..=8 => Take::Yield,
                _ => {
                    burns = true;
                    Take::Burn(range(1, slice))
                }
            })
            .collect();
        burners += burns as u64;
        let fin = [Finish::Drain, Finish::Drain, Finish::Close, Finish::Drop][pick(4) as usize];
        let id = add(&h);
        tasks.push((start(receiver(Ended(h.clone(), id), line, rx, takes, fin)), false));
    }
    if !sel.is_empty() {
        let id = add(&h);
        tasks.push((start(selector(Ended(h.clone(), id), sel, range(1, 20))), false));
    }
    let hogs = if fair { range(1, 3) } else { pick(2) };
    for _ in 0..hogs {
        let id = add(&h);
        burners += 1;
        tasks.push((start(hog(Ended(h.clone(), id), range(1, 20), range(1, slice))), true));
    }
    let until = tasks.len();
    if fair {
        let id = add(&h);
        h.with(|l| l.ticks.push(sim::now()));
        tasks.push((start(ticker(Ended(h.clone(), id), until)), false));
    }
    // Stop some of the tasks that own no receiver.
    for _ in 0..pick(4) {
        match pick(3) {
            0 => NativeRuntime.yield_now().await,
            1 => NativeRuntime.sleep_ms(range(1, 40)).await,
            _ => {}
        }
        let t = pick(until as u64) as usize;
        if tasks[t].1 {
            match &tasks[t].0 {
                Handle::Full(j) => j.abort(),
                Handle::Bare(j) => j.abort(),
                Handle::Dropped => continue,
            }
            sim::count("tasks stopped");
            let at = tick(&h);
            h.with(|l| {
                l.tasks[t].aborted.get_or_insert(at);
            });
            if chance(0.3) {
                break;
            }
        }
    }
    // Let some handles go: the tasks run on.
    for (j, _) in tasks.iter_mut() {
        if chance(0.1) {
            *j = Handle::Dropped;
        }
    }
    for (id, (j, _)) in tasks.into_iter().enumerate() {
        match j {
            Handle::Full(j) => {
                let r = j.await;
                let (fin, ab) = h.with(|l| (l.tasks[id].finished, l.tasks[id].aborted.is_some()));
                match r {
                    Ok(v) => ensure!(v == id && fin, "wrong-result", "task {id} (finished: {fin}) gave {v}"),
                    Err(e) => ensure!(ab && e.is_cancelled() && !fin, "wrong-result", "task {id} (finished: {fin}, stopped: {ab}) failed with {e:?}"),
                }
            }
            Handle::Bare(j) => {
                while !j.is_finished() {
                    NativeRuntime.sleep_ms(5).await;
                }
                let (fin, ab) = h.with(|l| (l.tasks[id].finished, l.tasks[id].aborted.is_some()));
                ensure!(fin || ab, "wrong-result", "task {id} is over without having finished or been stopped");
            }
            Handle::Dropped => {
                let mut k = 0;
                while !h.with(|l| l.tasks[id].ended) {
                    NativeRuntime.sleep_ms(5).await;
                    k += 1;
                    ensure!(k < 100_000, "stuck", "task {id}, whose handle was let go, never ends");
                }
                let (fin, ab) = h.with(|l| (l.tasks[id].finished, l.tasks[id].aborted.is_some()));
                ensure!(fin || ab, "wrong-result", "task {id}, whose handle was let go, was not run to its end");
            }
        }
    }
    if fair {
        // The ticker asks for a turn all the time, so it waits at most for one turn of each
        // computation, and a turn lasts the yield threshold plus one slice.
        let limit = (burners * (10 + slice) * 2 + 5) * MS;
        h.with(|l| {
            for t in l.ticks.windows(2) {
                let d = t[1] - t[0];
                ensure!(d <= limit, "starved", "a ready task waited {d} ns for its turn beside {burners} yielding computations with slices of at most {slice} ms");
            }
        });
        sim::count("fairness runs");
    }
}

fn start<F: std::future::Future<Output = usize> + Send + 'static>(f: F) -> Handle {
    if chance(0.3) {
        Handle::Bare(NativeRuntime.spawn_task(Box::pin(async move {
            f.await;
        })))
    } else {
        Handle::Full(spawn(f))
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "T05",
        scenario: t05,
        runs: 45000,
        rule: "one run = one random set of pipes, senders, receivers, stops and computations on the real executor with one to four threads, under simulated scheduling and clock; non-trivial when more than three values were received; distinct by thread-interleaving hash",
        real: &["logicaffeine_system::concurrency", "tokio runtime, mpsc and timers"],
        stubs: &["task bodies (random operation lists in place of generated code)"],
        assumptions: &["the fairness bound is judged on the single-threaded executor, where it is exact"],
    }]
}
