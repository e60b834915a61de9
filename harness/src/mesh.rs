//! A simulated gossip mesh (in place of libp2p) and the properties over it: D01, G01.
use crate::storage::Marks;
use crate::util::*;
use logicaffeine_data::crdt::{GCounter, Merge};
use logicaffeine_system::crdt::Synced;
use logicaffeine_system::distributed::Distributed;
use logicaffeine_system::fs::{NativeVfs, Vfs};
use logicaffeine_system::network::{gossip, sim as seam};
use sim::{ensure, node, Prop};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, OnceLock};

struct InFlight {
    due: u64,
    node: u32,
    inc: u32,
    topic: String,
    data: Vec<u8>,
}
#[derive(Default)]
pub struct Mesh {
    state: BTreeMap<(u32, u32), &'static seam::State>,
    inc: BTreeMap<u32, u32>,
    /// How often each node joined each topic.
    subs: BTreeMap<(u32, u32, String), u64>,
    queue: Vec<InFlight>,
    cut: BTreeSet<(u32, u32)>,
    pub p_loss: f64,
    pub p_dup: f64,
    pub max_delay: u64,
    pub published: u64,
}
static MESH: OnceLock<Host<Mesh>> = OnceLock::new();
pub fn mesh() -> &'static Host<Mesh> {
    MESH.get_or_init(|| Host::new(Mesh::default()))
}
fn me(m: &Mesh) -> (u32, u32) {
    let n = node::current();
    (n, m.inc.get(&n).copied().unwrap_or(0))
}

/// Replace libp2p for the rest of this run.
pub fn install() {
    mesh();
    let _ = seam::MESH.set(seam::Mesh {
        node_state: |make| {
            mesh().with(|m| {
                let k = me(m);
                *m.state.entry(k).or_insert_with(|| Box::leak(make()))
            })
        },
        publish: |topic, data| {
            mesh().with(|m| {
                let (from, _) = me(m);
                m.published += 1;
                let to: Vec<(u32, u32)> = m.subs.keys().filter(|s| s.2 == topic && s.0 != from).map(|s| (s.0, s.1)).collect();
                let ch = &mut sim::world::w().ch;
                for (n, inc) in to {
                    if m.inc.get(&n).copied().unwrap_or(0) != inc {
                        continue;
                    }
                    if m.cut.contains(&(from.min(n), from.max(n))) {
                        sim::count("fault:message_partitioned");
                        continue;
                    }
                    if ch.weighted(2, m.p_loss) == 1 {
                        sim::count("fault:message_loss");
                        continue;
                    }
                    let copies = 1 + ch.weighted(3, m.p_dup);
                    if copies > 1 {
                        sim::count("fault:message_duplicated");
                    }
                    for _ in 0..copies {
                        let d = ch.weighted(8, 0.6) * m.max_delay / 7;
                        if d > 0 {
                            sim::count("fault:message_delayed");
                        }
                        m.queue.push(InFlight { due: sim::now() + 50_000 + d, node: n, inc, topic: topic.to_string(), data: data.clone() });
                    }
                }
            })
        },
        subscribe: |topic| {
            mesh().with(|m| {
                let (n, inc) = me(m);
                *m.subs.entry((n, inc, topic.to_string())).or_default() += 1;
            })
        },
    });
}
/// A node (re)starts: it has no subscriptions and no messages under way.
pub fn restart(n: u32) {
    mesh().with(|m| *m.inc.entry(n).or_default() += 1);
}
pub fn cut(a: u32, b: u32) {
    mesh().with(|m| m.cut.insert((a.min(b), a.max(b))));
}
pub fn heal() {
    mesh().with(|m| m.cut.clear());
}
fn take_due() -> Vec<(String, Vec<u8>)> {
    mesh().with(|m| {
        let (n, inc) = me(m);
        let now = sim::now();
        let mut out: Vec<(u64, String, Vec<u8>)> = Vec::new();
        let mut i = 0;
        while i < m.queue.len() {
            let q = &m.queue[i];
            if q.node == n && q.due <= now {
                let q = m.queue.remove(i);
                if q.inc == inc {
                    out.push((q.due, q.topic, q.data));
                }
            } else {
                i += 1;
            }
        }
        out.sort_by_key(|o| o.0);
        out.into_iter().map(|o| (o.1, o.2)).collect()
    })
}
/// What the mesh event loop does with arriving messages.
pub async fn pump() {
    loop {
        for (topic, data) in take_due() {
            sim::count("messages_delivered");
            tokio::spawn(async move { gossip::on_message(&topic, data).await });
        }
        tokio::time::sleep(std::time::Duration::from_millis(2)).await;
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "D01",
            scenario: d01,
            runs: 9000,
            rule: "one run = 2-3 nodes sharing a durable replicated value over a lossy, duplicating, reordering, partitioned mesh, each changing and compacting it from several tasks, with crashes (process and power), disk errors and restarts; after the last fault every node broadcasts once and all must agree; non-trivial when a change was acknowledged and a remote update was merged; distinct by event-history hash",
            real: &["logicaffeine_system::distributed::Distributed", "logicaffeine_system::network::gossip", "logicaffeine_system::fs::NativeVfs", "logicaffeine_data GCounter", "tokio", "std::fs"],
            stubs: &["libp2p (a simulated mesh behind the logos_sim seam)", "the kernel's file system (in-memory)"],
            assumptions: &["a torn append leaves a prefix of the appended bytes"],
        },
        Prop {
            id: "G01",
            scenario: g01,
            runs: 12000,
            rule: "one run = 1-3 nodes with prompt, slow, stuck and abandoned subscriptions of three topics and shared values on a fourth, publishing over a lossy, duplicating, reordering, partitioned mesh, with floods, stalls, unsubscriptions and restarts; every message handed to a node is accounted for in every live subscription; non-trivial when a subscription received something; distinct by event-history hash",
            real: &["logicaffeine_system::network::gossip", "logicaffeine_system::crdt::Synced", "logicaffeine_system::network::wire", "tokio"],
            stubs: &["libp2p (a simulated mesh behind the logos_sim seam)"],
            assumptions: &["the mesh hands each arriving message to gossip::on_message in a task of its own, as mesh.rs does"],
        },
    ]
}

// ---------------------------------------------------------------- D01

#[derive(Clone, Default, Debug, serde::Serialize, serde::Deserialize)]
struct Doc {
    marks: Marks,
    count: GCounter,
}
impl Merge for Doc {
    fn merge(&mut self, o: &Self) {
        self.marks.merge(&o.marks);
        self.count.merge(&o.count);
    }
}
impl Doc {
    fn ops(&self) -> BTreeSet<u64> {
        self.marks.0.iter().map(|m| m / 2).collect()
    }
}

#[derive(Default)]
struct DNode {
    acked: BTreeSet<u64>,
    /// Known to be in the journal.
    durable: BTreeSet<u64>,
    ram: BTreeSet<u64>,
    /// Found in the journal at the last mount: possibly not yet on the medium.
    found: BTreeSet<u64>,
    mounted: bool,
    mount_err: Option<String>,
    finale_done: bool,
    busy: u32,
}
#[derive(Default)]
struct DHist {
    next: u64,
    begun: BTreeSet<u64>,
    nodes: BTreeMap<u32, DNode>,
    finale: bool,
    log: Vec<String>,
    remote: u64,
}

fn d_judge(h: &DHist, n: u32, d: &Doc, when: &str) {
    let ops = d.ops();
    let me = &h.nodes[&n];
    let lost: Vec<u64> = me.acked.iter().chain(&me.durable).filter(|o| !ops.contains(o)).copied().collect();
    ensure!(lost.is_empty(), "durable-update-lost", "{when} node {n} has lost {lost:?}; it holds {ops:?}; history: {}", h.log.join("; "));
    for o in &ops {
        ensure!(h.begun.contains(o), "invented-change", "{when} node {n} holds {o}, which nobody wrote");
        ensure!(d.marks.has(*o), "half-change", "{when} node {n} holds half of {o}");
    }
    ensure!(d.count.value() == ops.len() as u64, "count-mismatch", "{when} node {n} counts {} changes but holds {ops:?}; history: {}", d.count.value(), h.log.join("; "));
}

fn disk_trouble() -> u64 {
    let _g = sim::OsGuard::new();
    let c = &sim::world::w().counters;
    ["fault:open_error", "fault:read_error", "fault:write_error", "fault:sync_error", "fault:rename_unlink_error", "fault:stat_error", "fault:disk_full"].iter().map(|k| c.get(*k).copied().unwrap_or(0)).sum()
}

fn d_main(n: u32, h: Host<DHist>, multi: bool, tasks: u64, per: u64) {
    let rt = if multi { rtn(2) } else { rt1() };
    rt.block_on(async move {
        let root = node::root_of(n);
        let vfs: Arc<dyn Vfs + Send + Sync> = Arc::new(NativeVfs::new(root));
        let d = match Distributed::<Doc>::mount(vfs, "doc.lsf", Some("doc".into())).await {
            Ok(d) => Arc::new(d),
            Err(e) => {
                h.with(|h| h.nodes.get_mut(&n).unwrap().mount_err = Some(format!("{e}")));
                return;
            }
        };
        let s = d.get().await;
        h.with(|h| {
            h.log.push(format!("n{n} mounts {:?}", s.ops()));
            d_judge(h, n, &s, "after a mount");
            let x = h.nodes.get_mut(&n).unwrap();
            x.mounted = true;
            x.ram = s.ops();
            x.found = s.ops();
            x.busy = tasks as u32;
        });
        tokio::spawn(pump());
        for _ in 0..tasks {
            let (d, h) = (d.clone(), h.clone());
            tokio::spawn(async move {
                for _ in 0..per {
                    tokio::time::sleep(std::time::Duration::from_micros(500 * sim::pick(20))).await;
                    if sim::chance(0.25) {
                        let r = d.compact().await;
                        sim::count("compactions");
                        h.with(|h| h.log.push(format!("n{n} compacts {}", r.is_ok())));
                    } else {
                        d_change(&d, &h, n).await;
                    }
                }
                h.with(|h| h.nodes.get_mut(&n).unwrap().busy -= 1);
            });
        }
        loop {
            let s = d.get().await;
            let fin = h.with(|h| {
                d_judge(h, n, &s, "in the running process,");
                let ops = s.ops();
                let x = h.nodes.get_mut(&n).unwrap();
                if ops.iter().any(|o| !x.ram.contains(o) && !x.acked.contains(o)) {
                    h.remote += 1;
                }
                x.ram = ops;
                h.finale && !x.finale_done && x.busy == 0
            });
            if fin {
                d_change(&d, &h, n).await;
                h.with(|h| h.nodes.get_mut(&n).unwrap().finale_done = true);
            }
            tokio::time::sleep(std::time::Duration::from_millis(3)).await;
        }
    });
}
async fn d_change(d: &Distributed<Doc>, h: &Host<DHist>, n: u32) {
    let _ = d_change_one(d, h, n).await;
}
async fn d_change_one(d: &Distributed<Doc>, h: &Host<DHist>, n: u32) -> Result<(), ()> {
    let op = h.with(|h| {
        h.next += 1;
        h.begun.insert(h.next);
        h.next
    });
    let r = d
        .mutate(|m| {
            m.marks.add(op);
            m.count.increment(1);
            m.ops()
        })
        .await;
    h.with(|h| {
        h.log.push(format!("n{n} change {op} {}", r.is_ok()));
        let x = h.nodes.get_mut(&n).unwrap();
        r.map_err(|_| ()).map(|ops| {
            x.acked.insert(op);
            x.durable.extend(ops);
        })
    })
}

/// One change of node `n` written over and over, up to where the journal is compacted automatically.
fn long_journal(n: u32, h: &Host<DHist>) {
    let times = 994 + sim::pick(7) as usize;
    let (root, file) = (node::root_of(n), format!("{}/doc.lsf", node::root_of(n)));
    let rt = rt1();
    let mount = || {
        let vfs: Arc<dyn Vfs + Send + Sync> = Arc::new(NativeVfs::new(root.clone()));
        rt.block_on(Distributed::<Doc>::mount(vfs, "doc.lsf", None))
    };
    let Ok(d) = mount() else { return };
    if rt.block_on(d_change_one(&d, h, n)).is_err() {
        return;
    }
    let one = sim::fs::peek(&file).unwrap_or_default();
    sim::fs::poke(&file, &one.repeat(times));
    match mount() {
        Ok(d) if rt.block_on(d.entry_count()) == times as u64 => sim::count("long_journals"),
        _ => sim::fs::poke(&file, &one),
    }
    drop(rt);
}

fn d01() {
    swarm_sched();
    sim::cfg().max_steps = 2_000_000;
    install();
    crate::storage::swarm_disk(2);
    mesh().with(|m| {
        m.p_loss = [0.0, 0.1, 0.4][sim::world::w().ch.uniform(3) as usize];
        m.p_dup = [0.0, 0.2][sim::world::w().ch.uniform(2) as usize];
        m.max_delay = [0, 5_000_000, 30_000_000][sim::world::w().ch.uniform(3) as usize];
    });
    let k = 2 + sim::pick(2);
    let h = Host::new(DHist::default());
    let ids: Vec<u32> = (0..k).map(|i| node::add(&format!("n{i}"))).collect();
    h.with(|h| {
        for n in &ids {
            h.nodes.insert(*n, DNode::default());
        }
    });
    if sim::chance(0.2) {
        // a journal about to be compacted by itself
        long_journal(ids[0], &h);
    }
    let start = |n: u32, work: bool| {
        restart(n);
        h.with(|h| {
            let x = h.nodes.get_mut(&n).unwrap();
            x.mounted = false;
            x.mount_err = None;
        });
        let (multi, tasks, per) = (sim::pick(2) == 1, if work { 1 + sim::pick(2) } else { 0 }, 1 + sim::pick(4));
        let h2 = h.clone();
        node::spawn(n, "main", move || d_main(n, h2, multi, tasks, per));
    };
    let check_mount = |n: u32, errs: u64| {
        if let Some(e) = h.with(|h| h.nodes.get_mut(&n).unwrap().mount_err.take()) {
            ensure!(disk_trouble() > errs, "recovery-failed", "node {n} could not mount after crashes only: {e}; history: {}", h.with(|h| h.log.join("; ")));
            h.with(|h| h.log.push(format!("n{n} mount failed: {e}")));
        }
    };
    let errs0 = disk_trouble();
    for n in &ids {
        start(*n, true);
    }
    for _ in 0..1 + sim::pick(4) {
        node::sleep(1_000_000 * (2 + sim::pick(30)));
        for n in &ids {
            if node::alive(*n) && disk_trouble() == 0 && node::idle(*n) && h.with(|h| h.nodes[n].mounted) {
                // nothing is under way on this node: what it shows has been journalled
                h.with(|h| {
                    let x = h.nodes.get_mut(n).unwrap();
                    let r: Vec<u64> = x.ram.difference(&x.found).copied().collect();
                    x.durable.extend(r);
                });
                sim::count("idle_points");
            }
        }
        let n = sim::one(&ids);
        match sim::pick(4) {
            0 => {}
            1 => {
                if node::alive(n) {
                    let power = sim::pick(2) == 1;
                    h.with(|h| h.log.push(format!("n{n} crashes power={power}")));
                    node::crash(n, power);
                }
            }
            2 => {
                let o = sim::one(&ids);
                if o != n {
                    cut(n, o);
                }
            }
            _ => heal(),
        }
        for n in &ids {
            check_mount(*n, errs0);
            if (!node::alive(*n) || node::finished(*n)) && sim::pick(3) != 2 {
                start(*n, true);
            }
        }
    }
    // the last fault
    sim::faults_off();
    heal();
    mesh().with(|m| {
        m.p_loss = 0.0;
        m.p_dup = 0.0;
    });
    for n in &ids {
        if !node::alive(*n) || node::finished(*n) {
            check_mount(*n, errs0);
            start(*n, false);
        }
    }
    let up = || h.with(|h| ids.iter().all(|n| h.nodes[n].mounted && h.nodes[n].busy == 0)) && ids.iter().all(|n| node::idle(*n)) && mesh().with(|m| m.queue.is_empty());
    let mut ok = false;
    for _ in 0..3 {
        ok = node::wait_for(2_000_000, 1_000_000_000, up);
        if ok {
            break;
        }
        // a disk error injected just before the end stopped a mount: mount again
        for n in &ids {
            if node::finished(*n) {
                check_mount(*n, errs0);
                start(*n, false);
            }
        }
    }
    ensure!(ok, "stuck", "the nodes did not become idle; history: {}", h.with(|h| h.log.join("; ")));
    h.with(|h| h.finale = true);
    let done = node::wait_for(2_000_000, 3_000_000_000, || {
        h.with(|h| {
            let acked: BTreeSet<u64> = h.nodes.values().flat_map(|x| x.acked.iter().copied()).collect();
            let first = &h.nodes[&ids[0]].ram;
            h.nodes.values().all(|x| x.finale_done && &x.ram == first) && acked.is_subset(first)
        })
    });
    h.with(|h| {
        ensure!(done, "not-converged", "after the last fault and one more broadcast each: {}; history: {}", h.nodes.iter().map(|(n, x)| format!("n{n} holds {:?} acked {:?}", x.ram, x.acked)).collect::<Vec<_>>().join(", "), h.log.join("; "));
        if h.remote > 0 && h.nodes.values().any(|x| !x.acked.is_empty()) {
            sim::nontrivial();
        }
        sim::sample(h.log.join("; "));
    });
}

// ---------------------------------------------------------------- G01

#[derive(Clone, Copy, PartialEq, Debug)]
enum Reader {
    Prompt,
    Slow,
    /// Does not read until the end.
    Stuck,
    /// Drops its receiver after a while.
    Quits,
}
struct Sub {
    node: (u32, u32),
    topic: usize,
    reader: Reader,
    /// Listening: `subscribe` has returned, nobody has unsubscribed.
    live: bool,
    gone: bool,
    closed_at: Option<u64>,
    expect: BTreeMap<u64, u32>,
    got: BTreeMap<u64, u32>,
}
struct Handed {
    topic: usize,
    node: (u32, u32),
    begun: u64,
    done: bool,
    subs: Vec<usize>,
}
#[derive(Default)]
struct GHist {
    subs: Vec<Sub>,
    handed: BTreeMap<u64, Handed>,
    next: u64,
    /// Handing number -> message.
    msgs: BTreeMap<u64, u64>,
    finale: u32,
    synced: BTreeMap<(u32, u32, u32), (Marks, BTreeSet<u64>, u32)>,
    /// Shared values started and not lost in a crash.
    shared: BTreeMap<u32, u64>,
    log: Vec<String>,
}
const TOPICS: [&str; 3] = ["t0", "t1", "t1-long"];

fn g_here() -> (u32, u32) {
    mesh().with(|m| me(m))
}
fn g_hand(h: &Host<GHist>, topic: usize, msg: u64) {
    let here = g_here();
    let id = h.with(|h| {
        h.next += 1;
        let id = h.next;
        let subs: Vec<usize> = (0..h.subs.len()).filter(|i| h.subs[*i].live && h.subs[*i].node == here && h.subs[*i].topic == topic).collect();
        for i in &subs {
            *h.subs[*i].expect.entry(msg).or_default() += 1;
        }
        h.handed.insert(id, Handed { topic, node: here, begun: sim::now(), done: false, subs });
        h.msgs.insert(id, msg);
        id
    });
    let h = h.clone();
    tokio::spawn(async move {
        gossip::on_message(TOPICS[topic], msg.to_le_bytes().to_vec()).await;
        h.with(|h| h.handed.get_mut(&id).unwrap().done = true);
    });
}
async fn g_pump(h: Host<GHist>) {
    loop {
        for (topic, data) in take_due() {
            sim::count("messages_delivered");
            match TOPICS.iter().position(|t| *t == topic) {
                Some(t) => g_hand(&h, t, u64::from_le_bytes(data[..8].try_into().unwrap())),
                None => {
                    tokio::spawn(async move { gossip::on_message(&topic, data).await });
                }
            }
        }
        tokio::time::sleep(std::time::Duration::from_millis(2)).await;
    }
}
async fn g_listen(h: Host<GHist>, topic: usize, reader: Reader) {
    let here = g_here();
    let mut rx = gossip::subscribe(TOPICS[topic]).await;
    let id = h.with(|h| {
        h.log.push(format!("n{} subscribes {} {reader:?}", here.0, TOPICS[topic]));
        h.subs.push(Sub { node: here, topic, reader, live: true, gone: false, closed_at: None, expect: BTreeMap::new(), got: BTreeMap::new() });
        h.subs.len() - 1
    });
    let quit = 1 + sim::pick(6);
    let mut n = 0;
    loop {
        match reader {
            Reader::Stuck => {
                while h.with(|h| h.finale == 0) {
                    tokio::time::sleep(std::time::Duration::from_millis(5)).await;
                }
            }
            Reader::Slow => tokio::time::sleep(std::time::Duration::from_millis(1)).await,
            Reader::Quits if n >= quit => {
                h.with(|h| {
                    h.subs[id].live = false;
                    h.subs[id].gone = true;
                    h.log.push(format!("n{} drops a subscription of {}", here.0, TOPICS[topic]));
                });
                return;
            }
            _ => {}
        }
        let Some(b) = rx.recv().await else { break };
        n += 1;
        let m = u64::from_le_bytes(b[..8].try_into().unwrap());
        h.with(|h| {
            let s = &mut h.subs[id];
            ensure!(m as usize % TOPICS.len() == topic, "wrong-topic", "message {m} of {} reached a subscriber of {}", TOPICS[m as usize % TOPICS.len()], TOPICS[topic]);
            *s.got.entry(m).or_default() += 1;
            if let Some(t) = s.closed_at {
                let late = h.handed.iter().filter(|(i, x)| h.msgs[i] == m && x.node == here).all(|(_, x)| x.begun > t);
                ensure!(!late, "after-unsubscribe", "message {m} was handed over after the unsubscription and still delivered");
            }
        });
    }
    h.with(|h| {
        let s = &mut h.subs[id];
        ensure!(!s.live, "subscription-ended", "a live subscription of {} on node {} was ended; history: {}", TOPICS[topic], here.0, h.log.join("; "));
        s.gone = true;
    });
}
async fn g_unsubscribe(h: &Host<GHist>, topic: usize) {
    let here = g_here();
    let mine: Vec<usize> = h.with(|h| {
        h.log.push(format!("n{} unsubscribes {}", here.0, TOPICS[topic]));
        let mine: Vec<usize> = (0..h.subs.len()).filter(|i| h.subs[*i].live && h.subs[*i].node == here && h.subs[*i].topic == topic).collect();
        for i in &mine {
            h.subs[*i].live = false;
        }
        // what is still being handed over may or may not arrive
        let open: Vec<u64> = h.handed.iter().filter(|(_, x)| !x.done && x.topic == topic && x.node == here).map(|(i, _)| *i).collect();
        for o in open {
            let m = h.msgs[&o];
            for i in &h.handed[&o].subs {
                if let Some(e) = h.subs[*i].expect.get_mut(&m) {
                    *e = e.saturating_sub(1);
                }
            }
        }
        mine
    });
    gossip::unsubscribe(TOPICS[topic]).await;
    h.with(|h| {
        for i in mine {
            h.subs[i].closed_at = Some(sim::now());
        }
    });
}
/// A value shared over a topic: by `Synced`, or by a merging subscription and a lock of one's own.
enum Shared {
    Synced(Synced<Marks>),
    Hand(Arc<tokio::sync::Mutex<Marks>>),
}
impl Shared {
    async fn new(hand: bool) -> Shared {
        if !hand {
            return Shared::Synced(Synced::new(Marks::default(), "s0").await);
        }
        let m = Arc::new(tokio::sync::Mutex::new(Marks::default()));
        tokio::spawn(gossip::subscribe_and_merge("s0", m.clone()));
        Shared::Hand(m)
    }
    async fn add(&self, op: u64) {
        match self {
            Shared::Synced(s) => s.mutate(|m| m.add(op)).await,
            Shared::Hand(m) => {
                let mut g = m.lock().await;
                g.add(op);
                gossip::publish("s0", &*g).await;
                if sim::pick(2) == 1 {
                    tokio::time::sleep(std::time::Duration::from_millis(sim::pick(40))).await;
                }
            }
        }
    }
    async fn get(&self) -> Marks {
        match self {
            Shared::Synced(s) => s.get().await,
            Shared::Hand(m) => m.lock().await.clone(),
        }
    }
}
async fn g_shared(h: Host<GHist>, k: u32, work: u64) {
    let here = g_here();
    let s = Shared::new(sim::pick(2) == 1).await;
    let key = (here.0, here.1, k);
    h.with(|h| h.synced.insert(key, Default::default()));
    let mut left = work;
    loop {
        tokio::time::sleep(std::time::Duration::from_millis(1 + sim::pick(8))).await;
        let round = h.with(|h| h.finale);
        let mine = h.with(|h| h.synced[&key].2);
        if left > 0 || mine < round {
            if mine < round {
                left = 0;
            } else {
                left -= 1;
            }
            let op = h.with(|h| {
                h.next += 1;
                h.next
            });
            s.add(op).await;
            h.with(|h| {
                let e = h.synced.get_mut(&key).unwrap();
                if mine == round || round < 2 {
                    e.1.insert(op);
                }
                if mine < round {
                    e.2 = round;
                }
            });
        }
        let v = s.get().await;
        h.with(|h| {
            let e = h.synced.get_mut(&key).unwrap();
            for o in &e.1 {
                ensure!(v.has(*o), "shared-value-lost-change", "a shared value lost its own change {o}");
            }
            e.0 = v;
        });
    }
}
fn g_main(n: u32, h: Host<GHist>, multi: bool, actions: u64, shared: u64) {
    let rt = if multi { rtn(2) } else { rt1() };
    rt.block_on(async move {
        tokio::spawn(g_pump(h.clone()));
        for k in 0..shared {
            tokio::spawn(g_shared(h.clone(), k as u32, sim::pick(3)));
        }
        for _ in 0..actions {
            tokio::time::sleep(std::time::Duration::from_micros(300 * sim::pick(10))).await;
            if h.with(|h| h.finale > 0) {
                break;
            }
            let t = sim::pick(TOPICS.len() as u64) as usize;
            match sim::pick(12) {
                0..=3 => {
                    let r = sim::one(&[Reader::Prompt, Reader::Slow, Reader::Stuck, Reader::Quits]);
                    tokio::spawn(g_listen(h.clone(), t, r));
                }
                4..=8 => {
                    let m = h.with(|h| {
                        h.next += 1;
                        h.next * TOPICS.len() as u64 + t as u64
                    });
                    let _ = gossip::publish_raw(TOPICS[t], m.to_le_bytes().to_vec()).await;
                }
                9 => g_unsubscribe(&h, t).await,
                10 if sim::chance(0.3) => {
                    sim::count("floods");
                    h.with(|h| h.log.push(format!("n{n} is flooded on {}", TOPICS[t])));
                    for _ in 0..270 {
                        let m = h.with(|h| {
                            h.next += 1;
                            h.next * TOPICS.len() as u64 + t as u64
                        });
                        g_hand(&h, t, m);
                    }
                }
                _ => {
                    let m = h.with(|h| {
                        h.next += 1;
                        h.next * TOPICS.len() as u64 + t as u64
                    });
                    g_hand(&h, t, m);
                }
            }
        }
        loop {
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        }
    });
}
fn g01() {
    swarm_sched();
    sim::cfg().max_steps = 3_000_000;
    install();
    mesh().with(|m| {
        m.p_loss = [0.0, 0.1, 0.4][sim::world::w().ch.uniform(3) as usize];
        m.p_dup = [0.0, 0.2][sim::world::w().ch.uniform(2) as usize];
        m.max_delay = [0, 5_000_000, 30_000_000][sim::world::w().ch.uniform(3) as usize];
    });
    let k = 1 + sim::pick(3);
    let h = Host::new(GHist::default());
    let ids: Vec<u32> = (0..k).map(|i| node::add(&format!("n{i}"))).collect();
    let start = |n: u32, work: bool| {
        restart(n);
        let (multi, actions, shared) = (sim::pick(2) == 1, if work { 3 + sim::pick(15) } else { 0 }, sim::pick(3));
        let h2 = h.clone();
        h.with(|h| h.shared.insert(n, shared));
        node::spawn(n, "main", move || g_main(n, h2, multi, actions, shared));
    };
    for n in &ids {
        start(*n, true);
    }
    for _ in 0..1 + sim::pick(4) {
        node::sleep(1_000_000 * (2 + sim::pick(20)));
        let n = sim::one(&ids);
        match sim::pick(5) {
            1 => {
                h.with(|h| {
                    h.log.push(format!("n{n} crashes"));
                    h.subs.iter_mut().filter(|s| s.node.0 == n).for_each(|s| {
                        s.live = false;
                        s.gone = true;
                    });
                    h.synced.retain(|k, _| k.0 != n);
                });
                node::crash(n, false);
                start(n, true);
            }
            2 => {
                let o = sim::one(&ids);
                if o != n {
                    cut(n, o);
                }
            }
            3 => heal(),
            4 => {
                node::stall(n, 1_000_000 * (1 + sim::pick(20)));
                sim::count("fault:node_stall");
            }
            _ => {}
        }
    }
    sim::faults_off();
    heal();
    mesh().with(|m| {
        m.p_loss = 0.0;
        m.p_dup = 0.0;
    });
    node::wait_for(5_000_000, 3_000_000_000, || {
        let joined: u64 = mesh().with(|m| m.subs.iter().filter(|(k, _)| k.2 == "s0" && m.inc.get(&k.0) == Some(&k.1)).map(|(_, c)| c).sum());
        h.with(|h| h.synced.len() as u64 == h.shared.values().sum::<u64>() && h.synced.len() as u64 == joined)
    });
    // bounded liveness: every reader that reads has everything that was handed over, although the
    // stuck ones still do not read
    let behind = |h: &GHist, stuck: bool| {
        h.subs.iter().enumerate().find_map(|(i, s)| {
            if s.gone || (s.reader == Reader::Stuck && !stuck) {
                return None;
            }
            s.expect.iter().find(|(m, c)| s.got.get(m).copied().unwrap_or(0) < **c).map(|(m, c)| {
                format!("subscription {i} ({:?}, node {}, {}) has {} of {c} copies of message {m}; history: {}", s.reader, s.node.0, TOPICS[s.topic], s.got.get(m).copied().unwrap_or(0), h.log.join("; "))
            })
        })
    };
    node::wait_for(5_000_000, 3_000_000_000, || mesh().with(|m| m.queue.is_empty()) && h.with(|h| behind(h, false).is_none()));
    if let Some(b) = h.with(|h| behind(h, false)) {
        sim::violation("message-not-delivered", b);
    }
    h.with(|h| h.finale = 1);
    node::wait_for(5_000_000, 3_000_000_000, || mesh().with(|m| m.queue.is_empty()) && h.with(|h| h.synced.values().all(|e| e.2 == 1) && behind(h, true).is_none()));
    if let Some(b) = h.with(|h| behind(h, true)) {
        sim::violation("message-not-delivered", b);
    }
    node::sleep(100_000_000);
    // a value shared twice in one process hears its twin through the others only
    h.with(|h| h.finale = 2);
    let same = |h: &GHist| {
        let own: BTreeSet<u64> = h.synced.values().flat_map(|e| e.1.iter().copied()).collect();
        h.synced.values().all(|e| e.2 == 2 && own.iter().all(|o| e.0.has(*o)))
    };
    let nodes: BTreeSet<u32> = h.with(|h| h.synced.keys().map(|k| k.0).collect());
    if nodes.len() > 1 {
        let ok = node::wait_for(5_000_000, 3_000_000_000, || h.with(|h| same(h)));
        h.with(|h| ensure!(ok, "shared-values-differ", "after the last fault and a broadcast each: {:?}; history: {}", h.synced.iter().map(|(k, e)| format!("n{} #{} {:?}", k.0, k.2, e.0)).collect::<Vec<_>>(), h.log.join("; ")));
    }
    h.with(|h| {
        for (i, s) in h.subs.iter().enumerate() {
            for (m, c) in &s.got {
                let copies = h.handed.iter().filter(|(id, x)| h.msgs[id] == *m && x.node == s.node).count() as u32;
                ensure!(*c <= copies, "delivered-too-often", "subscription {i} got message {m} {c} times, it was handed over {copies} times");
            }
        }
        if h.subs.iter().any(|s| !s.got.is_empty()) {
            sim::nontrivial();
        }
        sim::sample(h.log.join("; "));
    });
}
