//! LOGOS programs talking through the relay: M01 (Send/Await), M04 (Sync).
//!
//! Every program runs on its own node, on the real interpreter or the real bytecode machine, and
//! talks to the real relay server over the simulated TCP.

use crate::util::*;
use logicaffeine_compile::concurrency::marshal;
use logicaffeine_compile::interpreter::RuntimeValue;
use logicaffeine_compile::{interpret_for_ui, run_vm_net_async};
use logicaffeine_system::relay::{self, RelayClient};
use sim::{chance, ensure, node, one, pick, range, Prop};
use std::rc::Rc;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// The result of one program: its lines and its error.
pub type Outcome = Option<(Vec<String>, Option<String>)>;

#[derive(Default)]
pub struct World {
    pub url: String,
    pub ready: u64,
    pub sub: bool,
    pub out: Vec<Outcome>,
}

/// A relay on its own node; returns the node, with the address in `h`.
pub fn relay_node(h: &Host<World>) -> u32 {
    let n = node::add("relay");
    let h = h.clone();
    node::spawn(n, "relay", move || {
        rt1().block_on(async move {
            let s = relay::serve("127.0.0.1:0").await.expect("relay binds");
            h.with(|h| h.url = s.url());
            std::future::pending::<()>().await
        })
    });
    n
}
/// Collects `n` "ready" messages on topic `coord`, then tells every program to go.
pub fn coordinator(h: &Host<World>, names: Vec<String>) -> u32 {
    let n = node::add("coord");
    let h = h.clone();
    node::spawn(n, "coord", move || {
        rt1().block_on(async move {
            let mut c = RelayClient::connect(&h.with(|h| h.url.clone())).await.expect("coordinator dials");
            c.subscribe("coord").await.expect("coordinator subscribes");
            h.with(|h| h.sub = true);
            let mut left = names.len();
            while left > 0 {
                c.next_event().await.expect("coordinator connected");
                left -= 1;
                h.with(|h| h.ready += 1);
            }
            for name in names {
                let go = marshal::message_to_wire("coord", &RuntimeValue::Text(Rc::new("go".into()))).unwrap();
                c.publish(&name, go).unwrap();
            }
            std::future::pending::<()>().await
        })
    });
    n
}
/// Run `src` on node `n` as program `i`.
pub fn program(h: &Host<World>, n: u32, i: usize, src: String, vm: bool) {
    let h = h.clone();
    node::spawn(n, "program", move || {
        rt1().block_on(async {
            let r = if vm { run_vm_net_async(&src).await } else { interpret_for_ui(&src).await };
            h.with(|h| h.out[i] = Some((r.lines, r.error)));
            // The host of a program outlives it: what it published is still being sent.
            std::future::pending::<()>().await
        });
    });
}
/// How the wire behaves in this run. Nothing is lost: a relay connection is a byte stream.
pub fn wire() {
    let c = sim::net_cfg();
    c.max_delay = [MS, 20 * MS, 200 * MS][pick(3) as usize];
    c.p_cut = [0.0, 0.2, 0.6][pick(3) as usize];
    if chance(0.3) {
        c.p_slow = 0.05;
        c.slow_delay = 800 * MS;
    }
}
/// Cut programs off from the relay and stall nodes for a while.
pub fn disturb(nodes: &[u32], relay: u32) {
    for _ in 0..pick(4) {
        node::sleep(range(1, 600) * MS);
        let n = one(nodes);
        match pick(4) {
            0 => node::stall(n, range(10, 2000) * MS),
            1 => node::stall(relay, range(10, 1000) * MS),
            _ => {
                sim::net::partition(n, relay);
                node::sleep(range(10, 2000) * MS);
                sim::net::heal_all();
            }
        }
    }
}

// ---------------------------------------------------------------- values

pub const TYPES: &str = "## A Gadget has:\n    A span: Int.\n    A label: Text.\n\n## A Pair has:\n    A left: Gadget.\n    A weight: Int.\n\n## Definition\nA Color is either:\n    A Crimson.\n    A Viridian.\n    A Mix with ratio Int.\n\n";

/// Types a program may have besides, which number the common ones differently.
const MORE_TYPES: &[&str] = &["## A Widget has:\n    A size: Int.\n\n", "## A Crate has:\n    A label: Text.\n    A span: Int.\n\n", "## Definition\nA Shape is either:\n    A Round.\n    A Square with side Int.\n\n", "## A Point has:\n    A x: Int.\n    A y: Int.\n\n"];

fn int() -> String {
    match pick(6) {
        0 => format!("{}", pick(10)),
        1 => format!("0 - {}", pick(1000)),
        2 => "9223372036854775807".into(),
        3 => format!("{}", pick(1 << 40)),
        4 => format!("0 - 9223372036854775807 - {}", pick(2)),
        _ => format!("{}", pick(300)),
    }
}
fn text() -> String {
    let w = ["", "a", "ping", "straße", "日本", "x y z", "emoji 🙂", "0", "true"];
    let s = one(&w).to_string();
    format!("\"{}\"", if chance(0.2) { s.repeat(range(2, 40) as usize) } else { s })
}
fn ints() -> String {
    let n = range(1, 12);
    let step = pick(4) as i64;
    let base = one(&[0i64, 1000, 1 << 33]);
    let shape = pick(4);
    let v: Vec<String> = (0..n as i64)
        .map(|i| match shape {
            0 => (base + i * step).to_string(),
            1 => base.to_string(),
            2 => pick(1000).to_string(),
            _ => (i % 2 * 255).to_string(),
        })
        .collect();
    format!("[{}]", v.join(", "))
}
fn gadget() -> String {
    format!("a new Gadget with span {} and label {}", pick(500), text())
}
/// Statements binding `v` to some value, and whether it is a list that can be pushed to.
pub fn value(v: &str, focus: Option<u64>) -> (String, bool) {
    let kind = match focus {
        Some(k) if chance(0.7) => k,
        _ => pick(17),
    };
    let list = |f: fn() -> String| {
        let n = range(1, 5);
        format!("[{}]", (0..n).map(|_| f()).collect::<Vec<_>>().join(", "))
    };
    let mut pre = String::new();
    let e = match kind {
        0 | 1 => int(),
        2 | 3 => text(),
        4 => ints(),
        5 => list(text),
        6 => list(ints),
        7 => gadget(),
        8 => {
            let n = range(1, 6);
            let same = chance(0.3);
            let mut names = Vec::new();
            for i in 0..n {
                let e = if same && i > 0 { names[0] } else { i };
                if e == i {
                    pre += &format!("    Let {v}g{i} be {}.\n", gadget());
                }
                names.push(e);
            }
            format!("[{}]", names.iter().map(|i| format!("{v}g{i}")).collect::<Vec<_>>().join(", "))
        }
        9 => one(&["a new Crimson", "a new Viridian", "a new Mix with ratio 7"]).to_string(),
        10 => {
            pre += &format!("    Let mutable {v} be a new Map of Text to Int.\n");
            for k in 0..pick(5) {
                pre += &format!("    Set item \"k{}\" of {v} to {}.\n", (k * 7) % 5, pick(100));
            }
            return (pre, false);
        }
        11 => {
            pre += &format!("    Let mutable {v} be a new Set of Int.\n");
            for _ in 0..pick(5) {
                pre += &format!("    Add {} to {v}.\n", pick(20));
            }
            return (pre, false);
        }
        12 => one(&["1.5", "0.1", "2.0", "3.14159", "1.5 / 0.7"]).to_string(),
        13 => one(&["true", "false"]).to_string(),
        14 => format!("9223372036854775807 * {}", range(2, 9)),
        15 => one(&["[1.5, 2.5, 0.25]", "[true, false, true]", "[1, \"a\", true]", "[[1], [2, 3]]"]).to_string(),
        _ => {
            pre += &format!("    Let {v}l be {}.\n", gadget());
            format!("a new Pair with left {v}l and weight {}", pick(9))
        }
    };
    let is_list = kind == 4;
    pre += &format!("    Let mutable {v} be {e}.\n");
    (pre, is_list)
}

/// Sets and maps travel in canonical order and are equal in any: their printed elements are sorted.
pub fn canon(line: &str) -> String {
    match line.strip_prefix('{').and_then(|l| l.strip_suffix('}')) {
        Some(l) => {
            let mut v: Vec<&str> = l.split(", ").collect();
            v.sort();
            format!("{{{}}}", v.join(", "))
        }
        _ => line.to_string(),
    }
}

// ---------------------------------------------------------------- M01

/// The ways of sending a value.
pub const DIALS: &[&str] = &["", "", "compressed ", "compressed with lz4 ", "cached ", "cached ", "unchecked ", "fast ", "packed ", "smallest ", "redundant ", "shared ", "indexed ", "deduped ", "compact "];

struct Mail {
    src: usize,
    dst: usize,
    stream: bool,
    /// Statements that bind the value, and its name.
    bind: String,
}

fn m01() {
    swarm_sched();
    wire();
    let h = Host::new(World::default());
    let relay = relay_node(&h);
    node::wait_for(MS, 5 * SEC, || h.with(|h| !h.url.is_empty()));
    let url = h.with(|h| h.url.clone());
    let n = range(2, 4) as usize;
    let names: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
    coordinator(&h, names.clone());
    node::wait_for(5 * MS, 20 * SEC, || h.with(|h| h.sub));

    let mut body = vec![String::new(); n];
    // What each line of a program's output belongs to: (sent here, message).
    let mut shows: Vec<Vec<(bool, usize)>> = vec![Vec::new(); n];
    let mut mail: Vec<Mail> = Vec::new();
    let mut flying: Vec<usize> = Vec::new();
    let total = range(1, 14) as usize;
    // Some runs favour one kind of value or one way of sending it.
    let focus = chance(0.4).then(|| one(&[2, 4, 7, 7, 8, 8, 9, 10, 15, 16]));
    let dials = chance(0.5);
    // Programs of different versions: each knows the types that travel and some of its own.
    let versions = chance(0.4);
    let dial_focus = chance(0.5).then(|| one(DIALS));
    while mail.len() < total || !flying.is_empty() {
        let send = mail.len() < total && (flying.is_empty() || chance(0.6));
        if send {
            let k = mail.len();
            let src = pick(n as u64) as usize;
            let dst = (src + 1 + pick(n as u64 - 1) as usize) % n;
            let stream = chance(0.15);
            let v = format!("v{k}");
            let (bind, mut pushable) = if stream { (format!("    Let mutable {v} be {}.\n", ints()), true) } else { value(&v, focus) };
            let b = &mut body[src];
            *b += &bind;
            if !stream && chance(0.1) {
                // Twice the same value: two messages.
                pushable = false;
            }
            *b += &format!("    Show {v}.\n");
            shows[src].push((true, k));
            if stream {
                *b += &format!("    Stream {v} to peer{dst}.\n");
            } else {
                let dial = match dial_focus {
                    _ if !dials => "",
                    Some(d) if chance(0.7) => d,
                    _ => one(DIALS),
                };
                // "shared" is for programs with the same types.
                let dial = if versions && dial == "shared " { "" } else { dial };
                *b += &format!("    Send {dial}{v} to peer{dst}.\n");
            }
            if pushable && chance(0.4) {
                *b += &format!("    Push 77 to {v}.\n");
            }
            mail.push(Mail { src, dst, stream, bind });
            flying.push(k);
        } else {
            // The receiver takes from each sender in the order sent, messages and streams apart.
            let at = pick(flying.len() as u64) as usize;
            let m = &mail[flying[at]];
            let first = flying.iter().position(|k| {
                let o = &mail[*k];
                (o.src, o.dst, o.stream) == (m.src, m.dst, m.stream)
            });
            let k = flying.remove(first.unwrap());
            let m = &mail[k];
            let b = &mut body[m.dst];
            if m.stream {
                *b += &format!("    Await stream from peer{} into g{k}.\n", m.src);
            } else {
                let view = if dials && chance(0.2) { "view" } else { "response" };
                *b += &format!("    Await {view} from peer{} into g{k}.\n", m.src);
            }
            *b += &format!("    Show g{k}.\n");
            shows[m.dst].push((false, k));
        }
    }
    h.with(|h| h.out = vec![None; n]);
    let mut nodes = Vec::new();
    let mut srcs = Vec::new();
    for i in 0..n {
        let mut src = if chance(0.9) { TYPES.to_string() } else { String::new() };
        if body.iter().any(|b| b.contains("Gadget") || b.contains("Crimson") || b.contains("Viridian") || b.contains("Mix")) {
            src = TYPES.to_string();
        }
        if versions {
            let own: String = MORE_TYPES.iter().filter(|_| chance(0.4)).copied().collect();
            src = if chance(0.5) { own + &src } else { src + &own };
        }
        src += "## Main\n";
        src += &format!("    Connect to \"{url}\".\n    Listen on \"p{i}\".\n");
        src += "    Let coord be a PeerAgent at \"coord\".\n";
        for j in 0..n {
            if j != i {
                src += &format!("    Let peer{j} be a PeerAgent at \"p{j}\".\n");
            }
        }
        src += "    Send \"ready\" to coord.\n    Await response from coord into start.\n";
        src += &body[i];
        let nd = node::add(&names[i]);
        let vm = chance(0.5);
        sim::count(if vm { "programs_vm" } else { "programs_tw" });
        srcs.push(format!("[{}]\n{src}", if vm { "vm" } else { "tw" }));
        program(&h, nd, i, src, vm);
        nodes.push(nd);
    }
    node::wait_for(20 * MS, 60 * SEC, || h.with(|h| h.ready as usize == n || h.out.iter().any(|o| o.is_some())));
    disturb(&nodes, relay);
    sim::faults_off();
    sim::net::heal_all();
    node::wait_for(20 * MS, 30 * SEC, || h.with(|h| h.out.iter().all(|o| o.is_some())));
    let all = || srcs.join("\n");
    h.with(|h| {
        let mut sent = vec![None; mail.len()];
        let mut got = vec![None; mail.len()];
        for i in 0..n {
            let Some((lines, err)) = &h.out[i] else {
                sim::violation("stuck", format!("program p{i} did not finish after the network recovered (finished: {:?}); programs:\n{}", h.out.iter().map(|o| o.is_some()).collect::<Vec<_>>(), all()));
            };
            ensure!(err.is_none(), "error", "program p{i} failed: {:?}; output {lines:?}; programs:\n{}", err, all());
            ensure!(lines.len() == shows[i].len(), "lines", "program p{i} printed {lines:?}, {} lines expected; programs:\n{}", shows[i].len(), all());
            for ((here, k), l) in shows[i].iter().zip(lines) {
                let slot = if *here { &mut sent } else { &mut got };
                slot[*k] = Some(canon(l));
            }
        }
        for k in 0..mail.len() {
            ensure!(sent[k] == got[k], "changed", "message {k} from p{} to p{} was sent as {:?} and received as {:?}; programs:\n{}", mail[k].src, mail[k].dst, sent[k], got[k], all());
        }
        sim::count_n("messages", mail.len() as u64);
        sim::note("out", format!("{:?}", h.out));
        if mail.len() > 1 {
            sim::nontrivial();
        }
        sim::sample(format!("{} messages among {n} programs, e.g. {:?}", mail.len(), sent[0]));
    });
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "M01",
        scenario: m01,
        runs: 2500,
        rule: "one run = 2-4 generated programs, each on the interpreter or the bytecode machine, exchanging 1-14 values of many types, some programs with types of their own besides, through the relay with every wire option, over slow, cut, partitioned and stalled connections; every received value is compared with the one sent; non-trivial with more than one message; distinct by the programs' outputs and event history",
        real: &["logicaffeine_compile (parser, interpreter, bytecode machine, marshal, net_inbox, fec)", "logicaffeine_system::{net,relay}", "tokio-tungstenite", "tokio"],
        stubs: &["TCP (in memory)"],
        assumptions: &["a program's inbox exists before anyone sends to it", "relay connections are not broken during the exchange"],
    }]
}
