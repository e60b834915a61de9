//! K01 (sealed traffic) and K02 (one-time pads).

use crate::util::*;
use logicaffeine_compile::concurrency::channel::{self, PqSuite};
use logicaffeine_compile::concurrency::pnp::{FileLedger, PadPool, PnpSuite, Role, MAC_KEY_LEN};
use sim::{ensure, node, Prop};
use std::collections::BTreeMap;
use std::sync::Arc;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;
const HEAD: usize = 4 + 1 + 4 + 8 + 4;

fn pad_bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| sim::entropy() as u8).collect()
}
/// (epoch, offset, payload) as a frame states them.
fn parts(f: &[u8]) -> (u32, u64, &[u8]) {
    let n = u32::from_le_bytes(f[17..21].try_into().unwrap()) as usize;
    (u32::from_le_bytes(f[5..9].try_into().unwrap()), u64::from_le_bytes(f[9..17].try_into().unwrap()), &f[HEAD..HEAD + n])
}

// ---------------------------------------------------------------- K02

#[derive(Default)]
struct Used {
    /// Pad bytes spent, by absolute position: the message that spent them.
    spent: BTreeMap<u64, String>,
    log: Vec<String>,
    sealed: u64,
    refused: u64,
    lives: u64,
}

fn record(h: &mut Used, who: &str, pad: &[u8], plain: &[u8], frame: &[u8]) {
    let (_, off, ct) = parts(frame);
    ensure!(ct.len() == plain.len(), "cover-length", "{who}: {} bytes sealed as {}", plain.len(), ct.len());
    // Which material really protected it? Both halves are tried at the stated place.
    let half = pad.len() / 2;
    let fits = |base: usize| {
        let at = base + off as usize + MAC_KEY_LEN;
        at + ct.len() <= pad.len() && ct.iter().zip(plain).zip(&pad[at..]).all(|((c, p), k)| c ^ p == *k)
    };
    let base = if plain.len() < 4 {
        if who.starts_with('a') { 0 } else { half }
    } else if fits(0) {
        0
    } else {
        ensure!(fits(half), "not-the-pad", "{who}: the frame at offset {off} is not the message under the pad there");
        half
    };
    h.sealed += 1;
    h.log.push(format!("{who} spends {}..{}", base + off as usize, base + off as usize + MAC_KEY_LEN + ct.len()));
    let me = format!("{who} #{}", h.sealed);
    for b in 0..(MAC_KEY_LEN + ct.len()) as u64 {
        if let Some(o) = h.spent.insert(base as u64 + off + b, me.clone()) {
            sim::violation("pad-reused", format!("pad byte {} protects both {o} and {me}; history: {}", base as u64 + off + b, h.log.join("; ")));
        }
    }
}

fn k02() {
    swarm_sched();
    sim::cfg().panic_is_violation = false;
    let pad = Arc::new(pad_bytes(2 * sim::range(300, 1500) as usize));
    let h = Host::new(Used::default());
    crate::storage::swarm_disk(4);
    let peers = [("a", Role::Initiator), ("b", Role::Responder)];
    let k = 1 + sim::pick(2) as usize;
    let nodes: Vec<u32> = peers[..k].iter().map(|p| node::add(p.0)).collect();
    for _ in 0..sim::range(2, 4) {
        for (i, n) in nodes.iter().enumerate() {
            let (who, role) = peers[i];
            let (pad, h2, n) = (pad.clone(), h.clone(), *n);
            let threads = sim::range(1, 3);
            let each = sim::range(1, 5);
            node::spawn(n, "main", move || {
                h2.with(|h| {
                    h.lives += 1;
                    h.log.push(format!("{who} starts"));
                });
                let opened = std::panic::catch_unwind(|| {
                    let pool = PadPool::shared_unchecked((*pad).clone());
                    pool.send_suite(role).with_ledger(Arc::new(FileLedger::new(format!("/sim/{who}/pad.cursor"))))
                });
                let Ok(suite) = opened else {
                    h2.with(|h| h.log.push(format!("{who} cannot read its record")));
                    return;
                };
                let suite = Arc::new(suite);
                let seal = move |suite: &PnpSuite, pad: &[u8], h2: &Host<Used>| {
                    let plain = pad_bytes([0, 1, 9, 40][sim::pick(4) as usize]);
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| suite.seal(&plain))) {
                        Ok(Some(f)) => {
                            h2.with(|h| record(h, who, pad, &plain, &f));
                            true
                        }
                        // Exhausted, or the record of consumption could not be written.
                        _ => {
                            h2.with(|h| h.refused += 1);
                            false
                        }
                    }
                };
                let mut js = Vec::new();
                sim::alloc_points([0, 3, 12][sim::pick(3) as usize]);
                for _ in 1..threads {
                    let (s, p, h3) = (suite.clone(), pad.clone(), h2.clone());
                    js.push(std::thread::spawn(move || {
                        for _ in 0..each {
                            seal(&s, &p, &h3);
                        }
                    }));
                }
                for _ in 0..each {
                    seal(&suite, &pad, &h2);
                }
                for j in js {
                    let _ = j.join();
                }
            });
        }
        node::wait_for(MS, 5 * SEC, || nodes.iter().all(|n| node::finished(*n)));
        for n in &nodes {
            if sim::chance(0.6) || !node::finished(*n) {
                node::crash(*n, sim::chance(0.6));
            }
        }
    }
    h.with(|h| {
        sim::count_n("frames_sealed", h.sealed);
        sim::count_n("seals_refused", h.refused);
        sim::note("run", h.log.join("; "));
        if h.sealed > 1 {
            sim::nontrivial();
        }
        sim::sample(h.log.join("; "));
    });
}

// ---------------------------------------------------------------- K01

enum Chan {
    Pad { send: PnpSuite, recv: PnpSuite },
    Pq { send: PqSuite, recv: PqSuite },
}
impl Chan {
    fn seal(&self, m: &[u8]) -> Option<Vec<u8>> {
        match self {
            Chan::Pad { send, .. } => send.seal(m),
            Chan::Pq { send, .. } => Some(channel::seal_with(send, m)),
        }
    }
    fn open(&self, f: &[u8]) -> Option<Vec<u8>> {
        match self {
            Chan::Pad { recv, .. } => recv.open(f),
            Chan::Pq { recv, .. } => channel::open_with(recv, f),
        }
    }
}
#[derive(Clone)]
struct Wire {
    chan: usize,
    msg: Vec<u8>,
    frame: Vec<u8>,
    roll: bool,
    end: u64,
}
#[derive(Default)]
struct Traffic {
    sealed: Vec<Wire>,
    /// Per sealed message: how often its plaintext was accepted, and whether a delivery is under way.
    accepted: Vec<u32>,
    log: Vec<String>,
    accepts: u64,
    attacks: u64,
    newest: Vec<u64>,
    done: u64,
}

/// One of the ways an attacker changes a frame.
fn forge(f: &mut Vec<u8>, others: &[Wire]) -> &'static str {
    match sim::pick(7) {
        0 => {
            let i = sim::pick(f.len() as u64) as usize;
            f[i] ^= 1 << sim::pick(8);
            "a flipped bit"
        }
        1 => {
            f.truncate(sim::pick(f.len() as u64) as usize);
            "a truncated frame"
        }
        2 => {
            f.extend((0..1 + sim::pick(20)).map(|_| sim::entropy() as u8));
            "an extended frame"
        }
        3 => {
            let o = sim::one(&others.to_vec()).frame;
            let k = sim::pick(f.len().min(o.len()) as u64 + 1) as usize;
            let mut g = f[..k].to_vec();
            g.extend(&o[k..]);
            *f = g;
            "two frames spliced"
        }
        4 => {
            // The other suite's number in the header.
            f[2] = [0, 1, 2][sim::pick(3) as usize];
            "another suite in the header"
        }
        5 => {
            for b in f.iter_mut().skip(4) {
                *b = sim::entropy() as u8;
            }
            "a random body"
        }
        _ => {
            if f.len() > HEAD {
                // The stated place and length of the material.
                let i = 5 + sim::pick(16) as usize;
                f[i] = f[i].wrapping_add(1 + sim::pick(40) as u8);
            }
            "another place in the pad"
        }
    }
}

fn k01() {
    swarm_sched();
    let n = node::add("host");
    let h = Host::new(Traffic::default());
    let n_chan = sim::range(2, 4) as usize;
    let window = [1 << 20, 200][sim::pick(2) as usize];
    let h2 = h.clone();
    node::spawn(n, "main", move || {
        let mut chans = Vec::new();
        let mut windows = Vec::new();
        let mut commits = Vec::new();
        let mut last_pool: Option<Vec<u8>> = None;
        for i in 0..n_chan {
            // Related channels are the interesting neighbours: the other direction of the same pad,
            // the same pad in another epoch, the other direction of the same handshake.
            match sim::pick(3) {
                0 => {
                    let (d, z, m): ([u8; 32], [u8; 32], [u8; 32]) = (pad_bytes(32).try_into().unwrap(), pad_bytes(32).try_into().unwrap(), pad_bytes(32).try_into().unwrap());
                    let hs = channel::pq_handshake_initiator(&d, &z);
                    let (ct, r_i2r, r_r2i) = channel::pq_handshake_responder(&hs.ek, &m);
                    let (i_i2r, i_r2i) = channel::pq_handshake_finish(&hs, &ct);
                    if sim::chance(0.5) {
                        chans.push(Chan::Pq { send: i_i2r, recv: r_i2r });
                    } else {
                        chans.push(Chan::Pq { send: r_r2i, recv: i_r2i });
                    }
                    windows.push(u64::MAX);
                }
                k => {
                    let bytes = match (&last_pool, k) {
                        (Some(p), 2) => p.clone(),
                        _ => pad_bytes(8192),
                    };
                    last_pool = Some(bytes.clone());
                    let pool = |e: u32| PadPool::shared_unchecked(bytes.clone()).with_epoch(e);
                    let epoch = i as u32;
                    let (s, r) = if sim::chance(0.5) { (Role::Initiator, Role::Responder) } else { (Role::Responder, Role::Initiator) };
                    chans.push(Chan::Pad { send: pool(epoch).send_suite(s), recv: pool(epoch).recv_suite(r).with_recv_window(window) });
                    windows.push(window);
                }
            }
            commits.push([0xa0 + i as u8; 32]);
        }
        let chans = Arc::new(chans);
        h2.with(|h| h.newest = vec![0; n_chan]);
        // Senders.
        for c in 0..n_chan {
            for _ in 0..sim::range(1, 6) {
                let roll = sim::chance(0.2);
                let msg = h2.with(|h| {
                    let mut m = format!("message {} of channel {c} ", h.sealed.len()).into_bytes();
                    m.resize(m.len() + sim::world::w().ch.uniform(30) as usize, b'.');
                    m
                });
                let (frame, msg, roll) = match (&chans[c], roll) {
                    (Chan::Pad { send, .. }, true) => (send.seal_roll(c as u32 + 9, &commits[c]), commits[c].to_vec(), true),
                    (ch, _) => (ch.seal(&msg), msg, false),
                };
                let Some(frame) = frame else { continue };
                let end = if let Chan::Pad { .. } = chans[c] { parts(&frame).1 + (MAC_KEY_LEN + parts(&frame).2.len()) as u64 } else { 0 };
                let hidden = msg.len() < 8 || !frame.windows(8).any(|w| msg.windows(8).any(|m| m == w));
                ensure!(hidden, "plaintext-on-the-wire", "channel {c}: a sealed frame shows the message");
                h2.with(|h| {
                    h.sealed.push(Wire { chan: c, msg, frame, roll, end });
                    h.accepted.push(0);
                });
            }
        }
        // The attacker's delivery plan: genuine frames, repeats, forgeries, misdirections.
        let all = h2.with(|h| h.sealed.clone());
        let mut plan: Vec<(usize, usize, Vec<u8>, &'static str)> = Vec::new();
        for (i, w) in all.iter().enumerate() {
            for _ in 0..sim::range(1, 3) {
                plan.push((i, w.chan, w.frame.clone(), "genuine"));
            }
            for _ in 0..sim::range(0, 4) {
                let mut f = w.frame.clone();
                let what = forge(&mut f, &all);
                if !all.iter().any(|w| w.frame == f) {
                    plan.push((usize::MAX, w.chan, f, what));
                }
            }
            for c in 0..n_chan {
                if c != w.chan && sim::chance(0.4) {
                    plan.push((usize::MAX, c, w.frame.clone(), "a frame of another channel"));
                }
            }
        }
        // Shuffled: fully, or mildly.
        let mild = sim::chance(0.5);
        for i in 0..plan.len() {
            let j = i + sim::pick(if mild { 4.min((plan.len() - i) as u64) } else { (plan.len() - i) as u64 }) as usize;
            plan.swap(i, j);
        }
        let workers = sim::range(1, 3) as usize;
        sim::alloc_points([0, 3, 12][sim::pick(3) as usize]);
        let mut js = Vec::new();
        for w in 0..workers {
            let part: Vec<_> = plan.iter().skip(w).step_by(workers).cloned().collect();
            let (chans, h3, all) = (chans.clone(), h2.clone(), all.clone());
            js.push(std::thread::spawn(move || {
                for (i, c, frame, what) in part {
                    let ch = &chans[c];
                    // In one thread the window is exact: what is the verdict to be?
                    let fresh = i != usize::MAX && workers == 1 && h3.with(|h| h.accepted[i] == 0);
                    let roll = i != usize::MAX && all[i].roll;
                    let got = match (ch, roll) {
                        (Chan::Pad { recv, .. }, true) => recv.open_roll(&frame).map(|(e, k)| {
                            ensure!(e == all[i].chan as u32 + 9, "altered-roll", "a roll to epoch {} was opened as one to {e}", all[i].chan as u32 + 9);
                            k.to_vec()
                        }),
                        (ch, _) => ch.open(&frame),
                    };
                    h3.with(|h| match got {
                        Some(p) if i == usize::MAX => {
                            sim::violation("forgery-accepted", format!("channel {c} accepted {what} as {:?}", String::from_utf8_lossy(&p)));
                        }
                        Some(p) => {
                            ensure!(p == all[i].msg, "altered-message", "channel {c} opened message {i} as {:?}", String::from_utf8_lossy(&p));
                            h.accepts += 1;
                            h.accepted[i] += 1;
                            if let Chan::Pad { .. } = ch {
                                ensure!(h.accepted[i] == 1, "replay-accepted", "channel {c} accepted message {i} {} times", h.accepted[i]);
                                h.newest[c] = h.newest[c].max(all[i].end);
                            }
                            sim::world::w().count("accepted");
                        }
                        None if i == usize::MAX => {
                            h.attacks += 1;
                            sim::world::w().count("rejected_forgeries");
                        }
                        None => {
                            let pad = matches!(ch, Chan::Pad { .. });
                            if !pad || fresh && all[i].end.saturating_sub((MAC_KEY_LEN + all[i].msg.len() + 4 * roll as usize) as u64) >= h.newest[c].saturating_sub(if window == 200 { 200 } else { 1 << 20 }) {
                                sim::violation("genuine-refused", format!("channel {c} refused the genuine message {i} (accepted {} times before)", h.accepted[i]));
                            }
                            sim::world::w().count("rejected_replays");
                        }
                    });
                }
                h3.with(|h| h.done += 1);
            }));
        }
        for j in js {
            let _ = j.join();
        }
        sim::alloc_points(0);
        // Whatever the order, with the wide window every pad message got through in the end.
        if window > 200 {
            h2.with(|h| {
                for (i, a) in h.accepted.iter().enumerate() {
                    ensure!(*a >= 1, "genuine-refused", "message {i} was delivered and never accepted");
                }
            });
        }
    });
    node::wait_for(MS, 60 * SEC, || node::finished(n));
    ensure!(node::finished(n), "stuck", "opening frames never ended");
    h.with(|h| {
        sim::note("run", format!("{} {} {}", h.sealed.len(), h.accepts, h.attacks));
        if h.attacks > 0 && h.accepts > 0 {
            sim::nontrivial();
        }
        sim::sample(format!("{n_chan} channels, {} sealed, {} accepted, {} forgeries refused", h.sealed.len(), h.accepts, h.attacks));
    });
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "K01",
            scenario: k01,
            runs: 24000,
            rule: "one run = 2-4 related channels (one-time pad and post-quantum; other directions, other epochs and shared pads among them), their frames delivered in any order, repeated, forged in seven ways and misdirected, opened by 1-3 threads; non-trivial when genuine frames were accepted and forgeries refused; distinct by event-history hash",
            real: &["logicaffeine_compile::concurrency::channel", "logicaffeine_compile::concurrency::pnp", "logicaffeine_system::{aead, keccak, mlkem}"],
            stubs: &["the network (an attacker choosing every delivery)"],
            assumptions: &["a replay is refused by pad channels only: the post-quantum suite opens statelessly"],
        },
        Prop {
            id: "K02",
            scenario: k02,
            runs: 18000,
            rule: "one run = one or two peers of one pad, each restarted 2-4 times from its record file, 1-3 threads sealing in each, with crashes at disk operations, power loss, disk errors, short writes and full disks; every emitted frame's pad range is located from its bytes; non-trivial when at least two frames were sealed; distinct by event-history hash",
            real: &["logicaffeine_compile::concurrency::pnp (PnpSuite, FileLedger)", "std::fs", "std::sync"],
            stubs: &["the disk (in memory, with torn, lost and failing writes)"],
            assumptions: &["a failed seal may also be a panic of the sealing thread", "a frame counts as emitted as soon as seal returns it"],
        },
    ]
}
