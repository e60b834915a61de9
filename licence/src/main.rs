//! V01: licence verdicts kept on disk. The real validator runs on a simulated machine with its own
//! clock and disk; the licence service is a stand-in with scripted answers and outages.
include!("../../sim/src/exports.rs");
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;

use logicaffeine_verify::error::VerificationErrorKind as Kind;
use logicaffeine_verify::{LicensePlan, LicenseValidator};
use sim::{chance, ensure, node, pick, Prop};
use std::time::{SystemTime, UNIX_EPOCH};
use ureq::Answer;
use util::Host;

const DAY: u64 = 24 * 3600;
const S: u64 = 1_000_000_000;
const KEYS: [&str; 3] = ["sub_alice", "sub_bob", "sub_carol9"];
const PLANS: [&str; 8] = ["pro", "premium", "free", "supporter", "lifetime", "enterprise", "unknown", "Pro"];
const CACHE: &str = "/sim/pc/cache/logos/verification_license.json";

/// What a verdict comes to for the caller.
#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Plan(String),
    Invalid,
    TooSmall,
}
#[derive(Clone, Debug, PartialEq)]
struct Entry {
    key: String,
    valid: bool,
    plan: String,
    at: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Up,
    Down,
    Broken,
    Garbage,
}
#[derive(Clone, Debug)]
enum Sub {
    Active(&'static str),
    Ended(&'static str),
    Gone,
}
#[derive(Default)]
struct Log {
    asked: u64,
    answered_at: u64,
    mode: Option<Mode>,
    delay: u64,
    subs: Vec<Option<Sub>>,
    result: Option<(Outcome, u64, u64)>,
}
type H = Host<Log>;

fn faults_so_far() -> u64 {
    let _g = sim::OsGuard::new();
    sim::world::w().counters.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(_, n)| *n).sum()
}
fn clock() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap_or_default().as_secs()
}
fn canonical(p: &str) -> &str {
    match p {
        "Pro" => "pro",
        "unknown" => "none",
        p => p,
    }
}
fn outcome(valid: bool, plan: &str) -> Outcome {
    match canonical(plan) {
        _ if !valid => Outcome::Invalid,
        p @ ("pro" | "premium" | "lifetime" | "enterprise") => Outcome::Plan(p.into()),
        _ => Outcome::TooSmall,
    }
}
fn service(h: &H, body: &str) -> Answer {
    let (mode, delay, sub) = h.with(|l| {
        l.asked += 1;
        let key = serde_json::from_str::<serde_json::Value>(body).unwrap()["licenseKey"].as_str().unwrap_or("").to_string();
        let sub = KEYS.iter().position(|k| *k == key).and_then(|i| l.subs[i].clone()).unwrap_or(Sub::Gone);
        (l.mode.unwrap(), l.delay, sub)
    });
    if delay > 0 {
        node::sleep(delay);
    }
    let at = clock();
    h.with(|l| l.answered_at = at);
    match (mode, sub) {
        (Mode::Down, _) => Answer::Unreachable("connection refused".into()),
        (Mode::Broken, _) => Answer::Body(500, r#"{"valid":false,"error":"Validation failed"}"#.into()),
        (Mode::Garbage, _) => Answer::Body(200, "<html>captive portal</html>".into()),
        (Mode::Up, Sub::Active(p)) => Answer::Body(200, format!(r#"{{"valid":true,"status":"active","plan":"{p}","customerId":"c"}}"#)),
        (Mode::Up, Sub::Ended(p)) => Answer::Body(200, format!(r#"{{"valid":false,"status":"canceled","plan":"{p}"}}"#)),
        (Mode::Up, Sub::Gone) => Answer::Body(404, r#"{"valid":false,"error":"License key not found"}"#.into()),
    }
}
fn sub() -> Option<Sub> {
    Some(match pick(5) {
        0..=2 => Sub::Active(PLANS[pick(8) as usize]),
        3 => Sub::Ended(PLANS[pick(2) as usize]),
        _ => Sub::Gone,
    })
}

fn v01() {
    let h: H = Host::new(Log { mode: Some(Mode::Up), subs: (0..KEYS.len()).map(|_| sub()).collect(), ..Log::default() });
    {
        let h = h.clone();
        ureq::stand_in(move |_, body| service(&h, body));
    }
    let pc = node::add("pc");
    sim::fs::mkdirs("/sim/pc/cache");
    unsafe {
        std::env::set_var("XDG_CACHE_HOME", "/sim/pc/cache");
        std::env::set_var("HOME", "/sim/pc");
    }
    let f = sim::fs_cfg();
    f.p_power = 0.5;
    if chance(0.4) {
        f.p_crash = [0.02, 0.1, 0.3][pick(3) as usize];
        f.crashes_left = 3;
        f.zeroing = chance(0.5);
        f.ordered = chance(0.5);
    }
    if chance(0.3) {
        f.p_err = [0.01, 0.05, 0.2][pick(3) as usize];
        f.p_short = [0.0, 0.1][pick(2) as usize];
    }
    sim::alloc_points([0, 300][pick(2) as usize]);
    // What the cache may hold: one entry after an undisturbed store, several after a disturbed one.
    let mut held: Vec<Option<Entry>> = vec![None];
    let mut stored: Vec<Entry> = Vec::new();
    let (mut accepted, mut from_cache) = (0, 0);
    for step in 0..sim::range(4, 30) {
        match pick(10) {
            0..=4 => {
                let k = pick(4) as usize;
                let key = if k < 3 { KEYS[k] } else { ["pi_alice", "sub", "", "SUB_alice"][pick(4) as usize] };
                let faults = faults_so_far();
                h.with(|l| {
                    l.result = None;
                    l.asked = 0;
                    l.delay = if chance(0.2) { S * [1, 40, 4000][pick(3) as usize] } else { 0 };
                });
                let hh = h.clone();
                node::spawn(pc, "tool", move || {
                    let from = clock();
                    let r = LicenseValidator::new().validate(key);
                    let to = clock();
                    let o = match r {
                        Ok(p) => Outcome::Plan(plan(p).into()),
                        Err(e) => match e.kind {
                            Kind::LicenseInsufficientPlan { .. } => Outcome::TooSmall,
                            _ => Outcome::Invalid,
                        },
                    };
                    hh.with(|l| l.result = Some((o, from, to)));
                });
                ensure!(node::wait_for(50 * S, 20_000 * S, || node::finished(pc) || !node::alive(pc)), "stuck", "validation did not end");
                let disturbed = faults_so_far() != faults;
                let (asked, mode, result) = h.with(|l| (l.asked, l.mode.unwrap(), l.result.clone()));
                let verdict = match (k, h.with(|l| l.subs.get(k).cloned())) {
                    (0..=2, Some(Some(Sub::Active(p)))) => (true, p),
                    (0..=2, Some(Some(Sub::Ended(p)))) => (false, p),
                    _ => (false, "none"),
                };
                sim::note("validate", format!("step {step} key {key} mode {mode:?} verdict {verdict:?} held {held:?} -> {result:?} asked {asked}"));
                let Some((o, from, to)) = result else {
                    // The machine went down: anything stored so far may be what is there.
                    held.extend(stored.iter().cloned().map(Some));
                    held.push(None);
                    if k < 3 && mode == Mode::Up {
                        let answered = h.with(|l| l.answered_at);
                        for at in [answered, answered + 1] {
                            let e = Entry { key: key.into(), valid: verdict.0, plan: canonical(verdict.1).into(), at };
                            held.push(Some(e.clone()));
                            stored.push(e);
                        }
                    }
                    sim::count("crashes while validating");
                    continue;
                };
                if k == 3 {
                    ensure!(o == Outcome::Invalid && asked == 0, "bad-key", "the key {key:?} led to {o:?} with {asked} requests");
                    continue;
                }
                let mut read = held.clone();
                if disturbed {
                    read.push(None);
                }
                // What each thing the cache may hold leads to.
                let mut allowed: Vec<(Outcome, bool)> = Vec::new();
                for c in &read {
                    let mine = c.as_ref().filter(|e| e.key == key);
                    let fresh = |now: u64, e: &Entry| now >= e.at && now - e.at < DAY;
                    for now in [from, to] {
                        match mine {
                            Some(e) if fresh(now, e) => {
                                allowed.push((outcome(e.valid, &e.plan), false));
                                // Asking all the same is no harm.
                                if mode == Mode::Up {
                                    allowed.push((outcome(verdict.0, verdict.1), true));
                                } else if e.valid {
                                    allowed.push((outcome(true, &e.plan), true));
                                }
                            }
                            _ if mode == Mode::Up => allowed.push((outcome(verdict.0, verdict.1), true)),
                            Some(e) if e.valid && matches!(outcome(true, &e.plan), Outcome::Plan(_)) => {
                                allowed.push((outcome(true, &e.plan), true));
                                if disturbed {
                                    allowed.push((Outcome::Invalid, true));
                                }
                            }
                            _ => allowed.push((Outcome::Invalid, true)),
                        }
                        if h.with(|l| l.delay) == 0 && from == to {
                            break;
                        }
                    }
                }
                let got = (o.clone(), asked > 0);
                ensure!(asked <= 1, "asked-twice", "one validation sent {asked} requests");
                ensure!(
                    allowed.iter().any(|a| a.0 == got.0 && (a.1 == got.1 || !matches!(a.0, Outcome::Plan(_)))),
                    match &o {
                        Outcome::Plan(_) => "accepted",
                        _ => "refused",
                    },
                    "key {key} with the service {mode:?} saying {verdict:?} at {from}..{to}: got {o:?} ({}), but the stored verdicts {held:?} allow {allowed:?}",
                    if asked > 0 { "after asking" } else { "without asking" }
                );
                if matches!(o, Outcome::Plan(_)) {
                    accepted += 1;
                    from_cache += (asked == 0) as u64;
                }
                if asked > 0 && mode == Mode::Up {
                    let e = Entry { key: key.into(), valid: verdict.0, plan: canonical(verdict.1).into(), at: to };
                    if disturbed {
                        held.push(Some(e.clone()));
                        held.push(None);
                    } else if verdict.1 == "none" {
                        // Rejected without a plan: remembered, or at least not accepted later.
                        held.retain(|c| c.as_ref().is_none_or(|e| e.key != key));
                        held.push(Some(e.clone()));
                        held.push(None);
                    } else {
                        held = vec![Some(e.clone())];
                    }
                    stored.push(e);
                }
                if asked == 0 {
                    sim::count("verdicts taken from the cache");
                } else if mode != Mode::Up {
                    sim::count("validations during an outage");
                }
            }
            5 => {
                let t = [1, 3600, DAY - 2, DAY, DAY + 5, 40 * DAY][pick(6) as usize];
                node::sleep(S * t);
            }
            6 => {
                let t = (S * [10, 3600, DAY - 1, DAY, 30 * DAY][pick(5) as usize]) as i64;
                sim::clock_jump(pc, if chance(0.5) { -t } else { t });
                sim::count("clock jumps");
            }
            7 => {
                let m = [Mode::Up, Mode::Down, Mode::Broken, Mode::Garbage][pick(4) as usize];
                h.with(|l| l.mode = Some(m));
            }
            8 => {
                let s = sub();
                let k = pick(3) as usize;
                h.with(|l| l.subs[k] = s);
            }
            _ => {
                // A damaged cache file.
                if let Some(b) = sim::fs::peek(CACHE).filter(|b| !b.is_empty()) {
                    let n = pick(b.len() as u64) as usize;
                    let mut b = b.clone();
                    if chance(0.5) {
                        b.truncate(n);
                    } else {
                        b[n..].fill(0);
                    }
                    sim::fs::poke(CACHE, &b);
                    held = vec![None];
                    sim::count("damaged cache files");
                }
            }
        }
    }
    if accepted > 0 && from_cache > 0 {
        sim::nontrivial();
    }
    sim::sample(format!("{accepted} accepted, {from_cache} of them from the cache"));
}
fn plan(p: LicensePlan) -> &'static str {
    match p {
        LicensePlan::None => "none",
        LicensePlan::Free => "free",
        LicensePlan::Supporter => "supporter",
        LicensePlan::Pro => "pro",
        LicensePlan::Premium => "premium",
        LicensePlan::Lifetime => "lifetime",
        LicensePlan::Enterprise => "enterprise",
    }
}

fn main() {
    sim::main(&[Prop {
        id: "V01",
        scenario: v01,
        runs: 50_000,
        rule: "one run = one sequence of validations of several keys, changes of subscriptions, service outages, passing time, clock jumps, crashes and cache damage; non-trivial when a licence was accepted and at least one acceptance came from the cache; distinct by schedule and fault hash",
        real: &["logicaffeine-verify: LicenseValidator with its cache file"],
        stubs: &["the HTTP client and the licence service", "file system and clock"],
        assumptions: &["one validation at a time on a machine"],
    }]);
}
