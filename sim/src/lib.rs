//! Deterministic simulation of one machine room in one process. See DESIGN.md.
pub mod alloc;
pub mod choice;
pub mod driver;
pub mod fs;
pub mod interpose;
pub mod net;
pub mod node;
pub mod sys;
pub mod world;

pub use driver::{main, Prop};
pub use world::{OsGuard, Outcome};
use world::{finish_and_stop, w};

/// A uniform decision in 0..n (0 is what minimisation tries to get back to).
pub fn pick(n: u64) -> u64 {
    let _g = OsGuard::new();
    w().ch.uniform(n)
}
/// A decision in 0..n that is non-zero with probability p.
pub fn weighted(n: u64, p: f64) -> u64 {
    let _g = OsGuard::new();
    w().ch.weighted(n, p)
}
pub fn chance(p: f64) -> bool {
    weighted(2, p) == 1
}
/// A choice in lo..=hi.
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + pick(hi - lo + 1)
}
/// One of the items.
pub fn one<T: Clone>(v: &[T]) -> T {
    v[pick(v.len() as u64) as usize].clone()
}
/// Entropy not subject to minimisation (payload bytes and the like).
pub fn entropy() -> u64 {
    w().ch.entropy.next()
}
/// The property is broken: end the run with this verdict.
pub fn violation(class: &str, msg: String) -> ! {
    let _g = OsGuard::new();
    w().event("violation", 0, 0, || format!("{class}: {msg}"));
    finish_and_stop(Outcome::Violation { class: class.into(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !($c) {
            $crate::violation($class, format!($($a)*));
        }
    };
}
pub fn count(k: &str) {
    let _g = OsGuard::new();
    w().count(k)
}
pub fn count_n(k: &str, n: u64) {
    let _g = OsGuard::new();
    w().count_n(k, n)
}
/// Put a harness-level event in the history (hash and trace).
pub fn note(tag: &str, text: String) {
    let _g = OsGuard::new();
    let h = choice::hash_bytes(1, text.as_bytes());
    w().event(tag, h, 0, || text);
}
/// A line describing this run, kept as a sample in the evidence.
pub fn sample(s: String) {
    let _g = OsGuard::new();
    if w().sample.len() < 40 {
        w().sample.push(s);
    }
}
/// This run exercised what the property is about.
pub fn nontrivial() {
    count("nontrivial")
}
/// Run oracle code without scheduling points of its own.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    w().quiet += 1;
    let r = f();
    w().quiet -= 1;
    r
}
pub fn now() -> u64 {
    w().now
}
pub fn cfg() -> &'static mut world::Cfg {
    &mut w().cfg
}
pub fn fs_cfg() -> &'static mut fs::FsCfg {
    &mut w().fs.cfg
}
pub fn net_cfg() -> &'static mut net::NetCfg {
    &mut w().net.cfg
}
/// Scheduling points at allocations, about every `mean` allocations.
pub fn alloc_points(mean: u64) {
    let _g = OsGuard::new();
    let wd = w();
    wd.cfg.alloc_gap = mean;
    wd.alloc_on = mean > 0;
    wd.alloc_left = if mean > 0 { wd.ch.gap(mean) } else { 0 };
}
/// No more faults of any kind from here on (the end of a run, when liveness is judged).
pub fn faults_off() {
    let _g = OsGuard::new();
    let wd = w();
    wd.cfg.p_stall = 0.0;
    wd.cfg.p_spurious = 0.0;
    let f = &mut wd.fs.cfg;
    f.p_err = 0.0;
    f.p_short = 0.0;
    f.p_crash = 0.0;
    f.space = None;
    let n = &mut wd.net.cfg;
    n.p_slow = 0.0;
    n.p_reset = 0.0;
    n.p_accept = 0.0;
}
/// Move a node's wall clock.
pub fn clock_jump(node: u32, ns: i64) {
    let _g = OsGuard::new();
    let wd = w();
    wd.nodes[node as usize].wall_skew += ns;
    wd.count("fault:clock_jump");
    wd.event("clock-jump", node as u64, ns as u64, || format!("node {node} {ns}ns"));
}

