//! Replicated data types exchanged between simulated replicas: C01, C02, C03.
//!
//! The replicas are the real types of `logicaffeine_data`; a message is the encoded state (or delta)
//! of one of them, and the simulator decides which are lost, repeated, reordered or delayed and when
//! a replica restarts from its last saved state. Next to every replica runs a reference model: the set
//! of operations whose effects it has received, with the happens-before order between operations.
use logicaffeine_data::crdt::*;
use serde::{de::DeserializeOwned, Serialize};
use sim::{chance, ensure, one, pick, range, violation, Prop};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Inc(u64),
    Dec(u64),
    Add(u8),
    Rem(u8),
    Write(u32, u64),
    Ins(u32),
    Del(u32),
    /// An operation on the value below a key, and whether it adds the key.
    Key(u8, bool, Box<Op>),
}
struct Done {
    op: Op,
    past: u128,
}
/// What happened so far, everywhere.
#[derive(Default)]
struct Hist {
    ops: Vec<Done>,
    /// Sequence elements ever seen in this order.
    before: BTreeSet<(u32, u32)>,
    values: BTreeMap<u128, String>,
    next: u32,
    ties: bool,
    clock: u64,
}
impl Hist {
    fn seen(&self, s: u128) -> impl Iterator<Item = (usize, &Done)> {
        self.ops.iter().enumerate().filter(move |(i, _)| s >> i & 1 == 1)
    }
}
fn fmt<T: std::fmt::Debug>(mut v: Vec<T>) -> String
where
    T: Ord,
{
    v.sort();
    format!("{v:?}")
}

trait Ty: Clone + Serialize + DeserializeOwned + 'static {
    const NAME: &'static str;
    fn fresh(id: u64) -> Self;
    fn join(&mut self, o: &Self);
    /// Perform some operation; None if there was nothing to do.
    fn act(&mut self, h: &mut Hist) -> Option<Op>;
    fn show(&self) -> String;
    /// The value after exactly the operations in `s`; None if only `judge` knows.
    fn model(h: &Hist, s: u128) -> Option<String>;
    /// Whether all ways of looking at the value agree.
    fn views(&self) -> bool {
        true
    }
    /// Further checks of an observed value.
    fn judge(&self, _h: &mut Hist, _s: u128) {}
    /// The class under which a divergence of equal histories is reported.
    fn split(_h: &Hist, _s: u128, _shown: &[String]) -> &'static str {
        "diverged"
    }
    fn wrong(_h: &Hist, _s: u128, _want: &str, _got: &str) -> &'static str {
        "wrong-value"
    }
}

fn total(h: &Hist, s: u128) -> i64 {
    h.seen(s)
        .map(|(_, d)| match d.op {
            Op::Inc(n) => n as i64,
            Op::Dec(n) => -(n as i64),
            _ => 0,
        })
        .sum()
}
impl Ty for GCounter {
    const NAME: &'static str = "GCounter";
    fn fresh(id: u64) -> Self {
        GCounter::with_replica_id(id)
    }
    fn join(&mut self, o: &Self) {
        self.merge(o)
    }
    fn act(&mut self, _: &mut Hist) -> Option<Op> {
        let n = range(1, 9);
        self.increment(n);
        Some(Op::Inc(n))
    }
    fn show(&self) -> String {
        self.value().to_string()
    }
    fn model(h: &Hist, s: u128) -> Option<String> {
        Some(total(h, s).to_string())
    }
}
impl Ty for PNCounter {
    const NAME: &'static str = "PNCounter";
    fn fresh(id: u64) -> Self {
        PNCounter::with_replica_id(id)
    }
    fn join(&mut self, o: &Self) {
        self.merge(o)
    }
    fn act(&mut self, _: &mut Hist) -> Option<Op> {
        let n = range(1, 9);
        Some(if chance(0.5) {
            self.decrement(n);
            Op::Dec(n)
        } else {
            self.increment(n);
            Op::Inc(n)
        })
    }
    fn show(&self) -> String {
        self.value().to_string()
    }
    fn model(h: &Hist, s: u128) -> Option<String> {
        Some(total(h, s).to_string())
    }
}
impl Ty for LWWRegister<u32> {
    const NAME: &'static str = "LWWRegister";
    fn fresh(_: u64) -> Self {
        LWWRegister::default()
    }
    fn join(&mut self, o: &Self) {
        self.merge(o)
    }
    fn act(&mut self, h: &mut Hist) -> Option<Op> {
        h.next += 1;
        // Every node has its own, drifting clock; a writer never goes below the value it replaces.
        h.clock += range(0, 3);
        let skewed = h.clock.saturating_sub(range(0, 5)).max(self.timestamp() / 64 + 1);
        let t = if h.ties { skewed * 64 } else { skewed * 64 + h.next as u64 % 64 };
        let v = h.next;
        self.set(v, t);
        Some(Op::Write(v, t))
    }
    fn show(&self) -> String {
        self.get().to_string()
    }
    fn model(h: &Hist, s: u128) -> Option<String> {
        let w = |d: &Done| if let Op::Write(v, t) = d.op { (t, v) } else { (0, 0) };
        let top = h.seen(s).map(|(_, d)| w(d)).max().unwrap_or((0, 0));
        let same = h.seen(s).filter(|(_, d)| w(d).0 == top.0).count();
        if same > 1 { None } else { Some(top.1.to_string()) }
    }
    fn split(h: &Hist, s: u128, _: &[String]) -> &'static str {
        if Self::model(h, s).is_none() { "lww-tie" } else { "diverged" }
    }
}
impl Ty for MVRegister<u32> {
    const NAME: &'static str = "MVRegister";
    fn fresh(id: u64) -> Self {
        MVRegister::new(id)
    }
    fn join(&mut self, o: &Self) {
        self.merge(o)
    }
    fn act(&mut self, h: &mut Hist) -> Option<Op> {
        h.next += 1;
        if self.has_conflict() && chance(0.5) {
            self.resolve(h.next);
        } else {
            self.set(h.next);
        }
        Some(Op::Write(h.next, 0))
    }
    fn show(&self) -> String {
        fmt(self.values())
    }
    fn model(h: &Hist, s: u128) -> Option<String> {
        Some(fmt(h.seen(s)
            .filter(|(i, _)| !h.seen(s).any(|(_, e)| e.past >> i & 1 == 1))
            .map(|(_, d)| if let Op::Write(v, _) = d.op { v } else { 0 })
            .collect()))
    }
}
/// Elements with an addition no received removal had observed.
fn add_wins(h: &Hist, s: u128) -> Vec<u8> {
    let mut v: Vec<u8> = h
        .seen(s)
        .filter_map(|(i, d)| match d.op {
            Op::Add(x) if !h.seen(s).any(|(_, r)| r.op == Op::Rem(x) && r.past >> i & 1 == 1) => Some(x),
            _ => None,
        })
        .collect();
    v.sort();
    v.dedup();
    v
}
impl Ty for ORSet<u8, AddWins> {
    const NAME: &'static str = "ORSet<AddWins>";
    fn fresh(id: u64) -> Self {
        ORSet::new(id)
    }
    fn join(&mut self, o: &Self) {
        self.merge(o)
    }
    fn act(&mut self, h: &mut Hist) -> Option<Op> {
        let _ = h;
        let x = pick(4) as u8;
        Some(if self.contains(&x) && chance(0.6) {
            self.remove(&x);
            Op::Rem(x)
        } else {
            self.add(x);
            Op::Add(x)
        })
    }
    fn views(&self) -> bool {
        let all: BTreeSet<u8> = self.iter().copied().collect();
        self.len() == all.len() && self.iter().count() == all.len() && self.is_empty() == all.is_empty() && (0..4).all(|x| self.contains(&x) == all.contains(&x))
    }
    fn show(&self) -> String {
        fmt(self.iter().collect())
    }
    fn model(h: &Hist, s: u128) -> Option<String> {
        Some(fmt(add_wins(h, s)))
    }
}
impl Ty for ORSet<u8, RemoveWins> {
    const NAME: &'static str = "ORSet<RemoveWins>";
    fn fresh(id: u64) -> Self {
        ORSet::new(id)
    }
    fn join(&mut self, o: &Self) {
        self.merge(o)
    }
    fn act(&mut self, _: &mut Hist) -> Option<Op> {
        let x = pick(3) as u8;
        Some(if self.contains(&x) && chance(0.6) {
            self.remove(&x);
            Op::Rem(x)
        } else {
            self.add(x);
            Op::Add(x)
        })
    }
    fn views(&self) -> bool {
        let all: BTreeSet<u8> = self.iter().copied().collect();
        self.len() == all.len() && self.iter().count() == all.len() && self.is_empty() == all.is_empty() && (0..4).all(|x| self.contains(&x) == all.contains(&x))
    }
    fn show(&self) -> String {
        fmt(self.iter().collect())
    }
    /// An element needs an addition that had observed every received removal of it.
    fn model(h: &Hist, s: u128) -> Option<String> {
        let mut v: Vec<u8> = h
            .seen(s)
            .filter_map(|(_, d)| match d.op {
                Op::Add(x) if h.seen(s).all(|(j, r)| r.op != Op::Rem(x) || d.past >> j & 1 == 1) => Some(x),
                _ => None,
            })
            .collect();
        v.sort();
        v.dedup();
        Some(fmt(v))
    }
    fn split(h: &Hist, s: u128, shown: &[String]) -> &'static str {
        if (0..10).all(|x| raced(h, s, x) || shown.iter().all(|v| holds(v, x) == holds(&shown[0], x))) { "removewins-merge-order" } else { "diverged" }
    }
    fn wrong(h: &Hist, s: u128, want: &str, got: &str) -> &'static str {
        if (0..10).all(|x| holds(want, x) == holds(got, x) || raced(h, s, x)) { "removewins-concurrent" } else { "removewins-element-wrong" }
    }
}
/// Some addition of `x` and some removal of it did not know of each other.
fn raced(h: &Hist, s: u128, x: u8) -> bool {
    h.seen(s).any(|(i, a)| a.op == Op::Add(x) && h.seen(s).any(|(j, r)| r.op == Op::Rem(x) && a.past >> j & 1 == 0 && r.past >> i & 1 == 0))
}
fn holds(shown: &str, x: u8) -> bool {
    shown.contains(&x.to_string())
}
impl<V: Ty + Merge + Default> Ty for ORMap<u8, V> {
    const NAME: &'static str = "ORMap";
    fn fresh(id: u64) -> Self {
        ORMap::new(id)
    }
    fn join(&mut self, o: &Self) {
        self.merge(o)
    }
    fn act(&mut self, h: &mut Hist) -> Option<Op> {
        let k = pick(3) as u8;
        if self.contains_key(&k) && chance(0.3) {
            self.remove(&k);
            return Some(Op::Rem(k));
        }
        let add = chance(0.7);
        let v = if add { self.get_or_insert(k) } else { self.get_mut(&k)? };
        Some(Op::Key(k, add, Box::new(v.act(h)?)))
    }
    fn show(&self) -> String {
        fmt(self.iter().map(|(k, v)| (*k, v.show())).collect())
    }
    fn model(h: &Hist, s: u128) -> Option<String> {
        let mut v = Vec::new();
        for k in 0..3u8 {
            let live = h.seen(s).any(|(i, d)| matches!(d.op, Op::Key(x, true, _) if x == k) && !h.seen(s).any(|(_, r)| r.op == Op::Rem(k) && r.past >> i & 1 == 1));
            if live {
                // the history of the value below this key
                let mut own = 0;
                let mut sub = Hist::default();
                for (i, d) in h.ops.iter().enumerate() {
                    let op = match &d.op {
                        Op::Key(x, _, o) if *x == k => {
                            own |= 1 << i;
                            (**o).clone()
                        }
                        o => o.clone(),
                    };
                    sub.ops.push(Done { op, past: d.past });
                }
                v.push((k, V::model(&sub, s & own)?));
            }
        }
        Some(fmt(v))
    }
    fn views(&self) -> bool {
        let keys: BTreeSet<u8> = self.iter().map(|(k, _)| *k).collect();
        self.len() == keys.len()
            && self.is_empty() == keys.is_empty()
            && self.keys().copied().collect::<BTreeSet<_>>() == keys
            && (0..3).all(|k| self.contains_key(&k) == keys.contains(&k) && self.get(&k).is_some() == keys.contains(&k))
            && self.iter().all(|(_, v)| v.views())
    }
}
/// Both sequence types have the same interface.
trait Seq: Clone + Serialize + DeserializeOwned + 'static {
    const N: &'static str;
    fn mk(id: u64) -> Self;
    fn m(&mut self, o: &Self);
    fn list(&self) -> Vec<u32>;
    fn same(&self) -> bool;
    fn after(&mut self, i: usize, v: u32);
    fn ahead(&mut self, i: usize, v: u32);
    fn end(&mut self, v: u32);
    fn del(&mut self, i: usize);
}
macro_rules! seq {
    ($t:ident) => {
        impl Seq for $t<u32> {
            const N: &'static str = stringify!($t);
            fn mk(id: u64) -> Self {
                $t::new(id)
            }
            fn m(&mut self, o: &Self) {
                self.merge(o)
            }
            fn list(&self) -> Vec<u32> {
                self.to_vec()
            }
            fn same(&self) -> bool {
                let all = self.to_vec();
                self.len() == all.len() && self.is_empty() == all.is_empty() && self.iter().eq(all.iter()) && (0..=all.len()).all(|i| self.get(i) == all.get(i))
            }
            fn after(&mut self, i: usize, v: u32) {
                self.insert_after(i, v)
            }
            fn ahead(&mut self, i: usize, v: u32) {
                self.insert_before(i, v)
            }
            fn end(&mut self, v: u32) {
                self.append(v)
            }
            fn del(&mut self, i: usize) {
                self.remove(i)
            }
        }
    };
}
seq!(RGA);
seq!(YATA);
#[derive(Clone, serde::Serialize, serde::Deserialize)]
#[serde(bound = "S: Serialize + DeserializeOwned")]
struct List<S: Seq>(S);
impl<S: Seq> Ty for List<S> {
    const NAME: &'static str = S::N;
    fn fresh(id: u64) -> Self {
        List(S::mk(id))
    }
    fn join(&mut self, o: &Self) {
        self.0.m(&o.0)
    }
    fn act(&mut self, h: &mut Hist) -> Option<Op> {
        let was = self.0.list();
        if !was.is_empty() && chance(0.25) {
            let i = pick(was.len() as u64) as usize;
            self.0.del(i);
            let mut want = was.clone();
            want.remove(i);
            ensure!(self.0.list() == want, "misplaced-edit", "{}: deleting item {i} of {was:?} gave {:?}", S::N, self.0.list());
            return Some(Op::Del(was[i]));
        }
        h.next += 1;
        let v = h.next;
        let mut want = was.clone();
        let what = match pick(3) {
            0 => {
                self.0.end(v);
                want.push(v);
                "appending".to_string()
            }
            1 if !was.is_empty() => {
                let i = pick(was.len() as u64) as usize;
                self.0.after(i, v);
                want.insert(i + 1, v);
                format!("inserting after item {i}")
            }
            _ => {
                let i = pick(was.len() as u64 + 1) as usize;
                self.0.ahead(i, v);
                want.insert(i, v);
                format!("inserting before item {i}")
            }
        };
        ensure!(self.0.list() == want, "misplaced-edit", "{}: {what} of {was:?} gave {:?}", S::N, self.0.list());
        Some(Op::Ins(v))
    }
    fn show(&self) -> String {
        format!("{:?}", self.0.list())
    }
    fn views(&self) -> bool {
        self.0.same()
    }
    fn model(_: &Hist, _: u128) -> Option<String> {
        None
    }
    fn judge(&self, h: &mut Hist, s: u128) {
        let got = self.0.list();
        let mut want: BTreeSet<u32> = h.seen(s).filter_map(|(_, d)| if let Op::Ins(v) = d.op { Some(v) } else { None }).collect();
        for (_, d) in h.seen(s) {
            if let Op::Del(v) = d.op {
                want.remove(&v);
            }
        }
        let have: BTreeSet<u32> = got.iter().copied().collect();
        ensure!(have == want && have.len() == got.len(), "wrong-value", "{}: a replica that received {} holds {got:?}", S::N, tell(h, s));
        for (i, a) in got.iter().enumerate() {
            for b in &got[i + 1..] {
                if h.before.contains(&(*b, *a)) {
                    violation("order-changed", format!("{}: item {b} was seen before {a}, now after it: {got:?}", S::N));
                }
                h.before.insert((*a, *b));
            }
        }
    }
}
fn tell(h: &Hist, s: u128) -> String {
    let v: Vec<String> = h.seen(s).map(|(i, d)| format!("{i}:{:?}(after {:?})", d.op, (0..i).filter(|j| d.past >> j & 1 == 1).collect::<Vec<_>>())).collect();
    format!("[{}]", v.join(", "))
}

struct Rep<T> {
    v: T,
    seen: u128,
    saved: (Vec<u8>, u128),
}
impl<T: Ty> Rep<T> {
    fn save(&mut self) {
        self.saved = (bincode::serialize(&self.v).expect("encode"), self.seen);
    }
    fn load(&mut self) {
        self.v = bincode::deserialize(&self.saved.0).expect("decode");
        self.seen = self.saved.1;
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Same,
    Model,
}

fn check<T: Ty>(h: &mut Hist, v: &T, s: u128, j: Judge, n: usize, what: &str) {
    let got = v.show();
    ensure!(v.views(), "views-differ", "{}: the ways of looking at {got} do not agree ({what})", T::NAME);
    match j {
        Judge::Same => {
            if let Some(old) = h.values.get(&s) {
                if *old != got {
                    violation(T::split(h, s, &[old.clone(), got.clone()]), format!("{}: two replicas that received the same updates {} hold {old} and {got} ({what})", T::NAME, tell(h, s)));
                }
            }
            h.values.insert(s, got);
        }
        Judge::Model => {
            if let Some(want) = T::model(h, s) {
                if want != got {
                    violation(T::wrong(h, s, &want, &got), format!("{}: a replica that received {} holds {got} instead of {want} ({what})", T::NAME, tell(h, s)));
                }
            }
            v.judge(h, s);
        }
    }
}
/// Let `n` replicas work, crash and exchange full states.
fn exchange<T: Ty>(j: Judge, ties: bool) {
    let n = range(2, 4) as usize;
    let steps = range(8, 50);
    let mut h = Hist { ties, ..Hist::default() };
    // ids are arbitrary 64-bit numbers, close together or far apart
    let base = if chance(0.5) { 1 } else { sim::entropy() };
    let mut reps: Vec<Rep<T>> = (0..n as u64)
        .map(|i| {
            let mut r = Rep { v: T::fresh(base.wrapping_add(i.wrapping_mul(if base == 1 { 1 } else { 0x9e37_79b9 }))), seen: 0, saved: (vec![], 0) };
            r.save();
            r
        })
        .collect();
    let mut wire: Vec<(usize, Vec<u8>, u128)> = Vec::new();
    let (p_loss, p_dup) = (one(&[0.0, 0.1, 0.4]), one(&[0.0, 0.2, 0.5]));
    for _ in 0..steps {
        let i = pick(n as u64) as usize;
        match pick(11) {
            0 => {}
            1..=3 => {
                if h.ops.len() < 100 {
                    if let Some(op) = reps[i].v.act(&mut h) {
                        sim::note("op", format!("replica {i}: {op:?}"));
                        let id = h.ops.len();
                        h.ops.push(Done { op, past: reps[i].seen });
                        reps[i].seen |= 1 << id;
                        let s = reps[i].seen;
                        check(&mut h, &reps[i].v, s, j, n, "after its own operation");
                    }
                }
            }
            4 | 5 => {
                // what is sent is what survives a crash of the sender
                reps[i].save();
                for t in 0..n {
                    if t != i && chance(0.6) {
                        if chance(p_loss) {
                            sim::count("fault:message_loss");
                            continue;
                        }
                        sim::note("send", format!("{i} -> {t}"));
                        wire.push((t, reps[i].saved.0.clone(), reps[i].saved.1));
                    }
                }
            }
            6..=8 => {
                if !wire.is_empty() {
                    // decision 0: the oldest
                    let k = pick(wire.len() as u64) as usize;
                    if k > 0 {
                        sim::count("fault:message_reordered");
                    }
                    let m = if chance(p_dup) {
                        sim::count("fault:message_duplicated");
                        wire[k].clone()
                    } else {
                        wire.remove(k)
                    };
                    sim::note("deliver", format!("to {} {}", m.0, tell(&h, m.2)));
                    let o: T = bincode::deserialize(&m.1).expect("decode");
                    let r = &mut reps[m.0];
                    r.v.join(&o);
                    r.seen |= m.2;
                    let (s, v) = (r.seen, r.v.clone());
                    check(&mut h, &v, s, j, n, "after a merge");
                    sim::nontrivial();
                }
            }
            9 => {
                if chance(0.5) {
                    sim::count("fault:process_crash");
                    sim::note("crash", format!("replica {i}"));
                    // operations that were neither saved nor sent are gone
                    reps[i].load();
                    let (s, v) = (reps[i].seen, reps[i].v.clone());
                    check(&mut h, &v, s, j, n, "after a restart");
                }
            }
            _ => {
                // merge snapshots aside, in both directions and grouped both ways
                let t: Vec<(T, u128)> = (0..3).map(|_| pick(n as u64) as usize).map(|k| (reps[k].v.clone(), reps[k].seen)).collect();
                let join = |a: &(T, u128), b: &(T, u128)| {
                    let mut x = a.0.clone();
                    x.join(&b.0);
                    (x, a.1 | b.1)
                };
                let (ab, ba) = (join(&t[0], &t[1]), join(&t[1], &t[0]));
                for m in [join(&t[0], &t[0]), join(&ab, &t[2]), join(&t[0], &join(&t[1], &t[2])), join(&ba, &ab), ab, ba] {
                    check(&mut h, &m.0, m.1, j, n, "merged aside");
                }
            }
        }
    }
    // faults stop: everybody sends everything to everybody, twice
    for r in reps.iter_mut() {
        r.save();
    }
    for _ in 0..2 {
        for a in 0..n {
            for b in 0..n {
                if a != b {
                    let o: T = bincode::deserialize(&reps[a].saved.0).unwrap();
                    let s = reps[a].saved.1;
                    reps[b].v.join(&o);
                    reps[b].seen |= s;
                    reps[b].save();
                }
            }
        }
    }
    for r in &reps {
        check(&mut h, &r.v, r.seen, j, n, "at the end");
    }
    let shown: BTreeSet<String> = reps.iter().map(|r| r.v.show()).collect();
    if shown.len() > 1 {
        let s = reps[0].seen;
        violation(T::split(&h, s, &shown.iter().cloned().collect::<Vec<_>>()), format!("{}: after exchanging everything the replicas hold {shown:?}; updates {}", T::NAME, tell(&h, s)));
    }
    sim::sample(format!("{} x{n}: {} -> {}", T::NAME, tell(&h, reps[0].seen), reps[0].v.show()));
}

fn exchange_any(j: Judge) {
    match pick(36) {
        0..=3 => exchange::<ORSet<u8, AddWins>>(j, false),
        4..=7 => exchange::<ORMap<u8, PNCounter>>(j, false),
        32 | 33 => exchange::<ORMap<u8, MVRegister<u32>>>(j, false),
        34 | 35 => exchange::<ORMap<u8, ORSet<u8, AddWins>>>(j, false),
        8..=10 => exchange::<GCounter>(j, false),
        11..=13 => exchange::<PNCounter>(j, false),
        14..=17 => exchange::<MVRegister<u32>>(j, false),
        18..=21 => exchange::<List<RGA<u32>>>(j, false),
        22..=25 => exchange::<List<YATA<u32>>>(j, false),
        26..=28 => exchange::<LWWRegister<u32>>(j, false),
        29 => exchange::<LWWRegister<u32>>(j, true),
        _ => exchange::<ORSet<u8, RemoveWins>>(j, false),
    }
}

// ---------------------------------------------------------------- deltas

trait DTy: Ty + DeltaCrdt {
    /// Whether every operation advances the version.
    const VERSIONED: bool;
}
impl DTy for PNCounter {
    const VERSIONED: bool = true;
}
impl DTy for MVRegister<u32> {
    const VERSIONED: bool = true;
}
impl DTy for ORSet<u8, AddWins> {
    const VERSIONED: bool = false;
}
impl<V: Ty + Merge + Default + Send> DTy for ORMap<u8, V> {
    const VERSIONED: bool = false;
}
impl<S: Seq> Merge for List<S> {
    fn merge(&mut self, o: &Self) {
        self.join(o)
    }
}
impl<S: Seq + DeltaCrdt> DeltaCrdt for List<S> {
    type Delta = S::Delta;
    fn delta_since(&self, v: &VClock) -> Option<S::Delta> {
        self.0.delta_since(v)
    }
    fn apply_delta(&mut self, d: &S::Delta) {
        self.0.apply_delta(d)
    }
    fn version(&self) -> VClock {
        self.0.version()
    }
}
impl<S: Seq + DeltaCrdt> DTy for List<S> {
    const VERSIONED: bool = false;
}

enum Sync<T: DTy> {
    Delta(Vec<Vec<u8>>, u128),
    Full(Vec<u8>, u128),
    Ack(VClock),
    #[allow(dead_code)]
    No(T),
}
struct Peer<T: DTy> {
    v: T,
    seen: u128,
    /// The version each other replica last acknowledged to this one.
    acked: Vec<VClock>,
    buf: DeltaBuffer<T::Delta>,
}
fn make<T: DTy>(p: &Peer<T>, to: usize, buffered: bool) -> Sync<T> {
    let v = &p.acked[to];
    let enc = |d: &T::Delta| bincode::serialize(d).expect("encode delta");
    let d: Option<Vec<Vec<u8>>> = if buffered { p.buf.deltas_since(v).map(|l| l.iter().map(enc).collect()) } else { p.v.delta_since(v).map(|d| vec![enc(&d)]) };
    match d {
        Some(d) => {
            sim::count(if buffered { "buffered_delta" } else { "delta" });
            Sync::Delta(d, p.seen)
        }
        None => {
            sim::count("full_state");
            Sync::Full(bincode::serialize(&p.v).unwrap(), p.seen)
        }
    }
}
fn take<T: DTy>(p: &mut Peer<T>, from: usize, m: &Sync<T>) -> Option<Sync<T>> {
    let was = p.v.version();
    match m {
        Sync::Delta(ds, s) => {
            for d in ds {
                p.v.apply_delta(&bincode::deserialize(d).unwrap());
            }
            p.seen |= s;
        }
        Sync::Full(b, s) => {
            p.v.join(&bincode::deserialize(b).unwrap());
            p.seen |= s;
        }
        Sync::Ack(v) => {
            p.acked[from].merge_vclock(v);
            return None;
        }
        Sync::No(_) => return None,
    }
    // what was learned is offered to others, too
    if let Some(d) = p.v.delta_since(&was) {
        p.buf.push(p.v.version(), d);
    }
    Some(Sync::Ack(p.v.version()))
}
fn deltas<T: DTy>(buffered: bool) {
    let n = range(2, 3) as usize;
    let cap = range(1, 6) as usize;
    let mut h = Hist::default();
    let mut ps: Vec<Peer<T>> = (0..n).map(|i| Peer { v: T::fresh(i as u64 + 1), seen: 0, acked: vec![VClock::new(); n], buf: DeltaBuffer::new(cap) }).collect();
    let mut wire: Vec<(usize, usize, Sync<T>)> = Vec::new();
    let p_loss = one(&[0.0, 0.1, 0.4]);
    for _ in 0..range(8, 50) {
        let i = pick(n as u64) as usize;
        match pick(7) {
            0 => {}
            1 | 2 => {
                let was = ps[i].v.version();
                if let Some(op) = ps[i].v.act(&mut h) {
                    sim::note("op", format!("replica {i}: {op:?}"));
                    let id = h.ops.len();
                    h.ops.push(Done { op, past: ps[i].seen });
                    ps[i].seen |= 1 << id;
                    if let Some(d) = ps[i].v.delta_since(&was) {
                        let v = ps[i].v.version();
                        ps[i].buf.push(v, d);
                    }
                }
            }
            3 => {
                let t = (i + 1 + pick(n as u64 - 1) as usize) % n;
                if chance(p_loss) {
                    sim::count("fault:message_loss");
                } else {
                    let m = make(&ps[i], t, buffered);
                    wire.push((i, t, m));
                }
            }
            _ => {
                if !wire.is_empty() {
                    let k = pick(wire.len() as u64) as usize;
                    if k > 0 {
                        sim::count("fault:message_reordered");
                    }
                    let (f, t, m) = wire.remove(k);
                    let back = take(&mut ps[t], f, &m);
                    sim::note("deliver", format!("{f} -> {t}: {}", ps[t].v.show()));
                    if let Some(b) = back {
                        if chance(p_loss) {
                            sim::count("fault:message_loss");
                        } else {
                            wire.push((t, f, b));
                        }
                    }
                    if chance(0.2) {
                        sim::count("fault:message_duplicated");
                        wire.push((f, t, m));
                    }
                    sim::nontrivial();
                }
            }
        }
    }
    // faults stop; the same protocol goes on until nobody has anything new to tell
    for _ in 0..2 * n + 2 {
        for a in 0..n {
            for b in 0..n {
                if a != b {
                    let m = make(&ps[a], b, buffered);
                    if let Some(Sync::Ack(v)) = take(&mut ps[b], a, &m) {
                        ps[a].acked[b].merge_vclock(&v);
                    }
                }
            }
        }
    }
    let all = ps.iter().fold(0, |s, p| s | p.seen);
    // what exchanging full states gives
    let mut full = ps[0].v.clone();
    for p in &ps[1..] {
        full.join(&p.v);
    }
    let want = T::model(&h, all).unwrap_or_else(|| full.show());
    for (i, p) in ps.iter().enumerate() {
        let got = p.v.show();
        ensure!(got == want, "delta-sync-differs", "{}: replica {i} kept up by deltas and holds {got} instead of {want}; updates {}", T::NAME, tell(&h, all));
        p.v.judge(&mut h, all);
    }
    sim::sample(format!("{} x{n} {}: {} -> {want}", T::NAME, if buffered { format!("buffer {cap}") } else { "direct".into() }, tell(&h, all)));
}
fn deltas_any() {
    fn either<T: DTy>() {
        // a buffer offers nothing for operations that do not advance the version
        deltas::<T>(T::VERSIONED && chance(0.5))
    }
    match pick(8) {
        6 => either::<ORMap<u8, MVRegister<u32>>>(),
        7 => either::<ORMap<u8, ORSet<u8, AddWins>>>(),
        0 => either::<PNCounter>(),
        1 => either::<MVRegister<u32>>(),
        2 => either::<ORSet<u8, AddWins>>(),
        3 => either::<ORMap<u8, PNCounter>>(),
        4 => either::<List<RGA<u32>>>(),
        _ => either::<List<YATA<u32>>>(),
    }
}

const REAL: &[&str] = &["logicaffeine_data::crdt (all types, causal contexts, delta buffer)", "bincode encoding of states and deltas"];
const STUB: &[&str] = &["network between replicas: message bag of the simulator", "disk: last saved encoding per replica"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            scenario: || exchange_any(Judge::Same),
            runs: 50000,
            rule: "distinct schedules with at least one delivery; every state reached is compared with every other state of the run that received the same updates",
            real: REAL,
            stubs: STUB,
            assumptions: &["a replica sends only what it has saved, so that a restart never reuses an identifier"],
        },
        Prop {
            id: "C02",
            scenario: || exchange_any(Judge::Model),
            runs: 50000,
            rule: "distinct schedules with at least one delivery; every state reached is compared with the causal reference model",
            real: REAL,
            stubs: STUB,
            assumptions: &["a replica sends only what it has saved, so that a restart never reuses an identifier", "last-write-wins timestamps never go below the value they replace"],
        },
        Prop {
            id: "C03",
            scenario: deltas_any,
            runs: 50000,
            rule: "distinct schedules with at least one delivered delta or state",
            real: REAL,
            stubs: STUB,
            assumptions: &["a refused delta (None) is answered with the full state"],
        },
    ]
}
