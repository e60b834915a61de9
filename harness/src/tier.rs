//! J01: native code arriving at any moment. J02: the tiering cache on disk.
use crate::util::*;
use logicaffeine_compile::optimization::Tier;
use logicaffeine_compile::vm::{CalleeSig, Constant, NativeCtx, NativeFn, NativeTier, ObservedKind, Op, ParamKind, RegionFn, SlotKind};
use logicaffeine_compile::vm::{fn_bytecode::FnBytecode, tier_cache};
use logicaffeine_jit::ForgeTier;
use sim::{chance, ensure, fs, node, one, pick, range, Prop};

// ---------------------------------------------------------------- programs
#[derive(Clone, Copy, PartialEq)]
enum Ty {
    I,
    F,
    B,
    L,
    LF,
    LB,
}
impl Ty {
    fn name(self) -> &'static str {
        match self {
            Ty::I => "Int",
            Ty::F => "Float",
            Ty::B => "Bool",
            Ty::L => "Seq of Int",
            Ty::LF => "Seq of Float",
            Ty::LB => "Seq of Bool",
        }
    }
}
struct Fun {
    name: String,
    params: Vec<(String, Ty)>,
    ret: Ty,
    /// Estimated steps of one call.
    cost: u64,
}
fn literal(ty: Ty) -> String {
    match ty {
        Ty::L => "[3, 1, 2]",
        Ty::LF => "[0.5, 2.5]",
        _ => "[true, false]",
    }
    .into()
}
fn element(ty: Ty) -> Ty {
    match ty {
        Ty::L => Ty::I,
        Ty::LF => Ty::F,
        Ty::LB => Ty::B,
        t => t,
    }
}
const LISTS: [Ty; 4] = [Ty::L, Ty::L, Ty::LF, Ty::LB];
type Scope = Vec<(String, Ty)>;
/// Random sequential programs whose functions and loops become hot.
struct Gen {
    out: String,
    n: u32,
    funs: Vec<Fun>,
    /// Functions callable from here, and how many more calls this body may contain.
    calls: u32,
    from: usize,
    /// Variables that statements may not assign (loop counters, parameters).
    fixed: Vec<String>,
    errors: bool,
    /// Estimated executions of the current statement, and steps of the body so far.
    times: u64,
    cost: u64,
    recursions: u64,
    /// Executions of the enclosing loop of Main.
    outer: u64,
    /// Functions of numbers and truth values only, which call each other natively.
    scalar: bool,
}
impl Gen {
    fn ty(&self, t: Ty) -> Ty {
        if self.scalar && matches!(t, Ty::L | Ty::LF | Ty::LB) {
            element(t)
        } else {
            t
        }
    }
    fn line(&mut self, d: usize, s: &str) {
        self.out.push_str(&"    ".repeat(d));
        self.out.push_str(s);
        self.out.push('\n');
    }
    /// What a statement stores: kept small where doubling would go on for too long.
    fn stored(&mut self, sc: &Scope, t: Ty, d: u32) -> String {
        let e = self.expr(sc, t, d);
        if t == Ty::I && self.outer * self.times > 300 {
            format!("({e}) % 2147483647")
        } else {
            e
        }
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("v{}", self.n)
    }
    fn var(&self, sc: &Scope, ty: Ty) -> Option<String> {
        let v: Vec<String> = sc.iter().filter(|(_, t)| *t == ty).map(|(n, _)| n.clone()).collect();
        match v.is_empty() {
            true => None,
            false => Some(one(&v)),
        }
    }
    fn set(&self, sc: &Scope, ty: Ty) -> Option<String> {
        let sc: Scope = sc.iter().filter(|(n, _)| !self.fixed.contains(n)).cloned().collect();
        self.var(&sc, ty)
    }
    fn index(&mut self, sc: &Scope, l: &str, d: u32) -> String {
        let e = self.expr(sc, Ty::I, d);
        match pick(8) {
            0 => "1".into(),
            1 if self.errors && chance(0.1) => format!("({e})"),
            _ => format!("(1 + (((({e}) % (length of {l})) + (length of {l})) % (length of {l})))"),
        }
    }
    fn call(&mut self, sc: &Scope, ty: Ty) -> Option<String> {
        if self.calls == 0 {
            return None;
        }
        let c: Vec<usize> = (self.from..self.funs.len()).filter(|&i| self.funs[i].ret == ty && self.times * self.funs[i].cost < 800).collect();
        if c.is_empty() {
            return None;
        }
        self.calls -= 1;
        let f = one(&c);
        self.cost += self.times * self.funs[f].cost;
        let params: Vec<Ty> = self.funs[f].params.iter().map(|p| p.1).collect();
        let mut args = vec![format!("{}", pick(4))];
        for t in &params[1..] {
            args.push(self.expr(sc, *t, 1));
        }
        Some(format!("{}({})", self.funs[f].name, args.join(", ")))
    }
    fn expr(&mut self, sc: &Scope, ty: Ty, d: u32) -> String {
        let leaf = d == 0;
        if !leaf && chance(if self.scalar { 0.35 } else { 0.15 }) {
            if let Some(c) = self.call(sc, ty) {
                return c;
            }
        }
        match ty {
            Ty::I => match pick(if leaf { 4 } else { 14 }) {
                0 => format!("{}", one(&[0i64, 1, 2, 3, 7, 64, 1000, 65537, 4294967296, 9223372036854775807])),
                1..=3 => self.var(sc, Ty::I).unwrap_or("5".into()),
                4 => format!("({} + {})", self.expr(sc, ty, d - 1), self.expr(sc, ty, d - 1)),
                5 => format!("({} - {})", self.expr(sc, ty, d - 1), self.expr(sc, ty, d - 1)),
                6 | 7 => format!("(({} * {}) % {})", self.expr(sc, ty, d - 1), self.expr(sc, ty, d - 1), one(&["7", "1000003", "4294967296", "1000000007"])),
                8 => match self.errors {
                    true => format!("({} {} {})", self.expr(sc, ty, d - 1), one(&["/", "%"]), self.expr(sc, ty, d - 1)),
                    false => format!("({} / {})", self.expr(sc, ty, d - 1), 1 + pick(9)),
                },
                9 | 10 => match self.var(sc, Ty::L) {
                    Some(l) => {
                        let i = self.index(sc, &l, d - 1);
                        format!("(item {i} of {l})")
                    }
                    None => "11".into(),
                },
                11 => match self.var(sc, one(&LISTS)) {
                    Some(l) => format!("(length of {l})"),
                    None => "13".into(),
                },
                _ => self.var(sc, Ty::I).unwrap_or("5".into()),
            },
            Ty::F => match pick(if leaf { 3 } else { 8 }) {
                0 => one(&["0.5", "1.0", "0.0", "3.25", "1000000.5"]).to_string(),
                1 | 2 => self.var(sc, Ty::F).unwrap_or("1.5".into()),
                3 => format!("({} + {})", self.expr(sc, ty, d - 1), self.expr(sc, ty, d - 1)),
                4 => format!("({} - {})", self.expr(sc, ty, d - 1), self.expr(sc, ty, d - 1)),
                5 => format!("({} * {})", self.expr(sc, ty, d - 1), self.expr(sc, ty, d - 1)),
                6 => match self.var(sc, Ty::LF) {
                    Some(l) => {
                        let i = self.index(sc, &l, d - 1);
                        format!("(item {i} of {l})")
                    }
                    None => "2.5".into(),
                },
                _ => format!("({} / {})", self.expr(sc, ty, d - 1), one(&["2.0", "3.0", "0.0"])),
            },
            Ty::B if !leaf && chance(0.4) && self.var(sc, Ty::LB).is_some() => {
                let l = self.var(sc, Ty::LB).unwrap();
                let i = self.index(sc, &l, d - 1);
                format!("(item {i} of {l})")
            }
            Ty::B => match self.var(sc, Ty::B) {
                Some(v) if leaf || chance(0.3) => v,
                _ => one(&["true", "false"]).to_string(),
            },
            Ty::L | Ty::LF | Ty::LB => self.var(sc, ty).unwrap_or(literal(ty)),
        }
    }
    fn cond(&mut self, sc: &Scope) -> String {
        if chance(0.15) {
            if let Some(b) = self.var(sc, Ty::B) {
                return b;
            }
        }
        let t = if chance(0.75) { Ty::I } else { Ty::F };
        let (a, b) = (self.expr(sc, t, 1), self.expr(sc, t, 1));
        let c = format!("{a} is {} {b}", one(&["less than", "greater than", "at most", "at least"]));
        match pick(6) {
            0 => {
                let (x, y) = (self.expr(sc, Ty::I, 0), self.expr(sc, Ty::I, 0));
                format!("{c} {} {x} is greater than {y}", one(&["and", "or"]))
            }
            _ => c,
        }
    }
    fn block(&mut self, d: usize, sc: &Scope, left: u32, ret: Option<Ty>) {
        let mut sc = sc.clone();
        let v = self.fresh();
        self.line(d, &format!("Let mutable {v} be {}.", pick(3)));
        sc.push((v, Ty::I));
        for _ in 0..range(1, 3) {
            self.stmt(d, &mut sc, left, ret);
        }
    }
    fn stmt(&mut self, d: usize, sc: &mut Scope, left: u32, ret: Option<Ty>) {
        self.cost += self.times;
        match pick(16) {
            0 | 1 => {
                let t = self.ty(one(&[Ty::I, Ty::I, Ty::I, Ty::I, Ty::F, Ty::B, Ty::L, Ty::LF, Ty::LB]));
                let (v, e) = (self.fresh(), self.expr(sc, t, 2));
                self.line(d, &format!("Let mutable {v} be {e}."));
                sc.push((v, t));
            }
            2..=5 => {
                let t = one(&[Ty::I, Ty::I, Ty::I, Ty::I, Ty::F, Ty::B, Ty::L, Ty::LF, Ty::LB]);
                if let Some(v) = self.set(sc, t) {
                    let e = self.stored(sc, t, 3);
                    self.line(d, &format!("Set {v} to {e}."));
                }
            }
            6 | 7 => {
                let t = one(&LISTS);
                if let Some(l) = self.set(sc, t) {
                    let i = self.index(sc, &l, 1);
                    let e = self.stored(sc, element(t), 2);
                    self.line(d, &format!("Set item {i} of {l} to {e}."));
                }
            }
            8 => {
                let t = one(&LISTS);
                if let Some(l) = self.set(sc, t) {
                    let e = self.stored(sc, element(t), 1);
                    self.line(d, &format!("If length of {l} is less than 40:"));
                    self.line(d + 1, &format!("Push {e} to {l}."));
                }
            }
            9 | 10 if left > 0 => {
                let c = self.cond(sc);
                self.line(d, &format!("If {c}:"));
                self.block(d + 1, sc, left - 1, ret);
                if chance(0.5) {
                    self.line(d, "Otherwise:");
                    self.block(d + 1, sc, left - 1, ret);
                }
            }
            11 | 12 if left > 0 => {
                let i = self.fresh();
                self.line(d, &format!("Let mutable {i} be {}.", pick(2)));
                let n = if chance(0.15) && self.times == 1 { 120 + pick(200) } else { 2 + pick(9) };
                self.line(d, &format!("While {i} is {} {n}:", one(&["less than", "at most"])));
                let mut inner = sc.clone();
                inner.push((i.clone(), Ty::I));
                self.fixed.push(i.clone());
                let calls = self.calls;
                self.calls = if n > 100 { 0 } else { calls.min(1) };
                self.times *= n;
                self.block(d + 1, &inner, left - 1, ret);
                self.times /= n;
                self.calls = calls;
                self.line(d + 1, &format!("Set {i} to {i} + 1."));
            }
            13 => {
                if let (Some(t), true) = (ret, chance(0.3)) {
                    let e = self.expr(sc, t, 1);
                    let c = self.cond(sc);
                    self.line(d, &format!("If {c}:"));
                    self.line(d + 1, &format!("Return {e}."));
                }
            }
            14 if ret.is_none() => {
                let t = one(&[Ty::I, Ty::F, Ty::B, Ty::L]);
                let e = self.expr(sc, t, 1);
                self.line(d, &format!("Show {e}."));
            }
            15 if ret.is_some() && self.calls > 0 && self.times == 1 => {
                // Recursion, bounded by the first parameter.
                let me = self.from - 1;
                let t = self.funs[me].ret;
                if let Some(v) = self.set(sc, t) {
                    self.calls -= 1;
                    self.recursions += 1;
                    let params: Vec<Ty> = self.funs[me].params.iter().map(|p| p.1).collect();
                    let mut args = vec!["k - 1".to_string()];
                    for t in &params[1..] {
                        args.push(self.expr(sc, *t, 1));
                    }
                    let c = format!("{}({})", self.funs[me].name, args.join(", "));
                    self.line(d, &format!("Set {v} to {c}."));
                }
            }
            _ => {
                if let Some(v) = self.set(sc, Ty::I) {
                    let e = self.stored(sc, Ty::I, 2);
                    self.line(d, &format!("Set {v} to {e}."));
                }
            }
        }
    }
    fn program() -> String {
        let k = range(1, 4) as usize;
        let mut g = Gen { out: String::new(), n: 0, funs: Vec::new(), calls: 0, from: 0, fixed: Vec::new(), errors: chance(0.2), times: 1, cost: 0, recursions: 0, outer: 1, scalar: chance(0.5) };
        for i in 0..k {
            let mut params = vec![("k".to_string(), Ty::I)];
            for j in 0..range(0, 3) {
                params.push((format!("{}{j}", ["p", "q"][i % 2]), g.ty(one(&[Ty::I, Ty::I, Ty::F, Ty::B, Ty::L, Ty::L, Ty::LF, Ty::LB]))));
            }
            g.funs.push(Fun { name: format!("job{i}"), params, ret: g.ty(one(&[Ty::I, Ty::I, Ty::F, Ty::B, Ty::L, Ty::LF])), cost: 0 });
        }
        for i in (0..k).rev() {
            (g.times, g.cost, g.recursions) = (1, 5, 0);
            let ps: Scope = g.funs[i].params.clone();
            let ret = g.funs[i].ret;
            let head = ps.iter().map(|(n, t)| format!("{n}: {}", t.name())).collect::<Vec<_>>().join(", ");
            g.line(0, &format!("## To job{i} ({head}) -> {}:", ret.name()));
            g.from = i + 1;
            g.calls = 0;
            g.fixed = ps.iter().map(|p| p.0.clone()).collect();
            let mut sc = ps.clone();
            // Every body can produce its result type.
            let v = g.fresh();
            let first = match ret {
                Ty::L | Ty::LF => literal(ret),
                t => g.expr(&sc, t, 1),
            };
            let param = g.var(&ps, ret).filter(|_| element(ret) != ret && chance(0.4));
            match param {
                Some(p) => g.line(1, &format!("Let mutable {v} be {p}.")),
                None if ret == Ty::L && chance(0.6) => {
                    g.line(1, &format!("Let mutable {v} be a new Seq of Int."));
                    g.line(1, &format!("Push k to {v}."));
                }
                None => g.line(1, &format!("Let mutable {v} be {first}.")),
            }
            sc.push((v.clone(), ret));
            for t in [Ty::L, Ty::LF, Ty::LB] {
                if let (Some(l), true) = (g.var(&ps, t), chance(0.4)) {
                    let w = g.fresh();
                    g.line(1, &format!("Let mutable {w} be {l}."));
                    sc.push((w, t));
                }
            }
            g.line(1, "If k is less than 1:");
            g.line(2, &format!("Return {v}."));
            g.calls = if g.scalar { 4 } else { 2 };
            for _ in 0..range(1, 5) {
                g.stmt(1, &mut sc, 2, Some(ret));
            }
            let e = if element(ret) != ret && chance(0.6) { v } else { g.expr(&sc, ret, 2) };
            g.line(1, &format!("Return {e}."));
            g.line(0, "");
            g.funs[i].cost = g.cost * (g.recursions + 1).pow(3);
        }
        g.line(0, "## Main");
        g.from = 0;
        g.fixed.clear();
        let mut sc: Scope = Vec::new();
        for t in [Ty::I, Ty::I, Ty::F, Ty::B, Ty::L, Ty::LF, Ty::LB] {
            let v = g.fresh();
            let e = match t {
                Ty::L | Ty::LF | Ty::LB => literal(t),
                _ => g.expr(&sc, t, 1),
            };
            g.line(0, &format!("Let mutable {v} be {e}."));
            sc.push((v, t));
        }
        if chance(0.45) {
            // A list grown and rewritten in place by one hot loop that something interrupts.
            let (w, i, t) = (g.fresh(), g.fresh(), g.fresh());
            let n = 110 + pick(60);
            let at = 100 + pick(n - 90);
            g.line(0, &format!("Let mutable {w} be [1, 2]."));
            g.line(0, &format!("Let mutable {i} be 0."));
            g.line(0, &format!("Let mutable {t} be 1."));
            g.line(0, &format!("While {i} is less than {n}:"));
            let mut steps = vec![
                format!("Push ({i} * {}) + {t} to {w}.", 1 + pick(5)),
                format!("Set item (1 + ({i} % (length of {w}))) of {w} to (item (1 + (({i} * 7) % (length of {w}))) of {w}) + {i}."),
                match pick(3) {
                    0 => format!("Set {t} to {t} * {}.", 2 + pick(2)),
                    1 if g.errors => format!("Set {t} to {t} + (1000 / ({at} - {i}))."),
                    _ => format!("Set {t} to {t} + (item (1 + ({at} - {i}) * ({at} - {i}) % 2) of {w})."),
                },
            ];
            if chance(0.3) {
                steps.swap(1, 2);
            }
            if chance(0.2) {
                steps.remove(pick(2) as usize);
            }
            for s in steps {
                g.line(1, &s);
            }
            g.line(1, &format!("Set {i} to {i} + 1."));
            g.line(0, &format!("Show {w}."));
            g.line(0, &format!("Show {t}."));
        }
        for _ in 0..range(1, 3) {
            let i = g.fresh();
            g.line(0, &format!("Let mutable {i} be 0."));
            g.outer = 90 + pick(160);
            g.line(0, &format!("While {i} is less than {}:", g.outer));
            g.fixed.push(i.clone());
            let mut inner = sc.clone();
            inner.push((i.clone(), Ty::I));
            // The calls that make functions hot.
            for _ in 0..range(1, 3) {
                g.calls = 1;
                let t = g.ty(one(&[Ty::I, Ty::I, Ty::F, Ty::B, Ty::L]));
                if let Some(v) = g.set(&sc, t) {
                    if let Some(c) = g.call(&inner, t) {
                        match t {
                            // Keep a trace of every result.
                            Ty::I if chance(0.6) => g.line(1, &format!("Set {v} to (({v} % 65537) * 31) + ({c} % 65537).")),
                            Ty::F if chance(0.6) => g.line(1, &format!("Set {v} to ({v} / 3.0) + {c}.")),
                            _ => g.line(1, &format!("Set {v} to {c}.")),
                        }
                    }
                }
            }
            g.calls = 1;
            g.block(1, &inner, 2, None);
            if chance(0.5) {
                g.line(1, &format!("If {i} % {} is at most 0:", 20 + pick(60)));
                let t = one(&[Ty::I, Ty::F, Ty::L]);
                let v = g.var(&sc, t).unwrap();
                g.line(2, &format!("Show {v}."));
            }
            g.line(1, &format!("Set {i} to {i} + 1."));
        }
        for (v, _) in &sc {
            let l = format!("Show {v}.");
            g.line(0, &l);
        }
        g.out
    }
}

// ---------------------------------------------------------------- tiers
/// The real compiler, asked only for some of the functions and loops, and answering late.
struct Patchy {
    forge: ForgeTier,
    functions: f64,
    regions: f64,
    /// Yields before and after each compilation on a worker.
    slow: u64,
}
impl NativeTier for Patchy {
    fn compile_function(&self, code: &[Op], entry_pc: usize, constants: &[Constant], param_count: u16, register_count: u16, self_fi: u16, param_kinds: &[Option<ParamKind>], ret_kind: Option<SlotKind>, ctx: &NativeCtx, callees: &[CalleeSig]) -> Option<Box<dyn NativeFn>> {
        if !chance(self.functions) {
            return None;
        }
        for _ in 0..pick(1 + self.slow) {
            std::thread::yield_now();
        }
        let r = self.forge.compile_function(code, entry_pc, constants, param_count, register_count, self_fi, param_kinds, ret_kind, ctx, callees);
        for _ in 0..pick(1 + self.slow) {
            std::thread::yield_now();
        }
        sim::count(if r.is_some() { "functions_compiled" } else { "functions_declined" });
        r
    }
    fn compile_region(&self, code: &[Op], head_pc: usize, exit_pc: usize, constants: &[Constant], register_count: u16, named: &[bool], observed: &[ObservedKind], ctx: &NativeCtx, callees: &[CalleeSig]) -> Option<Box<dyn RegionFn>> {
        if !chance(self.regions) {
            return None;
        }
        let r = self.forge.compile_region(code, head_pc, exit_pc, constants, register_count, named, observed, ctx, callees);
        sim::count(if r.is_some() { "loops_compiled" } else { "loops_declined" });
        r
    }
}
type Res = (String, Option<String>);
fn run(src: &str, level: Tier, tier: &dyn NativeTier) -> Res {
    let r = logicaffeine_compile::compile::vm_outcome_tiered(src, &[], level, Some(tier));
    (r.output, r.error)
}
fn patchy(slow: u64) -> Patchy {
    Patchy { forge: ForgeTier::new(), functions: one(&[1.0, 1.0, 0.6]), regions: one(&[1.0, 0.5, 0.0]), slow }
}
fn j01() {
    sim::cfg().max_steps = 3_000_000;
    sim::cfg().panic_is_violation = true;
    let src = Gen::program();
    sim::note("program", src.clone());
    let never = Patchy { forge: ForgeTier::new(), functions: 0.0, regions: 0.0, slow: 0 };
    let level = one(&[Tier::T0, Tier::T1, Tier::T2, Tier::T3]);
    let plain = logicaffeine_compile::compile::vm_outcome_with_args(&src, &[], Some(&never));
    let plain: Res = (plain.output, plain.error);
    // Compiled on the spot, some of it.
    let want = run(&src, level, &never);
    let now = patchy(0);
    let got = run(&src, level, &now);
    ensure!(got.0 == want.0, "output-differs", "bytecode {want:?}, native at once {got:?}; level {level:?}, program:\n{src}");
    ensure!(got.1 == want.1, "error-differs", "bytecode {:?}, native at once {:?}; level {level:?}, program:\n{src}", want.1, got.1);
    // Compiled in the background.
    swarm_sched();
    sim::cfg().p_switch = one(&[0.001, 0.01, 0.05, 0.3]);
    let bg: &'static Patchy = Box::leak(Box::new(patchy(one(&[0, 2, 30, 300]))));
    logicaffeine_compile::vm::install_native_tier(bg);
    for _ in 0..2 {
        let r = logicaffeine_compile::compile::vm_outcome_bg(&src, &[]);
        ensure!(r.output == plain.0, "output-differs", "bytecode {plain:?}, background {r:?}; program:\n{src}");
        ensure!(r.error == plain.1, "error-differs", "bytecode {:?}, background {:?}; program:\n{src}", plain.1, r.error);
    }
    match &plain.1 {
        None => sim::count("finished"),
        Some(e) => {
            sim::note("error", e.clone());
            sim::count(match e.as_str() {
                e if e.contains("ivision") || e.contains("zero") => "failed_division",
                e if e.contains("ndex") => "failed_index",
                e if e.contains("depth") => "failed_depth",
                _ => "rejected",
            });
        }
    }
    if bg.forge.function_counts().1 + bg.forge.region_counts().1 > 0 {
        sim::nontrivial();
    }
    sim::sample(format!("{} bytes of output, {:?}, program:\n{src}", plain.0.len(), plain.1));
}

// ---------------------------------------------------------------- the cache
type Key = (String, u64, u8);
/// The compiled body of one of the program's functions.
fn body(src: &str, which: usize) -> Option<FnBytecode> {
    use logicaffeine_compile::vm::{fn_bytecode::slice_function, Compiler};
    use logicaffeine_language::ast::Stmt;
    logicaffeine_compile::ui_bridge::with_parsed_program(src, |parsed, interner| {
        let (stmts, types, _) = parsed.ok()?;
        let program = Compiler::compile_with_types(stmts, interner, Some(types)).ok()?;
        let names: Vec<_> = stmts.iter().filter_map(|s| if let Stmt::FunctionDef { name, .. } = s { Some(*name) } else { None }).collect();
        let sym = names[which % names.len()];
        Some(slice_function(&program, *program.fn_index.get(&sym)? as usize))
    })
}
/// Text, times and awkward numbers among the constants.
const EXTRA: &str = "## To extra (k: Int) -> Int:
    Let t be \"a\\nb — é\".
    Let a be 0.1.
    Let b be 100000000000000000000.5.
    Let c be 0.000000000000000000001.
    Let d be 9223372036854775807.
    Let e be 30 seconds.
    Let f be 2026-05-20.
    If k is less than 0:
        Show t.
        Show a.
    Return d.

";
fn j02() {
    sim::cfg().panic_is_violation = true;
    let mut table: Vec<(Key, FnBytecode, String)> = Vec::new();
    for _ in 0..range(1, 2) {
        let mut src = Gen::program();
        if chance(0.6) {
            src = format!("{EXTRA}{src}");
        }
        // Neighbours of the key: one more byte of source, another configuration, another tier.
        let mut srcs = vec![src.clone()];
        if chance(0.5) {
            srcs.push(format!("{src}\n"));
        }
        let configs: &[u64] = one(&[&[0], &[0, 1], &[7, 1 << 63]]);
        let tiers: &[u8] = one(&[&[0], &[0, 1], &[1, 3]]);
        for s in &srcs {
            for &c in configs {
                for &t in tiers {
                    let which = table.len();
                    let Some(b) = body(s, which) else { sim::violation("no-body", format!("program did not compile:\n{s}")) };
                    let d = format!("{b:?}");
                    table.push(((s.clone(), c, t), b, d));
                }
            }
        }
    }
    let keys = table.len() as u64;
    let table = std::sync::Arc::new(table);
    let a = node::add("a");
    let b = node::add("b");
    // The disk belongs to neither process; it loses power only together with both.
    let disk = node::add("disk");
    let dir = format!("{}/cache", node::root_of(disk));
    swarm_sched();
    let check = |i: usize, got: Option<FnBytecode>, table: &[(Key, FnBytecode, String)]| -> bool {
        let Some(got) = got else { return false };
        let d = format!("{got:?}");
        ensure!(d == table[i].2, "wrong-body", "key {i} (configuration {}, tier {}) loaded a body that was never stored under it; stored {:.300}, loaded {:.300}", table[i].0 .1, table[i].0 .2, table[i].2, d);
        true
    };
    let c = sim::fs_cfg();
    c.fault_nodes = vec![a, b];
    c.p_err = one(&[0.0, 0.02, 0.1]);
    c.p_short = one(&[0.0, 0.3]);
    c.errs_left = 20;
    c.zeroing = chance(0.5);
    c.p_crash = one(&[0.0, 0.02, 0.1]);
    c.crashes_left = 4;
    c.p_power = 0.0;
    if chance(0.2) {
        c.space = Some(range(0, 20_000));
    }
    for round in 0..range(1, 4) {
        for &n in &[a, b] {
            for w in 0..range(1, 2) {
                let (table, dir) = (table.clone(), dir.clone());
                node::spawn(n, &format!("p{n}w{w}r{round}"), move || {
                    for _ in 0..range(2, 6) {
                        let i = pick(keys) as usize;
                        let (k, body, _) = &table[i];
                        let dir = std::path::Path::new(&dir);
                        if chance(0.5) {
                            match tier_cache::store(dir, &k.0, k.1, k.2, body) {
                                Ok(()) => sim::count("stores"),
                                Err(_) => sim::count("stores_failed"),
                            }
                        } else if check(i, tier_cache::load(dir, &k.0, k.1, k.2), &table) {
                            sim::count("hits");
                            sim::nontrivial();
                        } else {
                            sim::count("misses");
                        }
                    }
                });
            }
        }
        let done = || node::finished(a) && node::finished(b);
        if chance(0.4) {
            node::wait_for(one(&[1_000, 20_000]), one(&[5_000, 50_000, 500_000]), done);
            for n in [a, b] {
                node::crash(n, false);
            }
            node::crash(disk, true);
        } else if !node::wait_for(1_000_000, 60_000_000_000, done) {
            sim::violation("stuck", "a process did not finish".into());
        }
        if chance(0.5) {
            // Damage on disk.
            for f in fs::list(&dir) {
                if !f.ends_with(".bc") || chance(0.5) {
                    continue;
                }
                let Some(mut d) = fs::peek(&f) else { continue };
                match pick(6) {
                    0 => d.truncate(pick(d.len() as u64 + 1) as usize),
                    1 if !d.is_empty() => {
                        for _ in 0..range(1, 3) {
                            let at = pick(d.len() as u64) as usize;
                            d[at] ^= 1 << pick(8);
                        }
                    }
                    2 if !d.is_empty() => {
                        // One digit of the payload for another: still good JSON.
                        let digits: Vec<usize> = (17..d.len()).filter(|&i| d[i].is_ascii_digit()).collect();
                        if !digits.is_empty() {
                            let at = digits[pick(digits.len() as u64) as usize];
                            d[at] = b'0' + (d[at] - b'0' + 1 + pick(8) as u8) % 10;
                        }
                    }
                    3 => {
                        let n = d.len();
                        d.extend_from_within(..pick(n as u64 + 1) as usize);
                    }
                    4 if d.len() > 17 => {
                        d.drain(..17);
                    }
                    _ => {
                        let at = pick(d.len() as u64 + 1) as usize;
                        let to = (at + range(1, 64) as usize).min(d.len());
                        d[at..to].fill(0);
                    }
                }
                fs::poke(&f, &d);
                sim::count("damaged_files");
            }
        }
    }
    // Undisturbed: everything stored is there, each key its own.
    sim::faults_off();
    sim::fs_cfg().space = None;
    let all = Host::new(false);
    {
        let (table, dir, all) = (table.clone(), dir.clone(), all.clone());
        node::spawn(a, "last", move || {
            let dir = std::path::Path::new(&dir);
            for (k, body, _) in table.iter() {
                let r = tier_cache::store(dir, &k.0, k.1, k.2, body);
                ensure!(r.is_ok(), "store-fails", "storing on a healthy disk failed: {r:?}");
            }
            for (i, (k, _, _)) in table.iter().enumerate() {
                ensure!(check(i, tier_cache::load(dir, &k.0, k.1, k.2), &table), "miss-after-store", "key {i} of {} missed after every key was stored on a healthy disk", table.len());
            }
            all.with(|x| *x = true);
        });
    }
    node::wait_for(1_000_000, 60_000_000_000, || node::finished(a));
    ensure!(all.with(|x| *x), "stuck", "the last process did not finish");
    sim::sample(format!("{keys} keys, bodies of {:?} instructions", table.iter().map(|t| t.1.code.len()).collect::<Vec<_>>()));
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "J02",
        scenario: j02,
        runs: 3000,
        rule: "one run = one set of compiled functions stored and loaded by processes that fail, crash, lose power or race each other, with damage done to the files in between, then an undisturbed pass over every key; non-trivial when some load during the disturbed part hit; distinct by schedule and history hash",
        real: &["cache key, encoding and file access", "bytecode compiler that makes the bodies"],
        stubs: &["file system (in memory, with faults)"],
        assumptions: &["a file is damaged in place, not exchanged for another key's file"],
    },
    Prop {
        id: "J01",
        scenario: j01,
        runs: 4000,
        rule: "one run = one random program with hot functions and loops, run as bytecode only, with everything or part of it compiled on the spot, and twice with compilation on a background thread whose results arrive at scheduler-chosen calls; non-trivial when at least one function or loop ran through the background compiler; distinct by program, schedule and output hash",
        real: &["parser", "optimiser", "bytecode compiler and machine", "background compiler", "native code generator and generated code"],
        stubs: &["a wrapper that declines some functions and delays others"],
        assumptions: &[],
    }]
}
