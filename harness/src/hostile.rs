//! M05: bytes nobody meant to send.
use crate::net::*;
use crate::util::*;
use logicaffeine_compile::concurrency::{fec, marshal, stream};
use logicaffeine_compile::interpreter::{InductiveValue, ListRepr, MapStorage, QuantityValue, RuntimeValue, StructValue};
use logicaffeine_system::relay::RelayClient;
use marshal::*;
use sim::{chance, ensure, node, one, pick, range, Prop};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

fn rint() -> i64 {
    match pick(6) {
        0 => pick(10) as i64,
        1 => -(pick(1000) as i64),
        2 => i64::MAX,
        3 => i64::MIN,
        4 => pick(1 << 40) as i64,
        _ => pick(300) as i64,
    }
}
fn rtext() -> String {
    let s = one(&["", "a", "ping", "straße", "日本", "user-17", "user-18", "emoji 🙂"]).to_string();
    if chance(0.1) {
        s.repeat(20)
    } else {
        s
    }
}
fn list(v: Vec<RuntimeValue>) -> RuntimeValue {
    RuntimeValue::List(Rc::new(RefCell::new(ListRepr::from_values(v))))
}
fn record(kind: u64) -> RuntimeValue {
    let mut fields = HashMap::new();
    fields.insert("span".to_string(), RuntimeValue::Int(rint()));
    fields.insert("label".to_string(), RuntimeValue::Text(Rc::new(rtext())));
    if kind > 0 {
        fields.insert("on".to_string(), RuntimeValue::Bool(chance(0.5)));
        fields.insert("x".to_string(), RuntimeValue::Float(pick(100) as f64 / 8.0));
    }
    if kind > 1 {
        fields.insert("inner".to_string(), record(0));
    }
    RuntimeValue::Struct(Box::new(StructValue { type_name: format!("Gadget{kind}"), fields }))
}
fn inductive() -> RuntimeValue {
    let k = pick(3);
    let args = (0..k).map(|_| RuntimeValue::Int(rint())).collect();
    RuntimeValue::Inductive(Box::new(InductiveValue { inductive_type: "Color".into(), constructor: one(&["Crimson", "Viridian", "Mix"]).into(), args }))
}
fn number() -> RuntimeValue {
    use logicaffeine_base::{BigInt, Complex, Decimal, Modular, Quantity, Rational};
    let big = || BigInt::from_le_bytes(chance(0.5), &(0..range(1, 20)).map(|_| pick(256) as u8).collect::<Vec<_>>());
    let ratio = || Rational::new(BigInt::from_i64(rint()), BigInt::from_i64(1 + pick(50) as i64)).unwrap();
    match pick(6) {
        0 => RuntimeValue::from_bigint(big()),
        1 => RuntimeValue::from_rational(ratio()),
        2 => RuntimeValue::Decimal(Rc::new(Decimal::from_coeff_scale(big(), pick(12) as u32))),
        3 => RuntimeValue::Complex(Rc::new(Complex::new(ratio(), ratio()))),
        4 => RuntimeValue::Modular(Rc::new(Modular::new(BigInt::from_i64(pick(90) as i64), BigInt::from_i64(7 + pick(90) as i64)).unwrap())),
        _ => {
            let unit = logicaffeine_base::quantity::units::by_name(one(&["meter", "kilogram", "second", "foot"])).unwrap();
            RuntimeValue::Quantity(Rc::new(QuantityValue { q: Quantity::si(ratio(), unit.dimension), unit }))
        }
    }
}
/// Some value, nested at most `depth` deep.
fn rvalue(depth: u64) -> RuntimeValue {
    let n = range(0, 12);
    match pick(if depth == 0 { 13 } else { 25 }) {
        0 => RuntimeValue::Int(rint()),
        1 => RuntimeValue::Text(Rc::new(rtext())),
        2 => RuntimeValue::Float(one(&[0.0, -0.0, 1.5, f64::INFINITY, 1e300])),
        3 => RuntimeValue::Bool(chance(0.5)),
        4 => RuntimeValue::Char(one(&['a', 'ß', '日'])),
        5 => RuntimeValue::Date(pick(50000) as i32),
        6 => RuntimeValue::Span { months: pick(20) as i32, days: -(pick(40) as i32) },
        7 => RuntimeValue::Duration(rint()),
        8 => RuntimeValue::Moment(rint()),
        9 => RuntimeValue::Nothing,
        10 => RuntimeValue::Peer(Rc::new(rtext())),
        11 => inductive(),
        12 => number(),
        13 | 14 => {
            let (base, step) = (rint(), pick(5) as i64);
            let shape = pick(6);
            list((0..n as i64 * 3).map(|i| RuntimeValue::Int(match shape {
                0 => base.wrapping_add(i * step),
                1 => base,
                2 => i * i,
                3 => (i % 3) * 1000,
                4 => 1 << (i % 60),
                _ => rint(),
            })).collect())
        }
        15 => {
            let shape = pick(4);
            list((0..n * 2).map(|i| RuntimeValue::Float(match shape {
                0 => 1.5,
                1 => i as f64 * 0.25,
                2 => [0.5, 2.5][i as usize % 2],
                _ => pick(1000) as f64 / 7.0,
            })).collect())
        }
        16 => list((0..n * 3).map(|i| RuntimeValue::Bool(if chance(0.3) { i % 2 == 0 } else { i < 9 })).collect()),
        17 => {
            let shape = pick(5);
            list((0..n).map(|i| RuntimeValue::Text(Rc::new(match shape {
                4 => format!("{}{i}", "path/".repeat(60)),
                0 => format!("user-{i}"),
                1 => one(&["red", "green"]).into(),
                2 => format!("https://example.org/{i}/page"),
                _ => rtext(),
            }))).collect())
        }
        18 | 19 => {
            let k = pick(3);
            list((0..n).map(|_| record(k)).collect())
        }
        20 => list((0..n).map(|_| inductive()).collect()),
        21 => {
            let mut m = MapStorage::default();
            for i in 0..n {
                m.insert(if chance(0.5) { RuntimeValue::Text(Rc::new(format!("k{i}"))) } else { RuntimeValue::Int(i as i64) }, rvalue(depth - 1));
            }
            RuntimeValue::Map(Rc::new(RefCell::new(m)))
        }
        22 => {
            let shape = pick(3);
            RuntimeValue::Set(Rc::new(RefCell::new((0..n as i64).map(|i| match shape {
                0 => RuntimeValue::Int(i * 7),
                1 => RuntimeValue::Text(Rc::new(format!("日本-{i}-ß"))),
                _ => if i % 2 == 0 { RuntimeValue::Int(i) } else { RuntimeValue::Text(Rc::new(format!("m{i}"))) },
            }).collect())))
        }
        23 => RuntimeValue::Tuple(Rc::new((0..n % 4).map(|_| rvalue(depth - 1)).collect())),
        _ => list((0..n % 6).map(|_| rvalue(depth - 1)).collect()),
    }
}
/// A message in one of the forms a sender may choose.
fn encode(from: &str, v: &RuntimeValue, cache: &mut WireSchemaCache) -> Vec<u8> {
    // Damage behind a checksum or a compressor rarely gets any further.
    let rare = if from == "evil" { 0.05 } else { 0.4 };
    let integrity = if chance(rare) { WireIntegrity::Checked } else { WireIntegrity::Raw };
    let numerics = one(&[WireNumerics::Varint, WireNumerics::Varint, WireNumerics::Fixed, WireNumerics::GroupVarint]);
    let structure = one(&[WireStructure::Off, WireStructure::Affine, WireStructure::Auto, WireStructure::Auto]);
    let floats = one(&[WireFloats::Memcpy, WireFloats::XorDelta]);
    let codec = if chance(rare) { one(&[WireCompression::Deflate, WireCompression::Lz4, WireCompression::Zstd]) } else { WireCompression::None };
    let (view, dedup, cached, json) = (chance(0.2), chance(0.15), chance(0.25), chance(0.05));
    // The readable codec rounds fractions and has no spelling for infinity; no program can choose it.
    let shown = v.to_display_string();
    let json = json && !shown.contains("inf") && !shown.contains('.');
    with_dedup(dedup, || {
        with_struct_view(view, || {
            with_numerics(numerics, || {
                with_structure(structure, || {
                    with_floats(floats, || {
                        with_compression_codec(codec, || {
                            if cached {
                                message_to_wire_cached(from, v, WireCodec::Native, integrity, cache)
                            } else {
                                message_to_wire_with(from, v, if json { WireCodec::Json } else { WireCodec::Native }, integrity)
                            }
                        })
                    })
                })
            })
        })
    })
    .unwrap_or_else(|e| panic!("a value could not be encoded: {e}"))
}
/// A value wrapped in itself far deeper than anyone nests.
fn abyss() -> Vec<u8> {
    let wrap = |k: u64, x: RuntimeValue| match k {
        0 => RuntimeValue::Tuple(Rc::new(vec![x])),
        1 => list(vec![x, RuntimeValue::Nothing]),
        2 => RuntimeValue::Struct(Box::new(StructValue { type_name: "S".into(), fields: HashMap::from([("f".to_string(), x)]) })),
        3 => {
            let mut m = MapStorage::default();
            m.insert(RuntimeValue::Bool(true), x);
            RuntimeValue::Map(Rc::new(RefCell::new(m)))
        }
        _ => RuntimeValue::Inductive(Box::new(InductiveValue { inductive_type: "I".into(), constructor: "C".into(), args: vec![x] })),
    };
    let (k, core) = (pick(5), RuntimeValue::Char('q'));
    let raw = |v: &RuntimeValue| message_to_wire_with("evil", v, WireCodec::Native, WireIntegrity::Raw).unwrap();
    let (a, b) = (raw(&core), raw(&wrap(k, core.clone())));
    let head = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let layer = b[head..].strip_suffix(&a[head..]).map(|l| l.to_vec()).unwrap_or(b[head..head + 2].to_vec());
    let mut out = a[..head].to_vec();
    for _ in 0..one(&[65, 200, 5000, 100_000]) {
        out.extend(&layer);
    }
    out.extend(&a[head..]);
    out
}
/// Damage `b`: what a broken link, a broken peer or a hostile one would produce.
fn damage(b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..1 + sim::weighted(4, 0.4) {
        if b.is_empty() {
            return;
        }
        let n = b.len() as u64;
        // Most of the structure is at the front.
        let at = if chance(0.5) { pick(n.min(12)) } else { pick(n) } as usize;
        match pick(11) {
            9 => b[at] = 0,
            10 => b[at] = 1 + pick(3) as u8,
            0 => b[at] ^= 1 << pick(8),
            1 => b[at] = pick(256) as u8,
            2 => b.truncate(at),
            3 => {
                // A number far beyond what follows.
                let v: &[u8] = one(&[&[0xff, 0xff, 0xff, 0xff, 0x0f][..], &[0xff; 9][..], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01][..], &[0x80, 0x80, 0x80, 0x08][..], &[0xff, 0xff, 0xff, 0x07][..]]);
                b.splice(at..at + 1, v.iter().copied());
            }
            4 => {
                let c = b[at];
                b.insert(at, c);
            }
            5 => {
                b.remove(at);
            }
            6 if !other.is_empty() => {
                let cut = pick(other.len() as u64) as usize;
                b.truncate(at);
                b.extend(&other[cut..]);
            }
            7 => {
                let len = range(1, 8).min(n - at as u64) as usize;
                let piece = b[at..at + len].to_vec();
                let to = pick(n) as usize;
                b.splice(to..to, piece);
            }
            _ => b[at] = b[at].wrapping_add(one(&[1, 255, 2, 127])),
        }
    }
    sim::count("fault:corrupt_message");
}
/// A small message that stands for a large value: `n` bytes or elements.
fn bomb(n: usize) -> Vec<u8> {
    let v = match pick(5) {
        0 | 1 => RuntimeValue::Text(Rc::new("a".repeat(n))),
        2 => RuntimeValue::Peer(Rc::new("b".repeat(n))),
        3 => list((0..n as i64 / 8).map(RuntimeValue::Int).collect()),
        _ => list((0..n / 64).map(|_| RuntimeValue::Text(Rc::new("user-17-with-a-name-that-everyone-shares".into()))).collect()),
    };
    let codec = one(&[WireCompression::Deflate, WireCompression::Lz4, WireCompression::Zstd]);
    let structure = one(&[WireStructure::Off, WireStructure::Affine, WireStructure::Auto]);
    sim::count("fault:compressed_bomb");
    with_structure(structure, || with_compression_codec(codec, || message_to_wire_with("evil", &v, WireCodec::Native, WireIntegrity::Raw))).unwrap()
}
thread_local! {
    /// What the receiver of this run said it takes.
    static LIMITS: std::cell::Cell<ReceiveLimits> = const { std::cell::Cell::new(DEFAULT_RECEIVE_LIMITS) };
}
/// The largest request a receiver may make, with the default limits and with those of `feed`.
const MAX_ALLOC: usize = 2 << 30;
const TIGHT_ALLOC: usize = 4 << 20;
/// Look at all of a received value, as a program would.
fn touch(v: &RuntimeValue, depth: u64) -> u64 {
    let most = |what: &str, n: usize, limit: usize| ensure!(n <= limit, "beyond-limit", "a {what} of {n} was accepted, the receiver's limit is {limit}");
    let (elements, string) = LIMITS.with(|l| (l.get().max_elements, l.get().max_string_bytes));
    match v {
        RuntimeValue::List(l) => most("list", l.borrow().len(), elements),
        RuntimeValue::Map(m) => most("map", m.borrow().len(), elements),
        RuntimeValue::Set(m) => most("set", m.borrow().len(), elements),
        RuntimeValue::Tuple(m) => most("tuple", m.len(), elements),
        RuntimeValue::Text(t) => most("text", t.len(), string),
        _ => (),
    }
    match v {
        RuntimeValue::List(l) => {
            let l = l.borrow();
            let n = l.len();
            for i in [0, 1, 2, n / 2, n.wrapping_sub(1)] {
                match l.get(i) {
                    Some(x) if depth < 8 => {
                        touch(&x, depth + 1);
                    }
                    _ => (),
                }
            }
            n as u64
        }
        RuntimeValue::Struct(s) => s.fields.values().map(|v| touch(v, depth + 1)).sum::<u64>() + 1,
        RuntimeValue::Map(m) => m.borrow().values().map(|v| touch(v, depth + 1)).sum::<u64>() + 1,
        RuntimeValue::Set(m) => m.borrow().iter().map(|v| touch(v, depth + 1)).sum::<u64>() + 1,
        RuntimeValue::Tuple(m) => m.iter().map(|v| touch(v, depth + 1)).sum::<u64>() + 1,
        RuntimeValue::Inductive(m) => m.args.iter().map(|v| touch(v, depth + 1)).sum::<u64>() + 1,
        RuntimeValue::Text(t) | RuntimeValue::Peer(t) => {
            ensure!(std::str::from_utf8(t.as_bytes()).is_ok(), "not-text", "a received text holds the bytes {:02x?}", t.as_bytes());
            1
        }
        _ => 1,
    }
}
fn use_value(v: &RuntimeValue) {
    if touch(v, 0) < 5000 {
        let s = v.to_display_string();
        let _ = v.clone();
        let _ = message_to_wire("x", v);
        std::hint::black_box(s.len());
    }
}

// ---------------------------------------------------------------- at the decoder

#[derive(Default)]
struct Fed {
    hostile: u64,
    decoded: u64,
    done: bool,
    last: Vec<u8>,
}
fn feed(h: Host<Fed>, rounds: u64, tight: bool) {
    if tight {
        let limits = ReceiveLimits { max_bytes: 64 << 10, max_elements: 1000, max_string_bytes: 4096, ..DEFAULT_RECEIVE_LIMITS };
        LIMITS.with(|l| l.set(limits));
        return with_receive_limits(limits, || fed(h, rounds, true));
    }
    fed(h, rounds, false)
}
fn fed(h: Host<Fed>, rounds: u64, tight: bool) {
    let mut recv = WireSchemaCache::content_addressed();
    let mut send = WireSchemaCache::content_addressed();
    let mut evil = WireSchemaCache::content_addressed();
    let mut other: Vec<u8> = Vec::new();
    for _ in 0..rounds {
        // A genuine message gets through, whatever came before.
        let v = rvalue(2);
        let wire = encode("p0", &v, &mut send);
        match message_from_wire_cached(&wire, &mut recv) {
            Some((from, got)) => {
                let (a, b) = (message_to_wire("p", &v).unwrap(), message_to_wire("p", &got).unwrap());
                ensure!(from == "p0" && (a == b || v.to_display_string() == got.to_display_string()), "genuine-changed", "{} was received as {} from {from:?} after hostile traffic, the last of it {:02x?}", v.to_display_string(), got.to_display_string(), h.with(|h| h.last.clone()));
            }
            None => sim::violation("genuine-refused", format!("{} was refused after hostile traffic, the last of it {:02x?}; its bytes: {:02x?}", v.to_display_string(), h.with(|h| h.last.clone()), wire)),
        }
        let base = match pick(6) {
            0 => wire.clone(),
            1 => (0..range(0, 60)).map(|_| pick(256) as u8).collect(),
            2 => frame_stream_message("evil", &(0..range(0, 4)).map(|_| rvalue(1)).collect::<Vec<_>>()).unwrap(),
            3 => make_handshake_frame("evil", &PeerProfile::default()),
            _ => encode("evil", &rvalue(2), &mut evil),
        };
        for k in 0..8 {
            let mut bad = base.clone();
            if k == 7 && chance(0.1) {
                bad = abyss();
            } else if k == 6 && tight && chance(0.05) {
                bad = bomb(8 << 20);
            } else {
                damage(&mut bad, &other);
            }
            h.with(|h| {
                h.hostile += 1;
                h.last = bad.clone();
            });
            // Every door the inbox has. A receiver that takes little may ask for little.
            sim::cfg().max_alloc = if tight { TIGHT_ALLOC } else { MAX_ALLOC };
            let mut some = false;
            if let Some(v) = deframe_stream_message(&bad) {
                v.iter().for_each(use_value);
                some = true;
            }
            let _ = peek_stream_sender(&bad);
            let _ = parse_handshake_frame(&bad).map(|(_, p)| negotiate(&PeerProfile::default(), &p));
            if peek_deferrable_sender(&bad).is_some() {
                if let Some(l) = ListRepr::from_received_view(Rc::new(bad.clone())) {
                    use_value(&RuntimeValue::List(Rc::new(RefCell::new(l))));
                }
            }
            if let Some((_, v)) = message_from_wire_view(&bad) {
                use_value(&v);
                some = true;
            }
            // The schema dictionary is shared with the genuine sender, so only the other's forgeries go
            // through it: a forged definition under a genuine sender's name is that sender's definition.
            if let Some((_, v)) = message_from_wire_cached(&bad, &mut recv) {
                use_value(&v);
                some = true;
            }
            let small = bad.len() < 64 << 10;
            if small && chance(0.2) {
                let mut parts = fec::frame_redundant(pick(3), &bad, 1 + pick(5) as usize, 6 + pick(4) as usize).unwrap();
                for p in parts.iter_mut() {
                    if chance(0.3) {
                        damage(p, &other);
                    }
                }
                let _ = fec::reconstruct_redundant(&parts).and_then(|(_, b)| message_from_wire(&b)).map(|(_, v)| use_value(&v));
            }
            if small && chance(0.2) {
                let mut d = stream::StreamDeframer::new();
                d.push(&bad);
                d.drain_frames(|f| {
                    let _ = decode_value_raw(f).map(|v| use_value(&v));
                });
            }
            sim::cfg().max_alloc = MAX_ALLOC;
            if some {
                h.with(|h| h.decoded += 1);
            }
            if k == 7 {
                other = bad;
            }
        }
    }
    h.with(|h| h.done = true);
}

// ---------------------------------------------------------------- at a program's inbox

fn attack_program() {
    wire();
    let h = Host::new(World::default());
    let f = Host::new(Fed::default());
    let relay = relay_node(&h);
    node::wait_for(MS, 5 * SEC, || h.with(|h| !h.url.is_empty()));
    let url = h.with(|h| h.url.clone());
    let names: Vec<String> = vec!["p0".into(), "p1".into()];
    coordinator(&h, names.clone());
    node::wait_for(5 * MS, 20 * SEC, || h.with(|h| h.sub));
    let attacker = node::add("attacker");
    let (h2, f2, rounds) = (h.clone(), f.clone(), range(5, 40));
    node::spawn(attacker, "attacker", move || {
        rt1().block_on(async move {
            let c = RelayClient::connect(&h2.with(|h| h.url.clone())).await.expect("attacker dials");
            while h2.with(|h| h.ready < 2) {
                tokio::time::sleep(std::time::Duration::from_millis(20)).await;
            }
            let mut evil = WireSchemaCache::content_addressed();
            let mut other = Vec::new();
            for _ in 0..rounds {
                let mut bad = match pick(7) {
                    6 => abyss(),
                    0 => (0..range(0, 60)).map(|_| pick(256) as u8).collect(),
                    1 => frame_stream_message("evil", &(0..range(0, 4)).map(|_| rvalue(1)).collect::<Vec<_>>()).unwrap(),
                    2 => make_handshake_frame("evil", &PeerProfile::default()),
                    3 => fec::frame_redundant(pick(3), &encode("evil", &rvalue(1), &mut evil), 2, 3).unwrap().swap_remove(pick(3) as usize),
                    _ => encode("evil", &rvalue(2), &mut evil),
                };
                if chance(0.9) {
                    damage(&mut bad, &other);
                }
                other = bad.clone();
                f2.with(|f| {
                    f.hostile += 1;
                    f.last = bad.clone();
                });
                let to = one(&["p0", "p1", "p1", "p0#hs", "p1#hs"]);
                let _ = c.publish(to, bad);
                if chance(0.3) {
                    tokio::time::sleep(std::time::Duration::from_millis(range(1, 60))).await;
                }
            }
            for to in ["p0", "p1"] {
                let go = message_to_wire("hub", &RuntimeValue::Text(Rc::new("go on".into()))).unwrap();
                let _ = c.publish(to, go);
            }
            std::future::pending::<()>().await
        })
    });
    let head = |i: usize| format!("{TYPES}## Main\n    Connect to \"{url}\".\n    Listen on \"p{i}\".\n    Let coord be a PeerAgent at \"coord\".\n    Let hub be a PeerAgent at \"hub\".\n    Let peer be a PeerAgent at \"p{}\".\n    Send \"ready\" to coord.\n    Await response from coord into start.\n", 1 - i);
    let mut src = [head(0), head(1)];
    let k = range(2, 8);
    let after = pick(k);
    for m in 0..k {
        if m == after {
            src[0] += "    Await response from hub into on.\n";
        }
        let (bind, _) = value(&format!("v{m}"), None);
        src[0] += &bind;
        src[0] += &format!("    Show v{m}.\n    Send {}v{m} to peer.\n", one(DIALS));
        src[1] += &format!("    Await {} from peer into g{m}.\n    Show g{m}.\n", one(&["response", "view"]));
    }
    h.with(|h| h.out = vec![None; 2]);
    let mut nodes = Vec::new();
    for i in 0..2 {
        let nd = node::add(&names[i]);
        program(&h, nd, i, src[i].clone(), chance(0.5));
        nodes.push(nd);
    }
    node::wait_for(20 * MS, 60 * SEC, || h.with(|h| h.ready == 2 || h.out.iter().any(|o| o.is_some())));
    disturb(&nodes, relay);
    sim::faults_off();
    sim::net::heal_all();
    node::wait_for(20 * MS, 60 * SEC, || h.with(|h| h.out.iter().all(|o| o.is_some())));
    h.with(|h| {
        let all = || src.join("\n");
        let mut lines = Vec::new();
        for i in 0..2 {
            let Some((l, e)) = &h.out[i] else {
                sim::violation("stuck", format!("program p{i} did not finish beside hostile traffic; programs:\n{}", all()));
            };
            ensure!(e.is_none(), "error", "program p{i} failed beside hostile traffic: {e:?}; programs:\n{}", all());
            lines.push(l.iter().map(|l| canon(l)).collect::<Vec<_>>());
        }
        ensure!(lines[0] == lines[1], "genuine-changed", "sent {:?}, received {:?} beside hostile traffic; programs:\n{}", lines[0], lines[1], all());
        sim::note("out", format!("{lines:?}"));
        sim::nontrivial();
        sim::sample(format!("{k} genuine messages beside {} hostile ones", f.with(|f| f.hostile)));
    });
}
fn m05() {
    swarm_sched();
    sim::cfg().panic_is_violation = true;
    sim::cfg().max_alloc = MAX_ALLOC;
    if chance(0.3) {
        return attack_program();
    }
    let h = Host::new(Fed::default());
    let n = node::add("receiver");
    let (h2, rounds, tight) = (h.clone(), range(5, 50), chance(0.5));
    node::spawn(n, "receiver", move || feed(h2, rounds, tight));
    node::wait_for(MS, 60 * SEC, || h.with(|h| h.done));
    h.with(|h| {
        ensure!(h.done, "wedged", "the receiver stopped working on {:02x?}", h.last);
        sim::count_n("hostile_messages", h.hostile);
        sim::count_n("hostile_messages_decoded", h.decoded);
        sim::note("fed", format!("{:02x?}", h.last));
        if h.hostile > 5 {
            sim::nontrivial();
        }
        sim::sample(format!("{} hostile messages, {} of them decoded to some value; the last: {:02x?}", h.hostile, h.decoded, h.last));
    });
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "M05",
        scenario: m05,
        runs: 3000,
        rule: "one run = a receiver fed 40-400 damaged messages (bit flips, truncations, impossible lengths, splices, noise) through every decoding entry of the inbox, a genuine message in any wire form between any two of them; or two programs exchanging values through the relay while an attacker publishes such messages to their inboxes and handshake topics; panics, signals, requests beyond 2 GB and altered or lost genuine messages are violations; non-trivial when more than five hostile messages arrived; distinct by event-history hash",
        real: &["logicaffeine_compile::concurrency::{marshal, net_inbox, fec, stream}", "logicaffeine_compile::interpreter and bytecode machine", "logicaffeine_system::relay and net", "tokio"],
        stubs: &["TCP (in memory)"],
        assumptions: &["the receiver's published limits allow 2^24 elements per collection, so a request of up to 2 GB is within them"],
    }]
}
