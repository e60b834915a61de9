//! What arrives on the wire, in parts: M02 (redundant messages), M03 (framed byte streams).
use crate::net::*;
use crate::util::*;
use logicaffeine_compile::concurrency::{fec, marshal, stream};
use logicaffeine_compile::interpreter::RuntimeValue;
use logicaffeine_system::relay::RelayClient;
use sim::{chance, ensure, node, one, pick, range, Prop};
use std::collections::BTreeMap;
use std::rc::Rc;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

// ---------------------------------------------------------------- M03

/// The frames in a byte stream and what is left of it, by the definition of the format.
fn frames_of(bytes: &[u8]) -> (Vec<Vec<u8>>, usize) {
    let (mut at, mut out) = (0, Vec::new());
    'frames: loop {
        let (mut len, mut i) = (0u128, at);
        loop {
            let Some(b) = bytes.get(i) else { break 'frames };
            if i - at == 10 {
                break 'frames;
            }
            len |= ((b & 0x7f) as u128) << (7 * (i - at));
            i += 1;
            if b & 0x80 == 0 {
                break;
            }
        }
        if len > u64::MAX as u128 || i as u128 + len > bytes.len() as u128 {
            break;
        }
        out.push(bytes[i..i + len as usize].to_vec());
        at = i + len as usize;
    }
    (out, bytes.len() - at)
}
#[derive(Default)]
struct Stream {
    /// Bytes received on the current connection and frames taken from it.
    got: Vec<u8>,
    frames: Vec<Vec<u8>>,
    chunks: u64,
    listening: bool,
    served: u64,
    broken: u64,
}
fn uvarint(mut v: u128, pad: usize) -> Vec<u8> {
    let mut out = Vec::new();
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 && pad <= out.len() {
            out.push(b);
            return out;
        }
        out.push(b | 0x80);
    }
}
/// Bytes that stand where a frame should be.
fn broken_frame() -> Vec<u8> {
    match pick(6) {
        // A length no frame has, some of them just beyond what the number can hold.
        0 => uvarint(one(&[u64::MAX as u128, (u64::MAX as u128) - 1, 1 << 63, 1 << 62, u32::MAX as u128 + 1, i64::MAX as u128]), 0),
        1 => uvarint((1u128 << 64) + pick(5) as u128, 0),
        2 => {
            let mut v = vec![0x80; 9];
            v[0] |= pick(4) as u8;
            v.push(2 + pick(126) as u8);
            v
        }
        // A length written with more digits than needed; all of it padding.
        3 => {
            let mut v = uvarint(3, range(1, 9) as usize);
            v.extend(b"abc");
            v
        }
        4 => vec![0xff; range(1, 14) as usize],
        _ => (0..range(1, 12)).map(|_| pick(256) as u8).collect(),
    }
}
fn m03() {
    swarm_sched();
    sim::cfg().max_alloc = 4 << 20;
    {
        let c = sim::net_cfg();
        c.max_delay = [100_000, 5_000_000][pick(2) as usize];
        c.p_cut = [0.0, 0.3, 0.9][pick(3) as usize];
        c.cap = [65536, 500][pick(2) as usize];
        if chance(0.2) {
            c.p_reset = 0.02;
            c.resets_left = 2;
        }
    }
    let h = Host::new(Stream::default());
    let (consumer, producer) = (node::add("consumer"), node::add("producer"));
    let h2 = h.clone();
    let bufs = one(&[1usize, 3, 7, 64, 4096]);
    let (lazy, empty) = (chance(0.3), chance(0.3));
    node::spawn(consumer, "consumer", move || {
        rt1().block_on(async move {
            let l = TcpListener::bind("127.0.0.1:7100").await.expect("listens");
            h2.with(|h| h.listening = true);
            loop {
                let Ok((mut s, _)) = l.accept().await else { continue };
                h2.with(|h| {
                    h.got.clear();
                    h.frames.clear();
                });
                let mut d = stream::StreamDeframer::new();
                let mut buf = vec![0u8; bufs];
                loop {
                    let n = s.read(&mut buf).await;
                    let last = !matches!(n, Ok(n) if n > 0);
                    if let Ok(n) = n {
                        d.push(&buf[..n]);
                        h2.with(|h| {
                            h.got.extend(&buf[..n]);
                            h.chunks += 1;
                        });
                    }
                    if empty {
                        d.push(&[]);
                    }
                    if !last && lazy && chance(0.5) {
                        continue;
                    }
                    let mut out: Vec<Vec<u8>> = Vec::new();
                    let count = d.drain_frames(|f| out.push(f.to_vec()));
                    let (pending, is_empty) = (d.pending(), d.is_empty());
                    h2.with(|h| {
                        ensure!(count == out.len(), "count", "{} frames were handed out, {count} reported", out.len());
                        h.frames.extend(out);
                        let (want, rest) = frames_of(&h.got);
                        let show = |f: &Vec<Vec<u8>>| f.iter().map(|f| f.len().to_string()).collect::<Vec<_>>().join(",");
                        ensure!(h.frames == want, "frames", "after {} bytes the frames handed out have lengths [{}], the stream holds [{}]; it starts {:02x?}", h.got.len(), show(&h.frames), show(&want), &h.got[..h.got.len().min(40)]);
                        ensure!(pending == rest && is_empty == (rest == 0), "pending", "{pending} bytes are said to be pending (empty: {is_empty}), {rest} are");
                    });
                    if last {
                        break;
                    }
                }
                h2.with(|h| {
                    h.served += 1;
                    sim::count_n("frames", h.frames.len() as u64);
                    sim::note("frames", format!("{} {}", h.frames.len(), h.got.len()));
                });
            }
        })
    });
    node::wait_for(1_000_000, 1_000_000_000, || h.with(|h| h.listening));
    let conns = range(1, 3);
    let h2 = h.clone();
    node::spawn(producer, "producer", move || {
        rt1().block_on(async move {
            for _ in 0..conns {
                let Ok(mut s) = TcpStream::connect("127.0.0.1:7100").await else { continue };
                let mut bytes = Vec::new();
                let corrupt = chance(0.4);
                for i in 0..range(1, 10) {
                    if corrupt && chance(0.2) {
                        bytes.extend(broken_frame());
                        h2.with(|h| h.broken += 1);
                        sim::count("fault:corrupt_length");
                        continue;
                    }
                    let n = one(&[0usize, 1, 2, 5, 100, 126, 127, 128, 129, 300, 5000, 16383, 16384, 16385]);
                    stream::frame_for_stream(&vec![i as u8 ^ 0x80; n], &mut bytes);
                }
                let end = if chance(0.3) { pick(bytes.len() as u64 + 1) as usize } else { bytes.len() };
                if end < bytes.len() {
                    sim::count("fault:stream_ends_mid_frame");
                }
                let mut at = 0;
                while at < end {
                    let n = one(&[1, 2, 10, 200, 20000]).min(end - at);
                    if s.write_all(&bytes[at..at + n]).await.is_err() {
                        break;
                    }
                    at += n;
                    if chance(0.1) {
                        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                    }
                }
                if chance(0.2) {
                    let _ = s.set_linger(Some(std::time::Duration::ZERO));
                    sim::count("fault:conn_reset");
                }
                drop(s);
                tokio::time::sleep(std::time::Duration::from_millis(20)).await;
            }
            std::future::pending::<()>().await
        })
    });
    if chance(0.15) {
        node::sleep(range(1, 20) * 1_000_000);
        node::crash(producer, chance(0.5));
    }
    node::wait_for(5_000_000, 20_000_000_000, || h.with(|h| h.served == conns) || !node::alive(producer));
    node::sleep(500_000_000);
    h.with(|h| {
        if h.chunks > 2 {
            sim::nontrivial();
        }
        sim::sample(format!("{} chunks on {} connections, last with {} frames in {} bytes, {} broken frames", h.chunks, conns, h.frames.len(), h.got.len(), h.broken));
    });
}

// ---------------------------------------------------------------- M02

#[derive(Default)]
struct Parts {
    sub: bool,
    go: bool,
    flushed: bool,
    /// Per message id: (sender, receiver, parts lost, parts passed on), and the part count seen.
    fate: BTreeMap<u64, (usize, usize, Vec<usize>, usize)>,
    seen: BTreeMap<u64, usize>,
    log: Vec<String>,
}

/// Stands between senders and receivers: loses, doubles, delays and reorders the parts.
async fn lossy_link(h: Host<World>, p: Host<Parts>, n: usize, harsh: bool) {
    let mut c = RelayClient::connect(&h.with(|h| h.url.clone())).await.expect("link dials");
    for i in 0..n {
        for j in 0..n {
            c.subscribe(&format!("via-{i}-{j}")).await.expect("link subscribes");
        }
    }
    p.with(|p| p.sub = true);
    // (due, topic, bytes)
    let mut held: Vec<(u64, String, Vec<u8>)> = Vec::new();
    let mut ended = false;
    loop {
        for (topic, data) in c.drain_events() {
            let mut it = topic.split('-').skip(1);
            let (i, j): (usize, usize) = (it.next().unwrap().parse().unwrap(), it.next().unwrap().parse().unwrap());
            let Some((id, k, total)) = fec::shard_header(&data) else {
                held.push((0, format!("p{j}"), data));
                continue;
            };
            let new = p.with(|p| !p.fate.contains_key(&id));
            if new {
                let lose = match pick(4) {
                    0 => 0,
                    1 => 1,
                    2 => total - k,
                    _ if harsh => range(total as u64 - k as u64 + 1, total as u64) as usize,
                    _ => total - k,
                };
                let mut order: Vec<usize> = (0..total).collect();
                for a in 0..lose {
                    let b = a + pick((total - a) as u64) as usize;
                    order.swap(a, b);
                }
                order.truncate(lose);
                p.with(|p| {
                    p.log.push(format!("message {:04x} from p{i} to p{j} loses parts {order:?}", id & 0xffff));
                    p.fate.insert(id, (i, j, order, 0));
                });
            }
            let part = p.with(|p| {
                let e = p.seen.entry(id).or_default();
                *e += 1;
                *e - 1
            });
            if p.with(|p| p.fate[&id].2.contains(&part)) {
                sim::count("fault:part_lost");
                continue;
            }
            p.with(|p| p.fate.get_mut(&id).unwrap().3 += 1);
            let copies = 1 + sim::weighted(3, 0.3);
            if copies > 1 {
                sim::count("fault:part_duplicated");
            }
            for _ in 0..copies {
                let late = sim::weighted(5, 0.6);
                if late > 0 {
                    sim::count("fault:part_delayed");
                }
                held.push((sim::now() + late * 30_000_000, format!("p{j}"), data.clone()));
            }
        }
        let now = sim::now();
        let mut due: Vec<(String, Vec<u8>)> = Vec::new();
        held.retain(|x| {
            if x.0 <= now {
                due.push((x.1.clone(), x.2.clone()));
            }
            x.0 > now
        });
        while !due.is_empty() {
            let (t, d) = due.remove(pick(due.len() as u64) as usize);
            let _ = c.publish(&t, d);
        }
        if p.with(|p| p.go) && held.is_empty() && !ended {
            ended = true;
            for i in 0..n {
                for j in 0..n {
                    let end = marshal::message_to_wire(&format!("p{i}"), &RuntimeValue::Text(Rc::new("end".into()))).unwrap();
                    let _ = c.publish(&format!("p{j}"), end);
                }
            }
            p.with(|p| p.flushed = true);
        }
        tokio::time::sleep(std::time::Duration::from_millis(5)).await;
    }
}
fn m02() {
    swarm_sched();
    wire();
    let h = Host::new(World::default());
    let p = Host::new(Parts::default());
    let relay = relay_node(&h);
    node::wait_for(MS, 5 * SEC, || h.with(|h| !h.url.is_empty()));
    let url = h.with(|h| h.url.clone());
    let senders = range(1, 3) as usize;
    let n = senders + 1;
    let target = senders; // one receiver, the last program
    let names: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
    coordinator(&h, names.clone());
    let link = node::add("link");
    let (h2, p2, harsh) = (h.clone(), p.clone(), chance(0.5));
    node::spawn(link, "link", move || rt1().block_on(lossy_link(h2, p2, n, harsh)));
    node::wait_for(5 * MS, 20 * SEC, || h.with(|h| h.sub) && p.with(|p| p.sub));

    // A sender may be two runs of a program under the same name.
    let mut texts: Vec<Vec<String>> = Vec::new();
    let mut srcs = Vec::new();
    let mut second: Vec<Option<String>> = Vec::new();
    let head = |i: usize| format!("## Main\n    Connect to \"{url}\".\n    Listen on \"p{i}\".\n    Let coord be a PeerAgent at \"coord\".\n    Let via be a PeerAgent at \"via-{i}-{target}\".\n");
    for i in 0..senders {
        let k = range(1, 6);
        let mut t = Vec::new();
        let mut src = head(i) + "    Send \"ready\" to coord.\n    Await response from coord into start.\n";
        let restart = chance(0.3).then(|| pick(k));
        let mut again = None;
        for m in 0..k {
            if restart == Some(m) {
                again = Some(std::mem::replace(&mut src, head(i)));
            }
            let s = format!("{i}.{m}.{}", "xyzzy".repeat(one(&[0usize, 1, 3, 20, 200])));
            src += &format!("    Send {}redundant \"{s}\" to via.\n", "");
            t.push(s);
        }
        match again {
            Some(first) => {
                srcs.push(first);
                second.push(Some(src));
            }
            None => {
                srcs.push(src);
                second.push(None);
            }
        }
        texts.push(t);
    }
    let mut src = head(target);
    for i in 0..senders {
        src += &format!("    Let peer{i} be a PeerAgent at \"p{i}\".\n");
    }
    src += "    Send \"ready\" to coord.\n    Await response from coord into start.\n";
    for i in 0..senders {
        src += &format!("    Let mutable go{i} be true.\n    While go{i}:\n        Await response from peer{i} into g.\n        Show g.\n        If g equals \"end\":\n            Set go{i} to false.\n");
    }
    srcs.push(src);
    h.with(|h| h.out = vec![None; n + senders]);
    let mut nodes = Vec::new();
    for i in 0..n {
        let nd = node::add(&names[i]);
        program(&h, nd, i, srcs[i].clone(), i == target && chance(0.5));
        nodes.push(nd);
    }
    node::wait_for(20 * MS, 60 * SEC, || h.with(|h| h.ready as usize == n || h.out.iter().any(|o| o.is_some())));
    disturb(&nodes, relay);
    sim::net::heal_all();
    node::wait_for(20 * MS, 30 * SEC, || h.with(|h| (0..senders).all(|i| h.out[i].is_some())));
    for i in 0..senders {
        if let Some(s) = &second[i] {
            node::sleep(200 * MS);
            sim::count("fault:program_restart");
            program(&h, nodes[i], n + i, s.clone(), false);
        }
    }
    node::wait_for(20 * MS, 30 * SEC, || h.with(|h| (0..senders).all(|i| second[i].is_none() || h.out[n + i].is_some())));
    sim::faults_off();
    // Everything sent has reached the link and left it.
    let total: usize = texts.iter().map(|t| t.len()).sum();
    node::wait_for(20 * MS, 30 * SEC, || p.with(|p| p.seen.values().sum::<usize>() >= 6 * total));
    node::sleep(SEC);
    p.with(|p| p.go = true);
    node::wait_for(20 * MS, 60 * SEC, || h.with(|h| h.out[target].is_some()));
    h.with(|h| {
        let all = || format!("{}; programs:\n{}", p.with(|p| p.log.join("; ")), srcs.join("\n"));
        for i in 0..n + senders {
            if let Some((_, Some(e))) = &h.out[i] {
                sim::violation("error", format!("program {i} failed: {e}; {}", all()));
            }
        }
        for i in 0..senders {
            ensure!(h.out[i].is_some() && (second[i].is_none() || h.out[n + i].is_some()), "sender-stuck", "sender p{i} did not finish; {}", all());
        }
        let Some((lines, _)) = &h.out[target] else {
            sim::violation("stuck", format!("the receiver did not finish; {}", all()));
        };
        // The fates of each sender's messages, in the order they were sent.
        let mut got = lines.iter();
        p.with(|p| {
            for i in 0..senders {
                let mut seen: Vec<&String> = Vec::new();
                for l in got.by_ref() {
                    if l == "end" {
                        break;
                    }
                    seen.push(l);
                }
                let mine: Vec<&(usize, usize, Vec<usize>, usize)> = p.fate.values().filter(|f| f.0 == i).collect();
                let lost = mine.iter().filter(|f| f.3 < 4).count();
                for s in &seen {
                    ensure!(texts[i].contains(*s), "wrong-value", "the receiver got {:?} from p{i}, which never sent it; {}", short(s), p.log.join("; "));
                    let c = seen.iter().filter(|x| x == &s).count();
                    ensure!(c == 1, "twice", "the receiver got {:?} {c} times; {}", short(s), p.log.join("; "));
                }
                ensure!(mine.len() == texts[i].len(), "parts", "p{i} sent {} messages, parts of {} different ones passed; {}", texts[i].len(), mine.len(), p.log.join("; "));
                ensure!(seen.len() + lost == texts[i].len(), "not-delivered", "of {} messages of p{i} {} were delivered, {lost} had lost too many parts; {}", texts[i].len(), seen.len(), p.log.join("; "));
            }
        });
        sim::count_n("messages", total as u64);
        sim::note("out", format!("{lines:?}"));
        if total > 1 {
            sim::nontrivial();
        }
        sim::sample(format!("{total} messages of {senders} senders: {}", p.with(|p| p.log.join("; "))));
    });
}
fn short(s: &str) -> String {
    s.chars().take(24).collect()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "M02",
            scenario: m02,
            runs: 1500,
            rule: "one run = 1-3 sending programs (some restarted under their name) and one receiver, on the real interpreter, sending redundant texts over a link that loses, doubles, delays and reorders the parts of each message, up to and beyond the promised number; received texts are compared with those whose losses stayed within it; non-trivial when two or more messages were sent; distinct by event-history hash",
            real: &["logicaffeine_compile::interpreter", "logicaffeine_compile bytecode machine (half of the receivers)", "concurrency::net_inbox", "concurrency::fec", "concurrency::marshal", "logicaffeine_system::relay and net", "tokio"],
            stubs: &["TCP (in memory)", "the lossy link (a relay client that passes parts on)"],
            assumptions: &["parts are lost whole; altered parts belong to M05"],
        },
        Prop {
            id: "M03",
            scenario: m03,
            runs: 4000,
            rule: "one run = 1-3 connections carrying frames of chosen sizes, cut anywhere by the sender, the network and the reader's buffer, some with corrupt lengths, some dying mid-frame; after every chunk the frames handed out and the bytes held are compared with a reference parse of everything received; non-trivial when more than two chunks arrived; distinct by event-history hash",
            real: &["logicaffeine_compile::concurrency::stream", "tokio"],
            stubs: &["TCP (in memory)"],
            assumptions: &["no allocation beyond 4 MB may be requested"],
        },
    ]
}
