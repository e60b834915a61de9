//! The WebSocket relay: R01 (delivery) and R02 (isolation of faulty clients).
//!
//! The real relay server runs on one node (or two bridged ones); clients are the real
//! `RelayClient` or a raw WebSocket client that can also unsubscribe and misbehave. Every
//! connection runs over the simulated TCP.

use crate::util::*;
use logicaffeine_system::relay::{self, RelayClient};
use logicaffeine_system::relay_proto::RelayFrame;
use sim::{ensure, node, Prop};
use std::collections::BTreeMap;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::OwnedWriteHalf;
use tokio::net::TcpStream;
use tokio::sync::mpsc;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

// ---------------------------------------------------------------- a raw WebSocket client

/// Client-to-server frame, masked as the protocol demands.
fn ws_frame(op: u8, fin: bool, data: &[u8]) -> Vec<u8> {
    let mut f = vec![if fin { 0x80 | op } else { op }];
    let n = data.len();
    if n < 126 {
        f.push(0x80 | n as u8);
    } else if n < 65536 {
        f.push(0x80 | 126);
        f.extend((n as u16).to_be_bytes());
    } else {
        f.push(0x80 | 127);
        f.extend((n as u64).to_be_bytes());
    }
    let mask = [7u8, 13, 91, 200];
    f.extend(mask);
    f.extend(data.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]));
    f
}
/// One complete unmasked frame at the start of `b`: (opcode, payload, bytes used).
fn ws_take(b: &[u8]) -> Option<(u8, Vec<u8>, usize)> {
    if b.len() < 2 {
        return None;
    }
    let (n, h) = match b[1] & 0x7f {
        126 => (u16::from_be_bytes(b.get(2..4)?.try_into().unwrap()) as usize, 4),
        127 => (u64::from_be_bytes(b.get(2..10)?.try_into().unwrap()) as usize, 10),
        n => (n as usize, 2),
    };
    (b.len() >= h + n).then(|| (b[0] & 15, b[h..h + n].to_vec(), h + n))
}

struct Raw {
    w: OwnedWriteHalf,
    rx: mpsc::UnboundedReceiver<RelayFrame>,
}
async fn shake(port: u16) -> std::io::Result<TcpStream> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).await?;
    s.write_all(format!("GET / HTTP/1.1\r\nHost: 127.0.0.1:{port}\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n").as_bytes()).await?;
    let mut head = Vec::new();
    while !head.ends_with(b"\r\n\r\n") {
        head.push(s.read_u8().await?);
    }
    if !head.starts_with(b"HTTP/1.1 101") {
        return Err(std::io::ErrorKind::ConnectionRefused.into());
    }
    Ok(s)
}
impl Raw {
    async fn connect(port: u16) -> std::io::Result<Raw> {
        let (mut r, w) = shake(port).await?.into_split();
        let (tx, rx) = mpsc::unbounded_channel();
        tokio::spawn(async move {
            let mut buf = Vec::new();
            let mut chunk = [0u8; 4096];
            loop {
                while let Some((op, data, used)) = ws_take(&buf) {
                    buf.drain(..used);
                    if op == 2 {
                        let f = RelayFrame::from_bytes(&data);
                        ensure!(f.is_some(), "garbled-frame", "the relay sent {} bytes that are no frame", data.len());
                        let _ = tx.send(f.unwrap());
                    }
                }
                match r.read(&mut chunk).await {
                    Ok(0) | Err(_) => break,
                    Ok(n) => buf.extend(&chunk[..n]),
                }
            }
        });
        Ok(Raw { w, rx })
    }
    async fn send(&mut self, f: &RelayFrame) -> bool {
        let data = f.to_bytes();
        let mut out = Vec::new();
        match sim::weighted(4, 0.3) {
            1 if data.len() > 1 => {
                // A message in two fragments, with a ping between them.
                let k = 1 + sim::pick(data.len() as u64 - 1) as usize;
                out.extend(ws_frame(2, false, &data[..k]));
                out.extend(ws_frame(9, true, b"?"));
                out.extend(ws_frame(0, true, &data[k..]));
                sim::count("fragmented_messages");
            }
            2 => {
                out.extend(ws_frame(9, true, b""));
                out.extend(ws_frame(2, true, &data));
            }
            _ => out = ws_frame(2, true, &data),
        }
        self.w.write_all(&out).await.is_ok()
    }
}

enum Link {
    Real(RelayClient),
    Raw(Raw),
}

// ---------------------------------------------------------------- R01

struct Msg {
    conn: usize,
    topic: String,
    sent: u64,
    data: Vec<u8>,
}
struct Sub {
    topic: String,
    asked: u64,
    acked: Option<u64>,
    unsub_asked: Option<u64>,
    unsub_done: Option<u64>,
}
struct Conn {
    relay: usize,
    client: u64,
    subs: Vec<Sub>,
    got: Vec<(u64, String, Option<usize>)>,
    /// Closed by the client or its crash.
    closed: bool,
    /// The client found the connection dead.
    broken: bool,
}
#[derive(Default)]
struct Hist {
    msgs: Vec<Msg>,
    conns: Vec<Conn>,
    log: Vec<String>,
    up: usize,
    busy: u64,
    finale: bool,
    ended: u64,
    /// The topic subscribed last.
    fresh: Option<String>,
}
impl Hist {
    fn say(&mut self, s: String) {
        self.log.push(format!("{}us {s}", sim::now() / 1000));
    }
}

fn relay_main(i: usize, h: Host<Hist>, multi: bool, bridged: Option<Vec<String>>) {
    let rt = if multi { rtn(2) } else { rt1() };
    rt.block_on(async move {
        let addr = format!("127.0.0.1:{}", 7000 + i);
        let _server = match bridged {
            Some(topics) => {
                tokio::spawn(crate::mesh::pump());
                relay::serve_bridged(&addr, topics).await
            }
            None => relay::serve(&addr).await,
        }
        .expect("relay starts");
        h.with(|h| h.up += 1);
        std::future::pending::<()>().await
    });
}

fn topics() -> Vec<String> {
    vec!["alpha".into(), "beta".into(), "τ/γάμμα".into(), String::new()]
}
/// A message body that identifies itself and shows any alteration.
fn body(id: usize, len: usize) -> Vec<u8> {
    let mut v = (id as u32).to_le_bytes().to_vec();
    v.extend((0..len).map(|i| (i as u8).wrapping_mul(31).wrapping_add(id as u8)));
    v
}

struct Client {
    c: u64,
    h: Host<Hist>,
    link: Link,
    k: usize,
}
impl Client {
    async fn connect(c: u64, relay: usize, h: &Host<Hist>) -> Option<Client> {
        let port = 7000 + relay as u16;
        for _ in 0..20 {
            let link = if sim::chance(0.4) {
                match RelayClient::connect(&format!("ws://127.0.0.1:{port}")).await {
                    Ok(l) => Some(Link::Real(l)),
                    Err(_) => None,
                }
            } else {
                Raw::connect(port).await.ok().map(Link::Raw)
            };
            if let Some(link) = link {
                let k = h.with(|h| {
                    h.conns.push(Conn { relay, client: c, subs: Vec::new(), got: Vec::new(), closed: false, broken: false });
                    let k = h.conns.len() - 1;
                    h.say(format!("client {c} opens connection {k} to relay {relay}"));
                    k
                });
                return Some(Client { c, h: h.clone(), link, k });
            }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        None
    }
    fn broke(&self) {
        self.h.with(|h| {
            h.conns[self.k].broken = true;
            h.say(format!("connection {} is dead", self.k));
        });
    }
    fn event(&self, topic: String, data: Vec<u8>) {
        self.h.with(|h| {
            let id = (data.len() >= 4).then(|| u32::from_le_bytes(data[..4].try_into().unwrap()) as usize);
            let known = id.filter(|i| *i < h.msgs.len() && h.msgs[*i].data == data && h.msgs[*i].topic == topic);
            ensure!(known.is_some(), "altered-message", "connection {} received {:?} bytes on {topic:?} that nobody published there (message {id:?}); history: {}", self.k, data.len(), h.log.join("; "));
            h.say(format!("connection {} gets m{}", self.k, id.unwrap()));
            h.conns[self.k].got.push((sim::now(), topic, known));
        });
    }
    /// Take in whatever has arrived.
    fn poll(&mut self) {
        match &mut self.link {
            Link::Real(l) => {
                for (t, d) in l.drain_events() {
                    self.event(t, d);
                }
            }
            Link::Raw(r) => {
                let mut evs = Vec::new();
                while let Ok(f) = r.rx.try_recv() {
                    evs.push(f);
                }
                for f in evs {
                    if let RelayFrame::Event { topic, data } = f {
                        self.event(topic, data);
                    }
                }
            }
        }
    }
    async fn ack(&mut self, topic: &str) -> bool {
        let Link::Raw(_) = &self.link else { unreachable!() };
        loop {
            let Link::Raw(r) = &mut self.link else { unreachable!() };
            match r.rx.recv().await {
                Some(RelayFrame::SubAck { topic: t }) if t == topic => return true,
                Some(RelayFrame::Event { topic, data }) => self.event(topic, data),
                Some(_) => {}
                None => return false,
            }
        }
    }
    async fn subscribe(&mut self, topic: &str) -> bool {
        let i = self.h.with(|h| {
            h.say(format!("connection {} subscribes {topic:?}", self.k));
            let s = &mut h.conns[self.k].subs;
            s.push(Sub { topic: topic.into(), asked: sim::now(), acked: None, unsub_asked: None, unsub_done: None });
            s.len() - 1
        });
        let ok = match &mut self.link {
            Link::Real(l) => l.subscribe(topic).await.is_ok(),
            Link::Raw(r) => r.send(&RelayFrame::Subscribe { topic: topic.into() }).await && self.ack(topic).await,
        };
        if ok {
            self.h.with(|h| {
                h.say(format!("connection {} is subscribed to {topic:?}", self.k));
                h.conns[self.k].subs[i].acked = Some(sim::now());
                if topic != "fence" {
                    h.fresh = Some(topic.into());
                }
            });
        }
        ok
    }
    async fn unsubscribe(&mut self, topic: &str) -> bool {
        let k = self.k;
        let Link::Raw(r) = &mut self.link else { return true };
        let mine: Vec<usize> = self.h.with(|h| {
            h.say(format!("connection {k} unsubscribes {topic:?}"));
            let s = &mut h.conns[k].subs;
            let now = sim::now();
            let mine: Vec<usize> = (0..s.len()).filter(|i| s[*i].topic == topic && s[*i].unsub_asked.is_none()).collect();
            for i in &mine {
                s[*i].unsub_asked = Some(now);
            }
            mine
        });
        if !r.send(&RelayFrame::Unsubscribe { topic: topic.into() }).await {
            return false;
        }
        // The relay works through a connection's frames in order, so an answer to a later one
        // shows that this one was processed.
        if sim::chance(0.7) {
            if !self.subscribe("fence").await {
                return false;
            }
            self.h.with(|h| {
                h.say(format!("connection {k} is unsubscribed from {topic:?}"));
                for i in mine {
                    h.conns[k].subs[i].unsub_done = Some(sim::now());
                }
            });
        }
        true
    }
    async fn publish(&mut self, topic: &str) -> bool {
        let data = self.h.with(|h| {
            let len = *[0, 1, 40, 125, 130, 3000, 70_000].get(sim::world::w().ch.uniform(7) as usize).unwrap();
            let data = body(h.msgs.len(), len);
            h.say(format!("connection {} publishes m{} on {topic:?} ({len} bytes)", self.k, h.msgs.len()));
            h.msgs.push(Msg { conn: self.k, topic: topic.into(), sent: sim::now(), data: data.clone() });
            data
        });
        match &mut self.link {
            Link::Real(l) => l.publish(topic, data).is_ok(),
            Link::Raw(r) => r.send(&RelayFrame::Publish { topic: topic.into(), data }).await,
        }
    }
    async fn work(&mut self, n: u64) -> bool {
        let ts = topics();
        for _ in 0..n {
            let topic = sim::one(&ts);
            // Some publish just what someone was told is now subscribed.
            let fresh = if sim::chance(0.3) { self.h.with(|h| h.fresh.clone()) } else { None };
            let kind = if fresh.is_some() { 5 } else { sim::pick(7) };
            let topic = fresh.unwrap_or(topic);
            let ok = match kind {
                0 | 1 => self.subscribe(&topic).await,
                2 => self.unsubscribe(&topic).await,
                3..=5 => {
                    let mut ok = true;
                    for _ in 0..sim::range(1, 4) {
                        ok &= self.publish(&topic).await;
                    }
                    ok
                }
                _ => {
                    tokio::time::sleep(Duration::from_micros(200 * sim::pick(30))).await;
                    true
                }
            };
            self.poll();
            if !ok {
                self.broke();
                return false;
            }
        }
        true
    }
    /// Stay connected until the end, taking in events.
    async fn stay(&mut self) {
        loop {
            self.poll();
            let end = self.h.with(|h| h.finale);
            if end {
                // Is the connection still there?
                let dead = match &mut self.link {
                    Link::Real(l) => matches!(tokio::time::timeout(Duration::from_millis(1), l.next_event()).await, Ok(None)),
                    Link::Raw(r) => r.rx.is_closed() && r.rx.is_empty(),
                };
                if dead {
                    self.broke();
                }
                return;
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }
}

fn client_main(c: u64, relay: usize, h: Host<Hist>, sessions: u64) {
    rt1().block_on(async move {
        for s in 0..sessions {
            let Some(mut cl) = Client::connect(c, relay, &h).await else {
                h.with(|h| h.say(format!("client {c} cannot connect")));
                break;
            };
            let n = sim::range(2, 9);
            let ok = cl.work(n).await;
            if s + 1 < sessions {
                h.with(|h| {
                    h.conns[cl.k].closed = true;
                    h.say(format!("client {c} leaves connection {}", cl.k));
                });
                drop(cl);
                continue;
            }
            h.with(|h| h.busy -= 1);
            if ok {
                cl.stay().await;
            }
            h.with(|h| h.ended += 1);
            std::future::pending::<()>().await;
        }
        h.with(|h| {
            h.busy -= 1;
            h.ended += 1;
        });
        std::future::pending::<()>().await;
    });
}

fn judge(h: &Hist, bridged: &[String], resets: bool) {
    let story = || h.log.join("; ");
    for (k, c) in h.conns.iter().enumerate() {
        if c.broken && !resets {
            ensure!(c.closed, "connection-lost", "connection {k} died although nothing happened to it; history: {}", story());
        }
        let mut last: BTreeMap<usize, usize> = BTreeMap::new();
        for (at, topic, id) in &c.got {
            let m = id.unwrap();
            let msg = &h.msgs[m];
            ensure!(msg.conn != k, "echo", "connection {k} received its own m{m}; history: {}", story());
            let may = c.subs.iter().any(|s| s.topic == *topic && s.asked <= *at && s.unsub_done.map_or(true, |u| msg.sent <= u));
            ensure!(may, "not-subscribed", "connection {k} received m{m} on {topic:?} without a subscription in force; history: {}", story());
            ensure!(c.got.iter().filter(|g| g.2 == Some(m)).count() == 1, "duplicate", "connection {k} received m{m} more than once; history: {}", story());
            if h.conns[msg.conn].relay == c.relay {
                if let Some(p) = last.insert(msg.conn, m) {
                    ensure!(p < m, "reordered", "connection {k} received m{m} after m{p} of the same publisher; history: {}", story());
                }
            }
        }
        if c.closed || c.broken {
            continue;
        }
        for (m, msg) in h.msgs.iter().enumerate() {
            let from = &h.conns[msg.conn];
            if msg.conn == k || from.closed || from.broken {
                continue;
            }
            if from.relay != c.relay && !bridged.contains(&msg.topic) {
                ensure!(c.got.iter().all(|g| g.2 != Some(m)), "wrong-relay", "connection {k} received m{m} from another relay on a topic that is not bridged; history: {}", story());
                continue;
            }
            // The moment by which the relay had routed the message, as far as anyone can tell.
            let routed = h.conns.iter().filter(|o| o.relay == c.relay).flat_map(|o| o.got.iter().filter(|g| g.2 == Some(m)).map(|g| g.0)).min();
            let must = c.subs.iter().any(|s| s.topic == msg.topic && s.acked.is_some_and(|a| a < msg.sent) && s.unsub_asked.map_or(true, |u| routed.is_some_and(|r| r < u)));
            ensure!(!must || c.got.iter().any(|g| g.2 == Some(m)), "lost", "m{m} on {:?} never reached connection {k}; history: {}", msg.topic, story());
        }
    }
}

/// The wire is healthy from now on: wait until nothing moves any more.
fn settle() {
    {
        let n = sim::net_cfg();
        n.p_cut = 0.0;
        n.cap = 1 << 20;
        n.max_delay = 500_000;
    }
    let moved = || {
        let _g = sim::OsGuard::new();
        sim::world::w().counters.get("net:writes").copied()
    };
    for _ in 0..60 {
        let before = moved();
        node::sleep(SEC);
        if moved() == before {
            break;
        }
    }
}

fn r01() {
    swarm_sched();
    sim::cfg().max_steps = 3_000_000;
    crate::mesh::install();
    let two = sim::chance(0.25);
    let bridged: Vec<String> = if two { topics()[..2].to_vec() } else { Vec::new() };
    let relays = 1 + two as usize;
    let h = Host::new(Hist::default());
    {
        let n = sim::net_cfg();
        n.p_cut = [0.0, 0.3, 0.9][sim::pick(3) as usize];
        n.p_slow = [0.0, 0.1][sim::pick(2) as usize];
        n.cap = [65536, 700][sim::pick(2) as usize];
        n.max_delay = [500_000, 5_000_000][sim::pick(2) as usize];
    }
    // A busy machine: worker threads lose the processor for a long time, at any instruction.
    let busy = sim::chance(0.25);
    if busy {
        sim::cfg().p_stall = [0.01, 0.03][sim::pick(2) as usize];
        sim::cfg().max_stall_ns = [10_000_000, 100_000_000][sim::pick(2) as usize];
    }
    for i in 0..relays {
        let n = node::add(&format!("relay{i}"));
        let (h2, multi, b) = (h.clone(), busy || sim::chance(0.3), two.then(|| bridged.clone()));
        node::spawn(n, "relay", move || relay_main(i, h2, multi, b));
    }
    ensure!(node::wait_for(MS, 5 * SEC, || h.with(|h| h.up == relays)), "relay-start", "the relay did not start");
    node::sleep(20 * MS);
    let k = sim::range(2, 4);
    let mut resets = false;
    if sim::chance(0.3) {
        let n = sim::net_cfg();
        n.p_reset = 0.01;
        n.resets_left = 2;
        resets = true;
    }
    h.with(|h| h.busy = k);
    let mut ids = Vec::new();
    for c in 0..k {
        let n = node::add(&format!("c{c}"));
        let (h2, r, s) = (h.clone(), sim::pick(relays as u64) as usize, 1 + sim::weighted(3, 0.3));
        node::spawn(n, "client", move || client_main(c, r, h2, s));
        ids.push(n);
    }
    let mut crashed = 0;
    for _ in 0..sim::weighted(4, 0.6) {
        node::sleep(sim::range(1, 30) * MS);
        let c = sim::one(&ids);
        match sim::pick(4) {
            0 => sim::net::partition(0, c),
            1 => node::stall(c, sim::range(1, 60) * MS),
            2 => sim::net::heal_all(),
            _ if node::alive(c) && sim::chance(0.5) => {
                // The client machine goes away without a word.
                let who = (c - ids[0]) as u64;
                node::crash(c, sim::chance(0.5));
                h.with(|h| {
                    h.say(format!("client {who} crashes"));
                    for x in h.conns.iter_mut().filter(|x| x.client == who) {
                        x.closed = true;
                    }
                });
                crashed += 1;
            }
            _ => {}
        }
    }
    node::sleep(20 * MS);
    sim::net::heal_all();
    sim::faults_off();
    let live = |n: &&u32| node::alive(**n);
    let n_live = ids.iter().filter(live).count() as u64;
    node::wait_for(10 * MS, 20 * SEC, || h.with(|h| h.busy <= k - n_live));
    h.with(|h| ensure!(h.busy <= k - n_live, "stuck", "{} clients are still waiting for the relay; history: {}", h.busy, h.log.join("; ")));
    settle();
    h.with(|h| h.finale = true);
    node::wait_for(10 * MS, 5 * SEC, || h.with(|h| h.ended >= n_live));
    h.with(|h| {
        judge(h, &bridged, resets);
        let got: usize = h.conns.iter().map(|c| c.got.len()).sum();
        sim::count_n("messages_published", h.msgs.len() as u64);
        sim::count_n("messages_received", got as u64);
        sim::note("run", format!("{got}"));
        if got > 0 {
            sim::nontrivial();
        }
        sim::sample(format!("{relays} relays, {} connections, {} published, {got} received, {crashed} crashes", h.conns.len(), h.msgs.len()));
    });
}

// ---------------------------------------------------------------- R02

#[derive(Default)]
struct Bad {
    up: bool,
    log: Vec<String>,
    /// Good messages: (publisher, sent).
    sent: Vec<(usize, u64)>,
    got: Vec<Vec<usize>>,
    ready: usize,
    stop: bool,
    inject: u64,
    injected: Vec<(u64, usize)>,
    newcomer: Option<bool>,
    bad_done: u64,
}
impl Bad {
    fn say(&mut self, s: String) {
        self.log.push(format!("{}us {s}", sim::now() / 1000));
    }
}
const BOUND: u64 = 5 * SEC;

async fn within<T>(h: &Host<Bad>, what: &str, f: impl std::future::Future<Output = T>) -> T {
    match tokio::time::timeout(Duration::from_nanos(BOUND), f).await {
        Ok(v) => v,
        Err(_) => {
            h.with(|h| sim::violation("good-client-starved", format!("{what} did not happen within {} s; history: {}", BOUND / SEC, h.log.join("; "))));
            unreachable!()
        }
    }
}

fn relay_inject(h: Host<Bad>, multi: bool) {
    let rt = if multi { rtn(2) } else { rt1() };
    rt.block_on(async move {
        let server = relay::serve("127.0.0.1:7000").await.expect("relay starts");
        h.with(|h| h.up = true);
        let mut done = 0;
        loop {
            tokio::time::sleep(Duration::from_millis(5)).await;
            let want = h.with(|h| h.inject);
            if want > done {
                done = want;
                let n = within(&h, "a server-side message", server.inject("good", &body(done as usize, 3))).await;
                h.with(|h| h.injected.push((done, n)));
            }
        }
    });
}

async fn patient(h: &Host<Bad>, who: &str) -> RelayClient {
    // A connection may be refused while the server is out of descriptors: try again.
    within(h, &format!("{who} connecting"), async {
        loop {
            match RelayClient::connect("ws://127.0.0.1:7000").await {
                Ok(c) => return c,
                Err(_) => tokio::time::sleep(Duration::from_millis(10)).await,
            }
        }
    })
    .await
}

fn good_client(g: usize, h: Host<Bad>, n: u64) {
    rt1().block_on(async move {
        let mut c = patient(&h, &format!("good client {g}")).await;
        within(&h, &format!("the subscription of good client {g}"), c.subscribe("good")).await.unwrap_or_else(|e| h.with(|h| sim::violation("good-client-dropped", format!("good client {g}: {e}; history: {}", h.log.join("; ")))));
        h.with(|h| h.ready += 1);
        let (mut left, mut next) = (n, sim::now());
        loop {
            for (t, d) in c.drain_events() {
                ensure!(t == "good" && d.len() >= 4, "altered-message", "good client {g} received {} bytes on {t:?}", d.len());
                let id = u32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
                if d.len() == 4 + 9 {
                    h.with(|h| h.got[g].push(id));
                }
            }
            if left > 0 && sim::now() >= next && h.with(|h| h.ready >= 2) {
                let id = h.with(|h| {
                    h.sent.push((g, sim::now()));
                    h.sent.len() - 1
                });
                if c.publish("good", body(id, 9)).is_err() {
                    h.with(|h| sim::violation("good-client-dropped", format!("good client {g} lost its connection; history: {}", h.log.join("; "))));
                }
                left -= 1;
                next = sim::now() + 20 * MS;
            }
            h.with(|h| {
                for (id, (from, at)) in h.sent.iter().enumerate() {
                    if *from != g && sim::now() > at + BOUND && !h.got[g].contains(&id) {
                        sim::violation("good-client-starved", format!("message {id} of good client {from} has not reached good client {g} after {} s; history: {}", BOUND / SEC, h.log.join("; ")));
                    }
                }
            });
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    });
}

fn noise(n: usize) -> Vec<u8> {
    let _g = sim::OsGuard::new();
    let w = sim::world::w();
    (0..n).map(|_| w.ch.uniform(256) as u8).collect()
}

/// A client that behaves badly in one of the ways clients do.
fn bad_client(b: u64, h: Host<Bad>, plan: Option<u64>) {
    rt1().block_on(async move {
        for _ in 0..sim::range(1, 3) {
            let kind = plan.unwrap_or_else(|| sim::pick(10));
            h.with(|h| h.say(format!("bad client {b} does {kind}")));
            sim::count(&format!("misbehaviour:{kind}"));
            let wait = |ms: u64| tokio::time::sleep(Duration::from_millis(ms));
            let sub = |t: &str| ws_frame(2, true, &RelayFrame::Subscribe { topic: t.into() }.to_bytes());
            match kind {
                // Connects and says nothing, or not even half a request.
                0 => {
                    let Ok(mut s) = TcpStream::connect("127.0.0.1:7000").await else { continue };
                    if sim::chance(0.5) {
                        let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\nUpgr").await;
                    }
                    wait(sim::range(10, 3000)).await;
                }
                // Something that is not a WebSocket request.
                1 => {
                    let Ok(mut s) = TcpStream::connect("127.0.0.1:7000").await else { continue };
                    let mut junk = noise(60);
                    junk.extend(b"\r\n\r\n");
                    let _ = s.write_all(&junk).await;
                    wait(sim::range(1, 50)).await;
                }
                // Subscribes and never reads, while there is plenty to read.
                2 => {
                    let Ok(mut s) = shake(7000).await else { continue };
                    let _ = s.write_all(&sub("good")).await;
                    wait(if plan.is_some() { 20_000 } else { sim::range(10, 6000) }).await;
                }
                // Garbage where a frame should be.
                3 => {
                    let Ok(mut s) = shake(7000).await else { continue };
                    let _ = s.write_all(&noise(40)).await;
                    wait(sim::range(1, 500)).await;
                }
                // Well-framed messages that are no relay frames, then a subscription: still served.
                4 => {
                    let Ok(mut r) = Raw::connect(7000).await else { continue };
                    let mut junk = ws_frame(2, true, &noise(30));
                    junk.extend(ws_frame(1, true, b"{\"hello\": 1}"));
                    junk.extend(ws_frame(2, true, b""));
                    // A publish whose stated lengths go far beyond its end.
                    junk.extend(ws_frame(2, true, &[2, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 127]));
                    junk.extend(ws_frame(2, true, &[2, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 65, 0, 0, 0, 0, 255, 0, 0, 0, 1]));
                    let _ = r.w.write_all(&junk).await;
                    let _ = r.w.write_all(&sub("side")).await;
                    let ack = async {
                        loop {
                            match r.rx.recv().await {
                                Some(RelayFrame::SubAck { topic }) if topic == "side" => return true,
                                Some(_) => {}
                                None => return false,
                            }
                        }
                    };
                    // Noise may by chance be a valid frame, never a closing one.
                    let ok = within(&h, "an answer after malformed messages", ack).await;
                    if !ok {
                        h.with(|h| sim::violation("malformed-message-fatal", format!("a malformed message cost its sender the connection; history: {}", h.log.join("; "))));
                    }
                }
                // A frame that claims to be enormous.
                5 => {
                    let Ok(mut s) = shake(7000).await else { continue };
                    let mut f = vec![0x82, 0x80 | 127];
                    f.extend((1u64 << [24, 33, 62][sim::pick(3) as usize]).to_be_bytes());
                    f.extend([1, 2, 3, 4]);
                    f.extend(noise(100));
                    let _ = s.write_all(&f).await;
                    wait(sim::range(1, 3000)).await;
                }
                // A frame cut off in the middle.
                6 => {
                    let Ok(mut s) = shake(7000).await else { continue };
                    let f = ws_frame(2, true, &RelayFrame::Publish { topic: "good".into(), data: vec![9; 300] }.to_bytes());
                    let _ = s.write_all(&f[..1 + sim::pick(f.len() as u64 - 1) as usize]).await;
                    if sim::chance(0.5) {
                        let _ = s.set_linger(Some(Duration::ZERO));
                    }
                }
                // Connections opened and dropped as fast as possible.
                7 => {
                    for _ in 0..sim::range(5, 40) {
                        let Ok(s) = TcpStream::connect("127.0.0.1:7000").await else { continue };
                        drop(s);
                    }
                }
                // A flood of messages nobody asked for, from a client that reads nothing.
                8 => {
                    let Ok(mut s) = shake(7000).await else { continue };
                    let _ = s.write_all(&sub("good")).await;
                    let (n, size) = if plan.is_some() { (sim::range(500, 4000), 20) } else { (sim::range(5, 60), 500) };
                    for _ in 0..n {
                        let good = plan.is_some() || sim::chance(0.5);
                        let f = ws_frame(2, true, &RelayFrame::Publish { topic: if good { "good" } else { "flood" }.into(), data: vec![7; size] }.to_bytes());
                        if s.write_all(&f).await.is_err() {
                            break;
                        }
                    }
                    wait(sim::range(1, 2000)).await;
                }
                // Subscribes and unsubscribes without end; frames only a server may send.
                _ => {
                    let Ok(mut s) = shake(7000).await else { continue };
                    for i in 0..sim::range(5, 40) {
                        let f = match i % 3 {
                            0 => RelayFrame::Subscribe { topic: "good".into() },
                            1 => RelayFrame::Unsubscribe { topic: "good".into() },
                            _ => RelayFrame::Event { topic: "good".into(), data: vec![1; 20] },
                        };
                        if s.write_all(&ws_frame(2, true, &f.to_bytes())).await.is_err() {
                            break;
                        }
                    }
                    wait(sim::range(1, 500)).await;
                }
            }
        }
        h.with(|h| h.bad_done += 1);
        if sim::chance(0.3) {
            std::future::pending::<()>().await;
        }
    });
}

fn r02() {
    swarm_sched();
    sim::cfg().max_steps = 6_000_000;
    let h = Host::new(Bad { got: vec![Vec::new(), Vec::new()], ..Default::default() });
    {
        let n = sim::net_cfg();
        n.p_cut = [0.0, 0.3][sim::pick(2) as usize];
        n.cap = [65536, 2000][sim::pick(2) as usize];
        n.max_delay = 500_000;
    }
    let r = node::add("relay");
    let (h2, multi) = (h.clone(), sim::chance(0.3));
    node::spawn(r, "relay", move || relay_inject(h2, multi));
    ensure!(node::wait_for(MS, BOUND, || h.with(|h| h.up)), "relay-start", "the relay did not start");
    if sim::chance(0.5) {
        let n = sim::net_cfg();
        n.p_accept = 0.1;
        n.accepts_left = sim::range(1, 6) as u32;
    }
    for g in 0..2 {
        let n = node::add(&format!("good{g}"));
        let (h2, k) = (h.clone(), sim::range(5, 40));
        node::spawn(n, "client", move || good_client(g, h2, k));
    }
    // Now and then the load is heavy: a subscriber that never reads beside a publisher that never stops.
    let heavy = sim::chance(0.06);
    let k = if heavy { 2 } else { sim::range(1, 5) };
    let mut bad = Vec::new();
    for b in 0..k {
        let n = node::add(&format!("bad{b}"));
        let h2 = h.clone();
        node::spawn(n, "client", move || bad_client(b, h2, heavy.then_some([2, 8][b as usize % 2])));
        bad.push(n);
    }
    let mut vanished = 0;
    for _ in 0..sim::weighted(4, 0.6) {
        node::sleep(sim::range(1, 400) * MS);
        let b = sim::one(&bad);
        if !node::alive(b) {
            continue;
        }
        match sim::pick(3) {
            0 => node::stall(b, sim::range(1, 2000) * MS),
            1 => sim::net::partition(r, b),
            _ => {
                // Gone: with its connections reset, or without a word.
                let power = sim::chance(0.5);
                node::crash(b, power);
                vanished += power as u64;
                h.with(|h| h.say(format!("bad node {b} {}", if power { "vanishes" } else { "dies" })));
            }
        }
    }
    // A newcomer is served while all that goes on.
    let (n, h2) = (node::add("newcomer"), h.clone());
    node::spawn(n, "client", move || {
        rt1().block_on(async move {
            let mut c = patient(&h2, "a new client").await;
            let ok = within(&h2, "the new client's subscription", c.subscribe("new")).await.is_ok();
            h2.with(|h| h.newcomer = Some(ok));
            std::future::pending::<()>().await
        })
    });
    node::wait_for(10 * MS, 2 * BOUND, || h.with(|h| h.newcomer.is_some()));
    h.with(|h| ensure!(h.newcomer == Some(true), "newcomer-refused", "a new client could not subscribe; history: {}", h.log.join("; ")));
    sim::net::heal_all();
    sim::faults_off();
    node::sleep(BOUND + SEC);
    h.with(|h| {
        for (id, (from, _)) in h.sent.iter().enumerate() {
            let n = h.got[1 - from].iter().filter(|x| **x == id).count();
            ensure!(n == 1, "good-message", "message {id} of good client {from} reached the other one {n} times; history: {}", h.log.join("; "));
        }
    });
    // Once the bad clients' machines are known to be down, only the good ones are left.
    for b in &bad {
        if node::alive(*b) {
            node::crash(*b, false);
        }
    }
    node::sleep(SEC);
    for i in 1..=2 {
        h.with(|h| h.inject = i);
        node::wait_for(10 * MS, BOUND, || h.with(|h| h.injected.len() as u64 == i));
    }
    h.with(|h| {
        ensure!(h.injected.len() == 2, "inject", "the relay took no server-side message; history: {}", h.log.join("; "));
        if vanished == 0 {
            ensure!(h.injected[1].1 == 2, "ghost-subscriber", "the relay delivers to {} subscribers, of which 2 exist; history: {}", h.injected[1].1, h.log.join("; "));
        }
        sim::count_n("good_messages", h.sent.len() as u64);
        sim::note("run", format!("{}", h.sent.len()));
        if h.sent.len() > 4 {
            sim::nontrivial();
        }
        sim::sample(format!("{} good messages delivered beside {}", h.sent.len(), h.log.join("; ")));
    });
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R01",
        scenario: r01,
        runs: 6000,
        rule: "one run = one relay (or two bridged by the mesh) and 2-4 clients, real and raw, connecting, subscribing, unsubscribing, publishing and leaving over cut, slow, stalled, partitioned and reset connections; every delivery is judged against the recorded acknowledgements; non-trivial when a message was received; distinct by event-history hash",
        real: &["logicaffeine_system::relay (server and client)", "logicaffeine_system::relay_proto", "logicaffeine_system::network::gossip", "tokio-tungstenite", "tokio"],
        stubs: &["TCP (in memory)", "libp2p (a simulated mesh behind the logos_sim seam)"],
        assumptions: &["a message published on a connection that is later cut may be lost"],
    },
    Prop {
        id: "R02",
        scenario: r02,
        runs: 1200,
        rule: "one run = a relay, two well-behaved clients exchanging messages, and 1-5 clients misbehaving in ten ways (silent, not WebSocket, never reading, garbage, malformed messages, enormous or truncated frames, connection floods, message floods, subscription churn), some stalled, cut off or crashed, with failing accepts; the good clients and a newcomer are timed; non-trivial when more than four good messages were exchanged; distinct by event-history hash",
        real: &["logicaffeine_system::relay (server and client)", "logicaffeine_system::relay_proto", "tokio-tungstenite", "tokio"],
        stubs: &["TCP (in memory)"],
        assumptions: &["five simulated seconds are the bound on service to a well-behaved client", "a peer that vanished without closing cannot be told from a silent one"],
    }]
}
