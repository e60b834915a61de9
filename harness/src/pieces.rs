//! F01: a file served in pieces. The real sipper maps a file on the serving node's simulated disk
//! and answers requests over simulated TCP; the receiver (a stand-in) keeps accepted pieces on its
//! own disk, survives crashes and fetches what is missing.

use crate::util::*;
use logicaffeine_system::memory::Zone;
use logicaffeine_system::network::{FileChunk, FileManifest, FileSipper};
use sha2::{Digest, Sha256};
use sim::{chance, ensure, node, pick, Prop};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

const MS: u64 = 1_000_000;
const SOURCE: &str = "/sim/server/file.bin";

fn sha(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
async fn put(s: &mut TcpStream, b: &[u8]) -> std::io::Result<()> {
    s.write_all(&(b.len() as u32).to_be_bytes()).await?;
    s.write_all(b).await
}
async fn take(s: &mut TcpStream) -> std::io::Result<Vec<u8>> {
    let n = s.read_u32().await?;
    let mut b = vec![0; n as usize];
    s.read_exact(&mut b).await?;
    Ok(b)
}
/// One request per frame: nothing for the manifest, or the number of a piece.
async fn answer(mut s: TcpStream, size: usize) -> std::io::Result<()> {
    let zone = Zone::new_mapped(SOURCE)?;
    let sipper = if size == 0 { FileSipper::from_zone(&zone) } else { FileSipper::with_chunk_size(&zone, size) };
    loop {
        let r = take(&mut s).await?;
        let a = match r.as_slice() {
            [] => bincode::serialize(&sipper.manifest()).unwrap(),
            b => bincode::serialize(&sipper.get_chunk_with_hash(u64::from_be_bytes(b.try_into().unwrap()) as usize)).unwrap(),
        };
        put(&mut s, &a).await?;
    }
}

#[derive(Default)]
struct Log {
    whole: Option<Vec<u8>>,
    fetched: std::collections::BTreeMap<usize, u64>,
    corrupted: std::collections::BTreeMap<usize, u64>,
    crashes: u64,
}
type H = Host<Log>;

/// Fetch what is missing on this machine; true once the file is there.
async fn fetch(h: &H, file: &[u8]) -> std::io::Result<bool> {
    let mut s = TcpStream::connect(("127.0.0.1", 7000)).await?;
    put(&mut s, &[]).await?;
    let m: FileManifest = bincode::deserialize(&take(&mut s).await?).unwrap();
    ensure!(m.total_size == file.len() as u64, "wrong-size", "the manifest says {} bytes for a file of {}", m.total_size, file.len());
    ensure!(m.chunk_count == m.chunk_hashes.len(), "wrong-count", "{} pieces but {} digests", m.chunk_count, m.chunk_hashes.len());
    ensure!(m.chunk_size > 0 && m.chunk_count == file.len().div_ceil(m.chunk_size), "wrong-count", "{} pieces of {} bytes for a file of {}", m.chunk_count, m.chunk_size, file.len());
    let mut order: Vec<usize> = Vec::new();
    for i in 0..m.chunk_count {
        let kept = std::fs::read(format!("/sim/client/p{i}")).unwrap_or_default();
        if sha(&kept) != m.chunk_hashes[i] {
            order.push(i);
        }
    }
    if !order.is_empty() && chance(0.5) {
        for i in (1..order.len()).rev() {
            order.swap(i, pick(i as u64 + 1) as usize);
        }
    }
    while let Some(i) = order.pop() {
        if chance(0.05) {
            // Pieces that do not exist have nothing in them.
            let far = [m.chunk_count as u64, m.chunk_count as u64 + 7, u64::MAX, u64::MAX / 2 + 1, (u64::MAX / m.chunk_size as u64).saturating_add(1)][pick(5) as usize];
            put(&mut s, &far.to_be_bytes()).await?;
            let c: FileChunk = bincode::deserialize(&take(&mut s).await?).unwrap();
            ensure!(c.data.is_empty(), "invented-piece", "piece {far} of {} has {} bytes", m.chunk_count, c.data.len());
            sim::count("requests past the end");
        }
        put(&mut s, &(i as u64).to_be_bytes()).await?;
        let mut c: FileChunk = bincode::deserialize(&take(&mut s).await?).unwrap();
        h.with(|l| *l.fetched.entry(i).or_default() += 1);
        ensure!(c.index == i && c.file_id == m.file_id, "wrong-piece", "asked for piece {i} of {}, got piece {} of {}", m.file_id, c.index, c.file_id);
        ensure!(c.hash == m.chunk_hashes[i], "wrong-digest", "piece {i} comes with another digest than the manifest has");
        if !c.data.is_empty() && chance(0.1) {
            let at = pick(c.data.len() as u64) as usize;
            c.data[at] ^= 1 << pick(8);
            h.with(|l| *l.corrupted.entry(i).or_default() += 1);
            sim::count("corrupted pieces");
        }
        if sha(&c.data) == m.chunk_hashes[i] {
            std::fs::write(format!("/sim/client/p{i}"), &c.data)?;
        } else {
            ensure!(h.with(|l| l.corrupted.contains_key(&i)), "never-accepted", "piece {i} arrived undamaged but does not match its digest");
        }
        if chance(0.1) {
            // Asked again although accepted.
            order.insert(0, i);
            h.with(|l| *l.corrupted.entry(i).or_default() += 1);
        }
    }
    let mut whole = Vec::new();
    for i in 0..m.chunk_count {
        let b = std::fs::read(format!("/sim/client/p{i}")).unwrap_or_default();
        if sha(&b) != m.chunk_hashes[i] {
            return Ok(false);
        }
        whole.extend(b);
    }
    h.with(|l| l.whole = Some(whole));
    Ok(true)
}

fn f01() {
    swarm_sched();
    let h: H = Host::new(Log::default());
    let (srv, cli) = (node::add("server"), node::add("client"));
    let n = [40, 0, 1, 64, 65, 63, 128, 500, 1000][pick(9) as usize] as usize;
    let size = [16, 64, 1, 7, 1000, 4096, 0][pick(7) as usize] as usize;
    let size = if size == 1 && n > 200 { 33 } else { size };
    // Some files repeat themselves, so that pieces have equal digests.
    let same = chance(0.3);
    let file: Vec<u8> = (0..n).map(|i| if same { (i % 4) as u8 } else { sim::entropy() as u8 }).collect();
    sim::fs::poke(SOURCE, &file);
    sim::fs::mkdirs("/sim/client");
    let c = sim::net_cfg();
    c.max_delay = [1, 40][pick(2) as usize] * MS;
    c.p_cut = [0.0, 0.01, 0.05][pick(3) as usize];
    let f = sim::fs_cfg();
    f.fault_nodes = vec![cli];
    f.p_crash = [0.0, 0.03, 0.1][pick(3) as usize];
    f.crashes_left = 4;
    f.zeroing = chance(0.5);
    f.ordered = chance(0.5);
    f.p_short = [0.0, 0.2][pick(2) as usize];
    let serve = move || {
        tokio::task::LocalSet::new().block_on(&rt1(), async move {
            let l = TcpListener::bind(("127.0.0.1", 7000)).await.unwrap();
            loop {
                if let Ok((s, _)) = l.accept().await {
                    tokio::task::spawn_local(async move {
                        let _ = answer(s, size).await;
                    });
                }
            }
        })
    };
    node::spawn(srv, "serve", serve);
    for round in 0..40 {
        if round == 25 {
            sim::faults_off();
        }
        if !node::alive(srv) {
            node::spawn(srv, "serve", serve);
        }
        let (hh, file) = (h.clone(), file.clone());
        node::spawn(cli, "fetch", move || {
            rt1().block_on(async move {
                let _ = tokio::time::timeout(std::time::Duration::from_secs(30), fetch(&hh, &file)).await;
            })
        });
        if chance(0.1) {
            node::sleep(pick(200) * MS);
            node::crash(srv, true);
            sim::count("server restarts");
        } else if chance(0.1) {
            node::sleep(pick(200) * MS);
            node::crash(cli, chance(0.5));
        }
        node::wait_for(20 * MS, 40_000 * MS, || node::finished(cli) || !node::alive(cli));
        if !node::alive(cli) {
            h.with(|l| l.crashes += 1);
        }
        if h.with(|l| l.whole.is_some()) {
            break;
        }
    }
    let l = h.with(|l| (l.whole.take(), l.fetched.len(), l.crashes, l.fetched.values().sum::<u64>()));
    let Some(whole) = l.0 else { sim::violation("never-complete", "the file did not arrive although the faults had ended".into()) };
    ensure!(whole == file, "different-file", "every piece was accepted, but the file differs from the source ({} bytes, source {})", whole.len(), file.len());
    if l.1 > 1 {
        sim::nontrivial();
    }
    sim::sample(format!("{} bytes in {} pieces, {} fetched, {} crashes of the receiver", file.len(), l.1, l.3, l.2));
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "F01",
        scenario: f01,
        runs: 40_000,
        rule: "one run = one file fetched piece by piece with reordered, repeated and corrupted pieces, cut connections and crashes of both sides; non-trivial with at least two pieces; distinct by thread-interleaving hash",
        real: &["logicaffeine-system: FileSipper, FileManifest, FileChunk, mapped zones", "tokio"],
        stubs: &["the receiver and the request framing", "network, clock, file system"],
        assumptions: &["the served file does not change while it is served"],
    }]
}
