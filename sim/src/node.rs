//! Simulated nodes: a group of threads, a directory below /sim, and its sockets.
use crate::world::{self, w, Node, OsGuard, St, Wait};

pub fn root_of(node: u32) -> String {
    format!("/sim/{}", w().nodes[node as usize].name)
}

/// Register a node (its directory is created).
pub fn add(name: &str) -> u32 {
    let _g = OsGuard::new();
    let wd = w();
    wd.nodes.push(Node { name: name.into(), alive: true, stalled_until: 0, wall_skew: 0 });
    crate::fs::mkdirs(&format!("/sim/{name}"));
    wd.nodes.len() as u32 - 1
}

/// Start a thread that belongs to `node`.
pub fn spawn<T: Send + 'static>(node: u32, name: &str, f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    {
        let _g = OsGuard::new();
        let wd = w();
        wd.next_node = Some((wd.cur, node));
        wd.nodes[node as usize].alive = true;
    }
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(f).expect("spawn");
    let _g = OsGuard::new();
    let wd = w();
    if let Some(t) = wd.threads.iter_mut().rev().find(|t| t.node == node && t.name.starts_with("th")) {
        t.name = name.to_string();
    }
    h
}

pub fn alive(node: u32) -> bool {
    w().nodes[node as usize].alive
}

/// Crash: the node's threads never run again. With `power`, unsynced data is at the chooser's mercy;
/// otherwise the page cache survives and the kernel closes the sockets.
pub fn crash(node: u32, power: bool) {
    let _g = OsGuard::new();
    let wd = w();
    wd.count(if power { "fault:power_loss" } else { "fault:process_crash" });
    wd.event("crash", node as u64, power as u64, || format!("node {node} power={power}"));
    let root = root_of(node);
    if power {
        crate::fs::power_loss(wd, &root);
    }
    crate::net::node_down(wd, node, power);
    let fds: Vec<i32> = wd.fs.open.iter().filter(|(_, o)| o.path.starts_with(&format!("{root}/"))).map(|(k, _)| *k).collect();
    for fd in fds {
        wd.fs.open.remove(&fd);
    }
    *wd.tokens.entry(DOWN + node as u64).or_default() += 1;
    world::kill_node(node);
}
pub const DOWN: u64 = 1 << 40;

/// Stall all threads of a node for a while.
pub fn stall(node: u32, ns: u64) {
    let _g = OsGuard::new();
    let wd = w();
    let until = wd.now + ns;
    wd.nodes[node as usize].stalled_until = until;
    wd.count("fault:node_stall");
    wd.event("node-stall", node as u64, ns, || format!("node {node} for {ns}ns"));
}

pub fn sleep(ns: u64) {
    let _g = OsGuard::new();
    let t = w().now + ns;
    world::block(Wait::Sleep, Some(t));
}

/// Wait until `cond` holds, re-evaluated every `step` of simulated time, for at most `max`.
pub fn wait_for(step: u64, max: u64, mut cond: impl FnMut() -> bool) -> bool {
    let end = w().now + max;
    loop {
        if cond() {
            return true;
        }
        if w().now >= end {
            return false;
        }
        sleep(step);
    }
}

/// True when every thread of the node has ended or died.
pub fn finished(node: u32) -> bool {
    w().threads.iter().skip(1).filter(|t| t.node == node).all(|t| matches!(t.st, St::Done | St::Dead))
}

/// True when the node has nothing left to do by itself: every thread waits for a wake-up, input or timer.
pub fn idle(node: u32) -> bool {
    let wd = w();
    wd.nodes[node as usize].stalled_until <= wd.now
        && wd.threads.iter().skip(1).filter(|t| t.node == node).all(|t| match &t.st {
            St::Done | St::Dead => true,
            St::Blocked(Wait::Epoll(ep), _) => !wd.net.epoll_ready(*ep),
            St::Blocked(Wait::Futex(_) | Wait::Join(_) | Wait::Token(_), _) => true,
            _ => false,
        })
}
/// The node the calling thread belongs to.
pub fn current() -> u32 {
    w().cur_node()
}
