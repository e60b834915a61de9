//! The simulated network: stream sockets between nodes, eventfd and epoll.
use crate::world::{w, World};
use std::collections::{BTreeMap, VecDeque};

pub const FD0: i32 = 1 << 24;

#[derive(Clone, Debug)]
pub struct NetCfg {
    pub min_delay: u64,
    pub max_delay: u64,
    /// Probability that a segment takes a long delay.
    pub p_slow: f64,
    pub slow_delay: u64,
    /// Probability that a write is cut into several segments.
    pub p_cut: f64,
    pub cap: usize,
    /// Probability, per write, of a connection reset.
    pub p_reset: f64,
    pub resets_left: u32,
    /// Probability that accepting a connection fails (out of descriptors, or the peer is gone).
    pub p_accept: f64,
    pub accepts_left: u32,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg { min_delay: 50_000, max_delay: 500_000, p_slow: 0.0, slow_delay: 20_000_000, p_cut: 0.0, cap: 65536, p_reset: 0.0, resets_left: 0, p_accept: 0.0, accepts_left: 0 }
    }
}

#[derive(Debug)]
pub enum Obj {
    Unbound { port: Option<u16> },
    Listener { port: u16, queue: VecDeque<usize>, node: u32 },
    /// (connection, side)
    Stream { conn: usize, side: usize },
    Connecting { port: u16 },
    Event { n: u64 },
    Epoll { items: BTreeMap<i32, Item> },
    Inert,
    File,
}
#[derive(Debug, Clone)]
pub struct Item {
    pub events: u32,
    pub data: u64,
    pub edge: bool,
}
#[derive(Debug)]
pub struct Fd {
    pub obj: usize,
}
#[derive(Debug, Default)]
pub struct End {
    pub rx: VecDeque<u8>,
    pub eof: bool,
    pub flight: usize,
    /// A sender found this side full and waits for room.
    pub held: bool,
    pub wr_closed: bool,
    pub closed: bool,
    pub last: u64,
    pub node: u32,
    pub obj: Option<usize>,
}
#[derive(Debug)]
pub struct Conn {
    pub ends: [End; 2],
    pub reset: bool,
    pub ports: [u16; 2],
    pub held: [Vec<Seg>; 2],
}
#[derive(Debug, Clone)]
pub enum Seg {
    Data(Vec<u8>),
    Fin,
    /// The sending side is closed and refuses what arrives.
    Rst,
}
#[derive(Debug, Clone)]
pub enum Ev {
    Connect { obj: usize },
    Deliver { conn: usize, to: usize, seg: Seg },
    Reset { conn: usize },
}

pub struct Net {
    pub cfg: NetCfg,
    pub fds: BTreeMap<i32, Fd>,
    pub objs: Vec<Obj>,
    pub obj_node: Vec<u32>,
    pub refs: Vec<u32>,
    pub errs: BTreeMap<usize, i32>,
    pub conns: Vec<Conn>,
    pub queue: BTreeMap<(u64, u64), Ev>,
    pub seq: u64,
    pub next_fd: i32,
    pub next_port: u16,
    /// Pairs of nodes that cannot reach each other.
    pub cut: Vec<(u32, u32)>,
}

impl Net {
    pub fn new() -> Net {
        Net { cfg: NetCfg::default(), fds: BTreeMap::new(), objs: Vec::new(), obj_node: Vec::new(), refs: Vec::new(), errs: BTreeMap::new(), conns: Vec::new(), queue: BTreeMap::new(), seq: 0, next_fd: FD0, next_port: 40000, cut: Vec::new() }
    }
    pub fn next_event(&self) -> Option<u64> {
        self.queue.keys().next().map(|k| k.0)
    }
    pub fn take_due(&mut self, now: u64) -> Vec<Ev> {
        let mut v = Vec::new();
        while let Some(k) = self.queue.keys().next().copied() {
            if k.0 > now {
                break;
            }
            v.push(self.queue.remove(&k).unwrap());
        }
        v
    }
    pub fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.queue.insert((t, self.seq), e);
    }
    pub fn fd_alloc(&mut self) -> i32 {
        self.next_fd += 1;
        self.next_fd
    }
    pub fn new_fd(&mut self, o: Obj, node: u32) -> i32 {
        self.objs.push(o);
        self.obj_node.push(node);
        self.refs.push(1);
        let fd = self.fd_alloc();
        self.fds.insert(fd, Fd { obj: self.objs.len() - 1 });
        fd
    }
    pub fn new_obj(&mut self, o: Obj, node: u32) -> usize {
        self.objs.push(o);
        self.obj_node.push(node);
        self.refs.push(0);
        self.objs.len() - 1
    }
    pub fn obj_of(&self, fd: i32) -> Option<usize> {
        self.fds.get(&fd).map(|f| f.obj)
    }
    /// Something changed on the object: pend an edge on every epoll that watches it.
    pub fn edge(&mut self, obj: usize) {
        let fds: Vec<i32> = self.fds.iter().filter(|(_, f)| f.obj == obj).map(|(k, _)| *k).collect();
        for o in &mut self.objs {
            if let Obj::Epoll { items } = o {
                for fd in &fds {
                    if let Some(i) = items.get_mut(fd) {
                        i.edge = true;
                    }
                }
            }
        }
    }
    pub fn readiness(&self, fd: i32) -> u32 {
        let Some(o) = self.obj_of(fd) else { return 0 };
        let (i, out) = (libc::EPOLLIN as u32, libc::EPOLLOUT as u32);
        let mut m = 0;
        match &self.objs[o] {
            Obj::Listener { queue, .. } => {
                if !queue.is_empty() {
                    m |= i;
                }
            }
            Obj::Stream { conn, side } => {
                let c = &self.conns[*conn];
                let me = &c.ends[*side];
                let peer = &c.ends[1 - *side];
                if c.reset {
                    return i | out | (libc::EPOLLERR | libc::EPOLLHUP | libc::EPOLLRDHUP) as u32;
                }
                if !me.rx.is_empty() || me.eof {
                    m |= i;
                }
                if me.eof {
                    m |= libc::EPOLLRDHUP as u32;
                }
                if me.eof && me.wr_closed {
                    m |= libc::EPOLLHUP as u32;
                }
                if peer.rx.len() + peer.flight < self.cfg.cap {
                    m |= out;
                }
            }
            Obj::Unbound { .. } => {
                m |= out | libc::EPOLLHUP as u32;
            }
            Obj::Connecting { .. } => {
                if self.errs.contains_key(&o) {
                    m |= out | i | (libc::EPOLLERR | libc::EPOLLHUP) as u32;
                }
            }
            Obj::Event { n } => {
                if *n > 0 {
                    m |= i;
                }
                m |= out;
            }
            _ => {}
        }
        m
    }
    pub fn epoll_ready(&self, ep: i32) -> bool {
        let Some(o) = self.obj_of(ep) else { return true };
        if let Obj::Epoll { items } = &self.objs[o] {
            items.iter().any(|(fd, it)| {
                let m = self.readiness(*fd) & (it.events | (libc::EPOLLERR | libc::EPOLLHUP) as u32);
                m != 0 && (it.edge || it.events & libc::EPOLLET as u32 == 0)
            })
        } else {
            true
        }
    }
    pub fn is_cut(&self, a: u32, b: u32) -> bool {
        self.cut.iter().any(|&(x, y)| (x == a && y == b) || (x == b && y == a))
    }
}

fn delay(wd: &mut World) -> u64 {
    let c = wd.net.cfg.clone();
    let span = c.max_delay.saturating_sub(c.min_delay);
    // 16 steps of delay: 0 is the shortest
    let mut d = c.min_delay + span / 16 * wd.ch.weighted(17, 0.6);
    if c.p_slow > 0.0 && wd.ch.weighted(2, c.p_slow) == 1 {
        wd.count("fault:slow_segment");
        d += c.slow_delay;
    }
    d
}

pub fn push(wd: &mut World, conn: usize, to: usize, seg: Seg) {
    let d = delay(wd);
    let t = (wd.now + d).max(wd.net.conns[conn].ends[to].last + 1);
    wd.net.conns[conn].ends[to].last = t;
    if let Seg::Data(b) = &seg {
        wd.net.conns[conn].ends[to].flight += b.len();
    }
    wd.net.at(t, Ev::Deliver { conn, to, seg });
}

pub fn apply(wd: &mut World, e: Ev) {
    match e {
        Ev::Connect { obj } => {
            let Obj::Connecting { port } = wd.net.objs[obj] else { return };
            let me = wd.net.obj_node[obj];
            let l = wd.net.objs.iter().position(|o| matches!(o, Obj::Listener { port: p, .. } if *p == port));
            match l {
                Some(l) if !wd.net.is_cut(me, wd.net.obj_node[l]) => {
                    let ln = wd.net.obj_node[l];
                    let p = wd.net.next_port;
                    wd.net.next_port += 1;
                    let c = wd.net.conns.len();
                    let mut ends = [End::default(), End::default()];
                    ends[0].node = me;
                    ends[1].node = ln;
                    ends[0].obj = Some(obj);
                    wd.net.conns.push(Conn { ends, reset: false, ports: [p, port], held: [Vec::new(), Vec::new()] });
                    wd.net.objs[obj] = Obj::Stream { conn: c, side: 0 };
                    if let Obj::Listener { queue, .. } = &mut wd.net.objs[l] {
                        queue.push_back(c);
                    }
                    wd.net.edge(l);
                    wd.net.edge(obj);
                    wd.count("net:connections");
                    wd.event("connected", c as u64, port as u64, || format!("conn {c} to port {port}"));
                }
                Some(_) => {
                    // unreachable: retry as a SYN would be, until the partition heals
                    let t = wd.now + 200_000_000;
                    wd.net.at(t, Ev::Connect { obj });
                }
                None => {
                    wd.net.errs.insert(obj, libc::ECONNREFUSED);
                    wd.net.edge(obj);
                    wd.event("refused", port as u64, 0, || format!("port {port}"));
                }
            }
        }
        Ev::Deliver { conn, to, seg } => {
            let (a, b) = (wd.net.conns[conn].ends[0].node, wd.net.conns[conn].ends[1].node);
            if wd.net.is_cut(a, b) || !wd.net.conns[conn].held[to].is_empty() {
                wd.count("fault:partition_held");
                wd.net.conns[conn].held[to].push(seg);
                return;
            }
            deliver(wd, conn, to, seg);
        }
        Ev::Reset { conn } => reset(wd, conn),
    }
}

fn deliver(wd: &mut World, conn: usize, to: usize, seg: Seg) {
    let c = &mut wd.net.conns[conn];
    if c.reset {
        return;
    }
    let end = &mut c.ends[to];
    match seg {
        Seg::Data(b) => {
            end.flight -= b.len().min(end.flight);
            if end.closed {
                // data for a closed socket: a reset goes back, behind what is under way
                push(wd, conn, 1 - to, Seg::Rst);
                return;
            }
            end.rx.extend(&b);
            let n = b.len() as u64;
            let o = end.obj;
            let h = crate::choice::hash_bytes(3, &b);
            wd.event("deliver", conn as u64 ^ h, n, || format!("conn {conn} side {to} {n} bytes"));
            if let Some(o) = o {
                wd.net.edge(o);
            }
        }
        Seg::Rst => reset(wd, conn),
        Seg::Fin => {
            end.eof = true;
            let o = end.obj;
            wd.event("fin", conn as u64, to as u64, || format!("conn {conn} side {to}"));
            if let Some(o) = o {
                wd.net.edge(o);
            }
        }
    }
}

pub fn reset(wd: &mut World, conn: usize) {
    let c = &mut wd.net.conns[conn];
    if c.reset {
        return;
    }
    c.reset = true;
    let os: Vec<usize> = c.ends.iter().filter_map(|e| e.obj).collect();
    wd.event("reset", conn as u64, 0, || format!("conn {conn}"));
    for o in os {
        wd.net.edge(o);
    }
}

/// Deliver what was held back by a partition that is now healed.
pub fn heal_flush(wd: &mut World) {
    for c in 0..wd.net.conns.len() {
        let (a, b) = (wd.net.conns[c].ends[0].node, wd.net.conns[c].ends[1].node);
        if wd.net.is_cut(a, b) {
            continue;
        }
        for to in 0..2 {
            let segs = std::mem::take(&mut wd.net.conns[c].held[to]);
            for s in segs {
                deliver(wd, c, to, s);
            }
        }
    }
}

/// A node is gone. After a process crash its kernel resets the connections; after power loss peers
/// hear nothing.
pub fn node_down(wd: &mut World, node: u32, power: bool) {
    for o in 0..wd.net.objs.len() {
        if wd.net.obj_node[o] != node {
            continue;
        }
        match &wd.net.objs[o] {
            Obj::Stream { conn, side } => {
                let (conn, side) = (*conn, *side);
                wd.net.conns[conn].ends[side].closed = true;
                if !power && !wd.net.conns[conn].reset {
                    let t = wd.now + 100_000;
                    wd.net.at(t, Ev::Reset { conn });
                }
                wd.net.objs[o] = Obj::Inert;
            }
            Obj::Listener { queue, .. } => {
                let q: Vec<usize> = queue.iter().copied().collect();
                for c in q {
                    let t = wd.now + 100_000;
                    wd.net.at(t, Ev::Reset { conn: c });
                }
                wd.net.objs[o] = Obj::Inert;
            }
            Obj::Connecting { .. } | Obj::Unbound { .. } => wd.net.objs[o] = Obj::Inert,
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- calls (errno as Err)

pub fn sock_write(fd: i32, parts: &[&[u8]]) -> Result<usize, i32> {
    crate::world::point();
    let wd = w();
    let o = wd.net.obj_of(fd).ok_or(libc::EBADF)?;
    match &mut wd.net.objs[o] {
        Obj::Event { n } => {
            let mut b = [0u8; 8];
            b.copy_from_slice(&parts[0][..8]);
            *n = n.saturating_add(u64::from_le_bytes(b));
            wd.net.edge(o);
            Ok(8)
        }
        Obj::Stream { conn, side } => {
            let (conn, side) = (*conn, *side);
            let cap = wd.net.cfg.cap;
            let c = &wd.net.conns[conn];
            if c.reset || c.ends[side].wr_closed {
                return Err(libc::EPIPE);
            }
            let p = wd.net.cfg.p_reset;
            if p > 0.0 && wd.net.cfg.resets_left > 0 && wd.ch.weighted(2, p) == 1 {
                wd.net.cfg.resets_left -= 1;
                wd.count("fault:conn_reset");
                reset(wd, conn);
                return Err(libc::ECONNRESET);
            }
            let peer = &wd.net.conns[conn].ends[1 - side];
            let space = cap.saturating_sub(peer.rx.len() + peer.flight);
            if space == 0 {
                wd.count("net:backpressure");
                wd.net.conns[conn].ends[1 - side].held = true;
                return Err(libc::EAGAIN);
            }
            let total: usize = parts.iter().map(|p| p.len()).sum();
            let n = total.min(space);
            wd.net.conns[conn].ends[1 - side].held |= n == space;
            let mut buf: Vec<u8> = Vec::with_capacity(n);
            for p in parts {
                let k = (n - buf.len()).min(p.len());
                buf.extend_from_slice(&p[..k]);
            }
            let p = wd.net.cfg.p_cut;
            let mut rest = &buf[..];
            while !rest.is_empty() {
                let k = if p > 0.0 && rest.len() > 1 && wd.ch.weighted(2, p) == 1 {
                    wd.count("fault:segment_cut");
                    1 + wd.ch.uniform((rest.len() - 1).min(64) as u64) as usize
                } else {
                    rest.len()
                };
                push(wd, conn, 1 - side, Seg::Data(rest[..k].to_vec()));
                rest = &rest[k..];
            }
            wd.count("net:writes");
            wd.event("send", conn as u64, n as u64, || format!("conn {conn} side {side} {n} bytes"));
            Ok(n)
        }
        Obj::Inert => Err(libc::EPIPE),
        _ => Err(libc::ENOTCONN),
    }
}

pub fn sock_read(fd: i32, buf: &mut [u8]) -> Result<usize, i32> {
    crate::world::point();
    let wd = w();
    let o = wd.net.obj_of(fd).ok_or(libc::EBADF)?;
    match &mut wd.net.objs[o] {
        Obj::Event { n } => {
            if *n == 0 {
                return Err(libc::EAGAIN);
            }
            buf[..8].copy_from_slice(&n.to_le_bytes());
            *n = 0;
            Ok(8)
        }
        Obj::Stream { conn, side } => {
            let (conn, side) = (*conn, *side);
            let c = &mut wd.net.conns[conn];
            let reset = c.reset;
            let me = &mut c.ends[side];
            if !me.rx.is_empty() {
                let was_full = std::mem::take(&mut me.held);
                let n = buf.len().min(me.rx.len());
                for (i, b) in me.rx.drain(..n).enumerate() {
                    buf[i] = b;
                }
                let po = c.ends[1 - side].obj;
                if was_full {
                    if let Some(po) = po {
                        wd.net.edge(po);
                    }
                }
                return Ok(n);
            }
            if reset {
                return Err(libc::ECONNRESET);
            }
            if me.eof {
                return Ok(0);
            }
            Err(libc::EAGAIN)
        }
        Obj::Inert => Err(libc::EAGAIN),
        _ => Err(libc::ENOTCONN),
    }
}

pub fn sock_connect(fd: i32, port: u16) -> Result<(), i32> {
    let wd = w();
    let o = wd.net.obj_of(fd).ok_or(libc::EBADF)?;
    wd.net.objs[o] = Obj::Connecting { port };
    let d = delay(wd);
    let t = wd.now + d;
    wd.net.at(t, Ev::Connect { obj: o });
    wd.event("connect", port as u64, 0, || format!("port {port}"));
    crate::world::point();
    Err(libc::EINPROGRESS)
}

pub fn sock_bind(fd: i32, port: u16) -> Result<(), i32> {
    let wd = w();
    let o = wd.net.obj_of(fd).ok_or(libc::EBADF)?;
    let port = if port == 0 {
        wd.net.next_port += 1;
        wd.net.next_port
    } else {
        if wd.net.objs.iter().any(|x| matches!(x, Obj::Listener { port: p, .. } if *p == port)) {
            return Err(libc::EADDRINUSE);
        }
        port
    };
    wd.net.objs[o] = Obj::Unbound { port: Some(port) };
    Ok(())
}
pub fn sock_listen(fd: i32) -> Result<(), i32> {
    let wd = w();
    let o = wd.net.obj_of(fd).ok_or(libc::EBADF)?;
    let port = match wd.net.objs[o] {
        Obj::Unbound { port: Some(p) } => p,
        _ => {
            wd.net.next_port += 1;
            wd.net.next_port
        }
    };
    let node = wd.net.obj_node[o];
    wd.net.objs[o] = Obj::Listener { port, queue: VecDeque::new(), node };
    Ok(())
}
/// Returns (fd, peer port).
pub fn sock_accept(fd: i32) -> Result<(i32, u16), i32> {
    crate::world::point();
    let wd = w();
    let o = wd.net.obj_of(fd).ok_or(libc::EBADF)?;
    if let Obj::Listener { queue, .. } = &mut wd.net.objs[o] {
        if queue.is_empty() {
            return Err(libc::EAGAIN);
        }
        let (p, left) = (wd.net.cfg.p_accept, wd.net.cfg.accepts_left);
        if p > 0.0 && left > 0 && wd.ch.weighted(2, p) == 1 {
            wd.net.cfg.accepts_left -= 1;
            wd.count("fault:accept_error");
            if wd.ch.uniform(2) == 0 {
                return Err(libc::EMFILE);
            }
            let Obj::Listener { queue, .. } = &mut wd.net.objs[o] else { unreachable!() };
            let c = queue.pop_front().unwrap();
            reset(wd, c);
            return Err(libc::ECONNABORTED);
        }
        let Obj::Listener { queue, .. } = &mut wd.net.objs[o] else { unreachable!() };
        let c = queue.pop_front().unwrap();
        let node = wd.net.obj_node[o];
        let nfd = wd.net.new_fd(Obj::Stream { conn: c, side: 1 }, node);
        let no = wd.net.obj_of(nfd).unwrap();
        wd.net.conns[c].ends[1].obj = Some(no);
        let p = wd.net.conns[c].ports[0];
        wd.event("accept", c as u64, 0, || format!("conn {c}"));
        Ok((nfd, p))
    } else {
        Err(libc::EINVAL)
    }
}
/// (local port, remote port)
pub fn sock_names(fd: i32) -> Result<(u16, Option<u16>), i32> {
    let wd = w();
    let o = wd.net.obj_of(fd).ok_or(libc::EBADF)?;
    Ok(match &wd.net.objs[o] {
        Obj::Listener { port, .. } => (*port, None),
        Obj::Stream { conn, side } => {
            let c = &wd.net.conns[*conn];
            (c.ports[*side], Some(c.ports[1 - *side]))
        }
        Obj::Unbound { port } => (port.unwrap_or(0), None),
        _ => (0, None),
    })
}
pub fn shutdown(fd: i32, wr: bool) -> Result<(), i32> {
    let wd = w();
    let o = wd.net.obj_of(fd).ok_or(libc::EBADF)?;
    if let Obj::Stream { conn, side } = wd.net.objs[o] {
        if wr && !wd.net.conns[conn].ends[side].wr_closed {
            wd.net.conns[conn].ends[side].wr_closed = true;
            push(wd, conn, 1 - side, Seg::Fin);
        }
        Ok(())
    } else {
        Err(libc::ENOTCONN)
    }
}
pub fn close(fd: i32) -> bool {
    let wd = w();
    let Some(f) = wd.net.fds.remove(&fd) else { return false };
    for o in &mut wd.net.objs {
        if let Obj::Epoll { items } = o {
            items.remove(&fd);
        }
    }
    let o = f.obj;
    wd.net.refs[o] -= 1;
    if wd.net.refs[o] > 0 {
        return true;
    }
    match &wd.net.objs[o] {
        Obj::Stream { conn, side } => {
            let (conn, side) = (*conn, *side);
            wd.net.conns[conn].ends[side].closed = true;
            wd.net.conns[conn].ends[side].obj = None;
            if !wd.net.conns[conn].ends[side].wr_closed {
                wd.net.conns[conn].ends[side].wr_closed = true;
                push(wd, conn, 1 - side, Seg::Fin);
            }
        }
        Obj::Listener { queue, .. } => {
            let q: Vec<usize> = queue.iter().copied().collect();
            for c in q {
                reset(wd, c);
            }
        }
        _ => {}
    }
    wd.net.objs[o] = Obj::Inert;
    true
}

// ---------------------------------------------------------------- harness controls

pub fn partition(a: u32, b: u32) {
    let _g = crate::world::OsGuard::new();
    let wd = w();
    if !wd.net.is_cut(a, b) {
        wd.net.cut.push((a, b));
        wd.count("fault:partition");
        wd.event("partition", a as u64, b as u64, || format!("{a} | {b}"));
    }
}
pub fn heal_all() {
    let _g = crate::world::OsGuard::new();
    let wd = w();
    wd.net.cut.clear();
    wd.event("heal", 0, 0, String::new);
    heal_flush(wd);
}
/// Reset every connection between two nodes.
pub fn cut_connections(a: u32, b: u32) {
    let _g = crate::world::OsGuard::new();
    let wd = w();
    for c in 0..wd.net.conns.len() {
        let e = &wd.net.conns[c].ends;
        if (e[0].node, e[1].node) == (a, b) || (e[0].node, e[1].node) == (b, a) {
            if !wd.net.conns[c].reset {
                wd.count("fault:conn_reset");
                reset(wd, c);
            }
        }
    }
}
