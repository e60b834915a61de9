//! The simulated disk. Every inode has the content programs see and the content a power loss would
//! leave; every directory operation is pending until a sync makes it durable.
use crate::world::{w, World};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum DataOp {
    Write { off: usize, data: Vec<u8> },
    Trunc(usize),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub dir: bool,
    pub cur: Vec<u8>,
    pub dur: Vec<u8>,
    pub pend: Vec<DataOp>,
    pub mtime: u64,
    /// Permission bits; a change of them is durable at once.
    pub mode: u32,
}

#[derive(Clone, Debug)]
pub enum MetaOp {
    Link { path: String, ino: usize },
    Unlink { path: String },
    Rename { from: String, to: String },
}

#[derive(Clone, Debug)]
pub struct FsCfg {
    /// Probability, per call on a file, of an injected error.
    pub p_err: f64,
    pub p_short: f64,
    /// A torn write may also leave zeroes where its data should be.
    pub zeroing: bool,
    /// Probability, per mutating call, of the calling node crashing there.
    pub p_crash: f64,
    pub crashes_left: u32,
    /// Of the crashes, the share that loses unsynced data (power loss).
    pub p_power: f64,
    /// fsync of a file also commits the directory operations before it (as journalling file systems do).
    pub ordered: bool,
    /// Bytes that can still be written below "/sim/" (None: unlimited).
    pub space: Option<u64>,
    /// Only paths containing this are subject to faults ("" = all).
    pub fault_nodes: Vec<u32>,
    pub errs_left: u32,
}
impl Default for FsCfg {
    fn default() -> Self {
        FsCfg { p_err: 0.0, p_short: 0.0, zeroing: false, p_crash: 0.0, crashes_left: 0, p_power: 0.5, ordered: true, space: None, fault_nodes: Vec::new(), errs_left: u32::MAX }
    }
}

pub struct Fs {
    pub cfg: FsCfg,
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    pub dur_names: BTreeMap<String, usize>,
    pub pend: Vec<MetaOp>,
    pub open: BTreeMap<i32, Open>,
    pub dirs: BTreeMap<usize, usize>,
}

#[derive(Clone, Debug)]
pub struct Open {
    pub ino: usize,
    pub pos: usize,
    pub append: bool,
    pub r: bool,
    pub wr: bool,
    pub path: String,
}

fn parent(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &p[..i],
    }
}

/// Lexically normalise; all simulated paths are absolute.
pub fn norm(p: &str) -> String {
    let mut v: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

fn apply_meta(names: &mut BTreeMap<String, usize>, op: &MetaOp) {
    match op {
        MetaOp::Link { path, ino } => {
            names.insert(path.clone(), *ino);
        }
        MetaOp::Unlink { path } => {
            names.remove(path);
        }
        MetaOp::Rename { from, to } => {
            if let Some(i) = names.remove(from) {
                names.insert(to.clone(), i);
            }
            let pre = format!("{from}/");
            let moved: Vec<String> = names.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)).map(|(k, _)| k.clone()).collect();
            for k in moved {
                let i = names.remove(&k).unwrap();
                names.insert(format!("{to}/{}", &k[pre.len()..]), i);
            }
        }
    }
}
fn apply_data(buf: &mut Vec<u8>, op: &DataOp) {
    match op {
        DataOp::Write { off, data } => {
            if buf.len() < off + data.len() {
                buf.resize(off + data.len(), 0);
            }
            buf[*off..*off + data.len()].copy_from_slice(data);
        }
        DataOp::Trunc(n) => buf.resize(*n, 0),
    }
}

impl Fs {
    pub fn new() -> Fs {
        let mut f = Fs { cfg: FsCfg::default(), inodes: Vec::new(), names: BTreeMap::new(), dur_names: BTreeMap::new(), pend: Vec::new(), open: BTreeMap::new(), dirs: BTreeMap::new() };
        f.mkdir_durable("/sim");
        f
    }
    pub fn new_inode(&mut self, dir: bool) -> usize {
        self.inodes.push(Inode { dir, cur: Vec::new(), dur: Vec::new(), pend: Vec::new(), mtime: 0, mode: if dir { 0o755 } else { 0o644 } });
        self.inodes.len() - 1
    }
    pub fn mkdir_durable(&mut self, p: &str) {
        let i = self.new_inode(true);
        self.names.insert(p.into(), i);
        self.dur_names.insert(p.into(), i);
    }
    pub fn lookup(&self, p: &str) -> Result<usize, i32> {
        // every proper prefix must be a directory
        let par = parent(p);
        if par != "/" {
            match self.names.get(par) {
                None => return Err(libc::ENOENT),
                Some(&i) if !self.inodes[i].dir => return Err(libc::ENOTDIR),
                _ => {}
            }
        }
        self.names.get(p).copied().ok_or(libc::ENOENT)
    }
    fn meta(&mut self, op: MetaOp) {
        apply_meta(&mut self.names, &op);
        self.pend.push(op);
    }
    pub fn create(&mut self, p: &str) -> Result<usize, i32> {
        let par = parent(p);
        match self.names.get(par) {
            None => return Err(libc::ENOENT),
            Some(&i) if !self.inodes[i].dir => return Err(libc::ENOTDIR),
            _ => {}
        }
        let i = self.new_inode(false);
        self.meta(MetaOp::Link { path: p.into(), ino: i });
        Ok(i)
    }
    pub fn mkdir(&mut self, p: &str) -> Result<(), i32> {
        if self.names.contains_key(p) {
            return Err(libc::EEXIST);
        }
        match self.names.get(parent(p)) {
            None => return Err(libc::ENOENT),
            Some(&i) if !self.inodes[i].dir => return Err(libc::ENOTDIR),
            _ => {}
        }
        let i = self.new_inode(true);
        self.meta(MetaOp::Link { path: p.into(), ino: i });
        Ok(())
    }
    pub fn unlink(&mut self, p: &str, dir: bool) -> Result<(), i32> {
        let i = self.lookup(p)?;
        if self.inodes[i].dir != dir {
            return Err(if dir { libc::ENOTDIR } else { libc::EISDIR });
        }
        if dir {
            let pre = format!("{p}/");
            if self.names.range(pre.clone()..).next().map_or(false, |(k, _)| k.starts_with(&pre)) {
                return Err(libc::ENOTEMPTY);
            }
        }
        self.meta(MetaOp::Unlink { path: p.into() });
        Ok(())
    }
    pub fn rename(&mut self, a: &str, b: &str) -> Result<(), i32> {
        let i = self.lookup(a)?;
        match self.names.get(parent(b)) {
            None => return Err(libc::ENOENT),
            Some(&d) if !self.inodes[d].dir => return Err(libc::ENOTDIR),
            _ => {}
        }
        if let Some(&j) = self.names.get(b) {
            if i == j {
                return Ok(());
            }
            if self.inodes[j].dir && !self.inodes[i].dir {
                return Err(libc::EISDIR);
            }
            if !self.inodes[j].dir && self.inodes[i].dir {
                return Err(libc::ENOTDIR);
            }
        }
        self.meta(MetaOp::Rename { from: a.into(), to: b.into() });
        Ok(())
    }
    pub fn data(&mut self, ino: usize, op: DataOp, now: u64) {
        let n = &mut self.inodes[ino];
        apply_data(&mut n.cur, &op);
        n.pend.push(op);
        n.mtime = now;
    }
    pub fn sync_data(&mut self, ino: usize) {
        let n = &mut self.inodes[ino];
        n.dur = n.cur.clone();
        n.pend.clear();
    }
    fn top(p: &str) -> &str {
        // "/sim/<node>/..." -> "/sim/<node>"
        let rest = &p[1..];
        match rest.match_indices('/').nth(1) {
            Some((i, _)) => &p[..i + 1],
            None => p,
        }
    }
    /// Make the pending operations in the wanted directories durable. A rename between two directories
    /// is one change to both, so everything before it in the other directory goes with it.
    fn commit_meta(&mut self, want: impl Fn(&str) -> bool) {
        let mut more: BTreeSet<String> = BTreeSet::new();
        let mut take = vec![false; self.pend.len()];
        for (i, op) in self.pend.iter().enumerate().rev() {
            match op {
                MetaOp::Link { path, .. } | MetaOp::Unlink { path } => take[i] = want(parent(path)) || more.contains(parent(path)),
                MetaOp::Rename { from, to } => {
                    let (a, b) = (parent(from), parent(to));
                    if want(a) || want(b) || more.contains(a) || more.contains(b) {
                        take[i] = true;
                        more.insert(a.to_string());
                        more.insert(b.to_string());
                    }
                }
            }
        }
        let mut keep = Vec::new();
        for (op, t) in std::mem::take(&mut self.pend).into_iter().zip(take) {
            if t {
                apply_meta(&mut self.dur_names, &op);
            } else {
                keep.push(op);
            }
        }
        self.pend = keep;
    }
    pub fn fsync(&mut self, ino: usize, path: &str) {
        if self.inodes[ino].dir {
            let p = path.to_string();
            self.commit_meta(|d| d == p);
        } else {
            self.sync_data(ino);
            if self.cfg.ordered {
                let t = Fs::top(path).to_string();
                self.commit_meta(|d| Fs::top(d) == t);
            }
        }
    }
}

/// Lose power below `root`: what was not synced survives only as far as the chooser says.
pub fn power_loss(wd: &mut World, root: &str) {
    let pre = format!("{root}/");
    let mine = |p: &str| p.starts_with(&pre);
    let all = std::mem::take(&mut wd.fs.pend);
    let (ours, others): (Vec<MetaOp>, Vec<MetaOp>) = all.into_iter().partition(|op| match op {
        MetaOp::Link { path, .. } | MetaOp::Unlink { path } => mine(path),
        MetaOp::Rename { from, .. } => mine(from),
    });
    wd.fs.pend = others;
    let lost = wd.ch.weighted(ours.len() as u64 + 1, 0.7) as usize;
    if lost > 0 {
        wd.count_n("fault:lost_dir_op", lost as u64);
    }
    let kept = ours.len() - lost;
    for op in &ours[..kept] {
        apply_meta(&mut wd.fs.dur_names, op);
    }
    // an entry whose directory did not survive is out of reach
    let mut orphans: Vec<String> = Vec::new();
    for k in wd.fs.dur_names.keys().filter(|k| mine(k)) {
        let par = parent(k);
        if !wd.fs.dur_names.contains_key(par) || orphans.iter().any(|o| o == par) {
            orphans.push(k.clone());
        }
    }
    for k in orphans {
        wd.count("fault:lost_directory");
        wd.fs.dur_names.remove(&k);
    }
    // data
    let inos: Vec<usize> = wd.fs.dur_names.iter().filter(|(k, _)| mine(k)).map(|(_, i)| *i).collect();
    for i in inos {
        if wd.fs.inodes[i].dir || wd.fs.inodes[i].pend.is_empty() {
            continue;
        }
        let pend = std::mem::take(&mut wd.fs.inodes[i].pend);
        let mut buf = wd.fs.inodes[i].dur.clone();
        // 0: everything reached the disk, 1: nothing did, 2: a prefix (last one torn), 3: any subset
        let mode = wd.ch.weighted(if wd.fs.cfg.zeroing { 4 } else { 3 }, 0.8);
        match mode {
            0 => buf = wd.fs.inodes[i].cur.clone(),
            1 => wd.count("fault:lost_write"),
            2 => {
                let k = wd.ch.uniform(pend.len() as u64) as usize;
                for op in &pend[..k] {
                    apply_data(&mut buf, op);
                }
                match &pend[k] {
                    DataOp::Write { off, data } => {
                        let n = wd.ch.uniform(data.len() as u64 + 1) as usize;
                        wd.count("fault:torn_write");
                        apply_data(&mut buf, &DataOp::Write { off: *off, data: data[..n].to_vec() });
                    }
                    t => apply_data(&mut buf, t),
                }
            }
            _ => {
                for op in &pend {
                    match wd.ch.uniform(3) {
                        0 => apply_data(&mut buf, op),
                        1 => wd.count("fault:lost_write"),
                        _ => {
                            // the size change reached the disk but not the bytes
                            if let DataOp::Write { off, data } = op {
                                wd.count("fault:zeroed_write");
                                apply_data(&mut buf, &DataOp::Write { off: *off, data: vec![0; data.len()] });
                            }
                        }
                    }
                }
            }
        }
        wd.fs.inodes[i].cur = buf.clone();
        wd.fs.inodes[i].dur = buf;
    }
    let stale: Vec<String> = wd.fs.names.keys().filter(|k| mine(k)).cloned().collect();
    for k in stale {
        wd.fs.names.remove(&k);
    }
    let back: Vec<(String, usize)> = wd.fs.dur_names.iter().filter(|(k, _)| mine(k)).map(|(k, v)| (k.clone(), *v)).collect();
    wd.fs.names.extend(back);
    let h = dump_hash(wd, root);
    wd.event("power-loss", h, 0, || root.to_string());
}

pub fn dump_hash(wd: &World, root: &str) -> u64 {
    let pre = format!("{root}/");
    let mut h = 7;
    for (k, i) in &wd.fs.names {
        if k.starts_with(&pre) {
            h = crate::choice::hash_bytes(h, k.as_bytes());
            h = crate::choice::hash_bytes(h, &wd.fs.inodes[*i].cur);
        }
    }
    h
}

/// Harness view of a file.
pub fn peek(path: &str) -> Option<Vec<u8>> {
    let _g = crate::world::OsGuard::new();
    let f = &w().fs;
    f.names.get(path).filter(|i| !f.inodes[**i].dir).map(|i| f.inodes[*i].cur.clone())
}
/// Harness: the permission bits of a file or directory.
pub fn mode(path: &str) -> Option<u32> {
    let _g = crate::world::OsGuard::new();
    let f = &w().fs;
    f.names.get(path).map(|i| f.inodes[*i].mode)
}
pub fn set_mode(path: &str, mode: u32) {
    let _g = crate::world::OsGuard::new();
    let f = &mut w().fs;
    if let Some(&i) = f.names.get(path) {
        f.inodes[i].mode = mode;
    }
}
/// Harness: everything below `root` reaches the disk.
pub fn settle(root: &str) {
    let _g = crate::world::OsGuard::new();
    let f = &mut w().fs;
    let pre = format!("{root}/");
    f.commit_meta(|d| d == root || d.starts_with(&pre));
    let inos: Vec<usize> = f.names.iter().filter(|(k, _)| k.starts_with(&pre)).map(|(_, i)| *i).collect();
    for i in inos {
        f.sync_data(i);
    }
}
/// Harness: what relative paths start from; from then on nothing outside the simulated tree can be changed.
pub fn set_cwd(path: &str) {
    let _g = crate::world::OsGuard::new();
    w().cwd = Some(path.into());
}
pub fn list(root: &str) -> Vec<String> {
    let _g = crate::world::OsGuard::new();
    let pre = format!("{root}/");
    w().fs.names.keys().filter(|k| k.starts_with(&pre)).cloned().collect()
}
/// Harness: replace a file's bytes on the medium (both views).
pub fn poke(path: &str, data: &[u8]) {
    let _g = crate::world::OsGuard::new();
    let f = &mut w().fs;
    let i = match f.names.get(path) {
        Some(i) => *i,
        None => {
            let i = f.new_inode(false);
            f.names.insert(path.into(), i);
            f.dur_names.insert(path.into(), i);
            i
        }
    };
    f.inodes[i].cur = data.to_vec();
    f.inodes[i].dur = data.to_vec();
    f.inodes[i].pend.clear();
}
pub fn mkdirs(path: &str) {
    let _g = crate::world::OsGuard::new();
    let mut cur = String::new();
    for c in path.split('/').filter(|c| !c.is_empty()) {
        cur.push('/');
        cur.push_str(c);
        if !w().fs.names.contains_key(&cur) {
            w().fs.mkdir_durable(&cur);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Open,
    Read,
    Write,
    Sync,
    Meta,
    Stat,
}

/// The fault decision of one file-system call: Err(errno) to inject, Ok(limit) for the write size.
/// May crash the calling node (then never returns).
pub fn gate(op: Op, path: &str, len: usize) -> Result<usize, i32> {
    crate::world::point();
    let wd = w();
    let node = wd.cur_node();
    wd.event("fs", op as u64, len as u64, || format!("{op:?} {path} {len}"));
    let targeted = node != 0 && (wd.fs.cfg.fault_nodes.is_empty() || wd.fs.cfg.fault_nodes.contains(&node));
    if !targeted {
        return Ok(len);
    }
    if matches!(op, Op::Write | Op::Sync | Op::Meta | Op::Open) && wd.fs.cfg.crashes_left > 0 && wd.fs.cfg.p_crash > 0.0 {
        let p = wd.fs.cfg.p_crash;
        if wd.ch.weighted(2, p) == 1 {
            wd.fs.cfg.crashes_left -= 1;
            let power = { let pp = wd.fs.cfg.p_power; wd.ch.weighted(2, pp) == 1 };
            wd.event("crash-at", node as u64, power as u64, || format!("node {node} crashes in {op:?} {path}"));
            crate::node::crash(node, power);
        }
    }
    let p = wd.fs.cfg.p_err;
    if p > 0.0 && wd.fs.cfg.errs_left > 0 {
        let e = wd.ch.weighted(4, p);
        if e > 0 {
            wd.fs.cfg.errs_left -= 1;
            let errno = match (op, e) {
                (Op::Write, 2) | (Op::Open, 2) | (Op::Meta, 2) | (Op::Sync, 2) => libc::ENOSPC,
                _ => libc::EIO,
            };
            let what = match op {
                Op::Open => "fault:open_error",
                Op::Read => "fault:read_error",
                Op::Write => "fault:write_error",
                Op::Sync => "fault:sync_error",
                Op::Stat => "fault:stat_error",
                _ => "fault:rename_unlink_error",
            };
            wd.count(what);
            wd.event("io-error", errno as u64, 0, || format!("{op:?} {path} errno {errno}"));
            // a failing write may have put part of the data in the file
            if op == Op::Write && e == 3 && len > 1 {
                let n = 1 + wd.ch.uniform(len as u64 - 1) as usize;
                return Ok(n | PARTIAL);
            }
            return Err(errno);
        }
    }
    if op == Op::Write {
        if let Some(sp) = wd.fs.cfg.space {
            if (len as u64) > sp {
                wd.count("fault:disk_full");
                if sp == 0 {
                    return Err(libc::ENOSPC);
                }
                wd.fs.cfg.space = Some(0);
                return Ok(sp as usize);
            }
            wd.fs.cfg.space = Some(sp - len as u64);
        }
        let p = wd.fs.cfg.p_short;
        if p > 0.0 && len > 1 && wd.ch.weighted(2, p) == 1 {
            wd.count("fault:short_write");
            return Ok(1 + wd.ch.uniform(len as u64 - 1) as usize);
        }
    }
    Ok(len)
}
/// Flag in the size returned by `gate`: write that much, and make the next call fail.
pub const PARTIAL: usize = 1 << 62;
