//! The bodies of the interposed libc entry points.
use crate::fs::{self, norm, DataOp, Op, Open, PARTIAL};
use crate::net::{self, Item, Obj, FD0};
use crate::sys::{libc_ret, sc6, set_errno};
use crate::world::{self, active, in_sim, w, OsGuard, Wait};
use libc::*;
use std::ffi::CStr;

type Res = Result<i64, i32>;

#[inline]
unsafe fn ret(r: Res) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => set_errno(e),
    }
}
/// The simulated path, if the calling thread is simulated and the path is in the simulated tree.
unsafe fn simpath(p: *const c_char) -> Option<String> {
    if !active() || p.is_null() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b.starts_with(b"/sim/") || b == b"/sim" {
        let _g = OsGuard::new();
        return Some(norm(&String::from_utf8_lossy(b)));
    }
    if !b.starts_with(b"/") && !b.is_empty() {
        let _g = OsGuard::new();
        if let Some(c) = &w().cwd {
            return Some(norm(&format!("{c}/{}", String::from_utf8_lossy(b))));
        }
    }
    None
}
/// The same for a path relative to an open directory.
unsafe fn simpath_at(d: i32, p: *const c_char) -> Option<String> {
    if simfd(d) && !p.is_null() && *p != b'/' as c_char {
        let _g = OsGuard::new();
        let dir = w().fs.open.get(&d).map(|o| o.path.clone()).unwrap_or_else(|| "/sim/?".into());
        return Some(norm(&format!("{dir}/{}", CStr::from_ptr(p).to_string_lossy())));
    }
    simpath(p)
}
/// A change outside the simulated tree by a program that has nothing to change there.
fn outside() -> bool {
    active() && w().cwd.is_some()
}
#[inline]
fn simfd(fd: i32) -> bool {
    fd >= FD0 && in_sim()
}

// ---------------------------------------------------------------- files

pub unsafe fn open(path: *const c_char, flags: i32, mode: u32) -> i32 {
    if let Some(p) = simpath(path) {
        let _g = OsGuard::new();
        return ret(do_open(&p, flags, mode)) as i32;
    }
    if flags & (O_ACCMODE | O_CREAT | O_TRUNC) != 0 && outside() {
        return set_errno(EACCES) as i32;
    }
    if active() {
        let b = CStr::from_ptr(path).to_bytes();
        if b.starts_with(b"/proc/self/cgroup") {
            return set_errno(ENOENT) as i32;
        }
    }
    libc_ret(sc6(SYS_open, path as i64, (flags | O_LARGEFILE) as i64, mode as i64, 0, 0, 0)) as i32
}
pub unsafe fn openat(dfd: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    if let Some(p) = simpath_at(dfd, path) {
        let _g = OsGuard::new();
        return ret(do_open(&p, flags, mode)) as i32;
    }
    if flags & (O_ACCMODE | O_CREAT | O_TRUNC) != 0 && outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_openat, dfd as i64, path as i64, (flags | O_LARGEFILE) as i64, mode as i64, 0, 0)) as i32
}

fn do_open(p: &str, flags: i32, mode: u32) -> Res {
    let acc = flags & O_ACCMODE;
    let wr = acc == O_WRONLY || acc == O_RDWR;
    let op = if flags & (O_CREAT | O_TRUNC) != 0 { Op::Open } else if wr { Op::Open } else { Op::Read };
    fs::gate(op, p, 0)?;
    let wd = w();
    let now = wd.now;
    let ino = match wd.fs.lookup(p) {
        Ok(i) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                return Err(EEXIST);
            }
            if wd.fs.inodes[i].dir && wr {
                return Err(EISDIR);
            }
            if flags & O_DIRECTORY != 0 && !wd.fs.inodes[i].dir {
                return Err(ENOTDIR);
            }
            if flags & O_TRUNC != 0 && wr && !wd.fs.inodes[i].cur.is_empty() {
                wd.fs.data(i, DataOp::Trunc(0), now);
            }
            i
        }
        Err(ENOENT) if flags & O_CREAT != 0 => {
            let i = wd.fs.create(p)?;
            wd.fs.inodes[i].mode = mode & 0o7777 & !0o022;
            i
        }
        Err(e) => return Err(e),
    };
    let fd = wd.net.fd_alloc();
    wd.fs.open.insert(fd, Open { ino, pos: 0, append: flags & O_APPEND != 0, r: acc != O_WRONLY, wr, path: p.into() });
    Ok(fd as i64)
}

fn file_write(fd: i32, parts: &[&[u8]], at: Option<usize>) -> Res {
    let Some(o) = w().fs.open.get(&fd).cloned() else { return Err(EBADF) };
    if !o.wr {
        return Err(EBADF);
    }
    let total: usize = parts.iter().map(|p| p.len()).sum();
    let n = fs::gate(Op::Write, &o.path, total)?;
    let (n, fail) = (n & !PARTIAL, n & PARTIAL != 0);
    let wd = w();
    let mut buf = Vec::with_capacity(n);
    for p in parts {
        let k = (n - buf.len()).min(p.len());
        buf.extend_from_slice(&p[..k]);
    }
    let off = match at {
        Some(a) => a,
        None if o.append => wd.fs.inodes[o.ino].cur.len(),
        None => o.pos,
    };
    let now = wd.now;
    wd.fs.data(o.ino, DataOp::Write { off, data: buf }, now);
    if at.is_none() {
        if let Some(x) = wd.fs.open.get_mut(&fd) {
            x.pos = off + n;
        }
    }
    if fail {
        return Err(EIO);
    }
    Ok(n as i64)
}
fn file_read(fd: i32, buf: &mut [u8], at: Option<usize>) -> Res {
    let Some(o) = w().fs.open.get(&fd).cloned() else { return Err(EBADF) };
    fs::gate(Op::Read, &o.path, buf.len())?;
    let wd = w();
    if wd.fs.inodes[o.ino].dir {
        return Err(EISDIR);
    }
    let d = &wd.fs.inodes[o.ino].cur;
    let off = at.unwrap_or(o.pos);
    let n = d.len().saturating_sub(off).min(buf.len());
    if n > 0 {
        buf[..n].copy_from_slice(&d[off..off + n]);
    }
    if at.is_none() {
        if let Some(x) = wd.fs.open.get_mut(&fd) {
            x.pos = off + n;
        }
    }
    Ok(n as i64)
}

pub unsafe fn read(fd: i32, b: *mut c_void, n: usize) -> isize {
    if simfd(fd) {
        let _g = OsGuard::new();
        let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
        if w().fs.open.contains_key(&fd) {
            return ret(file_read(fd, s, None)) as isize;
        }
        return ret(net::sock_read(fd, s).map(|v| v as i64)) as isize;
    }
    libc_ret(sc6(SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
pub unsafe fn readv(fd: i32, v: *const iovec, c: i32) -> isize {
    if simfd(fd) {
        let mut tot = 0;
        for i in 0..c as usize {
            let io = &*v.add(i);
            if io.iov_len == 0 {
                continue;
            }
            let r = read(fd, io.iov_base, io.iov_len);
            if r < 0 {
                return if tot > 0 { tot } else { r };
            }
            tot += r;
            if (r as usize) < io.iov_len {
                break;
            }
        }
        return tot;
    }
    libc_ret(sc6(SYS_readv, fd as i64, v as i64, c as i64, 0, 0, 0)) as isize
}
pub unsafe fn pread(fd: i32, b: *mut c_void, n: usize, off: i64) -> isize {
    if simfd(fd) {
        let _g = OsGuard::new();
        return ret(file_read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as usize))) as isize;
    }
    libc_ret(sc6(SYS_pread64, fd as i64, b as i64, n as i64, off, 0, 0)) as isize
}
pub unsafe fn pwrite(fd: i32, b: *const c_void, n: usize, off: i64) -> isize {
    if simfd(fd) {
        let _g = OsGuard::new();
        return ret(file_write(fd, &[std::slice::from_raw_parts(b as *const u8, n)], Some(off as usize))) as isize;
    }
    libc_ret(sc6(SYS_pwrite64, fd as i64, b as i64, n as i64, off, 0, 0)) as isize
}
pub unsafe fn write(fd: i32, b: *const c_void, n: usize) -> isize {
    if simfd(fd) {
        let _g = OsGuard::new();
        let s = std::slice::from_raw_parts(b as *const u8, n);
        if w().fs.open.contains_key(&fd) {
            return ret(file_write(fd, &[s], None)) as isize;
        }
        return ret(net::sock_write(fd, &[s]).map(|v| v as i64)) as isize;
    }
    if active() && (fd == 1 || fd == 2) {
        let _g = OsGuard::new();
        let wd = w();
        if wd.stderr.len() < 1 << 16 {
            wd.stderr.extend_from_slice(std::slice::from_raw_parts(b as *const u8, n));
        }
        return n as isize;
    }
    libc_ret(sc6(SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
pub unsafe fn writev(fd: i32, v: *const iovec, c: i32) -> isize {
    if simfd(fd) {
        let _g = OsGuard::new();
        let mut parts: Vec<&[u8]> = Vec::new();
        for i in 0..c as usize {
            let io = &*v.add(i);
            if io.iov_len > 0 {
                parts.push(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
            }
        }
        if w().fs.open.contains_key(&fd) {
            return ret(file_write(fd, &parts, None)) as isize;
        }
        return ret(net::sock_write(fd, &parts).map(|v| v as i64)) as isize;
    }
    if active() && (fd == 1 || fd == 2) {
        let mut t = 0;
        for i in 0..c as usize {
            let io = &*v.add(i);
            t += write(fd, io.iov_base, io.iov_len);
        }
        return t;
    }
    libc_ret(sc6(SYS_writev, fd as i64, v as i64, c as i64, 0, 0, 0)) as isize
}
pub unsafe fn lseek(fd: i32, off: i64, wh: i32) -> i64 {
    if simfd(fd) {
        let _g = OsGuard::new();
        let wd = w();
        let Some(o) = wd.fs.open.get(&fd).cloned() else { return set_errno(ESPIPE) };
        let base = match wh {
            SEEK_SET => 0,
            SEEK_CUR => o.pos as i64,
            _ => wd.fs.inodes[o.ino].cur.len() as i64,
        };
        let p = base + off;
        if p < 0 {
            return set_errno(EINVAL);
        }
        wd.fs.open.get_mut(&fd).unwrap().pos = p as usize;
        return p;
    }
    libc_ret(sc6(SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0))
}
pub unsafe fn fsync(fd: i32) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        let Some(o) = w().fs.open.get(&fd).cloned() else { return set_errno(EINVAL) as i32 };
        if let Err(e) = fs::gate(Op::Sync, &o.path, 0) {
            return set_errno(e) as i32;
        }
        let wd = w();
        wd.count("fs:fsync");
        wd.fs.fsync(o.ino, &o.path);
        return 0;
    }
    libc_ret(sc6(SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as i32
}
pub unsafe fn ftruncate(fd: i32, len: i64) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        let Some(o) = w().fs.open.get(&fd).cloned() else { return set_errno(EINVAL) as i32 };
        if let Err(e) = fs::gate(Op::Meta, &o.path, 0) {
            return set_errno(e) as i32;
        }
        let wd = w();
        let now = wd.now;
        wd.fs.data(o.ino, DataOp::Trunc(len as usize), now);
        return 0;
    }
    libc_ret(sc6(SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as i32
}
pub unsafe fn fallocate(fd: i32, m: i32, off: i64, len: i64) -> i32 {
    if simfd(fd) {
        return set_errno(EOPNOTSUPP) as i32;
    }
    libc_ret(sc6(SYS_fallocate, fd as i64, m as i64, off, len, 0, 0)) as i32
}
pub unsafe fn close(fd: i32) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        if world::ended() {
            return 0;
        }
        let wd = w();
        if wd.fs.open.remove(&fd).is_some() {
            return 0;
        }
        net::close(fd);
        return 0;
    }
    libc_ret(sc6(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as i32
}
unsafe fn path_op(p: &str, f: impl FnOnce(&mut fs::Fs) -> Result<(), i32>) -> i32 {
    let _g = OsGuard::new();
    if let Err(e) = fs::gate(Op::Meta, p, 0) {
        return set_errno(e) as i32;
    }
    match f(&mut w().fs) {
        Ok(()) => 0,
        Err(e) => set_errno(e) as i32,
    }
}
pub unsafe fn rename(a: *const c_char, b: *const c_char) -> i32 {
    if let (Some(x), Some(y)) = (simpath(a), simpath(b)) {
        return path_op(&x, |f| f.rename(&x, &y));
    }
    if outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn renameat(d1: i32, a: *const c_char, d2: i32, b: *const c_char) -> i32 {
    if let (Some(x), Some(y)) = (simpath_at(d1, a), simpath_at(d2, b)) {
        return path_op(&x, |f| f.rename(&x, &y));
    }
    if outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_renameat, d1 as i64, a as i64, d2 as i64, b as i64, 0, 0)) as i32
}
pub unsafe fn unlink(a: *const c_char) -> i32 {
    if let Some(x) = simpath(a) {
        return path_op(&x, |f| f.unlink(&x, false));
    }
    if outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_unlink, a as i64, 0, 0, 0, 0, 0)) as i32
}
pub unsafe fn unlinkat(d: i32, a: *const c_char, fl: i32) -> i32 {
    if let Some(x) = simpath_at(d, a) {
        return path_op(&x, |f| f.unlink(&x, fl & AT_REMOVEDIR != 0));
    }
    if outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_unlinkat, d as i64, a as i64, fl as i64, 0, 0, 0)) as i32
}
pub unsafe fn mkdir(a: *const c_char, m: u32) -> i32 {
    if let Some(x) = simpath(a) {
        return path_op(&x, |f| {
            f.mkdir(&x)?;
            f.lookup(&x).map(|i| f.inodes[i].mode = m & 0o7777 & !0o022)
        });
    }
    if outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_mkdir, a as i64, m as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn rmdir(a: *const c_char) -> i32 {
    if let Some(x) = simpath(a) {
        return path_op(&x, |f| f.unlink(&x, true));
    }
    if outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_rmdir, a as i64, 0, 0, 0, 0, 0)) as i32
}
pub unsafe fn link(a: *const c_char, b: *const c_char) -> i32 {
    if simpath(a).is_some() {
        return set_errno(EPERM) as i32;
    }
    if outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_link, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn access(a: *const c_char, m: i32) -> i32 {
    if let Some(x) = simpath(a) {
        let _g = OsGuard::new();
        let _ = fs::gate(Op::Stat, &x, 0);
        return match w().fs.lookup(&x) {
            Ok(_) => 0,
            Err(e) => set_errno(e) as i32,
        };
    }
    libc_ret(sc6(SYS_access, a as i64, m as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn chmod(a: *const c_char, m: u32) -> i32 {
    if let Some(x) = simpath(a) {
        return path_op(&x, |f| f.lookup(&x).map(|i| f.inodes[i].mode = m & 0o7777));
    }
    if outside() {
        return set_errno(EACCES) as i32;
    }
    libc_ret(sc6(SYS_chmod, a as i64, m as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn fchmod(fd: i32, m: u32) -> i32 {
    if simfd(fd) {
        let Some(o) = w().fs.open.get(&fd).cloned() else { return set_errno(EBADF) as i32 };
        return path_op(&o.path, |f| {
            f.inodes[o.ino].mode = m & 0o7777;
            Ok(())
        });
    }
    libc_ret(sc6(SYS_fchmod, fd as i64, m as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn readlink(a: *const c_char, b: *mut c_char, n: usize) -> isize {
    if simpath(a).is_some() {
        return set_errno(EINVAL) as isize;
    }
    libc_ret(sc6(SYS_readlink, a as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
pub unsafe fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    if active() {
        let c = {
            let _g = OsGuard::new();
            w().cwd.clone()
        };
        if let Some(c) = c {
            if n < c.len() + 1 {
                set_errno(ERANGE);
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, b, c.len());
            *b.add(c.len()) = 0;
            return b;
        }
    }
    match libc_ret(sc6(SYS_getcwd, b as i64, n as i64, 0, 0, 0, 0)) {
        r if r < 0 => std::ptr::null_mut(),
        _ => b,
    }
}
pub unsafe fn realpath(a: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(x) = simpath(a) {
        let r = {
            let _g = OsGuard::new();
            w().fs.lookup(&x)
        };
        if let Err(e) = r {
            set_errno(e);
            return std::ptr::null_mut();
        }
        let p = if out.is_null() { malloc(x.len() + 1) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(x.as_ptr() as *const c_char, p, x.len());
        *p.add(x.len()) = 0;
        return p;
    }
    type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    let f = dlsym(RTLD_NEXT, b"realpath\0".as_ptr() as *const c_char);
    std::mem::transmute::<_, F>(f)(a, out)
}

struct Meta {
    dir: bool,
    size: u64,
    ino: u64,
    mtime: u64,
    mode: u32,
}
unsafe fn fill_stat(m: &Meta, st: *mut stat64) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    (*st).st_mode = if m.dir { S_IFDIR | m.mode } else { S_IFREG | m.mode };
    (*st).st_size = m.size as i64;
    (*st).st_ino = m.ino;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_blocks = (m.size as i64 + 511) / 512;
    (*st).st_mtime = (m.mtime / 1_000_000_000) as i64;
    (*st).st_mtime_nsec = (m.mtime % 1_000_000_000) as i64;
}
fn meta_of(i: usize) -> Meta {
    let wd = w();
    let n = &wd.fs.inodes[i];
    Meta { dir: n.dir, size: n.cur.len() as u64, ino: i as u64 + 1, mtime: (wd.wall_offset as u64).wrapping_add(n.mtime), mode: n.mode }
}
fn stat_path(x: &str) -> Result<Meta, i32> {
    let _g = OsGuard::new();
    fs::gate(Op::Stat, x, 0)?;
    let i = w().fs.lookup(x)?;
    Ok(meta_of(i))
}
fn stat_fd(fd: i32) -> Result<Meta, i32> {
    let _g = OsGuard::new();
    match w().fs.open.get(&fd) {
        Some(o) => Ok(meta_of(o.ino)),
        None => Ok(Meta { dir: false, size: 0, ino: fd as u64, mtime: 0, mode: 0o644 }),
    }
}
pub unsafe fn stat(a: *const c_char, st: *mut stat64, l: bool) -> i32 {
    if let Some(x) = simpath(a) {
        return match stat_path(&x) {
            Ok(m) => {
                fill_stat(&m, st);
                0
            }
            Err(e) => set_errno(e) as i32,
        };
    }
    libc_ret(sc6(if l { SYS_lstat } else { SYS_stat }, a as i64, st as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn fstat(fd: i32, st: *mut stat64) -> i32 {
    if simfd(fd) {
        return match stat_fd(fd) {
            Ok(m) => {
                fill_stat(&m, st);
                0
            }
            Err(e) => set_errno(e) as i32,
        };
    }
    libc_ret(sc6(SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn fstatat(d: i32, a: *const c_char, st: *mut stat64, fl: i32) -> i32 {
    if let Some(x) = simpath_at(d, a) {
        return match stat_path(&x) {
            Ok(m) => {
                fill_stat(&m, st);
                0
            }
            Err(e) => set_errno(e) as i32,
        };
    }
    libc_ret(sc6(SYS_newfstatat, d as i64, a as i64, st as i64, fl as i64, 0, 0)) as i32
}
pub unsafe fn statx(d: i32, a: *const c_char, fl: i32, mask: u32, sx: *mut libc::statx) -> i32 {
    let m = if simfd(d) && (a.is_null() || *a == 0) {
        Some(stat_fd(d))
    } else {
        simpath_at(d, a).map(|x| stat_path(&x))
    };
    match m {
        None => libc_ret(sc6(SYS_statx, d as i64, a as i64, fl as i64, mask as i64, sx as i64, 0)) as i32,
        Some(Err(e)) => set_errno(e) as i32,
        Some(Ok(m)) => {
            std::ptr::write_bytes(sx as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*sx).stx_mask = STATX_BASIC_STATS;
            (*sx).stx_mode = (if m.dir { S_IFDIR | m.mode } else { S_IFREG | m.mode }) as u16;
            (*sx).stx_size = m.size;
            (*sx).stx_ino = m.ino;
            (*sx).stx_nlink = 1;
            (*sx).stx_blksize = 4096;
            (*sx).stx_mtime.tv_sec = (m.mtime / 1_000_000_000) as i64;
            (*sx).stx_mtime.tv_nsec = (m.mtime % 1_000_000_000) as u32;
            0
        }
    }
}

// ---------------------------------------------------------------- directories

pub struct Dir {
    magic: u64,
    entries: Vec<(String, bool)>,
    pos: usize,
    ent: dirent64,
    fd: i32,
}
const DIR_MAGIC: u64 = 0x51D1_D1D1_0000_0001;

unsafe fn as_dir<'a>(d: *mut DIR) -> Option<&'a mut Dir> {
    if !in_sim() {
        return None;
    }
    let _g = OsGuard::new();
    if w().fs.dirs.contains_key(&(d as usize)) {
        let x = &mut *(d as *mut Dir);
        debug_assert_eq!(x.magic, DIR_MAGIC);
        Some(x)
    } else {
        None
    }
}
unsafe fn make_dir(x: &str, fd: i32) -> Result<*mut DIR, i32> {
    let _g = OsGuard::new();
    fs::gate(Op::Read, x, 0)?;
    let wd = w();
    let i = wd.fs.lookup(x)?;
    if !wd.fs.inodes[i].dir {
        return Err(ENOTDIR);
    }
    let pre = format!("{x}/");
    let entries: Vec<(String, bool)> = wd.fs.names.range(pre.clone()..).take_while(|(k, _)| k.starts_with(&pre)).filter(|(k, _)| !k[pre.len()..].contains('/')).map(|(k, i)| (k[pre.len()..].to_string(), wd.fs.inodes[*i].dir)).collect();
    let fd = if fd >= 0 {
        fd
    } else {
        let fd = wd.net.fd_alloc();
        wd.fs.open.insert(fd, Open { ino: i, pos: 0, append: false, r: true, wr: false, path: x.into() });
        fd
    };
    let d = Box::into_raw(Box::new(Dir { magic: DIR_MAGIC, entries, pos: 0, ent: std::mem::zeroed(), fd }));
    wd.fs.dirs.insert(d as usize, 1);
    Ok(d as *mut DIR)
}
unsafe fn real<F: Copy>(name: &str) -> F {
    let p = dlsym(RTLD_NEXT, name.as_ptr() as *const c_char);
    std::mem::transmute_copy(&p)
}
pub unsafe fn opendir(a: *const c_char) -> *mut DIR {
    if let Some(x) = simpath(a) {
        return match make_dir(&x, -1) {
            Ok(d) => d,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    real::<unsafe extern "C" fn(*const c_char) -> *mut DIR>("opendir\0")(a)
}
pub unsafe fn fdopendir(fd: i32) -> *mut DIR {
    if simfd(fd) {
        let p = w().fs.open.get(&fd).map(|o| o.path.clone()).unwrap_or_default();
        return match make_dir(&p, fd) {
            Ok(d) => d,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    real::<unsafe extern "C" fn(i32) -> *mut DIR>("fdopendir\0")(fd)
}
pub unsafe fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if let Some(x) = as_dir(d) {
        if x.pos >= x.entries.len() {
            return std::ptr::null_mut();
        }
        let (n, dir) = &x.entries[x.pos];
        x.ent.d_ino = x.pos as u64 + 1;
        x.ent.d_type = if *dir { DT_DIR } else { DT_REG };
        x.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
        let k = n.len().min(255);
        std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, x.ent.d_name.as_mut_ptr(), k);
        x.ent.d_name[k] = 0;
        x.pos += 1;
        return &mut x.ent;
    }
    real::<unsafe extern "C" fn(*mut DIR) -> *mut dirent64>("readdir64\0")(d)
}
pub unsafe fn closedir(d: *mut DIR) -> i32 {
    if as_dir(d).is_some() {
        let _g = OsGuard::new();
        w().fs.dirs.remove(&(d as usize));
        let b = Box::from_raw(d as *mut Dir);
        if b.fd >= 0 {
            w().fs.open.remove(&b.fd);
        }
        return 0;
    }
    real::<unsafe extern "C" fn(*mut DIR) -> i32>("closedir\0")(d)
}
pub unsafe fn dirfd(d: *mut DIR) -> i32 {
    if let Some(x) = as_dir(d) {
        return x.fd;
    }
    real::<unsafe extern "C" fn(*mut DIR) -> i32>("dirfd\0")(d)
}

pub unsafe fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void {
    if simfd(fd) {
        // a private snapshot of the simulated file
        let p = sc6(SYS_mmap, addr as i64, len as i64, (PROT_READ | PROT_WRITE) as i64, (MAP_PRIVATE | MAP_ANONYMOUS) as i64, -1, 0);
        if p < 0 {
            set_errno(-p as i32);
            return MAP_FAILED;
        }
        let _g = OsGuard::new();
        let wd = w();
        let Some(o) = wd.fs.open.get(&fd) else {
            set_errno(EBADF);
            return MAP_FAILED;
        };
        let d = &wd.fs.inodes[o.ino].cur;
        let off = off as usize;
        if off < d.len() {
            let n = (d.len() - off).min(len);
            std::ptr::copy_nonoverlapping(d.as_ptr().add(off), p as *mut u8, n);
        }
        return p as *mut c_void;
    }
    let r = sc6(SYS_mmap, addr as i64, len as i64, prot as i64, flags as i64, fd as i64, off);
    if r < 0 && r >= -4095 {
        set_errno(-r as i32);
        return MAP_FAILED;
    }
    r as *mut c_void
}

// ---------------------------------------------------------------- time and randomness

fn real_now(wd: &world::World) -> i64 {
    let skew = wd.nodes[wd.cur_node() as usize].wall_skew;
    wd.wall_offset + wd.now as i64 + skew
}
pub unsafe fn clock_gettime(c: clockid_t, ts: *mut timespec) -> i32 {
    if in_sim() && !world::ended() {
        let wd = w();
        wd.now += 40;
        if wd.trace.is_some() {
            let _g = OsGuard::new();
            wd.detail(|| format!("clock {c}"));
        }
        let t: i64 = match c {
            CLOCK_REALTIME | CLOCK_REALTIME_COARSE => real_now(wd),
            _ => wd.now as i64 + 1_000_000_000,
        };
        (*ts).tv_sec = t.div_euclid(1_000_000_000);
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
        return 0;
    }
    libc_ret(sc6(SYS_clock_gettime, c as i64, ts as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn nanosleep(req: *const timespec, rem: *mut timespec) -> i32 {
    if active() {
        let _g = OsGuard::new();
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let t = w().now + d;
        world::block(Wait::Sleep, Some(t));
        return 0;
    }
    libc_ret(sc6(SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn clock_nanosleep(c: clockid_t, fl: i32, req: *const timespec, rem: *mut timespec) -> i32 {
    if active() {
        let _g = OsGuard::new();
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let t = if fl & TIMER_ABSTIME != 0 { d.saturating_sub(1_000_000_000) } else { w().now + d };
        world::block(Wait::Sleep, Some(t));
        return 0;
    }
    -(sc6(SYS_clock_nanosleep, c as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32)
}
pub unsafe fn sched_yield() -> i32 {
    if active() {
        let _g = OsGuard::new();
        // give others a real chance: the caller is spinning
        let t = w().now;
        world::block(Wait::Stall, Some(t));
        return 0;
    }
    libc_ret(sc6(SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}
pub unsafe fn getrandom(b: *mut c_void, n: usize, fl: u32) -> isize {
    if in_sim() && !world::ended() {
        let wd = w();
        let s = std::slice::from_raw_parts_mut(b as *mut u8, n);
        for c in s.chunks_mut(8) {
            let v = wd.ch.entropy.next().to_le_bytes();
            let k = c.len();
            c.copy_from_slice(&v[..k]);
        }
        return n as isize;
    }
    libc_ret(sc6(SYS_getrandom, b as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}
pub unsafe fn sched_getaffinity(pid: i32, n: usize, set: *mut cpu_set_t) -> i32 {
    if active() {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..w().cfg.cpus {
            CPU_SET(i, &mut *set);
        }
        return 0;
    }
    let r = sc6(SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r >= 0 {
        if (r as usize) < n {
            std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
        }
        0
    } else {
        set_errno(-r as i32) as i32
    }
}

pub unsafe fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if active() {
        match n {
            SYS_futex => {
                let op = b as i32;
                let cmd = op & 0x7f;
                if matches!(cmd, FUTEX_WAIT | FUTEX_WAIT_BITSET | FUTEX_WAKE | FUTEX_WAKE_BITSET) {
                    let shift: u64 = 1_000_000_000;
                    // absolute monotonic deadlines carry the clock's origin offset
                    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
                    let mut p = d as *const timespec;
                    if !p.is_null() && cmd == FUTEX_WAIT_BITSET && op & FUTEX_CLOCK_REALTIME == 0 {
                        let t = ((*p).tv_sec as u64 * 1_000_000_000 + (*p).tv_nsec as u64).saturating_sub(shift);
                        ts.tv_sec = (t / 1_000_000_000) as i64;
                        ts.tv_nsec = (t % 1_000_000_000) as i64;
                        p = &ts;
                    }
                    let r = world::futex(a as usize, op, c as u32, if matches!(cmd, FUTEX_WAIT | FUTEX_WAIT_BITSET) { p } else { std::ptr::null() }, cmd == FUTEX_WAIT_BITSET, op & FUTEX_CLOCK_REALTIME != 0);
                    return libc_ret(r);
                }
            }
            SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as i64,
            SYS_statx => return statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut libc::statx) as i64,
            SYS_sched_yield => return sched_yield() as i64,
            SYS_close_range | SYS_gettid | SYS_membarrier | SYS_pidfd_open => {}
            SYS_io_uring_setup => return set_errno(ENOSYS),
            _ => {}
        }
    }
    libc_ret(sc6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- sockets, epoll

pub unsafe fn socket(dom: i32, ty: i32, proto: i32) -> i32 {
    if active() {
        let _g = OsGuard::new();
        if (ty & 0xf) != SOCK_STREAM || !(dom == AF_INET || dom == AF_INET6) {
            return set_errno(EAFNOSUPPORT) as i32;
        }
        let wd = w();
        let node = wd.cur_node();
        return wd.net.new_fd(Obj::Unbound { port: None }, node);
    }
    libc_ret(sc6(SYS_socket, dom as i64, ty as i64, proto as i64, 0, 0, 0)) as i32
}
pub unsafe fn socketpair(dom: i32, ty: i32, proto: i32, sv: *mut i32) -> i32 {
    if active() {
        let _g = OsGuard::new();
        let wd = w();
        let node = wd.cur_node();
        *sv = wd.net.new_fd(Obj::Inert, node);
        *sv.add(1) = wd.net.new_fd(Obj::Inert, node);
        return 0;
    }
    libc_ret(sc6(SYS_socketpair, dom as i64, ty as i64, proto as i64, sv as i64, 0, 0)) as i32
}
unsafe fn port_of(sa: *const sockaddr) -> u16 {
    // same place in sockaddr_in and sockaddr_in6
    u16::from_be((*(sa as *const sockaddr_in)).sin_port)
}
unsafe fn put_addr(sa: *mut sockaddr, len: *mut socklen_t, port: u16) {
    if sa.is_null() {
        return;
    }
    let mut a: sockaddr_in = std::mem::zeroed();
    a.sin_family = AF_INET as u16;
    a.sin_port = port.to_be();
    a.sin_addr.s_addr = u32::from_be_bytes([127, 0, 0, 1]).to_be();
    let n = (*len as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, sa as *mut u8, n);
    *len = std::mem::size_of::<sockaddr_in>() as u32;
}
pub unsafe fn bind(fd: i32, sa: *const sockaddr, l: socklen_t) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        return ret(net::sock_bind(fd, port_of(sa)).map(|_| 0)) as i32;
    }
    libc_ret(sc6(SYS_bind, fd as i64, sa as i64, l as i64, 0, 0, 0)) as i32
}
pub unsafe fn listen(fd: i32, n: i32) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        return ret(net::sock_listen(fd).map(|_| 0)) as i32;
    }
    libc_ret(sc6(SYS_listen, fd as i64, n as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn accept4(fd: i32, sa: *mut sockaddr, l: *mut socklen_t, fl: i32) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        return match net::sock_accept(fd) {
            Ok((f, p)) => {
                put_addr(sa, l, p);
                f
            }
            Err(e) => set_errno(e) as i32,
        };
    }
    libc_ret(sc6(SYS_accept4, fd as i64, sa as i64, l as i64, fl as i64, 0, 0)) as i32
}
pub unsafe fn connect(fd: i32, sa: *const sockaddr, l: socklen_t) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        return ret(net::sock_connect(fd, port_of(sa)).map(|_| 0)) as i32;
    }
    libc_ret(sc6(SYS_connect, fd as i64, sa as i64, l as i64, 0, 0, 0)) as i32
}
pub unsafe fn getsockname(fd: i32, sa: *mut sockaddr, l: *mut socklen_t) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        return match net::sock_names(fd) {
            Ok((p, _)) => {
                put_addr(sa, l, p);
                0
            }
            Err(e) => set_errno(e) as i32,
        };
    }
    libc_ret(sc6(SYS_getsockname, fd as i64, sa as i64, l as i64, 0, 0, 0)) as i32
}
pub unsafe fn getpeername(fd: i32, sa: *mut sockaddr, l: *mut socklen_t) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        return match net::sock_names(fd) {
            Ok((_, Some(p))) => {
                put_addr(sa, l, p);
                0
            }
            Ok(_) => set_errno(ENOTCONN) as i32,
            Err(e) => set_errno(e) as i32,
        };
    }
    libc_ret(sc6(SYS_getpeername, fd as i64, sa as i64, l as i64, 0, 0, 0)) as i32
}
pub unsafe fn setsockopt(fd: i32, lv: i32, o: i32, v: *const c_void, l: socklen_t) -> i32 {
    if simfd(fd) {
        return 0;
    }
    libc_ret(sc6(SYS_setsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as i32
}
pub unsafe fn getsockopt(fd: i32, lv: i32, o: i32, v: *mut c_void, l: *mut socklen_t) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        let mut x = 0i32;
        if lv == SOL_SOCKET && o == SO_ERROR {
            let wd = w();
            if let Some(ob) = wd.net.obj_of(fd) {
                x = wd.net.errs.get(&ob).copied().unwrap_or(0);
            }
        }
        std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
        std::ptr::copy_nonoverlapping(&x as *const _ as *const u8, v as *mut u8, (*l as usize).min(4));
        return 0;
    }
    libc_ret(sc6(SYS_getsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as i32
}
pub unsafe fn shutdown(fd: i32, how: i32) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        return ret(net::shutdown(fd, how != SHUT_RD).map(|_| 0)) as i32;
    }
    libc_ret(sc6(SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn send(fd: i32, b: *const c_void, n: usize, fl: i32) -> isize {
    if simfd(fd) {
        return write(fd, b, n);
    }
    libc_ret(sc6(SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, 0, 0)) as isize
}
pub unsafe fn recv(fd: i32, b: *mut c_void, n: usize, fl: i32) -> isize {
    if simfd(fd) {
        return read(fd, b, n);
    }
    libc_ret(sc6(SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, 0, 0)) as isize
}
pub unsafe fn sendmsg(fd: i32, m: *const msghdr, fl: i32) -> isize {
    if simfd(fd) {
        return writev(fd, (*m).msg_iov, (*m).msg_iovlen as i32);
    }
    libc_ret(sc6(SYS_sendmsg, fd as i64, m as i64, fl as i64, 0, 0, 0)) as isize
}
pub unsafe fn recvmsg(fd: i32, m: *mut msghdr, fl: i32) -> isize {
    if simfd(fd) {
        return readv(fd, (*m).msg_iov, (*m).msg_iovlen as i32);
    }
    libc_ret(sc6(SYS_recvmsg, fd as i64, m as i64, fl as i64, 0, 0, 0)) as isize
}
pub unsafe fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if simfd(fd) {
        let _g = OsGuard::new();
        let wd = w();
        if cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC {
            if let Some(o) = wd.fs.open.get(&fd).cloned() {
                let n = wd.net.fd_alloc();
                wd.fs.open.insert(n, o);
                return n;
            }
            if let Some(o) = wd.net.obj_of(fd) {
                let n = wd.net.fd_alloc();
                wd.net.fds.insert(n, net::Fd { obj: o });
                wd.net.refs[o] += 1;
                return n;
            }
            return set_errno(EBADF) as i32;
        }
        if cmd == F_GETFL {
            return O_RDWR | O_NONBLOCK;
        }
        return 0;
    }
    libc_ret(sc6(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as i32
}
pub unsafe fn ioctl(fd: i32, req: u64, arg: i64) -> i32 {
    if simfd(fd) {
        return 0;
    }
    libc_ret(sc6(SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0)) as i32
}
pub unsafe fn eventfd(init: u32, fl: i32) -> i32 {
    if active() {
        let _g = OsGuard::new();
        let wd = w();
        let node = wd.cur_node();
        return wd.net.new_fd(Obj::Event { n: init as u64 }, node);
    }
    libc_ret(sc6(SYS_eventfd2, init as i64, fl as i64, 0, 0, 0, 0)) as i32
}
pub unsafe fn epoll_create1(fl: i32) -> i32 {
    if active() {
        let _g = OsGuard::new();
        let wd = w();
        let node = wd.cur_node();
        return wd.net.new_fd(Obj::Epoll { items: Default::default() }, node);
    }
    libc_ret(sc6(SYS_epoll_create1, fl as i64, 0, 0, 0, 0, 0)) as i32
}
pub unsafe fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut epoll_event) -> i32 {
    if simfd(ep) {
        let _g = OsGuard::new();
        let wd = w();
        let Some(o) = wd.net.obj_of(ep) else { return set_errno(EBADF) as i32 };
        if let Obj::Epoll { items } = &mut wd.net.objs[o] {
            match op {
                EPOLL_CTL_DEL => {
                    items.remove(&fd);
                }
                EPOLL_CTL_ADD if items.contains_key(&fd) => return set_errno(EEXIST) as i32,
                _ => {
                    items.insert(fd, Item { events: (*ev).events, data: (*ev).u64, edge: true });
                }
            }
            return 0;
        }
        return set_errno(EINVAL) as i32;
    }
    libc_ret(sc6(SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0)) as i32
}
pub unsafe fn epoll_wait(ep: i32, evs: *mut epoll_event, max: i32, timeout: i32) -> i32 {
    if simfd(ep) {
        let _g = OsGuard::new();
        if timeout == 0 {
            world::point();
        } else if !w().net.epoll_ready(ep) {
            let dl = if timeout < 0 { None } else { Some(w().now + timeout as u64 * 1_000_000) };
            world::block(Wait::Epoll(ep), dl);
        } else {
            world::point();
        }
        let wd = w();
        let Some(o) = wd.net.obj_of(ep) else { return set_errno(EBADF) as i32 };
        let list: Vec<(i32, Item)> = match &wd.net.objs[o] {
            Obj::Epoll { items } => items.iter().map(|(k, v)| (*k, v.clone())).collect(),
            _ => return set_errno(EINVAL) as i32,
        };
        let mut n = 0;
        for (fd, it) in list {
            if n >= max {
                break;
            }
            let m = wd.net.readiness(fd) & (it.events | (EPOLLERR | EPOLLHUP) as u32);
            if m != 0 && (it.edge || it.events & EPOLLET as u32 == 0) {
                *evs.add(n as usize) = epoll_event { events: m, u64: it.data };
                n += 1;
                if let Obj::Epoll { items } = &mut wd.net.objs[o] {
                    if let Some(i) = items.get_mut(&fd) {
                        i.edge = false;
                    }
                }
            }
        }
        return n;
    }
    libc_ret(sc6(SYS_epoll_wait, ep as i64, evs as i64, max as i64, timeout as i64, 0, 0)) as i32
}
