// The interposed libc entry points; included by every harness binary.
#[global_allocator]
static SIM_ALLOC: sim::alloc::SimAlloc = sim::alloc::SimAlloc;
#[allow(invalid_runtime_symbol_definitions, clashing_extern_declarations)]
mod sim_exports {
    use libc::*;
    use sim::interpose as i;
    #[no_mangle]
    pub unsafe extern "C" fn open(p: *const c_char, f: i32, m: u32) -> i32 {
        i::open(p,f,m)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, f: i32, m: u32) -> i32 {
        i::open(p,f,m)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat(d: i32, p: *const c_char, f: i32, m: u32) -> i32 {
        i::openat(d,p,f,m)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(d: i32, p: *const c_char, f: i32, m: u32) -> i32 {
        i::openat(d,p,f,m)
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, b: *mut c_void, n: usize) -> isize {
        i::read(fd,b,n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn readv(fd: i32, v: *const iovec, c: i32) -> isize {
        i::readv(fd,v,c)
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, b: *const c_void, n: usize) -> isize {
        i::write(fd,b,n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, v: *const iovec, c: i32) -> isize {
        i::writev(fd,v,c)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
        i::fsync(fd)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
        i::fsync(fd)
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        i::close(fd)
    }
    #[no_mangle]
    pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> i32 {
        i::rename(a,b)
    }
    #[no_mangle]
    pub unsafe extern "C" fn renameat(d: i32, a: *const c_char, e: i32, b: *const c_char) -> i32 {
        i::renameat(d,a,e,b)
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(a: *const c_char) -> i32 {
        i::unlink(a)
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlinkat(d: i32, a: *const c_char, f: i32) -> i32 {
        i::unlinkat(d,a,f)
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(a: *const c_char, m: u32) -> i32 {
        i::mkdir(a,m)
    }
    #[no_mangle]
    pub unsafe extern "C" fn rmdir(a: *const c_char) -> i32 {
        i::rmdir(a)
    }
    #[no_mangle]
    pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> i32 {
        i::link(a,b)
    }
    #[no_mangle]
    pub unsafe extern "C" fn access(a: *const c_char, m: i32) -> i32 {
        i::access(a,m)
    }
    #[no_mangle]
    pub unsafe extern "C" fn chmod(a: *const c_char, m: u32) -> i32 {
        i::chmod(a,m)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fchmod(fd: i32, m: u32) -> i32 {
        i::fchmod(fd,m)
    }
    #[no_mangle]
    pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: usize) -> isize {
        i::readlink(a,b,n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn realpath(a: *const c_char, o: *mut c_char) -> *mut c_char {
        i::realpath(a,o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
        i::getcwd(b,n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(d: i32, a: *const c_char, f: i32, m: u32, s: *mut libc::statx) -> i32 {
        i::statx(d,a,f,m,s)
    }
    #[no_mangle]
    pub unsafe extern "C" fn opendir(a: *const c_char) -> *mut DIR {
        i::opendir(a)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fdopendir(fd: i32) -> *mut DIR {
        i::fdopendir(fd)
    }
    #[no_mangle]
    pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
        i::readdir64(d)
    }
    #[no_mangle]
    pub unsafe extern "C" fn closedir(d: *mut DIR) -> i32 {
        i::closedir(d)
    }
    #[no_mangle]
    pub unsafe extern "C" fn dirfd(d: *mut DIR) -> i32 {
        i::dirfd(d)
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void {
        i::mmap(a,l,p,f,fd,o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn mmap64(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void {
        i::mmap(a,l,p,f,fd,o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut timespec) -> i32 {
        i::clock_gettime(c,t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> i32 {
        i::nanosleep(a,b)
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, a: *const timespec, b: *mut timespec) -> i32 {
        i::clock_nanosleep(c,f,a,b)
    }
    #[no_mangle]
    pub unsafe extern "C" fn sched_yield() -> i32 {
        i::sched_yield()
    }
    #[no_mangle]
    pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, f: u32) -> isize {
        i::getrandom(b,n,f)
    }
    #[no_mangle]
    pub unsafe extern "C" fn sched_getaffinity(p: i32, n: usize, s: *mut cpu_set_t) -> i32 {
        i::sched_getaffinity(p,n,s)
    }
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        i::syscall(n,a,b,c,d,e,f)
    }
    #[no_mangle]
    pub unsafe extern "C" fn socket(a: i32, b: i32, c: i32) -> i32 {
        i::socket(a,b,c)
    }
    #[no_mangle]
    pub unsafe extern "C" fn socketpair(a: i32, b: i32, c: i32, d: *mut i32) -> i32 {
        i::socketpair(a,b,c,d)
    }
    #[no_mangle]
    pub unsafe extern "C" fn bind(f: i32, a: *const sockaddr, l: u32) -> i32 {
        i::bind(f,a,l)
    }
    #[no_mangle]
    pub unsafe extern "C" fn listen(f: i32, n: i32) -> i32 {
        i::listen(f,n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn accept4(f: i32, a: *mut sockaddr, l: *mut u32, g: i32) -> i32 {
        i::accept4(f,a,l,g)
    }
    #[no_mangle]
    pub unsafe extern "C" fn connect(f: i32, a: *const sockaddr, l: u32) -> i32 {
        i::connect(f,a,l)
    }
    #[no_mangle]
    pub unsafe extern "C" fn getsockname(f: i32, a: *mut sockaddr, l: *mut u32) -> i32 {
        i::getsockname(f,a,l)
    }
    #[no_mangle]
    pub unsafe extern "C" fn getpeername(f: i32, a: *mut sockaddr, l: *mut u32) -> i32 {
        i::getpeername(f,a,l)
    }
    #[no_mangle]
    pub unsafe extern "C" fn setsockopt(f: i32, l: i32, o: i32, v: *const c_void, n: u32) -> i32 {
        i::setsockopt(f,l,o,v,n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn getsockopt(f: i32, l: i32, o: i32, v: *mut c_void, n: *mut u32) -> i32 {
        i::getsockopt(f,l,o,v,n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn shutdown(f: i32, h: i32) -> i32 {
        i::shutdown(f,h)
    }
    #[no_mangle]
    pub unsafe extern "C" fn send(f: i32, b: *const c_void, n: usize, g: i32) -> isize {
        i::send(f,b,n,g)
    }
    #[no_mangle]
    pub unsafe extern "C" fn recv(f: i32, b: *mut c_void, n: usize, g: i32) -> isize {
        i::recv(f,b,n,g)
    }
    #[no_mangle]
    pub unsafe extern "C" fn sendmsg(f: i32, m: *const msghdr, g: i32) -> isize {
        i::sendmsg(f,m,g)
    }
    #[no_mangle]
    pub unsafe extern "C" fn recvmsg(f: i32, m: *mut msghdr, g: i32) -> isize {
        i::recvmsg(f,m,g)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fcntl(f: i32, c: i32, a: i64) -> i32 {
        i::fcntl(f,c,a)
    }
    #[no_mangle]
    pub unsafe extern "C" fn ioctl(f: i32, r: u64, a: i64) -> i32 {
        i::ioctl(f,r,a)
    }
    #[no_mangle]
    pub unsafe extern "C" fn eventfd(n: u32, f: i32) -> i32 {
        i::eventfd(n,f)
    }
    #[no_mangle]
    pub unsafe extern "C" fn epoll_create1(f: i32) -> i32 {
        i::epoll_create1(f)
    }
    #[no_mangle]
    pub unsafe extern "C" fn epoll_ctl(e: i32, o: i32, f: i32, v: *mut epoll_event) -> i32 {
        i::epoll_ctl(e,o,f,v)
    }
    #[no_mangle]
    pub unsafe extern "C" fn epoll_wait(e: i32, v: *mut epoll_event, m: i32, t: i32) -> i32 {
        i::epoll_wait(e,v,m,t)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread(f: i32, b: *mut c_void, n: usize, o: i64) -> isize {
        i::pread(f, b, n, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pread64(f: i32, b: *mut c_void, n: usize, o: i64) -> isize {
        i::pread(f, b, n, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite(f: i32, b: *const c_void, n: usize, o: i64) -> isize {
        i::pwrite(f, b, n, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(f: i32, b: *const c_void, n: usize, o: i64) -> isize {
        i::pwrite(f, b, n, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek(f: i32, o: i64, w: i32) -> i64 {
        i::lseek(f, o, w)
    }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(f: i32, o: i64, w: i32) -> i64 {
        i::lseek(f, o, w)
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(f: i32, o: i64) -> i32 {
        i::ftruncate(f, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(f: i32, o: i64) -> i32 {
        i::ftruncate(f, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fallocate(f: i32, m: i32, o: i64, l: i64) -> i32 {
        i::fallocate(f, m, o, l)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fallocate64(f: i32, m: i32, o: i64, l: i64) -> i32 {
        i::fallocate(f, m, o, l)
    }
    #[no_mangle]
    pub unsafe extern "C" fn stat(a: *const c_char, s: *mut stat64) -> i32 {
        i::stat(a, s, false)
    }
    #[no_mangle]
    pub unsafe extern "C" fn stat64(a: *const c_char, s: *mut stat64) -> i32 {
        i::stat(a, s, false)
    }
    #[no_mangle]
    pub unsafe extern "C" fn lstat(a: *const c_char, s: *mut stat64) -> i32 {
        i::stat(a, s, true)
    }
    #[no_mangle]
    pub unsafe extern "C" fn lstat64(a: *const c_char, s: *mut stat64) -> i32 {
        i::stat(a, s, true)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fstat(f: i32, s: *mut stat64) -> i32 {
        i::fstat(f, s)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fstat64(f: i32, s: *mut stat64) -> i32 {
        i::fstat(f, s)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fstatat(d: i32, a: *const c_char, s: *mut stat64, f: i32) -> i32 {
        i::fstatat(d, a, s, f)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fstatat64(d: i32, a: *const c_char, s: *mut stat64, f: i32) -> i32 {
        i::fstatat(d, a, s, f)
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, g: *mut c_void) -> i32 {
        if sim::world::active() { sim::world::sim_pthread_create(t, a, f, g) } else { sim::world::real_pthread_create(t, a, f, g) }
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> i32 {
        if sim::world::active() { sim::world::sim_pthread_join(t, r) } else { sim::world::real_pthread_join(t, r) }
    }
}
