//! libc symbols replaced in this executable. Outside a simulation they pass straight to the kernel / libc.
use crate::sched::*;
use crate::sys::{self, raw6, ret};
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::sync::atomic::{AtomicU32, Ordering};

// ------------------------------------------------------------------ threads
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<Create> = None;
static mut REAL_JOIN: Option<Join> = None;
static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut KEY_MADE: bool = false;

unsafe fn resolve() {
    if REAL_CREATE.is_none() {
        REAL_CREATE = Some(core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr())));
        REAL_JOIN = Some(core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr())));
    }
    if !KEY_MADE {
        KEY_MADE = true;
        libc::pthread_key_create(&mut EXIT_KEY, Some(exit_dtor));
    }
}
/// Resolves what is needed while the process is still single-threaded.
pub fn init() {
    unsafe { resolve() }
}

extern "C" {
    fn pthread_attr_getdetachstate(a: *const libc::pthread_attr_t, d: *mut c_int) -> c_int;
}
struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
}
const STACK: usize = 2 << 20;
static mut NEXT_STACK: usize = 0x3000_0000_0000;

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let st = Box::from_raw({
            let s = p as *mut Start;
            thread_begin((*s).tid);
            s
        });
        libc::pthread_setspecific(EXIT_KEY, (st.tid + 1) as *const c_void);
        let (f, arg) = (st.f, st.arg);
        drop(st);
        f(arg)
    }
}
/// runs after all thread-local destructors: only the last of the four rounds gives the baton away
unsafe extern "C" fn exit_dtor(v: *mut c_void) {
    let tid = v as usize - 1;
    if !ACTIVE {
        return;
    }
    T[tid].exit_round += 1;
    if T[tid].exit_round < 4 {
        libc::pthread_setspecific(EXIT_KEY, v);
    } else {
        thread_end();
    }
}

unsafe fn sim_spawn(out: *mut libc::pthread_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void, detached: bool) -> c_int {
    let tid = new_thread();
    if tid == usize::MAX {
        return libc::EAGAIN;
    }
    let st = Box::into_raw(Box::new(Start { f, arg, tid }));
    let mut attr: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    let base = NEXT_STACK;
    NEXT_STACK += STACK + 65536;
    let r = raw6(libc::SYS_mmap, base as i64, STACK as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64,
        (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED) as i64, -1, 0);
    if r < 0 {
        return libc::EAGAIN;
    }
    raw6(libc::SYS_mprotect, base as i64, 4096, 0, 0, 0, 0); // guard page
    libc::pthread_attr_setstack(&mut attr, base as *mut c_void, STACK);
    if detached {
        libc::pthread_attr_setdetachstate(&mut attr, libc::PTHREAD_CREATE_DETACHED);
    }
    let mut h: libc::pthread_t = 0;
    let rc = REAL_CREATE.unwrap()(&mut h, &attr, trampoline, st as *mut c_void);
    libc::pthread_attr_destroy(&mut attr);
    if rc == 0 {
        T[tid].handle = h;
        if !out.is_null() {
            *out = h;
        }
    }
    rc
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    resolve();
    if !ACTIVE {
        return REAL_CREATE.unwrap()(out, attr, f, arg);
    }
    let mut d: c_int = 0;
    if !attr.is_null() {
        pthread_attr_getdetachstate(attr, &mut d);
    }
    let rc = sim_spawn(out, f, arg, d == libc::PTHREAD_CREATE_DETACHED);
    callback_point();
    rc
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(h: libc::pthread_t, val: *mut *mut c_void) -> c_int {
    resolve();
    if ACTIVE {
        for i in 0..(*SIM).nthreads {
            if T[i].handle == h {
                join(i);
                break;
            }
        }
    }
    REAL_JOIN.unwrap()(h, val)
}

/// std insists on a guard page; the simulator's own stacks have one that glibc does not know of
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const libc::pthread_attr_t, out: *mut size_t) -> c_int {
    type F = unsafe extern "C" fn(*const libc::pthread_attr_t, *mut size_t) -> c_int;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        REAL = Some(core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_attr_getguardsize".as_ptr())));
    }
    let r = REAL.unwrap()(a, out);
    if r == 0 && *out == 0 {
        *out = 4096;
    }
    r
}

static NEVER: AtomicU32 = AtomicU32::new(0);
extern "C" fn root(p: *mut c_void) -> *mut c_void {
    let f: fn() = unsafe { core::mem::transmute(p) };
    f();
    finish();
}
pub unsafe fn run_root(body: fn()) -> ! {
    resolve();
    let mut h = 0;
    sim_spawn(&mut h, root, body as *mut c_void, false);
    CUR = 0;
    ACTIVE = true;
    T[0].word.store(1, Ordering::Release);
    sys::futex_wake(T[0].word.as_ptr());
    loop {
        sys::futex_wait(NEVER.as_ptr(), 0);
    }
}

// ------------------------------------------------------------------ syscall(): futex, getrandom, statx
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if ACTIVE {
        if n == libc::SYS_futex {
            let op = b & 0x7f;
            let deadline = |rel: bool| -> u64 {
                let ts = d as *const libc::timespec;
                if ts.is_null() {
                    0
                } else {
                    let ns = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                    let realtime = b & 256 != 0;
                    if rel {
                        ((*SIM).now + ns).max(1)
                    } else if realtime {
                        ns.saturating_sub(REALTIME_OFFSET).max(1)
                    } else {
                        ns.max(1)
                    }
                }
            };
            return match op {
                0 => ret(futex_wait(a as usize, c as u32, u32::MAX, deadline(true))),
                9 => ret(futex_wait(a as usize, c as u32, f as u32, deadline(false))),
                1 => {
                    let r = futex_wake(a as usize, c as u32, u32::MAX);
                    callback_point();
                    r
                }
                10 => {
                    let r = futex_wake(a as usize, c as u32, f as u32);
                    callback_point();
                    r
                }
                _ => fail("unsupported-futex", &format!("futex op {}", op)),
            };
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long;
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if SIM.is_null() {
        return ret(raw6(libc::SYS_getrandom, buf as i64, n as i64, flags as i64, 0, 0, 0)) as ssize_t;
    }
    for i in 0..n {
        *(buf as *mut u8).add(i) = (*SIM).hash_rng.next() as u8;
    }
    n as ssize_t
}

// ------------------------------------------------------------------ time
const REALTIME_OFFSET: u64 = 1_700_000_000_000_000_000;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !ACTIVE {
        return ret(raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as c_int;
    }
    let mut t = clock();
    if id == libc::CLOCK_REALTIME {
        t += REALTIME_OFFSET;
    }
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !ACTIVE {
        return ret(raw6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int;
    }
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    sleep_until((*SIM).now + ns);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !ACTIVE {
        let r = raw6(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0);
        return (-r) as c_int;
    }
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let abs = flags & libc::TIMER_ABSTIME != 0;
    let target = if abs {
        if id == libc::CLOCK_REALTIME { ns.saturating_sub(REALTIME_OFFSET) } else { ns }
    } else {
        (*SIM).now + ns
    };
    sleep_until(target);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    yield_now();
    0
}

// ------------------------------------------------------------------ files
use crate::fs;
macro_rules! path {
    ($p:expr) => {
        core::ffi::CStr::from_ptr($p).to_bytes()
    };
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if fs::is_sim(path!(p)) {
        return ret(fs::open(path!(p), flags)) as c_int;
    }
    ret(raw6(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fs::is_fd(fd) {
        return ret(fs::read(fd, buf as *mut u8, n)) as ssize_t;
    }
    ret(raw6(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fs::is_fd(fd) {
        if cnt == 0 {
            return 0;
        }
        return ret(fs::read(fd, (*iov).iov_base as *mut u8, (*iov).iov_len)) as ssize_t;
    }
    ret(raw6(libc::SYS_readv, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if fs::is_fd(fd) {
        return ret(fs::pread(fd, buf as *mut u8, n, off as usize)) as ssize_t;
    }
    ret(raw6(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fs::is_fd(fd) {
        return ret(fs::write(fd, core::slice::from_raw_parts(buf as *const u8, n))) as ssize_t;
    }
    ret(raw6(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    if fs::is_fd(fd) {
        return ret(fs::pwrite(fd, core::slice::from_raw_parts(buf as *const u8, n), off as usize)) as ssize_t;
    }
    ret(raw6(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if fs::is_fd(fd) {
        let mut all = Vec::new();
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(core::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return ret(fs::write(fd, &all)) as ssize_t;
    }
    ret(raw6(libc::SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fs::is_fd(fd) {
        return ret(fs::close(fd)) as c_int;
    }
    ret(raw6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fs::is_fd(fd) {
        return ret(fs::lseek(fd, off, whence));
    }
    ret(raw6(libc::SYS_lseek, fd as i64, off, whence as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if fs::is_fd(fd) {
        return ret(fs::ftruncate(fd, len as usize)) as c_int;
    }
    ret(raw6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fs::is_fd(fd) {
        return ret(fs::fsync(fd)) as c_int;
    }
    ret(raw6(libc::SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if fs::is_fd(fd) {
        return ret(fs::fstat(fd, st)) as c_int;
    }
    ret(raw6(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if fs::is_sim(path!(p)) {
        return ret(fs::stat(path!(p), st)) as c_int;
    }
    ret(raw6(libc::SYS_stat, p as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if fs::is_sim(path!(p)) {
        return ret(fs::stat(path!(p), st)) as c_int;
    }
    ret(raw6(libc::SYS_lstat, p as i64, st as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if fs::is_fd(dirfd) || (!p.is_null() && fs::is_sim(path!(p))) {
        let mut st: libc::stat64 = core::mem::zeroed();
        let r = if fs::is_fd(dirfd) { fs::fstat(dirfd, &mut st) } else { fs::stat(path!(p), &mut st) };
        if r < 0 {
            return ret(r) as c_int;
        }
        core::ptr::write_bytes(buf as *mut u8, 0, core::mem::size_of::<libc::statx>());
        (*buf).stx_mask = libc::STATX_BASIC_STATS;
        (*buf).stx_mode = st.st_mode as u16;
        (*buf).stx_size = st.st_size as u64;
        (*buf).stx_nlink = 1;
        (*buf).stx_ino = st.st_ino;
        (*buf).stx_blksize = 4096;
        return 0;
    }
    ret(raw6(libc::SYS_statx, dirfd as i64, p as i64, flags as i64, mask as i64, buf as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
    if fs::is_sim(path!(p)) {
        return ret(fs::mkdir(path!(p))) as c_int;
    }
    ret(raw6(libc::SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if fs::is_sim(path!(p)) {
        return ret(fs::unlink(path!(p))) as c_int;
    }
    ret(raw6(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if fs::is_sim(path!(a)) || fs::is_sim(path!(b)) {
        return ret(fs::rename(path!(a), path!(b))) as c_int;
    }
    ret(raw6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fs::is_fd(fd) {
        return 0;
    }
    ret(raw6(libc::SYS_fcntl, fd as i64, cmd as i64, arg as i64, 0, 0, 0)) as c_int
}
