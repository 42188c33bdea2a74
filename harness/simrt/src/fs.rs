//! In-memory file system for paths under /simfs, with injected faults decided by the seed.
use crate::sched::{note_fault, record, replay_lookup, ACTIVE, SIM};
use std::collections::BTreeMap;

const FD0: i32 = 1_000_000;
pub const PREFIX: &[u8] = b"/simfs";

#[derive(Clone, Debug)]
pub enum Node {
    Dir,
    File(Vec<u8>),
}
struct Fd {
    path: Vec<u8>,
    pos: usize,
    append: bool,
    open: bool,
    readable: bool,
    writable: bool,
}
/// What may go wrong, with probabilities of 65536 per operation, and the size of the disk.
#[derive(Clone, Debug, Default)]
pub struct FaultPlan {
    pub p_short: u64,
    pub p_eintr: u64,
    pub p_eio_read: u64,
    pub p_eio_write: u64,
    pub p_open: u64,
    pub p_mkdir: u64,
    pub p_stat: u64,
    pub p_close: u64,
    /// bytes that can be written before ENOSPC
    pub capacity: Option<usize>,
    /// fail this operation index (counted over fallible operations) for good
    pub fail_at: Option<(u64, i32)>,
}
pub struct Fs {
    pub nodes: BTreeMap<Vec<u8>, Node>,
    fds: Vec<Fd>,
    pub plan: FaultPlan,
    pub ops: u64,
    pub used: usize,
    /// an error was reported to the library (a persistent failure)
    pub hard_errors: u64,
    pub soft_faults: u64,
    pub log: Vec<String>,
    pub enospc: bool,
}
static mut FS: *mut Fs = core::ptr::null_mut();
fn fs() -> &'static mut Fs {
    unsafe {
        if FS.is_null() {
            FS = Box::into_raw(Box::new(Fs { nodes: BTreeMap::new(), fds: Vec::new(), plan: FaultPlan::default(), ops: 0, used: 0, hard_errors: 0, soft_faults: 0, log: Vec::new(), enospc: false }));
            (*FS).nodes.insert(PREFIX.to_vec(), Node::Dir);
        }
        &mut *FS
    }
}
pub fn handle() -> &'static mut Fs {
    fs()
}
/// Resolves `.`, `..` and repeated slashes.
fn norm(p: &[u8]) -> Vec<u8> {
    let mut parts: Vec<&[u8]> = Vec::new();
    for c in p.split(|&b| b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    let mut r = Vec::new();
    for c in parts {
        r.push(b'/');
        r.extend_from_slice(c);
    }
    r
}
pub fn is_sim(p: &[u8]) -> bool {
    p.starts_with(PREFIX) && (p.len() == PREFIX.len() || p[PREFIX.len()] == b'/')
}
pub fn is_fd(fd: i32) -> bool {
    fd >= FD0
}
/// Is this fault injected at the current operation? `code` identifies the fault in the decision log.
fn inject(f: &mut Fs, p: u64, code: u64, val_range: u64) -> Option<u64> {
    unsafe {
        if SIM.is_null() || !ACTIVE {
            return None;
        }
        let s = &mut *SIM;
        let key = f.ops * 16 + code;
        if s.cfg.replay {
            return replay_lookup(5, key);
        }
        if p > 0 && s.rng.below(65536) < p {
            let v = if val_range > 0 { s.rng.below(val_range) } else { 0 };
            record(5, key, v);
            Some(v)
        } else {
            None
        }
    }
}
fn fail_here(f: &mut Fs) -> Option<i32> {
    match f.plan.fail_at {
        Some((k, e)) if k == f.ops => Some(e),
        _ => None,
    }
}
fn logop(f: &mut Fs, s: String) {
    if f.log.len() < 400 {
        f.log.push(s);
    }
}
fn parent(p: &[u8]) -> Vec<u8> {
    let i = p.iter().rposition(|&c| c == b'/').unwrap_or(0);
    p[..i].to_vec()
}
const EINTR: i64 = -(libc::EINTR as i64);
const EIO: i64 = -(libc::EIO as i64);
const ENOENT: i64 = -(libc::ENOENT as i64);
const EBADF: i64 = -(libc::EBADF as i64);

pub fn open(p: &[u8], flags: i32) -> i64 {
    let f = fs();
    f.ops += 1;
    let p = norm(p);
    if inject(f, f.plan.p_eintr, 0, 0).is_some() {
        note_fault(26);
        f.soft_faults += 1;
        return EINTR;
    }
    if let Some(v) = inject(f, f.plan.p_open, 1, 4) {
        note_fault(9);
        f.hard_errors += 1;
        let e = [libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOSPC][v as usize & 3];
        logop(f, format!("open {} -> errno {}", String::from_utf8_lossy(&p), e));
        return -(e as i64);
    }
    if let Some(e) = fail_here(f) {
        note_fault(9);
        f.hard_errors += 1;
        return -(e as i64);
    }
    let acc = flags & libc::O_ACCMODE;
    let writable = acc != libc::O_RDONLY;
    let up = parent(&p);
    match f.nodes.get(&up) {
        Some(Node::Dir) => {}
        Some(_) => return -(libc::ENOTDIR as i64),
        None => return ENOENT,
    }
    match f.nodes.get_mut(&p) {
        Some(Node::Dir) => {
            if writable {
                return -(libc::EISDIR as i64);
            }
        }
        Some(Node::File(d)) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return -(libc::EEXIST as i64);
            }
            if flags & libc::O_TRUNC != 0 && writable {
                f.used -= d.len().min(f.used);
                d.clear();
            }
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return ENOENT;
            }
            f.nodes.insert(p.clone(), Node::File(Vec::new()));
        }
    }
    logop(f, format!("open {} flags {:#x}", String::from_utf8_lossy(&p), flags));
    f.fds.push(Fd { path: p, pos: 0, append: flags & libc::O_APPEND != 0, open: true, readable: acc != libc::O_WRONLY, writable });
    (FD0 + f.fds.len() as i32 - 1) as i64
}
fn fd(f: &mut Fs, n: i32) -> Option<usize> {
    let i = (n - FD0) as usize;
    if i < f.fds.len() && f.fds[i].open { Some(i) } else { None }
}
pub unsafe fn read(n: i32, buf: *mut u8, len: usize) -> i64 {
    let f = fs();
    f.ops += 1;
    let Some(i) = fd(f, n) else { return EBADF };
    if !f.fds[i].readable {
        return EBADF;
    }
    if inject(f, f.plan.p_eintr, 0, 0).is_some() {
        note_fault(7);
        f.soft_faults += 1;
        return EINTR;
    }
    if inject(f, f.plan.p_eio_read, 1, 0).is_some() || fail_here(f).is_some() {
        note_fault(8);
        f.hard_errors += 1;
        logop(f, "read -> EIO".into());
        return EIO;
    }
    let (path, pos) = (f.fds[i].path.clone(), f.fds[i].pos);
    let avail = match f.nodes.get(&path) {
        Some(Node::File(d)) => d.len().saturating_sub(pos),
        Some(Node::Dir) => return -(libc::EISDIR as i64),
        None => 0,
    };
    let mut k = len.min(avail);
    if k > 1 {
        if let Some(v) = inject(f, f.plan.p_short, 2, (k - 1) as u64) {
            note_fault(6);
            f.soft_faults += 1;
            k = 1 + (v as usize).min(k - 2);
        }
    }
    if let Some(Node::File(d)) = f.nodes.get(&path) {
        core::ptr::copy_nonoverlapping(d.as_ptr().add(pos.min(d.len())), buf, k);
    }
    f.fds[i].pos += k;
    k as i64
}
pub unsafe fn pread(n: i32, buf: *mut u8, len: usize, off: usize) -> i64 {
    let f = fs();
    let Some(i) = fd(f, n) else { return EBADF };
    let save = f.fds[i].pos;
    f.fds[i].pos = off;
    let r = read(n, buf, len);
    fs().fds[i].pos = save;
    r
}
pub fn write(n: i32, b: &[u8]) -> i64 {
    let f = fs();
    f.ops += 1;
    let Some(i) = fd(f, n) else { return EBADF };
    if !f.fds[i].writable {
        return EBADF;
    }
    if inject(f, f.plan.p_eintr, 0, 0).is_some() {
        note_fault(11);
        f.soft_faults += 1;
        return EINTR;
    }
    if inject(f, f.plan.p_eio_write, 1, 0).is_some() {
        note_fault(13);
        f.hard_errors += 1;
        logop(f, "write -> EIO".into());
        return EIO;
    }
    if let Some(e) = fail_here(f) {
        note_fault(if e == libc::ENOSPC { 12 } else { 13 });
        f.hard_errors += 1;
        logop(f, format!("write of {} bytes -> errno {}", b.len(), e));
        return -(e as i64);
    }
    let mut k = b.len();
    if k > 1 {
        if let Some(v) = inject(f, f.plan.p_short, 2, (k - 1) as u64) {
            note_fault(10);
            f.soft_faults += 1;
            k = 1 + (v as usize).min(k - 2);
        }
    }
    if let Some(cap) = f.plan.capacity {
        let room = cap.saturating_sub(f.used);
        if room == 0 && k > 0 {
            note_fault(12);
            f.hard_errors += 1;
            f.enospc = true;
            logop(f, format!("write of {} bytes -> ENOSPC", b.len()));
            return -(libc::ENOSPC as i64);
        }
        if k > room {
            note_fault(10);
            k = room;
        }
    }
    let path = f.fds[i].path.clone();
    if let Some(Node::File(d)) = f.nodes.get_mut(&path) {
        let pos = if f.fds[i].append { d.len() } else { f.fds[i].pos };
        if d.len() < pos + k {
            f.used += pos + k - d.len();
            d.resize(pos + k, 0);
        }
        d[pos..pos + k].copy_from_slice(&b[..k]);
        f.fds[i].pos = pos + k;
    }
    logop(f, format!("write {} of {} bytes", k, b.len()));
    k as i64
}
pub fn pwrite(n: i32, b: &[u8], off: usize) -> i64 {
    let f = fs();
    let Some(i) = fd(f, n) else { return EBADF };
    let save = f.fds[i].pos;
    f.fds[i].pos = off;
    let r = write(n, b);
    fs().fds[i].pos = save;
    r
}
pub fn close(n: i32) -> i64 {
    let f = fs();
    f.ops += 1;
    let Some(i) = fd(f, n) else { return EBADF };
    f.fds[i].open = false;
    if inject(f, f.plan.p_close, 3, 0).is_some() {
        // an error at close loses nothing here: Rust's File ignores it by design
        note_fault(22);
        return EIO;
    }
    0
}
pub fn lseek(n: i32, off: i64, whence: i32) -> i64 {
    let f = fs();
    let Some(i) = fd(f, n) else { return EBADF };
    let len = match f.nodes.get(&f.fds[i].path) {
        Some(Node::File(d)) => d.len() as i64,
        _ => 0,
    };
    let p = match whence {
        libc::SEEK_SET => off,
        libc::SEEK_CUR => f.fds[i].pos as i64 + off,
        _ => len + off,
    };
    if p < 0 {
        return -(libc::EINVAL as i64);
    }
    f.fds[i].pos = p as usize;
    p
}
pub fn ftruncate(n: i32, len: usize) -> i64 {
    let f = fs();
    let Some(i) = fd(f, n) else { return EBADF };
    let path = f.fds[i].path.clone();
    if let Some(Node::File(d)) = f.nodes.get_mut(&path) {
        d.resize(len, 0);
    }
    0
}
pub fn fsync(n: i32) -> i64 {
    let f = fs();
    f.ops += 1;
    if fd(f, n).is_none() {
        return EBADF;
    }
    if inject(f, f.plan.p_eio_write, 1, 0).is_some() || fail_here(f).is_some() {
        note_fault(13);
        f.hard_errors += 1;
        return EIO;
    }
    0
}
unsafe fn fill(node: &Node, st: *mut libc::stat64) {
    core::ptr::write_bytes(st as *mut u8, 0, core::mem::size_of::<libc::stat64>());
    match node {
        Node::Dir => (*st).st_mode = libc::S_IFDIR | 0o755,
        Node::File(d) => {
            (*st).st_mode = libc::S_IFREG | 0o644;
            (*st).st_size = d.len() as i64;
        }
    }
    (*st).st_nlink = 1;
    (*st).st_ino = 1;
    (*st).st_blksize = 4096;
}
pub unsafe fn fstat(n: i32, st: *mut libc::stat64) -> i64 {
    let f = fs();
    f.ops += 1;
    let Some(i) = fd(f, n) else { return EBADF };
    if inject(f, f.plan.p_stat, 1, 0).is_some() {
        note_fault(15);
        return EIO;
    }
    match f.nodes.get(&f.fds[i].path) {
        Some(nd) => {
            fill(nd, st);
            0
        }
        None => EIO,
    }
}
pub unsafe fn stat(p: &[u8], st: *mut libc::stat64) -> i64 {
    let f = fs();
    f.ops += 1;
    if inject(f, f.plan.p_stat, 1, 0).is_some() {
        note_fault(15);
        f.hard_errors += 1;
        return EIO;
    }
    match f.nodes.get(&norm(p)) {
        Some(nd) => {
            fill(nd, st);
            0
        }
        None => ENOENT,
    }
}
pub fn mkdir(p: &[u8]) -> i64 {
    let f = fs();
    f.ops += 1;
    let p = norm(p);
    if f.nodes.contains_key(&p) {
        return -(libc::EEXIST as i64);
    }
    match f.nodes.get(&parent(&p)) {
        Some(Node::Dir) => {}
        Some(_) => return -(libc::ENOTDIR as i64),
        None => return ENOENT,
    }
    if let Some(v) = inject(f, f.plan.p_mkdir, 1, 3) {
        note_fault(14);
        f.hard_errors += 1;
        return -([libc::EACCES, libc::ENOSPC, libc::EIO][v as usize % 3] as i64);
    }
    if let Some(e) = fail_here(f) {
        note_fault(14);
        f.hard_errors += 1;
        return -(e as i64);
    }
    logop(f, format!("mkdir {}", String::from_utf8_lossy(&p)));
    f.nodes.insert(p, Node::Dir);
    0
}
pub fn unlink(p: &[u8]) -> i64 {
    let f = fs();
    f.ops += 1;
    if inject(f, f.plan.p_mkdir, 1, 0).is_some() {
        note_fault(31);
        f.hard_errors += 1;
        return EIO;
    }
    match f.nodes.remove(&norm(p)) {
        Some(_) => 0,
        None => ENOENT,
    }
}
pub fn rename(a: &[u8], b: &[u8]) -> i64 {
    let f = fs();
    f.ops += 1;
    if inject(f, f.plan.p_mkdir, 1, 0).is_some() || fail_here(f).is_some() {
        note_fault(30);
        f.hard_errors += 1;
        return EIO;
    }
    match f.nodes.remove(&norm(a)) {
        Some(n) => {
            f.nodes.insert(norm(b), n);
            0
        }
        None => ENOENT,
    }
}
// ---- used by scenarios
pub fn put(p: &str, data: &[u8]) {
    let f = fs();
    f.nodes.insert(p.as_bytes().to_vec(), Node::File(data.to_vec()));
}
pub fn put_dir(p: &str) {
    fs().nodes.insert(p.as_bytes().to_vec(), Node::Dir);
}
pub fn get(p: &str) -> Option<Vec<u8>> {
    match fs().nodes.get(p.as_bytes()) {
        Some(Node::File(d)) => Some(d.clone()),
        _ => None,
    }
}
pub fn set_plan(p: FaultPlan) {
    fs().plan = p;
}
