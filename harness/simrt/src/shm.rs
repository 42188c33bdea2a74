//! The area a run shares with the process that started it. It survives any crash of the run.
use crate::sys::raw6;

pub const MAX_DECISIONS: usize = 1 << 20;
pub const MSG_CAP: usize = 1 << 16;
pub const N_FK: usize = 40;
pub const N_PROBES: usize = 64;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Decision {
    /// kind: 0 preempt (at = step, v = tid), 1 forced choice (at = index, v = tid), 2 wake choice
    /// (at = index, v = position), 3 spurious wake-up (at = forced index, v = tid),
    /// 4 clock jump (at = read index, v = ns), 5 I/O fault (at = op index, v = code)
    pub kind: u64,
    pub at: u64,
    pub v: u64,
}

#[repr(C)]
pub struct Shm {
    pub state: u64,       // 0 not started, 1 running, 2 finished ok, 3 violation
    pub steps: u64,       // instrumented accesses
    pub switches: u64,    // baton hand-overs
    pub preempts: u64,    // voluntary ones
    pub forced: u64,      // forced scheduling choices
    pub threads: u64,     // simulated threads created
    pub sim_ns: u64,      // simulated time covered
    pub trace_hash: u64,  // hash of the complete switch trace
    pub event_hash: u64,  // hash of (thread, harness event) sequence
    pub events: u64,
    pub case_hash: u64,
    pub nontrivial: u64,
    pub policy: u64,
    pub lib_calls: u64,
    pub n_decisions: u64,
    pub faults: [u64; N_FK],
    pub probes: [u64; N_PROBES],
    pub class_len: u64,
    pub class: [u8; 256],
    pub msg_len: u64,
    pub msg: [u8; MSG_CAP],
    pub case_len: u64,
    pub case: [u8; 1 << 20],
    pub decisions: [Decision; MAX_DECISIONS],
}

pub static mut SHM: *mut Shm = core::ptr::null_mut();

pub unsafe fn map_shared(bytes: usize) -> *mut u8 {
    let p = raw6(libc::SYS_mmap, 0, bytes as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64,
        (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as i64, -1, 0);
    if p < 0 && p > -4096 {
        crate::sys::real_write(2, b"simrt: mmap failed\n");
        crate::sys::exit_now(90);
    }
    p as *mut u8
}
pub unsafe fn create() -> *mut Shm {
    map_shared(core::mem::size_of::<Shm>()) as *mut Shm
}
/// Clears everything but the bulk arrays (their lengths are cleared).
pub unsafe fn reset(s: *mut Shm) {
    let off = core::mem::offset_of!(Shm, class);
    core::ptr::write_bytes(s as *mut u8, 0, off);
    (*s).msg_len = 0;
    (*s).case_len = 0;
}
