//! The scheduler: one baton, seeded decisions, sparse decision log, replay.
use crate::rng::{mix, Rng};
use crate::shm::{Decision, MAX_DECISIONS, MSG_CAP, N_FK, N_PROBES, SHM};
use crate::sys;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX_T: usize = 192;
const BIG: i64 = i64::MAX / 4;
/// A thread that ran this many accesses without any baton change is made to yield (fairness).
const FAIR: u64 = 200_000;

pub const FK_NAMES: [&str; N_FK] = [
    "preemption", "spurious_futex_wakeup", "clock_jump", "stalled_thread_choice", "callback_error", "callback_panic",
    "short_read", "eintr_read", "eio_read", "open_error", "short_write", "eintr_write", "enospc_write", "eio_write",
    "mkdir_error", "stat_error", "stored_byte_corruption", "stored_truncation", "hash_reseed", "thread_restart",
    "futex_timeout", "token_corruption", "close_error", "reordered_wake", "token_dropped", "token_duplicated", "eintr_open",
    "zero_write", "concurrent_caller", "failed_call_before", "rename_error", "unlink_error", "", "", "", "", "", "", "", "",
];
pub const FK_PREEMPT: usize = 0;
pub const FK_SPURIOUS: usize = 1;
pub const FK_CLOCK: usize = 2;
pub const FK_STALL: usize = 3;
pub const FK_TIMEOUT: usize = 20;
pub const FK_WAKEORDER: usize = 23;

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// switch at an access with mean distance `mean`
    Walk { mean: u64 },
    /// switch with probability p/256 at accesses to memory shared between threads, otherwise 1/mean
    Address { p: u64, mean: u64 },
    /// random priorities, `depth` change points within `len` steps
    Pct { depth: u64, len: u64 },
    /// dense bursts between sparse stretches
    Burst { dense: u64, on: u64, off: u64 },
    /// no voluntary switches at accesses
    Coarse,
}

#[derive(Clone, Debug)]
pub struct SimConfig {
    pub seed: u64,
    pub policy: Policy,
    /// probability (of 256) of switching at a harness callback
    pub p_callback: u64,
    /// probability (of 65536) of a spurious wake-up at a forced choice
    pub p_spurious: u64,
    /// probability (of 256) of a clock jump at a clock read
    pub p_clock: u64,
    /// a thread that is stalled (chosen only if nothing else can run) and for how many forced choices
    pub stall: Option<(u64, u64, u64)>,
    /// keep the running thread at forced choices when it is still runnable with this probability (of 256)
    pub hash_seed: u64,
    pub max_steps: u64,
    pub replay: bool,
    /// voluntary switches are this many times rarer (large cases)
    pub thin: u64,
}

impl SimConfig {
    /// Everything about the schedule of a run is derived from one integer.
    pub fn from_seed(seed: u64) -> SimConfig {
        let mut r = Rng::new(mix(seed, 0x5C4ED));
        let policy = match r.below(12) {
            0..=3 => Policy::Walk { mean: 1 << r.range(1, 13) },
            4..=7 => Policy::Address { p: *r.pick(&[2u64, 8, 24, 64, 128, 220]), mean: 1 << r.range(6, 16) },
            8 | 9 => Policy::Pct { depth: r.below(6) + 1, len: 1 << r.range(6, 17) },
            10 => Policy::Burst { dense: 1 + r.below(6), on: 1 << r.range(4, 10), off: 1 << r.range(6, 14) },
            _ => Policy::Coarse,
        };
        SimConfig {
            seed,
            policy,
            p_callback: *r.pick(&[0u64, 16, 64, 128, 230]),
            p_spurious: if r.chance(1, 3) { *r.pick(&[100u64, 1000, 6000]) } else { 0 },
            p_clock: if r.chance(1, 3) { *r.pick(&[8u64, 64]) } else { 0 },
            stall: if r.chance(1, 5) { Some((r.below(8), r.below(300), 1 << r.range(3, 10))) } else { None },
            hash_seed: r.next(),
            max_steps: 150_000_000,
            replay: false,
            thin: 1,
        }
    }
    pub fn replaying(hash_seed: u64) -> SimConfig {
        SimConfig { seed: 0, policy: Policy::Coarse, p_callback: 0, p_spurious: 0, p_clock: 0, stall: None, hash_seed, max_steps: 150_000_000, replay: true, thin: 1 }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Runnable,
    Futex,
    Sleep,
    Join,
    Done,
}

pub struct Thr {
    pub word: AtomicU32,
    pub st: St,
    pub addr: usize,
    pub bits: u32,
    pub deadline: u64,
    pub result: i64,
    pub join: usize,
    pub quiet: u32,
    pub prio: u64,
    pub handle: libc::pthread_t,
    pub exit_round: u32,
    pub seq: u64,
}

pub struct Sim {
    pub cfg: SimConfig,
    pub rng: Rng,
    pub step: u64,
    pub last_switch: u64,
    pub forced: u64,
    pub wakes: u64,
    pub clock_reads: u64,
    pub now: u64,
    pub nthreads: usize,
    pub next_pct: u64,
    pub low_prio: u64,
    pub burst_on: bool,
    pub burst_until: u64,
    pub rep_pre: usize,
    pub seq: u64,
    pub hash_rng: Rng,
    pub panics: Vec<(usize, String)>,
    pub runnable_cache: u64,
}

pub static mut ACTIVE: bool = false;
pub static mut COUNTDOWN: i64 = BIG;
pub static mut PERIOD: i64 = BIG;
pub static mut CUR: usize = 0;
pub static mut SIM: *mut Sim = core::ptr::null_mut();
pub static mut T: [Thr; MAX_T] = {
    const Z: Thr = Thr { word: AtomicU32::new(0), st: St::Free, addr: 0, bits: 0, deadline: 0, result: 0, join: 0, quiet: 0, prio: 0, handle: 0, exit_round: 0, seq: 0 };
    [Z; MAX_T]
};

// replay input, by kind
pub static mut REP: [Vec<(u64, u64)>; 6] = [Vec::new(), Vec::new(), Vec::new(), Vec::new(), Vec::new(), Vec::new()];

pub fn load_replay(ds: &[Decision]) {
    unsafe {
        for v in REP.iter_mut() {
            v.clear();
        }
        for d in ds {
            REP[d.kind as usize].push((d.at, d.v));
        }
        for v in REP.iter_mut() {
            v.sort();
        }
    }
}
pub fn replay_lookup(kind: usize, at: u64) -> Option<u64> {
    unsafe {
        let v = &REP[kind];
        v.binary_search_by(|p| p.0.cmp(&at)).ok().map(|i| v[i].1)
    }
}
/// the log is nearly full: from here on only default decisions are taken (so that replay stays exact)
pub fn log_full() -> bool {
    unsafe { (*SHM).n_decisions as usize >= MAX_DECISIONS * 3 / 4 }
}
pub fn record(kind: u64, at: u64, v: u64) {
    unsafe {
        let s = &mut *SHM;
        let n = s.n_decisions as usize;
        if n < MAX_DECISIONS {
            s.decisions[n] = Decision { kind, at, v };
            s.n_decisions += 1;
        }
    }
}

// ---------------------------------------------------------------- access table (address-directed policy)
const TAB_BITS: usize = 21;
#[derive(Clone, Copy)]
struct Ent {
    addr: usize,
    tid: u16,
    shared: u16,
    wrote: u32,
}
static mut TAB: *mut Ent = core::ptr::null_mut();
static mut TAB_USED: usize = 0;

unsafe fn tab_touch(addr: usize, w: bool) -> bool {
    if TAB.is_null() {
        let bytes = (1usize << TAB_BITS) * core::mem::size_of::<Ent>();
        let p = sys::raw6(libc::SYS_mmap, 0, bytes as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as i64, -1, 0);
        TAB = p as *mut Ent;
        TAB_USED = 0;
    }
    let a = addr >> 2;
    let mut i = (a.wrapping_mul(0x9E3779B97F4A7C15)) >> (64 - TAB_BITS);
    loop {
        let e = &mut *TAB.add(i);
        if e.addr == 0 {
            if TAB_USED > (1 << TAB_BITS) / 2 {
                return false;
            }
            TAB_USED += 1;
            *e = Ent { addr: a, tid: CUR as u16, shared: 0, wrote: w as u32 };
            return false;
        }
        if e.addr == a {
            if e.tid != CUR as u16 {
                if w || e.wrote != 0 {
                    e.shared = 1;
                }
                e.tid = CUR as u16;
            }
            e.wrote |= w as u32;
            return e.shared != 0;
        }
        i = (i + 1) & ((1 << TAB_BITS) - 1);
    }
}

// ---------------------------------------------------------------- callbacks inserted by the compiler
macro_rules! cov {
    ($($n:ident $w:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: usize) {
            COUNTDOWN -= 1;
            if COUNTDOWN <= 0 { slow(p, $w) }
        }
    )*};
}
cov! {
    __sanitizer_cov_load1 0; __sanitizer_cov_load2 0; __sanitizer_cov_load4 0; __sanitizer_cov_load8 0; __sanitizer_cov_load16 0;
    __sanitizer_cov_store1 1; __sanitizer_cov_store2 1; __sanitizer_cov_store4 1; __sanitizer_cov_store8 1; __sanitizer_cov_store16 1;
}

unsafe fn sync_steps() {
    let s = &mut *SIM;
    if T[CUR].quiet == 0 {
        s.step += (PERIOD - COUNTDOWN) as u64;
    }
    PERIOD = COUNTDOWN;
}
unsafe fn set_countdown(c: i64) {
    COUNTDOWN = c.max(1);
    PERIOD = COUNTDOWN;
}

fn gen_countdown(s: &mut Sim) -> i64 {
    let until_fair = (s.last_switch + FAIR).saturating_sub(s.step).max(1) as i64;
    let c = if s.cfg.replay {
        unsafe {
            while s.rep_pre < REP[0].len() && REP[0][s.rep_pre].0 <= s.step {
                s.rep_pre += 1;
            }
            if s.rep_pre < REP[0].len() {
                (REP[0][s.rep_pre].0 - s.step) as i64
            } else {
                BIG
            }
        }
    } else {
        match s.cfg.policy {
            Policy::Walk { mean } => s.rng.geometric(mean * s.cfg.thin) as i64,
            Policy::Address { .. } => 1,
            Policy::Pct { .. } => s.next_pct.saturating_sub(s.step).max(1) as i64,
            Policy::Burst { dense, on, off } => {
                if s.step >= s.burst_until {
                    s.burst_on = !s.burst_on;
                    let m = if s.burst_on { on } else { off * s.cfg.thin };
                    s.burst_until = s.step + s.rng.geometric(m);
                }
                if s.burst_on {
                    s.rng.geometric(dense) as i64
                } else {
                    s.burst_until.saturating_sub(s.step).max(1) as i64
                }
            }
            Policy::Coarse => BIG,
        }
    };
    c.min(until_fair)
}

/// reached when the countdown expires at an access (kind 0 load, 1 store) or at a callback (2)
#[inline(never)]
unsafe fn slow(addr: usize, kind: u32) {
    if !ACTIVE || T[CUR].quiet > 0 {
        COUNTDOWN = BIG;
        PERIOD = BIG;
        return;
    }
    sync_steps();
    let s = &mut *SIM;
    if s.step > s.cfg.max_steps {
        fail("livelock", "step bound exceeded");
    }
    if s.step - s.last_switch >= FAIR {
        s.last_switch = s.step;
        if others_runnable() {
            forced_choice(true, true);
            reload();
            return;
        }
    }
    let target = if log_full() {
        None
    } else if s.cfg.replay {
        if s.rep_pre < REP[0].len() && REP[0][s.rep_pre].0 == s.step {
            let v = REP[0][s.rep_pre].1 as usize;
            s.rep_pre += 1;
            if v < s.nthreads && v != CUR && T[v].st == St::Runnable { Some(v) } else { None }
        } else {
            None
        }
    } else {
        let want = if kind == 2 {
            s.rng.below(256 * s.cfg.thin) < s.cfg.p_callback
        } else {
            match s.cfg.policy {
                Policy::Walk { .. } => true,
                Policy::Address { p, mean } => {
                    if tab_touch(addr, kind == 1) {
                        s.rng.below(256 * s.cfg.thin) < p
                    } else {
                        s.rng.below(mean * s.cfg.thin) == 0
                    }
                }
                Policy::Pct { depth, len } => {
                    if s.step >= s.next_pct {
                        s.next_pct = s.step + 1 + s.rng.below(2 * len * s.cfg.thin / depth.max(1) + 1);
                        s.low_prio -= 1;
                        T[CUR].prio = s.low_prio;
                        true
                    } else {
                        false
                    }
                }
                Policy::Burst { .. } => s.burst_on,
                Policy::Coarse => false,
            }
        };
        if want { pick_other(s) } else { None }
    };
    if let Some(t) = target {
        if !s.cfg.replay {
            record(0, s.step, t as u64);
        }
        let sh = &mut *SHM;
        sh.preempts += 1;
        sh.faults[FK_PREEMPT] += 1;
        switch_to(t);
    }
    reload();
}

/// sets the countdown for whoever holds the baton now
unsafe fn reload() {
    let s = &mut *SIM;
    if T[CUR].quiet > 0 {
        COUNTDOWN = BIG;
        PERIOD = BIG;
    } else {
        let c = gen_countdown(s);
        set_countdown(c);
    }
}

unsafe fn others_runnable() -> bool {
    let s = &*SIM;
    (0..s.nthreads).any(|i| i != CUR && T[i].st == St::Runnable)
}

unsafe fn pick_other(s: &mut Sim) -> Option<usize> {
    let mut c = [0u16; MAX_T];
    let n = candidates(s, &mut c, false);
    if n == 0 {
        return None;
    }
    if let Policy::Pct { .. } = s.cfg.policy {
        let mut best = CUR;
        for &t in &c[..n] {
            if T[t as usize].prio > T[best].prio {
                best = t as usize;
            }
        }
        return if best == CUR { None } else { Some(best) };
    }
    Some(c[s.rng.usize(n)] as usize)
}

/// runnable threads (without CUR unless `with_cur`), with stalled threads left out if others exist
unsafe fn candidates(s: &mut Sim, out: &mut [u16; MAX_T], with_cur: bool) -> usize {
    let mut n = 0;
    let mut stalled_out = false;
    let st = if s.cfg.replay { None } else { s.cfg.stall };
    for i in 0..s.nthreads {
        if T[i].st == St::Runnable && (with_cur || i != CUR) {
            if let Some((t, from, len)) = st {
                if i as u64 == t && s.forced >= from && s.forced < from + len {
                    stalled_out = true;
                    continue;
                }
            }
            out[n] = i as u16;
            n += 1;
        }
    }
    if stalled_out {
        if n == 0 {
            out[0] = st.unwrap().0 as u16;
            n = 1;
        } else {
            (*SHM).faults[FK_STALL] += 1;
        }
    }
    n
}

/// A point where the scheduler must choose: the current thread yields or cannot go on.
pub unsafe fn forced_choice(yielding: bool, by_fairness: bool) {
    let s = &mut *SIM;
    sync_steps();
    let idx = s.forced;
    s.forced += 1;
    if s.forced > 30_000_000 {
        fail("livelock", "bound on scheduling choices exceeded");
    }
    // injected spurious wake-up
    if s.cfg.replay {
        if let Some(v) = replay_lookup(3, idx) {
            spurious(v as usize);
        }
    } else if s.cfg.p_spurious > 0 && !log_full() && s.rng.below(65536) < s.cfg.p_spurious {
        let mut w = [0u16; MAX_T];
        let mut n = 0;
        for i in 0..s.nthreads {
            if T[i].st == St::Futex {
                w[n] = i as u16;
                n += 1;
            }
        }
        if n > 0 {
            let t = w[s.rng.usize(n)] as usize;
            record(3, idx, t as u64);
            spurious(t);
        }
    }
    let _ = by_fairness;
    loop {
        let mut c = [0u16; MAX_T];
        let n = candidates(s, &mut c, false);
        if n == 0 {
            if T[CUR].st == St::Runnable && yielding {
                s.last_switch = s.step;
                return; // nobody else: carry on
            }
            if T[CUR].st == St::Runnable {
                return; // own deadline fired
            }
            // advance time to the earliest deadline
            let mut best: Option<(u64, usize)> = None;
            for i in 0..s.nthreads {
                if (T[i].st == St::Futex || T[i].st == St::Sleep) && T[i].deadline != 0 {
                    if best.map_or(true, |b| (T[i].deadline, i) < b) {
                        best = Some((T[i].deadline, i));
                    }
                }
            }
            match best {
                None => deadlock(),
                Some((d, i)) => {
                    if d > s.now {
                        s.now = d;
                    }
                    T[i].result = if T[i].st == St::Futex {
                        (*SHM).faults[FK_TIMEOUT] += 1;
                        -(libc::ETIMEDOUT as i64)
                    } else {
                        0
                    };
                    T[i].st = St::Runnable;
                    T[i].deadline = 0;
                    if i == CUR {
                        return;
                    }
                    continue;
                }
            }
        }
        // the default decision: next thread in cyclic order
        let mut def = c[0] as usize;
        for &t in &c[..n] {
            if t as usize > CUR {
                def = t as usize;
                break;
            }
        }
        let t = if s.cfg.replay {
            match replay_lookup(1, idx) {
                Some(v) if (v as usize) < s.nthreads && v as usize != CUR && T[v as usize].st == St::Runnable => v as usize,
                _ => def,
            }
        } else {
            let t = match s.cfg.policy {
                _ if log_full() => def,
                Policy::Pct { .. } => {
                    if yielding {
                        s.low_prio -= 1;
                        T[CUR].prio = s.low_prio;
                    }
                    let mut best = c[0] as usize;
                    for &t in &c[1..n] {
                        if T[t as usize].prio > T[best].prio {
                            best = t as usize;
                        }
                    }
                    best
                }
                _ => c[s.rng.usize(n)] as usize,
            };
            // a full replay must not depend on the stall filter, so compare with the unfiltered default
            let mut udef = usize::MAX;
            let mut first = usize::MAX;
            for i in 0..s.nthreads {
                if T[i].st == St::Runnable && i != CUR {
                    if first == usize::MAX {
                        first = i;
                    }
                    if i > CUR && udef == usize::MAX {
                        udef = i;
                    }
                }
            }
            if udef == usize::MAX {
                udef = first;
            }
            let t = if log_full() { udef } else { t };
            if t != udef {
                record(1, idx, t as u64);
            }
            t
        };
        (*SHM).forced += 1;
        switch_to(t);
        return;
    }
}

unsafe fn spurious(t: usize) {
    if t < (*SIM).nthreads && T[t].st == St::Futex {
        T[t].st = St::Runnable;
        T[t].deadline = 0;
        T[t].result = 0;
        (*SHM).faults[FK_SPURIOUS] += 1;
    }
}

unsafe fn deadlock() -> ! {
    let s = &*SIM;
    let mut m = String::from("no thread can run:");
    for i in 0..s.nthreads {
        m.push_str(&format!(" t{}={:?}", i, T[i].st));
    }
    fail("deadlock", &m)
}

pub unsafe fn switch_to(t: usize) {
    let me = CUR;
    if t == me {
        return;
    }
    let s = &mut *SIM;
    s.last_switch = s.step;
    let sh = &mut *SHM;
    sh.switches += 1;
    sh.trace_hash = mix(sh.trace_hash, s.step.wrapping_mul(256) + t as u64);
    CUR = t;
    T[t].word.store(1, Ordering::Release);
    sys::futex_wake(T[t].word.as_ptr());
    wait_baton(me);
}
unsafe fn wait_baton(me: usize) {
    while T[me].word.load(Ordering::Acquire) == 0 {
        sys::futex_wait(T[me].word.as_ptr(), 0);
    }
    T[me].word.store(0, Ordering::Relaxed);
}

// ---------------------------------------------------------------- blocking primitives used by the seams
pub unsafe fn yield_now() {
    if !active() {
        sys::raw3(libc::SYS_sched_yield, 0, 0, 0);
        return;
    }
    forced_choice(true, false);
    reload();
}

/// blocks the current thread on a futex word; returns like the raw system call
pub unsafe fn futex_wait(addr: usize, val: u32, bits: u32, deadline: u64) -> i64 {
    if *(addr as *const u32) != val {
        return -(libc::EAGAIN as i64);
    }
    let s = &mut *SIM;
    s.seq += 1;
    let t = &mut T[CUR];
    t.st = St::Futex;
    t.addr = addr;
    t.bits = bits;
    t.deadline = deadline;
    t.result = 0;
    t.seq = s.seq;
    forced_choice(false, false);
    reload();
    T[CUR].deadline = 0;
    T[CUR].result
}
pub unsafe fn futex_wake(addr: usize, n: u32, bits: u32) -> i64 {
    let s = &mut *SIM;
    let mut woken = 0;
    while woken < n as i64 {
        let mut w = [0u16; MAX_T];
        let mut k = 0;
        for i in 0..s.nthreads {
            if T[i].st == St::Futex && T[i].addr == addr && T[i].bits & bits != 0 {
                w[k] = i as u16;
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        w[..k].sort_by_key(|&i| T[i as usize].seq);
        let pos = if k == 1 {
            0
        } else {
            let idx = s.wakes;
            s.wakes += 1;
            if s.cfg.replay {
                replay_lookup(2, idx).map_or(0, |p| (p as usize).min(k - 1))
            } else {
                let p = if log_full() { 0 } else { s.rng.usize(k) };
                if p != 0 {
                    record(2, idx, p as u64);
                    (*SHM).faults[FK_WAKEORDER] += 1;
                }
                p
            }
        };
        let t = &mut T[w[pos] as usize];
        t.st = St::Runnable;
        t.deadline = 0;
        t.result = 0;
        woken += 1;
    }
    woken
}
pub unsafe fn sleep_until(deadline: u64) {
    let t = &mut T[CUR];
    t.st = St::Sleep;
    t.deadline = deadline.max(1);
    forced_choice(false, false);
    T[CUR].deadline = 0;
    reload();
}
pub unsafe fn join(tid: usize) {
    if T[tid].st != St::Done {
        T[CUR].st = St::Join;
        T[CUR].join = tid;
        forced_choice(false, false);
        reload();
    }
}
pub unsafe fn clock() -> u64 {
    let s = &mut *SIM;
    let idx = s.clock_reads;
    s.clock_reads += 1;
    s.now += 50;
    if s.cfg.replay {
        if let Some(v) = replay_lookup(4, idx) {
            s.now += v;
            (*SHM).faults[FK_CLOCK] += 1;
        }
    } else if s.cfg.p_clock > 0 && !log_full() && s.rng.below(256) < s.cfg.p_clock {
        let j = 1u64 << s.rng.range(8, 31);
        s.now += j;
        record(4, idx, j);
        (*SHM).faults[FK_CLOCK] += 1;
    }
    s.now
}

pub unsafe fn new_thread() -> usize {
    let s = &mut *SIM;
    let id = s.nthreads;
    if id >= MAX_T {
        return usize::MAX;
    }
    s.nthreads += 1;
    (*SHM).threads += 1;
    let prio = (1 << 40) + s.rng.below(1 << 30);
    T[id] = Thr { word: AtomicU32::new(0), st: St::Runnable, addr: 0, bits: 0, deadline: 0, result: 0, join: 0, quiet: 0, prio, handle: 0, exit_round: 0, seq: 0 };
    id
}
pub unsafe fn thread_begin(id: usize) {
    wait_baton(id);
    reload();
}
/// the last thing a simulated thread does: gives the baton away for good
pub unsafe fn thread_end() {
    let s = &mut *SIM;
    sync_steps();
    T[CUR].st = St::Done;
    for i in 0..s.nthreads {
        if T[i].st == St::Join && T[i].join == CUR {
            T[i].st = St::Runnable;
        }
    }
    // same choice as a forced one, but without waiting for the baton
    let idx = s.forced;
    s.forced += 1;
    let mut c = [0u16; MAX_T];
    loop {
        let n = candidates(s, &mut c, false);
        if n > 0 {
            let mut def = c[0] as usize;
            for i in (0..s.nthreads).rev() {
                if T[i].st == St::Runnable && i > CUR {
                    def = i;
                }
            }
            if def < CUR {
                for i in (0..s.nthreads).rev() {
                    if T[i].st == St::Runnable {
                        def = i;
                    }
                }
            }
            let t = if s.cfg.replay {
                match replay_lookup(1, idx) {
                    Some(v) if (v as usize) < s.nthreads && T[v as usize].st == St::Runnable => v as usize,
                    _ => def,
                }
            } else {
                let t = if log_full() { def } else { c[s.rng.usize(n)] as usize };
                if t != def {
                    record(1, idx, t as u64);
                }
                t
            };
            let sh = &mut *SHM;
            sh.switches += 1;
            sh.trace_hash = mix(sh.trace_hash, s.step.wrapping_mul(256) + t as u64);
            s.last_switch = s.step;
            CUR = t;
            T[t].word.store(1, Ordering::Release);
            sys::futex_wake(T[t].word.as_ptr());
            return;
        }
        let mut best: Option<(u64, usize)> = None;
        for i in 0..s.nthreads {
            if (T[i].st == St::Futex || T[i].st == St::Sleep) && T[i].deadline != 0 && best.map_or(true, |b| (T[i].deadline, i) < b) {
                best = Some((T[i].deadline, i));
            }
        }
        match best {
            None => deadlock(),
            Some((d, i)) => {
                s.now = s.now.max(d);
                T[i].result = if T[i].st == St::Futex { -(libc::ETIMEDOUT as i64) } else { 0 };
                T[i].st = St::Runnable;
                T[i].deadline = 0;
            }
        }
    }
}

// ---------------------------------------------------------------- public interface for scenarios
#[inline(never)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
#[inline(never)]
pub fn current_tid() -> usize {
    unsafe { CUR }
}

/// Starts the simulation in this process: runs `body` as simulated thread 0 (a fresh OS thread), never returns.
#[inline(never)]
pub fn start(cfg: SimConfig, body: fn()) -> ! {
    unsafe {
        crate::alloc::start_run();
        let hash_rng = Rng::new(cfg.hash_seed);
        let rng = Rng::new(mix(cfg.seed, 0xB0D1));
        let sim = Box::new(Sim {
            rng, step: 0, last_switch: 0, forced: 0, wakes: 0, clock_reads: 0, now: 1_000_000_000, nthreads: 0,
            next_pct: 0, low_prio: 1 << 39, burst_on: false, burst_until: 0, rep_pre: 0, seq: 0,
            hash_rng, panics: Vec::with_capacity(64), runnable_cache: 0, cfg,
        });
        SIM = Box::into_raw(sim);
        let s = &mut *SIM;
        if let Policy::Pct { len, .. } = s.cfg.policy {
            s.next_pct = 1 + s.rng.below(len);
        }
        (*SHM).state = 1;
        crate::interpose::run_root(body);
    }
}

/// Ends a run in which everything held.
#[inline(never)]
pub fn finish() -> ! {
    unsafe {
        publish();
        (*SHM).state = 2;
    }
    sys::exit_now(0)
}
unsafe fn publish() {
    if ACTIVE {
        sync_steps();
        ACTIVE = false;
        COUNTDOWN = BIG;
        PERIOD = BIG;
        (*SHM).steps = (*SIM).step;
        (*SHM).sim_ns = (*SIM).now - 1_000_000_000;
    }
}
/// Ends the run with a violation.
#[inline(never)]
pub fn fail(class: &str, msg: &str) -> ! {
    unsafe {
        publish();
        let s = &mut *SHM;
        let c = class.as_bytes();
        let n = c.len().min(255);
        s.class[..n].copy_from_slice(&c[..n]);
        s.class_len = n as u64;
        let m = msg.as_bytes();
        let n = m.len().min(MSG_CAP);
        s.msg[..n].copy_from_slice(&m[..n]);
        s.msg_len = n as u64;
        s.state = 3;
    }
    sys::exit_now(0)
}

/// A scheduling point placed by the harness in user callbacks.
#[inline(never)]
pub fn callback_point() {
    unsafe {
        if ACTIVE && T[CUR].quiet == 0 {
            COUNTDOWN -= 1;
            let want = (*SIM).cfg.replay || (*SIM).cfg.p_callback > 0;
            if want || COUNTDOWN <= 0 {
                slow(0, 2);
            }
        }
    }
}
/// From here on voluntary switches are `f` times rarer: a large case then gets about as many of them as a
/// small one, spread over its whole length.
#[inline(never)]
pub fn thin(f: u64) {
    quiet(|| unsafe { (*SIM).cfg.thin = f.max(1) })
}

/// Runs `f` without preemption points (oracle code).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            if self.0 {
                leave_quiet();
            }
        }
    }
    let _g = G(enter_quiet());
    f()
}
// Never inlined into the (instrumented) scenarios: an access callback between the reads and writes of the
// step counters would corrupt them.
#[inline(never)]
fn enter_quiet() -> bool {
    unsafe {
        if !ACTIVE {
            return false;
        }
        if T[CUR].quiet == 0 {
            sync_steps();
            COUNTDOWN = BIG;
            PERIOD = BIG;
        }
        T[CUR].quiet += 1;
        true
    }
}
#[inline(never)]
fn leave_quiet() {
    unsafe {
        T[CUR].quiet -= 1;
        if T[CUR].quiet == 0 {
            reload();
        }
    }
}
/// Adds to the history hash (who did what in which order).
#[inline(never)]
pub fn event(code: u64) {
    unsafe {
        if !SHM.is_null() {
            let s = &mut *SHM;
            s.events += 1;
            s.event_hash = mix(s.event_hash, code ^ ((CUR as u64) << 56));
        }
    }
}
#[inline(never)]
pub fn note_fault(k: usize) {
    unsafe {
        if !SHM.is_null() {
            (*SHM).faults[k] += 1;
        }
    }
}
#[inline(never)]
pub fn probe(k: usize) {
    unsafe {
        if !SHM.is_null() && k < N_PROBES {
            (*SHM).probes[k] += 1;
        }
    }
}
#[inline(never)]
pub fn checkpoint() -> u64 {
    unsafe {
        if ACTIVE {
            sync_steps();
            (*SIM).step
        } else {
            0
        }
    }
}
#[inline(never)]
pub fn block_stats() -> (u64, u64) {
    unsafe { ((*SHM).switches, (*SHM).preempts) }
}
/// Collects panic messages instead of printing them.
#[inline(never)]
pub fn set_panic_capture() {
    std::panic::set_hook(Box::new(|info| unsafe {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<opaque>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !SIM.is_null() {
            (*SIM).panics.push((CUR, format!("{} @ {}", msg, loc)));
        } else if !SHM.is_null() {
            let m = format!("panic outside simulation: {} @ {}\n", msg, loc);
            sys::real_write(2, m.as_bytes());
        }
    }));
}
#[inline(never)]
pub fn take_panics() -> Vec<(usize, String)> {
    unsafe {
        if SIM.is_null() {
            Vec::new()
        } else {
            std::mem::take(&mut (*SIM).panics)
        }
    }
}
