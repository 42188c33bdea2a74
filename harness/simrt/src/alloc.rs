//! Global allocator with fixed addresses (so that a run repeats exactly), canaries and poisoning.
//! Threads are serialised by the simulator, so no locking is needed.
use core::alloc::{GlobalAlloc, Layout};

pub struct SimAlloc;
const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 16 << 30;
const MAGIC: u64 = 0xA110_CA7E_D00D_F00D;
const FREED: u64 = 0xDEAD_BEEF_FEED_FACE;
const NCLS: usize = 40;
const QUAR: usize = 256;

static mut BUMP: usize = 0;
static mut END: usize = 0;
static mut FREE: [usize; NCLS] = [0; NCLS];
static mut Q: [usize; QUAR] = [0; QUAR];
static mut QI: usize = 0;
/// blocks below were allocated before the simulation began: they are never reused in it
static mut SIM_BASE: usize = 0;

/// From here on all addresses depend on nothing that happened in this process before.
pub unsafe fn start_run() {
    grow();
    SIM_BASE = BASE + SIZE / 2;
    BUMP = SIM_BASE;
    FREE = [0; NCLS];
    Q = [0; QUAR];
    QI = 0;
}

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64, // requested
    cls: u32,
    off: u32, // user pointer - block start
    _p: u64,
}

unsafe fn grow() {
    if BUMP == 0 {
        let r = crate::sys::raw6(libc::SYS_mmap, BASE as i64, SIZE as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as i64, -1, 0);
        if r as usize != BASE {
            crate::sys::real_write(2, b"simrt: heap mapping failed\n");
            crate::sys::exit_now(91);
        }
        BUMP = BASE;
        END = BASE + SIZE;
    }
}
fn class(n: usize) -> usize {
    // 64, 96, 128, 192, 256, ...
    let mut c = 0;
    let mut s = 64usize;
    loop {
        if n <= s {
            return c;
        }
        if n <= s + s / 2 {
            return c + 1;
        }
        s *= 2;
        c += 2;
    }
}
fn class_size(c: usize) -> usize {
    let s = 64usize << (c / 2);
    if c % 2 == 1 { s + s / 2 } else { s }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow();
        let align = l.align().max(16);
        let need = l.size() + core::mem::size_of::<Hdr>() + 16 + if align > 32 { align } else { 0 };
        if need > (1 << 33) {
            return core::ptr::null_mut();
        }
        let c = class(need);
        if c >= NCLS {
            return core::ptr::null_mut();
        }
        let mut b = FREE[c];
        if b != 0 {
            FREE[c] = *(b as *const usize);
        } else {
            b = BUMP;
            if b + class_size(c) > END {
                return core::ptr::null_mut();
            }
            BUMP += class_size(c);
        }
        let mut u = b + core::mem::size_of::<Hdr>();
        u = (u + align - 1) & !(align - 1);
        let h = (u - core::mem::size_of::<Hdr>()) as *mut Hdr;
        *h = Hdr { magic: MAGIC, size: l.size() as u64, cls: c as u32, off: (u - b) as u32, _p: MAGIC };
        if l.size() <= 1 << 16 {
            core::ptr::write_bytes(u as *mut u8, 0xA5, l.size());
        }
        core::ptr::write_bytes((u + l.size()) as *mut u8, 0xC3, 16);
        u as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = (p as usize - core::mem::size_of::<Hdr>()) as *mut Hdr;
        if (*h).magic == FREED {
            crate::sched::fail("heap-double-free", "memory freed twice");
        }
        if (*h).magic != MAGIC || (*h)._p != MAGIC || (*h).size != l.size() as u64 {
            crate::sched::fail("heap-corruption", "the header before an allocation was overwritten (or wrong size freed)");
        }
        for i in 0..16 {
            if *p.add(l.size() + i) != 0xC3 {
                crate::sched::fail("heap-corruption", "the bytes after an allocation were overwritten");
            }
        }
        (*h).magic = FREED;
        core::ptr::write_bytes(p, 0xDD, l.size().min(1 << 16));
        if (p as usize) < SIM_BASE {
            return;
        }
        // quarantine, then free list
        let old = Q[QI];
        Q[QI] = p as usize;
        QI = (QI + 1) % QUAR;
        if old != 0 {
            let oh = (old - core::mem::size_of::<Hdr>()) as *mut Hdr;
            let b = old - (*oh).off as usize;
            let c = (*oh).cls as usize;
            *(b as *mut usize) = FREE[c];
            FREE[c] = b;
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
