//! The simulated heap. Real memory comes from the system allocator; on top of it the simulator decides
//! which allocations fail, what fresh / neighbouring / freed memory contains, and audits every block:
//! guard zones, double frees, writes after free, and conservation of what library code allocated.
use crate::ctl::{AllocFault, Fault, CTL};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU8, AtomicUsize, Ordering::*};

pub struct SimAlloc;
pub static FILL: AtomicU8 = AtomicU8::new(0);
/// number of library blocks placed so far in this execution
pub static PLACED: AtomicUsize = AtomicUsize::new(0);
/// live blocks / bytes allocated by library code
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
/// first memory violation seen: 0 none, 1 guard zone overwritten, 2 double/invalid free, 3 write after free
pub static MEMVIOL: AtomicU32 = AtomicU32::new(0);
static QLOCK: AtomicBool = AtomicBool::new(false);
const QN: usize = 32;
/// block, size, poison, offset
struct Q(std::cell::UnsafeCell<[(usize, usize, u8, u16); QN]>, AtomicUsize);
unsafe impl Sync for Q {}
static QUAR: Q = Q(std::cell::UnsafeCell::new([(0, 0, 0, 0); QN]), AtomicUsize::new(0));

const MAGIC: u64 = 0x4D4F_5254_4F4E_2121;
const DEAD: u64 = 0xDEAD_DEAD_4D4F_5254;
const HDR: usize = 64;
const TAIL: usize = 32;
const JIT: usize = 16;

// header lives in the last 32 bytes before the block
#[repr(C)]
struct Head {
    magic: u64,
    size: u64,
    tag: u8,
    pat: u8,
    /// distance from the block's lowest possible address
    off: u16,
    hdr: u32,
    guard: u64,
}

fn pat(fill: u8) -> u8 {
    match fill {
        0 => 0x00,
        1 => 0xFF,
        2 => 0x5A,
        3 => 0xB6,
        f => f,
    }
}

/// the byte that memory nobody has written to contains in this execution
pub fn pattern() -> u8 {
    pat(FILL.load(Relaxed))
}

fn full(l: &Layout) -> (Layout, usize) {
    let hdr = HDR.max(l.align());
    unsafe { (Layout::from_size_align_unchecked(hdr + l.size() + TAIL + JIT, hdr), hdr) }
}

impl SimAlloc {
    /// decides whether an allocation made by library code fails
    #[inline]
    fn refuse(&self, size: usize) -> bool {
        CTL.with(|c| {
            if !c.in_lib.get() || std::thread::panicking() {
                return false;
            }
            let n = c.alloc_n.get();
            c.alloc_n.set(n + 1);
            c.lib_allocs.set(c.lib_allocs.get() + 1);
            let r = match c.armed.get() {
                Fault::AllocNth(k) => n == k,
                Fault::AllocFrom(k) => n >= k,
                Fault::AllocOver(k) => size > k as usize,
                _ => false,
            };
            if r {
                c.fired.set(true);
            }
            r
        })
    }
    unsafe fn get(&self, l: Layout, zero: bool) -> *mut u8 {
        let stepping = CTL.with(|c| {
            let s = c.stepping.get();
            if s {
                crate::sched::tf_off();
            }
            s
        });
        let p = self.get2(l, zero);
        if stepping {
            crate::sched::tf_on();
        }
        p
    }
    unsafe fn get2(&self, l: Layout, zero: bool) -> *mut u8 {
        // a machine has an end: one runaway operation must not take the checking machine down
        if l.size() > (1 << 31) || LIVE_BYTES.load(Relaxed) > (1 << 30) || self.refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let edge = EDGE.load(Relaxed);
        if edge != 0 && CTL.with(|c| c.in_lib.get()) && !std::thread::panicking() {
            let p = edge_get(&l, edge, zero);
            if !p.is_null() {
                return p;
            }
        }
        let (fl, hdr) = full(&l);
        let base = System.alloc(fl);
        if base.is_null() {
            return base;
        }
        let tagged = CTL.with(|c| c.in_lib.get()) && !std::thread::panicking();
        // where a block lies is no more than its alignment promises
        let off = if tagged && l.align() < JIT {
            let n = PLACED.fetch_add(1, Relaxed).wrapping_mul(11).wrapping_add(3) % JIT;
            n & !(l.align() - 1)
        } else {
            0
        };
        let p = base.add(hdr + off);
        let pt = pat(FILL.load(Relaxed));
        (p.sub(32) as *mut Head).write_unaligned(Head {
            magic: MAGIC,
            size: l.size() as u64,
            tag: tagged as u8,
            pat: pt,
            off: off as u16,
            guard: u64::from_ne_bytes([pt; 8]),
            hdr: hdr as u32,
        });
        std::ptr::write_bytes(p.add(l.size()), pt, TAIL);
        if zero {
            std::ptr::write_bytes(p, 0, l.size());
        } else if tagged {
            std::ptr::write_bytes(p, pt, l.size());
        }
        if tagged {
            LIVE.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        }
        p
    }
    unsafe fn put(&self, p: *mut u8, l: Layout) {
        let a = ARENA.load(Relaxed);
        if a != 0 && (p as usize) >= a && (p as usize) < a + ESLOTS * EPITCH {
            edge_put(p, &l);
            return;
        }
        let (fl, hdr) = full(&l);
        let hp = p.sub(32) as *mut Head;
        let h = hp.read_unaligned();
        if h.magic != MAGIC || h.size != l.size() as u64 || h.hdr as usize != hdr || h.off as usize >= JIT {
            let _ = MEMVIOL.compare_exchange(0, 2, SeqCst, SeqCst);
            return; // leak it rather than corrupt the process
        }
        let pt = h.pat;
        let mut bad = h.guard != u64::from_ne_bytes([pt; 8]);
        for i in 0..TAIL {
            bad |= *p.add(l.size() + i) != pt;
        }
        if bad {
            let _ = MEMVIOL.compare_exchange(0, 1, SeqCst, SeqCst);
        }
        (hp as *mut u64).write_unaligned(DEAD);
        if h.tag == 1 {
            LIVE.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
            let poison = !pt ^ 0x11;
            std::ptr::write_bytes(p, poison, l.size());
            if hdr == HDR {
                self.quarantine(p, l.size(), poison, h.off);
                return;
            }
        }
        System.dealloc(p.sub(hdr + h.off as usize), fl);
    }
    unsafe fn quarantine(&self, p: *mut u8, size: usize, poison: u8, off: u16) {
        while QLOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let i = QUAR.1.fetch_add(1, Relaxed) % QN;
        let old = std::mem::replace(&mut (*QUAR.0.get())[i], (p as usize, size, poison, off));
        QLOCK.store(false, Release);
        Self::evict(old);
    }
    unsafe fn evict(old: (usize, usize, u8, u16)) {
        if old.0 != 0 {
            let q = old.0 as *mut u8;
            for k in 0..old.1 {
                if *q.add(k) != old.2 {
                    let _ = MEMVIOL.compare_exchange(0, 3, SeqCst, SeqCst);
                    break;
                }
            }
            System.dealloc(q.sub(HDR + old.3 as usize), Layout::from_size_align_unchecked(HDR + old.1 + TAIL + JIT, HDR));
        }
    }
}

/// empties the quarantine, checking every block in it
pub fn flush_quarantine() {
    for i in 0..QN {
        unsafe {
            let old = std::mem::replace(&mut (*QUAR.0.get())[i], (0, 0, 0, 0));
            SimAlloc::evict(old);
        }
    }
    QUAR.1.store(0, Relaxed);
    let a = ARENA.load(Relaxed);
    if a != 0 {
        for (i, s) in unsafe { &mut *SLOTS.0.get() }.iter_mut().enumerate() {
            if s.0 == 0 && s.1 != 0 {
                unsafe { check((a + i * EPITCH + EROOM) as *const u8, EROOM, s.1, 3) };
                s.1 = 0;
            }
        }
        SLOTS.1.store(0, Relaxed);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let stepping = CTL.with(|c| {
            let s = c.stepping.get();
            if s {
                crate::sched::tf_off();
            }
            s
        });
        self.put(p, l);
        if stepping {
            crate::sched::tf_on();
        }
    }
    // realloc: the default (allocate, copy, free) - every growth moves, and may fail
}

pub fn alloc_error(_l: Layout) {
    crate::ctl::panic_begins();
    std::panic::resume_unwind(Box::new(AllocFault));
}

// ---- blocks at the edge of accessible memory ---------------------------------------------------
/// 0: off; 1: blocks end at the end of accessible memory; 2: blocks start where it starts
pub static EDGE: AtomicU8 = AtomicU8::new(0);
static ARENA: AtomicUsize = AtomicUsize::new(0);
const ESLOTS: usize = 512;
const EROOM: usize = 4096;
const EPITCH: usize = 2 * EROOM;
/// per slot: size in use + 1 (0: free), or poison that a free slot must still contain
struct Slots(std::cell::UnsafeCell<[(u32, u8); ESLOTS]>, AtomicUsize);
unsafe impl Sync for Slots {}
static SLOTS: Slots = Slots(std::cell::UnsafeCell::new([(0, 0); ESLOTS]), AtomicUsize::new(0));

/// only used by runs with a single caller
unsafe fn edge_get(l: &Layout, edge: u8, zero: bool) -> *mut u8 {
    if l.size() > EROOM || l.align() > 64 || l.size() == 0 {
        return std::ptr::null_mut();
    }
    let mut a = ARENA.load(Relaxed);
    if a == 0 {
        // inaccessible, accessible, inaccessible, ..
        let m = libc::mmap(std::ptr::null_mut(), ESLOTS * EPITCH + EROOM, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if m == libc::MAP_FAILED {
            return std::ptr::null_mut();
        }
        a = m as usize;
        for i in 0..ESLOTS {
            if libc::mprotect((a + i * EPITCH + EROOM) as *mut libc::c_void, EROOM, libc::PROT_READ | libc::PROT_WRITE) != 0 {
                return std::ptr::null_mut();
            }
        }
        ARENA.store(a, Relaxed);
    }
    let slots = &mut *SLOTS.0.get();
    let start = SLOTS.1.load(Relaxed);
    let i = match (0..ESLOTS).map(|k| (start + k) % ESLOTS).find(|i| slots[*i].0 == 0) {
        Some(i) => i,
        None => return std::ptr::null_mut(),
    };
    SLOTS.1.store(i + 1, Relaxed);
    let page = (a + i * EPITCH + EROOM) as *mut u8;
    if slots[i].1 != 0 {
        check(page, EROOM, slots[i].1, 3);
    }
    let pt = pat(FILL.load(Relaxed));
    std::ptr::write_bytes(page, pt, EROOM);
    let p = if edge == 1 { page.add((EROOM - l.size()) & !(l.align() - 1)) } else { page };
    if zero {
        std::ptr::write_bytes(p, 0, l.size());
    }
    slots[i] = (l.size() as u32 + 1, pt);
    LIVE.fetch_add(1, Relaxed);
    LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
    p
}

unsafe fn check(p: *const u8, n: usize, want: u8, what: u32) {
    let (a, b, c) = std::slice::from_raw_parts(p, n).align_to::<u64>();
    let w = u64::from_ne_bytes([want; 8]);
    let mut diff = 0u64;
    for x in b {
        diff |= *x ^ w;
    }
    if diff != 0 || a.iter().chain(c).any(|x| *x != want) {
        let _ = MEMVIOL.compare_exchange(0, what, SeqCst, SeqCst);
    }
}

unsafe fn edge_put(p: *mut u8, l: &Layout) {
    let a = ARENA.load(Relaxed);
    let i = (p as usize - a) / EPITCH;
    let page = (a + i * EPITCH + EROOM) as *mut u8;
    let slots = &mut *SLOTS.0.get();
    let (size, pt) = slots[i];
    if size as usize != l.size() + 1 || (p as usize) < page as usize {
        let _ = MEMVIOL.compare_exchange(0, 2, SeqCst, SeqCst);
        return;
    }
    let off = p as usize - page as usize;
    check(page, off, pt, 1);
    check(p.add(l.size()), EROOM - off - l.size(), pt, 1);
    let poison = (!pt ^ 0x11) | 1;
    std::ptr::write_bytes(page, poison, EROOM);
    slots[i] = (0, poison);
    LIVE.fetch_sub(1, Relaxed);
    LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
}
