//! Which machine instructions touch memory that several callers can see. While an operation is being
//! single-stepped, the instruction about to run is decoded just far enough to know the address of its
//! memory operand; an access to the program's writable static data (statics, locks, caches) or a locked
//! instruction is a point where the order of callers can matter, and the scheduler can preempt there.
use std::sync::atomic::{AtomicUsize, Ordering::*};

const NR: usize = 8;
static LO: [AtomicUsize; NR] = [const { AtomicUsize::new(0) }; NR];
static HI: [AtomicUsize; NR] = [const { AtomicUsize::new(0) }; NR];
static N: AtomicUsize = AtomicUsize::new(0);

/// finds the writable data segments of this executable
pub fn install() {
    let me = std::env::current_exe().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut last_end = 0;
    let mut n = 0;
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 5 {
            continue;
        }
        let (a, b) = match f[0].split_once('-') {
            Some((a, b)) => (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0)),
            None => continue,
        };
        let path = f.get(5).copied().unwrap_or("");
        let own = path == me || (path.is_empty() && a == last_end);
        if own {
            last_end = b;
        }
        if own && f[1].starts_with("rw") && n < NR {
            LO[n].store(a, Relaxed);
            HI[n].store(b, Relaxed);
            n += 1;
        }
    }
    N.store(n, Relaxed);
}

fn shared(a: usize) -> bool {
    (0..N.load(Relaxed)).any(|i| a >= LO[i].load(Relaxed) && a < HI[i].load(Relaxed))
}

#[cfg(target_arch = "x86_64")]
const REGS: [i32; 16] = [
    libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI, libc::REG_RDI,
    libc::REG_R8, libc::REG_R9, libc::REG_R10, libc::REG_R11, libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
];

/// does the instruction at the stopped context's program counter access shared memory?
#[cfg(target_arch = "x86_64")]
pub unsafe fn touches(uc: &libc::ucontext_t) -> bool {
    let g = &uc.uc_mcontext.gregs;
    let reg = |i: u8| g[REGS[i as usize] as usize] as usize;
    let rip = g[libc::REG_RIP as usize] as usize;
    let b = |i: usize| *((rip + i) as *const u8);
    let mut i = 0;
    let (mut op16, mut lock, mut tls, mut rex) = (false, false, false, 0u8);
    loop {
        match b(i) {
            0x66 => op16 = true,
            0xF0 => lock = true,
            0x64 | 0x65 => tls = true,
            0x67 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 => {}
            _ => break,
        }
        i += 1;
        if i > 8 {
            return false;
        }
    }
    if tls {
        return false;
    }
    let mut vex_map = 0u8;
    let op;
    match b(i) {
        x @ 0x40..=0x4F => {
            rex = x;
            i += 1;
            op = b(i);
            i += 1;
        }
        0xC5 => {
            rex = if b(i + 1) & 0x80 == 0 { 4 } else { 0 };
            vex_map = 1;
            op = b(i + 2);
            i += 3;
        }
        0xC4 => {
            let p = !b(i + 1);
            rex = (p >> 5) & 7;
            vex_map = b(i + 1) & 31;
            op = b(i + 3);
            i += 4;
        }
        x => {
            op = x;
            i += 1;
        }
    }
    // does it have a ModRM byte, and how many immediate bytes follow the operand?
    let imm;
    let mut xchg = false;
    let mut z = if op16 { 2 } else { 4 };
    if vex_map != 0 {
        if vex_map == 1 && op == 0x77 {
            return false;
        }
        imm = if vex_map == 3 || (vex_map == 1 && matches!(op, 0x70..=0x73 | 0xC2 | 0xC4..=0xC6)) { 1 } else { 0 };
    } else if op == 0x0F {
        let o2 = b(i);
        i += 1;
        match o2 {
            0x38 => {
                i += 1;
                imm = 0;
            }
            0x3A => {
                i += 1;
                imm = 1;
            }
            0x05 | 0x0B | 0x0D | 0x18..=0x1F | 0x30..=0x37 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF => return false,
            _ => imm = if matches!(o2, 0x70..=0x73 | 0xA4 | 0xAC | 0xBA | 0xC2 | 0xC4..=0xC6) { 1 } else { 0 },
        }
    } else {
        match op {
            0xA4 | 0xA5 | 0xA6 | 0xA7 => return shared(reg(6)) || shared(reg(7)),
            0xAA | 0xAB | 0xAE | 0xAF => return shared(reg(7)),
            0x00..=0x3F if op & 7 < 4 => imm = 0,
            0x63 | 0x84..=0x8B | 0x8F | 0xD0..=0xD3 | 0xD8..=0xDF | 0xFE | 0xFF => {
                imm = 0;
                xchg = matches!(op, 0x86 | 0x87);
            }
            0x6B | 0x80 | 0x82 | 0x83 | 0xC0 | 0xC1 | 0xC6 => imm = 1,
            0x69 | 0x81 | 0xC7 => imm = z,
            0xF6 | 0xF7 => {
                if op == 0xF6 {
                    z = 1
                }
                imm = if b(i) >> 3 & 7 < 2 { z } else { 0 };
            }
            _ => return false,
        }
    }
    let m = b(i);
    i += 1;
    let (md, rm) = (m >> 6, m & 7);
    if md == 3 {
        return false;
    }
    let mut a: usize = 0;
    let mut base_none = false;
    if rm == 4 {
        let s = b(i);
        i += 1;
        let (sc, ix, bs) = (s >> 6, (s >> 3 & 7) | (rex & 2) << 2, (s & 7) | (rex & 1) << 3);
        if ix != 4 {
            a = reg(ix) << sc;
        }
        if md == 0 && bs & 7 == 5 {
            base_none = true;
        } else {
            a = a.wrapping_add(reg(bs));
        }
    } else if md == 0 && rm == 5 {
        let d = std::ptr::read_unaligned((rip + i) as *const i32) as isize as usize;
        a = rip.wrapping_add(i + 4 + imm).wrapping_add(d);
        return lock || xchg || shared(a);
    } else {
        a = reg(rm | (rex & 1) << 3);
    }
    if md == 1 {
        a = a.wrapping_add(b(i) as i8 as isize as usize);
    } else if md == 2 || base_none {
        a = a.wrapping_add(std::ptr::read_unaligned((rip + i) as *const i32) as isize as usize);
    }
    lock || xchg || shared(a)
}

#[cfg(not(target_arch = "x86_64"))]
pub unsafe fn touches(_: &libc::ucontext_t) -> bool {
    false
}
