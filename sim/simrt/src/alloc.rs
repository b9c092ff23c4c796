//! The simulated heap: every allocation of a run comes from a fixed address range, at a placement and
//! with contents chosen by the seed, surrounded by guard bytes or by inaccessible pages.
#![allow(static_mut_refs)]
use crate::sched::{ACTIVE, IN_RT};
use crate::shared::{self, SH};
use crate::sys::{self, Rng};
use core::alloc::{GlobalAlloc, Layout};
use std::alloc::System;

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 1 << 34;
const SHADOW: usize = 0x2100_0000_0000;
const RT_BASE: usize = 0x2200_0000_0000;
const RT_SIZE: usize = 1 << 33;
const EF_BASE: usize = 0x2300_0000_0000;
const EF_SIZE: usize = 1 << 36;

#[derive(Clone, Default)]
pub struct HeapCfg {
    pub seed: u64,
    /// Reuse freed blocks at once (most recent first) instead of never.
    pub reuse: bool,
    /// Respect only the requested alignment, not more.
    pub odd: bool,
    /// One in `efence` allocations gets its own pages next to an inaccessible one (0: none).
    pub efence: u32,
    /// Keep an addressability map for checking every instrumented access.
    pub shadow: bool,
    /// Scheduling points at allocations.
    pub points: bool,
}

static mut CFG: HeapCfg = HeapCfg { seed: 0, reuse: true, odd: false, efence: 0, shadow: false, points: false };
static mut RNG: Rng = Rng(1);
static mut NEXT: usize = BASE;
static mut RT_NEXT: usize = RT_BASE;
static mut EF_NEXT: usize = EF_BASE;
static mut EF_COUNT: u64 = 0;
static mut SEQ: u64 = 0;
static mut BYTES: u64 = 0;
static mut REUSES: u64 = 0;
const CLASSES: usize = 160;
static mut FREE: [usize; CLASSES] = [0; CLASSES];
static mut RT_FREE: [usize; 48] = [0; 48];
/// All live or quarantined blocks, newest first (for the check at the end of a run).
static mut ALL: usize = 0;
static mut RESERVED: bool = false;

const MAGIC_LIVE: u64 = 0x51D3_A11C_0A71_CE55;
const MAGIC_FREE: u64 = 0xF4EE_D0B1_0CCC_AA33;
const POISON: u8 = 0xD7;
const RED: u8 = 0xA5;
const PROBE: usize = 8192;

#[repr(C)]
#[derive(Clone, Copy)]
struct Hdr {
    magic: u64,
    user: usize,
    size: usize,
    class: u32,
    off: u32,
    next_all: usize,
    next_free: usize,
    sum: u64,
    seq: u64,
}
const HDR: usize = core::mem::size_of::<Hdr>(); // 64

/// Reserves the address ranges. Once per worker, before the first run.
pub fn init() {
    unsafe {
        if RESERVED {
            return;
        }
        RESERVED = true;
        let rw = libc::PROT_READ | libc::PROT_WRITE;
        sys::mmap_fixed(BASE, SIZE, rw);
        sys::mmap_fixed(SHADOW, SIZE / 8, rw);
        sys::mmap_fixed(RT_BASE, RT_SIZE, rw);
        sys::mmap_fixed(EF_BASE, EF_SIZE, libc::PROT_NONE);
    }
}

/// Configures the heap of the run about to start (in the run's own process).
pub fn start(cfg: &HeapCfg) {
    unsafe {
        CFG = cfg.clone();
        RNG = Rng::new(cfg.seed);
        NEXT = BASE + (RNG.below(64) as usize) * 64;
    }
}

pub(crate) unsafe fn export_stats() {
    (*SH).allocs = SEQ;
    (*SH).alloc_bytes = BYTES;
    (*SH).reuses = REUSES;
    (*SH).efences = EF_COUNT;
}

/// At an address that is not the same in every execution of a run? (The harness's own heap, whose
/// layout depends on what its process did before, and what the C library allocated.)
#[inline]
pub(crate) fn is_own(addr: usize) -> bool {
    extern "C" {
        static _end: u8;
    }
    addr.wrapping_sub(RT_BASE) < RT_SIZE || addr >= 0x3000_0000_0000 || (addr < BASE && addr >= &raw const _end as usize)
}

#[inline]
fn class_of(total: usize) -> (usize, usize) {
    // (class, class size); total includes header and guards
    if total <= 2048 {
        let c = (total + 31) / 32;
        (c, c * 32)
    } else {
        // quarter steps between powers of two
        let b = usize::BITS as usize - 1 - (total - 1).leading_zeros() as usize; // floor(log2(total-1))
        let q = 1usize << (b - 2);
        let k = (total - 1 - (1 << b)) / q; // 0..3
        (64 + (b - 10) * 4 + k, (1 << b) + (k + 1) * q)
    }
}

unsafe fn bad(what: &str, h: &Hdr) -> ! {
    let mut b = Buf { b: [0; 256], n: 0 };
    use core::fmt::Write;
    let _ = write!(b, "{} (block of {} bytes)", what, h.size);
    shared::finish(shared::ST_MEMORY, core::str::from_utf8_unchecked(&b.b[..b.n]))
}
pub(crate) struct Buf {
    pub b: [u8; 256],
    pub n: usize,
}
impl core::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            if self.n < 256 {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
        Ok(())
    }
}

unsafe fn fill_garbage(p: *mut u8, n: usize, mut x: u64) {
    let mut i = 0;
    while i + 8 <= n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        core::ptr::write_unaligned(p.add(i) as *mut u64, x);
        i += 8;
    }
    while i < n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *p.add(i) = (x >> 33) as u8;
        i += 1;
    }
}

unsafe fn shadow_set(p: usize, n: usize, on: bool) {
    // one bit per byte
    let (mut a, e) = (p - BASE, p - BASE + n);
    while a < e {
        let s = (SHADOW + (a >> 3)) as *mut u8;
        let lo = a & 7;
        let cnt = (8 - lo).min(e - a);
        if cnt == 8 {
            let full = (e - a) / 8;
            core::ptr::write_bytes(s, if on { 0xFF } else { 0 }, full);
            a += full * 8;
            continue;
        }
        let m = (((1u32 << cnt) - 1) << lo) as u8;
        if on { *s |= m } else { *s &= !m }
        a += cnt;
    }
}

#[inline]
pub(crate) unsafe fn check_access(addr: usize, size: usize, write: bool) {
    if !(BASE..BASE + SIZE).contains(&addr) {
        return;
    }
    let a = addr - BASE;
    let m = ((1u32 << size) - 1) << (a & 7);
    let s = core::ptr::read_unaligned((SHADOW + (a >> 3)) as *const u32);
    if s & m != m {
        let mut b = Buf { b: [0; 256], n: 0 };
        use core::fmt::Write;
        let _ = write!(b, "{} of {} bytes outside every live buffer", if write { "write" } else { "read" }, size);
        shared::finish(shared::ST_MEMORY, core::str::from_utf8_unchecked(&b.b[..b.n]))
    }
}

#[inline]
fn hdr_sum(h: &Hdr) -> u64 {
    (h.user as u64).rotate_left(17) ^ (h.size as u64).rotate_left(31) ^ h.class as u64 ^ (h.off as u64) << 40 ^ h.magic ^ h.seq
}

unsafe fn check_guards(h: *mut Hdr, csize: usize) {
    if (*h).sum != hdr_sum(&*h) {
        let h0 = Hdr { size: 0, ..*h };
        bad("bytes before a buffer were overwritten", &h0);
    }
    let start = h as usize + HDR;
    for a in start..(*h).user {
        if *(a as *const u8) != RED {
            bad("bytes before a buffer were overwritten", &*h);
        }
    }
    let end = h as usize + csize;
    let mut a = (*h).user + (*h).size;
    let lim = end.min(a + 4096);
    while a < lim {
        if *(a as *const u8) != RED {
            bad("bytes after a buffer were overwritten", &*h);
        }
        a += 1;
    }
}

unsafe fn rt_alloc(l: &Layout) -> *mut u8 {
    let n = l.size().max(16).next_power_of_two().max(l.align());
    let c = n.trailing_zeros() as usize;
    if c < 48 && RT_FREE[c] != 0 {
        let p = RT_FREE[c];
        RT_FREE[c] = *(p as *const usize);
        return p as *mut u8;
    }
    let a = n.min(4096);
    RT_NEXT = (RT_NEXT + a - 1) & !(a - 1);
    let p = RT_NEXT;
    RT_NEXT += n;
    if RT_NEXT > RT_BASE + RT_SIZE {
        shared::finish(shared::ST_HARNESS, "runtime heap exhausted");
    }
    p as *mut u8
}
unsafe fn rt_free(p: *mut u8, l: &Layout) {
    let n = l.size().max(16).next_power_of_two().max(l.align());
    let c = n.trailing_zeros() as usize;
    *(p as *mut usize) = RT_FREE[c];
    RT_FREE[c] = p as usize;
}

unsafe fn ef_alloc(l: &Layout) -> *mut u8 {
    let pages = (l.size() + 4095) / 4096;
    let start = EF_NEXT + 4096;
    EF_NEXT = start + pages * 4096;
    if EF_NEXT + 4096 > EF_BASE + EF_SIZE {
        shared::finish(shared::ST_HARNESS, "guarded heap exhausted");
    }
    sys::mprotect(start, pages * 4096, libc::PROT_READ | libc::PROT_WRITE);
    EF_COUNT += 1;
    let head = RNG.below(4) == 0;
    let p = if head {
        start
    } else {
        (start + pages * 4096 - l.size()) & !(l.align() - 1)
    };
    fill_garbage(start as *mut u8, pages * 4096, CFG.seed ^ SEQ.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    p as *mut u8
}

unsafe fn sim_alloc(l: &Layout, zero: bool) -> *mut u8 {
    SEQ += 1;
    BYTES += l.size() as u64;
    if CFG.efence != 0 && l.size() > 0 && l.size() <= 1 << 24 && EF_COUNT < 25_000
        && (CFG.efence == 1 || RNG.below(CFG.efence as u64) == 0)
    {
        let p = ef_alloc(l);
        if zero {
            core::ptr::write_bytes(p, 0, l.size());
        }
        return p;
    }
    let al = l.align().max(1);
    let pad = if al <= 16 { 32 } else { al + 32 };
    let total = HDR + l.size() + pad + 16;
    if total > 1 << 30 {
        shared::finish(shared::ST_NOMEM, "an allocation of more than a gigabyte");
    }
    let (c, csize) = class_of(total);
    if c >= CLASSES {
        return core::ptr::null_mut();
    }
    let h: *mut Hdr;
    if CFG.reuse && FREE[c] != 0 {
        h = FREE[c] as *mut Hdr;
        if (*h).magic != MAGIC_FREE || (*h).sum != hdr_sum(&*h) {
            bad("a freed block was overwritten", &*h);
        }
        let (u, n) = ((*h).user, (*h).size.min(PROBE));
        for i in 0..n {
            if *((u + i) as *const u8) != POISON {
                bad("a buffer was written after it had been freed", &*h);
            }
        }
        FREE[c] = (*h).next_free;
        REUSES += 1;
    } else {
        h = NEXT as *mut Hdr;
        NEXT += csize;
        if NEXT > BASE + SIZE {
            shared::finish(shared::ST_HARNESS, "simulated heap exhausted");
        }
        (*h).next_all = ALL;
        ALL = h as usize;
    }
    // placement inside the block
    let lo = h as usize + HDR;
    let mut user = (lo + al - 1) & !(al - 1);
    if CFG.odd && al <= 16 {
        user += RNG.below((16 / al) as u64 + 1) as usize * al;
    } else if al < 16 {
        user = (lo + 15) & !15;
    }
    let end = h as usize + csize;
    debug_assert!(user + l.size() <= end);
    let all = (*h).next_all;
    *h = Hdr { magic: MAGIC_LIVE, user, size: l.size(), class: c as u32, off: (user - lo) as u32, next_all: all, next_free: 0, sum: 0, seq: SEQ };
    (*h).sum = hdr_sum(&*h);
    core::ptr::write_bytes(lo as *mut u8, RED, user - lo);
    // where the user pointer's block header is found again
    let tail = user + l.size();
    core::ptr::write_bytes(tail as *mut u8, RED, (end - tail).min(4096));
    if zero {
        core::ptr::write_bytes(user as *mut u8, 0, l.size());
    } else {
        fill_garbage(user as *mut u8, l.size().min(1 << 20), CFG.seed ^ SEQ.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    }
    // block start is recovered from the offset: user - off - HDR, off kept in a side table
    put_off(user, (user - h as usize) as u16);
    if CFG.shadow {
        shadow_set(user, l.size(), true);
    }
    user as *mut u8
}

// user pointer -> distance to its header (u16 per 16 bytes of arena would do, but user pointers may be
// odd; blocks are 32-byte granular, so the 64-byte-aligned-down slot of the header is unique)
const OFFTAB: usize = 0x2400_0000_0000;
static mut OFFTAB_ON: bool = false;
unsafe fn put_off(user: usize, d: u16) {
    if !OFFTAB_ON {
        OFFTAB_ON = true;
        sys::mmap_fixed(OFFTAB, SIZE / 16, libc::PROT_READ | libc::PROT_WRITE);
    }
    // two user pointers are at least HDR + 16 > 64 bytes apart, so a slot per 32 bytes is unique
    *((OFFTAB + ((user - BASE) >> 5) * 2) as *mut u16) = d;
}
unsafe fn get_hdr(user: usize) -> *mut Hdr {
    let d = *((OFFTAB + ((user - BASE) >> 5) * 2) as *const u16);
    (user - d as usize) as *mut Hdr
}

unsafe fn sim_free(p: *mut u8, _l: &Layout) {
    let a = p as usize;
    if (EF_BASE..EF_BASE + EF_SIZE).contains(&a) {
        let start = a & !4095;
        let n = (_l.size() + (a - start) + 4095) / 4096 * 4096;
        sys::mprotect(start, n, libc::PROT_NONE);
        return;
    }
    let h = get_hdr(a);
    if (*h).magic != MAGIC_LIVE || (*h).user != a {
        if (*h).magic == MAGIC_FREE {
            bad("a buffer was freed twice", &*h);
        }
        bad("bytes before a buffer were overwritten", &Hdr { size: 0, ..*h });
    }
    let csize = csize_of((*h).class as usize);
    check_guards(h, csize);
    core::ptr::write_bytes(p, POISON, (*h).size.min(PROBE));
    if (*h).size > PROBE {
        let n = (*h).size.min(1 << 20) - PROBE;
        core::ptr::write_bytes(p.add(PROBE), POISON ^ 0x5A, n);
    }
    if CFG.shadow {
        shadow_set(a, (*h).size, false);
    }
    (*h).magic = MAGIC_FREE;
    (*h).sum = hdr_sum(&*h);
    if CFG.reuse {
        let c = (*h).class as usize;
        (*h).next_free = FREE[c];
        FREE[c] = h as usize;
    }
}

fn csize_of(c: usize) -> usize {
    if c <= 64 {
        c * 32
    } else {
        let b = (c - 64) / 4 + 10;
        let k = (c - 64) % 4;
        (1usize << b) + (k + 1) * (1usize << (b - 2))
    }
}

/// Verifies the guard bytes of every block of the run; ends the run if any was damaged.
pub fn check_all() {
    unsafe {
        let mut h = ALL as *mut Hdr;
        while !h.is_null() {
            if (*h).magic != MAGIC_LIVE && (*h).magic != MAGIC_FREE {
                bad("bytes before a buffer were overwritten", &Hdr { size: 0, ..*h });
            }
            check_guards(h, csize_of((*h).class as usize));
            if (*h).magic == MAGIC_FREE {
                for i in 0..(*h).size.min(PROBE) {
                    if *(((*h).user + i) as *const u8) != POISON {
                        bad("a buffer was written after it had been freed", &*h);
                    }
                }
            }
            h = (*h).next_all as *mut Hdr;
        }
    }
}

fn is_sim(a: usize) -> bool {
    (BASE..BASE + SIZE).contains(&a) || (EF_BASE..EF_BASE + EF_SIZE).contains(&a)
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ACTIVE {
            return System.alloc(l);
        }
        if IN_RT != 0 {
            return rt_alloc(&l);
        }
        if CFG.points {
            crate::sched::sync_point();
        }
        IN_RT += 1;
        let p = sim_alloc(&l, false);
        IN_RT -= 1;
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ACTIVE {
            return System.alloc_zeroed(l);
        }
        if IN_RT != 0 {
            let p = rt_alloc(&l);
            core::ptr::write_bytes(p, 0, l.size());
            return p;
        }
        if CFG.points {
            crate::sched::sync_point();
        }
        IN_RT += 1;
        let p = sim_alloc(&l, true);
        IN_RT -= 1;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if is_sim(a) {
            if ACTIVE && IN_RT == 0 && CFG.points {
                crate::sched::sync_point();
            }
            if ACTIVE {
                IN_RT += 1;
                sim_free(p, &l);
                IN_RT -= 1;
            }
        } else if (RT_BASE..RT_BASE + RT_SIZE).contains(&a) {
            rt_free(p, &l);
        } else {
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let a = p as usize;
        if !ACTIVE && !is_sim(a) && !(RT_BASE..RT_BASE + RT_SIZE).contains(&a) {
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
