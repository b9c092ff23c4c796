//! Raw system calls (never routed through the symbols this crate replaces).
use core::arch::asm;

pub const FUTEX_WAIT_PRIVATE: usize = 128;
pub const FUTEX_WAKE_PRIVATE: usize = 129;

#[inline]
pub unsafe fn sc6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline]
pub unsafe fn sc3(n: usize, a: usize, b: usize, c: usize) -> isize {
    sc6(n, a, b, c, 0, 0, 0)
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(libc::SYS_futex as usize, addr as usize, FUTEX_WAIT_PRIVATE, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    sc6(libc::SYS_futex as usize, addr as usize, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    loop {
        sc3(libc::SYS_exit_group as usize, code as usize, 0, 0);
    }
}
pub unsafe fn mmap_fixed(addr: usize, len: usize, prot: i32) {
    let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
    let r = sc6(libc::SYS_mmap as usize, addr, len, prot as usize, flags as usize, usize::MAX, 0);
    if r as usize != addr {
        die("simrt: cannot reserve the simulated address space");
    }
}
pub unsafe fn mprotect(addr: usize, len: usize, prot: i32) {
    if sc3(libc::SYS_mprotect as usize, addr, len, prot as usize) != 0 {
        die("simrt: mprotect failed");
    }
}
pub unsafe fn write_err(s: &[u8]) {
    sc3(libc::SYS_write as usize, 2, s.as_ptr() as usize, s.len());
}
/// A failure of the simulator itself.
pub fn die(msg: &str) -> ! {
    unsafe {
        write_err(msg.as_bytes());
        write_err(b"\n");
        exit_group(70)
    }
}

/// SplitMix64-seeded xorshift; the only random source in a run.
#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub const fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        let s = z ^ (z >> 31);
        Rng(if s == 0 { 0x1234567 } else { s })
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() >> 11) as u128 * n as u128 >> 53) as u64 }
    }
    /// True with probability `pm` / 1000000.
    #[inline]
    pub fn chance(&mut self, ppm: u64) -> bool {
        ppm != 0 && self.below(1_000_000) < ppm
    }
    /// Geometrically distributed distance with the given mean (at least 1).
    pub fn geom(&mut self, mean: u64) -> u64 {
        // -ln(u) * mean, integer-only so that it is identical everywhere
        let u = (self.next() >> 40) as u32 | 1; // 24 bits
        let lz = (u.leading_zeros() - 8) as u64; // 0..24 : -log2(u) integer part
        let frac = ((u as u64) << lz) & 0xFFFFFF; // mantissa below the leading one
        let frac = (frac & 0x7FFFFF) >> 13; // 10 bits, 0..1023
        let neglog2_milli = lz * 1024 + (1024 - frac); // about -log2(u) * 1024
        1 + (neglog2_milli * mean * 693) / (1000 * 1024)
    }
}
