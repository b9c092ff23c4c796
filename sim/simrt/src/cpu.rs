//! CPU features as std's detection reports them: its cache of the feature bits, found through the symbol
//! table of the executable, holds what the simulated host has. (Only ever a subset of what the CPU has.)
use crate::sys::Rng;

const INIT: usize = 1 << 63;
static mut CACHE: *mut usize = std::ptr::null_mut();
static mut REAL: [usize; 3] = [0; 3];

/// Finds the cache; once, before any run.
pub fn init() {
    let _ = std::is_x86_feature_detected!("avx2"); // (fills it)
    unsafe {
        CACHE = find().unwrap_or(std::ptr::null_mut());
        if !CACHE.is_null() {
            for k in 0..3 {
                REAL[k] = *CACHE.add(k);
            }
            if REAL[0] & INIT == 0 {
                CACHE = std::ptr::null_mut();
            }
        }
    }
}
pub fn found() -> bool {
    unsafe { !CACHE.is_null() }
}

fn find() -> Option<*mut usize> {
    let exe = std::fs::read("/proc/self/exe").ok()?;
    let u16_ = |o: usize| Some(u16::from_le_bytes(exe.get(o..o + 2)?.try_into().ok()?) as usize);
    let u32_ = |o: usize| Some(u32::from_le_bytes(exe.get(o..o + 4)?.try_into().ok()?) as usize);
    let u64_ = |o: usize| Some(u64::from_le_bytes(exe.get(o..o + 8)?.try_into().ok()?) as usize);
    let (shoff, shsize, shnum) = (u64_(0x28)?, u16_(0x3A)?, u16_(0x3C)?);
    let (mut cache, mut known) = (None, None);
    for k in 0..shnum {
        let h = shoff + k * shsize;
        if u32_(h + 4)? != 2 {
            continue; // not SYMTAB
        }
        let (off, size, link) = (u64_(h + 0x18)?, u64_(h + 0x20)?, u32_(h + 0x28)?);
        let names = u64_(shoff + link * shsize + 0x18)?;
        for o in (off..off + size).step_by(24) {
            let at = names + u32_(o)?;
            let name = &exe[at..at + exe[at..].iter().position(|b| *b == 0)?];
            let has = |s: &[u8]| name.windows(s.len()).any(|w| w == s);
            if name == b"imgproc_sim_cpu_has" {
                known = Some(u64_(o + 8)?);
            } else if has(b"std_detect") && has(b"detect5cache5CACHE") {
                cache = Some(u64_(o + 8)?);
            }
        }
    }
    let base = (crate::interpose::imgproc_sim_cpu_has as usize).wrapping_sub(known?);
    Some(base.wrapping_add(cache?) as *mut usize)
}

/// What the host reports from now on.
pub unsafe fn set(mode: u8, seed: u64) {
    if CACHE.is_null() {
        return;
    }
    let mut r = Rng::new(seed);
    let how = match mode {
        0 => 0,
        1 => 1,
        _ => 2 + r.below(2),
    };
    for k in 0..3 {
        let m = match how {
            0 => 0,
            1 => usize::MAX,
            2 => r.next() as usize,
            _ => (r.next() | r.next()) as usize,
        };
        CACHE.add(k).write_volatile(REAL[k] & m | INIT);
    }
}
