//! The callbacks of the compiler's memory-access instrumentation (`-Zsanitizer=thread`). They are the
//! simulator's scheduling points; no sanitizer runtime is involved.
#![allow(clippy::missing_safety_doc)]
use crate::sched::{access, point, sync_point};
use core::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

macro_rules! acc {
    ($($name:ident $size:expr, $w:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut u8) {
            access(p as usize, $size, $w);
        }
    )*};
}
acc! {
    __tsan_read1 1, false; __tsan_read2 2, false; __tsan_read4 4, false; __tsan_read8 8, false; __tsan_read16 16, false;
    __tsan_write1 1, true; __tsan_write2 2, true; __tsan_write4 4, true; __tsan_write8 8, true; __tsan_write16 16, true;
    __tsan_unaligned_read2 2, false; __tsan_unaligned_read4 4, false; __tsan_unaligned_read8 8, false; __tsan_unaligned_read16 16, false;
    __tsan_unaligned_write2 2, true; __tsan_unaligned_write4 4, true; __tsan_unaligned_write8 8, true; __tsan_unaligned_write16 16, true;
    __tsan_volatile_read1 1, false; __tsan_volatile_read2 2, false; __tsan_volatile_read4 4, false; __tsan_volatile_read8 8, false; __tsan_volatile_read16 16, false;
    __tsan_volatile_write1 1, true; __tsan_volatile_write2 2, true; __tsan_volatile_write4 4, true; __tsan_volatile_write8 8, true; __tsan_volatile_write16 16, true;
    __tsan_unaligned_volatile_read2 2, false; __tsan_unaligned_volatile_read4 4, false; __tsan_unaligned_volatile_read8 8, false; __tsan_unaligned_volatile_read16 16, false;
    __tsan_unaligned_volatile_write2 2, true; __tsan_unaligned_volatile_write4 4, true; __tsan_unaligned_volatile_write8 8, true; __tsan_unaligned_volatile_write16 16, true;
    __tsan_read_write1 1, true; __tsan_read_write2 2, true; __tsan_read_write4 4, true; __tsan_read_write8 8, true; __tsan_read_write16 16, true;
    __tsan_unaligned_read_write2 2, true; __tsan_unaligned_read_write4 4, true; __tsan_unaligned_read_write8 8, true; __tsan_unaligned_read_write16 16, true;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_pc: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(p: *mut u8) {
    access(p as usize, 8, false);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(p: *mut u8, _v: *mut u8) {
    access(p as usize, 8, true);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(p: *mut u8, _n: usize) {
    access(p as usize, 1, false);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(p: *mut u8, _n: usize) {
    access(p as usize, 1, true);
}
unsafe fn range(p: *const u8, n: usize, w: bool) {
    if n > 0 {
        access(p as usize, 1, w);
        if n > 1 {
            access(p as usize + n - 1, 1, w);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    range(s, n, false);
    range(d, n, true);
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    range(s, n, false);
    range(d, n, true);
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    range(d, n, true);
    core::ptr::write_bytes(d, c as u8, n);
    d
}

// (Real ones: outside of runs, reference decoders may use threads the simulator does not schedule.)
macro_rules! atomics {
    ($($t:ty, $a:ident, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas_s:ident $cas_w:ident $cas_v:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _o: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), false);
            (*(p as *const $a)).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            (*(p as *const $a)).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            (*(p as *const $a)).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            (*(p as *const $a)).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            (*(p as *const $a)).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            (*(p as *const $a)).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            (*(p as *const $a)).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            (*(p as *const $a)).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            (*(p as *const $a)).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas_s(p: *mut $t, e: *mut $t, v: $t, _o: i32, _f: i32) -> bool {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            match (*(p as *const $a)).compare_exchange(*e, v, SeqCst, SeqCst) {
                Ok(_) => true,
                Err(x) => {
                    *e = x;
                    false
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas_w(p: *mut $t, e: *mut $t, v: $t, _o: i32, _f: i32) -> bool {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            match (*(p as *const $a)).compare_exchange(*e, v, SeqCst, SeqCst) {
                Ok(_) => true,
                Err(x) => {
                    *e = x;
                    false
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas_v(p: *mut $t, e: $t, v: $t, _o: i32, _f: i32) -> $t {
            sync_at(p as usize, core::mem::size_of::<$t>(), true);
            match (*(p as *const $a)).compare_exchange(e, v, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    )*};
}
#[inline(always)]
unsafe fn sync_at(p: usize, size: usize, write: bool) {
    access(p, size, write);
    sync_point();
}
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
    point();
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
