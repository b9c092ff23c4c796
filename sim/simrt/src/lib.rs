#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! The simulator: scheduler, clock, file system, heap, randomness and CPU features of a run.
#![allow(static_mut_refs)]
pub mod alloc;
pub mod cpu;
pub mod fs;
pub mod interpose;
pub mod sched;
pub mod shared;
pub mod sys;
pub mod tsan;

static mut ON_CRASH: Option<fn()> = None;
/// Called when a simulated crash ends the process, to hand over what survived.
pub fn set_on_crash(f: fn()) {
    unsafe { ON_CRASH = Some(f) }
}
unsafe fn on_crash() {
    if let Some(f) = ON_CRASH {
        f()
    }
}

// What instrumented code calls here must not be inlined there: it would be instrumented, too.
#[inline(never)]
fn enter() {
    unsafe { sched::IN_RT += 1 }
}
#[inline(never)]
fn leave() {
    unsafe { sched::IN_RT -= 1 }
}

/// Bookkeeping of the harness: no scheduling points, runtime heap.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            leave()
        }
    }
    enter();
    let _g = G;
    f()
}

/// Ends the run because the harness itself is at fault.
#[inline(never)]
pub fn harness_error(m: &str) -> ! {
    unsafe { shared::finish(shared::ST_HARNESS, m) }
}

/// Once per worker process.
pub fn init() {
    shared::init();
    alloc::init();
    sched::init();
    cpu::init();
}

/// Runs `f`, which must end the process, on a stack whose address does not depend on the caller.
pub fn on_fixed_stack<F: FnOnce()>(f: F) {
    sched::on_fixed_stack(f)
}

extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    unsafe {
        let a = (*info).si_addr() as usize;
        let mut b = alloc::Buf { b: [0; 256], n: 0 };
        use core::fmt::Write;
        let what = match sig {
            libc::SIGSEGV | libc::SIGBUS => "invalid memory access",
            libc::SIGABRT => "abort",
            libc::SIGILL => "illegal instruction",
            libc::SIGFPE => "arithmetic trap",
            _ => "signal",
        };
        let _ = write!(b, "{} (signal {})", what, sig);
        let _ = a;
        shared::finish(shared::ST_SEGV, core::str::from_utf8_unchecked(&b.b[..b.n]))
    }
}

/// Turns fatal signals into a reported end of the run (in the run's own process).
pub fn catch_signals() {
    unsafe {
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(s, &sa, core::ptr::null_mut());
        }
    }
}
