//! The scheduler. Every thread of a run is a real thread, but exactly one of them (the one holding
//! the baton) executes; who runs next is decided here, at instrumented memory accesses, atomics,
//! futex calls, yields, allocations and I/O calls, from one seed or from an explicit list.
#![allow(static_mut_refs)]
use crate::shared::{self, Decision, SH};
use crate::sys::{self, Rng};
use core::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 256;
pub const SPURIOUS: u16 = 0xFFFF;

const UNUSED: u8 = 0;
const RUNNABLE: u8 = 1;
const BLOCKED: u8 = 2;
const DONE: u8 = 3;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Point,
    Yield,
    Block,
    Fair,
}

pub const POL_NONE: u8 = 0;
pub const POL_RANDOM: u8 = 1;
pub const POL_PCT: u8 = 2;
pub const POL_RR: u8 = 3;

#[derive(Clone, Default)]
pub struct Cfg {
    pub seed: u64,
    pub policy: u8,
    /// Replay: default decisions except at the listed places.
    pub explicit: bool,
    pub overrides: Vec<Decision>,
    /// Mean distance of random preemptions, in scheduling points.
    pub mean: u64,
    pub conflict_ppm: u64,
    pub sync_ppm: u64,
    pub spurious_ppm: u64,
    pub quantum: u64,
    pub pct_depth: u32,
    pub pct_len: u64,
    /// No thread runs more than this many points while others could run.
    pub fair: u64,
    /// Steps after which a run counts as not finishing.
    pub budget: u64,
    pub memcheck: bool,
    pub clock0: u64,
    pub clock_jumps: bool,
    pub ncpu: u32,
    pub hash_seed: u64,
    /// 0: no optional CPU features, 1: all the host has, 2 and 3: a seeded choice of them
    pub cpu: u8,
}

#[repr(C)]
struct Thr {
    wake: AtomicU32,
    state: u8,
    timed_out: bool,
    key_kind: u8,
    lp: u64,
    key: usize,
    deadline: u64,
    wait_seq: u64,
    prio: i64,
    native: u64,
    start: usize,
    arg: usize,
    ov: usize,
    ov_end: usize,
}

const KK_FUTEX: u8 = 1;
const KK_JOIN: u8 = 2;
const KK_SLEEP: u8 = 3;

#[allow(clippy::declare_interior_mutable_const)]
const T0: Thr = Thr {
    wake: AtomicU32::new(0), state: UNUSED, timed_out: false, key_kind: 0, lp: 0, key: 0, deadline: u64::MAX,
    wait_seq: 0, prio: 0, native: 0, start: 0, arg: 0, ov: 0, ov_end: 0,
};

static mut T: [Thr; MAXT] = [T0; MAXT];
static mut NT: usize = 0;
static mut CUR: usize = 0;
static mut N_RUN: usize = 0;
static mut N_TIMERS: usize = 0;
static mut WAIT_SEQ: u64 = 0;

/// True inside a run; all seams fall through to the real system otherwise.
pub static mut ACTIVE: bool = false;
/// Greater than zero while runtime code executes (no scheduling, runtime heap).
pub static mut IN_RT: u32 = 0;

static mut LP: u64 = 0;
static mut NEXT_LP: u64 = 0;
static mut SLICE0: u64 = 0;
static mut STEPS_BASE: u64 = 0;
static mut NEXT_PREEMPT: u64 = u64::MAX;
static mut SYNC_PPM: u64 = 0;
static mut CONFLICT_PPM: u64 = 0;
static mut MEMCHECK: bool = false;
static mut RNG: Rng = Rng(1);
static mut RND: Rng = Rng(1);
static mut CPU_SEED: u64 = 0;
static mut CLOCK_EXTRA: u64 = 0;
static mut CLOCK_CALLS: u64 = 0;
static mut PCT_POINTS: [u64; 16] = [u64::MAX; 16];
static mut PCT_N: usize = 0;
static mut PCT_I: usize = 0;
static mut LOW_PRIO: i64 = -1;
static mut OVR: Vec<Decision> = Vec::new();
static mut CFG: Cfg = Cfg {
    seed: 0, policy: 0, explicit: false, overrides: Vec::new(), mean: 0, conflict_ppm: 0, sync_ppm: 0, spurious_ppm: 0,
    quantum: 0, pct_depth: 0, pct_len: 0, fair: 0, budget: 0, memcheck: false, clock0: 0, clock_jumps: false, ncpu: 1,
    hash_seed: 0, cpu: 1,
};
static mut CONFLICTS: u64 = 0;
static mut SWITCHES: u64 = 0;
static mut HASH: u64 = 0xcbf29ce484222325;
static mut SPURIOUS_N: u64 = 0;
static mut TIMERS_FIRED: u64 = 0;
static mut CPU_ASKS: u64 = 0;
static mut CPU_NO: u64 = 0;
static mut RAND_BYTES: u64 = 0;
static mut MEMCHECKS: u64 = 0;

#[derive(Clone, Copy)]
struct Tag {
    granule: usize,
    w: u16,
    r: u16,
}
const NOBODY: u16 = 0xFFFF;
const TAGS: usize = 1 << 15;
static mut TAG: [Tag; TAGS] = [Tag { granule: 0, w: NOBODY, r: NOBODY }; TAGS];

#[inline]
unsafe fn steps() -> u64 {
    STEPS_BASE + (LP - SLICE0)
}

#[inline(never)]
pub fn steps_now() -> u64 {
    unsafe { steps() }
}
#[inline(never)]
pub fn current() -> usize {
    unsafe { CUR }
}

pub(crate) unsafe fn export_stats() {
    let s = &mut *SH;
    s.steps = steps();
    s.switches = SWITCHES;
    s.conflicts = CONFLICTS;
    s.spurious = SPURIOUS_N;
    s.clock_ns = clock_peek();
    s.clock0_ns = CFG.clock0;
    s.sched_hash = HASH;
    s.timers_fired = TIMERS_FIRED;
    s.n_threads = NT as u32;
    s.cpu_asks = CPU_ASKS;
    s.cpu_no = CPU_NO;
    s.rand_bytes = RAND_BYTES;
    s.memchecks = MEMCHECKS;
    crate::alloc::export_stats();
}

/// Starts a run in the calling (single) thread.
pub fn start(cfg: &Cfg) {
    unsafe {
        CFG = cfg.clone();
        RNG = Rng::new(cfg.seed);
        RND = Rng::new(cfg.hash_seed);
        CPU_SEED = cfg.seed ^ 0xC0FFEE5 ^ cfg.hash_seed;
        crate::cpu::set(cfg.cpu, CPU_SEED);
        OVR = cfg.overrides.clone();
        OVR.sort_by_key(|d| (d.tid, d.lp));
        for t in 0..MAXT {
            T[t].ov = OVR.partition_point(|d| (d.tid as usize) < t);
            T[t].ov_end = OVR.partition_point(|d| (d.tid as usize) <= t);
        }
        NT = 1;
        N_RUN = 1;
        CUR = 0;
        T[0].state = RUNNABLE;
        LP = 0;
        SLICE0 = 0;
        STEPS_BASE = 0;
        SYNC_PPM = if cfg.explicit || cfg.policy != POL_RANDOM { 0 } else { cfg.sync_ppm };
        CONFLICT_PPM = if cfg.explicit || cfg.policy != POL_RANDOM { 0 } else { cfg.conflict_ppm };
        MEMCHECK = cfg.memcheck;
        PCT_N = 0;
        if cfg.policy == POL_PCT && !cfg.explicit {
            PCT_N = (cfg.pct_depth as usize).min(16);
            for i in 0..PCT_N {
                PCT_POINTS[i] = RNG.below(cfg.pct_len.max(1));
            }
            PCT_POINTS[..PCT_N].sort_unstable();
            T[0].prio = RNG.below(1 << 40) as i64;
        }
        new_preempt();
        rearm();
        ACTIVE = true;
    }
}

/// Ends the run: the seams fall through to the real system again.
#[inline(never)]
pub fn stop() {
    unsafe {
        ACTIVE = false;
        export_stats();
    }
}

unsafe fn new_preempt() {
    NEXT_PREEMPT = if CFG.explicit {
        u64::MAX
    } else {
        match CFG.policy {
            POL_RANDOM if CFG.mean > 0 => LP + RNG.geom(CFG.mean),
            POL_RR => LP + CFG.quantum.max(1),
            POL_PCT if PCT_I < PCT_N => LP + PCT_POINTS[PCT_I].saturating_sub(steps()).max(1),
            _ => u64::MAX,
        }
    };
}

unsafe fn rearm() {
    let mut n = SLICE0 + CFG.fair;
    n = n.min(LP + CFG.budget.saturating_sub(steps()).max(1));
    n = n.min(NEXT_PREEMPT);
    if CFG.explicit {
        let t = &mut T[CUR];
        while t.ov < t.ov_end && OVR[t.ov].lp <= LP {
            t.ov += 1;
        }
        if t.ov < t.ov_end {
            n = n.min(OVR[t.ov].lp);
        }
    }
    NEXT_LP = n;
}

unsafe fn rr_next(cur: usize) -> usize {
    let mut i = cur + 1;
    for _ in 0..NT {
        if i >= NT {
            i = 0;
        }
        if i != cur && T[i].state == RUNNABLE {
            return i;
        }
        i += 1;
    }
    cur
}

/// The `k`th runnable thread other than `cur`.
unsafe fn nth_other(cur: usize, mut k: u64) -> usize {
    for i in 0..NT {
        if i != cur && T[i].state == RUNNABLE {
            if k == 0 {
                return i;
            }
            k -= 1;
        }
    }
    cur
}

unsafe fn log(target: u16, kind: u32) {
    let n = (*SH).n_dec as usize;
    if n < shared::MAX_DEC {
        (*SH).dec[n] = Decision { tid: CUR as u16, target, kind, lp: LP };
        (*SH).n_dec = n as u32 + 1;
    } else {
        (*SH).dec_overflow += 1;
    }
}

unsafe fn check_timers() {
    if N_TIMERS == 0 {
        return;
    }
    let now = clock_peek();
    for i in 0..NT {
        if T[i].state == BLOCKED && T[i].deadline <= now {
            fire(i);
        }
    }
}

unsafe fn fire(i: usize) {
    T[i].timed_out = true;
    TIMERS_FIRED += 1;
    make_runnable(i);
}

unsafe fn make_runnable(i: usize) {
    if T[i].deadline != u64::MAX {
        N_TIMERS -= 1;
        T[i].deadline = u64::MAX;
    }
    T[i].state = RUNNABLE;
    N_RUN += 1;
    if CFG.policy == POL_PCT && !CFG.explicit && T[i].prio > T[CUR].prio {
        NEXT_PREEMPT = LP;
        NEXT_LP = LP;
    }
}

/// Decides who runs next. For `Kind::Block` the current thread is not runnable.
unsafe fn decide(mut kind: Kind) -> usize {
    if kind != Kind::Point {
        check_timers(); // only where recording and replay both decide
    }
    if kind == Kind::Point && LP - SLICE0 >= CFG.fair {
        kind = Kind::Fair;
    }
    let others = N_RUN - if T[CUR].state == RUNNABLE { 1 } else { 0 };
    if others == 0 {
        if kind == Kind::Block {
            // nobody can run: time passes until the first timer, if there is one
            let mut best = usize::MAX;
            for i in 0..NT {
                if T[i].state == BLOCKED && T[i].deadline != u64::MAX
                    && (best == usize::MAX || T[i].deadline < T[best].deadline)
                {
                    best = i;
                }
            }
            if best == usize::MAX {
                deadlock();
            }
            let now = clock_peek();
            if T[best].deadline > now {
                CLOCK_EXTRA += T[best].deadline - now;
            }
            fire(best);
            return best;
        }
        return CUR;
    }
    let default = match kind {
        Kind::Point => CUR,
        _ => rr_next(CUR),
    };
    if CFG.explicit {
        let t = &T[CUR];
        let mut i = t.ov;
        while i < t.ov_end && OVR[i].lp < LP {
            i += 1;
        }
        while i < t.ov_end && OVR[i].lp == LP {
            let g = OVR[i].target as usize;
            if g < NT && T[g].state == RUNNABLE {
                return g;
            }
            i += 1;
        }
        return default;
    }
    let target = match CFG.policy {
        POL_RANDOM => match kind {
            Kind::Yield if RNG.below(8) == 0 => CUR,
            _ => nth_other(CUR, RNG.below(others as u64)),
        },
        POL_PCT => {
            if kind == Kind::Yield || kind == Kind::Fair {
                T[CUR].prio = LOW_PRIO;
                LOW_PRIO -= 1;
            } else if kind == Kind::Point && PCT_I < PCT_N && steps() >= PCT_POINTS[PCT_I] {
                PCT_I += 1;
                T[CUR].prio = LOW_PRIO;
                LOW_PRIO -= 1;
            }
            let mut best = usize::MAX;
            for i in 0..NT {
                if T[i].state == RUNNABLE && (best == usize::MAX || T[i].prio > T[best].prio) {
                    best = i;
                }
            }
            best
        }
        POL_RR => rr_next(CUR),
        _ => default,
    };
    if target != default {
        log(target as u16, kind as u32);
    }
    target
}

unsafe fn deadlock() -> ! {
    let mut s = [0u8; 512];
    let mut n = 0;
    let mut put = |t: &[u8]| {
        for &c in t {
            if n < 512 {
                s[n] = c;
                n += 1;
            }
        }
    };
    put(b"no thread can run:");
    for i in 0..NT {
        if T[i].state == BLOCKED {
            put(b" t");
            let d = [b'0' + (i / 100) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8];
            put(&d);
            put(match T[i].key_kind {
                KK_FUTEX => b"=lock/condition",
                KK_JOIN => b"=join",
                _ => b"=sleep",
            });
        }
    }
    shared::finish(shared::ST_DEADLOCK, core::str::from_utf8_unchecked(&s[..n]))
}

#[inline]
unsafe fn note_switch(from: usize, to: usize) {
    SWITCHES += 1;
    for v in [from as u64, LP, to as u64] {
        HASH = (HASH ^ v).wrapping_mul(0x100000001b3);
    }
}

unsafe fn switch_to(t: usize, wait: bool) {
    let me = CUR;
    if t != me {
        note_switch(me, t);
        T[me].lp = LP;
        STEPS_BASE += LP - SLICE0;
        CUR = t;
        LP = T[t].lp;
        SLICE0 = LP;
        new_preempt();
        rearm();
        T[t].wake.store(1, Ordering::SeqCst);
        sys::futex_wake(T[t].wake.as_ptr());
        if wait {
            wait_baton(me);
        }
    } else {
        new_preempt();
        rearm();
    }
}

unsafe fn wait_baton(me: usize) {
    while T[me].wake.load(Ordering::SeqCst) == 0 {
        sys::futex_wait(T[me].wake.as_ptr(), 0);
    }
    T[me].wake.store(0, Ordering::SeqCst);
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    if steps() >= CFG.budget {
        shared::finish(shared::ST_BUDGET, "step budget exceeded");
    }
    if N_RUN <= 1 && N_TIMERS == 0 {
        if LP - SLICE0 >= CFG.fair {
            STEPS_BASE += LP - SLICE0;
            SLICE0 = LP;
        }
        if LP >= NEXT_PREEMPT {
            new_preempt();
        }
        rearm();
        return;
    }
    let t = decide(Kind::Point);
    if t == CUR && LP - SLICE0 >= CFG.fair {
        STEPS_BASE += LP - SLICE0;
        SLICE0 = LP;
    }
    switch_to(t, true);
}

#[inline(always)]
unsafe fn on() -> bool {
    ACTIVE && IN_RT == 0
}

/// A plain scheduling point.
#[inline]
pub fn point() {
    unsafe {
        if on() {
            LP += 1;
            if LP >= NEXT_LP {
                slow();
            }
        }
    }
}

#[cold]
#[inline(never)]
unsafe fn forced() {
    let t = decide(Kind::Point);
    if t != CUR {
        switch_to(t, true);
    }
}

/// A scheduling point at a synchronisation operation or another call worth interrupting.
#[inline]
pub fn sync_point() {
    unsafe {
        if on() {
            LP += 1;
            if LP >= NEXT_LP {
                slow();
            } else if N_RUN > 1 && SYNC_PPM != 0 && RNG.chance(SYNC_PPM) {
                forced();
            }
        }
    }
}

/// A memory access by instrumented code.
#[inline(always)]
pub unsafe fn access(addr: usize, size: usize, write: bool) {
    if !on() {
        return;
    }
    LP += 1;
    if MEMCHECK {
        MEMCHECKS += 1;
        crate::alloc::check_access(addr, size, write);
    }
    if CONFLICT_PPM != 0 && !crate::alloc::is_own(addr) {
        let g = addr >> 3;
        let e = &mut TAG[(g ^ (g >> 15)) & (TAGS - 1)];
        let c = CUR as u16;
        if e.granule != g {
            *e = Tag { granule: g, w: if write { c } else { NOBODY }, r: if write { NOBODY } else { c } };
        } else {
            let conflict = (e.w != c && e.w != NOBODY) || (write && e.r != c && e.r != NOBODY);
            if write {
                e.w = c;
                e.r = NOBODY;
            } else {
                e.r = c;
            }
            if conflict {
                CONFLICTS += 1;
                if N_RUN > 1 && RNG.chance(CONFLICT_PPM) {
                    forced();
                    return;
                }
            }
        }
    }
    if LP >= NEXT_LP {
        slow();
    }
}

pub fn yield_now() {
    unsafe {
        if !on() {
            return;
        }
        LP += 1;
        if steps() >= CFG.budget {
            shared::finish(shared::ST_BUDGET, "step budget exceeded");
        }
        let t = decide(Kind::Yield);
        switch_to(t, true);
    }
}

/// Blocks the current thread; true if it was woken, false if its deadline passed.
unsafe fn block(key_kind: u8, key: usize, deadline: u64) -> bool {
    let me = CUR;
    {
        let t = &mut T[me];
        t.state = BLOCKED;
        t.key_kind = key_kind;
        t.key = key;
        t.deadline = deadline;
        t.timed_out = false;
        t.wait_seq = WAIT_SEQ;
    }
    WAIT_SEQ += 1;
    N_RUN -= 1;
    if deadline != u64::MAX {
        N_TIMERS += 1;
    }
    LP += 1;
    if steps() >= CFG.budget {
        shared::finish(shared::ST_BUDGET, "step budget exceeded");
    }
    let t = decide(Kind::Block);
    switch_to(t, true);
    !T[me].timed_out
}

/// 0, EAGAIN or ETIMEDOUT
pub unsafe fn futex_wait(addr: *const u32, val: u32, deadline: u64) -> i32 {
    sync_point();
    if core::ptr::read_volatile(addr) != val {
        return libc::EAGAIN;
    }
    LP += 1;
    if CFG.explicit {
        let t = &T[CUR];
        let mut i = t.ov;
        while i < t.ov_end && OVR[i].lp < LP {
            i += 1;
        }
        if i < t.ov_end && OVR[i].lp == LP && OVR[i].target == SPURIOUS {
            SPURIOUS_N += 1;
            rearm();
            return 0;
        }
    } else if CFG.spurious_ppm != 0 && RNG.chance(CFG.spurious_ppm) {
        log(SPURIOUS, 9);
        SPURIOUS_N += 1;
        return 0;
    }
    if block(KK_FUTEX, addr as usize, deadline) { 0 } else { libc::ETIMEDOUT }
}

pub unsafe fn futex_wake(addr: *const u32, n: u32) -> u32 {
    let mut woken = 0;
    while woken < n {
        let mut best = usize::MAX;
        for i in 0..NT {
            if T[i].state == BLOCKED && T[i].key_kind == KK_FUTEX && T[i].key == addr as usize
                && (best == usize::MAX || T[i].wait_seq < T[best].wait_seq)
            {
                best = i;
            }
        }
        if best == usize::MAX {
            break;
        }
        make_runnable(best);
        woken += 1;
    }
    sync_point();
    woken
}

pub unsafe fn sleep_until(deadline: u64) {
    block(KK_SLEEP, 0, deadline);
}

// ---- clock ---------------------------------------------------------------------------------

unsafe fn clock_peek() -> u64 {
    CFG.clock0 + CLOCK_EXTRA + steps() * 5
}

/// Monotonic simulated time in nanoseconds.
pub unsafe fn clock() -> u64 {
    CLOCK_CALLS += 1;
    CLOCK_EXTRA += 700;
    if CFG.clock_jumps {
        // the host was busy with something else
        let mut r = Rng::new(CFG.hash_seed ^ CLOCK_CALLS ^ 0x51EE);
        match r.below(16) {
            0 => CLOCK_EXTRA += r.below(20_000_000_000),
            1..=3 => CLOCK_EXTRA += r.below(50_000_000),
            _ => {}
        }
    }
    clock_peek()
}

/// Wall-clock time: may jump in both directions.
pub unsafe fn wall_clock() -> u64 {
    let c = clock();
    let base = 1_700_000_000_000_000_000u64 + (CFG.clock0 & 0xFFFF_FFFF_FFFF) + c;
    if CFG.clock_jumps {
        let mut r = Rng::new(CFG.hash_seed ^ CLOCK_CALLS);
        match r.below(4) {
            0 => base - r.below(7_200_000_000_000),
            1 => base + r.below(7_200_000_000_000),
            _ => base,
        }
    } else {
        base
    }
}

// ---- other environment ---------------------------------------------------------------------

pub unsafe fn fill_random(p: *mut u8, n: usize) {
    RAND_BYTES += n as u64;
    for i in 0..n {
        *p.add(i) = (RND.next() >> 32) as u8;
    }
}
/// The time stamp files get now.
pub unsafe fn tick() -> u64 {
    const T: u64 = 4_000_000;
    if !ACTIVE {
        return 1_700_000_000_000_000_000;
    }
    (1_700_000_000_000_000_000u64 + (CFG.clock0 & 0xFFFF_FFFF_FFFF) + clock_peek()) / T * T
}
/// Identifies the process to the library.
pub fn pid() -> i32 {
    unsafe { 1000 + (Rng::new(CFG.hash_seed ^ 0x91D).below(30_000) as i32) * 16 }
}
/// For whatever else may differ between hosts.
pub fn env_seed() -> u64 {
    unsafe { CFG.hash_seed }
}
pub fn ncpu() -> u32 {
    unsafe { CFG.ncpu.max(1) }
}
/// In mode 4 each call finds other CPU features (single-threaded scenarios only).
#[inline(never)]
pub fn cpu_next(call: u64) {
    unsafe {
        if ACTIVE && CFG.cpu == 4 {
            CPU_SEED = Rng::new(CPU_SEED ^ call.wrapping_mul(0x9E37_79B9_7F4A_7C15)).next();
            crate::cpu::set(4, CPU_SEED);
        }
    }
}
pub fn cpu_has(name: &[u8]) -> bool {
    unsafe {
        if !ACTIVE {
            return true;
        }
        CPU_ASKS += 1;
        let yes = match CFG.cpu {
            0 => false,
            1 => true,
            _ => Rng::new(name.iter().fold(CPU_SEED, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01B3))).below(2) == 0,
        };
        if !yes {
            CPU_NO += 1;
        }
        yes
    }
}

// ---- threads -------------------------------------------------------------------------------

pub const STACK_BASE: usize = 0x2800_0000_0000;
pub const STACK_SLOT: usize = 0x80_0000; // 8 MiB apart
pub const STACK_SIZE: usize = 0x40_0000; // 4 MiB each

const FIRST_STACK: usize = 0x2700_0000_0000;
const FIRST_STACK_SIZE: usize = 0x400_0000;

type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut EXIT_KEY: libc::pthread_key_t = 0;

pub fn init() {
    unsafe {
        if REAL_CREATE.is_some() {
            return;
        }
        let c = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        let j = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr());
        if c.is_null() || j.is_null() {
            sys::die("simrt: libc's thread functions not found");
        }
        REAL_CREATE = Some(core::mem::transmute::<*mut libc::c_void, CreateFn>(c));
        REAL_JOIN = Some(core::mem::transmute::<*mut libc::c_void, JoinFn>(j));
        if libc::pthread_key_create(&raw mut EXIT_KEY, Some(key_dtor)) != 0 {
            sys::die("simrt: no thread key");
        }
    }
}

unsafe extern "C" fn key_dtor(v: *mut libc::c_void) {
    // runs after the thread-local destructors; wait until the last round of key destructors
    let v = v as usize;
    let round = v >> 32;
    if round < 3 {
        libc::pthread_setspecific(EXIT_KEY, ((v & 0xFFFF_FFFF) | ((round + 1) << 32)) as *const _);
        return;
    }
    thread_exit();
}

unsafe fn thread_exit() {
    if !ACTIVE {
        return;
    }
    let me = CUR;
    T[me].state = DONE;
    N_RUN -= 1;
    for i in 0..NT {
        if T[i].state == BLOCKED && T[i].key_kind == KK_JOIN && T[i].key == me {
            make_runnable(i);
        }
    }
    LP += 1;
    let t = decide(Kind::Block);
    switch_to(t, false);
}

extern "C" fn tramp(arg: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let me = arg as usize;
        wait_baton(me);
        libc::pthread_setspecific(EXIT_KEY, (me + 1) as *const _);
        let f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void = core::mem::transmute(T[me].start);
        f(T[me].arg as *mut libc::c_void)
    }
}

pub unsafe fn create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t,
                     f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> i32 {
    let real = REAL_CREATE.unwrap();
    if !ACTIVE {
        return real(out, attr, f, arg);
    }
    if NT >= MAXT {
        return libc::EAGAIN;
    }
    let id = NT;
    NT += 1;
    let base = STACK_BASE + id * STACK_SLOT;
    sys::mmap_fixed(base, STACK_SIZE, libc::PROT_READ | libc::PROT_WRITE);
    let mut a: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_attr_init(&mut a);
    libc::pthread_attr_setstack(&mut a, base as *mut _, STACK_SIZE);
    T[id].start = f as usize;
    T[id].arg = arg as usize;
    T[id].lp = 0;
    T[id].prio = if CFG.policy == POL_PCT && !CFG.explicit { RNG.below(1 << 40) as i64 } else { 0 };
    let r = real(out, &a, tramp, id as *mut _);
    libc::pthread_attr_destroy(&mut a);
    if r != 0 {
        sys::die("simrt: cannot create a thread");
    }
    T[id].native = *out as u64;
    make_runnable(id);
    sync_point();
    0
}

/// The first thread of a run gets a stack at a fixed address, too: schedules that look at addresses
/// must not depend on who started the run.
pub fn on_fixed_stack<F: FnOnce()>(f: F) {
    extern "C" fn go<F: FnOnce()>(a: *mut libc::c_void) -> *mut libc::c_void {
        unsafe {
            let alt = libc::stack_t { ss_sp: (FIRST_STACK + FIRST_STACK_SIZE + 0x1_0000) as *mut _, ss_flags: 0, ss_size: 0x1_0000 };
            libc::sigaltstack(&alt, core::ptr::null_mut());
            let f = (*(a as *mut Option<F>)).take().unwrap();
            f();
        }
        sys::die("simrt: a run returned")
    }
    unsafe {
        let mut f = Some(f);
        let mut t: libc::pthread_t = core::mem::zeroed();
        let rw = libc::PROT_READ | libc::PROT_WRITE;
        sys::mmap_fixed(FIRST_STACK, FIRST_STACK_SIZE, rw);
        sys::mmap_fixed(FIRST_STACK + FIRST_STACK_SIZE + 0x1_0000, 0x1_0000, rw);
        let mut a: libc::pthread_attr_t = core::mem::zeroed();
        libc::pthread_attr_init(&mut a);
        libc::pthread_attr_setstack(&mut a, FIRST_STACK as *mut _, FIRST_STACK_SIZE);
        if REAL_CREATE.unwrap()(&mut t, &a, go::<F>, &mut f as *mut Option<F> as *mut _) != 0 {
            sys::die("simrt: cannot start a run");
        }
        REAL_JOIN.unwrap()(t, core::ptr::null_mut());
    }
}

pub unsafe fn join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> i32 {
    if ACTIVE {
        sync_point();
        for i in (1..NT).rev() {
            if T[i].native == t as u64 {
                if T[i].state != DONE {
                    block(KK_JOIN, i, u64::MAX);
                }
                T[i].native = 0;
                break;
            }
        }
    }
    REAL_JOIN.unwrap()(t, ret)
}
