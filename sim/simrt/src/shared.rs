//! Memory shared between a worker process and the run it forked: status, decision log, results.
use crate::sys;

pub const ST_RUNNING: u32 = 0;
pub const ST_DONE: u32 = 1;
pub const ST_DEADLOCK: u32 = 2;
pub const ST_BUDGET: u32 = 3;
pub const ST_MEMORY: u32 = 4; // heap corruption or bad access found by the allocator
pub const ST_CRASH: u32 = 5; // simulated process crash (requested)
pub const ST_SEGV: u32 = 6; // the process got a fatal signal
pub const ST_HARNESS: u32 = 7;
pub const ST_NOMEM: u32 = 9; // an allocation no computer would grant (8 is used by the driver)

#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Decision {
    pub tid: u16,
    pub target: u16,
    pub kind: u32,
    pub lp: u64,
}

pub const MAX_DEC: usize = 1 << 20;
pub const OUT_MAX: usize = 1 << 30;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub n_dec: u32,
    pub dec_overflow: u32,
    pub n_threads: u32,
    pub steps: u64,
    pub switches: u64,
    pub conflicts: u64,
    pub spurious: u64,
    pub clock_ns: u64,
    pub clock0_ns: u64,
    pub sched_hash: u64,
    pub timers_fired: u64,
    pub allocs: u64,
    pub alloc_bytes: u64,
    pub reuses: u64,
    pub efences: u64,
    pub memchecks: u64,
    pub cpu_asks: u64,
    pub cpu_no: u64,
    pub rand_bytes: u64,
    pub fault_fired: [u64; 32],
    pub io_ops: u64,
    pub probes: [u64; 32],
    pub msg_len: u32,
    pub out_len: u64,
    pub msg: [u8; 1024],
    pub dec: [Decision; MAX_DEC],
    pub out: [u8; OUT_MAX],
}

/// The region's address (equal in every process: runs read it).
const AT: usize = 0x2600_0000_0000;
pub static mut SH: *mut Shared = core::ptr::null_mut();

/// Maps the region. Called once per worker, before the first run.
pub fn init() {
    unsafe {
        if !SH.is_null() {
            return;
        }
        let len = core::mem::size_of::<Shared>();
        let r = sys::sc6(libc::SYS_mmap as usize, AT, len, (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED) as usize, usize::MAX, 0);
        if r < 0 && r > -4096 {
            sys::die("simrt: cannot map the shared region");
        }
        SH = r as *mut Shared;
    }
}

/// Clears the header before a run.
pub fn reset() {
    unsafe {
        let off = core::mem::offset_of!(Shared, dec);
        core::ptr::write_bytes(SH as *mut u8, 0, off);
    }
}

pub fn get() -> &'static Shared {
    unsafe { &*SH }
}

#[allow(static_mut_refs)]
pub(crate) unsafe fn set_msg(s: &str) {
    let n = s.len().min(1024);
    core::ptr::copy_nonoverlapping(s.as_ptr(), (*SH).msg.as_mut_ptr(), n);
    (*SH).msg_len = n as u32;
}

/// Ends the run at once with a status.
pub unsafe fn finish(status: u32, msg: &str) -> ! {
    crate::sched::export_stats();
    set_msg(msg);
    (*SH).status = status;
    sys::exit_group(0)
}

#[inline(never)]
pub fn put_out(bytes: &[u8]) {
    unsafe {
        if bytes.len() > OUT_MAX {
            finish(ST_HARNESS, "output too large");
        }
        core::ptr::copy_nonoverlapping(bytes.as_ptr(), (*SH).out.as_mut_ptr(), bytes.len());
        (*SH).out_len = bytes.len() as u64;
    }
}
pub fn out() -> Vec<u8> {
    unsafe {
        let n = (*SH).out_len as usize;
        let mut v = Vec::with_capacity(n);
        core::ptr::copy_nonoverlapping((*SH).out.as_ptr(), v.as_mut_ptr(), n);
        v.set_len(n);
        v
    }
}
pub fn msg() -> String {
    let s = get();
    String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned()
}
/// "This rare condition was reached" counters.
#[inline(never)]
pub fn probe(i: usize) {
    unsafe {
        if !SH.is_null() {
            (*SH).probes[i] += 1;
        }
    }
}
/// A region of its own for a forked worker.
pub fn renew() {
    unsafe {
        SH = core::ptr::null_mut();
    }
    init();
}
