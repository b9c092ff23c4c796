//! The libc symbols the simulator replaces. The executable defines them, so that std, rayon and the
//! image codecs (all linked statically) call these. Outside a run they do what libc does.
use crate::sched::{self, ACTIVE, IN_RT};
use crate::{fs, sys};
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, mode_t, off64_t, size_t, ssize_t};

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r as i64
    }
}
unsafe fn fin(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn on() -> bool {
    ACTIVE && IN_RT == 0
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a str {
    core::str::from_utf8(core::ffi::CStr::from_ptr(p).to_bytes()).unwrap_or("/invalid-utf8")
}
unsafe fn timespec_ns(t: *const libc::timespec) -> u64 {
    ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}

// ---- threads and time --------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    sched::create(out, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    sched::join(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if on() {
        sched::yield_now();
        return 0;
    }
    ret(sys::sc3(libc::SYS_sched_yield as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if on() {
        let d = sched::clock().saturating_add(timespec_ns(req));
        sched::sleep_until(d);
        return 0;
    }
    ret(sys::sc3(libc::SYS_nanosleep as usize, req as usize, rem as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if on() {
        let n = timespec_ns(req);
        let d = if flags & libc::TIMER_ABSTIME != 0 { n } else { sched::clock().saturating_add(n) };
        sched::sleep_until(d);
        return 0;
    }
    -(sys::sc6(libc::SYS_clock_nanosleep as usize, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if on() {
        let n = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => sched::wall_clock(),
            _ => sched::clock(),
        };
        (*t).tv_sec = (n / 1_000_000_000) as _;
        (*t).tv_nsec = (n % 1_000_000_000) as _;
        return 0;
    }
    ret(sys::sc3(libc::SYS_clock_gettime as usize, clk as usize, t as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, z: *mut c_void) -> c_int {
    if on() {
        let n = sched::wall_clock();
        (*t).tv_sec = (n / 1_000_000_000) as _;
        (*t).tv_usec = (n % 1_000_000_000 / 1000) as _;
        return 0;
    }
    ret(sys::sc3(libc::SYS_gettimeofday as usize, t as usize, z as usize, 0)) as c_int
}

// ---- generic syscall() (std's futexes, statx and friends) ---------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if on() {
        match n {
            libc::SYS_futex => return futex(a, b, c, d, e, f) as c_long,
            libc::SYS_getrandom => {
                sched::fill_random(a as *mut u8, b);
                return b as c_long;
            }
            libc::SYS_gettid => return sched::pid() as c_long + sched::current() as c_long,
            libc::SYS_getpid => return sched::pid() as c_long,
            libc::SYS_sched_yield => {
                sched::yield_now();
                return 0;
            }
            libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
            libc::SYS_copy_file_range | libc::SYS_sendfile | libc::SYS_splice | libc::SYS_openat2 | libc::SYS_io_uring_setup => {
                set_errno(libc::ENOSYS);
                return -1;
            }
            libc::SYS_renameat2 => return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long,
            _ => {}
        }
    }
    ret(sys::sc6(n as usize, a, b, c, d, e, f)) as c_long
}

unsafe fn futex(a: usize, op: usize, val: usize, ts: usize, _e: usize, _f: usize) -> i64 {
    let cmd = op as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let mut deadline = u64::MAX;
            if ts != 0 {
                let n = timespec_ns(ts as *const libc::timespec);
                deadline = if cmd == libc::FUTEX_WAIT { sched::clock().saturating_add(n) } else { n };
                if op as i32 & libc::FUTEX_CLOCK_REALTIME != 0 {
                    deadline = sched::clock() + 1_000_000;
                }
            }
            let r = sched::futex_wait(a as *const u32, val as u32, deadline);
            if r == 0 {
                0
            } else {
                set_errno(r);
                -1
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => sched::futex_wake(a as *const u32, val as u32) as i64,
        _ => sys::die("simrt: futex operation without a model"),
    }
}

// ---- environment -----------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    // (the harness itself needs no real randomness either)
    let _ = flags;
    sched::fill_random(p as *mut u8, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int {
    if getrandom(p, n, 0) < 0 { -1 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if on() {
        let p = set as *mut u8;
        core::ptr::write_bytes(p, 0, n);
        for i in 0..(sched::ncpu() as usize).min(n * 8) {
            *p.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = sys::sc3(libc::SYS_sched_getaffinity as usize, pid as usize, n, set as usize);
    if r >= 0 {
        core::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
        return 0;
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getcpu() -> c_int {
    0
}
/// Asked by /repo's feature detection under `cfg(imgproc_sim)`.
#[no_mangle]
pub unsafe extern "C" fn imgproc_sim_cpu_has(name: *const u8, len: usize) -> bool {
    sched::cpu_has(std::slice::from_raw_parts(name, len))
}

// ---- files -------------------------------------------------------------------------------------

/// Calls `f` with the path as seen from the directory.
unsafe fn at<R>(dir: c_int, s: &str, f: impl FnOnce(&str) -> R) -> R {
    match fs::at(dir, s) {
        Some(p) => {
            let r = f(&p);
            IN_RT += 1;
            drop(p);
            IN_RT -= 1;
            r
        }
        None => f(s),
    }
}
unsafe fn do_open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_open(cstr(path), flags)) as c_int;
    }
    ret(sys::sc6(libc::SYS_openat as usize, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if on() && fs::active() {
        return fin(at(dir, cstr(path), |s| fs::sys_open(s, flags))) as c_int;
    }
    ret(sys::sc6(libc::SYS_openat as usize, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    do_open(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    creat(path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fs::owns(fd) {
        return fin(fs::sys_close(fd)) as c_int;
    }
    ret(sys::sc3(libc::SYS_close as usize, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if fs::owns(fd) {
        return fin(fs::sys_read(fd, p as *mut u8, n, None)) as ssize_t;
    }
    ret(sys::sc3(libc::SYS_read as usize, fd as usize, p as usize, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if fs::owns(fd) {
        return fin(fs::sys_write(fd, p as *const u8, n, None)) as ssize_t;
    }
    if on() && (fd == 1 || fd == 2) {
        sched::sync_point();
        return n as ssize_t;
    }
    ret(sys::sc3(libc::SYS_write as usize, fd as usize, p as usize, n)) as ssize_t
}
unsafe fn do_pread(fd: c_int, p: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if fs::owns(fd) {
        return fin(fs::sys_read(fd, p as *mut u8, n, Some(off as u64))) as ssize_t;
    }
    ret(sys::sc6(libc::SYS_pread64 as usize, fd as usize, p as usize, n, off as usize, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, p: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_pread(fd, p, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, p: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    do_pread(fd, p, n, off)
}
unsafe fn do_pwrite(fd: c_int, p: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if fs::owns(fd) {
        return fin(fs::sys_write(fd, p as *const u8, n, Some(off as u64))) as ssize_t;
    }
    ret(sys::sc6(libc::SYS_pwrite64 as usize, fd as usize, p as usize, n, off as usize, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, p: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_pwrite(fd, p, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_pwrite(fd, p, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if fs::owns(fd) {
        // one transfer into the first non-empty buffer is a legal short read
        for i in 0..n as usize {
            let w = &*v.add(i);
            if w.iov_len > 0 {
                return fin(fs::sys_read(fd, w.iov_base as *mut u8, w.iov_len, None)) as ssize_t;
            }
        }
        return 0;
    }
    ret(sys::sc3(libc::SYS_readv as usize, fd as usize, v as usize, n as usize)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if fs::owns(fd) {
        for i in 0..n as usize {
            let w = &*v.add(i);
            if w.iov_len > 0 {
                return fin(fs::sys_write(fd, w.iov_base as *const u8, w.iov_len, None)) as ssize_t;
            }
        }
        return 0;
    }
    if on() && (fd == 1 || fd == 2) {
        return (0..n as usize).map(|i| (*v.add(i)).iov_len).sum::<usize>() as ssize_t;
    }
    ret(sys::sc3(libc::SYS_writev as usize, fd as usize, v as usize, n as usize)) as ssize_t
}
unsafe fn do_lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if fs::owns(fd) {
        return fin(fs::sys_lseek(fd, off, wh));
    }
    ret(sys::sc3(libc::SYS_lseek as usize, fd as usize, off as usize, wh as usize))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    do_lseek(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    do_lseek(fd, off, wh)
}
unsafe fn fill_stat(st: *mut libc::stat64, v: fs::Meta) {
    core::ptr::write_bytes(st as *mut u8, 0, core::mem::size_of::<libc::stat64>());
    (*st).st_size = v.size as _;
    (*st).st_mode = if v.dir { libc::S_IFDIR } else { libc::S_IFREG } | v.mode;
    (*st).st_ino = v.ino;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_blocks = v.size.div_ceil(512) as _;
    (*st).st_mtime = (v.mtime / 1_000_000_000) as _;
    (*st).st_mtime_nsec = (v.mtime % 1_000_000_000) as _;
    (*st).st_ctime = (*st).st_mtime;
    (*st).st_atime = (*st).st_mtime;
}
unsafe fn do_fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    if fs::owns(fd) {
        let mut v = fs::Meta::default();
        let r = fs::sys_fstat(fd, &mut v);
        if r.is_ok() {
            fill_stat(st, v);
        }
        return fin(r) as c_int;
    }
    ret(sys::sc3(libc::SYS_fstat as usize, fd as usize, st as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    do_fstat(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    do_fstat(fd, st)
}
unsafe fn do_stat(dir: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if on() && fs::active() {
        let mut v = fs::Meta::default();
        let s = cstr(path);
        let r = if s.is_empty() && fs::owns(dir) { fs::sys_fstat(dir, &mut v) } else { at(dir, s, |s| fs::sys_stat(s, &mut v)) };
        if r.is_ok() {
            fill_stat(st, v);
        }
        return fin(r) as c_int;
    }
    ret(sys::sc6(libc::SYS_newfstatat as usize, dir as usize, path as usize, st as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, path, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, path, st, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, path, st, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(dir: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    do_stat(dir, path, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    do_stat(dir, path, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if on() && fs::active() {
        if path.is_null() || out.is_null() {
            set_errno(libc::EFAULT); // std probes for statx like this
            return -1;
        }
        let mut v = fs::Meta::default();
        let s = cstr(path);
        let r = if s.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
            if !fs::owns(dir) {
                return ret(sys::sc6(libc::SYS_statx as usize, dir as usize, path as usize, flags as usize, mask as usize, out as usize, 0)) as c_int;
            }
            fs::sys_fstat(dir, &mut v)
        } else {
            at(dir, s, |s| fs::sys_stat(s, &mut v))
        };
        if r.is_ok() {
            core::ptr::write_bytes(out as *mut u8, 0, core::mem::size_of::<libc::statx>());
            (*out).stx_mask = 0x7ff;
            (*out).stx_size = v.size;
            (*out).stx_mode = (if v.dir { libc::S_IFDIR } else { libc::S_IFREG } | v.mode) as u16;
            (*out).stx_ino = v.ino;
            (*out).stx_nlink = 1;
            (*out).stx_blksize = 4096;
            (*out).stx_blocks = v.size.div_ceil(512);
            (*out).stx_mtime.tv_sec = (v.mtime / 1_000_000_000) as _;
            (*out).stx_mtime.tv_nsec = (v.mtime % 1_000_000_000) as _;
            (*out).stx_ctime = (*out).stx_mtime;
            (*out).stx_atime = (*out).stx_mtime;
            (*out).stx_btime = (*out).stx_mtime;
        }
        return fin(r) as c_int;
    }
    ret(sys::sc6(libc::SYS_statx as usize, dir as usize, path as usize, flags as usize, mask as usize, out as usize, 0)) as c_int
}
unsafe fn do_ftruncate(fd: c_int, n: off64_t) -> c_int {
    if fs::owns(fd) {
        return fin(fs::sys_ftruncate(fd, n as u64)) as c_int;
    }
    ret(sys::sc3(libc::SYS_ftruncate as usize, fd as usize, n as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off64_t) -> c_int {
    do_ftruncate(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    do_ftruncate(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    if fs::owns(fd) {
        set_errno(libc::EOPNOTSUPP);
        return -1;
    }
    ret(sys::sc6(libc::SYS_fallocate as usize, fd as usize, mode as usize, off as usize, len as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, _o: off64_t, _l: off64_t, _a: c_int) -> c_int {
    let _ = fd;
    0
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if fs::owns(fd) {
        return 0;
    }
    ret(sys::sc3(libc::SYS_flock as usize, fd as usize, op as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fs::owns(fd) {
        return fin(fs::sys_fsync(fd)) as c_int;
    }
    ret(sys::sc3(libc::SYS_fsync as usize, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fs::owns(fd) {
        return fin(fs::sys_fsync(fd)) as c_int;
    }
    ret(sys::sc3(libc::SYS_fdatasync as usize, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_rename(cstr(a), cstr(b))) as c_int;
    }
    ret(sys::sc3(libc::SYS_rename as usize, a as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    if on() && fs::active() {
        return rename(a, b);
    }
    ret(sys::sc6(libc::SYS_renameat as usize, d as usize, a as usize, e as usize, b as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_uint) -> c_int {
    if on() && fs::active() {
        return rename(a, b);
    }
    ret(sys::sc6(libc::SYS_renameat2 as usize, d as usize, a as usize, e as usize, b as usize, f as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_link(cstr(a), cstr(b))) as c_int;
    }
    ret(sys::sc3(libc::SYS_link as usize, a as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_link(cstr(a), cstr(b))) as c_int;
    }
    ret(sys::sc6(libc::SYS_linkat as usize, d as usize, a as usize, e as usize, b as usize, f as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if on() && fs::active() {
        set_errno(libc::EPERM);
        return -1;
    }
    ret(sys::sc3(libc::SYS_symlink as usize, a as usize, b as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_unlink(cstr(a))) as c_int;
    }
    ret(sys::sc3(libc::SYS_unlink as usize, a as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    if on() && fs::active() {
        let dir = f & libc::AT_REMOVEDIR != 0;
        return fin(at(d, cstr(a), |s| if dir { fs::sys_rmdir(s) } else { fs::sys_unlink(s) })) as c_int;
    }
    ret(sys::sc3(libc::SYS_unlinkat as usize, d as usize, a as usize, f as usize)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_rmdir(cstr(a))) as c_int;
    }
    ret(sys::sc3(libc::SYS_rmdir as usize, a as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_mkdir(cstr(a))) as c_int;
    }
    ret(sys::sc3(libc::SYS_mkdir as usize, a as usize, m as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(a: *const c_char, m: c_int) -> c_int {
    if on() && fs::active() {
        let mut v = fs::Meta::default();
        return fin(fs::sys_stat(cstr(a), &mut v)) as c_int;
    }
    ret(sys::sc3(libc::SYS_access as usize, a as usize, m as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: mode_t) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_attr(fs::Which::Path(cstr(a)), Some(m), None)) as c_int;
    }
    ret(sys::sc3(libc::SYS_chmod as usize, a as usize, m as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if fs::owns(fd) {
        return fin(fs::sys_attr(fs::Which::Fd(fd), Some(m), None)) as c_int;
    }
    ret(sys::sc3(libc::SYS_fchmod as usize, fd as usize, m as usize, 0)) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fs::owns(fd) {
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_SETFD | libc::F_SETFL => 0,
            libc::F_GETFL => fs::flags_of(fd),
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => fin(fs::sys_dup(fd)) as c_int,
            _ => {
                set_errno(libc::EINVAL);
                -1
            }
        };
    }
    ret(sys::sc3(libc::SYS_fcntl as usize, fd as usize, cmd as usize, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if fs::owns(fd) {
        return fin(fs::sys_dup(fd)) as c_int;
    }
    ret(sys::sc3(libc::SYS_dup as usize, fd as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if on() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(sys::sc6(libc::SYS_copy_file_range as usize, a as usize, b as usize, c as usize, d as usize, n, f as usize)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut off64_t, n: size_t) -> ssize_t {
    if on() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(sys::sc6(libc::SYS_sendfile as usize, a as usize, b as usize, c as usize, n, 0, 0)) as ssize_t
}

/// Stacks of simulated threads come from the simulator; below each lies unmapped memory, but the C
/// library does not know it, and std insists on a guard page.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const libc::pthread_attr_t, n: *mut size_t) -> c_int {
    // glibc keeps the guard size in the third word of the attribute
    let g = *(a as *const usize).add(2);
    *n = if g == 0 { 4096 } else { g };
    0
}

#[no_mangle]
pub unsafe extern "C" fn rewinddir(d: *mut c_void) {
    (*(d as *mut Dir)).next = 0;
}
struct Dir {
    fd: c_int,
    next: usize,
    entry: libc::dirent64,
}
unsafe fn new_dir(fd: c_int) -> *mut c_void {
    if fd < 0 {
        return core::ptr::null_mut();
    }
    IN_RT += 1;
    let d = Box::into_raw(Box::new(Dir { fd, next: 0, entry: core::mem::zeroed() }));
    IN_RT -= 1;
    d as *mut c_void
}
/// (The driver lists no directories while a run is going on, so that every `DIR` is simulated.)
#[no_mangle]
pub unsafe extern "C" fn opendir(a: *const c_char) -> *mut c_void {
    if on() && fs::active() {
        return new_dir(fin(fs::sys_open(cstr(a), libc::O_RDONLY | libc::O_DIRECTORY)) as c_int);
    }
    sys::die("simrt: opendir outside of a run")
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    new_dir(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    let d = &mut *(d as *mut Dir);
    let k = d.next;
    d.next += 1;
    let e = &mut d.entry;
    let mut set = |n: &str, m: &fs::Meta| {
        e.d_ino = m.ino;
        e.d_reclen = core::mem::size_of::<libc::dirent64>() as _;
        e.d_type = if m.dir { libc::DT_DIR } else { libc::DT_REG };
        let n = n.as_bytes();
        let l = n.len().min(e.d_name.len() - 1);
        for i in 0..l {
            e.d_name[i] = n[i] as c_char;
        }
        e.d_name[l] = 0;
    };
    let dir = fs::Meta { dir: true, ino: 1, ..fs::Meta::default() };
    match k {
        0 => set(".", &dir),
        1 => set("..", &dir),
        _ => {
            if !fs::dir_entry(d.fd, k - 2, set) {
                return core::ptr::null_mut();
            }
        }
    }
    &mut d.entry
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    (*(d as *mut Dir)).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let r = close((*(d as *mut Dir)).fd);
    IN_RT += 1;
    drop(Box::from_raw(d as *mut Dir));
    IN_RT -= 1;
    r
}
#[no_mangle]
pub unsafe extern "C" fn truncate(a: *const c_char, n: off64_t) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_truncate(cstr(a), n as u64)) as c_int;
    }
    ret(sys::sc3(libc::SYS_truncate as usize, a as usize, n as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(a: *const c_char, n: off64_t) -> c_int {
    truncate(a, n)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: off64_t, n: off64_t) -> c_int {
    if fs::owns(fd) {
        return match fs::sys_allocate(fd, (off + n) as u64) {
            Ok(_) => 0,
            Err(e) => e,
        };
    }
    -(sys::sc6(libc::SYS_fallocate as usize, fd as usize, 0, off as usize, n as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, n: off64_t) -> c_int {
    posix_fallocate(fd, off, n)
}
unsafe fn mtime_of(t: *const libc::timespec) -> Option<u64> {
    if t.is_null() {
        return Some(sched::wall_clock());
    }
    let m = &*t.add(1);
    match m.tv_nsec {
        libc::UTIME_NOW => Some(sched::wall_clock()),
        libc::UTIME_OMIT => None,
        _ => Some(timespec_ns(m)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if fs::owns(fd) {
        return fin(fs::sys_attr(fs::Which::Fd(fd), None, mtime_of(t))) as c_int;
    }
    ret(sys::sc6(libc::SYS_utimensat as usize, fd as usize, 0, t as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, a: *const c_char, t: *const libc::timespec, f: c_int) -> c_int {
    if on() && fs::active() {
        let m = mtime_of(t);
        return fin(at(d, cstr(a), |s| fs::sys_attr(fs::Which::Path(s), None, m))) as c_int;
    }
    ret(sys::sc6(libc::SYS_utimensat as usize, d as usize, a as usize, t as usize, f as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chdir(a: *const c_char) -> c_int {
    if on() && fs::active() {
        return fin(fs::sys_chdir(cstr(a))) as c_int;
    }
    ret(sys::sc3(libc::SYS_chdir as usize, a as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if on() && fs::active() {
        let mut fits = true;
        let r = fs::with_path(None, |p| {
            fits = p.len() <= n;
            if fits {
                core::ptr::copy_nonoverlapping(p.as_ptr(), b as *mut u8, p.len());
            }
        });
        if let Err(e) = r {
            set_errno(e);
            return core::ptr::null_mut();
        }
        if !fits {
            set_errno(libc::ERANGE);
            return core::ptr::null_mut();
        }
        return b;
    }
    if ret(sys::sc3(libc::SYS_getcwd as usize, b as usize, n, 0)) < 0 { core::ptr::null_mut() } else { b }
}
/// (The driver resolves no paths.)
#[no_mangle]
pub unsafe extern "C" fn realpath(a: *const c_char, b: *mut c_char) -> *mut c_char {
    if !(on() && fs::active()) {
        sys::die("simrt: realpath outside of a run");
    }
    let mut out = b;
    let r = fs::with_path(Some(cstr(a)), |p| {
        if out.is_null() {
            out = libc::malloc(p.len()) as *mut c_char;
        }
        core::ptr::copy_nonoverlapping(p.as_ptr(), out as *mut u8, p.len());
    });
    match r {
        Ok(_) => out,
        Err(e) => {
            set_errno(e);
            core::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if on() && fs::active() {
        let mut v = fs::Meta::default();
        let e = fs::sys_stat(cstr(a), &mut v).err().unwrap_or(libc::EINVAL);
        set_errno(e);
        return -1;
    }
    ret(sys::sc3(libc::SYS_readlink as usize, a as usize, b as usize, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if on() {
        return sched::pid();
    }
    sys::sc3(libc::SYS_getpid as usize, 0, 0, 0) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> libc::pid_t {
    if on() {
        return 1;
    }
    sys::sc3(libc::SYS_getppid as usize, 0, 0, 0) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let n = if on() {
        (sched::wall_clock() / 1_000_000_000) as libc::time_t
    } else {
        let mut s: libc::timespec = core::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut s);
        s.tv_sec
    };
    if !t.is_null() {
        *t = n;
    }
    n
}

extern "C" {
    static mut environ: *mut *mut c_char;
}
/// Makes the environment of the process empty (for a run, before its own variables are set).
pub fn clear_environment() {
    static mut EMPTY: [*mut c_char; 1] = [core::ptr::null_mut()];
    unsafe { environ = core::ptr::addr_of_mut!(EMPTY) as *mut *mut c_char }
}
/// A variable set for the run, or else (if one called `?` is set) whatever another host might have there.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let find = |n: &[u8]| -> *mut c_char {
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let p = *e as *const u8;
            if (0..n.len()).all(|i| *p.add(i) == n[i]) && *p.add(n.len()) == b'=' {
                return p.add(n.len() + 1) as *mut c_char;
            }
            e = e.add(1);
        }
        core::ptr::null_mut()
    };
    let n = core::ffi::CStr::from_ptr(name).to_bytes();
    let r = find(n);
    if !r.is_null() || !on() || n.starts_with(b"RUST") || n.starts_with(b"RAYON") || find(b"?").is_null() {
        return r;
    }
    let mut h = sched::env_seed();
    for b in n {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    const V: [&core::ffi::CStr; 8] = [c"", c"0", c"1", c"2", c"true", c"/tmp", c"off", c"de_DE"];
    let mut g = sys::Rng::new(h);
    match g.below(16) {
        k @ 0..=7 => V[k as usize].as_ptr() as *mut c_char,
        _ => core::ptr::null_mut(),
    }
}
