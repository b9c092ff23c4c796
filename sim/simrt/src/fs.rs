//! The simulated file system and its faults. Nothing a run does reaches the real disk.
#![allow(static_mut_refs)]
use crate::sched::{self, ACTIVE, IN_RT};
use crate::shared::{self, SH};
use crate::sys::Rng;
use std::collections::BTreeMap;

pub const FD0: i32 = 1000;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Class {
    Open = 1,
    Read = 2,
    Write = 3,
    Seek = 4,
    Stat = 5,
    Sync = 6,
    Trunc = 7,
    Rename = 8,
    Unlink = 9,
    Mkdir = 10,
    Other = 11,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Action {
    Errno(i32),
    /// Transfer at most this many bytes.
    Limit(usize),
    Zero,
    CrashBefore,
    /// Perform the operation (transferring at most this many bytes), then die.
    CrashAfter(usize),
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub scn: i32,
    pub step: i32,
    /// The `nth` operation of the call (counting from 0), of any class.
    pub nth: i64,
    /// If not negative: only operations of this class count and match.
    pub class: i32,
    pub action: Action,
    /// Every later operation of the same class fails likewise, until the call returns.
    pub sticky: bool,
}

#[derive(Clone, Default)]
pub struct FsCfg {
    pub files: Vec<(String, Vec<u8>)>,
    pub rules: Vec<Rule>,
    /// Limits every transfer to 1..=chunk bytes (0: whole transfers).
    pub chunk: usize,
    pub chunk_seed: u64,
    /// Probability of EINTR per blocking operation.
    pub eintr_ppm: u64,
    /// Total bytes the disk can hold (0: unlimited).
    pub capacity: usize,
    /// Descriptors a process may have (0: unlimited).
    pub max_fds: usize,
    /// The files are read-only by their mode (which, as for root, stops nobody).
    pub readonly: bool,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub scn: i32,
    pub step: i32,
    pub nth: u32,
    pub class: Class,
    pub path: String,
    pub req: i64,
    pub ret: i64,
}

struct Inode {
    data: Vec<u8>,
    dir: bool,
    /// As reported; the number of a removed file is given out again.
    ino: u64,
    mode: u32,
    mtime: u64,
}
struct Open {
    inode: usize,
    /// Index of the offset, which duplicates share.
    off: usize,
    flags: i32,
    path: String,
    scn: i32,
}

/// What stat reports.
#[derive(Clone, Copy, Default)]
pub struct Meta {
    pub size: u64,
    pub dir: bool,
    pub ino: u64,
    pub mode: u32,
    pub mtime: u64,
}


pub struct Fs {
    cfg: FsCfg,
    inodes: Vec<Inode>,
    names: BTreeMap<String, usize>,
    open: Vec<Option<Open>>,
    trace: Vec<Rec>,
    /// paths changed, created or removed, in order
    touched: Vec<String>,
    /// paths whose permissions or times were set explicitly
    attrs: Vec<String>,
    offs: Vec<u64>,
    cwd: String,
    ops: u64,
}
impl Fs {
    fn inode(&mut self, dir: bool, data: Vec<u8>) -> usize {
        let mut ino = 2;
        while self.names.values().any(|&i| self.inodes[i].ino == ino) || self.open.iter().flatten().any(|o| self.inodes[o.inode].ino == ino) {
            ino += 1;
        }
        self.inodes.push(Inode { data, dir, ino, mode: if dir { 0o755 } else { 0o644 }, mtime: stamp() });
        self.inodes.len() - 1
    }
    fn meta(&self, i: usize) -> Meta {
        let x = &self.inodes[i];
        Meta { size: x.data.len() as u64, dir: x.dir, ino: x.ino, mode: x.mode, mtime: x.mtime }
    }
    fn changed(&mut self, i: usize, path: &str) {
        self.inodes[i].mtime = stamp();
        if self.touched.last().map(|p| p.as_str()) != Some(path) {
            self.touched.push(path.to_string());
        }
    }
}
/// The time stamp of a change, as coarse as those of real file systems (a tick of 4 ms).
fn stamp() -> u64 {
    unsafe { sched::tick() }
}


static mut FS: Option<Fs> = None;
static mut SCN: [i32; sched::MAXT] = [-1; sched::MAXT];
static mut STEP: [i32; sched::MAXT] = [-1; sched::MAXT];
static mut NTH: [u32; sched::MAXT] = [0; sched::MAXT];
static mut NTH_CLASS: [[u32; 12]; sched::MAXT] = [[0; 12]; sched::MAXT];
static mut STICKY: [[i32; 12]; sched::MAXT] = [[0; 12]; sched::MAXT];

/// Which fault kinds fired (indices into `Shared::fault_fired`).
pub const F_NAMES: [&str; 16] = [
    "open_error", "read_error", "write_error", "other_error", "short_read", "short_write", "interrupted_call",
    "write_zero", "crash", "disk_full", "out_of_descriptors", "sticky_error", "-", "-", "-", "-",
];
fn fired(i: usize) {
    unsafe { (*SH).fault_fired[i] += 1 }
}

const DIRS: [&str; 4] = ["/", "/w", "/tmp", "/w/sub"];

pub fn start(cfg: &FsCfg) {
    unsafe {
        let mut fs = Fs { cfg: cfg.clone(), inodes: Vec::new(), names: BTreeMap::new(), open: Vec::new(), trace: Vec::new(),
            touched: Vec::new(), attrs: Vec::new(), offs: Vec::new(), cwd: "/w".to_string(), ops: 0 };
        for d in DIRS {
            let i = fs.inode(true, Vec::new());
            fs.names.insert(d.to_string(), i);
        }
        for (n, d) in &cfg.files {
            // (a name that ends in / is that of a folder)
            let i = fs.inode(n.ends_with('/'), d.clone());
            if cfg.readonly && !fs.inodes[i].dir {
                fs.inodes[i].mode = 0o444;
            }
            fs.names.insert(n.trim_end_matches('/').to_string(), i);
        }
        FS = Some(fs);
    }
}

struct Guard;
impl Guard {
    fn new() -> Guard {
        unsafe { IN_RT += 1 };
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        unsafe { IN_RT -= 1 };
    }
}

// ---- harness side ----------------------------------------------------------------------------

/// Marks the calling thread as executing step `step` of scenario thread `scn`.
#[inline(never)]
pub fn begin_step(scn: i32, step: i32) {
    unsafe {
        let t = sched::current();
        SCN[t] = scn;
        STEP[t] = step;
        NTH[t] = 0;
        NTH_CLASS[t] = [0; 12];
        STICKY[t] = [0; 12];
    }
}
#[inline(never)]
pub fn end_step() {
    unsafe {
        let t = sched::current();
        SCN[t] = -1;
        STEP[t] = -1;
        STICKY[t] = [0; 12];
    }
}
#[inline(never)]
pub fn norm(path: &str) -> String {
    let mut parts: Vec<&str> = Vec::new();
    let full;
    let p = if path.starts_with('/') {
        path
    } else {
        full = format!("{}/{}", unsafe { FS.as_ref().map_or("/w", |f| f.cwd.as_str()) }, path);
        &full
    };
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    format!("/{}", parts.join("/"))
}
/// All files with their contents, and folders that were not there at the beginning (with a final /).
#[inline(never)]
pub fn snapshot() -> Vec<(String, Vec<u8>)> {
    unsafe {
        match &FS {
            Some(fs) => fs.names.iter().filter(|(n, &i)| !fs.inodes[i].dir || !DIRS.contains(&n.as_str()))
                .map(|(n, &i)| (if fs.inodes[i].dir { format!("{}/", n) } else { n.clone() }, fs.inodes[i].data.clone())).collect(),
            None => Vec::new(),
        }
    }
}
/// Sets the contents of one file (None removes it) behind the system's back.
#[inline(never)]
pub fn put_file(path: &str, data: Option<&[u8]>) {
    let _g = Guard::new();
    unsafe {
        if let Some(fs) = &mut FS {
            let p = norm(path);
            match data {
                Some(d) => {
                    let i = fs.inode(false, d.to_vec());
                    fs.names.insert(p, i);
                }
                None => {
                    fs.names.remove(&p);
                }
            }
        }
    }
}
/// Somebody else changes a file: 0 flips bits of one byte, 1 of all bytes, 2 cuts it off, 3 removes it,
/// 4 puts another file, with one byte changed, in its place.
#[inline(never)]
pub fn meddle(path: &str, kind: i64, at: usize, x: u8) {
    let _g = Guard::new();
    let Some(mut d) = file(path) else { return };
    let n = d.len().max(1);
    match kind {
        2 => d.truncate(at % n),
        1 => d.iter_mut().for_each(|b| *b ^= x),
        _ => {
            if let Some(b) = d.get_mut(at % n) {
                *b ^= x;
            }
        }
    }
    unsafe {
        match kind {
            3 => put_file(path, None),
            4 => put_file(path, Some(&d)),
            _ => {
                if let Some(fs) = &mut FS {
                    let p = norm(path);
                    if let Some(&i) = fs.names.get(&p) {
                        fs.inodes[i].data = d;
                        fs.inodes[i].mtime = stamp();
                    }
                }
            }
        }
    }
}
/// Copies a file's content into a vector of the runtime heap.
#[inline(never)]
pub fn file(path: &str) -> Option<Vec<u8>> {
    let _g = Guard::new();
    unsafe {
        let fs = FS.as_ref()?;
        let p = norm(path);
        fs.names.get(&p).filter(|&&i| !fs.inodes[i].dir).map(|&i| fs.inodes[i].data.clone())
    }
}
#[inline(never)]
pub fn open_count() -> usize {
    unsafe { FS.as_ref().map_or(0, |f| f.open.iter().filter(|o| o.is_some()).count()) }
}
/// Open descriptors that were opened by scenario thread `scn`.
#[inline(never)]
pub fn open_count_of(scn: i32) -> usize {
    unsafe { FS.as_ref().map_or(0, |f| f.open.iter().flatten().filter(|o| o.scn == scn).count()) }
}
#[inline(never)]
pub fn trace() -> Vec<Rec> {
    unsafe { FS.as_ref().map_or(Vec::new(), |f| f.trace.clone()) }
}
#[inline(never)]
pub fn touched() -> Vec<String> {
    let _g = Guard::new();
    unsafe { FS.as_ref().map_or(Vec::new(), |f| f.touched.clone()) }
}
/// Paths whose permissions or times were set; "." if the working directory is another one.
#[inline(never)]
pub fn attrs() -> Vec<String> {
    let _g = Guard::new();
    unsafe {
        FS.as_ref().map_or(Vec::new(), |f| {
            let mut a = f.attrs.clone();
            if f.cwd != "/w" {
                a.push(".".to_string());
            }
            a
        })
    }
}

// ---- system side -------------------------------------------------------------------------------

pub fn active() -> bool {
    unsafe { ACTIVE && FS.is_some() }
}
/// Is this descriptor simulated?
pub fn owns(fd: i32) -> bool {
    active() && fd >= FD0
}

enum Plan {
    Go(usize),
    Fail(i32),
    Zero,
    DieAfter(usize),
}

unsafe fn die_now() -> ! {
    fired(8);
    // the driver gets everything the run had stored
    (*SH).status = shared::ST_CRASH;
    crate::on_crash();
    shared::finish(shared::ST_CRASH, "simulated crash")
}

/// Counts the operation and applies the fault plan.
unsafe fn plan(fs: &mut Fs, class: Class, blocking: bool) -> Plan {
    let t = sched::current();
    fs.ops += 1;
    (*SH).io_ops += 1;
    let (scn, step) = (SCN[t], STEP[t]);
    let nth = NTH[t];
    let nth_c = NTH_CLASS[t][class as usize];
    NTH[t] += 1;
    NTH_CLASS[t][class as usize] += 1;
    if STICKY[t][class as usize] != 0 {
        fired(11);
        return Plan::Fail(STICKY[t][class as usize]);
    }
    for r in &fs.cfg.rules {
        if r.scn != scn || r.step != step {
            continue;
        }
        let hit = if r.class >= 0 { r.class == class as i32 && r.nth == nth_c as i64 } else { r.nth == nth as i64 };
        if !hit {
            continue;
        }
        match r.action {
            // (what a failed call could not clean up then would be nobody's fault)
            Action::Errno(_) if class == Class::Unlink => {}
            Action::Errno(e) => {
                if r.sticky {
                    STICKY[t][class as usize] = e;
                }
                fired(match class {
                    _ if e == libc::EINTR => 6,
                    Class::Open => 0,
                    Class::Read => 1,
                    Class::Write => 2,
                    _ => 3,
                });
                return Plan::Fail(e);
            }
            Action::Limit(n) if class == Class::Read || class == Class::Write => {
                fired(if class == Class::Read { 4 } else { 5 });
                return Plan::Go(n.max(1));
            }
            Action::Zero if class == Class::Write => {
                fired(7);
                return Plan::Zero;
            }
            Action::CrashBefore => die_now(),
            Action::CrashAfter(n) => return Plan::DieAfter(n),
            _ => {}
        }
    }
    if fs.cfg.chunk != 0 || fs.cfg.eintr_ppm != 0 {
        let mut r = Rng::new(fs.cfg.chunk_seed ^ ((scn as u64) << 40) ^ ((step as u64) << 24) ^ nth as u64);
        if blocking && r.chance(fs.cfg.eintr_ppm) {
            fired(6);
            return Plan::Fail(libc::EINTR);
        }
        if fs.cfg.chunk != 0 && (class == Class::Read || class == Class::Write) {
            return Plan::Go(1 + r.below(fs.cfg.chunk as u64) as usize);
        }
    }
    Plan::Go(usize::MAX)
}

unsafe fn rec(fs: &mut Fs, class: Class, path: String, req: i64, ret: i64) {
    let t = sched::current();
    if fs.trace.len() < 100_000 {
        fs.trace.push(Rec { scn: SCN[t], step: STEP[t], nth: NTH[t] - 1, class, path, req, ret });
    }
}

fn parent_ok(fs: &Fs, p: &str) -> bool {
    let i = p.rfind('/').unwrap_or(0);
    let d = if i == 0 { "/" } else { &p[..i] };
    fs.names.get(d).is_some_and(|&i| fs.inodes[i].dir)
}

fn used(fs: &Fs) -> usize {
    fs.names.values().map(|&i| fs.inodes[i].data.len()).sum()
}

/// Runs one operation: plan, body, record, possibly crash. `f` gets the transfer limit.
unsafe fn op<F>(class: Class, blocking: bool, path: &str, req: i64, f: F) -> Result<i64, i32>
where
    F: FnOnce(&mut Fs, usize) -> Result<i64, i32>,
{
    sched::sync_point();
    let r;
    {
        let _g = Guard::new();
        let fs = FS.as_mut().unwrap();
        let p = plan(fs, class, blocking);
        r = match p {
            Plan::Fail(e) => Err(e),
            Plan::Zero => Ok(0),
            Plan::Go(n) => f(fs, n),
            Plan::DieAfter(n) => {
                if n != 0 || class != Class::Write {
                    let _ = f(fs, n.max(1));
                }
                die_now()
            }
        };
        let v = match r {
            Ok(v) => v,
            Err(e) => -(e as i64),
        };
        rec(fs, class, path.to_string(), req, v);
    }
    sched::sync_point();
    r
}

pub unsafe fn sys_open(path: &str, flags: i32) -> Result<i64, i32> {
    let p = {
        let _g = Guard::new();
        norm(path)
    };
    let r = op(Class::Open, true, &p, flags as i64, |fs, _| {
        if fs.cfg.max_fds != 0 && fs.open.iter().flatten().count() >= fs.cfg.max_fds {
            fired(10);
            return Err(libc::EMFILE);
        }
        let acc = flags & libc::O_ACCMODE;
        let i = match fs.names.get(&p) {
            Some(&i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if fs.inodes[i].dir && (acc != libc::O_RDONLY || flags & libc::O_CREAT != 0) {
                    return Err(libc::EISDIR);
                }
                if flags & libc::O_DIRECTORY != 0 && !fs.inodes[i].dir {
                    return Err(libc::ENOTDIR);
                }
                if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                    fs.inodes[i].data.clear();
                    fs.changed(i, &p);
                }
                i
            }
            None => {
                if flags & libc::O_CREAT == 0 || !parent_ok(fs, &p) {
                    return Err(libc::ENOENT);
                }
                let i = fs.inode(false, Vec::new());
                fs.names.insert(p.clone(), i);
                fs.changed(i, &p);
                i
            }
        };
        fs.offs.push(0);
        let o = Open { inode: i, off: fs.offs.len() - 1, flags, path: p.clone(), scn: SCN[sched::current()] };
        let slot = fs.open.iter().position(|o| o.is_none());
        let k = match slot {
            Some(k) => {
                fs.open[k] = Some(o);
                k
            }
            None => {
                fs.open.push(Some(o));
                fs.open.len() - 1
            }
        };
        Ok((FD0 as usize + k) as i64)
    });
    {
        let _g = Guard::new();
        drop(p);
    }
    r
}

fn get(fs: &mut Fs, fd: i32) -> Result<&mut Open, i32> {
    fs.open.get_mut((fd - FD0) as usize).and_then(|o| o.as_mut()).ok_or(libc::EBADF)
}
unsafe fn path_of(fd: i32) -> String {
    let _g = Guard::new();
    get(FS.as_mut().unwrap(), fd).map(|o| o.path.clone()).unwrap_or_default()
}
unsafe fn drop_rt(s: String) {
    let _g = Guard::new();
    drop(s);
}

/// `at`: explicit offset (pread) or the descriptor's own.
pub unsafe fn sys_read(fd: i32, buf: *mut u8, n: usize, at: Option<u64>) -> Result<i64, i32> {
    let p = path_of(fd);
    let r = op(Class::Read, true, &p, n as i64, |fs, lim| {
        let o = get(fs, fd)?;
        if o.flags & libc::O_ACCMODE == libc::O_WRONLY {
            return Err(libc::EBADF);
        }
        let (i, slot) = (o.inode, o.off);
        let off = at.unwrap_or(fs.offs[slot]) as usize;
        if fs.inodes[i].dir {
            return Err(libc::EISDIR);
        }
        let d = &fs.inodes[i].data;
        let want = n.min(d.len().saturating_sub(off));
        let k = want.min(lim);
        if k < want {
            fired(4);
        }
        if k > 0 {
            core::ptr::copy_nonoverlapping(d.as_ptr().add(off), buf, k);
        }
        if at.is_none() {
            fs.offs[slot] += k as u64;
        }
        Ok(k as i64)
    });
    drop_rt(p);
    r
}

pub unsafe fn sys_write(fd: i32, buf: *const u8, n: usize, at: Option<u64>) -> Result<i64, i32> {
    let p = path_of(fd);
    let r = op(Class::Write, true, &p, n as i64, |fs, lim| {
        let cap = fs.cfg.capacity;
        let in_use = if cap != 0 { used(fs) } else { 0 };
        let o = get(fs, fd)?;
        if o.flags & libc::O_ACCMODE == libc::O_RDONLY {
            return Err(libc::EBADF);
        }
        let i = o.inode;
        let append = o.flags & libc::O_APPEND != 0;
        let slot = o.off;
        let path = o.path.clone();
        let off = if append { fs.inodes[i].data.len() } else { at.unwrap_or(fs.offs[slot]) as usize };
        let mut k = n.min(lim);
        if k < n {
            fired(5);
        }
        if cap != 0 {
            let grow = (off + k).saturating_sub(fs.inodes[i].data.len());
            let room = cap.saturating_sub(in_use);
            if grow > room {
                fired(9);
                k -= (grow - room).min(k);
                if k == 0 && n > 0 {
                    return Err(libc::ENOSPC);
                }
            }
        }
        let d = &mut fs.inodes[i].data;
        if d.len() < off + k {
            d.resize(off + k, 0);
        }
        core::ptr::copy_nonoverlapping(buf, d.as_mut_ptr().add(off), k);
        fs.changed(i, &path);
        if at.is_none() {
            fs.offs[slot] = (off + k) as u64;
        }
        Ok(k as i64)
    });
    drop_rt(p);
    r
}

pub unsafe fn sys_lseek(fd: i32, off: i64, whence: i32) -> Result<i64, i32> {
    let p = path_of(fd);
    let r = op(Class::Seek, false, &p, off, |fs, _| {
        let o = get(fs, fd)?;
        let (i, slot) = (o.inode, o.off);
        let cur = fs.offs[slot] as i64;
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => cur,
            libc::SEEK_END => fs.inodes[i].data.len() as i64,
            _ => return Err(libc::EINVAL),
        };
        let n = base + off;
        if n < 0 {
            return Err(libc::EINVAL);
        }
        fs.offs[slot] = n as u64;
        Ok(n)
    });
    drop_rt(p);
    r
}

pub unsafe fn sys_fstat(fd: i32, out: &mut Meta) -> Result<i64, i32> {
    let p = path_of(fd);
    let r = op(Class::Stat, false, &p, 0, |fs, _| {
        let i = get(fs, fd)?.inode;
        *out = fs.meta(i);
        Ok(0)
    });
    drop_rt(p);
    r
}
pub unsafe fn sys_stat(path: &str, out: &mut Meta) -> Result<i64, i32> {
    let p = {
        let _g = Guard::new();
        norm(path)
    };
    let r = op(Class::Stat, false, &p, 0, |fs, _| match fs.names.get(&p) {
        Some(&i) => {
            *out = fs.meta(i);
            Ok(0)
        }
        None => Err(libc::ENOENT),
    });
    drop_rt(p);
    r
}
pub unsafe fn sys_ftruncate(fd: i32, len: u64) -> Result<i64, i32> {
    let p = path_of(fd);
    let r = op(Class::Trunc, false, &p, len as i64, |fs, _| {
        let o = get(fs, fd)?;
        let (i, path) = (o.inode, o.path.clone());
        if o.flags & libc::O_ACCMODE == libc::O_RDONLY {
            return Err(libc::EINVAL);
        }
        resize(fs, i, len, &path)
    });
    drop_rt(p);
    r
}
pub unsafe fn sys_fsync(fd: i32) -> Result<i64, i32> {
    let p = path_of(fd);
    let r = op(Class::Sync, true, &p, 0, |fs, _| get(fs, fd).map(|_| 0));
    drop_rt(p);
    r
}
pub unsafe fn sys_close(fd: i32) -> Result<i64, i32> {
    sched::sync_point();
    let _g = Guard::new();
    let fs = FS.as_mut().unwrap();
    match fs.open.get_mut((fd - FD0) as usize) {
        Some(o) if o.is_some() => {
            *o = None;
            Ok(0)
        }
        _ => Err(libc::EBADF),
    }
}
pub unsafe fn sys_dup(fd: i32) -> Result<i64, i32> {
    let p = path_of(fd);
    let r = op(Class::Other, false, &p, 0, |fs, _| {
        let o = get(fs, fd)?;
        let n = Open { inode: o.inode, off: o.off, flags: o.flags, path: o.path.clone(), scn: o.scn };
        fs.open.push(Some(n));
        Ok((FD0 as usize + fs.open.len() - 1) as i64)
    });
    drop_rt(p);
    r
}
pub unsafe fn sys_rename(a: &str, b: &str) -> Result<i64, i32> {
    let (p, q) = {
        let _g = Guard::new();
        (norm(a), norm(b))
    };
    let r = op(Class::Rename, false, &p, 0, |fs, _| {
        let Some(&i) = fs.names.get(&p) else { return Err(libc::ENOENT) };
        if !parent_ok(fs, &q) {
            return Err(libc::ENOENT);
        }
        if let Some(&j) = fs.names.get(&q) {
            if fs.inodes[j].dir {
                return Err(libc::EISDIR);
            }
        }
        if fs.inodes[i].dir {
            return Err(libc::EPERM); // (directories stay where they are)
        }
        fs.names.remove(&p);
        fs.names.insert(q.clone(), i);
        fs.touched.push(p.clone());
        fs.touched.push(q.clone());
        Ok(0)
    });
    drop_rt(p);
    drop_rt(q);
    r
}
pub unsafe fn sys_link(a: &str, b: &str) -> Result<i64, i32> {
    let (p, q) = {
        let _g = Guard::new();
        (norm(a), norm(b))
    };
    let r = op(Class::Rename, false, &p, 0, |fs, _| {
        let Some(&i) = fs.names.get(&p) else { return Err(libc::ENOENT) };
        if fs.names.contains_key(&q) {
            return Err(libc::EEXIST);
        }
        fs.names.insert(q.clone(), i);
        fs.touched.push(q.clone());
        Ok(0)
    });
    drop_rt(p);
    drop_rt(q);
    r
}
pub unsafe fn sys_unlink(a: &str) -> Result<i64, i32> {
    let p = {
        let _g = Guard::new();
        norm(a)
    };
    let r = op(Class::Unlink, false, &p, 0, |fs, _| {
        match fs.names.get(&p) {
            None => Err(libc::ENOENT),
            Some(&i) if fs.inodes[i].dir => Err(libc::EISDIR),
            Some(_) => {
                fs.names.remove(&p);
                fs.touched.push(p.clone());
                Ok(0)
            }
        }
    });
    drop_rt(p);
    r
}
pub unsafe fn sys_mkdir(a: &str) -> Result<i64, i32> {
    let p = {
        let _g = Guard::new();
        norm(a)
    };
    let r = op(Class::Mkdir, false, &p, 0, |fs, _| {
        if fs.names.contains_key(&p) {
            return Err(libc::EEXIST);
        }
        if !parent_ok(fs, &p) {
            return Err(libc::ENOENT);
        }
        let i = fs.inode(true, Vec::new());
        fs.names.insert(p.clone(), i);
        fs.changed(i, &p);
        Ok(0)
    });
    drop_rt(p);
    r
}
pub unsafe fn sys_rmdir(a: &str) -> Result<i64, i32> {
    let p = {
        let _g = Guard::new();
        norm(a)
    };
    let r = op(Class::Unlink, false, &p, 0, |fs, _| {
        match fs.names.get(&p) {
            None => Err(libc::ENOENT),
            Some(&i) if !fs.inodes[i].dir => Err(libc::ENOTDIR),
            Some(_) => {
                let inside = format!("{}/", p);
                if fs.names.keys().any(|n| n.starts_with(&inside)) || p == "/" {
                    return Err(libc::ENOTEMPTY);
                }
                fs.names.remove(&p);
                fs.touched.push(p.clone());
                Ok(0)
            }
        }
    });
    drop_rt(p);
    r
}
fn resize(fs: &mut Fs, i: usize, len: u64, path: &str) -> Result<i64, i32> {
    if fs.inodes[i].dir {
        return Err(libc::EISDIR);
    }
    if len > 1 << 30 {
        return Err(libc::EFBIG);
    }
    fs.inodes[i].data.resize(len as usize, 0);
    fs.changed(i, path);
    Ok(0)
}
pub unsafe fn sys_truncate(a: &str, len: u64) -> Result<i64, i32> {
    let p = {
        let _g = Guard::new();
        norm(a)
    };
    let r = op(Class::Trunc, false, &p, len as i64, |fs, _| match fs.names.get(&p) {
        Some(&i) => resize(fs, i, len, &p),
        None => Err(libc::ENOENT),
    });
    drop_rt(p);
    r
}
/// posix_fallocate: makes the file at least this long.
pub unsafe fn sys_allocate(fd: i32, len: u64) -> Result<i64, i32> {
    let p = path_of(fd);
    let r = op(Class::Trunc, false, &p, len as i64, |fs, _| {
        let o = get(fs, fd)?;
        let (i, path) = (o.inode, o.path.clone());
        let now = fs.inodes[i].data.len() as u64;
        if len <= now {
            return Ok(0);
        }
        if fs.cfg.capacity != 0 && (len - now) as usize > fs.cfg.capacity.saturating_sub(used(fs)) {
            fired(9);
            return Err(libc::ENOSPC);
        }
        resize(fs, i, len, &path)
    });
    drop_rt(p);
    r
}
pub enum Which<'a> {
    Path(&'a str),
    Fd(i32),
}
/// Sets permissions or times.
pub unsafe fn sys_attr(w: Which, mode: Option<u32>, mtime: Option<u64>) -> Result<i64, i32> {
    let p = match w {
        Which::Path(p) => {
            let _g = Guard::new();
            norm(p)
        }
        Which::Fd(fd) => path_of(fd),
    };
    let r = op(Class::Other, false, &p, 0, |fs, _| {
        let i = match w {
            Which::Path(_) => *fs.names.get(&p).ok_or(libc::ENOENT)?,
            Which::Fd(fd) => get(fs, fd)?.inode,
        };
        if let Some(m) = mode {
            fs.inodes[i].mode = m & 0o7777;
        }
        if let Some(t) = mtime {
            fs.inodes[i].mtime = t;
        }
        fs.attrs.push(p.clone());
        Ok(0)
    });
    drop_rt(p);
    r
}
pub unsafe fn sys_chdir(a: &str) -> Result<i64, i32> {
    let p = {
        let _g = Guard::new();
        norm(a)
    };
    let r = op(Class::Other, false, &p, 0, |fs, _| match fs.names.get(&p) {
        Some(&i) if fs.inodes[i].dir => {
            fs.cwd = p.clone();
            Ok(0)
        }
        Some(_) => Err(libc::ENOTDIR),
        None => Err(libc::ENOENT),
    });
    drop_rt(p);
    r
}
/// The working directory, or the resolved path if it exists, with a final NUL, for `f`.
pub unsafe fn with_path(a: Option<&str>, f: impl FnOnce(&[u8])) -> Result<i64, i32> {
    let p = {
        let _g = Guard::new();
        match a {
            Some(a) => norm(a),
            None => FS.as_ref().unwrap().cwd.clone(),
        }
    };
    let r = op(Class::Stat, false, &p, 0, |fs, _| {
        if !fs.names.contains_key(&p) {
            return Err(libc::ENOENT);
        }
        let mut b = p.clone().into_bytes();
        b.push(0);
        f(&b);
        Ok(0)
    });
    drop_rt(p);
    r
}
/// `path` as seen from an open directory.
pub unsafe fn at(dir: i32, path: &str) -> Option<String> {
    if path.starts_with('/') || !owns(dir) {
        return None;
    }
    let d = path_of(dir);
    let _g = Guard::new();
    Some(format!("{}/{}", d, path))
}
/// The `k`-th entry of an open directory, in an order of the simulator's own.
pub unsafe fn dir_entry(fd: i32, k: usize, f: impl FnOnce(&str, &Meta)) -> bool {
    let _g = Guard::new();
    let fs = FS.as_mut().unwrap();
    let Ok(o) = get(fs, fd) else { return false };
    let d = if o.path == "/" { "/".to_string() } else { format!("{}/", o.path) };
    let seed = sched::env_seed();
    let mut v: Vec<(u64, &String)> = fs.names.keys().filter(|n| n.len() > d.len() && n.starts_with(&d) && !n[d.len()..].contains('/'))
        .map(|n| {
            let mut h = seed;
            for b in n.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            (h, n)
        }).collect();
    v.sort();
    match v.get(k) {
        Some((_, n)) => {
            f(&n[d.len()..], &fs.meta(fs.names[*n]));
            true
        }
        None => false,
    }
}
pub unsafe fn flags_of(fd: i32) -> i32 {
    get(FS.as_mut().unwrap(), fd).map(|o| o.flags).unwrap_or(libc::O_RDWR)
}
