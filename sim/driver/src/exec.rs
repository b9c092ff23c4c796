//! Executes scenarios: every run is a process forked from a single-threaded worker that has never
//! called the library.
use model::{Bin, FAct, FileSpec, Img, Pix, RunOut, Scenario};
use simrt::{alloc, fs, sched, shared};

#[derive(Clone, Debug, Default)]
pub struct RunResult {
    pub status: u32,
    pub msg: String,
    pub out: RunOut,
    pub dec: Vec<(u16, u16, u32, u64)>,
    pub dec_overflow: bool,
    pub steps: u64,
    pub switches: u64,
    pub conflicts: u64,
    pub spurious: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub timers: u64,
    pub threads: u32,
    pub allocs: u64,
    pub reuses: u64,
    pub efences: u64,
    pub memchecks: u64,
    pub cpu_asks: u64,
    pub cpu_no: u64,
    pub rand_bytes: u64,
    pub faults: [u64; 32],
    pub io_ops: u64,
    pub probes: [u64; 32],
}
/// The process was killed (CPU time exhausted outside of simulated code).
pub const ST_KILLED: u32 = 8;

impl RunResult {
    pub fn finished(&self) -> bool {
        self.status == shared::ST_DONE
    }
    pub fn ending(&self) -> String {
        match self.status {
            shared::ST_DONE => "finished".into(),
            shared::ST_DEADLOCK => format!("deadlock: {}", self.msg),
            shared::ST_BUDGET => format!("no end after {} steps", self.steps),
            shared::ST_MEMORY => format!("memory error: {}", self.msg),
            shared::ST_CRASH => "simulated crash".into(),
            shared::ST_SEGV => format!("process died: {}", self.msg),
            ST_KILLED => format!("no end: {}", self.msg),
            shared::ST_NOMEM => format!("out of memory: {}", self.msg),
            _ => format!("harness: {}", self.msg),
        }
    }
}

fn on_crash() {
    // (in the run's process, inside the runtime)
    let o = opcat::collect();
    let mut b = Vec::new();
    o.put(&mut b);
    shared::put_out(&b);
}

fn limit_cpu(secs: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: secs, rlim_max: secs + 1 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::alarm((secs * 4) as u32);
    }
}

/// Forks, runs `f` in the child (which must end by itself or through `finish`), waits.
fn forked(cpu_secs: u64, f: impl FnOnce()) -> Option<i32> {
    shared::reset();
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("simdriver: fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            limit_cpu(cpu_secs);
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if *libc::__errno_location() != libc::EINTR {
                eprintln!("simdriver: waitpid failed");
                std::process::exit(2);
            }
        }
        if libc::WIFSIGNALED(st) {
            return Some(libc::WTERMSIG(st));
        }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0 {
            return Some(-libc::WEXITSTATUS(st));
        }
        None
    }
}

pub fn fs_cfg(s: &Scenario, files: Vec<(String, Vec<u8>)>) -> fs::FsCfg {
    fs::FsCfg {
        files,
        rules: s.disk.faults.iter().map(|f| fs::Rule {
            scn: f.thr, step: f.step, nth: f.nth, class: f.class, sticky: f.sticky,
            action: match f.act {
                FAct::Errno(e) => fs::Action::Errno(e),
                FAct::Limit(n) => fs::Action::Limit(n),
                FAct::Zero => fs::Action::Zero,
                FAct::CrashBefore => fs::Action::CrashBefore,
                FAct::CrashAfter(n) => fs::Action::CrashAfter(n),
            },
        }).collect(),
        chunk: s.disk.chunk,
        chunk_seed: s.disk.chunk_seed,
        eintr_ppm: s.disk.eintr_ppm,
        capacity: s.disk.capacity,
        max_fds: s.disk.max_fds,
        readonly: s.disk.readonly,
    }
}

pub fn encode_files(s: &Scenario) -> Vec<(String, Vec<u8>)> {
    let mut files = Vec::new();
    for f in &s.files {
        let (p, d) = match f {
            FileSpec::Raw { path, hex } => (path, Some(model::unhex(hex))),
            FileSpec::Enc { path, im, fmt } => (path, encode(&s.images[*im].img(), fmt)),
            FileSpec::Cut { path, im, fmt, keep } => (path, encode(&s.images[*im].img(), fmt).map(|mut d| {
                d.truncate(*keep);
                d
            })),
            FileSpec::Flip { path, im, fmt, at, x } => (path, encode(&s.images[*im].img(), fmt).map(|mut d| {
                if !d.is_empty() {
                    let n = d.len();
                    d[*at % n] ^= *x;
                }
                d
            })),
        };
        if let Some(d) = d {
            files.push((fs::norm(path_str(p)), d));
        }
    }
    files
}
fn path_str(p: &String) -> &str {
    p.as_str()
}

/// Runs one scenario.
pub fn run(s: &Scenario) -> RunResult {
    let sig = forked(40, || unsafe {
        simrt::catch_signals();
        simrt::set_on_crash(on_crash);
        let scn: &'static Scenario = Box::leak(Box::new(s.clone()));
        let files = encode_files(scn);
        simrt::interpose::clear_environment();
        for (k, v) in &scn.env.vars {
            std::env::set_var(k, v);
        }
        fs::start(&fs_cfg(scn, files));
        // (nothing before this may use the thread-local state of the run's first thread)
        simrt::on_fixed_stack(|| first_thread(scn));
    });
    #[inline(never)]
    unsafe fn first_thread(scn: &'static Scenario) {
        let h = &scn.env.heap;
        alloc::start(&alloc::HeapCfg { seed: h.seed, reuse: h.reuse, odd: h.odd, efence: h.efence, shadow: h.shadow, points: h.points });
        let c = &scn.sched;
        let overrides: Vec<shared::Decision> = c.switches.iter().flatten()
            .map(|(tid, lp, target)| shared::Decision { tid: *tid, target: *target, kind: 0, lp: *lp }).collect();
        sched::start(&sched::Cfg {
            seed: c.seed, policy: c.policy, explicit: c.switches.is_some(), overrides, mean: c.mean, conflict_ppm: c.conflict_ppm,
            sync_ppm: c.sync_ppm, spurious_ppm: c.spurious_ppm, quantum: c.quantum, pct_depth: c.pct_depth, pct_len: c.pct_len,
            fair: c.fair, budget: c.budget, memcheck: h.shadow, clock0: scn.env.clock0, clock_jumps: scn.env.clock_jumps,
            ncpu: scn.env.ncpu, hash_seed: scn.env.hash_seed, cpu: scn.env.cpu,
        });
        opcat::run(scn);
        simrt::quiet(|| alloc::check_all());
        sched::stop();
        let o = opcat::collect();
        let mut b = Vec::new();
        o.put(&mut b);
        shared::put_out(&b);
        (*shared::SH).status = shared::ST_DONE;
        libc::_exit(0);
    }
    let sh = shared::get();
    let mut r = RunResult {
        status: sh.status, msg: shared::msg(), dec_overflow: sh.dec_overflow > 0, steps: sh.steps, switches: sh.switches,
        conflicts: sh.conflicts, spurious: sh.spurious, sim_ns: sh.clock_ns.saturating_sub(sh.clock0_ns), sched_hash: sh.sched_hash,
        timers: sh.timers_fired, threads: sh.n_threads, allocs: sh.allocs, reuses: sh.reuses, efences: sh.efences,
        memchecks: sh.memchecks, cpu_asks: sh.cpu_asks, cpu_no: sh.cpu_no, rand_bytes: sh.rand_bytes, faults: sh.fault_fired,
        io_ops: sh.io_ops, probes: sh.probes, ..RunResult::default()
    };
    if sh.status == shared::ST_RUNNING {
        r.status = match sig {
            Some(libc::SIGXCPU) | Some(libc::SIGALRM) | Some(libc::SIGKILL) => ST_KILLED,
            Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL) | Some(libc::SIGFPE) => shared::ST_SEGV,
            // a library that ends the whole process
            None => shared::ST_SEGV,
            Some(_) => shared::ST_SEGV,
        };
        r.msg = format!("ended with {:?}", sig);
    }
    if sh.status == shared::ST_DONE || sh.status == shared::ST_CRASH {
        let b = shared::out();
        match RunOut::get(&mut &b[..]) {
            Some(o) => r.out = o,
            None => {
                r.status = shared::ST_HARNESS;
                r.msg = "results cannot be decoded".into();
            }
        }
    }
    r.dec = sh.dec[..sh.n_dec as usize].iter().map(|d| (d.tid, d.target, d.kind, d.lp)).collect();
    if r.status == shared::ST_HARNESS {
        let p = format!("/tmp/simdriver-harness-{}.json", std::process::id());
        let _ = std::fs::write(&p, serde_json::to_string(s).unwrap());
        eprintln!("simdriver: harness error: {} (scenario in {})", r.msg, p);
    }
    r
}

/// Encodes with the reference codec, without going through the library.
pub fn encode(i: &Img, fmt: &str) -> Option<Vec<u8>> {
    use image::codecs::*;
    use image::ColorType::*;
    let Pix::U8(d) = &i.pix else { return None };
    let color = match (i.c, i.a) {
        (1, false) => L8,
        (2, true) => La8,
        (3, false) => Rgb8,
        (4, true) => Rgba8,
        _ => return None,
    };
    if !i.complete() {
        return None;
    }
    let (w, h) = (i.w, i.h);
    if (w == 0 || h == 0) && !matches!(fmt, "pgm" | "ppm" | "pam" | "pgma" | "ppma") {
        return None;
    }
    let mut b = Vec::new();
    let pnm = |b: &mut Vec<u8>, t: Option<pnm::PNMSubtype>| {
        let mut e = pnm::PnmEncoder::new(b);
        if let Some(t) = t {
            e = e.with_subtype(t);
        }
        e.encode(&d[..], w, h, color)
    };
    let r = match fmt {
        "png" => png::PngEncoder::new(&mut b).encode(d, w, h, color),
        "png16" => {
            let d16: Vec<u8> = d.iter().flat_map(|x| [*x, x.wrapping_mul(7)]).collect();
            let c16 = match color {
                L8 => L16,
                La8 => La16,
                Rgb8 => Rgb16,
                _ => Rgba16,
            };
            png::PngEncoder::new(&mut b).encode(&d16, w, h, c16)
        }
        "jpg" => jpeg::JpegEncoder::new(&mut b).encode(d, w, h, color),
        "bmp" => bmp::BmpEncoder::new(&mut b).encode(d, w, h, color),
        "tga" => tga::TgaEncoder::new(&mut b).encode(d, w, h, color),
        "tif" => tiff::TiffEncoder::new(std::io::Cursor::new(&mut b)).encode(d, w, h, color),
        "ico" => ico::IcoEncoder::new(&mut b).encode(d, w, h, color),
        "gif" => gif::GifEncoder::new(&mut b).encode(d, w, h, color),
        "pgm" => pnm(&mut b, Some(pnm::PNMSubtype::Graymap(pnm::SampleEncoding::Binary))),
        "ppm" => pnm(&mut b, Some(pnm::PNMSubtype::Pixmap(pnm::SampleEncoding::Binary))),
        "pbm" => pnm(&mut b, Some(pnm::PNMSubtype::Bitmap(pnm::SampleEncoding::Binary))),
        "pgma" => pnm(&mut b, Some(pnm::PNMSubtype::Graymap(pnm::SampleEncoding::Ascii))),
        "ppma" => pnm(&mut b, Some(pnm::PNMSubtype::Pixmap(pnm::SampleEncoding::Ascii))),
        "pam" => pnm(&mut b, None),
        _ => return None,
    };
    r.ok()?;
    Some(b)
}

/// Decodes with the reference codec, in a process of its own. `None`: not an image (or not one with
/// 8-bit channels).
pub fn decode(bytes: &[u8], path: &str) -> Option<Img> {
    let sig = forked(40, || unsafe {
        let mut b = Vec::new();
        if let Some(i) = decode_here(bytes, path) {
            i.put(&mut b);
        }
        shared::put_out(&b);
        (*shared::SH).status = shared::ST_DONE;
    });
    if sig.is_some() || shared::get().status != shared::ST_DONE {
        return None;
    }
    let b = shared::out();
    Img::get(&mut &b[..])
}
pub fn decode_here(bytes: &[u8], path: &str) -> Option<Img> {
    use image::{ColorType::*, GenericImageView};
    // the format by extension, as the library's reader documents
    let fmt = image::ImageFormat::from_path(path).ok()?;
    let i = image::load_from_memory_with_format(bytes, fmt).ok()?;
    let (c, a) = match i.color() {
        L8 => (1, false),
        La8 => (2, true),
        Rgb8 | Bgr8 => (3, false),
        Rgba8 | Bgra8 => (4, true),
        _ => return None,
    };
    let (w, h) = i.dimensions();
    Some(Img::u8(w, h, c, a, i.as_bytes()))
}
