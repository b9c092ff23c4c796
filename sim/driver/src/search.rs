//! The seeded search: cases are spread over single-threaded worker processes, each pinned to a CPU.
use crate::exec::{self, RunResult};
use crate::gen;
use crate::judge::{self, Oracle, Viol};
use crate::stats::Stats;
use model::*;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// A violation the known-findings file lists: all these words occur in its text.
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub words: Vec<String>,
    pub text: String,
}
pub fn known_for(k: &[Known], p: &str, v: &Viol) -> Option<usize> {
    k.iter().position(|x| x.property == p && v.class == x.class && x.words.iter().all(|w| v.text.contains(w.as_str())))
}

pub fn threaded(s: &Scenario) -> bool {
    s.threads.len() > 1 || !s.pools.is_empty() || s.variant == Variant::Par || s.threads.iter().flatten().any(|x| x.ctx == Ctx::Threads)
}

/// The case with its schedule; `None` if an oracle it needs does not end normally.
pub fn build(prop: &str, seed: u64, idx: u64, o: &mut Oracle, st: &mut Stats) -> Option<Scenario> {
    let mut s = gen::scenario(prop, seed, idx);
    let est = judge::prepare(&s, o)?;
    if threaded(&s) {
        let mut n = est;
        if est == 0 {
            let mut q = s.clone();
            q.sched = Sched::default();
            n = exec::run(&q).steps;
            st.probe_runs += 1;
        }
        let mut r = Rng::new(mix(seed ^ 0x5ced).wrapping_add(mix(idx ^ hash_bytes(prop.as_bytes()))));
        s.sched = gen::sched(&mut r, n);
    }
    Some(s)
}

pub fn case(prop: &str, seed: u64, idx: u64, o: &mut Oracle, st: &mut Stats) -> Option<(Scenario, RunResult, Option<Viol>)> {
    o.clear();
    let Some(s) = build(prop, seed, idx, o, st) else {
        st.no_oracle += 1;
        return None;
    };
    let r = exec::run(&s);
    let v = judge::judge(&s, &r, o);
    st.add(&s, &r, idx);
    if std::env::var("SIM_TRACE").is_ok() {
        let t = format!("run {} steps {} hash {:x} io {} allocs {}\n", idx, r.steps, r.sched_hash, r.io_ops, r.allocs);
        let _ = std::io::stderr().write_all(t.as_bytes());
    }
    Some((s, r, v))
}

pub struct Found {
    pub stats: Stats,
    pub first: Option<u64>,
    pub wall: f64,
}

/// Cases `from`.. `cases`, for `secs` seconds, until one violates the property.
pub fn search(prop: &str, seed: u64, from: u64, cases: u64, secs: f64, workers: u64, known: &[Known]) -> Found {
    let t0 = Instant::now();
    let min: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const AtomicU64)
    };
    min.store(u64::MAX, Ordering::SeqCst);
    let mut kids = Vec::new();
    for w in 0..workers {
        let mut p = [0i32; 2];
        unsafe {
            assert!(libc::pipe(p.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(p[0]);
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(w as usize, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
                simrt::shared::renew();
                let st = work(prop, seed, from, cases, secs, workers, w, min, known, t0);
                let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(p[1]);
                let _ = f.write_all(&serde_json::to_vec(&st).unwrap());
                drop(f);
                libc::_exit(0);
            }
            libc::close(p[1]);
            kids.push((pid, p[0]));
        }
    }
    let mut stats = Stats::default();
    for (pid, fd) in kids {
        let mut b = Vec::new();
        let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fd) };
        let _ = f.read_to_end(&mut b);
        let mut code = 0;
        unsafe { libc::waitpid(pid, &mut code, 0) };
        match serde_json::from_slice::<Stats>(&b) {
            Ok(s) => stats.merge(s),
            Err(_) => {
                eprintln!("simdriver: a worker ended without results (status {})", code);
                std::process::exit(2);
            }
        }
    }
    let first = min.load(Ordering::SeqCst);
    Found { stats, first: (first != u64::MAX).then_some(first), wall: t0.elapsed().as_secs_f64() }
}

fn work(prop: &str, seed: u64, from: u64, cases: u64, secs: f64, workers: u64, w: u64, min: &AtomicU64, known: &[Known], t0: Instant) -> Stats {
    let mut st = Stats::default();
    let mut o = Oracle::default();
    let mut idx = from + w;
    while idx < cases && idx < min.load(Ordering::SeqCst) && t0.elapsed() < Duration::from_secs_f64(secs) {
        let c = case(prop, seed, idx, &mut o, &mut st);
        if let (Some((s, r, _)), true) = (&c, (idx / workers) % 64 == 3) {
            // the same case again, from its recorded schedule
            if !r.dec_overflow && r.finished() {
                let q = exec::run(&crate::shrink::explicit(s, r));
                st.replayed += 1;
                let same = (q.status, q.steps, q.sched_hash, q.io_ops, q.allocs) == (r.status, r.steps, r.sched_hash, r.io_ops, r.allocs)
                    && { let (mut a, mut b) = (Vec::new(), Vec::new()); q.out.put(&mut a); r.out.put(&mut b); a == b };
                if !same {
                    st.replay_bad += 1;
                    if std::env::var("SIM_ALL").is_ok() {
                        eprintln!("case {}: its replay differs: steps {} {} hash {:x} {:x} io {} {} allocs {} {}", idx, r.steps, q.steps, r.sched_hash, q.sched_hash, r.io_ops, q.io_ops, r.allocs, q.allocs);
                    }
                }
            }
        }
        if let Some((s, r, Some(v))) = c {
            // a simulated run repeats; what does not is a failure of the simulator
            let again = case(prop, seed, idx, &mut o, &mut Stats::default());
            if !matches!(&again, Some((_, q, Some(x))) if x.class == v.class && q.sched_hash == r.sched_hash) {
                eprintln!("case {}: [{}] {}: did not repeat", idx, v.class, v.text);
                st.unrepeated += 1;
                idx += workers;
                continue;
            }
            match known_for(known, &s.prop, &v) {
                Some(k) => *st.known.entry(known[k].text.clone()).or_insert(0) += 1,
                None => {
                    if std::env::var("SIM_ALL").is_ok() {
                        eprintln!("case {}: [{}] {}", idx, v.class, v.text);
                    } else {
                        min.fetch_min(idx, Ordering::SeqCst);
                        break;
                    }
                }
            }
        }
        idx += workers;
    }
    st.oracle_runs = o.runs;
    st.oracle_steps = o.steps;
    st
}
