//! Minimises a violating scenario: work, faults, environment and schedule, as long as the same class of
//! violation remains.
use crate::exec::{self, RunResult};
use crate::judge::{self, Oracle, Viol};
use crate::search::threaded;
use model::*;
use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    o: &'a mut Oracle,
    class: String,
    until: Instant,
    pub runs: u64,
    pub best: Scenario,
    pub result: RunResult,
    pub viol: Viol,
}

/// The schedule of the run, as the explicit list that repeats it.
pub fn explicit(s: &Scenario, r: &RunResult) -> Scenario {
    let mut e = s.clone();
    e.sched.switches = Some(r.dec.iter().map(|d| (d.0, d.3, d.1)).collect());
    e
}

fn drop_unused(s: &mut Scenario) {
    let mut used = vec![false; s.images.len()];
    for st in s.threads.iter().flatten() {
        for c in &st.calls {
            c.im.iter().for_each(|k| used[*k] = true);
        }
    }
    for f in &s.files {
        if let FileSpec::Enc { im, .. } | FileSpec::Cut { im, .. } | FileSpec::Flip { im, .. } = f {
            used[*im] = true;
        }
    }
    let mut map = vec![0; used.len()];
    let mut n = 0;
    for k in 0..used.len() {
        map[k] = n;
        n += used[k] as usize;
    }
    let mut k = 0;
    s.images.retain(|_| {
        k += 1;
        used[k - 1]
    });
    for st in s.threads.iter_mut().flatten() {
        for c in st.calls.iter_mut() {
            c.im.iter_mut().for_each(|k| *k = map[*k]);
        }
    }
    for f in s.files.iter_mut() {
        if let FileSpec::Enc { im, .. } | FileSpec::Cut { im, .. } | FileSpec::Flip { im, .. } = f {
            *im = map[*im];
        }
    }
}

impl<'a> Shrinker<'a> {
    pub fn new(o: &'a mut Oracle, s: &Scenario, r: RunResult, v: Viol, secs: f64) -> Shrinker<'a> {
        Shrinker { o, class: v.class.clone(), until: Instant::now() + Duration::from_secs_f64(secs), runs: 0, best: s.clone(), result: r, viol: v }
    }
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    /// Keeps the candidate if it shows the same class of violation.
    fn keep(&mut self, s: Scenario) -> bool {
        if self.late() {
            return false;
        }
        self.o.clear();
        if judge::prepare(&s, self.o).is_none() {
            return false;
        }
        self.runs += 1;
        let r = exec::run(&s);
        if r.status == simrt::shared::ST_HARNESS {
            return false;
        }
        match judge::judge(&s, &r, self.o) {
            Some(v) if v.class == self.class => {
                self.best = s;
                self.result = r;
                self.viol = v;
                true
            }
            _ => false,
        }
    }
    /// As `keep`, under some other seeds of the schedule, too.
    fn attempt(&mut self, s: Scenario) -> bool {
        if s.sched.switches.is_some() || !threaded(&s) {
            return self.keep(s);
        }
        for k in 0..4u64 {
            let mut t = s.clone();
            if k > 0 {
                t.sched.seed = mix(s.sched.seed.wrapping_add(k));
            }
            if self.keep(t) {
                return true;
            }
        }
        false
    }
    fn edit(&mut self, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut s = self.best.clone();
        f(&mut s);
        s != self.best && self.attempt(s)
    }

    fn drop_thread(&mut self, k: usize) -> bool {
        self.edit(|s| {
            s.threads.remove(k);
            s.disk.faults.retain(|f| f.thr != k as i32);
            for f in s.disk.faults.iter_mut() {
                if f.thr > k as i32 {
                    f.thr -= 1;
                }
            }
        })
    }
    fn drop_steps(&mut self, t: usize, a: usize, n: usize) -> bool {
        self.edit(|s| {
            s.threads[t].drain(a..a + n);
            s.disk.faults.retain(|f| f.thr != t as i32 || f.step < a as i32 || f.step >= (a + n) as i32);
            for f in s.disk.faults.iter_mut() {
                if f.thr == t as i32 && f.step >= (a + n) as i32 {
                    f.step -= n as i32;
                }
            }
        })
    }
    /// Removes as many elements as possible from a list of `n`; `f` removes a range of it.
    fn chunks(&mut self, n: usize, least: usize, mut f: impl FnMut(&mut Self, usize, usize) -> bool) -> bool {
        let mut any = false;
        let mut n = n;
        let mut size = n.max(1);
        while size >= 1 {
            let mut a = n.saturating_sub(size);
            loop {
                if self.late() {
                    return any;
                }
                let m = size.min(n - a.min(n));
                if m > 0 && n - m >= least && f(self, a, m) {
                    n -= m;
                    any = true;
                }
                if a == 0 {
                    break;
                }
                a = a.saturating_sub(size);
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        any
    }

    fn structure(&mut self) -> bool {
        let mut any = false;
        let mut k = self.best.threads.len();
        while k > 0 {
            k -= 1;
            if self.best.threads.len() > 1 && k < self.best.threads.len() {
                any |= self.drop_thread(k);
            }
        }
        for t in 0..self.best.threads.len() {
            let n = self.best.threads[t].len();
            let least = 1;
            any |= self.chunks(n, least, |z, a, m| z.drop_steps(t, a, m));
            for st in 0..self.best.threads[t].len() {
                let n = self.best.threads[t][st].calls.len();
                any |= self.chunks(n, 1, |z, a, m| z.edit(|s| {
                    s.threads[t][st].calls.drain(a..a + m);
                }));
                any |= self.edit(|s| s.threads[t][st].ctx = Ctx::Plain);
                any |= self.edit(|s| s.threads[t][st].wait_us = 0);
                for c in 0..self.best.threads[t][st].calls.len() {
                    let n = self.best.threads[t][st].calls[c].h.len();
                    if n > 0 {
                        any |= self.chunks(n, 0, |z, a, m| z.edit(|s| {
                            s.threads[t][st].calls[c].h.drain(a..a + m);
                        }));
                    }
                }
            }
        }
        let n = self.best.files.len();
        any |= self.chunks(n, 0, |z, a, m| z.edit(|s| {
            s.files.drain(a..a + m);
        }));
        any
    }

    fn surroundings(&mut self) -> bool {
        let mut any = false;
        let n = self.best.disk.faults.len();
        any |= self.chunks(n, 0, |z, a, m| z.edit(|s| {
            s.disk.faults.drain(a..a + m);
        }));
        any |= self.edit(|s| (s.disk.chunk, s.disk.chunk_seed) = (0, 0));
        any |= self.edit(|s| s.disk.eintr_ppm = 0);
        any |= self.edit(|s| s.disk.capacity = 0);
        any |= self.edit(|s| s.disk.max_fds = 0);
        any |= self.edit(|s| s.disk.readonly = false);
        if !self.edit(|s| s.env = Env::default()) {
            let d = Env::default();
            any |= self.edit(|s| s.env.vars.clear());
            any |= self.edit(|s| (s.env.clock0, s.env.clock_jumps) = (d.clock0, false));
            any |= self.edit(|s| s.env.hash_seed = 0);
            any |= self.edit(|s| s.env.ncpu = d.ncpu);
            any |= self.edit(|s| s.env.cpu = 1);
            any |= self.edit(|s| s.env.heap.efence = 0);
            any |= self.edit(|s| s.env.heap.points = false);
            any |= self.edit(|s| s.env.heap.odd = false);
            any |= self.edit(|s| s.env.heap = d.heap.clone());
        }
        for p in 0..self.best.pools.len() {
            let n = self.best.pools[p];
            let mut m = 1;
            while m < n && !self.edit(|s| s.pools[p] = m) {
                m += 1;
            }
        }
        any |= self.edit(|s| s.sched.spurious_ppm = 0);
        any
    }

    fn pictures(&mut self) -> bool {
        let mut any = self.edit(drop_unused);
        // (what makes a write refused, or where a file was cut, goes with the image)
        if self.best.prop == "C12" || self.best.files.iter().any(|f| matches!(f, FileSpec::Cut { .. })) {
            return any;
        }
        for k in 0..self.best.images.len() {
            for dim in 0..2 {
                for _ in 0..40 {
                    let n = if dim == 0 { self.best.images[k].w } else { self.best.images[k].h };
                    let set = |s: &mut Scenario, n: u32| {
                        let i = &mut s.images[k];
                        if dim == 0 { i.w = n } else { i.h = n }
                    };
                    if n <= 1 || !((n > 3 && self.edit(|s| set(s, n / 2))) || self.edit(|s| set(s, n - 1))) {
                        break;
                    }
                    any = true;
                }
            }
            any |= self.edit(|s| s.images[k].extra = 0);
            any |= self.edit(|s| s.images[k].poke = 0);
        }
        any
    }

    fn schedule(&mut self) -> bool {
        let n = self.best.sched.switches.as_ref().map_or(0, |x| x.len());
        let mut any = false;
        if n > 0 {
            any |= self.chunks(n, 0, |z, a, m| z.edit(|s| {
                s.sched.switches.as_mut().unwrap().drain(a..a + m);
            }));
        }
        any
    }

    pub fn minimise(&mut self) {
        for _ in 0..4 {
            let a = self.structure();
            let b = self.surroundings();
            let c = self.pictures();
            if !(a || b || c) || self.late() {
                break;
            }
        }
        if threaded(&self.best) && self.best.sched.switches.is_none() && !self.result.dec_overflow {
            // (time for this part even if the first took all)
            let now = Instant::now();
            self.until = self.until.max(now + Duration::from_secs(20));
            let e = explicit(&self.best, &self.result);
            if self.keep(e) {
                for _ in 0..3 {
                    let a = self.schedule();
                    let b = self.structure();
                    let c = self.surroundings();
                    let d = self.pictures();
                    if !(a || b || c || d) || self.late() {
                        break;
                    }
                }
                // the parameters of the policies no longer matter
                self.edit(|s| {
                    let d = Sched::default();
                    s.sched = Sched { fair: s.sched.fair, budget: s.sched.budget, switches: s.sched.switches.take(), ..d };
                });
            }
        } else if !threaded(&self.best) {
            self.edit(|s| s.sched = Sched { budget: s.sched.budget, fair: s.sched.fair, ..Sched::default() });
        }
    }
}
