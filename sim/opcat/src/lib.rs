//! Everything a scenario can call, for each build variant of the library, and the code that runs a
//! scenario's threads. This crate is instrumented like the library; bookkeeping is done inside
//! `simrt::quiet`, which the scheduler does not see.
#![allow(static_mut_refs)]
use model::{Call, Ctx, ImgSpec, Out, Rec, RunOut, Scenario, Step, Val, Variant};
use simrt::fs;

pub mod def {
    use imgproc_rs as L;
    include!("ops.rs");
}
pub mod par {
    use imgpar as L;
    include!("ops.rs");
}
pub mod plain {
    use imgplain as L;
    include!("ops.rs");
}

pub enum Fail {
    Err(String, String),
    /// The scenario does not fit together (only after minimisation steps).
    Harness,
}

enum AnyWorld {
    Def(def::World),
    Par(par::World),
    Plain(plain::World),
}

struct Shared {
    scn: &'static Scenario,
    world: AnyWorld,
    pools: Vec<rayon::ThreadPool>,
}

static mut SCN: Option<&'static Scenario> = None;
static mut RECS: Vec<Rec> = Vec::new();
static mut LATE: Vec<u32> = Vec::new();

pub(crate) fn spec_of(k: usize) -> ImgSpec {
    unsafe { SCN.unwrap().images[k].clone() }
}
pub(crate) fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    simrt::quiet(|| {
        let s = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        s
    })
}
/// Vectors of exactly the needed capacity, so that the buffer ends where the data ends.
pub(crate) fn exact_u8(v: &[u8]) -> Vec<u8> {
    v.to_vec()
}
pub(crate) fn exact_f32(v: &[f32]) -> Vec<f32> {
    v.to_vec()
}

/// One call, on whatever thread the context put it.
fn one(sh: &Shared, thr: usize, step: usize, k: usize, c: &Call) {
    let io = c.op == "read" || c.op == "write";
    if c.op == "meddle" {
        let a = |k: usize| c.i.get(k).copied().unwrap_or(0);
        fs::meddle(&c.s, a(0), a(1) as usize, a(2) as u8);
        let t = simrt::sched::steps_now();
        simrt::quiet(|| unsafe {
            RECS.push(Rec { thr: thr as u32, step: step as u32, call: k as u32, out: Out::Ok(vec![]), pre: None, post: None, fds: 0, t0: t, t1: t });
        });
        return;
    }
    let pre = if io { fs::file(&c.s) } else { None };
    let t0 = simrt::sched::steps_now();
    simrt::sched::cpu_next(((step as u64) << 16) + k as u64);
    fs::begin_step(thr as i32, step as i32);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &sh.world {
        AnyWorld::Def(w) => def::exec(w, c),
        AnyWorld::Par(w) => par::exec(w, c),
        AnyWorld::Plain(w) => plain::exec(w, c),
    }));
    fs::end_step();
    let t1 = simrt::sched::steps_now();
    simrt::quiet(|| {
        let out = match r {
            Ok(Ok(v)) => Out::Ok(v),
            Ok(Err(Fail::Err(k, m))) => Out::Err(k, m),
            Ok(Err(Fail::Harness)) => simrt::harness_error("the scenario does not fit the operation"),
            Err(p) => Out::Panic(panic_text(p)),
        };
        let (post, fds) = if io { (fs::file(&c.s), fs::open_count_of(thr as i32) as u32) } else { (None, 0) };
        unsafe {
            RECS.push(Rec { thr: thr as u32, step: step as u32, call: k as u32, out, pre, post, fds, t0, t1 });
        }
    })
}

fn join_tree(sh: &Shared, thr: usize, step: usize, calls: &[Call], base: usize) {
    match calls.len() {
        0 => {}
        1 => one(sh, thr, step, base, &calls[0]),
        n => {
            let (a, b) = calls.split_at(n / 2);
            rayon::join(|| join_tree(sh, thr, step, a, base), || join_tree(sh, thr, step, b, base + n / 2));
        }
    }
}

fn do_step(sh: &Shared, thr: usize, si: usize, st: &Step) {
    if st.wait_us > 0 {
        std::thread::sleep(std::time::Duration::from_micros(st.wait_us));
    }
    let seq = || {
        for (k, c) in st.calls.iter().enumerate() {
            one(sh, thr, si, k, c);
        }
    };
    let inside = |p: usize, f: &(dyn Fn() + Sync)| match sh.pools.get(p) {
        Some(pool) => pool.install(f),
        None => f(),
    };
    match st.ctx {
        Ctx::Plain => seq(),
        Ctx::InPool(p) => inside(p, &seq),
        Ctx::Join(p) => inside(p, &|| join_tree(sh, thr, si, &st.calls, 0)),
        Ctx::Scope(p) => inside(p, &|| {
            rayon::scope(|s| {
                for (k, c) in st.calls.iter().enumerate() {
                    s.spawn(move |_| one(sh, thr, si, k, c));
                }
            })
        }),
        Ctx::Iter(p) => inside(p, &|| {
            use rayon::prelude::*;
            st.calls.par_iter().enumerate().for_each(|(k, c)| one(sh, thr, si, k, c));
        }),
        Ctx::Threads => std::thread::scope(|s| {
            for (k, c) in st.calls.iter().enumerate() {
                s.spawn(move || one(sh, thr, si, k, c));
            }
        }),
    }
}

/// Runs the scenario in the current (simulated) process and leaves the results for `collect`.
pub fn run(scn: &'static Scenario) {
    unsafe { SCN = Some(scn) };
    let world = match scn.variant {
        Variant::Def => AnyWorld::Def(def::world(&scn.images)),
        Variant::Par => AnyWorld::Par(par::world(&scn.images)),
        Variant::Plain => AnyWorld::Plain(plain::world(&scn.images)),
    };
    let mut pools = Vec::new();
    for n in &scn.pools {
        pools.push(rayon::ThreadPoolBuilder::new().num_threads(*n as usize).build().unwrap());
    }
    let sh: &'static Shared = Box::leak(Box::new(Shared { scn, world, pools }));
    if scn.threads.len() == 1 {
        for (si, st) in scn.threads[0].iter().enumerate() {
            do_step(sh, 0, si, st);
        }
    } else {
        let mut hs = Vec::new();
        for t in 0..scn.threads.len() {
            hs.push(std::thread::spawn(move || {
                for (si, st) in sh.scn.threads[t].iter().enumerate() {
                    do_step(sh, t, si, st);
                }
            }));
        }
        for h in hs {
            if h.join().is_err() {
                simrt::harness_error("a scenario thread panicked");
            }
        }
    }
    unsafe {
        LATE = match &sh.world {
            AnyWorld::Def(w) => def::changed(w, &scn.images),
            AnyWorld::Par(w) => par::changed(w, &scn.images),
            AnyWorld::Plain(w) => plain::changed(w, &scn.images),
        };
    }
}

/// The results so far (also called when a simulated crash ends the run).
pub fn collect() -> RunOut {
    simrt::quiet(|| unsafe {
        let mut recs = std::mem::take(&mut RECS);
        recs.sort_by_key(|r| (r.thr, r.step, r.call));
        RunOut {
            recs,
            changed: std::mem::take(&mut LATE),
            files: fs::snapshot(),
            trace: fs::trace().into_iter().map(|r| (r.scn, r.step, r.nth, r.class as u8, r.path, r.req, r.ret)).collect(),
            touched: fs::touched(),
            notes: fs::attrs(),
        }
    })
}

pub fn empty_vals() -> Vec<Val> {
    Vec::new()
}
