//! Decides, per property, whether a simulated run violated it. The reference for what a call should
//! return is the same call made alone, as the only call of a fresh process in a canonical environment
//! (no faults, no preemption, one heap layout), with the same or another build of the library as the
//! property says; files are judged against the reference codec.
use crate::exec::{self, RunResult};
use crate::gen;
use model::*;
use simrt::{fs, shared};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Viol {
    /// What is wrong, coarsely (minimisation keeps it).
    pub class: String,
    pub text: String,
}

#[derive(Default)]
pub struct Oracle {
    cache: HashMap<u64, Rc<Solo>>,
    decoded: HashMap<u64, Option<Rc<Img>>>,
    pub runs: u64,
    pub steps: u64,
}
pub struct Solo {
    pub r: RunResult,
}
impl Solo {
    pub fn rec(&self) -> Option<&Rec> {
        if self.r.finished() { self.r.out.recs.first() } else { None }
    }
}

/// The call alone.
pub fn solo_scenario(s: &Scenario, c: &Call, v: Variant, pre: Option<&[u8]>) -> Scenario {
    let mut c = c.clone();
    let mut images: Vec<ImgSpec> = Vec::new();
    let mut map: HashMap<usize, usize> = HashMap::new();
    for k in c.im.iter_mut() {
        let n = *map.entry(*k).or_insert_with(|| {
            images.push(s.images[*k].clone());
            images.len() - 1
        });
        *k = n;
    }
    let mut files = Vec::new();
    if let Some(d) = pre {
        files.push(FileSpec::Raw { path: c.s.clone(), hex: hex(d) });
    }
    Scenario {
        prop: "solo".into(), kind: "solo".into(), variant: v, env: Env::default(), images, files, pools: vec![],
        threads: vec![vec![Step { ctx: Ctx::Plain, calls: vec![c], wait_us: 0 }]], disk: Disk::default(), sched: Sched::default(),
    }
}

impl Oracle {
    pub fn solo(&mut self, s: &Scenario, c: &Call, v: Variant, pre: Option<&[u8]>) -> Rc<Solo> {
        let q = solo_scenario(s, c, v, pre);
        let key = q.hash();
        if let Some(x) = self.cache.get(&key) {
            return x.clone();
        }
        let r = exec::run(&q);
        self.runs += 1;
        self.steps += r.steps;
        let x = Rc::new(Solo { r });
        self.cache.insert(key, x.clone());
        x
    }
    pub fn decode(&mut self, bytes: &[u8], path: &str) -> Option<Rc<Img>> {
        let ext = path.rsplit('.').next().unwrap_or("").to_lowercase();
        let key = mix(hash_bytes(bytes) ^ hash_bytes(ext.as_bytes()).rotate_left(17));
        if let Some(x) = self.decoded.get(&key) {
            return x.clone();
        }
        let x = exec::decode(bytes, path).map(Rc::new);
        self.decoded.insert(key, x.clone());
        x
    }
    pub fn clear(&mut self) {
        self.cache.clear();
        self.decoded.clear();
    }
}

pub fn is_io(c: &Call) -> bool {
    c.op == "read" || c.op == "write"
}
pub fn calls(s: &Scenario) -> impl Iterator<Item = (u32, u32, u32, &Call)> {
    s.threads.iter().enumerate().flat_map(|(t, st)| st.iter().enumerate().flat_map(move |(k, x)| {
        x.calls.iter().enumerate().map(move |(n, c)| (t as u32, k as u32, n as u32, c))
    }))
}
pub fn call_of<'a>(s: &'a Scenario, r: &Rec) -> Option<&'a Call> {
    s.threads.get(r.thr as usize)?.get(r.step as usize)?.calls.get(r.call as usize)
}
fn at(r: &Rec) -> String {
    format!("thread {} step {} call {}", r.thr, r.step, r.call)
}
pub fn brief_call(s: &Scenario, c: &Call) -> String {
    let mut t = c.op.clone();
    t.push('(');
    let mut parts: Vec<String> = Vec::new();
    for k in &c.im {
        parts.push(s.images.get(*k).map(|i| i.brief()).unwrap_or_default());
    }
    if !c.s.is_empty() {
        parts.push(c.s.clone());
    }
    if !c.i.is_empty() {
        parts.push(format!("{:?}", c.i));
    }
    if !c.f.is_empty() {
        parts.push(format!("{:?}", c.f));
    }
    if !c.k.is_empty() {
        parts.push(format!("kernel of {}", c.k.len()));
    }
    if !c.h.is_empty() {
        parts.push(format!("history of {}", c.h.len()));
    }
    t.push_str(&parts.join(", "));
    t.push(')');
    t
}

// ---- comparing -------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Cmp {
    Exact,
    /// Kind of outcome only for failures; values up to rounding.
    Round,
    /// Values exactly, failures by kind.
    Kind,
}

fn val_diff(a: &Val, b: &Val) -> Option<String> {
    if a == b {
        return None;
    }
    Some(match (a, b) {
        (Val::Img(x), Val::Img(y)) => diff(x, y),
        (Val::F(x), Val::F(y)) => {
            let k = x.iter().zip(y).position(|(p, q)| p != q);
            match k {
                Some(k) => format!("value {}: {} instead of {}", k, f32::from_bits(x[k]), f32::from_bits(y[k])),
                None => format!("{} values instead of {}", x.len(), y.len()),
            }
        }
        (Val::U(x), Val::U(y)) => {
            let k = x.iter().zip(y).position(|(p, q)| p != q);
            match k {
                Some(k) => format!("value {}: {} instead of {}", k, x[k], y[k]),
                None => format!("{} values instead of {}", x.len(), y.len()),
            }
        }
        (Val::S(x), Val::S(y)) => format!("\"{}\" instead of \"{}\"", x, y),
        _ => "another type of result".to_string(),
    })
}

/// Does the operation only copy pixels?
fn copies(c: &Call) -> bool {
    c.op == "crop" || (c.op == "scale" && c.i.first() == Some(&0))
}

fn magnitude(s: &Scenario, c: &Call, b: &Img) -> f32 {
    let mut m = 1.0f32;
    if let Pix::F32(v) = &b.pix {
        for x in v {
            if x.is_finite() {
                m = m.max(x.abs());
            }
        }
    }
    let mut i = 255.0f32;
    for k in &c.im {
        if s.images[*k].ty == Ty::F32 && s.images[*k].fill > 6 {
            i = 5000.0;
        }
    }
    let sum = |k: &[f32]| if k.is_empty() { 1.0 } else { k.iter().map(|x| x.abs()).sum::<f32>().max(1.0) };
    m.max(i * sum(&c.k) * sum(&c.k2))
}

fn round_diff(s: &Scenario, c: &Call, a: &Val, b: &Val) -> Option<String> {
    let (Val::Img(x), Val::Img(y)) = (a, b) else { return val_diff(a, b) };
    if copies(c) {
        return val_diff(a, b);
    }
    if x.dims() != y.dims() || x.pix.len() != y.pix.len() {
        return Some(diff(x, y));
    }
    let place = |i: usize| {
        let (ch, w) = (x.c.max(1) as usize, x.w.max(1) as usize);
        format!("pixel ({}, {}) channel {}", i / ch % w, i / ch / w, i % ch)
    };
    match (&x.pix, &y.pix) {
        (Pix::U8(p), Pix::U8(q)) => {
            for i in 0..p.len() {
                if (p[i] as i32 - q[i] as i32).abs() > 1 {
                    return Some(format!("{}: {} instead of {}", place(i), p[i], q[i]));
                }
            }
            None
        }
        (Pix::F32(p), Pix::F32(q)) => {
            let m = magnitude(s, c, y);
            for i in 0..p.len() {
                let (u, v) = (p[i], q[i]);
                if u.to_bits() == v.to_bits() || (u.is_nan() && v.is_nan()) || u == v {
                    continue;
                }
                if (u - v).abs() <= 1e-4 * u.abs().max(v.abs()) + 2e-6 * m {
                    continue;
                }
                return Some(format!("{}: {} instead of {}", place(i), u, v));
            }
            None
        }
        _ => Some("another pixel type".into()),
    }
}

/// How `a` differs from what it should be.
fn out_diff(s: &Scenario, c: &Call, a: &Out, b: &Out, how: Cmp) -> Option<(String, String)> {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => {
            if x.len() != y.len() {
                return Some(("result".into(), format!("{} results instead of {}", x.len(), y.len())));
            }
            for (p, q) in x.iter().zip(y) {
                let d = if how == Cmp::Round { round_diff(s, c, p, q) } else { val_diff(p, q) };
                if let Some(d) = d {
                    return Some(("result".into(), d));
                }
            }
            None
        }
        (Out::Err(k, m), Out::Err(l, n)) => {
            if how == Cmp::Exact && (k, m) != (l, n) {
                Some(("error".into(), format!("{} instead of {}", a.brief(), b.brief())))
            } else {
                None
            }
        }
        (Out::Panic(_), Out::Panic(_)) => None,
        _ => Some((format!("{} instead of {}", a.kind(), b.kind()), format!("{} instead of {}", a.brief(), b.brief()))),
    }
}

fn v(class: &str, text: String) -> Option<Viol> {
    Some(Viol { class: class.to_string(), text })
}

/// A run that did not end normally.
fn ended(s: &Scenario, r: &RunResult) -> Option<Viol> {
    let class = match r.status {
        shared::ST_DONE | shared::ST_CRASH => return None,
        shared::ST_DEADLOCK => "deadlock",
        shared::ST_BUDGET | exec::ST_KILLED => "no end",
        shared::ST_MEMORY => "memory error",
        shared::ST_SEGV => "process died",
        // (what a file damaged on purpose asks for is its own affair)
        shared::ST_NOMEM if calls(s).any(|x| x.3.op == "meddle") => return None,
        shared::ST_NOMEM => "out of memory",
        _ => {
            eprintln!("simdriver: harness error in a run of {}: {}", s.prop, r.msg);
            std::process::exit(2);
        }
    };
    v(class, format!("the run did not end normally: {}", r.ending()))
}

/// Which build answers for what a call should return.
pub fn oracle_variant(s: &Scenario) -> Variant {
    match s.prop.as_str() {
        "C01" | "C02" => Variant::Def,
        "C07" => Variant::Plain,
        _ => s.variant,
    }
}

/// Longer cases are left out: no step budget could tell them from endless ones.
pub const LONGEST: u64 = 60_000_000;

/// Runs the oracles a scenario needs beforehand; returns the steps they took, or `None` if one of
/// them did not end normally (then there is nothing to compare with).
pub fn prepare(s: &Scenario, o: &mut Oracle) -> Option<u64> {
    let mut total = 0;
    let ov = oracle_variant(s);
    let small = s.images.iter().all(|i| i.w as u64 * i.h as u64 <= 1024);
    for (_, _, _, c) in calls(s) {
        if is_io(c) || c.op == "meddle" {
            continue;
        }
        let x = o.solo(s, c, ov, None);
        let mut fine = x.r.finished();
        if x.r.status == shared::ST_NOMEM {
            return None;
        }
        if s.prop == "C16" {
            // (compared with the sequential build)
            let y = o.solo(s, c, Variant::Def, None);
            if !y.r.finished() {
                return None;
            }
            total += y.r.steps;
            if !fine {
                continue;
            }
        }
        if !fine {
            // how it ends is itself what these are about
            fine = match s.prop.as_str() {
                "C02" | "C05" | "C06" => small,
                "C15" => matches!(x.r.status, shared::ST_MEMORY | shared::ST_SEGV),
                _ => false,
            };
            if !fine {
                return None;
            }
            continue;
        }
        total += x.r.steps;
        if total > LONGEST {
            return None;
        }
    }
    Some(total)
}

pub fn judge(s: &Scenario, r: &RunResult, o: &mut Oracle) -> Option<Viol> {
    if let Some(x) = ended(s, r) {
        return Some(x);
    }
    if r.status == shared::ST_NOMEM {
        return None;
    }
    match s.prop.as_str() {
        "C01" => compare(s, r, o, Cmp::Round),
        "C02" => {
            let n = calls(s).count();
            if r.out.recs.len() != n {
                return v("lost call", format!("{} of {} calls returned", r.out.recs.len(), n));
            }
            None
        }
        "C03" => {
            if let Some(k) = r.out.changed.first() {
                return v("input changed", format!("input image {} was changed", k));
            }
            compare(s, r, o, Cmp::Exact)
        }
        "C04" | "C08" | "C15" => compare(s, r, o, Cmp::Exact),
        "C07" => compare(s, r, o, Cmp::Exact),
        "C05" | "C06" => reported(s, r),
        "C16" => contained(s, r, o),
        "C09" => writes(s, r, o),
        "C10" => reads(s, r, o),
        "C11" => round_trip(s, r),
        "C12" => refused(s, r),
        "C13" => leaks(s, r),
        "C14" => crashed(s, r, o),
        _ => None,
    }
}

/// Could the call have been hit by a storage fault?
fn hit(s: &Scenario, r: &Rec) -> bool {
    s.disk.capacity > 0 || s.disk.max_fds > 0 || s.disk.faults.iter().any(|f| f.thr == r.thr as i32 && f.step == r.step as i32)
}

fn compare(s: &Scenario, r: &RunResult, o: &mut Oracle, how: Cmp) -> Option<Viol> {
    let ov = oracle_variant(s);
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        if c.op == "probe_panic" || c.op == "meddle" {
            continue;
        }
        let io = is_io(c);
        if io && hit(s, rec) {
            continue;
        }
        if s.prop == "C15" && s.env.cpu != 1 && c.im.iter().any(|k| s.images[*k].extra != 0) {
            // (the call alone runs on a CPU that has everything; with data that does not fit the dimensions
            // implementations may differ)
            continue;
        }
        let x = o.solo(s, c, ov, if io { rec.pre.as_deref() } else { None });
        let Some(e) = x.rec() else { continue };
        if let Some((class, d)) = out_diff(s, c, &rec.out, &e.out, how) {
            return v(&format!("{}: {}", c.op, class), format!("{}: {}: {}", at(rec), brief_call(s, c), d));
        }
        if io && c.op == "write" && matches!(rec.out, Out::Ok(_)) && rec.post != e.post {
            return v("write: file", format!("{}: {}: the file written differs from the one written by the call alone", at(rec), brief_call(s, c)));
        }
    }
    None
}

fn contained(s: &Scenario, r: &RunResult, o: &mut Oracle) -> Option<Viol> {
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        let d = o.solo(s, c, Variant::Def, None);
        let Some(e) = d.rec() else { continue };
        if let (Out::Ok(_), true) = (&e.out, true) {
            let p = o.solo(s, c, Variant::Par, None);
            let Some(f) = p.rec() else { continue };
            if let Out::Ok(_) = f.out {
                if let Some((class, d)) = out_diff(s, c, &rec.out, &f.out, Cmp::Kind) {
                    return v(&format!("{}: {}", c.op, class), format!("{}: {}: {}", at(rec), brief_call(s, c), d));
                }
            }
            continue;
        }
        if rec.out.kind() != e.out.kind() {
            let class = format!("{} instead of {}", rec.out.kind(), e.out.kind());
            return v(&format!("{}: {}", c.op, class), format!("{}: {}: {} where the computation ends in {}", at(rec), brief_call(s, c), rec.out.brief(), e.out.brief()));
        }
    }
    None
}

/// Operations whose oracle is a model they run along with.
fn reported(s: &Scenario, r: &RunResult) -> Option<Viol> {
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        match &rec.out {
            Out::Ok(vals) => {
                for x in vals {
                    if let Val::S(m) = x {
                        if !m.is_empty() {
                            let what = if c.op == "cb" { c.s.clone() } else { c.op.clone() };
                            return v(&format!("{}: wrong contents", what), format!("{}: {}: {}", at(rec), brief_call(s, c), m));
                        }
                    }
                }
            }
            Out::Panic(m) => return v(&format!("{}: panic", c.op), format!("{}: {}: panic outside of the failing callback or access: {}", at(rec), brief_call(s, c), m)),
            Out::Err(k, m) => return v(&format!("{}: error", c.op), format!("{}: {}: {} {}", at(rec), brief_call(s, c), k, m)),
        }
    }
    None
}

// ---- storage ---------------------------------------------------------------------------------

fn initial(s: &Scenario) -> HashMap<String, Vec<u8>> {
    exec::encode_files(s).into_iter().collect()
}
fn finals(r: &RunResult) -> HashMap<String, Vec<u8>> {
    r.out.files.iter().cloned().collect()
}
fn dest(c: &Call) -> String {
    fs::norm(&c.s)
}
fn ext(p: &str) -> String {
    let e = p.rsplit('.').next().unwrap_or("").to_lowercase();
    match e.as_str() {
        "tiff" => "tif".into(),
        "jpeg" => "jpg".into(),
        _ => e,
    }
}
/// Is the file a write of this image must leave determined exactly by the image?
fn exact(s: &Scenario, c: &Call) -> bool {
    let i = &s.images[c.im[0]];
    gen::lossless(i).contains(&ext(&c.s).as_str())
}

fn is_dest(t: &(i32, i32, u32, u8, String, i64, i64), rec: &Rec) -> bool {
    t.0 == rec.thr as i32 && t.1 == rec.step as i32
}

fn writes(s: &Scenario, r: &RunResult, o: &mut Oracle) -> Option<Viol> {
    let last = finals(r);
    // the last write to each path, by time of return
    let mut latest: HashMap<String, &Rec> = HashMap::new();
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        if c.op != "write" && c.op != "meddle" {
            continue;
        }
        let e = latest.entry(dest(c)).or_insert(rec);
        if rec.t1 >= e.t1 {
            *e = rec;
        }
    }
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        if c.op != "write" {
            continue;
        }
        let what = format!("{}: {}", at(rec), brief_call(s, c));
        match &rec.out {
            Out::Panic(m) => return v("panic", format!("{}: the write panicked: {}", what, m)),
            Out::Err(..) => {}
            Out::Ok(_) => {
                let Some(post) = &rec.post else { return v("incomplete", format!("{}: success reported, but there is no file", what)) };
                if let Some(x) = whole(s, c, post, o) {
                    return v("incomplete", format!("{}: success reported, but the file {}", what, x));
                }
                // the last attempt at a transfer failed
                let ops: Vec<_> = r.out.trace.iter().filter(|t| is_dest(t, rec)).collect();
                let hard = |ret: i64| ret < 0 && ret != -(libc::EINTR as i64);
                if let Some(t) = ops.iter().rev().find(|t| t.3 == 3) {
                    if hard(t.6) || (t.6 == 0 && t.5 > 0) {
                        return v("unreported", format!("{}: success reported although the last transfer failed ({})", what, t.6));
                    }
                }
                if let Some(t) = ops.iter().rev().find(|t| t.3 == 1) {
                    if hard(t.6) && !ops.iter().any(|t| t.3 == 8 && t.6 >= 0) {
                        return v("unreported", format!("{}: success reported although the file could not be opened ({})", what, t.6));
                    }
                }
                if latest.get(&dest(c)).is_some_and(|l| std::ptr::eq(*l, rec)) && last.get(&dest(c)) != Some(post) {
                    return v("not kept", format!("{}: the file written is not there any more at the end", what));
                }
            }
        }
    }
    None
}

/// How a written file fails to hold the image.
fn whole(s: &Scenario, c: &Call, post: &[u8], o: &mut Oracle) -> Option<String> {
    let got = o.decode(post, &c.s);
    let want = s.images[c.im[0]].img();
    if exact(s, c) {
        return match got {
            None => Some(format!("cannot be decoded ({} bytes)", post.len())),
            Some(g) if *g != want => Some(format!("decodes to another image: {}", diff(&g, &want))),
            _ => None,
        };
    }
    let canon = o.solo(s, c, s.variant, None);
    let e = canon.rec()?;
    let cp = e.post.as_ref()?;
    if !matches!(e.out, Out::Ok(_)) {
        return None;
    }
    let cd = o.decode(cp, &c.s);
    match (got, cd) {
        // (no reader for this layout)
        (None, None) if ext(&c.s) != "pam" => Some(format!("cannot be decoded ({} bytes)", post.len())),
        (_, None) => None,
        (None, Some(_)) => Some(format!("cannot be decoded ({} bytes instead of {})", post.len(), cp.len())),
        (Some(g), Some(w)) if g != w => Some(format!("decodes to another image than without faults: {}", diff(&g, &w))),
        (Some(g), _) if (g.w, g.h) != (want.w, want.h) => Some(format!("holds a {}x{} image", g.w, g.h)),
        _ => None,
    }
}

fn reads(s: &Scenario, r: &RunResult, o: &mut Oracle) -> Option<Viol> {
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        if c.op != "read" {
            continue;
        }
        let what = format!("{}: {}", at(rec), brief_call(s, c));
        let f = s.files.iter().find(|f| fs::norm(gen::path_of(f)) == dest(c));
        // what the file holds, undamaged
        let (full, sound) = match f {
            None => (None, false),
            Some(FileSpec::Raw { hex, .. }) => (Some(unhex(hex)), false),
            Some(FileSpec::Enc { im, fmt, .. }) => (exec::encode(&s.images[*im].img(), fmt), true),
            Some(FileSpec::Cut { im, fmt, .. }) | Some(FileSpec::Flip { im, fmt, .. }) => (exec::encode(&s.images[*im].img(), fmt), false),
        };
        let want = full.as_ref().and_then(|d| o.decode(d, &c.s));
        match &rec.out {
            Out::Panic(m) => return v("panic", format!("{}: the read panicked: {}", what, m)),
            Out::Err(k, m) => {
                let trouble = r.out.trace.iter().any(|t| is_dest(t, rec) && t.6 < 0 && t.6 != -(libc::EINTR as i64))
                    || s.disk.faults.iter().any(|f| f.thr == rec.thr as i32 && f.step == rec.step as i32);
                if sound && want.is_some() && !trouble {
                    return v("refused", format!("{}: {} {} although the file is sound and nothing failed", what, k, m));
                }
            }
            Out::Ok(_) => {
                let got = rec.out.img()?;
                match &want {
                    None => return v("made up", format!("{}: a {}x{} image was returned, but the file holds none", what, got.w, got.h)),
                    Some(w) if **w != *got => return v("wrong image", format!("{}: {}", what, diff(got, w))),
                    _ => {}
                }
            }
        }
    }
    None
}

fn round_trip(s: &Scenario, r: &RunResult) -> Option<Viol> {
    let mut written: HashMap<(u32, String), usize> = HashMap::new();
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        let what = format!("{}: {}", at(rec), brief_call(s, c));
        match c.op.as_str() {
            "write" => match &rec.out {
                Out::Ok(_) => {
                    written.insert((rec.thr, dest(c)), c.im[0]);
                }
                x => return v("write failed", format!("{}: {}", what, x.brief())),
            },
            "read" => {
                let Some(im) = written.get(&(rec.thr, dest(c))) else { continue };
                match rec.out.img() {
                    Some(i) if *i == s.images[*im].img() => {}
                    Some(i) => return v("another image", format!("{}: {}", what, diff(i, &s.images[*im].img()))),
                    None => return v("read failed", format!("{}: {}", what, rec.out.brief())),
                }
            }
            _ => {}
        }
    }
    None
}

fn refused(s: &Scenario, r: &RunResult) -> Option<Viol> {
    let first = initial(s);
    // others, which are accepted
    let good = |c: &Call| c.op != "write" || !c.i.is_empty();
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        if good(c) {
            continue;
        }
        let what = format!("{}: {}", at(rec), brief_call(s, c));
        match &rec.out {
            Out::Err(..) => {}
            x => return v(x.kind(), format!("{}: {} instead of an error", what, x.brief())),
        }
        if rec.post != rec.pre {
            let of = |x: &Option<Vec<u8>>| x.as_ref().map(|d| format!("{} bytes", d.len())).unwrap_or("not there".into());
            return v("file touched", format!("{}: the refused write left the file {} (it was {})", what, of(&rec.post), of(&rec.pre)));
        }
    }
    let mut d: Vec<String> = calls(s).filter(|x| x.3.op == "write" && good(x.3)).map(|x| dest(x.3)).collect();
    // what only accepted writes touched is theirs (C13)
    let of = |yes: bool| -> Vec<&String> {
        r.out.trace.iter().filter(|t| t.0 >= 0 && r.out.recs.iter().any(|rec| is_dest(t, rec) && call_of(s, rec).map_or(false, |c| good(c) == yes)))
            .map(|t| &t.4).collect()
    };
    let (theirs, ours) = (of(true), of(false));
    d.extend(theirs.into_iter().filter(|p| !ours.contains(p)).cloned());
    for n in &r.out.notes {
        if !d.contains(n) && first.contains_key(n) {
            return v("attributes", format!("the permissions or times of {} were set", n));
        }
    }
    other_files(s, r, &first, &d)
}

/// Files besides the named ones that changed, appeared or disappeared.
fn other_files(s: &Scenario, r: &RunResult, first: &HashMap<String, Vec<u8>>, except: &[String]) -> Option<Viol> {
    let _ = s;
    let last = finals(r);
    let mut names: Vec<&String> = first.keys().chain(last.keys()).collect();
    names.sort();
    names.dedup();
    for n in names {
        if except.contains(n) {
            continue;
        }
        match (first.get(n), last.get(n)) {
            (Some(a), Some(b)) if a == b => {}
            (Some(_), Some(b)) => return v("other file", format!("{} was changed ({} bytes now)", n, b.len())),
            (Some(_), None) => return v("other file", format!("{} was removed", n)),
            (None, _) => return v("other file", format!("{} was left behind", n)),
        }
    }
    None
}

fn leaks(s: &Scenario, r: &RunResult) -> Option<Viol> {
    for rec in &r.out.recs {
        let Some(c) = call_of(s, rec) else { continue };
        let what = format!("{}: {}", at(rec), brief_call(s, c));
        if rec.fds > 0 {
            return v("descriptor", format!("{}: {} descriptors still open after {}", what, rec.fds, rec.out.brief()));
        }
        if c.op == "read" {
            if let Some(t) = r.out.trace.iter().find(|t| is_dest(t, rec) && matches!(t.3, 3 | 7 | 8 | 9 | 10) && t.6 >= 0) {
                return v("read modifies", format!("{}: the read modified {}", what, t.4));
            }
            if rec.pre != rec.post {
                return v("read modifies", format!("{}: the read changed its file", what));
            }
        }
    }
    let first = initial(s);
    let d: Vec<String> = calls(s).filter(|x| x.3.op == "write").map(|x| dest(x.3)).collect();
    // (permissions and times set, or another working directory)
    for n in &r.out.notes {
        if !d.contains(n) && (n == "." || first.contains_key(n)) {
            return v("attributes", format!("the permissions, times or working directory of {} were set", n));
        }
    }
    other_files(s, r, &first, &d)
}

fn crashed(s: &Scenario, r: &RunResult, o: &mut Oracle) -> Option<Viol> {
    let first = initial(s);
    let last = finals(r);
    let returned: HashMap<(u32, u32, u32), &Rec> = r.out.recs.iter().map(|x| ((x.thr, x.step, x.call), x)).collect();
    // who was at work: the first call of each thread that did not return
    let mut pending: HashMap<String, (usize, Option<usize>)> = HashMap::new();
    let mut holds: HashMap<String, Option<usize>> = HashMap::new();
    let mut dests = Vec::new();
    for (t, st) in s.threads.iter().enumerate() {
        'thread: for (k, x) in st.iter().enumerate() {
            for (n, c) in x.calls.iter().enumerate() {
                dests.push(dest(c));
                match returned.get(&(t as u32, k as u32, n as u32)) {
                    Some(rec) => match &rec.out {
                        Out::Ok(_) => {
                            holds.insert(dest(c), Some(c.im[0]));
                        }
                        x => return v("write failed", format!("{}: {} although no write failed", brief_call(s, c), x.brief())),
                    },
                    None => {
                        pending.insert(dest(c), (c.im[0], holds.get(&dest(c)).copied().flatten()));
                        break 'thread;
                    }
                }
            }
        }
    }
    if r.status == shared::ST_DONE && !pending.is_empty() {
        return v("lost call", "a call did not return".into());
    }
    let touched: Vec<String> = pending.keys().chain(holds.keys()).cloned().collect();
    if let Some(x) = other_files(s, r, &first, &touched) {
        // what a crashed write was about to clean up is not in the way of anything
        if !(r.status == shared::ST_CRASH && x.text.ends_with("left behind")) {
            return Some(x);
        }
    }
    // afterwards, in a new process: read, write again, read
    let mut f = Scenario {
        prop: s.prop.clone(), kind: "afterwards".into(), variant: s.variant, env: Env::default(), images: s.images.clone(), files: vec![],
        pools: vec![], threads: vec![], disk: Disk::default(), sched: Sched::default(),
    };
    let mut names: Vec<&String> = last.keys().collect();
    names.sort();
    for n in names {
        f.files.push(FileSpec::Raw { path: n.clone(), hex: hex(&last[n]) });
    }
    let mut st = Vec::new();
    let mut paths: Vec<String> = touched.clone();
    paths.sort();
    paths.dedup();
    let rd = |p: &String| Call { op: "read".into(), s: p.clone(), ..Call::default() };
    for p in &paths {
        st.push(Step { ctx: Ctx::Plain, calls: vec![rd(p)], wait_us: 0 });
        let im = pending.get(p).map(|x| x.0).or(holds.get(p).copied().flatten());
        let Some(im) = im else { continue };
        st.push(Step { ctx: Ctx::Plain, calls: vec![Call { op: "write".into(), s: p.clone(), im: vec![im], ..Call::default() }], wait_us: 0 });
        st.push(Step { ctx: Ctx::Plain, calls: vec![rd(p)], wait_us: 0 });
        // and another image
        let mut other = s.images[im].clone();
        other.seed ^= 0x5EED;
        other.fill = 0;
        f.images.push(other);
        st.push(Step { ctx: Ctx::Plain, calls: vec![Call { op: "write".into(), s: p.clone(), im: vec![f.images.len() - 1], ..Call::default() }], wait_us: 0 });
        st.push(Step { ctx: Ctx::Plain, calls: vec![rd(p)], wait_us: 0 });
    }
    // (often the other image at once)
    if s.env.heap.seed % 2 == 1 {
        for k in (0..st.len()).step_by(5) {
            if k + 4 < st.len() {
                st.swap(k + 1, k + 3);
                st.swap(k + 2, k + 4);
            }
        }
    }
    let order = st.clone();
    f.threads = vec![st];
    let q = exec::run(&f);
    o.runs += 1;
    o.steps += q.steps;
    if let Some(x) = ended(&f, &q) {
        return Some(Viol { class: x.class, text: format!("after the crash: {}", x.text) });
    }
    let mut k = 0;
    for p in &paths {
        let rec = &q.out.recs[k];
        let (want_new, was) = match pending.get(p) {
            Some((im, h)) => {
                // the previous image: of an earlier write, or of the file there before
                let prev = match h {
                    Some(i) => Some(Rc::new(s.images[*i].img())),
                    None => first.get(p).and_then(|d| o.decode(d, p)),
                };
                (*im, Some(prev))
            }
            None => (holds[p].unwrap(), None),
        };
        let new = s.images[want_new].img();
        match (&rec.out, &was) {
            (Out::Panic(m), _) => return v("panic", format!("reading {} after the crash panicked: {}", p, m)),
            (Out::Err(..), Some(_)) => {}
            (Out::Err(k, m), None) => return v("lost", format!("reading {}, whose write had succeeded before the crash: {} {}", p, k, m)),
            (Out::Ok(_), w) => {
                let got = rec.out.img()?;
                let prev = w.as_ref().and_then(|w| w.as_ref()).is_some_and(|w| **w == *got);
                if *got != new && !prev {
                    return v("third image", format!("reading {} after the crash returns neither the old nor the new image: {}", p, diff(got, &new)));
                }
            }
        }
        for j in [k + 1, k + 3] {
            let (w2, r2) = (&q.out.recs[j], &q.out.recs[j + 1]);
            if !matches!(w2.out, Out::Ok(_)) {
                return v("not repeatable", format!("writing {} again after the crash: {}", p, w2.out.brief()));
            }
            let new = f.images[order[j].calls[0].im[0]].img();
            match r2.out.img() {
                Some(i) if *i == new => {}
                Some(i) => return v("not repeatable", format!("reading {} after writing it again: {}", p, diff(i, &new))),
                _ => return v("not repeatable", format!("reading {} after repeating the write: {}", p, r2.out.brief())),
            }
        }
        k += 5;
    }
    None
}
