//! Reference models of an image as a store of pixels (C06) and of the callback operations (C05).
//! All values are whole numbers 0..=255, which every pixel type holds exactly; they are kept as f64.
use crate::HOp;

#[derive(Clone, PartialEq, Debug)]
pub struct Store {
    pub w: u32,
    pub h: u32,
    pub c: u8,
    pub a: bool,
    pub d: Vec<f64>,
}

/// The value functions; they never map a value to itself.
pub fn fval(v: u8, k: i64) -> u8 {
    match k & 3 {
        0 => v.wrapping_mul(3).wrapping_add(11),
        1 => 255 - v,
        2 => v.wrapping_add(1),
        _ => v ^ 0x5A,
    }
}
pub fn gval(v: u8, k: i64) -> u8 {
    match k & 1 {
        0 => v.wrapping_mul(5).wrapping_add(3),
        _ => v.wrapping_sub(17),
    }
}
/// A pixel made from a seed.
pub fn pixel(seed: i64, n: usize) -> Vec<u8> {
    let mut r = crate::Rng::new(seed as u64);
    (0..n).map(|_| r.below(256) as u8).collect()
}
/// Length of the pixel handed over by an op: its channel count, or off by some.
pub fn plen(c: u8, delta: i64) -> usize {
    (c as i64 + delta).max(0) as usize
}
/// A whole-pixel function: rotates the channels and maps each.
pub fn fpix(p: &[u8], k: i64) -> Vec<u8> {
    p.iter().map(|v| fval(*v, k)).collect()
}
/// A pixel function with another number of outputs.
pub fn fpix_n(p: &[u8], k: i64, n: usize) -> Vec<u8> {
    (0..n).map(|j| fval(p[j % p.len()], k).wrapping_add((j / p.len()) as u8)).collect()
}

#[derive(PartialEq, Debug, Clone)]
pub enum Exp {
    Done,
    /// The access must be refused with a panic, without any effect.
    Refused,
    /// A read: position list, row-major, of the expected sub-image and its size.
    Read(u32, u32, Vec<usize>),
}

impl Store {
    fn at(&self, x: u32, y: u32) -> usize {
        ((y as usize * self.w as usize) + x as usize) * self.c as usize
    }
    fn put(&mut self, at: usize, p: &[u8]) {
        for (i, v) in p.iter().enumerate() {
            self.d[at + i] = *v as f64;
        }
    }
    fn inside(&self, x: i64, y: i64) -> bool {
        x >= 0 && y >= 0 && x < self.w as i64 && y < self.h as i64
    }

    /// Applies one op to the model and says what the real image has to do.
    pub fn apply(&mut self, o: &HOp) -> Exp {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0);
        let c = self.c as usize;
        match o.k.as_str() {
            "set" => {
                if !self.inside(a(0), a(1)) || a(3) != 0 {
                    return Exp::Refused;
                }
                let at = self.at(a(0) as u32, a(1) as u32);
                self.put(at, &pixel(a(2), c));
                Exp::Done
            }
            "seti" | "imut" => {
                if a(0) < 0 || a(0) >= self.w as i64 * self.h as i64 || (o.k == "seti" && a(2) != 0) {
                    return Exp::Refused;
                }
                self.put(a(0) as usize * c, &pixel(a(1), c));
                Exp::Done
            }
            "getmut" => {
                if !self.inside(a(0), a(1)) {
                    return Exp::Refused;
                }
                let at = self.at(a(0) as u32, a(1) as u32);
                self.put(at, &pixel(a(2), c));
                Exp::Done
            }
            "getmutu" => {
                let at = self.at(a(0) as u32, a(1) as u32);
                self.put(at, &pixel(a(2), c));
                Exp::Done
            }
            "dmut" => {
                let n = self.d.len() as i64;
                if a(0) < 0 || a(0) >= n {
                    return Exp::Refused;
                }
                self.d[a(0) as usize] = (a(1) & 255) as f64;
                Exp::Done
            }
            "edit" => {
                let ch = a(0) as usize;
                for i in (0..self.d.len()).filter(|i| i % c == ch) {
                    self.d[i] = fval(self.d[i] as u8, a(1)) as f64;
                }
                Exp::Done
            }
            "apc" | "mapc" | "app" | "mapp" => {
                for v in self.d.iter_mut() {
                    *v = fval(*v as u8, a(0)) as f64;
                }
                Exp::Done
            }
            "apca" | "mapca" | "appa" | "mappa" => {
                let al = self.a;
                for (i, v) in self.d.iter_mut().enumerate() {
                    *v = if al && i % c == c - 1 { gval(*v as u8, a(1)) as f64 } else { fval(*v as u8, a(0)) as f64 };
                }
                Exp::Done
            }
            "clone" | "conv" | "remake" => Exp::Done,
            "get" => {
                if self.inside(a(0), a(1)) { Exp::Done } else { Exp::Refused }
            }
            "sub" => {
                let (x, y, w, h) = (a(0), a(1), a(2), a(3));
                // the corner itself must lie inside, and so must every pixel
                if !self.inside(x, y) || (w > 0 && h > 0 && !self.inside(x + w - 1, y + h - 1)) {
                    return Exp::Refused;
                }
                Exp::Read(w as u32, h as u32, (y..y + h).flat_map(|j| (x..x + w).map(move |i| (i, j)))
                    .map(|(i, j)| self.at(i as u32, j as u32)).collect())
            }
            "n1" => {
                let (x, y, s, vert) = (a(0), a(1), a(2), a(3) != 0);
                if !self.inside(x, y) {
                    return Exp::Refused;
                }
                let pos: Vec<(i64, i64)> = (0..s).map(|k| if vert { (x, y - s / 2 + k) } else { (x - s / 2 + k, y) }).collect();
                if pos.iter().any(|p| !self.inside(p.0, p.1)) {
                    return Exp::Done; // border handling is not this model's business
                }
                let (w, h) = if vert { (1, s) } else { (s, 1) };
                Exp::Read(w as u32, h as u32, pos.iter().map(|p| self.at(p.0 as u32, p.1 as u32)).collect())
            }
            "n2" => {
                let (x, y, s) = (a(0), a(1), a(2));
                if !self.inside(x, y) {
                    return Exp::Refused;
                }
                let pos: Vec<(i64, i64)> = (0..s).flat_map(|j| (0..s).map(move |i| (x - s / 2 + i, y - s / 2 + j))).collect();
                if pos.iter().any(|p| !self.inside(p.0, p.1)) {
                    return Exp::Done;
                }
                Exp::Read(s as u32, s as u32, pos.iter().map(|p| self.at(p.0 as u32, p.1 as u32)).collect())
            }
            _ => Exp::Done,
        }
    }
}

// ---- callbacks (C05) --------------------------------------------------------------------------

/// Parameters of one callback case, carried in `Call::i`.
#[derive(Clone, Debug)]
pub struct CbSpec {
    pub method: String,
    /// 0: nothing fails, 1: invocation number `at` panics, 2: it yields `delta` values too many (or few)
    pub fail: i64,
    pub at: i64,
    pub delta: i64,
    pub fk: i64,
    pub gk: i64,
    /// edit_channel: the channel; map_pixels: number of outputs per pixel
    pub arg: i64,
}
impl CbSpec {
    pub fn of(s: &str, i: &[i64]) -> CbSpec {
        let a = |k: usize| i.get(k).copied().unwrap_or(0);
        CbSpec { method: s.to_string(), fail: a(0), at: a(1), delta: a(2), fk: a(3), gk: a(4), arg: a(5) }
    }
    pub fn maps(&self) -> bool {
        self.method.starts_with("map_")
    }
    pub fn pixels(&self) -> bool {
        self.method.contains("pixels")
    }
    pub fn if_alpha(&self) -> bool {
        self.method.ends_with("if_alpha")
    }
}

/// What one application did.
#[derive(Clone, Debug, Default)]
pub struct CbSeen {
    /// The panic that came out, if one did.
    pub panic: Option<String>,
    /// Every invocation: alpha callback?, values it was given.
    pub calls: Vec<(bool, Vec<f64>)>,
    pub dims: (u32, u32, u8, bool),
    pub data: Vec<f64>,
    /// For mapping operations that returned: the mapped image.
    pub out: Option<((u32, u32, u8, bool), Vec<f64>)>,
}

/// Invocations a complete run makes, in some order.
fn expected_calls(s: &CbSpec, before: &Store) -> Vec<(bool, Vec<f64>)> {
    let c = before.c as usize;
    let split = s.if_alpha() && before.a;
    let mut v = Vec::new();
    if s.method == "edit_channel" {
        for i in 0..before.d.len() {
            if i % c == s.arg as usize {
                v.push((false, vec![before.d[i]]));
            }
        }
    } else if s.pixels() {
        for p in before.d.chunks(c) {
            if split {
                v.push((false, p[..c - 1].to_vec()));
                v.push((true, vec![p[c - 1]]));
            } else {
                v.push((false, p.to_vec()));
            }
        }
    } else {
        for (i, x) in before.d.iter().enumerate() {
            v.push((split && i % c == c - 1, vec![*x]));
        }
    }
    v
}
pub fn total_calls(s: &CbSpec, before: &Store) -> usize {
    expected_calls(s, before).len()
}

fn b(p: &[f64]) -> Vec<u8> {
    p.iter().map(|x| *x as u8).collect()
}
fn f(v: &[u8]) -> Vec<f64> {
    v.iter().map(|x| *x as f64).collect()
}

/// The complete new values (in place), pixel by pixel.
fn new_pixel(s: &CbSpec, before: &Store, p: &[f64]) -> Vec<f64> {
    let c = before.c as usize;
    let split = s.if_alpha() && before.a;
    if s.method == "edit_channel" {
        let mut q = p.to_vec();
        q[s.arg as usize] = fval(p[s.arg as usize] as u8, s.fk) as f64;
        return q;
    }
    let n = if s.maps() && s.pixels() { s.arg as usize } else if split { c - 1 } else { c };
    let mut q = if s.pixels() {
        let src = if split { &p[..c - 1] } else { p };
        f(&fpix_n(&b(src), s.fk, n))
    } else {
        f(&fpix(&b(&p[..n]), s.fk))
    };
    if split {
        q.push(gval(p[c - 1] as u8, s.gk) as f64);
    }
    q
}

fn sorted(v: &[(bool, Vec<f64>)]) -> Vec<(bool, Vec<u64>)> {
    let mut w: Vec<(bool, Vec<u64>)> = v.iter().map(|(g, x)| (*g, x.iter().map(|y| y.to_bits()).collect())).collect();
    w.sort();
    w
}

/// Compares one application with the model; returns the state it left behind for the next one.
pub fn check_cb(s: &CbSpec, before: &Store, seen: &CbSeen) -> Result<Store, String> {
    let after = Store { w: seen.dims.0, h: seen.dims.1, c: seen.dims.2, a: seen.dims.3, d: seen.data.clone() };
    if (before.w, before.h, before.c, before.a) != seen.dims {
        return Err(format!("the image's dimensions changed from {:?} to {:?}", (before.w, before.h, before.c, before.a), seen.dims));
    }
    if before.d.len() != seen.data.len() {
        return Err(format!("the image holds {} values instead of {}", seen.data.len(), before.d.len()));
    }
    let want = expected_calls(s, before);
    // (an alpha callback returns a single value, which has no wrong length)
    let fires = s.fail != 0 && seen.calls.get(s.at.max(0) as usize).is_some_and(|c| s.fail == 1 || !c.0);
    if s.fail == 1 && fires {
        match &seen.panic {
            None => return Err("the callback's panic did not reach the caller".into()),
            Some(m) if m != "callback failed" => return Err(format!("the caller got another panic: {}", m)),
            _ => {}
        }
    }
    if s.fail == 2 && fires && !s.maps() && seen.panic.is_none() {
        return Err("a pixel of the wrong length was accepted".into());
    }
    if !fires {
        if let Some(p) = &seen.panic {
            return Err(format!("panicked although no callback failed: {}", p));
        }
        if s.fail != 0 && seen.calls.len() < want.len() {
            return Err(format!("{} callback invocations instead of {}", seen.calls.len(), want.len()));
        }
    }
    let c = before.c as usize;
    if s.maps() {
        if before.d != seen.data {
            return Err("a mapping operation changed its source image".into());
        }
    } else {
        for (i, p) in before.d.chunks(c).enumerate() {
            let q = &seen.data[i * c..(i + 1) * c];
            let n = new_pixel(s, before, p);
            if s.pixels() {
                let old = q == p;
                let new = q == &n[..];
                if !old && !new {
                    return Err(format!("pixel {} is {:?}: neither the old {:?} nor the new {:?}", i, q, p, n));
                }
                if !fires && !new {
                    return Err(format!("pixel {} was not replaced", i));
                }
            } else {
                for k in 0..c {
                    let selected = s.method != "edit_channel" || k == s.arg as usize;
                    if q[k] != p[k] && (!selected || q[k] != n[k]) {
                        return Err(format!("pixel {} channel {} is {}: neither the old {} nor the new {}", i, k, q[k], p[k],
                            if selected { n[k] } else { p[k] }));
                    }
                    if !fires && selected && q[k] != n[k] {
                        return Err(format!("pixel {} channel {} was not replaced", i, k));
                    }
                }
            }
        }
    }
    if fires {
        // no element is handed out twice or with a value it never had
        let mut left = sorted(&want);
        for x in sorted(&seen.calls) {
            match left.binary_search(&x) {
                Ok(k) => {
                    left.remove(k);
                }
                Err(_) => return Err(format!("the callback was given {:?}, which is not (or not any more) due",
                    x.1.iter().map(|v| f64::from_bits(*v)).collect::<Vec<_>>())),
            }
        }
    } else {
        if sorted(&want) != sorted(&seen.calls) {
            return Err(format!("the callbacks were not given each selected element exactly once ({} invocations, {} elements)",
                seen.calls.len(), want.len()));
        }
        if s.maps() {
            let Some((dims, data)) = &seen.out else { return Err("no mapped image".into()) };
            let n: Vec<f64> = before.d.chunks(c).flat_map(|p| new_pixel(s, before, p)).collect();
            let nc = (n.len() / (before.d.len() / c)) as u8;
            if *dims != (before.w, before.h, nc, before.a) {
                return Err(format!("the mapped image is {:?} instead of {:?}", dims, (before.w, before.h, nc, before.a)));
            }
            if let Some(i) = (0..n.len().max(data.len())).find(|i| n.get(*i) != data.get(*i)) {
                return Err(format!("value {} of the mapped image is {:?} instead of {:?}", i, data.get(i), n.get(i)));
            }
        }
    }
    Ok(after)
}
