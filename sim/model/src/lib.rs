//! What a simulated run consists of (scenarios), what it returns (outcomes) and the plain data both need.
//! Nothing here is instrumented and nothing here uses the library under test.
use serde::{Deserialize, Serialize};
pub mod store;

// ---- randomness -------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5DEECE66D) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1).max(1) as u64) as i64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// In [0, 1), a multiple of 2^-16.
    pub fn unit(&mut self) -> f32 {
        (self.below(65536) as f32) / 65536.0
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

// ---- images -----------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Ty {
    U8,
    F32,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct ImgSpec {
    pub w: u32,
    pub h: u32,
    pub c: u8,
    pub a: bool,
    pub ty: Ty,
    /// How the values are made (see `values_u8` / `values_f32`).
    pub fill: u8,
    pub seed: u64,
    /// Elements more (or, if negative, fewer) than the dimensions call for.
    #[serde(default)]
    pub extra: i32,
    /// If not zero, one element differs from what the other fields make: the one at this place, counted round.
    #[serde(default)]
    pub poke: u32,
}

impl ImgSpec {
    pub fn len(&self) -> usize {
        let n = self.w as i64 * self.h as i64 * self.c as i64 + self.extra as i64;
        n.max(0) as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn u8s(&self) -> Vec<u8> {
        let mut r = Rng::new(self.seed);
        let n = self.len();
        let mut v = Vec::with_capacity(n);
        let base = r.below(256) as u8;
        for i in 0..n {
            v.push(match self.fill {
                0 => r.below(256) as u8,
                1 => base,
                2 => if r.below(2) == 0 { 0 } else { 255 },
                3 => ((i as u64 * 7 + base as u64) & 255) as u8,
                4 => *r.pick(&[0u8, 1, 2, 127, 128, 253, 254, 255]),
                5 => if r.below(8) == 0 { r.below(256) as u8 } else { base },
                _ => base.wrapping_add(r.below(9) as u8),
            });
        }
        if self.poke > 0 && n > 0 {
            v[self.poke as usize % n] ^= 1 << (self.poke % 8);
        }
        v
    }
    pub fn f32s(&self) -> Vec<f32> {
        let mut r = Rng::new(self.seed);
        let n = self.len();
        let mut v = Vec::with_capacity(n);
        let base = r.below(256) as f32;
        for i in 0..n {
            v.push(match self.fill {
                0 => r.unit() * 255.0,
                1 => base,
                2 => if r.below(2) == 0 { 0.0 } else { 255.0 },
                3 => ((i as u64 * 7) & 255) as f32,
                4 => r.below(256) as f32,
                5 => r.unit(),
                6 => r.unit() * 200.0 - 100.0,
                _ => r.unit() * 1.0e4 - 5.0e3,
            });
        }
        if self.poke > 0 && n > 0 {
            v[self.poke as usize % n] += 0.5;
        }
        v
    }
    pub fn img(&self) -> Img {
        Img {
            w: self.w,
            h: self.h,
            c: self.c,
            a: self.a,
            pix: match self.ty {
                Ty::U8 => Pix::U8(self.u8s()),
                Ty::F32 => Pix::F32(self.f32s()),
            },
        }
    }
    pub fn brief(&self) -> String {
        format!("{}x{}x{}{}{}{}", self.w, self.h, self.c, if self.a { "a" } else { "" },
            if self.ty == Ty::F32 { "f" } else { "" },
            if self.extra != 0 { format!("{:+}", self.extra) } else { String::new() })
    }
}

#[derive(Clone, Debug)]
pub enum Pix {
    U8(Vec<u8>),
    F32(Vec<f32>),
}
impl Pix {
    pub fn len(&self) -> usize {
        match self {
            Pix::U8(v) => v.len(),
            Pix::F32(v) => v.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl PartialEq for Pix {
    /// Bit for bit.
    fn eq(&self, o: &Pix) -> bool {
        match (self, o) {
            (Pix::U8(a), Pix::U8(b)) => a == b,
            (Pix::F32(a), Pix::F32(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()),
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Img {
    pub w: u32,
    pub h: u32,
    pub c: u8,
    pub a: bool,
    pub pix: Pix,
}
impl Img {
    pub fn u8(w: u32, h: u32, c: u8, a: bool, d: &[u8]) -> Img {
        Img { w, h, c, a, pix: Pix::U8(d.to_vec()) }
    }
    pub fn f32(w: u32, h: u32, c: u8, a: bool, d: &[f32]) -> Img {
        Img { w, h, c, a, pix: Pix::F32(d.to_vec()) }
    }
    pub fn dims(&self) -> (u32, u32, u8, bool) {
        (self.w, self.h, self.c, self.a)
    }
    pub fn complete(&self) -> bool {
        self.pix.len() as u64 == self.w as u64 * self.h as u64 * self.c as u64
    }
}

// ---- outcomes ---------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Img(Img),
    F(Vec<u32>),
    U(Vec<u64>),
    S(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok(Vec<Val>),
    Err(String, String),
    Panic(String),
}
impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "success",
            Out::Err(..) => "an error",
            Out::Panic(_) => "a panic",
        }
    }
    pub fn img(&self) -> Option<&Img> {
        match self {
            Out::Ok(v) => match v.first() {
                Some(Val::Img(i)) => Some(i),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(v) => match v.first() {
                Some(Val::Img(i)) => format!("success with a {}x{}x{} image", i.w, i.h, i.c),
                _ => "success".to_string(),
            },
            Out::Err(k, m) => format!("{}: {}", k, m.chars().take(160).collect::<String>()),
            Out::Panic(m) => format!("a panic ({})", m.chars().take(160).collect::<String>()),
        }
    }
}

/// One executed call.
#[derive(Clone, Debug)]
pub struct Rec {
    pub thr: u32,
    pub step: u32,
    pub call: u32,
    pub out: Out,
    /// The named file before and after an I/O call.
    pub pre: Option<Vec<u8>>,
    pub post: Option<Vec<u8>>,
    /// Descriptors of this call still open when it returned.
    pub fds: u32,
    pub t0: u64,
    pub t1: u64,
}

/// Everything a run hands back.
#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub recs: Vec<Rec>,
    /// Input images that no longer hold what they were made with.
    pub changed: Vec<u32>,
    /// All files at the end (or at the crash).
    pub files: Vec<(String, Vec<u8>)>,
    /// I/O operations: (thread, step, nth, class, path, requested, returned)
    pub trace: Vec<(i32, i32, u32, u8, String, i64, i64)>,
    pub touched: Vec<String>,
    pub notes: Vec<String>,
}

// binary coding, because runs return many images

pub trait Bin: Sized {
    fn put(&self, o: &mut Vec<u8>);
    fn get(i: &mut &[u8]) -> Option<Self>;
}
macro_rules! bin_num {
    ($($t:ty)*) => {$(
        impl Bin for $t {
            fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()) }
            fn get(i: &mut &[u8]) -> Option<Self> {
                const N: usize = core::mem::size_of::<$t>();
                if i.len() < N { return None; }
                let (a, b) = i.split_at(N);
                *i = b;
                Some(<$t>::from_le_bytes(a.try_into().unwrap()))
            }
        }
    )*};
}
bin_num!(u8 u32 u64 i32 i64);
fn take<'a>(i: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if i.len() < n {
        return None;
    }
    let (a, b) = i.split_at(n);
    *i = b;
    Some(a)
}
fn put_bytes(b: &[u8], o: &mut Vec<u8>) {
    (b.len() as u64).put(o);
    o.extend_from_slice(b);
}
fn get_bytes(i: &mut &[u8]) -> Option<Vec<u8>> {
    let n = u64::get(i)? as usize;
    Some(take(i, n)?.to_vec())
}
impl Bin for String {
    fn put(&self, o: &mut Vec<u8>) {
        put_bytes(self.as_bytes(), o)
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        String::from_utf8(get_bytes(i)?).ok()
    }
}
impl<T: Bin> Bin for Vec<T> {
    fn put(&self, o: &mut Vec<u8>) {
        (self.len() as u64).put(o);
        for x in self {
            x.put(o);
        }
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        let n = u64::get(i)? as usize;
        if n > i.len() {
            return None;
        }
        (0..n).map(|_| T::get(i)).collect()
    }
}
impl<T: Bin> Bin for Option<T> {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            None => 0u8.put(o),
            Some(x) => {
                1u8.put(o);
                x.put(o)
            }
        }
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        Some(match u8::get(i)? {
            0 => None,
            _ => Some(T::get(i)?),
        })
    }
}
impl<A: Bin, B: Bin> Bin for (A, B) {
    fn put(&self, o: &mut Vec<u8>) {
        self.0.put(o);
        self.1.put(o);
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        Some((A::get(i)?, B::get(i)?))
    }
}
impl Bin for (i32, i32, u32, u8, String, i64, i64) {
    fn put(&self, o: &mut Vec<u8>) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
        self.3.put(o);
        self.4.put(o);
        self.5.put(o);
        self.6.put(o);
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        Some((i32::get(i)?, i32::get(i)?, u32::get(i)?, u8::get(i)?, String::get(i)?, i64::get(i)?, i64::get(i)?))
    }
}
impl Bin for Img {
    fn put(&self, o: &mut Vec<u8>) {
        self.w.put(o);
        self.h.put(o);
        self.c.put(o);
        (self.a as u8).put(o);
        match &self.pix {
            Pix::U8(v) => {
                0u8.put(o);
                put_bytes(v, o)
            }
            Pix::F32(v) => {
                1u8.put(o);
                (v.len() as u64).put(o);
                for x in v {
                    x.to_bits().put(o);
                }
            }
        }
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        let (w, h, c, a) = (u32::get(i)?, u32::get(i)?, u8::get(i)?, u8::get(i)? != 0);
        let pix = match u8::get(i)? {
            0 => Pix::U8(get_bytes(i)?),
            _ => {
                let n = u64::get(i)? as usize;
                let b = take(i, n * 4)?;
                Pix::F32(b.chunks_exact(4).map(|c| f32::from_bits(u32::from_le_bytes(c.try_into().unwrap()))).collect())
            }
        };
        Some(Img { w, h, c, a, pix })
    }
}
impl Bin for Val {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Val::Img(x) => {
                0u8.put(o);
                x.put(o)
            }
            Val::F(x) => {
                1u8.put(o);
                x.put(o)
            }
            Val::U(x) => {
                2u8.put(o);
                x.put(o)
            }
            Val::S(x) => {
                3u8.put(o);
                x.put(o)
            }
        }
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        Some(match u8::get(i)? {
            0 => Val::Img(Img::get(i)?),
            1 => Val::F(Vec::get(i)?),
            2 => Val::U(Vec::get(i)?),
            _ => Val::S(String::get(i)?),
        })
    }
}
impl Bin for Out {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Out::Ok(v) => {
                0u8.put(o);
                v.put(o)
            }
            Out::Err(a, b) => {
                1u8.put(o);
                a.put(o);
                b.put(o)
            }
            Out::Panic(a) => {
                2u8.put(o);
                a.put(o)
            }
        }
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        Some(match u8::get(i)? {
            0 => Out::Ok(Vec::get(i)?),
            1 => Out::Err(String::get(i)?, String::get(i)?),
            _ => Out::Panic(String::get(i)?),
        })
    }
}
impl Bin for Rec {
    fn put(&self, o: &mut Vec<u8>) {
        self.thr.put(o);
        self.step.put(o);
        self.call.put(o);
        self.out.put(o);
        self.pre.put(o);
        self.post.put(o);
        self.fds.put(o);
        self.t0.put(o);
        self.t1.put(o);
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        Some(Rec { thr: u32::get(i)?, step: u32::get(i)?, call: u32::get(i)?, out: Out::get(i)?, pre: Option::get(i)?,
            post: Option::get(i)?, fds: u32::get(i)?, t0: u64::get(i)?, t1: u64::get(i)? })
    }
}
impl Bin for RunOut {
    fn put(&self, o: &mut Vec<u8>) {
        self.recs.put(o);
        self.changed.put(o);
        self.files.put(o);
        self.trace.put(o);
        self.touched.put(o);
        self.notes.put(o);
    }
    fn get(i: &mut &[u8]) -> Option<Self> {
        Some(RunOut { recs: Vec::get(i)?, changed: Vec::get(i)?, files: Vec::get(i)?, trace: Vec::get(i)?,
            touched: Vec::get(i)?, notes: Vec::get(i)? })
    }
}

// ---- scenarios --------------------------------------------------------------------------------

/// Which build of the library: as shipped (sequential, SIMD), multithreaded (SIMD), or plain.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Variant {
    Def,
    Par,
    Plain,
}

/// One step of a history on an image (C05 and C06).
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct HOp {
    pub k: String,
    pub a: Vec<i64>,
}

/// Numbers as usual, but NaN and infinities (which JSON does not have) by their bits.
mod floats {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Serialize, Deserialize)]
    #[serde(untagged)]
    enum F {
        Num(f32),
        Bits(String),
    }
    pub fn serialize<S: Serializer>(v: &[f32], s: S) -> Result<S::Ok, S::Error> {
        let v: Vec<F> = v.iter().map(|&x| if x.is_finite() { F::Num(x) } else { F::Bits(format!("{:08x}", x.to_bits())) }).collect();
        v.serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<f32>, D::Error> {
        let v: Vec<F> = Vec::deserialize(d)?;
        v.into_iter().map(|x| match x {
            F::Num(x) => Ok(x),
            F::Bits(s) => u32::from_str_radix(&s, 16).map(f32::from_bits).map_err(serde::de::Error::custom),
        }).collect()
    }
}

#[derive(Clone, PartialEq, Debug, Default, Serialize, Deserialize)]
pub struct Call {
    pub op: String,
    /// Input images.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub im: Vec<usize>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub i: Vec<i64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty", with = "floats")]
    pub f: Vec<f32>,
    #[serde(default, skip_serializing_if = "Vec::is_empty", with = "floats")]
    pub k: Vec<f32>,
    #[serde(default, skip_serializing_if = "Vec::is_empty", with = "floats")]
    pub k2: Vec<f32>,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub s: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub h: Vec<HOp>,
}

/// Where the calls of a step run.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ctx {
    /// On the calling thread, one after the other.
    Plain,
    /// On a worker of the pool, one after the other.
    InPool(usize),
    /// Both sides of a join (or nested joins) in the pool.
    Join(usize),
    /// Tasks of one scope in the pool.
    Scope(usize),
    /// Items of a parallel iterator in the pool.
    Iter(usize),
    /// Each on a new thread, with a sleep of its own before.
    Threads,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Step {
    pub ctx: Ctx,
    pub calls: Vec<Call>,
    /// Sleep before the step, in microseconds of simulated time.
    #[serde(default)]
    pub wait_us: u64,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Heap {
    pub seed: u64,
    pub reuse: bool,
    pub odd: bool,
    pub efence: u32,
    pub shadow: bool,
    pub points: bool,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Env {
    pub heap: Heap,
    pub hash_seed: u64,
    pub ncpu: u32,
    /// CPU features: 0 missing, 1 present, 2, 3 some, 4 some and others for each call.
    pub cpu: u8,
    pub clock0: u64,
    pub clock_jumps: bool,
    #[serde(default)]
    pub vars: Vec<(String, String)>,
}

impl Default for Env {
    fn default() -> Env {
        Env {
            heap: Heap { seed: 1, reuse: true, odd: false, efence: 0, shadow: false, points: false },
            hash_seed: 0,
            ncpu: 2,
            cpu: 1,
            clock0: 1_000_000_000,
            clock_jumps: false,
            vars: Vec::new(),
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum FAct {
    Errno(i32),
    Limit(usize),
    Zero,
    CrashBefore,
    CrashAfter(usize),
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub thr: i32,
    pub step: i32,
    /// The nth I/O operation of the step (of the class, if one is given).
    pub nth: i64,
    pub class: i32,
    pub act: FAct,
    #[serde(default)]
    pub sticky: bool,
}
#[derive(Clone, PartialEq, Debug, Default, Serialize, Deserialize)]
pub struct Disk {
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub chunk: usize,
    #[serde(default)]
    pub chunk_seed: u64,
    #[serde(default)]
    pub eintr_ppm: u64,
    #[serde(default)]
    pub capacity: usize,
    #[serde(default)]
    pub max_fds: usize,
    /// The files there are at the beginning are read-only.
    #[serde(default)]
    pub readonly: bool,
}

/// A file present before the run.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum FileSpec {
    /// Encoded (by the reference codec) from image `im` as format `fmt`.
    Enc { path: String, im: usize, fmt: String },
    /// The same, then cut to `keep` bytes, or with byte `at` XORed with `x`.
    Cut { path: String, im: usize, fmt: String, keep: usize },
    Flip { path: String, im: usize, fmt: String, at: usize, x: u8 },
    Raw { path: String, hex: String },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub policy: u8,
    pub seed: u64,
    #[serde(default)]
    pub mean: u64,
    #[serde(default)]
    pub conflict_ppm: u64,
    #[serde(default)]
    pub sync_ppm: u64,
    #[serde(default)]
    pub spurious_ppm: u64,
    #[serde(default)]
    pub quantum: u64,
    #[serde(default)]
    pub pct_depth: u32,
    #[serde(default)]
    pub pct_len: u64,
    pub fair: u64,
    pub budget: u64,
    /// Recorded: (thread, its local time, thread to run next); nothing else is random then.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub switches: Option<Vec<(u16, u64, u16)>>,
}
impl Default for Sched {
    fn default() -> Sched {
        Sched { policy: 0, seed: 1, mean: 0, conflict_ppm: 0, sync_ppm: 0, spurious_ppm: 0, quantum: 0, pct_depth: 0, pct_len: 0,
            fair: 2_000_000, budget: 400_000_000, switches: None }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    /// What kind of case this is, within the property.
    pub kind: String,
    pub variant: Variant,
    pub env: Env,
    pub images: Vec<ImgSpec>,
    #[serde(default)]
    pub files: Vec<FileSpec>,
    #[serde(default)]
    pub pools: Vec<u32>,
    pub threads: Vec<Vec<Step>>,
    #[serde(default)]
    pub disk: Disk,
    pub sched: Sched,
}
impl Scenario {
    pub fn hash(&self) -> u64 {
        hash_bytes(&serde_json::to_vec(self).unwrap())
    }
    /// Everything but the schedule and the environment.
    pub fn work_hash(&self) -> u64 {
        let mut s = self.clone();
        s.sched = Sched::default();
        s.env = Env::default();
        s.hash()
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[i * 2..i * 2 + 2], 16).ok()).collect()
}

/// Position of the first difference, for messages.
pub fn diff(a: &Img, b: &Img) -> String {
    if a.dims() != b.dims() {
        return format!("{:?} instead of {:?}", a.dims(), b.dims());
    }
    if a.pix.len() != b.pix.len() {
        return format!("{} values instead of {}", a.pix.len(), b.pix.len());
    }
    let c = a.c.max(1) as usize;
    let w = a.w.max(1) as usize;
    let at = |i: usize| format!("pixel ({}, {}) channel {}", i / c % w, i / c / w, i % c);
    match (&a.pix, &b.pix) {
        (Pix::U8(x), Pix::U8(y)) => {
            let n = x.iter().zip(y).filter(|(p, q)| p != q).count();
            for i in 0..x.len() {
                if x[i] != y[i] {
                    return format!("{}: {} instead of {} ({} values differ)", at(i), x[i], y[i], n);
                }
            }
        }
        (Pix::F32(x), Pix::F32(y)) => {
            let n = x.iter().zip(y).filter(|(p, q)| p.to_bits() != q.to_bits()).count();
            for i in 0..x.len() {
                if x[i].to_bits() != y[i].to_bits() {
                    return format!("{}: {} instead of {} ({} values differ)", at(i), x[i], y[i], n);
                }
            }
        }
        _ => return "another pixel type".to_string(),
    }
    "no difference".to_string()
}
