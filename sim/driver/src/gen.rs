//! Makes scenarios from seeds.
use crate::exec;
use model::store::Store;
use model::*;

pub const PAR_OPS: &[&str] = &["crop", "scale", "scale_lanczos", "filter_1d", "separable_filter", "unseparable_filter", "linear_filter",
    "box_filter", "weighted_avg_filter", "gaussian_blur", "sharpen", "unsharp_masking", "derivative_mask", "prewitt", "sobel",
    "sobel_weighted", "laplacian", "laplacian_of_gaussian", "normalize_laplacian", "bilateral_filter"];
pub const SIMD_OPS: &[&str] = &["brightness", "saturation", "rgb_to_grayscale"];
pub const OTHER_OPS: &[&str] = &["rgb_to_grayscale_f32", "linearize_srgb_f32", "unlinearize_srgb_f32", "srgb_lin_to_xyz_f32",
    "xyz_to_srgb_lin_f32", "xyz_to_lab_f32", "lab_to_xyz_f32", "rgb_to_hsv", "hsv_to_rgb", "rgb_to_hsv_f32", "hsv_to_rgb_f32",
    "srgb_to_xyz_f32", "xyz_to_srgb_f32", "srgb_to_lab_f32", "lab_to_srgb_f32", "scale_channels", "f32_to_u8_scale", "u8_to_f32_scale",
    "into_f32", "into_u8", "brightness_lab", "contrast", "contrast_lab", "gamma", "histogram_equalization", "erode", "dilate", "majority",
    "open", "close", "gradient", "superimpose", "overlay", "translate", "rotate", "reflect", "shear", "threshold", "residual",
    "median_filter", "alpha_trimmed_mean_filter", "gaussian_kernel", "log_kernel", "spatial_mat", "separate_kernel", "vector_mul", "vector_mul_mut",
    "summed_area_table", "rect_sum", "histogram_percentiles", "lookup_table", "math", "img_map", "img_map_alpha", "img_map_pixels",
    "img_map_pixels_alpha", "img_apply", "img_edit", "img_sub", "img_near", "img_iter", "img_blank", "img_raw", "img_from"];
pub const FMTS: &[&str] = &["png", "jpg", "bmp", "tga", "tif", "ico", "gif", "pgm", "ppm", "pam", "pbm"];

pub fn all_ops() -> Vec<&'static str> {
    PAR_OPS.iter().chain(SIMD_OPS).chain(OTHER_OPS).copied().collect()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Sz {
    Tiny,
    Small,
    Any,
    Simd,
    /// More pixels than 16 bits can count, or rows or columns longer than that.
    Big,
    /// Thousands of pixels.
    Mid,
    /// Many rows or columns, few of the other.
    Long,
}

pub struct G {
    pub r: Rng,
    pub images: Vec<ImgSpec>,
    pub sz: Sz,
    /// Probability in percent of images whose data does not match their dimensions.
    pub malformed: u64,
    /// Probability in percent of unusual arguments.
    pub odd: u64,
    /// Whether images without pixels occur.
    pub empty: bool,
}

type Lay = (u8, bool);
const L_ANY: &[Lay] = &[(1, false), (3, false), (4, true), (3, false), (2, true), (1, false), (2, false), (4, false), (3, true), (5, true)];
const L_STD: &[Lay] = &[(1, false), (2, true), (3, false), (4, true)];
const L_RGB: &[Lay] = &[(3, false), (4, true)];
const L_GRAY: &[Lay] = &[(1, false)];

impl G {
    pub fn new(r: Rng, sz: Sz) -> G {
        G { r, images: Vec::new(), sz, malformed: 0, odd: 6, empty: true }
    }
    fn large(&self) -> bool {
        matches!(self.sz, Sz::Big | Sz::Mid | Sz::Long)
    }
    pub fn dims(&mut self) -> (u32, u32) {
        let r = &mut self.r;
        if self.empty && r.chance(1, 80) {
            return nothing(r);
        }
        let mut d = |a: i64, b: i64| r.range(a, b) as u32;
        match self.sz {
            Sz::Tiny => (d(1, 7), d(1, 7)),
            Sz::Small => match d(0, 9) {
                0 => (1, d(1, 30)),
                1 => (d(1, 30), 1),
                2..=6 => (d(1, 9), d(1, 9)),
                _ => (d(1, 24), d(1, 24)),
            },
            Sz::Any => match d(0, 39) {
                0 => (1, d(1, 60)),
                1 => (d(1, 60), 1),
                2..=16 => (d(1, 10), d(1, 10)),
                17..=31 => (d(4, 32), d(4, 32)),
                32..=35 => (d(20, 80), d(20, 80)),
                36 => (d(250, 270), d(1, 6)),
                37 => (d(1, 6), d(250, 270)),
                38 => (64, 64),
                _ => (d(60, 140), d(60, 140)),
            },
            Sz::Simd => match d(0, 19) {
                0..=11 => (d(1, 40), d(1, 6)),
                12..=15 => (d(1, 20), d(1, 20)),
                16 => (32, d(1, 4)),
                17 => (d(60, 70), d(1, 70)),
                18 => (d(250, 270), d(1, 20)),
                _ => (d(100, 260), d(100, 260)),
            },
            Sz::Long => {
                let (a, b) = (d(1, 3), match d(0, 3) {
                    0 => d(20, 140),
                    1 => d(60, 300),
                    2 => d(250, 1100),
                    _ => d(500, 3000),
                });
                if d(0, 1) == 0 { (a, b) } else { (b, a) }
            }
            Sz::Mid => match d(0, 5) {
                0 => (d(64, 100), d(64, 100)),
                1 => (d(100, 140), d(100, 140)),
                2 => (d(120, 200), d(120, 200)),
                3 => (d(10, 40), d(300, 1500)),
                4 => (d(300, 1500), d(10, 40)),
                _ => (d(180, 300), d(180, 300)),
            },
            Sz::Big => match d(0, 7) {
                0 => (d(65_530, 65_545), 1),
                1 => (1, d(65_530, 65_545)),
                2 => (d(4_094, 4_100), d(15, 17)),
                3 => (d(15, 17), d(4_094, 4_100)),
                4 => (d(510, 520), d(126, 131)),
                5 => (d(1_020, 1_030), d(60, 70)),
                _ => (d(254, 264), d(254, 264)),
            },
        }
    }
    fn fill(&mut self, ty: Ty) -> u8 {
        match ty {
            Ty::U8 => *self.r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6]),
            Ty::F32 => *self.r.pick(&[0, 0, 1, 2, 3, 4, 4, 5, 6]),
        }
    }
    pub fn add(&mut self, ty: Ty, lay: Lay, dims: (u32, u32)) -> usize {
        let fill = self.fill(ty);
        self.add_fill(ty, lay, dims, fill)
    }
    pub fn add_fill(&mut self, ty: Ty, lay: Lay, (w, h): (u32, u32), fill: u8) -> usize {
        let mut extra = 0;
        if self.r.below(100) < self.malformed {
            let n = (w * h * lay.0 as u32) as i64;
            extra = match self.r.below(5) {
                0 => -1,
                1 => -(self.r.range(1, n)),
                2 => -(lay.0 as i64),
                3 => self.r.range(1, 40),
                _ => -self.r.range(1, n.min(40)),
            } as i32;
        }
        let seed = self.r.next();
        self.images.push(ImgSpec { w, h, c: lay.0, a: lay.1, ty, fill, seed, extra, poke: 0 });
        self.images.len() - 1
    }
    fn lay(&mut self, l: &[Lay]) -> Lay {
        if self.r.below(100) < self.odd {
            return *self.r.pick(L_ANY);
        }
        *self.r.pick(l)
    }
    /// An image of the type and (mostly) one of the layouts, possibly one that is there already.
    fn im(&mut self, ty: Ty, l: &[Lay]) -> usize {
        if self.r.chance(1, 2) {
            let have: Vec<usize> = (0..self.images.len())
                .filter(|k| self.images[*k].ty == ty && l.contains(&(self.images[*k].c, self.images[*k].a))).collect();
            if !have.is_empty() {
                return *self.r.pick(&have);
            }
        }
        let lay = self.lay(l);
        let mut d = self.dims();
        if let Some(p) = self.images.last() {
            // often the same size as another, differing content
            if self.r.chance(1, 3) {
                d = (p.w, p.h);
            }
        }
        self.add(ty, lay, d)
    }
    fn im_any(&mut self) -> usize {
        let ty = if self.r.chance(1, 2) { Ty::U8 } else { Ty::F32 };
        self.im(ty, L_ANY)
    }
    /// Like image `k` in layout and, mostly, size.
    fn im_like(&mut self, k: usize) -> usize {
        let s = self.images[k].clone();
        let d = if self.r.chance(1, 2) { (s.w, s.h) } else { self.dims() };
        let lay = if self.r.below(100) < self.odd { *self.r.pick(L_ANY) } else { (s.c, s.a) };
        self.add(s.ty, lay, d)
    }
    fn unusual(&mut self) -> bool {
        self.r.below(100) < self.odd
    }
    fn f(&mut self, a: f32, b: f32) -> f32 {
        a + (b - a) * self.r.unit()
    }
    /// A value close to `x`.
    fn near(&mut self, x: f32) -> f32 {
        match self.r.below(5) {
            0 => f32::from_bits(x.to_bits().wrapping_add(1)),
            1 => x * 1.000_01,
            2 => x * 1.001,
            3 => x + 0.004,
            _ => x * 1.03,
        }
    }
    fn kernel1(&mut self, n: usize) -> Vec<f32> {
        (0..n).map(|_| (self.r.range(-8, 8) as f32) / 4.0 + 0.0625).collect()
    }
    fn klen(&mut self) -> usize {
        if self.unusual() { *self.r.pick(&[2, 4, 6]) } else { *self.r.pick(&[1, 3, 3, 3, 5, 5, 7]) }
    }
    fn kernel2(&mut self) -> Vec<f32> {
        let n = self.klen();
        if self.unusual() {
            return self.kernel1(n * n - 2.min(n * n - 1));
        }
        match self.r.below(3) {
            0 => self.kernel1(n * n),
            _ => {
                let (a, b) = (self.kernel1(n), self.kernel1(n));
                a.iter().flat_map(|x| b.iter().map(move |y| x * y)).collect()
            }
        }
    }
    fn odd_size(&mut self) -> i64 {
        if self.unusual() { self.r.range(0, 8) } else { *self.r.pick(&[1, 3, 3, 3, 5, 5, 7, 9]) }
    }

    /// A call of the named operation with fitting arguments. Operations that take many steps per
    /// pixel mostly get the smaller images: more runs in the same time.
    pub fn call(&mut self, op: &str) -> Call {
        let before = self.images.len();
        let mut c = self.call0(op);
        self.extreme(&mut c);
        if !matches!(self.sz, Sz::Any | Sz::Simd) || !HEAVY.contains(&op) {
            return c;
        }
        let n = c.im.iter().map(|&k| &self.images[k]).map(|m| m.w as usize * m.h as usize * m.c as usize).max().unwrap_or(0);
        if n < 500 || self.r.chance(1, 3) {
            return c;
        }
        self.images.truncate(before);
        let sz = std::mem::replace(&mut self.sz, Sz::Small);
        let c = self.call0(op);
        self.sz = sz;
        c
    }

    /// Now and then an argument far from the usual.
    fn extreme(&mut self, c: &mut Call) {
        if c.im.is_empty() || !self.r.chance(1, 40) {
            return;
        }
        let n = c.im.iter().map(|&k| self.images[k].w as i64 * self.images[k].h as i64).max().unwrap_or(0);
        match c.op.as_str() {
            "scale" | "crop" | "scale_lanczos" | "rotate" | "shear" | "translate" | "superimpose" | "overlay" | "cb" | "store" => {}
            "filter_1d" | "separable_filter" | "derivative_mask" if n <= 100 => {
                let n = *self.r.pick(&[9, 11, 13, 15, 17, 21, 33]);
                c.k = self.kernel1(n);
                if !c.k2.is_empty() {
                    c.k2 = self.kernel1(n);
                }
            }
            "unseparable_filter" | "linear_filter" if n <= 60 => {
                let n = *self.r.pick(&[9, 11, 13]);
                c.k = self.kernel1(n * n);
            }
            "box_filter" | "weighted_avg_filter" | "gaussian_blur" | "laplacian_of_gaussian" if n <= 40 && self.r.chance(1, 2) => {
                c.i[0] = *self.r.pick(&[9, 11, 13]);
            }
            "median_filter" if n <= 200 => c.i[0] = *self.r.pick(&[5, 6, 8, 11, 16]),
            _ if !c.f.is_empty() => {
                let at = self.r.usize(c.f.len());
                if c.op == "bilateral_filter" && at == 1 {
                    // (the window grows with it)
                    c.f[at] = *self.r.pick(&[0.0, -0.0, f32::NAN, f32::NEG_INFINITY, 1e-30, 1e-3, -1.0, 1.0]);
                    return;
                }
                c.f[at] = *self.r.pick(&[0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e-30, 1e-3, 1e9, -1.0, 1.0, 255.0, 100.0]);
            }
            _ if !c.k.is_empty() => {
                let at = self.r.usize(c.k.len());
                c.k[at] = *self.r.pick(&[0.0, 0.0, -0.0, f32::NAN, 1e-30, 1e9]);
            }
            _ => {}
        }
    }

    fn call0(&mut self, op: &str) -> Call {
        use Ty::*;
        let mut c = Call { op: op.to_string(), ..Call::default() };
        match op {
            "rgb_to_grayscale" => c.im = vec![self.im(U8, &[(3, false), (4, true), (4, true), (3, true), (1, false), (2, true), (5, true)])],
            "rgb_to_hsv" | "hsv_to_rgb" | "rgb_to_hsv_f32" | "linearize_srgb_f32" | "srgb_to_xyz_f32" => c.im = vec![self.im(U8, L_RGB)],
            "srgb_to_lab_f32" => {
                c.im = vec![self.im(U8, L_RGB)];
                c.i = vec![self.r.range(0, 1)];
            }
            "rgb_to_grayscale_f32" | "unlinearize_srgb_f32" | "srgb_lin_to_xyz_f32" | "xyz_to_srgb_lin_f32" | "hsv_to_rgb_f32"
            | "xyz_to_srgb_f32" | "xyz_to_lab_f32" | "lab_to_xyz_f32" | "lab_to_srgb_f32" => {
                let lay = self.lay(L_RGB);
                let d = self.dims();
                let fill = if self.r.chance(3, 4) { 5 } else { self.fill(F32) };
                c.im = vec![self.add_fill(F32, lay, d, fill)];
                c.i = vec![self.r.range(0, 1)];
            }
            "scale_channels" => {
                c.im = vec![self.im(F32, L_ANY)];
                c.f = vec![0.0, self.f(-1.0, 1.0), 255.0, self.f(2.0, 300.0)];
            }
            "f32_to_u8_scale" => {
                c.im = vec![self.im(F32, L_ANY)];
                c.i = vec![self.r.range(1, 300)];
            }
            "u8_to_f32_scale" => {
                c.im = vec![self.im(U8, L_ANY)];
                c.i = vec![self.r.range(1, 300)];
            }
            "into_f32" => c.im = vec![self.im(U8, L_ANY)],
            "into_u8" => c.im = vec![self.im(F32, L_ANY)],
            "brightness" | "saturation" => {
                let l = if op == "saturation" { L_RGB } else { L_ANY };
                c.im = vec![self.im(U8, l)];
                c.i = vec![if self.unusual() { self.r.range(-300, 300) } else if self.r.chance(1, 3) {
                    *self.r.pick(&[0, 1, -1, 127, 128, 129, -127, -128, -129, 254, 255, -255])
                } else { self.r.range(-255, 255) }];
            }
            "brightness_lab" => {
                c.im = vec![self.im(U8, L_RGB)];
                c.i = vec![self.r.range(-255, 255)];
            }
            "contrast" | "contrast_lab" => {
                c.im = vec![self.im(U8, if op == "contrast" { L_ANY } else { L_RGB })];
                c.f = vec![if self.unusual() { self.f(-2.0, 3.0) } else { self.f(0.0, 1.0) }];
            }
            "gamma" => {
                c.im = vec![self.im(U8, L_ANY)];
                c.f = vec![self.f(0.1, 4.0)];
                c.i = vec![if self.r.chance(1, 2) { 255 } else { self.r.range(1, 255) }];
            }
            "histogram_equalization" => {
                c.im = vec![self.im(U8, L_RGB)];
                c.f = vec![self.f(0.0, 1.0), *self.r.pick(&[1.0, 2.0, 10.0, 50.0, 255.0])];
                c.i = vec![self.r.range(0, 1)];
            }
            "erode" | "dilate" | "majority" | "open" | "close" | "gradient" => {
                let lay = self.lay(L_GRAY);
                let d = self.dims();
                let k = if self.r.chance(1, 3) { self.im(U8, L_GRAY) } else { self.add_fill(U8, lay, d, 2) };
                let m = self.images[k].w.min(self.images[k].h) as i64;
                c.im = vec![k];
                c.i = vec![if self.unusual() { self.r.range(0, 6) } else { self.r.range(0, (m / 2).min(4)) }];
            }
            "crop" => {
                let k = self.im_any();
                let (w, h) = (self.images[k].w as i64, self.images[k].h as i64);
                c.im = vec![k];
                let (x, y) = (self.r.range(0, w - 1), self.r.range(0, h - 1));
                let n = if self.unusual() { 1 } else { 0 };
                c.i = vec![x, y, self.r.range(1, w - x + n), self.r.range(1, h - y + n)];
                let lack = self.images[k].extra;
                if lack < 0 && w > 1 && h > 1 && self.r.chance(3, 4) {
                    // up to what is missing
                    let n = w * h * self.images[k].c as i64;
                    let last = self.images[k].c as i64 * (w + 2);
                    self.images[k].extra = -self.r.range(last.min(n), n) as i32;
                    let (x, y) = (self.r.range(0, w - 2), self.r.range(0, h - 2));
                    c.i = vec![x, y, w - x - 1, h - y - 1];
                } else if self.r.chance(1, 10) {
                    c.i = vec![0, 0, w, h];
                } else if self.r.chance(2, if self.large() { 3 } else { 8 }) {
                    // most of the image
                    let (x, y) = (self.r.range(0, (w - 1).min(9)), self.r.range(0, (h - 1).min(9)));
                    c.i = vec![x, y, w - x - self.r.range(0, (w - x - 1).min(9)), h - y - self.r.range(0, (h - y - 1).min(9))];
                }
            }
            "superimpose" | "overlay" => {
                let k = if op == "superimpose" { self.im(F32, L_ANY) } else { self.im_any() };
                let l = self.im_like(k);
                let (w, h) = (self.images[k].w as i64, self.images[k].h as i64);
                c.im = vec![k, l];
                c.i = vec![self.r.range(0, w), self.r.range(0, h)];
                c.f = vec![self.f(0.0, 1.0)];
            }
            "scale" | "scale_lanczos" => {
                let k = self.im(F32, L_ANY);
                let (w, h) = (self.images[k].w, self.images[k].h);
                c.im = vec![k];
                let hi = if w * h > 2000 { 1.3 } else { 3.0 };
                let (mut a, mut b) = (self.f(0.2, hi), self.f(0.2, hi));
                if self.r.chance(1, 4) {
                    a = *self.r.pick(&[0.5, 1.0, 1.0, 2.0, 0.25]);
                    b = *self.r.pick(&[0.5, 1.0, 2.0]);
                }
                if self.unusual() {
                    a = -a;
                }
                // (an output without pixels is of no interest)
                if (w as f32 * a) < 1.0 && a > 0.0 {
                    a = 1.0;
                }
                if (h as f32 * b) < 1.0 {
                    b = 1.0;
                }
                c.f = vec![a, b];
                c.i = vec![if op == "scale" { self.r.range(0, 3) } else { self.r.range(1, 5) }];
            }
            "translate" => {
                let k = self.im_any();
                let (w, h) = (self.images[k].w as i64, self.images[k].h as i64);
                c.im = vec![k];
                c.i = vec![self.r.range(0, w + 1), self.r.range(0, h + 1)];
            }
            "rotate" => {
                c.im = vec![self.im(F32, L_ANY)];
                c.f = vec![if self.r.chance(1, 3) { *self.r.pick(&[0.0, 90.0, 180.0, 270.0, 45.0, -90.0]) } else { self.f(-360.0, 360.0) }];
            }
            "reflect" => {
                c.im = vec![self.im_any()];
                c.i = vec![self.r.range(0, 1)];
            }
            "shear" => {
                c.im = vec![self.im(F32, L_ANY)];
                c.f = vec![self.f(-1.0, 1.0), self.f(-1.0, 1.0)];
            }
            "filter_1d" => {
                c.im = vec![self.im(F32, L_ANY)];
                let n = self.klen();
                c.k = self.kernel1(n);
                c.i = vec![self.r.range(0, 1)];
            }
            "separable_filter" | "derivative_mask" => {
                c.im = vec![self.im(F32, if op == "separable_filter" { L_ANY } else { L_GRAY })];
                let n = self.klen();
                c.k = self.kernel1(n);
                let m = if self.unusual() { self.klen() } else { n };
                c.k2 = self.kernel1(m);
            }
            "unseparable_filter" | "linear_filter" => {
                c.im = vec![self.im(F32, L_ANY)];
                c.k = self.kernel2();
            }
            "box_filter" => {
                c.im = vec![self.im(F32, L_ANY)];
                c.i = vec![self.odd_size().max(1)];
            }
            "weighted_avg_filter" => {
                c.im = vec![self.im(F32, L_ANY)];
                c.i = vec![self.odd_size().max(1), self.r.range(1, 9)];
            }
            "gaussian_blur" | "laplacian_of_gaussian" => {
                c.im = vec![self.im(F32, if op == "gaussian_blur" { L_ANY } else { L_GRAY })];
                c.i = vec![self.odd_size().max(1)];
                c.f = vec![self.f(0.4, 4.0)];
            }
            "sharpen" | "unsharp_masking" => c.im = vec![self.im(F32, L_ANY)],
            "prewitt" | "sobel" | "laplacian" | "normalize_laplacian" => c.im = vec![self.im(F32, L_GRAY)],
            "sobel_weighted" => {
                c.im = vec![self.im(F32, L_GRAY)];
                c.i = vec![self.r.range(1, 9)];
            }
            "threshold" => {
                c.im = vec![self.im(F32, L_GRAY)];
                c.f = vec![self.f(0.0, 255.0), 255.0];
                c.i = vec![self.r.range(0, 4)];
            }
            "residual" => {
                let k = self.im_any();
                c.im = vec![k, self.im_like(k)];
            }
            "median_filter" => {
                c.im = vec![self.im(U8, L_ANY)];
                c.i = vec![self.r.range(0, 4)];
            }
            "alpha_trimmed_mean_filter" => {
                c.im = vec![self.im(U8, L_ANY)];
                c.i = vec![self.r.range(1, 3), if self.unusual() { self.r.range(0, 60) } else { 2 * self.r.range(1, 4) }];
            }
            "bilateral_filter" => {
                let k = self.im(U8, L_RGB);
                let big = self.images[k].w * self.images[k].h > 1000;
                c.im = vec![k];
                c.f = vec![if self.unusual() { -1.0 } else { self.f(1.0, 60.0) }, if big { 0.6 } else { *self.r.pick(&[0.5, 0.75, 1.0, 1.5, 2.0]) }];
            }
            "gaussian_kernel" | "log_kernel" => {
                c.i = vec![self.odd_size()];
                c.f = vec![self.f(0.3, 4.0)];
            }
            "spatial_mat" => {
                c.i = vec![self.r.range(1, 9)];
                c.f = vec![self.f(0.3, 4.0)];
            }
            "separate_kernel" => {
                let n = *self.r.pick(&[1, 3, 5]);
                let (a, b) = (self.kernel1(n), self.kernel1(n));
                c.k = if self.r.chance(1, 3) { self.kernel1(n * n) } else { a.iter().flat_map(|x| b.iter().map(move |y| x * y)).collect() };
            }
            "vector_mul" => {
                let n = self.r.range(1, 5) as usize;
                let m = self.r.range(1, 5) as usize;
                c.k = self.kernel1(n * m);
                c.k2 = self.kernel1(n);
            }
            "vector_mul_mut" => {
                let n = self.r.range(1, 6) as usize;
                c.k = self.kernel1(n * n);
                c.k2 = self.kernel1(n);
                c.i = vec![self.r.range(0, 12)];
                c.f = vec![self.f(-3.0, 3.0)];
            }
            "summed_area_table" => c.im = vec![self.im(F32, L_ANY)],
            "rect_sum" => {
                let k = self.im(F32, L_ANY);
                let (w, h) = (self.images[k].w as i64, self.images[k].h as i64);
                c.im = vec![k];
                let (x, y) = (self.r.range(0, w - 1), self.r.range(0, h - 1));
                c.i = vec![x, y, self.r.range(x, w - 1), self.r.range(y, h - 1)];
            }
            "histogram_percentiles" => {
                c.im = vec![self.im(F32, L_ANY)];
                c.f = vec![*self.r.pick(&[1.0, 10.0, 255.0])];
            }
            "lookup_table" => c.f = vec![self.f(0.0, 3.0)],
            "math" => {
                c.f = vec![self.f(-3.0, 3.0), self.f(-3.0, 3.0)];
                c.i = (0..4).map(|_| self.r.range(0, 300)).collect();
            }
            "img_map" | "img_map_alpha" => {
                c.im = vec![self.im_any()];
                c.i = vec![self.r.range(0, 255)];
            }
            "img_map_pixels" | "img_map_pixels_alpha" | "img_apply" | "img_iter" => c.im = vec![self.im(U8, L_ANY)],
            "img_edit" => {
                let k = self.im(U8, L_ANY);
                c.im = vec![k];
                c.i = vec![self.r.range(0, 3), self.r.range(0, self.images[k].c as i64 - 1)];
            }
            "img_sub" => {
                let k = self.im(U8, L_ANY);
                let (w, h) = (self.images[k].w as i64, self.images[k].h as i64);
                c.im = vec![k];
                let (x, y) = (self.r.range(0, w - 1), self.r.range(0, h - 1));
                let n = if self.unusual() { 2 } else { 0 };
                c.i = vec![x, y, self.r.range(1, w - x + n), self.r.range(1, h - y + n)];
                if n == 0 && self.r.chance(1, if self.large() { 2 } else { 5 }) {
                    let (x, y) = (self.r.range(0, (w - 1).min(9)), self.r.range(0, (h - 1).min(9)));
                    c.i = vec![x, y, w - x - self.r.range(0, (w - x - 1).min(9)), h - y - self.r.range(0, (h - y - 1).min(9))];
                }
            }
            "img_near" => {
                let k = self.im(U8, L_ANY);
                let (w, h) = (self.images[k].w as i64, self.images[k].h as i64);
                c.im = vec![k];
                c.i = vec![self.r.range(0, w - 1), self.r.range(0, h - 1), *self.r.pick(&[1, 3, 5]), self.r.range(0, 2)];
            }
            "img_blank" => c.i = vec![self.r.range(1, 20), self.r.range(1, 20), self.r.range(1, 4), self.r.range(0, 1)],
            "img_raw" => {
                let was = self.malformed;
                self.malformed = self.malformed.max(50);
                let k = self.im(U8, L_ANY);
                self.malformed = was;
                c.im = vec![k];
                c.i = vec![self.r.range(0, 1 << 40), self.r.range(1, 12)];
            }
            "img_from" => {
                let (w, h, n) = (self.r.range(1, 6), self.r.range(1, 6), self.r.range(1, 5));
                c.i = vec![w, h, n, self.r.range(0, 1 << 40)];
                let like = self.r.below(4);
                let by = self.r.range(0, n + 2);
                let at = self.r.range(0, w * h - 1);
                for k in 0..w * h {
                    c.i.push(match like {
                        0 => n,
                        1 => by,
                        2 => if k == at { by } else { n },
                        _ => self.r.range(0, n + 2),
                    });
                }
                if self.r.chance(1, 4) {
                    c.i.truncate(4 + self.r.usize((w * h) as usize));
                }
            }
            "cb" => return self.cb(),
            "store" => return self.store(8),
            "probe_panic" => {}
            _ => panic!("no such operation: {}", op),
        }
        c
    }

    /// A call much like `c`: another argument or another image of the same kind.
    pub fn vary(&mut self, c: &Call) -> Call {
        let mut n = self.call(&c.op);
        if c.op == "cb" || c.op == "store" {
            return n;
        }
        match self.r.below(6) {
            0 if !c.im.is_empty() => {
                // same arguments, another image with the same dimensions
                let mut d = c.clone();
                let at = self.r.usize(c.im.len());
                let s = self.images[c.im[at]].clone();
                let fill = self.fill(s.ty);
                d.im[at] = self.add_fill(s.ty, (s.c, s.a), (s.w, s.h), fill);
                d
            }
            2 if !c.im.is_empty() => {
                // same arguments, nearly the same image: one element differs, or the dimensions or the
                // alpha flag do while the data stays
                let mut d = c.clone();
                let at = self.r.usize(c.im.len());
                let mut s = self.images[c.im[at]].clone();
                match self.r.below(5) {
                    0 => (s.w, s.h) = (s.h, s.w),
                    1 => s.a = !s.a,
                    2 if s.w % 2 == 0 => (s.w, s.h) = (s.w / 2, s.h * 2),
                    _ => {
                        let n = s.len() as u32;
                        s.poke = match self.r.below(4) {
                            0 => n.max(1),
                            1 => n.max(2) - 1,
                            _ => 1 + self.r.below(n.max(1) as u64) as u32,
                        };
                    }
                }
                self.images.push(s);
                d.im[at] = self.images.len() - 1;
                d
            }
            3 if !c.f.is_empty() || !c.i.is_empty() || !c.k.is_empty() => {
                // nearly the same arguments
                let mut d = c.clone();
                let which = self.r.below(3);
                if which == 0 && !c.k.is_empty() {
                    let at = self.r.usize(d.k.len());
                    d.k[at] = self.near(d.k[at]);
                } else if (which == 1 || c.f.is_empty()) && !c.i.is_empty() && !matches!(c.op.as_str(), "rect_sum" | "img_sub" | "img_near" | "img_edit" | "img_blank" | "img_raw" | "img_from") {
                    let at = self.r.usize(d.i.len());
                    let by = *self.r.pick(&[-1, 1, -2, 2]);
                    d.i[at] = if d.i[at] >= 0 { (d.i[at] + by).max(0) } else { d.i[at] + by };
                } else if !c.f.is_empty() {
                    let at = self.r.usize(d.f.len());
                    d.f[at] = self.near(d.f[at]);
                }
                d
            }
            1 => {
                // same images, other arguments (which may not fit: that is a call, too)
                n.im = c.im.clone();
                if n.op == "crop" || n.op == "rect_sum" || n.op == "img_sub" || n.op == "img_near" || n.op == "img_edit" {
                    n.i = c.i.iter().map(|x| self.r.range(0, *x)).collect();
                    if n.op == "img_near" {
                        n.i[2] = 1 + 2 * (n.i[2] / 2);
                    }
                    if n.op == "rect_sum" {
                        n.i[2] = c.i[2];
                        n.i[3] = c.i[3];
                    }
                }
                if n.op == "scale" || n.op == "scale_lanczos" {
                    n.f = c.f.iter().map(|x| if *x < 1.0 { 1.0 } else { *x * 0.75 + 0.25 }).collect();
                }
                if n.op.starts_with("bilateral") {
                    n.f[1] = c.f[1];
                }
                n
            }
            _ => n,
        }
    }

    // ---- callbacks ---------------------------------------------------------------------------

    pub fn cb(&mut self) -> Call {
        let d = if self.r.chance(1, 150) {
            let (a, b) = (self.r.range(250, 300) as u32, self.r.range(1, 3) as u32);
            if self.r.chance(1, 2) { (a, b) } else { (b, a) }
        } else if self.r.chance(1, 12) { (self.r.range(8, 40) as u32, self.r.range(4, 20) as u32) } else { (self.r.range(1, 7) as u32, self.r.range(1, 5) as u32) };
        let lay = *self.r.pick(&[(1, false), (2, true), (3, false), (4, true), (4, true), (2, true), (3, true), (2, false), (5, true), (4, false)]);
        let k = self.add(Ty::U8, lay, d);
        self.images[k].extra = 0;
        let method = *self.r.pick(&["apply_pixels", "apply_pixels_if_alpha", "apply_channels", "apply_channels_if_alpha", "edit_channel",
            "map_pixels", "map_pixels_if_alpha", "map_channels", "map_channels_if_alpha"]);
        let arg = if method == "edit_channel" { self.r.range(0, lay.0 as i64 - 1) } else { self.r.range(1, 5) };
        let mut i = vec![0, 0, 0, self.r.range(0, 3), self.r.range(0, 1), arg, self.r.range(0, 3), self.r.range(0, 3)];
        let spec = store::CbSpec::of(method, &i);
        let s = &self.images[k];
        let st = Store { w: s.w, h: s.h, c: s.c, a: s.a, d: s.u8s().iter().map(|x| *x as f64).collect() };
        let n = store::total_calls(&spec, &st) as i64;
        let at = match self.r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => self.r.range(0, n - 1),
        };
        match self.r.below(10) {
            0 | 1 => {}
            2..=6 => {
                i[0] = 1;
                i[1] = at;
            }
            _ if method.contains("pixels") && !method.starts_with("map") => {
                i[0] = 2;
                // (mostly not at a call for an alpha channel)
                i[1] = if spec.if_alpha() && lay.1 && self.r.chance(3, 4) { at & !1 } else { at };
                i[2] = *self.r.pick(&[-1, 1, 2, -2, 3, -3, lay.0 as i64]);
            }
            _ => {
                i[0] = 1;
                i[1] = at;
            }
        }
        i.push(*self.r.pick(&[0, 0, 1, 2, 3]));
        i.push(if self.r.chance(1, 4) { 1 + self.r.range(0, n - 1) } else { 0 });
        i.push(self.r.range(0, 30));
        Call { op: "cb".into(), im: vec![k], i, s: method.to_string(), ..Call::default() }
    }

    // ---- histories ---------------------------------------------------------------------------

    pub fn store(&mut self, max: usize) -> Call {
        let d = match self.r.below(12) {
            0 => match self.r.below(12) {
                0 => (self.r.range(1, 3) as u32, self.r.range(250, 700) as u32),
                1 => (self.r.range(250, 700) as u32, self.r.range(1, 3) as u32),
                2 => (self.r.range(250, 300) as u32, self.r.range(220, 300) as u32),
                _ => (self.r.range(10, 40) as u32, self.r.range(10, 40) as u32),
            },
            1 => (self.r.range(1, 70) as u32, 1),
            2 => (1, self.r.range(1, 70) as u32),
            _ => (self.r.range(1, 8) as u32, self.r.range(1, 8) as u32),
        };
        let lay = *self.r.pick(L_ANY);
        let k = self.add(Ty::U8, lay, d);
        self.images[k].extra = 0;
        let (w, h, c) = (d.0 as i64, d.1 as i64, lay.0 as i64);
        let n = 1 + self.r.usize(max);
        let mut hs = Vec::new();
        // a history prefers some kinds of operation
        let bias = self.r.below(4);
        for _ in 0..n {
            let r = &mut self.r;
            let out = r.chance(1, 12);
            // coordinates, sometimes outside
            let (mut x, mut y) = (r.range(0, w - 1), r.range(0, h - 1));
            if out {
                match r.below(6) {
                    0 => x = w,
                    1 => y = h,
                    2 => x = w + r.range(0, 5),
                    3 => y = h + r.range(0, 5),
                    4 => x = u32::MAX as i64,
                    _ => y = u32::MAX as i64,
                }
            }
            let delta = if r.chance(1, 12) { *r.pick(&[-1, 1, 2, -2]) } else { 0 };
            let delta = if c + delta < 0 { 0 } else { delta };
            let (s1, s2) = (r.range(0, 1 << 30), r.range(0, 3));
            let idx = if out { *r.pick(&[w * h, w * h + 1, w * h + 7]) } else { r.range(0, w * h - 1) };
            let pick = match bias {
                0 => r.below(8),
                1 => 8 + r.below(12),
                _ => r.below(24),
            };
            let (k, a): (&str, Vec<i64>) = match pick {
                0 | 1 => ("set", vec![x, y, s1, delta]),
                2 | 3 => ("seti", vec![idx, s1, delta]),
                4 => ("imut", vec![idx, s1]),
                5 => ("getmut", vec![x, y, s1]),
                6 => ("getmutu", vec![r.range(0, w - 1), r.range(0, h - 1), s1]),
                7 => ("dmut", vec![if out { w * h * c + r.range(0, 4) } else { r.range(0, w * h * c - 1) }, s1]),
                8 => ("edit", vec![r.range(0, c - 1), s2]),
                9 => ("apc", vec![s2]),
                10 => ("apca", vec![s2, s2 & 1]),
                11 => ("app", vec![s2]),
                12 => ("appa", vec![s2, s2 & 1]),
                13 => ("mapc", vec![s2]),
                14 => ("mapca", vec![s2, s2 & 1]),
                15 => ("mapp", vec![s2]),
                16 => ("mappa", vec![s2, s2 & 1]),
                17 => ("clone", vec![]),
                18 => ("conv", vec![]),
                19 => ("remake", vec![s2]),
                20 => ("get", vec![x, y]),
                21 => {
                    let (xx, yy) = (r.range(0, w - 1), r.range(0, h - 1));
                    let e = if out { r.range(1, 3) } else { 0 };
                    let (mut sw, mut shh) = (r.range(1, w - xx), r.range(1, h - yy));
                    if r.chance(1, 2) { sw = sw.max(w - xx) + e } else { shh = shh.max(h - yy) + e }
                    ("sub", vec![xx, yy, sw, shh])
                }
                22 => ("n1", vec![x, y, *r.pick(&[1, 3, 5, 7]), r.range(0, 1)]),
                _ => ("n2", vec![x, y, *r.pick(&[1, 3, 5])]),
            };
            hs.push(HOp { k: k.to_string(), a });
        }
        let ty = if self.r.chance(1, 2) { self.r.range(0, 3) } else { self.r.range(0, 8) };
        let i = vec![ty + *self.r.pick(&[0, 0, 16]), self.r.range(0, 3), *self.r.pick(&[1, 1, 2, 4]), if self.r.chance(1, 4) { self.r.range(1, 3) } else { 0 }];
        Call { op: "store".into(), im: vec![k], i, h: hs, ..Call::default() }
    }
}

// ---- environments and schedules --------------------------------------------------------------

pub fn env(r: &mut Rng) -> Env {
    Env {
        heap: Heap {
            seed: r.next(),
            reuse: r.chance(2, 3),
            odd: r.chance(1, 2),
            efence: *r.pick(&[0, 0, 0, 16, 64]),
            shadow: false,
            points: r.chance(1, 4),
        },
        hash_seed: r.next(),
        ncpu: *r.pick(&[1, 2, 2, 3, 4, 4, 8]),
        cpu: 1,
        clock0: *r.pick(&[1_000_000_000, 1_600_000_000_000_000_000, 2_147_483_647_000_000_000, 3_000_000_000_000_000_000]),
        clock_jumps: r.chance(1, 3),
        vars: Vec::new(),
    }
}

/// A schedule for a run expected to take about `s` steps.
pub fn sched(r: &mut Rng, s: u64) -> Sched {
    let s = s.max(2000);
    let mut c = Sched { seed: r.next(), fair: 300_000, budget: s * 30 + 60_000_000, ..Sched::default() };
    // about this many switches in the run
    let want = 4u64 << r.below(10);
    c.mean = (s / want).max(20);
    c.spurious_ppm = *r.pick(&[0, 0, 10_000, 100_000]);
    match r.below(10) {
        0..=5 => {
            c.policy = 1;
            c.conflict_ppm = *r.pick(&[0, 200, 2_000, 20_000]);
            c.sync_ppm = *r.pick(&[0, 1_000, 10_000, 100_000]);
        }
        6..=8 => {
            c.policy = 2;
            c.pct_depth = 1 + r.below(6) as u32;
            c.pct_len = s;
        }
        _ => {
            c.policy = 3;
            c.quantum = c.mean;
        }
    }
    c
}

pub fn pool_size(r: &mut Rng) -> u32 {
    *r.pick(&[1, 1, 2, 2, 3, 4, 5, 8])
}
pub fn ctx(r: &mut Rng, pools: usize) -> Ctx {
    if pools == 0 {
        return *r.pick(&[Ctx::Plain, Ctx::Plain, Ctx::Threads]);
    }
    let p = r.usize(pools);
    match r.below(9) {
        0 => Ctx::Plain,
        1 | 2 | 3 => Ctx::InPool(p),
        4 | 5 => Ctx::Join(p),
        6 => Ctx::Scope(p),
        7 => Ctx::Iter(p),
        _ => Ctx::Threads,
    }
}
fn wait(r: &mut Rng) -> u64 {
    if r.chance(3, 4) { 0 } else { r.below(2000) }
}
fn step(ctx: Ctx, calls: Vec<Call>) -> Step {
    Step { ctx, calls, wait_us: 0 }
}

fn base(prop: &str, kind: &str, variant: Variant) -> Scenario {
    Scenario { prop: prop.into(), kind: kind.into(), variant, env: Env::default(), images: vec![], files: vec![], pools: vec![],
        threads: vec![], disk: Disk::default(), sched: Sched::default() }
}

// ---- the properties --------------------------------------------------------------------------

pub fn scenario(prop: &str, seed: u64, idx: u64) -> Scenario {
    let mut r = Rng::new(mix(seed ^ hash_bytes(prop.as_bytes())).wrapping_add(mix(idx.wrapping_add(0x1234))));
    let mut s = match prop {
        "C01" => c01(&mut r),
        "C02" => c02(&mut r),
        "C03" => c03(&mut r),
        "C04" => c04(&mut r),
        "C05" => c05(&mut r),
        "C06" => c06(&mut r),
        "C07" => c07(&mut r),
        "C08" => c08(&mut r),
        "C09" => c09(&mut r),
        "C10" => c10(&mut r),
        "C11" => c11(&mut r),
        "C12" => c12(&mut r),
        "C13" => c13(&mut r),
        "C14" => c14(&mut r),
        "C15" => c15(&mut r),
        "C16" => c16(&mut r),
        _ => panic!("no such property"),
    };
    // (large files in tiny pieces take too long)
    if s.disk.chunk != 0 && s.images.iter().any(|m| m.len() > 300_000) {
        s.disk.chunk = s.disk.chunk.max(4096);
        s.disk.eintr_ppm = s.disk.eintr_ppm.min(200_000);
    }
    s
}

/// Threads calling operations in all sorts of contexts.
fn par_threads(r: &mut Rng, g: &mut G, pools: usize, nthreads: usize, max_steps: usize, max_calls: usize, ops: &[&str]) -> Vec<Vec<Step>> {
    // often everybody uses the same few operations; now and then there are many calls in one pool
    let few: Vec<&str> = (0..1 + r.usize(2)).map(|_| *r.pick(ops)).collect();
    let many = r.chance(1, 3);
    let ops: &[&str] = if if many { r.chance(1, 4) } else { r.chance(1, 2) } { ops } else { &few };
    let sz = g.sz;
    if many {
        g.sz = Sz::Tiny;
    }
    let mut t = Vec::new();
    let mut last: Option<Call> = None;
    for _ in 0..nthreads {
        let mut st = Vec::new();
        for _ in 0..1 + r.usize(max_steps) {
            let cx = ctx(r, pools);
            let n = match cx {
                Ctx::Plain | Ctx::InPool(_) => 1 + r.usize(max_calls.min(2)),
                _ if many => 3 + r.usize(6),
                _ => 1 + r.usize(max_calls),
            };
            let calls = (0..n).map(|_| {
                let c = match &last {
                    Some(c) if r.chance(1, 5) => g.vary(c),
                    _ => {
                        let op = *r.pick(ops);
                        g.call(op)
                    }
                };
                last = Some(c.clone());
                c
            }).collect();
            st.push(Step { ctx: cx, calls, wait_us: wait(r) });
        }
        t.push(st);
    }
    g.sz = sz;
    t
}

/// Operations that take many steps per pixel.
const HEAVY: &[&str] = &["box_filter", "weighted_avg_filter", "unsharp_masking", "separable_filter", "linear_filter", "bilateral_filter",
    "scale_lanczos", "median_filter", "alpha_trimmed_mean_filter", "histogram_equalization", "filter_1d", "unseparable_filter", "scale"];

const BIG_PAR: &[&str] = &["crop", "crop", "scale", "filter_1d", "separable_filter", "box_filter", "weighted_avg_filter", "unsharp_masking"];
const BIG_ANY: &[&str] = &["crop", "scale", "separable_filter", "box_filter", "brightness", "saturation", "rgb_to_grayscale", "translate", "reflect",
    "overlay", "superimpose", "threshold", "img_map", "img_map_pixels", "img_apply", "img_sub", "img_iter", "img_blank", "histogram_percentiles",
    "histogram_equalization", "summed_area_table", "into_f32", "into_u8", "gamma", "contrast", "erode", "rgb_to_hsv", "u8_to_f32_scale"];

/// A call or two with large images.
fn big(r: &mut Rng, prop: &str, variants: &[Variant], ops: &[&str]) -> Scenario {
    let v = *r.pick(variants);
    let mut s = base(prop, "big", v);
    let sz = *r.pick(&[Sz::Big, Sz::Big, Sz::Mid, Sz::Mid, Sz::Mid, Sz::Long]);
    let mut g = G::new(Rng::new(r.next()), sz);
    g.empty = prop != "C01" && prop != "C16";
    s.env = env(r);
    s.env.cpu = *r.pick(&[0, 1, 2, 3]);
    if v == Variant::Par && r.chance(2, 3) {
        s.pools.push(pool_size(r));
    }
    let mut last: Option<Call> = None;
    for _ in 0..if prop == "C03" { 2 } else { 1 } {
        let mut st = Vec::new();
        for _ in 0..1 + r.usize(2) {
            let c = match &last {
                Some(c) if r.chance(1, 3) => g.vary(c),
                _ => {
                    let op = *r.pick(ops);
                    g.call(op)
                }
            };
            last = Some(c.clone());
            st.push(step(if v == Variant::Par { ctx(r, s.pools.len()) } else { Ctx::Plain }, vec![c]));
        }
        s.threads.push(st);
    }
    s.images = g.images;
    s
}

fn c01(r: &mut Rng) -> Scenario {
    if r.chance(1, 40) {
        return big(r, "C01", &[Variant::Par], BIG_PAR);
    }
    let mut s = base("C01", "split", Variant::Par);
    let mut g = G::new(Rng::new(r.next()), Sz::Any);
    g.empty = false; // (rows of no pixels: not what this is about)
    g.malformed = if r.chance(1, 12) { 60 } else { 0 };
    s.env = env(r);
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
        s.pools.push(if r.chance(1, 16) { *r.pick(&[6, 9, 12, 16, 17]) } else { pool_size(r) });
    }
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    if n > 1 {
        g.sz = Sz::Small;
    }
    s.threads = par_threads(r, &mut g, s.pools.len(), n, 2, 3, PAR_OPS);
    s.images = g.images;
    s
}

fn c02(r: &mut Rng) -> Scenario {
    if r.chance(1, 40) {
        return big(r, "C02", &[Variant::Par], BIG_PAR);
    }
    let mut s = base("C02", "contexts", Variant::Par);
    let mut g = G::new(Rng::new(r.next()), if r.chance(1, 5) { Sz::Small } else { Sz::Tiny });
    s.env = env(r);
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
        s.pools.push(*r.pick(&[1, 1, 1, 2, 2, 3]));
    }
    let n = *r.pick(&[1, 2, 2, 3, 4, 6]);
    s.threads = par_threads(r, &mut g, s.pools.len(), n, 3, 5, PAR_OPS);
    s.images = g.images;
    s
}

fn c16(r: &mut Rng) -> Scenario {
    let mut s = base("C16", "failing", Variant::Par);
    let mut g = G::new(Rng::new(r.next()), if r.chance(1, 3) { Sz::Any } else { Sz::Small });
    g.empty = false; // (rows of no pixels: not what this is about)
    s.env = env(r);
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
        s.pools.push(pool_size(r));
    }
    let n = *r.pick(&[1, 2, 2, 3]);
    g.odd = 3;
    if n > 1 {
        g.sz = Sz::Small;
    }
    let few: Vec<&str> = (0..1 + r.usize(2)).map(|_| *r.pick(PAR_OPS)).collect();
    let ops: &[&str] = if r.chance(1, 2) { PAR_OPS } else { &few };
    // the failing operations
    g.malformed = 70;
    let mut t = par_threads(r, &mut g, s.pools.len(), n, 2, 3, ops);
    // and others on the same workers, at the same time and afterwards
    g.malformed = 0;
    let mut u = par_threads(r, &mut g, s.pools.len(), n, 2, 3, ops);
    if r.chance(1, 2) {
        for k in 0..n {
            t[k].append(&mut u[k]);
        }
    } else {
        t.append(&mut u);
    }
    s.threads = t;
    s.images = g.images;
    s
}

/// Calls of reading and writing on files of one's own, or reading of shared ones.
fn io_calls(r: &mut Rng, g: &mut G, files: &mut Vec<FileSpec>, own: &str, n: usize) -> Vec<Call> {
    let mut v: Vec<Call> = Vec::new();
    for k in 0..n {
        match r.below(4) {
            0 => {
                let fmt = *r.pick(FMTS);
                let im = std_image(r, g);
                let path = format!("/w/shared{}.{}", files.len(), fmt);
                if exec::encode(&g.images[im].img(), fmt).is_some() {
                    files.push(FileSpec::Enc { path: path.clone(), im, fmt: fmt.into() });
                }
                v.push(rd(&path));
            }
            1 => {
                let shared: Vec<String> = files.iter().map(|f| path_of(f).to_string()).collect();
                let p = if shared.is_empty() { "/w/none.png".to_string() } else { r.pick(&shared).clone() };
                v.push(rd(&p));
            }
            _ => {
                let mut im = std_image(r, g);
                let fmt = *r.pick(FMTS);
                let mut p = format!("{}{}{}.{}", *r.pick(&["/w/", "/w/", "/w/sub/", "sub/", "", "/tmp/"]), own, k, fmt);
                if let (Some(w), true) = (v.iter().rev().find(|c| c.op == "write"), r.chance(1, 2)) {
                    // over a file written before, often one of the same dimensions
                    p = w.s.clone();
                    if r.chance(3, 4) {
                        let mut d = g.images[w.im[0]].clone();
                        d.seed = r.next();
                        if r.chance(1, 3) {
                            d.poke = 1 + r.below(d.len() as u64) as u32;
                            d.seed = g.images[w.im[0]].seed;
                        }
                        g.images.push(d);
                        im = g.images.len() - 1;
                    }
                }
                v.push(wr(&p, im));
                if r.chance(2, 3) {
                    v.push(rd(&p));
                }
                if r.chance(1, 4) {
                    v.push(meddle(r, &p));
                    v.push(if r.chance(1, 3) { wr(&p, im) } else { rd(&p) });
                }
            }
        }
    }
    v
}
pub fn path_of(f: &FileSpec) -> &str {
    match f {
        FileSpec::Enc { path, .. } | FileSpec::Cut { path, .. } | FileSpec::Flip { path, .. } | FileSpec::Raw { path, .. } => path,
    }
}
fn rd(p: &str) -> Call {
    Call { op: "read".into(), s: p.into(), ..Call::default() }
}
fn wr(p: &str, im: usize) -> Call {
    Call { op: "write".into(), s: p.into(), im: vec![im], ..Call::default() }
}
/// The dimensions of an image without pixels.
fn nothing(r: &mut Rng) -> (u32, u32) {
    let n = r.range(0, 9) as u32;
    if r.chance(1, 2) { (0, n) } else { (n, 0) }
}
/// Somebody else changes the file.
fn meddle(r: &mut Rng, p: &str) -> Call {
    let i = vec![*r.pick(&[0, 0, 1, 2, 3, 4]), r.range(0, 1 << 20), 1 + r.range(0, 254)];
    Call { op: "meddle".into(), s: p.into(), i, ..Call::default() }
}
fn std_image(r: &mut Rng, g: &mut G) -> usize {
    let lay = *r.pick(L_STD);
    let d = match r.below(10) {
        1 if r.chance(1, 4) => nothing(r),
        0 if r.chance(1, 80) => (r.range(500, 720) as u32, r.range(500, 720) as u32),
        0 if r.chance(1, 20) => (r.range(254, 330) as u32, r.range(254, 330) as u32),
        0 => (r.range(60, 200) as u32, r.range(30, 120) as u32),
        1 => (r.range(100, 260) as u32, r.range(1, 3) as u32),
        2..=5 => (r.range(1, 6) as u32, r.range(1, 6) as u32),
        _ => (r.range(1, 40) as u32, r.range(1, 40) as u32),
    };
    let k = g.add(Ty::U8, lay, d);
    g.images[k].extra = 0;
    k
}

fn c03(r: &mut Rng) -> Scenario {
    if r.chance(1, 100) {
        return big(r, "C03", &[Variant::Def, Variant::Par, Variant::Plain], BIG_ANY);
    }
    let v = *r.pick(&[Variant::Def, Variant::Def, Variant::Par, Variant::Par, Variant::Plain]);
    let mut s = base("C03", "callers", v);
    let mut g = G::new(Rng::new(r.next()), Sz::Small);
    s.env = env(r);
    if v == Variant::Par && r.chance(2, 3) {
        s.pools.push(pool_size(r));
    }
    // now and then a crowd
    let crowd = r.chance(1, 10);
    let n = if crowd { 8 + r.usize(13) } else { *r.pick(&[2, 2, 3, 3, 4, 6]) };
    if crowd {
        g.sz = Sz::Tiny;
    }
    let all = all_ops();
    // often everybody uses the same few operations
    let few: Vec<&str> = (0..1 + r.usize(3)).map(|_| *r.pick(&all)).collect();
    let ops: &[&str] = match r.below(4) {
        0 => &all,
        1 => SIMD_OPS,
        _ => &few,
    };
    let mut files = Vec::new();
    for t in 0..n {
        let mut st: Vec<Step> = Vec::new();
        let mut last: Option<Call> = None;
        for _ in 0..1 + r.usize(if crowd { 2 } else { 4 }) {
            let c = match &last {
                Some(c) if r.chance(1, 3) => g.vary(c),
                _ => {
                    let op = *r.pick(ops);
                    g.call(op)
                }
            };
            last = Some(c.clone());
            let cx = if v == Variant::Par { ctx(r, s.pools.len()) } else { Ctx::Plain };
            let mut calls = vec![c];
            if !matches!(cx, Ctx::Plain) && r.chance(1, 2) {
                for _ in 0..1 + r.usize(4) {
                    let c = g.vary(&calls[0]);
                    calls.push(c);
                }
            }
            st.push(Step { ctx: cx, calls, wait_us: wait(r) });
        }
        if r.chance(1, 3) {
            let k = 1 + r.usize(2);
            for c in io_calls(r, &mut g, &mut files, &format!("t{}_", t), k) {
                let at = r.usize(st.len() + 1);
                // reads of what a thread wrote stay after the write
                if c.op == "read" && c.s.contains(&format!("t{}_", t)) { st.push(step(Ctx::Plain, vec![c])) } else { st.insert(at, step(Ctx::Plain, vec![c])) }
            }
        }
        if r.chance(1, 8) {
            st.insert(0, step(Ctx::Plain, vec![g.cb()]));
        }
        s.threads.push(st);
    }
    // shared inputs: threads repeat calls of others
    if r.chance(1, 2) {
        let c = s.threads[0][0].calls[0].clone();
        if c.op != "write" && c.op != "meddle" {
            for t in 1..n {
                let at = r.usize(s.threads[t].len() + 1);
                s.threads[t].insert(at, step(Ctx::Plain, vec![c.clone()]));
            }
        }
    }
    s.files = files;
    s.images = g.images;
    let io = s.threads.iter().flatten().any(|x| matches!(x.calls[0].op.as_str(), "read" | "write"));
    if io && r.chance(1, 3) {
        // one of the callers meets storage faults
        let t = r.usize(n) as i32;
        place_faults(r, &mut s, Some(&|thr, _| thr == t));
        s.disk.capacity = 0;
    } else if io && r.chance(1, 2) {
        benign(r, &mut s.disk);
    }
    s
}

fn c04(r: &mut Rng) -> Scenario {
    if r.chance(1, 100) {
        return big(r, "C04", &[Variant::Def, Variant::Par, Variant::Plain], BIG_ANY);
    }
    let v = *r.pick(&[Variant::Def, Variant::Def, Variant::Par, Variant::Plain]);
    let kind = *r.pick(&["mixed", "mixed", "related", "related", "long", "wrap"]);
    let mut s = base("C04", kind, v);
    let mut g = G::new(Rng::new(r.next()), if kind == "long" || kind == "wrap" { Sz::Tiny } else { Sz::Small });
    s.env = env(r);
    if v == Variant::Par && r.chance(1, 2) {
        s.pools.push(pool_size(r));
    }
    let all = all_ops();
    let mut files = Vec::new();
    let mut calls: Vec<Call> = Vec::new();
    match kind {
        "long" => {
            // a few different calls, many times
            let mut set: Vec<Call> = Vec::new();
            for _ in 0..1 + r.usize(5) {
                let op = *r.pick(&all);
                let c = g.call(op);
                if r.chance(1, 2) {
                    set.push(g.vary(&c));
                }
                set.push(c);
            }
            let n = *r.pick(&[20, 60, 150, 300, 1100]);
            for _ in 0..n {
                calls.push(r.pick(&set).clone());
            }
        }
        "wrap" => {
            // calls that return after as many others as a small counter takes to come round
            let op = *r.pick(&all);
            let first: Vec<Call> = (0..3).map(|_| g.call(op)).collect();
            let other = g.call(op);
            let n = *r.pick(&[256, 256, 256, 128, 512]);
            calls = vec![other; n + 4];
            for (k, c) in first.iter().enumerate() {
                let mut again = g.vary(c);
                for _ in 0..6 {
                    if again.im == c.im && again != *c {
                        break;
                    }
                    again = g.vary(c);
                }
                calls[k] = c.clone();
                calls[n - 1 + 2 * k] = again;
            }
        }
        _ => {
            let few: Vec<&str> = (0..1 + r.usize(3)).map(|_| *r.pick(&all)).collect();
            let mut last: Option<Call> = None;
            for _ in 0..3 + r.usize(12) {
                if r.chance(1, 8) {
                    // something that fails first
                    g.malformed = 100;
                    g.odd = 50;
                }
                let c = match (&last, r.below(10)) {
                    (Some(c), 0..=4) => g.vary(c),
                    (Some(_), 5) => calls[r.usize(calls.len())].clone(),
                    (_, 6) => g.cb(),
                    (_, 7) if kind == "mixed" => Call { op: "probe_panic".into(), ..Call::default() },
                    _ => {
                        let op = if kind == "related" { *r.pick(&few) } else { *r.pick(&all) };
                        g.call(op)
                    }
                };
                g.malformed = 0;
                g.odd = 6;
                if c.op != "cb" && c.op != "probe_panic" {
                    last = Some(c.clone());
                }
                calls.push(c);
            }
            if r.chance(1, 2) {
                let k = 1 + r.usize(3);
                let extra = io_calls(r, &mut g, &mut files, "h", k);
                let at = r.usize(calls.len() + 1);
                for (k, c) in extra.into_iter().enumerate() {
                    calls.insert(at + k, c);
                }
            }
            // end by repeating some of the earlier calls
            for _ in 0..2 {
                let c = calls[r.usize(calls.len())].clone();
                calls.push(c);
            }
        }
    }
    let mut th: Vec<Step> = Vec::new();
    for c in calls {
        let cx = if kind == "wrap" { Ctx::Plain } else if v == Variant::Par && r.chance(1, 3) { ctx(r, s.pools.len()) } else if r.chance(1, 12) { Ctx::Threads } else { Ctx::Plain };
        // (I/O faults are placed by step, and contexts with threads keep that)
        th.push(step(cx, vec![c]));
    }
    // storage faults in the earlier part
    let io: Vec<usize> = (0..th.len()).filter(|k| matches!(th[*k].calls[0].op.as_str(), "read" | "write")).collect();
    if !io.is_empty() && r.chance(2, 3) {
        for _ in 0..1 + r.usize(2) {
            let k = *r.pick(&io);
            s.disk.faults.push(Fault { thr: 0, step: k as i32, nth: r.range(0, 3), class: -1, act: FAct::Errno(*r.pick(&[5, 28, 13])), sticky: r.chance(1, 2) });
        }
    }
    if !io.is_empty() && r.chance(1, 4) {
        benign(r, &mut s.disk);
    }
    s.threads = vec![th];
    s.files = files;
    s.images = g.images;
    s
}

fn c05(r: &mut Rng) -> Scenario {
    let v = *r.pick(&[Variant::Def, Variant::Def, Variant::Def, Variant::Par]);
    let mut s = base("C05", "callbacks", v);
    let mut g = G::new(Rng::new(r.next()), Sz::Tiny);
    s.env = env(r);
    if r.chance(1, 5) {
        s.env.heap.shadow = true;
    }
    let n = 1 + r.usize(4);
    let calls: Vec<Call> = (0..n).map(|_| g.cb()).collect();
    if v == Variant::Par {
        s.pools.push(pool_size(r));
    }
    if r.chance(1, 6) {
        s.threads = calls.into_iter().map(|c| vec![step(if v == Variant::Par { Ctx::InPool(0) } else { Ctx::Plain }, vec![c])]).collect();
    } else {
        s.threads = vec![calls.into_iter().map(|c| step(if v == Variant::Par && r.chance(1, 2) { Ctx::InPool(0) } else { Ctx::Plain }, vec![c])).collect()];
    }
    s.images = g.images;
    s
}

fn c06(r: &mut Rng) -> Scenario {
    let v = *r.pick(&[Variant::Def, Variant::Def, Variant::Def, Variant::Par]);
    let mut s = base("C06", "histories", v);
    let mut g = G::new(Rng::new(r.next()), Sz::Tiny);
    s.env = env(r);
    if r.chance(1, 8) {
        s.env.heap.shadow = true;
    }
    for _ in 0..*r.pick(&[1, 1, 1, 2]) {
        let n = *r.pick(&[3, 8, 8, 20, 60]);
        let c = g.store(n);
        s.threads.push(vec![step(Ctx::Plain, vec![c])]);
    }
    s.images = g.images;
    s
}

fn c07(r: &mut Rng) -> Scenario {
    if r.chance(1, 100) {
        return big(r, "C07", &[Variant::Def, Variant::Par], SIMD_OPS);
    }
    let v = *r.pick(&[Variant::Def, Variant::Def, Variant::Def, Variant::Par]);
    let mut s = base("C07", "paths", v);
    let mut g = G::new(Rng::new(r.next()), Sz::Simd);
    s.env = env(r);
    let n = 1 + r.usize(3);
    s.env.cpu = *r.pick(&[0, 1, 1, 2, 2, 3]);
    if n == 1 && r.chance(2, 3) {
        s.env.cpu = 4;
    }
    let mut st = Vec::new();
    let mut last: Option<Call> = None;
    for _ in 0..1 + r.usize(6) {
        let c = match &last {
            Some(c) if r.chance(1, 3) => g.vary(c),
            _ => {
                let op = *r.pick(SIMD_OPS);
                g.call(op)
            }
        };
        last = Some(c.clone());
        st.push(step(Ctx::Plain, vec![c]));
    }
    s.threads = vec![Vec::new(); n];
    for (k, x) in st.into_iter().enumerate() {
        s.threads[k % n].push(x);
    }
    s.threads.retain(|t| !t.is_empty());
    s.images = g.images;
    s
}

fn c08(r: &mut Rng) -> Scenario {
    if r.chance(1, 100) {
        return big(r, "C08", &[Variant::Def, Variant::Par, Variant::Plain], BIG_ANY);
    }
    let v = *r.pick(&[Variant::Def, Variant::Par, Variant::Par, Variant::Plain]);
    let mut s = base("C08", "hosts", v);
    let mut g = G::new(Rng::new(r.next()), if r.chance(1, 2) { Sz::Any } else { Sz::Small });
    s.env = env(r);
    s.env.cpu = *r.pick(&[1, 0, 2, 3]);
    s.env.ncpu = *r.pick(&[1, 2, 3, 4, 5, 7, 8, 16, 32]);
    for _ in 0..r.usize(3) {
        let v = *r.pick(&[("RAYON_NUM_THREADS", "3"), ("RAYON_NUM_THREADS", "1"), ("RAYON_RS_NUM_CPUS", "2"), ("RUST_BACKTRACE", "1"),
            ("RUST_BACKTRACE", "full"), ("TZ", "Pacific/Auckland"), ("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("HOME", "/nonexistent"),
            ("TMPDIR", "/w/sub"), ("PATH", ""), ("OMP_NUM_THREADS", "1"), ("RUST_LIB_BACKTRACE", "1"), ("NO_COLOR", "1")]);
        s.env.vars.push((v.0.into(), v.1.into()));
    }
    if r.chance(1, 2) {
        s.env.vars.push(("?".into(), "1".into()));
    }
    if v == Variant::Par && r.chance(1, 2) {
        s.pools.push(pool_size(r));
    }
    let all = all_ops();
    let ops: &[&str] = if v == Variant::Par && r.chance(2, 3) { PAR_OPS } else { &all };
    let mut st = Vec::new();
    for _ in 0..1 + r.usize(3) {
        let op = *r.pick(ops);
        let c = g.call(op);
        let cx = if v == Variant::Par { ctx(r, s.pools.len()) } else { Ctx::Plain };
        st.push(Step { ctx: cx, calls: vec![c], wait_us: wait(r) });
    }
    if r.chance(1, 6) {
        let mut files = Vec::new();
        for c in io_calls(r, &mut g, &mut files, "e", 2) {
            st.push(step(Ctx::Plain, vec![c]));
        }
        s.files = files;
    }
    s.threads = vec![st];
    s.images = g.images;
    // what else there is on the host
    if s.files.is_empty() && r.chance(1, 2) {
        put_decoys(r, &mut s, true);
    }
    s
}

fn c15(r: &mut Rng) -> Scenario {
    if r.chance(1, 100) {
        return big(r, "C15", &[Variant::Def, Variant::Par, Variant::Plain], BIG_ANY);
    }
    let v = *r.pick(&[Variant::Def, Variant::Def, Variant::Par, Variant::Plain]);
    let mut s = base("C15", "heap", v);
    let mut g = G::new(Rng::new(r.next()), if r.chance(1, 2) { Sz::Simd } else { Sz::Small });
    g.malformed = 12;
    s.env = env(r);
    s.env.cpu = *r.pick(&[1, 1, 1, 0, 3]);
    s.env.heap.shadow = r.chance(1, 2);
    s.env.heap.efence = *r.pick(&[0, 1, 1, 2, 4, 16]);
    s.env.heap.odd = r.chance(3, 4);
    let all = all_ops();
    let mut st = Vec::new();
    for _ in 0..1 + r.usize(5) {
        let c = match r.below(6) {
            0 => {
                let op = *r.pick(SIMD_OPS);
                g.call(op)
            }
            1 => g.store(6),
            2 => g.cb(),
            _ => {
                let op = *r.pick(&all);
                g.call(op)
            }
        };
        st.push(step(Ctx::Plain, vec![c]));
    }
    if r.chance(1, 8) {
        let mut files = Vec::new();
        for c in io_calls(r, &mut g, &mut files, "m", 2) {
            st.push(step(Ctx::Plain, vec![c]));
        }
        s.files = files;
    }
    s.threads = vec![st];
    s.images = g.images;
    s
}

// ---- storage ----------------------------------------------------------------------------------

/// Formats that store the layout exactly and whose reader gives it back.
pub fn lossless(i: &ImgSpec) -> Vec<&'static str> {
    let all: &[&str] = match (i.c, i.a) {
        (1, false) => &["png", "pgm", "pam", "tif", "tga"],
        (2, true) => &["png", "tga"],
        (3, false) => &["png", "ppm", "pam", "bmp", "tif", "tga"],
        (4, true) => &["png", "bmp", "tif", "tga", "ico"],
        _ => &[],
    };
    all.iter().copied().filter(|f| match *f {
        "ico" => (1..=256).contains(&i.w) && (1..=256).contains(&i.h),
        "png" | "tga" | "bmp" | "tif" => i.w > 0 && i.h > 0,
        _ => true,
    }).collect()
}
fn spell(r: &mut Rng, fmt: &str) -> String {
    let e = match fmt {
        "tif" if r.chance(1, 2) => "tiff".to_string(),
        "jpg" if r.chance(1, 2) => "jpeg".to_string(),
        f => f.to_string(),
    };
    if r.chance(1, 12) { e.to_uppercase() } else { e }
}
fn name(r: &mut Rng, k: usize, fmt: &str) -> String {
    let e = spell(r, fmt);
    match r.below(10) {
        0 => format!("rel{}.{}", k, e),
        1 => format!("/w/sub/f{}.{}", k, e),
        2 => format!("/w/a.b.c{}.{}", k, e),
        3 => format!("/w/sub/../n {}.{}", k, e),
        _ => format!("/w/f{}.{}", k, e),
    }
}

/// Now and then the names of files differ only in the extension.
fn one_stem(r: &mut Rng, s: &mut Scenario) {
    if !r.chance(1, 5) {
        return;
    }
    let mut new: Vec<(String, String)> = Vec::new();
    let calls = s.threads.iter().flatten().flat_map(|x| &x.calls).map(|c| c.s.clone());
    for p in calls.chain(s.files.iter().map(|f| path_of(f).to_string())) {
        let Some((_, e)) = p.rsplit_once('.') else { continue };
        let q = format!("/w/one.{}", e);
        if p.starts_with("/w/f") && p.matches('.').count() == 1 && new.iter().all(|n| n.0 != p && n.1 != q) {
            new.push((p, q));
        }
    }
    let change = |p: &mut String| {
        if let Some(n) = new.iter().find(|n| n.0 == *p) {
            *p = n.1.clone();
        }
    };
    s.threads.iter_mut().flatten().flat_map(|x| &mut x.calls).for_each(|c| change(&mut c.s));
    for f in &mut s.files {
        match f {
            FileSpec::Enc { path, .. } | FileSpec::Cut { path, .. } | FileSpec::Flip { path, .. } | FileSpec::Raw { path, .. } => change(path),
        }
    }
}

/// A write of an image to a format holding it exactly.
fn exact_write(r: &mut Rng, g: &mut G, k: usize) -> Call {
    loop {
        let im = std_image(r, g);
        let fmts = lossless(&g.images[im]);
        if fmts.is_empty() {
            continue;
        }
        let fmt = *r.pick(&fmts);
        let p = name(r, k, fmt);
        return wr(&p, im);
    }
}
/// Any write that must be accepted when storage works.
fn good_write(r: &mut Rng, g: &mut G, k: usize) -> Call {
    if r.chance(1, 5) {
        let im = std_image(r, g);
        let s = &g.images[im];
        if s.w == 0 || s.h == 0 {
            return exact_write(r, g, k);
        }
        let fmt = match (s.c, s.a) {
            (1, _) => *r.pick(&["jpg", "pbm"]),
            (3, _) => *r.pick(&["jpg", "gif"]),
            (4, _) => *r.pick(&["jpg", "gif"]),
            _ => "jpg",
        };
        let p = name(r, k, fmt);
        return wr(&p, im);
    }
    exact_write(r, g, k)
}
/// Earlier contents of a destination: nothing, an image (larger or smaller), or something else.
fn before(r: &mut Rng, g: &mut G, files: &mut Vec<FileSpec>, path: &str) {
    let ext = path.rsplit('.').next().unwrap_or("").to_lowercase();
    let fmt = match ext.as_str() {
        "tiff" => "tif",
        "jpeg" => "jpg",
        e => e,
    }.to_string();
    match r.below(4) {
        0 => {}
        1 => {
            let n = r.usize(3000);
            let b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
            files.push(FileSpec::Raw { path: path.to_string(), hex: hex(&b) });
        }
        _ => {
            let im = std_image(r, g);
            if exec::encode(&g.images[im].img(), &fmt).is_some() {
                files.push(FileSpec::Enc { path: path.to_string(), im, fmt });
            }
        }
    }
}
fn bystander(r: &mut Rng, g: &mut G, files: &mut Vec<FileSpec>) {
    if r.chance(1, 2) {
        let im = std_image(r, g);
        files.push(FileSpec::Enc { path: "/w/other.png".into(), im, fmt: "png".into() });
        files.push(FileSpec::Raw { path: "/w/sub/keep.txt".into(), hex: "6b656570".into() });
    }
}

/// The I/O operations of the scenario's calls when nothing fails: (thread, step, nth, class, bytes).
fn dry(s: &Scenario) -> Vec<(i32, i32, u32, u8, i64)> {
    let mut d = s.clone();
    d.disk = Disk::default();
    d.env = Env::default();
    d.sched = Sched::default();
    let r = exec::run(&d);
    r.out.trace.iter().filter(|t| t.0 >= 0).map(|t| (t.0, t.1, t.2, t.3, t.6)).collect()
}
/// Puts files where the calls would create others than the ones they are given: names a user's own
/// files may have.
fn decoys(r: &mut Rng, s: &mut Scenario) {
    put_decoys(r, s, false);
}
/// With `asked`, also where the calls only look.
fn put_decoys(r: &mut Rng, s: &mut Scenario, asked: bool) {
    if !r.chance(1, 3) {
        return;
    }
    let mut d = s.clone();
    d.disk = Disk::default();
    d.env = Env::default();
    d.sched = Sched::default();
    let names = |o: RunOut| -> Vec<String> {
        let mut v = o.touched;
        if asked {
            v.extend(o.trace.into_iter().filter(|t| t.0 >= 0).map(|t| simrt::fs::norm(&t.4)));
        }
        v
    };
    // (only names anybody can foresee: not those made from process id, time or chance)
    let again = |x: u64| {
        let mut d = d.clone();
        d.env.hash_seed ^= x;
        d.env.clock0 = d.env.clock0.wrapping_add(x << 40);
        names(exec::run(&d).out)
    };
    let (out, twice) = (names(exec::run(&d).out), again(0x5EED));
    let mut have: Vec<String> = s.files.iter().map(|f| simrt::fs::norm(path_of(f))).collect();
    have.extend(s.threads.iter().flatten().flat_map(|x| &x.calls).map(|c| simrt::fs::norm(&c.s)));
    let mut names: Vec<String> = out.into_iter().filter(|p| !p.is_empty() && !have.contains(p) && twice.contains(p)).collect();
    names.sort();
    names.dedup();
    for p in names {
        if !r.chance(2, 3) {
            continue;
        }
        // another image (a backup, an older version), something a program may look up, or anything
        let im = if s.images.is_empty() { 0 } else { r.usize(s.images.len()) };
        let fmt = match s.files.iter().find_map(|f| path_of(f).rsplit_once('.')) {
            Some((_, e)) if r.chance(2, 3) && FMTS.contains(&e) => e.to_string(),
            _ => r.pick(FMTS).to_string(),
        };
        let text = *r.pick(&["0\n", "1\n", "2\n", "8K\n", "48K\n", "1024K\n", "2097152\n", "100000 100000\n", "max 100000\n", "Ubuntu\n", "true\n",
            "processor\t: 0\nmodel name\t: none\nflags\t\t: fpu sse sse2\n", "MemTotal:       2048000 kB\nMemFree:         1024 kB\n", "0::/\n"]);
        // (what the kernel tells is in its own words: the standard library relies on that)
        let which = if ["/proc/", "/sys/", "/dev/"].iter().any(|d| p.starts_with(d)) { 1 } else { r.below(3) };
        if which == 0 && s.images.get(im).is_some_and(|x| x.ty == Ty::U8 && x.extra == 0 && exec::encode(&x.img(), &fmt).is_some()) {
            s.files.push(FileSpec::Enc { path: p, im, fmt });
        } else if which < 2 {
            s.files.push(FileSpec::Raw { path: p, hex: hex(text.as_bytes()) });
        } else {
            let b: Vec<u8> = (0..r.usize(300)).map(|_| r.below(256) as u8).collect();
            s.files.push(FileSpec::Raw { path: p, hex: hex(&b) });
        }
    }
}
fn hard_errno(r: &mut Rng, class: u8) -> i32 {
    match class {
        1 => *r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EIO, libc::EROFS, libc::ENFILE, libc::EPERM, libc::EDQUOT]),
        2 => *r.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::EISDIR]),
        3 => *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]),
        _ => libc::EIO,
    }
}
fn one_fault(r: &mut Rng, t: &(i32, i32, u32, u8, i64)) -> Fault {
    let mut f = Fault { thr: t.0, step: t.1, nth: t.2 as i64, class: -1, act: FAct::Errno(hard_errno(r, t.3)), sticky: r.chance(1, 2) };
    match (t.3, r.below(6)) {
        (2 | 3, 0) => {
            // a short transfer, then an error on the rest
            f.act = FAct::Limit(1 + r.usize(t.4.max(1) as usize));
            f.sticky = false;
        }
        (3, 1) => {
            f.act = FAct::Zero;
            f.sticky = false;
        }
        (1..=3, 2) => {
            f.act = FAct::Errno(libc::EINTR);
            f.sticky = false;
        }
        _ => {}
    }
    f
}
fn benign(r: &mut Rng, d: &mut Disk) {
    d.chunk = *r.pick(&[0, 1, 7, 64, 512, 5000]);
    d.chunk_seed = r.next();
    d.eintr_ppm = *r.pick(&[0, 20_000, 200_000, 500_000]);
}
/// Faults for a scenario whose calls are in place.
fn place_faults(r: &mut Rng, s: &mut Scenario, only: Option<&dyn Fn(i32, i32) -> bool>) {
    let t: Vec<_> = dry(s).into_iter().filter(|t| only.is_none_or(|f| f(t.0, t.1))).collect();
    if t.is_empty() {
        return;
    }
    match r.below(8) {
        0 => {
            let used: usize = exec::encode_files(s).iter().map(|f| f.1.len()).sum();
            let need: i64 = t.iter().filter(|t| t.3 == 3).map(|t| t.4).sum();
            s.disk.capacity = (used + r.usize(need.max(1) as usize + 10)).max(1);
        }
        1 => {
            // a transfer that is cut short and whose rest then fails
            let w: Vec<_> = t.iter().filter(|t| t.3 == 2 || t.3 == 3).copied().collect();
            if let Some(x) = (!w.is_empty()).then(|| *r.pick(&w)) {
                let first = if x.4 > 1 { 1 + r.usize(x.4 as usize - 1) } else { 1 };
                s.disk.faults.push(Fault { thr: x.0, step: x.1, nth: x.2 as i64, class: -1, act: FAct::Limit(first), sticky: false });
                let e = if r.chance(1, 5) { FAct::Zero } else { FAct::Errno(hard_errno(r, x.3)) };
                s.disk.faults.push(Fault { thr: x.0, step: x.1, nth: x.2 as i64 + 1, class: -1, act: e, sticky: r.chance(1, 2) });
            }
        }
        _ => {
            for _ in 0..1 + r.usize(2) {
                let x = *r.pick(&t);
                let f = one_fault(r, &x);
                s.disk.faults.push(f);
            }
        }
    }
    if r.chance(1, 4) {
        benign(r, &mut s.disk);
        // positions shift with chunks; aim also by class
        for f in s.disk.faults.iter_mut() {
            if r.chance(1, 2) {
                f.nth += r.range(0, 6);
            }
        }
    }
    // the end of a transfer is a favourite place: count from there
    if r.chance(1, 6) {
        let last = t.iter().filter(|t| t.3 == 3).next_back().copied();
        if let Some(x) = last {
            s.disk.faults = vec![Fault { thr: x.0, step: x.1, nth: x.2 as i64, class: -1, act: FAct::Errno(hard_errno(r, 3)), sticky: true }];
        }
    }
}

fn io_base(r: &mut Rng, prop: &str, kind: &str) -> (Scenario, G) {
    let v = *r.pick(&[Variant::Def, Variant::Def, Variant::Par]);
    let mut s = base(prop, kind, v);
    s.env = env(r);
    let g = G::new(Rng::new(r.next()), Sz::Small);
    (s, g)
}

fn c09(r: &mut Rng) -> Scenario {
    let (mut s, mut g) = io_base(r, "C09", "writes");
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let mut k = 0;
    for _ in 0..n {
        let mut st = Vec::new();
        let mut prev: Option<String> = None;
        for _ in 0..1 + r.usize(3) {
            let mut c = good_write(r, &mut g, k);
            k += 1;
            match &prev {
                // writing to the same name again (if the image fits its format)
                Some(p) if r.chance(1, 3) => {
                    let e = p.rsplit('.').next().unwrap().to_lowercase();
                    let im = &g.images[c.im[0]];
                    if lossless(im).contains(&e.as_str()) {
                        c.s = p.clone();
                    }
                }
                _ => {}
            }
            if r.chance(1, 20) {
                // an image without pixels, which not all formats hold
                let lay = *r.pick(L_STD);
                let d = nothing(r);
                let fmt = *r.pick(FMTS);
                c = wr(&name(r, k - 1, fmt), g.add(Ty::U8, lay, d));
            }
            if prev.as_ref() != Some(&c.s) && r.chance(1, 2) {
                before(r, &mut g, &mut s.files, &c.s);
            }
            prev = Some(c.s.clone());
            st.push(step(Ctx::Plain, vec![c.clone()]));
            // the same write again (the first one may have failed)
            while r.chance(1, 4) {
                if r.chance(1, 3) {
                    st.push(step(Ctx::Plain, vec![meddle(r, &c.s)]));
                }
                st.push(step(Ctx::Plain, vec![c.clone()]));
            }
        }
        s.threads.push(st);
    }
    bystander(r, &mut g, &mut s.files);
    s.images = g.images;
    one_stem(r, &mut s);
    if r.chance(5, 6) {
        place_faults(r, &mut s, None);
    } else {
        benign(r, &mut s.disk);
    }
    s
}

fn c10(r: &mut Rng) -> Scenario {
    let (mut s, mut g) = io_base(r, "C10", "reads");
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let mut k = 0;
    for _ in 0..n {
        let mut st = Vec::new();
        for _ in 0..1 + r.usize(2) {
            let im = std_image(r, &mut g);
            let fmt = *r.pick(&["png", "png", "png", "png16", "jpg", "bmp", "tga", "tif", "ico", "gif", "pgm", "ppm", "pam", "pbm", "pgma", "ppma"]);
            let Some(full) = exec::encode(&g.images[im].img(), fmt) else { continue };
            let ext = match fmt {
                "png16" => "png",
                "pgma" => "pgm",
                "ppma" => "ppm",
                f => f,
            };
            let p = if r.chance(1, 30) { name(r, k, "txt") } else { name(r, k, ext) };
            k += 1;
            let what = r.below(10);
            // plain-text numbers have no end mark: a cut inside the last one makes another valid file
            let most = match fmt {
                "pgma" | "ppma" => {
                    let t = full.iter().rposition(|b| !b.is_ascii_whitespace()).unwrap_or(0);
                    full[..t].iter().rposition(|b| b.is_ascii_whitespace()).unwrap_or(0)
                }
                _ => full.len(),
            };
            s.files.push(match what {
                0..=2 => FileSpec::Cut { path: p.clone(), im, fmt: fmt.into(), keep: most.min(match r.below(3) {
                    0 => full.len() - 1 - r.usize(full.len().min(16)),
                    1 => r.usize(full.len().min(64)),
                    _ => r.usize(full.len()),
                }) },
                3 | 4 if fmt == "png" => FileSpec::Flip { path: p.clone(), im, fmt: fmt.into(), at: if r.chance(1, 2) { r.usize(full.len()) } else { r.usize(full.len().min(60)) },
                    x: if r.chance(1, 2) { 1 << r.below(8) } else { 1 + r.below(255) as u8 } },
                _ => FileSpec::Enc { path: p.clone(), im, fmt: fmt.into() },
            });
            st.push(step(Ctx::Plain, vec![rd(&p)]));
            st.push(step(Ctx::Plain, vec![rd(&p)]));
        }
        if st.is_empty() {
            st.push(step(Ctx::Plain, vec![rd("/w/none.png")]));
        }
        s.threads.push(st);
    }
    s.images = g.images;
    one_stem(r, &mut s);
    put_decoys(r, &mut s, true);
    // faults only in the first read of each pair
    if r.chance(3, 4) {
        place_faults(r, &mut s, Some(&|_, step| step % 2 == 0));
    } else {
        benign(r, &mut s.disk);
    }
    s.disk.capacity = 0;
    s
}

fn c11(r: &mut Rng) -> Scenario {
    let (mut s, mut g) = io_base(r, "C11", "round trips");
    let n = *r.pick(&[1, 1, 2, 3, 4]);
    let mut k = 0;
    for _ in 0..n {
        let mut st = Vec::new();
        for _ in 0..1 + r.usize(3) {
            let mut c = exact_write(r, &mut g, k);
            k += 1;
            if r.chance(1, 6) {
                // large enough for several buffers of any layer
                let im = c.im[0];
                if g.images[im].w < 60 {
                    g.images[im].w = r.range(60, 250) as u32;
                    g.images[im].h = r.range(60, 250) as u32;
                }
            }
            if r.chance(1, 2) {
                before(r, &mut g, &mut s.files, &c.s);
            }
            st.push(step(Ctx::Plain, vec![c.clone()]));
            if r.chance(1, 5) {
                // once more, over the first (often longer) one
                let e = c.s.rsplit('.').next().unwrap().to_lowercase();
                let e = if e == "tiff" { "tif".to_string() } else { e };
                let im = std_image(r, &mut g);
                let i = &g.images[im];
                if lossless(i).contains(&e.as_str()) {
                    c.im[0] = im;
                    st.push(step(Ctx::Plain, vec![c.clone()]));
                }
            }
            st.push(step(Ctx::Plain, vec![rd(&c.s)]));
        }
        s.threads.push(st);
    }
    bystander(r, &mut g, &mut s.files);
    s.images = g.images;
    one_stem(r, &mut s);
    benign(r, &mut s.disk);
    s
}

fn c12(r: &mut Rng) -> Scenario {
    let (mut s, mut g) = io_base(r, "C12", "refusals");
    let mut st = Vec::new();
    let n = 1 + r.usize(3);
    // accepted writes in between
    let others = r.chance(1, 3);
    for k in 0..n {
        let d = (r.range(1, 30) as u32, r.range(1, 30) as u32);
        let (im, p): (usize, String) = match r.below(6) {
            0 => {
                // a layout no format holds
                let lay = *r.pick(&[(2, false), (4, false), (1, true), (3, true), (5, false), (5, true), (7, false), (0, false)]);
                let fmt = *r.pick(FMTS);
                (g.add(Ty::U8, lay, d), name(r, k, fmt))
            }
            1 => {
                // too little data
                let lay = *r.pick(L_STD);
                let im = g.add(Ty::U8, lay, d);
                let nn = g.images[im].len() as i64;
                g.images[im].extra = -(if r.chance(1, 2) { 1 } else { r.range(1, nn) }) as i32;
                let fmt = *r.pick(&lossless(&g.images[im]));
                (im, name(r, k, fmt))
            }
            2 => {
                // a name without a supported format
                let im = std_image(r, &mut g);
                let e = *r.pick(&["webp", "hdr", "dds", "txt", "pnm", "xyz", "pngx", "", "exr", "avif", "svg"]);
                (im, if r.chance(1, 5) { format!("/w/noext{}", k) } else { format!("/w/f{}.{}", k, e) })
            }
            3 => {
                // a format that cannot hold the layout
                let (lay, fmts): ((u8, bool), &[&str]) = match r.below(4) {
                    0 => ((1, false), &["ppm", "ff"]),
                    1 => ((2, true), &["pgm", "ppm", "tif", "pbm", "ff", "gif"]),
                    2 => ((3, false), &["pgm", "pbm", "ff"]),
                    _ => ((4, true), &["pgm", "ppm", "pbm", "ff"]),
                };
                let im = g.add(Ty::U8, lay, d);
                let fmt = *r.pick(fmts);
                (im, name(r, k, fmt))
            }
            4 if r.chance(1, 2) => {
                // no pixels
                let lay = *r.pick(&[(1, false), (3, false), (4, true)]);
                let d = nothing(r);
                let fmt = if d.0 == 0 && r.chance(1, 4) { "tif" } else { *r.pick(&["png", "jpg", "bmp", "tga", "ico"]) };
                (g.add(Ty::U8, lay, d), name(r, k, fmt))
            }
            4 => {
                // an icon that is too large, a picture too wide for its format
                let im = g.add(Ty::U8, (4, true), (r.range(257, 300) as u32, r.range(1, 4) as u32));
                (im, name(r, k, "ico"))
            }
            _ => {
                let lay = *r.pick(&[(2, false), (4, false)]);
                (g.add(Ty::U8, lay, d), name(r, k, "png"))
            }
        };
        if r.chance(3, 4) {
            let im2 = std_image(r, &mut g);
            if r.chance(1, 2) {
                s.files.push(FileSpec::Enc { path: p.clone(), im: im2, fmt: "png".into() });
            } else {
                before(r, &mut g, &mut s.files, &p);
            }
        }
        if others && r.chance(1, 2) {
            let mut c = good_write(r, &mut g, 20 + k);
            c.i = vec![1];
            let p = c.s.clone();
            st.push(step(Ctx::Plain, vec![c]));
            if r.chance(1, 4) {
                st.push(step(Ctx::Plain, vec![rd(&p)]));
            }
        }
        st.push(step(Ctx::Plain, vec![wr(&p, im)]));
        if r.chance(1, 8) {
            st.push(step(Ctx::Plain, vec![wr(&p, im)]));
        }
    }
    bystander(r, &mut g, &mut s.files);
    let n = st.len();
    s.threads = vec![st];
    if r.chance(1, 8) {
        let mut st = Vec::new();
        for k in 0..1 + r.usize(3) {
            let mut c = good_write(r, &mut g, 40 + k);
            c.i = vec![1];
            st.push(step(Ctx::Plain, vec![c]));
        }
        s.threads.push(st);
    }
    s.images = g.images;
    decoys(r, &mut s);
    s.disk.readonly = r.chance(1, 4);
    // whatever else goes wrong
    match r.below(4) {
        0 => benign(r, &mut s.disk),
        1 => s.disk.faults.push(Fault { thr: 0, step: r.range(0, n as i64 - 1) as i32, nth: r.range(0, 2), class: -1, act: FAct::Errno(hard_errno(r, 3)), sticky: true }),
        2 => s.disk.capacity = 1 + r.usize(5000),
        _ => {}
    }
    s
}

fn c13(r: &mut Rng) -> Scenario {
    let (mut s, mut g) = io_base(r, "C13", "leaks");
    let n = *r.pick(&[1, 1, 2, 3]);
    let mut k = 0;
    for _ in 0..n {
        let mut st = Vec::new();
        for _ in 0..1 + r.usize(4) {
            k += 1;
            match r.below(5) {
                0 | 1 => {
                    let im = std_image(r, &mut g);
                    let fmt = *r.pick(FMTS);
                    let p = name(r, k, fmt);
                    let q = p.clone();
                    if let Some(full) = exec::encode(&g.images[im].img(), fmt) {
                        s.files.push(match r.below(3) {
                            0 => FileSpec::Cut { path: q, im, fmt: fmt.into(), keep: r.usize(full.len()) },
                            1 => FileSpec::Flip { path: q, im, fmt: "png".into(), at: r.usize(full.len()), x: 1 + r.below(255) as u8 },
                            _ => FileSpec::Enc { path: q, im, fmt: fmt.into() },
                        });
                    }
                    st.push(step(Ctx::Plain, vec![rd(&p)]));
                }
                2 => {
                    // one that is refused or goes to a bad place
                    let lay = *r.pick(&[(2, false), (1, false), (3, false), (5, true)]);
                    let im = g.add(Ty::U8, lay, (r.range(1, 9) as u32, r.range(1, 9) as u32));
                    if r.chance(1, 3) {
                        g.images[im].extra = -1;
                    }
                    let p = match r.below(4) {
                        0 => format!("/w/nodir/f{}.png", k),
                        1 => "/w/sub".to_string(),
                        2 => format!("/w/f{}.webp", k),
                        _ => {
                            let fmt = *r.pick(FMTS);
                            name(r, k, fmt)
                        }
                    };
                    st.push(step(Ctx::Plain, vec![wr(&p, im)]));
                }
                _ => {
                    let c = good_write(r, &mut g, k);
                    if r.chance(1, 2) {
                        before(r, &mut g, &mut s.files, &c.s);
                    }
                    st.push(step(Ctx::Plain, vec![c]));
                }
            }
        }
        s.threads.push(st);
    }
    bystander(r, &mut g, &mut s.files);
    s.images = g.images;
    one_stem(r, &mut s);
    decoys(r, &mut s);
    s.disk.readonly = r.chance(1, 5);
    if r.chance(3, 4) {
        place_faults(r, &mut s, None);
    }
    s
}

fn c14(r: &mut Rng) -> Scenario {
    let (mut s, mut g) = io_base(r, "C14", "crashes");
    let mut k = 0;
    let n = *r.pick(&[1, 1, 1, 2]);
    for _ in 0..n {
        let mut st = Vec::new();
        for _ in 0..1 + r.usize(2) {
            let c = exact_write(r, &mut g, k);
            k += 1;
            before(r, &mut g, &mut s.files, &c.s);
            st.push(step(Ctx::Plain, vec![c]));
        }
        s.threads.push(st);
    }
    bystander(r, &mut g, &mut s.files);
    s.images = g.images;
    one_stem(r, &mut s);
    decoys(r, &mut s);
    let chunk = r.chance(1, 2);
    let t = dry(&s);
    if !t.is_empty() {
        let x = *r.pick(&t);
        let mut nth = x.2 as i64;
        if chunk {
            s.disk.chunk = *r.pick(&[16, 64, 512, 4096]);
            s.disk.chunk_seed = r.next();
            if x.3 == 3 {
                nth += r.range(0, (x.4 / (s.disk.chunk as i64 / 2 + 1)).min(2000));
            }
        }
        let act = match r.below(3) {
            0 => FAct::CrashBefore,
            1 => FAct::CrashAfter(usize::MAX >> 1),
            _ if x.3 == 3 => FAct::CrashAfter(match r.below(3) {
                0 => r.usize(64),
                1 => (x.4 as usize).saturating_sub(r.usize(32)),
                _ => r.usize(x.4.max(1) as usize),
            }),
            _ => FAct::CrashAfter(0),
        };
        s.disk.faults.push(Fault { thr: x.0, step: x.1, nth, class: -1, act, sticky: false });
    }
    s
}
