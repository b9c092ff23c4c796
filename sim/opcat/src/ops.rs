// Included once per build variant of the library, with `L` naming the crate.
use crate::Fail;
use model::store::{self, CbSeen, CbSpec, Exp, Store};
use model::{Call, Img, ImgSpec, Ty, Val};
use std::collections::HashMap;
use L::enums::{Bilateral, Refl, Scale, Thresh, White};
use L::error::{ImgIoError, ImgProcError};
use L::image::{BaseImage, Image, ImageInfo, Number};
use L::{colorspace, convert, filter, io, morphology, tone, transform, util};

pub enum AnyImg {
    U8(Image<u8>),
    F32(Image<f32>),
}
pub struct World {
    imgs: Vec<AnyImg>,
}

pub fn world(specs: &[ImgSpec]) -> World {
    let mut imgs = Vec::new();
    for s in specs {
        imgs.push(match s.ty {
            Ty::U8 => {
                let v = simrt::quiet(|| s.u8s());
                let i = AnyImg::U8(Image::from_vec(s.w, s.h, s.c, s.a, crate::exact_u8(&v)));
                simrt::quiet(|| drop(v));
                i
            }
            Ty::F32 => {
                let v = simrt::quiet(|| s.f32s());
                let i = AnyImg::F32(Image::from_vec(s.w, s.h, s.c, s.a, crate::exact_f32(&v)));
                simrt::quiet(|| drop(v));
                i
            }
        });
    }
    World { imgs }
}

/// Which inputs no longer hold what they were made with.
pub fn changed(w: &World, specs: &[ImgSpec]) -> Vec<u32> {
    simrt::quiet(|| {
        let mut v = Vec::new();
        for (k, s) in specs.iter().enumerate() {
            let now = match &w.imgs[k] {
                AnyImg::U8(i) => img8(i),
                AnyImg::F32(i) => imgf(i),
            };
            if now != s.img() {
                v.push(k as u32);
            }
        }
        v
    })
}

fn img8(i: &Image<u8>) -> Img {
    let (w, h, c, a) = i.info().whca();
    Img::u8(w, h, c, a, i.data())
}
fn imgf(i: &Image<f32>) -> Img {
    let (w, h, c, a) = i.info().whca();
    Img::f32(w, h, c, a, i.data())
}
trait ToVal {
    fn val(&self) -> Val;
}
impl ToVal for Image<u8> {
    fn val(&self) -> Val {
        simrt::quiet(|| Val::Img(img8(self)))
    }
}
impl ToVal for Image<f32> {
    fn val(&self) -> Val {
        simrt::quiet(|| Val::Img(imgf(self)))
    }
}
fn floats(v: &[f32]) -> Val {
    simrt::quiet(|| Val::F(v.iter().map(|x| x.to_bits()).collect()))
}

impl World {
    fn b(&self, c: &Call, k: usize) -> Result<&Image<u8>, Fail> {
        match self.imgs.get(c.im.get(k).copied().unwrap_or(usize::MAX)) {
            Some(AnyImg::U8(i)) => Ok(i),
            _ => Err(Fail::Harness),
        }
    }
    fn f(&self, c: &Call, k: usize) -> Result<&Image<f32>, Fail> {
        match self.imgs.get(c.im.get(k).copied().unwrap_or(usize::MAX)) {
            Some(AnyImg::F32(i)) => Ok(i),
            _ => Err(Fail::Harness),
        }
    }
    fn is_u8(&self, c: &Call) -> bool {
        matches!(self.imgs.get(c.im.first().copied().unwrap_or(usize::MAX)), Some(AnyImg::U8(_)))
    }
}

fn pe(e: ImgProcError) -> Fail {
    simrt::quiet(|| {
        let k = match &e {
            ImgProcError::InvalidArgError(_) => "InvalidArgError",
            ImgProcError::NumericError(_) => "NumericError",
            ImgProcError::RulinalgError(_) => "RulinalgError",
        };
        Fail::Err(k.to_string(), format!("{:?}", e))
    })
}
fn ie(e: ImgIoError) -> Fail {
    simrt::quiet(|| {
        let k = match &e {
            ImgIoError::UnsupportedFileFormatError(_) => "UnsupportedFileFormatError",
            ImgIoError::UnsupportedColorTypeError(_) => "UnsupportedColorTypeError",
            ImgIoError::IoError(_) => "IoError",
            ImgIoError::ImageReaderError(_) => "ImageReaderError",
            ImgIoError::ImageWriteError(_) => "ImageWriteError",
            ImgIoError::OtherError(_) => "OtherError",
        };
        Fail::Err(k.to_string(), format!("{:?}", e))
    })
}

fn white(k: i64) -> White {
    if k & 1 == 0 { White::D50 } else { White::D65 }
}
fn scale_m(k: i64) -> Scale {
    match k {
        0 => Scale::NearestNeighbor,
        1 => Scale::Bilinear,
        2 => Scale::Bicubic,
        _ => Scale::Lanczos,
    }
}
fn thresh(k: i64) -> Thresh {
    match k {
        0 => Thresh::Binary,
        1 => Thresh::BinaryInv,
        2 => Thresh::Trunc,
        3 => Thresh::ToZero,
        _ => Thresh::ToZeroInv,
    }
}

/// Executes one call. Never called while another borrow of the scenario is mutable.
pub fn exec(w: &World, c: &Call) -> Result<Vec<Val>, Fail> {
    let i = |k: usize| c.i.get(k).copied().unwrap_or(0);
    let u = |k: usize| c.i.get(k).copied().unwrap_or(0) as u32;
    let f = |k: usize| c.f.get(k).copied().unwrap_or(0.0);
    macro_rules! p {
        ($e:expr) => {
            $e.map_err(pe)?.val()
        };
    }
    macro_rules! v {
        ($e:expr) => {
            $e.val()
        };
    }
    // operations on both pixel types
    macro_rules! g {
        (|$x:ident| $e:expr) => {
            if w.is_u8(c) {
                let $x = w.b(c, 0)?;
                $e.map_err(pe)?.val()
            } else {
                let $x = w.f(c, 0)?;
                $e.map_err(pe)?.val()
            }
        };
        (|$x:ident, $y:ident| $e:expr) => {
            if w.is_u8(c) {
                let ($x, $y) = (w.b(c, 0)?, w.b(c, 1)?);
                $e.map_err(pe)?.val()
            } else {
                let ($x, $y) = (w.f(c, 0)?, w.f(c, 1)?);
                $e.map_err(pe)?.val()
            }
        };
    }
    let r = match c.op.as_str() {
        // colour spaces
        "rgb_to_grayscale" => v!(colorspace::rgb_to_grayscale(w.b(c, 0)?)),
        "rgb_to_grayscale_f32" => v!(colorspace::rgb_to_grayscale_f32(w.f(c, 0)?)),
        "linearize_srgb_f32" => v!(colorspace::linearize_srgb_f32(w.b(c, 0)?)),
        "unlinearize_srgb_f32" => v!(colorspace::unlinearize_srgb_f32(w.f(c, 0)?)),
        "srgb_lin_to_xyz_f32" => v!(colorspace::srgb_lin_to_xyz_f32(w.f(c, 0)?)),
        "xyz_to_srgb_lin_f32" => v!(colorspace::xyz_to_srgb_lin_f32(w.f(c, 0)?)),
        "xyz_to_lab_f32" => v!(colorspace::xyz_to_lab_f32(w.f(c, 0)?, &white(i(0)))),
        "lab_to_xyz_f32" => v!(colorspace::lab_to_xyz_f32(w.f(c, 0)?, &white(i(0)))),
        "rgb_to_hsv" => v!(colorspace::rgb_to_hsv(w.b(c, 0)?)),
        "hsv_to_rgb" => v!(colorspace::hsv_to_rgb(w.b(c, 0)?)),
        "rgb_to_hsv_f32" => v!(colorspace::rgb_to_hsv_f32(w.b(c, 0)?)),
        "hsv_to_rgb_f32" => v!(colorspace::hsv_to_rgb_f32(w.f(c, 0)?)),
        "srgb_to_xyz_f32" => v!(colorspace::srgb_to_xyz_f32(w.b(c, 0)?)),
        "xyz_to_srgb_f32" => v!(colorspace::xyz_to_srgb_f32(w.f(c, 0)?)),
        "srgb_to_lab_f32" => v!(colorspace::srgb_to_lab_f32(w.b(c, 0)?, &white(i(0)))),
        "lab_to_srgb_f32" => v!(colorspace::lab_to_srgb_f32(w.f(c, 0)?, &white(i(0)))),
        // conversions
        "scale_channels" => p!(convert::scale_channels(w.f(c, 0)?, f(0), f(1), f(2), f(3))),
        "f32_to_u8_scale" => v!(convert::f32_to_u8_scale(w.f(c, 0)?, u(0))),
        "u8_to_f32_scale" => v!(convert::u8_to_f32_scale(w.b(c, 0)?, u(0))),
        "into_f32" => v!(Image::<f32>::from(w.b(c, 0)?.clone())),
        "into_u8" => v!(Image::<u8>::from(w.f(c, 0)?.clone())),
        // tone
        "brightness" => p!(tone::brightness(w.b(c, 0)?, i(0) as i16)),
        "brightness_lab" => p!(tone::brightness_lab(w.b(c, 0)?, i(0) as i16)),
        "contrast" => p!(tone::contrast(w.b(c, 0)?, f(0))),
        "contrast_lab" => p!(tone::contrast_lab(w.b(c, 0)?, f(0))),
        "saturation" => p!(tone::saturation(w.b(c, 0)?, i(0) as i16)),
        "gamma" => p!(tone::gamma(w.b(c, 0)?, f(0), i(0) as u8)),
        "histogram_equalization" => p!(tone::histogram_equalization(w.b(c, 0)?, f(0), &white(i(0)), f(1))),
        // morphology
        "erode" => p!(morphology::erode(w.b(c, 0)?, u(0))),
        "dilate" => p!(morphology::dilate(w.b(c, 0)?, u(0))),
        "majority" => p!(morphology::majority(w.b(c, 0)?, u(0))),
        "open" => p!(morphology::open(w.b(c, 0)?, u(0))),
        "close" => p!(morphology::close(w.b(c, 0)?, u(0))),
        "gradient" => p!(morphology::gradient(w.b(c, 0)?, u(0))),
        // transforms
        "crop" => g!(|x| transform::crop(x, u(0), u(1), u(2), u(3))),
        "superimpose" => p!(transform::superimpose(w.f(c, 0)?, w.f(c, 1)?, u(0), u(1), f(0))),
        "overlay" => g!(|x, y| transform::overlay(x, y, u(0), u(1))),
        "scale" => p!(transform::scale(w.f(c, 0)?, f(0), f(1), scale_m(i(0)))),
        "scale_lanczos" => p!(transform::scale_lanczos(w.f(c, 0)?, f(0), f(1), u(0))),
        "translate" => g!(|x| transform::translate(x, u(0), u(1))),
        "rotate" => p!(transform::rotate(w.f(c, 0)?, f(0))),
        "reflect" => g!(|x| transform::reflect(x, if i(0) & 1 == 0 { Refl::Horizontal } else { Refl::Vertical })),
        "shear" => p!(transform::shear(w.f(c, 0)?, f(0), f(1))),
        // filters
        "filter_1d" => p!(filter::filter_1d(w.f(c, 0)?, &c.k, i(0) & 1 == 1)),
        "separable_filter" => p!(filter::separable_filter(w.f(c, 0)?, &c.k, &c.k2)),
        "unseparable_filter" => p!(filter::unseparable_filter(w.f(c, 0)?, &c.k)),
        "linear_filter" => p!(filter::linear_filter(w.f(c, 0)?, &c.k)),
        "box_filter" => p!(filter::box_filter(w.f(c, 0)?, u(0))),
        "weighted_avg_filter" => p!(filter::weighted_avg_filter(w.f(c, 0)?, u(0), u(1))),
        "gaussian_blur" => p!(filter::gaussian_blur(w.f(c, 0)?, u(0), f(0))),
        "sharpen" => p!(filter::sharpen(w.f(c, 0)?)),
        "unsharp_masking" => p!(filter::unsharp_masking(w.f(c, 0)?)),
        "threshold" => p!(filter::threshold(w.f(c, 0)?, f(0), f(1), thresh(i(0)))),
        "residual" => g!(|x, y| filter::residual(x, y)),
        "derivative_mask" => p!(filter::derivative_mask(w.f(c, 0)?, &c.k, &c.k2)),
        "prewitt" => p!(filter::prewitt(w.f(c, 0)?)),
        "sobel" => p!(filter::sobel(w.f(c, 0)?)),
        "sobel_weighted" => p!(filter::sobel_weighted(w.f(c, 0)?, u(0))),
        "laplacian" => p!(filter::laplacian(w.f(c, 0)?)),
        "laplacian_of_gaussian" => p!(filter::laplacian_of_gaussian(w.f(c, 0)?, u(0), f(0))),
        "normalize_laplacian" => p!(filter::normalize_laplacian(w.f(c, 0)?)),
        "median_filter" => p!(filter::median_filter(w.b(c, 0)?, u(0))),
        "alpha_trimmed_mean_filter" => p!(filter::alpha_trimmed_mean_filter(w.b(c, 0)?, u(0), u(1))),
        "bilateral_filter" => p!(filter::bilateral_filter(w.b(c, 0)?, f(0), f(1), Bilateral::Direct)),
        // utilities
        "gaussian_kernel" => floats(&util::generate_gaussian_kernel(u(0), f(0)).map_err(pe)?),
        "log_kernel" => floats(&util::generate_log_kernel(u(0), f(0)).map_err(pe)?),
        "spatial_mat" => floats(&util::generate_spatial_mat(u(0), f(0)).map_err(pe)?),
        "separate_kernel" => match util::separate_kernel(&c.k) {
            Some((a, b)) => {
                let x = floats(&a);
                let y = floats(&b);
                return simrt::quiet(|| Ok(vec![x, y]));
            }
            None => Val::U(Vec::new()),
        },
        "vector_mul" => floats(&util::vector_mul(&c.k, &c.k2).map_err(pe)?),
        "vector_mul_mut" => {
            // (into a vector used before)
            let mut o = simrt::quiet(|| vec![f(0); u(0) as usize]);
            util::vector_mul_mut(&c.k, &c.k2, &mut o).map_err(pe)?;
            floats(&o)
        }
        "summed_area_table" => v!(util::generate_summed_area_table(w.f(c, 0)?)),
        "rect_sum" => {
            let t = util::generate_summed_area_table(w.f(c, 0)?);
            floats(&util::rectangular_intensity_sum(&t, u(0), u(1), u(2), u(3)))
        }
        "histogram_percentiles" => {
            let mut m = HashMap::new();
            util::generate_histogram_percentiles(w.f(c, 0)?, &mut m, f(0));
            simrt::quiet(|| {
                let mut v: Vec<(i32, u32)> = m.iter().map(|(k, x)| (*k, x.to_bits())).collect();
                v.sort();
                Val::U(v.into_iter().flat_map(|(k, x)| [k as u32 as u64, x as u64]).collect())
            })
        }
        "lookup_table" => {
            let mut t = [0f32; 256];
            let g = f(0);
            util::generate_lookup_table(&mut t, |k| k as f32 * g);
            floats(&t)
        }
        "math" => {
            let x = f(0);
            let y = f(1);
            floats(&[
                util::cubic_weighting_fn(x),
                util::xyz_to_lab_fn(x),
                util::lab_to_xyz_fn(x),
                util::sinc_norm(x),
                util::lanczos_kernel(x, y),
                util::clamp_zero(x),
                util::max_3(x, y, 0.5),
                util::min_3(x, y, 0.5),
                util::max_4(x, y, 0.5, -1.0),
                util::min_4(x, y, 0.5, -1.0),
                util::distance(u(0), u(1), u(2), u(3)),
                util::gaussian_fn(x, y.abs() + 0.25).unwrap_or(-1.0),
                util::xyz_tristimulus_vals(&white(i(0))).0,
            ])
        }
        // images
        "img_map" => {
            let k = i(0) & 255;
            if w.is_u8(c) {
                v!(w.b(c, 0)?.map_channels(|x: u8| store::fval(x, k)))
            } else {
                v!(w.f(c, 0)?.map_channels(|x: f32| x * 0.5 + k as f32))
            }
        }
        "img_map_alpha" => {
            let k = i(0) & 255;
            if w.is_u8(c) {
                v!(w.b(c, 0)?.map_channels_if_alpha(|x: u8| store::fval(x, k), |x: u8| store::gval(x, k)))
            } else {
                v!(w.f(c, 0)?.map_channels_if_alpha(|x: f32| x * 0.5 + k as f32, |x: f32| x - 1.0))
            }
        }
        "img_map_pixels" => v!(w.b(c, 0)?.map_pixels(|p: &[u8], o: &mut Vec<u8>| {
            for x in p.iter().rev() {
                o.push(x.wrapping_add(1));
            }
        })),
        "img_map_pixels_alpha" => v!(w.b(c, 0)?.map_pixels_if_alpha(|p: &[u8], o: &mut Vec<u8>| {
            for x in p.iter().rev() {
                o.push(x.wrapping_add(1));
            }
        }, |x: u8| 255 - x)),
        "img_apply" => {
            let mut m = w.b(c, 0)?.clone();
            m.apply_channels(|x| store::fval(x, 0));
            m.apply_channels_if_alpha(|x| store::fval(x, 1), |x| store::gval(x, 0));
            m.apply_pixels(|p, o| o.extend(p.iter().rev()));
            m.apply_pixels_if_alpha(|p, o| o.extend(p.iter().map(|x| x ^ 3)), |x| 255 - x);
            v!(m)
        }
        "img_edit" => {
            let mut m = w.b(c, 0)?.clone();
            let k = i(0);
            m.edit_channel(|x| store::fval(x, k), u(1) as usize);
            v!(m)
        }
        "img_sub" => {
            let x = w.b(c, 0)?;
            let s = x.get_subimage(u(0), u(1), u(2), u(3));
            let t = s.to_vec();
            simrt::quiet(|| Val::Img(Img::u8(s.info().width, s.info().height, s.info().channels, s.info().alpha, &t)))
        }
        "img_near" => {
            let x = w.b(c, 0)?;
            let s = if i(3) == 0 { x.get_neighborhood_2d(u(0), u(1), u(2)) } else { x.get_neighborhood_1d(u(0), u(1), u(2), i(3) == 1) };
            let t = s.to_vec();
            simrt::quiet(|| Val::Img(Img::u8(s.info().width, s.info().height, s.info().channels, s.info().alpha, &t)))
        }
        "img_iter" => {
            let x = w.b(c, 0)?;
            let mut h = 0u64;
            for (px, py, p) in x.into_iter() {
                for v in p {
                    h = h.wrapping_mul(31).wrapping_add(*v as u64 + px as u64 * 7 + py as u64 * 13);
                }
            }
            simrt::quiet(|| Val::U(vec![h]))
        }
        "img_blank" => {
            let x: Image<u8> = Image::blank(ImageInfo::new(u(0), u(1), u(2) as u8, i(3) != 0));
            v!(x)
        }
        // accesses to images of any shape, accepted or refused
        "img_raw" => {
            let mut r = model::Rng::new(i(0) as u64);
            let mut m = w.b(c, 0)?.clone();
            let mut d = simrt::quiet(Vec::new);
            for _ in 0..i(1) {
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| raw_access(&mut m, &mut r)));
                let m = &m;
                simrt::quiet(|| {
                    d.push(x.unwrap_or(u64::MAX));
                    d.push(model::hash_bytes(m.data()));
                });
            }
            simrt::quiet(|| Val::U(d))
        }
        // images made of parts that need not fit
        "img_from" => {
            let lens = simrt::quiet(|| c.i.get(4..).unwrap_or(&[]).to_vec());
            let mut r = model::Rng::new(i(3) as u64);
            let parts: Vec<Vec<u8>> = simrt::quiet(|| lens.iter().map(|n| (0..*n).map(|_| r.next() as u8).collect()).collect());
            let how = r.below(4);
            let alpha = r.below(2) == 0;
            let x: Image<u8> = match how {
                0 | 1 => Image::from_vec_of_vec(u(0), u(1), u(2) as u8, alpha, parts),
                2 => Image::from_vec_of_slice(u(0), u(1), u(2) as u8, alpha, simrt::quiet(|| parts.iter().map(|p| &p[..]).collect())),
                _ => Image::from_slice(u(0), u(1), u(2) as u8, alpha, &simrt::quiet(|| parts.concat())),
            };
            simrt::quiet(|| Val::U(x.data().iter().map(|x| *x as u64).chain([x.info().width as u64, x.info().height as u64]).collect()))
        }
        // files
        "read" => v!(io::read(&c.s).map_err(ie)?),
        "write" => {
            io::write(w.b(c, 0)?, &c.s).map_err(ie)?;
            Val::U(Vec::new())
        }
        // histories
        "cb" => return run_cb(w, c),
        "store" => return run_store(w, c),
        "probe_panic" => panic!("probe"),
        _ => return Err(Fail::Harness),
    };
    simrt::quiet(|| Ok(vec![r]))
}

// ---- pixel types for histories ------------------------------------------------------------------

/// A pixel element that stands for a number from 0 to 255, or, with `X`, for one of four: unusual values.
pub trait Elem: Number + 'static {
    const ODD: [Self; 4];
    fn plain(v: u8) -> Self;
    fn number(self) -> f64;
    fn same(self, o: Self) -> bool;
    fn conv(i: Image<Self>) -> Image<Self>;
    fn wide(i: Image<Self>) -> Option<Image<f64>>;
    fn of<const X: bool>(v: u8) -> Self {
        if X { Self::ODD[v as usize & 3] } else { Self::plain(v) }
    }
    fn f<const X: bool>(self) -> f64 {
        if X { Self::ODD.iter().position(|o| self.same(*o)).map_or(99.0, |k| k as f64) } else { self.number() }
    }
    fn b<const X: bool>(self) -> u8 {
        self.f::<X>() as u8
    }
}
macro_rules! elem {
    ($($t:ident $bits:ident [$($odd:expr),*] $conv:expr, $wide:expr;)*) => { $(impl Elem for $t {
        const ODD: [$t; 4] = [$($odd),*];
        fn plain(v: u8) -> $t { v as $t }
        fn number(self) -> f64 { self as f64 }
        fn same(self, o: $t) -> bool { self.$bits() == o.$bits() }
        fn conv(i: Image<$t>) -> Image<$t> { $conv(i) }
        fn wide(i: Image<$t>) -> Option<Image<f64>> { $wide(i) }
    })* }
}
elem! {
    u8 to_le [0, 255, 1, 128] |i| { let x: Image<f32> = Image::into(i); x.into() }, |i| Some(Image::into(i));
    f32 to_bits [0.0, -0.0, f32::NAN, 1e-40] |i| { let x: Image<u8> = Image::into(i); x.into() }, |i| Some(Image::into(i));
    f64 to_bits [-0.0, 0.0, f64::NAN, 1e300] |i| { let x: Image<u8> = Image::into(i); x.into() }, Some;
    u16 to_le [0, 65535, 256, 255] |i| i, |i| Some(Image::into(i));
    i32 to_le [0, -1, i32::MIN, 256] |i| i, |_| None;
    u32 to_le [0, u32::MAX, 1 << 24, (1 << 24) + 1] |i| i, |i| Some(Image::into(i));
    u64 to_le [0, u64::MAX, 1 << 53, (1 << 53) + 1] |i| i, |i| Some(Image::into(i));
    u128 to_le [0, u128::MAX, 1 << 64, 1] |i| i, |i| Some(Image::into(i));
    usize to_le [0, usize::MAX, 1 << 53, (1 << 53) + 1] |i| i, |i| Some(Image::into(i));
}

fn make<T: Elem, const X: bool>(spec: (u32, u32, u8, bool), vals: &[u8], how: i64) -> Image<T> {
    let (w, h, c, a) = spec;
    let v: Vec<T> = vals.iter().map(|x| T::of::<X>(*x)).collect();
    match how & 3 {
        0 => Image::from_vec(w, h, c, a, v),
        1 => Image::from_slice(w, h, c, a, &v),
        2 => Image::from_vec_of_vec(w, h, c, a, v.chunks(c as usize).map(|p| p.to_vec()).collect()),
        _ => Image::from_vec_of_slice(w, h, c, a, v.chunks(c as usize).collect()),
    }
}
fn fs<T: Elem, const X: bool>(p: &[T]) -> Vec<f64> {
    p.iter().map(|x| x.f::<X>()).collect()
}
fn bs<T: Elem, const X: bool>(p: &[T]) -> Vec<u8> {
    p.iter().map(|x| x.b::<X>()).collect()
}
fn ts<T: Elem, const X: bool>(p: &[u8]) -> Vec<T> {
    p.iter().map(|x| T::of::<X>(*x)).collect()
}

// ---- C05 ----------------------------------------------------------------------------------------

/// `style`: how the callback hands over a pixel; `nest`: called by the callback at one of its invocations.
fn apply_once<T: Elem, const X: bool>(img: &mut Image<T>, s: &CbSpec, style: i64, nest: Option<(usize, &dyn Fn())>) -> CbSeen {
    use std::cell::RefCell;
    let calls: RefCell<Vec<(bool, Vec<f64>)>> = RefCell::new(Vec::new());
    let note = |alpha: bool, v: &[T]| -> bool {
        let n = simrt::quiet(|| {
            let mut c = calls.borrow_mut();
            c.push((alpha, fs::<T, X>(v)));
            c.len() - 1
        });
        match nest {
            Some((at, f)) if at == n => f(),
            _ => {}
        }
        s.fail != 0 && n as i64 == s.at
    };
    let chan_f = |x: T| -> T {
        if note(false, &[x]) && s.fail == 1 {
            panic!("callback failed");
        }
        T::of::<X>(store::fval(x.b::<X>(), s.fk))
    };
    let chan_g = |x: T| -> T {
        if note(true, &[x]) && s.fail == 1 {
            panic!("callback failed");
        }
        T::of::<X>(store::gval(x.b::<X>(), s.gk))
    };
    let pix_f = |p: &[T], o: &mut Vec<T>| {
        let hit = note(false, p);
        let n = if s.maps() { s.arg.max(1) as usize } else { p.len() };
        let q: Vec<T> = ts::<T, X>(&store::fpix_n(&bs::<T, X>(p), s.fk, n));
        if hit && s.fail == 1 {
            // fail half-way, with some of the output already handed over
            o.extend_from_slice(&q[..q.len() / 2]);
            panic!("callback failed");
        }
        if hit && s.fail == 2 {
            let m = store::plen(q.len() as u8, s.delta);
            for j in 0..m {
                o.push(q[j % q.len()]);
            }
            return;
        }
        match style {
            0 => o.extend_from_slice(&q),
            1 => *o = q,
            2 => q.iter().for_each(|x| o.push(*x)),
            _ => {
                o.clear();
                o.extend(q);
            }
        }
    };
    let mut out: Option<Image<T>> = None;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match s.method.as_str() {
        "apply_pixels" => img.apply_pixels(pix_f),
        "apply_pixels_if_alpha" => img.apply_pixels_if_alpha(pix_f, chan_g),
        "apply_channels" => img.apply_channels(chan_f),
        "apply_channels_if_alpha" => img.apply_channels_if_alpha(chan_f, chan_g),
        "edit_channel" => img.edit_channel(chan_f, s.arg as usize),
        "map_pixels" => out = Some(img.map_pixels(pix_f)),
        "map_pixels_if_alpha" => out = Some(img.map_pixels_if_alpha(pix_f, chan_g)),
        "map_channels" => out = Some(img.map_channels(chan_f)),
        _ => out = Some(img.map_channels_if_alpha(chan_f, chan_g)),
    }));
    let panic = r.err().map(crate::panic_text);
    simrt::quiet(|| CbSeen {
        panic,
        calls: calls.into_inner(),
        dims: img.info().whca(),
        data: fs::<T, X>(img.data()),
        out: out.map(|o| (o.info().whca(), fs::<T, X>(o.data()))),
    })
}

fn cb_typed<T: Elem, const X: bool>(spec: &ImgSpec, c: &Call) -> String {
    let s = simrt::quiet(|| CbSpec::of(&c.s, &c.i));
    let vals = simrt::quiet(|| spec.u8s());
    let mut img: Image<T> = make::<T, X>((spec.w, spec.h, spec.c, spec.a), &vals, c.i.get(7).copied().unwrap_or(0));
    let mut st = simrt::quiet(|| Store { w: spec.w, h: spec.h, c: spec.c, a: spec.a, d: vals.iter().map(|x| *x as f64).collect() });
    // at one invocation the callback works on another image (the same way or in another, perhaps failing there)
    let (style, at, how) = (c.i.get(8).copied().unwrap_or(0), c.i.get(9).copied().unwrap_or(0), c.i.get(10).copied().unwrap_or(0));
    let wrong = std::cell::RefCell::new(String::new());
    let other = || {
        const ALL: [&str; 9] = ["apply_pixels", "apply_pixels_if_alpha", "apply_channels", "apply_channels_if_alpha", "edit_channel",
            "map_pixels", "map_pixels_if_alpha", "map_channels", "map_channels_if_alpha"];
        let (s2, vals) = simrt::quiet(|| {
            let method = if how % 3 == 0 { s.method.clone() } else { ALL[how as usize % 9].to_string() };
            let arg = if method == "edit_channel" { 1 } else { 3 };
            (CbSpec { method, fail: (how % 2 != 0) as i64, at: 2, delta: 0, fk: s.fk + 1, gk: s.gk, arg }, (0..24u8).map(|x| x * 7 + s.fk as u8).collect::<Vec<u8>>())
        });
        let mut img2: Image<T> = make::<T, X>((3, 2, 4, true), &vals, 0);
        let seen = apply_once::<T, X>(&mut img2, &s2, 0, None);
        simrt::quiet(|| {
            let st2 = Store { w: 3, h: 2, c: 4, a: true, d: vals.iter().map(|x| *x as f64).collect() };
            if let Err(e) = store::check_cb(&s2, &st2, &seen) {
                *wrong.borrow_mut() = format!("{} called by a callback of {}: {}", s2.method, s.method, e);
            }
            drop((s2, vals, seen));
        });
    };
    // the failing application, then two that do not fail
    for round in 0..3 {
        let r = if round == 0 { simrt::quiet(|| s.clone()) } else { simrt::quiet(|| CbSpec { fail: 0, fk: s.fk + round, ..s.clone() }) };
        let seen = apply_once::<T, X>(&mut img, &r, style, if at > 0 { Some((at as usize - 1, &other)) } else { None });
        if !wrong.borrow().is_empty() {
            return simrt::quiet(|| wrong.into_inner());
        }
        if seen.panic.is_some() {
            simrt::shared::probe(0);
        }
        match simrt::quiet(|| store::check_cb(&r, &st, &seen)) {
            Ok(n) => st = n,
            Err(e) => return simrt::quiet(|| format!("{}{}: {}", s.method, if round == 0 { "" } else { " (used again after the failure)" }, e)),
        }
        simrt::quiet(|| drop((seen, r)));
    }
    String::new()
}

fn run_cb(w: &World, c: &Call) -> Result<Vec<Val>, Fail> {
    let spec = simrt::quiet(|| crate::spec_of(c.im[0]));
    let _ = w;
    let e = match c.i.get(6).copied().unwrap_or(0) {
        0 => cb_typed::<u8, false>(&spec, c),
        1 => cb_typed::<f32, false>(&spec, c),
        2 => cb_typed::<u16, false>(&spec, c),
        _ => cb_typed::<f64, false>(&spec, c),
    };
    simrt::quiet(|| Ok(vec![Val::S(e)]))
}

// ---- C06 ----------------------------------------------------------------------------------------

/// Reads the image in every way there is and compares with the model.
fn compare<T: Elem, const X: bool>(img: &Image<T>, m: &Store, rng: &mut model::Rng) -> Result<(), String> {
    let (w, h, c, a) = img.info().whca();
    simrt::quiet(|| {
        if (w, h, c, a) != (m.w, m.h, m.c, m.a) {
            return Err(format!("dimensions {:?} instead of {:?}", (w, h, c, a), (m.w, m.h, m.c, m.a)));
        }
        if img.data().len() != m.d.len() {
            return Err(format!("{} values instead of {}", img.data().len(), m.d.len()));
        }
        Ok(())
    })?;
    let n = c as usize;
    let eq = |p: &[T], at: usize, how: &str| -> Result<(), String> {
        if p.len() == n && p.iter().zip(&m.d[at..at + n]).all(|(x, y)| x.f::<X>() == *y) {
            return Ok(());
        }
        simrt::quiet(|| Err(format!("{} reports {:?} for pixel {} instead of {:?}", how, fs::<T, X>(p), at / n, &m.d[at..at + n])))
    };
    if !img.data().iter().zip(&m.d).all(|(x, y)| x.f::<X>() == *y) {
        return simrt::quiet(|| {
            let k = img.data().iter().zip(&m.d).position(|(x, y)| x.f::<X>() != *y).unwrap_or(0);
            Err(format!("data() reports {} for value {} instead of {}", img.data()[k].f::<X>(), k, m.d[k]))
        });
    }
    let mut seen = 0usize;
    for (x, y, p) in img {
        if (x, y) != ((seen % w as usize) as u32, (seen / w as usize) as u32) {
            return simrt::quiet(|| Err(format!("the pixel iterator visits ({}, {}) as number {}", x, y, seen)));
        }
        eq(p, seen * n, "the pixel iterator")?;
        seen += 1;
    }
    if seen != w as usize * h as usize {
        return simrt::quiet(|| Err(format!("the pixel iterator yields {} pixels instead of {}", seen, w * h)));
    }
    let (lo, hi) = img.into_iter().size_hint();
    if lo > seen || hi.is_some_and(|k| k < seen) {
        return simrt::quiet(|| Err(format!("the pixel iterator announces {:?} pixels but yields {}", (lo, hi), seen)));
    }
    // the iterator's other methods
    let place = |k: usize| ((k % w as usize) as u32, (k / w as usize) as u32);
    let bad = |k: usize, x: u32, y: u32| -> Result<(), String> {
        simrt::quiet(|| Err(format!("the pixel iterator gives ({}, {}) as number {} when pixels are skipped", x, y, k)))
    };
    match rng.below(4) {
        0 | 1 => {
            let mut it = img.into_iter();
            let mut at = 0usize;
            loop {
                let k = match rng.below(4) {
                    0 => 0,
                    1 => rng.below(3) as usize,
                    2 => rng.below(2 * w as u64 + 2) as usize,
                    _ => rng.below(seen as u64 / 2 + 2) as usize,
                };
                if rng.below(5) == 0 {
                    it = it.clone();
                }
                let got = if k == 0 && rng.below(2) == 0 { it.next() } else { it.nth(k) };
                at += k;
                match got {
                    Some((x, y, p)) if at < seen => {
                        if (x, y) != place(at) {
                            return bad(at, x, y);
                        }
                        eq(p, at * n, "the pixel iterator, skipping pixels,")?;
                    }
                    Some((x, y, _)) => return bad(at, x, y),
                    None if at < seen => return simrt::quiet(|| Err(format!("the pixel iterator ends before number {} of {}", at, seen))),
                    None => break,
                }
                at += 1;
            }
            if it.next().is_some() {
                return simrt::quiet(|| Err("the pixel iterator goes on after its end".to_string()));
            }
        }
        2 => {
            let mut k = 0usize;
            let mut wrong: Result<(), String> = Ok(());
            img.into_iter().for_each(|(x, y, p)| {
                if wrong.is_ok() {
                    wrong = if k >= seen || (x, y) != place(k) { bad(k, x, y) } else { eq(p, k * n, "the pixel iterator, folding,") };
                }
                k += 1;
            });
            wrong?;
            if k != seen || img.into_iter().count() != seen {
                return simrt::quiet(|| Err(format!("the pixel iterator counts {} pixels instead of {}", k, seen)));
            }
        }
        _ => {
            let step = 1 + rng.below(w as u64 + 2) as usize;
            let off = rng.below(seen as u64 + 1) as usize;
            let mut k = off;
            for (x, y, p) in img.into_iter().skip(off).step_by(step) {
                if k >= seen || (x, y) != place(k) {
                    return bad(k, x, y);
                }
                eq(p, k * n, "the pixel iterator, stepping,")?;
                k += step;
            }
            if k < seen {
                return simrt::quiet(|| Err(format!("the pixel iterator ends before number {} of {}", k, seen)));
            }
            match img.into_iter().last() {
                Some((x, y, p)) if (x, y) == place(seen - 1) => eq(p, (seen - 1) * n, "the pixel iterator's last()")?,
                _ => return bad(seen - 1, w, h),
            }
        }
    }
    for y in 0..h {
        for x in 0..w {
            let at = (y as usize * w as usize + x as usize) * n;
            eq(img.get_pixel(x, y), at, "get_pixel")?;
            eq(img.get_pixel_unchecked(x, y), at, "get_pixel_unchecked")?;
            eq(&img[at / n], at, "indexing")?;
            if img.index(x, y) != at {
                return simrt::quiet(|| Err(format!("index({}, {}) is {} instead of {}", x, y, img.index(x, y), at)));
            }
        }
    }
    // a random sub-image, compared through all of its readers
    let (x, y) = (rng.below(w as u64) as u32, rng.below(h as u64) as u32);
    let (sw, sh) = (1 + rng.below((w - x) as u64) as u32, 1 + rng.below((h - y) as u64) as u32);
    let s = img.get_subimage(x, y, sw, sh);
    sub_equal::<T, X>(&s, sw, sh, &mut |k| (((y + k / sw) * w + x + k % sw) as usize) * n, m, "get_subimage")
}

fn sub_equal<T: Elem, const X: bool>(s: &L::image::SubImage<T>, sw: u32, sh: u32, at: &mut dyn FnMut(u32) -> usize, m: &Store, how: &str) -> Result<(), String> {
    let n = m.c as usize;
    if s.info().whca() != (sw, sh, m.c, m.a) {
        return simrt::quiet(|| Err(format!("{} is {:?} instead of {:?}", how, s.info().whca(), (sw, sh, m.c, m.a))));
    }
    let flat = s.to_vec();
    for k in 0..sw * sh {
        let p = at(k);
        let want = &m.d[p..p + n];
        let ok = |q: &[T]| q.len() == n && q.iter().zip(want).all(|(x, y)| x.f::<X>() == *y);
        let ku = k as usize;
        if !ok(s.get_pixel(k % sw, k / sw)) || !ok(&s[ku]) || !ok(s.data()[ku]) || flat.len() < (ku + 1) * n || !ok(&flat[ku * n..(ku + 1) * n]) {
            return simrt::quiet(|| Err(format!("{}({}x{}) reports {:?} at ({}, {}) instead of {:?}", how, sw, sh,
                fs::<T, X>(s.get_pixel(k % sw, k / sw)), k % sw, k / sw, want)));
        }
    }
    if flat.len() != (sw * sh) as usize * n || s.data().len() != (sw * sh) as usize {
        return simrt::quiet(|| Err(format!("{} holds {} values instead of {}", how, flat.len(), (sw * sh) as usize * n)));
    }
    Ok(())
}

/// With `X` there are only four values, unusual ones if the type has them.
fn few_values<const X: bool>(m: &mut Store) {
    if X {
        m.d.iter_mut().for_each(|v| *v = (*v as u8 & 3) as f64);
    }
}

fn store_typed<T: Elem, const X: bool>(spec: &ImgSpec, c: &Call) -> Result<(), String> {
    let vals = simrt::quiet(|| spec.u8s());
    let mut img: Image<T> = make::<T, X>((spec.w, spec.h, spec.c, spec.a), &vals, c.i.get(1).copied().unwrap_or(0));
    let mut m = simrt::quiet(|| Store { w: spec.w, h: spec.h, c: spec.c, a: spec.a, d: vals.iter().map(|x| *x as f64).collect() });
    simrt::quiet(|| few_values::<X>(&mut m));
    let mut rng = model::Rng::new(spec.seed ^ 77);
    let n = spec.c as usize;
    let every = c.i.get(2).copied().unwrap_or(1).max(1) as usize;
    for (step, o) in c.h.iter().enumerate() {
        let a = |i: usize| o.a.get(i).copied().unwrap_or(0);
        let exp = simrt::quiet(|| {
            let e = m.apply(o);
            few_values::<X>(&mut m);
            e
        });
        let mut read: Result<(), String> = Ok(());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match o.k.as_str() {
            "set" => {
                let p: Vec<T> = ts::<T, X>(&store::pixel(a(2), store::plen(spec.c, a(3))));
                img.set_pixel(a(0) as u32, a(1) as u32, &p)
            }
            "seti" => {
                let p: Vec<T> = ts::<T, X>(&store::pixel(a(1), store::plen(spec.c, a(2))));
                img.set_pixel_indexed(a(0) as usize, &p)
            }
            "imut" => {
                let p: Vec<T> = ts::<T, X>(&store::pixel(a(1), n));
                img[a(0) as usize].copy_from_slice(&p)
            }
            "getmut" => {
                let p: Vec<T> = ts::<T, X>(&store::pixel(a(2), n));
                img.get_pixel_mut(a(0) as u32, a(1) as u32).copy_from_slice(&p)
            }
            "getmutu" => {
                let p: Vec<T> = ts::<T, X>(&store::pixel(a(2), n));
                img.get_pixel_mut_unchecked(a(0) as u32, a(1) as u32).copy_from_slice(&p)
            }
            "dmut" => img.data_mut()[a(0) as usize] = T::of::<X>((a(1) & 255) as u8),
            "edit" => img.edit_channel(|v| T::of::<X>(store::fval(v.b::<X>(), a(1))), a(0) as usize),
            "apc" => img.apply_channels(|v| T::of::<X>(store::fval(v.b::<X>(), a(0)))),
            "apca" => img.apply_channels_if_alpha(|v| T::of::<X>(store::fval(v.b::<X>(), a(0))), |v| T::of::<X>(store::gval(v.b::<X>(), a(1)))),
            "app" => img.apply_pixels(|p, o| o.extend(ts::<T, X>(&store::fpix(&bs::<T, X>(p), a(0))))),
            "appa" => img.apply_pixels_if_alpha(|p, o| o.extend(ts::<T, X>(&store::fpix(&bs::<T, X>(p), a(0)))), |v| T::of::<X>(store::gval(v.b::<X>(), a(1)))),
            "mapc" => img = img.map_channels(|v: T| T::of::<X>(store::fval(v.b::<X>(), a(0)))),
            "mapca" => img = img.map_channels_if_alpha(|v: T| T::of::<X>(store::fval(v.b::<X>(), a(0))), |v| T::of::<X>(store::gval(v.b::<X>(), a(1)))),
            "mapp" => img = img.map_pixels(|p: &[T], o: &mut Vec<T>| o.extend(ts::<T, X>(&store::fpix(&bs::<T, X>(p), a(0))))),
            "mappa" => img = img.map_pixels_if_alpha(|p: &[T], o: &mut Vec<T>| o.extend(ts::<T, X>(&store::fpix(&bs::<T, X>(p), a(0)))), |v| T::of::<X>(store::gval(v.b::<X>(), a(1)))),
            "clone" => img = img.clone(),
            "conv" => {
                if !X {
                    if let Some(d) = T::wide(img.clone()) {
                        read = compare::<f64, false>(&d, &m, &mut rng);
                    }
                }
                let i = std::mem::replace(&mut img, Image::blank(ImageInfo::new(1, 1, 1, false)));
                img = if X { i } else { T::conv(i) };
            }
            "remake" => {
                let b = bs::<T, X>(img.data());
                img = make::<T, X>(img.info().whca(), &b, a(0));
            }
            "get" => {
                let _ = img.get_pixel(a(0) as u32, a(1) as u32);
            }
            "sub" => {
                let s = img.get_subimage(a(0) as u32, a(1) as u32, a(2) as u32, a(3) as u32);
                if let Exp::Read(w, h, pos) = &exp {
                    read = sub_equal::<T, X>(&s, *w, *h, &mut |k| pos[k as usize], &m, "get_subimage");
                }
            }
            "n1" => {
                let s = img.get_neighborhood_1d(a(0) as u32, a(1) as u32, a(2) as u32, a(3) != 0);
                if let Exp::Read(w, h, pos) = &exp {
                    read = sub_equal::<T, X>(&s, *w, *h, &mut |k| pos[k as usize], &m, "get_neighborhood_1d");
                }
            }
            "n2" => {
                let s = img.get_neighborhood_2d(a(0) as u32, a(1) as u32, a(2) as u32);
                if let Exp::Read(w, h, pos) = &exp {
                    read = sub_equal::<T, X>(&s, *w, *h, &mut |k| pos[k as usize], &m, "get_neighborhood_2d");
                }
            }
            _ => {}
        }));
        let tag = |e: String| simrt::quiet(|| format!("after op {} ({} {:?}): {}", step, o.k, o.a, e));
        match (&exp, &r) {
            (Exp::Refused, Ok(())) => return Err(tag(simrt::quiet(|| "an access that must be refused was accepted".to_string()))),
            (Exp::Refused, Err(_)) => simrt::shared::probe(1),
            (_, Err(_)) => {
                let t = crate::panic_text(r.err().unwrap());
                return Err(tag(simrt::quiet(|| format!("panicked: {}", t))));
            }
            _ => {}
        }
        read.map_err(tag)?;
        if step % every == 0 || exp == Exp::Refused {
            compare::<T, X>(&img, &m, &mut rng).map_err(tag)?;
        }
    }
    compare::<T, X>(&img, &m, &mut rng)?;
    // readers on other threads
    let readers = c.i.get(3).copied().unwrap_or(0);
    if readers > 0 {
        let (img, m) = (&img, &m);
        let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for k in 0..readers {
                hs.push(sc.spawn(move || {
                    let mut rng = model::Rng::new(k as u64);
                    for _ in 0..2 {
                        compare::<T, X>(img, m, &mut rng)?;
                    }
                    Ok(())
                }));
            }
            hs.into_iter().map(|h| h.join().unwrap_or_else(|p| Err(crate::panic_text(p)))).collect()
        });
        for r in res {
            r.map_err(|e| simrt::quiet(|| format!("seen by another thread: {}", e)))?;
        }
    }
    Ok(())
}

fn raw_access(m: &mut Image<u8>, r: &mut model::Rng) -> u64 {
    let (w, h, c) = m.info().whc();
    let out = if r.chance(1, 4) { 3 } else { 0 };
    let (x, y) = (r.below((w + out) as u64) as u32, r.below((h + out) as u64) as u32);
    // the last pixels are the ones that may not be there
    let (x, y) = match r.below(4) {
        0 => (w - 1, h - 1),
        1 => (x, h - 1),
        _ => (x, y),
    };
    let idx = match r.below(3) {
        0 => (w * h - 1) as usize,
        1 => (y * w + x) as usize,
        _ => r.below((w * h + 2) as u64) as usize,
    };
    let n = if r.chance(1, 8) { r.below(c as u64 + 3) as usize } else { c as usize };
    let v = r.next();
    let p = simrt::quiet(|| vec![v as u8; n]);
    let sum = |p: &[u8]| p.iter().fold(7u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64));
    match r.below(20) {
        0 => m.set_pixel(x, y, &p),
        1 | 2 => m.set_pixel_indexed(idx, &p),
        3 => m.get_pixel_mut(x, y).iter_mut().for_each(|b| *b ^= v as u8),
        4 => m.get_pixel_mut_unchecked(x, y).iter_mut().for_each(|b| *b ^= v as u8),
        5 => m[idx].iter_mut().for_each(|b| *b = v as u8),
        6 => return sum(m.get_pixel(x, y)),
        7 => return sum(m.get_pixel_unchecked(x, y)),
        8 => return sum(&m[idx]),
        9 => return m.get_neighborhood_1d(x, y, r.below(6) as u32, v & 1 == 0).to_vec().iter().fold(1, |a, b| a * 3u64 % 65521 + *b as u64),
        10 => return m.get_neighborhood_2d(x, y, r.below(6) as u32).to_vec().iter().fold(1, |a, b| a * 3u64 % 65521 + *b as u64),
        11 => {
            let (sw, sh) = (r.below(6) as u32, r.below(6) as u32);
            return m.get_subimage(x, y, sw, sh).to_vec().iter().fold(1, |a, b| a * 3u64 % 65521 + *b as u64);
        }
        12 => m.apply_pixels(|p, o| o.extend(p.iter().rev())),
        13 => m.apply_pixels_if_alpha(|p, o| o.extend(p.iter().rev()), |a| a ^ 3),
        14 => m.apply_channels(|b| b.wrapping_add(3)),
        15 => m.apply_channels_if_alpha(|b| b ^ 5, |a| a.wrapping_sub(1)),
        16 => m.edit_channel(|b| b ^ 9, r.below(c as u64 + 1) as usize),
        17 => return sum(m.map_channels_if_alpha(|b: u8| b ^ 1, |b: u8| b).data()),
        18 => return sum(m.map_pixels_if_alpha(|p: &[u8], o: &mut Vec<u8>| o.extend(p.iter().rev()), |b: u8| b).data()),
        _ => return m.into_iter().fold(3, |a, (_, _, p)| a * 5 % 65521 + sum(p) % 997),
    }
    0
}

fn run_store(w: &World, c: &Call) -> Result<Vec<Val>, Fail> {
    let spec = simrt::quiet(|| crate::spec_of(c.im[0]));
    let _ = w;
    let e = match c.i.first().copied().unwrap_or(0) {
        0 => store_typed::<u8, false>(&spec, c),
        1 => store_typed::<f32, false>(&spec, c),
        2 => store_typed::<u16, false>(&spec, c),
        3 => store_typed::<f64, false>(&spec, c),
        4 => store_typed::<i32, false>(&spec, c),
        5 => store_typed::<u32, false>(&spec, c),
        6 => store_typed::<u64, false>(&spec, c),
        7 => store_typed::<u128, false>(&spec, c),
        8 => store_typed::<usize, false>(&spec, c),
        16 => store_typed::<u8, true>(&spec, c),
        17 => store_typed::<f32, true>(&spec, c),
        18 => store_typed::<u16, true>(&spec, c),
        19 => store_typed::<f64, true>(&spec, c),
        20 => store_typed::<i32, true>(&spec, c),
        21 => store_typed::<u32, true>(&spec, c),
        22 => store_typed::<u64, true>(&spec, c),
        23 => store_typed::<u128, true>(&spec, c),
        24 => store_typed::<usize, true>(&spec, c),
        _ => return Err(Fail::Harness),
    };
    simrt::quiet(|| Ok(vec![Val::S(e.err().unwrap_or_default())]))
}
