//! Client of the public API: one monomorphic `ep_*` function per entry point. It is only
//! type-checked and analysed, never run.
#![cfg_attr(feature = "full", feature(f16))]
#![allow(clippy::all)]
use pic_scale::*;

macro_rules! entry_resize {
    ($($n:ident, $tr:ident, $m:ident, $t:ty, $c:literal $(, $extra:ident : $et:ty)?);* $(;)?) => { $(
        pub fn $n<'a>(s: &'a Scaler, store: &ImageStore<'a, $t, $c>, into: &mut ImageStoreMut<'a, $t, $c> $(, $extra: $et)?) -> Result<(), PicScaleError> {
            s.$m(store, into $(, $extra)?)
        } )*
    };
}
entry_resize! {
    ep_resize_plane8, Scaler, resize_plane, u8, 1;
    ep_resize_cbcr8, Scaling, resize_cbcr8, u8, 2;
    ep_resize_rgb8, Scaling, resize_rgb, u8, 3;
    ep_resize_rgba8, Scaling, resize_rgba, u8, 4, premultiply_alpha: bool;
    ep_resize_plane_f32, Scaler, resize_plane_f32, f32, 1;
    ep_resize_cbcr_f32, ScalingF32, resize_cbcr_f32, f32, 2;
    ep_resize_rgb_f32, ScalingF32, resize_rgb_f32, f32, 3;
    ep_resize_rgba_f32, ScalingF32, resize_rgba_f32, f32, 4, premultiply_alpha: bool;
    ep_resize_plane_u16, ScalingU16, resize_plane_u16, u16, 1;
    ep_resize_cbcr_u16, ScalingU16, resize_cbcr_u16, u16, 2;
    ep_resize_rgb_u16, ScalingU16, resize_rgb_u16, u16, 3;
    ep_resize_rgba_u16, ScalingU16, resize_rgba_u16, u16, 4, premultiply_alpha: bool;
}
#[cfg(feature = "full")]
entry_resize! {
    ep_resize_plane_f16, Scaler, resize_plane_f16, f16, 1;
    ep_resize_cbcr_f16, Scaler, resize_cbcr_f16, f16, 2;
    ep_resize_rgb_f16, Scaler, resize_rgb_f16, f16, 3;
    ep_resize_rgba_f16, Scaler, resize_rgba_f16, f16, 4, premultiply_alpha: bool;
}

pub fn ep_resize_ar30(s: &Scaler, src: &[u8], ss: usize, a: ImageSize, dst: &mut [u8], ds: usize, b: ImageSize, o: Ar30ByteOrder) -> Result<(), PicScaleError> {
    s.resize_ar30(src, ss, a, dst, ds, b, o)
}
pub fn ep_resize_ra30(s: &Scaler, src: &[u8], ss: usize, a: ImageSize, dst: &mut [u8], ds: usize, b: ImageSize, o: Ar30ByteOrder) -> Result<(), PicScaleError> {
    s.resize_ra30(src, ss, a, dst, ds, b, o)
}

macro_rules! entry_scale {
    ($($n:ident, $t:ty, $c:literal);* $(;)?) => { $(
        pub fn $n<'a>(store: &ImageStore<'a, $t, $c>, into: &mut ImageStoreMut<'a, $t, $c>, o: ScalingOptions) -> Result<(), PicScaleError> {
            ImageStoreScaling::scale(store, into, o)
        } )*
    };
}
entry_scale! {
    ep_scale_u8_1, u8, 1; ep_scale_u8_2, u8, 2; ep_scale_u8_3, u8, 3; ep_scale_u8_4, u8, 4;
    ep_scale_u16_1, u16, 1; ep_scale_u16_2, u16, 2; ep_scale_u16_3, u16, 3; ep_scale_u16_4, u16, 4;
    ep_scale_f32_1, f32, 1; ep_scale_f32_2, f32, 2; ep_scale_f32_3, f32, 3; ep_scale_f32_4, f32, 4;
}
#[cfg(feature = "full")]
entry_scale! {
    ep_scale_f16_1, f16, 1; ep_scale_f16_2, f16, 2; ep_scale_f16_3, f16, 3; ep_scale_f16_4, f16, 4;
}

macro_rules! entry_store {
    ($($m:ident, $t:ty, $c:literal);* $(;)?) => { $(
        pub mod $m {
            use super::*;
            pub fn ep_new<'a>(v: Vec<$t>, w: usize, h: usize) -> Result<ImageStore<'a, $t, $c>, PicScaleError> { ImageStore::<$t, $c>::new(v, w, h) }
            pub fn ep_borrow<'a>(v: &'a [$t], w: usize, h: usize) -> Result<ImageStore<'a, $t, $c>, PicScaleError> { ImageStore::<$t, $c>::borrow(v, w, h) }
            pub fn ep_from_slice<'a>(v: &'a [$t], w: usize, h: usize) -> Result<ImageStore<'a, $t, $c>, PicScaleError> { ImageStore::<$t, $c>::from_slice(v, w, h) }
            pub fn ep_alloc<'a>(w: usize, h: usize) -> ImageStore<'a, $t, $c> { ImageStore::<$t, $c>::alloc(w, h) }
            pub fn ep_new_mut<'a>(v: Vec<$t>, w: usize, h: usize) -> Result<ImageStoreMut<'a, $t, $c>, PicScaleError> { ImageStoreMut::<$t, $c>::new(v, w, h) }
            pub fn ep_borrow_mut<'a>(v: &'a mut [$t], w: usize, h: usize) -> Result<ImageStoreMut<'a, $t, $c>, PicScaleError> { ImageStoreMut::<$t, $c>::borrow(v, w, h) }
            pub fn ep_from_slice_mut<'a>(v: &'a mut [$t], w: usize, h: usize) -> Result<ImageStoreMut<'a, $t, $c>, PicScaleError> { ImageStoreMut::<$t, $c>::from_slice(v, w, h) }
            pub fn ep_alloc_mut<'a>(w: usize, h: usize) -> ImageStoreMut<'a, $t, $c> { ImageStoreMut::<$t, $c>::alloc(w, h) }
            pub fn ep_alloc_with_depth<'a>(w: usize, h: usize, d: usize) -> ImageStoreMut<'a, $t, $c> { ImageStoreMut::<$t, $c>::alloc_with_depth(w, h, d) }
            pub fn ep_stride(s: &ImageStore<'_, $t, $c>) -> usize { s.stride() }
            pub fn ep_stride_mut(s: &ImageStoreMut<'_, $t, $c>) -> usize { s.stride() }
            pub fn ep_get_size(s: &ImageStore<'_, $t, $c>) -> ImageSize { s.get_size() }
            pub fn ep_get_size_mut(s: &ImageStoreMut<'_, $t, $c>) -> ImageSize { s.get_size() }
            pub fn ep_as_bytes<'x>(s: &'x ImageStore<'_, $t, $c>) -> &'x [$t] { s.as_bytes() }
            pub fn ep_as_bytes_mut<'x>(s: &'x ImageStoreMut<'_, $t, $c>) -> &'x [$t] { s.as_bytes() }
            pub fn ep_copied(s: &ImageStore<'_, $t, $c>) -> ImageStore<'static, $t, $c> { s.copied() }
            pub fn ep_copied_mut(s: &ImageStoreMut<'_, $t, $c>) -> ImageStoreMut<'static, $t, $c> { s.copied() }
            pub fn ep_copied_to_mut(s: &ImageStore<'_, $t, $c>, d: &mut ImageStoreMut<'_, $t, $c>) { s.copied_to_mut(d) }
            pub fn ep_to_immutable<'x>(s: &'x ImageStoreMut<'x, $t, $c>) -> ImageStore<'x, $t, $c> { s.to_immutable() }
        } )*
    };
}
entry_store! {
    store_u8_1, u8, 1; store_u8_2, u8, 2; store_u8_3, u8, 3; store_u8_4, u8, 4;
    store_u16_1, u16, 1; store_u16_2, u16, 2; store_u16_3, u16, 3; store_u16_4, u16, 4;
    store_f32_1, f32, 1; store_f32_2, f32, 2; store_f32_3, f32, 3; store_f32_4, f32, 4;
}

macro_rules! entry_color {
    ($($m:ident, $t:ty);* $(;)?) => { $(
        pub mod $m {
            use super::*;
            pub fn ep_cbcr<'a>(s: &'a $t, a: &ImageStore<'a, u8, 2>, b: &mut ImageStoreMut<'a, u8, 2>) -> Result<(), PicScaleError> { Scaling::resize_cbcr8(s, a, b) }
            pub fn ep_rgb<'a>(s: &'a $t, a: &ImageStore<'a, u8, 3>, b: &mut ImageStoreMut<'a, u8, 3>) -> Result<(), PicScaleError> { Scaling::resize_rgb(s, a, b) }
            pub fn ep_rgba<'a>(s: &'a $t, a: &ImageStore<'a, u8, 4>, b: &mut ImageStoreMut<'a, u8, 4>, p: bool) -> Result<(), PicScaleError> { Scaling::resize_rgba(s, a, b, p) }
            pub fn ep_policy(s: &mut $t, p: ThreadingPolicy) { Scaling::set_threading_policy(s, p) }
        } )*
    };
}
entry_color! {
    c_lab, LabScaler; c_luv, LuvScaler; c_lch, LChScaler; c_xyz, XYZScaler; c_oklab, OklabScaler; c_jzazbz, JzazbzScaler;
    c_sigmoidal, SigmoidalScaler; c_linear, LinearScaler; c_linear_approx, LinearApproxScaler;
}

pub fn ep_cnew_lab(f: ResamplingFunction) -> LabScaler { LabScaler::new(f) }
pub fn ep_cnew_luv(f: ResamplingFunction) -> LuvScaler { LuvScaler::new(f) }
pub fn ep_cnew_lch(f: ResamplingFunction) -> LChScaler { LChScaler::new(f) }
pub fn ep_cnew_xyz(f: ResamplingFunction) -> XYZScaler { XYZScaler::new(f) }
pub fn ep_cnew_sigmoidal(f: ResamplingFunction) -> SigmoidalScaler { SigmoidalScaler::new(f) }
pub fn ep_cnew_linear(f: ResamplingFunction) -> LinearScaler { LinearScaler::new(f) }
pub fn ep_cnew_linear_approx(f: ResamplingFunction) -> LinearApproxScaler { LinearApproxScaler::new(f) }
pub fn ep_cnew_linear_t(f: ResamplingFunction, t: TransferFunction) -> LinearScaler { LinearScaler::new_with_transfer(f, t) }
pub fn ep_cnew_linear_approx_t(f: ResamplingFunction, t: TransferFunction) -> LinearApproxScaler { LinearApproxScaler::new_with_transfer(f, t) }
pub fn ep_cnew_oklab(f: ResamplingFunction, t: TransferFunction) -> OklabScaler { OklabScaler::new(f, t) }
pub fn ep_cnew_jzazbz(f: ResamplingFunction, l: f32, t: TransferFunction) -> JzazbzScaler { JzazbzScaler::new(f, l, t) }
pub fn ep_new_scaler(f: ResamplingFunction) -> Scaler { Scaler::new(f) }
pub fn ep_set_workload(s: &mut Scaler, w: WorkloadStrategy) { s.set_workload_strategy(w) }
pub fn ep_set_threading(s: &mut Scaler, p: ThreadingPolicy) { s.set_threading_policy(p) }
pub fn ep_err_code(e: &PicScaleError) -> usize { e.code() }
pub fn ep_err_display(e: &PicScaleError, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }
pub fn ep_resampling_from(v: u32) -> ResamplingFunction { ResamplingFunction::from(v) }
pub fn ep_byteorder_from(v: usize) -> Ar30ByteOrder { Ar30ByteOrder::from(v) }
pub fn ep_resampling_filter_f32(r: &ResamplingFunction) -> ResamplingFilter<f32> { r.get_resampling_filter::<f32>() }
pub fn ep_resampling_filter_f64(r: &ResamplingFunction) -> ResamplingFilter<f64> { r.get_resampling_filter::<f64>() }
pub fn ep_thread_count(p: &ThreadingPolicy, s: ImageSize) -> usize { p.thread_count(s) }
pub fn ep_get_pool(p: &ThreadingPolicy, s: ImageSize) -> bool { p.get_pool(s).is_some() }
pub fn ep_image_size(w: usize, h: usize) -> ImageSize { ImageSize::new(w, h) }
