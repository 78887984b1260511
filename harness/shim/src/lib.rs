//! Uniform C entry point over every public conversion of the crate under test.
//! Calls only its public API; one such library is built per feature set.
#![cfg_attr(feature = "nightly_f16", feature(f16))]
#![feature(avx512_target_feature)]
#![allow(static_mut_refs)]
#![allow(unused_imports)]
use std::panic::{catch_unwind, AssertUnwindSafe};
use yuv::*;

macro_rules! md {
    ($d:expr) => {
        match mode($d) {
            Some(m) => m,
            None => return Ret::Unsupported,
        }
    };
}
mod calls;
mod images;

#[repr(C)]
pub struct Plane {
    pub ptr: *mut u8,
    /// in elements
    pub len: u64,
    /// in elements
    pub stride: u64,
}

#[repr(C)]
pub struct Desc {
    pub fn_id: u32,
    pub range: u32,
    pub matrix: u32,
    pub mode: u32,
    pub order: u32,
    pub flag: u32,
    pub depth: u32,
    pub gamma: u32,
    pub geo: u32,
    pub alloc: u32,
    pub ss: u32,
    pub kr: f32,
    pub kb: f32,
    pub pad: u32,
    pub w: u64,
    pub h: u64,
    pub planes: [Plane; 8],
}

pub enum Ret {
    Ok,
    Err(i32),
    Unsupported,
}

impl Ret {
    fn of(r: Result<(), YuvError>) -> Ret {
        match r {
            Ok(()) => Ret::Ok,
            Err(e) => {
                // Rendering the error must work too.
                let _ = format!("{e} {e:?}");
                Ret::Err(match e {
                    YuvError::DestinationSizeMismatch(_) => 101,
                    YuvError::MinimumStrideSizeMismatch(_) => 102,
                    YuvError::PointerOverflow => 103,
                    YuvError::ZeroBaseSize => 104,
                    YuvError::LumaPlaneSizeMismatch(_) => 105,
                    YuvError::LumaPlaneMinimumSizeMismatch(_) => 106,
                    YuvError::ChromaPlaneMinimumSizeMismatch(_) => 107,
                    YuvError::ChromaPlaneSizeMismatch(_) => 108,
                    YuvError::PackedFrameSizeMismatch(_) => 109,
                    YuvError::ImagesSizesNotMatch => 110,
                    YuvError::ImageDimensionsNotMatch => 111,
                    #[allow(unreachable_patterns)]
                    _ => 199,
                })
            }
        }
    }
}

unsafe fn sl<'a, T>(d: &Desc, i: usize) -> &'a [T] {
    std::slice::from_raw_parts(d.planes[i].ptr as *const T, d.planes[i].len as usize)
}
unsafe fn slm<'a, T>(d: &Desc, i: usize) -> &'a mut [T] {
    std::slice::from_raw_parts_mut(d.planes[i].ptr as *mut T, d.planes[i].len as usize)
}
fn st(d: &Desc, i: usize) -> u32 {
    d.planes[i].stride as u32
}
/// Hands an image the library allocated back to the caller: data, length and stride.
unsafe fn give<T: Copy>(d: &mut Desc, i: usize, p: &[T], stride: u32) {
    let n = p.len().min(d.planes[i].len as usize);
    std::ptr::copy_nonoverlapping(p.as_ptr(), d.planes[i].ptr as *mut T, n);
    d.planes[i].len = p.len() as u64;
    d.planes[i].stride = stride as u64;
}
fn ss(d: &Desc) -> YuvChromaSubsampling {
    match d.ss {
        420 => YuvChromaSubsampling::Yuv420,
        422 => YuvChromaSubsampling::Yuv422,
        _ => YuvChromaSubsampling::Yuv444,
    }
}
fn range(d: &Desc) -> YuvRange {
    if d.range == 0 {
        YuvRange::Limited
    } else {
        YuvRange::Full
    }
}
fn matrix(d: &Desc) -> YuvStandardMatrix {
    match d.matrix {
        0 => YuvStandardMatrix::Bt601,
        1 => YuvStandardMatrix::Bt709,
        2 => YuvStandardMatrix::Bt2020,
        3 => YuvStandardMatrix::Smpte240,
        4 => YuvStandardMatrix::Bt470_6,
        5 => YuvStandardMatrix::Fcc,
        _ => YuvStandardMatrix::Custom(d.kr, d.kb),
    }
}
fn mode(d: &Desc) -> Option<YuvConversionMode> {
    match d.mode {
        #[cfg(feature = "fast_mode")]
        0 => Some(YuvConversionMode::Fast),
        1 => Some(YuvConversionMode::Balanced),
        #[cfg(feature = "professional_mode")]
        2 => Some(YuvConversionMode::Professional),
        _ => None,
    }
}
fn order(d: &Desc) -> Rgb30ByteOrder {
    if d.order == 0 {
        Rgb30ByteOrder::Host
    } else {
        Rgb30ByteOrder::Network
    }
}
fn gamma(d: &Desc) -> SharpYuvGammaTransfer {
    match d.gamma {
        0 => SharpYuvGammaTransfer::Srgb,
        1 => SharpYuvGammaTransfer::Rec709,
        2 => SharpYuvGammaTransfer::Gamma2p2,
        _ => SharpYuvGammaTransfer::Gamma2p8,
    }
}
#[cfg(feature = "geometry")]
fn rot(d: &Desc) -> RotationMode {
    match d.geo {
        0 => RotationMode::Rotate90,
        1 => RotationMode::Rotate180,
        _ => RotationMode::Rotate270,
    }
}
#[cfg(feature = "geometry")]
fn mir(d: &Desc) -> MirrorMode {
    match d.geo {
        0 => MirrorMode::Vertical,
        _ => MirrorMode::Horizontal,
    }
}

static mut MSG: [u8; 512] = [0; 512];

#[no_mangle]
pub unsafe extern "C" fn yuvshim_msg() -> *const u8 {
    MSG.as_ptr()
}

#[no_mangle]
pub unsafe extern "C" fn yuvshim_init() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        let b = s.as_bytes();
        let n = b.len().min(511);
        MSG[..n].copy_from_slice(&b[..n]);
        MSG[n] = 0;
    }));
}

/// 0 Ok, 1xx Err, 2 panic, 3 not in this feature set.
#[no_mangle]
pub unsafe extern "C" fn yuvshim_call(d: *mut Desc) -> i32 {
    match catch_unwind(AssertUnwindSafe(|| calls::dispatch(&mut *d))) {
        Ok(Ret::Ok) => 0,
        Ok(Ret::Err(e)) => e,
        Ok(Ret::Unsupported) => 3,
        Err(_) => 2,
    }
}

macro_rules! probes {
    ($($i:literal $n:tt)*) => {
        /// What run-time detection answers inside this library (std keeps one cache per library).
        #[no_mangle]
        pub extern "C" fn yuvshim_probe(i: u32) -> i32 {
            match i {
                $($i => std::arch::is_x86_feature_detected!($n) as i32,)*
                _ => -1,
            }
        }
    };
}
#[cfg(target_arch = "x86_64")]
probes! { 0 "avx2" 1 "avx512bw" 2 "avx512vbmi" 3 "avx512vnni" 4 "avxvnni" 5 "f16c" 6 "sse4.1" }
