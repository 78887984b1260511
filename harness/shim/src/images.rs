//! The image containers: acceptance, allocation and views.
use super::*;
use std::fmt::Debug;

/// Counts up, so that every element of a plane is told apart from its neighbours.
pub trait El: Copy + Debug + Default + PartialEq {
    fn n(i: usize) -> Self;
}
impl El for u8 {
    fn n(i: usize) -> u8 {
        (i % 251) as u8 + 1
    }
}
impl El for u16 {
    fn n(i: usize) -> u16 {
        (i % 65521) as u16 + 1
    }
}
impl El for i16 {
    fn n(i: usize) -> i16 {
        (i % 32749) as i16 + 1
    }
}

unsafe fn bm<'a, T: El>(d: &Desc, i: usize) -> BufferStoreMut<'a, T> {
    BufferStoreMut::Borrowed(slm::<T>(d, i))
}
/// An allocated plane must be zeroed; fills it through borrow_mut with a counter.
fn count<T: El>(b: &mut BufferStoreMut<'_, T>) -> bool {
    let zero = b.borrow().iter().all(|x| *x == T::default());
    for (i, x) in b.borrow_mut().iter_mut().enumerate() {
        *x = T::n(i);
    }
    zero
}
/// Reports a plane of a view. `own`: allocated by the library, so its contents are copied out; else its address is reported.
unsafe fn show<T: El>(d: &mut Desc, i: usize, p: &[T], stride: u32, own: bool) {
    if own {
        give(d, i, p, stride);
    } else {
        d.planes[i] = Plane { ptr: p.as_ptr() as *mut u8, len: p.len() as u64, stride: stride as u64 };
    }
}

/// d.geo: the container; d.alloc: 0 check_constraints, 1 alloc, 2 view of a borrowed image.
pub unsafe fn image<T: El>(d: &mut Desc) -> Ret {
    let (w, h, s) = (d.w as u32, d.h as u32, ss(d));
    let own = d.alloc == 1;
    let mut zero = true;
    let r = match d.geo {
        0 => YuvPlanarImage { y_plane: sl::<T>(d, 0), y_stride: st(d, 0), u_plane: sl(d, 1), u_stride: st(d, 1), v_plane: sl(d, 2), v_stride: st(d, 2), width: w, height: h }
            .check_constraints(s),
        1 => {
            let mut m = if own {
                YuvPlanarImageMut::<T>::alloc(w, h, s)
            } else {
                YuvPlanarImageMut { y_plane: bm::<T>(d, 0), y_stride: st(d, 0), u_plane: bm(d, 1), u_stride: st(d, 1), v_plane: bm(d, 2), v_stride: st(d, 2), width: w, height: h }
            };
            let r = m.check_constraints(s);
            if own {
                zero = count(&mut m.y_plane) & count(&mut m.u_plane) & count(&mut m.v_plane);
            }
            if d.alloc != 0 {
                let f = m.to_fixed();
                show(d, 0, f.y_plane, f.y_stride, own);
                show(d, 1, f.u_plane, f.u_stride, own);
                show(d, 2, f.v_plane, f.v_stride, own);
                (d.w, d.h) = (f.width as u64, f.height as u64);
            }
            r
        }
        2 => YuvPlanarImageWithAlpha {
            y_plane: sl::<T>(d, 0),
            y_stride: st(d, 0),
            u_plane: sl(d, 1),
            u_stride: st(d, 1),
            v_plane: sl(d, 2),
            v_stride: st(d, 2),
            a_plane: sl(d, 3),
            a_stride: st(d, 3),
            width: w,
            height: h,
        }
        .check_constraints(s),
        3 => YuvBiPlanarImage { y_plane: sl::<T>(d, 0), y_stride: st(d, 0), uv_plane: sl(d, 1), uv_stride: st(d, 1), width: w, height: h }.check_constraints(s),
        4 | 5 => {
            let mut m = if own {
                YuvBiPlanarImageMut::<T>::alloc(w, h, s)
            } else {
                YuvBiPlanarImageMut { y_plane: bm::<T>(d, 0), y_stride: st(d, 0), uv_plane: bm(d, 1), uv_stride: st(d, 1), width: w, height: h }
            };
            let r = m.check_constraints(s);
            if own {
                zero = count(&mut m.y_plane) & count(&mut m.uv_plane);
            }
            if d.alloc != 0 {
                let f = if d.geo == 4 { m.to_fixed() } else { YuvBiPlanarImage::from_mut(&m) };
                show(d, 0, f.y_plane, f.y_stride, own);
                show(d, 1, f.uv_plane, f.uv_stride, own);
                (d.w, d.h) = (f.width as u64, f.height as u64);
            }
            r
        }
        6 => YuvGrayImage { y_plane: sl::<T>(d, 0), y_stride: st(d, 0), width: w, height: h }.check_constraints(),
        7 => {
            let mut m = if own { YuvGrayImageMut::<T>::alloc(w, h) } else { YuvGrayImageMut { y_plane: bm::<T>(d, 0), y_stride: st(d, 0), width: w, height: h } };
            let r = m.check_constraints();
            if own {
                zero = count(&mut m.y_plane);
            }
            if d.alloc != 0 {
                let f = m.to_fixed();
                show(d, 0, f.y_plane, f.y_stride, own);
                (d.w, d.h) = (f.width as u64, f.height as u64);
            }
            r
        }
        8 => YuvGrayAlphaImage { y_plane: sl::<T>(d, 0), y_stride: st(d, 0), a_plane: sl(d, 1), a_stride: st(d, 1), width: w, height: h }.check_constraints(),
        9 => YuvPackedImage { yuy: sl::<T>(d, 0), yuy_stride: st(d, 0), width: w, height: h }.check_constraints(),
        10 => YuvPackedImage { yuy: sl::<T>(d, 0), yuy_stride: st(d, 0), width: w, height: h }.check_constraints444(),
        _ => {
            let m = YuvPackedImageMut { yuy: bm::<T>(d, 0), yuy_stride: st(d, 0), width: w, height: h };
            let r = m.check_constraints();
            if d.alloc != 0 {
                let f = m.to_fixed();
                show(d, 0, f.yuy, f.yuy_stride, false);
                (d.w, d.h) = (f.width as u64, f.height as u64);
            }
            r
        }
    };
    d.flag = zero as u32;
    Ret::of(r)
}

#[no_mangle]
pub unsafe extern "C" fn yuvshim_image(d: *mut Desc) -> i32 {
    let d = &mut *d;
    match catch_unwind(AssertUnwindSafe(|| match d.depth {
        0 => image::<u8>(d),
        1 => image::<u16>(d),
        _ => image::<i16>(d),
    })) {
        Ok(Ret::Ok) => 0,
        Ok(Ret::Err(e)) => e,
        Ok(Ret::Unsupported) => 3,
        Err(_) => 2,
    }
}
