// Generated by tools/gen_calls.py from registry.in
use super::*;

unsafe fn g_bimu16_su16_drx(d: &mut Desc, f: fn(&mut YuvBiPlanarImageMut<u16>, &[u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvBiPlanarImageMut::<u16>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 1)), y_stride: st(d, 1), uv_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 2)), uv_stride: st(d, 2), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u16>(d, 0), st(d, 0), range(d), matrix(d));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.uv_plane.borrow(), im1.uv_stride); }
    Ret::of(r)
}

unsafe fn g_bimu8_su8_drxm(d: &mut Desc, f: fn(&mut YuvBiPlanarImageMut<u8>, &[u8], u32, YuvRange, YuvStandardMatrix, YuvConversionMode) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvBiPlanarImageMut::<u8>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvBiPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 1)), y_stride: st(d, 1), uv_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 2)), uv_stride: st(d, 2), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u8>(d, 0), st(d, 0), range(d), matrix(d), md!(d));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.uv_plane.borrow(), im1.uv_stride); }
    Ret::of(r)
}

unsafe fn g_biu16_du16_drx(d: &mut Desc, f: fn(&YuvBiPlanarImage<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvBiPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), uv_plane: sl::<u16>(d, 1), uv_stride: st(d, 1), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u16>(d, 2), st(d, 2), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_biu16_du8_dorx(d: &mut Desc, f: fn(&YuvBiPlanarImage<u16>, &mut [u8], u32, Rgb30ByteOrder, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvBiPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), uv_plane: sl::<u16>(d, 1), uv_stride: st(d, 1), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 2), st(d, 2), order(d), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_biu16_du8_drxm(d: &mut Desc, f: fn(&YuvBiPlanarImage<u16>, &mut [u8], u32, YuvRange, YuvStandardMatrix, YuvConversionMode) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvBiPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), uv_plane: sl::<u16>(d, 1), uv_stride: st(d, 1), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 2), st(d, 2), range(d), matrix(d), md!(d));
    Ret::of(r)
}

unsafe fn g_biu8_du8_drxm(d: &mut Desc, f: fn(&YuvBiPlanarImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix, YuvConversionMode) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvBiPlanarImage { y_plane: sl::<u8>(d, 0), y_stride: st(d, 0), uv_plane: sl::<u8>(d, 1), uv_stride: st(d, 1), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 2), st(d, 2), range(d), matrix(d), md!(d));
    Ret::of(r)
}

unsafe fn g_du8_dosu16_ddd(d: &mut Desc, f: fn(&mut [u8], u32, Rgb30ByteOrder, &[u16], u32, u32, u32) -> Result<(), YuvError>) -> Ret {
    let r = f(slm::<u8>(d, 1), st(d, 1), order(d), sl::<u16>(d, 0), st(d, 0), d.w as u32, d.h as u32);
    Ret::of(r)
}

unsafe fn g_du8_dosu8_ddd(d: &mut Desc, f: fn(&mut [u8], u32, Rgb30ByteOrder, &[u8], u32, u32, u32) -> Result<(), YuvError>) -> Ret {
    let r = f(slm::<u8>(d, 1), st(d, 1), order(d), sl::<u8>(d, 0), st(d, 0), d.w as u32, d.h as u32);
    Ret::of(r)
}

unsafe fn g_grau16_du16_drx(d: &mut Desc, f: fn(&YuvGrayAlphaImage<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvGrayAlphaImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), a_plane: sl::<u16>(d, 1), a_stride: st(d, 1), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u16>(d, 2), st(d, 2), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_grau8_du8_drx(d: &mut Desc, f: fn(&YuvGrayAlphaImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvGrayAlphaImage { y_plane: sl::<u8>(d, 0), y_stride: st(d, 0), a_plane: sl::<u8>(d, 1), a_stride: st(d, 1), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 2), st(d, 2), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_grmu8_su8_drx(d: &mut Desc, f: fn(&mut YuvGrayImageMut<u8>, &[u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvGrayImageMut::<u8>::alloc(d.w as u32, d.h as u32) } else { YuvGrayImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 1)), y_stride: st(d, 1), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u8>(d, 0), st(d, 0), range(d), matrix(d));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    Ret::of(r)
}

unsafe fn g_gru16_du16_drx(d: &mut Desc, f: fn(&YuvGrayImage<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvGrayImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u16>(d, 1), st(d, 1), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_gru8_du8_drx(d: &mut Desc, f: fn(&YuvGrayImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvGrayImage { y_plane: sl::<u8>(d, 0), y_stride: st(d, 0), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 1), st(d, 1), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_pkmu16_plu16(d: &mut Desc, f: fn(&mut YuvPackedImageMut<u16>, &YuvPlanarImage<u16>) -> Result<(), YuvError>) -> Ret {
    let mut im3 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(slm::<u16>(d, 3)), yuy_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let im0 = YuvPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&mut im3, &im0);
    Ret::of(r)
}

unsafe fn g_pkmu8_plu8(d: &mut Desc, f: fn(&mut YuvPackedImageMut<u8>, &YuvPlanarImage<u8>) -> Result<(), YuvError>) -> Ret {
    let mut im3 = YuvPackedImageMut { yuy: BufferStoreMut::Borrowed(slm::<u8>(d, 3)), yuy_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let im0 = YuvPlanarImage { y_plane: sl::<u8>(d, 0), y_stride: st(d, 0), u_plane: sl::<u8>(d, 1), u_stride: st(d, 1), v_plane: sl::<u8>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&mut im3, &im0);
    Ret::of(r)
}

unsafe fn g_pku16_du16_ddrx(d: &mut Desc, f: fn(&YuvPackedImage<u16>, &mut [u16], u32, u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPackedImage { yuy: sl::<u16>(d, 0), yuy_stride: st(d, 0), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u16>(d, 1), st(d, 1), d.depth as u32, range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_pku8_du8_drx(d: &mut Desc, f: fn(&YuvPackedImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPackedImage { yuy: sl::<u8>(d, 0), yuy_stride: st(d, 0), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 1), st(d, 1), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_pku8_du8_drxp(d: &mut Desc, f: fn(&YuvPackedImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix, bool) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPackedImage { yuy: sl::<u8>(d, 0), yuy_stride: st(d, 0), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 1), st(d, 1), range(d), matrix(d), d.flag != 0);
    Ret::of(r)
}

#[cfg(feature = "nightly_f16")]
unsafe fn g_plau16_df16_dr(d: &mut Desc, f: fn(&YuvPlanarImageWithAlpha<u16>, &mut [f16], u32, YuvRange) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImageWithAlpha { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), a_plane: sl::<u16>(d, 3), a_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<f16>(d, 4), st(d, 4), range(d));
    Ret::of(r)
}

#[cfg(feature = "nightly_f16")]
unsafe fn g_plau16_df16_drx(d: &mut Desc, f: fn(&YuvPlanarImageWithAlpha<u16>, &mut [f16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImageWithAlpha { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), a_plane: sl::<u16>(d, 3), a_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<f16>(d, 4), st(d, 4), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_plau16_du16_dr(d: &mut Desc, f: fn(&YuvPlanarImageWithAlpha<u16>, &mut [u16], u32, YuvRange) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImageWithAlpha { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), a_plane: sl::<u16>(d, 3), a_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u16>(d, 4), st(d, 4), range(d));
    Ret::of(r)
}

unsafe fn g_plau16_du16_drx(d: &mut Desc, f: fn(&YuvPlanarImageWithAlpha<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImageWithAlpha { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), a_plane: sl::<u16>(d, 3), a_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u16>(d, 4), st(d, 4), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_plau16_du8_drx(d: &mut Desc, f: fn(&YuvPlanarImageWithAlpha<u16>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImageWithAlpha { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), a_plane: sl::<u16>(d, 3), a_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 4), st(d, 4), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_plau8_du8_dr(d: &mut Desc, f: fn(&YuvPlanarImageWithAlpha<u8>, &mut [u8], u32, YuvRange) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImageWithAlpha { y_plane: sl::<u8>(d, 0), y_stride: st(d, 0), u_plane: sl::<u8>(d, 1), u_stride: st(d, 1), v_plane: sl::<u8>(d, 2), v_stride: st(d, 2), a_plane: sl::<u8>(d, 3), a_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 4), st(d, 4), range(d));
    Ret::of(r)
}

unsafe fn g_plau8_du8_drxp(d: &mut Desc, f: fn(&YuvPlanarImageWithAlpha<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix, bool) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImageWithAlpha { y_plane: sl::<u8>(d, 0), y_stride: st(d, 0), u_plane: sl::<u8>(d, 1), u_stride: st(d, 1), v_plane: sl::<u8>(d, 2), v_stride: st(d, 2), a_plane: sl::<u8>(d, 3), a_stride: st(d, 3), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 4), st(d, 4), range(d), matrix(d), d.flag != 0);
    Ret::of(r)
}

#[cfg(feature = "rdp")]
unsafe fn g_plmi16_su8_d(d: &mut Desc, f: fn(&mut YuvPlanarImageMut<i16>, &[u8], u32) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvPlanarImageMut::<i16>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<i16>(d, 1)), y_stride: st(d, 1), u_plane: BufferStoreMut::Borrowed(slm::<i16>(d, 2)), u_stride: st(d, 2), v_plane: BufferStoreMut::Borrowed(slm::<i16>(d, 3)), v_stride: st(d, 3), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u8>(d, 0), st(d, 0));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.u_plane.borrow(), im1.u_stride); }
    if d.alloc != 0 { give(d, 3, im1.v_plane.borrow(), im1.v_stride); }
    Ret::of(r)
}

unsafe fn g_plmu16_pku16(d: &mut Desc, f: fn(&mut YuvPlanarImageMut<u16>, &YuvPackedImage<u16>) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvPlanarImageMut::<u16>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 1)), y_stride: st(d, 1), u_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 2)), u_stride: st(d, 2), v_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 3)), v_stride: st(d, 3), width: d.w as u32, height: d.h as u32 } };
    let im0 = YuvPackedImage { yuy: sl::<u16>(d, 0), yuy_stride: st(d, 0), width: d.w as u32, height: d.h as u32 };
    let r = f(&mut im1, &im0);
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.u_plane.borrow(), im1.u_stride); }
    if d.alloc != 0 { give(d, 3, im1.v_plane.borrow(), im1.v_stride); }
    Ret::of(r)
}

unsafe fn g_plmu16_su16_dr(d: &mut Desc, f: fn(&mut YuvPlanarImageMut<u16>, &[u16], u32, YuvRange) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvPlanarImageMut::<u16>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 1)), y_stride: st(d, 1), u_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 2)), u_stride: st(d, 2), v_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 3)), v_stride: st(d, 3), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u16>(d, 0), st(d, 0), range(d));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.u_plane.borrow(), im1.u_stride); }
    if d.alloc != 0 { give(d, 3, im1.v_plane.borrow(), im1.v_stride); }
    Ret::of(r)
}

unsafe fn g_plmu16_su16_drx(d: &mut Desc, f: fn(&mut YuvPlanarImageMut<u16>, &[u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvPlanarImageMut::<u16>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 1)), y_stride: st(d, 1), u_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 2)), u_stride: st(d, 2), v_plane: BufferStoreMut::Borrowed(slm::<u16>(d, 3)), v_stride: st(d, 3), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u16>(d, 0), st(d, 0), range(d), matrix(d));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.u_plane.borrow(), im1.u_stride); }
    if d.alloc != 0 { give(d, 3, im1.v_plane.borrow(), im1.v_stride); }
    Ret::of(r)
}

unsafe fn g_plmu8_pku8(d: &mut Desc, f: fn(&mut YuvPlanarImageMut<u8>, &YuvPackedImage<u8>) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvPlanarImageMut::<u8>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 1)), y_stride: st(d, 1), u_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 2)), u_stride: st(d, 2), v_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 3)), v_stride: st(d, 3), width: d.w as u32, height: d.h as u32 } };
    let im0 = YuvPackedImage { yuy: sl::<u8>(d, 0), yuy_stride: st(d, 0), width: d.w as u32, height: d.h as u32 };
    let r = f(&mut im1, &im0);
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.u_plane.borrow(), im1.u_stride); }
    if d.alloc != 0 { give(d, 3, im1.v_plane.borrow(), im1.v_stride); }
    Ret::of(r)
}

unsafe fn g_plmu8_su8_dr(d: &mut Desc, f: fn(&mut YuvPlanarImageMut<u8>, &[u8], u32, YuvRange) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvPlanarImageMut::<u8>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 1)), y_stride: st(d, 1), u_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 2)), u_stride: st(d, 2), v_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 3)), v_stride: st(d, 3), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u8>(d, 0), st(d, 0), range(d));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.u_plane.borrow(), im1.u_stride); }
    if d.alloc != 0 { give(d, 3, im1.v_plane.borrow(), im1.v_stride); }
    Ret::of(r)
}

unsafe fn g_plmu8_su8_drxg(d: &mut Desc, f: fn(&mut YuvPlanarImageMut<u8>, &[u8], u32, YuvRange, YuvStandardMatrix, SharpYuvGammaTransfer) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvPlanarImageMut::<u8>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 1)), y_stride: st(d, 1), u_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 2)), u_stride: st(d, 2), v_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 3)), v_stride: st(d, 3), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u8>(d, 0), st(d, 0), range(d), matrix(d), gamma(d));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.u_plane.borrow(), im1.u_stride); }
    if d.alloc != 0 { give(d, 3, im1.v_plane.borrow(), im1.v_stride); }
    Ret::of(r)
}

unsafe fn g_plmu8_su8_drxm(d: &mut Desc, f: fn(&mut YuvPlanarImageMut<u8>, &[u8], u32, YuvRange, YuvStandardMatrix, YuvConversionMode) -> Result<(), YuvError>) -> Ret {
    let mut im1 = if d.alloc != 0 { YuvPlanarImageMut::<u8>::alloc(d.w as u32, d.h as u32, ss(d)) } else { YuvPlanarImageMut { y_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 1)), y_stride: st(d, 1), u_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 2)), u_stride: st(d, 2), v_plane: BufferStoreMut::Borrowed(slm::<u8>(d, 3)), v_stride: st(d, 3), width: d.w as u32, height: d.h as u32 } };
    let r = f(&mut im1, sl::<u8>(d, 0), st(d, 0), range(d), matrix(d), md!(d));
    if d.alloc != 0 { give(d, 1, im1.y_plane.borrow(), im1.y_stride); }
    if d.alloc != 0 { give(d, 2, im1.u_plane.borrow(), im1.u_stride); }
    if d.alloc != 0 { give(d, 3, im1.v_plane.borrow(), im1.v_stride); }
    Ret::of(r)
}

#[cfg(feature = "rdp")]
unsafe fn g_pli16_du8_d(d: &mut Desc, f: fn(&YuvPlanarImage<i16>, &mut [u8], u32) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<i16>(d, 0), y_stride: st(d, 0), u_plane: sl::<i16>(d, 1), u_stride: st(d, 1), v_plane: sl::<i16>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 3), st(d, 3));
    Ret::of(r)
}

#[cfg(feature = "nightly_f16")]
unsafe fn g_plu16_df16_dr(d: &mut Desc, f: fn(&YuvPlanarImage<u16>, &mut [f16], u32, YuvRange) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<f16>(d, 3), st(d, 3), range(d));
    Ret::of(r)
}

#[cfg(feature = "nightly_f16")]
unsafe fn g_plu16_df16_drx(d: &mut Desc, f: fn(&YuvPlanarImage<u16>, &mut [f16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<f16>(d, 3), st(d, 3), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_plu16_du16_dr(d: &mut Desc, f: fn(&YuvPlanarImage<u16>, &mut [u16], u32, YuvRange) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u16>(d, 3), st(d, 3), range(d));
    Ret::of(r)
}

unsafe fn g_plu16_du16_drx(d: &mut Desc, f: fn(&YuvPlanarImage<u16>, &mut [u16], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u16>(d, 3), st(d, 3), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_plu16_du8_dorx(d: &mut Desc, f: fn(&YuvPlanarImage<u16>, &mut [u8], u32, Rgb30ByteOrder, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 3), st(d, 3), order(d), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_plu16_du8_drx(d: &mut Desc, f: fn(&YuvPlanarImage<u16>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<u16>(d, 0), y_stride: st(d, 0), u_plane: sl::<u16>(d, 1), u_stride: st(d, 1), v_plane: sl::<u16>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 3), st(d, 3), range(d), matrix(d));
    Ret::of(r)
}

unsafe fn g_plu8_du8_dr(d: &mut Desc, f: fn(&YuvPlanarImage<u8>, &mut [u8], u32, YuvRange) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<u8>(d, 0), y_stride: st(d, 0), u_plane: sl::<u8>(d, 1), u_stride: st(d, 1), v_plane: sl::<u8>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 3), st(d, 3), range(d));
    Ret::of(r)
}

unsafe fn g_plu8_du8_drx(d: &mut Desc, f: fn(&YuvPlanarImage<u8>, &mut [u8], u32, YuvRange, YuvStandardMatrix) -> Result<(), YuvError>) -> Ret {
    let im0 = YuvPlanarImage { y_plane: sl::<u8>(d, 0), y_stride: st(d, 0), u_plane: sl::<u8>(d, 1), u_stride: st(d, 1), v_plane: sl::<u8>(d, 2), v_stride: st(d, 2), width: d.w as u32, height: d.h as u32 };
    let r = f(&im0, slm::<u8>(d, 3), st(d, 3), range(d), matrix(d));
    Ret::of(r)
}

#[cfg(feature = "nightly_f16")]
unsafe fn g_sf16_zdu16_zzzz(d: &mut Desc, f: fn(&[f16], usize, &mut [u16], usize, usize, usize, usize) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<f16>(d, 0), d.planes[0].stride as usize, slm::<u16>(d, 1), d.planes[1].stride as usize, d.depth as usize, d.w as usize, d.h as usize);
    Ret::of(r)
}

#[cfg(feature = "nightly_f16")]
unsafe fn g_sf16_zdu8_zzz(d: &mut Desc, f: fn(&[f16], usize, &mut [u8], usize, usize, usize) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<f16>(d, 0), d.planes[0].stride as usize, slm::<u8>(d, 1), d.planes[1].stride as usize, d.w as usize, d.h as usize);
    Ret::of(r)
}

#[cfg(feature = "nightly_f16")]
unsafe fn g_su16_zdf16_zzzz(d: &mut Desc, f: fn(&[u16], usize, &mut [f16], usize, usize, usize, usize) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<u16>(d, 0), d.planes[0].stride as usize, slm::<f16>(d, 1), d.planes[1].stride as usize, d.depth as usize, d.w as usize, d.h as usize);
    Ret::of(r)
}

#[cfg(feature = "geometry")]
unsafe fn g_su16_zdu16_zzzmir(d: &mut Desc, f: fn(&[u16], usize, &mut [u16], usize, usize, usize, MirrorMode) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<u16>(d, 0), d.planes[0].stride as usize, slm::<u16>(d, 1), d.planes[1].stride as usize, d.w as usize, d.h as usize, mir(d));
    Ret::of(r)
}

#[cfg(feature = "geometry")]
unsafe fn g_su16_zdu16_zzzrot(d: &mut Desc, f: fn(&[u16], usize, &mut [u16], usize, usize, usize, RotationMode) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<u16>(d, 0), d.planes[0].stride as usize, slm::<u16>(d, 1), d.planes[1].stride as usize, d.w as usize, d.h as usize, rot(d));
    Ret::of(r)
}

unsafe fn g_su8_ddu8_ddd(d: &mut Desc, f: fn(&[u8], u32, &mut [u8], u32, u32, u32) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<u8>(d, 0), st(d, 0), slm::<u8>(d, 1), st(d, 1), d.w as u32, d.h as u32);
    Ret::of(r)
}

unsafe fn g_su8_dodu8_ddd(d: &mut Desc, f: fn(&[u8], u32, Rgb30ByteOrder, &mut [u8], u32, u32, u32) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<u8>(d, 0), st(d, 0), order(d), slm::<u8>(d, 1), st(d, 1), d.w as u32, d.h as u32);
    Ret::of(r)
}

#[cfg(feature = "nightly_f16")]
unsafe fn g_su8_zdf16_zzz(d: &mut Desc, f: fn(&[u8], usize, &mut [f16], usize, usize, usize) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<u8>(d, 0), d.planes[0].stride as usize, slm::<f16>(d, 1), d.planes[1].stride as usize, d.w as usize, d.h as usize);
    Ret::of(r)
}

#[cfg(feature = "geometry")]
unsafe fn g_su8_zdu8_zzzmir(d: &mut Desc, f: fn(&[u8], usize, &mut [u8], usize, usize, usize, MirrorMode) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<u8>(d, 0), d.planes[0].stride as usize, slm::<u8>(d, 1), d.planes[1].stride as usize, d.w as usize, d.h as usize, mir(d));
    Ret::of(r)
}

#[cfg(feature = "geometry")]
unsafe fn g_su8_zdu8_zzzrot(d: &mut Desc, f: fn(&[u8], usize, &mut [u8], usize, usize, usize, RotationMode) -> Result<(), YuvError>) -> Ret {
    let r = f(sl::<u8>(d, 0), d.planes[0].stride as usize, slm::<u8>(d, 1), d.planes[1].stride as usize, d.w as usize, d.h as usize, rot(d));
    Ret::of(r)
}

pub unsafe fn dispatch(d: &mut Desc) -> Ret {
    match d.fn_id {
        0 => g_su8_dodu8_ddd(d, ab30_to_rgb8),
        1 => g_su8_dodu8_ddd(d, ar30_to_rgb8),
        2 => g_su8_dodu8_ddd(d, ar30_to_rgba8),
        3 => g_pku8_du8_drxp(d, ayuv_to_rgb),
        4 => g_pku8_du8_drxp(d, ayuv_to_rgba),
        5 => g_su8_dodu8_ddd(d, ba30_to_rgb8),
        6 => g_su8_ddu8_ddd(d, bgr_to_bgra),
        7 => g_plmu8_su8_dr(d, bgr_to_gbr),
        8 => g_su8_ddu8_ddd(d, bgr_to_rgb),
        9 => g_su8_ddu8_ddd(d, bgr_to_rgba),
        10 => g_plmu8_su8_drxg(d, bgr_to_sharp_yuv420),
        11 => g_plmu8_su8_drxg(d, bgr_to_sharp_yuv422),
        12 => g_plmu8_su8_dr(d, bgr_to_ycgco420),
        13 => g_plmu8_su8_dr(d, bgr_to_ycgco422),
        14 => g_plmu8_su8_dr(d, bgr_to_ycgco444),
        15 => g_grmu8_su8_drx(d, bgr_to_yuv400),
        16 => g_plmu8_su8_drxm(d, bgr_to_yuv420),
        17 => g_plmu8_su8_drxm(d, bgr_to_yuv422),
        18 => g_plmu8_su8_drxm(d, bgr_to_yuv444),
        19 => g_bimu8_su8_drxm(d, bgr_to_yuv_nv12),
        20 => g_bimu8_su8_drxm(d, bgr_to_yuv_nv16),
        21 => g_bimu8_su8_drxm(d, bgr_to_yuv_nv21),
        22 => g_bimu8_su8_drxm(d, bgr_to_yuv_nv24),
        23 => g_bimu8_su8_drxm(d, bgr_to_yuv_nv42),
        24 => g_bimu8_su8_drxm(d, bgr_to_yuv_nv61),
        25 => g_su8_ddu8_ddd(d, bgra_to_bgr),
        26 => g_plmu8_su8_dr(d, bgra_to_gbr),
        27 => g_su8_ddu8_ddd(d, bgra_to_rgb),
        28 => g_su8_ddu8_ddd(d, bgra_to_rgba),
        29 => g_plmu8_su8_drxg(d, bgra_to_sharp_yuv420),
        30 => g_plmu8_su8_drxg(d, bgra_to_sharp_yuv422),
        31 => g_plmu8_su8_dr(d, bgra_to_ycgco420),
        32 => g_plmu8_su8_dr(d, bgra_to_ycgco422),
        33 => g_plmu8_su8_dr(d, bgra_to_ycgco444),
        34 => g_grmu8_su8_drx(d, bgra_to_yuv400),
        35 => g_plmu8_su8_drxm(d, bgra_to_yuv420),
        36 => g_plmu8_su8_drxm(d, bgra_to_yuv422),
        37 => g_plmu8_su8_drxm(d, bgra_to_yuv444),
        38 => g_bimu8_su8_drxm(d, bgra_to_yuv_nv12),
        39 => g_bimu8_su8_drxm(d, bgra_to_yuv_nv16),
        40 => g_bimu8_su8_drxm(d, bgra_to_yuv_nv21),
        41 => g_bimu8_su8_drxm(d, bgra_to_yuv_nv24),
        42 => g_bimu8_su8_drxm(d, bgra_to_yuv_nv42),
        43 => g_bimu8_su8_drxm(d, bgra_to_yuv_nv61),
        #[cfg(feature = "nightly_f16")] 44 => g_su16_zdf16_zzzz(d, convert_plane16_to_f16),
        #[cfg(feature = "nightly_f16")] 45 => g_sf16_zdu8_zzz(d, convert_plane_f16_to_planar),
        #[cfg(feature = "nightly_f16")] 46 => g_sf16_zdu16_zzzz(d, convert_plane_f16_to_planar16),
        #[cfg(feature = "nightly_f16")] 47 => g_su8_zdf16_zzz(d, convert_plane_to_f16),
        #[cfg(feature = "nightly_f16")] 48 => g_su16_zdf16_zzzz(d, convert_rgb16_to_f16),
        #[cfg(feature = "nightly_f16")] 49 => g_sf16_zdu8_zzz(d, convert_rgb_f16_to_rgb),
        #[cfg(feature = "nightly_f16")] 50 => g_sf16_zdu16_zzzz(d, convert_rgb_f16_to_rgb16),
        #[cfg(feature = "nightly_f16")] 51 => g_su8_zdf16_zzz(d, convert_rgb_to_f16),
        #[cfg(feature = "nightly_f16")] 52 => g_su16_zdf16_zzzz(d, convert_rgba16_to_f16),
        #[cfg(feature = "nightly_f16")] 53 => g_sf16_zdu8_zzz(d, convert_rgba_f16_to_rgba),
        #[cfg(feature = "nightly_f16")] 54 => g_sf16_zdu16_zzzz(d, convert_rgba_f16_to_rgba16),
        #[cfg(feature = "nightly_f16")] 55 => g_su8_zdf16_zzz(d, convert_rgba_to_f16),
        56 => g_plau16_du16_dr(d, gb10_alpha_to_rgba10),
        #[cfg(feature = "nightly_f16")] 57 => g_plau16_df16_dr(d, gb10_alpha_to_rgba_f16),
        58 => g_plu16_du16_dr(d, gb10_to_rgb10),
        #[cfg(feature = "nightly_f16")] 59 => g_plu16_df16_dr(d, gb10_to_rgb_f16),
        60 => g_plu16_du16_dr(d, gb10_to_rgba10),
        #[cfg(feature = "nightly_f16")] 61 => g_plu16_df16_dr(d, gb10_to_rgba_f16),
        62 => g_plau16_du16_dr(d, gb12_alpha_to_rgba12),
        #[cfg(feature = "nightly_f16")] 63 => g_plau16_df16_dr(d, gb12_alpha_to_rgba_f16),
        64 => g_plu16_du16_dr(d, gb12_to_rgb12),
        #[cfg(feature = "nightly_f16")] 65 => g_plu16_df16_dr(d, gb12_to_rgb_f16),
        66 => g_plu16_du16_dr(d, gb12_to_rgba12),
        #[cfg(feature = "nightly_f16")] 67 => g_plu16_df16_dr(d, gb12_to_rgba_f16),
        68 => g_plau16_du16_dr(d, gb14_alpha_to_rgba14),
        #[cfg(feature = "nightly_f16")] 69 => g_plau16_df16_dr(d, gb14_alpha_to_rgba_f16),
        70 => g_plu16_du16_dr(d, gb14_to_rgb14),
        #[cfg(feature = "nightly_f16")] 71 => g_plu16_df16_dr(d, gb14_to_rgb_f16),
        72 => g_plu16_du16_dr(d, gb14_to_rgba14),
        #[cfg(feature = "nightly_f16")] 73 => g_plu16_df16_dr(d, gb14_to_rgba_f16),
        74 => g_plau16_du16_dr(d, gb16_alpha_to_rgba16),
        #[cfg(feature = "nightly_f16")] 75 => g_plau16_df16_dr(d, gb16_alpha_to_rgba_f16),
        76 => g_plu16_du16_dr(d, gb16_to_rgb16),
        #[cfg(feature = "nightly_f16")] 77 => g_plu16_df16_dr(d, gb16_to_rgb_f16),
        78 => g_plu16_du16_dr(d, gb16_to_rgba16),
        #[cfg(feature = "nightly_f16")] 79 => g_plu16_df16_dr(d, gb16_to_rgba_f16),
        80 => g_plu8_du8_dr(d, gbr_to_bgr),
        81 => g_plu8_du8_dr(d, gbr_to_bgra),
        82 => g_plu8_du8_dr(d, gbr_to_rgb),
        83 => g_plu8_du8_dr(d, gbr_to_rgba),
        84 => g_plau8_du8_dr(d, gbr_with_alpha_to_bgra),
        85 => g_plau8_du8_dr(d, gbr_with_alpha_to_rgba),
        86 => g_plau16_du8_drx(d, i010_alpha_to_rgba),
        87 => g_plau16_du16_drx(d, i010_alpha_to_rgba10),
        #[cfg(feature = "nightly_f16")] 88 => g_plau16_df16_drx(d, i010_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 89 => g_plau16_du8_drx(d, i010_be_alpha_to_rgba),
        #[cfg(feature = "big_endian")] 90 => g_plau16_du16_drx(d, i010_be_alpha_to_rgba10),
        #[cfg(feature = "big_endian")] 91 => g_plu16_du8_drx(d, i010_be_to_bgr),
        #[cfg(feature = "big_endian")] 92 => g_plu16_du8_drx(d, i010_be_to_bgra),
        #[cfg(feature = "big_endian")] 93 => g_plu16_du8_drx(d, i010_be_to_rgb),
        #[cfg(feature = "big_endian")] 94 => g_plu16_du16_drx(d, i010_be_to_rgb10),
        #[cfg(feature = "big_endian")] 95 => g_plu16_du8_drx(d, i010_be_to_rgba),
        #[cfg(feature = "big_endian")] 96 => g_plu16_du16_drx(d, i010_be_to_rgba10),
        97 => g_plu16_du8_dorx(d, i010_to_ar30),
        98 => g_plu16_du8_drx(d, i010_to_bgr),
        99 => g_plu16_du8_drx(d, i010_to_bgra),
        100 => g_plu16_du8_dorx(d, i010_to_ra30),
        101 => g_plu16_du8_drx(d, i010_to_rgb),
        102 => g_plu16_du16_drx(d, i010_to_rgb10),
        #[cfg(feature = "nightly_f16")] 103 => g_plu16_df16_drx(d, i010_to_rgb_f16),
        104 => g_plu16_du8_drx(d, i010_to_rgba),
        105 => g_plu16_du16_drx(d, i010_to_rgba10),
        #[cfg(feature = "nightly_f16")] 106 => g_plu16_df16_drx(d, i010_to_rgba_f16),
        107 => g_plau16_du8_drx(d, i012_alpha_to_rgba),
        108 => g_plau16_du16_drx(d, i012_alpha_to_rgba12),
        #[cfg(feature = "nightly_f16")] 109 => g_plau16_df16_drx(d, i012_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 110 => g_plau16_du8_drx(d, i012_be_alpha_to_rgba),
        #[cfg(feature = "big_endian")] 111 => g_plau16_du16_drx(d, i012_be_alpha_to_rgba12),
        #[cfg(feature = "big_endian")] 112 => g_plu16_du8_drx(d, i012_be_to_bgr),
        #[cfg(feature = "big_endian")] 113 => g_plu16_du8_drx(d, i012_be_to_bgra),
        #[cfg(feature = "big_endian")] 114 => g_plu16_du8_drx(d, i012_be_to_rgb),
        #[cfg(feature = "big_endian")] 115 => g_plu16_du16_drx(d, i012_be_to_rgb12),
        #[cfg(feature = "big_endian")] 116 => g_plu16_du8_drx(d, i012_be_to_rgba),
        #[cfg(feature = "big_endian")] 117 => g_plu16_du16_drx(d, i012_be_to_rgba12),
        118 => g_plu16_du8_dorx(d, i012_to_ar30),
        119 => g_plu16_du8_drx(d, i012_to_bgr),
        120 => g_plu16_du8_drx(d, i012_to_bgra),
        121 => g_plu16_du8_dorx(d, i012_to_ra30),
        122 => g_plu16_du8_drx(d, i012_to_rgb),
        123 => g_plu16_du16_drx(d, i012_to_rgb12),
        #[cfg(feature = "nightly_f16")] 124 => g_plu16_df16_drx(d, i012_to_rgb_f16),
        125 => g_plu16_du8_drx(d, i012_to_rgba),
        126 => g_plu16_du16_drx(d, i012_to_rgba12),
        #[cfg(feature = "nightly_f16")] 127 => g_plu16_df16_drx(d, i012_to_rgba_f16),
        128 => g_plau16_du16_drx(d, i014_alpha_to_rgba14),
        #[cfg(feature = "nightly_f16")] 129 => g_plau16_df16_drx(d, i014_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 130 => g_plau16_du16_drx(d, i014_be_alpha_to_rgba14),
        #[cfg(feature = "big_endian")] 131 => g_plu16_du16_drx(d, i014_be_to_rgb14),
        #[cfg(feature = "big_endian")] 132 => g_plu16_du16_drx(d, i014_be_to_rgba14),
        133 => g_plu16_du8_dorx(d, i014_to_ar30),
        134 => g_plu16_du8_dorx(d, i014_to_ra30),
        135 => g_plu16_du16_drx(d, i014_to_rgb14),
        #[cfg(feature = "nightly_f16")] 136 => g_plu16_df16_drx(d, i014_to_rgb_f16),
        137 => g_plu16_du16_drx(d, i014_to_rgba14),
        #[cfg(feature = "nightly_f16")] 138 => g_plu16_df16_drx(d, i014_to_rgba_f16),
        #[cfg(feature = "big_endian")] 139 => g_plu16_du16_drx(d, i016_be_to_rgb16),
        #[cfg(feature = "big_endian")] 140 => g_plu16_du16_drx(d, i016_be_to_rgba16),
        141 => g_plu16_du16_drx(d, i016_to_rgb16),
        142 => g_plu16_du16_drx(d, i016_to_rgba16),
        #[cfg(feature = "big_endian")] 143 => g_plau16_du8_drx(d, i210_alpha_be_to_rgba),
        #[cfg(feature = "big_endian")] 144 => g_plau16_du16_drx(d, i210_alpha_be_to_rgba10),
        145 => g_plau16_du8_drx(d, i210_alpha_to_rgba),
        146 => g_plau16_du16_drx(d, i210_alpha_to_rgba10),
        #[cfg(feature = "nightly_f16")] 147 => g_plau16_df16_drx(d, i210_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 148 => g_plu16_du8_drx(d, i210_be_to_bgr),
        #[cfg(feature = "big_endian")] 149 => g_plu16_du8_drx(d, i210_be_to_bgra),
        #[cfg(feature = "big_endian")] 150 => g_plu16_du8_drx(d, i210_be_to_rgb),
        #[cfg(feature = "big_endian")] 151 => g_plu16_du16_drx(d, i210_be_to_rgb10),
        #[cfg(feature = "big_endian")] 152 => g_plu16_du8_drx(d, i210_be_to_rgba),
        #[cfg(feature = "big_endian")] 153 => g_plu16_du16_drx(d, i210_be_to_rgba10),
        154 => g_plu16_du8_dorx(d, i210_to_ar30),
        155 => g_plu16_du8_drx(d, i210_to_bgr),
        156 => g_plu16_du8_drx(d, i210_to_bgra),
        157 => g_plu16_du8_dorx(d, i210_to_ra30),
        158 => g_plu16_du8_drx(d, i210_to_rgb),
        159 => g_plu16_du16_drx(d, i210_to_rgb10),
        #[cfg(feature = "nightly_f16")] 160 => g_plu16_df16_drx(d, i210_to_rgb_f16),
        161 => g_plu16_du8_drx(d, i210_to_rgba),
        162 => g_plu16_du16_drx(d, i210_to_rgba10),
        #[cfg(feature = "nightly_f16")] 163 => g_plu16_df16_drx(d, i210_to_rgba_f16),
        164 => g_plau16_du8_drx(d, i212_alpha_to_rgba),
        165 => g_plau16_du16_drx(d, i212_alpha_to_rgba12),
        #[cfg(feature = "nightly_f16")] 166 => g_plau16_df16_drx(d, i212_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 167 => g_plau16_du8_drx(d, i212_be_alpha_to_rgba),
        #[cfg(feature = "big_endian")] 168 => g_plau16_du16_drx(d, i212_be_alpha_to_rgba12),
        #[cfg(feature = "big_endian")] 169 => g_plu16_du8_drx(d, i212_be_to_bgr),
        #[cfg(feature = "big_endian")] 170 => g_plu16_du8_drx(d, i212_be_to_bgra),
        #[cfg(feature = "big_endian")] 171 => g_plu16_du8_drx(d, i212_be_to_rgb),
        #[cfg(feature = "big_endian")] 172 => g_plu16_du16_drx(d, i212_be_to_rgb12),
        #[cfg(feature = "big_endian")] 173 => g_plu16_du8_drx(d, i212_be_to_rgba),
        #[cfg(feature = "big_endian")] 174 => g_plu16_du16_drx(d, i212_be_to_rgba12),
        175 => g_plu16_du8_dorx(d, i212_to_ar30),
        176 => g_plu16_du8_drx(d, i212_to_bgr),
        177 => g_plu16_du8_drx(d, i212_to_bgra),
        178 => g_plu16_du8_dorx(d, i212_to_ra30),
        179 => g_plu16_du8_drx(d, i212_to_rgb),
        180 => g_plu16_du16_drx(d, i212_to_rgb12),
        #[cfg(feature = "nightly_f16")] 181 => g_plu16_df16_drx(d, i212_to_rgb_f16),
        182 => g_plu16_du8_drx(d, i212_to_rgba),
        183 => g_plu16_du16_drx(d, i212_to_rgba12),
        #[cfg(feature = "nightly_f16")] 184 => g_plu16_df16_drx(d, i212_to_rgba_f16),
        185 => g_plau16_du16_drx(d, i214_alpha_to_rgba14),
        #[cfg(feature = "nightly_f16")] 186 => g_plau16_df16_drx(d, i214_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 187 => g_plau16_du16_drx(d, i214_be_alpha_to_rgba14),
        #[cfg(feature = "big_endian")] 188 => g_plu16_du16_drx(d, i214_be_to_rgb14),
        #[cfg(feature = "big_endian")] 189 => g_plu16_du16_drx(d, i214_be_to_rgba14),
        190 => g_plu16_du8_dorx(d, i214_to_ar30),
        191 => g_plu16_du8_dorx(d, i214_to_ra30),
        192 => g_plu16_du16_drx(d, i214_to_rgb14),
        #[cfg(feature = "nightly_f16")] 193 => g_plu16_df16_drx(d, i214_to_rgb_f16),
        194 => g_plu16_du16_drx(d, i214_to_rgba14),
        #[cfg(feature = "nightly_f16")] 195 => g_plu16_df16_drx(d, i214_to_rgba_f16),
        #[cfg(feature = "big_endian")] 196 => g_plu16_du16_drx(d, i216_be_to_rgb16),
        #[cfg(feature = "big_endian")] 197 => g_plu16_du16_drx(d, i216_be_to_rgba16),
        198 => g_plu16_du16_drx(d, i216_to_rgb16),
        199 => g_plu16_du16_drx(d, i216_to_rgba16),
        200 => g_plau16_du8_drx(d, i410_alpha_to_rgba),
        201 => g_plau16_du16_drx(d, i410_alpha_to_rgba10),
        #[cfg(feature = "nightly_f16")] 202 => g_plau16_df16_drx(d, i410_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 203 => g_plau16_du8_drx(d, i410_be_alpha_to_rgba),
        #[cfg(feature = "big_endian")] 204 => g_plau16_du16_drx(d, i410_be_alpha_to_rgba10),
        #[cfg(feature = "big_endian")] 205 => g_plu16_du16_drx(d, i410_be_to_rgb10),
        #[cfg(feature = "big_endian")] 206 => g_plu16_du8_drx(d, i410_be_to_rgba),
        #[cfg(feature = "big_endian")] 207 => g_plu16_du16_drx(d, i410_be_to_rgba10),
        208 => g_plu16_du8_dorx(d, i410_to_ar30),
        209 => g_plu16_du8_dorx(d, i410_to_ra30),
        210 => g_plu16_du16_drx(d, i410_to_rgb10),
        #[cfg(feature = "nightly_f16")] 211 => g_plu16_df16_drx(d, i410_to_rgb_f16),
        212 => g_plu16_du8_drx(d, i410_to_rgba),
        213 => g_plu16_du16_drx(d, i410_to_rgba10),
        #[cfg(feature = "nightly_f16")] 214 => g_plu16_df16_drx(d, i410_to_rgba_f16),
        215 => g_plau16_du8_drx(d, i412_alpha_to_rgba),
        216 => g_plau16_du16_drx(d, i412_alpha_to_rgba12),
        #[cfg(feature = "nightly_f16")] 217 => g_plau16_df16_drx(d, i412_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 218 => g_plau16_du8_drx(d, i412_be_alpha_to_rgba),
        #[cfg(feature = "big_endian")] 219 => g_plau16_du16_drx(d, i412_be_alpha_to_rgba12),
        #[cfg(feature = "big_endian")] 220 => g_plu16_du16_drx(d, i412_be_to_rgb12),
        #[cfg(feature = "big_endian")] 221 => g_plu16_du16_drx(d, i412_be_to_rgba12),
        222 => g_plu16_du8_dorx(d, i412_to_ar30),
        223 => g_plu16_du8_dorx(d, i412_to_ra30),
        224 => g_plu16_du16_drx(d, i412_to_rgb12),
        #[cfg(feature = "nightly_f16")] 225 => g_plu16_df16_drx(d, i412_to_rgb_f16),
        226 => g_plu16_du16_drx(d, i412_to_rgba12),
        #[cfg(feature = "nightly_f16")] 227 => g_plu16_df16_drx(d, i412_to_rgba_f16),
        228 => g_plau16_du16_drx(d, i414_alpha_to_rgba14),
        #[cfg(feature = "nightly_f16")] 229 => g_plau16_df16_drx(d, i414_alpha_to_rgba_f16),
        #[cfg(feature = "big_endian")] 230 => g_plau16_du16_drx(d, i414_be_alpha_to_rgba14),
        #[cfg(feature = "big_endian")] 231 => g_plu16_du16_drx(d, i414_be_to_rgb14),
        #[cfg(feature = "big_endian")] 232 => g_plu16_du16_drx(d, i414_be_to_rgba14),
        233 => g_plu16_du8_dorx(d, i414_to_ar30),
        234 => g_plu16_du8_dorx(d, i414_to_ra30),
        235 => g_plu16_du16_drx(d, i414_to_rgb14),
        #[cfg(feature = "nightly_f16")] 236 => g_plu16_df16_drx(d, i414_to_rgb_f16),
        237 => g_plu16_du16_drx(d, i414_to_rgba14),
        #[cfg(feature = "nightly_f16")] 238 => g_plu16_df16_drx(d, i414_to_rgba_f16),
        #[cfg(feature = "big_endian")] 239 => g_plu16_du16_drx(d, i416_be_to_rgb16),
        #[cfg(feature = "big_endian")] 240 => g_plu16_du16_drx(d, i416_be_to_rgba16),
        241 => g_plu16_du16_drx(d, i416_to_rgb16),
        242 => g_plu16_du16_drx(d, i416_to_rgba16),
        243 => g_plau16_du16_dr(d, icgc010_alpha_to_rgba10),
        244 => g_plu16_du16_dr(d, icgc010_to_rgb10),
        245 => g_plu16_du16_dr(d, icgc010_to_rgba10),
        246 => g_plau16_du16_dr(d, icgc012_alpha_to_rgba12),
        247 => g_plu16_du16_dr(d, icgc012_to_rgb12),
        248 => g_plu16_du16_dr(d, icgc012_to_rgba12),
        249 => g_plau16_du16_dr(d, icgc210_alpha_to_rgba10),
        250 => g_plu16_du16_dr(d, icgc210_to_rgb10),
        251 => g_plu16_du16_dr(d, icgc210_to_rgba10),
        252 => g_plau16_du16_dr(d, icgc212_alpha_to_rgba12),
        253 => g_plu16_du16_dr(d, icgc212_to_rgb12),
        254 => g_plu16_du16_dr(d, icgc212_to_rgba12),
        255 => g_plau16_du16_dr(d, icgc410_alpha_to_rgba10),
        256 => g_plu16_du16_dr(d, icgc410_to_rgb10),
        257 => g_plu16_du16_dr(d, icgc410_to_rgba10),
        258 => g_plau16_du16_dr(d, icgc412_alpha_to_rgba12),
        259 => g_plu16_du16_dr(d, icgc412_to_rgb12),
        260 => g_plu16_du16_dr(d, icgc412_to_rgba12),
        #[cfg(feature = "geometry")] 261 => g_su8_zdu8_zzzmir(d, mirror_cbcr),
        #[cfg(feature = "geometry")] 262 => g_su16_zdu16_zzzmir(d, mirror_cbcr16),
        #[cfg(feature = "geometry")] 263 => g_su8_zdu8_zzzmir(d, mirror_plane),
        #[cfg(feature = "geometry")] 264 => g_su16_zdu16_zzzmir(d, mirror_plane16),
        #[cfg(feature = "geometry")] 265 => g_su8_zdu8_zzzmir(d, mirror_rgb),
        #[cfg(feature = "geometry")] 266 => g_su16_zdu16_zzzmir(d, mirror_rgb16),
        #[cfg(feature = "geometry")] 267 => g_su8_zdu8_zzzmir(d, mirror_rgba),
        #[cfg(feature = "geometry")] 268 => g_su16_zdu16_zzzmir(d, mirror_rgba16),
        269 => g_biu16_du8_dorx(d, p010_to_ar30),
        270 => g_biu16_du8_drxm(d, p010_to_bgr),
        271 => g_biu16_du8_drxm(d, p010_to_bgra),
        272 => g_biu16_du8_dorx(d, p010_to_ra30),
        273 => g_biu16_du8_drxm(d, p010_to_rgb),
        274 => g_biu16_du16_drx(d, p010_to_rgb10),
        275 => g_biu16_du8_drxm(d, p010_to_rgba),
        276 => g_biu16_du16_drx(d, p010_to_rgba10),
        277 => g_biu16_du8_dorx(d, p012_to_ar30),
        278 => g_biu16_du8_dorx(d, p012_to_ra30),
        279 => g_biu16_du16_drx(d, p012_to_rgb12),
        280 => g_biu16_du16_drx(d, p012_to_rgba12),
        281 => g_biu16_du8_dorx(d, p210_to_ar30),
        282 => g_biu16_du8_drxm(d, p210_to_bgr),
        283 => g_biu16_du8_drxm(d, p210_to_bgra),
        284 => g_biu16_du8_dorx(d, p210_to_ra30),
        285 => g_biu16_du8_drxm(d, p210_to_rgb),
        286 => g_biu16_du16_drx(d, p210_to_rgb10),
        287 => g_biu16_du8_drxm(d, p210_to_rgba),
        288 => g_biu16_du16_drx(d, p210_to_rgba10),
        289 => g_biu16_du8_dorx(d, p212_to_ar30),
        290 => g_biu16_du8_dorx(d, p212_to_ra30),
        291 => g_biu16_du16_drx(d, p212_to_rgb12),
        292 => g_biu16_du16_drx(d, p212_to_rgba12),
        293 => g_biu16_du8_drxm(d, p410_to_bgr),
        294 => g_biu16_du8_drxm(d, p410_to_bgra),
        295 => g_biu16_du8_drxm(d, p410_to_rgb),
        296 => g_biu16_du16_drx(d, p410_to_rgb10),
        297 => g_biu16_du8_drxm(d, p410_to_rgba),
        298 => g_biu16_du16_drx(d, p410_to_rgba10),
        299 => g_biu16_du16_drx(d, p412_to_rgb12),
        300 => g_biu16_du16_drx(d, p412_to_rgba12),
        301 => g_su8_dodu8_ddd(d, ra30_to_rgb8),
        302 => g_su8_dodu8_ddd(d, ra30_to_rgba8),
        #[cfg(feature = "rdp")] 303 => g_plmi16_su8_d(d, rdp_abgr_to_yuv444),
        #[cfg(feature = "rdp")] 304 => g_plmi16_su8_d(d, rdp_argb_to_yuv444),
        #[cfg(feature = "rdp")] 305 => g_plmi16_su8_d(d, rdp_bgr_to_yuv444),
        #[cfg(feature = "rdp")] 306 => g_plmi16_su8_d(d, rdp_bgra_to_yuv444),
        #[cfg(feature = "rdp")] 307 => g_plmi16_su8_d(d, rdp_rgb_to_yuv444),
        #[cfg(feature = "rdp")] 308 => g_plmi16_su8_d(d, rdp_rgba_to_yuv444),
        #[cfg(feature = "rdp")] 309 => g_pli16_du8_d(d, rdp_yuv444_to_abgr),
        #[cfg(feature = "rdp")] 310 => g_pli16_du8_d(d, rdp_yuv444_to_argb),
        #[cfg(feature = "rdp")] 311 => g_pli16_du8_d(d, rdp_yuv444_to_bgr),
        #[cfg(feature = "rdp")] 312 => g_pli16_du8_d(d, rdp_yuv444_to_bgra),
        #[cfg(feature = "rdp")] 313 => g_pli16_du8_d(d, rdp_yuv444_to_rgb),
        #[cfg(feature = "rdp")] 314 => g_pli16_du8_d(d, rdp_yuv444_to_rgba),
        315 => g_du8_dosu16_ddd(d, rgb10_to_ar30),
        316 => g_plmu16_su16_dr(d, rgb10_to_gb10),
        317 => g_plmu16_su16_drx(d, rgb10_to_i010),
        #[cfg(feature = "big_endian")] 318 => g_plmu16_su16_drx(d, rgb10_to_i010_be),
        319 => g_plmu16_su16_drx(d, rgb10_to_i210),
        #[cfg(feature = "big_endian")] 320 => g_plmu16_su16_drx(d, rgb10_to_i210_be),
        321 => g_plmu16_su16_drx(d, rgb10_to_i410),
        #[cfg(feature = "big_endian")] 322 => g_plmu16_su16_drx(d, rgb10_to_i410_be),
        323 => g_bimu16_su16_drx(d, rgb10_to_p010),
        324 => g_bimu16_su16_drx(d, rgb10_to_p210),
        325 => g_bimu16_su16_drx(d, rgb10_to_p410),
        326 => g_du8_dosu16_ddd(d, rgb10_to_ra30),
        327 => g_du8_dosu16_ddd(d, rgb12_to_ar30),
        328 => g_plmu16_su16_dr(d, rgb12_to_gb12),
        329 => g_plmu16_su16_drx(d, rgb12_to_i012),
        #[cfg(feature = "big_endian")] 330 => g_plmu16_su16_drx(d, rgb12_to_i012_be),
        331 => g_plmu16_su16_drx(d, rgb12_to_i212),
        #[cfg(feature = "big_endian")] 332 => g_plmu16_su16_drx(d, rgb12_to_i212_be),
        333 => g_plmu16_su16_drx(d, rgb12_to_i412),
        #[cfg(feature = "big_endian")] 334 => g_plmu16_su16_drx(d, rgb12_to_i412_be),
        335 => g_bimu16_su16_drx(d, rgb12_to_p012),
        336 => g_bimu16_su16_drx(d, rgb12_to_p212),
        337 => g_bimu16_su16_drx(d, rgb12_to_p412),
        338 => g_du8_dosu16_ddd(d, rgb12_to_ra30),
        339 => g_plmu16_su16_dr(d, rgb14_to_gb14),
        340 => g_plmu16_su16_drx(d, rgb14_to_i014),
        #[cfg(feature = "big_endian")] 341 => g_plmu16_su16_drx(d, rgb14_to_i014_be),
        342 => g_plmu16_su16_drx(d, rgb14_to_i214),
        #[cfg(feature = "big_endian")] 343 => g_plmu16_su16_drx(d, rgb14_to_i214_be),
        344 => g_plmu16_su16_drx(d, rgb14_to_i414),
        #[cfg(feature = "big_endian")] 345 => g_plmu16_su16_drx(d, rgb14_to_i414_be),
        346 => g_plmu16_su16_dr(d, rgb16_to_gb16),
        347 => g_plmu16_su16_drx(d, rgb16_to_i016),
        #[cfg(feature = "big_endian")] 348 => g_plmu16_su16_drx(d, rgb16_to_i016_be),
        349 => g_plmu16_su16_drx(d, rgb16_to_i216),
        #[cfg(feature = "big_endian")] 350 => g_plmu16_su16_drx(d, rgb16_to_i216_be),
        351 => g_plmu16_su16_drx(d, rgb16_to_i416),
        #[cfg(feature = "big_endian")] 352 => g_plmu16_su16_drx(d, rgb16_to_i416_be),
        353 => g_bimu16_su16_drx(d, rgb16_to_p016),
        354 => g_bimu16_su16_drx(d, rgb16_to_p216),
        355 => g_du8_dosu8_ddd(d, rgb8_to_ar30),
        356 => g_du8_dosu8_ddd(d, rgb8_to_ra30),
        357 => g_su8_ddu8_ddd(d, rgb_to_bgr),
        358 => g_su8_ddu8_ddd(d, rgb_to_bgra),
        359 => g_plmu8_su8_dr(d, rgb_to_gbr),
        360 => g_su8_ddu8_ddd(d, rgb_to_rgba),
        361 => g_plmu8_su8_drxg(d, rgb_to_sharp_yuv420),
        362 => g_plmu8_su8_drxg(d, rgb_to_sharp_yuv422),
        363 => g_plmu8_su8_dr(d, rgb_to_ycgco420),
        364 => g_plmu8_su8_dr(d, rgb_to_ycgco422),
        365 => g_plmu8_su8_dr(d, rgb_to_ycgco444),
        366 => g_grmu8_su8_drx(d, rgb_to_yuv400),
        367 => g_plmu8_su8_drxm(d, rgb_to_yuv420),
        368 => g_plmu8_su8_drxm(d, rgb_to_yuv422),
        369 => g_plmu8_su8_drxm(d, rgb_to_yuv444),
        370 => g_bimu8_su8_drxm(d, rgb_to_yuv_nv12),
        371 => g_bimu8_su8_drxm(d, rgb_to_yuv_nv16),
        372 => g_bimu8_su8_drxm(d, rgb_to_yuv_nv21),
        373 => g_bimu8_su8_drxm(d, rgb_to_yuv_nv24),
        374 => g_bimu8_su8_drxm(d, rgb_to_yuv_nv42),
        375 => g_bimu8_su8_drxm(d, rgb_to_yuv_nv61),
        376 => g_du8_dosu16_ddd(d, rgba10_to_ar30),
        377 => g_plmu16_su16_dr(d, rgba10_to_gb10),
        378 => g_plmu16_su16_drx(d, rgba10_to_i010),
        #[cfg(feature = "big_endian")] 379 => g_plmu16_su16_drx(d, rgba10_to_i010_be),
        380 => g_plmu16_su16_drx(d, rgba10_to_i210),
        #[cfg(feature = "big_endian")] 381 => g_plmu16_su16_drx(d, rgba10_to_i210_be),
        382 => g_plmu16_su16_drx(d, rgba10_to_i410),
        #[cfg(feature = "big_endian")] 383 => g_plmu16_su16_drx(d, rgba10_to_i410_be),
        384 => g_bimu16_su16_drx(d, rgba10_to_p010),
        385 => g_bimu16_su16_drx(d, rgba10_to_p210),
        386 => g_bimu16_su16_drx(d, rgba10_to_p410),
        387 => g_du8_dosu16_ddd(d, rgba10_to_ra30),
        388 => g_du8_dosu16_ddd(d, rgba12_to_ar30),
        389 => g_plmu16_su16_dr(d, rgba12_to_gb12),
        390 => g_plmu16_su16_drx(d, rgba12_to_i012),
        #[cfg(feature = "big_endian")] 391 => g_plmu16_su16_drx(d, rgba12_to_i012_be),
        392 => g_plmu16_su16_drx(d, rgba12_to_i212),
        #[cfg(feature = "big_endian")] 393 => g_plmu16_su16_drx(d, rgba12_to_i212_be),
        394 => g_plmu16_su16_drx(d, rgba12_to_i412),
        #[cfg(feature = "big_endian")] 395 => g_plmu16_su16_drx(d, rgba12_to_i412_be),
        396 => g_bimu16_su16_drx(d, rgba12_to_p012),
        397 => g_bimu16_su16_drx(d, rgba12_to_p212),
        398 => g_bimu16_su16_drx(d, rgba12_to_p412),
        399 => g_du8_dosu16_ddd(d, rgba12_to_ra30),
        400 => g_plmu16_su16_dr(d, rgba14_to_gb14),
        401 => g_plmu16_su16_drx(d, rgba14_to_i014),
        #[cfg(feature = "big_endian")] 402 => g_plmu16_su16_drx(d, rgba14_to_i014_be),
        403 => g_plmu16_su16_drx(d, rgba14_to_i214),
        #[cfg(feature = "big_endian")] 404 => g_plmu16_su16_drx(d, rgba14_to_i214_be),
        405 => g_plmu16_su16_drx(d, rgba14_to_i414),
        #[cfg(feature = "big_endian")] 406 => g_plmu16_su16_drx(d, rgba14_to_i414_be),
        407 => g_plmu16_su16_dr(d, rgba16_to_gb16),
        408 => g_plmu16_su16_drx(d, rgba16_to_i016),
        #[cfg(feature = "big_endian")] 409 => g_plmu16_su16_drx(d, rgba16_to_i016_be),
        410 => g_plmu16_su16_drx(d, rgba16_to_i216),
        #[cfg(feature = "big_endian")] 411 => g_plmu16_su16_drx(d, rgba16_to_i216_be),
        412 => g_plmu16_su16_drx(d, rgba16_to_i416),
        #[cfg(feature = "big_endian")] 413 => g_plmu16_su16_drx(d, rgba16_to_i416_be),
        414 => g_bimu16_su16_drx(d, rgba16_to_p016),
        415 => g_bimu16_su16_drx(d, rgba16_to_p216),
        416 => g_du8_dosu8_ddd(d, rgba8_to_ar30),
        417 => g_du8_dosu8_ddd(d, rgba8_to_ra30),
        418 => g_su8_ddu8_ddd(d, rgba_to_bgr),
        419 => g_su8_ddu8_ddd(d, rgba_to_bgra),
        420 => g_plmu8_su8_dr(d, rgba_to_gbr),
        421 => g_su8_ddu8_ddd(d, rgba_to_rgb),
        422 => g_plmu8_su8_drxg(d, rgba_to_sharp_yuv420),
        423 => g_plmu8_su8_drxg(d, rgba_to_sharp_yuv422),
        424 => g_plmu8_su8_dr(d, rgba_to_ycgco420),
        425 => g_plmu8_su8_dr(d, rgba_to_ycgco422),
        426 => g_plmu8_su8_dr(d, rgba_to_ycgco444),
        427 => g_grmu8_su8_drx(d, rgba_to_yuv400),
        428 => g_plmu8_su8_drxm(d, rgba_to_yuv420),
        429 => g_plmu8_su8_drxm(d, rgba_to_yuv422),
        430 => g_plmu8_su8_drxm(d, rgba_to_yuv444),
        431 => g_bimu8_su8_drxm(d, rgba_to_yuv_nv12),
        432 => g_bimu8_su8_drxm(d, rgba_to_yuv_nv16),
        433 => g_bimu8_su8_drxm(d, rgba_to_yuv_nv21),
        434 => g_bimu8_su8_drxm(d, rgba_to_yuv_nv24),
        435 => g_bimu8_su8_drxm(d, rgba_to_yuv_nv42),
        436 => g_bimu8_su8_drxm(d, rgba_to_yuv_nv61),
        #[cfg(feature = "geometry")] 437 => g_su8_zdu8_zzzrot(d, rotate_cbcr),
        #[cfg(feature = "geometry")] 438 => g_su16_zdu16_zzzrot(d, rotate_cbcr16),
        #[cfg(feature = "geometry")] 439 => g_su8_zdu8_zzzrot(d, rotate_plane),
        #[cfg(feature = "geometry")] 440 => g_su16_zdu16_zzzrot(d, rotate_plane16),
        #[cfg(feature = "geometry")] 441 => g_su8_zdu8_zzzrot(d, rotate_rgb),
        #[cfg(feature = "geometry")] 442 => g_su16_zdu16_zzzrot(d, rotate_rgb16),
        #[cfg(feature = "geometry")] 443 => g_su8_zdu8_zzzrot(d, rotate_rgba),
        #[cfg(feature = "geometry")] 444 => g_su16_zdu16_zzzrot(d, rotate_rgba16),
        445 => g_pku8_du8_drx(d, uyvy422_to_bgr),
        446 => g_pku8_du8_drx(d, uyvy422_to_bgra),
        447 => g_pku8_du8_drx(d, uyvy422_to_rgb),
        448 => g_pku16_du16_ddrx(d, uyvy422_to_rgb_p16),
        449 => g_pku8_du8_drx(d, uyvy422_to_rgba),
        450 => g_pku16_du16_ddrx(d, uyvy422_to_rgba_p16),
        451 => g_plmu8_pku8(d, uyvy422_to_yuv420),
        452 => g_plmu16_pku16(d, uyvy422_to_yuv420_p16),
        453 => g_plmu8_pku8(d, uyvy422_to_yuv422),
        454 => g_plmu16_pku16(d, uyvy422_to_yuv422_p16),
        455 => g_plmu8_pku8(d, uyvy422_to_yuv444),
        456 => g_plmu16_pku16(d, uyvy422_to_yuv444_p16),
        457 => g_pku8_du8_drxp(d, vyua_to_rgb),
        458 => g_pku8_du8_drxp(d, vyua_to_rgba),
        459 => g_pku8_du8_drx(d, vyuy422_to_bgr),
        460 => g_pku8_du8_drx(d, vyuy422_to_bgra),
        461 => g_pku8_du8_drx(d, vyuy422_to_rgb),
        462 => g_pku16_du16_ddrx(d, vyuy422_to_rgb_p16),
        463 => g_pku8_du8_drx(d, vyuy422_to_rgba),
        464 => g_pku16_du16_ddrx(d, vyuy422_to_rgba_p16),
        465 => g_plmu8_pku8(d, vyuy422_to_yuv420),
        466 => g_plmu16_pku16(d, vyuy422_to_yuv420_p16),
        467 => g_plmu8_pku8(d, vyuy422_to_yuv422),
        468 => g_plmu16_pku16(d, vyuy422_to_yuv422_p16),
        469 => g_plmu8_pku8(d, vyuy422_to_yuv444),
        470 => g_plmu16_pku16(d, vyuy422_to_yuv444_p16),
        471 => g_grau16_du16_drx(d, y010_alpha_to_rgba10),
        472 => g_gru16_du16_drx(d, y010_to_rgb10),
        473 => g_gru16_du16_drx(d, y010_to_rgba10),
        474 => g_grau16_du16_drx(d, y012_alpha_to_rgba12),
        475 => g_gru16_du16_drx(d, y012_to_rgb12),
        476 => g_gru16_du16_drx(d, y012_to_rgba12),
        477 => g_grau16_du16_drx(d, y014_alpha_to_rgba14),
        478 => g_gru16_du16_drx(d, y014_to_rgb14),
        479 => g_gru16_du16_drx(d, y014_to_rgba14),
        480 => g_grau16_du16_drx(d, y016_alpha_to_rgba16),
        481 => g_gru16_du16_drx(d, y016_to_rgb16),
        482 => g_gru16_du16_drx(d, y016_to_rgba16),
        483 => g_plau8_du8_dr(d, ycgco420_alpha_to_bgra),
        484 => g_plau8_du8_dr(d, ycgco420_alpha_to_rgba),
        485 => g_plu8_du8_dr(d, ycgco420_to_bgr),
        486 => g_plu8_du8_dr(d, ycgco420_to_bgra),
        487 => g_plu8_du8_dr(d, ycgco420_to_rgb),
        488 => g_plu8_du8_dr(d, ycgco420_to_rgba),
        489 => g_plau8_du8_dr(d, ycgco422_alpha_to_bgra),
        490 => g_plau8_du8_dr(d, ycgco422_alpha_to_rgba),
        491 => g_plu8_du8_dr(d, ycgco422_to_bgr),
        492 => g_plu8_du8_dr(d, ycgco422_to_bgra),
        493 => g_plu8_du8_dr(d, ycgco422_to_rgb),
        494 => g_plu8_du8_dr(d, ycgco422_to_rgba),
        495 => g_plau8_du8_dr(d, ycgco444_alpha_to_bgra),
        496 => g_plau8_du8_dr(d, ycgco444_alpha_to_rgba),
        497 => g_plu8_du8_dr(d, ycgco444_to_bgr),
        498 => g_plu8_du8_dr(d, ycgco444_to_bgra),
        499 => g_plu8_du8_dr(d, ycgco444_to_rgb),
        500 => g_plu8_du8_dr(d, ycgco444_to_rgba),
        501 => g_grau8_du8_drx(d, yuv400_alpha_to_bgra),
        502 => g_grau8_du8_drx(d, yuv400_alpha_to_rgba),
        503 => g_gru8_du8_drx(d, yuv400_to_bgr),
        504 => g_gru8_du8_drx(d, yuv400_to_bgra),
        505 => g_gru8_du8_drx(d, yuv400_to_rgb),
        506 => g_gru8_du8_drx(d, yuv400_to_rgba),
        507 => g_plau8_du8_drxp(d, yuv420_alpha_to_bgra),
        508 => g_plau8_du8_drxp(d, yuv420_alpha_to_rgba),
        509 => g_plu8_du8_drx(d, yuv420_to_bgr),
        510 => g_plu8_du8_drx(d, yuv420_to_bgra),
        511 => g_plu8_du8_drx(d, yuv420_to_rgb),
        512 => g_plu8_du8_drx(d, yuv420_to_rgba),
        513 => g_pkmu8_plu8(d, yuv420_to_uyvy422),
        514 => g_pkmu16_plu16(d, yuv420_to_uyvy422_p16),
        515 => g_pkmu8_plu8(d, yuv420_to_vyuy422),
        516 => g_pkmu16_plu16(d, yuv420_to_vyuy422_p16),
        517 => g_pkmu8_plu8(d, yuv420_to_yuyv422),
        518 => g_pkmu16_plu16(d, yuv420_to_yuyv422_p16),
        519 => g_pkmu8_plu8(d, yuv420_to_yvyu422),
        520 => g_pkmu16_plu16(d, yuv420_to_yvyu422_p16),
        521 => g_plau8_du8_drxp(d, yuv422_alpha_to_bgra),
        522 => g_plau8_du8_drxp(d, yuv422_alpha_to_rgba),
        523 => g_plu8_du8_drx(d, yuv422_to_bgr),
        524 => g_plu8_du8_drx(d, yuv422_to_bgra),
        525 => g_plu8_du8_drx(d, yuv422_to_rgb),
        526 => g_plu8_du8_drx(d, yuv422_to_rgba),
        527 => g_pkmu8_plu8(d, yuv422_to_uyvy422),
        528 => g_pkmu16_plu16(d, yuv422_to_uyvy422_p16),
        529 => g_pkmu8_plu8(d, yuv422_to_vyuy422),
        530 => g_pkmu16_plu16(d, yuv422_to_vyuy422_p16),
        531 => g_pkmu8_plu8(d, yuv422_to_yuyv422),
        532 => g_pkmu16_plu16(d, yuv422_to_yuyv422_p16),
        533 => g_pkmu8_plu8(d, yuv422_to_yvyu422),
        534 => g_pkmu16_plu16(d, yuv422_to_yvyu422_p16),
        535 => g_plau8_du8_drxp(d, yuv444_alpha_to_bgra),
        536 => g_plau8_du8_drxp(d, yuv444_alpha_to_rgba),
        537 => g_plu8_du8_drx(d, yuv444_to_bgr),
        538 => g_plu8_du8_drx(d, yuv444_to_bgra),
        539 => g_plu8_du8_drx(d, yuv444_to_rgb),
        540 => g_plu8_du8_drx(d, yuv444_to_rgba),
        541 => g_pkmu8_plu8(d, yuv444_to_uyvy422),
        542 => g_pkmu16_plu16(d, yuv444_to_uyvy422_p16),
        543 => g_pkmu8_plu8(d, yuv444_to_vyuy422),
        544 => g_pkmu16_plu16(d, yuv444_to_vyuy422_p16),
        545 => g_pkmu8_plu8(d, yuv444_to_yuyv422),
        546 => g_pkmu16_plu16(d, yuv444_to_yuyv422_p16),
        547 => g_pkmu8_plu8(d, yuv444_to_yvyu422),
        548 => g_pkmu16_plu16(d, yuv444_to_yvyu422_p16),
        549 => g_biu8_du8_drxm(d, yuv_nv12_to_bgr),
        550 => g_biu8_du8_drxm(d, yuv_nv12_to_bgra),
        551 => g_biu8_du8_drxm(d, yuv_nv12_to_rgb),
        552 => g_biu8_du8_drxm(d, yuv_nv12_to_rgba),
        553 => g_biu8_du8_drxm(d, yuv_nv16_to_bgr),
        554 => g_biu8_du8_drxm(d, yuv_nv16_to_bgra),
        555 => g_biu8_du8_drxm(d, yuv_nv16_to_rgb),
        556 => g_biu8_du8_drxm(d, yuv_nv16_to_rgba),
        557 => g_biu8_du8_drxm(d, yuv_nv21_to_bgr),
        558 => g_biu8_du8_drxm(d, yuv_nv21_to_bgra),
        559 => g_biu8_du8_drxm(d, yuv_nv21_to_rgb),
        560 => g_biu8_du8_drxm(d, yuv_nv21_to_rgba),
        561 => g_biu8_du8_drxm(d, yuv_nv24_to_bgr),
        562 => g_biu8_du8_drxm(d, yuv_nv24_to_bgra),
        563 => g_biu8_du8_drxm(d, yuv_nv24_to_rgb),
        564 => g_biu8_du8_drxm(d, yuv_nv24_to_rgba),
        565 => g_biu8_du8_drxm(d, yuv_nv42_to_bgr),
        566 => g_biu8_du8_drxm(d, yuv_nv42_to_bgra),
        567 => g_biu8_du8_drxm(d, yuv_nv42_to_rgb),
        568 => g_biu8_du8_drxm(d, yuv_nv42_to_rgba),
        569 => g_biu8_du8_drxm(d, yuv_nv61_to_bgr),
        570 => g_biu8_du8_drxm(d, yuv_nv61_to_bgra),
        571 => g_biu8_du8_drxm(d, yuv_nv61_to_rgb),
        572 => g_biu8_du8_drxm(d, yuv_nv61_to_rgba),
        573 => g_pku8_du8_drx(d, yuyv422_to_bgr),
        574 => g_pku8_du8_drx(d, yuyv422_to_bgra),
        575 => g_pku8_du8_drx(d, yuyv422_to_rgb),
        576 => g_pku16_du16_ddrx(d, yuyv422_to_rgb_p16),
        577 => g_pku8_du8_drx(d, yuyv422_to_rgba),
        578 => g_pku16_du16_ddrx(d, yuyv422_to_rgba_p16),
        579 => g_plmu8_pku8(d, yuyv422_to_yuv420),
        580 => g_plmu16_pku16(d, yuyv422_to_yuv420_p16),
        581 => g_plmu8_pku8(d, yuyv422_to_yuv422),
        582 => g_plmu16_pku16(d, yuyv422_to_yuv422_p16),
        583 => g_plmu8_pku8(d, yuyv422_to_yuv444),
        584 => g_plmu16_pku16(d, yuyv422_to_yuv444_p16),
        585 => g_pku8_du8_drx(d, yvyu422_to_bgr),
        586 => g_pku8_du8_drx(d, yvyu422_to_bgra),
        587 => g_pku8_du8_drx(d, yvyu422_to_rgb),
        588 => g_pku16_du16_ddrx(d, yvyu422_to_rgb_p16),
        589 => g_pku8_du8_drx(d, yvyu422_to_rgba),
        590 => g_pku16_du16_ddrx(d, yvyu422_to_rgba_p16),
        591 => g_plmu8_pku8(d, yvyu422_to_yuv420),
        592 => g_plmu16_pku16(d, yvyu422_to_yuv420_p16),
        593 => g_plmu8_pku8(d, yvyu422_to_yuv422),
        594 => g_plmu16_pku16(d, yvyu422_to_yuv422_p16),
        595 => g_plmu8_pku8(d, yvyu422_to_yuv444),
        596 => g_plmu16_pku16(d, yvyu422_to_yuv444_p16),
        _ => Ret::Unsupported,
    }
}
