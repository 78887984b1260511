//! Reference model of the "sharp" chroma subsampling: chroma is computed from colours averaged in linear light.
use crate::case::*;
use crate::oracle::{kr_kb, ranges};
use crate::spec::*;

fn to_linear(g: u32, x: f64) -> f64 {
    match g {
        0 => {
            if x < 0.0 {
                0.0
            } else if x < 12.92 * 0.0030412825601275209 {
                x / 12.92
            } else if x < 1.0 {
                ((x + 0.0550107189475866) / 1.0550107189475866).powf(2.4)
            } else {
                1.0
            }
        }
        1 => {
            if x < 0.0 {
                0.0
            } else if x < 4.5 * 0.018053968510807 {
                x / 4.5
            } else if x < 1.0 {
                ((x + 0.09929682680944) / 1.09929682680944).powf(1.0 / 0.45)
            } else {
                1.0
            }
        }
        2 => x.clamp(0.0, 1.0).powf(2.2),
        _ => x.clamp(0.0, 1.0).powf(2.8),
    }
}
fn from_linear(g: u32, x: f64) -> f64 {
    match g {
        0 => {
            if x < 0.0 {
                0.0
            } else if x < 0.0030412825601275209 {
                x * 12.92
            } else if x < 1.0 {
                1.0550107189475866 * x.powf(1.0 / 2.4) - 0.0550107189475866
            } else {
                1.0
            }
        }
        1 => {
            if x < 0.0 {
                0.0
            } else if x < 0.018053968510807 {
                x * 4.5
            } else if x < 1.0 {
                1.09929682680944 * x.powf(0.45) - 0.09929682680944
            } else {
                1.0
            }
        }
        2 => x.clamp(0.0, 1.0).powf(1.0 / 2.2),
        _ => x.clamp(0.0, 1.0).powf(1.0 / 2.8),
    }
}

pub struct Bounds {
    pub w: usize,
    pub h: usize,
    pub lo: [Vec<f64>; 2],
    pub hi: [Vec<f64>; 2],
}

/// Interval every chroma sample (U, V) has to lie in.
pub fn chroma(s: &Spec, c: &Case, a: &Abs) -> Bounds {
    let (kr, kb) = kr_kb(c);
    let kg = 1.0 - kr - kb;
    let (_, _, half, ruv) = ranges(c.range, 8);
    let by = if c.range == 0 { 16.0 } else { 0.0 };
    let lin: Vec<f64> = (0..256).map(|v| (65535.0 * to_linear(c.gamma, v as f64 / 255.0)).floor()).collect();
    let (sx, sy) = (s.dst.ss.x(), s.dst.ss.y());
    let (w, h) = (c.w.div_ceil(sx), c.h.div_ceil(sy));
    let mut b = Bounds { w, h, lo: [vec![], vec![]], hi: [vec![], vec![]] };
    for y in 0..h {
        for x in 0..w {
            let mut rg = [(0.0, 0.0); 3];
            for (k, role) in [Role::R, Role::G, Role::B].into_iter().enumerate() {
                let ch = a.get(role);
                let x0 = 2 * x;
                let y0 = if sy == 2 { 2 * y } else { y };
                let y1 = if sy == 2 { (y0 + 1).min(c.h - 1) } else { y0 };
                let odd = x0 + 1 >= c.w;
                let l = |x: usize, y: usize| lin[ch.at(x, y) as usize];
                if odd && sy == 1 {
                    let v = ch.at(x0, y0) as f64;
                    rg[k] = (v, v);
                    continue;
                }
                let m = if sy == 1 {
                    (12.0 * l(x0, y0) + 4.0 * l(x0 + 1, y0)) / 16.0
                } else if odd {
                    (12.0 * l(x0, y0) + 4.0 * l(x0, y1)) / 16.0
                } else {
                    (9.0 * l(x0, y0) + 3.0 * l(x0 + 1, y0) + 3.0 * l(x0, y1) + l(x0 + 1, y1)) / 16.0
                };
                let lo = (255.0 * from_linear(c.gamma, (m - 2.0) / 65535.0) - 1.0).max(0.0);
                let hi = (255.0 * from_linear(c.gamma, (m + 2.0) / 65535.0)).min(255.0);
                rg[k] = (lo, hi);
            }
            let cu = [-kr / (2.0 * (1.0 - kb)), -kg / (2.0 * (1.0 - kb)), 0.5];
            let cv = [0.5, -kg / (2.0 * (1.0 - kr)), -kb / (2.0 * (1.0 - kr))];
            for (i, co) in [cu, cv].iter().enumerate() {
                let (mut lo, mut hi) = (half, half);
                for k in 0..3 {
                    let f = co[k] * ruv / 255.0;
                    if f > 0.0 {
                        lo += f * rg[k].0;
                        hi += f * rg[k].1;
                    } else {
                        lo += f * rg[k].1;
                        hi += f * rg[k].0;
                    }
                }
                b.lo[i].push(lo.clamp(by, by + ruv));
                b.hi[i].push(hi.clamp(by, (by + ruv).min(255.0)));
            }
        }
    }
    b
}
