//! Real-valued reference model of every conversion, written from the published definitions
//! (ITU-T H.273 matrices and ranges, YCgCo, MS-RDPRFX), not from the crate's arithmetic.
//! Everything is expressed in units of one code value of the output sample.
use crate::case::*;
use crate::spec::*;

pub struct Ideal {
    pub role: Role,
    pub w: usize,
    pub h: usize,
    /// ideal output, already limited to the representable range
    pub v: Vec<f64>,
    /// second acceptable value (anything between the two is ideal): luma below nominal black may or may not be
    /// limited to black before chroma is added
    pub alt: Option<Vec<f64>>,
}
impl Ideal {
    /// signed distance of a value from the ideal
    #[inline]
    pub fn dev(&self, k: usize, x: f64) -> f64 {
        let a = self.v[k];
        match &self.alt {
            None => x - a,
            Some(b) => {
                let (lo, hi) = if a < b[k] { (a, b[k]) } else { (b[k], a) };
                if x < lo {
                    x - lo
                } else if x > hi {
                    x - hi
                } else {
                    0.0
                }
            }
        }
    }
}

pub fn kr_kb(c: &Case) -> (f64, f64) {
    match c.matrix {
        0 => (0.299, 0.114),
        1 => (0.2126, 0.0722),
        2 => (0.2627, 0.0593),
        3 => SMPTE240,
        4 => (0.2220, 0.0713),
        5 => (0.30, 0.11),
        _ => (c.kr as f64 / 1000.0, c.kb as f64 / 1000.0),
    }
}
pub const SMPTE240: (f64, f64) = (0.212, 0.087);

/// (luma bias, luma range, chroma midpoint, chroma range)
pub fn ranges(range: u32, depth: u32) -> (f64, f64, f64, f64) {
    let s = 2f64.powi(depth as i32 - 8);
    let max = 2f64.powi(depth as i32) - 1.0;
    let half = 2f64.powi(depth as i32 - 1);
    if range == 0 {
        (16.0 * s, 219.0 * s, half, 224.0 * s)
    } else {
        (0.0, max, half, max)
    }
}

fn avg(ch: &Chan, sx: usize, sy: usize) -> Chan2 {
    let (w, h) = (ch.w.div_ceil(sx), ch.h.div_ceil(sy));
    let mut v = vec![0.0; w * h];
    for y in 0..h {
        for x in 0..w {
            let mut s = 0.0;
            let mut n = 0.0;
            for j in y * sy..((y + 1) * sy).min(ch.h) {
                for i in x * sx..((x + 1) * sx).min(ch.w) {
                    s += ch.at(i, j) as f64;
                    n += 1.0;
                }
            }
            v[y * w + x] = s / n;
        }
    }
    Chan2 { w, h, v }
}
struct Chan2 {
    w: usize,
    h: usize,
    v: Vec<f64>,
}

fn out(role: Role, w: usize, h: usize, max: f64, v: Vec<f64>) -> Ideal {
    Ideal { role, w, h, v: v.into_iter().map(|x| x.clamp(0.0, max)).collect(), alt: None }
}

/// Ideal output of a lossy colour conversion, per output channel. None for pure data movement.
pub fn ideal(s: &Spec, c: &Case, a: &Abs) -> Vec<Ideal> {
    let d = s.depth_of(c);
    let max_in = 2f64.powi(d as i32) - 1.0;
    // f16 output is compared in code values of the source depth
    let d_out = if s.has_depth || s.dst.el() == El::F16 { d } else { s.dst.depth };
    let max_out = 2f64.powi(d_out as i32) - 1.0;
    let (kr, kb) = kr_kb(c);
    let kg = 1.0 - kr - kb;
    let (by, ry, half, ruv) = ranges(c.range, d);
    let (w, h) = (c.w, c.h);
    let mut o = vec![];
    let rgbf = |f: &dyn Fn(usize, usize) -> (f64, f64, f64)| {
        let mut v = [vec![0.0; w * h], vec![0.0; w * h], vec![0.0; w * h]];
        for y in 0..h {
            for x in 0..w {
                let (r, g, b) = f(x, y);
                v[0][y * w + x] = r;
                v[1][y * w + x] = g;
                v[2][y * w + x] = b;
            }
        }
        v
    };
    match s.kind {
        Kind::Enc | Kind::Sharp => {
            let (r, g, b) = (a.get(Role::R), a.get(Role::G), a.get(Role::B));
            let y: Vec<f64> =
                (0..w * h).map(|i| by + (kr * r.data[i] as f64 + kg * g.data[i] as f64 + kb * b.data[i] as f64) * ry / max_in).collect();
            o.push(out(Role::Y, w, h, max_out, y));
            if s.dst.ss != Ss::S400 {
                let (sx, sy) = (s.dst.ss.x(), s.dst.ss.y());
                let (ra, ga, ba) = (avg(r, sx, sy), avg(g, sx, sy), avg(b, sx, sy));
                let n = ra.v.len();
                let mut u = vec![0.0; n];
                let mut v = vec![0.0; n];
                for i in 0..n {
                    let yy = kr * ra.v[i] + kg * ga.v[i] + kb * ba.v[i];
                    u[i] = half + (ba.v[i] - yy) / (2.0 * (1.0 - kb)) * ruv / max_in;
                    v[i] = half + (ra.v[i] - yy) / (2.0 * (1.0 - kr)) * ruv / max_in;
                }
                o.push(out(Role::U, ra.w, ra.h, max_out, u));
                o.push(out(Role::V, ra.w, ra.h, max_out, v));
            }
        }
        Kind::Dec => {
            let yc = a.get(Role::Y);
            let (sx, sy) = (s.src.ss.x(), s.src.ss.y());
            let uv = a.opt(Role::U).map(|u| (u, a.get(Role::V)));
            let (sx, sy) = if s.src.ss == Ss::S400 { (1, 1) } else { (sx, sy) };
            // The fast mode stores its multipliers in 1.6 fixed point as signed bytes, so it documents less precision:
            // a multiplier above 127/64 is cut.
            let fast = s.has_mode && c.mode == 0 && s.src.depth == 8;
            let cut = if fast { (127.0 / 64.0) / (255.0 / 224.0) } else { f64::MAX };
            let model = |clamp: bool, cut_cb: bool| {
                let mut v = rgbf(&|x, y| {
                    let mut yy = (yc.at(x, y) as f64 - by) / ry;
                    if clamp {
                        yy = yy.max(0.0);
                    }
                    let (cb, cr) = match uv {
                        Some((u, v)) => ((u.at(x / sx, y / sy) as f64 - half) / ruv, (v.at(x / sx, y / sy) as f64 - half) / ruv),
                        None => (0.0, 0.0),
                    };
                    let r = yy + 2.0 * (1.0 - kr) * cr;
                    let b = yy + if cut_cb { (2.0 * (1.0 - kb)).min(cut) } else { 2.0 * (1.0 - kb) } * cb;
                    let g = yy - 2.0 * (1.0 - kr) * kr / kg * cr - 2.0 * (1.0 - kb) * kb / kg * cb;
                    (r * max_out, g * max_out, b * max_out)
                });
                for q in v.iter_mut() {
                    for x in q.iter_mut() {
                        *x = x.clamp(0.0, max_out);
                    }
                }
                if s.has_premul && c.flag != 0 {
                    let al = a.get(Role::A);
                    for q in v.iter_mut() {
                        for (x, &al) in q.iter_mut().zip(al.data.iter()) {
                            *x = *x * al as f64 / max_in;
                        }
                    }
                }
                v
            };
            let mut lo = model(false, false);
            let mut hi = lo.clone();
            let mut also = |m: [Vec<f64>; 3]| {
                for k in 0..3 {
                    for (i, &x) in m[k].iter().enumerate() {
                        lo[k][i] = lo[k][i].min(x);
                        hi[k][i] = hi[k][i].max(x);
                    }
                }
            };
            let black = by > 0.0;
            if black {
                also(model(true, false));
            }
            if fast {
                also(model(false, true));
                if black {
                    also(model(true, true));
                }
            }
            for (role, (l, h2)) in [Role::R, Role::G, Role::B].into_iter().zip(lo.into_iter().zip(hi)) {
                let mut i = out(role, w, h, max_out, l);
                i.alt = if black || fast { Some(h2) } else { None };
                o.push(i);
            }
        }
        Kind::EncId => {
            for role in [Role::R, Role::G, Role::B] {
                let ch = a.get(role);
                o.push(out(role, w, h, max_out, ch.data.iter().map(|&v| by + v as f64 * ry / max_in).collect()));
            }
        }
        Kind::DecId => {
            for role in [Role::R, Role::G, Role::B] {
                let ch = a.get(role);
                o.push(out(role, w, h, max_out, ch.data.iter().map(|&v| (v as f64 - by) / ry * max_out).collect()));
            }
        }
        Kind::EncCgco => {
            let (r, g, b) = (a.get(Role::R), a.get(Role::G), a.get(Role::B));
            let y: Vec<f64> = (0..w * h)
                .map(|i| by + (0.25 * r.data[i] as f64 + 0.5 * g.data[i] as f64 + 0.25 * b.data[i] as f64) * ry / max_in)
                .collect();
            o.push(out(Role::Y, w, h, max_out, y));
            let (sx, sy) = (s.dst.ss.x(), s.dst.ss.y());
            let (ra, ga, ba) = (avg(r, sx, sy), avg(g, sx, sy), avg(b, sx, sy));
            let n = ra.v.len();
            let cg = (0..n).map(|i| half + (0.5 * ga.v[i] - 0.25 * (ra.v[i] + ba.v[i])) * ruv / max_in).collect();
            let co = (0..n).map(|i| half + 0.5 * (ra.v[i] - ba.v[i]) * ruv / max_in).collect();
            o.push(out(Role::U, ra.w, ra.h, max_out, cg));
            o.push(out(Role::V, ra.w, ra.h, max_out, co));
        }
        Kind::DecCgco => {
            let (yc, u, v) = (a.get(Role::Y), a.get(Role::U), a.get(Role::V));
            let (sx, sy) = (s.src.ss.x(), s.src.ss.y());
            let [r, g, b] = rgbf(&|x, y| {
                let yy = (yc.at(x, y) as f64 - by) / ry;
                let cg = (u.at(x / sx, y / sy) as f64 - half) / ruv;
                let co = (v.at(x / sx, y / sy) as f64 - half) / ruv;
                ((yy - cg + co) * max_out, (yy + cg) * max_out, (yy - cg - co) * max_out)
            });
            o.push(out(Role::R, w, h, max_out, r));
            o.push(out(Role::G, w, h, max_out, g));
            o.push(out(Role::B, w, h, max_out, b));
        }
        Kind::RdpEnc => {
            let (r, g, b) = (a.get(Role::R), a.get(Role::G), a.get(Role::B));
            let f = |kr: f64, kg: f64, kb: f64, off: f64| -> Vec<f64> {
                (0..w * h).map(|i| off + 32.0 * (kr * r.data[i] as f64 + kg * g.data[i] as f64 + kb * b.data[i] as f64)).collect()
            };
            let mk = |role, v| Ideal { role, w, h, v, alt: None };
            o.push(mk(Role::Y, f(0.299, 0.587, 0.114, -4096.0)));
            o.push(mk(Role::U, f(-0.168935, -0.331665, 0.50059, 0.0)));
            o.push(mk(Role::V, f(0.499813, -0.418531, -0.081282, 0.0)));
        }
        Kind::RdpDec => {
            let (yc, u, v) = (a.get(Role::Y), a.get(Role::U), a.get(Role::V));
            let [r, g, b] = rgbf(&|x, y| {
                let yy = yc.at(x, y) as f64 + 4096.0;
                let (cb, cr) = (u.at(x, y) as f64, v.at(x, y) as f64);
                ((yy + 1.402525 * cr) / 32.0, (yy - 0.343730 * cb - 0.714401 * cr) / 32.0, (yy + 1.769905 * cb) / 32.0)
            });
            o.push(out(Role::R, w, h, 255.0, r));
            o.push(out(Role::G, w, h, 255.0, g));
            o.push(out(Role::B, w, h, 255.0, b));
        }
        Kind::ToF16 => {
            for ch in &a.ch {
                o.push(out(ch.role, ch.w, ch.h, max_in, ch.data.iter().map(|&v| v as f64).collect()));
            }
        }
        Kind::FromF16 => {
            for ch in &a.ch {
                o.push(out(ch.role, ch.w, ch.h, max_in, ch.data.iter().map(|&v| f16_to_f64(v as u16) * max_in).collect()));
            }
        }
        _ => {}
    }
    // alpha
    if s.dst.has(Role::A) && matches!(s.kind, Kind::Dec | Kind::DecId | Kind::DecCgco | Kind::RdpDec) {
        let amax = if s.dst.word32 { 3.0 } else { max_out };
        let v = match a.opt(Role::A) {
            Some(al) => al.data.iter().map(|&v| v as f64 / max_in * amax).collect(),
            None => vec![amax; w * h],
        };
        o.push(out(Role::A, w, h, amax, v));
    }
    o
}

/// Output sample in code values (f16 output is scaled by the source maximum).
pub fn code_value(s: &Spec, c: &Case, v: i32) -> f64 {
    if s.dst.el() == El::F16 {
        f16_to_f64(v as u16) * (2f64.powi(s.depth_of(c) as i32) - 1.0)
    } else {
        v as f64
    }
}
