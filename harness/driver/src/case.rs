//! A generated case: everything a run depends on, small enough to shrink and to write to a replay file.
use crate::spec::*;
use serde::{Deserialize, Serialize};

pub const NP: usize = 6;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Case {
    pub fn_id: u32,
    pub name: String,
    pub w: usize,
    pub h: usize,
    /// row padding per plane, in elements (inputs first, then outputs)
    pub pad: [usize; NP],
    /// 0: len = stride*rows, 1: last row stops after its last pixel, 2: some elements more, 3: whole extra rows
    pub tail: [u8; NP],
    /// 0: ends at an inaccessible page, 1: starts after one, k>=2: k-1 elements after one
    pub place: [u8; NP],
    pub range: u32,
    pub matrix: u32,
    /// custom matrix, in 1/1000
    pub kr: u32,
    pub kb: u32,
    pub mode: u32,
    pub order: u32,
    pub flag: u32,
    pub depth: u32,
    pub gamma: u32,
    pub geo: u32,
    pub alloc: u32,
    pub pat: u8,
    pub seed: u64,
    /// check-specific variation
    pub aux: u64,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a ^ b.wrapping_mul(0x9E3779B97F4A7C15));
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() >> 32) * n) >> 32
    }
}

#[derive(Clone, Debug)]
pub struct Chan {
    pub role: Role,
    pub w: usize,
    pub h: usize,
    pub data: Vec<i32>,
}
impl Chan {
    #[inline]
    pub fn at(&self, x: usize, y: usize) -> i32 {
        self.data[y * self.w + x]
    }
}

/// An image as plain sample planes, free of any storage detail.
#[derive(Clone, Debug, Default)]
pub struct Abs {
    pub ch: Vec<Chan>,
}
impl Abs {
    pub fn get(&self, r: Role) -> &Chan {
        self.ch.iter().find(|c| c.role == r).unwrap()
    }
    pub fn opt(&self, r: Role) -> Option<&Chan> {
        self.ch.iter().find(|c| c.role == r)
    }
    pub fn new(f: &Fmt, w: usize, h: usize) -> Abs {
        Abs {
            ch: f
                .chans
                .iter()
                .map(|c| {
                    let (cw, chh) = (w.div_ceil(c.sx), h.div_ceil(c.sy));
                    Chan { role: c.role, w: cw, h: chh, data: vec![0; cw * chh] }
                })
                .collect(),
        }
    }
}

pub struct Layout {
    pub row: usize,
    pub rows: usize,
    pub stride: usize,
    /// elements
    pub len: usize,
    pub es: usize,
}

pub fn layout(s: &Spec, c: &Case, i: usize) -> Layout {
    let p = s.plane(i);
    let (w, h) = if i < s.nin() { (c.w, c.h) } else { s.out_dims(c.w, c.h, c.geo) };
    let row = p.row(w);
    let rows = p.rows(h);
    let (pad, tail) = if p.strict == Strict::Exact { (0, 0) } else { (c.pad[i], c.tail[i]) };
    let stride = row + pad;
    let len = match tail {
        0 => stride * rows,
        1 => stride * (rows - 1) + row,
        2 => stride * rows + (1 + c.pad[(i + 1) % NP]).min(stride - 1),
        _ => stride * (rows + 2) + 1,
    };
    Layout { row, rows, stride, len, es: p.el.size() }
}

pub fn get_el(b: &[u8], es: usize, i: usize) -> u32 {
    if es == 1 {
        b[i] as u32
    } else {
        u16::from_le_bytes([b[2 * i], b[2 * i + 1]]) as u32
    }
}
pub fn put_el(b: &mut [u8], es: usize, i: usize, v: u32) {
    if es == 1 {
        b[i] = v as u8
    } else {
        b[2 * i..2 * i + 2].copy_from_slice(&(v as u16).to_le_bytes())
    }
}

/// Reads an image out of raw planes. `lows` counts samples whose low (shifted-out) bits are not zero.
pub fn load(f: &Fmt, planes: &[&[u8]], strides: &[usize], w: usize, h: usize, order: u32, lows: &mut usize) -> Abs {
    let mut a = Abs::new(f, w, h);
    for (c, o) in f.chans.iter().zip(a.ch.iter_mut()) {
        let b = planes[c.plane];
        let el = f.planes[c.plane].el;
        let es = el.size();
        let (cw, chh) = (o.w, o.h);
        for y in 0..chh {
            let base = y * strides[c.plane];
            for x in 0..cw {
                let i = base + x * c.mul + c.off;
                let v = match c.store {
                    Store::Plain { be, shift } => {
                        let mut v = get_el(b, es, i);
                        if be {
                            v = (v as u16).swap_bytes() as u32;
                        }
                        if shift > 0 && v & ((1 << shift) - 1) != 0 {
                            *lows += 1;
                        }
                        v >>= shift;
                        if el == El::I16 {
                            v as u16 as i16 as i32
                        } else {
                            v as i32
                        }
                    }
                    Store::Field { pos, bits } => {
                        let q = [b[i], b[i + 1], b[i + 2], b[i + 3]];
                        let v = if order == 0 { u32::from_le_bytes(q) } else { u32::from_be_bytes(q) };
                        ((v >> pos) & ((1 << bits) - 1)) as i32
                    }
                };
                o.data[y * cw + x] = v;
            }
        }
    }
    a
}

pub fn store(f: &Fmt, a: &Abs, planes: &mut [Vec<u8>], strides: &[usize], order: u32) {
    for (c, o) in f.chans.iter().zip(a.ch.iter()) {
        let es = f.planes[c.plane].el.size();
        let b = &mut planes[c.plane];
        for y in 0..o.h {
            let base = y * strides[c.plane];
            for x in 0..o.w {
                let i = base + x * c.mul + c.off;
                let v = o.data[y * o.w + x];
                match c.store {
                    Store::Plain { be, shift } => {
                        let mut v = (v as u32) << shift;
                        if be {
                            v = (v as u16).swap_bytes() as u32;
                        }
                        put_el(b, es, i, v);
                    }
                    Store::Field { pos, bits } => {
                        let q = [b[i], b[i + 1], b[i + 2], b[i + 3]];
                        let old = if order == 0 { u32::from_le_bytes(q) } else { u32::from_be_bytes(q) };
                        let m = ((1u32 << bits) - 1) << pos;
                        let n = (old & !m) | (((v as u32) << pos) & m);
                        let q = if order == 0 { n.to_le_bytes() } else { n.to_be_bytes() };
                        b[i..i + 4].copy_from_slice(&q);
                    }
                }
            }
        }
    }
}

pub fn f16_to_f64(b: u16) -> f64 {
    let s = if b >> 15 == 1 { -1.0 } else { 1.0 };
    let e = ((b >> 10) & 31) as i32;
    let m = (b & 1023) as f64;
    match e {
        0 => s * m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                s * f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => s * (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    }
}
/// round-to-nearest-even, for finite values in the range of f16
pub fn f64_to_f16(v: f64) -> u16 {
    if v <= 0.0 {
        return 0;
    }
    let e = (v.log2().floor() as i32).max(-14);
    let ulp = 2f64.powi(e - 10);
    let q = (v / ulp).round_ties_even() as u32;
    if e == -14 {
        return q as u16; // subnormals and the first binade are contiguous
    }
    let (mut e, mut q) = (e, q);
    if q == 2048 {
        e += 1;
        q = 1024;
    }
    if e > 15 {
        return 0x7c00;
    }
    (((e + 15) as u32) << 10 | (q - 1024)) as u16
}

/// Number of data patterns.
pub const NPAT: u8 = 12;
pub const PAT_NAMES: [&str; NPAT as usize] = [
    "constant", "uniform", "boundary values", "horizontal ramp", "sparse spikes", "saturated corners", "all channels equal", "small noise",
    "value sweep", "blocks", "checkerboard", "neutral plus one channel",
];

/// Fills the source image. `max` is the largest sample, lo/hi the nominal limits that matter at this depth.
pub fn fill(s: &Spec, c: &Case) -> Abs {
    let mut a = Abs::new(&s.src, c.w, c.h);
    let depth = s.depth_of(c);
    let el = s.src.el();
    let mut r = Rng::new(c.seed, 0x5eed);
    if el == El::I16 {
        fill_rdp(&mut a, c, &mut r);
        return a;
    }
    let max = ((1u64 << depth) - 1) as i32;
    let amax = if s.src.word32 { 3 } else { max };
    let sc = 1i32 << (depth.max(8) - 8);
    let bounds: Vec<i32> = [
        0, 1, 2, 3, 15 * sc, 16 * sc - 1, 16 * sc, 16 * sc + 1, max / 4, max / 2 - 1, max / 2, max / 2 + 1, max / 2 + 2, max / 3 * 2, 235 * sc - 1, 235 * sc,
        235 * sc + 1, 240 * sc, 240 * sc + 1, max - 3, max - 2, max - 1, max,
    ]
    .into();
    let nc = a.ch.len();
    let cons: Vec<i32> = (0..nc).map(|_| if r.below(3) == 0 { bounds[r.below(bounds.len() as u64) as usize] } else { r.below(max as u64 + 1) as i32 }).collect();
    let sweep0 = r.next();
    let step = 1 + r.below(max as u64 / 2 + 1) as i32;
    let blk = 1 + r.below(9) as usize;
    let special = r.below(nc as u64) as usize;
    let eq_base = r.next();
    for k in 0..nc {
        let lim = if a.ch[k].role == Role::A { amax } else { max };
        let (w, h) = (a.ch[k].w, a.ch[k].h);
        let is_uv = matches!(a.ch[k].role, Role::U | Role::V);
        for y in 0..h {
            for x in 0..w {
                let v = match c.pat {
                    0 => cons[k],
                    1 => r.below(max as u64 + 1) as i32,
                    2 => bounds[r.below(bounds.len() as u64) as usize],
                    3 => ((x as i64 * step as i64 + y as i64 * 7 + cons[k] as i64) % (max as i64 + 1)) as i32,
                    4 => {
                        if r.below(9) == 0 {
                            r.below(max as u64 + 1) as i32
                        } else {
                            cons[k]
                        }
                    }
                    5 => {
                        if r.below(2) == 0 {
                            0
                        } else {
                            max
                        }
                    }
                    6 => {
                        if is_uv {
                            1 << (depth - 1)
                        } else {
                            Rng::new(eq_base, (y * w + x) as u64).below(max as u64 + 1) as i32
                        }
                    }
                    7 => (cons[k] + r.below(5) as i32 - 2).clamp(0, max),
                    8 => {
                        // all channels enumerate together: successive (a,b,c) triples
                        let n = sweep0.wrapping_add((y * w + x) as u64);
                        let per = max as u64 + 1;
                        match k {
                            0 => (n % per) as i32,
                            1 => ((n / per).wrapping_add(sweep0 >> 20) % per) as i32,
                            _ => ((sweep0 >> (8 * k)).wrapping_add(n / 3) % per) as i32,
                        }
                    }
                    9 => (Rng::new(sweep0 ^ k as u64, ((y / blk) * 4096 + x / blk) as u64).below(max as u64 + 1)) as i32,
                    10 => {
                        if (x + y) & 1 == 0 {
                            cons[k]
                        } else {
                            max - cons[k]
                        }
                    }
                    _ => {
                        if k == special {
                            r.below(max as u64 + 1) as i32
                        } else if is_uv {
                            1 << (depth - 1)
                        } else {
                            cons[0]
                        }
                    }
                };
                a.ch[k].data[y * w + x] = v.min(lim);
            }
        }
    }
    // alpha: make the interesting values common
    for ch in a.ch.iter_mut().filter(|c| c.role == Role::A && !s.src.word32) {
        for v in ch.data.iter_mut() {
            match r.below(6) {
                0 => *v = 0,
                1 => *v = max,
                2 => *v = 1,
                _ => {}
            }
        }
    }
    if el == El::F16 {
        for ch in a.ch.iter_mut() {
            for v in ch.data.iter_mut() {
                *v = f64_to_f16(*v as f64 / max as f64) as i32;
            }
        }
    }
    a
}

/// RemoteFX planes: mostly what the forward transform can produce, sometimes anything of that magnitude.
fn fill_rdp(a: &mut Abs, c: &Case, r: &mut Rng) {
    let n = a.ch[0].data.len();
    let cons: Vec<i64> = (0..3).map(|_| r.below(8192) as i64).collect();
    for i in 0..n {
        let (rr, g, b) = match c.pat {
            0 => (cons[0] % 256, cons[1] % 256, cons[2] % 256),
            5 => ((r.below(2) * 255) as i64, (r.below(2) * 255) as i64, (r.below(2) * 255) as i64),
            6 => {
                let v = r.below(256) as i64;
                (v, v, v)
            }
            2 | 7 => {
                // raw planes
                let y = if c.pat == 2 { [-4096, -4095, -1, 0, 1, 4063, 4064, 4095][r.below(8) as usize] } else { r.below(8192) as i64 - 4096 };
                let u = if c.pat == 2 { [-4096, -4095, -1, 0, 1, 4063, 4064, 4095][r.below(8) as usize] } else { r.below(8192) as i64 - 4096 };
                let v = if c.pat == 2 { [-4096, -4095, -1, 0, 1, 4063, 4064, 4095][r.below(8) as usize] } else { r.below(8192) as i64 - 4096 };
                a.ch[0].data[i] = y as i32;
                a.ch[1].data[i] = u as i32;
                a.ch[2].data[i] = v as i32;
                continue;
            }
            _ => (r.below(256) as i64, r.below(256) as i64, r.below(256) as i64),
        };
        let (rf, gf, bf) = (rr as f64 * 32.0, g as f64 * 32.0, b as f64 * 32.0);
        a.ch[0].data[i] = (0.299 * rf + 0.587 * gf + 0.114 * bf).floor() as i32 - 4096;
        a.ch[1].data[i] = (-0.168935 * rf - 0.331665 * gf + 0.50059 * bf).floor() as i32;
        a.ch[2].data[i] = (0.499813 * rf - 0.418531 * gf - 0.081282 * bf).floor() as i32;
    }
}
