//! Runs one case against one library in guarded memory and checks everything that must hold for any call:
//! inputs untouched, nothing written outside the image.
use crate::case::*;
use crate::ffi::*;
use crate::spec::*;

const SLOT: usize = 16 << 20;
const PAGE: usize = 4096;

pub struct Arena {
    slots: Vec<*mut u8>,
}
impl Arena {
    pub fn new() -> Arena {
        let mut slots = vec![];
        for _ in 0..NP {
            unsafe {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    SLOT + 2 * PAGE,
                    libc::PROT_NONE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                let q = (p as *mut u8).add(PAGE);
                assert_eq!(libc::mprotect(q as *mut _, SLOT, libc::PROT_READ | libc::PROT_WRITE), 0);
                slots.push(q);
            }
        }
        Arena { slots }
    }
    /// Address for `bytes` bytes according to the placement code.
    fn place(&self, i: usize, bytes: usize, place: u8, es: usize) -> *mut u8 {
        assert!(bytes + 4096 < SLOT, "case too large for the arena");
        unsafe {
            match place {
                0 => self.slots[i].add(SLOT - bytes),
                1 => self.slots[i],
                k => self.slots[i].add((k as usize - 1) * es),
            }
        }
    }
    fn around(&self, i: usize, p: *mut u8, bytes: usize) -> (*mut u8, usize, *mut u8, usize) {
        const N: usize = 256;
        unsafe {
            let s = self.slots[i];
            let before = (p as usize - s as usize).min(N);
            let after = (s as usize + SLOT - (p as usize + bytes)).min(N);
            (p.sub(before), before, p.add(bytes), after)
        }
    }
}

pub struct Inputs {
    pub abs: Abs,
    /// raw planes, inputs only
    pub raw: Vec<Vec<u8>>,
}

pub fn make_inputs(s: &Spec, c: &Case) -> Inputs {
    let abs = fill(s, c);
    inputs_from(s, c, abs)
}
pub fn inputs_from(s: &Spec, c: &Case, abs: Abs) -> Inputs {
    let mut raw = vec![];
    let mut strides = vec![];
    let mut g = Rng::new(c.seed ^ c.aux, 77);
    for i in 0..s.nin() {
        let l = layout(s, c, i);
        let mut v = vec![0u8; l.len * l.es];
        // padding and phantom samples hold garbage
        for b in v.chunks_mut(8) {
            let x = g.next().to_le_bytes();
            b.copy_from_slice(&x[..b.len()]);
        }
        // ... but of the declared depth, in the parts of a row that belong to no pixel
        if s.src.planes[i].el == El::U16 {
            let d = s.depth_of(c);
            let max = ((1u32 << d) - 1) as u16;
            for q in v.chunks_exact_mut(2) {
                let x = u16::from_le_bytes([q[0], q[1]]) & max;
                q.copy_from_slice(&x.to_le_bytes());
            }
        }
        raw.push(v);
        strides.push(l.stride);
    }
    store(&s.src, &abs, &mut raw, &strides, c.order);
    Inputs { abs, raw }
}

pub const FILL_SALT: u64 = 0xC0FFEE;

pub fn out_fill(c: &Case, i: usize, bytes: usize, salt: u64) -> Vec<u8> {
    let mut g = Rng::new(c.seed ^ salt, i as u64 + 1000);
    let mut v = vec![0u8; bytes];
    for b in v.chunks_mut(8) {
        let x = g.next().to_le_bytes();
        b.copy_from_slice(&x[..b.len()]);
    }
    v
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ret: i32,
    pub msg: String,
    pub raw: Vec<Vec<u8>>,
    /// something only memory safety / layout checks care about
    pub damage: Option<String>,
}

pub struct Geometry {
    pub w: u64,
    pub h: u64,
    /// per plane: (len in elements, stride)
    pub planes: Vec<(usize, u64)>,
}

pub fn desc(s: &Spec, c: &Case) -> Desc {
    Desc {
        fn_id: s.id,
        range: c.range,
        matrix: c.matrix,
        mode: c.mode,
        order: c.order,
        flag: c.flag,
        depth: c.depth,
        gamma: c.gamma,
        geo: c.geo,
        alloc: c.alloc,
        ss: if s.dst.planes.len() > 1 { s.dst.ss.num() } else { 400 },
        kr: c.kr as f32 / 1000.0,
        kb: c.kb as f32 / 1000.0,
        pad: 0,
        w: c.w as u64,
        h: c.h as u64,
        planes: [Plane { ptr: std::ptr::null_mut(), len: 0, stride: 0 }; 8],
    }
}

/// Run with the geometry the case describes.
pub fn run(ar: &Arena, libs: &[Lib], t: &Tier, s: &Spec, c: &Case, inp: &Inputs, salt: u64) -> Outcome {
    let n = s.nin() + s.nout();
    let mut pl = vec![];
    for i in 0..n {
        let l = layout(s, c, i);
        pl.push((l.len, l.stride as u64));
    }
    run_geo(ar, libs, t, s, c, inp, salt, &Geometry { w: c.w as u64, h: c.h as u64, planes: pl })
}

pub fn run_geo(ar: &Arena, libs: &[Lib], t: &Tier, s: &Spec, c: &Case, inp: &Inputs, salt: u64, g: &Geometry) -> Outcome {
    let lib = &libs[t.lib];
    let mut d = desc(s, c);
    d.w = g.w;
    d.h = g.h;
    let n = s.nin() + s.nout();
    let mut fills: Vec<Vec<u8>> = vec![];
    let mut ptrs = vec![];
    for i in 0..n {
        let es = s.plane(i).el.size();
        let (len, stride) = g.planes[i];
        let bytes = len * es;
        let p = ar.place(i, bytes, c.place[i], es);
        let content: Vec<u8> = if i < s.nin() {
            let mut v = inp.raw[i].clone();
            v.resize(bytes, 0xA5);
            v
        } else {
            out_fill(c, i, bytes, salt)
        };
        unsafe {
            let (b, bn, a, an) = ar.around(i, p, bytes);
            std::ptr::write_bytes(b, 0xEE, bn);
            std::ptr::write_bytes(a, 0xEE, an);
            std::ptr::copy_nonoverlapping(content.as_ptr(), p, bytes);
        }
        fills.push(content);
        ptrs.push(p);
        d.planes[i] = Plane { ptr: p, len: len as u64, stride };
    }
    lib.hide(&t.hide);
    let ret = lib.call(&mut d);
    let msg = if ret == 2 { lib.message() } else { String::new() };
    let mut damage = None;
    let mut raw = vec![];
    for i in 0..n {
        let es = s.plane(i).el.size();
        let (len, _) = g.planes[i];
        let bytes = len * es;
        let p = ptrs[i];
        let now = unsafe { std::slice::from_raw_parts(p, bytes) };
        unsafe {
            let (b, bn, a, an) = ar.around(i, p, bytes);
            let bb = std::slice::from_raw_parts(b, bn);
            let aa = std::slice::from_raw_parts(a, an);
            if bb.iter().any(|&x| x != 0xEE) || aa.iter().any(|&x| x != 0xEE) {
                damage = Some(format!("plane {i}: wrote outside the slice it was given"));
            }
        }
        if i < s.nin() {
            if now != fills[i].as_slice() {
                damage = Some(format!("input plane {i} was modified"));
            }
        } else {
            raw.push(now.to_vec());
        }
    }
    let mut o = Outcome { ret, msg, raw, damage };
    if o.damage.is_none() && c.alloc == 0 {
        if o.ret != 0 {
            for k in 0..s.nout() {
                if o.ret != 2 && o.raw[k] != fills[s.nin() + k] {
                    o.damage = Some(format!("returned an error but wrote to output plane {k}"));
                }
            }
        }
    }
    if o.alloc_len_changed(&d, g, s) {
        // library-allocated image: the shape it chose
        for k in 0..s.nout() {
            let es = s.dst.planes[k].el.size();
            let want = layout(s, &Case { pad: [0; NP], tail: [0; NP], ..c.clone() }, s.nin() + k);
            let i = s.nin() + k;
            if d.planes[i].len as usize != want.len || d.planes[i].stride as usize != want.stride {
                o.damage = Some(format!(
                    "allocated plane {k} has len {} stride {}, image needs len {} stride {}",
                    d.planes[i].len, d.planes[i].stride, want.len, want.stride
                ));
            }
            o.raw[k].truncate(want.len * es);
        }
    }
    o
}

impl Outcome {
    fn alloc_len_changed(&self, d: &Desc, _g: &Geometry, s: &Spec) -> bool {
        d.alloc != 0 && s.can_alloc && self.ret == 0
    }
}

/// First element written in a part of an output plane that belongs to no row of the image.
pub fn padding_damage(s: &Spec, c: &Case, o: &Outcome, salt: u64) -> Option<String> {
    for k in 0..s.nout() {
        let i = s.nin() + k;
        let l = layout(s, c, i);
        let f = out_fill(c, i, l.len * l.es, salt);
        if f == o.raw[k] {
            continue;
        }
        for y in 0..l.rows + 4 {
            let from = y * l.stride + if y < l.rows { l.row } else { 0 };
            let to = ((y + 1) * l.stride).min(l.len);
            if from >= to {
                continue;
            }
            let (a, b) = (from * l.es, to * l.es);
            if f[a..b] != o.raw[k][a..b] {
                let e = (a..b).find(|&j| f[j] != o.raw[k][j]).unwrap() / l.es;
                return Some(format!("output plane {k}: element {e} (row {}, column {}; the row holds {}) is outside the image but was written", e / l.stride, e % l.stride, l.row));
            }
        }
    }
    None
}

pub fn read_out(s: &Spec, c: &Case, o: &Outcome, lows: &mut usize) -> Abs {
    let (w, h) = s.out_dims(c.w, c.h, c.geo);
    let planes: Vec<&[u8]> = o.raw.iter().map(|v| v.as_slice()).collect();
    let strides: Vec<usize> = (0..s.nout()).map(|k| layout(s, c, s.nin() + k).stride).collect();
    load(&s.dst, &planes, &strides, w, h, c.order, lows)
}

/// Memory that exists only where it is touched; ends at an inaccessible page.
struct Sparse {
    base: *mut u8,
    size: usize,
    p: *mut u8,
}
impl Sparse {
    fn new(bytes: usize) -> Option<Sparse> {
        let size = (bytes + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                size + PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if base == libc::MAP_FAILED {
                return None;
            }
            let base = base as *mut u8;
            let m = Sparse { base, size, p: base.add(size - bytes) };
            (libc::mprotect(base as *mut _, size, libc::PROT_READ | libc::PROT_WRITE) == 0).then_some(m)
        }
    }
}
impl Drop for Sparse {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, self.size + PAGE);
        }
    }
}

/// Runs the call with the strides given (in elements), far larger than memory would allow for a filled image.
/// `compact`: the same case without padding. Returns its result with the rows put together again.
pub fn run_sparse(libs: &[Lib], t: &Tier, s: &Spec, compact: &Case, inp: &Inputs, strides: &[usize]) -> Option<Outcome> {
    let lib = &libs[t.lib];
    let mut d = desc(s, compact);
    let n = s.nin() + s.nout();
    let mut mem = vec![];
    for i in 0..n {
        let l = layout(s, compact, i);
        let m = Sparse::new(strides[i] * l.rows * l.es)?;
        let content = if i < s.nin() { inp.raw[i].clone() } else { out_fill(compact, i, l.len * l.es, FILL_SALT) };
        for y in 0..l.rows {
            let row = &content[y * l.stride * l.es..][..l.row * l.es];
            unsafe { std::ptr::copy_nonoverlapping(row.as_ptr(), m.p.add(y * strides[i] * l.es), row.len()) }
        }
        d.planes[i] = Plane { ptr: m.p, len: (strides[i] * l.rows) as u64, stride: strides[i] as u64 };
        mem.push(m);
    }
    lib.hide(&t.hide);
    let ret = lib.call(&mut d);
    let msg = if ret == 2 { lib.message() } else { String::new() };
    let mut o = Outcome { ret, msg, raw: vec![], damage: None };
    for i in 0..n {
        let l = layout(s, compact, i);
        let mut v = vec![0u8; l.len * l.es];
        for y in 0..l.rows {
            let row = &mut v[y * l.stride * l.es..][..l.row * l.es];
            unsafe {
                let p = mem[i].p.add(y * strides[i] * l.es);
                std::ptr::copy_nonoverlapping(p, row.as_mut_ptr(), row.len());
                // the padding next to the row
                let k = ((strides[i] - l.row) * l.es).min(64);
                if std::slice::from_raw_parts(p.add(row.len()), k).iter().any(|b| *b != 0) {
                    o.damage = Some(format!("plane {i}: the padding after row {y} was written"));
                }
            }
        }
        if i >= s.nin() {
            o.raw.push(v);
        } else if v != inp.raw[i] {
            o.damage = Some(format!("input plane {i} was modified"));
        }
    }
    Some(o)
}
