//! C18: the image containers, against a model of their shape, and conversions into images the library allocated.
use crate::case::*;
use crate::checks::*;
use crate::exec::*;
use crate::ffi::*;
use crate::gen::*;
use crate::checks::{call, may_reject};
use crate::run::*;
use crate::spec::*;
use proptest::prelude::*;

const KINDS: [&str; 12] = [
    "YuvPlanarImage", "YuvPlanarImageMut", "YuvPlanarImageWithAlpha", "YuvBiPlanarImage", "YuvBiPlanarImageMut", "YuvBiPlanarImageMut/from_mut", "YuvGrayImage",
    "YuvGrayImageMut", "YuvGrayAlphaImage", "YuvPackedImage", "YuvPackedImage/444", "YuvPackedImageMut",
];
const DEFECTS: [&str; 10] = ["none", "short slice", "short stride", "zero width", "zero height", "zero stride", "huge width", "huge height", "huge stride", "long slice"];

struct Shape {
    row: u64,
    rows: u64,
    /// neither padding nor further elements are allowed
    exact: bool,
}

/// What the planes of a w x h image must hold.
fn shapes(kind: usize, ss: u32, w: u64, h: u64) -> Vec<Shape> {
    let cw = if ss == 444 { w } else { w.div_ceil(2) };
    let ch = if ss == 420 { h.div_ceil(2) } else { h };
    let p = |row, rows| Shape { row, rows, exact: false };
    let x = |row, rows| Shape { row, rows, exact: true };
    match kind {
        0 | 1 => vec![p(w, h), p(cw, ch), p(cw, ch)],
        2 => vec![p(w, h), p(cw, ch), p(cw, ch), p(w, h)],
        3..=5 => vec![p(w, h), x(2 * cw, ch)],
        6 | 7 => vec![p(w, h)],
        8 => vec![p(w, h), p(w, h)],
        10 => vec![p(4 * w, h)],
        _ => vec![x(4 * w.div_ceil(2), h)],
    }
}

fn valid(s: &[Shape], given: &[(u64, u64)], w: u64, h: u64) -> bool {
    w > 0
        && h > 0
        && s.iter().zip(given).all(|(s, &(len, stride))| {
            if s.exact {
                stride == s.row && len == s.row * s.rows
            } else {
                stride >= s.row && len as u128 >= stride as u128 * (s.rows - 1) as u128 + s.row as u128
            }
        })
}

pub fn containers(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let c = &cs[0];
    if u.name.ends_with(" allocated") {
        return allocated(ctx, u, c, obs);
    }
    let kind = c.geo as usize;
    let ss = [420, 422, 444][c.order as usize];
    let es = if c.depth == 0 { 1 } else { 2 };
    let (t, base) = (&ctx.tiers[0], &u.specs[0]);
    let (mut w, mut h) = (c.w as u64, c.h as u64);
    let sh = shapes(kind, ss, w, h);
    // whole lines and elements beyond the image, as drawn
    let mut given: Vec<(u64, u64)> = sh
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let stride = s.row + c.pad[i] as u64;
            let len = match c.tail[i] {
                0 => stride * s.rows,
                1 => stride * (s.rows - 1) + s.row,
                2 => stride * s.rows + 1 + c.pad[i] as u64,
                _ => stride * (s.rows + 2),
            };
            (len, stride)
        })
        .collect();
    let k = c.aux as usize % sh.len();
    let far = [u32::MAX as u64, 1 << 31, (1 << 31) + 1, (1 << 31) - 1, 65536, 0xC000_0000][c.seed as usize % 6];
    match c.mode {
        1 => given[k].0 = (given[k].1 * (sh[k].rows - 1) + sh[k].row).saturating_sub(1 + (c.seed >> 8) % 3 * given[k].1),
        2 => given[k].1 = sh[k].row - 1,
        3 => w = 0,
        4 => h = 0,
        5 => given[k].1 = 0,
        6 => w = far,
        7 => h = far,
        8 => given[k].1 = far,
        9 => given[k].0 += 1 + (c.seed >> 8) % 40,
        _ => {}
    }
    let want = shapes(kind, ss, w, h);
    let ok = valid(&want, &given, w, h);
    let head = format!("{} {} {w}x{h} {ss} planes (len, stride) {given:?}", KINDS[kind], ["u8", "u16", "i16"][c.depth as usize]);
    let mut bufs: Vec<Vec<u8>> = given.iter().map(|g| vec![0x5A; g.0 as usize * es + 2]).collect();
    let mut d = Desc { geo: kind as u32, ss, w, h, depth: c.depth, alloc: c.alloc, ..desc(base, c) };
    let al = c.alloc == 1;
    if al {
        // room for what an allocated image must hold
        bufs = want.iter().map(|s| vec![0; (s.row * s.rows) as usize * es + 2]).collect();
    }
    for (i, b) in bufs.iter_mut().enumerate() {
        d.planes[i] = Plane { ptr: b.as_mut_ptr().wrapping_add(b.as_ptr() as usize & 1), len: if al { want[i].row * want[i].rows } else { given[i].0 }, stride: given[i].1 };
    }
    let before: Vec<usize> = d.planes.iter().map(|p| p.ptr as usize).collect();
    obs.calls += 1;
    obs.nontrivial = c.mode != 0 || al || c.pad[..sh.len()].iter().any(|&p| p > 0) || c.tail[..sh.len()].iter().any(|&t| t > 0);
    obs.label.push(DEFECTS[c.mode as usize % 10]);
    let ret = ctx.libs[t.lib].image(&mut d);
    if ret == 2 {
        return fail("panic", "", format!("{head}: {}", ctx.libs[t.lib].message()));
    }
    let ok = if al { w > 0 && h > 0 } else { ok };
    if (ret == 0) != ok {
        return fail(
            if ok { "valid image rejected" } else { "invalid image accepted" },
            "",
            format!("{head}{}: check_constraints gives {ret}", if al { " allocated" } else { "" }),
        );
    }
    if c.alloc == 0 {
        return Ok(());
    }
    if (d.w, d.h) != (w, h) {
        return fail("view", "", format!("{head}: the view is {}x{}", d.w, d.h));
    }
    for (i, s) in want.iter().enumerate() {
        let p = &d.planes[i];
        if al {
            if (p.len, p.stride) != (s.row * s.rows, s.row) {
                return fail("allocated shape", "", format!("{head}: allocated plane {i} has {} elements, stride {}; {} and {} needed", p.len, p.stride, s.row * s.rows, s.row));
            }
            let m = [251u64, 65521, 32749][c.depth as usize];
            for j in 0..p.len {
                let x = unsafe { if es == 1 { *p.ptr.add(j as usize) as u64 } else { (p.ptr as *const u16).add(j as usize).read_unaligned() as u64 } };
                if x != j % m + 1 {
                    return fail("view", "", format!("{head}: element {j} of plane {i} written as {} is shown as {x}", j % m + 1));
                }
            }
        } else if (p.ptr as usize, p.len, p.stride) != (before[i], given[i].0, given[i].1) {
            return fail("view", "", format!("{head}: plane {i} is shown as {} elements, stride {}, {} bytes away", p.len, p.stride, p.ptr as i64 - before[i] as i64));
        }
    }
    if al && d.flag != 1 {
        return fail("allocated contents", "", format!("{head}: an allocated image is not zeroed"));
    }
    Ok(())
}

/// Converting into an image the library allocated gives what converting into the caller's memory gives.
fn allocated(ctx: &Ctx, u: &Unit, c: &Case, obs: &mut Obs) -> Result<(), Failure> {
    let s = &u.specs[0];
    let mut mine = c.clone();
    for i in s.nin()..s.nin() + s.nout() {
        (mine.pad[i], mine.tail[i]) = (0, 0);
    }
    let own = Case { alloc: 1, ..mine.clone() };
    let inp = inputs_from(s, &mine, fill(s, c));
    let t = &ctx.tiers[c.aux as usize % ctx.tiers.len()];
    let Some(a) = call(ctx, t, s, &mine, &inp, obs)? else { return Ok(()) };
    let Some(b) = call(ctx, t, s, &own, &inp, obs)? else { return Ok(()) };
    obs.nontrivial = true;
    if let Some(d) = same(&read_out(s, &mine, &a, &mut 0), &read_out(s, &mine, &b, &mut 0)) {
        return fail("allocated image differs", &t.name, format!("{} {}x{}: {d}", s.name, c.w, c.h));
    }
    Ok(())
}

pub fn units(specs: &[Spec]) -> Vec<Unit> {
    let mut v = vec![];
    let base = specs.iter().find(|s| !s.has_matrix).unwrap();
    for (k, name) in KINDS.iter().enumerate() {
        let ops: Vec<u32> = match k {
            1 | 4 | 5 | 7 => vec![0, 1, 2],
            11 => vec![0, 2],
            _ => vec![0],
        };
        let strat = (
            case(base, &Prof { layouts: true, ..Prof::default() }),
            prop::sample::select(ops),
            0u32..3,
            0u32..3,
            prop_oneof![3 => Just(0u32), 3 => 1u32..10],
            prop::collection::vec(0u8..4, NP..=NP),
            prop::bool::weighted(0.5),
        )
            .prop_map(move |(mut c, alloc, order, depth, mode, tail, plain)| {
                (c.alloc, c.order, c.depth, c.mode, c.geo) = (alloc, order, depth, mode, k as u32);
                c.tail = tail.try_into().unwrap();
                c.h = c.h.min(40);
                if alloc == 1 && c.mode != 3 && c.mode != 4 {
                    c.mode = 0;
                }
                // containers that allow no padding would hardly ever be valid otherwise
                if plain {
                    for (i, s) in shapes(k, [420, 422, 444][order as usize], c.w as u64, c.h as u64).iter().enumerate() {
                        if s.exact {
                            (c.pad[i], c.tail[i]) = (0, 0);
                        }
                    }
                }
                vec![c]
            });
        v.push(Unit { name: name.to_string(), specs: vec![base.clone()], strat: strat.boxed(), cases: 20000 });
    }
    for s in specs.iter().filter(|s| s.can_alloc && !may_reject(s)) {
        v.push(Unit {
            name: format!("{} allocated", s.name),
            specs: vec![s.clone()],
            strat: case(s, &Prof { layouts: true, ..Prof::default() }).prop_map(|c| vec![c]).boxed(),
            cases: 100,
        });
    }
    v
}
