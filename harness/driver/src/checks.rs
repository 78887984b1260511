//! The properties, as executable checks over generated cases.
use crate::case::*;
use crate::exact;
use crate::exec::*;
use crate::ffi::*;
use crate::gen::*;
use crate::oracle::{self, Ideal};
use crate::run::*;
use crate::sharp;
use crate::spec::*;
use crate::tol::tol;
use proptest::strategy::Strategy;

/// One call that has to succeed. None: not in this build's feature set.
pub fn call(ctx: &Ctx, t: &Tier, s: &Spec, c: &Case, inp: &Inputs, obs: &mut Obs) -> Result<Option<Outcome>, Failure> {
    obs.calls += 1;
    let o = run(&ctx.ar, &ctx.libs, t, s, c, inp, FILL_SALT);
    match o.ret {
        0 => Ok(Some(o)),
        3 => Ok(None),
        2 => fail("panic", &t.name, format!("{} {}x{}: panicked: {}", s.name, c.w, c.h, o.msg)),
        e => fail("rejected", &t.name, format!("{} {}x{}: valid image rejected with error {e}", s.name, c.w, c.h)),
    }
}

pub fn max_code(s: &Spec, c: &Case, role: Role) -> i64 {
    if s.dst.word32 {
        return if role == Role::A { 3 } else { 1023 };
    }
    let d = if s.has_depth { s.depth_of(c) } else { s.dst.depth };
    (1i64 << d) - 1
}

pub fn varied(id: &[Ideal]) -> bool {
    id.iter().any(|i| i.v.iter().any(|&x| (x - i.v[0]).abs() > 0.5))
}

const BIAS: f64 = 0.3;
/// The mean deviation over a picture of many unrelated colours, away from the ends of the scale.
fn bias(s: &Spec, c: &Case, t: &Tier, id: &[Ideal], got: &Abs, obs: &mut Obs) -> Result<(), Failure> {
    if c.pat != 1 || s.kind != Kind::Enc || s.dst.depth > 14 {
        return Ok(());
    }
    for i in id {
        let g = got.get(i.role);
        let max = max_code(s, c, i.role) as f64;
        let (mut n, mut sum) = (0, 0.0);
        for k in 0..i.v.len() {
            if i.v[k] > 4.0 && i.v[k] < max - 4.0 && i.alt.as_ref().map(|a| a[k] == i.v[k]).unwrap_or(true) {
                n += 1;
                sum += i.dev(k, oracle::code_value(s, c, g.data[k]));
            }
        }
        if n >= 400 {
            let m: f64 = sum / n as f64;
            obs.max(format!("mean deviation of {:?}", i.role), m.abs());
            if m.abs() > BIAS {
                return fail("bias", &t.name, format!("{} {}x{}: {:?} is off by {m:+.3} on average over {n} samples, allowed {BIAS}", s.name, c.w, c.h, i.role));
            }
        }
    }
    Ok(())
}

/// Compares one output with the ideal.
fn judge(s: &Spec, c: &Case, t: &Tier, id: &[Ideal], got: &Abs) -> Result<(), Failure> {
    for i in id {
        let g = got.get(i.role);
        let (a, b) = tol(s, c, i.role);
        let max = max_code(s, c, i.role);
        let depth_matters = !matches!(s.dst.el(), El::F16 | El::I16);
        for k in 0..i.v.len() {
            let raw = g.data[k];
            let x = oracle::code_value(s, c, raw);
            let d = i.dev(k, x);
            let lim = a + b * i.v[k].abs();
            if !(d.abs() <= lim + 1e-9) {
                return fail(
                    "value",
                    &t.name,
                    format!(
                        "{} {}x{}: {:?} at ({},{}) is {} (raw {raw}), ideal {:.3}, off by {:+.3}, allowed {:.3}",
                        s.name,
                        c.w,
                        c.h,
                        i.role,
                        k % i.w,
                        k / i.w,
                        x,
                        i.v[k],
                        d,
                        lim
                    ),
                );
            }
            if depth_matters && (raw as i64 > max || raw < 0) {
                return fail("value", &t.name, format!("{}: {:?} at ({},{}) is {raw}, above the largest sample {max}", s.name, i.role, k % i.w, k / i.w));
            }
        }
    }
    Ok(())
}

pub fn accuracy(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let inp = make_inputs(s, c);
    let mut id = oracle::ideal(s, c, &inp.abs);
    id.extend(exact::exact(s, c, &inp.abs));
    obs.nontrivial = varied(&id);
    obs.label.push(PAT_NAMES[c.pat as usize]);
    for t in &ctx.tiers {
        if let Some(o) = call(ctx, t, s, c, &inp, obs)? {
            let mut lows = 0;
            let got = read_out(s, c, &o, &mut lows);
            if lows > 0 {
                return fail("value", &t.name, format!("{}: {lows} samples have bits below the declared depth", s.name));
            }
            judge(s, c, t, &id, &got)?;
            bias(s, c, t, &id, &got, obs)?;
        }
    }
    Ok(())
}

pub fn one_each(specs: &[Spec], p: &Prof, n: usize, f: impl Fn(&Spec) -> bool) -> Vec<Unit> {
    specs
        .iter()
        .filter(|s| f(s))
        .map(|s| Unit { name: s.name.clone(), specs: vec![s.clone()], strat: case(s, p).prop_map(|c| vec![c]).boxed(), cases: n })
        .collect()
}

pub fn hbd(s: &Spec) -> bool {
    s.src.el() != El::U8 || s.src.depth > 8
}

fn acc(s: &[Spec], n: usize, f: impl Fn(&Spec) -> bool) -> Vec<Unit> {
    one_each(s, &Prof { layouts: true, ..Prof::default() }, n, f)
}

const R_ACC: &str = "Each case is one conversion call: function, image size, content pattern, matrix, range, mode, strides, slice tails and \
addresses drawn by proptest; it runs on every instruction-set rung this CPU has. Non-trivial: the ideal output of some channel takes values more than \
half a code value apart.";

// ---------------------------------------------------------------- layout

pub fn same(a: &Abs, b: &Abs) -> Option<String> {
    for (x, y) in a.ch.iter().zip(b.ch.iter()) {
        if let Some(k) = (0..x.data.len()).find(|&k| x.data[k] != y.data[k]) {
            return Some(format!("{:?} at ({},{}) is {} instead of {}", x.role, k % x.w, k / x.w, y.data[k], x.data[k]));
        }
    }
    None
}

pub fn compact(c: &Case) -> Case {
    Case { pad: [0; NP], tail: [0; NP], place: [0; NP], ..c.clone() }
}

/// rotation goes through a dependency that takes only some combinations of strides
pub fn may_reject(s: &Spec) -> bool {
    matches!(s.kind, Kind::Rotate | Kind::Mirror)
}

pub fn layout_free(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let abs = fill(s, c);
    let n = ctx.tiers.len();
    let pick = [n - 1, c.aux as usize % n];
    let cc = compact(c);
    let i0 = inputs_from(s, &cc, abs.clone());
    let i1 = inputs_from(s, c, abs.clone());
    obs.nontrivial = (0..s.nin() + s.nout()).any(|i| c.pad[i] > 0 && s.plane(i).strict == Strict::Free) || (0..s.nin() + s.nout()).any(|i| c.place[i] > 0);
    for (k, &ti) in pick.iter().enumerate() {
        if k == 1 && ti == pick[0] {
            break;
        }
        let t = &ctx.tiers[ti];
        let Some(o0) = call(ctx, t, s, &cc, &i0, obs)? else { continue };
        let want = read_out(s, &cc, &o0, &mut 0);
        for salt in [FILL_SALT, 99] {
            obs.calls += 1;
            let o = run(&ctx.ar, &ctx.libs, t, s, c, &i1, salt);
            if o.ret >= 100 && may_reject(s) {
                continue;
            }
            if o.ret != 0 {
                return fail("rejected", &t.name, format!("{} {}x{}: compact image accepted, the same image with other strides or addresses gives {} {}", s.name, c.w, c.h, o.ret, o.msg));
            }
            let got = read_out(s, c, &o, &mut 0);
            if let Some(d) = same(&want, &got) {
                return fail("layout", &t.name, format!("{} {}x{}: output depends on strides, padding, address or old content: {d}", s.name, c.w, c.h));
            }
            if let Some(d) = padding_damage(s, c, &o, salt) {
                return fail("padding", &t.name, format!("{} {}x{}: {d}", s.name, c.w, c.h));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- memory safety

pub fn memory(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let inp = make_inputs(s, c);
    obs.nontrivial = true;
    for t in &ctx.tiers {
        obs.calls += 1;
        let o = run(&ctx.ar, &ctx.libs, t, s, c, &inp, FILL_SALT);
        if o.ret == 2 {
            return fail("panic", &t.name, format!("{} {}x{}: panicked: {}", s.name, c.w, c.h, o.msg));
        }
        if o.ret >= 100 && !may_reject(s) {
            return fail("rejected", &t.name, format!("{} {}x{}: valid image rejected with error {}", s.name, c.w, c.h, o.ret));
        }
        if let Some(d) = &o.damage {
            return fail("damage", &t.name, format!("{} {}x{}: {d}", s.name, c.w, c.h));
        }
        if o.ret == 0 {
            if let Some(d) = padding_damage(s, c, &o, FILL_SALT) {
                return fail("padding", &t.name, format!("{} {}x{}: {d}", s.name, c.w, c.h));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- validation

const MUT: [&str; 9] = [
    "slice too short",
    "stride below the row",
    "zero width",
    "zero height",
    "huge width",
    "huge height",
    "huge stride",
    "width times channels overflows",
    "several huge",
];

pub fn validation(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let n = s.nin() + s.nout();
    let mut r = crate::case::Rng::new(c.aux, 3);
    let mut g = Geometry { w: c.w as u64, h: c.h as u64, planes: vec![] };
    for i in 0..n {
        let l = layout(s, c, i);
        g.planes.push((l.len, l.stride as u64));
    }
    let mut m = r.below(MUT.len() as u64) as usize;
    if matches!(s.kind, Kind::Rotate | Kind::Mirror) && (m == 2 || m == 3) {
        // an empty image is a no-op there, not an error
        m = 0;
    }
    let i = r.below(n as u64) as usize;
    let l = layout(s, c, i);
    let min = l.stride * (l.rows - 1) + l.row;
    match m {
        0 => {
            let k = [1, 1 + r.below(l.row as u64) as usize, 1 + r.below(min as u64) as usize, min][r.below(4) as usize];
            g.planes[i].0 = min - k.min(min);
        }
        1 => {
            let k = [1, 1 + r.below(l.row as u64) as usize, l.row][r.below(3) as usize];
            g.planes[i].1 = (l.row - k) as u64;
        }
        2 => g.w = 0,
        3 => g.h = 0,
        4 => g.w = [u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, (1 << 31) - 1, 1 << 30][r.below(5) as usize],
        5 => g.h = [u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, (1 << 31) - 1, 1 << 30][r.below(5) as usize],
        6 => {
            if l.rows < 2 {
                g.planes[i].0 = 0;
            } else {
                g.planes[i].1 = [u32::MAX as u64, 1 << 31, (1 << 30) + 1, l.len as u64 + 1][r.below(4) as usize];
            }
        }
        8 => {
            let big = [u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31, (1 << 31) + 1, 0xFFFF_FF00];
            g.w = big[r.below(5) as usize];
            g.h = big[r.below(5) as usize];
            for p in g.planes.iter_mut() {
                p.1 = [p.1, big[r.below(5) as usize]][r.below(2) as usize];
            }
        }
        _ => {
            // width*k wraps to a small number in 32 bits
            let k = [2u64, 3, 4][r.below(3) as usize];
            g.w = (1u64 << 32) / k + r.below(c.w as u64 + 1);
        }
    }
    obs.nontrivial = true;
    obs.label.push(MUT[m]);
    let inp = make_inputs(s, c);
    let inp = Inputs { abs: inp.abs, raw: inp.raw.into_iter().enumerate().map(|(k, mut v)| { v.truncate(g.planes[k].0 * s.plane(k).el.size()); v }).collect() };
    for t in [&ctx.tiers[0], &ctx.tiers[ctx.tiers.len() - 1]] {
        obs.calls += 1;
        let o = run_geo(&ctx.ar, &ctx.libs, t, s, c, &inp, FILL_SALT, &g);
        let what = format!("{} {}x{} plane {i}: {} (w {} h {} len/stride {:?})", s.name, c.w, c.h, MUT[m], g.w, g.h, g.planes);
        match o.ret {
            0 => return fail(&format!("accepted: {}", MUT[m]), &t.name, what),
            2 => return fail(&format!("panic: {}", MUT[m]), &t.name, format!("{what}: {}", o.msg)),
            _ => {}
        }
        if let Some(d) = o.damage {
            return fail(&format!("damage: {}", MUT[m]), &t.name, format!("{what}: {d}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- sharp

pub fn sharp_chroma(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let inp = make_inputs(s, c);
    let mut id = oracle::ideal(s, c, &inp.abs);
    id.retain(|i| i.role == Role::Y);
    let b = sharp::chroma(s, c, &inp.abs);
    obs.nontrivial = varied(&id);
    for t in &ctx.tiers {
        let Some(o) = call(ctx, t, s, c, &inp, obs)? else { continue };
        let got = read_out(s, c, &o, &mut 0);
        judge(s, c, t, &id, &got)?;
        for (i, role) in [Role::U, Role::V].into_iter().enumerate() {
            let g = got.get(role);
            for k in 0..g.data.len() {
                let (lo, hi) = (b.lo[i][k] - 0.75, b.hi[i][k] + 0.75);
                let x = g.data[k] as f64;
                if x < lo || x > hi {
                    return fail(
                        "value",
                        &t.name,
                        format!("{} {}x{}: {role:?} at ({},{}) is {x}, must be in [{lo:.2},{hi:.2}] ", s.name, c.w, c.h, k % b.w, k / b.w),
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn all() -> Vec<Check> {
    let mut v = base();
    v.extend(crate::relate::all());
    v
}

fn base() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: R_ACC,
            units: |_, s| acc(s, 3000, |s| s.kind == Kind::Enc && !hbd(s)),
            body: accuracy,
        },
        Check {
            id: "C02",
            rule: R_ACC,
            units: |_, s| acc(s, 3000, |s| s.kind == Kind::Dec && !hbd(s)),
            body: accuracy,
        },
        Check {
            id: "C03",
            rule: R_ACC,
            units: |_, s| acc(s, 3000, |s| s.kind == Kind::Enc && hbd(s)),
            body: accuracy,
        },
        Check {
            id: "C04",
            rule: R_ACC,
            units: |_, s| acc(s, 1500, |s| s.kind == Kind::Dec && hbd(s)),
            body: accuracy,
        },
        Check {
            id: "C05",
            rule: R_ACC,
            units: |_, s| {
                acc(s, 3000, |s| {
                    use Kind::*;
                    matches!(s.kind, EncId | DecId | EncCgco | DecCgco | RdpEnc | RdpDec | ToF16 | FromF16)
                })
            },
            body: accuracy,
        },
        Check { id: "C06", rule: R_ACC, units: |_, s| one_each(s, &Prof { ..Prof::default() }, 6000, |s| exact::is_exact(s.kind)), body: accuracy },
        Check {
            id: "C15",
            rule: R_ACC,
            units: |_, s| acc(s, 1500, |s| s.kind == Kind::Sharp),
            body: sharp_chroma,
        },
        Check {
            id: "C07",
            rule: "Each case runs one conversion on the same samples twice: packed tightly, and with drawn strides, padding garbage, slice tails, addresses and \
two different old contents of the output; or once in full slices and once in slices that stop right after the last pixel or hold rows after the image. Non-trivial: some plane has row padding, a moved address or another slice length.",
            units: |_, s| {
                let mut v = one_each(s, &Prof { layouts: true, ..Prof::default() }, 700, |_| true);
                v.extend(crate::relate::slice_end_units(s, 20));
                v
            },
            body: |ctx, u, cs, obs| if u.name.ends_with("slice ends") { crate::relate::slice_ends(ctx, u, cs, obs) } else { layout_free(ctx, u, cs, obs) },
        },
        Check {
            id: "C08",
            rule: "Each case is one conversion call on any sample values with drawn strides, tails and addresses (slices end or start at an inaccessible page), on every \
instruction-set rung. Every case counts as non-trivial: it executes a conversion between guard pages.",
            units: |_, s| {
                let mut v = one_each(s, &Prof { layouts: true, big: true, ..Prof::default() }, 700, |_| true);
                v.extend(crate::relate::giant_units(s, 60));
                v
            },
            body: |ctx, u, cs, obs| if u.name.ends_with("giant strides") { crate::relate::giant(ctx, u, cs, obs) } else { memory(ctx, u, cs, obs) },
        },
        Check {
            id: "C09",
            rule: "Each case takes a valid call and breaks one thing about its geometry (slice too short, stride below the row, zero or huge dimensions, huge strides, \
sizes that overflow); every case is non-trivial because the geometry is really invalid.",
            units: |_, s| one_each(s, &Prof { layouts: false, ..Prof::default() }, 700, |_| true),
            body: validation,
        },
    ]
}
