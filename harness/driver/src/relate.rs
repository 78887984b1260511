//! Properties that relate several calls to each other: other instruction sets and builds, other storage of the same
//! image, the inverse conversion, other histories.
use crate::case::*;
use crate::checks::*;
use crate::exec::*;
use crate::ffi::*;
use crate::gen::*;
use crate::oracle;
use crate::run::*;
use crate::spec::*;
use proptest::strategy::Strategy;

/// The same parameters for another function.
pub fn bind(c: &Case, s: &Spec) -> Case {
    Case { fn_id: s.id, name: s.name.clone(), ..c.clone() }
}

const RUNGS: [&str; 6] = ["scalar", "sse4.1", "avx2", "avx2+avxvnni", "avx512bw", "all"];
fn rung(t: &Tier) -> usize {
    let n = t.name.split_once(':').unwrap().1;
    RUNGS.iter().position(|r| *r == n).unwrap()
}
pub fn lib_of(t: &Tier) -> &str {
    t.name.split_once(':').unwrap().0
}

// ---------------------------------------------------------------- instruction sets and builds

/// How far two instruction sets may disagree on a sample, in code values: they use different fixed-point precision
/// in some conversions and must agree exactly in all others.
fn dispatch_tol(s: &Spec, c: &Case, role: Role) -> f64 {
    if role == Role::A && s.dst.el() != El::F16 {
        return 0.0;
    }
    match s.kind {
        Kind::Enc | Kind::DecId => 1.0,
        Kind::Dec => {
            if s.dst.el() == El::F16 {
                2.0
            } else if s.has_mode {
                [2.0, 3.0, 1.0][c.mode as usize]
            } else if s.dst.depth == 8 && s.depth_of(c) > 8 {
                2.0
            } else if s.depth_of(c) == 8 {
                4.0
            } else {
                3.0
            }
        }
        _ => 0.0,
    }
}

/// Pairs of rungs (bit 6i+j) whose results for this function may differ within dispatch_tol. All others agree bit for bit.
/// rungs.in: function, mode, depth, mask in hexadecimal; functions not listed agree on all rungs.
fn rung_mask(s: &Spec, c: &Case) -> u64 {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static T: OnceLock<HashMap<(String, u32, u32), u64>> = OnceLock::new();
    let t = T.get_or_init(|| {
        include_str!("../../rungs.in")
            .lines()
            .map(|l| {
                let v: Vec<&str> = l.split_whitespace().collect();
                ((v[0].to_string(), v[1].parse().unwrap(), v[2].parse().unwrap()), u64::from_str_radix(v[3], 16).unwrap())
            })
            .collect()
    });
    t.get(&(s.name.clone(), c.mode, c.depth)).copied().unwrap_or(0)
}

pub fn dispatch(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let inp = make_inputs(s, c);
    let id = if s.kind == Kind::Dec { oracle::ideal(s, c, &inp.abs) } else { vec![] };
    let mut xs: Vec<(usize, &str, Abs, Vec<Vec<u8>>)> = vec![];
    let learn = std::env::var("LEARN_RUNGS").is_ok();
    for t in ctx.tiers.iter().filter(|t| lib_of(t) == "x") {
        if let Some(o) = call(ctx, t, s, c, &inp, obs)? {
            let a = read_out(s, c, &o, &mut 0);
            if let Some((_, n0, a0, _)) = xs.first() {
                // every instruction set against the plainest
                if let Some(d) = apart(s, c, a0, &a, &id) {
                    return fail("value", &t.name, format!("{} {}x{}: {n0} and {}: {d}", s.name, c.w, c.h, t.name));
                }
            }
            if dispatch_tol(s, c, Role::Y) > 0.0 {
                let loose = rung_mask(s, c);
                for (r0, n0, a0, _) in &xs {
                    if a0.ch.iter().zip(&a.ch).all(|(p, q)| p.data == q.data) {
                        continue;
                    }
                    let bit = *r0 * 6 + rung(t);
                    if learn {
                        obs.max(format!("rungs {} {} {} {bit}", s.name, c.mode, c.depth), 1.0);
                    } else if loose >> bit & 1 == 0 {
                        let d = same(a0, &a).unwrap();
                        return fail("not equal", &t.name, format!("{} {}x{}: {n0} and {} are known to agree exactly here: {d}", s.name, c.w, c.h, t.name));
                    }
                }
            }
            xs.push((rung(t), &t.name, a, o.raw));
        }
    }
    if xs.is_empty() {
        return Ok(());
    }
    obs.nontrivial = xs[0].2.ch.iter().any(|c| c.data.iter().any(|v| *v != c.data[0]));
    // other builds
    let mut r = Rng::new(c.aux, 10);
    for lib in ["r", "d", "a", "e", "s"] {
        let ts: Vec<&Tier> = ctx.tiers.iter().filter(|t| lib_of(t) == lib).collect();
        if ts.is_empty() {
            continue;
        }
        let mut pick = vec![r.below(ts.len() as u64) as usize];
        if matches!(lib, "r" | "d") && pick[0] != ts.len() - 1 {
            pick.push(ts.len() - 1);
        }
        let cap = match lib {
            "r" => 5,
            "d" | "a" => 3,
            "e" => 1,
            _ => 0,
        };
        for i in pick {
            let t = ts[i];
            let Some(o) = call(ctx, t, s, c, &inp, obs)? else { continue };
            let want = xs.iter().rev().find(|x| x.0 <= rung(t).min(cap)).unwrap();
            if want.3 != o.raw {
                let got = read_out(s, c, &o, &mut 0);
                let d = same(&want.2, &got).unwrap_or_else(|| "bytes outside the image differ".into());
                return fail(
                    "build",
                    &t.name,
                    format!("{} {}x{}: build '{lib}' differs from the full build ({}) on the same instructions: {d}", s.name, c.w, c.h, want.1),
                );
            }
        }
    }
    Ok(())
}


/// First sample where two results of the same picture are further apart than their precision allows.
fn apart(s: &Spec, c: &Case, a: &Abs, b: &Abs, id: &[oracle::Ideal]) -> Option<String> {
    for p in &a.ch {
        let Some(q) = b.opt(p.role) else { continue };
        let tol = dispatch_tol(s, c, p.role);
        let gap = id.iter().find(|i| i.role == p.role).and_then(|i| i.alt.as_ref().map(|v| (v, &i.v)));
        for k in 0..p.data.len() {
            if p.data[k] == q.data[k] {
                continue;
            }
            // luma below nominal black may be limited to black before or after chroma is added
            let free = gap.map(|(a, b)| (a[k] - b[k]).abs()).unwrap_or(0.0);
            let w = (oracle::code_value(s, c, p.data[k]) - oracle::code_value(s, c, q.data[k])).abs();
            if w > tol + if free > 0.0 { free + tol } else { 0.0 } + 1e-6 {
                return Some(format!("{:?} at ({},{}) is {} and {} (allowed difference {tol})", p.role, k % p.w, k / p.w, p.data[k], q.data[k]));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- families of functions

fn fmt_key(f: &Fmt) -> String {
    let mut s = format!("{} {:?} ", f.depth, f.ss);
    for p in &f.planes {
        s += &format!("{:?}{}/{}/{} ", p.el, p.mul, p.sx, p.sy);
    }
    for c in &f.chans {
        s += &format!("{:?}{}{}{}{:?} ", c.role, c.plane, c.mul, c.off, c.store);
    }
    s
}

fn each(specs: &[Spec], p: &Prof, n: usize, f: impl Fn(&Spec) -> bool) -> Vec<Unit> {
    let mut v = one_each(specs, p, n, |s| f(s) && !may_reject(s));
    v.extend(one_each(specs, &Prof { layouts: false, ..p.clone() }, n, |s| f(s) && may_reject(s)));
    v
}

fn unit(name: String, specs: Vec<Spec>, p: &Prof, n: usize) -> Unit {
    let strat = case(&specs[0], p).prop_map(|c| vec![c]).boxed();
    Unit { name, specs, strat, cases: n }
}

fn pair(a: &Spec, b: &Spec, p: &Prof, n: usize) -> Unit {
    unit(format!("{} {}", a.name, b.name), vec![a.clone(), b.clone()], p, n)
}

fn tag(s: &Spec, c: &Case) -> String {
    format!(
        "{:?} {}>{}{} {:?}{:?} r{} m{}",
        s.kind,
        s.depth_of(c),
        s.dst.depth,
        if s.dst.el() == El::F16 { "f16" } else { "" },
        s.src.ss,
        s.dst.ss,
        if s.has_range { c.range as i32 } else { -1 },
        if s.has_mode { c.mode as i32 } else { -1 }
    )
}

fn is_rgb(r: Role) -> bool {
    matches!(r, Role::R | Role::G | Role::B)
}

// ---------------------------------------------------------------- round trip

fn is_forward(k: Kind) -> bool {
    use Kind::*;
    matches!(k, Enc | EncId | EncCgco | RdpEnc | Shuffle | ToF16 | Rotate | Mirror | Pack422 | Unpack422 | Sharp | PackWord)
}
fn inverse(k: Kind) -> Kind {
    use Kind::*;
    match k {
        Enc | Sharp => Dec,
        EncId => DecId,
        EncCgco => DecCgco,
        RdpEnc => RdpDec,
        ToF16 => FromF16,
        Pack422 => Unpack422,
        Unpack422 => Pack422,
        PackWord => UnpackWord,
        k => k,
    }
}

fn subsampled(s: &Spec) -> bool {
    s.dst.ss != Ss::S444 || s.src.ss != Ss::S444
}

/// How far a sample may come back, in code values. Anything not named comes back exactly.
fn round_trip_tol(s: &Spec, c: &Case) -> f64 {
    let limited = s.has_range && c.range == 0;
    match s.kind {
        Kind::Enc if s.depth_of(c) == 8 => match c.mode {
            // fast mode cuts multipliers of limited range decoding above 127/64
            0 if s.has_mode && limited => 24.0,
            2 if s.has_mode => 4.0,
            _ => 5.0,
        },
        Kind::Enc if s.depth_of(c) == 16 => 7.0,
        Kind::Enc | Kind::Sharp => 4.0,
        Kind::EncCgco => [3.0, 2.0][c.range as usize],
        Kind::EncId => [2.0, 0.0][c.range as usize],
        Kind::RdpEnc => 2.0,
        // half a unit in the last place of a half-precision number below 1
        Kind::ToF16 => match s.depth_of(c) {
            8 | 10 => 0.0,
            12 => 1.0,
            14 => 4.0,
            _ => 16.0,
        },
        _ => 0.0,
    }
}

fn round_trip_pairs(specs: &[Spec], n: usize) -> Vec<Unit> {
    let mut v = vec![];
    for e in specs.iter().filter(|s| is_forward(s.kind)) {
        for d in specs.iter().filter(|d| d.kind == inverse(e.kind)) {
            if matches!(e.kind, Kind::Rotate | Kind::Mirror) && e.id != d.id {
                continue;
            }
            if fmt_key(&e.dst) != fmt_key(&d.src) || fmt_key(&e.src) != fmt_key(&d.dst) || e.dst.ss == Ss::S400 {
                continue;
            }
            // packing 4:4:4 or 4:2:0 into 4:2:2 loses chroma
            if e.kind == Kind::Pack422 && e.src.ss == Ss::S444 || e.kind == Kind::Unpack422 && d.src.ss == Ss::S420 {
                continue;
            }
            let lossy = matches!(e.kind, Kind::Enc | Kind::Sharp | Kind::EncCgco);
            let p = Prof { layouts: !may_reject(e), pats: if lossy && subsampled(e) { vec![0] } else { vec![] }, flag: Some(0), ..Prof::default() };
            v.push(pair(e, d, &p, n));
        }
    }
    v
}

pub fn round_trip(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (e, d) = (&u.specs[0], &u.specs[1]);
    let c = &cs[0];
    let abs = fill(e, c);
    let inp = inputs_from(e, c, abs.clone());
    obs.nontrivial = abs.ch.iter().any(|q| q.data.iter().any(|v| *v != 0));
    for t in &ctx.tiers {
        let Some(o) = call(ctx, t, e, c, &inp, obs)? else { continue };
        let mid = read_out(e, c, &o, &mut 0);
        let (w, h) = e.out_dims(c.w, c.h, c.geo);
        let mut c2 = bind(c, d);
        c2.w = w;
        c2.h = h;
        c2.pad.reverse();
        if e.kind == Kind::Rotate {
            c2.geo = 2 - c.geo;
        }
        let inp2 = inputs_from(d, &c2, mid.clone());
        let Some(o2) = call(ctx, t, d, &c2, &inp2, obs)? else { continue };
        let back = read_out(d, &c2, &o2, &mut 0);
        let lim = round_trip_tol(e, c);
        for ch in &abs.ch {
            if ch.role == Role::A && (mid.opt(Role::A).is_none() || e.kind == Kind::PackWord) {
                continue;
            }
            let g = back.get(ch.role);
            for k in 0..ch.data.len() {
                let x = (ch.data[k] - g.data[k]).abs() as f64;
                if x > 0.0 {
                    obs.max(format!("{} {}", tag(e, c), if is_rgb(ch.role) { "rgb".into() } else { format!("{:?}", ch.role) }), x);
                }
                if x > lim {
                    return fail(
                        "value",
                        &t.name,
                        format!("{} then {} {}x{}: {:?} at ({},{}) was {} and comes back as {}, allowed {lim}", e.name, d.name, c.w, c.h, ch.role, k % ch.w, k / ch.w, ch.data[k], g.data[k]),
                    );
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- neutral axis

pub fn neutral(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let d = s.depth_of(c);
    let max = ((1i64 << d) - 1) as i32;
    let half = 1i32 << (d - 1);
    let mut abs = fill(s, c);
    let enc = s.src.has(Role::R);
    let mut r = Rng::new(c.aux, 12);
    let (by, ry, _, ruv) = oracle::ranges(c.range, d);
    let (lo, hi) = (by as i32, (by + ry) as i32);
    // grey pixels with the landmarks among them
    let n = abs.ch[0].data.len();
    let marks: Vec<i32> = if enc { vec![0, max, 1, max - 1] } else { vec![lo, hi, lo - 1, hi + 1, 0, max, lo + 1, hi - 1] };
    let mut grey: Vec<i32> = abs.ch[0].data.clone();
    for k in 0..n {
        if r.below(4) == 0 {
            grey[k] = marks[r.below(marks.len() as u64) as usize].clamp(0, max);
        }
    }
    for ch in abs.ch.iter_mut() {
        match ch.role {
            Role::A => {}
            Role::U | Role::V => ch.data.iter_mut().for_each(|v| *v = half),
            _ => ch.data.copy_from_slice(&grey),
        }
    }
    let inp = inputs_from(s, c, abs);
    obs.nontrivial = grey.iter().any(|g| *g != grey[0]);
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&k| grey[k]);
    for t in &ctx.tiers {
        let Some(o) = call(ctx, t, s, c, &inp, obs)? else { continue };
        let out = read_out(s, c, &o, &mut 0);
        let first = if enc { Role::Y } else { Role::R };
        let y = out.get(first);
        let cv = |v: i32| oracle::code_value(s, c, v);
        let bad = |class: &str, k: usize, w: usize, what: String| -> Result<(), Failure> {
            fail(class, &t.name, format!("{} {}x{}: grey {} at ({},{}): {what}", s.name, c.w, c.h, grey.get(k).copied().unwrap_or(-1), k % w, k / w))
        };
        for ch in &out.ch {
            match ch.role {
                Role::U | Role::V => {
                    if let Some(k) = (0..ch.data.len()).find(|&k| ch.data[k] != half) {
                        return fail(
                            "grey",
                            &t.name,
                            format!("{} {}x{}: grey image has {:?} {} at ({},{}), neutral is {half}", s.name, c.w, c.h, ch.role, ch.data[k], k % ch.w, k / ch.w),
                        );
                    }
                }
                Role::G | Role::B if !enc => {
                    if let Some(k) = (0..n).find(|&k| ch.data[k] != y.data[k]) {
                        return bad("grey", k, ch.w, format!("neutral sample decodes to R {} but {:?} {}", y.data[k], ch.role, ch.data[k]));
                    }
                }
                _ => {}
            }
        }
        // vector and scalar parts of a row may round differently in decoders
        let slack = if s.kind == Kind::Dec { 1.0 } else { 0.0 };
        for q in order.windows(2) {
            let down = cv(y.data[q[0]]) - cv(y.data[q[1]]);
            if down > slack + 1e-6 || (grey[q[0]] == grey[q[1]] && -down > slack + 1e-6) {
                return bad("order", q[0], c.w, format!("gives {} but grey {} gives {}", y.data[q[0]], grey[q[1]], y.data[q[1]]));
            }
        }
        let om = if s.dst.el() == El::F16 {
            max as f64
        } else if s.has_depth {
            max as f64
        } else {
            ((1i64 << s.dst.depth) - 1) as f64
        };
        for k in 0..n {
            let v = cv(y.data[k]);
            let (black, white) = if enc { (grey[k] == 0, grey[k] == max) } else { (grey[k] <= lo, grey[k] >= hi) };
            let (b, wh) = if enc { (lo as f64, hi as f64) } else { (0.0, om) };
            if black && v != b {
                return bad("landmark", k, c.w, format!("black gives {v} instead of {b}"));
            }
            if white && (v - wh).abs() > 1.0 + 1e-6 {
                return bad("landmark", k, c.w, format!("white gives {v} instead of {wh}"));
            }
        }
    }
    if enc && c.range == 0 {
        // any content at all stays within the nominal limits
        let slack = if d == 8 && s.kind == Kind::Enc && !(s.has_mode && c.mode == 2) { 1 } else { 0 };
        let inp = make_inputs(s, c);
        for t in &ctx.tiers {
            let Some(o) = call(ctx, t, s, c, &inp, obs)? else { continue };
            let out = read_out(s, c, &o, &mut 0);
            for ch in &out.ch {
                let (a, b) = match ch.role {
                    Role::Y => (lo, hi),
                    _ => (half - (ruv / 2.0) as i32, half + (ruv / 2.0) as i32),
                };
                if let Some(k) = (0..ch.data.len()).find(|&k| ch.data[k] < a - slack || ch.data[k] > b + slack) {
                    return fail(
                        "limits",
                        &t.name,
                        format!("{} {}x{}: {:?} at ({},{}) is {}, nominal limits are {a} to {b}", s.name, c.w, c.h, ch.role, k % ch.w, k / ch.w, ch.data[k]),
                    );
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- storage of the same image

/// What a conversion computes, whatever the order of bytes, samples and planes.
fn family(s: &Spec) -> String {
    let roles = |f: &Fmt| {
        let mut r: Vec<String> = f.chans.iter().map(|c| format!("{:?}", c.role)).filter(|r| r != "A").collect();
        r.sort();
        r.concat()
    };
    format!(
        "{:?} {} {}>{} {} {:?}{:?} {} mode{} premul{} depth{} f16{}",
        s.kind,
        roles(&s.src),
        s.src.depth,
        s.dst.depth,
        roles(&s.dst),
        s.src.ss,
        s.dst.ss,
        s.src.has(Role::A) && s.dst.has(Role::A),
        s.has_mode,
        s.has_premul,
        s.has_depth,
        s.dst.el() == El::F16
    )
}

fn storage_pairs(specs: &[Spec], n: usize) -> Vec<Unit> {
    use std::collections::BTreeMap;
    let mut m: BTreeMap<String, Vec<&Spec>> = BTreeMap::new();
    for s in specs.iter().filter(|s| !may_reject(s)) {
        m.entry(family(s)).or_default().push(s);
    }
    let mut v = vec![];
    let p = Prof { layouts: true, ..Prof::default() };
    for (_, f) in m {
        let mut classes: BTreeMap<(usize, usize, bool), Vec<&Spec>> = BTreeMap::new();
        for s in f {
            classes.entry(storage_class(s)).or_default().push(s);
        }
        // every function of a class with its neighbour (exact), every class with the next one (within rounding)
        for g in classes.values() {
            for i in 1..g.len() {
                v.push(pair(g[i], g[i - 1], &p, n));
            }
        }
        let g: Vec<_> = classes.values().collect();
        for i in 1..g.len() {
            v.push(pair(g[i][0], g[i - 1][0], &p, n));
            v.push(pair(g[i][g[i].len() - 1], g[i - 1][g[i - 1].len() - 1], &p, n));
        }
    }
    v
}

/// The same image for a function that stores it differently.
fn restore(from: &Abs, to: &Spec, c: &Case) -> Abs {
    let mut a = Abs::new(&to.src, c.w, c.h);
    let mut r = Rng::new(c.seed, 14);
    let max = (1u64 << to.depth_of(c)) - 1;
    for ch in a.ch.iter_mut() {
        match from.opt(ch.role) {
            Some(f) => ch.data = f.data.clone(),
            None => ch.data.iter_mut().for_each(|v| *v = r.below(max + 1) as i32),
        }
    }
    a
}

pub fn storage(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, z) = (&u.specs[0], &u.specs[1]);
    let c = &cs[0];
    let mut c2 = bind(c, z);
    c2.pad.reverse();
    c2.place.reverse();
    let abs = fill(s, c);
    let i1 = inputs_from(s, c, abs.clone());
    let i2 = inputs_from(z, &c2, restore(&abs, z, c));
    obs.nontrivial = abs.ch.iter().any(|q| q.data.iter().any(|v| *v != q.data[0]));
    let plain = storage_class(s) == storage_class(z);
    let id = if !plain && s.kind == Kind::Dec && c.range == 0 { oracle::ideal(s, c, &i1.abs) } else { vec![] };
    for t in &ctx.tiers {
        let (Some(o1), Some(o2)) = (call(ctx, t, s, c, &i1, obs)?, call(ctx, t, z, &c2, &i2, obs)?) else { continue };
        let (a, b) = (read_out(s, c, &o1, &mut 0), read_out(z, &c2, &o2, &mut 0));
        let d = if plain {
            same_roles(&a, &b)
        } else {
            let keep = |x: &Abs| Abs { ch: x.ch.iter().filter(|q| q.role != Role::A || s.dst.word32 == z.dst.word32).cloned().collect() };
            apart(s, c, &keep(&a), &b, &id)
        };
        if let Some(d) = d {
            return fail("value", &t.name, format!("{} and {} {}x{}: the same picture gives different results: {d}", s.name, z.name, c.w, c.h));
        }
    }
    Ok(())
}

fn same_roles(a: &Abs, b: &Abs) -> Option<String> {
    for p in &a.ch {
        let Some(q) = b.opt(p.role) else { continue };
        if let Some(k) = (0..p.data.len()).find(|&k| p.data[k] != q.data[k]) {
            return Some(format!("{:?} at ({},{}) is {} and {}", p.role, k % p.w, k / p.w, p.data[k], q.data[k]));
        }
    }
    None
}

/// Functions of one class share their arithmetic; between classes the fixed-point precision may differ.
fn storage_class(s: &Spec) -> (usize, usize, bool) {
    (s.src.planes.len(), s.dst.planes.len(), s.src.word32 || s.dst.word32)
}


// ---------------------------------------------------------------- alpha

fn is_dec(k: Kind) -> bool {
    matches!(k, Kind::Dec | Kind::DecId | Kind::DecCgco)
}

/// Units: every function that reads alpha; decoders together with their counterpart without it, where there is one.
fn alpha_units(specs: &[Spec], n: usize) -> Vec<Unit> {
    use Kind::*;
    let p = Prof { layouts: true, ..Prof::default() };
    let mut v = vec![];
    for s in specs.iter().filter(|s| s.src.has(Role::A) && matches!(s.kind, Enc | EncId | EncCgco | RdpEnc | Sharp | Dec | DecId | DecCgco)) {
        let mut list = vec![s.clone()];
        if is_dec(s.kind) {
            let name = s.name.replacen("_with_alpha", "", 1).replacen("_alpha", "", 1);
            list.extend(specs.iter().find(|z| z.name == name && z.id != s.id).cloned());
        }
        v.push(unit(s.name.clone(), list, &p, n));
    }
    v
}

pub fn alpha(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let s = &u.specs[0];
    let c = &cs[0];
    let abs = fill(s, c);
    let max = ((1i64 << s.depth_of(c)) - 1) as i32;
    let mut r = Rng::new(c.aux, 13);
    let reroll = |r: &mut Rng, mode: u64| {
        let mut b = abs.clone();
        for ch in b.ch.iter_mut().filter(|c| c.role == Role::A) {
            for v in ch.data.iter_mut() {
                *v = match mode {
                    0 => 0,
                    1 => max,
                    _ => r.below(max as u64 + 1) as i32,
                };
            }
        }
        b
    };
    let m = r.below(3);
    let other = reroll(&mut r, m);
    obs.nontrivial = other.get(Role::A).data != abs.get(Role::A).data;
    let i1 = inputs_from(s, c, abs.clone());
    let i2 = inputs_from(s, c, other.clone());
    let straight = Case { flag: 0, ..c.clone() };
    let sib = u.specs.get(1);
    let id = if sib.is_some() && c.range == 0 { oracle::ideal(s, &straight, &abs) } else { vec![] };
    for t in &ctx.tiers {
        let (Some(o1), Some(o2)) = (call(ctx, t, s, &straight, &i1, obs)?, call(ctx, t, s, &straight, &i2, obs)?) else { continue };
        let (a, b) = (read_out(s, &straight, &o1, &mut 0), read_out(s, &straight, &o2, &mut 0));
        let colour = |x: &Abs| Abs { ch: x.ch.iter().filter(|c| c.role != Role::A).cloned().collect() };
        if let Some(d) = same(&colour(&a), &colour(&b)) {
            return fail("leak", &t.name, format!("{} {}x{}: straight colour depends on alpha: {d}", s.name, c.w, c.h));
        }
        if let Some(z) = sib {
            let cz = bind(&straight, z);
            let iz = inputs_from(z, &cz, restore(&abs, z, c));
            if let Some(oz) = call(ctx, t, z, &cz, &iz, obs)? {
                let q = read_out(z, &cz, &oz, &mut 0);
                if let Some(d) = apart(s, &straight, &colour(&a), &q, &id) {
                    return fail("plane", &t.name, format!("{} and {} {}x{}: straight colour differs: {d}", s.name, z.name, c.w, c.h));
                }
            }
        }
        if s.has_premul {
            let pm = Case { flag: 1, ..c.clone() };
            let Some(o3) = call(ctx, t, s, &pm, &i1, obs)? else { continue };
            let p = read_out(s, &pm, &o3, &mut 0);
            let al = abs.get(Role::A);
            for ch in colour(&a).ch.iter() {
                let g = p.get(ch.role);
                for k in 0..ch.data.len() {
                    let (st, al, x) = (ch.data[k] as f64, al.data[k] as f64, g.data[k] as f64);
                    let want = st * al / max as f64;
                    let tol = if al == 0.0 || al == max as f64 { 0.0 } else { 0.52 };
                    if (x - want).abs() > tol || x > al {
                        return fail(
                            "premultiplied",
                            &t.name,
                            format!("{} {}x{}: {:?} at ({},{}) is {x}; straight {st} times alpha {al} is {want:.2}", s.name, c.w, c.h, ch.role, k % ch.w, k / ch.w),
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- locality

/// Rows per independent block.
fn block(s: &Spec) -> (usize, usize) {
    let (mut x, mut y) = (1, 1);
    for c in s.src.chans.iter().chain(s.dst.chans.iter()) {
        x = x.max(c.sx);
        y = y.max(c.sy);
    }
    (x, y)
}

fn crop(a: &Abs, f: &Fmt, x0: usize, y0: usize, w: usize, h: usize) -> Abs {
    let mut o = Abs::new(f, w, h);
    for ((src, dst), m) in a.ch.iter().zip(o.ch.iter_mut()).zip(f.chans.iter()) {
        for y in 0..dst.h {
            for x in 0..dst.w {
                dst.data[y * dst.w + x] = src.at(x0 / m.sx + x, y0 / m.sy + y);
            }
        }
    }
    o
}

pub fn locality(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let (bx, by) = block(s);
    let abs = fill(s, c);
    let mut r = Rng::new(c.aux, 17);
    let n = ctx.tiers.len();
    let pick = [n - 1, r.below(n as u64) as usize];
    // a window of the picture, aligned to chroma blocks
    let x0 = r.below(c.w.div_ceil(bx) as u64) as usize * bx;
    let y0 = r.below(c.h.div_ceil(by) as u64) as usize * by;
    let w = 1 + r.below((c.w - x0) as u64) as usize;
    let h = 1 + r.below((c.h - y0) as u64) as usize;
    // a window may end inside a block only where the picture does
    let fit = |v: usize, b: usize, o: usize, all: usize| if o + v < all { v.div_ceil(b) * b } else { v };
    let (w, h) = (fit(w, bx, x0, c.w).min(c.w - x0), fit(h, by, y0, c.h).min(c.h - y0));
    // one block gets other content, or a random half of them does
    let (px, py) = (r.below(c.w.div_ceil(bx) as u64) as usize, r.below(c.h.div_ceil(by) as u64) as usize);
    let single = r.below(3) == 0;
    let salt = r.next();
    let changed = |x: usize, y: usize| if single { (x, y) == (px, py) } else { Rng::new(salt ^ x as u64, y as u64).below(2) == 0 };
    let mut other = abs.clone();
    let donor = fill(s, &Case { seed: c.seed ^ 0x1234_5678, pat: if r.below(2) == 0 { 1 } else { c.pat }, ..c.clone() });
    for (i, ch) in other.ch.iter_mut().enumerate() {
        let m = &s.src.chans[i];
        for y in 0..ch.h {
            for x in 0..ch.w {
                if changed(x * m.sx / bx, y * m.sy / by) {
                    ch.data[y * ch.w + x] = donor.ch[i].data[y * ch.w + x];
                }
            }
        }
    }
    obs.nontrivial = (w, h) != (c.w, c.h) || c.w > bx || c.h > by;
    let i0 = inputs_from(s, c, abs.clone());
    let i1 = inputs_from(s, c, other);
    let rows = Case { h, ..c.clone() };
    let i2 = inputs_from(s, &rows, crop(&abs, &s.src, 0, y0, c.w, h));
    let win = Case { w, h, ..c.clone() };
    let mut below: Option<(String, String)> = None;
    let i3 = inputs_from(s, &win, crop(&abs, &s.src, x0, y0, w, h));
    for (k, &ti) in pick.iter().enumerate() {
        if k == 1 && ti == pick[0] {
            break;
        }
        let t = &ctx.tiers[ti];
        let Some(o0) = call(ctx, t, s, c, &i0, obs)? else { continue };
        let whole = read_out(s, c, &o0, &mut 0);
        // one block
        if let Some(o1) = call(ctx, t, s, c, &i1, obs)? {
            let a = read_out(s, c, &o1, &mut 0);
            for (i, (p, q)) in whole.ch.iter().zip(a.ch.iter()).enumerate() {
                let m = &s.dst.chans[i];
                for j in 0..p.data.len() {
                    let (x, y) = (j % p.w * m.sx / bx, j / p.w * m.sy / by);
                    if p.data[j] != q.data[j] && !changed(x, y) {
                        return fail(
                            "spill",
                            &t.name,
                            format!("{} {}x{}: changing pixels of other blocks changed {:?} at ({},{})", s.name, c.w, c.h, p.role, j % p.w, j / p.w),
                        );
                    }
                }
            }
        }
        // rows
        if let Some(o2) = call(ctx, t, s, &rows, &i2, obs)? {
            let a = read_out(s, &rows, &o2, &mut 0);
            let want = crop(&whole, &s.dst, 0, y0, c.w, h);
            if let Some(d) = same(&want, &a) {
                return fail("rows", &t.name, format!("{} {}x{}: rows {y0}..{} converted alone give another result: {d}", s.name, c.w, c.h, y0 + h));
            }
        }
        // window
        if let Some(o3) = call(ctx, t, s, &win, &i3, obs)? {
            let a = read_out(s, &win, &o3, &mut 0);
            let want = crop(&whole, &s.dst, x0, y0, w, h);
            let id = if s.kind == Kind::Dec && c.range == 0 { oracle::ideal(s, &win, &i3.abs) } else { vec![] };
            if let Some(d) = apart(s, c, &want, &a, &id) {
                return fail("window", &t.name, format!("{} {}x{}: window {w}x{h} at ({x0},{y0}) converted alone gives another result: {d}", s.name, c.w, c.h));
            }
            if let Some(d) = apart(s, c, &want, &a, &[]) {
                below.get_or_insert((t.name.clone(), format!("{} {}x{}: window {w}x{h} at ({x0},{y0}), luma below black: {d}", s.name, c.w, c.h)));
            }
        }
    }
    match below {
        Some((t, d)) => fail("below black", &t, d),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- history

fn history_units(specs: &[Spec], n: usize) -> Vec<Unit> {
    use proptest::prelude::*;
    use std::collections::BTreeMap;
    let p = Prof { tiny: true, layouts: true, ..Prof::default() };
    let any = |list: Vec<usize>, all: &[Spec]| {
        let strats: Vec<_> = list.iter().map(|&i| case(&all[i], &Prof { layouts: !may_reject(&all[i]), ..p.clone() })).collect();
        (0..strats.len()).prop_flat_map(move |i| strats[i].clone()).boxed()
    };
    let all: Vec<usize> = (0..specs.len()).collect();
    let mut v = vec![Unit { name: "any functions".into(), specs: specs.to_vec(), strat: prop::collection::vec(any(all, specs), 2..10).boxed(), cases: n }];
    // related functions share kernels and helpers: those are the likely owners of shared state
    let mut m: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, s) in specs.iter().enumerate() {
        m.entry(format!("{:?}", s.kind)).or_default().push(i);
    }
    for (k, list) in m {
        let c = (n / 8).max(list.len() / 2);
        v.push(Unit { name: format!("{k} functions"), specs: specs.to_vec(), strat: prop::collection::vec(any(list, specs), 2..8).boxed(), cases: c });
    }
    // state that belongs to one function or to instances of one generic function, keyed by some of its parameters
    // only: repeat the call with a few of them changed, mixed with the functions of the most similar names
    for i in 0..specs.len() {
        let mut list: Vec<usize> = (0..specs.len()).filter(|&j| j != i).collect();
        list.sort_by_key(|&j| distance(specs[i].name.as_bytes(), specs[j].name.as_bytes()));
        list.truncate(6);
        list.insert(0, i);
        let strats: Vec<_> = list.iter().map(|&j| case(&specs[j], &Prof { layouts: !may_reject(&specs[j]), ..p.clone() })).collect();
        let own = strats[0].clone();
        let step = ((0..12usize), proptest::arbitrary::any::<u16>()).prop_flat_map(move |(k, mask)| (Just(mask), strats[if k < strats.len() { k } else { 0 }].clone()));
        let strat = (own, prop::collection::vec(step, 3..8)).prop_map(|(base, steps)| {
            let mut seq = vec![base.clone()];
            seq.extend(steps.into_iter().map(|(mask, o)| recall(&base, o, mask)));
            seq
        });
        let specs: Vec<Spec> = list.iter().map(|&j| specs[j].clone()).collect();
        v.push(Unit { name: format!("{} again", specs[0].name), specs, strat: strat.boxed(), cases: (n / 60).max(2) });
    }
    v
}

fn distance(a: &[u8], b: &[u8]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 0..a.len() {
        let mut diag = row[0];
        row[0] = i + 1;
        for j in 0..b.len() {
            let d = (diag + (a[i] != b[j]) as usize).min(row[j] + 1).min(row[j + 1] + 1);
            diag = std::mem::replace(&mut row[j + 1], d);
        }
    }
    row[b.len()]
}

/// `o` with the parameters and the picture of `b`, except for some.
fn recall(b: &Case, o: Case, mask: u16) -> Case {
    let mut c = o.clone();
    let on = |k: u32| mask >> k & 1 == 1;
    if on(0) {
        c.range = b.range;
    }
    if on(1) {
        (c.matrix, c.kr, c.kb) = (b.matrix, b.kr, b.kb);
    }
    if on(2) || on(3) {
        (c.w, c.h) = (b.w, b.h);
    }
    if o.fn_id != b.fn_id {
        return c;
    }
    if on(4) {
        c.mode = b.mode;
    }
    if on(5) {
        (c.depth, c.order) = (b.depth, b.order);
    }
    if on(6) {
        (c.gamma, c.flag, c.geo) = (b.gamma, b.flag, b.geo);
    }
    if on(2) || on(3) {
        (c.pad, c.tail, c.place) = (b.pad, b.tail, b.place);
    }
    // what is left over shows best on the same picture
    if on(7) || on(8) {
        (c.pat, c.seed) = (b.pat, b.seed);
    }
    c
}

fn digest(o: &Outcome) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (o.ret, &o.raw).hash(&mut h);
    h.finish()
}

pub fn history(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let spec = |c: &Case| u.specs.iter().find(|s| s.id == c.fn_id).unwrap();
    let t = &ctx.tiers[cs[0].aux as usize % ctx.tiers.len()];
    let inp: Vec<Inputs> = cs.iter().map(|c| make_inputs(spec(c), c)).collect();
    obs.nontrivial = cs.windows(2).any(|w| w[0] != w[1]);
    let one = |ar: &Arena, i: usize| digest(&run(ar, &ctx.libs, t, spec(&cs[i]), &cs[i], &inp[i], FILL_SALT));
    let child = |f: &dyn Fn() -> Vec<u64>| -> Result<Vec<u64>, Failure> {
        match crate::pool::isolated(60, |_| f()) {
            crate::pool::End::Done(r) => Ok(r),
            crate::pool::End::Crash(s, _) => fail("crash", &t.name, format!("signal {s}")),
            crate::pool::End::Broken(m) => panic!("{m}"),
        }
    };
    let n = cs.len();
    obs.calls += (n * 7) as u64;
    // each call as the first thing its process does
    let mut alone = vec![];
    for i in 0..n {
        alone.extend(child(&|| vec![one(&ctx.ar, i)])?);
    }
    let check = |what: &str, got: &[u64], order: &[usize]| -> Result<(), Failure> {
        for (k, &i) in order.iter().enumerate() {
            if got[k] != alone[i] {
                return fail(
                    "history",
                    &t.name,
                    format!("call {i} of {n} ({} {}x{}) gives another result {what} than alone", cs[i].name, cs[i].w, cs[i].h),
                );
            }
        }
        Ok(())
    };
    let fwd: Vec<usize> = (0..n).collect();
    let back: Vec<usize> = (0..n).rev().collect();
    let mut both = fwd.clone();
    both.extend(back);
    check("in sequence", &child(&|| both.iter().map(|&i| one(&ctx.ar, i)).collect())?, &both)?;
    let k = 4;
    let order = |th: usize| -> Vec<usize> { (0..n).map(|j| (j + th * n / k) % n).collect() };
    let got = child(&|| {
        struct Shared<'a>(&'a dyn Fn(&Arena, usize) -> u64);
        unsafe impl Sync for Shared<'_> {}
        let f = Shared(&one);
        let f = &f;
        let mut v: Vec<Vec<u64>> = vec![];
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..k)
                .map(|th| {
                    let o = order(th);
                    sc.spawn(move || {
                        let f = f;
                        let ar = Arena::new();
                        o.iter().map(|&i| (f.0)(&ar, i)).collect::<Vec<u64>>()
                    })
                })
                .collect();
            for h in hs {
                v.push(h.join().unwrap());
            }
        });
        v.concat()
    })?;
    let all: Vec<usize> = (0..k).flat_map(order).collect();
    check("in concurrent threads", &got, &all)
}


// ---------------------------------------------------------------- slice ends

/// The last row may stop after its last pixel, and whole rows may follow the image: both are valid slices.
pub fn slice_ends(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let (s, c) = (&u.specs[0], &cs[0]);
    let plain = Case { tail: [0; NP], ..c.clone() };
    let abs = fill(s, c);
    let i0 = inputs_from(s, &plain, abs.clone());
    let i1 = inputs_from(s, c, abs.clone());
    let n = s.nin() + s.nout();
    let what = if (0..n).any(|i| c.tail[i] == 1) { "last row" } else { "rows after" };
    obs.nontrivial = (0..n).any(|i| layout(s, c, i).len != layout(s, &plain, i).len);
    let t = &ctx.tiers[c.aux as usize % ctx.tiers.len()];
    let Some(o0) = call(ctx, t, s, &plain, &i0, obs)? else { return Ok(()) };
    obs.calls += 1;
    let o1 = run(&ctx.ar, &ctx.libs, t, s, c, &i1, FILL_SALT);
    let head = format!("{} {}x{} {what}", s.name, c.w, c.h);
    match o1.ret {
        0 => {}
        // refusing such a slice is a clear answer too
        e if e >= 100 => return Ok(()),
        _ => return fail(&format!("{what}: panic"), &t.name, format!("{head}: {}", o1.msg)),
    }
    let (a, b) = (read_out(s, &plain, &o0, &mut 0), read_out(s, c, &o1, &mut 0));
    if let Some(d) = same(&a, &b) {
        let class = match end_damage(s, c, &o1, &a, &b) {
            Some(true) if what == "last row" => "last row: skipped",
            Some(_) => &format!("{what}: wrong in the last rows"),
            None => &format!("{what}: value"),
        };
        return fail(class, &t.name, format!("{head}: {d}"));
    }
    if let Some(d) = padding_damage(s, c, &o1, FILL_SALT) {
        let class = if what == "rows after" && within_rows(s, c, &o1) { "rows after: written" } else { &format!("{what}: padding") };
        return fail(class, &t.name, format!("{head}: {d}"));
    }
    Ok(())
}

/// None if a sample outside the last group of rows differs; whether all that differ still hold what the buffer held before.
fn end_damage(s: &Spec, c: &Case, o: &Outcome, want: &Abs, got: &Abs) -> Option<bool> {
    let old = Outcome { raw: (0..s.nout()).map(|k| out_fill(c, s.nin() + k, o.raw[k].len(), FILL_SALT)).collect(), ..o.clone() };
    let old = read_out(s, c, &old, &mut 0);
    let group = s.src.chans.iter().chain(s.dst.chans.iter()).map(|q| q.sy).max().unwrap();
    let mut kept = true;
    for ((w, g), f) in want.ch.iter().zip(&got.ch).zip(&old.ch) {
        let gr = group / s.dst.chans.iter().find(|q| q.role == w.role).unwrap().sy;
        let from = (w.h - 1) / gr * gr;
        for k in (0..w.data.len()).filter(|&k| w.data[k] != g.data[k]) {
            // the code finds "the last row" from the slice, so it may be the row before that is done twice
            if k / w.w < from.saturating_sub(gr) {
                return None;
            }
            kept &= g.data[k] == f.data[k];
        }
    }
    Some(kept)
}

/// What was written outside the image lies in the sample part of the whole rows that follow it, never in row padding.
fn within_rows(s: &Spec, c: &Case, o: &Outcome) -> bool {
    (0..s.nout()).all(|k| {
        let l = layout(s, c, s.nin() + k);
        let f = out_fill(c, s.nin() + k, l.len * l.es, FILL_SALT);
        (0..l.len * l.es).all(|j| {
            let e = j / l.es;
            let x = e % l.stride;
            f[j] == o.raw[k][j] || x < l.row
        })
    })
}

pub fn slice_end_units(specs: &[Spec], n: usize) -> Vec<Unit> {
    use proptest::prelude::*;
    let p = Prof { layouts: true, ..Prof::default() };
    specs
        .iter()
        .filter(|s| !may_reject(s))
        .map(|s| Unit {
            name: format!("{} slice ends", s.name),
            specs: vec![s.clone()],
            strat: (case(s, &p), prop::array::uniform6(prop_oneof![Just(0u8), Just(1u8)]), any::<bool>())
                .prop_map(|(c, tail, rows)| vec![if rows { Case { tail: [3; NP], ..c } } else { Case { tail, ..c } }])
                .boxed(),
            cases: n,
        })
        .collect()
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C10",
        rule: "Each case is one conversion call made with every instruction-set rung of the full build and with rungs of five other builds of the crate (rayon; default features; \
no AVX-512; SSE only; no SIMD). Non-trivial: some output channel is not constant.",
        units: |_, s| each(s, &Prof { layouts: true, big: true, ..Prof::default() }, 200, |_| true),
        body: dispatch,
    },
    Check { id: "C11", rule: "Each case is one picture converted by a function and back by its inverse on every rung. Non-trivial: the picture is not all zero.", units: |_, s| round_trip_pairs(s, 300), body: round_trip },
    Check {
        id: "C12",
        rule: "Each case is one grey picture with black, white and their neighbours planted in it (and, for limited-range encoders, one arbitrary picture) on every rung. Non-trivial: more than one grey level.",
        units: |_, s| each(s, &Prof { layouts: true, flag: Some(0), ..Prof::default() }, 300, |s| {
            use Kind::*;
            matches!(s.kind, Enc | Dec | Sharp | EncCgco | DecCgco)
        }),
        body: neutral,
    },
    Check { id: "C13", rule: "Each case is one picture with two different alpha channels, straight and premultiplied, with and without alpha, on every rung. Non-trivial: the two alpha channels differ.", units: |_, s| alpha_units(s, 400), body: alpha },
    Check { id: "C16", rule: "Each case is a sequence of 2 to 9 calls, run alone in fresh processes, forwards then backwards in one process, and on four threads. Non-trivial: the calls are not all the same.", units: |_, s| history_units(s, 600), body: history },
    Check {
        id: "C17",
        rule: "Each case is one picture; one block of it is replaced, a group of its rows and a window of it are converted alone, on two rungs. Non-trivial: there is something outside the block or the window.",
        units: |_, s| each(s, &Prof { layouts: false, ..Prof::default() }, 200, |s| !may_reject(s)),
        body: locality,
    },
    Check {
        id: "C18",
        rule: "Each case is one image container (valid, or with one thing wrong about a slice, a stride or its size) checked, allocated or viewed; or one conversion into an \
allocated image. Non-trivial: not a valid compact image.",
        units: |_, s| crate::containers::units(s),
        body: crate::containers::containers,
    },
    Check { id: "C14", rule: "Each case is one picture stored for two functions, converted by both on every rung. Non-trivial: the picture is not constant.", units: |_, s| storage_pairs(s, 200), body: storage },
    ]
}


// ---------------------------------------------------------------- giant strides

pub fn giant_units(specs: &[Spec], n: usize) -> Vec<Unit> {
    let p = Prof { tiny: true, ..Prof::default() };
    specs
        .iter()
        .filter(|s| (0..s.nin() + s.nout()).any(|i| s.plane(i).strict != Strict::Exact))
        .map(|s| Unit { name: format!("{} giant strides", s.name), specs: vec![s.clone()], strat: case(s, &p).prop_map(|c| vec![c]).boxed(), cases: n })
        .collect()
}

/// Strides whose product with the row count or the element size leaves 32 bits.
pub fn giant(ctx: &Ctx, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    let s = &u.specs[0];
    let c = &compact(&cs[0]);
    let inp = make_inputs(s, c);
    let mut r = Rng::new(c.aux, 31);
    let t = &ctx.tiers[r.below(ctx.tiers.len() as u64) as usize];
    let Some(o0) = call(ctx, t, s, c, &inp, obs)? else { return Ok(()) };
    let n = s.nin() + s.nout();
    let all = r.below(3) == 0;
    let one = r.below(n as u64) as usize;
    let mut strides = vec![];
    let mut big = 0;
    for i in 0..n {
        let l = layout(s, c, i);
        let near = r.below(300) as usize;
        let x = match r.below(6) {
            0 => (1usize << 31) - 1 - near,
            1 => (1usize << 31) + near,
            2 => u32::MAX as usize - near,
            3 => (1usize << 30) + near,
            4 => (u32::MAX as usize / l.rows).max(1) + near,
            _ => (1usize << 28) + (r.next() as usize % (15 << 28)),
        };
        // no more address space than any machine has
        let x = x.min((36usize << 30) / (l.rows * l.es)).min(u32::MAX as usize).max(l.row);
        if s.plane(i).strict != Strict::Exact && (all || i == one || r.below(4) == 0) {
            strides.push(x);
            big += 1;
        } else {
            strides.push(l.stride);
        }
    }
    let Some(o1) = run_sparse(&ctx.libs, t, s, c, &inp, &strides) else { return Ok(()) };
    obs.calls += 1;
    obs.nontrivial = big > 0;
    let head = format!("{} {}x{} strides {strides:?}", s.name, c.w, c.h);
    if o1.ret >= 100 && may_reject(s) {
        return Ok(());
    }
    if o1.ret != 0 {
        return fail("giant stride: refused", &t.name, format!("{head}: gives {} {}", o1.ret, o1.msg));
    }
    if let Some(d) = o1.damage {
        return fail("giant stride: damage", &t.name, format!("{head}: {d}"));
    }
    let (a, b) = (read_out(s, c, &o0, &mut 0), read_out(s, c, &o1, &mut 0));
    if let Some(d) = same(&a, &b) {
        return fail("giant stride: value", &t.name, format!("{head}: {d}"));
    }
    Ok(())
}
