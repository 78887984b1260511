//! proptest strategies for cases. Every random choice of a case is made here.
use crate::case::*;
use crate::spec::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

#[derive(Clone, Default)]
pub struct Prof {
    /// vary strides, slice tails and addresses
    pub layouts: bool,
    /// larger images more often
    pub big: bool,
    /// keep images tiny (sequence checks)
    pub tiny: bool,
    /// conversion modes to draw from; empty = all
    pub modes: Vec<u32>,
    /// data patterns to draw from; empty = all
    pub pats: Vec<u8>,
    pub range: Option<u32>,
    pub flag: Option<u32>,
}

fn dims(p: &Prof) -> BoxedStrategy<(usize, usize)> {
    if p.tiny {
        return prop_oneof![3 => (1usize..=12, 1usize..=4), 3 => (1usize..=140, 1usize..=3)].boxed();
    }
    let h = prop_oneof![12 => 1usize..=6, 2 => 1usize..=17, if p.big { 4 } else { 1 } => 1usize..=70];
    let around = (prop::sample::select(vec![8usize, 16, 32, 48, 64, 96, 128, 256]), 0usize..=4).prop_map(|(a, d)| a + d - 2);
    prop_oneof![
        90 => (1usize..=12, h.clone()),
        120 => (1usize..=150, h.clone()),
        60 => (around, h.clone()),
        60 => (1usize..=400, 1usize..=6),
        30 => (1usize..=2100, 1usize..=2),
        // long rows, many rows
        3 => (2000usize..=9000, 1usize..=3),
        3 => (1usize..=40, 60usize..=1300),
        1 => (8190usize..=70000, 1usize..=2),
        1 => (1usize..=3, 1000usize..=9000),
    ]
    .boxed()
}

fn six<S: Strategy + Clone + 'static>(s: S) -> BoxedStrategy<[S::Value; NP]>
where
    S::Value: Clone + std::fmt::Debug,
{
    prop::collection::vec(s, NP..=NP).prop_map(|v| v.try_into().unwrap()).boxed()
}

/// Luma weights of a custom matrix in 1/1000: any sensible ones, or close to those of a standard.
fn custom_matrix() -> BoxedStrategy<(u32, u32)> {
    let near = (prop::sample::select(vec![(299u32, 114u32), (213, 72), (263, 59), (212, 87), (222, 71), (300, 110)]), 0u32..11, 0u32..11)
        .prop_map(|((r, b), dr, db)| (r + dr - 5, b + db - 5));
    prop_oneof![2 => (150u32..350, 50u32..200), 1 => near].boxed()
}

pub fn case(s: &Spec, p: &Prof) -> BoxedStrategy<Case> {
    let pick = |on: bool, v: Vec<u32>, off: u32| {
        if on && !v.is_empty() {
            prop::sample::select(v).boxed()
        } else {
            Just(off).boxed()
        }
    };
    let range = match p.range {
        Some(r) => Just(r).boxed(),
        None => pick(s.has_range, vec![1, 0], 1),
    };
    let modes = if p.modes.is_empty() { vec![1, 2, 0] } else { p.modes.clone() };
    let mode = pick(s.has_mode, modes, 1);
    let order = pick(s.has_order, vec![0, 1], 0);
    let flag = match p.flag {
        Some(f) => Just(f).boxed(),
        None => pick(s.has_premul, vec![0, 1], 0),
    };
    let depth = pick(s.has_depth, vec![10, 12, 14, 16], s.src.depth);
    let gamma = pick(s.has_gamma, vec![0, 1, 2, 3], 0);
    let geo = match s.kind {
        Kind::Rotate => pick(true, vec![0, 1, 2], 0),
        Kind::Mirror => pick(true, vec![0, 1], 0),
        _ => Just(0).boxed(),
    };
    let matrix = pick(s.has_matrix, vec![0, 1, 2, 3, 4, 5, 6, 6], 0);
    let pats = if p.pats.is_empty() { (0..NPAT).collect() } else { p.pats.clone() };
    let lay: BoxedStrategy<([usize; NP], [u8; NP], [u8; NP])> = if p.layouts {
        let pad = six(prop_oneof![40 => Just(0usize), 60 => 0usize..8, 40 => 0usize..90, 1 => 200usize..3000]);
        let tail = six(prop_oneof![3 => Just(0u8), 1 => Just(2u8)]);
        let place = six(prop_oneof![3 => Just(0u8), 2 => Just(1u8), 3 => 2u8..34]);
        // sometimes everything compact except the addresses
        (prop::bool::weighted(0.8), pad, tail, place)
            .prop_map(|(on, a, b, c)| if on { (a, b, c) } else { ([0; NP], [0; NP], c) })
            .boxed()
    } else {
        Just(([0; NP], [0; NP], [0; NP])).boxed()
    };
    let (id, name) = (s.id, s.name.clone());
    let custom = s.has_matrix;
    (
        dims(p),
        lay,
        (range, matrix, custom_matrix()),
        (mode, order, flag, depth, gamma, geo),
        prop::sample::select(pats),
        any::<u64>(),
        any::<u64>(),
    )
        .prop_map(move |((w, h), (pad, tail, place), (range, matrix, (kr, kb)), (mode, order, flag, depth, gamma, geo), pat, seed, aux)| Case {
            fn_id: id,
            name: name.clone(),
            w,
            h,
            pad: if h > 200 { pad.map(|p| p % 90) } else { pad },
            tail,
            place,
            range,
            matrix,
            kr: if custom && matrix == 6 { kr } else { 0 },
            kb: if custom && matrix == 6 { kb } else { 0 },
            mode,
            order,
            flag,
            depth,
            gamma,
            geo,
            alloc: 0,
            pat,
            seed,
            aux,
        })
        .boxed()
}
