//! How far from the real-valued ideal an output sample may be, in code values of the output.
//! These numbers are part of the statements in properties.jsonl.
use crate::case::Case;
use crate::spec::*;

/// (absolute, additional per unit of the ideal's magnitude)
pub fn tol(s: &Spec, c: &Case, role: Role) -> (f64, f64) {
    let d = s.depth_of(c);
    let f16 = s.dst.el() == El::F16;
    // half an ulp of the half-precision result, with a margin for the multiplication before it
    let half = 1.02 * 2f64.powi(-11);
    let mode = if s.has_mode { c.mode as i32 } else { -1 };
    if role == Role::A {
        return if f16 {
            (1.2, half)
        } else if !s.has_depth && s.dst.depth != s.src.depth && !s.dst.word32 {
            (1.0, 0.0)
        } else {
            (0.0, 0.0)
        };
    }
    match s.kind {
        Kind::Enc => (
            if d == 8 {
                match mode {
                    0 => 2.5,
                    2 if role == Role::Y => 0.6,
                    2 => 1.0,
                    _ => 1.4,
                }
            } else {
                match d {
                    16 if role == Role::Y => 3.5,
                    16 => 2.25,
                    14 => 1.3,
                    _ if role == Role::Y => 0.75,
                    _ => 1.2,
                }
            },
            0.0,
        ),
        Kind::Dec => {
            if f16 {
                return (
                    match d {
                        10 => 0.6,
                        12 => 1.8,
                        _ => 3.2,
                    },
                    half,
                );
            }
            let pk = s.src.planes.len() == 1 && s.src.ss == Ss::S422;
            let t = if s.dst.word32 || (d > 8 && s.dst.depth == 8 && !s.has_depth) {
                1.6
            } else if d == 8 {
                if s.has_premul && c.flag != 0 {
                    3.0
                } else if pk {
                    4.2
                } else {
                    match mode {
                        0 => 4.2,
                        2 => 0.6,
                        _ => 2.75,
                    }
                }
            } else {
                match d {
                    16 => 5.5,
                    14 => 2.5,
                    _ => 2.8,
                }
            };
            (t, 0.0)
        }
        Kind::Sharp => (0.75, 0.0),
        Kind::EncId => (if c.range == 0 { 1.5 } else { 0.0 }, 0.0),
        Kind::DecId => {
            if f16 {
                if c.range != 0 {
                    return (0.01, half);
                }
                return (
                    match d {
                        8 => 0.8,
                        10 => 0.8,
                        12 => 1.8,
                        14 => 5.5,
                        _ => 22.5,
                    },
                    half,
                );
            }
            (if c.range == 0 { 1.5 } else { 0.0 }, 0.0)
        }
        Kind::EncCgco => (1.0, 0.0),
        Kind::DecCgco => (if c.range == 0 { 0.75 } else { 0.0 }, 0.0),
        Kind::RdpEnc => (1.6, 0.0),
        Kind::RdpDec => (1.05, 0.0),
        Kind::ToF16 => (0.01, half),
        Kind::FromF16 => (0.51, 1e-6),
        _ => (0.0, 0.0),
    }
}
