//! Model of the conversions that only move data: every output sample is known exactly.
use crate::case::*;
use crate::oracle::Ideal;
use crate::spec::*;

fn px(a: &Abs, role: Role, w: usize, h: usize, f: impl Fn(&Chan, usize, usize) -> i32) -> Ideal {
    let ch = a.get(role);
    let mut v = vec![];
    for y in 0..h {
        for x in 0..w {
            v.push(f(ch, x, y) as f64);
        }
    }
    Ideal { role, w, h, v, alt: None }
}

pub fn is_exact(k: Kind) -> bool {
    matches!(k, Kind::Shuffle | Kind::PackWord | Kind::UnpackWord | Kind::Rotate | Kind::Mirror | Kind::Pack422 | Kind::Unpack422)
}

pub fn exact(s: &Spec, c: &Case, a: &Abs) -> Vec<Ideal> {
    let (w, h) = (c.w, c.h);
    let mut o = vec![];
    match s.kind {
        Kind::Shuffle => {
            for m in &s.dst.chans {
                o.push(match a.opt(m.role) {
                    Some(_) => px(a, m.role, w, h, |c, x, y| c.at(x, y)),
                    None => Ideal { role: m.role, w, h, v: vec![(1u64 << s.dst.depth) as f64 - 1.0; w * h], alt: None },
                });
            }
        }
        Kind::PackWord => {
            let d = s.depth_of(c);
            for m in &s.dst.chans {
                let alpha = m.role == Role::A;
                o.push(match a.opt(m.role) {
                    Some(_) if alpha => px(a, m.role, w, h, |c, x, y| c.at(x, y) >> (d - 2)),
                    // 8-bit samples are widened by bit replication
                    Some(_) if d == 8 => px(a, m.role, w, h, |c, x, y| (c.at(x, y) << 2) | (c.at(x, y) >> 6)),
                    Some(_) => px(a, m.role, w, h, |c, x, y| c.at(x, y) >> (d - 10)),
                    None => Ideal { role: m.role, w, h, v: vec![3.0; w * h], alt: None },
                });
            }
        }
        Kind::UnpackWord => {
            for m in &s.dst.chans {
                o.push(if m.role == Role::A {
                    px(a, m.role, w, h, |c, x, y| c.at(x, y) * 85)
                } else {
                    px(a, m.role, w, h, |c, x, y| c.at(x, y) >> 2)
                });
            }
        }
        Kind::Rotate => {
            let (ow, oh) = s.out_dims(w, h, c.geo);
            for ch in &a.ch {
                o.push(px(a, ch.role, ow, oh, |c2, x, y| match c.geo {
                    // quarter turns are counter-clockwise
                    0 => c2.at(w - 1 - y, x),
                    1 => c2.at(w - 1 - x, h - 1 - y),
                    _ => c2.at(y, h - 1 - x),
                }));
            }
        }
        Kind::Mirror => {
            for ch in &a.ch {
                o.push(px(a, ch.role, w, h, |c2, x, y| if c.geo == 0 { c2.at(x, h - 1 - y) } else { c2.at(w - 1 - x, y) }));
            }
        }
        Kind::Pack422 => {
            o.push(px(a, Role::Y, w, h, |c, x, y| c.at(x, y)));
            for r in [Role::U, Role::V] {
                o.push(px(a, r, w.div_ceil(2), h, |c, x, y| match s.src.ss {
                    Ss::S444 => {
                        let l = c.at(2 * x, y);
                        let q = if 2 * x + 1 < w { c.at(2 * x + 1, y) } else { l };
                        (l + q + 1) >> 1
                    }
                    Ss::S422 => c.at(x, y),
                    _ => c.at(x, y / 2),
                }));
            }
        }
        Kind::Unpack422 => {
            o.push(px(a, Role::Y, w, h, |c, x, y| c.at(x, y)));
            for r in [Role::U, Role::V] {
                let (cw, chh) = (w.div_ceil(s.dst.ss.x()), h.div_ceil(s.dst.ss.y()));
                o.push(px(a, r, cw, chh, |c, x, y| match s.dst.ss {
                    Ss::S444 => c.at(x / 2, y),
                    Ss::S422 => c.at(x, y),
                    _ => c.at(x, 2 * y),
                }));
            }
        }
        _ => {}
    }
    o
}
