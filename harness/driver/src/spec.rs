//! What every public function of the crate is: parsed from its (systematic) public name.
//! Formats are described as plain data so that the harness can fill and read any image
//! without sharing a line with the crate under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum El {
    U8,
    U16,
    I16,
    F16,
}
impl El {
    pub fn size(self) -> usize {
        if self == El::U8 {
            1
        } else {
            2
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Role {
    R,
    G,
    B,
    A,
    Y,
    U,
    V,
    /// channel of an image whose meaning the function does not care about
    C(u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ss {
    S420,
    S422,
    S444,
    S400,
}
impl Ss {
    pub fn x(self) -> usize {
        matches!(self, Ss::S420 | Ss::S422) as usize + 1
    }
    pub fn y(self) -> usize {
        matches!(self, Ss::S420) as usize + 1
    }
    pub fn num(self) -> u32 {
        match self {
            Ss::S420 => 420,
            Ss::S422 => 422,
            Ss::S444 => 444,
            Ss::S400 => 400,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Store {
    /// value << shift, optionally big-endian
    Plain { be: bool, shift: u32 },
    /// bit field of a 32-bit word stored in four bytes
    Field { pos: u32, bits: u32 },
}

#[derive(Clone, Copy, Debug)]
pub struct ChanMap {
    pub role: Role,
    pub plane: usize,
    pub mul: usize,
    pub off: usize,
    pub sx: usize,
    pub sy: usize,
    pub store: Store,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strict {
    /// stride >= minimum and len >= stride*(rows-1)+min
    Free,
    /// the crate accepts only stride == minimum and len == stride*rows
    Exact,
}

#[derive(Clone, Debug)]
pub struct PlaneSpec {
    pub el: El,
    /// elements a row needs = mul * ceil(w / sx)
    pub mul: usize,
    pub sx: usize,
    pub sy: usize,
    pub strict: Strict,
}
impl PlaneSpec {
    pub fn row(&self, w: usize) -> usize {
        self.mul * w.div_ceil(self.sx)
    }
    pub fn rows(&self, h: usize) -> usize {
        h.div_ceil(self.sy)
    }
}

#[derive(Clone, Debug)]
pub struct Fmt {
    pub planes: Vec<PlaneSpec>,
    pub chans: Vec<ChanMap>,
    pub depth: u32,
    pub ss: Ss,
    /// bytes-in-u32 formats
    pub word32: bool,
}
impl Fmt {
    pub fn has(&self, r: Role) -> bool {
        self.chans.iter().any(|c| c.role == r)
    }
    pub fn el(&self) -> El {
        self.planes[0].el
    }
}

fn px(el: El, depth: u32, offs: &[(Role, usize)]) -> Fmt {
    let n = offs.len();
    Fmt {
        planes: vec![PlaneSpec { el, mul: n, sx: 1, sy: 1, strict: Strict::Free }],
        chans: offs
            .iter()
            .map(|&(role, off)| ChanMap { role, plane: 0, mul: n, off, sx: 1, sy: 1, store: Store::Plain { be: false, shift: 0 } })
            .collect(),
        depth,
        ss: Ss::S444,
        word32: false,
    }
}

pub fn rgb_fmt(name: &str, el: El, depth: u32) -> Option<Fmt> {
    use Role::*;
    let o: &[(Role, usize)] = match name {
        "rgb" => &[(R, 0), (G, 1), (B, 2)],
        "bgr" => &[(R, 2), (G, 1), (B, 0)],
        "rgba" => &[(R, 0), (G, 1), (B, 2), (A, 3)],
        "bgra" => &[(R, 2), (G, 1), (B, 0), (A, 3)],
        "argb" => &[(R, 1), (G, 2), (B, 3), (A, 0)],
        "abgr" => &[(R, 3), (G, 2), (B, 1), (A, 0)],
        _ => return None,
    };
    Some(px(el, depth, o))
}

fn word30(kind: &str) -> Option<Fmt> {
    use Role::*;
    let f: [(Role, u32, u32); 4] = match kind {
        "ar30" => [(A, 30, 2), (B, 20, 10), (G, 10, 10), (R, 0, 10)],
        "ab30" => [(A, 30, 2), (R, 20, 10), (G, 10, 10), (B, 0, 10)],
        "ra30" => [(R, 22, 10), (G, 12, 10), (B, 2, 10), (A, 0, 2)],
        "ba30" => [(B, 22, 10), (G, 12, 10), (R, 2, 10), (A, 0, 2)],
        _ => return None,
    };
    Some(Fmt {
        planes: vec![PlaneSpec { el: El::U8, mul: 4, sx: 1, sy: 1, strict: Strict::Free }],
        chans: f
            .iter()
            .map(|&(role, pos, bits)| ChanMap { role, plane: 0, mul: 4, off: 0, sx: 1, sy: 1, store: Store::Field { pos, bits } })
            .collect(),
        depth: 10,
        ss: Ss::S444,
        word32: true,
    })
}

fn planar(el: El, depth: u32, ss: Ss, be: bool, alpha: bool, roles: [Role; 3]) -> Fmt {
    let p = |sx, sy| PlaneSpec { el, mul: 1, sx, sy, strict: Strict::Free };
    let store = Store::Plain { be, shift: 0 };
    let c = |role, plane, sx, sy| ChanMap { role, plane, mul: 1, off: 0, sx, sy, store };
    let mut f = Fmt { planes: vec![p(1, 1)], chans: vec![c(roles[0], 0, 1, 1)], depth, ss, word32: false };
    if ss != Ss::S400 {
        let (x, y) = (ss.x(), ss.y());
        f.planes.push(p(x, y));
        f.planes.push(p(x, y));
        f.chans.push(c(roles[1], 1, x, y));
        f.chans.push(c(roles[2], 2, x, y));
    }
    if alpha {
        f.planes.push(p(1, 1));
        f.chans.push(c(Role::A, f.planes.len() - 1, 1, 1));
    }
    f
}
const YUV: [Role; 3] = [Role::Y, Role::U, Role::V];

fn nv(el: El, depth: u32, ss: Ss, vu: bool, shift: u32) -> Fmt {
    let (x, y) = (ss.x(), ss.y());
    let store = Store::Plain { be: false, shift };
    Fmt {
        planes: vec![
            PlaneSpec { el, mul: 1, sx: 1, sy: 1, strict: Strict::Free },
            PlaneSpec { el, mul: 2, sx: x, sy: y, strict: Strict::Exact },
        ],
        chans: vec![
            ChanMap { role: Role::Y, plane: 0, mul: 1, off: 0, sx: 1, sy: 1, store },
            ChanMap { role: Role::U, plane: 1, mul: 2, off: vu as usize, sx: x, sy: y, store },
            ChanMap { role: Role::V, plane: 1, mul: 2, off: !vu as usize, sx: x, sy: y, store },
        ],
        depth,
        ss,
        word32: false,
    }
}

fn pk422(el: El, depth: u32, name: &str) -> Option<Fmt> {
    let (y, u, v) = match name {
        "yuyv" => (0, 1, 3),
        "yvyu" => (0, 3, 1),
        "uyvy" => (1, 0, 2),
        "vyuy" => (1, 2, 0),
        _ => return None,
    };
    let store = Store::Plain { be: false, shift: 0 };
    Some(Fmt {
        planes: vec![PlaneSpec { el, mul: 4, sx: 2, sy: 1, strict: Strict::Exact }],
        chans: vec![
            ChanMap { role: Role::Y, plane: 0, mul: 2, off: y, sx: 1, sy: 1, store },
            ChanMap { role: Role::U, plane: 0, mul: 4, off: u, sx: 2, sy: 1, store },
            ChanMap { role: Role::V, plane: 0, mul: 4, off: v, sx: 2, sy: 1, store },
        ],
        depth,
        ss: Ss::S422,
        word32: false,
    })
}

fn raw(n: usize, el: El, depth: u32) -> Fmt {
    let o: Vec<(Role, usize)> = (0..n).map(|i| (Role::C(i as u8), i)).collect();
    px(el, depth, &o)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Enc,
    Dec,
    Sharp,
    EncId,
    DecId,
    EncCgco,
    DecCgco,
    RdpEnc,
    RdpDec,
    Shuffle,
    PackWord,
    UnpackWord,
    ToF16,
    FromF16,
    Rotate,
    Mirror,
    Pack422,
    Unpack422,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub id: u32,
    pub name: String,
    pub group: String,
    pub feat: String,
    pub kind: Kind,
    pub src: Fmt,
    pub dst: Fmt,
    pub has_range: bool,
    pub has_matrix: bool,
    pub has_mode: bool,
    pub has_order: bool,
    pub has_premul: bool,
    pub has_gamma: bool,
    /// bit depth is a run-time argument (formats above then carry 16)
    pub has_depth: bool,
    pub usize_dims: bool,
    /// out-image description can be allocated by the library
    pub can_alloc: bool,
}

impl Spec {
    pub fn nin(&self) -> usize {
        self.src.planes.len()
    }
    pub fn nout(&self) -> usize {
        self.dst.planes.len()
    }
    pub fn depth_of(&self, c: &crate::case::Case) -> u32 {
        if self.has_depth {
            c.depth
        } else {
            self.src.depth
        }
    }
    pub fn out_dims(&self, w: usize, h: usize, geo: u32) -> (usize, usize) {
        if self.kind == Kind::Rotate && geo != 1 {
            (h, w)
        } else {
            (w, h)
        }
    }
    pub fn plane(&self, i: usize) -> &PlaneSpec {
        if i < self.nin() {
            &self.src.planes[i]
        } else {
            &self.dst.planes[i - self.nin()]
        }
    }
}

fn digits(s: &str) -> (&str, Option<u32>) {
    let k = s.find(|c: char| c.is_ascii_digit()).unwrap_or(s.len());
    (&s[..k], s[k..].parse().ok())
}
fn ss_of(n: &str) -> Option<Ss> {
    Some(match n {
        "420" | "0" => Ss::S420,
        "422" | "2" => Ss::S422,
        "444" | "4" => Ss::S444,
        "400" => Ss::S400,
        _ => return None,
    })
}

/// Parses one side of "<a>_to_<b>".
fn side(s: &str, el: El, d: u32, msb: bool) -> Option<Fmt> {
    let be = s.contains("_be");
    let alpha = s.contains("alpha");
    let s = s.replace("_be", "").replace("_with_alpha", "").replace("_alpha", "");
    let s = s.as_str();
    if let Some(f) = rgb_fmt(s, el, 8) {
        return Some(f);
    }
    if let Some(f) = word30(s) {
        return Some(f);
    }
    if let Some(b) = s.strip_suffix("_f16") {
        return rgb_fmt(b, El::F16, d);
    }
    if s == "gbr" {
        return Some(planar(el, 8, Ss::S444, false, alpha, [Role::G, Role::B, Role::R]));
    }
    if let Some(n) = s.strip_prefix("sharp_yuv").or(s.strip_prefix("yuv_sharp")) {
        return Some(planar(el, 8, ss_of(n)?, false, false, YUV));
    }
    if let Some(n) = s.strip_prefix("yuv_nv") {
        let (ss, vu) = match n {
            "12" => (Ss::S420, false),
            "21" => (Ss::S420, true),
            "16" => (Ss::S422, false),
            "61" => (Ss::S422, true),
            "24" => (Ss::S444, false),
            "42" => (Ss::S444, true),
            _ => return None,
        };
        return Some(nv(el, 8, ss, vu, 0));
    }
    if let Some(n) = s.strip_prefix("ycgco") {
        return Some(planar(el, 8, ss_of(n)?, false, alpha, YUV));
    }
    if let Some(n) = s.strip_prefix("yuv") {
        return Some(planar(el, 8, ss_of(n)?, false, alpha, YUV));
    }
    if let Some(n) = s.strip_suffix("422") {
        return pk422(el, 8, n);
    }
    if s == "ayuv" || s == "vyua" {
        use Role::*;
        let o: &[(Role, usize)] = if s == "ayuv" { &[(A, 0), (Y, 1), (U, 2), (V, 3)] } else { &[(V, 0), (U, 1), (Y, 2), (A, 3)] };
        return Some(px(el, 8, o));
    }
    // numbered high bit depth formats
    let (base, n) = digits(s);
    let n = n?;
    match base {
        "rgb" | "rgba" => rgb_fmt(base, if n == 8 { El::U8 } else { El::U16 }, n),
        "gb" => Some(planar(el, n, Ss::S444, false, alpha, [Role::G, Role::B, Role::R])),
        "i" | "icgc" => {
            let t = &s[base.len()..];
            Some(planar(el, t[1..].parse().ok()?, ss_of(&t[..1])?, be, alpha, YUV))
        }
        "p" => {
            let t = &s[base.len()..];
            let d: u32 = t[1..].parse().ok()?;
            Some(nv(el, d, ss_of(&t[..1])?, false, if msb { 16 - d } else { 0 }))
        }
        "y" => Some(planar(el, n, Ss::S400, be, alpha, YUV)),
        _ => None,
    }
}

fn set_depth(f: &mut Fmt, d: u32) {
    f.depth = d;
}

fn parse(id: u32, name: &str, group: &str, feat: &str) -> Option<Spec> {
    let el = |pre: char| {
        // element type of the input / output side from the signature
        let _ = pre;
        El::U8
    };
    let _ = el;
    let mut s = Spec {
        id,
        name: name.into(),
        group: group.into(),
        feat: feat.into(),
        kind: Kind::Enc,
        src: raw(1, El::U8, 8),
        dst: raw(1, El::U8, 8),
        has_range: group.contains('R') && !group.ends_with("Rot"),
        has_matrix: group.contains('X'),
        has_mode: group.ends_with("XM"),
        has_order: group.contains('O'),
        has_premul: group.ends_with("XP"),
        has_gamma: group.ends_with("XG"),
        has_depth: false,
        usize_dims: group.contains('Z'),
        can_alloc: group.starts_with("PlM") || group.starts_with("BiM") || group.starts_with("GrM"),
    };
    let e16 = group.contains("u16");
    if let Some(r) = name.strip_prefix("rotate_").or(name.strip_prefix("mirror_")) {
        s.kind = if name.starts_with("rot") { Kind::Rotate } else { Kind::Mirror };
        let (b, n16) = match r.strip_suffix("16") {
            Some(b) => (b, true),
            None => (r, false),
        };
        let n = match b {
            "plane" => 1,
            "cbcr" => 2,
            "rgb" => 3,
            "rgba" => 4,
            _ => return None,
        };
        let e = if n16 { El::U16 } else { El::U8 };
        s.src = raw(n, e, e.size() as u32 * 8);
        s.dst = s.src.clone();
        return Some(s);
    }
    if let Some(r) = name.strip_prefix("convert_") {
        let n = if r.starts_with("plane") {
            1
        } else if r.starts_with("rgba") {
            4
        } else {
            3
        };
        let e = if group.contains("u16") { El::U16 } else { El::U8 };
        s.has_depth = e == El::U16;
        let d = e.size() as u32 * 8;
        if group.starts_with("Sf16") {
            s.kind = Kind::FromF16;
            s.src = raw(n, El::F16, d);
            s.dst = raw(n, e, d);
        } else {
            s.kind = Kind::ToF16;
            s.src = raw(n, e, d);
            s.dst = raw(n, El::F16, d);
        }
        return Some(s);
    }
    if let Some(r) = name.strip_prefix("rdp_") {
        let (a, b) = r.split_once("_to_")?;
        if b == "yuv444" {
            s.kind = Kind::RdpEnc;
            s.src = rgb_fmt(a, El::U8, 8)?;
            s.dst = planar(El::I16, 16, Ss::S444, false, false, YUV);
        } else {
            s.kind = Kind::RdpDec;
            s.src = planar(El::I16, 16, Ss::S444, false, false, YUV);
            s.dst = rgb_fmt(b, El::U8, 8)?;
        }
        return Some(s);
    }
    let (p16, base) = match name.strip_suffix("_p16") {
        Some(b) => (true, b),
        None => (false, name),
    };
    let (a, b) = base.split_once("_to_")?;
    if p16 {
        let d = 16;
        let mut src = side(a, El::U16, d, true)?;
        let mut dst = if b == "rgb" || b == "rgba" { rgb_fmt(b, El::U16, d)? } else { side(b, El::U16, d, true)? };
        set_depth(&mut src, 16);
        set_depth(&mut dst, 16);
        s.has_depth = b.starts_with("rgb");
        s.kind = if b.starts_with("rgb") {
            Kind::Dec
        } else if b.starts_with("yuv4") {
            Kind::Unpack422
        } else {
            Kind::Pack422
        };
        s.src = src;
        s.dst = dst;
        return Some(s);
    }
    let yin = |x: &str| x.starts_with('y') || x.starts_with('i') || x.starts_with('p') || x.starts_with('g') || x.starts_with('u') || x.starts_with('v');
    let sel = if e16 && yin(a) || group.contains("Su16") { El::U16 } else { El::U8 };
    let src = side(a, sel, 8, true)?;
    let del = if group.contains("PlMu16") || group.contains("BiMu16") || group.contains("Du16") { El::U16 } else { El::U8 };
    let mut dst = side(b, del, src.depth, true)?;
    if dst.el() == El::F16 {
        dst.depth = src.depth;
    }
    let cg = a.starts_with("ycgco") || a.starts_with("icgc");
    let id_fmt = |x: &str| x.starts_with("gb");
    let word = |f: &Fmt| f.word32;
    let pk = |x: &str| ["yuyv422", "yvyu422", "uyvy422", "vyuy422"].contains(&x);
    s.kind = if b.contains("sharp") {
        Kind::Sharp
    } else if cg {
        Kind::DecCgco
    } else if b.starts_with("ycgco") {
        Kind::EncCgco
    } else if id_fmt(a) {
        Kind::DecId
    } else if id_fmt(b) {
        Kind::EncId
    } else if pk(b) {
        Kind::Pack422
    } else if pk(a) && b.starts_with("yuv") {
        Kind::Unpack422
    } else if yin(a) || a == "ayuv" {
        Kind::Dec
    } else if word(&src) {
        Kind::UnpackWord
    } else if word(&dst) {
        Kind::PackWord
    } else if yin(b) {
        Kind::Enc
    } else {
        Kind::Shuffle
    };
    s.src = src;
    s.dst = dst;
    Some(s)
}

pub fn load_specs() -> Vec<Spec> {
    include_str!("../../registry.in")
        .lines()
        .map(|l| {
            let t: Vec<&str> = l.split_whitespace().collect();
            let f = if t[3] == "-" { "" } else { t[3] };
            parse(t[0].parse().unwrap(), t[1], t[2], f).unwrap_or_else(|| panic!("cannot describe {}", t[1]))
        })
        .collect()
}
