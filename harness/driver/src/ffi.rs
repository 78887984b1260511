//! Loads the shared libraries built from /repo and drives their run-time CPU detection.
use std::ffi::CString;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Plane {
    pub ptr: *mut u8,
    pub len: u64,
    pub stride: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Desc {
    pub fn_id: u32,
    pub range: u32,
    pub matrix: u32,
    pub mode: u32,
    pub order: u32,
    pub flag: u32,
    pub depth: u32,
    pub gamma: u32,
    pub geo: u32,
    pub alloc: u32,
    pub ss: u32,
    pub kr: f32,
    pub kb: f32,
    pub pad: u32,
    pub w: u64,
    pub h: u64,
    pub planes: [Plane; 8],
}

const PROBES: [&str; 7] = ["avx2", "avx512bw", "avx512vbmi", "avx512vnni", "avxvnni", "f16c", "sse4.1"];

pub struct Lib {
    pub name: String,
    call: extern "C" fn(*mut Desc) -> i32,
    image: extern "C" fn(*mut Desc) -> i32,
    msg: extern "C" fn() -> *const u8,
    probe: extern "C" fn(u32) -> i32,
    cache: *mut u64,
    full: [u64; 3],
    bit: [Option<(usize, u64)>; 7],
}

/// Address of a symbol that is not exported: read the library's own symbol table.
fn find_symbol(path: &str, needle: &str) -> Option<u64> {
    let b = std::fs::read(path).ok()?;
    let u16_ = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize;
    let u32_ = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
    let u64_ = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize;
    let (shoff, shent, shnum) = (u64_(0x28), u16_(0x3a), u16_(0x3c));
    let mut found = None;
    for i in 0..shnum {
        let s = shoff + i * shent;
        if u32_(s + 4) == 2 {
            let (off, size, link) = (u64_(s + 0x18), u64_(s + 0x20), u32_(s + 0x28));
            let stroff = u64_(shoff + link * shent + 0x18);
            for k in 0..size / 24 {
                let e = off + 24 * k;
                let nm = stroff + u32_(e);
                let end = b[nm..].iter().position(|&c| c == 0).unwrap();
                let name = std::str::from_utf8(&b[nm..nm + end]).unwrap_or("");
                // legacy and v0 mangling of the same static
                let legacy = name.starts_with("_ZN") && name.len() <= needle.len() + 24;
                let v0 = name.starts_with("_R") && name.ends_with(needle);
                if name.contains(needle) && (legacy || v0) {
                    if found.is_some() {
                        return None;
                    }
                    found = Some(u64_(e + 8) as u64);
                }
            }
        }
    }
    found
}

impl Lib {
    pub fn open(name: &str, path: &str) -> Lib {
        unsafe {
            let p = CString::new(path).unwrap();
            let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                panic!("dlopen {path}: {:?}", std::ffi::CStr::from_ptr(libc::dlerror()));
            }
            let sym = |n: &str| {
                let s = CString::new(n).unwrap();
                let a = libc::dlsym(h, s.as_ptr());
                assert!(!a.is_null(), "{n}");
                a
            };
            let init: extern "C" fn() = std::mem::transmute(sym("yuvshim_init"));
            let a_init = init as usize;
            let mut info: libc::Dl_info = std::mem::zeroed();
            libc::dladdr(a_init as *const _, &mut info);
            let base = info.dli_fbase as u64;
            init();
            let off = find_symbol(path, "10std_detect6detect5cache5CACHE").expect("std_detect cache not found");
            let probe: extern "C" fn(u32) -> i32 = std::mem::transmute(sym("yuvshim_probe"));
            let cache = (base + off) as *mut u64;
            probe(0); // fills the cache
            let full = [*cache, *cache.add(1), *cache.add(2)];
            assert!(full.iter().all(|&v| v >> 63 == 1), "unexpected std_detect cache {full:x?}");
            let mut bit = [None; 7];
            for (i, b) in bit.iter_mut().enumerate() {
                let was = probe(i as u32);
                for w in 0..3 {
                    for k in 0..63 {
                        let m = 1u64 << k;
                        let old = *cache.add(w);
                        *cache.add(w) = old ^ m;
                        if probe(i as u32) != was {
                            assert!(b.is_none());
                            *b = Some((w, m));
                        }
                        *cache.add(w) = old;
                    }
                }
                assert!(b.is_some(), "cannot steer {}", PROBES[i]);
            }
            Lib {
                name: name.into(),
                call: std::mem::transmute(sym("yuvshim_call")),
                image: std::mem::transmute(sym("yuvshim_image")),
                msg: std::mem::transmute(sym("yuvshim_msg")),
                probe,
                cache,
                full,
                bit,
            }
        }
    }
    /// Hides CPU features from this library (it can only ever remove features this CPU has).
    pub fn hide(&self, names: &[&str]) {
        unsafe {
            let mut v = self.full;
            for n in names {
                let i = PROBES.iter().position(|p| p == n).unwrap();
                let (w, m) = self.bit[i].unwrap();
                v[w] &= !m;
            }
            for (w, x) in v.iter().enumerate() {
                std::ptr::write_volatile(self.cache.add(w), *x);
            }
        }
    }
    pub fn has(&self, n: &str) -> bool {
        (self.probe)(PROBES.iter().position(|p| *p == n).unwrap() as u32) == 1
    }
    pub fn call(&self, d: &mut Desc) -> i32 {
        (self.call)(d)
    }
    pub fn image(&self, d: &mut Desc) -> i32 {
        (self.image)(d)
    }
    pub fn message(&self) -> String {
        unsafe { std::ffi::CStr::from_ptr((self.msg)() as *const _).to_string_lossy().into_owned() }
    }
}

#[derive(Clone)]
pub struct Tier {
    pub lib: usize,
    pub name: String,
    pub hide: Vec<&'static str>,
}

/// The ladder of instruction sets one library build can be asked to use. Rungs this CPU cannot tell apart are dropped.
pub fn ladder(libs: &[Lib], lib: usize) -> Vec<Tier> {
    let l = &libs[lib];
    let rungs: [(&str, Vec<&'static str>); 6] = [
        ("scalar", vec!["avx2", "avx512bw", "avx512vbmi", "avx512vnni", "avxvnni", "f16c", "sse4.1"]),
        ("sse4.1", vec!["avx2", "avx512bw", "avx512vbmi", "avx512vnni", "avxvnni", "f16c"]),
        ("avx2", vec!["avx512bw", "avx512vbmi", "avx512vnni", "avxvnni"]),
        ("avx2+avxvnni", vec!["avx512bw", "avx512vbmi", "avx512vnni"]),
        ("avx512bw", vec!["avx512vbmi", "avx512vnni", "avxvnni"]),
        ("all", vec![]),
    ];
    let mut seen: Vec<Vec<bool>> = vec![];
    let mut out = vec![];
    for (n, hide) in rungs {
        l.hide(&hide);
        let sig: Vec<bool> = PROBES.iter().map(|p| l.has(p)).collect();
        if !seen.contains(&sig) {
            seen.push(sig);
            out.push(Tier { lib, name: format!("{}:{}", l.name, n), hide });
        }
    }
    l.hide(&[]);
    out
}
