mod case;
mod checks;
mod containers;
mod exact;
mod exec;
mod ffi;
mod gen;
mod oracle;
mod pool;
mod relate;
mod run;
mod sharp;
mod spec;
mod tol;
use case::*;
use exec::*;
use ffi::*;
use spec::*;
use std::collections::BTreeMap;

fn rand_case(s: &Spec, r: &mut Rng) -> Case {
    let mut c = Case { fn_id: s.id, name: s.name.clone(), ..Default::default() };
    c.w = match r.below(10) {
        0..=2 => 1 + r.below(12),
        3..=6 => 1 + r.below(150),
        7 => [16, 32, 64, 128][r.below(4) as usize] + r.below(5) - 2,
        _ => 1 + r.below(400),
    } as usize;
    c.h = 1 + r.below(6) as usize;
    c.range = r.below(2) as u32;
    c.matrix = r.below(7) as u32;
    c.kr = 150 + r.below(200) as u32;
    c.kb = 50 + r.below(150) as u32;
    c.mode = r.below(3) as u32;
    c.order = r.below(2) as u32;
    c.flag = r.below(2) as u32;
    c.depth = [10, 12, 14, 16][r.below(4) as usize];
    c.gamma = r.below(4) as u32;
    c.geo = r.below(3) as u32;
    c.pat = r.below(NPAT as u64) as u8;
    c.seed = r.next();
    c
}

type Dev = BTreeMap<String, (f64, f64, String, u64)>;
fn measure1(ar: &Arena, libs: &[Lib], tiers: &[Tier], s: &Spec, n: usize, slot: &pool::Slot) -> (Dev, BTreeMap<String, u64>) {
    let mut dev: Dev = BTreeMap::new();
    let mut bad: BTreeMap<String, u64> = BTreeMap::new();
    let pads = std::env::var("PADS").is_ok();
    let mut r = Rng::new(12345, s.id as u64);
    for _ in 0..n {
        let mut c = rand_case(s, &mut r);
        if pads {
            for i in 0..NP {
                c.pad[i] = [0, r.below(8) as usize, r.below(80) as usize][r.below(3) as usize];
                c.place[i] = r.below(5) as u8;
            }
        }
        if let Ok(t) = std::env::var("TAIL") { c.tail = [t.parse().unwrap(); NP]; }
        let inp = make_inputs(s, &c);
        let mut id = oracle::ideal(s, &c, &inp.abs); id.extend(exact::exact(s, &c, &inp.abs));
        for t in tiers {
            slot.note(&(&t.name, &c));
            let o = run(ar, libs, t, s, &c, &inp, FILL_SALT);
            if o.ret == 3 {
                continue;
            }
            if o.ret != 0 {
                *bad.entry(format!("{} {} ret {} {}", s.name, t.name, o.ret, o.msg.replace('\n', " "))).or_default() += 1;
                continue;
            }
            if let Some(d) = o.damage.clone().or(padding_damage(s, &c, &o, FILL_SALT)) {
                *bad.entry(format!("{} {} {}", s.name, t.name, d.chars().take(if std::env::var("FULL").is_ok() { 150 } else { 16 }).collect::<String>())).or_default() += 1;
            }
            let mut lows = 0;
            let got = read_out(s, &c, &o, &mut lows);
            if lows > 0 {
                *bad.entry(format!("{} {} low bits", s.name, t.name)).or_default() += 1;
            }
            for i in &id {
                let g = got.get(i.role);
                let key = format!(
                    "{:?} {} {:?} m{} r{} x{} {}",
                    s.kind,
                    if std::env::var("BYNAME").is_ok() { s.name.clone() } else { format!("{}{}->{}{}{}", if s.src.has(Role::A) && s.kind == Kind::Dec {"A"} else {""}, s.src.depth, s.dst.depth, if s.dst.el() == El::F16 { "f16" } else { "" }, if s.has_premul && c.flag != 0 {"P"} else {""}) },
                    i.role,
                    if s.has_mode { c.mode as i32 } else { -1 },
                    c.range,
                    if std::env::var("BYMAT").is_ok() { c.matrix } else { 9 },
                    t.name
                );
                let e = dev.entry(key).or_insert((0.0, 0.0, String::new(), 0));
                for k in 0..i.v.len() {
                    let x = i.dev(k, oracle::code_value(s, &c, g.data[k]));
                    let x = if x.is_finite() { x } else { 1e9 };
                    e.3 += 1;
                    if x < e.0 || x > e.1 {
                        e.0 = e.0.min(x);
                        e.1 = e.1.max(x);
                        e.2 = format!("{} w{} h{} geo {} at {},{} pat {} got {} ideal {:.3} mat {}", s.name, c.w, c.h, c.geo, k % i.w, k / i.w, c.pat, g.data[k], i.v[k], c.matrix);
                    }
                }
            }
        }
    }
    (dev, bad)
}

fn measure(libs: &[Lib], filter: &str, n: usize) {
    let specs: Vec<Spec> = load_specs().into_iter().filter(|s| filter.is_empty() || format!("{:?} {}", s.kind, s.name).contains(filter)).collect();
    let ar = Arena::new();
    let tiers: Vec<Tier> = (0..libs.len()).flat_map(|i| ladder(libs, i)).collect();
    let mut dev: Dev = BTreeMap::new();
    let mut bad: BTreeMap<String, u64> = BTreeMap::new();
    let res = pool::map(specs.len(), 8, 600, |i, slot| measure1(&ar, libs, &tiers, &specs[i], n, slot));
    for (s, r) in specs.iter().zip(res) {
        match r {
            pool::End::Done((d, b)) => {
                for (k, v) in d {
                    let e = dev.entry(k).or_insert((0.0, 0.0, String::new(), 0));
                    if v.0 < e.0 || v.1 > e.1 {
                        e.2 = v.2;
                    }
                    e.0 = e.0.min(v.0);
                    e.1 = e.1.max(v.1);
                    e.3 += v.3;
                }
                for (k, v) in b {
                    *bad.entry(k).or_default() += v;
                }
            }
            pool::End::Crash(sig, note) => {
                let n = note.unwrap();
                let c: Case = serde_json::from_value(n[1].clone()).unwrap();
                println!("CRASH {} {} sig {sig} w{} h{} pads {:?} tail {:?} place {:?} geo {} pat {}", s.name, n[0], c.w, c.h, c.pad, c.tail, c.place, c.geo, c.pat);
            }
            pool::End::Broken(m) => println!("BROKEN {} {m}", s.name),
        }
    }
    let thr: f64 = std::env::var("THR").ok().and_then(|v| v.parse().ok()).unwrap_or(0.0);
    let mut g: BTreeMap<String, Vec<(String, f64, f64, String)>> = BTreeMap::new();
    for (k, v) in &dev {
        let (a, t) = k.rsplit_once(" x:").unwrap();
        g.entry(a.into()).or_default().push((t.into(), v.0, v.1, v.2.clone()));
    }
    for (k, v) in &g {
        let w = v.iter().max_by(|a, b| a.2.max(-a.1).total_cmp(&b.2.max(-b.1))).unwrap();
        if w.2.max(-w.1) < thr {
            continue;
        }
        let t: Vec<String> = v.iter().map(|x| format!("{}[{:.2},{:.2}]", x.0.replace("avx2+avxvnni", "vnni2").replace("avx512bw", "512"), x.1, x.2)).collect();
        println!("{k:44} {} | {}", t.join(" "), w.3);
    }
    for (k, v) in &bad {
        println!("BAD {k} x{v}");
    }
}

/// Largest disagreement between builds and instruction sets.
fn spread(libs: &[Lib], filter: &str, n: usize) {
    let specs: Vec<Spec> = load_specs().into_iter().filter(|s| filter.is_empty() || format!("{:?} {}", s.kind, s.name).contains(filter)).collect();
    let ar = Arena::new();
    let tiers: Vec<Tier> = (0..libs.len()).flat_map(|i| ladder(libs, i)).collect();
    type M = BTreeMap<String, (f64, String)>;
    let res = pool::map(specs.len(), 8, 600, |i, _| {
        let s = &specs[i];
        let mut m: M = BTreeMap::new();
        let mut r = Rng::new(4242, s.id as u64);
        for _ in 0..n {
            let c = rand_case(s, &mut r);
            let inp = make_inputs(s, &c);
            let id = oracle::ideal(s, &c, &inp.abs);
            let mut outs: Vec<(&Tier, Abs)> = vec![];
            for t in &tiers {
                let o = run(&ar, libs, t, s, &c, &inp, FILL_SALT);
                if o.ret == 0 {
                    outs.push((t, read_out(s, &c, &o, &mut 0)));
                }
            }
            let by = if std::env::var("BYNAME").is_ok() { s.name.clone() } else { String::new() };
            for a in 0..outs.len() {
                for b in 0..a {
                    let (ta, tb) = (&outs[a].0.name, &outs[b].0.name);
                    let (la, ra) = ta.split_once(':').unwrap();
                    let (lb, rb) = tb.split_once(':').unwrap();
                    for (x, y) in outs[a].1.ch.iter().zip(outs[b].1.ch.iter()) {
                        let mut w = 0f64;
                        let gap = id.iter().find(|i| i.role == x.role).and_then(|i| i.alt.as_ref().map(|v| (v, &i.v)));
                        for k in 0..x.data.len() {
                            if gap.map(|(a, b)| a[k] != b[k]).unwrap_or(false) {
                                continue;
                            }
                            let d = (oracle::code_value(s, &c, x.data[k]) - oracle::code_value(s, &c, y.data[k])).abs();
                            if d > w {
                                w = d;
                            }
                        }
                        let key = format!(
                            "{:?} {}->{}{} {by} {:?} m{} {}",
                            s.kind,
                            s.depth_of(&c),
                            s.dst.depth,
                            if s.dst.el() == El::F16 { "f16" } else { "" },
                            x.role,
                            if s.has_mode { c.mode as i32 } else { -1 },
                            if la == lb { format!("{rb}/{ra}") } else if ra == rb { format!("{lb}/{la} at {ra}") } else { continue }
                        );
                        let e = m.entry(key).or_insert((0.0, String::new()));
                        if w > e.0 {
                            *e = (w, format!("{} w{} h{} pat {} r{} mat {}", s.name, c.w, c.h, c.pat, c.range, c.matrix));
                        }
                    }
                }
            }
        }
        m
    });
    let mut all: M = BTreeMap::new();
    for r in res {
        if let pool::End::Done(m) = r {
            for (k, v) in m {
                let e = all.entry(k).or_insert((0.0, String::new()));
                if v.0 > e.0 {
                    *e = v;
                }
            }
        }
    }
    for (k, v) in &all {
        println!("{:8.3} {k} | {}", v.0, v.1);
    }
}

fn open_libs(l: &str) -> Vec<Lib> {
    l.split(',')
        .map(|p| {
            let (n, p) = p.split_once('=').unwrap();
            Lib::open(n, p)
        })
        .collect()
}

/// The property that is checked, or that a replay file belongs to.
fn check_id(a: &[String]) -> String {
    if a[2] == "replay" {
        let r: run::Replay = serde_json::from_slice(&std::fs::read(&a[3]).unwrap()).unwrap();
        return r.property;
    }
    a[3].clone()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let libs = open_libs(&a[1]);
    match a[2].as_str() {
        "measure" => measure(&libs, a.get(3).map(|s| s.as_str()).unwrap_or(""), a.get(4).map(|s| s.parse().unwrap()).unwrap_or(20)),
        "spread" => spread(&libs, a.get(3).map(|s| s.as_str()).unwrap_or(""), a.get(4).map(|s| s.parse().unwrap()).unwrap_or(20)),
        "check" | "replay" => {
            let env = |k: &str, d: &str| std::env::var(k).unwrap_or(d.into());
            let mut tiers: Vec<Tier> = (0..libs.len()).flat_map(|i| ladder(&libs, i)).collect();
            if check_id(&a) != "C10" {
                // other builds than the first: their best rung is enough, C10 compares them in full
                let best = |i: usize| tiers.iter().rposition(|t| t.lib == i).unwrap();
                let mut v: Vec<Tier> = (1..libs.len()).map(|i| tiers[best(i)].clone()).collect();
                v.extend(tiers.iter().filter(|t| t.lib == 0).cloned());
                tiers = v;
            }
            let thorough = env("VERIF_TIER", "quick") == "thorough";
            let ctx = run::Ctx { ar: Arena::new(), libs, tiers, thorough };
            let specs = load_specs();
            let known: Vec<run::Known> = match std::fs::read("KNOWN_FINDINGS.json") {
                Ok(b) => serde_json::from_slice(&b).expect("KNOWN_FINDINGS.json"),
                Err(_) => vec![],
            };
            if a[2] == "replay" {
                let r: run::Replay = serde_json::from_slice(&std::fs::read(&a[3]).unwrap()).unwrap();
                let ck = checks::all().into_iter().find(|c| c.id == r.property).expect("property");
                std::process::exit(run::replay(&ctx, &ck, &specs, &r));
            }
            let ck = checks::all().into_iter().find(|c| c.id == a[3]).expect("no such check");
            let o = run::Opts {
                seed: env("VERIF_SEED", "1").parse().unwrap(),
                thorough,
                scale: env("SCALE", if thorough { "25" } else { "1" }).parse().unwrap(),
                jobs: env("JOBS", "8").parse().unwrap(),
                only: env("ONLY", ""),
            };
            std::process::exit(run::run_check(&ctx, &ck, &specs, &o, &known));
        }
        _ => panic!("measure | check | replay"),
    }
}
