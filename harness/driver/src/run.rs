//! The property-testing engine: generates cases with proptest, runs them in forked workers (a crash of the code under
//! test is one failing case), shrinks what fails, writes replay files and evidence.
use crate::case::*;
use crate::exec::*;
use crate::ffi::*;
use crate::pool;
use crate::spec::*;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Failure {
    pub class: String,
    /// library build and instruction set it happened with
    pub tier: String,
    pub msg: String,
}
pub fn fail<T>(class: &str, tier: &str, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { class: class.into(), tier: tier.into(), msg: msg.into() })
}

/// What one case contributed.
#[derive(Default)]
pub struct Obs {
    /// calls of the code under test
    pub calls: u64,
    pub nontrivial: bool,
    pub label: Vec<&'static str>,
    /// largest value seen of something the check bounds
    pub stat: BTreeMap<String, f64>,
}
impl Obs {
    pub fn max(&mut self, key: impl Into<String>, v: f64) {
        let e = self.stat.entry(key.into()).or_insert(0.0);
        *e = e.max(v);
    }
}

pub struct Ctx {
    pub ar: Arena,
    pub libs: Vec<Lib>,
    pub tiers: Vec<Tier>,
    pub thorough: bool,
}

/// What a check is quantified over besides the generated case: one function, or a family of related ones.
#[derive(Clone)]
pub struct Unit {
    pub name: String,
    pub specs: Vec<Spec>,
    pub strat: BoxedStrategy<Vec<Case>>,
    pub cases: usize,
}

pub type Body = fn(&Ctx, &Unit, &[Case], &mut Obs) -> Result<(), Failure>;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub units: fn(&Ctx, &[Spec]) -> Vec<Unit>,
    pub body: Body,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Known {
    pub property: String,
    /// "finding" or "fixed"
    pub kind: String,
    #[serde(default)]
    pub key: String,
    #[serde(default)]
    pub units: Vec<String>,
    #[serde(default)]
    pub classes: Vec<String>,
    pub text: String,
    #[serde(default)]
    pub commit: String,
}
fn known_match<'a>(known: &'a [Known], id: &str, unit: &str, f: &Failure) -> Option<&'a Known> {
    known.iter().find(|k| k.kind == "finding" && k.property == id && k.classes.contains(&f.class) && k.units.iter().any(|u| u == unit))
}

#[derive(Serialize, Deserialize, Default)]
struct Chunk {
    cases: u64,
    calls: u64,
    nontrivial: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Vec<Case>>,
    known: BTreeMap<String, u64>,
    stat: BTreeMap<String, f64>,
    failure: Option<(usize, Failure)>,
}

fn hash<T: Hash>(v: T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn tree(seed: u64, id: &str, u: &Unit, i: usize) -> Box<dyn ValueTree<Value = Vec<Case>>> {
    let mut b = [0u8; 32];
    let a = hash((seed, id, &u.name, i as u64));
    let mut r = Rng::new(a, 1);
    for k in b.chunks_mut(8) {
        k.copy_from_slice(&r.next().to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &b));
    u.strat.new_tree(&mut runner).expect("generator failed")
}

fn one(ctx: &Ctx, ck: &Check, u: &Unit, cs: &[Case], obs: &mut Obs) -> Result<(), Failure> {
    (ck.body)(ctx, u, cs, obs)
}

fn chunk(ctx: &Ctx, ck: &Check, u: &Unit, seed: u64, from: usize, to: usize, known: &[Known], slot: &pool::Slot) -> Chunk {
    let mut o = Chunk::default();
    let mut seen = HashSet::new();
    for i in from..to {
        let cs = tree(seed, ck.id, u, i).current();
        slot.note(&i);
        let mut obs = Obs::default();
        let r = one(ctx, ck, u, &cs, &mut obs);
        o.cases += 1;
        o.calls += obs.calls;
        for l in obs.label {
            *o.labels.entry(l.into()).or_default() += 1;
        }
        for (k, v) in obs.stat {
            let e = o.stat.entry(k).or_insert(0.0);
            *e = e.max(v);
        }
        if obs.nontrivial {
            let h = hash(serde_json::to_string(&cs).unwrap());
            if seen.insert(h) {
                o.nontrivial.push(h);
                if o.samples.is_empty() {
                    o.samples.push(cs.clone());
                }
            }
        }
        if let Err(f) = r {
            match known_match(known, ck.id, &u.name, &f) {
                Some(k) => *o.known.entry(k.key.clone()).or_default() += 1,
                None => {
                    o.failure = Some((i, f));
                    break;
                }
            }
        }
    }
    o
}

fn sig_failure(sig: i32) -> Failure {
    Failure { class: "crash".into(), tier: String::new(), msg: format!("the process was killed by signal {sig}") }
}

/// Outcome of one case in a process of its own.
fn probe(ctx: &Ctx, ck: &Check, u: &Unit, cs: &[Case]) -> Option<Failure> {
    match pool::isolated(60, |_| one(ctx, ck, u, cs, &mut Obs::default()).err()) {
        pool::End::Done(r) => r,
        pool::End::Crash(s, _) => Some(sig_failure(s)),
        pool::End::Broken(m) => {
            eprintln!("warning: {m}");
            None
        }
    }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub unit: String,
    pub failure: Failure,
    pub cases: Vec<Case>,
    pub original: Vec<Case>,
}

fn shrink(ctx: &Ctx, ck: &Check, u: &Unit, seed: u64, i: usize, f: &Failure) -> (Vec<Case>, Failure, bool) {
    let mut t = tree(seed, ck.id, u, i);
    let original = t.current();
    let mut best = (original.clone(), f.clone());
    match probe(ctx, ck, u, &original) {
        Some(g) if g.class == f.class => best.1 = g,
        // depends on what the worker ran before: keep the case as it is
        _ => return (original, f.clone(), false),
    }
    let mut n = 0;
    if t.simplify() {
        loop {
            n += 1;
            if n > 400 {
                break;
            }
            let cur = t.current();
            match probe(ctx, ck, u, &cur) {
                Some(g) if g.class == f.class => {
                    best = (cur, g);
                    if !t.simplify() {
                        break;
                    }
                }
                _ => {
                    if !t.complicate() {
                        break;
                    }
                }
            }
        }
    }
    (best.0, best.1, true)
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub jobs: usize,
    pub only: String,
}

pub fn run_check(ctx: &Ctx, ck: &Check, specs: &[Spec], o: &Opts, known: &[Known]) -> i32 {
    let t0 = std::time::Instant::now();
    let units: Vec<Unit> = (ck.units)(ctx, specs).into_iter().filter(|u| u.name.contains(&o.only)).collect();
    assert!(!units.is_empty(), "no units");
    // tasks: (unit, from, to)
    let mut tasks = vec![];
    let mut total = 0;
    for (k, u) in units.iter().enumerate() {
        let n = ((u.cases as f64 * o.scale).ceil() as usize).max(1);
        total += n;
        let per = n.div_ceil(n.div_ceil(400));
        let mut a = 0;
        while a < n {
            tasks.push((k, a, (a + per).min(n)));
            a += per;
        }
    }
    let limit = if o.thorough { 3000 } else { 600 };
    let mut agg = Chunk::default();
    let mut nontrivial: HashSet<(usize, u64)> = HashSet::new();
    let mut samples: Vec<(String, Vec<Case>)> = vec![];
    let mut fails: BTreeMap<usize, (usize, Failure)> = BTreeMap::new();
    let mut broken = vec![];
    let mut unit_cases = vec![0u64; units.len()];
    while !tasks.is_empty() {
        let res = pool::map(tasks.len(), o.jobs, limit, |i, slot| {
            let (k, a, b) = tasks[i];
            chunk(ctx, ck, &units[k], o.seed, a, b, known, slot)
        });
        let mut again = vec![];
        for (t, r) in tasks.iter().zip(res) {
            let (k, a, b) = *t;
            match r {
                pool::End::Done(c) => {
                    agg.cases += c.cases;
                    agg.calls += c.calls;
                    unit_cases[k] += c.cases;
                    for h in c.nontrivial {
                        nontrivial.insert((k, h));
                    }
                    for (l, n) in c.labels {
                        *agg.labels.entry(l).or_default() += n;
                    }
                    for (l, n) in c.known {
                        *agg.known.entry(l).or_default() += n;
                    }
                    for (k, v) in c.stat {
                        let e = agg.stat.entry(k).or_insert(0.0);
                        *e = e.max(v);
                    }
                    if samples.len() < 400 {
                        samples.extend(c.samples.into_iter().map(|s| (units[k].name.clone(), s)));
                    }
                    if let Some(f) = c.failure {
                        if fails.get(&k).map(|g| f.0 < g.0).unwrap_or(true) {
                            fails.insert(k, f);
                        }
                    }
                }
                pool::End::Crash(sig, note) => {
                    let i = note.and_then(|v| v.as_u64()).unwrap_or(a as u64) as usize;
                    let f = sig_failure(sig);
                    match known_match(known, ck.id, &units[k].name, &f) {
                        Some(kn) => {
                            *agg.known.entry(kn.key.clone()).or_default() += 1;
                            if a < i {
                                again.push((k, a, i));
                            }
                            if i + 1 < b {
                                again.push((k, i + 1, b));
                            }
                        }
                        None => {
                            if fails.get(&k).map(|g| i < g.0).unwrap_or(true) {
                                fails.insert(k, (i, f));
                            }
                        }
                    }
                }
                pool::End::Broken(m) => broken.push(format!("{}: {m}", units[k].name)),
            }
        }
        tasks = again;
    }
    for (key, n) in &agg.known {
        let k = known.iter().find(|k| &k.key == key).unwrap();
        println!("KNOWN-FINDING: property={} {} ({n} cases this run)", ck.id, k.text);
    }
    // findings are listed on every run, whether or not this run's cases met them
    for k in known.iter().filter(|k| k.kind == "finding" && k.property == ck.id && !agg.known.contains_key(&k.key)) {
        println!("KNOWN-FINDING: property={} {} (0 cases this run)", ck.id, k.text);
    }
    if std::env::var("STATS").is_ok() {
        for (k, v) in &agg.stat {
            println!("STAT {v:9.3} {k}");
        }
    }
    let mut shown = 0;
    for (k, (i, f)) in &fails {
        let u = &units[*k];
        if shown >= 4 {
            println!("also failing: {} case {i} {} {} {}", u.name, f.class, f.tier, f.msg);
            continue;
        }
        shown += 1;
        let (cs, g, isolated) = shrink(ctx, ck, u, o.seed, *i, f);
        let dir = format!("replays/{}", ck.id);
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{dir}/{:016x}.json", hash((&u.name, serde_json::to_string(&cs).unwrap())));
        let original = tree(o.seed, ck.id, u, *i).current();
        let rp = Replay { property: ck.id.into(), unit: u.name.clone(), failure: g.clone(), cases: cs, original };
        std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
        println!("{}: {} {}: {}{}", u.name, g.class, g.tier, g.msg, if isolated { "" } else { " (not reproduced on its own)" });
        println!("VIOLATION property={} replay={}", ck.id, path);
    }
    for b in &broken {
        eprintln!("error: {b}");
    }
    // evidence
    let step = (samples.len() / 5).max(1);
    let pick: Vec<serde_json::Value> = samples
        .iter()
        .step_by(step)
        .take(6)
        .map(|(u, cs)| serde_json::json!({ "unit": u, "cases": cs.iter().take(4).collect::<Vec<_>>(), "pattern": cs.first().map(|c| PAT_NAMES[c.pat as usize]) }))
        .collect();
    let tiers: Vec<&str> = ctx.tiers.iter().map(|t| t.name.as_str()).collect();
    let ev = serde_json::json!({
        "property": ck.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.cases,
            "distinct_nontrivial": nontrivial.len(),
            "rule": ck.rule,
            "samples": pick,
            "calls_of_the_code_under_test": agg.calls,
            "units": units.len(),
            "fewest_cases_of_a_unit": unit_cases.iter().min(),
            "labels": agg.labels,
            "instruction_sets": tiers,
            "planned_cases": total,
            "known_finding_cases": agg.known,
            "largest_seen": agg.stat,
        },
        "wall_s": (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": fails.len(),
    });
    std::fs::create_dir_all("evidence").unwrap();
    std::fs::write(format!("evidence/{}.json", ck.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} calls, {} distinct non-trivial, {} units, {} failing, {:.1} s",
        ck.id,
        agg.cases,
        agg.calls,
        nontrivial.len(),
        units.len(),
        fails.len(),
        t0.elapsed().as_secs_f64()
    );
    if !fails.is_empty() {
        1
    } else if !broken.is_empty() {
        3
    } else {
        0
    }
}

pub fn replay(ctx: &Ctx, ck: &Check, specs: &[Spec], r: &Replay) -> i32 {
    let units = (ck.units)(ctx, specs);
    let u = units.iter().find(|u| u.name == r.unit).expect("unit of the replay file");
    match probe(ctx, ck, u, &r.cases) {
        Some(f) => {
            println!("{}: {} {}: {}", u.name, f.class, f.tier, f.msg);
            println!("VIOLATION property={} replay=-", ck.id);
            1
        }
        None => {
            println!("{}: the property holds on this case", u.name);
            0
        }
    }
}
