//! Drives the streams of a property: deterministic generation from the seed,
//! eight workers, shrinking, evidence, replay files.
use crate::case::*;
use crate::model::Res;
use crate::rng::{hash, mix};
use serde_json::{json, Map as JMap, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Stream {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub gen: fn(&Env, u64) -> Case,
    pub check: fn(&Env, &Case, &mut Labels) -> Out,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub streams: Vec<Stream>,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Stats {
    pub cases: usize,
    pub nontrivial: usize,
    pub skipped: BTreeMap<String, usize>,
    pub labels: BTreeMap<String, usize>,
}

pub struct Found {
    pub stream: usize,
    pub index: usize,
    pub message: String,
    pub case: Case,
}

pub const WORKERS: usize = 8;

/// What each worker (and, last, the main thread) is trying since when: a case that
/// does not come back is a result as well.
#[derive(Clone)]
pub enum Trying {
    Index(usize, usize),
    This(String, Case, String),
}
pub static WATCH: Mutex<[Option<(Instant, Trying)>; WORKERS + 1]> = Mutex::new([const { None }; WORKERS + 1]);
pub const PATIENCE_S: u64 = 150;

fn trying(w: usize, t: Option<Trying>) {
    WATCH.lock().unwrap()[w] = t.map(|t| (Instant::now(), t));
}

pub fn overdue() -> Option<Trying> {
    let w = WATCH.lock().unwrap();
    w.iter().flatten().find(|(t, _)| t.elapsed().as_secs() > PATIENCE_S).map(|(_, t)| t.clone())
}

/// One check on the main thread, under the watchdog.
pub fn watched_check(st: &Stream, env: &Env, c: &Case, reported: Option<(&Case, &str)>) -> Out {
    let (rc, rm) = reported.unwrap_or((c, "does not come back"));
    trying(WORKERS, Some(Trying::This(st.name.into(), rc.clone(), rm.into())));
    let r = run_check(st, env, c, &mut vec![]);
    trying(WORKERS, None);
    r
}

pub fn case_seed(seed: u64, prop: &str, stream: &str, i: usize) -> u64 {
    mix(mix(seed ^ hash(prop)) ^ hash(stream).wrapping_add(mix(i as u64)))
}

/// Streams that enumerate use the index itself.
pub fn make(p: &Prop, env: &Env, seed: u64, s: usize, i: usize) -> Case {
    let st = &p.streams[s];
    let x = if st.name.starts_with("exhaustive") { i as u64 } else { case_seed(seed, p.id, st.name, i) };
    (st.gen)(env, x)
}

pub fn run_check(st: &Stream, env: &Env, c: &Case, l: &mut Labels) -> Out {
    (st.check)(env, c, l)
}

pub struct Report {
    pub stats: Vec<Stats>,
    pub distinct: usize,
    pub samples: Vec<Value>,
    pub found: Option<Found>,
    pub broken: Option<String>,
}

pub fn drive(p: &Prop, env: &Env, seed: u64, thorough: bool, scale: f64) -> Report {
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<BTreeMap<(usize, usize), Value>> = Mutex::new(BTreeMap::new());
    let mut stats = vec![];
    let mut found: Option<Found> = None;
    let broken: Mutex<Option<String>> = Mutex::new(None);
    for (si, st) in p.streams.iter().enumerate() {
        let n = if thorough { st.thorough } else { st.quick };
        let n = if st.name.starts_with("exhaustive") { n } else { ((n as f64) * scale).ceil() as usize };
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let all: Mutex<Stats> = Mutex::new(Stats::default());
        let hits: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for w in 0..WORKERS {
                let (next, stop, all, hits) = (&next, &stop, &all, &hits);
                let (distinct, samples, broken) = (&distinct, &samples, &broken);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = std::fs::File::create(env.scratch.join(format!("slot{}", w))).ok();
                        let mut local = Stats::default();
                        let mut seen: Vec<u64> = vec![];
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if let Some(f) = &slot {
                                // what is being tried, in case the process dies
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(si as u64).to_le_bytes());
                                b[8..].copy_from_slice(&(i as u64 + 1).to_le_bytes());
                                let _ = f.write_at(&b, 0);
                            }
                            trying(w, Some(Trying::Index(si, i)));
                            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                let c = make(p, env, seed, si, i);
                                let mut l = vec![];
                                let out = run_check(st, env, &c, &mut l);
                                (c, l, out)
                            }));
                            let (c, l, out) = match res {
                                Ok(x) => x,
                                Err(_) => {
                                    *broken.lock().unwrap() = Some(format!("harness panic in {} case {}", st.name, i));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            };
                            local.cases += 1;
                            for k in l {
                                *local.labels.entry(k.into()).or_default() += 1;
                            }
                            match out {
                                Ok(nt) => {
                                    if nt {
                                        local.nontrivial += 1;
                                        seen.push(hash(&c.to_json().to_string()));
                                        if i < 40 {
                                            let mut s = samples.lock().unwrap();
                                            if s.iter().filter(|((a, _), _)| *a == si).count() < 2 {
                                                s.insert((si, i), json!({"stream": st.name, "case": c.to_json()}));
                                            }
                                        }
                                    }
                                }
                                Err(Stop::Skip(why)) => *local.skipped.entry(why.into()).or_default() += 1,
                                Err(Stop::Fail(m)) => {
                                    hits.lock().unwrap().push((i, m));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        trying(w, None);
                        distinct.lock().unwrap().extend(seen);
                        let mut a = all.lock().unwrap();
                        a.cases += local.cases;
                        a.nontrivial += local.nontrivial;
                        for (k, v) in local.skipped {
                            *a.skipped.entry(k).or_default() += v;
                        }
                        for (k, v) in local.labels {
                            *a.labels.entry(k).or_default() += v;
                        }
                    })
                    .unwrap();
            }
        });
        stats.push(all.into_inner().unwrap());
        if broken.lock().unwrap().is_some() {
            break;
        }
        let mut h = hits.into_inner().unwrap();
        h.sort();
        if let Some((i, m)) = h.into_iter().next() {
            found = Some(Found { stream: si, index: i, message: m, case: make(p, env, seed, si, i) });
            break;
        }
    }
    Report {
        stats,
        distinct: distinct.into_inner().unwrap().len(),
        samples: samples.into_inner().unwrap().into_values().collect(),
        found,
        broken: broken.into_inner().unwrap(),
    }
}

// ---------------------------------------------------------------- shrinking

/// All values one reduction step away.
pub fn smaller(v: &Value, depth: usize) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Object(m) => {
            for k in m.keys() {
                let mut x = m.clone();
                x.remove(k);
                out.push(Value::Object(x));
            }
            // hoist a sub-value of the same kind
            for x in m.values() {
                if x.is_object() {
                    out.push(x.clone());
                }
                if let Value::Object(y) = x {
                    out.extend(y.values().filter(|z| z.is_object()).cloned());
                }
                if let Value::Array(y) = x {
                    out.extend(y.iter().filter(|z| z.is_object()).cloned());
                }
            }
            if depth > 0 {
                for t in [json!({}), json!({"type": "integer"})] {
                    if *v != t && v.to_string().len() > t.to_string().len() {
                        out.push(t);
                    }
                }
            }
            for (k, x) in m {
                if k.len() > 1 && !crate::gen::KNOWN.contains(&k.as_str()) {
                    for short in ["a", "b", "c"] {
                        if !m.contains_key(short) {
                            let mut y = m.clone();
                            y.remove(k);
                            y.insert(short.into(), x.clone());
                            out.push(Value::Object(y));
                        }
                    }
                }
            }
            for (k, x) in m {
                for y in smaller(x, depth + 1) {
                    let mut z = m.clone();
                    z.insert(k.clone(), y);
                    out.push(Value::Object(z));
                }
            }
        }
        Value::Array(l) => {
            if l.len() > 3 {
                out.push(Value::Array(l[..l.len() / 2].to_vec()));
                out.push(Value::Array(l[l.len() / 2..].to_vec()));
            }
            for i in 0..l.len() {
                let mut x = l.clone();
                x.remove(i);
                out.push(Value::Array(x));
            }
            for i in 0..l.len() {
                for y in smaller(&l[i], depth + 1) {
                    let mut x = l.clone();
                    x[i] = y;
                    out.push(Value::Array(x));
                }
            }
        }
        Value::String(s) => {
            let n = s.chars().count();
            if n > 8 {
                out.push(json!(s.chars().take(n / 2).collect::<String>()));
            }
            if n > 1 {
                out.push(json!(s.chars().skip(1).collect::<String>()));
                out.push(json!(s.chars().take(n - 1).collect::<String>()));
            }
        }
        Value::Number(x) => {
            if let Some(u) = x.as_u64() {
                if u > 0 {
                    out.push(json!(u / 2));
                    out.push(json!(u - 1));
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        _ => {}
    }
    out
}

pub fn shrink(st: &Stream, env: &Env, c: Case, message: String, budget_s: f64) -> (Case, String) {
    let start = Instant::now();
    let (mut c, mut msg) = (c, message);
    let first = (c.clone(), msg.clone());
    let fails = |x: &Case| -> Option<String> {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| watched_check(st, env, x, Some((&first.0, &first.1)))));
        match r {
            Ok(Err(Stop::Fail(m))) => Some(m),
            _ => None,
        }
    };
    // a failure that does not repeat is kept as it is
    if (0..5).all(|_| fails(&c).is_none()) {
        return (c, format!("{} (not reproduced on every run)", msg));
    }
    'outer: loop {
        let mut cand: Vec<Case> = vec![];
        let mut o = |f: &dyn Fn(&mut crate::model::MOpts)| {
            let mut x = c.clone();
            f(&mut x.opts);
            if opts_json(&x.opts) != opts_json(&c.opts) {
                cand.push(x);
            }
        };
        o(&|o| o.res = Res::Cast);
        o(&|o| o.norm = false);
        o(&|o| o.force = false);
        o(&|o| o.tuple = false);
        o(&|o| o.mapsw = false);
        o(&|o| o.regex = None);
        for s in smaller(&c.schema, 0) {
            let mut x = c.clone();
            x.schema = s;
            cand.push(x);
        }
        for a in smaller(&c.aux, 0) {
            let mut x = c.clone();
            x.aux = a;
            cand.push(x);
        }
        for x in cand {
            if start.elapsed().as_secs_f64() > budget_s {
                break 'outer;
            }
            if let Some(m) = fails(&x) {
                c = x;
                msg = m;
                continue 'outer;
            }
        }
        break;
    }
    (c, msg)
}

pub fn write_replay(dir: &str, prop: &str, stream: &str, c: &Case, msg: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let body = json!({"property": prop, "stream": stream, "message": msg, "case": c.to_json()});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let path = format!("{}/{}-{:08x}.json", dir, prop, hash(&text) as u32);
    if let Ok(mut f) = std::fs::File::create(&path) {
        let _ = f.write_all(text.as_bytes());
    }
    path
}

pub fn evidence(p: &Prop, r: &Report, tier: &str, seed: u64, wall: f64, violations: usize) -> Value {
    let mut streams = JMap::new();
    let mut evals = 0;
    for (st, s) in p.streams.iter().zip(&r.stats) {
        evals += s.cases;
        streams.insert(
            st.name.into(),
            json!({"cases": s.cases, "nontrivial": s.nontrivial, "outside_domain": s.skipped, "classes": s.labels}),
        );
    }
    json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": r.distinct,
            "rule": p.rule,
            "samples": r.samples,
            "streams": streams,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    })
}
