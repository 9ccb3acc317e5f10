mod alloc;
mod case;
mod casing_model;
mod dict;
mod docs;
mod gen;
mod model;
mod out;
mod props;
mod py;
mod rng;
mod run;

use case::*;
use serde_json::{json, Value};
use std::io::Read;
use std::path::PathBuf;
use std::process::{exit, Command};
use std::time::Instant;

#[global_allocator]
static COUNTING: alloc::Counting = alloc::Counting;

const REPO: &str = "/repo";

fn verif() -> String {
    std::env::var("JST_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn env_for(scratch: PathBuf) -> Env {
    let me = std::env::current_exe().unwrap();
    let dict = dict::load(&format!("{}/src", REPO));
    dict::load_scripts(&format!("{}/scripts", REPO), &dict);
    Env { dict, cli: me.with_file_name("jstcli"), me, scratch }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

fn prop(id: &str) -> run::Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            exit(2)
        }
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("jstcheck-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Regression inputs and known findings: corpus/<ID>/*.json
fn corpus(p: &run::Prop, env: &Env) -> (usize, Option<(String, Case, String)>) {
    let dir = format!("{}/corpus/{}", verif(), p.id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let mut n = 0;
    for f in files {
        let v: Value = match std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            Some(v) => v,
            None => {
                eprintln!("unreadable corpus file {:?}", f);
                exit(2)
            }
        };
        let c = Case::from_json(&v["case"]);
        n += 1;
        if let Some(st) = p.streams.iter().find(|s| v["stream"] == s.name) {
            if let Err(Stop::Fail(m)) = run::watched_check(st, env, &c, None) {
                return (n, Some((st.name.to_string(), c, m)));
            }
        } else {
            eprintln!("corpus file {:?} names no stream", f);
            exit(2)
        }
    }
    (n, None)
}

/// Listed findings of this property that still fail.
fn known(p: &run::Prop) {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    for line in text.lines() {
        if let Some(body) = line.strip_prefix("finding: ") {
            let v: Value = serde_json::from_str(body).expect("known_findings.txt");
            if v["property"] != p.id {
                continue;
            }
            let o = opts_from(&v["opts"]);
            let got = bq(&v["schema"], &o).unwrap_or(Value::Null);
            if got == v["observed"] {
                println!("KNOWN-FINDING: property={} {}", p.id, v["what"].as_str().unwrap_or(""));
            }
        }
    }
}

/// Ends the run when one case takes more than run::PATIENCE_S (a case takes milliseconds).
fn watchdog(id: &str, out: &str, scratch: &str) {
    loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let t = match run::overdue() {
            Some(t) => t,
            None => continue,
        };
        let p = prop(id);
        let (stream, c, m) = match t {
            run::Trying::Index(s, i) => (p.streams[s].name.to_string(), run::make(&p, &env_for(PathBuf::from(scratch)), seed(), s, i), "does not come back".to_string()),
            run::Trying::This(s, c, m) => (s, c, m),
        };
        eprintln!("{} [{}] {}", id, stream, m);
        let path = run::write_replay(&format!("{}/replays", verif()), id, &stream, &c, &m);
        let ev = json!({"property": id, "tier": if thorough() {"thorough"} else {"quick"}, "seed": seed(), "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [c.to_json()]}, "wall_s": run::PATIENCE_S, "violations": 1});
        let _ = std::fs::write(out, ev.to_string());
        println!("VIOLATION property={} replay={}", id, path);
        exit(1);
    }
}

fn child(id: &str, out: &str, scratch: &str, scale: f64) {
    quiet_panics();
    let p = prop(id);
    let env = env_for(PathBuf::from(scratch));
    let start = Instant::now();
    let (wid, wout, wscratch) = (id.to_string(), out.to_string(), scratch.to_string());
    std::thread::spawn(move || watchdog(&wid, &wout, &wscratch));
    let (n, hit) = corpus(&p, &env);
    let tier = if thorough() { "thorough" } else { "quick" };
    let replays = format!("{}/replays", verif());
    let mut violation: Option<String> = None;
    let mut report = run::Report { stats: vec![], distinct: 0, samples: vec![], found: None, broken: None };
    if let Some((stream, c, m)) = hit {
        violation = Some(run::write_replay(&replays, id, &stream, &c, &m));
        eprintln!("{} [{}] {}", id, stream, m);
    } else {
        report = run::drive(&p, &env, seed(), thorough(), scale);
        if let Some(b) = &report.broken {
            eprintln!("{}: {}", id, b);
            exit(2);
        }
        if let Some(f) = report.found.take() {
            let st = &p.streams[f.stream];
            let (c, m) = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || run::shrink(st, &env, f.case.clone(), f.message.clone(), 40.0))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            eprintln!("{} [{} #{}] {}", id, st.name, f.index, m);
            violation = Some(run::write_replay(&replays, id, st.name, &c, &m));
        }
    }
    let mut ev = run::evidence(&p, &report, tier, seed(), start.elapsed().as_secs_f64(), violation.is_some() as usize);
    ev["coverage"]["regression_inputs"] = json!(n);
    // the same property in the other build: one evidence file for both
    if let Some(prev) = std::env::var("JST_PREV").ok().and_then(|f| std::fs::read_to_string(f).ok()) {
        let prev: Value = serde_json::from_str(&prev).unwrap_or(Value::Null);
        let n = |v: &Value| v.as_u64().unwrap_or(0);
        ev["coverage"]["evaluations"] = json!(n(&ev["coverage"]["evaluations"]) + n(&prev["coverage"]["evaluations"]));
        ev["coverage"]["other_build"] = json!({"features": "default", "streams": prev["coverage"]["streams"]});
        ev["wall_s"] = json!(ev["wall_s"].as_f64().unwrap_or(0.0) + prev["wall_s"].as_f64().unwrap_or(0.0));
    }
    if violation.is_none() {
        known(&p);
    }
    std::fs::write(out, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    if let Some(r) = violation {
        println!("VIOLATION property={} replay={}", id, r);
        exit(1);
    }
}

/// Supervises a child, so that a crash of the code under test is a result too.
fn supervise(id: &str, out: &str, scale: f64) -> i32 {
    let scratch = Scratch::new();
    let me = std::env::current_exe().unwrap();
    let status = Command::new(&me)
        .args(["child", id, out, scratch.0.to_str().unwrap(), &scale.to_string()])
        .env_remove("RUST_BACKTRACE")
        .status()
        .expect("child");
    if let Some(c) = status.code() {
        return c;
    }
    // killed by a signal: find the case among those being tried
    let p = prop(id);
    let env = env_for(scratch.0.clone());
    for w in 0..run::WORKERS {
        let b = match std::fs::read(scratch.0.join(format!("slot{}", w))) {
            Ok(b) if b.len() == 16 => b,
            _ => continue,
        };
        let s = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        let i = u64::from_le_bytes(b[8..].try_into().unwrap()) as usize;
        if i == 0 || s >= p.streams.len() {
            continue;
        }
        let c = run::make(&p, &env, seed(), s, i - 1);
        let path = run::write_replay(&format!("{}/replays", verif()), id, p.streams[s].name, &c, "the process is killed by a signal");
        let st = Command::new(&me).args(["replay", &path]).env_remove("RUST_BACKTRACE").status().expect("replay");
        if st.code().is_none() {
            println!("VIOLATION property={} replay={}", id, path);
            let ev = json!({"property": id, "tier": if thorough() {"thorough"} else {"quick"}, "seed": seed(), "level": "exploration",
                "coverage": {"evaluations": i, "distinct_nontrivial": 1, "rule": p.rule, "samples": [c.to_json()]}, "wall_s": 0.0, "violations": 1});
            let _ = std::fs::write(out, ev.to_string());
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("{}: the child was killed by a signal, no case reproduces it", id);
    2
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = &a[2];
            let out = a.get(3).cloned().unwrap_or(format!("{}/evidence/{}.json", verif(), id));
            let scale = std::env::var("JST_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            exit(supervise(id, &out, scale));
        }
        Some("child") => child(&a[2], &a[3], &a[4], a[5].parse().unwrap_or(1.0)),
        Some("measure") => {
            quiet_panics();
            std::thread::Builder::new().stack_size(256 << 20).spawn(props::measure).unwrap().join().unwrap();
        }
        Some("sequence") => {
            quiet_panics();
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let list: Value = serde_json::from_str(&s).unwrap();
            let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || props::run_sequence(&list)).unwrap().join().unwrap();
            println!("{}", r);
        }
        Some("replay") => {
            quiet_panics();
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
            let p = prop(v["property"].as_str().unwrap_or(""));
            let scratch = Scratch::new();
            let env = env_for(scratch.0.clone());
            let c = Case::from_json(&v["case"]);
            let st = p.streams.iter().find(|s| v["stream"] == s.name).expect("stream");
            let (id, path) = (p.id, a[2].clone());
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_secs(2));
                if run::overdue().is_some() {
                    println!("does not come back");
                    println!("VIOLATION property={} replay={}", id, path);
                    exit(1);
                }
            });
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || run::watched_check(st, &env, &c, None))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            drop(scratch);
            match r {
                Err(Stop::Fail(m)) => {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", p.id, a[2]);
                    exit(1);
                }
                Err(Stop::Skip(w)) => println!("outside of the domain: {}", w),
                Ok(_) => println!("holds"),
            }
        }
        _ => {
            eprintln!("usage: jstcheck run ID [EVIDENCE] | replay FILE");
            exit(2);
        }
    }
}
