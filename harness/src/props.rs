//! The properties: generators and oracles.
use crate::case::*;
use crate::gen::{self, base, Prof, G};
use crate::model::{self, column_name, MOpts, Res, N, T};
use crate::out::{self, *};
use crate::rng::{hash, Rng};
use crate::run::{Prop, Stream};
use serde_json::{json, Map as JMap, Value};
use std::collections::BTreeMap;

pub fn opts(r: &mut Rng) -> MOpts {
    MOpts {
        res: *r.pick(&[Res::Cast, Res::Cast, Res::Drop, Res::Panic]),
        norm: r.pct(40),
        force: r.pct(30),
        tuple: r.pct(50),
        mapsw: r.pct(25),
        regex: None,
    }
}

pub fn cast_opts(r: &mut Rng) -> MOpts {
    MOpts { res: Res::Cast, ..opts(r) }
}

fn mk(env: &Env, seed: u64, p: Prof, o: fn(&mut Rng) -> MOpts) -> Case {
    let mut r = Rng::new(seed ^ 0xabcdef);
    let schema = G::new(seed, p, &env.dict).schema();
    Case { schema, opts: o(&mut r), aux: Value::Null }
}

fn err(s: Result<(), String>, what: &str) -> Result<(), Stop> {
    s.map_err(|m| Stop::Fail(format!("{}: {}", what, m)))
}

/// Labels that describe the shape of a resolved schema.
fn labels(n: &N, l: &mut Labels) {
    let has = |f: &dyn Fn(&T) -> bool| model::any(n, &|x| f(&x.t));
    if has(&|t| matches!(t, T::Json)) {
        l.push("under-specified node");
    }
    if has(&|t| matches!(t, T::Map(_))) {
        l.push("map");
    }
    if has(&|t| matches!(t, T::Arr(_))) {
        l.push("array");
    }
    if has(&|t| matches!(t, T::Arr(i) if matches!(i.t, T::Arr(_)))) {
        l.push("nested array");
    }
    if has(&|t| matches!(t, T::Tup(_))) {
        l.push("tuple");
    }
    if model::any(n, &|x| x.ann == model::Ann::Unspec) {
        l.push("merged variants");
    }
    if model::depth(n) > 6 {
        l.push("depth over 6");
    }
    if model::count(n) > 20 {
        l.push("over 20 nodes");
    }
}

fn has_variants(s: &Value) -> bool {
    s.to_string().contains("\"oneOf\"") || s.to_string().contains("\"type\":[")
}

/// Both outputs against the model, under a projection each.
fn against_model(c: &Case, ma: Option<Mask>, mb: Option<Mask>, l: &mut Labels) -> Result<Want, Stop> {
    let w = want(c)?;
    labels(&w.n, l);
    if let Some(m) = ma {
        match (&w.avro, avro(&c.schema, &c.opts)) {
            (Ok(w), Ok(g)) => err(same(&avro_flat(&g), &avro_flat(w), m), "Avro")?,
            (Ok(_), Err(e)) => return fail(format!("Avro conversion failed: {}", e)),
            (Err(e), Ok(_)) => return fail(format!("Avro conversion should have failed ({:?} at the root)", e)),
            (Err(_), Err(_)) => l.push("rejected by strategy"),
        }
    }
    if let Some(m) = mb {
        match (&w.bq, bq(&c.schema, &c.opts)) {
            (None, _) => l.push("excluded: known finding array of maps (BigQuery)"),
            (Some(Ok(w)), Ok(g)) => err(same(&bq_flat(&g), &bq_flat(w), m), "BigQuery")?,
            (Some(Ok(_)), Err(e)) => return fail(format!("BigQuery conversion failed: {}", e)),
            (Some(Err(e)), Ok(_)) => {
                return fail(format!("BigQuery conversion should have failed ({:?} at the root)", e))
            }
            (Some(Err(_)), Err(_)) => {}
        }
    }
    Ok(w)
}

// ================================================================ C01

fn c01_prof() -> Prof {
    Prof { collide: true, messy: 45, width: 9, ann: 15, clash: 30, open: 5, one_of: 9, ..base() }
}

fn show(c: &Conv) -> String {
    match c {
        Ok(v) => v.to_string(),
        Err(_) => "rejected".into(),
    }
}

fn permute(v: &Value, r: &mut Rng) -> Value {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            r.shuffle(&mut ks);
            let mut o = JMap::new();
            for k in ks {
                let x = &m[k];
                let mut y = permute(x, r);
                if k == "required" {
                    if let Value::Array(l) = &mut y {
                        if l.iter().all(Value::is_string) {
                            r.shuffle(l);
                        }
                    }
                }
                o.insert(k.clone(), y);
            }
            Value::Object(o)
        }
        Value::Array(l) => Value::Array(l.iter().map(|x| permute(x, r)).collect()),
        v => v.clone(),
    }
}

/// JSON text with members in a random order.
fn shuffled_text(v: &Value, r: &mut Rng) -> String {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            r.shuffle(&mut ks);
            let parts: Vec<String> = ks
                .iter()
                .map(|k| {
                    let x = &m[*k];
                    let t = if k.as_str() == "required" { permute(&json!({"required": x}), r)["required"].clone() } else { x.clone() };
                    format!("{}:{}", json!(k), shuffled_text(&t, r))
                })
                .collect();
            format!("{{{}}}", parts.join(", "))
        }
        Value::Array(l) => format!("[{}]", l.iter().map(|x| shuffled_text(x, r)).collect::<Vec<_>>().join(" ,")),
        v => v.to_string(),
    }
}

fn c01_repeat(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let mut r = Rng::new(hash(&c.schema.to_string()));
    let text = c.schema.to_string();
    let a = show(&avro(&c.schema, &c.opts));
    let b = show(&bq(&c.schema, &c.opts));
    for i in 0..5 {
        let s = match i {
            0 | 1 => c.schema.clone(),
            2 => permute(&c.schema, &mut r),
            _ => serde_json::from_str(&shuffled_text(&c.schema, &mut r)).unwrap(),
        };
        let a2 = show(&avro(&s, &c.opts));
        if a2 != a {
            return fail(format!("Avro output differs between equal conversions: {} / {}", a, a2));
        }
        let b2 = show(&bq(&s, &c.opts));
        if b2 != b {
            return fail(format!("BigQuery output differs between equal conversions: {} / {}", b, b2));
        }
    }
    if c.schema.to_string() != text {
        return fail("the input was modified");
    }
    let coll = matches!(model::resolve(&c.schema, c.opts.tuple, c.opts.norm), Err(model::Skip::Collision));
    if coll {
        l.push("colliding names");
    }
    if a == "rejected" {
        l.push("rejected");
    }
    Ok(a != "rejected" && text.matches("\"type\"").count() > 3)
}

fn c01_threads(_: &Env, c: &Case, l: &mut Labels) -> Out {
    // several schemas converted at once, and one at a time
    let list: Vec<Case> = c.aux.as_array().map(|v| v.iter().map(Case::from_json).collect()).unwrap_or_default();
    if list.is_empty() {
        return Err(Stop::Skip("no conversions"));
    }
    let one: Vec<(String, String)> =
        list.iter().map(|c| (show(&avro(&c.schema, &c.opts)), show(&bq(&c.schema, &c.opts)))).collect();
    let results: Vec<Vec<(usize, String, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let list = &list;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        (0..list.len())
                            .map(|i| {
                                let k = (i * (t + 1) + t) % list.len();
                                let c = &list[k];
                                (k, show(&avro(&c.schema, &c.opts)), show(&bq(&c.schema, &c.opts)))
                            })
                            .collect()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    l.push("4 threads");
    for (k, a, b) in results.into_iter().flatten() {
        if (&a, &b) != (&one[k].0, &one[k].1) {
            return fail(format!("conversion {} gives another result in a concurrent thread", k));
        }
    }
    Ok(list.len() > 1)
}

fn sequence(env: &Env, seed: u64, n: usize, p: Prof) -> Value {
    let mut r = Rng::new(seed);
    let mut l: Vec<Case> = vec![];
    for i in 0..n {
        let mut c = mk(env, seed.wrapping_add(1000 + i as u64), p.clone(), opts);
        if !l.is_empty() && r.pct(45) {
            // the same schema with other options
            c.schema = r.pick(&l).schema.clone();
        }
        if r.pct(15) {
            let re = *r.pick(&["a", ".*", "payload\\..*", "x|y", "("]);
            if r.pct(50) {
                c.opts.regex = Some(re.into());
            } else if c.schema.is_object() {
                c.schema["mozPipelineMetadata"] = json!({ "json_object_path_regex": re });
            }
        }
        if r.pct(8) {
            c.schema = json!({"type": "object", "properties": {"a": {"type": "bogus"}}});
        }
        l.push(c);
    }
    json!(l.iter().map(Case::to_json).collect::<Vec<_>>())
}

fn one_result(c: &Case) -> String {
    format!("{}\n{}", show(&avro(&c.schema, &c.opts)), show(&bq(&c.schema, &c.opts)))
}

/// A sequence of conversions, run in this process (used by a fresh one).
pub fn run_sequence(list: &Value) -> Value {
    let l = list.as_array().cloned().unwrap_or_default();
    json!(l.iter().map(|c| one_result(&Case::from_json(c))).collect::<Vec<_>>())
}

pub fn fresh(env: &Env, list: &Value) -> Result<Value, Stop> {
    use std::process::{Command, Stdio};
    let mut ch = Command::new(&env.me)
        .arg("sequence")
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|_| Stop::Skip("spawn failed"))?;
    {
        use std::io::Write;
        let _ = ch.stdin.take().unwrap().write_all(list.to_string().as_bytes());
    }
    let o = ch.wait_with_output().map_err(|_| Stop::Skip("spawn failed"))?;
    serde_json::from_slice(&o.stdout).map_err(|_| Stop::Fail("a fresh process gives no result".into()))
}

fn c01_history(env: &Env, c: &Case, l: &mut Labels) -> Out {
    let list = match c.aux.as_array() {
        Some(l) if !l.is_empty() => l.clone(),
        _ => return Err(Stop::Skip("no conversions")),
    };
    let seq = fresh(env, &c.aux)?;
    let seq = seq.as_array().cloned().unwrap_or_default();
    if seq.len() != list.len() {
        return fail("a sequence of conversions gives too few results");
    }
    let mut rej = 0;
    for (i, (x, got)) in list.iter().zip(&seq).enumerate() {
        let alone = fresh(env, &json!([x]))?;
        if alone[0] != *got {
            return fail(format!("conversion {} of the sequence differs from the same conversion in a fresh process", i));
        }
        let here = one_result(&Case::from_json(x));
        if json!(here) != *got {
            return fail(format!("conversion {} of the sequence differs from the same conversion in another process", i));
        }
        if here.contains("rejected") {
            rej += 1;
        }
    }
    if rej > 0 {
        l.push("with rejected conversions");
    }
    Ok(list.len() > 1)
}

// ================================================================ C02, C03

fn wild_prof() -> Prof {
    Prof { collide: true, messy: 40, invalid: 12, dict: 30, ann: 25, open: 4, width: 7, root_object: 65, tuple: 7, ..base() }
}

fn wild_opts(r: &mut Rng) -> MOpts {
    let mut o = opts(r);
    if r.pct(20) {
        o.regex = Some(r.pick(&[".*", "a", "payload", ".*\\.a", "[a-m].*", "value", ".*list", "", "("]).to_string());
    }
    o
}

fn c02_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    match avro(&c.schema, &c.opts) {
        Ok(v) => {
            err(avro_valid(&v), "invalid Avro")?;
            let f = avro_flat(&v);
            if f.values().filter(|c| c.ty == "record").count() > 2 {
                l.push("over 2 records");
            }
            Ok(f.len() > 3)
        }
        Err(_) => Err(Stop::Skip("conversion rejected")),
    }
}

fn c03_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    match bq(&c.schema, &c.opts) {
        Ok(v) => {
            err(bq_valid(&v), "invalid BigQuery schema")?;
            let f = bq_flat(&v);
            if f.values().filter(|c| c.ty == "RECORD").count() > 2 {
                l.push("over 2 records");
            }
            // the kind of the root, where the model can tell it
            if let Ok(n) = parsed(c) {
                if !matches!(n.t, T::Obj { .. } | T::Tup(_)) {
                    let a = v.as_array().unwrap();
                    if a.len() != 1 || a[0]["name"] != "root" {
                        return fail("a root that is not an object must give a single column named root");
                    }
                    l.push("root column");
                    if matches!(n.t, T::Map(_) | T::Arr(_)) && a[0]["mode"] != "REPEATED" {
                        return fail("a repeated root must give a REPEATED column");
                    }
                }
            }
            Ok(f.len() > 2)
        }
        Err(_) => Err(Stop::Skip("conversion rejected")),
    }
}

// ================================================================ C04

fn c04_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let n = parsed(c)?;
    labels(&n, l);
    if model::has_array_of_map(&n) {
        return Err(Stop::Skip("known finding: array of maps"));
    }
    match (avro(&c.schema, &c.opts), bq(&c.schema, &c.opts)) {
        (Ok(a), Ok(b)) => {
            err(same_table(&a, &b), "Avro and BigQuery differ")?;
            Ok(model::count(&n) > 3)
        }
        (a, b) => fail(format!("a conversion with casting failed: {:?} {:?}", a.err(), b.err())),
    }
}

/// Where names collide, both outputs keep the same one.
fn c04_collisions(_: &Env, c: &Case, l: &mut Labels) -> Out {
    match model::resolve(&c.schema, c.opts.tuple, c.opts.norm) {
        Err(model::Skip::Collision) => {}
        Ok(_) => return Err(Stop::Skip("no collision")),
        Err(_) => return Err(Stop::Skip("rejected schema")),
    }
    if ["additionalProperties", "patternProperties"].iter().any(|k| c.schema.to_string().contains(k)) {
        return Err(Stop::Skip("perhaps an array of maps"));
    }
    match (avro(&c.schema, &c.opts), bq(&c.schema, &c.opts)) {
        (Ok(a), Ok(b)) => {
            err(same_table(&a, &b), "Avro and BigQuery differ")?;
            l.push("colliding names");
            Ok(true)
        }
        (Err(_), Err(_)) => Err(Stop::Skip("rejected schema")),
        (a, b) => fail(format!("only one conversion succeeds: {:?} {:?}", a.err(), b.err())),
    }
}

// ================================================================ C05

fn c05_prof() -> Prof {
    Prof { extra: 0, invalid: 5, tuple: 8, map: 8, one_of: 9, type_list: 9, clash: 20, ..base() }
}

fn c05_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, c05_prof(), cast_opts);
    c.aux = json!([seed % 1000, seed % 777, seed % 13, seed % 7, seed % 1234, seed % 55]);
    c
}

fn c05_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let n = parsed(c)?;
    labels(&n, l);
    // a required key that is not declared, or mixed keywords: outside of the domain
    let a = match avro(&c.schema, &c.opts) {
        Ok(a) => a,
        Err(e) => return fail(format!("Avro conversion failed: {}", e)),
    };
    let b = match bq(&c.schema, &c.opts) {
        Ok(b) => b,
        Err(e) => return fail(format!("BigQuery conversion failed: {}", e)),
    };
    if requires_undeclared(&c.schema) {
        return Err(Stop::Skip("a required property is not declared"));
    }
    let loss = model::has_array_of_map(&n);
    if loss {
        l.push("excluded: known finding array of maps (BigQuery)");
    }
    let record_root = matches!(n.t, T::Obj { .. } | T::Tup(_)) && avro_flat(&a)["root"].ty == "record";
    let mut big = false;
    for seed in c.aux.as_array().cloned().unwrap_or_default() {
        let mut r = Rng::new(seed.as_u64().unwrap_or(0));
        let d = crate::docs::doc(&c.schema, &mut r, c.opts.tuple);
        if let Err(m) = crate::docs::encode_avro(&a, &d, c.opts.norm, "root") {
            return fail(format!("document {} does not fit the Avro schema: {}", d, m));
        }
        // BigQuery rows are objects: a null or bare root cannot be loaded
        if !loss && !(d.is_null() && record_root) {
            if let Err(m) = crate::docs::encode_bq_row(&b, &d, c.opts.norm, record_root) {
                return fail(format!("document {} does not fit the BigQuery schema: {}", d, m));
            }
        }
        big |= d.to_string().len() > 30;
    }
    Ok(big)
}

/// An object of this kind has no value that uses only declared properties.
fn requires_undeclared(s: &Value) -> bool {
    gen::positions(s).iter().any(|p| {
        let x = gen::at(s, p).unwrap();
        match (x.get("properties"), x.get("required").and_then(Value::as_array)) {
            (Some(Value::Object(m)), Some(l)) => l.iter().any(|r| !m.contains_key(r.as_str().unwrap_or(""))),
            _ => false,
        }
    })
}

// ================================================================ C06

fn c06_prof() -> Prof {
    Prof { one_of: 11, type_list: 12, tuple: 8, map: 8, null: 3, messy: 30, ..base() }
}

fn unforced(r: &mut Rng) -> MOpts {
    MOpts { force: false, ..opts(r) }
}

fn c06_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    if c.opts.force {
        return Err(Stop::Skip("forced"));
    }
    let w = against_model(c, Some(NULLS), Some(NULLS), l)?;
    let f = w.avro.map(|a| avro_flat(&a)).unwrap_or_default();
    let req = f.values().filter(|c| c.mode == "REQUIRED").count();
    Ok(req > 1 && f.len() - req > 0)
}

// ================================================================ C07

fn c07_prof() -> Prof {
    Prof { under: 14, one_of: 9, type_list: 9, clash: 45, tuple: 5, null: 4, ..base() }
}

const NAMES_TYPES: Mask = Mask { paths: true, types: true, nulls: false, rep: true, desc: false, full: false };

fn c07_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    if c.opts.res != Res::Cast {
        return Err(Stop::Skip("not casting"));
    }
    let w = against_model(c, Some(NAMES_TYPES), Some(NAMES_TYPES), l)?;
    Ok(model::any(&w.n, &|x| matches!(x.t, T::Json)) && model::count(&w.n) > 2)
}

/// Object positions that are not below variants or pattern maps.
fn plain_objects(s: &Value, tuple: bool) -> Vec<Vec<String>> {
    gen::positions(s)
        .into_iter()
        .filter(|p| {
            let mut cur = s;
            let mut i = 0;
            loop {
                if let Some(l) = cur.get("type").and_then(Value::as_array) {
                    let mut l2: Vec<&Value> = l.iter().filter(|t| *t != "null").collect();
                    l2.dedup();
                    if l2.len() != 1 || l.iter().filter(|t| *t != "null").count() != 1 {
                        return false;
                    }
                }
                if i == p.len() {
                    break;
                }
                let k = p[i].as_str();
                let step = match k {
                    "properties" => 2,
                    "items" if cur["items"].is_array() => {
                        if !tuple {
                            return false;
                        }
                        2
                    }
                    "items" => 1,
                    "additionalProperties" if cur.get("patternProperties").is_none() && cur.get("properties").is_none() => 1,
                    _ => return false,
                };
                for k in &p[i..i + step] {
                    cur = match cur {
                        Value::Array(l) => &l[k.parse::<usize>().unwrap()],
                        v => &v[k],
                    };
                }
                i += step;
            }
            cur.get("properties").and_then(Value::as_object).map_or(false, |m| m.len() >= 2)
        })
        .collect()
}

/// Flat projections of both outputs with everything but names of one column
/// (and below) — what must not change when that column's schema changes.
fn column_prefixes(s: &Value, at: &[String], prop: &str, norm: bool) -> Option<(String, String)> {
    // Avro path and BigQuery path of the property
    let mut a = "root".to_string();
    let mut b = String::new();
    let mut cur = s;
    let mut i = 0;
    let mut root_is_col = false;
    let mut list_from_array = false;
    let kind_repeated = |v: &Value| {
        v.get("properties").is_none() && (v.get("items").map_or(false, |i| i.is_object()) || v.get("additionalProperties").map_or(false, |x| x.is_object()))
    };
    if kind_repeated(s) {
        root_is_col = true;
    }
    if root_is_col {
        b.push_str(".root");
    }
    while i < at.len() {
        let k = at[i].as_str();
        match k {
            "properties" => {
                let c = column_name(&at[i + 1], norm)?;
                a.push_str(&format!(".{}", c));
                b.push_str(&format!(".{}", c));
                cur = &cur["properties"][&at[i + 1]];
                i += 2;
                list_from_array = false;
            }
            "additionalProperties" => {
                a.push_str("{}");
                b.push_str(".value");
                cur = &cur["additionalProperties"];
                i += 1;
                list_from_array = false;
            }
            "items" if cur["items"].is_array() => {
                a.push_str(&format!(".f{}_", at[i + 1]));
                b.push_str(&format!(".f{}_", at[i + 1]));
                cur = &cur["items"][at[i + 1].parse::<usize>().ok()?];
                i += 2;
                list_from_array = false;
            }
            "items" => {
                cur = &cur["items"];
                let inner_array = cur.get("items").map_or(false, |x| x.is_object()) && cur.get("properties").is_none();
                a.push_str("[]");
                if inner_array {
                    a.push_str(".list");
                    b.push_str(".list");
                }
                i += 1;
                list_from_array = true;
            }
            _ => return None,
        }
    }
    let _ = (list_from_array, cur);
    let c = column_name(prop, norm)?;
    Some((format!("{}.{}", a, c), format!("{}.{}", b, c)))
}

fn without(f: &Flat, prefix: &str) -> Flat {
    f.iter()
        .filter(|(k, _)| {
            !(k.starts_with(prefix) && (k.len() == prefix.len() || matches!(k.as_bytes()[prefix.len()], b'.' | b'[' | b'{')))
        })
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
}

/// aux: {"new": schema or null (remove), "pick": n, "add": name or null}
fn locality(c: &Case, l: &mut Labels) -> Out {
    parsed(c)?;
    let spots = plain_objects(&c.schema, c.opts.tuple);
    if spots.is_empty() {
        return Err(Stop::Skip("no object with two properties"));
    }
    let pick = c.aux["pick"].as_u64().unwrap_or(0) as usize;
    let spot = &spots[pick % spots.len()];
    let mut s2 = c.schema.clone();
    let obj = gen::at_mut(&mut s2, spot).unwrap();
    let props = obj["properties"].as_object_mut().unwrap();
    let names: Vec<String> = props.keys().cloned().collect();
    let name = match c.aux["add"].as_str() {
        Some(n) => {
            if names.iter().any(|k| column_name(k, true) == column_name(n, true)) {
                return Err(Stop::Skip("name exists"));
            }
            n.to_string()
        }
        None => names[(pick / 7) % names.len()].clone(),
    };
    match &c.aux["new"] {
        Value::Null => {
            props.remove(&name);
        }
        v => {
            props.insert(name.clone(), v.clone());
        }
    }
    // other columns must exist before and after
    if !names.iter().any(|k| *k != name && column_name(k, c.opts.norm).is_some()) {
        return Err(Stop::Skip("no other column"));
    }
    let (pa, pb) = match column_prefixes(&c.schema, spot, &name, c.opts.norm) {
        Some(x) => x,
        None => return Err(Stop::Skip("invalid name")),
    };
    let c2 = Case { schema: s2, opts: c.opts.clone(), aux: Value::Null };
    parsed(&c2)?;
    let go = |c: &Case| -> Result<(Flat, Flat), Stop> {
        match (avro(&c.schema, &c.opts), bq(&c.schema, &c.opts)) {
            (Ok(a), Ok(b)) => Ok((avro_flat(&a), bq_flat(&b))),
            (a, b) => fail(format!("a conversion with casting failed: {:?} {:?}", a.err(), b.err())),
        }
    };
    let (a1, b1) = go(c)?;
    let (a2, b2) = go(&c2)?;
    let m = Mask { ..ALL };
    err(same(&without(&a2, &pa), &without(&a1, &pa), m), &format!("changing only {} changed the rest of the Avro schema", pa))?;
    err(same(&without(&b2, &pb), &without(&b1, &pb), m), &format!("changing only {} changed the rest of the BigQuery schema", pb))?;
    if spot.len() > 2 {
        l.push("nested object");
    }
    Ok(a1.len() > 3)
}

fn c07_local_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, Prof { ann: 10, ..c07_prof() }, cast_opts);
    let mut g = G::new(seed ^ 77, Prof { budget: 6, depth: 2, ..c07_prof() }, &env.dict);
    c.aux = json!({"pick": seed >> 8 & 0xffff, "new": g.under()});
    c
}

fn c07_local(_: &Env, c: &Case, l: &mut Labels) -> Out {
    locality(c, l)
}

// ================================================================ C08

fn c08_prof() -> Prof {
    Prof { under: 6, null: 4, clash: 30, tuple: 6, ann: 10, ..base() }
}

fn c08_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    if let Err(model::Skip::Reject(_) | model::Skip::Unused) = model::resolve(&c.schema, c.opts.tuple, c.opts.norm) {
        return Err(Stop::Skip("rejected schema"));
    }
    let with = |res: Res| MOpts { res, ..c.opts.clone() };
    let mut trivial = true;
    for (fmt, f, flat) in [
        ("Avro", avro as fn(&Value, &MOpts) -> Conv, avro_flat as fn(&Value) -> Flat),
        ("BigQuery", bq, bq_flat),
    ] {
        let ca = match f(&c.schema, &with(Res::Cast)) {
            Ok(v) => v,
            Err(e) => return fail(format!("{}: casting failed: {}", fmt, e)),
        };
        let dr = f(&c.schema, &with(Res::Drop));
        let pa = f(&c.schema, &with(Res::Panic));
        match &pa {
            Ok(p) => {
                if *p != ca {
                    return fail(format!("{}: the panic strategy succeeds but differs from casting", fmt));
                }
                if dr.as_ref().ok() != Some(p) {
                    return fail(format!("{}: the panic strategy succeeds but dropping differs", fmt));
                }
                l.push("well specified");
            }
            Err(_) => {
                if let Ok(d) = &dr {
                    if *d == ca {
                        return fail(format!("{}: the panic strategy fails but dropping changes nothing", fmt));
                    }
                    l.push("something dropped");
                } else {
                    l.push("everything dropped");
                }
            }
        }
        if let Ok(d) = &dr {
            let (d, k) = (flat(d), flat(&ca));
            for (p, x) in &d {
                match k.get(p) {
                    None => return fail(format!("{}: column {} only exists under dropping", fmt, p)),
                    Some(y) if x != y => {
                        return fail(format!("{}: column {} is {:?} under dropping and {:?} under casting", fmt, p, x, y))
                    }
                    _ => {}
                }
            }
            if d.len() < k.len() && d.len() > 1 {
                trivial = false;
            }
        }
    }
    // what exactly is dropped
    if let Ok(n) = parsed(c) {
        let _ = n;
        let x = Case { opts: with(Res::Drop), ..c.clone() };
        against_model(&x, Some(NODESC), Some(NODESC), l)?;
        let x = Case { opts: with(Res::Panic), ..c.clone() };
        against_model(&x, Some(NODESC), Some(NODESC), l)?;
    }
    Ok(!trivial)
}

// ================================================================ C09

fn c09_prof() -> Prof {
    Prof { messy: 55, invalid: 18, dict: 20, width: 9, under: 2, ..base() }
}

fn c09_opts(r: &mut Rng) -> MOpts {
    MOpts { norm: false, regex: None, ..cast_opts(r) }
}

fn c09_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    if c.opts.res != Res::Cast {
        return Err(Stop::Skip("not casting"));
    }
    let w = against_model(c, Some(Mask { full: true, ..NAMES_TYPES }), Some(NAMES_TYPES), l)?;
    let renamed = c.schema.to_string().contains(|c: char| c == '-' || c == '.');
    if renamed {
        l.push("name to sanitise");
    }
    Ok(model::count(&w.n) > 3 && renamed)
}

fn c09_collide_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, Prof { collide: true, ..c09_prof() }, cast_opts);
    let mut g = G::new(seed ^ 5, Prof { collide: true, depth: 2, budget: 14, messy: 70, invalid: 5, ann: 30, ..base() }, &env.dict);
    c.schema = g.object(2);
    if c.schema["properties"].as_object().map_or(0, |m| m.len()) < 2 {
        c.schema["properties"]["a-b"] = json!({"type": "integer"});
        c.schema["properties"]["a.b"] = json!({"type": "string"});
    }
    if seed % 3 == 0 {
        c.aux = json!({"in": *Rng::new(seed ^ 6).pick(&["property", "array", "map"])});
    }
    c
}

/// Collisions in an object: exactly one column, from one of them.
fn c09_collide(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let props = match c.schema.get("properties").and_then(Value::as_object) {
        Some(p) if c.opts.res == Res::Cast => p.clone(),
        _ => return Err(Stop::Skip("not an object")),
    };
    if c.schema.get("type").map_or(false, |t| t != "object") {
        return Err(Stop::Skip("not an object"));
    }
    let mut groups: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for k in props.keys() {
        if let Some(n) = column_name(k, c.opts.norm) {
            groups.entry(n).or_default().push(k.clone());
        }
    }
    if groups.is_empty() {
        return Err(Stop::Skip("no column"));
    }
    for v in props.values() {
        if let Err(model::Skip::Reject(_) | model::Skip::Unused) = model::resolve(v, c.opts.tuple, c.opts.norm) {
            return Err(Stop::Skip("rejected schema"));
        }
    }
    // the object may be anywhere
    let (wrap, at_a, at_b): (&dyn Fn(Value) -> Value, &str, &str) = match c.aux["in"].as_str() {
        None => (&|v| v, "root", ""),
        Some("property") => (&|v| json!({"type": "object", "properties": {"w": v, "a-b": {"type": "integer"}}}), "root.w", ".w"),
        Some("array") => (&|v| json!({"type": "object", "properties": {"w": {"type": "array", "items": v}}}), "root.w[]", ".w"),
        Some("map") => (&|v| json!({"type": "object", "properties": {"w": {"type": "object", "additionalProperties": v}}}), "root.w{}", ".w.value"),
        _ => return Err(Stop::Skip("no case")),
    };
    let whole = wrap(c.schema.clone());
    let (a, b) = match (avro(&whole, &c.opts), bq(&whole, &c.opts)) {
        (Ok(a), Ok(b)) => (avro_flat(&a), bq_flat(&b)),
        (a, b) => return fail(format!("a conversion with casting failed: {:?} {:?}", a.err(), b.err())),
    };
    let below = |k: &'_ str, at: &str| k.strip_prefix(at).and_then(|k| k.strip_prefix('.')).filter(|k| !k.contains(['.', '[', '{'])).map(String::from);
    let tops: Vec<String> = a.keys().filter_map(|k| below(k, at_a)).collect();
    let want: Vec<&str> = groups.keys().map(|s| s.as_str()).collect();
    let mut tops = tops;
    tops.sort();
    let mut want2 = want.clone();
    want2.sort();
    if tops != want2 {
        return fail(format!("Avro columns {:?} instead of {:?}", tops, want2));
    }
    let btops: Vec<String> = b.keys().filter_map(|k| below(k, at_b)).collect();
    let mut btops = btops;
    btops.sort();
    if btops != want2 {
        return fail(format!("BigQuery columns {:?} instead of {:?}", btops, want2));
    }
    let mut collided = false;
    for (n, ks) in &groups {
        collided |= ks.len() > 1;
        let only = |f: &Flat, p: &str| -> Flat {
            let inside = without(f, p);
            f.iter().filter(|(k, _)| !inside.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect()
        };
        let mut ok = (false, false);
        for k in ks {
            let single = wrap(json!({"type": "object", "properties": {k: props[k]}}));
            if let (Ok(a1), Ok(b1)) = (avro(&single, &c.opts), bq(&single, &c.opts)) {
                let pa = format!("{}.{}", at_a, n);
                let pb = format!("{}.{}", at_b, n);
                // presence in `required` decides about the column itself
                let agree = |x: Flat, mut y: Flat, p: &str| {
                    if let (Some(x), Some(y)) = (x.get(p), y.get_mut(p)) {
                        if x.mode != "REPEATED" && y.mode != "REPEATED" {
                            y.mode = x.mode.clone();
                            y.default = x.default.clone();
                        }
                    }
                    same(&x, &y, ALL).is_ok()
                };
                ok.0 |= agree(only(&a, &pa), only(&avro_flat(&a1), &pa), &pa);
                ok.1 |= agree(only(&b, &pb), only(&bq_flat(&b1), &pb), &pb);
            }
        }
        if ok != (true, true) {
            return fail(format!("column {} does not carry the schema of any of {:?}", n, ks));
        }
    }
    if collided {
        l.push("colliding names");
    }
    Ok(collided)
}

// ================================================================ C10

fn erase_avro(v: &Value) -> Value {
    match v {
        Value::Array(l) if l.len() == 2 && avro_nullable(&l[0]) => erase_avro(&l[1]),
        Value::Object(m) => {
            let mut o = JMap::new();
            let is_field = m.contains_key("name") && !m.contains_key("fields");
            for (k, x) in m {
                if is_field && k == "default" && x.is_null() {
                    continue;
                }
                let y = match k.as_str() {
                    "fields" => Value::Array(x.as_array().map(|l| l.iter().map(erase_avro).collect()).unwrap_or_default()),
                    "type" | "items" | "values" => erase_avro(x),
                    _ => x.clone(),
                };
                o.insert(k.clone(), y);
            }
            Value::Object(o)
        }
        v => v.clone(),
    }
}

fn erase_bq(v: &Value) -> Value {
    match v {
        Value::Array(l) => Value::Array(l.iter().map(erase_bq).collect()),
        Value::Object(m) => {
            let mut o = JMap::new();
            for (k, x) in m {
                let y = match k.as_str() {
                    "fields" => erase_bq(x),
                    "mode" if x == "REQUIRED" => json!("NULLABLE"),
                    _ => x.clone(),
                };
                o.insert(k.clone(), y);
            }
            Value::Object(o)
        }
        v => v.clone(),
    }
}

fn c10_opts(r: &mut Rng) -> MOpts {
    let o = wild_opts(r);
    MOpts { force: true, regex: o.regex.filter(|x| x != "("), ..o }
}

fn c10_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let on = MOpts { force: true, ..c.opts.clone() };
    let off = MOpts { force: false, ..c.opts.clone() };
    let mut nt = false;
    match (avro(&c.schema, &on), avro(&c.schema, &off)) {
        (Ok(a), Ok(b)) => {
            if erase_avro(&a) != erase_avro(&b) {
                return fail("force-nullable changes more than nullability (Avro)");
            }
            nt |= a != b;
            let f = avro_flat(&a);
            for (p, x) in &f {
                if x.mode == "NULLABLE" {
                    let in_wrapper = x.is_field && p.ends_with(".list") && x.ty == "array";
                    if x.is_field && x.default != Some(Value::Null) && !in_wrapper {
                        return fail(format!("{} has no null default although nullability is forced", p));
                    }
                    continue;
                }
                // the record around a nested list
                let kids: Vec<_> = f
                    .iter()
                    .filter(|(k, _)| k.starts_with(&format!("{}.", p)) && !k[p.len() + 1..].contains(['.', '[', '{']))
                    .collect();
                let wrapper = x.ty == "record"
                    && p.ends_with("[]")
                    && kids.len() == 1
                    && kids[0].0.ends_with(".list")
                    && kids[0].1.ty == "array";
                if !wrapper {
                    return fail(format!("{} does not admit null although nullability is forced", p));
                }
                l.push("nested list");
            }
        }
        (Err(_), Err(_)) => {}
        (a, b) => return fail(format!("only one conversion succeeds (Avro): {:?} {:?}", a.err(), b.err())),
    }
    match (bq(&c.schema, &on), bq(&c.schema, &off)) {
        (Ok(a), Ok(b)) => {
            if erase_bq(&a) != erase_bq(&b) {
                return fail("force-nullable changes more than modes (BigQuery)");
            }
            for (p, x) in bq_flat(&a) {
                if x.mode == "REQUIRED" {
                    return fail(format!("column {} is REQUIRED although nullability is forced", p));
                }
            }
            nt |= a != b;
        }
        (Err(_), Err(_)) => {}
        (a, b) => return fail(format!("only one conversion succeeds (BigQuery): {:?} {:?}", a.err(), b.err())),
    }
    // where exactly the nulls are
    if parsed(c).is_ok() {
        let x = Case { opts: on, ..c.clone() };
        if regex_root_unclear(&x) {
            return Ok(nt);
        }
        against_model(&x, Some(NULLS), Some(NULLS), l)?;
    }
    Ok(nt)
}

// ================================================================ C11

fn c11_prof() -> Prof {
    Prof { messy: 60, invalid: 8, ann: 10, open: 3, ..base() }
}

/// Renames the properties in a schema the way case normalisation would.
fn rename_schema(s: &Value) -> Value {
    let m = match s {
        Value::Object(m) => m,
        v => return v.clone(),
    };
    let mut o = JMap::new();
    for (k, v) in m {
        let y = match (k.as_str(), v) {
            ("properties", Value::Object(p)) => {
                let mut q = JMap::new();
                for (n, x) in p {
                    if let Some(n) = column_name(n, true) {
                        q.insert(n, rename_schema(x));
                    }
                }
                Value::Object(q)
            }
            ("required", Value::Array(l)) => {
                json!(l.iter().filter_map(|x| column_name(x.as_str().unwrap_or(""), true)).collect::<Vec<_>>())
            }
            ("patternProperties", Value::Object(p)) => {
                Value::Object(p.iter().map(|(n, x)| (n.clone(), rename_schema(x))).collect())
            }
            ("additionalProperties", x) | ("additionalItems", x) => rename_schema(x),
            ("items", Value::Array(l)) | ("oneOf", Value::Array(l)) => Value::Array(l.iter().map(rename_schema).collect()),
            ("items", x) => rename_schema(x),
            (_, x) => x.clone(),
        };
        o.insert(k.clone(), y);
    }
    Value::Object(o)
}

fn c11_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    match model::resolve(&c.schema, c.opts.tuple, true) {
        Err(model::Skip::Collision) => return Err(Stop::Skip("colliding names")),
        Err(model::Skip::Unused) => return Err(Stop::Skip("unsupported keyword in an ignored position")),
        Err(model::Skip::Reject(_)) => l.push("rejected"),
        Ok(n) => labels(&n, l),
    }
    let on = MOpts { norm: true, ..c.opts.clone() };
    let off = MOpts { norm: false, ..c.opts.clone() };
    let s2 = rename_schema(&c.schema);
    for (fmt, f) in [("Avro", avro as fn(&Value, &MOpts) -> Conv), ("BigQuery", bq)] {
        let a = f(&c.schema, &on);
        let b = f(&s2, &off);
        let d = f(&s2, &on);
        if a.is_ok() != b.is_ok() || (a.is_ok() && a.as_ref().ok() != b.as_ref().ok()) {
            return fail(format!(
                "{}: case normalisation is not the same as renaming the properties: {} / {}",
                fmt,
                show(&a),
                show(&b)
            ));
        }
        if b.is_ok() != d.is_ok() || (b.is_ok() && b.as_ref().ok() != d.as_ref().ok()) {
            return fail(format!("{}: normalising an already normalised schema changes it: {} / {}", fmt, show(&b), show(&d)));
        }
    }
    if let Ok(n) = parsed(&Case { opts: on.clone(), ..c.clone() }) {
        let _ = n;
        let x = Case { opts: MOpts { regex: None, ..on }, ..c.clone() };
        against_model(&x, Some(Mask { nulls: false, ..NODESC }), Some(Mask { nulls: false, ..NODESC }), l)?;
    }
    Ok(s2 != c.schema)
}

// ================================================================ C12

fn check_snake(s: &str) -> Result<(), Stop> {
    let want = crate::casing_model::snake(s);
    let got = match std::panic::catch_unwind(|| snake_real(s)) {
        Ok(g) => g,
        Err(_) => return fail(format!("snake-casing {:?} panics", s)),
    };
    if got != want {
        return fail(format!("{:?} becomes {:?} instead of {:?}", s, got, want));
    }
    let keep = |s: &str| s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect::<String>();
    if keep(&got) != keep(s) {
        return fail(format!("{:?} becomes {:?}: letters or digits changed", s, got));
    }
    if snake_real(&got) != got {
        return fail(format!("{:?} becomes {:?}, which becomes {:?}", s, got, snake_real(&got)));
    }
    Ok(())
}

/// case number -> string over an alphabet, by length
fn nth(alphabet: &str, mut i: u64) -> String {
    let a: Vec<char> = alphabet.chars().collect();
    let n = a.len() as u64;
    let mut s = String::new();
    loop {
        if i == 0 {
            return s;
        }
        i -= 1;
        s.push(a[(i % n) as usize]);
        i /= n;
    }
}

fn text_case(s: String) -> Case {
    Case { schema: json!(s), opts: cast(), aux: Value::Null }
}

fn c12_ex1(_: &Env, i: u64) -> Case {
    text_case(nth("aA7_", i))
}
fn c12_ex2(_: &Env, i: u64) -> Case {
    text_case(nth("aA7", i))
}
fn c12_ex3(_: &Env, i: u64) -> Case {
    let all: String = (1u8..128).map(|b| b as char).collect();
    text_case(nth(&all, i))
}
fn c12_ex4(_: &Env, i: u64) -> Case {
    text_case(nth("bBzZ09_-. ", i))
}

fn c12_rand(env: &Env, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let n = if r.pct(5) { r.range(60, 400) } else { r.range(1, 40) };
    let mut s = String::new();
    if r.pct(40) {
        // runs of one kind
        for _ in 0..r.range(1, 6) {
            let k = if r.pct(25) { r.range(5, 30) } else { r.range(1, 4) };
            let (kind, one) = (r.below(6), r.pct(30));
            let c = r.below(26) as u8;
            for i in 0..k {
                let c = if one { c } else { r.below(26) as u8 };
                s.push(match kind {
                    0 => b'a' + c,
                    1 => b'A' + c,
                    2 | 3 => (if i == 0 { b'A' } else { b'a' }) + c,
                    4 => b'0' + c % 10,
                    _ => *r.pick(b"__-. "),
                } as char);
            }
        }
        return text_case(s);
    }
    while s.len() < n {
        match r.below(12) {
            0..=3 => s.push((b'a' + r.below(26) as u8) as char),
            4..=7 => s.push((b'A' + r.below(26) as u8) as char),
            8..=9 => s.push((b'0' + r.below(10) as u8) as char),
            10 => {
                if r.pct(30) && !env.dict.words.is_empty() {
                    let w = r.pick(&env.dict.words).clone();
                    if w.is_ascii() {
                        s.push_str(&w)
                    }
                } else {
                    s.push_str(r.pick(&["HTTP", "ID", "Url", "v2", "x86", "iOS", "64bit", "JSON", "camel"]))
                }
            }
            _ => s.push(if r.pct(60) { *r.pick(&['_', '-', '.', ' ']) } else { (1 + r.below(127)) as u8 as char }),
        }
    }
    text_case(s)
}

fn c12_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let s = c.schema.as_str().unwrap_or("");
    if !s.is_ascii() {
        return Err(Stop::Skip("not ASCII"));
    }
    check_snake(s)?;
    let w = crate::casing_model::words(s).len();
    if w > 1 {
        l.push("several words");
    }
    Ok(w > 1)
}

// ================================================================ C13

fn c13_prof() -> Prof {
    Prof { one_of: 26, type_list: 14, object: 16, map: 8, array: 9, clash: 22, under: 2, tuple: 4, null: 2, messy: 12, budget: 30, ..base() }
}

/// Positions of variant lists: oneOf, or type lists.
fn variant_spots(s: &Value) -> Vec<Vec<String>> {
    gen::positions(s)
        .into_iter()
        .filter(|p| {
            let x = gen::at(s, p).unwrap();
            let typ = x.get("type");
            let one = x.get("oneOf").map_or(false, |o| o.as_array().map_or(false, |l| !l.is_empty()))
                && ["properties", "additionalProperties", "patternProperties"].iter().all(|k| x.get(*k).map_or(true, |v| v.is_boolean()))
                && typ.map_or(true, |t| t == "object");
            one || typ.map_or(false, |t| t.as_array().map_or(false, |l| !l.is_empty()))
        })
        .collect()
}

fn c13_laws_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, c13_prof(), opts);
    if variant_spots(&c.schema).is_empty() {
        let mut g = G::new(seed ^ 3, c13_prof(), &env.dict);
        let v = g.one_of(3);
        c.schema = json!({"type": "object", "properties": {"v": v, "other": {"type": "integer"}}});
    }
    c.aux = json!({"pick": seed >> 7 & 0xffff, "law": seed >> 3 & 0xff, "perm": seed & 0xffff});
    c
}

/// Every variant keeps its structure when joined with itself.
fn well_specified(v: &Value, c: &Case) -> bool {
    match model::resolve(v, c.opts.tuple, c.opts.norm) {
        Ok(n) => !model::any(&n, &|x| matches!(x.t, T::Json | T::Tup(_))),
        Err(_) => false,
    }
}

fn c13_laws(_: &Env, c: &Case, l: &mut Labels) -> Out {
    parsed(c)?;
    let spots = variant_spots(&c.schema);
    if spots.is_empty() {
        return Err(Stop::Skip("no variants"));
    }
    let spot = &spots[c.aux["pick"].as_u64().unwrap_or(0) as usize % spots.len()];
    let mut r = Rng::new(c.aux["perm"].as_u64().unwrap_or(0));
    let law = c.aux["law"].as_u64().unwrap_or(0) % 7;
    let mut s2 = c.schema.clone();
    let x = gen::at_mut(&mut s2, spot).unwrap();
    let is_one = !x.get("type").map_or(false, |t| t.is_array());
    let key = if is_one { "oneOf" } else { "type" };
    let items = x[key].as_array().unwrap().clone();
    let null = if is_one { json!({"type": "null"}) } else { json!("null") };
    let is_null = |v: &Value| *v == "null" || v.get("type").map_or(false, |t| t == "null");
    let mut only_nullable = false;
    let new = match law {
        0 => {
            l.push("law: order");
            let mut y = items.clone();
            r.shuffle(&mut y);
            y
        }
        1 => {
            // repetition of a well-specified variant
            let k = r.below(items.len());
            let as_schema = if is_one {
                items[k].clone()
            } else {
                let mut z = x.clone();
                z["type"] = items[k].clone();
                z
            };
            if !well_specified(&as_schema, c) {
                return Err(Stop::Skip("variant not well specified"));
            }
            if !is_one && items.len() == 1 && !well_specified(x, c) {
                return Err(Stop::Skip("variant not well specified"));
            }
            l.push("law: repetition");
            let mut y = items.clone();
            let at = r.below(y.len() + 1);
            y.insert(at, items[k].clone());
            y
        }
        2 if is_one => {
            l.push("law: nesting");
            let k = r.range(0, items.len());
            let (a, b) = items.split_at(k);
            if b.is_empty() {
                vec![json!({ "oneOf": a })]
            } else {
                let mut y = a.to_vec();
                y.push(json!({ "oneOf": b }));
                y
            }
        }
        3 if is_one && items.len() == 1 => {
            // a single variant stands for itself
            l.push("law: single variant");
            let v = items[0].clone();
            *x = v;
            return compare_merged(c, &s2, false, l);
        }
        4 if is_one && items.iter().any(is_null) && items.len() > 1 => {
            l.push("law: null twice");
            let mut y = items.clone();
            let at = r.below(y.len() + 1);
            y.insert(at, null);
            y
        }
        5 if !is_one => {
            // a type list is the same as the variants written out
            let o = x.clone();
            if o.get("oneOf").is_some() || o.get("format").is_some() {
                return Err(Stop::Skip("mixed keywords"));
            }
            l.push("law: type list as oneOf");
            let vs: Vec<Value> = items
                .iter()
                .map(|t| {
                    let mut z = o.clone();
                    z["type"] = t.clone();
                    z
                })
                .collect();
            *x = json!({ "oneOf": vs });
            return compare_merged(c, &s2, false, l);
        }
        _ => {
            l.push("law: null only makes nullable");
            only_nullable = true;
            let mut y = items.clone();
            let at = r.below(y.len() + 1);
            y.insert(at, null);
            y
        }
    };
    if new.is_empty() {
        return Err(Stop::Skip("nothing left"));
    }
    x[key] = json!(new);
    if only_nullable && items.iter().all(is_null) {
        return Err(Stop::Skip("only null variants"));
    }
    compare_merged(c, &s2, only_nullable, l)
}

fn compare_merged(c: &Case, s2: &Value, only_nullable: bool, _l: &mut Labels) -> Out {
    let c2 = Case { schema: s2.clone(), ..c.clone() };
    parsed(&c2)?;
    let mut nt = false;
    for (fmt, f) in [("Avro", avro as fn(&Value, &MOpts) -> Conv), ("BigQuery", bq)] {
        match (f(&c.schema, &c.opts), f(s2, &c.opts)) {
            (Ok(a), Ok(b)) => {
                let (mut a, mut b) = (no_desc(&a), no_desc(&b));
                nt |= a.to_string().len() > 150;
                if only_nullable {
                    if fmt == "Avro" {
                        a = erase_avro(&a);
                        b = erase_avro(&b);
                    } else {
                        a = erase_bq(&a);
                        b = erase_bq(&b);
                    }
                }
                if a != b {
                    return fail(format!("{}: equivalent variants give different results: {} / {} from {}", fmt, a, b, s2));
                }
            }
            (Err(_), Err(_)) => {}
            (a, b) => {
                return fail(format!("{}: equivalent variants, but one is rejected: {} / {} from {}", fmt, show(&a), show(&b), s2))
            }
        }
    }
    Ok(nt)
}

fn c13_model(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let w = against_model(c, Some(NODESC), Some(NODESC), l)?;
    Ok(has_variants(&c.schema) && model::count(&w.n) > 2)
}

// ================================================================ C14

fn c14_prof() -> Prof {
    Prof { map: 26, extra: 40, under: 6, clash: 25, ..base() }
}

fn c14_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let w = against_model(c, Some(NODESC), Some(NODESC), l)?;
    let on = MOpts { mapsw: true, ..c.opts.clone() };
    let off = MOpts { mapsw: false, ..c.opts.clone() };
    if show(&avro(&c.schema, &on)) != show(&avro(&c.schema, &off)) {
        return fail("the maps-without-value option changes Avro output");
    }
    let (a, b) = (show(&bq(&c.schema, &on)), show(&bq(&c.schema, &off)));
    if a != b {
        if c.opts.res != Res::Drop {
            return fail("the maps-without-value option matters although nothing is dropped");
        }
        l.push("map without value");
    }
    Ok(model::any(&w.n, &|x| matches!(x.t, T::Map(_))))
}

// ================================================================ C15

fn c15_gen(env: &Env, seed: u64) -> Case {
    let p = Prof { array: 30, map: 10, tuple: 6, object: 10, one_of: 5, budget: 16, depth: 7, root_object: 40, null: 2, ..base() };
    let mut c = mk(env, seed, p.clone(), opts);
    let mut r = Rng::new(seed ^ 99);
    if r.pct(50) {
        let mut g = G::new(seed ^ 4, Prof { depth: 2, budget: 4, ..p }, &env.dict);
        let mut v = g.node(1);
        for _ in 0..r.range(1, 11) {
            v = if r.pct(65) { json!({"type": "array", "items": v}) } else { g.wrap(v) };
        }
        c.schema = v;
    }
    c
}

fn c15_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let w = against_model(c, Some(STRUCT_NULLS), Some(STRUCT_NULLS), l)?;
    // wrapping once more adds exactly one level and changes nothing inside
    let s2 = json!({"type": "array", "items": c.schema});
    let is_arr = matches!(w.n.t, T::Arr(_));
    let is_map = matches!(w.n.t, T::Map(_));
    match (avro(&c.schema, &c.opts), avro(&s2, &c.opts)) {
        (Ok(a), Ok(b)) => {
            let b = out_type(&b);
            let item = &b["items"];
            let inner = if is_arr {
                let f = &item["fields"];
                if item["type"] != "record" || f.as_array().map_or(0, Vec::len) != 1 || f[0]["name"] != "list" {
                    return fail("a nested Avro array is not wrapped in a record with the field list");
                }
                &f[0]["type"]
            } else {
                item
            };
            if b["type"] != "array" || no_names(inner) != no_names(&a) {
                return fail(format!("an array of the schema does not carry its Avro type: {} / {}", a, b));
            }
        }
        (Err(_), Err(_)) => {}
        (a, b) => return fail(format!("wrapping in an array changes the outcome: {} / {}", show(&a), show(&b))),
    }
    if !is_map && !model::has_array_of_map(&w.n) {
        match (bq(&c.schema, &c.opts), bq(&s2, &c.opts)) {
            (Ok(a), Ok(b)) => {
                let col = &b[0];
                if col["mode"] != "REPEATED" || col["name"] != "root" || b.as_array().map_or(0, Vec::len) != 1 {
                    return fail(format!("an array root is not one REPEATED column: {}", b));
                }
                let ok = match &w.n.t {
                    T::Arr(_) => {
                        let mut x = a[0].clone();
                        x["name"] = json!("list");
                        no_desc(&col["fields"]) == no_desc(&json!([x]))
                    }
                    T::Obj { .. } | T::Tup(_) if col["type"] == "RECORD" => no_desc(&col["fields"]) == no_desc(&a),
                    _ => col["type"] == a[0]["type"] && col["fields"] == a[0]["fields"],
                };
                if !ok {
                    return fail(format!("an array of the schema does not carry its columns: {} / {}", a, b));
                }
            }
            (Err(_), Err(_)) => {}
            (a, b) => return fail(format!("wrapping in an array changes the outcome: {} / {}", show(&a), show(&b))),
        }
    }
    Ok(model::any(&w.n, &|x| matches!(&x.t, T::Arr(i) if matches!(i.t, T::Arr(_)))))
}

const STRUCT_NULLS: Mask = Mask { paths: true, types: true, nulls: true, rep: true, desc: false, full: false };

fn out_type(v: &Value) -> Value {
    match v {
        Value::Array(l) if l.len() == 2 => l[1].clone(),
        v => v.clone(),
    }
}

/// Avro types without record names and namespaces.
fn no_names(v: &Value) -> Value {
    match v {
        Value::Array(l) => Value::Array(l.iter().map(no_names).collect()),
        Value::Object(m) => {
            let rec = m.contains_key("fields");
            Value::Object(
                m.iter()
                    .filter(|(k, _)| !(rec && (k.as_str() == "name" || k.as_str() == "namespace")))
                    .map(|(k, v)| (k.clone(), no_names(v)))
                    .collect(),
            )
        }
        v => v.clone(),
    }
}

// ================================================================ C16

fn c16_gen(env: &Env, seed: u64) -> Case {
    let mut p = Prof { tuple: 32, null: 3, open: 0, under: 4, budget: 20, root_object: 60, ..base() };
    if seed % 4 == 0 {
        p.open = 35;
    }
    mk(env, seed, p, opts)
}

fn has_item_list(s: &Value) -> bool {
    gen::positions(s).iter().any(|p| gen::at(s, p).unwrap().get("items").map_or(false, |i| i.is_array()))
}

fn c16_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let on = Case { opts: MOpts { tuple: true, ..c.opts.clone() }, ..c.clone() };
    let off = Case { opts: MOpts { tuple: false, ..c.opts.clone() }, ..c.clone() };
    let lists = has_item_list(&c.schema);
    if !lists {
        l.push("no tuple");
        for f in [avro, bq] {
            let (a, b) = (show(&f(&c.schema, &on.opts)), show(&f(&c.schema, &off.opts)));
            if a != b {
                return fail("the tuple option matters although there is no tuple");
            }
        }
    }
    match model::resolve(&c.schema, true, c.opts.norm) {
        Err(model::Skip::Reject(m)) => {
            l.push("open tuple");
            for f in [avro, bq] {
                if let Ok(v) = f(&c.schema, &on.opts) {
                    return fail(format!("must be rejected ({}), but gives {}", m, v));
                }
            }
        }
        Err(model::Skip::Collision) => return Err(Stop::Skip("colliding names")),
        Err(model::Skip::Unused) => return Err(Stop::Skip("unsupported keyword in an ignored position")),
        Ok(_) => {
            against_model(&on, Some(NODESC), Some(NODESC), l)?;
        }
    }
    against_model(&off, Some(NODESC), Some(NODESC), &mut vec![])?;
    Ok(lists)
}

// ================================================================ C17

/// dotted column paths of all nodes, and of those without structure
fn paths(n: &N, at: &str, out: &mut Vec<(String, bool)>) {
    let sub = |k: &str| if at.is_empty() { k.to_string() } else { format!("{}.{}", at, k) };
    out.push((at.to_string(), matches!(n.t, T::Json)));
    match &n.t {
        T::Obj { props, .. } => props.iter().for_each(|(k, v)| paths(v, &sub(k), out)),
        T::Map(v) => paths(v, &sub("value"), out),
        T::Arr(v) => paths(v, &sub("list"), out),
        T::Tup(v) => v.iter().enumerate().for_each(|(i, v)| paths(v, &sub(&format!("f{}_", i)), out)),
        _ => {}
    }
}

fn make_regex(r: &mut Rng, ps: &[(String, bool)]) -> String {
    let json_paths: Vec<&String> = ps.iter().filter(|p| p.1 && !p.0.is_empty()).map(|p| &p.0).collect();
    let any: Vec<&String> = ps.iter().filter(|p| !p.0.is_empty()).map(|p| &p.0).collect();
    let pick = |r: &mut Rng| -> String {
        if !json_paths.is_empty() && r.pct(75) {
            r.pick(&json_paths).to_string()
        } else if !any.is_empty() {
            r.pick(&any).to_string()
        } else {
            "a".into()
        }
    };
    let p = pick(r);
    let segs: Vec<&str> = p.split('.').collect();
    match r.below(18) {
        0 => regex::escape(&p),
        // other letters
        16 => regex::escape(&if r.pct(50) { p.to_uppercase() } else { p.to_lowercase() }),
        17 => {
            let flip = |c: char| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
            let at = r.below(p.chars().count().max(1));
            regex::escape(&p.chars().enumerate().map(|(i, c)| if i == at || segs.len() == 1 { flip(c) } else { c }).collect::<String>())
        }
        1 => format!("^{}$", regex::escape(&p)),
        2 => format!("{}$", p),
        3 => format!("{}\\..*", regex::escape(segs[0])),
        4 => ".*".into(),
        5 => format!("{}|{}", regex::escape(&p), regex::escape(&pick(r))),
        6 => format!("zzz|{}", segs[segs.len() - 1]),
        7 => format!("({}|nothing)$", segs[segs.len() - 1]),
        8 => format!("(?i){}", p.to_uppercase()),
        9 => format!(".*\\.{}", segs[segs.len() - 1]),
        10 => p.chars().take(1 + p.len() / 2).filter(|c| c.is_ascii_alphanumeric()).collect(),
        11 => "[a-f]\\w*".into(),
        12 => format!("{}\\b", p),
        13 => segs[segs.len() - 1].to_string(),
        14 => format!("root\\.{}", p),
        _ => r.pick(&["nothing", "^$", "\\w+\\.\\w+", "(a|b)(\\..*)?$", "list", "value", ".*value.*", ""]).to_string(),
    }
}

fn c17_gen(env: &Env, seed: u64) -> Case {
    let p = Prof { under: 16, one_of: 8, type_list: 8, clash: 50, null: 2, ann: 5, messy: 20, ..base() };
    let mut c = mk(env, seed, p, opts);
    let mut r = Rng::new(seed ^ 0x17);
    let mut ps = vec![];
    if let Ok(n) = model::resolve(&c.schema, c.opts.tuple, c.opts.norm) {
        paths(&n, "", &mut ps);
    }
    let re = make_regex(&mut r, &ps);
    let re = if regex::Regex::new(&re).is_ok() { re } else { "a".to_string() };
    match r.below(6) {
        0 => {
            c.schema["mozPipelineMetadata"] = json!({ "json_object_path_regex": re });
        }
        1 => {
            c.schema["mozPipelineMetadata"] = json!({ "json_object_path_regex": re, "bq_table": "x" });
            c.opts.regex = Some(r.pick(&["a", ".*", "nothing"]).to_string());
        }
        2 => {
            c.schema["mozPipelineMetadata"] = json!({ "bq_dataset_family": "x" });
            c.opts.regex = Some(re);
        }
        // no pattern in it: the option stays in force
        3 => {
            c.schema["mozPipelineMetadata"] = json!({ "json_object_path_regex": *r.pick(&[json!(null), json!(1), json!(["a"]), json!({"a": "a"}), json!(true)]) });
            c.opts.regex = Some(re);
        }
        _ => c.opts.regex = Some(re),
    }
    // the metadata of a sub-schema is a keyword like any other
    if r.pct(20) {
        let ps: Vec<_> = gen::positions(&c.schema).into_iter().filter(|p| !p.is_empty()).collect();
        if !ps.is_empty() {
            let p = r.pick(&ps).clone();
            if let Some(Value::Object(m)) = gen::at_mut(&mut c.schema, &p) {
                let other = *r.pick(&[".*", "a", "nothing", "value", "("]);
                m.insert("mozPipelineMetadata".into(), json!({ "json_object_path_regex": other }));
            }
        }
    }
    c
}

/// the path of the root itself is not specified
fn regex_root_unclear(c: &Case) -> bool {
    let o = effective(c);
    let n = match parsed(c) {
        Ok(n) => n,
        Err(_) => return true,
    };
    match (&n.t, &o.regex) {
        (T::Json, Some(re)) => {
            let e = model::E::new(&o);
            let _ = re;
            let a = e.json_path("");
            a != e.json_path("root") || a != e.json_path("__unknown__")
        }
        _ => false,
    }
}

fn c17_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let eff = effective(c);
    let meta = c.schema.get("mozPipelineMetadata");
    if let Some(m) = meta {
        if !m.is_object() {
            return Err(Stop::Skip("metadata is not an object"));
        }
    }
    for re in [&eff.regex, &c.opts.regex].into_iter().flatten() {
        if regex::Regex::new(re).is_err() || re.contains("(?x") {
            return Err(Stop::Skip("not a regular expression"));
        }
    }
    if regex_root_unclear(c) {
        parsed(c)?;
        return Err(Stop::Skip("pattern on the root itself"));
    }
    if meta.is_some() {
        l.push("pattern in metadata");
    }
    let w = against_model(c, Some(NODESC), Some(NODESC), l)?;
    // without the pattern
    let mut s0 = c.schema.clone();
    if let Some(m) = s0.as_object_mut() {
        m.remove("mozPipelineMetadata");
    }
    let o0 = MOpts { regex: None, ..c.opts.clone() };
    let (a, a0) = (show(&avro(&c.schema, &c.opts)), show(&avro(&s0, &o0)));
    if a != a0 {
        return fail("the pattern changes Avro output");
    }
    if let Ok(b) = bq(&s0, &o0) {
        if bq_flat(&b).values().any(|c| c.ty == "JSON") {
            return fail("a JSON column without a pattern");
        }
    }
    let mut hit = false;
    if let (Ok(b), Ok(b0)) = (bq(&c.schema, &MOpts { res: Res::Cast, ..c.opts.clone() }), bq(&s0, &MOpts { res: Res::Cast, ..o0 })) {
        let mut f = bq_flat(&b);
        for x in f.values_mut() {
            if x.ty == "JSON" {
                x.ty = "STRING".into();
                hit = true;
            }
        }
        err(same(&f, &bq_flat(&b0), ALL), "the pattern changes more than JSON columns")?;
    }
    if hit {
        l.push("JSON column");
    }
    let _ = w;
    Ok(hit)
}

// ================================================================ C18

fn c18_prof() -> Prof {
    Prof { ann: 55, junk: 40, open: 3, ..base() }
}

/// Removes what is not interpreted, at every schema position.
fn strip_notes(s: &Value) -> Value {
    let m = match s {
        Value::Object(m) => m,
        v => return v.clone(),
    };
    let mut o = JMap::new();
    for (k, v) in m {
        let y = match (k.as_str(), v) {
            ("title", _) | ("description", _) | ("allOf", _) => continue,
            ("format", f) => {
                let keep = m.get("type") == Some(&json!("string")) && (f == "date-time" || f == "bytes");
                if !keep {
                    continue;
                }
                f.clone()
            }
            ("properties", Value::Object(p)) | ("patternProperties", Value::Object(p)) => {
                Value::Object(p.iter().map(|(n, x)| (n.clone(), strip_notes(x))).collect())
            }
            ("additionalProperties", x) | ("additionalItems", x) => strip_notes(x),
            ("items", Value::Array(l)) | ("oneOf", Value::Array(l)) => Value::Array(l.iter().map(strip_notes).collect()),
            ("items", x) => strip_notes(x),
            (k, x) if gen::KNOWN.contains(&k) => x.clone(),
            _ => continue,
        };
        o.insert(k.clone(), y);
    }
    Value::Object(o)
}

fn c18_strip(_: &Env, c: &Case, l: &mut Labels) -> Out {
    for p in gen::positions(&c.schema) {
        let x = gen::at(&c.schema, &p).unwrap();
        if ["title", "description", "format"].iter().any(|k| x.get(*k).map_or(false, |v| !v.is_string()))
            || x.get("allOf").map_or(false, |v| !v.as_array().map_or(false, |l| l.iter().all(|x| x.is_object())))
        {
            return Err(Stop::Skip("annotation of the wrong kind"));
        }
    }
    let s2 = strip_notes(&c.schema);
    let mut nt = false;
    let (a, a2) = (show(&avro(&c.schema, &c.opts)), show(&avro(&s2, &c.opts)));
    if a != a2 {
        return fail(format!("annotations change Avro output: {} / {}", a, a2));
    }
    match (bq(&c.schema, &c.opts), bq(&s2, &c.opts)) {
        (Ok(b), Ok(b2)) => {
            if no_desc(&b) != no_desc(&b2) {
                return fail(format!("annotations change more than descriptions: {} / {}", b, b2));
            }
            if bq_flat(&b2).values().any(|c| c.desc.is_some()) {
                return fail("a column without annotation has a description");
            }
            nt |= bq_flat(&b).values().any(|c| c.desc.is_some());
        }
        (Err(_), Err(_)) => l.push("rejected"),
        (x, y) => return fail(format!("annotations change whether conversion succeeds: {} / {}", show(&x), show(&y))),
    }
    Ok(nt)
}

fn c18_desc(_: &Env, c: &Case, l: &mut Labels) -> Out {
    against_model(c, None, Some(DESC), l)?;
    if let Ok(b) = bq(&c.schema, &c.opts) {
        let mut nt = false;
        let f = bq_flat(&b);
        for (p, x) in &f {
            nt |= x.desc.is_some();
            if x.desc.as_ref().map_or(false, |d| d.chars().count() == 1024) {
                l.push("truncated description");
            }
            // the key of a map
            if let Some(m) = p.strip_suffix(".key") {
                if f.get(m).map_or(false, |r| r.mode == "REPEATED" && r.ty == "RECORD") && x.desc.is_some() && x.mode == "REQUIRED" {
                    l.push("column named key");
                }
            }
        }
        return Ok(nt);
    }
    Ok(false)
}

// ================================================================ C19

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
}

fn run_cli(env: &Env, at: &std::path::Path, args: &[String], stdin: &[u8], log: bool, pieces: usize) -> Result<Ran, Stop> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut cmd = Command::new(&env.cli);
    cmd.args(args)
        .env_remove("RUST_BACKTRACE")
        .env_remove("RUST_LOG")
        .current_dir(at)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    if log {
        cmd.env("RUST_LOG", "trace");
    }
    let mut ch = cmd.spawn().map_err(|_| Stop::Skip("spawn failed"))?;
    let mut pipe = ch.stdin.take().unwrap();
    let data = stdin.to_vec();
    let t = std::thread::spawn(move || {
        // in one piece, or in several with a pause in between
        for part in data.chunks((data.len() / pieces.max(1)).max(1)) {
            if pipe.write_all(part).and_then(|_| pipe.flush()).is_err() {
                break;
            }
            if pieces > 1 {
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
        }
    });
    let o = ch.wait_with_output().map_err(|_| Stop::Skip("spawn failed"))?;
    let _ = t.join();
    Ok(Ran { code: o.status.code(), out: o.stdout })
}

fn c19_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, Prof { budget: 14, open: 6, ann: 10, under: 8, ..base() }, opts);
    let mut r = Rng::new(seed ^ 0x19);
    if r.pct(10) {
        c.schema["mozPipelineMetadata"] = json!({"json_object_path_regex": ".*"});
    }
    if r.pct(10) {
        c.opts = cast();
    }
    let mut aux = json!({"style": r.next() >> 16, "input": *r.pick(&["file", "stdin", "dash"]), "format": *r.pick(&["avro", "bigquery"]), "log": r.pct(10)});
    if r.pct(12) {
        let text = serde_json::to_string_pretty(&c.schema).unwrap();
        let cut = r.below(text.len());
        let cut = (0..=cut).rev().find(|i| text.is_char_boundary(*i)).unwrap_or(0);
        let bad = match r.below(9) {
            0 => text[..cut].to_string(),
            1 => format!("{} trailing", text),
            2 => String::new(),
            3 => text.replace(':', ""),
            4 => format!("{}{}", &text[..cut], r.pick(&["\u{0}", "}", "\"", "[", ",", "\\"])) + &text[cut..],
            5 => "  \n ".into(),
            6 => "[1, 2".into(),
            7 => format!("{}\n{}", text, text),
            _ => format!("\u{feff}{}", text),
        };
        aux["text"] = json!(bad);
    } else if r.pct(4) {
        aux["input"] = json!(*r.pick(&["missing", "directory", "binary"]));
    } else if r.pct(30) {
        aux["text"] = json!(format!("\n\t {}\n\n", serde_json::to_string_pretty(&c.schema).unwrap()));
    }
    if r.pct(8) {
        aux["input"] = json!("device");
    } else if aux["input"] == "file" && r.pct(25) {
        // a schema on standard input that nobody asked for
        aux["noise"] = json!(*r.pick(&["{\"type\": \"boolean\"}", "no JSON", "{}\n"]));
    }
    if aux["text"].is_null() || r.pct(50) {
        match r.below(12) {
            0 => aux["style2"] = json!("escaped"),
            1 => aux["style2"] = json!("crlf"),
            2 => {
                aux["style2"] = json!("padded");
                aux["pad"] = json!(*r.pick(&[4095, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 70000, 200000, 1100000]));
                if r.pct(50) && c.schema["properties"].is_object() {
                    // characters of several bytes across any boundary of a buffer
                    let wide = *r.pick(&["\u{e4}", "\u{20ac}", "\u{1f600}"]);
                    let n = *r.pick(&[700usize, 3000, 9000, 40000]);
                    c.schema["properties"]["wide"] = json!({"type": "string", "description": format!("{}{}", "x".repeat(r.below(4)), wide.repeat(n))});
                    aux["format"] = json!("bigquery");
                }
            }
            3 => aux["style2"] = json!("repeated member"),
            4 => aux["style2"] = json!("odd numbers"),
            _ => {}
        }
    }
    if r.pct(12) {
        aux["pieces"] = json!(r.range(2, 6));
    }
    if r.pct(30) {
        aux["name"] = match r.below(3) {
            0 => json!((0..r.range(1, 9)).map(|_| crate::gen::any_char(&mut r)).filter(|c| *c != '/' && *c != '\0').collect::<String>()),
            1 if r.pct(30) => json!(crate::dict::word(&mut r).unwrap_or_default().replace(['/', '\0'], "")),
            _ => json!(*r.pick(FILES)),
        };
    }
    if r.pct(15) {
        aux["sep"] = json!(true);
    }
    if r.pct(3) {
        aux["bytes"] = json!(r.below(100));
    }
    if r.pct(6) {
        aux["wrong"] = json!(r.pick(NO_ARGS));
    }
    c.aux = aux;
    c
}

/// names of input files, absolute with a slash
const FILES: &[&str] = &["a", "ä ö.json", "schema.1.schema.json", "avro", "--", "-t", "-x.json", "a=b", "'q' \"q\"", "/with space.json", "*.json", "$HOME", "x.txt", "./x.json", "snow\u{2603}", "a ", " a", "/a ", "\ta\n", "~", "%41", "a\\b", ".json", "X.JSON", "x.json.gz", "x.yaml", "x.jsonl", "@a", "a#b", "a?b", "stdin", "null", "e\u{301}", "file:a"];

/// arguments that no command line may have
const NO_ARGS: &[&[&str]] = &[
    &["--jsonschema"],
    &["-x"],
    &["--type", "json"],
    &["--type=Avro"],
    &["-tBIGQUERY"],
    &["-t", ""],
    &["--type", "avro,bigquery"],
    &["--resolve", "Cast"],
    &["-r", "DROP"],
    &["--resolve=ignore"],
    &["-rp"],
    &["--tuple-struct=true"],
    &["--normalize-case=false"],
    &["--force-nullable=1"],
    &["one.json", "two.json"],
    &["-", "-"],
    &["--output", "x.json"],
];

/// The same schema in another JSON text.
fn restyled(text: &str, aux: &Value) -> String {
    let object = text.trim_start().starts_with('{') && text.trim_end().ends_with('}') && text.trim() != "{}";
    match aux["style2"].as_str() {
        Some("escaped") => text
            .chars()
            .map(|c| {
                let mut b = [0u16; 2];
                if c.is_alphanumeric() && !c.is_ascii_digit() && (!c.is_ascii() || c == 'e' || c == 'a') {
                    c.encode_utf16(&mut b).iter().map(|u| format!("\\u{:04x}", u)).collect::<String>()
                } else {
                    c.to_string()
                }
            })
            .collect::<String>()
            .replace("tru\\u0065", "true")
            .replace("f\\u0061ls\\u0065", "false"),
        Some("crlf") => text.replace('\n', "\r\n"),
        Some("padded") => {
            let n = aux["pad"].as_u64().unwrap_or(0) as usize;
            match aux["style"].as_u64().unwrap_or(0) % 3 {
                0 => " ".repeat(n) + text,
                1 => text.to_string() + &"\n".repeat(n),
                _ if object => format!("{{\"x-pad\": \"{}\", {}", "p".repeat(n), &text.trim_start()[1..]),
                _ => text.to_string(),
            }
        }
        Some("repeated member") if object => format!("{{\"x-twice\": 1, \"type\": \"integer\", \"title\": \"first\", \"x-twice\": [2], {}", &text.trim_start()[1..]),
        Some("odd numbers") if object => format!(
            "{{\"x-n\": [0, -0, 1E3, 1e-7, 18446744073709551615, 18446744073709551616, -9223372036854775809, 1.7976931348623157e308, {}.5], {}",
            "9".repeat(40),
            &text.trim_start()[1..]
        ),
        _ => text.to_string(),
    }
}

fn c19_args(c: &Case) -> Vec<String> {
    let mut r = Rng::new(c.aux["style"].as_u64().unwrap_or(0));
    let mut groups: Vec<Vec<String>> = vec![];
    let s = |x: &str| x.to_string();
    let fmt = c.aux["format"].as_str().unwrap_or("avro");
    let mut valued = |r: &mut Rng, long: &str, short: &str, v: &str, default: &str| {
        if v == default && r.pct(60) {
            return;
        }
        groups.push(match r.below(5) {
            0 => vec![s(long), s(v)],
            1 => vec![format!("{}={}", long, v)],
            2 => vec![s(short), s(v)],
            3 => vec![format!("{}{}", short, v)],
            _ => vec![format!("{}={}", short, v)],
        });
    };
    valued(&mut r, "--type", "-t", fmt, "avro");
    let res = match c.opts.res {
        Res::Cast => "cast",
        Res::Drop => "drop",
        Res::Panic => "panic",
    };
    valued(&mut r, "--resolve", "-r", res, "cast");
    let mut shorts = String::new();
    for (on, long, short) in [
        (c.opts.norm, "--normalize-case", "c"),
        (c.opts.force, "--force-nullable", "n"),
        (c.opts.mapsw, "--allow-maps-without-value", "w"),
    ] {
        if on {
            match r.below(3) {
                0 => groups.push(vec![s(long)]),
                1 => groups.push(vec![format!("-{}", short)]),
                _ => shorts.push_str(short),
            }
        }
    }
    if !shorts.is_empty() {
        groups.push(vec![format!("-{}", shorts)]);
    }
    if c.opts.tuple {
        groups.push(vec![s("--tuple-struct")]);
    }
    if let Some(w) = c.aux["wrong"].as_array() {
        // an option may be given only once, so its right value is left out
        let option = |g: &str| ["-t", "-r"].iter().find(|o| g.starts_with(**o) || (**o == "-t" && g.starts_with("--ty")) || (**o == "-r" && g.starts_with("--r"))).copied();
        let w: Vec<String> = w.iter().filter_map(Value::as_str).map(s).collect();
        groups.retain(|g| option(&g[0]).is_none() || option(&g[0]) != w.first().and_then(|x| option(x)));
        groups.push(w);
    }
    let sep = c.aux["sep"] == true || c.aux["name"].as_str().map_or(false, |n| n.starts_with('-'));
    let file = match c.aux["input"].as_str() {
        Some("dash") => Some(s("-")),
        Some("stdin") | None => None,
        Some(_) => Some(s("@file")),
    };
    if let (Some(f), false) = (&file, sep) {
        groups.push(vec![f.clone()]);
    }
    r.shuffle(&mut groups);
    if sep {
        groups.push(vec![s("--")]);
        groups.extend(file.map(|f| vec![f]));
    }
    groups.into_iter().flatten().collect()
}

/// The place of a quotation mark.
fn quote(data: &[u8], k: u64) -> Option<usize> {
    let all: Vec<usize> = data.iter().enumerate().filter(|(_, b)| **b == b'"').map(|(i, _)| i).collect();
    all.get(k as usize % all.len().max(1)).copied()
}

fn c19_check(env: &Env, c: &Case, l: &mut Labels) -> Out {
    if c.opts.regex.is_some() {
        return Err(Stop::Skip("no such option"));
    }
    if !["avro", "bigquery"].iter().any(|f| c.aux["format"] == *f)
        || !["file", "stdin", "dash", "missing", "directory", "binary", "device"].iter().any(|f| c.aux["input"] == *f)
    {
        return Err(Stop::Skip("no case"));
    }
    let mut data = match c.aux["text"].as_str() {
        Some(t) => restyled(t, &c.aux).into_bytes(),
        None => restyled(&c.schema.to_string(), &c.aux).into_bytes(),
    };
    let input = c.aux["input"].as_str().unwrap_or("stdin");
    if input == "device" && std::fs::symlink_metadata("/dev/stdin").is_err() {
        return Err(Stop::Skip("no /dev/stdin here"));
    }
    if input == "binary" {
        data = vec![0xff, 0xfe, b'{', b'}', 0x80];
    }
    if let (Some(k), Some(i)) = (c.aux["bytes"].as_u64(), quote(&data, c.aux["bytes"].as_u64().unwrap_or(0) / 5)) {
        // text that is not UTF-8 inside of a string
        let bytes: &[u8] = [&[0xff][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf5, 0x80, 0x80, 0x80]][k as usize % 5];
        data.splice(i + 1..i + 1, bytes.iter().copied());
        l.push("text that is not UTF-8");
    }
    let mut args = c19_args(c);
    let tid = format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_ascii_digit(), "");
    // every thread has a directory of its own, in which the tool runs
    let here = env.scratch.join(format!("in {}", tid));
    std::fs::create_dir_all(&here).map_err(|_| Stop::Skip("scratch"))?;
    let name = match c.aux["name"].as_str().unwrap_or("/in.json") {
        "" | "/" | "." | ".." | "-" => return Err(Stop::Skip("no file name")),
        n if n.matches('/').count() > 1 || n.contains('\0') => return Err(Stop::Skip("no file name")),
        n => n,
    };
    let path = here.join(name.trim_start_matches('/'));
    let given = if name.starts_with('/') { path.to_string_lossy().to_string() } else { name.to_string() };
    let mut stdin = vec![];
    let mut unreadable = false;
    match input {
        "file" | "binary" => std::fs::write(&path, &data).map_err(|_| Stop::Skip("scratch"))?,
        "missing" => unreadable = true,
        "directory" => unreadable = true,
        _ => stdin = data.clone(),
    }
    if let (Some(n), "file") = (c.aux["noise"].as_str(), input) {
        stdin = n.as_bytes().to_vec();
        l.push("something on standard input beside a file");
    }
    for a in args.iter_mut() {
        if a == "@file" {
            *a = match input {
                "missing" => env.scratch.join("does not exist.json").to_string_lossy().into(),
                "directory" => env.scratch.to_string_lossy().into(),
                // a file that is a pipe
                "device" => "/dev/stdin".into(),
                _ => given.clone(),
            };
        }
    }
    let ran = run_cli(env, &here, &args, &stdin, c.aux["log"] == true, c.aux["pieces"].as_u64().unwrap_or(1) as usize)?;
    let _ = std::fs::remove_file(&path);
    let wrong = c.aux["wrong"].as_array().map_or(false, |w| !w.is_empty());
    if wrong {
        if !NO_ARGS.iter().any(|w| json!(w) == c.aux["wrong"]) {
            return Err(Stop::Skip("arguments that may be right"));
        }
        l.push("wrong arguments");
    }
    let parsed: Result<Value, _> = serde_json::from_slice(&data);
    let lib = match (&parsed, unreadable || wrong) {
        (Ok(v), false) => {
            if c.aux["format"] == "bigquery" {
                bq(v, &c.opts)
            } else {
                avro(v, &c.opts)
            }
        }
        _ => Err("unreadable".into()),
    };
    l.push(match c.aux["input"].as_str() {
        Some("file") => "input: file",
        Some("dash") => "input: -",
        Some("device") => "input: a pipe given as file",
        Some("stdin") | None => "input: standard input",
        _ => "input: unreadable",
    });
    match lib {
        Ok(v) => {
            let want = serde_json::to_string_pretty(&v).unwrap() + "\n";
            if ran.code != Some(0) {
                return fail(format!("{:?} exits with {:?} although the library succeeds", args, ran.code));
            }
            if ran.out != want.as_bytes() {
                return fail(format!(
                    "{:?} prints {:?} instead of {:?}",
                    args,
                    String::from_utf8_lossy(&ran.out).chars().take(400).collect::<String>(),
                    want.chars().take(400).collect::<String>()
                ));
            }
            Ok(!args.is_empty())
        }
        Err(_) => {
            l.push("failure");
            if ran.code == Some(0) {
                return fail(format!("{:?} exits with 0 although the library fails, the input is bad or an argument is wrong", args));
            }
            if ran.code.is_none() {
                return fail(format!("{:?} is killed by a signal", args));
            }
            if !ran.out.is_empty() {
                return fail(format!("{:?} prints {:?} although it fails", args, String::from_utf8_lossy(&ran.out)));
            }
            Ok(true)
        }
    }
}

// ================================================================ C20

fn any_json(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 { 8 } else { 11 }) {
        0 => Value::Null,
        1 => json!(r.pct(50)),
        2 => json!(r.below(20)),
        3 => json!(-1),
        4 => json!(2.5),
        5 => json!(*r.pick(&["", "string", "object", "array", "null", "date-time", "bytes", "json", "Object", "int"])),
        6 => json!("text"),
        7 => json!({}),
        8 => Value::Array((0..r.below(4)).map(|_| any_json(r, d - 1)).collect()),
        _ => {
            let mut m = JMap::new();
            for _ in 0..r.below(4) {
                let k = if r.pct(75) { r.pick(gen::KNOWN).to_string() } else { "a".into() };
                m.insert(k, any_json(r, d - 1));
            }
            Value::Object(m)
        }
    }
}

fn c20_gen(env: &Env, seed: u64) -> Case {
    let mut r = Rng::new(seed ^ 0x20);
    let mut c = mk(env, seed, Prof { collide: true, open: 15, ann: 10, ..wild_prof() }, wild_opts);
    if r.pct(20) {
        c.schema = any_json(&mut r, 4);
    } else {
        for _ in 0..r.range(1, 3) {
            let ps = gen::positions(&c.schema);
            if ps.is_empty() {
                break;
            }
            let p = r.pick(&ps).clone();
            let x = gen::at_mut(&mut c.schema, &p).unwrap();
            match r.below(8) {
                0 => *x = any_json(&mut r, 2),
                // a single wrong name or entry among good types
                5 | 6 => {
                    if let Some(m) = x.as_object_mut() {
                        let mut list: Vec<Value> = match m.get("type") {
                            Some(Value::Array(l)) => l.clone(),
                            Some(t) => vec![t.clone()],
                            None => vec![json!("string")],
                        };
                        for _ in 0..r.below(3) {
                            list.push(json!(*r.pick(&["null", "string", "integer", "number", "object", "array", "boolean"])));
                        }
                        let at = r.below(list.len() + 1);
                        let bad = *r.pick(&["float", "bogus", "any", "String", "", "int", "double", "long", "timestamp", "json", "map", "tuple", "Null", "none", "union", "atom"]);
                        list.insert(at, if r.pct(80) { json!(bad) } else { any_json(&mut r, 1) });
                        m.insert("type".into(), Value::Array(list));
                    }
                }
                1 => {
                    if let Some(m) = x.as_object_mut() {
                        let k = r.pick(gen::KNOWN).to_string();
                        let v = m.values().next().cloned().unwrap_or(Value::Null);
                        m.insert(k, v);
                    }
                }
                _ => {
                    if let Some(m) = x.as_object_mut() {
                        let k = r.pick(gen::KNOWN).to_string();
                        let mut v = any_json(&mut r, 2);
                        if k == "maxItems" {
                            v = json!(r.below(40));
                        }
                        m.insert(k, v);
                    }
                }
            }
        }
    }
    c
}

/// keep generated tuples affordable
fn huge(s: &Value) -> bool {
    gen::positions(s).iter().any(|p| {
        gen::at(s, p).unwrap().get("maxItems").and_then(Value::as_f64).map_or(false, |v| v > 2000.0)
    })
}

fn c20_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    if huge(&c.schema) {
        return Err(Stop::Skip("huge maxItems"));
    }
    if let Some(re) = c.schema.get("mozPipelineMetadata").and_then(|m| m.get("json_object_path_regex")).and_then(Value::as_str) {
        if regex::Regex::new(re).is_err() {
            return Err(Stop::Skip("bad pattern"));
        }
    }
    let must_reject = matches!(model::resolve(&c.schema, c.opts.tuple, c.opts.norm), Err(model::Skip::Reject(_)));
    let a = avro(&c.schema, &c.opts);
    let b = bq(&c.schema, &c.opts);
    if let Ok(v) = &a {
        err(avro_valid(v), "malformed Avro output")?;
    }
    if let Ok(v) = &b {
        err(bq_valid(v), "malformed BigQuery output")?;
    }
    if must_reject {
        l.push("must be rejected");
        if a.is_ok() || b.is_ok() {
            return fail(format!("unsupported input is converted: {} / {}", show(&a), show(&b)));
        }
    }
    // a rejection has no effect on what follows
    if a.is_err() || b.is_err() {
        l.push("rejected");
        let probe = json!({"type": "object", "properties": {"a-b": {"type": ["integer", "null"]}, "c": {"type": "array", "items": {"type": "object", "properties": {"d": {"type": "string"}}}}}, "required": ["a-b"]});
        let o = cast();
        let other = json!({"type": "object", "properties": {"p": {"type": "object"}, "xY": {"type": "array", "items": [{"type": "integer"}], "maxItems": 1}}, "mozPipelineMetadata": {"json_object_path_regex": "p"}});
        let p = MOpts { tuple: true, norm: true, force: true, ..cast() };
        let got = format!("{}\n{}\n{}\n{}", show(&avro(&probe, &o)), show(&bq(&probe, &o)), show(&avro(&other, &p)), show(&bq(&other, &p)));
        let want = concat!(
            r#"{"fields":[{"default":null,"name":"a_b","type":[{"type":"null"},{"type":"long"}]},{"default":null,"name":"c","type":[{"type":"null"},{"items":{"fields":[{"default":null,"name":"d","type":[{"type":"null"},{"type":"string"}]}],"name":"list","namespace":"root.c","type":"record"},"type":"array"}]}],"name":"root","type":"record"}"#,
            "\n",
            r#"[{"mode":"NULLABLE","name":"a_b","type":"INT64"},{"fields":[{"mode":"NULLABLE","name":"d","type":"STRING"}],"mode":"REPEATED","name":"c","type":"RECORD"}]"#,
            "\n",
            r#"[{"type":"null"},{"fields":[{"default":null,"name":"p","type":[{"type":"null"},{"type":"string"}]},{"default":null,"name":"x_y","type":[{"type":"null"},{"fields":[{"default":null,"name":"f0_","type":[{"type":"null"},{"type":"long"}]}],"name":"x_y","namespace":"root","type":"record"}]}],"name":"root","type":"record"}]"#,
            "\n",
            r#"[{"mode":"NULLABLE","name":"p","type":"JSON"},{"fields":[{"mode":"NULLABLE","name":"f0_","type":"INT64"}],"mode":"NULLABLE","name":"x_y","type":"RECORD"}]"#
        );
        let eq = |a: &str, b: &str| {
            a.lines().zip(b.lines()).all(|(x, y)| serde_json::from_str::<Value>(x).ok() == serde_json::from_str::<Value>(y).ok())
        };
        if !eq(&got, want) {
            return fail(format!("after a rejected conversion a plain schema gives {}", got));
        }
    } else {
        l.push("converted");
    }
    Ok(a.is_err() || must_reject)
}

struct Wrong {
    key: &'static str,
    host: &'static str,
    bad: &'static [&'static str],
}

const WRONG: &[Wrong] = &[
    Wrong { key: "type", host: "{}", bad: &["5", "true", "false", "{}", "{\"type\":\"string\"}", "\"bogus\"", "\"String\"", "\"\"", "\"int\"", "\"any\"", "\" integer\"", "\"string \"", "\"string\\n\"", "\"INTEGER\"", "\"Null\"", "\"integers\"", "\"float\"", "\"bool\"", "\"date_time\"", "\"dateTime\"", "\"string|null\"", "\"long\"", "[\"string\",\" null\"]", "[\"Integer\"]", "[\"string\",\"null\",\"int\"]", "[\"null\",\"\"]", "[1]", "[null]", "[\"string\",\"bogus\"]", "[[\"string\"]]", "[{\"type\":\"string\"}]", "1.5"] },
    Wrong { key: "format", host: "{\"type\":\"string\"}", bad: &["5", "true", "[\"date-time\"]", "{}"] },
    Wrong { key: "title", host: "{\"type\":\"string\"}", bad: &["5", "true", "[\"x\"]", "{}"] },
    Wrong { key: "description", host: "{\"type\":\"integer\"}", bad: &["5", "false", "[\"x\"]", "{\"a\":\"b\"}"] },
    Wrong { key: "properties", host: "{\"type\":\"object\"}", bad: &["5", "\"x\"", "true", "[]", "[{\"type\":\"string\"}]", "{\"a\":5}", "{\"a\":\"string\"}", "{\"a\":[]}", "{\"a\":true}", "{\"a\":null}"] },
    Wrong { key: "additionalProperties", host: "{\"type\":\"object\"}", bad: &["5", "\"string\"", "[]", "[{\"type\":\"string\"}]", "{\"type\":5}"] },
    Wrong { key: "patternProperties", host: "{\"type\":\"object\"}", bad: &["5", "\"x\"", "true", "[]", "{\".*\":5}", "{\".*\":\"string\"}", "{\".*\":[]}", "{\".*\":true}"] },
    Wrong { key: "required", host: "{\"type\":\"object\",\"properties\":{\"a\":{\"type\":\"string\"}}}", bad: &["5", "\"a\"", "true", "{}", "{\"a\":true}", "[1]", "[\"a\",null]", "[[\"a\"]]"] },
    Wrong { key: "items", host: "{\"type\":\"array\"}", bad: &["5", "\"string\"", "true", "[5]", "[\"string\"]", "[null]", "{\"type\":5}"] },
    Wrong { key: "additionalItems", host: "{\"type\":\"array\",\"items\":[{\"type\":\"string\"}],\"maxItems\":2}", bad: &["5", "\"string\"", "[]", "[{\"type\":\"string\"}]"] },
    Wrong { key: "minItems", host: "{\"type\":\"array\",\"items\":[{\"type\":\"string\"}],\"maxItems\":1}", bad: &["-1", "\"1\"", "1.5", "true", "[1]", "{}"] },
    Wrong { key: "maxItems", host: "{\"type\":\"array\",\"items\":[{\"type\":\"string\"}],\"additionalItems\":false}", bad: &["-1", "\"1\"", "1.5", "true", "[1]", "{}"] },
    Wrong { key: "oneOf", host: "{}", bad: &["5", "\"x\"", "true", "{}", "{\"type\":\"string\"}", "[5]", "[\"string\"]", "[null]", "[[]]", "[{\"type\":\"string\"},true]"] },
];

fn wrong_count() -> usize {
    WRONG.iter().map(|w| w.bad.len()).sum::<usize>() * 8
}

fn c20_wrong_gen(env: &Env, i: u64) -> Case {
    let contexts = 8;
    let total: usize = wrong_count();
    let i = i as usize;
    let mut k = i % total / contexts;
    let ctx = i % contexts;
    let mut w = &WRONG[0];
    for x in WRONG {
        w = x;
        if k < x.bad.len() {
            break;
        }
        k -= x.bad.len();
    }
    let mut s: Value = serde_json::from_str(w.host).unwrap();
    s[w.key] = serde_json::from_str(w.bad[k]).unwrap();
    let mut r = Rng::new(i as u64);
    let mut g = G::new(i as u64, base(), &env.dict);
    let other = g.leaf();
    let schema = match ctx {
        0 => s,
        1 => json!({"type": "object", "properties": {"p": s, "q": other}}),
        2 => json!({"type": "array", "items": s}),
        3 => json!({"type": "object", "additionalProperties": s}),
        4 => json!({"oneOf": [other, s]}),
        5 => json!({"type": "object", "properties": {"a": {"type": "object", "properties": {"b": {"type": "array", "items": s}}}}}),
        6 => json!({"type": "array", "items": [other, s], "additionalItems": false}),
        _ => json!({"type": "object", "patternProperties": {"x": other, "y": s}}),
    };
    let mut o = opts(&mut r);
    o.tuple = true;
    if i < total {
        o.res = Res::Cast;
    }
    Case { schema, opts: o, aux: json!({"wrong": w.key}) }
}

fn c20_wrong(_: &Env, c: &Case, _: &mut Labels) -> Out {
    if c.aux.get("wrong").is_none() {
        return Err(Stop::Skip("not a wrong keyword"));
    }
    for (n, f) in [("Avro", avro as fn(&Value, &MOpts) -> Conv), ("BigQuery", bq)] {
        if let Ok(v) = f(&c.schema, &c.opts) {
            return fail(format!("{}: a wrong value of {} is converted to {}", n, c.aux["wrong"], v));
        }
    }
    Ok(true)
}

/// deep nesting through the command line tool, with its ordinary stack
fn c20_deep_gen(_: &Env, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let mut kinds: Vec<&str> = vec![];
    let pure = r.pct(60);
    let all = ["items", "properties", "additionalProperties", "oneOf", "oneOf2", "patternProperties", "tuple", "typelist"];
    let one = *r.pick(&all);
    let target = *r.pick(&[40usize, 100, 118, 124, 126, 127, 128, 140, 400]);
    let mut depth = 1;
    while depth < target {
        let k = if pure { one } else { *r.pick(&all) };
        kinds.push(k);
        depth += match k {
            "items" | "additionalProperties" | "typelist" => 1,
            _ => 2,
        };
    }
    // as JSON text only: the value itself may be too deep to be built by a parser
    Case { schema: json!({}), opts: wild_opts(&mut r), aux: json!({ "kinds": kinds, "bq": r.pct(50) }) }
}

fn deep_text(kinds: &[Value]) -> String {
    let mut s = "{\"type\":\"integer\"}".to_string();
    for k in kinds {
        s = match k.as_str().unwrap_or("items") {
            "properties" => format!("{{\"type\":\"object\",\"properties\":{{\"a\":{}}}}}", s),
            "additionalProperties" => format!("{{\"type\":\"object\",\"additionalProperties\":{}}}", s),
            "oneOf" => format!("{{\"oneOf\":[{}]}}", s),
            "oneOf2" => format!("{{\"oneOf\":[{},{{\"type\":\"null\"}}]}}", s),
            "patternProperties" => format!("{{\"type\":\"object\",\"patternProperties\":{{\"a\":{}}}}}", s),
            "tuple" => format!("{{\"type\":\"array\",\"items\":[{}],\"additionalItems\":false}}", s),
            "typelist" => format!("{{\"type\":[\"array\",\"null\"],\"items\":{}}}", s),
            _ => format!("{{\"type\":\"array\",\"items\":{}}}", s),
        };
    }
    s
}

/// The greatest depth of balanced JSON brackets, or nothing if they are not.
fn brackets(text: &[u8]) -> Option<usize> {
    let (mut stack, mut most) = (Vec::new(), 0);
    let (mut string, mut escape) = (false, false);
    for c in text {
        if string {
            if escape {
                escape = false;
            } else if *c == b'\\' {
                escape = true;
            } else if *c == b'"' {
                string = false;
            }
            continue;
        }
        match c {
            b'"' => string = true,
            b'{' | b'[' => {
                stack.push(*c);
                most = most.max(stack.len());
            }
            b'}' if stack.pop() != Some(b'{') => return None,
            b']' if stack.pop() != Some(b'[') => return None,
            _ => {}
        }
    }
    if stack.is_empty() && most > 0 && !string { Some(most) } else { None }
}

fn c20_deep(env: &Env, c: &Case, l: &mut Labels) -> Out {
    let kinds = match c.aux["kinds"].as_array() {
        Some(k) => k.clone(),
        None => return Err(Stop::Skip("no case")),
    };
    let text = deep_text(&kinds);
    let mut args: Vec<String> = vec![];
    if c.aux["bq"] == true {
        args.extend(["-t".into(), "bigquery".into()]);
    }
    args.push("-r".into());
    args.push(match c.opts.res {
        Res::Cast => "cast".into(),
        Res::Drop => "drop".into(),
        Res::Panic => "panic".into(),
    });
    for (on, a) in [(c.opts.norm, "-c"), (c.opts.force, "-n"), (c.opts.tuple, "--tuple-struct"), (c.opts.mapsw, "-w")] {
        if on {
            args.push(a.into());
        }
    }
    let ran = run_cli(env, &env.scratch, &args, text.as_bytes(), false, 1)?;
    match ran.code {
        None => fail(format!("the tool is killed by a signal at nesting depth {}", kinds.len())),
        Some(0) => {
            l.push("converted");
            // the output may be deeper than a parser with a depth limit reads
            let depth = match brackets(&ran.out) {
                Some(d) => d,
                None => return fail("partial output: unbalanced"),
            };
            if depth < 120 {
                let v: Value = match serde_json::from_slice(&ran.out) {
                    Ok(v) => v,
                    Err(e) => return fail(format!("partial output: {}", e)),
                };
                if c.aux["bq"] == true {
                    err(bq_valid(&v), "malformed output")?;
                } else {
                    err(avro_valid(&v), "malformed output")?;
                }
            }
            Ok(kinds.len() > 30)
        }
        Some(_) => {
            l.push("rejected");
            if !ran.out.is_empty() {
                return fail("partial output of a failed conversion");
            }
            let fits = serde_json::from_str::<Value>(&text).is_ok();
            if fits && c.opts.res == Res::Cast && !kinds.is_empty() {
                // every one of these is a supported schema
                return fail(format!("a supported schema of nesting depth {} is rejected", kinds.len()));
            }
            Ok(kinds.len() > 30)
        }
    }
}

// ================================================================ C21

const LEAVES: &[(&str, &str, &str)] = &[
    (r#"{"type":"boolean"}"#, "boolean", "BOOL"),
    (r#"{"type":"integer"}"#, "long", "INT64"),
    (r#"{"type":"number"}"#, "double", "FLOAT64"),
    (r#"{"type":"string"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"date-time"}"#, "string", "TIMESTAMP"),
    (r#"{"type":"string","format":"bytes"}"#, "bytes", "BYTES"),
    (r#"{"type":"null"}"#, "null", "STRING"),
    (r#"{"type":"string","format":"email"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"date"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"time"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"uuid"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"uri"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"json"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"datetime"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"byte"}"#, "string", "STRING"),
    (r#"{"type":"string","format":"Date-Time"}"#, "string", "STRING"),
    (r#"{"type":"string","format":""}"#, "string", "STRING"),
    (r#"{"type":"integer","format":"date-time"}"#, "long", "INT64"),
    (r#"{"type":"number","format":"bytes"}"#, "double", "FLOAT64"),
    (r#"{"type":"boolean","format":"date-time"}"#, "boolean", "BOOL"),
    (r#"{"type":"integer","minimum":0,"maximum":5}"#, "long", "INT64"),
    (r#"{"type":"string","pattern":"^x$","maxLength":3}"#, "string", "STRING"),
    (r#"{"type":"string","enum":["a","b"]}"#, "string", "STRING"),
];

fn c21_leaf_gen(_: &Env, i: u64) -> Case {
    let n = LEAVES.len();
    let leaf: Value = serde_json::from_str(LEAVES[i as usize % n].0).unwrap();
    let mut r = Rng::new(i);
    let depth = i as usize / n % 5;
    let mut kinds = vec![];
    for _ in 0..depth {
        kinds.push(json!(*r.pick(&["prop", "req", "array", "map", "tuple", "oneof", "pattern", "typelist"])));
    }
    let mut o = cast_opts(&mut r);
    o.tuple = true;
    Case { schema: leaf, opts: o, aux: json!({"leaf": i as usize % n, "kinds": kinds}) }
}

/// Puts a schema into a context; gives the paths of the inner node.
fn embed(s: Value, kinds: &[Value]) -> Option<(Value, String, String)> {
    // from the innermost outwards
    let mut cur = s;
    let mut ap = String::new();
    let mut bp = String::new();
    let mut inner: Option<String> = None; // kind directly below: array
    for k in kinds {
        let k = k.as_str()?;
        match k {
            "prop" | "req" => {
                cur = json!({"type": "object", "properties": {"p": cur, "other": {"type": "boolean"}}});
                if k == "req" {
                    cur["required"] = json!(["p"]);
                }
                ap = format!(".p{}", ap);
                bp = format!(".p{}", bp);
            }
            "tuple" => {
                cur = json!({"type": "array", "items": [{"type": "boolean"}, cur], "additionalItems": false});
                ap = format!(".f1_{}", ap);
                bp = format!(".f1_{}", bp);
            }
            "map" => {
                cur = json!({"type": "object", "additionalProperties": cur});
                ap = format!("{{}}{}", ap);
                bp = format!(".value{}", bp);
            }
            "pattern" => {
                cur = json!({"type": "object", "patternProperties": {"x": cur}});
                ap = format!("{{}}{}", ap);
                bp = format!(".value{}", bp);
            }
            "array" => {
                cur = json!({"type": "array", "items": cur});
                if inner.as_deref() == Some("array") {
                    ap = format!("[].list{}", ap);
                    bp = format!(".list{}", bp);
                } else if inner.as_deref() == Some("map") {
                    return None; // the known finding
                } else {
                    ap = format!("[]{}", ap);
                }
            }
            "oneof" => cur = json!({"oneOf": [cur, {"type": "null"}]}),
            _ => {
                cur = match cur.get("type").and_then(Value::as_str) {
                    Some(t) if t != "null" && cur.get("format").is_none() => {
                        let t = t.to_string();
                        cur["type"] = json!([t, "null"]);
                        cur
                    }
                    _ => return None,
                }
            }
        }
        if !["oneof", "typelist"].contains(&k) {
            inner = Some(
                match k {
                    "array" => "array",
                    "map" | "pattern" => "map",
                    _ => "other",
                }
                .into(),
            );
        }
    }
    let root_col = matches!(inner.as_deref(), Some("array") | Some("map") | None);
    if root_col {
        bp = format!(".root{}", bp);
    }
    Some((cur, format!("root{}", ap), bp))
}

fn c21_leaf(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let i = match c.aux["leaf"].as_u64() {
        Some(i) => i as usize % LEAVES.len(),
        None => return Err(Stop::Skip("no leaf")),
    };
    let (text, wa, wb) = LEAVES[i];
    let leaf: Value = serde_json::from_str(text).unwrap();
    let kinds = c.aux["kinds"].as_array().cloned().unwrap_or_default();
    let (s, ap, bp) = match embed(leaf, &kinds) {
        Some(x) => x,
        None => return Err(Stop::Skip("context does not apply")),
    };
    let o = MOpts { tuple: true, res: Res::Cast, regex: None, ..c.opts.clone() };
    match (avro(&s, &o), bq(&s, &o)) {
        (Ok(a), Ok(b)) => {
            let (fa, fb) = (avro_flat(&a), bq_flat(&b));
            match fa.get(&ap) {
                Some(x) if x.ty == wa => {}
                x => return fail(format!("{} at {} of {} is Avro {:?} instead of {}", text, ap, s, x.map(|x| &x.ty), wa)),
            }
            match fb.get(&bp) {
                Some(x) if x.ty == wb => {
                    if wa == "null" && x.mode == "REQUIRED" {
                        return fail(format!("null is REQUIRED in {}", s));
                    }
                }
                x => return fail(format!("{} at {} of {} is BigQuery {:?} instead of {}", text, bp, s, x.map(|x| &x.ty), wb)),
            }
            if kinds.len() > 1 {
                l.push("nested context");
            }
            Ok(!kinds.is_empty())
        }
        (a, b) => fail(format!("conversion of {} failed: {:?} {:?}", s, a.err(), b.err())),
    }
}

fn c21_embed_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, Prof { root_object: 60, ann: 8, ..base() }, cast_opts);
    let mut r = Rng::new(seed ^ 0x21);
    c.opts.tuple = true;
    let n = r.range(1, 5);
    let kinds: Vec<&str> = (0..n).map(|_| *r.pick(&["prop", "req", "array", "map", "tuple", "prop", "req"])).collect();
    c.aux = json!({ "kinds": kinds });
    c
}

fn c21_embed(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let n = parsed(c)?;
    let kinds = c.aux["kinds"].as_array().cloned().unwrap_or_default();
    if kinds.is_empty() {
        return Err(Stop::Skip("no context"));
    }
    let o = MOpts { tuple: true, res: Res::Cast, regex: None, ..c.opts.clone() };
    let c1 = Case { opts: o.clone(), ..c.clone() };
    let n = if c.opts.tuple { n } else { parsed(&c1)? };
    if matches!(n.t, T::Arr(_) | T::Map(_)) && kinds[0] == "array" {
        return Err(Stop::Skip("array of a repeated node (see C15)"));
    }
    let (s, ap, bp) = match embed(c.schema.clone(), &kinds) {
        Some(x) => x,
        None => return Err(Stop::Skip("context does not apply")),
    };
    labels(&n, l);
    let whole = matches!(kinds[0].as_str(), Some("array"));
    match (avro(&c.schema, &o), avro(&s, &o)) {
        (Ok(a), Ok(b)) => {
            let (fa, fb) = (avro_flat(&a), avro_flat(&b));
            for (p, x) in &fa {
                let q = format!("{}{}", ap, &p["root".len()..]);
                let y = match fb.get(&q) {
                    Some(y) => y,
                    None => return fail(format!("Avro {} of the schema alone is not at {} of {}", p, q, s)),
                };
                if x.ty != y.ty {
                    return fail(format!("Avro {} is {} alone and {} inside {}", p, x.ty, y.ty, s));
                }
                // below the root, nullability too
                if p != "root" && (x.mode != y.mode || x.default != y.default) {
                    return fail(format!("Avro {} is {} alone and {} inside {}", p, x.mode, y.mode, s));
                }
            }
            let below = fb.keys().filter(|k| k.starts_with(&ap) && (k.len() == ap.len() || matches!(k.as_bytes()[ap.len()], b'.' | b'[' | b'{'))).count();
            if below != fa.len() {
                return fail(format!("Avro: {} nodes alone, {} inside {}", fa.len(), below, s));
            }
        }
        (a, b) => return fail(format!("a conversion with casting failed: {:?} {:?}", a.err(), b.err())),
    }
    if model::has_array_of_map(&n) {
        l.push("excluded: known finding array of maps (BigQuery)");
        return Ok(true);
    }
    match (bq(&c.schema, &o), bq(&s, &o)) {
        (Ok(a), Ok(b)) => {
            let fb = bq_flat(&b);
            let fa = bq_flat(&a);
            let root_is_rows = matches!(n.t, T::Obj { .. } | T::Tup(_)) && !(fa.len() == 1 && fa.contains_key(".root") && avro_flat(&avro(&c.schema, &o).unwrap())["root"].ty != "record");
            for (p, x) in &fa {
                let q = if root_is_rows { format!("{}{}", bp, p) } else { format!("{}{}", bp, &p[".root".len()..]) };
                let y = match fb.get(&q) {
                    Some(y) => y,
                    None => return fail(format!("BigQuery {} of the schema alone is not at {} of {}", p, q, s)),
                };
                if x.ty != y.ty {
                    return fail(format!("BigQuery {} is {} alone and {} inside {}", p, x.ty, y.ty, s));
                }
                let top = !root_is_rows && p == ".root";
                if !top && x.mode != y.mode {
                    return fail(format!("BigQuery {} is {} alone and {} inside {}", p, x.mode, y.mode, s));
                }
            }
            let _ = whole;
        }
        (a, b) => return fail(format!("a conversion with casting failed: {:?} {:?}", a.err(), b.err())),
    }
    Ok(model::count(&n) > 1)
}

fn c21_local_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, Prof { ann: 10, ..base() }, cast_opts);
    let mut r = Rng::new(seed ^ 0x2121);
    let mut g = G::new(seed ^ 0x78, Prof { budget: 8, depth: 3, ..base() }, &env.dict);
    c.aux = match r.below(3) {
        0 => json!({"pick": seed >> 8 & 0xffff, "new": Value::Null}),
        1 => json!({"pick": seed >> 8 & 0xffff, "new": g.node(2)}),
        _ => json!({"pick": seed >> 8 & 0xffff, "new": g.node(2), "add": g.name()}),
    };
    c
}

fn c21_local(_: &Env, c: &Case, l: &mut Labels) -> Out {
    locality(c, l)
}

fn c21_model(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let w = against_model(c, Some(ALL), Some(NODESC), l)?;
    Ok(model::count(&w.n) > 3)
}

// ================================================================ the table

macro_rules! gen_of {
    ($p:expr, $o:expr) => {
        |env: &Env, seed: u64| mk(env, seed, $p, $o)
    };
}

// ================================================================ C22

const WRAPS: &[&str] = &[
    "prop", "req", "sibs", "messy", "items", "map", "pattern", "both", "both2", "oneNull", "oneSingle", "oneObj", "oneArr", "oneClash",
    "listObj", "listArr", "tuple", "tupleAdd", "oneMap",
];

fn wrap_with(kind: &str, v: Value, i: usize) -> Value {
    match kind {
        "prop" => json!({"type": "object", "properties": {"a": v}}),
        "req" => json!({"type": "object", "properties": {"fooBar": v}, "required": ["fooBar"]}),
        "sibs" => json!({"type": "object", "properties": {"a": {"type": "integer"}, "b": v, "c": {"type": ["string", "null"]}}, "required": ["a", "b"]}),
        "messy" => json!({"type": "object", "properties": {format!("{}x-y.Z", i % 10): v}}),
        "items" => json!({"type": "array", "items": v}),
        "map" => json!({"type": "object", "additionalProperties": v}),
        "pattern" => json!({"type": "object", "patternProperties": {"^p": v}}),
        "both" => json!({"type": "object", "additionalProperties": v, "patternProperties": {"^p": {"type": "null"}}}),
        "both2" => json!({"type": "object", "additionalProperties": {"type": "null"}, "patternProperties": {"^p": v}}),
        "oneNull" => json!({"oneOf": [v, {"type": "null"}]}),
        "oneSingle" => json!({"oneOf": [v]}),
        "oneObj" => json!({"oneOf": [{"type": "object", "properties": {"a": v}}, {"type": "object", "properties": {"b": {"type": "integer"}}}]}),
        "oneArr" => json!({"oneOf": [{"type": "array", "items": v}, {"type": "array", "items": {"type": "null"}}]}),
        "oneMap" => json!({"oneOf": [{"type": "object", "additionalProperties": {"type": "null"}}, {"type": "object", "additionalProperties": v}, {"type": "null"}]}),
        "oneClash" => json!({"oneOf": [v, {"type": "integer"}]}),
        "listObj" => json!({"type": ["object", "null"], "properties": {"a": v}}),
        "listArr" => json!({"type": ["null", "array"], "items": v}),
        "tuple" => json!({"type": "array", "items": [{"type": "integer"}, v], "additionalItems": false}),
        _ => json!({"type": "array", "items": [{"type": "integer"}], "additionalItems": v, "maxItems": 2}),
    }
}

/// k levels, the given kinds in turn
fn tower(core: &Value, kinds: &[Value], k: usize) -> Option<Value> {
    let mut v = core.clone();
    for i in 0..k {
        let x = kinds[i % kinds.len()].as_str()?;
        if !WRAPS.contains(&x) {
            return None;
        }
        v = wrap_with(x, v, i);
    }
    Some(v)
}

const WIDE: &[&str] = &["props", "variants", "objVariants", "types", "tupleItems", "maxItems", "patterns", "required", "name", "text", "junk", "manyRecords", "sameProps"];

/// a schema with n parts of one kind
fn crowd(core: &Value, kind: &str, n: usize) -> Option<Value> {
    let many = |f: &dyn Fn(usize) -> (String, Value)| -> Value { Value::Object((0..n).map(f).collect()) };
    Some(match kind {
        "props" => json!({"type": "object", "properties": many(&|i| (format!("p-{}X", i), core.clone())), "required": ["p-0X"]}),
        "variants" => json!({"oneOf": (0..n).map(|_| core.clone()).collect::<Vec<_>>()}),
        "objVariants" => json!({"oneOf": (0..n).map(|i| json!({"type": "object", "properties": {format!("k{}", i): core.clone(), "both": {"type": "integer"}}})).collect::<Vec<_>>()}),
        "types" => json!({"type": (0..n).map(|i| if i % 2 == 0 { "integer" } else { "null" }).collect::<Vec<_>>()}),
        "tupleItems" => json!({"type": "array", "items": (0..n).map(|_| core.clone()).collect::<Vec<_>>(), "additionalItems": false}),
        "maxItems" => json!({"type": "array", "items": [core.clone()], "additionalItems": core.clone(), "maxItems": n}),
        "patterns" => json!({"type": "object", "patternProperties": many(&|i| (format!("^p{}", i), core.clone()))}),
        "required" => json!({"type": "object", "properties": {"a": core.clone()}, "required": (0..n).map(|i| format!("r{}", i)).collect::<Vec<_>>()}),
        "name" => json!({"type": "object", "properties": {"aB-".repeat(n): core.clone()}}),
        "text" => json!({"type": "object", "properties": {"a": {"type": "integer", "title": "t ".repeat(n), "description": "d".repeat(n)}, "b": core.clone()}}),
        "junk" => json!({"type": "object", "properties": {"a": core.clone()}, "x-data": many(&|i| (format!("j{}", i), json!([i])))}),
        "manyRecords" => json!({"type": "object", "properties": many(&|i| (format!("r{}", i), json!({"type": "object", "properties": {"in": core.clone()}})))}),
        "sameProps" => {
            let o = json!({"type": "object", "properties": many(&|i| (format!("s{}", i), json!({"type": "integer"})))});
            json!({"oneOf": [o.clone(), o.clone(), {"type": "null"}]})
        }
        _ => return None,
    })
}

fn c22_gen(env: &Env, seed: u64) -> Case {
    let mut r = Rng::new(seed ^ 0x22);
    let mut c = mk(env, seed, Prof { budget: 6, depth: 2, root_object: 30, ..base() }, opts);
    c.aux = if r.pct(75) {
        let n = *r.pick(&[1, 1, 2, 2, 3, 4]);
        json!({"tower": (0..n).map(|_| *r.pick(WRAPS)).collect::<Vec<_>>()})
    } else {
        json!({"crowd": *r.pick(WIDE)})
    };
    if r.pct(30) {
        c.opts.regex = Some(r.pick(&["a", ".*", "x\\.y", "list"]).to_string());
    }
    c
}

/// bytes allocated, and processor time, of both conversions
fn work(s: &Value, o: &MOpts) -> (f64, f64) {
    let (b0, t0) = (crate::alloc::counted().0, crate::alloc::cpu());
    let _ = avro(s, o);
    let _ = bq(s, o);
    ((crate::alloc::counted().0 - b0) as f64, crate::alloc::cpu() - t0)
}

// ================================================================ C25

const FIELDS: &[&str] =
    &["resolve_method", "normalize_case", "force_nullable", "tuple_struct", "allow_maps_without_value", "json_object_path_regex"];

fn field(o: &MOpts, k: &str) -> Value {
    match k {
        "resolve_method" => json!(match o.res {
            Res::Cast => "Cast",
            Res::Drop => "Drop",
            Res::Panic => "Panic",
        }),
        "normalize_case" => json!(o.norm),
        "force_nullable" => json!(o.force),
        "tuple_struct" => json!(o.tuple),
        "allow_maps_without_value" => json!(o.mapsw),
        _ => json!(o.regex),
    }
}

fn c25_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, Prof { budget: 16, open: 6, under: 12, ..base() }, wild_opts);
    let mut r = Rng::new(seed ^ 0x25);
    if r.pct(25) {
        let all = c.opts.clone();
        c.opts = cast();
        match r.below(6) {
            0 => c.opts.res = all.res,
            1 => c.opts.norm = true,
            2 => c.opts.force = true,
            3 => c.opts.tuple = true,
            4 => c.opts.mapsw = true,
            _ => c.opts.regex = Some(r.pick(&[".*", "a", "[a-f]\\w*", "", " ", "\\", "\"", "é|\u{1F600}|a"]).to_string()),
        }
    }
    let mut order: Vec<&str> = FIELDS.iter().filter(|f| field(&c.opts, f) != field(&cast(), f) || r.pct(40)).copied().collect();
    r.shuffle(&mut order);
    c.aux = json!({"order": order, "way": r.below(3)});
    if r.pct(15) {
        let k = *r.pick(FIELDS);
        let v = match k {
            "resolve_method" => r.pick(&[json!("cast"), json!("CAST"), json!("drop"), json!("panic"), json!("Drop "), json!(""), json!("Default"), json!(0), json!(1), json!(null), json!(true), json!(["Cast"]), json!({}), json!("Error"), json!("Fail"), json!("Ignore"), json!("Skip"), json!("Raise"), json!("Json"), json!("String"), json!("None"), json!("Remove"), json!("Keep"), json!("Strict")]).clone(),
            "json_object_path_regex" => r.pick(&[json!(1), json!(true), json!(["a"]), json!({})]).clone(),
            _ => r.pick(&[json!("true"), json!("false"), json!(""), json!(0), json!(1), json!(null), json!([]), json!([true]), json!({}), json!("yes"), json!("on"), json!("True"), json!("1"), json!(1.0), json!(-1)]).clone(),
        };
        let v = match crate::dict::word(&mut r) {
            Some(w) if r.pct(25) && k != "json_object_path_regex" => json!(w),
            _ => v,
        };
        c.aux["bad"] = json!([k, v]);
    }
    c
}

fn c25_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let order: Vec<&str> = c.aux["order"].as_array().map(|a| a.iter().filter_map(Value::as_str).collect()).unwrap_or_default();
    let good = |k: &&str| FIELDS.contains(k);
    if !order.iter().all(|k| good(&k)) || order.iter().enumerate().any(|(i, k)| order[..i].contains(k)) {
        return Err(Stop::Skip("no such fields"));
    }
    if FIELDS.iter().any(|f| !order.contains(f) && field(&c.opts, f) != field(&cast(), f)) {
        return Err(Stop::Skip("a field is missing"));
    }
    let write = |bad: Option<(&str, &Value)>| {
        let mut ms: Vec<(&str, Value)> = order.iter().map(|k| (*k, field(&c.opts, k))).collect();
        if let Some((k, v)) = bad {
            match ms.iter_mut().find(|m| m.0 == k) {
                Some(m) => m.1 = v.clone(),
                None => ms.push((k, v.clone())),
            }
        }
        let ms: Vec<String> = ms.iter().map(|(k, v)| format!("{}: {}", json!(k), v)).collect();
        format!("{{{}}}", ms.join(", "))
    };
    let way = c.aux["way"].as_u64().unwrap_or(0);
    if let (Some(k), Some(v)) = (c.aux["bad"][0].as_str(), c.aux["bad"].get(1)) {
        let right = match k {
            "resolve_method" => ["Cast", "Drop", "Panic"].iter().any(|x| v == x) || v.as_object().map_or(false, |m| !m.is_empty()),
            "json_object_path_regex" => v.is_null() || v.is_string(),
            k if good(&k) => v.is_boolean(),
            _ => true,
        };
        if right {
            return Err(Stop::Skip("options that may be right"));
        }
        l.push("bad options");
        let text = write(Some((k, v)));
        if read_options(&text, &c.schema, way).is_some() {
            return fail(format!("the options {} are not refused", text));
        }
        return Ok(true);
    }
    let text = write(None);
    let (a, b) = match read_options(&text, &c.schema, way) {
        Some(x) => x,
        None => return fail(format!("the options {} are refused", text)),
    };
    if show(&a) != show(&avro(&c.schema, &c.opts)) {
        return fail(format!("the options {} give another Avro schema than the same ones set in code", text));
    }
    if show(&b) != show(&bq(&c.schema, &c.opts)) {
        return fail(format!("the options {} give another BigQuery schema than the same ones set in code", text));
    }
    if order.len() < FIELDS.len() {
        l.push("fields left out");
    }
    let changed = show(&a) != show(&avro(&c.schema, &cast())) || show(&b) != show(&bq(&c.schema, &cast()));
    if changed {
        l.push("other than the default");
    }
    Ok(changed)
}

fn st(name: &'static str, quick: usize, thorough: usize, gen: fn(&Env, u64) -> Case, check: fn(&Env, &Case, &mut Labels) -> Out) -> Stream {
    Stream { name, quick, thorough, gen, check }
}

const USUAL: &[&str] = &[
    "the domain is the supported subset of JSON Schema as the model parses it; schemas outside of it are counted as outside_domain",
];

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "random schemas (names that collide after renaming included) with random options; non-trivial: converted, with more than three typed nodes, or a sequence of several conversions",
            assumptions: &["object member order reaches the library only through JSON text, as serde_json maps are ordered"],
            streams: vec![
                st("repeat", 16000, 300000, gen_of!(c01_prof(), opts), c01_repeat),
                st("threads", 600, 6000, |e, s| Case { schema: json!({}), opts: cast(), aux: sequence(e, s, 6, c01_prof()) }, c01_threads),
                st("history", 500, 6000, |e, s| Case { schema: json!({}), opts: cast(), aux: sequence(e, s, 8, Prof { budget: 14, ..c01_prof() }) }, c01_history),
            ],
        },
        Prop {
            id: "C02",
            rule: "random schemas with any names, collisions, tuples, annotations, under any options; non-trivial: converted to more than three Avro nodes",
            assumptions: USUAL,
            streams: vec![st("valid", 400000, 6000000, gen_of!(wild_prof(), wild_opts), c02_check)],
        },
        Prop {
            id: "C03",
            rule: "random schemas with any names, collisions, tuples, annotations, under any options; non-trivial: converted to more than two columns",
            assumptions: USUAL,
            streams: vec![st("valid", 350000, 5000000, gen_of!(wild_prof(), wild_opts), c03_check)],
        },
        Prop {
            id: "C04",
            rule: "random supported schemas with casting; non-trivial: more than three nodes",
            assumptions: USUAL,
            streams: vec![
                st("shape", 160000, 2200000, gen_of!(base(), |r| MOpts { regex: wild_opts(r).regex.filter(|x| x != "("), ..cast_opts(r) }), c04_check),
                st("collisions", 40000, 600000, gen_of!(Prof { collide: true, budget: 22, messy: 55, ..base() }, |r| MOpts { regex: wild_opts(r).regex.filter(|x| x != "("), ..cast_opts(r) }), c04_collisions),
            ],
        },
        Prop {
            id: "C05",
            rule: "random supported schemas with six conforming documents each; non-trivial: a document longer than 30 characters",
            assumptions: &["documents give no null where the schema leaves a value unconstrained", "BigQuery leaves out null elements of repeated columns"],
            streams: vec![st("documents", 150000, 2200000, c05_gen, c05_check)],
        },
        Prop {
            id: "C06",
            rule: "random supported schemas; non-trivial: at least two required and one nullable node",
            assumptions: USUAL,
            streams: vec![st("nullability", 200000, 2800000, gen_of!(c06_prof(), unforced), c06_check)],
        },
        Prop {
            id: "C07",
            rule: "random schemas with many under-specified and conflicting parts; non-trivial: with an under-specified node beside others, or an object whose property was replaced",
            assumptions: USUAL,
            streams: vec![
                st("cast", 110000, 1600000, gen_of!(c07_prof(), cast_opts), c07_check),
                st("locality", 75000, 1100000, c07_local_gen, c07_local),
            ],
        },
        Prop {
            id: "C08",
            rule: "random schemas under the three strategies; non-trivial: dropping removes something and keeps something",
            assumptions: USUAL,
            streams: vec![st("strategies", 40000, 600000, gen_of!(c08_prof(), opts), c08_check)],
        },
        Prop {
            id: "C09",
            rule: "random schemas with names that need sanitising, invalid names and collisions; non-trivial: such a name beside others",
            assumptions: USUAL,
            streams: vec![
                st("names", 105000, 1500000, gen_of!(c09_prof(), c09_opts), c09_check),
                st("collisions", 35000, 500000, c09_collide_gen, c09_collide),
            ],
        },
        Prop {
            id: "C10",
            rule: "random schemas with and without force-nullable; non-trivial: the option changes the output",
            assumptions: USUAL,
            streams: vec![st("relation", 50000, 700000, gen_of!(Prof { ann: 10, open: 3, tuple: 6, collide: false, ..base() }, c10_opts), c10_check)],
        },
        Prop {
            id: "C11",
            rule: "random schemas with mixed-case names; non-trivial: at least one name changes",
            assumptions: USUAL,
            streams: vec![st("relation", 40000, 600000, gen_of!(c11_prof(), opts), c11_check)],
        },
        Prop {
            id: "C12",
            rule: "all short strings over small alphabets (exhaustive) and random long ASCII strings, in both builds; non-trivial: several words",
            assumptions: &["ASCII strings only, as property names are ASCII once sanitised"],
            streams: vec![
                st("exhaustive aA7_", 1398101, 22369621, c12_ex1, c12_check),
                st("exhaustive aA7", 797161, 7174453, c12_ex2, c12_check),
                st("exhaustive all ASCII", 16257, 2064640, c12_ex3, c12_check),
                st("exhaustive bBzZ09_-.", 1111111, 11111111, c12_ex4, c12_check),
                st("long", 3000000, 40000000, c12_rand, c12_check),
            ],
        },
        Prop {
            id: "C13",
            rule: "random schemas rich in variants, under algebraic laws and against the model's join; non-trivial: variants beside other nodes",
            assumptions: &["repetition is only claimed for variants without under-specified parts"],
            streams: vec![
                st("laws", 50000, 800000, c13_laws_gen, c13_laws),
                st("join", 60000, 900000, gen_of!(c13_prof(), opts), c13_model),
            ],
        },
        Prop {
            id: "C14",
            rule: "random schemas rich in key-value objects; non-trivial: with a map",
            assumptions: USUAL,
            streams: vec![st("maps", 60000, 900000, gen_of!(c14_prof(), opts), c14_check)],
        },
        Prop {
            id: "C15",
            rule: "random nests of arrays, maps, objects and tuples; non-trivial: an array directly inside an array",
            assumptions: &["the shape of the known finding (array of maps, BigQuery) is excluded and counted"],
            streams: vec![st("nesting", 180000, 2500000, c15_gen, c15_check)],
        },
        Prop {
            id: "C16",
            rule: "random schemas rich in tuples, closed and open; non-trivial: with an item list",
            assumptions: USUAL,
            streams: vec![st("tuples", 120000, 1700000, c16_gen, c16_check)],
        },
        Prop {
            id: "C17",
            rule: "random schemas with patterns made from their own column paths; non-trivial: a JSON column appears",
            assumptions: &["a pattern that tells the possible names of the root itself apart is outside of the domain"],
            streams: vec![st("patterns", 50000, 700000, c17_gen, c17_check)],
        },
        Prop {
            id: "C18",
            rule: "random schemas with titles, descriptions and uninterpreted keywords everywhere; non-trivial: a column has a description",
            assumptions: USUAL,
            streams: vec![
                st("strip", 50000, 700000, gen_of!(c18_prof(), opts), c18_strip),
                st("descriptions", 60000, 800000, gen_of!(c18_prof(), cast_opts), c18_desc),
            ],
        },
        Prop {
            id: "C19",
            rule: "random schemas, command lines and inputs; non-trivial: with an argument, or a failure",
            assumptions: &["abbreviated and repeated options are not part of the property"],
            streams: vec![st("command lines", 50000, 700000, c19_gen, c19_check)],
        },
        Prop {
            id: "C20",
            rule: "schemas with random parts replaced by arbitrary JSON, wrong values of every interpreted keyword in eight positions, nesting up to the parser's limit; non-trivial: rejected, or deeper than 30",
            assumptions: &["maxItems is at most 2000"],
            streams: vec![
                st("arbitrary", 300000, 4000000, c20_gen, c20_check),
                st("exhaustive wrong keywords", 1 * wrong_count(), 20 * wrong_count(), c20_wrong_gen, c20_wrong),
                st("deep", 4000, 40000, c20_deep_gen, c20_deep),
            ],
        },
        Prop {
            id: "C22",
            rule: "random cores nested 4 to 36 times in every kind of container (and mixtures), and 8 to 128 parts of every kind, under random options; non-trivial: at least three sizes compared",
            assumptions: &["work is measured as bytes allocated, with processor time as a coarse second limit"],
            streams: vec![st("growth", 3000, 50000, c22_gen, c22_check)],
        },
        Prop {
            id: "C23",
            rule: "random supported schemas with four conforming documents each, through the ingestion helper script; non-trivial: a document longer than 30 characters",
            assumptions: &["the Python packages avro and fastavro are not installed here: stand-ins with the interface of avro-python3 check every datum against the schema", "no property with an empty name, which the helper refuses on purpose"],
            streams: vec![st("ingestion", 40000, 600000, c23_gen, c23_check)],
        },
        Prop {
            id: "C24",
            rule: "random trees of schemas (some failing or broken) with random flags, and data files, through the batch scripts in a scratch project; non-trivial: at least one schema",
            assumptions: &["rm is guarded and cargo does nothing in the scratch project; stand-ins for avro and fastavro", "file names without spaces"],
            streams: vec![st("batch", 1000, 15000, c24_gen, c24_check)],
        },
        Prop {
            id: "C25",
            rule: "random schemas and options, the options read from JSON text (fields in any order, defaults left out) against the same ones set in code, or one of them of a wrong value; non-trivial: another result than with the default options, or refused",
            assumptions: &["unknown fields are not part of the property"],
            streams: vec![st("options", 150000, 2000000, c25_gen, c25_check)],
        },
        Prop {
            id: "C21",
            rule: "every leaf type in random contexts, random sub-schemas alone and embedded, objects with one property changed, and full outputs against the model; non-trivial: at least one level of context or several nodes",
            assumptions: USUAL,
            streams: vec![
                st("exhaustive leaves", 230 * 23, 4600 * 23, c21_leaf_gen, c21_leaf),
                st("embedding", 40000, 600000, c21_embed_gen, c21_embed),
                st("siblings", 30000, 500000, c21_local_gen, c21_local),
                st("model", 40000, 600000, gen_of!(base(), cast_opts), c21_model),
            ],
        },
    ]
}

fn c22_check(_: &Env, c: &Case, l: &mut Labels) -> Out {
    let mut steps: Vec<(usize, Value)> = vec![];
    let what;
    if let Some(kinds) = c.aux.get("tower").and_then(Value::as_array) {
        if kinds.is_empty() || kinds.len() > 8 {
            return Err(Stop::Skip("no tower"));
        }
        for m in [2, 3, 4, 6, 8, 12, 16, 24, 32] {
            let k = m * kinds.len();
            if k < 4 || k > 36 {
                continue;
            }
            match tower(&c.schema, kinds, k) {
                Some(s) => steps.push((k, s)),
                None => return Err(Stop::Skip("no tower")),
            }
        }
        what = format!("nested in {:?}", kinds.iter().filter_map(Value::as_str).collect::<Vec<_>>());
        l.push(if kinds.len() > 1 { "mixed nesting" } else { "uniform nesting" });
    } else if let Some(kind) = c.aux.get("crowd").and_then(Value::as_str) {
        for n in [8, 16, 32, 64, 128] {
            match crowd(&c.schema, kind, n) {
                Some(s) => steps.push((n, s)),
                None => return Err(Stop::Skip("no crowd")),
            }
        }
        what = format!("as many {}", kind);
        l.push("many parts");
    } else {
        return Err(Stop::Skip("no growth"));
    }
    let mut last: Option<(usize, f64)> = None;
    // big schemas may well take seconds
    let fits = steps.iter().position(|(_, s)| s.to_string().len() > 150_000).unwrap_or(steps.len());
    if fits < 2 {
        return Err(Stop::Skip("too big to grow"));
    }
    steps.truncate(fits);
    for (k, s) in &steps {
        let (b, t) = work(s, &c.opts);
        if t > 3.0 {
            return fail(format!("{}, {} times: {:.1} s for a schema of {} bytes", what, k, t, s.to_string().len()));
        }
        if let Some((k0, b0)) = last {
            let grown = *k as f64 / k0 as f64;
            let bound = 1.6 * grown.powi(3);
            if b > b0 * bound && b > 1e6 {
                return fail(format!("{}: {} times instead of {} allocates {:.1} times as much ({} bytes)", what, k, k0, b / b0, b));
            }
        }
        last = Some((*k, b));
    }
    Ok(fits > 2)
}

// ================================================================ C23

fn c23_gen(env: &Env, seed: u64) -> Case {
    let mut c = mk(env, seed, Prof { messy: 35, ..c05_prof() }, cast_opts);
    c.opts.norm = false;
    c.aux = json!([seed % 1000, seed % 777, seed % 13, seed % 7]);
    c
}

fn empty_keys(v: &Value) -> bool {
    match v {
        Value::Object(m) => m.iter().any(|(k, v)| k.is_empty() || empty_keys(v)),
        Value::Array(l) => l.iter().any(empty_keys),
        _ => false,
    }
}

fn c23_check(env: &Env, c: &Case, l: &mut Labels) -> Out {
    let n = parsed(c)?;
    if c.opts.res != Res::Cast || c.opts.norm {
        return Err(Stop::Skip("not casting, or case normalisation"));
    }
    if requires_undeclared(&c.schema) {
        return Err(Stop::Skip("a required property is not declared"));
    }
    let a = match avro(&c.schema, &c.opts) {
        Ok(a) => a,
        Err(_) => return Err(Stop::Skip("rejected schema")),
    };
    labels(&n, l);
    let mut docs = vec![];
    for seed in c.aux.as_array().cloned().unwrap_or_default() {
        let mut r = Rng::new(seed.as_u64().unwrap_or(0));
        let extra = if r.pct(50) { 30 } else { 0 };
        crate::docs::EXTRA.with(|e| e.set(extra));
        let d = crate::docs::doc(&c.schema, &mut r, c.opts.tuple);
        crate::docs::EXTRA.with(|e| e.set(0));
        if empty_keys(&d) {
            l.push("excluded: document with an empty key");
        } else if crate::docs::encode_avro(&a, &without_undeclared(&d), false, "root").is_err() {
            // judged by C05
            l.push("excluded: document without an encoding");
        } else {
            docs.push(d);
        }
    }
    let style = c.aux[0].as_u64().unwrap_or(0) / 7 % 6;
    if !docs.is_empty() {
        l.push(["ASCII lines", "lines as they are", "no final line break", "CRLF lines", "blanks around", "lines as they are"][style as usize]);
    }
    let got = match crate::py::ingest(env, &json!({"avro": a, "text": data_file(&docs, style)})) {
        Some(g) => g,
        None => return fail("the ingestion helper takes its process down"),
    };
    if got.get("error").is_some() {
        return fail(format!("the ingestion helper fails on {:?}: {}", docs, got["error"]));
    }
    let none = vec![];
    let data = got["datums"].as_array().unwrap_or(&none);
    for (i, d) in docs.iter().enumerate() {
        match data.get(i) {
            Some(x) => err(crate::docs::check_datum(&a, d, x, "root"), "ingestion helper")?,
            None => return fail(format!("the ingestion helper writes {} of {} documents, not {}", data.len(), docs.len(), d)),
        }
    }
    if data.len() != docs.len() {
        return fail(format!("the ingestion helper writes {} records for {} documents", data.len(), docs.len()));
    }
    Ok(docs.iter().any(|d| d.to_string().len() > 30))
}

/// The text of a data file with these documents.
fn data_file(docs: &[Value], style: u64) -> String {
    let text: String = docs
        .iter()
        .map(|d| match style {
            0 => {
                let mut b = [0u16; 2];
                let escape = |c: char, b: &mut [u16; 2]| c.encode_utf16(b).iter().map(|u| format!("\\u{:04x}", u)).collect::<String>();
                d.to_string().chars().map(|c| if c.is_ascii() { c.to_string() } else { escape(c, &mut b) }).collect::<String>() + "\n"
            }
            3 => format!("{}\r\n", d),
            4 => format!("  {}\t\n", d),
            _ => format!("{}\n", d),
        })
        .collect();
    match style {
        2 => text.trim_end_matches('\n').to_string(),
        _ => text,
    }
}

fn without_undeclared(v: &Value) -> Value {
    match v {
        Value::Object(m) => m.iter().filter(|(k, _)| *k != "zz-undeclared.9key").map(|(k, v)| (k.clone(), without_undeclared(v))).collect(),
        Value::Array(l) => l.iter().map(without_undeclared).collect(),
        _ => v.clone(),
    }
}

// ================================================================ C24

fn c24_gen(env: &Env, seed: u64) -> Case {
    let mut r = Rng::new(seed ^ 0x24);
    let mut tree = vec![];
    let n = if r.pct(6) { r.range(7, 30) } else { r.below(6) };
    let mut used = std::collections::BTreeSet::new();
    for i in 0..n {
        let mut g = G::new(seed.wrapping_add(i as u64 * 77), Prof { budget: if n > 6 { 3 } else { 8 }, open: 8, under: 8, ..base() }, &env.dict);
        let mut s = g.schema();
        let ns = r.pick(&["telemetry", "org-mozilla", "webpagetest", "a_b", "avro", "data", "2x"]).to_string();
        let doc = r.pick(&["main", "event", "new-profile", "core", "schema", "Main", "schemas", "main2", "json", "my_ndjson", "x-avro-y", "ndjson"]).to_string();
        let ver = *r.pick(&[r.clone().range(1, 12), 1, 10, 20200101]);
        // the tree may have other levels above namespaces
        let under = *r.pick(&["", "", "", "", "extra", "vendor/more"]);
        if !used.insert(format!("{}.{}.{}", ns, doc, ver)) {
            continue;
        }
        if r.pct(10) {
            s = json!({"type": "object", "properties": {"refused_by_parser": {"type": "integer"}}});
        }
        let text = if r.pct(12) { json!("{\"type\": ") } else { Value::Null };
        // documents: none, conforming ones, or one that cannot be encoded
        let docs = *r.pick(&["none", "none", "good", "good", "bad", "broken", "empty"]);
        tree.push(json!({"ns": ns, "doc": doc, "ver": ver, "schema": s, "text": text, "docs": docs, "seed": r.below(1000), "under": under}));
    }
    let flags = if r.pct(40) { Value::Null } else { json!({"outdir": *r.pick(&["avro", "bq_schemas", "out/deep"]), "style": r.next() >> 16, "format": *r.pick(&["avro", "bigquery"])}) };
    let mut o = opts(&mut r);
    if flags.is_null() {
        o = cast();
    }
    Case { schema: json!({}), opts: o, aux: json!({"tree": tree, "flags": flags, "stale": r.pct(40), "from": *r.pick(&[".", ".", "scripts", "data"]), "other": r.pct(30), "log": r.pct(20)}) }
}

const RM: &str = "#!/bin/bash\n# a guarded rm: only below the scratch directory\nfor a in \"$@\"; do case \"$a\" in -*) ;; *) p=$(realpath -m -- \"$a\"); case \"$p\" in \"$JST_ROOT\"/?*) ;; *) echo \"refused $p\" >> \"$JST_ROOT/refused\"; exit 1;; esac;; esac; done\nexec /bin/rm \"$@\"\n";

fn script(root: &std::path::Path, from: &str, log: bool, program: &str, args: &[String]) -> Result<(Option<i32>, String, String), Stop> {
    let path = format!("{}:{}", root.join("bin").display(), std::env::var("PATH").unwrap_or_default());
    let o = std::process::Command::new(program)
        .args(args)
        .current_dir(root.join(from))
        .env("PATH", path)
        .env("JST_ROOT", root)
        .env("PYTHONPATH", format!("{}/harness/py/stubs", crate::verif()))
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("RUST_LOG", if log { "trace" } else { "off" })
        .stdin(std::process::Stdio::null())
        .output()
        .map_err(|_| Stop::Skip("spawn failed"))?;
    Ok((o.status.code(), String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into()))
}

fn listing(d: &std::path::Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into()).collect()).unwrap_or_default();
    v.sort();
    v
}

/// The totals, in the last line about any.
fn says(out: &str, errs: &str, total: &str) -> bool {
    let ratio = regex::Regex::new(r"(?:^|[^\w-])(\d+/\d+)\b").unwrap();
    let last = |t: &str| t.lines().rev().filter(|l| !l.contains(".json")).find_map(|l| ratio.captures(l).map(|m| m[1].to_string()));
    last(out).or_else(|| last(errs)).map_or(false, |t| t == total)
}

fn c24_check(env: &Env, c: &Case, l: &mut Labels) -> Out {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let i = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let root = env.scratch.join(format!("tree{}", i));
    let r = c24_in(env, c, l, &root);
    let _ = std::fs::remove_dir_all(&root);
    r
}

fn c24_in(env: &Env, c: &Case, l: &mut Labels, root: &std::path::Path) -> Out {
    use std::fs;
    let io = |_| Stop::Skip("scratch");
    for d in ["scripts", "schemas", "target/debug", "bin", "data"] {
        fs::create_dir_all(root.join(d)).map_err(io)?;
    }
    for f in ["mps-generate-schemas.sh", "mps-generate-avro-data.sh", "mps-generate-avro-data-helper.py", "mps-validate-avro-schemas.py"] {
        fs::copy(format!("/repo/scripts/{}", f), root.join("scripts").join(f)).map_err(io)?;
    }
    std::os::unix::fs::symlink(&env.cli, root.join("target/debug/jsonschema-transpiler")).map_err(io)?;
    for (f, text) in [("rm", RM), ("cargo", "#!/bin/bash\nexit 0\n")] {
        use std::os::unix::fs::PermissionsExt;
        fs::write(root.join("bin").join(f), text).map_err(io)?;
        fs::set_permissions(root.join("bin").join(f), fs::Permissions::from_mode(0o755)).map_err(io)?;
    }
    let none = vec![];
    let tree = c.aux["tree"].as_array().unwrap_or(&none);
    let names: Vec<String> = tree.iter().map(|t| format!("{}.{}.{}", t["ns"].as_str().unwrap_or("n"), t["doc"].as_str().unwrap_or("d"), t["ver"])).collect();
    for t in tree {
        let (ns, doc) = (t["ns"].as_str().unwrap_or("n"), t["doc"].as_str().unwrap_or("d"));
        let d = root.join("schemas").join(t["under"].as_str().unwrap_or("")).join(ns).join(doc);
        fs::create_dir_all(&d).map_err(io)?;
        let text = t["text"].as_str().map(String::from).unwrap_or(t["schema"].to_string());
        fs::write(d.join(format!("{}.{}.schema.json", doc, t["ver"])), text).map_err(io)?;
        fs::write(d.join("README.md"), "not a schema").map_err(io)?;
        if c.aux["other"] == true {
            for f in ["sample.1.json", "schema.json", "main.1.schema.json.orig", "main.1.schema_json", "main.1.schema.jsonx"] {
                fs::write(d.join(f), "{\"type\": \"integer\"}").map_err(io)?;
            }
        }
    }
    let flags = &c.aux["flags"];
    let fmt = flags["format"].as_str().unwrap_or("avro");
    let outdir = flags["outdir"].as_str().unwrap_or("avro");
    if !["avro", "bigquery"].contains(&fmt)
        || !["avro", "bq_schemas", "out/deep"].contains(&outdir)
        || tree.iter().any(|t| !t["ns"].is_string() || !t["doc"].is_string() || !t["ver"].is_u64())
        || tree.iter().any(|t| !["", "extra", "vendor/more"].contains(&t["under"].as_str().unwrap_or("")))
    {
        return Err(Stop::Skip("no case"));
    }
    let opts = if flags.is_null() { cast() } else { c.opts.clone() };
    // the library's results
    let convert = |t: &Value, fmt: &str, o: &MOpts| -> Conv {
        match t["text"].as_str() {
            Some(_) => Err("not JSON".into()),
            None if fmt == "avro" => avro(&t["schema"], o),
            None => bq(&t["schema"], o),
        }
    };
    let log = c.aux["log"] == true;
    let from = c.aux["from"].as_str().unwrap_or(".");
    if ![".", "scripts", "data"].contains(&from) {
        return Err(Stop::Skip("no case"));
    }
    let path_of = |s: &str| if from == "." { format!("scripts/{}", s) } else { format!("../scripts/{}", s) };
    let mut args: Vec<String> = vec![path_of("mps-generate-schemas.sh")];
    if !flags.is_null() {
        args.push(outdir.into());
        let cc = Case { schema: Value::Null, opts: opts.clone(), aux: json!({"style": flags["style"], "format": fmt, "input": "stdin"}) };
        args.extend(c19_args(&cc));
        if let Some(p) = root.join(outdir).parent() {
            fs::create_dir_all(p).map_err(io)?;
        }
    }
    if c.aux["stale"] == true {
        fs::create_dir_all(root.join(outdir)).map_err(io)?;
        fs::write(root.join(outdir).join("stale.schema.json"), "{}").map_err(io)?;
        let more = flags["style"].as_u64().unwrap_or(1) / 7;
        if more % 2 == 0 {
            fs::create_dir_all(root.join(outdir).join("old/more")).map_err(io)?;
            fs::write(root.join(outdir).join("old/more/stale.schema.json"), "{}").map_err(io)?;
        }
        if more % 3 == 0 {
            fs::write(root.join(outdir).join(".stale"), "{}").map_err(io)?;
            fs::write(root.join(outdir).join("notes.txt"), "stale").map_err(io)?;
        }
    }
    let (_, out, errs) = script(root, from, log, "bash", &args)?;
    let mut want: Vec<(String, String)> = vec![];
    for (t, n) in tree.iter().zip(&names) {
        if let Ok(v) = convert(t, fmt, &opts) {
            want.push((format!("{}.schema.json", n), serde_json::to_string_pretty(&v).unwrap() + "\n"));
        }
    }
    if want.len() < tree.len() {
        l.push("with failing schemas");
    }
    let files = listing(&root.join(outdir));
    let mut expected: Vec<String> = want.iter().map(|(n, _)| n.clone()).collect();
    expected.sort();
    if files != expected {
        return fail(format!("{:?} creates {:?} instead of {:?}", args, files, expected));
    }
    for (n, text) in &want {
        let got = fs::read_to_string(root.join(outdir).join(n)).unwrap_or_default();
        if got != *text {
            return fail(format!("{:?}: {} has {:?} instead of {:?}", args, n, got, text));
        }
    }
    let total = format!("{}/{}", want.len(), tree.len());
    if !says(&out, &errs, &total) {
        return fail(format!("{:?} reports {:?} instead of {:?}", args, out.lines().last(), total));
    }
    for (t, n) in tree.iter().zip(&names) {
        let path = format!("/{}/{}/{}.{}.schema.json", t["ns"].as_str().unwrap_or("n"), t["doc"].as_str().unwrap_or("d"), t["doc"].as_str().unwrap_or("d"), t["ver"]);
        let named = out.lines().chain(errs.lines()).any(|x| x.contains(&path));
        if named == expected.contains(&format!("{}.schema.json", n)) {
            return fail(format!("{:?} {} {} as failed", args, if named { "names" } else { "does not name" }, path));
        }
    }

    // the validation script
    let (_, out, errs) = script(root, ".", log, "python3", &["scripts/mps-validate-avro-schemas.py".into()])?;
    let plain: Vec<Conv> = tree.iter().map(|t| convert(t, "avro", &cast())).collect();
    let ok = plain.iter().filter(|x| x.is_ok()).count();
    let refused = plain.iter().flatten().filter(|v| v.to_string().contains("refused_by_parser")).count();
    let want = format!("{}/{} {}", refused, ok, tree.len() - ok);
    let counts = regex::Regex::new(r"(-?\d+)/(-?\d+)[^\d-]+(-?\d+)").unwrap();
    let said = |t: &str| t.lines().rev().find_map(|l| counts.captures(l).map(|m| format!("{}/{} {}", &m[1], &m[2], &m[3])));
    if said(&out).or_else(|| said(&errs)).as_ref() != Some(&want) {
        return fail(format!("the validation script says {:?} instead of {:?}", errs.lines().last(), want));
    }

    // documents into data files, with plain Avro schemas
    if outdir != "avro" || fmt != "avro" || opts_json(&opts) != opts_json(&cast()) {
        return Ok(!tree.is_empty());
    }
    let mut data: Vec<(String, Option<usize>)> = vec![];
    for ((t, n), a) in tree.iter().zip(&names).zip(&plain) {
        let kind = t["docs"].as_str().unwrap_or("none");
        let case = Case { schema: t["schema"].clone(), opts: cast(), aux: Value::Null };
        let sound = parsed(&case).is_ok() && !requires_undeclared(&t["schema"]) && a.is_ok() && t["text"].is_null();
        let mut docs: Vec<Value> = vec![];
        if kind == "good" || kind == "bad" || kind == "broken" {
            let mut r = Rng::new(t["seed"].as_u64().unwrap_or(0));
            for _ in 0..if r.pct(5) { r.range(20, 80) } else { r.range(1, 4) } {
                let d = if a.is_ok() { crate::docs::doc(&t["schema"], &mut r, false) } else { json!({}) };
                docs.push(d);
            }
        }
        let (kind, docs) = if kind == "none" || (kind != "empty" && !sound && a.is_ok()) || docs.iter().any(empty_keys) { ("none", vec![]) } else { (kind, docs) };
        if kind == "none" {
            continue;
        }
        let mut docs = docs;
        // the helper cannot do without a schema that parses
        let parses = a.as_ref().map_or(false, |v| !v.to_string().contains("refused_by_parser"));
        let mut count = if parses { Some(docs.len()) } else { None };
        if let (Ok(a), "bad") = (a, kind) {
            // a text where a record is due
            let records = avro_flat(a).get("root").map_or(false, |x| x.ty == "record");
            if records {
                let at = t["seed"].as_u64().unwrap_or(0) as usize % (docs.len() + 1);
                let first = &a["fields"][0];
                let wrong = match (first["name"].as_str(), at % 3) {
                    (Some(key), _) if first["type"]["type"] == "long" => json!({ key: "text" }),
                    (_, 0) => json!("text"),
                    (_, 1) => json!(17),
                    _ => json!(true),
                };
                docs.insert(at, wrong);
                count = None;
                l.push("with a document that does not fit");
            }
        }
        let mut lines: Vec<String> = docs.iter().map(|d| format!("{}\n", d)).collect();
        if kind == "broken" {
            // a line that is no document
            let seed = t["seed"].as_u64().unwrap_or(0) as usize;
            let line = ["{\"a\": \n", "\n", "{} {}\n", "not JSON\n"][seed % 4];
            lines.insert(seed / 4 % (lines.len() + 1), line.into());
            count = None;
            l.push("with a line that is no document");
        }
        let mut text = lines.concat();
        match t["seed"].as_u64().unwrap_or(0) / 3 % 5 {
            0 if kind == "good" => text = text.trim_end_matches('\n').to_string(),
            1 => text = text.replace('\n', "\r\n"),
            _ => {}
        }
        fs::write(root.join("data").join(format!("{}.ndjson", n)), text).map_err(io)?;
        data.push((n.clone(), count));
    }
    if data.is_empty() {
        return Ok(!tree.is_empty());
    }
    l.push("with documents");
    let (_, out, errs) = script(root, from, log, "bash", &[path_of("mps-generate-avro-data.sh")])?;
    let files = listing(&root.join("avro-data"));
    let mut expected: Vec<String> = data.iter().filter(|(_, c)| c.is_some()).map(|(n, _)| format!("{}.avro", n)).collect();
    expected.sort();
    if files != expected {
        return fail(format!("the data script creates {:?} instead of {:?}", files, expected));
    }
    for (n, count) in &data {
        if let Some(k) = count {
            let lines = fs::read_to_string(root.join("avro-data").join(format!("{}.avro", n))).unwrap_or_default().lines().count();
            if lines != *k {
                return fail(format!("{}.avro has {} records for {} documents", n, lines, k));
            }
        }
    }
    let total = format!("{}/{}", expected.len(), data.len());
    if !says(&out, &errs, &total) {
        return fail(format!("the data script reports {:?} instead of {:?}", out.lines().last(), total));
    }
    if root.join("refused").exists() {
        return fail("a script removes files outside of the project");
    }
    Ok(true)
}

/// for calibration
pub fn measure() {
    let core = json!({"type": "integer"});
    for res in [Res::Cast, Res::Drop] {
        for norm in [false, true] {
            let o = MOpts { tuple: true, res, norm, ..cast() };
            for w in WRAPS {
                let ks = [json!(w)];
                let mut line = format!("{:?} {} {:10}", res as u8, norm, w);
                let mut last = 0.0;
                for k in [4, 8, 16, 32, 60] {
                    let s = tower(&core, &ks, k).unwrap();
                    let (b, t) = work(&s, &o);
                    line += &format!(" {}:{:.0}K {:.1}ms x{:.1}", k, b / 1e3, t * 1e3, if last > 0.0 { b / last } else { 0.0 });
                    last = b;
                }
                println!("{}", line);
            }
            for w in WIDE {
                let mut line = format!("{:?} {} {:10}", res as u8, norm, w);
                let mut last = 0.0;
                for k in [8, 32, 128, 512] {
                    let s = crowd(&core, w, k).unwrap();
                    let (b, t) = work(&s, &o);
                    line += &format!(" {}:{:.0}K {:.1}ms x{:.1}", k, b / 1e3, t * 1e3, if last > 0.0 { b / last } else { 0.0 });
                    last = b;
                }
                println!("{}", line);
            }
        }
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = out::ALL;
}
