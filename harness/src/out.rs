//! Predicates and projections over the two output formats.
use crate::model::UNSPEC;
use serde_json::{Map as JMap, Value};
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), String>;

pub fn legal_name(s: &str) -> bool {
    let mut it = s.chars();
    it.next().map_or(false, |c| c.is_ascii_alphabetic() || c == '_') && it.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

fn only_keys(m: &JMap<String, Value>, allowed: &[&str], what: &str) -> R {
    for k in m.keys() {
        if !allowed.contains(&k.as_str()) {
            return Err(format!("{}: unexpected attribute {:?}", what, k));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- Avro validity

const PRIMS: &[&str] = &["null", "boolean", "int", "long", "float", "double", "bytes", "string"];

pub fn avro_valid(v: &Value) -> R {
    let mut seen = BTreeSet::new();
    avro_type(v, &mut seen, "$", false)
}

/// does this (valid) type admit null
pub fn avro_nullable(v: &Value) -> bool {
    match v {
        Value::String(s) => s == "null",
        Value::Object(m) => m.get("type").and_then(Value::as_str) == Some("null"),
        Value::Array(l) => l.iter().any(avro_nullable),
        _ => false,
    }
}

fn avro_type(v: &Value, seen: &mut BTreeSet<String>, at: &str, in_union: bool) -> R {
    match v {
        Value::String(s) => {
            if PRIMS.contains(&s.as_str()) {
                Ok(())
            } else {
                Err(format!("{}: unknown type name {:?}", at, s))
            }
        }
        Value::Array(l) => {
            if in_union {
                return Err(format!("{}: a union directly inside a union", at));
            }
            if l.len() != 2 || !avro_nullable(&l[0]) || l[0].is_array() || avro_nullable(&l[1]) {
                return Err(format!("{}: a union must be null and one other type", at));
            }
            avro_type(&l[0], seen, &format!("{}|0", at), true)?;
            avro_type(&l[1], seen, &format!("{}|1", at), true)
        }
        Value::Object(m) => {
            let t = match m.get("type") {
                Some(Value::String(t)) => t.as_str(),
                _ => return Err(format!("{}: type attribute is not a name: {:?}", at, m.get("type"))),
            };
            match t {
                "record" => {
                    only_keys(m, &["type", "name", "namespace", "fields", "doc", "aliases"], at)?;
                    let name = m.get("name").and_then(Value::as_str).ok_or(format!("{}: record without name", at))?;
                    if !legal_name(name) {
                        return Err(format!("{}: illegal record name {:?}", at, name));
                    }
                    let full = match m.get("namespace") {
                        None => name.to_string(),
                        Some(Value::String(ns)) => {
                            if !ns.split('.').all(legal_name) {
                                return Err(format!("{}: illegal namespace {:?}", at, ns));
                            }
                            format!("{}.{}", ns, name)
                        }
                        _ => return Err(format!("{}: namespace is not a string", at)),
                    };
                    if !seen.insert(full.clone()) {
                        return Err(format!("{}: record {} defined twice", at, full));
                    }
                    let fields =
                        m.get("fields").and_then(Value::as_array).ok_or(format!("{}: record without fields", at))?;
                    let mut names = BTreeSet::new();
                    for f in fields {
                        let f = f.as_object().ok_or(format!("{}: field is not an object", at))?;
                        only_keys(f, &["name", "type", "default", "doc"], at)?;
                        let n = f.get("name").and_then(Value::as_str).ok_or(format!("{}: field without name", at))?;
                        if !legal_name(n) {
                            return Err(format!("{}: illegal field name {:?}", at, n));
                        }
                        if !names.insert(n.to_string()) {
                            return Err(format!("{}: field {:?} twice", at, n));
                        }
                        let at = format!("{}.{}", at, n);
                        let t = f.get("type").ok_or(format!("{}: field without type", at))?;
                        avro_type(t, seen, &at, false)?;
                        if let Some(d) = f.get("default") {
                            if !d.is_null() {
                                return Err(format!("{}: default is not null", at));
                            }
                            if !avro_nullable(t) {
                                return Err(format!("{}: null default on a type without null", at));
                            }
                        }
                    }
                    Ok(())
                }
                "array" => {
                    only_keys(m, &["type", "items"], at)?;
                    let i = m.get("items").ok_or(format!("{}: array without items", at))?;
                    avro_type(i, seen, &format!("{}[]", at), false)
                }
                "map" => {
                    only_keys(m, &["type", "values"], at)?;
                    let i = m.get("values").ok_or(format!("{}: map without values", at))?;
                    avro_type(i, seen, &format!("{}{{}}", at), false)
                }
                p if PRIMS.contains(&p) => only_keys(m, &["type"], at),
                o => Err(format!("{}: illegal type {:?}", at, o)),
            }
        }
        _ => Err(format!("{}: not a schema: {}", at, v)),
    }
}

// ---------------------------------------------------------------- BigQuery validity

const BQ_ATOMS: &[&str] = &[
    "INT64", "NUMERIC", "FLOAT64", "BOOL", "STRING", "BYTES", "DATE", "DATETIME", "GEOGRAPHY", "TIME", "TIMESTAMP",
    "JSON",
];

pub fn bq_valid(v: &Value) -> R {
    let l = v.as_array().ok_or("the result is not an array")?;
    if l.is_empty() {
        return Err("no columns".into());
    }
    bq_cols(l, "")
}

fn bq_cols(l: &[Value], at: &str) -> R {
    let mut last: Option<String> = None;
    for c in l {
        let m = c.as_object().ok_or(format!("{}: column is not an object", at))?;
        only_keys(m, &["name", "type", "mode", "fields", "description"], at)?;
        let name = m.get("name").and_then(Value::as_str).ok_or(format!("{}: column without name", at))?;
        let at = if at.is_empty() { name.to_string() } else { format!("{}.{}", at, name) };
        if !legal_name(name) {
            return Err(format!("{}: illegal column name", at));
        }
        if let Some(p) = &last {
            if p.as_str() == name {
                return Err(format!("{}: column name twice", at));
            }
            if p.as_str() > name {
                return Err(format!("{}: columns are not sorted ({:?} before {:?})", at, p, name));
            }
        }
        last = Some(name.to_string());
        let t = m.get("type").and_then(Value::as_str).ok_or(format!("{}: column without type", at))?;
        match m.get("mode").and_then(Value::as_str) {
            Some("NULLABLE") | Some("REQUIRED") | Some("REPEATED") => {}
            o => return Err(format!("{}: illegal mode {:?}", at, o)),
        }
        match (t, m.get("fields")) {
            ("RECORD", Some(Value::Array(f))) if !f.is_empty() => bq_cols(f, &at)?,
            ("RECORD", f) => return Err(format!("{}: RECORD with fields {:?}", at, f)),
            (_, Some(_)) => return Err(format!("{}: {} with fields", at, t)),
            (t, None) => {
                if !BQ_ATOMS.contains(&t) {
                    return Err(format!("{}: illegal type {:?}", at, t));
                }
            }
        }
        match m.get("description") {
            None => {}
            Some(Value::String(s)) => {
                if s.chars().count() > 1024 {
                    return Err(format!("{}: description of {} characters", at, s.chars().count()));
                }
            }
            o => return Err(format!("{}: description {:?}", at, o)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- projections

#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub ty: String,
    /// REPEATED / REQUIRED / NULLABLE; for Avro REQUIRED / NULLABLE
    pub mode: String,
    pub desc: Option<String>,
    /// record full name and default (Avro)
    pub full: Option<String>,
    pub default: Option<Value>,
    pub is_field: bool,
}

pub type Flat = BTreeMap<String, Col>;

pub fn bq_flat(v: &Value) -> Flat {
    fn go(l: &Value, at: &str, out: &mut Flat) {
        for c in l.as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
            let s = |k: &str| c[k].as_str().unwrap_or("?").to_string();
            let p = format!("{}.{}", at, s("name"));
            out.insert(
                p.clone(),
                Col {
                    ty: s("type"),
                    mode: s("mode"),
                    desc: c.get("description").map(|d| d.as_str().unwrap_or("?").to_string()),
                    full: None,
                    default: None,
                    is_field: true,
                },
            );
            if let Some(f) = c.get("fields") {
                go(f, &p, out);
            }
        }
    }
    let mut out = Flat::new();
    go(v, "", &mut out);
    out
}

pub fn avro_flat(v: &Value) -> Flat {
    fn go(v: &Value, at: String, out: &mut Flat, is_field: bool, default: Option<Value>) {
        let (t, nullable) = match v {
            Value::Array(l) if l.len() == 2 => (&l[1], true),
            v => (v, avro_nullable(v)),
        };
        let kind = match t {
            Value::String(s) => s.clone(),
            _ => t["type"].as_str().unwrap_or("?").to_string(),
        };
        let full = t["name"].as_str().map(|n| match t["namespace"].as_str() {
            Some(ns) => format!("{}.{}", ns, n),
            None => n.to_string(),
        });
        out.insert(
            at.clone(),
            Col {
                ty: kind.clone(),
                mode: if nullable { "NULLABLE" } else { "REQUIRED" }.into(),
                desc: None,
                full,
                default,
                is_field,
            },
        );
        match kind.as_str() {
            "record" => {
                for f in t["fields"].as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
                    let n = f["name"].as_str().unwrap_or("?");
                    go(&f["type"], format!("{}.{}", at, n), out, true, f.get("default").cloned());
                }
            }
            "array" => go(&t["items"], format!("{}[]", at), out, false, None),
            "map" => go(&t["values"], format!("{}{{}}", at), out, false, None),
            _ => {}
        }
    }
    let mut out = Flat::new();
    go(v, "root".into(), &mut out, false, None);
    out
}

#[derive(Clone, Copy, Default)]
pub struct Mask {
    pub paths: bool,
    pub types: bool,
    pub nulls: bool,
    pub rep: bool,
    pub desc: bool,
    pub full: bool,
}

pub const ALL: Mask = Mask { paths: true, types: true, nulls: true, rep: true, desc: true, full: true };
pub const NODESC: Mask = Mask { paths: true, types: true, nulls: true, rep: true, desc: false, full: true };
pub const NULLS: Mask = Mask { paths: false, types: false, nulls: true, rep: false, desc: false, full: false };
pub const DESC: Mask = Mask { paths: false, types: false, nulls: false, rep: false, desc: true, full: false };

/// Compares what was produced with what was expected.
pub fn same(got: &Flat, want: &Flat, m: Mask) -> R {
    if m.paths {
        for k in want.keys() {
            if !got.contains_key(k) {
                return Err(format!("column {} is missing", k));
            }
        }
        for k in got.keys() {
            if !want.contains_key(k) {
                return Err(format!("column {} is not expected", k));
            }
        }
    }
    for (k, w) in want {
        let g = match got.get(k) {
            Some(g) => g,
            None => continue,
        };
        if m.types && g.ty != w.ty {
            return Err(format!("column {} has type {} instead of {}", k, g.ty, w.ty));
        }
        let rep = |c: &Col| c.mode == "REPEATED";
        if m.rep && rep(g) != rep(w) {
            return Err(format!("column {} has mode {} instead of {}", k, g.mode, w.mode));
        }
        if m.nulls && !rep(g) && !rep(w) {
            if g.mode != w.mode {
                return Err(format!("column {} is {} instead of {}", k, g.mode, w.mode));
            }
            if g.default != w.default {
                return Err(format!("column {} has default {:?} instead of {:?}", k, g.default, w.default));
            }
        }
        if m.full && g.ty == w.ty && g.full != w.full {
            return Err(format!("record {} is named {:?} instead of {:?}", k, g.full, w.full));
        }
        if m.desc && w.desc.as_deref() != Some(UNSPEC) && g.desc != w.desc {
            return Err(format!("column {} has description {:?} instead of {:?}", k, g.desc, w.desc));
        }
    }
    Ok(())
}

/// The same output without descriptions.
pub fn no_desc(v: &Value) -> Value {
    match v {
        Value::Array(l) => Value::Array(l.iter().map(no_desc).collect()),
        Value::Object(m) => {
            let is_col = m.contains_key("mode") && m.contains_key("name");
            Value::Object(
                m.iter()
                    .filter(|(k, _)| !(is_col && k.as_str() == "description"))
                    .map(|(k, v)| (k.clone(), no_desc(v)))
                    .collect(),
            )
        }
        v => v.clone(),
    }
}

// ---------------------------------------------------------------- Avro against BigQuery

fn find<'v>(l: &'v Value, name: &str) -> Option<&'v Value> {
    l.as_array()?.iter().find(|c| c["name"] == name)
}

/// The root of both outputs.
pub fn same_table(avro: &Value, bq: &Value) -> R {
    let (t, _) = strip(avro);
    let cols = bq.as_array().ok_or("not a list of columns")?;
    if kind(t) == "record" {
        same_fields(t, bq, "")
    } else {
        if cols.len() != 1 || cols[0]["name"] != "root" {
            return Err(format!("Avro root is {}, but BigQuery has {} column(s)", kind(t), cols.len()));
        }
        same_col(avro, &cols[0], "root")
    }
}

fn strip(v: &Value) -> (&Value, bool) {
    match v {
        Value::Array(l) if l.len() == 2 => (&l[1], true),
        v => (v, false),
    }
}

fn kind(t: &Value) -> &str {
    t.as_str().or(t["type"].as_str()).unwrap_or("?")
}

fn same_fields(t: &Value, cols: &Value, at: &str) -> R {
    let names = |l: &Value| -> Vec<String> {
        let mut v: Vec<String> = l
            .as_array()
            .map(|v| v.iter().map(|f| f["name"].as_str().unwrap_or("?").to_string()).collect())
            .unwrap_or_default();
        v.sort();
        v
    };
    let (a, b) = (names(&t["fields"]), names(cols));
    if a != b {
        return Err(format!("{}: Avro fields {:?}, BigQuery columns {:?}", at, a, b));
    }
    for f in t["fields"].as_array().unwrap() {
        let n = f["name"].as_str().unwrap_or("?");
        same_col(&f["type"], find(cols, n).unwrap(), &format!("{}.{}", at, n))?;
    }
    Ok(())
}

/// an Avro type against a BigQuery column
fn same_col(a: &Value, c: &Value, at: &str) -> R {
    let (t, nullable) = strip(a);
    let k = kind(t);
    let repeated = c["mode"] == "REPEATED";
    if repeated != (k == "array" || k == "map") {
        return Err(format!("{}: Avro {} but BigQuery mode {}", at, k, c["mode"]));
    }
    if !repeated && (nullable || k == "null") != (c["mode"] == "NULLABLE") {
        return Err(format!("{}: Avro nullable={} but BigQuery mode {}", at, nullable || k == "null", c["mode"]));
    }
    match k {
        "map" => same_entry(&t["values"], c, at),
        "array" => {
            let (i, _) = strip(&t["items"]);
            if kind(i) == "map" || kind(i) == "array" {
                return Err(format!("{}: {} directly inside an Avro array", at, kind(i)));
            }
            same_type(i, c, at)
        }
        _ => same_type(t, c, at),
    }
}

fn same_entry(values: &Value, c: &Value, at: &str) -> R {
    let f = &c["fields"];
    let names: Vec<&str> =
        f.as_array().map(|l| l.iter().filter_map(|c| c["name"].as_str()).collect()).unwrap_or_default();
    if c["type"] != "RECORD" || names != ["key", "value"] {
        return Err(format!("{}: Avro map, but BigQuery {} with {:?}", at, c["type"], names));
    }
    if f[0]["type"] != "STRING" {
        return Err(format!("{}: map key is {}", at, f[0]["type"]));
    }
    same_col(values, &f[1], &format!("{}{{}}", at))
}

fn same_type(t: &Value, c: &Value, at: &str) -> R {
    let k = kind(t);
    let want: &[&str] = match k {
        "null" => &["STRING"],
        "boolean" => &["BOOL"],
        "long" => &["INT64"],
        "double" => &["FLOAT64"],
        "bytes" => &["BYTES"],
        "string" => &["STRING", "TIMESTAMP", "JSON"],
        "record" => {
            if c["type"] != "RECORD" {
                return Err(format!("{}: Avro record but BigQuery {}", at, c["type"]));
            }
            return same_fields(t, &c["fields"], at);
        }
        _ => &[],
    };
    if want.iter().any(|w| c["type"] == *w) {
        Ok(())
    } else {
        Err(format!("{}: Avro {} but BigQuery {}", at, k, c["type"]))
    }
}
