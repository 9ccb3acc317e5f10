//! Documents that conform to a schema, and reference encoders that load them
//! into the generated schemas with the documented ingestion rules.
use crate::gen::{any_char, text};
use crate::model::column_name;
use crate::rng::Rng;
use serde_json::{json, Map as JMap, Value};
use std::collections::BTreeSet;

fn present<'a>(s: &'a Value, key: &str) -> Option<&'a Value> {
    s.get(key).filter(|v| !v.is_null())
}

thread_local! {
    /// percentage of objects that also get a key that is not declared
    pub static EXTRA: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

fn int(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => i64::MAX,
        1 => i64::MIN,
        2 => 0,
        _ => r.below(2000) as i64 - 1000,
    }
}

fn words(r: &mut Rng) -> String {
    match r.below(10) {
        0..=4 => r.pick(&["", "text", "null", "日本", "{\"json\": 1}", "aGVsbG8=", "true", "0", "[]", "é", " ", "\\n", "a\nb"]).to_string(),
        5 => text(r),
        6 | 7 => {
            let w = crate::dict::word(r).unwrap_or_default();
            if r.pct(50) { w } else { format!("{} {}", w, r.pick(&["x", "NaN", "Infinity", "//", "#", "\r\n", "None"])) }
        }
        _ => (0..r.range(1, 6)).map(|_| any_char(r)).collect(),
    }
}

fn anything(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 { 4 } else { 6 }) {
        0 => json!(int(r)),
        1 => json!(r.pct(50)),
        2 if r.pct(70) => json!(words(r)),
        // long texts
        2 if r.pct(3) => json!("x".repeat(*r.pick(&[300usize, 1100, 5000, 17000, 40000, 70000]))),
        2 => json!("any text"),
        3 => json!(1.5),
        4 => json!([anything(r, 0), null, {"x": anything(r, d - 1)}]),
        _ => {
            let (k, v) = (words(r), anything(r, d - 1));
            match k.as_str() {
                "" => json!({"k": v, "other key": null}),
                _ => json!({"k": anything(r, d - 1), "other key": null, k: v}),
            }
        }
    }
}

/// A document for this schema that only uses declared properties.
pub fn doc(s: &Value, r: &mut Rng, tuple: bool) -> Value {
    let atom = match s.get("type") {
        Some(Value::String(t)) => t.clone(),
        Some(Value::Array(l)) if !l.is_empty() => r.pick(l).as_str().unwrap_or("null").to_string(),
        _ => "untyped".into(),
    };
    match atom.as_str() {
        "null" => Value::Null,
        "boolean" => json!(r.pct(50)),
        "integer" => json!(int(r)),
        "number" => match r.below(4) {
            0 => json!(int(r)),
            1 => json!(-0.0),
            2 => json!(1e300),
            _ => json!(r.below(1000) as f64 / 8.0),
        },
        "string" => match s.get("format").and_then(Value::as_str) {
            Some("date-time") => json!("2019-02-03T04:05:06.789Z"),
            _ => json!(words(r)),
        },
        "date-time" => json!("2019-02-03T04:05:06Z"),
        "bytes" => json!(words(r)),
        "array" => array(s, r, tuple),
        o => object(s, r, tuple, o == "untyped"),
    }
}

fn object(s: &Value, r: &mut Rng, tuple: bool, untyped: bool) -> Value {
    if let Some(p) = present(s, "properties").and_then(Value::as_object) {
        let req: BTreeSet<&str> = s
            .get("required")
            .and_then(Value::as_array)
            .map(|l| l.iter().filter_map(Value::as_str).collect())
            .unwrap_or_default();
        let keep = *r.pick(&[0u32, 30, 60, 100]);
        let mut m = JMap::new();
        for (k, v) in p {
            if req.contains(k.as_str()) || r.pct(keep) {
                m.insert(k.clone(), doc(v, r, tuple));
            }
        }
        if r.pct(EXTRA.with(|e| e.get())) {
            m.insert("zz-undeclared.9key".into(), anything(r, 1));
        }
        return Value::Object(m);
    }
    let add = present(s, "additionalProperties").filter(|a| a.is_object());
    let pat = present(s, "patternProperties").and_then(Value::as_object).filter(|p| !p.is_empty());
    if add.is_some() || pat.is_some() {
        let mut m = JMap::new();
        for i in 0..r.below(4) {
            // keys that match exactly one schema: patterns are "^p<i>_"
            let mut choices: Vec<(String, &Value)> = vec![];
            if let Some(a) = add {
                // any text is a key of a map
                let key = match r.below(6) {
                    0 => format!("{}-key.{}", i, i),
                    1 => format!("aB{}", i),
                    2 => format!("\u{e9}\"\u{65e5}{}", i),
                    3 => format!("{}", i),
                    _ => format!("free key {}", i),
                };
                choices.push((key, a));
            }
            for (k, v) in pat.into_iter().flatten() {
                choices.push((format!("{}{}", k.trim_start_matches('^'), i), v));
            }
            let (k, v) = r.pick(&choices).clone();
            m.insert(k, doc(v, r, tuple));
        }
        return Value::Object(m);
    }
    if let Some(l) = present(s, "oneOf").and_then(Value::as_array).filter(|l| !l.is_empty()) {
        return doc(r.pick(l), r, tuple);
    }
    if untyped {
        anything(r, 2)
    } else {
        json!({"free": anything(r, 1)})
    }
}

fn array(s: &Value, r: &mut Rng, tuple: bool) -> Value {
    match present(s, "items") {
        Some(Value::Array(items)) if tuple => {
            let len = items.len();
            let num = |k: &str| present(s, k).and_then(Value::as_u64).map(|v| v as usize);
            let add = present(s, "additionalItems").filter(|a| a.is_object());
            let most = if add.is_some() { num("maxItems").unwrap_or(len).max(len) } else { len };
            // without minItems the whole tuple is expected
            let least = num("minItems").unwrap_or(len).min(most);
            let n = r.range(least, most);
            Value::Array(
                (0..n)
                    .map(|i| doc(if i < len { &items[i] } else { add.unwrap() }, r, tuple))
                    .collect(),
            )
        }
        Some(i) if i.is_object() => {
            let n = r.below(4);
            Value::Array((0..n).map(|_| doc(i, r, tuple)).collect())
        }
        _ => json!([anything(r, 1), 2]),
    }
}

// ---------------------------------------------------------------- encoders

type R = Result<(), String>;

fn strip(v: &Value) -> (&Value, bool) {
    match v {
        Value::Array(l) if l.len() == 2 => (&l[1], true),
        v => (v, false),
    }
}

fn scalar(ty: &str, v: &Value, at: &str) -> R {
    let ok = match ty {
        "boolean" | "BOOL" => v.is_boolean(),
        "long" | "INT64" => v.as_i64().is_some(),
        "double" | "FLOAT64" => v.is_number(),
        "bytes" | "BYTES" | "TIMESTAMP" => v.is_string(),
        // anything can be serialised to text
        "string" | "STRING" | "JSON" => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{}: value {} does not fit type {}", at, v, ty))
    }
}

/// The members of a struct for a JSON object or a tuple, renamed.
fn members<'v>(v: &'v Value, cols: &BTreeSet<String>, norm: bool, at: &str) -> Result<Vec<(String, &'v Value)>, String> {
    let out: Vec<(String, &Value)> = match v {
        Value::Object(m) => m.iter().filter_map(|(k, v)| column_name(k, norm).map(|c| (c, v))).collect(),
        Value::Array(l) => l.iter().enumerate().map(|(i, v)| (format!("f{}_", i), v)).collect(),
        _ => return Err(format!("{}: value {} does not fit a record", at, v)),
    };
    for (k, _) in &out {
        if !cols.contains(k) {
            return Err(format!("{}: no column for the declared value {}", at, k));
        }
    }
    Ok(out)
}

pub fn encode_avro(t: &Value, v: &Value, norm: bool, at: &str) -> R {
    let (t, nullable) = strip(t);
    let kind = t.as_str().or(t["type"].as_str()).unwrap_or("?");
    if kind == "record" && !nullable && v.is_null() && t["fields"].as_array().map_or(false, |f| f.len() == 1 && f[0]["name"] == "list") {
        // a missing inner array is a wrapper with a null list
        return encode_avro(&t["fields"][0]["type"], v, norm, &format!("{}.list", at));
    }
    if v.is_null() {
        return if nullable || kind == "null" {
            Ok(())
        } else {
            Err(format!("{}: null in a required Avro {}", at, kind))
        };
    }
    match kind {
        "record" => {
            let empty = vec![];
            let fields = t["fields"].as_array().unwrap_or(&empty);
            let cols: BTreeSet<String> = fields.iter().map(|f| f["name"].as_str().unwrap_or("?").to_string()).collect();
            if v.is_array() && cols.len() == 1 && cols.contains("list") {
                return encode_avro(&fields[0]["type"], v, norm, &format!("{}.list", at));
            }
            let given = members(v, &cols, norm, at)?;
            for f in fields {
                let n = f["name"].as_str().unwrap_or("?");
                let at = format!("{}.{}", at, n);
                match given.iter().find(|(k, _)| k == n) {
                    Some((_, v)) => encode_avro(&f["type"], v, norm, &at)?,
                    None => {
                        if f.get("default") != Some(&Value::Null) {
                            return Err(format!("{}: required Avro field without a value", at));
                        }
                    }
                }
            }
            Ok(())
        }
        "array" => match v.as_array() {
            Some(l) => l.iter().try_for_each(|v| encode_avro(&t["items"], v, norm, &format!("{}[]", at))),
            None => Err(format!("{}: value {} does not fit an Avro array", at, v)),
        },
        "map" => match v.as_object() {
            Some(m) => m.values().try_for_each(|v| encode_avro(&t["values"], v, norm, &format!("{}{{}}", at))),
            None => Err(format!("{}: value {} does not fit an Avro map", at, v)),
        },
        k => scalar(k, v, at),
    }
}

pub fn encode_bq_row(cols: &Value, v: &Value, norm: bool, record_root: bool) -> R {
    if record_root {
        bq_struct(cols, v, norm, "")
    } else {
        bq_col(&cols[0], v, norm, "root")
    }
}

fn bq_struct(cols: &Value, v: &Value, norm: bool, at: &str) -> R {
    let empty = vec![];
    let cols = cols.as_array().unwrap_or(&empty);
    let names: BTreeSet<String> = cols.iter().map(|f| f["name"].as_str().unwrap_or("?").to_string()).collect();
    if v.is_array() && names.len() == 1 && names.contains("list") {
        return bq_col(&cols[0], v, norm, &format!("{}.list", at));
    }
    let given = members(v, &names, norm, at)?;
    for c in cols {
        let n = c["name"].as_str().unwrap_or("?");
        let at = format!("{}.{}", at, n);
        match given.iter().find(|(k, _)| k == n) {
            Some((_, v)) => bq_col(c, v, norm, &at)?,
            None => {
                if c["mode"] == "REQUIRED" {
                    return Err(format!("{}: REQUIRED column without a value", at));
                }
            }
        }
    }
    Ok(())
}

fn bq_col(c: &Value, v: &Value, norm: bool, at: &str) -> R {
    if c["mode"] == "REPEATED" {
        return match v {
            Value::Null => Ok(()),
            Value::Array(l) => l.iter().try_for_each(|v| {
                // a null element is left out
                if v.is_null() {
                    Ok(())
                } else {
                    bq_value(c, v, norm, &format!("{}[]", at))
                }
            }),
            Value::Object(m) => {
                let f = &c["fields"];
                if f.as_array().map_or(0, Vec::len) != 2 || f[0]["name"] != "key" || f[1]["name"] != "value" {
                    return Err(format!("{}: object {} in a REPEATED column that is not a map", at, v));
                }
                m.values().try_for_each(|v| bq_col(&f[1], v, norm, &format!("{}{{}}", at)))
            }
            _ => Err(format!("{}: value {} does not fit a REPEATED column", at, v)),
        };
    }
    if v.is_null() {
        return if c["mode"] == "NULLABLE" {
            Ok(())
        } else {
            Err(format!("{}: null in a {} column", at, c["mode"]))
        };
    }
    bq_value(c, v, norm, at)
}

fn bq_value(c: &Value, v: &Value, norm: bool, at: &str) -> R {
    match c["type"].as_str().unwrap_or("?") {
        "RECORD" => bq_struct(&c["fields"], v, norm, at),
        t => scalar(t, v, at),
    }
}

// ---------------------------------------------------------------- data made by the ingestion helper

/// Is this datum what the document becomes under this Avro schema?
pub fn check_datum(t: &Value, v: &Value, d: &Value, at: &str) -> R {
    let (t, nullable) = strip(t);
    let kind = t.as_str().or(t["type"].as_str()).unwrap_or("?");
    let wrapper = kind == "record" && t["fields"].as_array().map_or(false, |f| f.len() == 1 && f[0]["name"] == "list");
    let bad = || Err(format!("{}: {} becomes {} in an Avro {}", at, v, d, kind));
    if v.is_null() {
        return match kind {
            _ if nullable => if d.is_null() { Ok(()) } else { bad() },
            "null" => if d.is_null() { Ok(()) } else { bad() },
            "string" => if d == "null" { Ok(()) } else { bad() },
            "record" if wrapper => if d.as_object().map_or(false, |m| m.values().all(Value::is_null)) { Ok(()) } else { bad() },
            _ => bad(),
        };
    }
    match kind {
        "record" => {
            let m = match d.as_object() {
                Some(m) => m,
                None => return bad(),
            };
            let empty = vec![];
            let fields = t["fields"].as_array().unwrap_or(&empty);
            let given: Vec<(String, &Value)> = match v {
                Value::Array(_) if wrapper => vec![("list".to_string(), v)],
                Value::Array(l) => l.iter().enumerate().map(|(i, v)| (format!("f{}_", i), v)).collect(),
                Value::Object(o) => o.iter().filter_map(|(k, v)| column_name(k, false).map(|c| (c, v))).collect(),
                _ => return bad(),
            };
            let mut n = 0;
            for f in fields {
                let name = f["name"].as_str().unwrap_or("?");
                let got = m.get(name);
                n += got.is_some() as usize;
                match given.iter().find(|(k, _)| k == name) {
                    Some((_, x)) => check_datum(&f["type"], x, got.unwrap_or(&Value::Null), &format!("{}.{}", at, name))?,
                    None if got.map_or(true, Value::is_null) => (),
                    None => return Err(format!("{}: a value for {} out of nothing: {}", at, name, d)),
                }
            }
            if n != m.len() {
                return Err(format!("{}: a value without a field: {}", at, d));
            }
            Ok(())
        }
        "array" => match (v.as_array(), d.as_array()) {
            (Some(a), Some(b)) if a.len() == b.len() => {
                a.iter().zip(b).try_for_each(|(x, y)| check_datum(&t["items"], x, y, &format!("{}[]", at)))
            }
            _ => bad(),
        },
        "map" => match (v.as_object(), d.as_object()) {
            (Some(a), Some(b)) if a.len() == b.len() => a.iter().try_for_each(|(k, x)| match b.get(k) {
                Some(y) => check_datum(&t["values"], x, y, &format!("{}{{}}", at)),
                None => bad(),
            }),
            _ => bad(),
        },
        "string" if v.is_string() => if d == v { Ok(()) } else { bad() },
        "string" => match d.as_str().and_then(|s| serde_json::from_str::<Value>(s).ok()) {
            Some(x) if x == *v => Ok(()),
            _ => bad(),
        },
        "bytes" => if d["$bytes"] == *v { Ok(()) } else { bad() },
        _ => if d == v { Ok(()) } else { bad() },
    }
}
