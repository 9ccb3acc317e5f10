//! Cases, conversions and outcomes.
use crate::dict::Dict;
use crate::model::{self, MOpts, No, Res, Skip, E, N};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

#[derive(Clone, Debug)]
pub struct Case {
    pub schema: Value,
    pub opts: MOpts,
    pub aux: Value,
}

pub struct Env {
    pub dict: Dict,
    pub cli: PathBuf,
    pub me: PathBuf,
    pub scratch: PathBuf,
}

pub enum Stop {
    /// outside of the property's domain
    Skip(&'static str),
    Fail(String),
}

/// Ok(true): a non-trivial case; Ok(false): trivial
pub type Out = Result<bool, Stop>;
pub type Labels = Vec<&'static str>;

pub fn fail<T>(m: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail(m.into()))
}

pub fn opts_json(o: &MOpts) -> Value {
    json!({
        "resolve": match o.res { Res::Cast => "cast", Res::Drop => "drop", Res::Panic => "panic" },
        "normalize_case": o.norm,
        "force_nullable": o.force,
        "tuple_struct": o.tuple,
        "allow_maps_without_value": o.mapsw,
        "json_object_path_regex": o.regex,
    })
}

pub fn opts_from(v: &Value) -> MOpts {
    let b = |k: &str| v[k].as_bool().unwrap_or(false);
    MOpts {
        res: match v["resolve"].as_str() {
            Some("drop") => Res::Drop,
            Some("panic") => Res::Panic,
            _ => Res::Cast,
        },
        norm: b("normalize_case"),
        force: b("force_nullable"),
        tuple: b("tuple_struct"),
        mapsw: b("allow_maps_without_value"),
        regex: v["json_object_path_regex"].as_str().map(String::from),
    }
}

impl Case {
    pub fn to_json(&self) -> Value {
        json!({"schema": self.schema, "opts": opts_json(&self.opts), "aux": self.aux})
    }
    pub fn from_json(v: &Value) -> Case {
        Case { schema: v["schema"].clone(), opts: opts_from(&v["opts"]), aux: v["aux"].clone() }
    }
}

pub fn cast() -> MOpts {
    MOpts { res: Res::Cast, norm: false, force: false, tuple: false, mapsw: false, regex: None }
}

// ---------------------------------------------------------------- the code under test

thread_local! {
    pub static IN_JST: RefCell<bool> = const { RefCell::new(false) };
    pub static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let mine = IN_JST.with(|f| *f.borrow());
        LAST.with(|l| *l.borrow_mut() = info.to_string());
        if !mine {
            eprintln!("harness panic: {}", info);
        }
    }));
}

fn context(o: &MOpts) -> jst::Context {
    #[allow(clippy::needless_update)]
    jst::Context {
        resolve_method: match o.res {
            Res::Cast => jst::ResolveMethod::Cast,
            Res::Drop => jst::ResolveMethod::Drop,
            Res::Panic => jst::ResolveMethod::Panic,
        },
        normalize_case: o.norm,
        force_nullable: o.force,
        tuple_struct: o.tuple,
        allow_maps_without_value: o.mapsw,
        json_object_path_regex: o.regex.clone(),
        ..Default::default()
    }
}

pub type Conv = Result<Value, String>;

fn guard(f: impl FnOnce() -> Value) -> Conv {
    IN_JST.with(|x| *x.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_JST.with(|x| *x.borrow_mut() = false);
    r.map_err(|_| LAST.with(|l| l.borrow().chars().take(300).collect()))
}

/// Both conversions under options read from JSON text, in one of several ways; none if it is refused.
pub fn read_options(text: &str, s: &Value, way: u64) -> Option<(Conv, Conv)> {
    let read = || -> Option<jst::Context> {
        match way % 3 {
            0 => serde_json::from_str(text).ok(),
            1 => serde_json::from_reader(text.as_bytes()).ok(),
            _ => serde_json::from_value(serde_json::from_str(text).ok()?).ok(),
        }
    };
    IN_JST.with(|x| *x.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(read));
    IN_JST.with(|x| *x.borrow_mut() = false);
    let c = r.ok()??;
    let d = c.clone();
    Some((guard(|| jst::convert_avro(s, c)), guard(|| jst::convert_bigquery(s, d))))
}

pub fn avro(s: &Value, o: &MOpts) -> Conv {
    guard(|| jst::convert_avro(s, context(o)))
}

pub fn bq(s: &Value, o: &MOpts) -> Conv {
    guard(|| jst::convert_bigquery(s, context(o)))
}

pub fn snake_real(s: &str) -> String {
    jst::casing::to_snake_case(s)
}

// ---------------------------------------------------------------- the model

pub struct Want {
    pub n: N,
    pub avro: Result<Value, No>,
    /// none for the shape of the known finding on arrays of maps, once it is repaired in some way;
    /// until then the loss is expected, and anything else is a new violation
    pub bq: Option<Result<Value, No>>,
}

/// Does an array of maps still lose one level of repetition in BigQuery?
pub fn loss_stands() -> bool {
    static STANDS: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *STANDS.get_or_init(|| {
        let s = json!({"type": "array", "items": {"type": "object", "additionalProperties": {"type": "integer"}}});
        let lost = json!([{"name": "root", "type": "RECORD", "mode": "REPEATED", "fields": [
            {"name": "key", "type": "STRING", "mode": "REQUIRED"}, {"name": "value", "type": "INT64", "mode": "REQUIRED"}]}]);
        bq(&s, &cast()).map_or(false, |v| v == lost)
    })
}

/// The regular expression in force: the schema's metadata has precedence.
pub fn effective(c: &Case) -> MOpts {
    let mut o = c.opts.clone();
    if let Some(r) = c
        .schema
        .get("mozPipelineMetadata")
        .and_then(|m| m.get("json_object_path_regex"))
        .and_then(Value::as_str)
    {
        o.regex = Some(r.to_string());
    }
    o
}

pub fn parsed(c: &Case) -> Result<N, Stop> {
    match model::resolve(&c.schema, c.opts.tuple, c.opts.norm) {
        Ok(n) => Ok(n),
        Err(Skip::Collision) => Err(Stop::Skip("colliding names")),
        Err(Skip::Unused) => Err(Stop::Skip("unsupported keyword in an ignored position")),
        Err(Skip::Reject(_)) => Err(Stop::Skip("rejected schema")),
    }
}

pub fn want(c: &Case) -> Result<Want, Stop> {
    let n = parsed(c)?;
    let o = effective(c);
    let e = E::new(&o);
    Ok(Want {
        avro: e.avro_root(&n),
        bq: if model::has_array_of_map(&n) && !loss_stands() { None } else { Some(e.bq(&n)) },
        n,
    })
}
