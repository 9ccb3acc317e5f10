//! Reference model of the documented translation, independent of the code
//! under test: n-ary joins over a parsed schema, then direct emission.
use crate::casing_model::snake;
use serde_json::{json, Map as JMap, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Ann {
    None,
    Text(String),
    /// merged from variants: the description is not specified
    Unspec,
}

#[derive(Clone, Debug)]
pub enum T {
    Null,
    Bool,
    Int,
    Num,
    Str,
    Ts,
    Bytes,
    /// no structure of its own, or conflicting variants
    Json,
    Obj {
        props: BTreeMap<String, N>,
        req: BTreeSet<String>,
    },
    Map(Box<N>),
    Arr(Box<N>),
    Tup(Vec<N>),
    /// alternatives, not yet joined
    Var(Vec<N>),
}

#[derive(Clone, Debug)]
pub struct N {
    pub t: T,
    /// the schema itself admits null
    pub nul: bool,
    pub ann: Ann,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res {
    Cast,
    Drop,
    Panic,
}

#[derive(Clone, Debug)]
pub struct MOpts {
    pub res: Res,
    pub norm: bool,
    pub force: bool,
    pub tuple: bool,
    pub mapsw: bool,
    pub regex: Option<String>,
}

/// Why a schema is outside of what the model describes.
#[derive(Clone, Debug, PartialEq)]
pub enum Skip {
    /// rejected whatever the options (open tuple, unknown type ...)
    Reject(String),
    /// several properties map to one column name: which one wins is unspecified
    Collision,
    /// an unsupported keyword in a position that has no effect
    Unused,
}

// ---------------------------------------------------------------- names

pub fn sanitize(name: &str) -> Option<String> {
    let mut s: String = name
        .chars()
        .map(|c| if c == '.' || c == '-' { '_' } else { c })
        .collect();
    if s.chars().next().map_or(false, |c| c.is_ascii_digit()) {
        s.insert(0, '_');
    }
    let mut it = s.chars();
    let ok = match it.next() {
        Some(c) => c.is_ascii_alphabetic() || c == '_',
        None => false,
    } && it.all(|c| c.is_ascii_alphanumeric() || c == '_');
    if ok {
        Some(s)
    } else {
        None
    }
}

pub fn snake_name(clean: &str) -> Option<String> {
    let mut s = snake(clean);
    if s.is_empty() {
        return None;
    }
    if s.as_bytes()[0].is_ascii_digit() {
        s.insert(0, '_');
    }
    Some(s)
}

pub fn column_name(name: &str, norm: bool) -> Option<String> {
    let c = sanitize(name)?;
    if norm {
        snake_name(&c)
    } else {
        Some(c)
    }
}

// ---------------------------------------------------------------- parsing

fn n(t: T, nul: bool, ann: Ann) -> N {
    N { t, nul, ann }
}

fn ann_of(s: &Value) -> Ann {
    let title = s.get("title").and_then(Value::as_str);
    let desc = s.get("description").and_then(Value::as_str);
    let full = match (title, desc) {
        (Some(a), Some(b)) => format!("{} - {}", a, b),
        (Some(a), None) => a.to_string(),
        (None, Some(b)) => b.to_string(),
        (None, None) => return Ann::None,
    };
    Ann::Text(full.chars().take(1024).collect())
}

fn present<'a>(s: &'a Value, key: &str) -> Option<&'a Value> {
    match s.get(key) {
        None | Some(Value::Null) => None,
        v => v,
    }
}

pub struct P {
    pub tuple: bool,
    pub norm: bool,
}

/// Nothing may be left of an empty union in a variant that is merged away.
fn variant(e: Skip) -> Skip {
    match e {
        Skip::Reject(m) if m.starts_with("empty") => Skip::Unused,
        e => e,
    }
}

impl P {
    pub fn parse(&self, s: &Value) -> Result<N, Skip> {
        if !s.is_object() {
            return Err(Skip::Reject("not an object".into()));
        }
        let ann = ann_of(s);
        match present(s, "type") {
            None => self.atom(s, "object"),
            Some(Value::String(t)) => {
                if t == "string" {
                    match s.get("format").and_then(Value::as_str) {
                        Some("date-time") => return Ok(n(T::Ts, false, ann)),
                        Some("bytes") => return Ok(n(T::Bytes, false, ann)),
                        _ => {}
                    }
                }
                self.atom(s, t)
            }
            Some(Value::Array(l)) => {
                if l.is_empty() {
                    return Err(Skip::Reject("empty type list".into()));
                }
                let mut items = vec![];
                for t in l {
                    let t = t.as_str().ok_or(Skip::Reject("type name".into()))?;
                    items.push(self.atom(s, t).map_err(variant)?);
                }
                Ok(n(T::Var(items), false, ann))
            }
            _ => Err(Skip::Reject("type of the wrong kind".into())),
        }
    }

    fn atom(&self, s: &Value, t: &str) -> Result<N, Skip> {
        let ann = ann_of(s);
        let t = match t {
            "null" => return Ok(n(T::Null, true, ann)),
            "boolean" => T::Bool,
            "integer" => T::Int,
            "number" => T::Num,
            "string" => T::Str,
            "date-time" => T::Ts,
            "bytes" => T::Bytes,
            "object" => self.object(s)?,
            "array" => self.array(s)?,
            _ => return Err(Skip::Reject("unknown type name".into())),
        };
        Ok(n(t, false, ann))
    }

    fn object(&self, s: &Value) -> Result<T, Skip> {
        if let Some(p) = present(s, "properties") {
            let p = p.as_object().ok_or(Skip::Reject("properties".into()))?;
            let names: Vec<String> = p.keys().filter_map(|k| column_name(k, self.norm)).collect();
            if names.iter().collect::<BTreeSet<_>>().len() < names.len() {
                return Err(Skip::Collision);
            }
            let mut props = BTreeMap::new();
            for (k, v) in p {
                let name = column_name(k, self.norm);
                let v = match self.parse(v) {
                    Err(Skip::Reject(_)) if name.is_none() => return Err(Skip::Unused),
                    v => v?,
                };
                if let Some(name) = name {
                    props.insert(name, v);
                }
            }
            let mut req = BTreeSet::new();
            if let Some(Value::Array(l)) = present(s, "required") {
                for r in l {
                    if let Some(name) = column_name(r.as_str().unwrap_or(""), self.norm) {
                        req.insert(name);
                    }
                }
            }
            return Ok(T::Obj { props, req });
        }
        let mut values = vec![];
        let mut from_patterns = false;
        if let Some(a) = present(s, "additionalProperties") {
            if a.is_object() {
                values.push(self.parse(a)?);
            } else if !a.is_boolean() {
                return Err(Skip::Reject("additionalProperties".into()));
            }
        }
        if let Some(p) = present(s, "patternProperties") {
            let p = p.as_object().ok_or(Skip::Reject("patternProperties".into()))?;
            for v in p.values() {
                from_patterns = true;
                values.push(self.parse(v).map_err(variant)?);
            }
        }
        if !values.is_empty() {
            let value = if from_patterns {
                n(T::Var(values), false, Ann::Unspec)
            } else {
                values.pop().unwrap()
            };
            return Ok(T::Map(Box::new(value)));
        }
        if let Some(o) = present(s, "oneOf") {
            let o = o.as_array().ok_or(Skip::Reject("oneOf".into()))?;
            if o.is_empty() {
                return Err(Skip::Reject("empty oneOf".into()));
            }
            let items: Result<Vec<_>, _> = o.iter().map(|v| self.parse(v).map_err(variant)).collect();
            return Ok(T::Var(items?));
        }
        Ok(T::Json)
    }

    fn array(&self, s: &Value) -> Result<T, Skip> {
        let items = match present(s, "items") {
            None => return Ok(T::Json),
            Some(i) => i,
        };
        let list = match items {
            Value::Object(_) => return Ok(T::Arr(Box::new(self.parse(items)?))),
            Value::Array(l) => l,
            _ => return Err(Skip::Reject("items".into())),
        };
        if !self.tuple {
            return Ok(T::Json);
        }
        let mut out: Vec<N> = vec![];
        for i in list {
            out.push(self.parse(i)?);
        }
        let len = out.len();
        let max = present(s, "maxItems").and_then(Value::as_u64).map(|v| v as usize);
        let min = present(s, "minItems")
            .and_then(Value::as_u64)
            .map(|v| v as usize)
            .unwrap_or(len);
        match present(s, "additionalItems") {
            Some(Value::Bool(false)) => {}
            Some(Value::Bool(true)) => return Err(Skip::Reject("open tuple".into())),
            Some(add) => {
                let max = max.unwrap_or(0);
                if max < len {
                    return Err(Skip::Reject("maxItems below tuple length".into()));
                }
                let add = match self.parse(add) {
                    Err(Skip::Reject(_)) if max == len => return Err(Skip::Unused),
                    v => v?,
                };
                for _ in len..max {
                    let mut a = add.clone();
                    a.nul = true;
                    out.push(a);
                }
            }
            None => {
                if max.unwrap_or(0) != len {
                    return Err(Skip::Reject("open tuple".into()));
                }
            }
        }
        if out.is_empty() {
            return Ok(T::Json);
        }
        for (i, item) in out.iter_mut().enumerate() {
            if i >= min {
                item.nul = true;
            }
        }
        Ok(T::Tup(out))
    }
}

// ---------------------------------------------------------------- joining

fn unspec(mut x: N) -> N {
    // everything inside a merged node has an unspecified description
    x.ann = Ann::Unspec;
    x.t = match x.t {
        T::Obj { props, req } => T::Obj {
            props: props.into_iter().map(|(k, v)| (k, unspec(v))).collect(),
            req,
        },
        T::Map(v) => T::Map(Box::new(unspec(*v))),
        T::Arr(v) => T::Arr(Box::new(unspec(*v))),
        T::Tup(v) => T::Tup(v.into_iter().map(unspec).collect()),
        T::Var(v) => T::Var(v.into_iter().map(unspec).collect()),
        t => t,
    };
    x
}

pub fn join(items: Vec<N>) -> (T, bool) {
    if items.len() == 1 {
        let x = items.into_iter().next().unwrap();
        return (x.t, x.nul);
    }
    let mut nul = false;
    let mut rest: Vec<T> = vec![];
    for x in items {
        nul |= x.nul;
        let mut t = x.t;
        while let T::Var(v) = t {
            let (t2, n2) = join(v);
            nul |= n2;
            t = t2;
        }
        if let T::Null = t {
            nul = true
        } else {
            rest.push(t)
        }
    }
    if rest.is_empty() {
        return (T::Null, true);
    }
    if rest.len() == 1 {
        return (rest.pop().unwrap(), nul);
    }
    let all = |f: &dyn Fn(&T) -> bool| rest.iter().all(|t| f(t));
    let t = if all(&|t| matches!(t, T::Bool)) {
        T::Bool
    } else if all(&|t| matches!(t, T::Int)) {
        T::Int
    } else if all(&|t| matches!(t, T::Int | T::Num)) {
        T::Num
    } else if all(&|t| matches!(t, T::Str)) {
        T::Str
    } else if all(&|t| matches!(t, T::Ts)) {
        T::Ts
    } else if all(&|t| matches!(t, T::Bytes)) {
        T::Bytes
    } else if all(&|t| matches!(t, T::Obj { .. })) {
        merge(rest)
    } else if all(&|t| matches!(t, T::Map(_))) {
        let v = rest
            .into_iter()
            .map(|t| if let T::Map(v) = t { *v } else { unreachable!() })
            .collect();
        let (t, nul) = join(v);
        T::Map(Box::new(unspec(n(t, nul, Ann::Unspec))))
    } else if all(&|t| matches!(t, T::Arr(_))) {
        let v = rest
            .into_iter()
            .map(|t| if let T::Arr(v) = t { *v } else { unreachable!() })
            .collect();
        let (t, nul) = join(v);
        T::Arr(Box::new(unspec(n(t, nul, Ann::Unspec))))
    } else {
        T::Json
    };
    (t, nul)
}

fn merge(objs: Vec<T>) -> T {
    let mut occ: BTreeMap<String, Vec<N>> = BTreeMap::new();
    let mut required: Option<BTreeSet<String>> = None;
    for o in objs {
        if let T::Obj { props, req } = o {
            for (k, v) in props {
                occ.entry(k).or_default().push(v);
            }
            required = Some(match required {
                None => req,
                Some(r) => r.intersection(&req).cloned().collect(),
            });
        }
    }
    let mut props = BTreeMap::new();
    for (k, v) in occ {
        // alone: kept as it is; together: joined. Either way a column that has
        // no structure makes the merged object inconsistent.
        let (t, nul) = join(v);
        if let T::Json = t {
            return T::Json;
        }
        props.insert(k, unspec(n(t, nul, Ann::Unspec)));
    }
    T::Obj {
        props,
        req: required.unwrap_or_default(),
    }
}

/// Joins all alternatives, everywhere.
pub fn settle(x: N) -> N {
    let N { t, nul, ann } = x;
    match t {
        T::Var(v) => {
            let (t, n2) = join(v);
            settle(n(t, nul | n2, ann))
        }
        T::Obj { props, req } => n(
            T::Obj {
                props: props.into_iter().map(|(k, v)| (k, settle(v))).collect(),
                req,
            },
            nul,
            ann,
        ),
        T::Map(v) => n(T::Map(Box::new(settle(*v))), nul, ann),
        T::Arr(v) => n(T::Arr(Box::new(settle(*v))), nul, ann),
        T::Tup(v) => n(T::Tup(v.into_iter().map(settle).collect()), nul, ann),
        T::Null => n(T::Null, true, ann),
        t => n(t, nul, ann),
    }
}

pub fn resolve(schema: &Value, tuple: bool, norm: bool) -> Result<N, Skip> {
    Ok(settle(P { tuple, norm }.parse(schema)?))
}

// ---------------------------------------------------------------- emission

/// The node cannot be kept (drop), or the whole conversion fails (panic).
#[derive(Clone, Debug, PartialEq)]
pub enum No {
    Dropped,
    Failed,
}

pub const UNSPEC: &str = "\u{0}unspecified\u{0}";

pub struct E<'a> {
    pub o: &'a MOpts,
    pub re: Option<regex::Regex>,
}

fn join_path(path: &str, name: &str) -> String {
    if path.is_empty() {
        name.to_string()
    } else {
        format!("{}.{}", path, name)
    }
}

impl<'a> E<'a> {
    pub fn new(o: &'a MOpts) -> Self {
        let re = o.regex.as_ref().map(|r| regex::Regex::new(r).expect("generated regex"));
        E { o, re }
    }

    fn no(&self) -> Result<(), No> {
        match self.o.res {
            Res::Cast => Ok(()),
            Res::Drop => Err(No::Dropped),
            Res::Panic => Err(No::Failed),
        }
    }

    /// a match that begins at the start of the path
    pub fn json_path(&self, path: &str) -> bool {
        match &self.re {
            Some(re) => re.find(path).map_or(false, |m| m.start() == 0),
            None => false,
        }
    }

    /// (type, fields) of a node in BigQuery
    fn bq_type(&self, x: &N, path: &str) -> Result<(String, Option<Vec<Value>>), No> {
        let atom = |s: &str| Ok((s.to_string(), None));
        match &x.t {
            T::Bool => atom("BOOL"),
            T::Int => atom("INT64"),
            T::Num => atom("FLOAT64"),
            T::Str => atom("STRING"),
            T::Ts => atom("TIMESTAMP"),
            T::Bytes => atom("BYTES"),
            T::Null => {
                self.no()?;
                atom("STRING")
            }
            T::Json => {
                if self.json_path(path) {
                    return atom("JSON");
                }
                self.no()?;
                atom("STRING")
            }
            T::Obj { props, req } => {
                let mut fields = vec![];
                for (k, v) in props {
                    let mut v = v.clone();
                    v.nul |= !req.contains(k);
                    match self.bq_col(&v, k, &join_path(path, k)) {
                        Ok(c) => fields.push(c),
                        Err(No::Failed) => return Err(No::Failed),
                        Err(No::Dropped) => {}
                    }
                }
                if fields.is_empty() {
                    self.no()?;
                    return atom("STRING");
                }
                Ok(("RECORD".into(), Some(fields)))
            }
            T::Tup(items) => {
                let mut fields = vec![];
                for (i, v) in items.iter().enumerate() {
                    let k = format!("f{}_", i);
                    fields.push((k.clone(), self.bq_col(v, &k, &join_path(path, &k))?));
                }
                fields.sort_by(|a, b| a.0.cmp(&b.0));
                Ok(("RECORD".into(), Some(fields.into_iter().map(|f| f.1).collect())))
            }
            T::Arr(i) => {
                let p = join_path(path, "list");
                if let T::Arr(_) = i.t {
                    let c = self.bq_col(i, "list", &p)?;
                    Ok(("RECORD".into(), Some(vec![c])))
                } else {
                    self.bq_type(i, &p)
                }
            }
            T::Map(v) => {
                let key = json!({"name": "key", "type": "STRING",
                    "mode": if self.o.force {"NULLABLE"} else {"REQUIRED"}});
                match self.bq_col(v, "value", &join_path(path, "value")) {
                    Ok(c) => Ok(("RECORD".into(), Some(vec![key, c]))),
                    Err(No::Dropped) if self.o.mapsw => Ok(("RECORD".into(), Some(vec![key]))),
                    Err(e) => Err(e),
                }
            }
            T::Var(_) => unreachable!(),
        }
    }

    pub fn bq_col(&self, x: &N, name: &str, path: &str) -> Result<Value, No> {
        let (t, fields) = self.bq_type(x, path)?;
        let mut m = JMap::new();
        m.insert("name".into(), json!(name));
        m.insert("type".into(), json!(t));
        if let Some(f) = fields {
            m.insert("fields".into(), Value::Array(f));
        }
        let mode = match &x.t {
            T::Arr(_) | T::Map(_) => "REPEATED",
            T::Null => "NULLABLE",
            _ if x.nul || self.o.force => "NULLABLE",
            _ => "REQUIRED",
        };
        m.insert("mode".into(), json!(mode));
        match &x.ann {
            Ann::None => {}
            Ann::Text(t) => {
                m.insert("description".into(), json!(t));
            }
            Ann::Unspec => {
                m.insert("description".into(), json!(UNSPEC));
            }
        }
        Ok(Value::Object(m))
    }

    pub fn bq(&self, root: &N) -> Result<Value, No> {
        let col = self.bq_col(root, "root", "")?;
        if !matches!(root.t, T::Arr(_) | T::Map(_)) {
            if let Some(f) = col.get("fields") {
                return Ok(f.clone());
            }
        }
        Ok(json!([col]))
    }

    pub fn avro(&self, x: &N, name: &str, ns: &str) -> Result<Value, No> {
        let prim = |s: &str| json!({ "type": s });
        let full = join_path(ns, name);
        let record = |fields: Vec<Value>| {
            let mut m = JMap::new();
            m.insert("type".into(), json!("record"));
            m.insert("name".into(), json!(name));
            if !ns.is_empty() {
                m.insert("namespace".into(), json!(ns));
            }
            m.insert("fields".into(), Value::Array(fields));
            Value::Object(m)
        };
        let field = |k: &str, t: Value, nullable: bool| {
            if nullable {
                json!({"name": k, "type": t, "default": null})
            } else {
                json!({"name": k, "type": t})
            }
        };
        let t = match &x.t {
            T::Null => return Ok(prim("null")),
            T::Bool => prim("boolean"),
            T::Int => prim("long"),
            T::Num => prim("double"),
            T::Str | T::Ts => prim("string"),
            T::Bytes => prim("bytes"),
            T::Json => {
                self.no()?;
                prim("string")
            }
            T::Obj { props, req } => {
                let mut fields = vec![];
                for (k, v) in props {
                    let mut v = v.clone();
                    v.nul |= !req.contains(k);
                    match self.avro(&v, k, &full) {
                        Ok(t) => fields.push(field(k, t, v.nul || self.o.force)),
                        Err(No::Failed) => return Err(No::Failed),
                        Err(No::Dropped) => {}
                    }
                }
                if fields.is_empty() {
                    self.no()?;
                    prim("string")
                } else {
                    record(fields)
                }
            }
            T::Tup(items) => {
                let mut fields = vec![];
                for (i, v) in items.iter().enumerate() {
                    let k = format!("f{}_", i);
                    match self.avro(v, &k, &full) {
                        Ok(t) => fields.push(field(&k, t, v.nul || self.o.force)),
                        Err(No::Failed) => return Err(No::Failed),
                        Err(No::Dropped) => {}
                    }
                }
                record(fields)
            }
            T::Arr(i) => {
                let it = self.avro(i, "list", &full)?;
                if let T::Arr(_) = i.t {
                    json!({"type": "array", "items": record(vec![json!({"name": "list", "type": it})])})
                } else {
                    json!({"type": "array", "items": it})
                }
            }
            T::Map(v) => json!({"type": "map", "values": self.avro(v, "value", &full)?}),
            T::Var(_) => unreachable!(),
        };
        Ok(if x.nul || self.o.force {
            json!([{"type": "null"}, t])
        } else {
            t
        })
    }

    pub fn avro_root(&self, root: &N) -> Result<Value, No> {
        self.avro(root, "root", "")
    }
}

// ---------------------------------------------------------------- facts

pub fn any(x: &N, f: &dyn Fn(&N) -> bool) -> bool {
    if f(x) {
        return true;
    }
    match &x.t {
        T::Obj { props, .. } => props.values().any(|v| any(v, f)),
        T::Map(v) | T::Arr(v) => any(v, f),
        T::Tup(v) | T::Var(v) => v.iter().any(|v| any(v, f)),
        _ => false,
    }
}

pub fn count(x: &N) -> usize {
    1 + match &x.t {
        T::Obj { props, .. } => props.values().map(count).sum(),
        T::Map(v) | T::Arr(v) => count(v),
        T::Tup(v) | T::Var(v) => v.iter().map(count).sum(),
        _ => 0,
    }
}

pub fn depth(x: &N) -> usize {
    1 + match &x.t {
        T::Obj { props, .. } => props.values().map(depth).max().unwrap_or(0),
        T::Map(v) | T::Arr(v) => depth(v),
        T::Tup(v) | T::Var(v) => v.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// an array whose element is a map: BigQuery output loses one level (known finding)
pub fn has_array_of_map(x: &N) -> bool {
    any(x, &|x| matches!(&x.t, T::Arr(i) if matches!(i.t, T::Map(_))))
}
