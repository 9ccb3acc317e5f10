//! Generators of JSON Schemas, driven by one deterministic random source.
use crate::dict::Dict;
use crate::model::column_name;
use crate::rng::Rng;
use serde_json::{json, Map as JMap, Value};
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct Prof {
    pub depth: usize,
    pub width: usize,
    pub budget: usize,
    pub root_object: u32,
    // kinds of node
    pub leaf: u32,
    pub under: u32,
    pub null: u32,
    pub object: u32,
    pub map: u32,
    pub array: u32,
    pub tuple: u32,
    pub one_of: u32,
    pub type_list: u32,
    /// percentage of variants that conflict on purpose
    pub clash: u32,
    /// percentage of annotated nodes / of nodes with uninterpreted keywords
    pub ann: u32,
    pub junk: u32,
    /// percentage of names that need sanitising, that are invalid, from the dictionary
    pub messy: u32,
    pub invalid: u32,
    pub dict: u32,
    pub collide: bool,
    /// percentage of tuples that are open (rejected when tuples are enabled)
    pub open: u32,
    /// percentage of objects that also have keywords of lower precedence
    pub extra: u32,
    /// percentage of properties that are required
    pub required: u32,
}

pub fn base() -> Prof {
    Prof {
        depth: 5,
        width: 6,
        budget: 26,
        root_object: 80,
        leaf: 30,
        under: 5,
        null: 2,
        object: 18,
        map: 6,
        array: 8,
        tuple: 4,
        one_of: 6,
        type_list: 8,
        clash: 25,
        ann: 0,
        junk: 8,
        messy: 25,
        invalid: 6,
        dict: 20,
        collide: false,
        open: 0,
        extra: 8,
        required: 50,
    }
}

pub struct G<'a> {
    pub r: Rng,
    pub p: Prof,
    pub d: &'a Dict,
    left: usize,
    pool: Vec<String>,
}

const PLAIN: &[&str] = &[
    "a", "b", "c", "id", "name", "value", "key", "list", "type", "items", "properties", "count", "root",
    "payload", "client_id", "ts",
];
const CAMEL: &[&str] = &[
    "fooBar", "clientID", "HTTPServer2", "aB", "Ab", "UPPER", "XMLHttpRequest", "a7A", "A7AAa", "camelCase9Thing",
    "_private", "trailing_", "double__under", "isURLValid", "v2Id", "A",
];
const MESSY: &[&str] = &[
    "x-y", "some.name", "4th", "a-b.c-d", "64bit", "-lead", ".dot", "9-9", "0", "with-UPPER.Case", "a.1", "1-a", "--",
    "-", "a-", "x.y", "os.name",
];
const INVALID: &[&str] = &[
    "$schema", "", "a b", "é", "na\u{ef}ve", "a/b", "@type", "日本", "x\n", "a:b", "#", "a\u{0}", "٣x", "²x", "a$", " a",
];
const JUNK: &[&str] = &[
    "minimum", "maximum", "pattern", "enum", "default", "const", "examples", "$id", "$schema", "$comment", "minLength",
    "maxLength", "anyOf", "not", "dependencies", "definitions", "uniqueItems", "propertyNames", "minProperties",
    "maxProperties", "readOnly", "contentEncoding", "x-custom", "multipleOf", "$ref", "if", "deprecated", "name", "mode",
    "fields", "nullable", "namespace", "doc", "aliases", "symbols", "is_root", "data_type", "union", "unknown",
];
const FORMATS: &[&str] = &["email", "uri", "uuid", "date", "time", "json", "ipv4", "datetime", "int64", "byte"];

/// keywords that are not interpreted, with values they might have
const MEANT: &[(&str, &str)] = &[
    ("contentEncoding", "\"base64\""), ("contentMediaType", "\"application/json\""), ("pattern", "\"^[0-9]+$\""), ("pattern", "\"^\\\\d{4}-\\\\d{2}-\\\\d{2}\""),
    ("minimum", "0"), ("maximum", "255"), ("maximum", "2147483647"), ("exclusiveMinimum", "true"), ("multipleOf", "1"), ("multipleOf", "0.01"),
    ("enum", "[1, 2]"), ("enum", "[\"a\", \"b\"]"), ("enum", "[true, false]"), ("enum", "[null]"), ("enum", "[\"x\", null]"), ("const", "1"), ("const", "null"), ("const", "\"x\""),
    ("default", "0"), ("default", "null"), ("default", "\"\""), ("default", "[]"), ("default", "{}"), ("default", "false"), ("examples", "[1, \"a\"]"),
    ("uniqueItems", "true"), ("readOnly", "true"), ("writeOnly", "true"), ("deprecated", "true"), ("nullable", "true"), ("nullable", "false"), ("optional", "true"), ("required", "true"),
    ("$ref", "\"#/definitions/x\""), ("$ref", "\"#\""), ("definitions", "{\"x\": {\"type\": \"integer\"}}"), ("$defs", "{\"x\": {\"type\": \"integer\"}}"),
    ("not", "{\"type\": \"null\"}"), ("anyOf", "[{\"type\": \"null\"}, {\"type\": \"integer\"}]"), ("anyOf", "[{\"required\": [\"a\"]}]"), ("if", "{}"), ("then", "{\"required\": [\"a\"]}"),
    ("dependencies", "{\"a\": [\"b\"]}"), ("minProperties", "1"), ("maxProperties", "0"), ("propertyNames", "{\"pattern\": \"^a\"}"), ("minLength", "1"), ("maxLength", "36"),
    ("javaType", "\"long\""), ("tsType", "\"any\""), ("logicalType", "\"timestamp-micros\""), ("precision", "2"), ("x-nullable", "true"), ("bqType", "\"STRING\""), ("$comment", "\"x\""),
    ("$id", "\"https://example.com/a.json\""), ("id", "\"a\""), ("$schema", "\"http://json-schema.org/draft-04/schema#\""), ("unevaluatedProperties", "false"), ("prefixItems", "[{\"type\": \"integer\"}]"), ("contains", "{\"type\": \"integer\"}"),
];

impl<'a> G<'a> {
    pub fn new(seed: u64, p: Prof, d: &'a Dict) -> Self {
        let mut r = Rng::new(seed);
        let mut p = p;
        // vary the size of cases
        match r.below(10) {
            0 | 1 => {
                p.budget = 8;
                p.depth = p.depth.min(4)
            }
            2..=5 => p.budget = p.budget.min(16),
            9 => p.budget *= 2,
            _ => {}
        }
        let left = p.budget;
        let mut g = G { r, p, d, left, pool: vec![] };
        let n = g.r.range(4, 10);
        for _ in 0..n {
            let s = g.fresh_name();
            g.pool.push(s);
        }
        g
    }

    fn ident(&mut self) -> String {
        let len = match self.r.below(20) {
            0 if self.r.pct(30) => crate::dict::size(&mut self.r).unwrap_or(9).clamp(1, 2000),
            0 => *self.r.pick(&[64usize, 127, 128, 129, 300, 301]),
            _ => self.r.range(1, 8),
        };
        let al: Vec<char> = "abcxyzABCXYZ0129_".chars().collect();
        let mut s = String::new();
        for i in 0..len {
            let c = *self.r.pick(&al);
            if i == 0 && c.is_ascii_digit() {
                s.push('k');
            } else {
                s.push(c);
            }
        }
        if self.r.pct(self.p.messy) {
            let i = self.r.below(s.len());
            s.replace_range(i..i + 1, *self.r.pick(&[".", "-", "7", "_"]));
        }
        s
    }

    fn fresh_name(&mut self) -> String {
        if self.r.pct(self.p.invalid) {
            if self.r.pct(20) {
                let mut s = self.ident();
                let at = *self.r.pick(&[0, s.len()]);
                s.insert(at, any_char(&mut self.r));
                return s;
            }
            return self.r.pick(INVALID).to_string();
        }
        if self.r.pct(self.p.messy) {
            if self.r.pct(30) {
                // any mixture of letters and separators
                let n = self.r.range(1, 7);
                return (0..n).map(|_| *self.r.pick(&['a', 'b', 'B', '1', '9', '.', '-', '_'])).collect();
            }
            let v = if self.r.pct(50) { MESSY } else { CAMEL };
            return self.r.pick(v).to_string();
        }
        if self.r.pct(self.p.dict) && !self.d.words.is_empty() {
            let word = self.r.pick(&self.d.words).clone();
            return match self.r.below(8) {
                0 => format!("{}{}", word, self.ident()),
                1 => format!("{}{}", self.ident(), word),
                2 => word.to_uppercase(),
                _ => word,
            };
        }
        if self.r.pct(40) {
            self.ident()
        } else {
            self.r.pick(PLAIN).to_string()
        }
    }

    pub fn name(&mut self) -> String {
        if self.r.pct(75) {
            self.r.pick(&self.pool).clone()
        } else {
            self.fresh_name()
        }
    }

    /// distinct names; unless collisions are wanted, distinct after renaming too
    pub fn names(&mut self, n: usize) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        let mut used: BTreeSet<String> = BTreeSet::new();
        for i in 0..n {
            let mut k = self.name();
            if i >= 8 {
                k = format!("{}{}", k, i);
            }
            if self.p.collide && i > 0 && self.r.pct(35) {
                k = self.twin(&out[i - 1].clone());
            }
            let fresh = match column_name(&k, true) {
                Some(c) => used.insert(c),
                None => true,
            };
            if (fresh || self.p.collide) && !out.contains(&k) {
                out.push(k);
            } else {
                let k2 = format!("{}q{}", k.replace(|c: char| !c.is_ascii_alphanumeric(), ""), i);
                let fresh = column_name(&k2, true).map_or(true, |c| used.insert(c));
                if fresh && !out.contains(&k2) {
                    out.push(k2);
                } else {
                    out.push(format!("zz{}uniq", i));
                }
            }
        }
        out
    }

    /// another name that is likely to collide with this one after renaming
    fn twin(&mut self, k: &str) -> String {
        match self.r.below(6) {
            0 => k.replace('_', "-"),
            1 => k.replace(['-', '.'], "_"),
            2 => format!("_{}", k),
            3 => k.to_lowercase(),
            4 => k.replace('_', "."),
            _ => k.trim_start_matches('_').to_string() + "_",
        }
    }

    fn size(&mut self, max: usize) -> usize {
        match self.r.below(60) {
            0 => self.r.range(max, 40.max(max)),
            1 if !self.d.ints.is_empty() => {
                let v = *self.r.pick(&self.d.ints);
                (v + self.r.below(3)).saturating_sub(1).min(40)
            }
            2..=4 => 0,
            5..=12 => 1,
            _ => self.r.range(1, max),
        }
    }

    /// a few parts, rarely many of them
    fn parts(&mut self, few: usize, of: &Value) -> usize {
        if self.r.below(30) > 0 || of.to_string().len() > 250 {
            return few;
        }
        match self.r.below(8) {
            0 => self.r.range(40, 140),
            1 | 2 if !self.d.ints.is_empty() => (*self.r.pick(&self.d.ints) + self.r.below(3)).saturating_sub(1).max(few),
            _ => self.r.range(few, 36),
        }
    }

    // ---------------------------------------------------------- nodes

    pub fn schema(&mut self) -> Value {
        let d = self.p.depth;
        match self.r.below(40) {
            0 => return self.chain(),
            1 => return self.wide(),
            _ => {}
        }
        let mut v = if self.r.pct(self.p.root_object) {
            let v = self.object(d);
            self.finish(v, d)
        } else {
            self.node(d)
        };
        if self.r.pct(self.p.junk) {
            v["$schema"] = json!("http://json-schema.org/draft-04/schema#");
        }
        v
    }

    /// a deep chain of containers
    fn chain(&mut self) -> Value {
        let n = if self.r.pct(10) { self.r.range(23, 50) } else { self.r.range(8, 22) };
        let mut v = self.node(1);
        for _ in 0..n {
            v = self.wrap(v);
        }
        v
    }

    pub fn wrap(&mut self, v: Value) -> Value {
        let k = self.name();
        let w = [self.p.object + 6, self.p.array, self.p.map / 2, self.p.one_of / 2, self.p.tuple / 2];
        match self.r.weighted(&w) {
            0 => {
                let mut o = json!({"type": "object", "properties": {k.clone(): v}});
                if self.r.pct(self.p.required) {
                    o["required"] = json!([k]);
                }
                o
            }
            1 => json!({"type": "array", "items": v}),
            2 => json!({"type": "object", "additionalProperties": v}),
            3 => json!({"oneOf": [v, {"type": "null"}]}),
            _ => json!({"type": "array", "items": [v, {"type": "integer"}], "additionalItems": false}),
        }
    }

    fn wide(&mut self) -> Value {
        let n = match self.r.below(20) {
            0 => self.r.range(41, 140),
            1 if !self.d.big.is_empty() => (*self.r.pick(&self.d.big) + self.r.below(3)).saturating_sub(1).min(1300),
            2 if !self.d.ints.is_empty() => (*self.r.pick(&self.d.ints) + self.r.below(3)).saturating_sub(1),
            _ => self.r.range(12, 40),
        };
        let names = self.names(n);
        let mut props = JMap::new();
        for k in &names {
            let v = if self.r.pct(15) { self.node(1) } else { self.leaf() };
            props.insert(k.clone(), v);
        }
        let req = self.required(&names);
        let mut o = json!({"type": "object", "properties": props});
        if let Some(r) = req {
            o["required"] = r;
        }
        o
    }

    pub fn node(&mut self, d: usize) -> Value {
        self.left = self.left.saturating_sub(1);
        let p = &self.p;
        let c = if d == 0 || self.left == 0 { 0 } else { 1 };
        let w = [
            p.leaf,
            p.under,
            p.null,
            p.object * c,
            p.map * c,
            p.array * c,
            p.tuple * c,
            p.one_of * c,
            p.type_list,
        ];
        let v = match self.r.weighted(&w) {
            0 => self.leaf(),
            1 => self.under(),
            2 => json!({"type": "null"}),
            3 => self.object(d),
            4 => self.map(d),
            5 => self.array(d),
            6 => self.tuple(d),
            7 => self.one_of(d),
            _ => self.type_list(d),
        };
        self.finish(v, d)
    }

    fn finish(&mut self, mut v: Value, _d: usize) -> Value {
        if self.r.pct(self.p.ann) {
            let m = v.as_object_mut().unwrap();
            let k = self.r.below(3);
            if k != 1 {
                m.insert("title".into(), json!(text(&mut self.r)));
            }
            if k != 0 {
                m.insert("description".into(), json!(text(&mut self.r)));
            }
        }
        if self.r.pct(self.p.junk) {
            self.junk(&mut v);
        }
        v
    }

    pub fn junk(&mut self, v: &mut Value) {
        let m = v.as_object_mut().unwrap();
        for _ in 0..self.r.range(1, 3) {
            if self.r.pct(35) {
                let (k, v) = *self.r.pick(MEANT);
                if !KNOWN.contains(&k) && !m.contains_key(k) {
                    m.insert(k.into(), serde_json::from_str(v).unwrap());
                }
                continue;
            }
            let k = match self.r.below(20) {
                0 | 1 => self.ident(),
                2..=5 if !self.d.words.is_empty() => self.r.pick(&self.d.words).clone(),
                _ => self.r.pick(JUNK).to_string(),
            };
            if KNOWN.contains(&k.as_str()) || m.contains_key(&k) {
                continue;
            }
            let val = match self.r.below(8) {
                0 => json!(self.r.below(100)),
                1 if self.r.pct(60) && !self.d.words.is_empty() => json!(self.r.pick(&self.d.words)),
                1 => json!("text"),
                2 => json!(["a", null, 3]),
                3 => json!({"type": "integer", "properties": {"z": {"type": "string"}}}),
                4 => json!([{"type": "string"}, {"type": "null"}]),
                5 => json!(true),
                6 => Value::Null,
                _ => json!({}),
            };
            m.insert(k, val);
        }
        if self.r.pct(8) && !m.contains_key("allOf") {
            m.insert("allOf".into(), json!([{"type": "string"}, {}]));
        }
        let is_string = m.get("type") == Some(&json!("string"));
        if self.r.pct(12) && !m.contains_key("format") {
            let f = if is_string || self.r.pct(50) {
                self.format()
            } else {
                self.r.pick(&["date-time", "bytes"]).to_string()
            };
            m.insert("format".into(), json!(f));
        }
    }

    pub fn leaf(&mut self) -> Value {
        match self.r.below(16) {
            0..=1 => json!({"type": "boolean"}),
            2..=5 => json!({"type": "integer"}),
            6..=8 => json!({"type": "number"}),
            9..=12 => json!({"type": "string"}),
            13 => json!({"type": "string", "format": "date-time"}),
            14 => json!({"type": "string", "format": "bytes"}),
            _ => json!({"type": "string", "format": self.format()}),
        }
    }

    /// a format that is not interpreted
    fn format(&mut self) -> String {
        if self.r.pct(20) && !self.d.words.is_empty() {
            let word = self.r.pick(&self.d.words).clone();
            if word != "date-time" && word != "bytes" {
                return word;
            }
        }
        self.r.pick(FORMATS).to_string()
    }

    pub fn under(&mut self) -> Value {
        match self.r.below(14) {
            0..=1 => json!({}),
            2..=3 => json!({"type": "object"}),
            4 => json!({"type": "object", "properties": {}}),
            5 => json!({"type": "object", "additionalProperties": true}),
            6 => json!({"type": "object", "additionalProperties": false}),
            7 => json!({"enum": ["x", 1, null]}),
            8 => json!({"anyOf": [{"type": "string"}, {"type": "integer"}]}),
            9 => json!({"allOf": [{"type": "object"}]}),
            10 => json!({"type": "array"}),
            11 => json!({"oneOf": [{"type": "integer"}, {"type": "string"}]}),
            12 => json!({"type": ["boolean", "string"]}),
            _ => json!({"type": "object", "properties": {"$bad name": {"type": "string"}}}),
        }
    }

    fn required(&mut self, names: &[String]) -> Option<Value> {
        if self.r.pct(20) {
            return None;
        }
        let p = if self.r.pct(10) { 100 } else { self.p.required };
        let mut req: Vec<String> = names.iter().filter(|_| false).cloned().collect();
        for k in names {
            if self.r.pct(p) {
                req.push(k.clone());
            }
        }
        if self.r.pct(6) {
            req.push("notDeclared".into());
        }
        if self.r.pct(4) && !req.is_empty() {
            let k = req[0].clone();
            req.push(k);
        }
        if self.r.pct(50) {
            self.r.shuffle(&mut req);
        }
        Some(json!(req))
    }

    pub fn object(&mut self, d: usize) -> Value {
        let n = self.size(self.p.width);
        let names = self.names(n);
        let mut props = JMap::new();
        for k in &names {
            let v = self.node(d.saturating_sub(1));
            props.insert(k.clone(), v);
        }
        let mut o = JMap::new();
        if !self.r.pct(8) {
            o.insert("type".into(), json!("object"));
        }
        o.insert("properties".into(), Value::Object(props));
        if let Some(r) = self.required(&names) {
            o.insert("required".into(), r);
        }
        if self.r.pct(self.p.extra) {
            match self.r.below(4) {
                0 => {
                    o.insert("additionalProperties".into(), self.leaf());
                }
                1 => {
                    o.insert("additionalProperties".into(), json!(self.r.pct(50)));
                }
                2 => {
                    o.insert("patternProperties".into(), json!({"^zz": self.leaf()}));
                }
                _ => {
                    o.insert("oneOf".into(), json!([self.leaf(), {"type": "object"}]));
                }
            }
        } else if self.r.pct(15) {
            o.insert("additionalProperties".into(), json!(false));
        }
        Value::Object(o)
    }

    /// the pattern of a map's keys: it has no influence on anything
    fn key_pattern(&mut self, i: usize) -> String {
        match self.r.below(24) {
            0 => self.r.pick(&[".*", ".+", "^x-", "^$", "$", "^_", "^[a-z]{2}$", "^[0-9]+$", "^[^.]+$", "\\d", "a|b", "^\\$", "^(?!x)", "^.*$"]).to_string(),
            1 => match crate::dict::word(&mut self.r) {
                Some(w) => format!("{}{}", w, if self.r.pct(60) { String::new() } else { i.to_string() }),
                None => "^w".into(),
            },
            _ => format!("^p{}_", i),
        }
    }

    pub fn map(&mut self, d: usize) -> Value {
        let mut o = JMap::new();
        if !self.r.pct(12) {
            o.insert("type".into(), json!("object"));
        }
        let v = self.node(d.saturating_sub(1));
        match self.r.below(8) {
            0..=3 => {
                o.insert("additionalProperties".into(), v);
            }
            4..=5 => {
                let mut m = JMap::new();
                let few = self.r.range(1, 3);
                let n = self.parts(few, &v);
                let odd = self.r.below(n);
                for i in 0..n {
                    let v2 = match () {
                        _ if i == 0 || n > few && i != odd => v.clone(),
                        _ if self.r.pct(60) => self.perturb(&v),
                        _ => self.node(d.saturating_sub(1)),
                    };
                    let k = self.key_pattern(i);
                    m.insert(k, v2);
                }
                o.insert("patternProperties".into(), Value::Object(m));
                if self.r.pct(30) {
                    o.insert("additionalProperties".into(), json!(self.r.pct(30)));
                }
            }
            _ => {
                // both: the joined type of the additional schema and every pattern
                let mut m = JMap::new();
                let few = self.r.range(1, 3);
                let n = self.parts(few, &v);
                let odd = self.r.below(n);
                for i in 0..n {
                    let v2 = match self.r.below(10) {
                        _ if n > few && i != odd => v.clone(),
                        0..=1 => v.clone(),
                        2 => json!({"type": "null"}),
                        3..=7 => self.perturb(&v),
                        _ => self.node(d.saturating_sub(1)),
                    };
                    let k = self.key_pattern(i);
                    m.insert(k, v2);
                }
                o.insert("additionalProperties".into(), v);
                o.insert("patternProperties".into(), Value::Object(m));
            }
        }
        if self.r.pct(10) {
            o.insert("required".into(), json!(["key", "value"]));
        }
        Value::Object(o)
    }

    pub fn array(&mut self, d: usize) -> Value {
        let v = self.node(d.saturating_sub(1));
        let mut o = json!({"type": "array", "items": v});
        if self.r.pct(10) {
            o["minItems"] = json!(self.r.below(3));
        }
        if self.r.pct(10) {
            o["maxItems"] = json!(self.r.range(3, 9));
        }
        if self.r.pct(5) {
            o["additionalItems"] = json!(self.r.pct(50));
        }
        o
    }

    pub fn tuple(&mut self, d: usize) -> Value {
        let n = match self.r.below(14) {
            0 => self.r.range(9, 14),
            1 => 0,
            _ => self.r.range(1, 4),
        };
        let items: Vec<Value> = (0..n).map(|_| self.node(d.saturating_sub(1))).collect();
        let mut o = json!({"type": "array", "items": items});
        if self.r.pct(self.p.open) {
            match self.r.below(5) {
                0 => o["additionalItems"] = json!(true),
                1 => {
                    o["additionalItems"] = self.leaf();
                    if n > 0 && self.r.pct(50) {
                        o["maxItems"] = json!(n - 1);
                    }
                }
                2 => o["maxItems"] = json!(n + 1),
                3 => {
                    if n > 0 {
                        o["maxItems"] = json!(n - 1)
                    }
                }
                _ => {}
            }
        } else {
            match self.r.below(4) {
                0 | 1 => {
                    o["additionalItems"] = json!(false);
                    if self.r.pct(20) {
                        o["maxItems"] = json!(n);
                    }
                }
                2 => {
                    o["additionalItems"] = self.node(d.min(2).saturating_sub(1));
                    let k = if self.r.pct(4) {
                        // far beyond the list
                        o["additionalItems"] = self.leaf();
                        match self.d.ints.is_empty() || self.r.pct(50) {
                            true => self.r.range(20, 140),
                            false if self.r.pct(10) => (*self.r.pick(&self.d.big) + self.r.below(3)).min(600),
                            false => *self.r.pick(&self.d.ints) + self.r.below(3),
                        }
                    } else if self.r.pct(10) { self.r.range(0, 12) } else { self.r.range(0, 3) };
                    o["maxItems"] = json!(n + k);
                }
                _ => o["maxItems"] = json!(n),
            }
        }
        if self.r.pct(60) {
            o["minItems"] = json!(self.r.range(0, n + 2));
        }
        o
    }

    pub fn one_of(&mut self, d: usize) -> Value {
        let n = match self.r.below(12) {
            0 => 1,
            1..=6 => 2,
            7..=9 => 3,
            10 => 4,
            _ => self.r.range(4, 6),
        };
        let first = self.node(d.saturating_sub(1));
        let n = self.parts(n, &first);
        let odd = self.r.below(n);
        let mut items = vec![first.clone()];
        for i in 1..n {
            let v = match self.r.below(10) {
                _ if n > 6 && i != odd => first.clone(),
                0..=1 => json!({"type": "null"}),
                2 => json!({"oneOf": [self.perturb(&first), {"type": "null"}]}),
                _ if self.r.pct(self.p.clash) => self.node(d.saturating_sub(1)),
                _ => self.perturb(&first),
            };
            items.push(v);
        }
        if self.r.pct(50) {
            self.r.shuffle(&mut items);
        }
        let mut o = json!({ "oneOf": items });
        if self.r.pct(25) {
            o["type"] = json!("object");
        }
        o
    }

    pub fn type_list(&mut self, d: usize) -> Value {
        const S: &[&str] = &["boolean", "integer", "number", "string", "object", "array"];
        let d = if self.left == 0 { 0 } else { d };
        let mut l: Vec<&str> = match self.r.below(20) {
            0..=8 => vec![self.r.pick(S), "null"],
            9..=11 => vec!["integer", "number"],
            12 => vec![self.r.pick(S)],
            13 => vec!["null"],
            14 => vec!["integer", "integer", "null"],
            15..=16 => vec!["number", "null", "integer"],
            _ if self.r.pct(self.p.clash * 2) => vec![self.r.pick(S), self.r.pick(S), "null"],
            _ => vec!["string", "string"],
        };
        if d == 0 {
            l.retain(|t| *t != "object" && *t != "array");
            if l.is_empty() {
                l.push("string");
            }
        }
        if self.r.pct(50) {
            self.r.shuffle(&mut l);
        }
        let mut o = JMap::new();
        if l.contains(&"object") {
            let x = if self.r.pct(80) { self.object(d) } else { self.map(d) };
            o.extend(x.as_object().unwrap().clone());
        }
        if l.contains(&"array") {
            let x = if self.r.pct(90) { self.array(d) } else { self.tuple(d) };
            o.extend(x.as_object().unwrap().clone());
        }
        if l.contains(&"string") && self.r.pct(10) {
            o.insert("format".into(), json!("uuid"));
        }
        o.insert("type".into(), json!(l));
        Value::Object(o)
    }

    /// A variation of a schema, usually still compatible with it.
    pub fn perturb(&mut self, v: &Value) -> Value {
        let mut v = v.clone();
        let clash = self.p.clash;
        if let Some(m) = v.as_object_mut() {
            match m.get("type").cloned() {
                Some(Value::String(t)) if t == "integer" && self.r.pct(40) => {
                    m.insert("type".into(), json!("number"));
                }
                Some(Value::String(t)) if t == "number" && self.r.pct(40) => {
                    m.insert("type".into(), json!("integer"));
                }
                Some(Value::String(t))
                    if ["boolean", "string", "integer"].contains(&t.as_str()) && self.r.pct(15) =>
                {
                    m.insert("type".into(), json!([t, "null"]));
                }
                // neighbouring scalar kinds: one string format beside another
                Some(Value::String(t)) if t == "string" && self.r.pct(clash / 2 + 3) => match self.r.below(6) {
                    0 => {
                        m.insert("type".into(), json!("boolean"));
                    }
                    1 | 2 => {
                        m.insert("format".into(), json!("date-time"));
                    }
                    3 => {
                        m.insert("format".into(), json!("bytes"));
                    }
                    4 => {
                        m.insert("format".into(), json!(*self.r.pick(FORMATS)));
                    }
                    _ => {
                        m.remove("format");
                    }
                },
                Some(Value::String(t)) if t == "null" && self.r.pct(10) => {
                    m.insert("type".into(), json!("string"));
                }
                _ => {}
            }
            if let Some(p) = m.get("properties").and_then(Value::as_object).cloned() {
                let mut p2 = JMap::new();
                for (k, x) in p {
                    if self.r.pct(15) {
                        continue;
                    }
                    let y = if self.r.pct(40) {
                        self.perturb(&x)
                    } else if self.r.pct(clash / 5) {
                        self.node(1)
                    } else {
                        x
                    };
                    p2.insert(k, y);
                }
                if self.r.pct(35) {
                    let k = self.name();
                    let used: BTreeSet<_> = p2.keys().filter_map(|k| column_name(k, true)).collect();
                    let free = column_name(&k, true).map_or(true, |c| !used.contains(&c));
                    if !p2.contains_key(&k) && (free || self.p.collide) {
                        let y = self.node(1);
                        p2.insert(k, y);
                    }
                }
                let names: Vec<String> = p2.keys().cloned().collect();
                if self.r.pct(50) {
                    match self.required(&names) {
                        Some(r) => m.insert("required".into(), r),
                        None => m.remove("required"),
                    };
                }
                m.insert("properties".into(), Value::Object(p2));
            }
            for k in ["items", "additionalProperties"] {
                if let Some(x) = m.get(k).cloned() {
                    if x.is_object() {
                        let y = self.perturb(&x);
                        m.insert(k.into(), y);
                    }
                }
            }
            if let Some(pp) = m.get("patternProperties").and_then(Value::as_object).cloned() {
                let mut q = JMap::new();
                for (k, x) in pp {
                    let y = if self.r.pct(40) { self.perturb(&x) } else { x };
                    q.insert(k, y);
                }
                m.insert("patternProperties".into(), Value::Object(q));
            }
            for k in ["items", "oneOf"] {
                if let Some(l) = m.get(k).and_then(Value::as_array).cloned() {
                    let mut q = vec![];
                    for x in l {
                        q.push(if self.r.pct(25) { self.perturb(&x) } else { x });
                    }
                    m.insert(k.into(), Value::Array(q));
                }
            }
        }
        v
    }
}

pub const KNOWN: &[&str] = &[
    "type", "format", "title", "description", "properties", "additionalProperties", "patternProperties", "required",
    "items", "additionalItems", "minItems", "maxItems", "oneOf", "allOf", "mozPipelineMetadata",
];

pub fn text(r: &mut Rng) -> String {
    if r.pct(12) {
        if let Some(w) = crate::dict::word(r) {
            return match r.below(4) {
                0 => w,
                1 => format!("{} {}", text(r), w),
                2 => format!("{}{}", w, text(r)),
                _ => format!("{}: {}", w, r.pick(&["x", "1", "no", ""])),
            };
        }
    }
    let n = match r.below(12) {
        0 => *r.pick(&[1020usize, 1021, 1022, 1023, 1024, 1025, 1500]),
        1 => match r.below(5) {
            4 => crate::dict::size(r).unwrap_or(3),
            0 => *r.pick(&[127usize, 128, 129, 255, 256, 257, 300, 511, 512, 2047, 2048, 2049]),
            _ => r.range(500, 520),
        },
        2 => 0,
        _ => r.range(1, 12),
    };
    if n == 0 {
        return r
            .pick(&["", "REQUIRED", "a \"quoted\" text", "line\nbreak", "  spaced  ", "trailing ", "-", " - ", "null"])
            .to_string();
    }
    let al: Vec<char> = "abc XYZ 09.-_é日😀\t".chars().collect();
    let any = r.pct(25);
    (0..n).map(|_| if any && r.pct(60) { any_char(r) } else { *r.pick(&al) }).collect()
}

/// Any character: control characters, separators, marks and the ends of the planes included.
pub fn any_char(r: &mut Rng) -> char {
    let c = match r.below(8) {
        0 => r.below(0x20),
        1 => r.range(0x7f, 0xa0),
        2 => r.range(0x20, 0x7e),
        3 => *r.pick(&[
            0x2028usize, 0x2029, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x1f468, 0x200d, 0x301, 0x202e, 0xad, 0xa0,
        ]),
        4 => r.range(0xa0, 0x2fff),
        5 => r.range(0x3000, 0xd7ff),
        6 => r.range(0xe000, 0xffff),
        _ => r.range(0x10000, 0x10ffff),
    };
    char::from_u32(c as u32).unwrap_or('x')
}

/// Visits every sub-schema position (in a fixed order).
pub fn positions(s: &Value) -> Vec<Vec<String>> {
    fn go(s: &Value, at: Vec<String>, out: &mut Vec<Vec<String>>) {
        if !s.is_object() {
            return;
        }
        out.push(at.clone());
        let sub = |k: &[&str]| {
            let mut v = at.clone();
            v.extend(k.iter().map(|s| s.to_string()));
            v
        };
        for k in ["properties", "patternProperties"] {
            if let Some(m) = s.get(k).and_then(Value::as_object) {
                for (n, v) in m {
                    go(v, sub(&[k, n]), out);
                }
            }
        }
        for k in ["additionalProperties", "additionalItems", "items"] {
            if let Some(v) = s.get(k) {
                if v.is_object() {
                    go(v, sub(&[k]), out);
                }
            }
        }
        for k in ["oneOf", "items"] {
            if let Some(l) = s.get(k).and_then(Value::as_array) {
                for (i, v) in l.iter().enumerate() {
                    go(v, sub(&[k, &i.to_string()]), out);
                }
            }
        }
    }
    let mut out = vec![];
    go(s, vec![], &mut out);
    out
}

pub fn at_mut<'v>(s: &'v mut Value, path: &[String]) -> Option<&'v mut Value> {
    let mut cur = s;
    for k in path {
        cur = match cur {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(l) => l.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(cur)
}

pub fn at<'v>(s: &'v Value, path: &[String]) -> Option<&'v Value> {
    let mut cur = s;
    for k in path {
        cur = match cur {
            Value::Object(m) => m.get(k)?,
            Value::Array(l) => l.get(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(cur)
}
