From 77225663dd2872b31d71f7920e8d7641aeff0f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 01/22] fix: collapse unions nested inside a collapsed union

A union collapse copies the type of its only (non-null) variant, or of a
property found in a single variant, without collapsing it. Avro collapses
once at the root, so such a union was later cast to a string, and BigQuery
collapses it one level further down, after the nullability of the column was
inferred, so an optional column became REQUIRED.
---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index f350af5..5b381f7 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -565,6 +565,8 @@ impl Tag {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
                 self.nullable = tag.nullable;
+                // the collapsed type may still be, or contain, a union
+                self.collapse();
             }
             _ => (),
         }
-- 
2.43.0


From 7d585005f3341f5a4ea0c9e932fdf862dfa9da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 02/22] fix: keep the nullability of a tag when its union is
 collapsed

An optional tuple item (beyond minItems) with a union type became required
again, because collapsing replaced the nullability of the tag.
---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 5b381f7..165427c 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -564,7 +564,7 @@ impl Tag {
             Type::Union(union) => {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
-                self.nullable = tag.nullable;
+                self.nullable |= tag.nullable;
                 // the collapsed type may still be, or contain, a union
                 self.collapse();
             }
-- 
2.43.0


From a82836d97389d7b37fe1d354a3ae50b6a5dbc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 03/22] fix: keep the nullability of the only item of a union

A property of a single object variant lost its nullability when the variants
were merged.
---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 165427c..d2d8743 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -105,7 +105,7 @@ impl Union {
             return Tag {
                 name: None,
                 namespace: None,
-                nullable: is_null,
+                nullable: is_null || self.items[0].nullable,
                 is_root: false,
                 data_type: self.items[0].data_type.clone(),
                 description: None,
-- 
2.43.0


From e7131e6365c061c7dac2077a71837e13b59aa8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 04/22] fix: require a merged property only if every variant
 requires it

When one of the merged object variants had no required list at all, the list
of the other one was applied to the merged object.
---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index d2d8743..05c1538 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -190,7 +190,7 @@ impl Union {
                                     (Some(x), Some(y)) => {
                                         Some(x.intersection(y).map(ToString::to_string).collect())
                                     }
-                                    (Some(x), None) | (None, Some(x)) => Some(x.clone()),
+                                    // a variant without a required list requires nothing
                                     _ => None,
                                 };
                             Type::Object(Object::new(result, required))
-- 
2.43.0


From 36aa8476e5d53009390c1dad57936ce2cfec0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 05/22] fix: the union of two equal datetime or bytes types is
 not a conflict

---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 05c1538..5f3f1b6 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -145,6 +145,8 @@ impl Union {
                             | (Atom::Integer, Atom::Number)
                             | (Atom::Number, Atom::Integer) => Atom::Number,
                             (Atom::String, Atom::String) => Atom::String,
+                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
+                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                             (lhs, rhs) => {
                                 trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                 Atom::Json
-- 
2.43.0


From 82cfa6ed176c957dbde294e1a9717fdd2e35ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 06/22] fix: fully collapse nested unions before comparing
 their kinds

A nested union that collapsed to null, or to another union, was treated as a
conflicting variant instead of being unwrapped.
---
 src/ast.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 5f3f1b6..364c322 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -116,17 +116,19 @@ impl Union {
         let items: Vec<Tag> = self
             .items
             .iter()
-            .filter(|x| !x.is_null())
             .map(|x| {
-                if let Type::Union(union) = &x.data_type {
-                    let mut tag = union.collapse();
-                    tag.name = x.name.clone();
-                    tag
-                } else {
-                    x.clone()
+                let mut tag = x.clone();
+                // a nested union may collapse into yet another union or null
+                while let Type::Union(union) = &tag.data_type {
+                    let collapsed = union.collapse();
+                    tag.nullable |= collapsed.nullable;
+                    tag.data_type = collapsed.data_type;
                 }
+                tag
             })
             .collect();
+        let is_null = items.iter().any(Tag::is_null);
+        let items: Vec<Tag> = items.into_iter().filter(|x| !x.is_null()).collect();
 
         // after collapsing nulls in the base case and collapsing nested unions in
         // the pre-processing step, check for nullability based on the immediate level of tags
-- 
2.43.0


From 23df03e2c9b0587bf889b3d3a3508d9d51c1526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 07/22] fix: rename properties in a fixed order

When several property names map to the same column name, the one that was
kept depended on the iteration order of a hash map, and changed between runs.
---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 364c322..b0c61fc 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -392,7 +392,9 @@ impl Tag {
     pub fn normalize_properties(&mut self, normalize_case: bool) {
         if let Type::Object(ref mut object) = self.data_type {
             let fields = &mut object.fields;
-            let keys: Vec<String> = fields.keys().cloned().collect();
+            let mut keys: Vec<String> = fields.keys().cloned().collect();
+            // The order decides which of several colliding names is kept
+            keys.sort();
 
             for key in keys {
                 // Replace property names with the normalized property name
-- 
2.43.0


From 4b7ad68cdf332408847c3baf638b675efd3c24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 08/22] fix: omit empty property names instead of panicking

An empty property name, or one made of underscores when snake_casing, has no
first character to test for a digit.
---
 src/ast.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index b0c61fc..feaa8c4 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -359,7 +359,7 @@ impl Tag {
 
     /// If a name starts with a number, prefix it with an underscore.
     fn normalize_numeric_prefix(name: String) -> String {
-        if name.chars().next().unwrap().is_numeric() {
+        if name.starts_with(char::is_numeric) {
             format!("_{}", name)
         } else {
             name
@@ -398,14 +398,17 @@ impl Tag {
 
             for key in keys {
                 // Replace property names with the normalized property name
-                if let Some(mut renamed) = Tag::normalize_name_bigquery(&key) {
-                    renamed = if normalize_case {
+                let renamed = Tag::normalize_name_bigquery(&key).map(|renamed| {
+                    if normalize_case {
                         // snake_casing strips symbols outside of word
                         // boundaries e.g. _64bit -> 64bit
                         Tag::normalize_numeric_prefix(to_snake_case(&renamed))
                     } else {
                         renamed
-                    };
+                    }
+                });
+                // snake_casing leaves nothing of a name made of underscores
+                if let Some(renamed) = renamed.filter(|renamed| !renamed.is_empty()) {
                     if renamed.as_str() != key.as_str() {
                         warn!("{} replaced with {}", key, renamed);
                         fields.insert(renamed, fields[&key].clone());
-- 
2.43.0


From 6c52567169eaaedbb5fdf094937836316b420c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 09/22] fix: anchor every alternative of json_object_path_regex

The anchor only applied to the first branch of a pattern like 'a|b'.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 591a434..2b35eae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ impl Context {
             .as_ref()
             .map(|object_regex| {
                 // Ensure we match from the beginning of the string
-                let re = format!(r"\A{}", object_regex);
+                let re = format!(r"\A(?:{})", object_regex);
                 let json_object_path_re = Regex::new(&re).unwrap();
                 json_object_path_re.is_match(fqn)
             })
-- 
2.43.0


From d92d6c8df99cdf0b17e86a19e40f87a8b404a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 10/22] fix: reset a namespace that was inferred inside a union

Columns of a union at the root kept the namespace '.__union__' from before the
union was collapsed, so they never matched json_object_path_regex.
---
 src/ast.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index feaa8c4..6f6b71d 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -447,9 +447,11 @@ impl Tag {
     /// Sets a tag with references to the name and the namespace.
     fn set_name(&mut self, name: &str, namespace: &str) {
         self.name = Some(name.to_string());
-        if !namespace.is_empty() {
-            self.namespace = Some(namespace.to_string());
-        }
+        self.namespace = if namespace.is_empty() {
+            None
+        } else {
+            Some(namespace.to_string())
+        };
     }
 
     /// A helper function for calculating the names and namespaces within the
-- 
2.43.0


From 26f07f1ce76ced55559b34139f6cc4bf01c356db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 11/22] fix: wrap a union root that collapses to an array or
 map

Its columns were extracted as if the root were an object, losing the
repetition.
---
 src/bigquery.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigquery.rs b/src/bigquery.rs
index d844498..cb71c69 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -227,6 +227,9 @@ impl TranslateFrom<ast::Tag> for Schema {
     type Error = &'static str;
 
     fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
+        let mut tag = tag;
+        // The kind of a union root is only known after it has been collapsed
+        tag.collapse();
         let mut bq_tag = Tag::translate_from(tag.clone(), context).unwrap();
         match *bq_tag.data_type {
             // Maps and arrays are both treated as a Record type with different
-- 
2.43.0


From bf9a6fbe864daa9d56ef10def327e3e0b7985517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 12/22] fix: resolve an array without items like other
 under-specified schemas

It failed the whole conversion, even with the cast and drop methods.
---
 src/jsonschema.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 5977f46..2f1f80e 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -371,7 +371,14 @@ impl Tag {
                     };
                     ast::Tag::new(data_type, None, false, description, title)
                 } else {
-                    return Err("array missing item");
+                    // an array without items is under-specified
+                    ast::Tag::new(
+                        ast::Type::Atom(ast::Atom::Json),
+                        None,
+                        false,
+                        description,
+                        title,
+                    )
                 }
             }
         };
-- 
2.43.0


From 45a1debeaee2aefe2737e72b9a84e4b7c2cdb160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 13/22] fix: treat empty patternProperties as absent

It failed the whole conversion with 'empty union is not allowed'.
---
 src/jsonschema.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 2f1f80e..e0a6f55 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -229,7 +229,11 @@ impl Tag {
                     // handle maps
                     match (
                         &self.object.additional_properties,
-                        &self.object.pattern_properties,
+                        // an empty set of patterns specifies nothing
+                        self.object
+                            .pattern_properties
+                            .as_ref()
+                            .filter(|pat| !pat.is_empty()),
                     ) {
                         (Some(AdditionalProperties::Object(add)), Some(pat)) => {
                             let mut vec: Vec<ast::Tag> = Vec::new();
-- 
2.43.0


From c49763d69128abcd7115de2253b8d2deab95cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 14/22] fix: the union of a tuple and null is a nullable tuple

It was treated as a conflict, although null only affects nullability.
---
 src/ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6f6b71d..0f21a7c 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -134,7 +134,10 @@ impl Union {
         // the pre-processing step, check for nullability based on the immediate level of tags
         let nullable = is_null || items.iter().any(|tag| tag.nullable);
 
-        let data_type: Type = if items.iter().all(Tag::is_atom) {
+        let data_type: Type = if items.len() == 1 {
+            // there is nothing to merge with, whatever the type is
+            items[0].data_type.clone()
+        } else if items.iter().all(Tag::is_atom) {
             items
                 .into_iter()
                 .fold(Type::Null, |acc, x| match (acc, &x.data_type) {
-- 
2.43.0


From 432b3aabe64d03a5dbdec000bbd0b3b7ae70832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 15/22] fix: reject a type that is neither a string nor a list

It was silently treated as an object.
---
 src/jsonschema.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index e0a6f55..021efc7 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -132,7 +132,8 @@ impl Tag {
                     .collect();
                 Type::List(list)
             }
-            _ => Type::Atom(Atom::Object),
+            (Value::Null, _) => Type::Atom(Atom::Object),
+            (invalid, _) => panic!("invalid type: {}", invalid),
         }
     }
 
-- 
2.43.0


From 3c37a0d9c79cf9087c7030cdf3607a493fa4efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 16/22] fix: treat an empty tuple as under-specified

It produced a record without fields, which BigQuery does not accept.
---
 src/jsonschema.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 021efc7..4658ff9 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -374,6 +374,13 @@ impl Tag {
                             }
                         }
                     };
+                    let data_type = match data_type {
+                        // a struct without fields cannot be represented
+                        ast::Type::Tuple(tuple) if tuple.items.is_empty() => {
+                            ast::Type::Atom(ast::Atom::Json)
+                        }
+                        data_type => data_type,
+                    };
                     ast::Tag::new(data_type, None, false, description, title)
                 } else {
                     // an array without items is under-specified
-- 
2.43.0


From c5bfeb01ca80a35f41112661de5440b7967f4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:58 +0000
Subject: [PATCH 17/22] fix: the ingestion helper encodes byte columns as bytes

---
 scripts/mps-generate-avro-data-helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index cc29d1e..6906968 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -80,6 +80,9 @@ def convert(data, schema):
             out[key] = convert(value, schema.values)
         return out
 
+    if schema.type == "bytes" and isinstance(data, str):
+        return data.encode("utf-8")
+
     # terminal node, do nothing
     return data
 
-- 
2.43.0


From 7fc151066e8a46c928b5853c5a9e195e2f73febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 18/22] fix: the ingestion helper keeps null values

---
 scripts/mps-generate-avro-data-helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index 6906968..839a4cd 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -60,6 +60,9 @@ def convert(data, schema):
         return out
 
     if schema.type == "union":
+        # only nullable types are unions
+        if data is None:
+            return None
         for sub in schema.schemas:
             if sub.type == "null":
                 continue
-- 
2.43.0


From 9665b6d13aade2c854dd6ee42fe8652ffb8f6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:13 +0000
Subject: [PATCH 19/22] fix: the ingestion helper keeps empty inner lists

---
 scripts/mps-generate-avro-data-helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index 839a4cd..61d770d 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -41,12 +41,12 @@ def convert(data, schema):
     if schema.type == "record":
         # iterate over all keys
         out = {}
+        # convert a nested list, which may be empty
+        if isinstance(data, list) and set(schema.field_map.keys()) == {"list"}:
+            data = {"list": data}
         if not data:
             return out
 
-        # convert a nested
-        if isinstance(data, list) and set(schema.field_map.keys()) == {"list"}:
-            data = {"list": data}
         # cast tuple into an object before continuing
         if isinstance(data, list):
             data = {f"f{i}_": v for i, v in enumerate(data)}
-- 
2.43.0


From a15c495dde2b41b8e66b1544651ceec509fafe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:37 +0000
Subject: [PATCH 20/22] fix: the validation script calls the current command
 line

---
 scripts/mps-validate-avro-schemas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mps-validate-avro-schemas.py b/scripts/mps-validate-avro-schemas.py
index 5620984..582ec5c 100755
--- a/scripts/mps-validate-avro-schemas.py
+++ b/scripts/mps-validate-avro-schemas.py
@@ -12,7 +12,7 @@ import avro.schema
 
 
 ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
-BIN = "target/debug/jsonschema_transpiler"
+BIN = "target/debug/jsonschema-transpiler"
 
 
 def build():
@@ -25,7 +25,7 @@ def avro_schema(path):
     schema = None
     try:
         data = subprocess.check_output(
-            [BIN, "--from-file", path, "--type", "avro"], stderr=subprocess.DEVNULL
+            [BIN, path, "--type", "avro"], stderr=subprocess.DEVNULL
         )
         schema = json.loads(data)
     except subprocess.CalledProcessError:
-- 
2.43.0


From f3cc0334edebc2c9ddb2dbd824223107d19e5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 21/22] fix: document names that contain ndjson keep it

---
 scripts/mps-generate-avro-data.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-generate-avro-data.sh b/scripts/mps-generate-avro-data.sh
index cce741a..4a0c8fa 100755
--- a/scripts/mps-generate-avro-data.sh
+++ b/scripts/mps-generate-avro-data.sh
@@ -2,7 +2,7 @@
 
 cd "$(dirname "$0")/.." || exit
 
-documents=$(ls data | sed 's/.ndjson//')
+documents=$(ls data | sed 's/\.ndjson$//')
 
 total=0
 failed=0
-- 
2.43.0


From 0681548b52a9db402b9a5f252701295718158f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 22/22] fix: the ingestion helper fails on a line that is no
 document

---
 scripts/mps-generate-avro-data-helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index 61d770d..58c2cec 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -116,5 +116,7 @@ except:
     with open("test-schema.json", "w") as f:
         json.dump(schema.to_json(), f, indent=2)
     validation.validate(out, parse_schema(schema.to_json()))
+    # the document may be valid, or may not even have been parsed
+    raise
 
 writer.close()
-- 
2.43.0

