#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the records stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=("convert_avro / convert_bigquery return value",), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

SUP = "every JSON Schema built from type, properties, required, additionalProperties, patternProperties, items, additionalItems, minItems, maxItems, oneOf, format, title, description plus arbitrary other (ignored) keywords"

p("C01", "Output is deterministic and independent of presentation and history",
  "Converting the same schema with the same options always yields byte-identical output: in repeated calls, in separate processes, from concurrent threads, and whatever was converted (or rejected) before. Reordering JSON object members, or the entries of `required`, in the input does not change the output. This includes schemas whose distinct property names collide after renaming.",
  ["inputs", "histories", "schedules"], "all schemas, all option combinations, all orders of calls and all hash seeds",
  "The code iterates hash maps with per-instance random seeds at several places; a test sees one seed per run and no test converts twice or has colliding names.",
  ["src/ast.rs", "src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs", "src/lib.rs"],
  [("fields are sorted before emission", "src/avro.rs translate_from (sort_by_key), src/bigquery.rs Schema::translate_from, fields_as_vec::serialize"),
   ("renaming walks a snapshot of the keys", "src/ast.rs normalize_properties")],
  [("fields / properties / patternProperties", "hash maps with randomised iteration order", "src/ast.rs, src/jsonschema.rs")],
  ["convert_avro / convert_bigquery return value", "stdout of the command line tool"])

p("C02", "Avro output is always a valid Avro schema",
  "Whenever Avro conversion of a supported schema returns, under any options, the result is a well-formed Avro schema: only legal primitive, record, array and map forms; legal names and namespaces; every record full name defined at most once; field names unique within a record; unions are exactly null followed by one non-null, non-union type; and a field default is null and occurs only on fields whose type admits null.",
  ["inputs", "configurations"], SUP + ", under all option combinations",
  "The tests compare a few dozen small schemas with fixed outputs; nothing checks the Avro rules over nested arrays, maps, variants, tuples, odd names and options combined.",
  ["src/avro.rs", "src/ast.rs"],
  [("translation of each node kind", "src/avro.rs Type::translate_from"), ("names and namespaces from the path", "src/ast.rs infer_name")],
  [("name / namespace", "path of the record, made unique by position", "src/ast.rs Tag")])

p("C03", "BigQuery output is always a valid table schema",
  "Whenever BigQuery conversion of a supported schema returns, under any options, the result is a non-empty JSON array of columns in which each column has exactly a name, a type and a mode, plus a non-empty list of sub-columns if and only if it is a RECORD, plus optionally a description of at most 1024 characters. Names match [A-Za-z_][A-Za-z0-9_]* and are unique among siblings, siblings are sorted by name, and types and modes are legal BigQuery ones. A schema whose root is not an object (or tuple) gives a single column named root.",
  ["inputs", "configurations"], SUP + ", under all option combinations",
  "The tests fix the output of a few dozen schemas; variant roots, nested repetition, long descriptions, odd names and option combinations are not covered.",
  ["src/bigquery.rs", "src/ast.rs"],
  [("translation of each node kind, mode and description", "src/bigquery.rs Tag::translate_from"), ("root handling", "src/bigquery.rs Schema::translate_from"), ("sorted sub-columns", "src/bigquery.rs fields_as_vec")])

p("C04", "Avro and BigQuery outputs describe the same table",
  "For every supported schema converted with casting, the Avro and the BigQuery output have the same column tree: same column names at every level, same repetition (Avro array or map versus REPEATED, maps as key/value records), same nullability of every non-repeated column, and corresponding leaf types (boolean-BOOL, long-INT64, double-FLOAT64, bytes-BYTES, string-STRING/TIMESTAMP/JSON, null-nullable STRING). This holds under every combination of the case-normalising, force-nullable and tuple options, so Avro files written with one load into tables created with the other.",
  ["inputs", "configurations"], SUP + ", under all options with the cast strategy",
  "Each test fixes one format at a time; the two translators share no code beyond the intermediate form and no test relates their outputs.",
  ["src/avro.rs", "src/bigquery.rs", "src/ast.rs"],
  [("variants are collapsed before translation (once for Avro, per level for BigQuery)", "src/ast.rs Tag::collapse; src/avro.rs, src/bigquery.rs translate_from"),
   ("nullability inference", "src/ast.rs infer_nullability")])

p("C05", "Every conforming document fits the generated schemas",
  "For every supported schema converted with casting, every document that conforms to it and uses only the properties it declares can be encoded in the generated Avro schema and in the generated BigQuery schema with the documented ingestion rules (rename keys, serialise to text where the column is a string, tuples as f0_, f1_, ..., inner lists in a `list` record). No required column is ever missing or null, no value meets a column of an incompatible type, and no declared value with a valid name is left without a column.",
  ["inputs", "configurations"], "all supported schemas, all documents conforming to them, all options with the cast strategy (BigQuery: except arrays whose elements are maps, which BigQuery cannot nest)",
  "No test ever looks at a document; soundness of the schema for all conforming documents is the purpose of the tool and is only exercised by manual cloud scripts.",
  ["src/ast.rs", "src/jsonschema.rs", "src/avro.rs", "src/bigquery.rs", "scripts/mps-generate-avro-data-helper.py"],
  [("union collapse to a structurally compatible type", "src/ast.rs Union::collapse"), ("nullability inference", "src/ast.rs infer_nullability"), ("leaf mapping", "src/avro.rs, src/bigquery.rs")])

p("C06", "A column is required exactly when the schema guarantees a value",
  "Without force-nullable, a column is REQUIRED (Avro: not a union with null) exactly when its property is listed as required by its object - by every variant, if several object variants were merged - and no variant of its own schema admits null; otherwise it is NULLABLE and its Avro field has a null default. The same holds for map values and array elements (non-null unless their schema admits null), for map keys (always required) and for listed tuple items (required up to minItems, or all of them if minItems is absent; additional items are never required). Renaming a property never changes its nullability.",
  ["inputs", "configurations"], SUP + ", under all options except force-nullable",
  "Nullability is inferred three times in different phases and overwritten by collapsing; the tests check a handful of flat required lists and one merged variant pair.",
  ["src/ast.rs", "src/jsonschema.rs", "src/avro.rs", "src/bigquery.rs"],
  [("nullability inference", "src/ast.rs infer_nullability"), ("required-set intersection and null detection", "src/ast.rs Union::collapse"), ("mode", "src/bigquery.rs Tag::translate_from"), ("null default", "src/avro.rs")],
  [("nullable", "whether a value may be null", "src/ast.rs Tag"), ("required", "names required in an object", "src/ast.rs Object")])

p("C07", "Casting never fails and touches only what is under-specified",
  "With the cast strategy every supported schema converts successfully, however under-specified or conflicting its parts are; each under-specified or conflicting node becomes a string column (Avro string, BigQuery STRING) and nothing is dropped. Making one object property under-specified changes that property's column only: every sibling and every other column stays exactly as it was.",
  ["inputs", "configurations"], SUP + ", including empty schemas, arrays without items, empty or absent property lists, conflicting variants, invalid names",
  "The tests cast one empty object; totality over all combinations and absence of effects on siblings cannot be sampled.",
  ["src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs", "src/ast.rs", "src/lib.rs"],
  [("error handling per strategy", "handle_error in src/avro.rs and src/bigquery.rs"), ("json atom for anything unstructured", "src/jsonschema.rs atom_into_ast, src/ast.rs Union::collapse")])

p("C08", "Drop, cast and panic strategies agree with one another",
  "The three strategies differ only on under-specified or conflicting nodes: if the panic strategy succeeds, all three give identical output; if it fails, dropping either fails or gives a different output than casting. The drop output is the cast output with columns removed: every column it keeps has the same name, type, mode and description as under casting, every well-specified column not inside a dropped one is kept, and a record, list or map disappears exactly when nothing inside it can be kept or its element is dropped (a tuple with a dropped item disappears whole in BigQuery, while in Avro it only loses that item).",
  ["inputs", "configurations"], SUP + ", all other options, both formats",
  "The tests try the three strategies on one two-property object.",
  ["src/avro.rs", "src/bigquery.rs"],
  [("error handling per strategy", "handle_error in src/avro.rs and src/bigquery.rs"), ("filtering of failed fields, untyped array / map propagation", "src/avro.rs, src/bigquery.rs translate_from")])

p("C09", "Columns are exactly the properties, with sanitised names",
  "With casting, an object's columns are exactly the images of its property names under the renaming rule: '.' and '-' become '_', a leading digit gets a '_' prefix, and names that are still not [A-Za-z_][A-Za-z0-9_]* (including the empty name and, under case normalisation, names of underscores only) are omitted without failing the conversion; all other names are kept verbatim. Each column carries the schema of the property it came from, and if several properties map to one name exactly one column remains, carrying the schema of one of them.",
  ["inputs"], "all objects at any depth, all property name strings",
  "One unit test renames four names in a flat object; the name space is unbounded and renaming is repeated at several levels and phases.",
  ["src/ast.rs"],
  [("renaming of fields and required names", "src/ast.rs normalize_properties, normalize_name_bigquery, normalize_numeric_prefix")])

p("C10", "force-nullable relaxes nullability and changes nothing else",
  "Under force-nullable no column is REQUIRED at any depth (Avro: every record, field, array element, map value and tuple item type is a union with null, and every object or tuple field has a null default), and apart from modes, null unions and null defaults the output is identical to the one without the option (the record that wraps an array inside an array keeps its field without default): same columns, types, repetition and descriptions, for every strategy and other option.",
  ["inputs", "configurations"], SUP + ", all other options, both formats",
  "One test covers one schema with each container once; interaction with variants, nested containers and strategies is not covered.",
  ["src/ast.rs", "src/avro.rs", "src/bigquery.rs"],
  [("nullability inference with force_nullable", "src/ast.rs infer_nullability")])

p("C11", "Case normalisation renames columns and changes nothing else",
  "With case normalisation the output equals the output without it except that every column derived from a property name (and the record names and namespaces built from them) is replaced by its snake_case form, prefixed with '_' if that would start with a digit; structure, types, nullability and descriptions are unchanged as long as no two sibling names become equal. Names of underscores only are omitted. Generated names (key, value, list, f0_, root) are left alone, and normalising an already normalised schema changes nothing.",
  ["inputs", "configurations"], SUP + ", all other options, both formats, both casing engines",
  "Two tests normalise four flat names; required-name tracking, nested paths and edge names (only underscores, digit-leading) are not covered.",
  ["src/ast.rs", "src/casing.rs"],
  [("renaming of fields and required names", "src/ast.rs normalize_properties"), ("snake casing", "src/casing.rs to_snake_case")])

p("C12", "snake_case conversion follows the documented word rules in both engines",
  "For every ASCII string, snake-casing yields the lower-cased words joined by single underscores, where words are split at every non-alphanumeric character, between a lowercase letter and a following uppercase letter, and before the last uppercase letter of a run that is followed by a lowercase letter, with digits taking the case of the preceding letter. Letters and digits are preserved in order, the result is idempotent, and the default and the oniguruma build give the same result.",
  ["inputs", "configurations"], "all ASCII strings, both builds",
  "The fixtures enumerate all words up to length 4 over four symbols and one list of real names; longer words, other symbols and agreement of the two builds on them are not covered.",
  ["src/casing.rs"],
  [("heck based implementation", "src/casing.rs to_snake_case (default)"), ("reversed-regex implementation", "src/casing.rs to_snake_case (oniguruma)")],
  observe=("to_snake_case return value",))

p("C13", "Variant schemas merge as an order-independent, idempotent join",
  "Merging the variants of oneOf or of a type list does not depend on their order, on repetition of well-specified variants, or on nesting of one variant list in another; a null variant only makes the result nullable, and a single variant stands for itself. Identical or compatible well-specified variants keep their structure: integer with number gives number, objects merge property by property, arrays and maps merge their elements; different scalar kinds, different containers, and any two tuples conflict and the node becomes one under-specified (string) column, invalidating the merged objects directly around it but never affecting columns outside the variants.",
  ["inputs"], "all finite lists of variant schemas, at any depth",
  "The tests have about ten fixed pairs; algebraic laws over all variants and orders (hash order included) are out of reach of samples.",
  ["src/ast.rs", "src/jsonschema.rs"],
  [("union collapse", "src/ast.rs Union::collapse and Tag::collapse")])

p("C14", "Key-value objects become maps with the joined value type",
  "An object without a property list whose additionalProperties is a schema, or which has patternProperties, becomes a map: an Avro map, and in BigQuery a REPEATED record of exactly a string `key` and a `value`. The value has the type of the additionalProperties schema and all pattern schemas merged like variants; a property list always takes precedence, and additionalProperties given as true or false never makes a map by itself. The maps-without-value option changes only BigQuery output under the drop strategy, where a map whose value is dropped keeps its key instead of disappearing.",
  ["inputs", "configurations"], SUP + " containing maps, all options, both formats",
  "Six fixed map schemas and one unit test for maps without value.",
  ["src/jsonschema.rs", "src/ast.rs", "src/avro.rs", "src/bigquery.rs"],
  [("map detection and value union", "src/jsonschema.rs atom_into_ast (Atom::Object)"), ("map translation", "src/avro.rs, src/bigquery.rs translate_from")])

p("C15", "Every level of repetition is preserved",
  "An array of depth n yields n nested repetitions in both formats: the innermost carries the element type, and an array directly inside an array is wrapped in a record with the single field `list`. No repetition level of arrays or maps is lost or added, at any depth, inside objects, maps, tuples, variants or at the root, and the element's own columns and nullability are unaffected by the wrapping.",
  ["inputs", "configurations"], "all nestings of arrays, maps, objects and variants",
  "One fixed two-level array per format.",
  ["src/avro.rs", "src/bigquery.rs", "src/ast.rs"],
  [("nested list workaround", "src/avro.rs and src/bigquery.rs translate_from (child_is_array)"), ("REPEATED mode", "src/bigquery.rs Tag::translate_from")])

p("C16", "Tuples become structs exactly when enabled and closed",
  "With the tuple option, an array whose items is a list of schemas becomes a record with one field f0_, f1_, ... per position: the listed items, then - when additionalItems is a schema - copies of it up to maxItems, which are always nullable; listed items are nullable from minItems on. It must be closed (additionalItems false, or a schema with maxItems at least the tuple length, or absent with maxItems equal to the length); otherwise the conversion is rejected whatever the strategy. Without the option every such array is one under-specified (string) column, and schemas without item lists are not affected by the option at all.",
  ["inputs", "configurations"], "all item lists, minItems, maxItems, additionalItems combinations, at any depth, all options",
  "About ten fixed tuples with one or two items.",
  ["src/jsonschema.rs", "src/avro.rs", "src/bigquery.rs", "src/ast.rs"],
  [("tuple acceptance and expansion", "src/jsonschema.rs atom_into_ast (Atom::Array)"), ("tuple translation", "src/avro.rs, src/bigquery.rs translate_from")])

p("C17", "JSON columns appear exactly at configured paths",
  "If a JSON object path pattern is configured (by option or, with precedence, by the schema's own pipeline metadata, that is the text in mozPipelineMetadata.json_object_path_regex at its root and nowhere else), then a node without any structure (no type information, or conflicting variants) whose dotted column path matches the pattern from its beginning becomes a BigQuery JSON column under every strategy - never cast, dropped or failed - with the nullability or repetition it would otherwise have (paths start below the root; that of a root which is itself a column is unspecified). Every other node, and all Avro output, is exactly as without the pattern; without a pattern there are no JSON columns.",
  ["inputs", "configurations"], SUP + ", all regular expressions incl. alternations, all options",
  "Three fixed schemas with trivial patterns.",
  ["src/lib.rs", "src/bigquery.rs", "src/ast.rs"],
  [("path matching", "src/lib.rs Context::is_json_object_path"), ("metadata override", "src/lib.rs into_ast"), ("fully qualified names", "src/ast.rs infer_name, fully_qualified_name")],
  [("json_object_path_regex", "configured pattern", "src/lib.rs Context")])

p("C18", "Annotations only ever become BigQuery descriptions",
  "Titles, descriptions and all keywords the tool does not interpret never change Avro output nor any name, type or mode in BigQuery output. A BigQuery column that comes from a single schema (not merged from variants or pattern properties) has as description that schema's 'title - description', or the one that is present, cut to its first 1024 characters, and no description if it has neither; map keys and unannotated columns never get one.",
  ["inputs"], "all schemas, all placements and contents of annotations (any Unicode, any length), arbitrary unknown keywords",
  "Descriptions appear in a handful of fixed schemas; nothing covers truncation at multi-byte characters or inertness.",
  ["src/bigquery.rs", "src/jsonschema.rs", "src/ast.rs"],
  [("description formatting and truncation", "src/bigquery.rs Tag::translate_from"), ("unknown keywords collected aside", "src/jsonschema.rs Tag.extra")])

p("C19", "The command line tool equals the library",
  "For every schema and every combination of command-line options (short or long spellings, defaults included), the tool prints exactly the pretty-printed result of the corresponding library call followed by a newline and exits 0, whether the schema comes from a file, from standard input or from '-'. If the library call fails, an argument is not one of the tool's, or the input is unreadable or not JSON, it prints nothing on standard output and exits non-zero.",
  ["inputs", "configurations"], "all schemas and all command lines",
  "No test runs the binary.",
  ["src/main.rs", "src/lib.rs"],
  [("argument parsing and context construction", "src/main.rs Args, main"), ("input selection", "src/main.rs main")],
  observe=("stdout, exit status of the command line tool",))

p("C20", "Unsupported input is rejected cleanly",
  "Any JSON value given as a schema, however malformed, either converts to a well-formed output or is rejected by an ordinary, recoverable failure: no crash, abort, stack overflow or partial output, at any nesting depth the JSON parser admits. In particular unknown type names, interpreted keywords with a value of the wrong JSON type, and non-object schemas are rejected rather than silently converted, in every sub-schema that contributes to the output. A rejected conversion has no effect on later conversions.",
  ["inputs", "histories"], "all JSON values, valid or not, all options; sequences of conversions",
  "The tests only contain well-formed schemas.",
  ["src/lib.rs", "src/jsonschema.rs", "src/main.rs"],
  [("typed deserialisation of the schema", "src/jsonschema.rs Tag"), ("failure by unwinding", "src/lib.rs into_ast, convert_avro, convert_bigquery")],
  observe=("outcome of convert_avro / convert_bigquery", "exit status of the command line tool"))

p("C21", "Types map exactly and independently of context",
  "Each scalar has one fixed target wherever it occurs - boolean to boolean/BOOL, integer to long/INT64, number to double/FLOAT64, string to string/STRING, date-time strings to string/TIMESTAMP, bytes strings to bytes/BYTES, null to null/nullable STRING, every other format to string/STRING. The columns produced for a sub-schema depend only on that sub-schema: converting it alone and embedding it as an object property, array element, map value or tuple item at any depth gives the same structure and types, only the names of the enclosing path (Avro namespaces) differing. Adding, removing or changing one property of an object leaves the columns of all other properties unchanged.",
  ["inputs", "configurations"], SUP + ", all embedding contexts, all options",
  "The tests fix small schemas one at a time; context independence relates pairs of schemas.",
  ["src/jsonschema.rs", "src/ast.rs", "src/avro.rs", "src/bigquery.rs"],
  [("type and format detection", "src/jsonschema.rs get_type"), ("leaf mapping", "src/avro.rs, src/bigquery.rs"), ("recursive translation", "translate_from in both")])

p("C22", "Conversion work stays polynomial in the schema",
  "The work of a conversion - memory allocated, processor time - grows polynomially with the schema: nesting any supported construct (objects, arrays, maps, tuples, variants, type lists, or any mixture of them) twice as deep, or giving an object, variant list, tuple or pattern set twice as many parts, multiplies the work by at most about the cube of the growth of the schema, and never exponentially in the nesting depth, under every option and every strategy.",
  ["inputs", "configurations"], "all nestings and widths of all constructs, all options, both formats",
  "The tests convert schemas of at most a few levels and measure nothing; an exponential conversion is as fast as a linear one there.",
  ["src/ast.rs", "src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs", "src/lib.rs"],
  [("recursive collapse of variants", "src/ast.rs collapse"), ("recursive translation", "src/avro.rs, src/bigquery.rs translate_from"), ("conversion of sub-schemas", "src/jsonschema.rs type_into_ast")],
  observe=("bytes allocated and processor time of convert_avro / convert_bigquery",))

p("C23", "The ingestion helper encodes every conforming document",
  "For every supported schema converted to Avro with casting and without case normalisation, and every conforming document without empty property names, scripts/mps-generate-avro-data-helper.py writes one datum that is valid under the Avro schema and contains every declared value under a valid name: keys are renamed like columns; a value in a string column is kept if it is text and becomes its JSON text otherwise; text in a bytes column becomes bytes; null stays null; tuples become f0_, f1_, ...; inner lists go under `list`; undeclared keys are left out; every other value is unchanged.",
  ["inputs", "configurations"], "all pairs of a supported schema and a conforming document, all remaining options",
  "The repository has no test for the helper at all; it is only run by hand on sampled pings.",
  ["scripts/mps-generate-avro-data-helper.py", "src/avro.rs"],
  [("formatting of one document", "scripts/mps-generate-avro-data-helper.py convert and format_key"), ("the schema it follows", "src/avro.rs translate_from")],
  observe=("data handed to the Avro writer",))

p("C24", "The batch scripts mirror the tool over a whole schema tree",
  "scripts/mps-generate-schemas.sh creates exactly one file per convertible schema of the tree, named <namespace>.<doctype>.<version>.schema.json and equal to the tool's output with the given flags, replaces whatever the output folder contained before, names the schemas that fail and reports the totals. scripts/mps-generate-avro-data.sh does the same with one Avro file per data file that the helper can write, and scripts/mps-validate-avro-schemas.py reports exactly how many schemas parse, fail and are skipped. One schema that cannot be converted or written never affects the others.",
  ["inputs", "histories"], "all trees of schemas, convertible or not, all flags, repeated runs into the same folder",
  "The repository has no test that runs a script.",
  ["scripts/mps-generate-schemas.sh", "scripts/mps-generate-avro-data.sh", "scripts/mps-validate-avro-schemas.py", "src/main.rs"],
  [("conversion of every schema of the tree", "scripts/mps-generate-schemas.sh"), ("validation of every output", "scripts/mps-validate-avro-schemas.py"), ("encoding of every document", "scripts/mps-generate-avro-data.sh")],
  observe=("files written and totals printed by the scripts",))

p("C25", "Options mean the same however they are written",
  "Options read from a serialised form (JSON text, members in any order, through any reader) give exactly the conversions of the same options set in code: fields have the names of the library's context, strategies are named Cast, Drop and Panic, a field that is left out has its default - cast, every switch off, no pattern -, and a pattern may be null. A strategy of any other name (other spellings included) and a value of a wrong type are refused, never replaced by a default.",
  ["inputs", "configurations"], "all schemas and all option sets, complete or partial, in any order, right or wrong",
  "The fixtures set a few options in a few fixed combinations; nothing relates them to options set in code, and none is wrong.",
  ["src/lib.rs"],
  [("options and their defaults", "src/lib.rs Context"), ("names of the strategies", "src/lib.rs ResolveMethod")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
