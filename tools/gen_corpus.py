#!/usr/bin/env python3
"""Writes corpus/<ID>/*.json: regression inputs, one per repaired defect and per false alarm worth keeping."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus")
def opts(**k):
    o = dict(resolve="cast", normalize_case=False, force_nullable=False, tuple_struct=False, allow_maps_without_value=False, json_object_path_regex=None)
    o.update(k); return o
def w(prop, stream, name, schema, aux=None, **k):
    d = os.path.join(ROOT, prop); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + ".json"), "w") as f:
        json.dump({"property": prop, "stream": stream, "case": {"schema": schema, "opts": opts(**k), "aux": aux}}, f, indent=1, sort_keys=True); f.write("\n")
T = lambda t, **k: dict(type=t, **k)
def obj(req=None, **p):
    o = T("object", properties=p)
    if req is not None: o["required"] = req
    return o
I, S, B = T("integer"), T("string"), T("boolean")
# 7722566 nested unions
nested = {"oneOf": [T("null"), obj(["a"], a=T(["integer", "number"]))]}
w("C04", "shape", "nested-union", nested); w("C13", "join", "nested-union", nested)
w("C06", "nullability", "union-in-merged-object", obj(None, p={"oneOf": [T("null"), obj(["a"], a=T(["integer", "null"]))]}))
w("C05", "documents", "union-in-merged-object", {"oneOf": [obj(None, a={"oneOf": [I, T("number")]}), obj(None, b=S)]}, aux=list(range(1, 20)))
# 7d58500 optional tuple item with a union type
tup = T("array", items=[I, {"oneOf": [I, T("number")]}], minItems=1, maxItems=2)
w("C16", "tuples", "optional-union-item", tup, tuple_struct=True)
w("C06", "nullability", "optional-union-item", tup, tuple_struct=True)
# a82836d
w("C13", "join", "property-of-one-variant", {"oneOf": [obj(["a"], a=I), obj(["a"], a=I, b=T(["null", "integer"]))]})
w("C06", "nullability", "property-of-one-variant", {"oneOf": [obj(["a", "b"], a=I, b=T(["integer", "null"])), obj(["a", "b"], a=I)]})
# e7131e6
req = {"oneOf": [obj(["a"], a=I), obj(None, b=S)]}
w("C06", "nullability", "required-by-one-variant", req); w("C13", "join", "required-by-one-variant", req)
w("C05", "documents", "required-by-one-variant", req, aux=list(range(1, 20)))
# 36aa847
w("C13", "join", "equal-datetimes", {"oneOf": [T("string", format="date-time"), T("string", format="date-time")]})
w("C13", "join", "equal-bytes", {"oneOf": [T("string", format="bytes"), T("string", format="bytes")]})
# 82cfa6e
w("C13", "join", "variant-union-of-null", {"oneOf": [{"oneOf": [T("null"), T("null")]}, I]})
w("C13", "join", "variant-union-of-unions", {"oneOf": [{"oneOf": [{"oneOf": [obj(None, a=I), obj(None, b=I)]}, T("null")]}, obj(None, c=I)]})
# 23df03e
many = obj(None, **{"a.b": I, "a-b": S, "a_b": B, "c.d": S, "c-d": B, "c_d": I})
for i in range(4): w("C01", "repeat", "colliding-names-%d" % i, dict(many, title="t%d" % i))
w("C09", "collisions", "colliding-names", obj(None, **{"a.b": I, "a-b": S}))
# 4b7ad68
w("C09", "names", "empty-name", obj(None, **{"": I, "b": S}))
w("C09", "names", "underscores", obj(None, **{"_": I, "b": S}), normalize_case=True)
w("C07", "cast", "empty-name", obj(None, **{"": I, "b": S}))
w("C11", "relation", "underscores", obj(None, **{"___": I, "aB": S}), normalize_case=True)
# 6c52567, d92d6c8
w("C17", "patterns", "second-alternative", obj(None, xa=T("object"), a=T("object")), json_object_path_regex="b|a")
w("C17", "patterns", "union-root", {"oneOf": [T("null"), obj(None, a=T("object"), b=I)]}, json_object_path_regex="a")
# 26f07f1
w("C03", "valid", "union-root-of-arrays", {"oneOf": [T("array", items=I), T("null")]})
w("C15", "nesting", "union-root-of-arrays", {"oneOf": [T("array", items=obj(None, a=I)), T("array", items=obj(None, a=I))]})
w("C14", "maps", "union-root-of-maps", {"oneOf": [T("object", additionalProperties=I), T("null")]})
w("C03", "valid", "nullable-array-root", T(["array", "null"], items=obj(None, a=I)))
# bf9a6fb, 45a1deb, c49763d
w("C07", "cast", "array-without-items", obj(None, a=T("array"), b=I))
w("C08", "strategies", "array-without-items", obj(None, a=T("array"), b=I))
w("C07", "cast", "empty-pattern-properties", obj(None, a=T("object", patternProperties={}), b=I))
w("C13", "join", "tuple-or-null", {"oneOf": [T("array", items=[I, S], maxItems=2), T("null")]}, tuple_struct=True)
w("C16", "tuples", "tuple-or-null", {"oneOf": [T("array", items=[I, S], maxItems=2), T("null")]}, tuple_struct=True)
# 432b3aa, 3c37a0d
for i, t in enumerate([5, {}, True, {"type": "string"}]): w("C20", "arbitrary", "type-of-wrong-kind-%d" % i, {"type": t})
empty = T("array", items=[], additionalItems=False)
w("C03", "valid", "empty-tuple", empty, tuple_struct=True); w("C20", "arbitrary", "empty-tuple", empty, tuple_struct=True)
# inputs that caught a wrong oracle once
w("C05", "documents", "null-inner-array", T("array", items=T(["array", "null"], items=I)), aux=[259, 1, 2, 3])
w("C20", "arbitrary", "unsupported-in-ignored-name", obj(None, **{"": {"oneOf": []}}))
# c5bfeb0, 7fc1510, 9665b6d: the ingestion helper
many_seeds = list(range(1, 30))
w("C23", "ingestion", "bytes", obj(["a"], a=T("string", format="bytes")), aux=many_seeds)
w("C23", "ingestion", "null", obj(None, a=T(["null", "string"]), b=T(["null", "array"], items=I), c={"oneOf": [T("null"), obj(None, x=I)]}), aux=many_seeds)
w("C23", "ingestion", "empty-inner-list", T("array", items=T("array", items=I)), aux=many_seeds)
w("C23", "ingestion", "empty-inner-list-of-property", obj(["a"], a=T("array", items=T("array", items=S))), aux=many_seeds)
# a15c495: the validation script
tree = [dict(ns="telemetry", doc="main", ver=4, schema=obj(["a"], a=I), text=None, docs="good", seed=1),
        dict(ns="telemetry", doc="event", ver=1, schema=I, text='{"type": ', docs="none", seed=2),
        dict(ns="a_b", doc="core", ver=2, schema=obj(None, refused_by_parser=I), text=None, docs="good", seed=3),
        dict(ns="a_b", doc="event", ver=2, schema=obj(["b"], b=I), text=None, docs="bad", seed=3)]
w("C24", "batch", "validation", {}, aux=dict(tree=tree, flags=None, stale=True))
w("C24", "batch", "bigquery", {}, aux=dict(tree=tree, flags=dict(outdir="bq_schemas", style=5, format="bigquery"), stale=True))
