"""
Reference for JSON schemas: formats, which documents fit a type, and what a schema must say about a type.

Nothing is imported from the code under test; the validators are those of the jsonschema package.
"""

import datetime

import jsonschema

from . import ir, model
from .ir import strip_ann

FORMATS = {
    "date-time": "datetime", "date": "date", "time": "time", "duration": "timedelta", "uuid": "uuid", "ipv4": "ipv4", "ipv6": "ipv6",
}
checker = jsonschema.FormatChecker(formats=())


def _text_format(kind):
    def check(v):
        return not isinstance(v, str) or model.parse_text(kind, v)[0] != "R"

    return check


def _int_format(lo, hi):
    def check(v):
        return isinstance(v, bool) or not isinstance(v, (int, float)) or lo <= v <= hi

    return check


for _name, _kind in FORMATS.items():
    checker.checks(_name)(_text_format(_kind))
for _name, (_lo, _hi) in ir.FIXED.items():
    checker.checks(_name)(_int_format(_lo, _hi))


def any_of(validator, members, instance, schema):
    "oneOf read as anyOf: a document that fits several members fits."
    errors = []
    for i, sub in enumerate(members):
        errs = list(validator.descend(instance, sub, schema_path=i))
        if not errs:
            return
        errors += errs
    yield jsonschema.ValidationError(f"{instance!r} fits no member", context=errors)


LENIENT = {c: jsonschema.validators.extend(c, {"oneOf": any_of}) for c in (jsonschema.Draft7Validator, jsonschema.Draft201909Validator, jsonschema.Draft202012Validator)}


def first_error(cls, schema, doc, formats=True):
    for e in cls(schema, format_checker=checker if formats else None).iter_errors(doc):
        return f"{list(e.absolute_path)}: {e.message}"
    return None


# ------------------------------------------------------------------------------------------------------------------
# which documents fit a type


def equal_json(a, b):
    "Equality in the sense of JSON schema: numbers by value."
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if type(a) is list:
        return len(a) == len(b) and all(equal_json(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return a.keys() == b.keys() and all(equal_json(v, b[k]) for k, v in a.items())
    return a == b


def worst(results):
    "Conjunction of True, False, and None (open)."
    out = True
    for r in results:
        if r is False:
            return False
        if r is None:
            out = None
    return out


class Fits:
    """
    Tells if a document can represent a type: True, False, or None where it is open.

    `formats`: text formats and fixed-width ranges are taken into account.
    """

    def __init__(self, formats=True):
        self.formats = formats

    def __call__(self, t, j):
        k = t.k
        if k == "ann":
            return worst([self(t.args[0], j), self.constraints(t, j)])
        jk = ir.kind_of(j)
        if k == "none":
            return j is None
        if k == "bool":
            return jk == "boolean"
        if k == "int" or k == "fixed" and not t.extra.startswith("float"):
            if jk != "number":
                return False
            if type(j) is float and not j.is_integer():
                return False
            if k == "fixed" and self.formats:
                lo, hi = ir.FIXED[t.extra]
                if not lo <= j <= hi:
                    return False
            return True if type(j) is int else None
        if k in ("float", "decimal", "fixed"):
            return jk == "number"
        if k == "str":
            return jk == "string"
        if k in model.TEXT_KINDS:
            if jk != "string":
                return False
            if not self.formats or k == "bytes":
                return None if not self.formats or model.parse_text(k, j)[0] != "A" else True
            return {"A": True, "R": False, "U": None}[model.parse_text(k, j)[0]]
        if k in ("json", "any"):
            return True
        if k == "strict":
            return model.pure_json(j, null=False)
        if k == "lit":
            values, e = t.extra
            return self.listed([dict(e.members)[v] if e is not None else v for v in values], j)
        if k == "list":
            return jk == "array" and worst(self(t.args[0], x) for x in j)
        if k == "set":
            if jk != "array":
                return False
            for i, x in enumerate(j):
                if any(equal_json(x, y) for y in j[:i]):
                    return False
            return worst(self(t.args[0], x) for x in j)
        if k == "tuple":
            return jk == "array" and len(j) == len(t.args) and worst(self(s, x) for s, x in zip(t.args, j))
        if k == "dict":
            if jk != "object":
                return False
            parts = [self(t.args[0], x) for x in j.values()]
            if t.extra is not None:
                values = [v for _, v in t.extra.members]
                for key in j:
                    if key not in values:
                        parts.append(None if key.endswith("\n") and key[:-1] in values else False)
            return worst(parts)
        if k == "union":
            parts = [self(a, j) for a in t.args] + ([j is None] if t.extra[0] else [])
            return False if all(p is False for p in parts) else True if any(p is True for p in parts) else None
        if k == "ref":
            d = t.extra
            if d.is_enum:
                return self.listed([v for _, v in d.members], j)
            return self.obj(d, j)
        raise AssertionError(k)

    def listed(self, values, j):
        if any(type(v) is type(j) and v == j for v in values):
            return True
        return None if any(equal_json(v, j) for v in values) else False

    def constraints(self, t, j):
        out = True
        for name, args in t.extra:
            if name == "IntegerRange" and ir.kind_of(j) == "number":
                out = worst([out, args[0] <= j <= args[1]])
            elif name in ("Length", "MinLength", "MaxLength") and type(j) is str:
                n = len(j)
                out = worst([out, {"Length": n == args[0], "MinLength": n >= args[0], "MaxLength": n <= args[0]}[name]])
            elif name == "Precision" and ir.kind_of(j) == "number":
                sig, dec = args
                if abs(j) >= 10 ** (sig - dec):
                    out = False
                elif type(j) is int:
                    pass
                else:
                    q = j * 10**dec
                    if abs(q - round(q)) > 1e-6 * max(1.0, abs(q)):
                        out = False
                    elif q != round(q) or (j / 10**-dec) != int(j / 10**-dec):
                        out = worst([out, None])
        return out

    def obj(self, d, j):
        if ir.kind_of(j) != "object":
            return False
        if not d.fields:
            return True if not j else None
        parts = []
        if set(j) - {f.external for f in d.fields}:
            return False
        for f in d.fields:
            if f.external not in j:
                if ir.is_optional(f.type):
                    continue
                parts.append(None if f.default is not None else False)
            elif j[f.external] is None and (ir.is_optional(f.type) or f.default is not None):
                parts.append(None)
            else:
                parts.append(self(f.type, j[f.external]))
        return worst(parts)


# ------------------------------------------------------------------------------------------------------------------
# what a schema must say

PRIM = {
    "none": {"type": "null"}, "bool": {"type": "boolean"}, "int": {"type": "integer"}, "float": {"type": "number"}, "str": {"type": "string"},
    "bytes": {"type": "string", "contentEncoding": "base64"}, "datetime": {"type": "string", "format": "date-time"},
    "date": {"type": "string", "format": "date"}, "time": {"type": "string", "format": "time"},
    "timedelta": {"type": "string", "format": "duration"}, "decimal": {"type": "number"}, "uuid": {"type": "string", "format": "uuid"},
    "ipv4": {"type": "string", "format": "ipv4"}, "ipv6": {"type": "string", "format": "ipv6"},
}
TYPE_OF = {bool: "boolean", int: "integer", float: "number", str: "string"}


class Compare:
    "Compares a generated schema with a type; raises Differ with a description of the first difference."

    def __init__(self, schema, path="#/definitions/", descriptions=True, examples=True, describe=None, definitions=None):
        self.definitions = schema.get("definitions", {}) if definitions is None else definitions
        self.path, self.descriptions, self.examples = path, descriptions, examples
        self.describe = describe  # what the description transformer makes of (class, name, text)
        self.visited = set()
        self.used = set()
        self.properties = 0

    def root(self, t, schema):
        node = {k: v for k, v in schema.items() if k not in ("$schema", "definitions")}
        self.node(t, node, "$")
        extra = set(self.definitions) - self.used
        # definitions that are used by definitions of JSON data are not followed by the comparison
        extra -= {"JsonType", "StrictJsonType", "JsonObject", "JsonArray"}
        if extra:
            raise Differ(f"definitions {sorted(extra)} are not reached from the type")

    def same(self, where, got, expected):
        if not model.same_json(got, expected):
            raise Differ(f"{where}: {got!r}, expected {expected!r}")

    def reference(self, node, where):
        ref = node["$ref"]
        if not ref.startswith(self.path) or ref[len(self.path):] not in self.definitions:
            raise Differ(f"{where}: reference {ref!r} does not lead to a definition under {self.path!r}; there are {sorted(self.definitions)}")
        name = ref[len(self.path):]
        self.used.add(name)
        return name, self.definitions[name]

    def node(self, t, node, where, extras=()):
        "`extras`: keywords that belong to the property that has this schema."
        if type(node) is not dict:
            raise Differ(f"{where}: not a schema: {node!r}")
        body = {k: v for k, v in node.items() if k not in extras}
        metas = []
        while t.k == "ann":
            metas += t.extra
            t = t.args[0]
        k = t.k
        if k in ir.PRIM_SRC:
            expected = dict(PRIM[k])
            for name, args in metas:
                if name == "IntegerRange":
                    expected.update(minimum=args[0], maximum=args[1])
                elif name == "Length":
                    expected.update(minLength=args[0], maxLength=args[0])
                elif name == "MinLength":
                    expected.update(minLength=args[0])
                elif name == "MaxLength":
                    expected.update(maxLength=args[0])
                elif name == "Precision":
                    lim = 10 ** (args[0] - args[1])
                    expected.update(multipleOf=10 ** (-args[1]), exclusiveMinimum=-lim, exclusiveMaximum=lim)
            return self.same(where, body, expected)
        if k == "fixed":
            base = "number" if t.extra.startswith("float") else "integer"
            if not metas or "format" in body:
                return self.same(where, body, {"type": base, "format": t.extra})
            expected = {"type": base}
            if base == "integer":
                expected.update(minimum=ir.FIXED[t.extra][0], maximum=ir.FIXED[t.extra][1])
            return self.same(where, body, expected)
        if k in ("json", "strict"):
            name = "JsonType" if k == "json" else "StrictJsonType"
            if "oneOf" in body:
                # an alias of a union may be spelled out
                self.keys(where, body, ["oneOf"])
                for ref in references(body):
                    self.reference({"$ref": ref}, where)
                return
            self.same(where, body, {"$ref": self.path + name})
            self.reference(body, where)
            return
        if k == "lit":
            values, e = t.extra
            vs = [dict(e.members)[v] if e is not None else v for v in values]
            expected = {"type": TYPE_OF[type(vs[0])]}
            if len(vs) == 1:
                expected["const"] = vs[0]
            else:
                expected["enum"] = vs
            return self.same(where, body, expected)
        if k == "union":
            members = list(t.args) + ([ir.prim("none")] if t.extra[0] else [])
            self.keys(where, body, ["oneOf"])
            if len(body["oneOf"]) != len(members):
                raise Differ(f"{where}: {len(body['oneOf'])} members, expected {len(members)} for {t}")
            for i, (m, n) in enumerate(zip(members, body["oneOf"])):
                self.node(m, n, f"{where}.oneOf[{i}]")
            return
        if k == "list":
            self.keys(where, body, ["type", "items"])
            self.same(where, body["type"], "array")
            return self.node(t.args[0], body["items"], where + ".items")
        if k == "set":
            self.keys(where, body, ["type", "items", "uniqueItems"])
            self.same(where, [body["type"], body["uniqueItems"]], ["array", True])
            return self.node(t.args[0], body["items"], where + ".items")
        if k == "tuple":
            self.keys(where, body, ["type", "minItems", "maxItems", "prefixItems"])
            n = len(t.args)
            self.same(where, [body["type"], body["minItems"], body["maxItems"], len(body["prefixItems"])], ["array", n, n, n])
            for i, a in enumerate(t.args):
                self.node(a, body["prefixItems"][i], f"{where}.prefixItems[{i}]")
            return
        if k == "dict":
            return self.mapping(t, body, where)
        if k == "ref":
            return self.definition(t.extra, node, body, where)
        raise AssertionError(k)

    def keys(self, where, body, expected):
        if set(body) != set(expected):
            raise Differ(f"{where}: keywords {sorted(body)}, expected {sorted(expected)}")

    def mapping(self, t, body, where):
        self.same(where, body.get("type"), "object")
        if t.extra is None:
            self.keys(where, body, ["type", "additionalProperties"])
            return self.node(t.args[0], body["additionalProperties"], where + ".additionalProperties")
        values = [v for _, v in t.extra.members]
        if "properties" in body:
            self.keys(where, body, ["type", "properties", "additionalProperties"])
            self.same(where, body["additionalProperties"], False)
            self.same(where, list(body["properties"]), values)
            for v in values:
                self.node(t.args[0], body["properties"][v], f"{where}.properties[{v!r}]")
        else:
            self.keys(where, body, ["type", "propertyNames", "additionalProperties"])
            self.node(t.args[0], body["additionalProperties"], where + ".additionalProperties")

    def definition(self, d, node, body, where):
        if d.registered is not None:
            name = d.registered.get("name") or d.name
            self.same(where, body, {"$ref": self.path + name})
            _, target = self.reference(body, where)
            if (d, name) in self.visited:
                return
            self.visited.add((d, name))
            return self.registered(d, target, f"definitions.{name}")
        if "$ref" in body:
            self.keys(where, body, ["$ref"])
            name, target = self.reference(body, where)
            if (d, name) in self.visited:
                return
            self.visited.add((d, name))
            return self.body(d, target, f"definitions.{name}")
        return self.body(d, body, where)

    def registered(self, d, target, where):
        target = dict(target)
        ex = d.registered.get("examples")
        if self.examples and ex:
            self.same(where + ".examples", target.pop("examples", None), ex)
        elif "examples" in target:
            raise Differ(f"{where}: examples are not wanted: {target['examples']!r}")
        custom = d.registered.get("schema")
        if custom is not None:
            expected = dict(custom)
            self.documentation(d, expected)
            if not d.is_enum and d.kind == "namedtuple" and d.doc is None and str(target.get("title")).startswith(d.name + "("):
                del target["title"]
                expected.pop("title", None)
            return self.same(where, target, expected)
        return self.body(d, target, where)

    def documentation(self, d, expected):
        short, long, _ = d.doc_parts
        if self.descriptions:
            if short:
                expected["title"] = short
            if long:
                expected["description"] = long

    def body(self, d, body, where):
        expected = {}
        self.documentation(d, expected)
        got = {k: body[k] for k in ("title", "description") if k in body}
        if not d.is_enum and d.kind == "namedtuple" and d.doc is None:
            got = {}
        self.same(where + " (title and description)", got, expected)
        body = {k: v for k, v in body.items() if k not in ("title", "description")}
        if d.is_enum:
            values = [v for _, v in d.members]
            return self.same(where, body, {"type": TYPE_OF[type(values[0])], "enum": values})
        fields = d.fields
        expected_keys = ["type"]
        if fields:
            expected_keys += ["properties", "additionalProperties"]
            self.same(where + ".additionalProperties", body.get("additionalProperties"), False)
        required = [f.external for f in fields if not ir.is_optional(f.type)]
        if required:
            expected_keys.append("required")
            self.same(where + ".required", body.get("required"), required)
        self.keys(where, body, expected_keys)
        self.same(where + ".type", body["type"], "object")
        if not fields:
            return
        self.same(where + " (properties)", list(body["properties"]), [f.external for f in fields])
        for f in fields:
            self.prop(d, f, body["properties"][f.external], f"{where}.{f.external}")

    def prop(self, d, f, node, where):
        self.properties += 1
        extras = []
        # default
        has, value = self.default(d, f)
        if has is True:
            self.same(where + ".default", node.get("default"), value)
            extras.append("default")
        elif has is False:
            if "default" in node:
                raise Differ(f"{where}: default {node['default']!r} is not declared")
        else:
            extras.append("default")
        # description
        text = None
        for c in d.bases_chain():
            if f.name in c.doc_parts[2]:
                text = c.doc_parts[2][f.name]
                if self.describe is not None:
                    text = self.describe(d.cls, f.name, text)
                break
        t = f.type
        if text:
            self.same(where + ".description", node.get("description"), text)
            if "title" in node:
                raise Differ(f"{where}: has the title {node['title']!r} of its type besides its own description")
            extras.append("description")
        s = strip_ann(t)
        if s.k == "union" and s.extra[0]:
            t = s.args[0] if len(s.args) == 1 else ir.Union_(s.args, False)
        if s.k == "union" and not s.extra[0]:
            t = s
        if text:
            node = self.with_documentation_of(t, node, extras)
        if f.alias is not None:
            t = ir.Ann(t, [("Alias", (f.alias,))])
        self.node(t, node, where, extras)

    def with_documentation_of(self, t, node, extras):
        "Puts back the title and description that the documentation of the property has replaced."
        s = strip_ann(t)
        if s.k == "ref" and s.extra.registered is None and "$ref" not in node:
            node = {k: v for k, v in node.items() if k not in ("title", "description")}
            expected = {}
            self.documentation(s.extra, expected)
            node.update(expected)
            extras.remove("description")
        return node

    def default(self, d, f):
        "(True, value) must be listed, (False, None) must not be, (None, None) left open."
        if f.default is None:
            return False, None
        kind, text, thunk = f.default
        if kind == "factory":
            return False, None
        v = thunk(d.owner(f).module.py)
        if v is None:
            return False, None
        import enum

        if isinstance(v, enum.Enum):
            return True, v.value
        if type(v) in (bool, int, float, str):
            return True, v
        if type(v) in (datetime.datetime, datetime.date, datetime.time, datetime.timedelta):
            return True, model.Text({"datetime": "datetime", "date": "date", "time": "time", "timedelta": "timedelta"}[type(v).__name__], v).canonical()
        return None, None


class Differ(Exception):
    pass


def references(node):
    "All values of $ref keywords in a schema (data in const, enum, default and examples is not looked at)."
    if type(node) is list:
        for x in node:
            yield from references(x)
    elif type(node) is dict:
        for k, v in node.items():
            if k == "$ref" and type(v) is str:
                yield v
            elif k in ("properties", "definitions", "$defs", "patternProperties"):
                for x in v.values():
                    yield from references(x)
            elif k not in ("const", "enum", "default", "examples"):
                yield from references(v)


def pointer(doc, ref):
    "The part of a document a local reference leads to; raises KeyError."
    if not ref.startswith("#"):
        raise KeyError(ref)
    cur = doc
    for part in ref[1:].split("/")[1:]:
        part = part.replace("~1", "/").replace("~0", "~")
        cur = cur[int(part)] if type(cur) is list else cur[part]
    return cur
