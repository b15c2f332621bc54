"C13: classes generated from a schema."

import copy
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import itertools
import json
import re
import sys
import typing
import uuid

import jsonschema

from strong_typing.auxiliary import MaxLength, Precision, float32, float64, int16, int32, int64
from strong_typing.classdef import schema_to_type
from strong_typing.core import JsonType
from strong_typing.docstring import parse_type
from strong_typing.inspection import create_module
from strong_typing.schema import SchemaOptions, classdef_to_schema
from strong_typing.serialization import json_to_object, object_to_json

from .. import lab, runner

CASES = {"quick": 5000, "thorough": 120000}
RULE = """Two kinds of cases. (1) A random schema of the supported subset, with definitions that refer to one another (forward, backward, in
cycles, as aliases) is turned into a class. A monitor walks the class and the schema side by side: one field per property, its type,
whether it is optional, its default, every value of an enumeration, at any depth. Random documents that conform to the schema (an
independent validator confirms) are read into the class and written, and must come back equal but for null members and defaults. In part of the
cases, classes of other schemas with the same names have been made in the same module, or in a module of that name, before.
(2) A random data class of the subset, with nested and registered (also recursive) classes, is turned into a schema and the schema
into a class: the fields and the schema of that class must be the same, and it must read and write the documents of the original.
Non-trivial if the schema has a property; distinct by schema and document."""
ASSUMPTIONS = [
    "property names are identifiers that are not keywords, with or without an underscore",
    "a range of integers that does not fit 64 bits has an unspecified integer type",
    "members of a union are told apart by JSON kind or by a constant",
    "whether a description without a title is in the documentation of the class is left open",
]

NAMES = ["a", "b", "value", "id", "name", "items", "x_1", "_private", "type", "format", "children", "parent", "next", "Data", "title", "str", "int", "list", "self", "cls", "data", "mro", "typ", "module"]
WORDS = ["red", "dark blue", "a", "A", "", "mro", "name", "value", "__init__", "_sunder_", "1", "a-b", "a_b", "a b", "a.b", "None", "class", "ö", "_", "__", "v_", "v", "x" * 40, "a_b_2", "日本", "_x", "\n", "\""]
FORMATS = {
    "date-time": (datetime.datetime, ["2020-01-02T03:04:05Z", "1999-12-31T23:59:59.123456+05:30", "2024-02-29T00:00:00-08:00"]),
    "date": (datetime.date, ["2020-01-02", "0001-01-01", "9999-12-31"]),
    "time": (datetime.time, ["03:04:05Z", "00:00:00+01:00", "23:59:59.000001Z"]),
    "duration": (datetime.timedelta, ["P1D", "PT1H2M3S", "PT0S", "P3DT0.500S"]),
    "uuid": (uuid.UUID, ["12345678-1234-5678-1234-567812345678", "00000000-0000-0000-0000-000000000000"]),
    "ipv4": (ipaddress.IPv4Address, ["127.0.0.1", "0.0.0.0"]),
    "ipv6": (ipaddress.IPv6Address, ["::1", "2001:db8::8a2e:370:7334"]),
}
READ = {
    "date-time": lambda s: datetime.datetime.fromisoformat(s.replace("Z", "+00:00")),
    "date": datetime.date.fromisoformat,
    "time": lambda s: datetime.time.fromisoformat(s.replace("Z", "+00:00")),
    "duration": lambda s: {"P1D": datetime.timedelta(days=1), "PT1H2M3S": datetime.timedelta(hours=1, minutes=2, seconds=3), "PT0S": datetime.timedelta(), "P3DT0.500S": datetime.timedelta(days=3, microseconds=500000)}[s],
    "uuid": uuid.UUID,
    "ipv4": ipaddress.IPv4Address,
    "ipv6": ipaddress.IPv6Address,
}
TIMES = {"03:04:05Z": "03:04:05+00:00", "23:59:59.000001Z": "23:59:59.000001+00:00"}
STRINGS = ["", "a", "text", "ünï", "2020-01-01", "null", "x" * 30]


# ------------------------------------------------------------------------------------------------------------------
# schemas


class Maker:
    def __init__(self, r):
        self.r = r
        self.defs = {}
        self.finite = {}  # definitions for which documents are known to end

    def annotate(self, s):
        r = self.r
        if r.random() < 0.15:
            s["title"] = r.choice(["Title.", "A title", "Über"])
        if r.random() < 0.15:
            s["description"] = r.choice(["Some text.", "A description, long enough to be read."])
        return s

    def scalar(self, default=True):
        r = self.r
        k = r.choice(["boolean", "integer", "number", "string", "string"])
        s = {"type": k}
        d = None
        p = r.random()
        if k == "boolean":
            pool = [True, False]
            if p < 0.25:
                s["const"] = d = r.choice(pool)
                pool = [d]
        elif k == "integer":
            pool = [0, 1, -1, 7, 30000]
            if p < 0.15:
                s["const"] = r.choice([0, 1, -5, 10**12])
                pool = [s["const"]]
            elif p < 0.4:
                s["format"] = r.choice(["int16", "int32", "int64"])
                bits = int(s["format"][3:])
                pool = [0, 5, -(2 ** (bits - 1)), 2 ** (bits - 1) - 1]
                if r.random() < 0.6:
                    s["minimum"], s["maximum"] = pool[2], pool[3]
            elif p < 0.55:
                s["enum"] = pool = r.sample([0, 1, 2, -3, 32767, 32768, -32768, -32769, 2**31, 2**31 - 1, -(2**31), -(2**31) - 1, 2**40], r.choice([1, 2, 3]))
            elif p < 0.75:
                lo, hi = sorted(r.sample([0, 1, -1, 100, 32767, 32768, -32768, -32769, 2**31 - 1, 2**31, -(2**31), -(2**31) - 1, 2**62], 2))
                s["minimum"], s["maximum"] = lo, hi
                pool = [lo, hi, (lo + hi) // 2]
            elif p < 0.85:
                s[r.choice(["minimum", "maximum"])] = 5
                pool = [5]
        elif k == "number":
            pool = [0.0, 1.5, -2.25, 1e10, 3, 0]
            if p < 0.15:
                s["const"] = r.choice([1.5, 0.25, -1e6])
                pool = [s["const"]]
            elif p < 0.4:
                s["format"] = r.choice(["float32", "float64"])
                pool = [0.0, 0.5, -1.5, 2]
            elif p < 0.6:
                a, b = r.choice([1, 2, 5, 10, 15]), r.choice([0, 1, 2, 3, 6])
                s["exclusiveMaximum"] = r.choice([10**a, float(10**a)])
                s["exclusiveMinimum"] = -s["exclusiveMaximum"]
                s["multipleOf"] = {0: 1, 1: 0.1, 2: 0.01, 3: 0.001, 6: 0.000001}[b]
                pool = [0, 1, -2, 5]
                if b:
                    pool += [0.5, -0.5]
            elif p < 0.8:
                bound = {"minimum": -1, "maximum": 10, "exclusiveMinimum": -5.5, "exclusiveMaximum": 100, "multipleOf": 0.5}
                for q in r.sample(sorted(bound), r.choice([1, 2])):
                    s[q] = bound[q]
                pool = [0, 1.5, 2]
        else:
            pool = STRINGS
            if p < 0.15:
                s["const"] = r.choice(["a", "", "dark blue", "true"])
                pool = [s["const"]]
            elif p < 0.4:
                s["format"] = r.choice(sorted(FORMATS))
                pool = FORMATS[s["format"]][1]
            elif p < 0.65:
                s["enum"] = pool = r.sample(WORDS, r.choice([1, 2, 3, 6, 12]))
            elif p < 0.8:
                s["maxLength"] = r.choice([0, 1, 10, 255])
                pool = [x for x in STRINGS if len(x) <= s["maxLength"]]
                if r.random() < 0.3:
                    s["minLength"] = 0
            elif p < 0.85:
                s["minLength"] = 1
                pool = [x for x in STRINGS if x]
        if default and r.random() < 0.35:
            s["default"] = r.choice(pool)
        if r.random() < 0.1:
            s["examples"] = r.sample(pool, 1)
            if k == "string" and s.get("format") or k == "integer" and not all(isinstance(x, int) for x in s["examples"]):
                del s["examples"]
        return self.annotate(s)

    def node(self, depth, default=True):
        r = self.r
        p = r.random()
        if depth <= 0 or p < 0.45:
            if self.names and r.random() < 0.4:
                s = {"$ref": f"#/definitions/{r.choice(self.names)}"}
                if r.random() < 0.2:
                    self.annotate(s)
                return s
            return self.scalar(default)
        if p < 0.6:
            return self.annotate({"type": "array", "items": self.node(depth - 1, False)})
        if p < 0.8:
            return self.object(depth - 1)
        if p < 0.86:
            s = {"type": "object"}
            if r.random() < 0.3:
                s["additionalProperties"] = True
            return self.annotate(s)
        return self.oneof(depth - 1)

    def oneof(self, depth):
        r = self.r
        if r.random() < 0.4:
            # objects with a tag
            kind = r.choice(["kind", "tag"])
            members = []
            for v in r.sample(["a", "b", "c"], r.choice([2, 3])):
                o = self.object(depth, prefix={kind: {"type": "string", "const": v}})
                o["required"] = list(dict.fromkeys([kind, *o.get("required", ())]))
                members.append(o)
            return self.annotate({"oneOf": members})
        pools = [
            [{"type": "boolean"}], [{"type": "integer"}, {"type": "integer", "format": "int32"}, {"type": "number"}, {"type": "number", "format": "float32"}],
            [{"type": "string"}, {"type": "string", "format": "uuid"}, {"type": "string", "enum": ["x", "y z"]}, {"type": "string", "maxLength": 40}, {"type": "string", "const": "a"}],
            [{"type": "array", "items": self.node(depth - 1, False)}], [self.object(depth - 1)],
        ]
        return self.annotate({"oneOf": [copy.deepcopy(r.choice(p)) for p in r.sample(pools, r.choice([2, 2, 3]))]})

    def object(self, depth, prefix=None):
        r = self.r
        props = dict(prefix or {})
        for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 5])):
            props[n] = self.node(depth)
        items = list(props.items())
        r.shuffle(items)
        props = dict(items)
        s = {"type": "object", "properties": props, "additionalProperties": False}
        req = [n for n in props if r.random() < 0.6]
        r.shuffle(req)
        if req or r.random() < 0.3:
            s["required"] = req
        return self.annotate(s)

    def schema(self):
        r = self.r
        self.names = r.sample(["Node", "Color", "Tree", "A", "B", "Point", "Item_1", "Other", "C"], r.choice([0, 1, 2, 3, 5]))
        defs = {}
        aliases = []
        for n in self.names:
            p = r.random()
            if p < 0.5:
                defs[n] = self.object(2)
            elif p < 0.65:
                defs[n] = self.scalar(False)
            elif p < 0.75:
                defs[n] = {"type": "array", "items": self.node(1, False)}
            elif p < 0.85 and aliases:
                defs[n] = {"$ref": f"#/definitions/{r.choice(aliases)}"}
            else:
                defs[n] = self.annotate({"type": "string", "enum": r.sample(WORDS, 3)})
            aliases.append(n)
        items = list(defs.items())
        r.shuffle(items)
        top = self.object(r.choice([1, 2, 3]))
        s = {"$schema": "http://json-schema.org/draft-07/schema#"}
        if items:
            s["definitions"] = dict(items)
        s.update(top)
        items = list(s.items())
        r.shuffle(items)
        return dict(items)


def grounded(schema):
    "Definitions that have a document of finite depth, and whose Python type is not defined in terms of itself without a class."
    defs = schema.get("definitions", {})

    def refs(s):
        "references that are not inside an object"
        if "$ref" in s:
            yield s["$ref"].rsplit("/", 1)[1]
        if s.get("type") == "array":
            yield from refs(s["items"])
        for m in s.get("oneOf", ()):
            yield from refs(m)

    for n in defs:
        seen, todo = set(), [n]
        while todo:
            for x in refs(defs[todo.pop()]):
                if x == n:
                    return False
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
    return True


class TooDeep(Exception):
    pass


def document(r, schema, s, depth):
    if depth < -12:
        raise TooDeep
    if "$ref" in s:
        return document(r, schema, schema["definitions"][s["$ref"].rsplit("/", 1)[1]], depth - 1)
    if "oneOf" in s:
        return document(r, schema, r.choice(s["oneOf"]), depth - 1)
    k = s["type"]
    if "const" in s:
        return s["const"]
    if "enum" in s:
        return r.choice(s["enum"])
    if k == "boolean":
        return r.random() < 0.5
    if k == "integer":
        bits = int(s.get("format", "int64")[3:])
        lo, hi = s.get("minimum", max(-(2 ** (bits - 1)), s.get("maximum", 2**bits) - 1000)), s.get("maximum")
        if hi is None:
            hi = max(lo, min(2 ** (bits - 1) - 1, lo + 1000))
        return r.choice([lo, hi, r.randint(lo, hi)])
    if k == "number":
        pool = [0, 0.5, 1.5, -0.5, 2, 4.5, 1, 9, 3.0]
        ok = [x for x in pool if jsonschema.Draft7Validator(s).is_valid(x)]
        return r.choice(ok or pool)
    if k == "string":
        if "format" in s:
            return TIMES.get(x, x) if (x := r.choice(FORMATS[s["format"]][1])) else x
        lo, hi = s.get("minLength", 0), s.get("maxLength", 20)
        return "".join(r.choice("ab ü\"\\1") for _ in range(r.choice([lo, hi, r.randint(lo, hi)])))
    if k == "array":
        return [document(r, schema, s["items"], depth - 1) for _ in range(r.choice([0, 1, 2, 3]) if depth > 0 else 0)]
    if "properties" not in s:
        return {x: r.choice([1, "a", True, 1.5, {"b": [1, {"c": "d"}]}, [], {}, [[1], "x"]]) for x in r.sample(["a", "b", "ü", "x y"], r.choice([0, 1, 2]))}
    out = {}
    names = list(s["properties"])
    r.shuffle(names)
    for n in names:
        if n in s.get("required", ()) or depth > 0 and r.random() < 0.5:
            if n in s.get("required", ()) and "default" in s["properties"][n] and r.random() < 0.2:
                pass
            out[n] = document(r, schema, s["properties"][n], depth - 1)
    return out


def filled(schema, s, j):
    "A document without null members and with the defaults of absent members."
    if "$ref" in s:
        return filled(schema, schema["definitions"][s["$ref"].rsplit("/", 1)[1]], j)
    if "oneOf" in s:
        for m in s["oneOf"]:
            if jsonschema.Draft7Validator({**m, "definitions": schema.get("definitions", {})}).is_valid(j):
                return filled(schema, m, j)
        return j
    k = s.get("type")
    if k == "array":
        return [filled(schema, s["items"], x) for x in j]
    if k == "object" and "properties" in s:
        out = {n: filled(schema, s["properties"][n], x) for n, x in j.items() if x is not None}
        for n, p in s["properties"].items():
            if n not in out and p.get("default") is not None:
                out[n] = TIMES.get(p["default"], p["default"]) if p.get("format") == "time" else p["default"]
        return out
    return j


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(equal, a, b))
    return isinstance(a, bool) is isinstance(b, bool) and isinstance(a, str) is isinstance(b, str) and a == b


# ------------------------------------------------------------------------------------------------------------------
# the class against the schema


class Walk:
    def __init__(self, ctx, schema, module):
        self.ctx, self.schema, self.module = ctx, schema, module
        self.seen = set()

    def resolve(self, t):
        n = 0
        while isinstance(t, (typing.ForwardRef, str)):
            t = eval(t if isinstance(t, str) else t.__forward_arg__, vars(self.module))
            n += 1
            if n > 50:
                self.ctx.fail("forward reference that refers to itself")
        return t

    def bad(self, path, t, s):
        self.ctx.fail(f"{path}: type {t!r} generated for {runner.clip(json.dumps(s), 300)}")

    def scalar_type(self, s):
        k = s["type"]
        if "const" in s:
            v = s["const"]
            return typing.Literal[float(v) if k == "number" else v]
        if k == "boolean":
            return bool
        if k == "integer":
            if s.get("format") in ("int16", "int32", "int64"):
                return {"int16": int16, "int32": int32, "int64": int64}[s["format"]]
            if "enum" in s:
                lo, hi = min(s["enum"]), max(s["enum"])
            elif "minimum" in s and "maximum" in s:
                lo, hi = s["minimum"], s["maximum"]
            else:
                return int
            for bits, t in ((16, int16), (32, int32), (64, int64)):
                if -(2 ** (bits - 1)) <= lo and hi < 2 ** (bits - 1):
                    return t
            return None
        if k == "number":
            if s.get("format") in ("float32", "float64"):
                return {"float32": float32, "float64": float64}[s["format"]]
            lo, hi, m = s.get("exclusiveMinimum"), s.get("exclusiveMaximum"), s.get("multipleOf")
            if lo is not None and hi is not None and m is not None:
                if lo != -hi:
                    return float
                a, b = len(str(int(hi))) - 1, {1: 0, 0.1: 1, 0.01: 2, 0.001: 3, 0.000001: 6}.get(m)
                if b is None or hi != 10**a:
                    return None
                return typing.Annotated[decimal.Decimal, Precision(a + b, b)]
            return float
        if s.get("format") in FORMATS:
            return FORMATS[s["format"]][0]
        if "maxLength" in s:
            return typing.Annotated[str, MaxLength(s["maxLength"])]
        return str

    def check(self, t, s, path):
        t = self.resolve(t)
        self.ctx.count("nodes compared")
        if "$ref" in s:
            n = s["$ref"].rsplit("/", 1)[1]
            return self.check(t, self.schema["definitions"][n], f"{path}->{n}")
        if "oneOf" in s:
            args = typing.get_args(t) if typing.get_origin(t) is typing.Union else (t,)
            if len(args) != len(s["oneOf"]):
                self.bad(path, t, s)
            # members may be in another order: Python caches type expressions, and unions are equal irrespective of order
            error = None
            for order in itertools.permutations(args):
                seen = set(self.seen)
                try:
                    for i, (a, m) in enumerate(zip(order, s["oneOf"])):
                        self.check(a, m, f"{path}/{i}")
                    return
                except runner.Violation as e:
                    self.seen = seen
                    error = error or e
            raise error
        k = s["type"]
        if k == "array":
            if typing.get_origin(t) is not list:
                self.bad(path, t, s)
            return self.check(typing.get_args(t)[0], s["items"], f"{path}[]")
        if k == "object":
            if "properties" not in s:
                if t != JsonType:
                    self.bad(path, t, s)
                return
            return self.object(t, s, path)
        if k == "string" and "enum" in s and "format" not in s and "const" not in s:
            if not (isinstance(t, type) and issubclass(t, enum.Enum)):
                self.bad(path, t, s)
            got = [m.value for m in t]
            self.ctx.check(got == s["enum"], lambda: f"{path}: enumeration of {s['enum']!r} has values {got!r}")
            member_names(self.ctx, t, s["enum"], path)
            self.documented(t, s, path)
            return
        want = self.scalar_type(s)
        if want is None:
            return
        if t != want:
            self.bad(path, t, s)

    def documented(self, t, s, path):
        "Title and description of the schema are the documentation of the type."
        d = parse_type(t)
        self.ctx.check(t.__module__ == self.module.__name__, lambda: f"{path}: {t} is said to be in module {t.__module__}, it was generated into {self.module.__name__}")
        if "title" not in s and "description" in s:
            return  # a docstring does not have a long description on its own
        for got, want in ((d.short_description, s.get("title")), (d.long_description, s.get("description"))):
            self.ctx.check(got == want, lambda: f"{path}: documentation of {t} is {t.__doc__!r}, schema has title {s.get('title')!r} and description {s.get('description')!r}")
        self.ctx.count("documentation compared")

    def default(self, t, s):
        d = s["default"]
        if "const" in s:
            return float(d) if s["type"] == "number" else d
        if s["type"] == "string":
            if "format" in s:
                return READ[s["format"]](d)
            if "enum" in s:
                return next(m for m in t if m.value == d)
        if s["type"] == "number":
            return decimal.Decimal(repr(d)) if "Decimal" in repr(t) else float(d)
        return d

    def object(self, t, s, path):
        if not (isinstance(t, type) and dataclasses.is_dataclass(t)):
            self.bad(path, t, s)
        if (t, id(s)) in self.seen:
            return
        self.seen.add((t, id(s)))
        fields = {f.name: f for f in dataclasses.fields(t)}
        props = s["properties"]
        self.documented(t, s, path)
        params = {n: p.description for n, p in parse_type(t).params.items()}
        texts = {n: p.get("title") or p.get("description") for n, p in props.items() if p.get("title") or p.get("description")}
        self.ctx.check(params == texts, lambda: f"{path}: fields of {t} are documented as {params}, schema says {texts}")
        self.ctx.check(sorted(fields) == sorted(props), lambda: f"{path}: class has fields {list(fields)}, schema has properties {list(props)}")
        for n, p in props.items():
            f = fields[n]
            ft = self.resolve(f.type)
            target = p
            while "$ref" in target:
                target = self.schema["definitions"][target["$ref"].rsplit("/", 1)[1]]
            free = target.get("type") == "object" and "properties" not in target
            args = typing.get_args(ft) if typing.get_origin(ft) is typing.Union else ()
            optional = type(None) in args
            if not free:
                want = n not in s.get("required", ())
                self.ctx.check(optional == want, lambda: f"{path}.{n}: type {f.type!r}, member is {'optional' if want else 'required'}")
                if optional:
                    rest = tuple(a for a in args if a is not type(None))
                    ft = typing.Union[rest] if rest else ft
            elif n not in s.get("required", ()):
                self.ctx.check(optional, lambda: f"{path}.{n}: type {f.type!r}, member is optional")
                if self.resolve(f.type) != JsonType:
                    rest = tuple(a for a in args if a is not type(None))
                    ft = typing.Union[rest] if rest else ft
                    ft = self.resolve(ft)
            self.check(ft, p, f"{path}.{n}")
            has = f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING
            self.ctx.check(has == ("default" in p), lambda: f"{path}.{n}: default {f.default!r} generated for {p}")
            if has:
                v = f.default if f.default is not dataclasses.MISSING else f.default_factory()
                w = self.default(self.resolve(ft), p)
                self.ctx.check(type(v) is type(w) and v == w, lambda: f"{path}.{n}: default {v!r} generated for {p}")
        hints = typing.get_type_hints(t, vars(self.module), include_extras=True)
        self.ctx.check(hints.keys() == fields.keys(), lambda: f"{path}: type hints {hints}")
        self.ctx.check(getattr(self.module, t.__name__, None) is not None, lambda: f"{path}: class {t} is not in the module")


def member_names(ctx, t, values, path):
    "Names of members are words, and a value that is fit to be the name of a member is the name of its member."
    for m in t:
        ctx.check(re.fullmatch(r"\w+", m.name), lambda: f"{path}: value {m.value!r} belongs to a member named {m.name!r}")
        ctx.check(getattr(t, m.name, None) is m and t[m.name] is m, lambda: f"{path}: member {m.name!r} cannot be accessed")
    for v in values:
        if re.fullmatch(r"\w+", v) and not v.startswith("_") and v != "mro" and not any(w != v and enum_like(w) == enum_like(v) for w in values):
            ctx.check(t(v).name == v, lambda: f"{path}: member for {v!r} is named {t(v).name!r}")


def enum_like(v):
    "Two values with the same text might contend for one name."
    return "".join(c if c.isalnum() else "_" for c in v).strip("_v0123456789")


COUNT = [0]


def new_module():
    COUNT[0] += 1
    return create_module(f"rt_generated_{COUNT[0]}")


def from_schema(ctx, r):
    maker = Maker(r)
    schema = maker.schema()
    if not grounded(schema):
        ctx.count("definitions without meaning")
        return
    if r.random() < 0.2:
        return again(ctx, r, schema)
    m = new_module()
    try:
        compare_with_schema(ctx, r, schema, m)
    finally:
        sys.modules.pop(m.__name__, None)


def again(ctx, r, schema):
    "The classes have the meaning of the schema they are made from, whatever has been in the module or in a module of that name."
    m = new_module()
    try:
        for _ in range(r.choice([1, 1, 2])):
            compare_with_schema(ctx, r, schema, m)
            if r.random() < 0.3:
                sys.modules.pop(m.__name__)
                m = create_module(m.__name__)
                ctx.count("modules of the same name")
            maker = Maker(r)
            other = maker.schema()
            if grounded(other):
                schema = other
            else:
                schema = copy.deepcopy(schema)
                defs = list(schema.get("definitions", {}))
                if len(defs) > 1:
                    # the same names for other definitions
                    moved = dict(zip(defs[1:] + defs[:1], schema["definitions"].values()))
                    schema["definitions"] = moved if grounded({"definitions": moved}) else schema["definitions"]
        compare_with_schema(ctx, r, schema, m)
        ctx.count("modules used again")
    finally:
        sys.modules.pop(m.__name__, None)


def compare_with_schema(ctx, r, schema, m):
    ctx.note(schema=lambda: json.dumps(schema, indent=1))
    before = copy.deepcopy(schema)
    cls = schema_to_type(schema, module=m, class_name="Top")
    ctx.check(schema == before, "the schema is modified")
    ctx.check(isinstance(cls, type) and cls.__name__ == "Top", lambda: f"class is {cls!r}")
    Walk(ctx, schema, m).check(cls, {k: v for k, v in schema.items()}, "Top")
    # definitions that the class does not use
    for n, d in schema.get("definitions", {}).items():
        t = getattr(m, n)
        Walk(ctx, schema, m).check(t, d, n)
        if d.get("type") == "object" and "properties" in d or d.get("type") == "string" and "enum" in d and "format" not in d and "const" not in d:
            ctx.check(isinstance(t, type) and t.__name__ == n, lambda: f"class generated for definition {n} is {t!r}")
    ctx.count("evaluations")
    top = {k: v for k, v in schema.items()}
    validator = jsonschema.Draft7Validator(schema)
    ctx.cover([k for k in ("definitions",) if k in schema])
    for _ in range(4):
        try:
            doc = document(r, schema, top, r.choice([1, 2, 4]))
        except TooDeep:
            continue
        if not validator.is_valid(doc):
            ctx.count("documents discarded")
            continue
        ctx.note(document=lambda: json.dumps(doc))
        given = copy.deepcopy(doc)
        if r.random() < 0.3:
            given = with_null(r, schema, top, given)
        kind, v = lab.outcome(json_to_object, cls, given, context=m)
        ctx.check(kind == "A", lambda: f"document {given} of the schema is refused: {v!r}")
        out = object_to_json(v)
        want = filled(schema, top, doc)
        ctx.check(equal(strip(out), strip(want)), lambda: f"document {given} is written back as {out}, expected {want}")
        ctx.count("documents")
        ctx.count("evaluations")
        if doc:
            ctx.distinct(json.dumps(schema), json.dumps(doc))
        ctx.sample(lambda: {"schema": schema, "document": doc, "fields": [(f.name, repr(f.type)) for f in dataclasses.fields(cls)]})


def strip(j):
    if isinstance(j, dict):
        return {k: strip(v) for k, v in j.items() if v is not None}
    if isinstance(j, list):
        return [strip(v) for v in j]
    return j


def with_null(r, schema, s, j):
    "Adds null members for absent optional properties."
    if isinstance(j, dict) and "properties" in s:
        for n, p in s["properties"].items():
            if n not in j and n not in s.get("required", ()) and r.random() < 0.5:
                j[n] = None
    return j


# ------------------------------------------------------------------------------------------------------------------
# class to schema to class

HEAD = """
import dataclasses, datetime, decimal, enum, ipaddress, uuid
from dataclasses import dataclass, field
from typing import Annotated, Dict, List, Literal, Optional, Union
from strong_typing.auxiliary import MaxLength, Precision, float32, float64, int16, int32, int64
from strong_typing.schema import json_schema_type
"""

SCALARS = [
    ("bool", ["True", "False"]), ("int", ["0", "5", "-1"]), ("float", ["0.0", "1.5"]), ("str", ["''", "'text'"]),
    ("int16", ["0", "7"]), ("int32", ["0", "-70000"]), ("int64", ["0", "2**40"]), ("float32", ["0.5"]), ("float64", ["0.25"]),
    ("Annotated[decimal.Decimal, Precision(10, 2)]", []), ("Annotated[decimal.Decimal, Precision(5, 3)]", []),
    ("Annotated[str, MaxLength(10)]", ["'abc'"]), ("Annotated[str, MaxLength(255)]", ["''"]),
    ("datetime.datetime", ["datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)"]), ("datetime.date", ["datetime.date(2020, 1, 1)"]),
    ("datetime.time", ["datetime.time(1, 2, 3)"]), ("datetime.timedelta", ["datetime.timedelta(days=1)"]), ("uuid.UUID", []),
    ("ipaddress.IPv4Address", []), ("ipaddress.IPv6Address", []),
    ("Literal['x']", ["'x'"]), ("Literal[True]", ["True"]), ("Literal[5]", ["5"]),
]


def value_of(r, t, m, depth=3):
    "A random value of a type of the generated classes."
    t = m.__dict__[t] if isinstance(t, str) else t
    t = getattr(m, t.__forward_arg__) if isinstance(t, typing.ForwardRef) else t
    o = typing.get_origin(t)
    if o is typing.Literal:
        return typing.get_args(t)[0]
    if o is list:
        return [value_of(r, typing.get_args(t)[0], m, depth - 1) for _ in range(r.choice([0, 1, 2]) if depth > 0 else 0)]
    if o is typing.Union:
        args = [a for a in typing.get_args(t) if a is not type(None)]
        if type(None) in typing.get_args(t) and (r.random() < 0.4 or depth <= 0):
            return None
        return value_of(r, r.choice(args), m, depth - 1)
    if hasattr(t, "__metadata__"):
        t = t.__origin__
    if t is bool:
        return r.random() < 0.5
    if t is int:
        return r.choice([0, 1, -7, 30000])
    if t is float:
        return r.choice([0.0, 0.5, -2.25])
    if t is str:
        return r.choice(["", "abc", "ü \"q\""])
    if t is decimal.Decimal:
        return r.choice([decimal.Decimal("1.5"), decimal.Decimal("0"), decimal.Decimal("-3.25")])
    for f, (cls, texts) in FORMATS.items():
        if t is cls:
            return READ[f](r.choice(texts))
    if issubclass(t, enum.Enum):
        return r.choice(list(t))
    hints = typing.get_type_hints(t, vars(m), include_extras=True)
    return t(**{f.name: value_of(r, hints[f.name], m, depth - 1) for f in dataclasses.fields(t)})


def gen_class(ctx, r):
    tag = f"{ctx.index if ctx.index is not None else 'S'}"
    text, known = HEAD, []

    def ftype(depth):
        p = r.random()
        if depth <= 0 or p < 0.55:
            if known and r.random() < 0.4:
                return r.choice(known), None
            t, ds = r.choice(SCALARS)
            return t, r.choice(ds) if ds else None
        if p < 0.8:
            return f"{r.choice(['list', 'List'])}[{ftype(depth - 1)[0]}]", None
        return r.choice(["Union[bool, str]", "Union[int, str]", "Union[bool, int, str]"]), None

    for i in range(r.choice([0, 1, 1, 2])):
        n = f"E{i}_{tag}"
        vals = r.sample([w for w in WORDS if w.isidentifier() and not w.startswith("_") and w not in ("mro", "None", "class", "name", "value")], r.choice([1, 2, 3]))
        reg = r.random() < 0.3
        text += ("@json_schema_type\n" if reg else "") + f"class {n}(enum.Enum):\n" + "".join(f"    {v} = {v + '!' if r.random() < 0.3 else v!r}\n" for v in vals)
        known.append(n)
    count = r.choice([1, 2, 3])
    for i in range(count):
        n = f"C{i}_{tag}"
        reg = r.random() < 0.5 and i < count - 1
        doc = ""
        first, rest = [], []
        for f in r.sample([n for n in NAMES if n not in ("str", "int", "list", "mro")], r.choice([1, 1, 2, 4, 6])):
            t, d = ftype(2)
            opt = r.random() < 0.35
            if opt:
                t = f"Optional[{t}]"
            if d is not None and r.random() < 0.35:
                rest.append(f"    {f}: {t} = {d}\n")
            elif opt and r.random() < 0.4:
                rest.append(f"    {f}: {t} = None\n")
            else:
                first.append(f"    {f}: {t}\n")
        if reg and r.random() < 0.6:
            first.append(f"    me: List[\"{n}\"]\n" if r.random() < 0.5 else f"    me: Optional[\"{n}\"]\n")
        if r.random() < 0.3:
            doc = f'    """\n    {r.choice(["Title text.", "Short."])}\n\n    {r.choice(["Long text of it.", "More."])}\n    """\n'
        body = doc + "".join(first) + "".join(rest)
        text += ("@json_schema_type\n" if reg else "") + f"@dataclass\nclass {n}:\n" + (body if first or rest else doc + "    pass\n")
        known.append(n)
    return text, f"C{count - 1}_{tag}"


def plain(s):
    "A schema without titles and descriptions, and with required members in a fixed order."
    if isinstance(s, dict):
        out = {k: plain(v) for k, v in s.items() if k not in ("title", "description") or isinstance(v, dict)}
        if isinstance(out.get("required"), list):
            out["required"] = sorted(out["required"])
        return out
    if isinstance(s, list):
        return [plain(x) for x in s]
    return s


def inlined(s, defs, depth):
    "A schema with its references expanded to a certain depth."
    if isinstance(s, dict):
        if "$ref" in s:
            if depth == 0:
                return {}
            return inlined(defs[s["$ref"].rsplit("/", 1)[1]], defs, depth - 1)
        return {k: inlined(v, defs, depth) for k, v in s.items() if k not in ("definitions", "$schema")}
    if isinstance(s, list):
        return [inlined(x, defs, depth) for x in s]
    return s


def from_class(ctx, r):
    text, name = gen_class(ctx, r)
    m = lab.load(text)
    g = new_module()
    try:
        cls = getattr(m, name)
        ctx.note(source=text[len(HEAD):])
        schema = classdef_to_schema(cls)
        ctx.note(schema=lambda: json.dumps(schema, indent=1))
        made = schema_to_type(schema, module=g, class_name=name)
        ctx.count("evaluations")
        Walk(ctx, schema, g).check(made, schema, name)
        ctx.count("classes by way of a schema")
        if "definitions" not in schema:
            again = classdef_to_schema(made)
            ctx.check(plain(again) == plain(schema), lambda: f"schema of the generated class is {json.dumps(plain(again))}")
            ctx.count("schemas compared")
        for _ in range(4):
            v = value_of(r, cls, m)
            doc = object_to_json(v)
            ctx.note(document=lambda: json.dumps(doc))
            # a null in an optional field is absent from the document, hence the default of the field is filled in
            want = object_to_json(json_to_object(cls, copy.deepcopy(doc), context=m))
            kind, w = lab.outcome(json_to_object, made, copy.deepcopy(doc), context=g)
            ctx.check(kind == "A", lambda: f"{doc} is refused by the generated class: {w!r}")
            out = object_to_json(w)
            ctx.check(equal(out, want), lambda: f"{doc} is written by the generated class as {out}, by the original one as {want}")
            for f in dataclasses.fields(made):
                a, b = getattr(w, f.name), getattr(json_to_object(cls, copy.deepcopy(doc), context=m), f.name)
                if not hasattr(b, "__dataclass_fields__") and not isinstance(b, (enum.Enum, list)):
                    ctx.check(type(a) is type(b) and a == b, lambda: f"{doc}: field {f.name} is {a!r} in the generated class and {b!r} in the original one")
            ctx.count("evaluations")
            if doc:
                ctx.distinct(text, json.dumps(doc))
    finally:
        sys.modules.pop(g.__name__, None)
        lab.unload(m)


def case(ctx, i):
    r = ctx.rng
    if r.random() < 0.65:
        from_schema(ctx, r)
    else:
        from_class(ctx, r)


# schemas outside of the supported subset: no class has their meaning
OBJECT = {"type": "object", "properties": {"a": {"type": "integer"}}, "additionalProperties": False}
OUTSIDE = [
    # keywords that restrict or extend what conforms
    {"type": "string", "pattern": "^a"}, {"type": "string", "contentEncoding": "base32"}, {"type": "integer", "multipleOf": 3}, {"type": "integer", "exclusiveMinimum": 3},
    {"type": "array", "items": {"type": "string"}, "minItems": 1}, {"type": "array", "items": {"type": "string"}, "uniqueItems": True}, {"type": "array"}, {"type": "array", "items": [{"type": "string"}]},
    {"type": "array", "prefixItems": [{"type": "string"}]}, {"type": "array", "items": True}, {**OBJECT, "patternProperties": {"x": {"type": "string"}}}, {**OBJECT, "minProperties": 1},
    {**OBJECT, "dependentRequired": {"a": ["b"]}}, {"type": "boolean", "enum": [True]}, {"type": "number", "enum": [1.5]},
    # objects with members that are not listed
    {"type": "object", "properties": {"a": {"type": "integer"}}}, {**OBJECT, "additionalProperties": True}, {**OBJECT, "additionalProperties": {"type": "string"}}, {"type": "object", "properties": {}},
    {"type": "object", "additionalProperties": {"type": "integer"}},
    # combinations
    {"anyOf": [{"type": "string"}, {"type": "integer"}]}, {"allOf": [{"type": "string"}]}, {"not": {"type": "string"}}, {"if": {"type": "string"}, "then": {"const": "a"}}, {"type": ["string", "integer"]},
    {"type": ["string", "null"]}, {"type": "null"}, {"type": "decimal"}, {"type": 1}, {}, {"enum": ["a", "b"]}, {"const": "a"}, {"title": "A title"}, {"oneOf": {"type": "string"}}, {"oneOf": ["string"]},
    {"type": "string", "oneOf": [{"type": "string"}]}, {"$ref": "#/definitions/Known", "default": 1},
    # references that lead nowhere, or elsewhere
    {"$ref": "#/definitions/Unknown"}, {"$ref": "#/$defs/Known"}, {"$ref": "Known"}, {"$ref": "#/definitions/Known/type"}, {"$ref": "other.json#/definitions/Known"}, {"$ref": "#"}, {"$ref": 1}, {"$ref": "#/definitions/"},
    {"$ref": " #/definitions/Known"}, {"$ref": "#/definitions/Known "}, {"$ref": "/definitions/Known"},
    # listed values, constants, and defaults of another type
    {"type": "string", "enum": ["a", 1]}, {"type": "string", "enum": [1]}, {"type": "string", "enum": "a"}, {"type": "integer", "enum": ["1"]}, {"type": "integer", "enum": [1, 1.5]}, {"type": "string", "enum": ["a", None]},
    {"type": "string", "const": 1}, {"type": "integer", "const": "1"}, {"type": "boolean", "const": 1}, {"type": "integer", "const": True}, {"type": "integer", "const": 1.5},
    {"type": "string", "maxLength": "3"}, {"type": "integer", "minimum": "3", "maximum": 4}, {"type": "string", "format": 1},
]
BAD_DEFAULTS = [
    ("integer", "a"), ("integer", 1.5), ("integer", True), ("number", "1"), ("number", False), ("boolean", 0), ("boolean", "true"), ("string", 1), ("string", []), ("string", True),
]
NO_DEFAULT = [{"type": "string", "default": "a"}, {"type": "integer", "default": 0}, {"type": "boolean", "default": False}, {"type": "string", "enum": ["a", "b"], "default": "b"}, {"type": "number", "default": 0.0}, {"type": "string", "const": "a", "default": "a"}]


def places(node):
    "Complete schemas that have a node somewhere."
    obj = lambda p, req=(): {"type": "object", "properties": p, "additionalProperties": False, "required": list(req)}
    top = lambda p, defs=(): {"$schema": "http://json-schema.org/draft-07/schema#", "definitions": {"Known": {"type": "string"}, **dict(defs)}, **obj(p, p)}
    yield "property", top({"p": node})
    yield "last of three properties", top({"a": {"type": "string"}, "b": {"type": "integer"}, "p": node})
    yield "property of a nested object", top({"o": obj({"o": obj({"p": node})}, ["o"])})
    yield "property of a definition", top({"d": {"$ref": "#/definitions/D"}}, {"D": obj({"p": node})})
    yield "property of a definition that is not used", top({"d": {"type": "string"}}, {"D": obj({"p": node})})
    yield "item", top({"l": {"type": "array", "items": node}})
    yield "member", top({"u": {"oneOf": [{"type": "boolean"}, node]}})
    yield "first member", top({"u": {"oneOf": [node, {"type": "boolean"}]}})
    yield "item of items", top({"l": {"type": "array", "items": {"type": "array", "items": node}}})
    yield "definition", top({"d": {"$ref": "#/definitions/D"}}, {"D": node})


def outside_of_the_subset(ctx):
    def judge(node, only=None, never=()):
        for where, schema in places(node):
            if only and where not in only or where in never:
                continue
            m = new_module()
            try:
                kind, got = lab.outcome(schema_to_type, schema, module=m, class_name="Top")
                ctx.note(schema=schema)
                ctx.count("evaluations")
                ctx.check(kind == "E", lambda: f"{node} as {where}, which is outside of the supported subset, gives {got!r} with {[(f.name, f.type) for f in dataclasses.fields(got)] if dataclasses.is_dataclass(got) else None}")
                ctx.check(isinstance(got, Exception) and not isinstance(got, (RecursionError, MemoryError)), f"{node} as {where}: {got!r}")
                ctx.count("schemas refused")
                ctx.distinct("outside", where, json.dumps(node))
            finally:
                sys.modules.pop(m.__name__, None)

    for node in OUTSIDE:
        judge(node)
    properties = ("property", "last of three properties", "property of a nested object", "property of a definition", "property of a definition that is not used")
    for k, d in BAD_DEFAULTS:
        judge({"type": k, "default": d}, properties)
    for f in FORMATS:
        judge({"type": "string", "format": f, "default": "neither"}, properties)
    judge({"type": "string", "enum": ["a", "b"], "default": "c"}, properties)
    judge({"type": "string", "const": "a", "default": "b"}, properties)
    for node in NO_DEFAULT:
        judge(node, never=properties)
    # control: the places themselves are in the subset
    for node in ({"type": "string"}, {"$ref": "#/definitions/Known"}, {"type": "array", "items": {"type": "integer"}}, OBJECT):
        for where, schema in places(node):
            m = new_module()
            try:
                kind, got = lab.outcome(schema_to_type, schema, module=m, class_name="Top")
                ctx.check(kind == "A", f"{node} as {where} is refused: {got!r}")
            finally:
                sys.modules.pop(m.__name__, None)


def bounds_of_numbers(ctx):
    "A number is a decimal only if both its number of integer digits and its number of decimal digits are limited."
    pools = {"exclusiveMinimum": [None, -10, -10.0, 0, 1, -1000], "exclusiveMaximum": [None, 10, 1000.0, 0], "multipleOf": [None, 0.01, 1], "minimum": [None, -10], "maximum": [None, 10]}
    for combination in itertools.product(*pools.values()):
        s = {"type": "number", **{k: v for k, v in zip(pools, combination) if v is not None}}
        if s.get("exclusiveMaximum") == 0 and s.get("exclusiveMinimum") == 0:
            continue
        schema = {"$schema": "http://json-schema.org/draft-07/schema#", "type": "object", "properties": {"p": s, "q": {**s, "default": 5}, "r": {"type": "array", "items": s}}, "additionalProperties": False, "required": ["p"]}
        m = new_module()
        ctx.note(schema=schema)
        try:
            kind, cls = lab.outcome(schema_to_type, schema, module=m, class_name="Top")
            ctx.check(kind == "A", lambda: f"schema of {s} is refused: {cls!r}")
            Walk(ctx, schema, m).check(cls, schema, "Top")
            ctx.count("evaluations")
            ctx.distinct("bounds", json.dumps(s))
        finally:
            sys.modules.pop(m.__name__, None)


def values_of_enumerations(ctx):
    "Values that are awkward as names, alone and with values they might be confused with."
    words = sorted(set(WORDS) | {"v_a", "_a", "__a", "__a__", "_a_", "a_", "a__", "v_mro", "v__a", "class", "def", "True", "Red", "RED", "red", "red_2", "red_3", "red 2", "red-2", "value", "names", "_missing_", "_value_", "_name_", "__class__", "__doc__", "__members__", "é", "e\u0301", "0", "2x", "x2", "-", ".", "a\tb", "/", "\u00b2", "x\u00b2"})
    groups = [[w] for w in words] + [list(p) for p in itertools.permutations(words, 2) if enum_like(p[0]) == enum_like(p[1])] + [words, words[::-1]]
    for g in groups:
        for where, schema in (("property", {"type": "object", "properties": {"p": {"type": "string", "enum": g}}, "additionalProperties": False, "required": ["p"]}), ("definition", {"definitions": {"D": {"type": "string", "enum": g}}, "type": "object", "properties": {"p": {"$ref": "#/definitions/D"}}, "additionalProperties": False, "required": ["p"]})):
            schema = {"$schema": "http://json-schema.org/draft-07/schema#", **schema}
            m = new_module()
            ctx.note(schema=schema)
            try:
                kind, cls = lab.outcome(schema_to_type, schema, module=m, class_name="Top")
                ctx.check(kind == "A", lambda: f"enumeration of {g} is refused: {cls!r}")
                Walk(ctx, schema, m).check(cls, schema, "Top")
                if where == "definition":
                    ctx.check(m.D.__name__ == "D", lambda: f"class of definition D is named {m.D.__name__}")
                for w in g:
                    o = json_to_object(cls, {"p": w}, context=m)
                    ctx.check(o.p.value == w and object_to_json(o) == {"p": w}, lambda: f"{w!r} is read as {o!r}")
                ctx.count("evaluations", 1 + len(g))
                ctx.distinct("values", json.dumps(g))
            finally:
                sys.modules.pop(m.__name__, None)


def restrictions(ctx):
    "Every restriction on numbers and strings that is written to a schema is there again in the class read from it."
    types_ = [typing.Annotated[decimal.Decimal, Precision(s, d)] for s in range(1, 29) for d in sorted({0, 1, 2, s // 2, s - 1, s} & set(range(s + 1)))]
    types_ += [typing.Annotated[str, MaxLength(n)] for n in (0, 1, 2, 10, 255, 256, 65535, 1 << 31, 1 << 53)] + [int16, int32, int64, float32, float64, int, float, str, bool, decimal.Decimal]
    for T in types_:
        Top = dataclasses.make_dataclass("Top", [("a", T), ("b", list[T]), ("c", typing.Optional[T], None)], kw_only=True)
        Top.__module__ = __name__
        m = new_module()
        ctx.note(type=str(T))
        try:
            schema = json.loads(json.dumps(classdef_to_schema(Top)))
            kind, cls = lab.outcome(schema_to_type, schema, module=m, class_name="Top")
            ctx.check(kind == "A", lambda: f"schema of a class with members of type {T} is refused: {cls!r}")
            got = typing.get_type_hints(cls, vars(m), include_extras=True)
            want = float if T is decimal.Decimal else T
            ctx.check(got == {"a": want, "b": list[want], "c": typing.Optional[want]}, lambda: f"members of the class read from the schema are {got}, of the class the schema is of {T}")
            again = json.loads(json.dumps(classdef_to_schema(cls)))
            ctx.check(again == schema, lambda: f"schema of the class read from {schema} is {again}")
            ctx.count("evaluations")
            ctx.distinct("restriction", str(T))
        finally:
            sys.modules.pop(m.__name__, None)


SCENARIOS = [outside_of_the_subset, restrictions, bounds_of_numbers, values_of_enumerations]
