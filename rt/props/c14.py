"C14: flattening of object schemas."

import copy
import json

from strong_typing.classdef import SchemaFlatteningOptions, flatten_schema

from .. import lab

CASES = {"quick": 12000, "thorough": 250000}
RULE = """A case is a random object schema in the subset the library reads, with properties of every kind (scalars with constraints,
arrays, references, unions, objects nested up to five levels, some empty), required names drawn at random and independently in
each object, and definitions; it is flattened one level and completely, with plain and with qualified names. A monitor computes
the flattened schema from the description of the subset and compares properties, their order and content, required names and the
other keywords, and checks that the input is as it was and shares nothing with the output. Non-trivial if there is a nested
object; distinct by schema and options."""
ASSUMPTIONS = [
    "names do not clash after lifting; an object without declared properties has no members to lift",
    "keywords inside a property are compared irrespective of their order",
]


def scalar(r):
    k = r.randrange(9)
    s = {}
    if k == 0:
        s = {"type": "boolean"}
        if r.random() < 0.3:
            s[r.choice(["const", "default"])] = r.random() < 0.5
    elif k == 1:
        s = {"type": "integer"}
        c = r.randrange(6)
        if c == 0:
            s["format"] = r.choice(["int16", "int32", "int64"])
        elif c == 1:
            s.update(minimum=r.choice([0, -5]), maximum=r.choice([7, 70000]))
        elif c == 2:
            s["enum"] = r.choice([[1, 2], [100000], [0]])
        elif c == 3:
            s[r.choice(["const", "default"])] = r.choice([0, 1, -7])
        elif c == 4:
            s["examples"] = [0, 23]
    elif k == 2:
        s = {"type": "number"}
        c = r.randrange(5)
        if c == 0:
            s["format"] = r.choice(["float32", "float64"])
        elif c == 1:
            s.update(multipleOf=0.01, exclusiveMinimum=-1000, exclusiveMaximum=1000)
        elif c == 2:
            s[r.choice(["const", "default", "minimum", "maximum"])] = r.choice([0, 1.5, -3])
        elif c == 3:
            s["examples"] = [1, 2.5]
    elif k == 3:
        s = {"type": "string"}
        c = r.randrange(6)
        if c == 0:
            s["format"] = r.choice(["date-time", "date", "time", "duration", "uuid", "ipv4", "ipv6", "other"])
        elif c == 1:
            s["enum"] = r.choice([["a", "b"], ["one two"], [""]])
        elif c == 2:
            s.update(minLength=0, maxLength=r.choice([0, 20]))
        elif c == 3:
            s[r.choice(["const", "default"])] = r.choice(["", "x", "null"])
        elif c == 4:
            s["examples"] = ["a", ""]
    elif k == 4:
        s = {"type": "array", "items": scalar(r)}
    elif k == 5:
        s = {"type": "array", "items": {"type": "object", "properties": {"inside": scalar(r)}, "additionalProperties": False, "required": ["inside"]}}
    elif k == 6:
        s = {"$ref": "#/definitions/" + r.choice(["D1", "D2"])}
    elif k == 7:
        s = {"oneOf": [scalar(r), {"type": "object", "properties": {"alt": scalar(r)}, "additionalProperties": False}]}
    else:
        s = {"type": "string"}
    if r.random() < 0.3:
        s["title"] = r.choice(["A title", ""])
    if r.random() < 0.3:
        s["description"] = "Some text: with colon"
    return s


def obj(r, depth, names):
    n = r.choice([0, 1, 1, 2, 3, 4]) if depth else r.choice([1, 2, 3, 5, 6])
    props = {}
    for _ in range(n):
        name = names.pop()
        if depth < 5 and r.random() < (0.45 if depth < 2 else 0.3):
            props[name] = obj(r, depth + 1, names)
        else:
            props[name] = scalar(r)
    s = {"type": "object"}
    if props or r.random() < 0.5:
        s["properties"] = props
        if r.random() < 0.8:
            s["additionalProperties"] = False
    style = r.random()
    req = [n for n in props if r.random() < (0.0 if style < 0.15 else 1.0 if style < 0.3 else 0.5)]
    if r.random() < 0.3:
        r.shuffle(req)
    if req or r.random() < 0.2 and props:
        s["required"] = req
    if r.random() < 0.2:
        s["title"] = "Object"
    items = list(s.items())
    if r.random() < 0.3:
        r.shuffle(items)
    return dict(items)


def flatten(s, recursive, qualified):
    "Properties and required names of the flattened form of an object schema."
    props, req = {}, set()
    required = s.get("required") or []
    for name, p in (s.get("properties") or {}).items():
        if p.get("type") != "object":
            props[name] = p
            if name in required:
                req.add(name)
            continue
        if recursive:
            inner, inner_req = flatten(p, True, qualified)
        else:
            inner, inner_req = p.get("properties") or {}, set(p.get("required") or [])
        for n, q in inner.items():
            full = f"{name}.{n}" if qualified else n
            props[full] = q
            if n in inner_req:
                req.add(full)
    return props, req


def same(a, b):
    "Equality of JSON data; numbers by value, booleans apart."
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def containers(x, out=None):
    out = {} if out is None else out
    if isinstance(x, (dict, list)):
        out[id(x)] = x
        for v in x.values() if isinstance(x, dict) else x:
            containers(v, out)
    return out


def case(ctx, i):
    r = ctx.rng
    pool = [f"{p}{n}" for n in range(60) for p in r.sample(["a", "name", "with space", "$x", "über", "items", "type", "A_b"], 2)]
    r.shuffle(pool)
    s = obj(r, 0, pool)
    top = {"$schema": "https://json-schema.org/draft/2020-12/schema"}
    if r.random() < 0.5:
        top["definitions"] = {"D1": scalar(r), "D2": obj(r, 3, pool)}
    if r.random() < 0.2:
        top = {**s, **top}
    else:
        top.update(s)
    if r.random() < 0.2:
        top["description"] = "Whole schema"
    ctx.note(schema=lambda: json.dumps(top, indent=1, ensure_ascii=False))
    nested = any(p.get("type") == "object" for p in (s.get("properties") or {}).values())
    for recursive in (False, True):
        for qualified in (False, True):
            what = f"recursive={recursive}, qualified_names={qualified}"
            options = SchemaFlatteningOptions(qualified_names=qualified, recursive=recursive)
            given = copy.deepcopy(top)
            if not recursive and not qualified and r.random() < 0.5:
                got = flatten_schema(given)
            else:
                got = flatten_schema(given, options=options)
            ctx.note(options=what, result=lambda: json.dumps(got, indent=1, ensure_ascii=False))
            ctx.count("evaluations")
            ctx.check(json.dumps(given) == json.dumps(top), lambda: f"{what}: the input was modified")
            ctx.check(options == SchemaFlatteningOptions(qualified_names=qualified, recursive=recursive), "the options were modified")
            ctx.check(not containers(given).keys() & containers(got).keys(), lambda: f"{what}: the result shares structure with the input")
            props, req = flatten(s, recursive, qualified)
            got_props = got.get("properties") or {}
            ctx.check(list(got_props) == list(props), lambda: f"{what}: properties are {list(got_props)}, expected {list(props)}")
            for n, p in props.items():
                ctx.check(same(strip(got_props[n]), strip(p)), lambda: f"{what}: property {n!r} is {got_props[n]}, expected {p}")
                ctx.count("properties compared")
            got_req = got.get("required") or []
            ctx.check(len(set(got_req)) == len(got_req) and set(got_req) == req, lambda: f"{what}: required are {got_req}, expected {sorted(req)}")
            rest = lambda x: {k: v for k, v in x.items() if k not in ("properties", "required", "additionalProperties")}
            ctx.check(same(strip(rest(got)), strip(rest(top))), lambda: f"{what}: other keywords are {rest(got)}, expected {rest(top)}")
            if props:
                ctx.check(got.get("additionalProperties") is False, lambda: f"{what}: additionalProperties is {got.get('additionalProperties')}")
            ctx.check(lab.outcome(json.dumps, got)[0] == "A", "the result is not JSON")
            if nested:
                ctx.distinct(json.dumps(top), what)
                ctx.sample(lambda: {"schema": top, "options": what, "result": got})
            if recursive:
                again = flatten_schema(got, options=options)
                ctx.check(same(again, got), lambda: f"{what}: flattening the result once more gives {again}")


def strip(x):
    "An empty list of required names is the same as none."
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not (k == "required" and v == [])}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def deep(ctx):
    "Many levels."
    for levels in (2, 3, 20, 60):
        s = {"type": "object", "properties": {"leaf": {"type": "integer"}, "opt": {"type": "string"}}, "required": ["leaf"], "additionalProperties": False}
        for k in range(levels):
            s = {"type": "object", "properties": {f"l{k}": s, f"side{k}": {"type": "boolean"}}, "required": [f"side{k}"] if k % 2 else [f"l{k}"], "additionalProperties": False}
        top = {"$schema": "x", **s}
        for qualified in (False, True):
            for recursive in (False, True):
                got = flatten_schema(top, options=SchemaFlatteningOptions(qualified, recursive))
                props, req = flatten(s, recursive, qualified)
                ctx.check(list(got["properties"]) == list(props) and set(got.get("required") or []) == req, lambda: f"{levels} levels: {got}")
                ctx.count("evaluations")
    ctx.distinct("deep")


SCENARIOS = [deep]
