"C02: serialized form."

import collections
import io
import json
import keyword
import typing

from strong_typing import serialization
from strong_typing.serializer import create_serializer

from .. import dated, extremes, ir, lab, model, peculiar

CASES = {"quick": 6000, "thorough": 250000}
RULE = """A case is a random program with up to nine of its types and three random values of each, plus untyped lists,
tuples, sets, and dictionaries of such values, and objects of classes without annotations. Each value is written by object_to_json and by the serializer of its type;
a monitor compares the output, member order included, with an independent encoding of the value (texts of well-known types
by their exact canonical form or, for times and durations, by grammar and meaning), checks that it is plain JSON data, and
that its compact text parses back to it. Some 9000 values at boundaries of the scalar types are written besides, alone and in containers. Non-trivial unless null, a boolean or empty; distinct by type and JSON form."""
ASSUMPTIONS = ["values are finite and properly typed; timestamps carry a time zone"]


GENERIC = {list: [list, typing.List], dict: [dict, typing.Dict], set: [set, typing.Set], tuple: [tuple, typing.Tuple]}


def judge(ctx, e, j, v):
    ctx.check(model.pure_json(j), lambda: f"{v!r} is written as {j!r}, which is not plain JSON data")
    m = model.match(e, j)
    ctx.check(m is None, lambda: f"{v!r} is written as {j!r}: {m}")
    text = serialization.json_dump_string(j)
    back = json.loads(text)
    ctx.check(model.same_json(back, j, order=True), lambda: f"compact text {text!r} does not parse back to {j!r}")
    ctx.check(len(text) <= len(json.dumps(j, separators=(",", ":"))), lambda: f"text is not compact: {text!r}")
    if ctx.rng.random() < 0.1:
        f = io.StringIO()
        serialization.json_dump(j, f)
        ctx.check(model.same_json(json.loads(f.getvalue()), j, order=True), lambda: f"file text {f.getvalue()!r} does not parse back to {j!r}")
        ctx.check(f.getvalue().rstrip() == text, lambda: f"{f.getvalue()!r} is written to a file, the compact text is {text!r}")
    ctx.count("evaluations")


def untyped(ctx, L, items):
    "Containers whose item types are only known from the items."
    r = ctx.rng
    ts = [r.choice(items) for _ in range(r.randint(0, 4))]
    es = [model.encode(t, v) for t, v in ts]
    vs = [v for _, v in ts]
    c = r.randrange(6)
    if c == 0:
        return es, vs
    if c == 1:
        return es, tuple(vs)
    if c == 2:
        keys = [model.rnd_str(r) for _ in vs]
        return dict(zip(keys, es)), dict(zip(keys, vs))
    if c == 3:
        enums = [e for e in L.prog.enums if e.value_types <= {str, int}]
        if enums:
            e = r.choice(enums)
            n = min(len(e.members), len(vs))
            pairs = [(str(m[1]), getattr(e.cls, m[0])) for m in e.members[:n]]
            if r.random() < 0.4:
                # keys that are text already, among the enumeration members
                pairs = [(text, text if r.random() < 0.5 else member) for text, member in pairs]
            if len({text for text, _ in pairs}) == n:
                return {p[0]: x for p, x in zip(pairs, es)}, {p[1]: x for p, x in zip(pairs, vs)}
        return [es], [vs]
    if c == 4:
        v, e = set(), []
        for (t, x), ex in zip(ts, es):
            if L.gen.is_hashable(t) and x not in v:
                v.add(x)
                e.append(ex)
        return model.Bag(e), v
    return {"a": es, "b": [[]], "c": {}}, {"a": vs, "b": [tuple()], "c": {}}


NAMES = ["a", "b", "value", "from_", "class_", "x_", "_hidden", "name_1", "to", "in_", "is_"]


def objects(ctx, L, items):
    "Objects of classes without annotations, and untyped named tuples, whose members are only known from the object."
    r = ctx.rng
    names = r.sample(NAMES, r.randint(1, 5))
    chosen = [r.choice(items) for _ in names]
    values = [v for _, v in chosen]
    external = [n[:-1] if n.endswith("_") and keyword.iskeyword(n[:-1]) else n for n in names]
    members = {x: model.encode(t, v) for x, (t, v) in zip(external, chosen)}
    if r.random() < 0.4:
        usable = [n for n in names if not n.startswith("_")]
        v = collections.namedtuple("Untyped", usable)(*[v for n, v in zip(names, values) if n in usable])
        return {x: e for (x, e), n in zip(members.items(), names) if n in usable}, v

    class Untyped:
        def method(self):
            return 1

        __special__ = 3

    Plain = Untyped
    if r.random() < 0.4:
        # members that the object has by its class
        class Untyped(Untyped):
            constant = 7
            nothing_ = None

            @property
            def computed(self):
                return "text"

            @property
            def absent(self):
                return None

            def __len__(self):
                return 0

        members |= {"constant": 7, "computed": "text"}
        ctx.count("members by class")
        if r.random() < 0.5:
            class Untyped(Untyped):
                constant = 8
                __slots__ = ("slot", "unused")

            members |= {"constant": 8, "slot": [1], "unused": ""}
    v = Untyped()
    for n, x in zip(names, values):
        setattr(v, n, x)
    if "slot" in members:
        v.slot, v.unused = [1], ""
    if r.random() < 0.3:
        # an object within
        inner = Plain()
        inner.x, inner.nothing = 1, None
        v.inner = inner
        members["inner"] = {"x": 1}
    members = {x: e for x, e in members.items() if e is not None}
    return {x: members[x] for x in sorted(members)}, v


def case(ctx, i):
    with lab.Lab(ctx) as L:
        items = []
        for t in L.types:
            lab.cover(ctx, t)
            for _ in range(3):
                v = L.values().value(t)
                ctx.note(type=repr(t), value=lambda: repr(v))
                e = model.encode(t, v)
                j = L.encode(t, v, 1)
                judge(ctx, e, j, v)
                judge(ctx, e, L.encode(t, v, 0), v)
                items.append((t, v))
                if not lab.trivial(j):
                    ctx.distinct(repr(t), json.dumps(j))
                    ctx.sample(lambda: {"type": repr(t), "json": j})
        for _ in range(4):
            e, v = untyped(ctx, L, items)
            ctx.note(type="untyped", value=lambda: repr(v))
            j = serialization.object_to_json(v)
            judge(ctx, e, j, v)
            ctx.count("untyped containers")
            if not lab.trivial(j):
                ctx.distinct("untyped", json.dumps(j))
            T = type(v)
            if T in GENERIC:
                # containers whose items have no declared type
                T = ctx.rng.choice(GENERIC[T])
                judge(ctx, e, create_serializer(T, L.module.py).generate(v), v)
        if items and ctx.rng.random() < 0.5:
            e, v = objects(ctx, L, items)
            ctx.note(type="untyped object", value=lambda: repr(vars(v) if hasattr(v, "__dict__") else v))
            for j in (serialization.object_to_json(v), create_serializer(type(v), L.module.py).generate(v)):
                if type(j) is dict and not isinstance(v, tuple):
                    j = {k: j[k] for k in sorted(j)}
                judge(ctx, e, j, v)
            ctx.count("untyped objects")


def peculiar_objects(ctx):
    "Objects that are equal to None, false, empty, callable, iterable or cannot be compared are written like any other."
    text, classes = peculiar.source()
    m = lab.load(text)
    try:
        for name, kind, odd in classes:
            for x, y in ((3, "t"), (0, None)):
                obj = m.__dict__[name](x, y)
                j = {"x": x, "y": y} if y is not None or kind == "untyped" else {"x": x}
                for n, (T, v, place) in enumerate(peculiar.places(m, name, obj)):
                    for api, f in (("untyped", lambda: serialization.object_to_json(v)), ("typed", lambda: create_serializer(T, m).generate(v))):
                        ctx.note(kind=kind, behaviour=odd, type=str(T), api=api)
                        k, got = lab.outcome(f)
                        want = place(j)
                        if k == "A" and kind == "untyped":
                            got, want = without_null(got), without_null(want)
                        ctx.check(k == "A" and model.same_json(got, want, order=kind != "untyped"), lambda: f"object of a {kind} class ({odd}) in {T} is written as {got!r}, not {want!r}")
                        ctx.count("evaluations")
                ctx.distinct("peculiar", name, x)
    finally:
        lab.unload(m)


def without_null(j):
    if isinstance(j, dict):
        return {k: without_null(v) for k, v in j.items() if v is not None}
    return [without_null(v) for v in j] if isinstance(j, list) else j


def enumerations_of_other_values(ctx):
    "Members of enumerations of dates, identifiers, numbers or binary data are written as their value is."
    m = lab.load(dated.SOURCE)
    try:
        for T, v, j in dated.rows(m):
            for api, f in (("untyped", lambda: serialization.object_to_json(v)), ("typed", lambda: create_serializer(T, m).generate(v))):
                ctx.note(type=str(T), api=api)
                k, got = lab.outcome(f)
                ctx.check(k == "A" and model.pure_json(got) and model.same_json(got, j, order=True), lambda: f"{v!r} of {T} is written as {got!r}, not {j!r}")
                ctx.check(json.loads(serialization.json_dump_string(got)) == j, lambda: f"the text of {v!r} is {serialization.json_dump_string(got)}")
                ctx.count("evaluations")
            ctx.distinct("enumeration", str(T), repr(v))
    finally:
        lab.unload(m)


def boundary_values(ctx):
    "Values at the boundaries of every scalar type, alone, in containers and as member names."
    with lab.Lab(ctx, ir.Config(modules=(1,), n_classes=(1,), n_enums=(1,)), 0) as L:
        for kind, values in extremes.values():
            for v in values:
                for t, x in extremes.shapes(ir.prim(kind), v):
                    e = model.encode(t, x)
                    for api in (0, 1):
                        ctx.note(type=repr(t), value=lambda: repr(x)[:500], api=api)
                        judge(ctx, e, L.encode(t, x, api), x)
                if kind == "str":
                    for api in (0, 1):
                        judge(ctx, {v: 1, "": 2}, L.encode(ir.Dict(ir.prim("int")), {v: 1, "": 2}, api), {v: 1, "": 2})
                ctx.distinct("boundary", kind, repr(v))


SCENARIOS = [peculiar_objects, boundary_values, enumerations_of_other_values]
