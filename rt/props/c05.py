"C05: members of objects."

import copy
import json

from typing import Optional, Union

from strong_typing import schema, serialization
from strong_typing.deserializer import DeserializerOptions, create_deserializer

from .. import ir, lab, model, mutate, peculiar

CASES = {"quick": 2000, "thorough": 45000}
RULE = """A case is a random program of classes; for each class, objects are derived from the form of a value by making
each member absent, null, renamed (to its internal name, to a keyword with and without underscore, to another case), of
another value, and by adding unknown members, singly and combined, and are read with and without the option to ignore
unknown members. A monitor compares the outcome with an independent reference reader, checks that unknown members never
change the result, that factory defaults are not shared between results, and that names written, read and listed in the
schema agree. Non-trivial if the class has fields; distinct by class text, option and document."""
ASSUMPTIONS = ["default values are those declared by data classes and named tuples; a plain annotated class has none"]

CFG = dict(class_kinds=("dataclass",) * 10 + ("namedtuple",) * 4 + ("plain",) * 3 + ("exception",), enum_kinds=("str", "int", "float", "bool"), max_fields=6, depth=2)


def judge(ctx, L, t, j, skip):
    exp = model.Decoder(skip).decode(t, j)
    kind, got = lab.outcome(L.decode, t, copy.deepcopy(j), skip)
    ctx.count("evaluations")
    if exp[0] == "U":
        return None
    what = "ignoring unknown members" if skip else "strictly"
    if exp[0] == "R":
        ctx.check(kind == "E", lambda: f"{lab.compact(j)} read {what} as {t} gives {got!r} instead of an error")
        ctx.check(lab.error_kind(got) in exp[1], lambda: f"{lab.compact(j)} read {what} as {t} fails with {got!r}; admissible: {sorted(exp[1])}")
        ctx.count("errors")
        return None
    ctx.check(kind == "A", lambda: f"{lab.compact(j)} read {what} as {t} is refused with {got!r}")
    ctx.check(model.same(t, got, exp[1]), lambda: f"{lab.compact(j)} read {what} as {t} gives {got!r} instead of {exp[1]!r}")
    return got


def variants(L, d, j, pool):
    "Objects that differ from a valid one in single members."
    r = L.rng
    names = sorted({n for f in d.fields for n in (f.name, f.external)} | {"zz"})
    yield "as is", j
    for f in d.fields:
        k = f.external
        without = {a: b for a, b in j.items() if a != k}
        yield "absent", without
        yield "null", {**j, k: None}
        other = r.choice([f.name, f.name + "_", k + "_", k.rstrip("_"), k.upper(), "_" + k, k.capitalize()])
        if k in j:
            yield "renamed", {**without, other: j[k]}
            yield "twice", {**j, other: j[k]}
            yield "value", {**j, k: mutate.mutate(r, j[k], names, pool)}
    yield "unknown", {**j, r.choice(["zz", "", "0", "unknown member", "__class__", "self"]): mutate.random_doc(r)}
    yield "unknown", {r.choice(["zz", "extra_", "$id"]): None, **j}
    items = list(j.items())
    r.shuffle(items)
    yield "shuffled", dict(items)
    yield "empty", {}
    yield "mutant", mutate.mutate(r, j, names, pool)


def fresh(ctx, t, d, a, b):
    for f in d.fields:
        if f.default is not None and f.default[0] == "factory":
            x, y = getattr(a, f.name), getattr(b, f.name)
            if type(x) in (list, set, dict):
                ctx.count("factory defaults compared")
                ctx.check(x is not y, lambda: f"two objects of {t} share the default of field {f.name}")


def names_agree(ctx, L, t, d):
    v = L.values().value(t)
    j = L.encode(t, v)
    expected = [f.external for f in d.fields if getattr(v, f.name) is not None]
    ctx.check(list(j) == expected, lambda: f"{v!r} is written with members {list(j)}, expected {expected}")
    if d.kind in ("dataclass", "plain", "namedtuple"):
        s = schema.JsonSchemaGenerator().type_to_schema(L.py(t), force_expand=True)
        props = list(s.get("properties", {}))
        ctx.check(props == [f.external for f in d.fields], lambda: f"schema of {t} has properties {props}, expected {[f.external for f in d.fields]}")
        ctx.count("schemas compared")


def case(ctx, i):
    with lab.Lab(ctx, ir.Config(**CFG), 0) as L:
        pool = []
        for t in L.types:
            d = t.extra
            lab.cover(ctx, t)
            j = model.concrete(model.encode(t, L.values().value(t)))
            pool.append(j)
            ctx.note(type=repr(t))
            for how, doc in variants(L, d, j, pool):
                ctx.note(document=lambda: json.dumps(doc), variant=how)
                ctx.count(f"variant {how}")
                results = {}
                for skip in (False, True):
                    results[skip] = judge(ctx, L, t, doc, skip)
                    if d.fields:
                        ctx.distinct(repr(t), skip, json.dumps(doc))
                if results[True] is not None:
                    known = {k: x for k, x in doc.items() if k in {f.external for f in d.fields}}
                    if len(known) != len(doc):
                        again = L.decode(t, known, True)
                        ctx.check(model.same(t, again, results[True]), lambda: f"unknown members changed the result: {results[True]!r}, without them {again!r}")
                        fresh(ctx, t, d, again, results[True])
                if results[True] is not None and results[False] is not None:
                    fresh(ctx, t, d, results[True], results[False])
            ctx.sample(lambda: {"type": repr(t), "source": d.source(d.module, set(L.prog.defs)), "document": doc})
            names_agree(ctx, L, t, d)


def peculiar_objects(ctx):
    "Objects that are equal to None, false, empty, callable, iterable or cannot be compared are read, and serve as defaults, like any other."
    text, classes = peculiar.source()
    classes = [c for c in classes if c[1] != "untyped"]
    for name, kind, odd in classes:
        text += f"DEFAULT_{name} = {name}(9, 'd')\n@dataclasses.dataclass(eq=False)\nclass Defaults_{name}:\n"
        if odd not in ("unhashable", "hash_fails", "nameless"):
            text += f"    f: {name} = DEFAULT_{name}\n    o: Optional[{name}] = DEFAULT_{name}\n"
        text += f"    g: {name} = dataclasses.field(default_factory=lambda: DEFAULT_{name})\n"
        text += f"class Tuple_{name}(NamedTuple):\n    f: {name} = DEFAULT_{name}\n    o: Optional[{name}] = DEFAULT_{name}\n"
    m = lab.load(text)
    ns = vars(m)
    try:
        for name, kind, odd in classes:
            cls = ns[name]

            def read(T, j, check, what):
                ctx.note(kind=kind, behaviour=odd, type=str(T), document=json.dumps(j))
                for f in (lambda: serialization.json_to_object(T, j, context=m), lambda: create_deserializer(T, m, DeserializerOptions(skip_unassigned=True)).parse(j)):
                    k, got = lab.outcome(f)
                    ctx.check(k == "A", lambda: f"{j} is refused as {T}: {type(got)} {got}" if k == "E" else "")
                    ctx.check(check(got), lambda: f"{j} read as {T} ({odd}): {what}")
                    ctx.count("evaluations")

            good = lambda x, y: lambda o: type(o) is cls and object.__getattribute__(o, "x") == x and object.__getattribute__(o, "y") == y
            for j, ok in (({"x": 3, "y": "t"}, good(3, "t")), ({"x": 0, "y": None}, good(0, None))):
                for T, doc, check in (
                    (cls, j, ok), (list[cls], [j, j], lambda v: len(v) == 2 and all(map(ok, v))), (dict[str, cls], {"k": j}, lambda v: ok(v["k"])), (tuple[int, cls], [1, j], lambda v: ok(v[1])),
                    (Union[cls, int], j, ok), (Union[int, cls], j, ok), (Optional[cls], j, ok), (ns["Holder_" + name], {"a": 1, "f": j}, lambda v: ok(v.f) and v.o is None and v.b == 5),
                    (ns["Holder_" + name], {"a": 1, "f": j, "o": j, "b": 0}, lambda v: ok(v.f) and ok(v.o) and v.f is not v.o and v.b == 0),
                    (ns["Tuple_" + name], {"f": j, "o": j}, lambda v: ok(v.f) and ok(v.o)), (ns["Defaults_" + name], {"g": j}, lambda v: ok(v.g)),
                ):
                    read(T, doc, check, "not the object that the document describes")
            d = ns["DEFAULT_" + name]
            for T in (ns["Defaults_" + name], ns["Tuple_" + name]):
                fields = [f for f in ("f", "o", "g") if f in T.__annotations__]
                for doc in ({}, {f: None for f in fields}):
                    read(T, doc, lambda v: all(getattr(v, f) is d for f in fields), "the default is not used")
            ctx.distinct("peculiar", name)
    finally:
        lab.unload(m)


DEFAULTS = """
import dataclasses, decimal, datetime, enum, uuid
from typing import *
class Color(enum.Enum):
    RED = "red"
    NONE = ""
@dataclasses.dataclass(frozen=True)
class Frozen:
    x: int = 0
class Pair(NamedTuple):
    a: int = 0
    b: str = ""
VALUES = [
    ("int", "None"), ("str", "None"), ("list[int]", "None"), ("Frozen", "None"), ("Color", "None"), ("dict[str, int]", "None"), ("Union[int, str]", "None"), ("Annotated[int, 'note']", "None"),
    ("int", "0"), ("bool", "False"), ("str", "''"), ("float", "0.0"), ("bytes", "b''"), ("Color", "Color.NONE"), ("Frozen", "Frozen()"), ("Pair", "Pair()"),
    ("tuple[int, str]", "(0, '')"), ("datetime.timedelta", "datetime.timedelta(0)"), ("decimal.Decimal", "decimal.Decimal(0)"), ("uuid.UUID", "uuid.UUID(int=0)"),
    ("Optional[int]", "0"), ("Optional[int]", "7"), ("Optional[str]", "''"), ("Optional[Color]", "Color.RED"), ("Optional[Frozen]", "Frozen(4)"), ("Union[int, str, None]", "'text'"), ("Literal['a', 'b']", "'b'"), ("Optional[int]", "None"),
    ("int", "'text'"), ("str", "5"), ("int", "..."), ("int", "NotImplemented"), ("Frozen", "Frozen"), ("Pair", "int"),
]
def make(i, typ, default):
    text = "import dataclasses\\n"
    for style in ("", "frozen=True", "slots=True", "kw_only=True", "eq=False", "frozen=True, slots=True, kw_only=True"):
        n = style.replace("=True", "").replace(", ", "_").replace("=", "_")
        text += f"@dataclasses.dataclass({style})\\nclass D{i}_{n}:\\n    f: {typ} = {default}\\n    g: {typ} = dataclasses.field(default={default})\\n    h: {typ} = dataclasses.field(default_factory=lambda: {default})\\n    i: {typ} = dataclasses.field(default={default}, init=False)\\n    o: str = 'other'\\n"
    text += f"@dataclasses.dataclass\\nclass D{i}_base:\\n    f: {typ}\\n    g: {typ} = dataclasses.field(default_factory=list)\\n"
    text += f"@dataclasses.dataclass\\nclass D{i}_derived(D{i}_base):\\n    f: {typ} = {default}\\n    g: {typ} = {default}\\n    o: str = 'other'\\n"
    text += f"class N{i}(NamedTuple):\\n    f: {typ} = {default}\\n    g: {typ} = {default}\\n    o: str = 'other'\\n"
    return text
for i, (typ, default) in enumerate(VALUES):
    exec(make(i, typ, default))
"""


def kinds_of_default(ctx):
    "The declared default is used whatever it is, whether or not it is of the declared type."
    m = lab.load(DEFAULTS)
    ns = vars(m)
    try:
        for i, (typ, default) in enumerate(m.VALUES):
            d = eval(default, ns)
            for name, cls in list(ns.items()):
                if name.split("_")[0] not in (f"D{i}", f"N{i}") or name.endswith("_base"):
                    continue
                fields = [f for f in ("f", "g", "h", "i") if f in cls.__annotations__]
                ctx.note(type=typ, default=default, style=name.partition("_")[2] or name[0])
                for doc in ({}, {f: None for f in fields}, {"o": "given"}, {fields[0]: None, "o": "given"}, {fields[-1]: None}):
                    for extra in (False, True):
                        j = {**doc, "unknown": 1} if extra else doc
                        f = (lambda: create_deserializer(cls, m, DeserializerOptions(skip_unassigned=True)).parse(j)) if extra else (lambda: serialization.json_to_object(cls, j))
                        k, o = lab.outcome(f)
                        ctx.check(k == "A", lambda: f"{j} is refused although all members of {typ} have the default {default}: {o!r}" if k == "E" else "")
                        ctx.check(type(o) is cls and o.o == doc.get("o", "other"), lambda: f"{j} is read as {o!r}")
                        for x in fields:
                            v = getattr(o, x)
                            ctx.check(type(v) is type(d) and v == d, lambda: f"{j}: field {x}: {typ} is {v!r} instead of the default {default}")
                        ctx.count("evaluations")
                ctx.distinct("default", typ, default, name)
    finally:
        lab.unload(m)


SCENARIOS = [peculiar_objects, kinds_of_default]
