"C01: round trip."

import io
import json
import typing
from dataclasses import dataclass
from typing import List, Optional

from strong_typing import serialization

from .. import dated, extremes, ir, lab, model

CASES = {"quick": 6000, "thorough": 250000}
RULE = """A case is a random program (modules with enumerations, data classes, named tuples, plain classes, exceptions that
refer to each other) with up to nine of its types and three random values of each. Each value is written, read back
directly, through compact text and through a file, and compared at every depth (value and concrete type) with what an
independent reference reader makes of an independent reference encoding. Some 9000 values at boundaries of the scalar types are tried besides, alone and in containers. An observation is non-trivial if the JSON form is
not null, a boolean, or empty; distinct by type text and JSON form."""
ASSUMPTIONS = ["values are finite and properly typed; timestamps carry a time zone"]


def round_trip(ctx, L, t, v):
    j = L.encode(t, v)
    # the order in which the items of a set are written is free, and matters if a member of a union reads them as a list
    e = model.encode(t, v)
    exp = model.Decoder().decode(t, j if model.match(e, j) is None else model.concrete(e))
    assert exp[0] != "R", (t, v, exp)
    ctx.note(json=lambda: repr(j))
    results = [("directly", L.decode(t, j))]
    text = serialization.json_dump_string(j)
    ctx.note(text=text)
    results.append(("through text", L.decode(t, json.loads(text))))
    if ctx.rng.random() < 0.1:
        f = io.StringIO()
        serialization.json_dump(j, f)
        results.append(("through a file", L.decode(t, json.loads(f.getvalue()))))
    for how, o in results:
        ctx.count("round trips")
        if exp[0] == "A":
            ctx.check(model.same(t, o, exp[1]), lambda: f"{v!r} came back {how} as {o!r}, expected {exp[1]!r}")
        else:
            ctx.count("round trips of unspecified union choice")
    return j


def case(ctx, i):
    with lab.Lab(ctx) as L:
        for t in L.types:
            lab.cover(ctx, t)
            for _ in range(3):
                v = L.values().value(t)
                ctx.note(type=repr(t), value=lambda: repr(v))
                j = round_trip(ctx, L, t, v)
                ctx.count("evaluations")
                if not lab.trivial(j):
                    ctx.distinct(repr(t), json.dumps(j))
                    ctx.sample(lambda: {"type": repr(t), "json": j})


def null_instead_of_default(ctx):
    "A null in an optional field that has another default cannot be told from an absent member."

    @dataclass
    class Sample:
        value: Optional[int] = 5

    j = serialization.object_to_json(Sample(None))
    o = serialization.json_to_object(Sample, j)
    ctx.count("evaluations")
    ctx.check(o == Sample(None), f"Sample(value: Optional[int] = 5): Sample(None) is written as {j} and read as {o}", "optional-default-null")


def references(ctx):
    "References by name are resolved in the module given, or else in the module of the caller."
    a = lab.load("from dataclasses import dataclass\nfrom typing import List, Optional\n@dataclass\nclass Node:\n    x: int\n    next: Optional['Node'] = None\n    def __repr__(self): return f'a.Node({self.x}, {self.next})'\n")
    b = lab.load("""
from dataclasses import dataclass
from typing import List, Optional
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
from strong_typing.deserializer import create_deserializer
from strong_typing.serializer import create_serializer
@dataclass
class Node:
    x: int
    next: Optional['Node'] = None
    def __repr__(self): return f'b.Node({self.x}, {self.next})'
def read(f, T, j, **kw):
    return f(T, j, **kw)
def write(T, v, context):
    return create_serializer(T, context).generate(v)
""")
    try:
        for T, wrap in ((List["Node"], lambda m: [m.Node(1, m.Node(2)), m.Node(3)]), (list["Node"], lambda m: [m.Node(1, m.Node(2))]), (dict[str, "Node"], lambda m: {"k": m.Node(1)}), (tuple["Node", int], lambda m: (m.Node(5), 1)), (Optional["Node"], lambda m: m.Node(1)), (List[Optional["Node"]], lambda m: [None, m.Node(7)])):
            for m in (a, b):
                v = wrap(m)
                j = serialization.object_to_json(v)
                for f in (serialization.json_to_object, serialization.json_to_generic):
                    ctx.note(type=repr(T), json=repr(j))
                    for how, o in (("given", b.read(f, T, j, context=m)), ("given, from here", f(T, j, context=m))):
                        ctx.check(o == v and repr(o) == repr(v), lambda: f"{f.__name__} of {T} gives {o!r} instead of {v!r} with the module {how}")
                        ctx.count("evaluations")
                    if m is b:
                        o = b.read(f, T, j)
                        ctx.check(o == v and repr(o) == repr(v), lambda: f"{f.__name__} of {T} gives {o!r} instead of {v!r} with the module of the caller")
                        ctx.count("evaluations")
                o = b.create_deserializer(T, m).parse(j)
                ctx.check(o == v and repr(o) == repr(v), lambda: f"create_deserializer for {T} gives {o!r} instead of {v!r}")
                w = b.write(T, v, m)
                ctx.check(w == j, lambda: f"create_serializer for {T} gives {w!r} instead of {j!r}")
                ctx.distinct(repr(T), m.__name__)
    finally:
        lab.unload(a)
        lab.unload(b)


def enumerations_of_other_values(ctx):
    "Members of enumerations of dates, identifiers, numbers or binary data."
    m = lab.load(dated.SOURCE)
    try:
        for T, v, _ in dated.rows(m):
            for how, f in (("value", lambda: serialization.object_to_json(v)), ("text", lambda: json.loads(serialization.json_dump_string(serialization.object_to_json(v))))):
                ctx.note(type=str(T), value=repr(v), how=how)
                k, j = lab.outcome(f)
                ctx.check(k == "A", lambda: f"{v!r} of {T} cannot be written: {j!r}")
                k, o = lab.outcome(serialization.json_to_generic, T, j, context=m)
                ctx.check(k == "A" and type(o) is type(v) and o == v, lambda: f"{v!r} of {T} is written as {j!r} and read as {o!r}")
                ctx.count("evaluations")
            ctx.distinct("enumeration", str(T), repr(v))
    finally:
        lab.unload(m)


def boundary_values(ctx):
    "Values at the boundaries of every scalar type, alone and in containers."
    with lab.Lab(ctx, ir.Config(modules=(1,), n_classes=(1,), n_enums=(1,)), 0) as L:
        for kind, values in extremes.values():
            for v in values:
                for t, x in extremes.shapes(ir.prim(kind), v):
                    ctx.note(type=repr(t), value=lambda: repr(x)[:500])
                    round_trip(ctx, L, t, x)
                    ctx.count("evaluations")
                ctx.distinct("boundary", kind, repr(v))


SCENARIOS = [enumerations_of_other_values, boundary_values, references, null_instead_of_default]
