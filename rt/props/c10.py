"C10: independence from history."

import copy
import gc
import json
import random
import sys
import typing

from strong_typing import schema, serialization
from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.serializer import create_serializer

from .. import digest, ir, lab, model, mutate, proc

LINES = False
CASES = {"quick": 400, "thorough": 9000}
STALL = 120
RULE = """A case is a history: two or three programs, some with the same class names in other modules and some redefining the classes
of an earlier one in the same module, and 24 operations on their types in random order (writing, reading valid and invalid
documents with different options, generating schemas with different options and standards, validating, using types that cannot be
supported), some repeated. The history runs in one process; each operation then runs by itself in a fresh process, and an offline
checker compares the two recorded outcomes (value with concrete types, text, schema with order of keywords, or error with its
message). Non-trivial if the operation had others before it on the same or a namesake type; distinct by operation outcome and
position."""
ASSUMPTIONS = ["object addresses in messages are ignored", "types registered in the schema catalog under one name twice are not tried"]

BAD = ["list", "dict", "dict[float, int]", "Literal[1, 'a']", "typing.Callable", "type(print)", "tuple", "Unsupported", "list[Unsupported]"]
EXTRA = '''

class Unsupported:
    a: dict[float, int]
'''
SCHEMA_OPTIONS = [
    None, {}, {"definitions_path": "#/$defs/"}, {"use_descriptions": False}, {"use_examples": False}, {"definitions_path": "#/x/", "use_descriptions": False},
    {"property_description_fun": lambda c, n, d: f"{c.__name__}.{n}={d}"},
]


class World:
    "The programs of a history, from the point of view of one process."

    def __init__(self, specs):
        self.specs = specs
        self.progs = {}

    def load(self, k):
        seed, tag, suffix = self.specs[k]
        r = random.Random(seed)
        cfg = ir.Config(docs=r.random() < 0.5, enum_kinds=("str", "int", "float"), n_classes=(2, 3), modules=(1, 1, 2), depth=2)
        prog = ir.Gen(r, cfg, tag).program()
        for m in prog.modules:
            m.name += suffix
        prog.load()
        exec(EXTRA, prog.modules[-1].py.__dict__)
        self.progs[k] = prog

    def run(self, op):
        k, kind, n, seed = op
        prog = self.progs[k]
        r = random.Random(seed)
        classes = prog.classes
        d = classes[n % len(classes)]
        t = ir.Ref(d)
        if n >= 60:
            t = [ir.List, ir.Dict, ir.Opt, lambda t: ir.Tuple_([t, ir.prim("int")])][n % 4](t)
        module = prog.modules[-1].py
        try:
            return "returns " + self.perform(kind, prog, module, d, t, r)
        except Exception as e:
            return "raises " + digest.error(e)

    def perform(self, kind, prog, module, d, t, r):
        T = prog.pytype(t)
        values = model.Values(r, prog.modules[-1])
        if kind == "write":
            return json.dumps(serialization.object_to_json(values.value(t)))
        if kind == "write typed":
            return json.dumps(create_serializer(T, module).generate(values.value(t)))
        if kind in ("read", "read loosely", "read bad"):
            j = model.concrete(model.encode(t, values.value(t)))
            if kind == "read bad":
                j = mutate.mutate(r, j, sorted(lab.member_names(t)))
            options = None
            if kind == "read loosely":
                options = DeserializerOptions(skip_unassigned=True)
                if type(j) is dict:
                    j = {**j, "unknown": [1]}
            elif r.random() < 0.3:
                options = DeserializerOptions(skip_unassigned=False)
                if type(j) is dict and r.random() < 0.5:
                    j = {**j, "unknown": [1]}
            c = r.randrange(3)
            if c == 0:
                o = serialization.json_to_generic(T, j, context=module, options=options)
            elif c == 1:
                o = serialization.json_to_object(T, j, options=options)
            else:
                o = create_deserializer(T, module, options=options).parse(j)
            return digest.canon(o)
        if kind == "schema":
            o = r.choice(SCHEMA_OPTIONS)
            std = r.choice(list(schema.Validator))
            return json.dumps(schema.classdef_to_schema(T, schema.SchemaOptions(**o) if o is not None else None, std))
        if kind == "expand":
            return json.dumps(schema.JsonSchemaGenerator().classdef_to_schema(T, force_expand=True))
        if kind == "validate":
            j = model.concrete(model.encode(t, values.value(t)))
            if r.random() < 0.5:
                j = mutate.mutate(r, j, sorted(lab.member_names(t)))
            schema.validate_object(T, j)
            return "valid"
        if kind == "unsupported":
            bad = eval(r.choice(BAD), module.__dict__)
            c = r.randrange(3)
            if c == 0:
                return digest.canon(serialization.json_to_generic(bad, r.choice([[1], {"a": 1}, 1]), context=module))
            if c == 1:
                return json.dumps(schema.classdef_to_schema(bad))
            return json.dumps(create_serializer(bad, module).generate(r.choice([[1], {"a": 1}, 1])))
        raise AssertionError(kind)


KINDS = ["write", "write typed", "read", "read", "read loosely", "read bad", "schema", "schema", "expand", "validate", "unsupported"]


def history(specs, steps):
    w = World(specs)
    out = []
    for s in steps:
        if s[0] == "load":
            w.load(s[1])
            out.append(None)
        else:
            out.append(w.run(s))
    return out


def alone(specs, op):
    w = World(specs)
    w.load(op[0])
    return w.run(op)


def plan(r, tag):
    "Programs and steps of a history."
    specs = [(r.getrandbits(32), tag, "")]
    style = r.choice(["namesake", "redefined", "both", "single"])
    if style in ("namesake", "both"):
        specs.append((r.getrandbits(32), tag, "y"))
    if style in ("redefined", "both"):
        specs.append((r.getrandbits(32), tag, ""))
    steps = []
    live = []
    for k in range(len(specs)):
        live = [j for j in live if specs[j][2] != specs[k][2]] + [k]
        steps.append(("load", k))
        ops = []
        for _ in range(24 // len(specs)):
            if ops and r.random() < 0.2:
                ops.append(r.choice(ops))
                continue
            ops.append((r.choice(live), r.choice(KINDS), r.choice([r.randrange(4), 60 + r.randrange(16)]), r.getrandbits(32)))
        steps += ops
    return specs, steps


def case(ctx, i):
    r = ctx.rng
    specs, steps = plan(r, f"h{i}_")
    ctx.note(programs=lambda: describe(specs), steps=lambda: "\n".join(map(repr, steps)))
    out = proc.call(history, specs, steps)
    if out is None:
        ctx.fail("the history does not end")
    out = out[0]
    ops = [(n, s) for n, s in enumerate(steps) if s[0] != "load"]
    picked = ops if ctx.thorough else r.sample(ops, min(len(ops), 16))
    pending = []
    for n, s in picked:
        pending.append((n, s, proc.start(alone, specs, s)))
        if len(pending) >= 4:
            compare(ctx, specs, steps, out, *pending.pop(0))
    for p in pending:
        compare(ctx, specs, steps, out, *p)
    ctx.count("histories")
    ctx.sample(lambda: {"steps": steps, "outcomes": out})


def compare(ctx, specs, steps, out, n, s, child):
    fresh = proc.collect(*child)
    if fresh is None:
        ctx.fail(f"operation {s} does not end")
    ctx.count("evaluations")
    ctx.count(f"{s[1]} {out[n].split(' ')[0]}")
    ctx.check(fresh[0] == out[n], lambda: f"operation {n} {s} {out[n]}\nin its history, but in a process of its own it {fresh[0]}")
    if n > 1:
        ctx.distinct(n, out[n])


def describe(specs):
    w = World(specs)
    out = []
    for k in range(len(specs)):
        w.load(k)
        out.append(f"--- program {k}\n" + w.progs[k].text())
    return "\n".join(out)


def scenario_in_child(fn):
    def scenario(ctx):
        got = proc.call(fn)
        ctx.check(got is not None, f"{fn.__name__} does not end")
        ctx.check(got[0] is None, lambda: got[0])
        ctx.count("evaluations")
        ctx.distinct(fn.__name__)

    scenario.__name__ = fn.__name__
    return scenario


def many_namesakes():
    "A class of the same name is defined again and again, each with other fields, and then forgotten."
    from dataclasses import make_dataclass
    from typing import List, Optional

    types = [int, str, bool, float, List[int], Optional[str], bytes]
    samples = {int: 1, str: "a", bool: True, float: 1.5, List[int]: [1], Optional[str]: "b", bytes: b"x"}
    for n in range(400):
        t = types[n * 5 % 7]
        cls = make_dataclass("Namesake", [("value", t)])
        v = cls(samples[t])
        j = serialization.object_to_json(v)
        o = serialization.json_to_object(cls, j)
        if type(o) is not cls or o != v:
            return f"class number {n}, value: {t}: {v} is written as {j} and read as {o!r}"
        for other in types:
            if other is not t and not (t in (str, bytes, Optional[str]) and other in (str, bytes, Optional[str])) and not (t is int and other is float):
                bad = serialization.object_to_json(make_dataclass("Namesake", [("value", other)])(samples[other]))
                kind, e = lab.outcome(serialization.json_to_object, cls, bad)
                if kind == "A" and not (t is float and other is int):
                    return f"class number {n}, value: {t}, reads {bad} as {e}"
        s = schema.classdef_to_schema(cls)
        expected = schema.classdef_to_schema(t)
        expected.pop("$schema")
        if t != Optional[str] and s["properties"]["value"] != expected:
            return f"class number {n}, value: {t}, has schema {s}"
        del cls, v, o
        if n % 50 == 0:
            gc.collect()


def used_before_it_is_complete():
    "A forward reference that cannot be resolved at first and can be resolved later."
    import sys
    import types

    m = types.ModuleType("vp_incomplete")
    sys.modules["vp_incomplete"] = m
    m.__dict__["__name__"] = "vp_incomplete"
    exec("from dataclasses import dataclass\nfrom typing import Optional\n@dataclass\nclass First:\n    second: 'Optional[Second]' = None\n    third: 'list[Second]' = None\n", m.__dict__)
    doc = {"second": {"x": 1}, "third": [{"x": 2}]}
    for _ in range(2):
        for f in (lambda: serialization.json_to_object(m.First, doc), lambda: create_serializer(m.First, m).generate(m.First()), lambda: schema.classdef_to_schema(m.First)):
            kind, e = lab.outcome(f)
    exec("@dataclass\nclass Second:\n    x: int\n", m.__dict__)
    o = serialization.json_to_object(m.First, doc)
    if o != m.First(m.Second(1), [m.Second(2)]):
        return f"after the class was completed {doc} is read as {o}"
    j = serialization.object_to_json(o)
    if j != doc:
        return f"after the class was completed {o} is written as {j}"
    s = schema.classdef_to_schema(m.First)
    schema.validate_object(m.First, doc)
    if list(s["properties"]) != ["second", "third"]:
        return f"after the class was completed its schema is {s}"


def options_do_not_stick():
    "Strict and lenient readers of the same type, alternating."
    from dataclasses import dataclass
    from typing import Optional

    @dataclass
    class Inner:
        a: int

    @dataclass
    class Outer:
        inner: Inner
        more: Optional[list[Inner]] = None

    loose, strict = DeserializerOptions(skip_unassigned=True), DeserializerOptions(skip_unassigned=False)
    good = {"inner": {"a": 1}}
    bads = [{"inner": {"a": 1}, "x": 1}, {"inner": {"a": 1, "x": 1}}, {"inner": {"a": 1}, "more": [{"a": 2, "x": 3}]}]
    orders = [[loose, strict, None], [strict, loose, None], [None, loose, strict]]
    for n in range(6):
        for o in orders[n % 3]:
            for T in (Outer, Optional[Outer], list[Outer], dict[str, Outer]):
                wrap = (lambda x: [x]) if T == list[Outer] else (lambda x: {"k": x}) if T == dict[str, Outer] else (lambda x: x)
                for j in [good] + bads:
                    kind, got = lab.outcome(serialization.json_to_generic, T, wrap(j), options=o)
                    if (kind == "A") != (o is loose or j is good):
                        return f"{wrap(j)} read as {T} with {o} in round {n}: {got!r}"


def schema_options_do_not_stick():
    from dataclasses import dataclass

    @schema.json_schema_type(examples=[{"x": 1}])
    @dataclass
    class Stuck:
        """
        Title.

        :param x: Text.
        """

        x: int

    @dataclass
    class User:
        "Another."

        s: Stuck

    first = {}
    options = [None, {"use_examples": False}, {"use_descriptions": False}, {"definitions_path": "#/d/"}, {"property_description_fun": lambda c, n, d: "!" + d}]
    rng = random.Random(5)
    for n in range(40):
        k = rng.randrange(len(options))
        o = options[k]
        T = rng.choice([Stuck, User, list[User]])
        got = json.dumps(schema.classdef_to_schema(T, schema.SchemaOptions(**o) if o else None))
        key = (k, str(T))
        if first.setdefault(key, got) != got:
            return f"schema of {T} with {o} was {first[key]} and is {got}"
        d = json.loads(got)
        defs = json.dumps(d["definitions"])
        if ("examples" in defs) == (k == 1) or ("Title." in defs) == (k == 2) or ("#/d/" in got) != (k == 3) or ("!Text" in got) != (k == 4):
            return f"schema of {T} with {o} is {got}"


def generator_is_reusable():
    "One generator for several types, with failures in between."
    from dataclasses import dataclass

    @schema.json_schema_type
    @dataclass
    class Used1:
        x: int

    @schema.json_schema_type
    @dataclass
    class Used2:
        y: str

    @dataclass
    class Bad:
        a: Used1
        b: dict[float, int]

    @dataclass
    class Node:
        next: "list[Used2]"
        me: Used1

    Node.__annotations__["next"] = list[Used2]
    g = schema.JsonSchemaGenerator()
    types = [Used1, list[Used2], Node, Bad, dict[str, Used1], int, Bad, Node]
    for n in range(3):
        for T in types:
            got = lab.outcome(lambda: json.dumps(g.classdef_to_schema(T)))
            fresh = lab.outcome(lambda: json.dumps(schema.JsonSchemaGenerator().classdef_to_schema(T)))
            if got[0] != fresh[0] or got[0] == "A" and got[1] != fresh[1]:
                return f"a generator used before gives {got[1]} for {T}, a fresh one gives {fresh[1]}"


LOOKALIKES = """
import enum, dataclasses, decimal, datetime, uuid
from dataclasses import dataclass
from typing import *
class Truth(enum.Enum):
    NO = False
    YES = True
class Digit(enum.Enum):
    ZERO = 0
    ONE = 1
class Half(enum.Enum):
    ZERO = 0.0
    ONE = 1.0
class Word(enum.Enum):
    ONE = "1"
    TRUE = "true"
    EMPTY = ""
class Hooked:
    def __init__(self, x):
        self.x = x
        self.seen = []
    def to_json(self):
        return self.x
    @classmethod
    def from_json(cls, data):
        return cls(data)
@dataclass
class Whole:
    a: int
@dataclass
class Real:
    a: float
"""
LOOKALIKE_TYPES = ["Truth", "Digit", "Half", "Word", "Hooked", "Whole", "Real", "bool", "int", "float", "str", "bytes", "decimal.Decimal", "Literal[1]", "Literal[True]", "Literal['1', '']", "list[int]", "list[bool]",
                   "set[Digit]", "tuple[int, bool]", "dict[str, Truth]", "dict[Word, int]", "Union[bool, int, str]", "Union[int, float]", "Union[Whole, Real]", "Union[Digit, Half]", "Optional[Truth]", "Optional[Digit]", "Optional[Hooked]"]
LOOKALIKE_ITEMS = [0, False, 0.0, -0.0, 1, True, 1.0, "", "0", "1", "true", "True", None, 2, "AQ=="]


def lookalikes():
    "Documents and values that are equal but not the same, such as 1, 1.0 and true, in any order."
    import types

    def world(n):
        m = types.ModuleType(f"vp_lookalike_{n}")
        sys.modules[m.__name__] = m
        exec(LOOKALIKES, m.__dict__)
        return m

    def show(x):
        if type(x).__name__ == "Hooked":
            return f"Hooked({show(x.x)}, {x.seen})"
        if type(x) in (list, tuple):
            return f"{type(x).__name__}({', '.join(map(show, x))})"
        if type(x) is dict:
            return "{" + ", ".join(f"{k!r}: {show(v)}" for k, v in x.items()) + "}"
        if type(x) is set:
            return "set" + str(sorted(map(show, x)))
        if hasattr(x, "__dataclass_fields__"):
            return f"{type(x).__name__}({show(x.a)})"
        return f"{type(x).__name__} {x!r}"

    def read(m, text, doc):
        kind, got = lab.outcome(lambda: serialization.json_to_generic(eval(text, m.__dict__), copy.deepcopy(doc), context=m))
        if kind == "A" and type(got).__name__ == "Hooked":
            out = show(got)
            got.seen.append("used")
            return out
        return show(got) if kind == "A" else type(got).__name__

    def forget():
        for clear in getattr(typing, "_cleanups", ()):
            clear()

    docs = LOOKALIKE_ITEMS + [[x] for x in LOOKALIKE_ITEMS] + [[x, y] for x in (0, False, 1, True, 1.0) for y in (0, False, 1, True)]
    docs += [{"a": x} for x in LOOKALIKE_ITEMS] + [{"": 1}, {"1": True}, {"true": 1.0}, {"b": 1}]
    rng = random.Random(3)
    n = 0
    for text in LOOKALIKE_TYPES:
        expected = []
        for doc in docs:
            n += 1
            m = world(n)
            forget()
            expected.append(read(m, text, doc))
            del sys.modules[m.__name__]
        for turn in range(6):
            n += 1
            m = world(n)
            forget()
            order = [rng.randrange(len(docs)) for _ in range(2 * len(docs))]
            if turn == 0:
                order = list(range(len(docs)))
            elif turn == 1:
                order = list(range(len(docs)))[::-1]
            for k in order:
                got = read(m, text, docs[k])
                if got != expected[k]:
                    return f"{json.dumps(docs[k])} read as {text} after other documents gives {got}, alone {expected[k]}"
            del sys.modules[m.__name__]
    values = LOOKALIKE_ITEMS + [[x] for x in LOOKALIKE_ITEMS] + [(x,) for x in LOOKALIKE_ITEMS] + [{"a": x} for x in LOOKALIKE_ITEMS] + [{x: 1} for x in (0, 1, "", "1", 2)]
    for _ in range(600):
        v = rng.choice(values)
        want = [x for x in v] if isinstance(v, tuple) else {str(k): x for k, x in v.items()} if type(v) is dict else v
        got = serialization.object_to_json(v)
        if show(got) != show(want):
            return f"{v!r} is written as {got!r} after other values"


SCENARIOS = [scenario_in_child(f) for f in (lookalikes, many_namesakes, used_before_it_is_complete, options_do_not_stick, schema_options_do_not_stick, generator_is_reusable)]
