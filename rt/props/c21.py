"C21: type inspection."

import dataclasses
import datetime
import decimal
import enum
import ipaddress
import sys
import types
import typing
import uuid

from strong_typing import inspection as I

from .. import ir, lab, model, runner, spell

CASES = {"quick": 7000, "thorough": 160000}
RULE = """A case is (a) several random type expressions in either notation, with annotations at any place, for which every predicate
and extractor is compared with the tree that produced the expression; (b) random values with a random type, equal or similar to
the one they were made for, for which the instance check is compared with a model; (c) a random program of classes whose reported
fields are compared with the definitions and whose instances are checked recursively: the calls made to the predicate are compared
with the nested members computed from the definition, and the result with the predicate's verdict at every member. Non-trivial if
the type is composite or the object has members; distinct by expression or object."""
ASSUMPTIONS = ["a recursive check tests values of union, literal and enumeration type as a whole, and the values but not the keys of a mapping"]

SCOPE = """
import dataclasses, datetime, decimal, enum, ipaddress, typing, uuid
from typing import Annotated, Any, Dict, Generic, List, Literal, NamedTuple, Optional, Set, Tuple, TypeVar, Union
from strong_typing.auxiliary import Alias, IntegerRange, MaxLength, Storage, int8, uint64, float32

class Local: pass
class Sub(Local): pass

@dataclasses.dataclass
class Data:
    x: int

@dataclasses.dataclass(frozen=True, slots=True)
class Frozen:
    x: int = 1

class SubData(Data): pass

class Row(NamedTuple):
    a: int
    b: str = ""

class SubRow(Row): pass

class Pair(tuple): pass

class Fake(tuple):
    _fields = [1]

class FakeList(list):
    _fields = ("a", "b")

class FakePlain:
    _fields = ("a",)

class FakeMixed(dict, Local):
    _fields = ("a",)

class FakeNone(tuple):
    _fields = ("a", None)

class FakeNumbers(tuple):
    _fields = (1, 2)

class Color(enum.Enum):
    RED = "r"
class Num(enum.IntEnum):
    ONE = 1
class Bits(enum.Flag):
    A = 1
"""
LEAF = {  # expression -> facts
    "int": "", "str": "", "bool": "", "float": "", "bytes": "", "datetime.datetime": "", "uuid.UUID": "", "Local": "", "Sub": "",
    "Data": "data", "Frozen": "data", "SubData": "data", "Row": "tuple", "SubRow": "", "Pair": "", "Fake": "", "FakeList": "", "FakePlain": "", "FakeMixed": "", "FakeNone": "", "FakeNumbers": "", "Color": "enum", "Num": "enum", "Bits": "enum",
    "list": "", "dict": "", "set": "", "tuple": "", "object": "",
    "int8": "ann", "uint64": "ann", "float32": "ann", "Any": "",
}
LITS = ["'a'", "'b'", "1", "2", "True", "None", "b'x'", "Color.RED", "-1"]
METAS = ["'m'", "7", "Alias('z')", "MaxLength(3)", "IntegerRange(2, 5)", "('t', 9)", "Storage(16)"]


class X:
    def __init__(self, k, src, args=(), metas=(), facts="", ref=False):
        self.k, self.src, self.args, self.metas, self.facts, self.ref = k, src, list(args), list(metas), facts, ref

    def __repr__(self):
        return self.src

    @property
    def bare(self):
        return self.args[0] if self.k == "ann" else self


NONE = X("none", "None")


def members(x):
    "Members of a union after flattening."
    if x.k == "union":
        return [m for a in x.args for m in members(a)]
    return [x]


def key(x):
    if x.k == "union":
        return ("union", frozenset(key(m) for m in members(x)))
    if x.k == "lit":
        return ("lit", frozenset(x.args))
    if x.k == "ann":
        return ("ann", key(x.args[0]), tuple(x.metas))
    if x.k in ("leaf", "none"):
        return x.src
    return (x.k, x.src.split("[")[0], *[key(a) for a in x.args])


def make(r, depth):
    if depth <= 0 or r.random() < 0.12:
        s = r.choice(sorted(LEAF))
        if LEAF[s] == "ann":
            m = {"int8": ["Signed(True)", "Storage(1)", "IntegerRange(-128, 127)"], "uint64": ["Signed(False)", "Storage(8)", "IntegerRange(0, 18446744073709551615)"], "float32": ["Storage(4)"]}[s]
            return X("ann", s, [X("leaf", "float" if s == "float32" else "int")], m)
        return X("leaf", s, facts=LEAF[s])
    sub = lambda: make(r, depth - 1)
    k = r.choice(["list", "list", "set", "dict", "tuple", "union", "union", "opt", "opt", "lit", "ann", "ann", "frozenset", "seq"])
    if k in ("list", "set"):
        a = sub()
        return X(k, f"{r.choice([k, k.title()])}[{a}]", [a])
    if k == "frozenset":
        a = sub()
        return X(k, f"frozenset[{a}]", [a])
    if k == "dict":
        a, b = sub(), sub()
        return X(k, f"{r.choice(['dict', 'Dict'])}[{a}, {b}]", [a, b])
    if k == "tuple":
        a = [refer(r, sub()) for _ in range(r.choice([1, 2, 3]))]
        return X(k, f"{r.choice(['tuple', 'Tuple']) if not any(y.ref for y in a) else 'Tuple'}[{', '.join(map(str, a))}]", a)
    if k == "seq":
        a = sub()
        return X(k, f"{r.choice(['tuple', 'Tuple'])}[{a}, ...]", [a])
    if k == "opt":
        a = sub()
        if a.k == "none":
            return a
        s, args = r.choice([(f"Optional[{a}]", [a, NONE]), (f"Union[{a}, None]", [a, NONE]), (f"Union[None, {a}]", [NONE, a]), (f"({a}) | None", [a, NONE]), (f"None | ({a})", [NONE, a])])
        return unite(s, args)
    if k == "union":
        a = [sub() for _ in range(r.choice([2, 2, 3, 4]))]
        if r.random() < 0.3:
            a.insert(r.randint(0, len(a)), NONE)
        return unite(f"Union[{', '.join(map(str, a))}]" if r.random() < 0.5 else " | ".join(f"({x})" for x in a), a)
    if k == "lit":
        vs = r.sample(LITS, r.choice([1, 1, 2, 3]))
        return X(k, f"Literal[{', '.join(vs)}]", vs)
    a = sub()
    metas = [r.choice(METAS) for _ in range(r.choice([1, 1, 2]))]
    src = f"Annotated[{a}, {', '.join(metas)}]"
    if a.k == "ann":
        return X("ann", src, a.args, a.metas + metas)
    return X("ann", src, [a], metas)


def unite(src, args):
    seen, out = [], []
    for m in [m for a in args for m in members(a)]:
        if key(m) not in seen:
            seen.append(key(m))
            out.append(m)
    return X("union", src, out) if len(out) > 1 else out[0]


M = None


def scope():
    global M
    if M is None:
        M = types.ModuleType("vp21scope")
        sys.modules[M.__name__] = M
        exec(SCOPE, M.__dict__)
    return M.__dict__


def evaluate(ns, src):
    runner.forget_types()
    return eval(src, ns)


def struct(t, ns):
    return spell.structure(t, ns)


def eval_in(ns, x):
    return struct(evaluate(ns, x.src), ns)


def inspect_type(ctx, r):
    ns = scope()
    x = make(r, r.choice([0, 1, 1, 2, 2, 3]))
    ctx.note(expression=x.src)
    T = evaluate(ns, x.src)
    b = x.bare
    ctx.count("evaluations")
    ctx.count("kind " + (b.k if x.k != "ann" else "annotated " + b.k))
    has_none = b.k == "union" and NONE in b.args
    want = {
        "is_type_optional": has_none,
        "is_type_union": b.k == "union" and (len(b.args) > 2 or not has_none),
        "is_type_literal": b.k == "lit",
        "is_generic_list": b.k == "list",
        "is_generic_set": b.k == "set",
        "is_generic_dict": b.k == "dict",
        "is_type_annotated": x.k == "ann",
        "is_type_enum": b.facts == "enum",
        "is_dataclass_type": b.facts == "data",
        "is_named_tuple_type": b.facts == "tuple",
        "is_type_like": True,
    }
    for f, w in want.items():
        got = getattr(I, f)(T)
        ctx.check(got is w, lambda: f"{f}({x}) is {got!r}")
    strict = has_none and len(b.args) == 2
    got = I.is_type_optional(T, strict=True)
    ctx.check(got is strict, lambda: f"is_type_optional({x}, strict=True) is {got!r}")
    meta = tuple(evaluate(ns, "(" + m + ",)")[0] if not m.startswith("Signed") else None for m in x.metas)

    def same(got, part, what, annotated=True):
        w = eval_in(ns, part) if isinstance(part, X) else part
        if annotated and x.k == "ann":
            ms = tuple((type(m).__name__, repr(m), m) for m in T.__metadata__)
            w = ("ann", w[1], w[2] + ms) if isinstance(w, tuple) and w[0] == "ann" else ("ann", w, ms)
        ctx.check(struct(got, ns) == w, lambda: f"{what}({x}) is {got!r}")

    if x.k == "ann":
        for i, m in enumerate(meta):
            if m is not None:
                ctx.check(T.__metadata__[i] == m and type(T.__metadata__[i]) is type(m), "harness: annotations differ")
        types_ = {base for m in T.__metadata__ for base in type(m).__mro__}
        for c in types_:
            first = next(m for m in T.__metadata__ if isinstance(m, c))
            ctx.check(I.get_annotation(T, c) is first, lambda: f"annotation {c} of {x} is {I.get_annotation(T, c)!r}, not {first!r}")
    ctx.check(I.get_annotation(T, complex) is None, "annotation of another type is found")
    if x.k != "ann":
        ctx.check(I.get_annotation(T, object) is None, "annotation is found on a type that has none")
        ctx.check(I.unwrap_annotated_type(T) is T, lambda: f"{x} changes when annotations are removed")
    else:
        same(I.unwrap_annotated_type(T), b, "unwrap_annotated_type", annotated=False)
    same(I.rewrap_annotated_type(lambda t: list[t], T), ("list" and list, eval_in(ns, b)), "rewrap_annotated_type")
    if b.k == "list":
        same(I.unwrap_generic_list(T), b.args[0], "unwrap_generic_list")
    elif b.k == "set":
        same(I.unwrap_generic_set(T), b.args[0], "unwrap_generic_set")
    elif b.k == "dict":
        k, v = I.unwrap_generic_dict(T)
        same(k, b.args[0], "key of unwrap_generic_dict", annotated=False)
        same(v, b.args[1], "value of unwrap_generic_dict", annotated=False)
    elif b.k == "lit":
        vals = [evaluate(ns, v) for v in b.args]
        got = I.unwrap_literal_values(T)
        ctx.check(type(got) is tuple and [(type(v), v) for v in got] == [(type(v), v) for v in vals], lambda: f"values of {x} are {got!r}")
        got = I.unwrap_literal_types(T)
        ctx.check(got == tuple(type(v) for v in vals), lambda: f"value types of {x} are {got!r}")
        kind, got = lab.outcome(I.unwrap_literal_value, T)
        if len(vals) == 1:
            ctx.check(kind == "A" and type(got) is type(vals[0]) and got == vals[0], lambda: f"value of {x} is {got!r}")
        else:
            ctx.check(kind == "E" and isinstance(got, TypeError), lambda: f"the single value of {x} is {got!r}")
    elif b.k == "union":
        got = I.unwrap_union_types(T)
        ctx.check(type(got) is tuple and [struct(g, ns) for g in got] == [eval_in(ns, a) for a in b.args], lambda: f"members of {x} are {got!r}")
        if has_none:
            rest = []
            for a in b.args:
                if a is not NONE and eval_in(ns, a) not in rest:
                    rest.append(eval_in(ns, a))
            same(I.unwrap_optional_type(T), rest[0] if len(rest) == 1 else ("union", *rest), "unwrap_optional_type")
    if b.k != "union":
        for f in (I.unwrap_union_types, I.unwrap_optional_type):
            kind, got = lab.outcome(f, T)
            ctx.check(kind == "E" and isinstance(got, TypeError), lambda: f"{f.__name__}({x}) is {got!r}")
    if x.args:
        ctx.distinct("type", x.src)
    ref = typing.ForwardRef(x.src)
    ctx.check(I.is_type_like(ref) is True, "forward reference is not recognized")
    for spelled in (x.src, ref):
        got = I.evaluate_type(spelled, M)
        ctx.check(struct(got, ns) == struct(T, ns), lambda: f"{spelled!r} is evaluated as {got!r}")
    ctx.check(I.evaluate_type(T, M) is T, "evaluating a type changes it")


def objects(ctx):
    "Predicates on values that are not types."
    ns = scope()
    for v in (1, "text", None, [int], (int, str), {}, object(), ns["Data"](1), ns["Row"](1), ns["Color"].RED, len, lambda: 0, 1.5, b""):
        for f in ("is_type_optional", "is_type_union", "is_type_literal", "is_generic_list", "is_generic_set", "is_generic_dict", "is_type_enum", "is_dataclass_type", "is_named_tuple_type", "is_type_annotated", "is_type_like"):
            got = getattr(I, f)(v)
            ctx.check(got is False, lambda: f"{f}({v!r}) is {got!r}")
        ctx.check(I.is_dataclass_instance(v) is (type(v) is ns["Data"]), lambda: f"is_dataclass_instance({v!r})")
        ctx.check(I.is_named_tuple_instance(v) is (type(v) is ns["Row"]), lambda: f"is_named_tuple_instance({v!r})")
        ctx.count("evaluations")
    for t in (ns["Data"], ns["Row"], ns["Color"], ns["Frozen"]):
        ctx.check(I.is_dataclass_instance(t) is False and I.is_named_tuple_instance(t) is False, lambda: f"{t} is taken for an instance")
    ctx.check(I.is_dataclass_instance(ns["Frozen"]()) and I.is_dataclass_instance(ns["SubData"](2)), "data class instance is not recognized")
    for n in ("Pair", "Fake", "FakeList", "FakePlain", "FakeMixed", "FakeNone", "FakeNumbers"):
        ctx.check(I.is_named_tuple_instance(ns[n]()) is False and I.is_named_tuple_type(ns[n]) is False, lambda: f"{n} is taken for a named tuple")
    ctx.check(I.enum_value_types(ns["Color"]) == [str] and I.enum_value_types(ns["Num"]) == [int], "value types of enumerations")
    Mixed = enum.Enum("Mixed", {"a": 1, "b": "x", "c": 2, "d": 2.5, "e": True, "f": "y"})
    ctx.check(I.enum_value_types(Mixed) == [int, str, float, bool] or I.enum_value_types(Mixed) == [int, str, float], lambda: f"value types are {I.enum_value_types(Mixed)}")
    for n, w in (("__init__", True), ("__a__", True), ("_abc_impl", True), ("_a", False), ("a__", False), ("__a", False), ("x", False), ("____", False), ("__a__b", False), ("a__b__", False), ("__a_", False), ("_a__", False), ("__a__ ", False)):
        ctx.check(I.is_reserved_property(n) is w, lambda: f"is_reserved_property({n!r})")


# ------------------------------------------------------------------------------------------------------------------
# instances

PLAIN = ["int", "str", "bool", "float", "bytes", "datetime.datetime", "datetime.date", "Local", "Sub", "Data", "Row", "Color", "object", "tuple", "list", "uuid.UUID", "Num"]


def refer(r, x):
    "An expression as a string, if the names in it are known everywhere."
    if r.random() < 0.1 and not any(n in x.src for n in ("Local", "Sub", "Data", "Row", "Color", "Num", "List", "Set", "Dict", "Tuple", "Annotated")):
        return X(x.k, repr(x.src), x.args, ref=True)
    return x


def imake(r, depth):
    if depth <= 0 or r.random() < 0.15:
        return X("leaf", r.choice(PLAIN))
    sub = lambda: imake(r, depth - 1)
    k = r.choice(["list", "set", "dict", "tuple", "seq", "union", "opt", "empty"])
    if k in ("list",):
        a = refer(r, sub())
        return X(k, f"{r.choice(['list', 'List']) if not a.ref else 'List'}[{a}]", [a])
    if k == "set":
        a = X("leaf", r.choice(["int", "str", "bool", "float", "Color", "object", "Row"])) if r.random() < 0.7 else X("union", "Union[int, str]", [X("leaf", "int"), X("leaf", "str")])
        return X(k, f"{r.choice(['set', 'Set'])}[{a}]", [a])
    if k == "dict":
        a, b = X("leaf", r.choice(["str", "int", "Color"])), refer(r, sub())
        return X(k, f"{r.choice(['dict', 'Dict']) if not b.ref else 'Dict'}[{a}, {b}]", [a, b])
    if k == "tuple":
        a = [refer(r, sub()) for _ in range(r.choice([1, 2, 3]))]
        return X(k, f"{r.choice(['tuple', 'Tuple']) if not any(y.ref for y in a) else 'Tuple'}[{', '.join(map(str, a))}]", a)
    if k == "seq":
        a = sub()
        return X(k, f"{r.choice(['tuple', 'Tuple'])}[{a}, ...]", [a])
    if k == "empty":
        return X("tuple", f"{r.choice(['tuple', 'Tuple'])}[()]", [])
    if k == "opt":
        a = refer(r, sub())
        return X("union", f"Optional[{a}]" if a.ref else r.choice([f"Optional[{a}]", f"Union[None, {a}]", f"({a}) | None"]), [a, NONE])
    a = [sub() for _ in range(r.choice([2, 3]))]
    return X("union", f"Union[{', '.join(map(str, a))}]" if r.random() < 0.5 else " | ".join(f"({y})" for y in a), a)


def ivalue(r, x, ns, depth=0):
    k = x.k
    n = r.choice([0, 1, 1, 2, 3])
    if k == "none":
        return None
    if k == "list":
        return [ivalue(r, x.args[0], ns) for _ in range(n)]
    if k == "set":
        return {ivalue(r, x.args[0], ns) for _ in range(n)}
    if k == "dict":
        return {ivalue(r, x.args[0], ns): ivalue(r, x.args[1], ns) for _ in range(n)}
    if k == "tuple":
        return tuple(ivalue(r, a, ns) for a in x.args)
    if k == "seq":
        return tuple(ivalue(r, x.args[0], ns) for _ in range(n))
    if k == "union":
        return ivalue(r, r.choice(x.args), ns)
    return {
        "int": lambda: r.choice([0, 1, -7, True, ns["Num"].ONE]),
        "str": lambda: r.choice(["", "a", "b"]),
        "bool": lambda: r.choice([True, False]),
        "float": lambda: r.choice([0.5, 2.0]),
        "bytes": lambda: b"x",
        "datetime.datetime": lambda: datetime.datetime(2020, 1, 1),
        "datetime.date": lambda: r.choice([datetime.date(2020, 1, 1), datetime.datetime(2021, 1, 1)]),
        "Local": lambda: r.choice([ns["Local"](), ns["Sub"]()]),
        "Sub": lambda: ns["Sub"](),
        "Data": lambda: r.choice([ns["Data"](1), ns["SubData"](1)]),
        "Row": lambda: ns["Row"](1, "x"),
        "Color": lambda: ns["Color"].RED,
        "object": lambda: r.choice([1, "a", ns["Color"].RED]),
        "tuple": lambda: r.choice([(), (1, 2), ns["Row"](1)]),
        "list": lambda: r.choice([[], [1, "a"]]),
        "uuid.UUID": lambda: uuid.UUID(int=5),
        "Num": lambda: ns["Num"].ONE,
    }[eval(x.src) if x.ref else x.src]()


def corrupt(r, v, ns):
    "The same value with one part replaced."
    if isinstance(v, list) and v and r.random() < 0.85:
        i = r.randrange(len(v))
        return v[:i] + [corrupt(r, v[i], ns)] + v[i + 1 :]
    if type(v) is tuple and v and r.random() < 0.85:
        i = r.randrange(len(v))
        c = r.random()
        if c < 0.2:
            return v[:-1]
        if c < 0.4:
            return v + (v[-1],)
        return v[:i] + (corrupt(r, v[i], ns),) + v[i + 1 :]
    if isinstance(v, dict) and v and r.random() < 0.85:
        k = r.choice(list(v))
        if r.random() < 0.35:
            return {(ivalue(r, X("leaf", r.choice(["int", "str", "Color"])), ns) if q == k else q): w for q, w in v.items()}
        return {q: (corrupt(r, w, ns) if q == k else w) for q, w in v.items()}
    if isinstance(v, set) and v and r.random() < 0.85:
        return (v - {next(iter(v))}) | {ivalue(r, X("leaf", r.choice(["int", "str", "bool", "float", "Color"])), ns)}
    return r.choice([None, 1, "s", 2.5, True, [], {}, (), set(), {"a": 1}, [1], ["x"], (1,), {1}, frozenset({1}), b"", ns["Local"](), ns["Color"].RED, ns["Row"](2), datetime.date(2000, 1, 1), int, ns["Data"](0)])


def is_instance(x, v, ns):
    k = x.k
    if k == "none":
        return v is None
    if k == "list":
        return isinstance(v, list) and all(is_instance(x.args[0], i, ns) for i in v)
    if k == "set":
        return isinstance(v, set) and all(is_instance(x.args[0], i, ns) for i in v)
    if k == "dict":
        return isinstance(v, dict) and all(is_instance(x.args[0], i, ns) and is_instance(x.args[1], j, ns) for i, j in v.items())
    if k == "tuple":
        return isinstance(v, tuple) and len(v) == len(x.args) and all(is_instance(a, i, ns) for a, i in zip(x.args, v))
    if k == "seq":
        return isinstance(v, tuple) and all(is_instance(x.args[0], i, ns) for i in v)
    if k == "union":
        return any(is_instance(a, v, ns) for a in x.args)
    return isinstance(v, eval(eval(x.src) if x.ref else x.src, ns))


def instance_checks(ctx, r):
    ns = scope()
    x = imake(r, r.choice([0, 1, 2, 2, 3, 4]))
    T = evaluate(ns, x.src)
    for _ in range(6):
        v = ivalue(r, x, ns)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            v = corrupt(r, v, ns)
        ctx.note(expression=x.src, value=repr(v))
        w = is_instance(x, v, ns)
        got = I.is_generic_instance(v, T)
        ctx.count("evaluations")
        ctx.count(f"instance {w}")
        ctx.check(got is w, lambda: f"is_generic_instance({v!r}, {x}) is {got!r}")
        if x.args:
            ctx.distinct("instance", x.src, repr(v))


# ------------------------------------------------------------------------------------------------------------------
# classes


def leaves(t, v, out):
    "What a recursive check of a value visits."
    t = ir.strip_ann(t)
    k = t.k
    if k in ("union", "lit", "json", "strict") or (k == "ref" and t.extra.is_enum) or k in ir.PRIM_SRC or k == "fixed":
        out.append((t, v))
    elif k == "ref":
        for f in t.extra.fields:
            leaves(f.type, getattr(v, f.name), out)
    elif k in ("list", "set"):
        for i in v:
            leaves(t.args[0], i, out)
    elif k == "dict":
        for i in v.values():
            leaves(t.args[0], i, out)
    elif k == "tuple":
        for a, i in zip(t.args, v):
            leaves(a, i, out)
    else:
        raise AssertionError(k)


def type_of(L, t):
    if t.k == "fixed":
        return float if t.extra.startswith("float") else int
    return spell.structure(L.py(t), L.names, metadata=False)


def program(ctx):
    r = ctx.rng
    cfg = ir.Config(json=False, register=0.0, classvars=False, init_false=False)
    with lab.Lab(ctx, cfg, 0) as L:
        L.names = ns = {**L.module.py.__dict__, **{d.name: d.cls for d in L.prog.defs}}
        for d in L.prog.classes:
            report(ctx, L, d, ns)
        for t in L.types:
            d = t.extra
            lab.cover(ctx, t)
            for _ in range(2):
                v = L.values().instance(d)
                recursive(ctx, L, t, v, r)


def norm_type(L, t, ns):
    return spell.structure(L.prog.pytype(t, None), ns)


def report(ctx, L, d, ns):
    ctx.note(cls=d.name)
    want = [(f.name, norm_type(L, f.declared_type, ns)) for f in d.fields]
    ctx.count("evaluations")
    got = [(n, spell.structure(t, ns)) for n, t in I.get_class_properties(d.cls)]
    if d.is_dataclass or d.kind == "namedtuple" or not d.base:
        ctx.check(got == want, lambda: f"properties of {d.name} are {got}, not {want}")
    else:
        ctx.check(dict(got) == dict(want) and len(got) == len(want), lambda: f"properties of {d.name} are {got}, not {want}")
    hints = {n: spell.structure(t, ns) for n, t in I.get_resolved_hints(d.cls).items()}
    ctx.check(hints == dict(want), lambda: f"hints of {d.name} are {hints}, not {want}")
    for n, w in want:
        got = I.get_class_property(d.cls, n)
        ctx.check(spell.structure(got, ns) == w, lambda: f"property {n} of {d.name} has type {got!r}")
        ctx.count("fields")
    ctx.check(I.get_class_property(d.cls, "no_such_field") is None, "a property that does not exist has a type")
    ctx.check(I.is_dataclass_type(d.cls) is bool(d.is_dataclass), lambda: f"is_dataclass_type({d.name})")
    ctx.check(I.is_named_tuple_type(d.cls) is (d.kind == "namedtuple"), lambda: f"is_named_tuple_type({d.name})")
    if d.is_dataclass:
        fs = list(I.dataclass_fields(d.cls))
        got = [(f.name, spell.structure(f.type, ns)) for f in fs]
        ctx.check(got == want, lambda: f"fields of {d.name} are {got}, not {want}")
        for f in fs:
            w = d.cls.__dataclass_fields__[f.name].default
            ctx.check(f.default is w, lambda: f"default of field {f.name} of {d.name} is {f.default!r}, not {w!r}")
        for n, w in want:
            got = I.dataclass_field_by_name(d.cls, n)
            ctx.check(got.name == n and spell.structure(got.type, ns) == w, lambda: f"field {n} of {d.name} is {got!r}")
            w = d.cls.__dataclass_fields__[n].default
            ctx.check(got.default is w, lambda: f"default of field {n} of {d.name} looked up by name is {got.default!r}, not {w!r}")
        kind, got = lab.outcome(I.dataclass_field_by_name, d.cls, "no_such_field")
        ctx.check(kind == "E" and isinstance(got, LookupError), lambda: f"field that does not exist is {got!r}")


def recursive(ctx, L, t, v, r):
    ns = L.names
    want = []
    leaves(t, v, want)
    ctx.note(cls=t.extra.name, value=lambda: repr(v))
    ctx.count("evaluations")
    seen = []
    got = I.check_recursive(v, pred=lambda typ, obj: seen.append((typ, obj)) or True)
    ctx.check(got is True, lambda: f"check of {v!r} with a predicate that always holds gives {got!r}")
    ctx.check(len(seen) == len(want), lambda: f"predicate is asked about {len(seen)} members, the object has {len(want)}: {[o for _, o in seen]} and {[o for _, o in want]}")
    expected = [(type_of(L, lt), id(lv)) for lt, lv in want]
    actual = [(spell.structure(st, ns, metadata=False), id(sv)) for st, sv in seen]
    for e in expected:
        ctx.check(e in actual, lambda: f"predicate is not asked about a member of type {e[0]}; asked about {[a for a, _ in actual]}")
        actual.remove(e)
    ctx.count("members visited", len(seen))
    ctx.check(I.check_recursive(v) is True, "check without predicate fails")
    if not want:
        return
    ctx.distinct(t.extra.name, repr(v)[:300])
    bad = r.randrange(len(want))
    lt, lv = want[bad]
    target = type_of(L, lt)
    match = lambda typ: spell.structure(typ, ns, metadata=False) == target
    got = I.check_recursive(v, pred=lambda typ, obj: not (obj is lv and match(typ)))
    ctx.check(got is False, lambda: f"check holds although the predicate fails for member {lv!r} of type {lt}")
    got = I.check_recursive(v, value_pred=lambda obj: obj is not lv)
    ctx.check(got is False, lambda: f"check holds although the value predicate fails for member {lv!r}")
    got = I.check_recursive(v, type_pred=match, value_pred=lambda obj: False)
    ctx.check(got is False, lambda: f"check holds although no value of type {lt} passes")
    none = object()
    got = I.check_recursive(v, type_pred=lambda typ: match(typ), value_pred=lambda obj: obj is not none)
    ctx.check(got is True, "check fails although every value passes")
    got = I.check_recursive(v, type_pred=lambda typ: False, value_pred=lambda obj: False)
    ctx.check(got is True, "check fails although no member is of the type to be checked")
    picked = {id(o) for _, o in want if r.random() < 0.5}
    got = I.check_recursive(v, type_pred=match, value_pred=lambda obj: id(obj) in picked)
    w = all(id(o) in picked for lt2, o in want if type_of(L, lt2) == target)
    ctx.check(got is w, lambda: f"check of members of type {lt} gives {got!r}, expected {w}")
    ctx.count("recursive checks", 6)


def long_tuples(ctx):
    "Fields that hold tuples of any number of items, fields of other unusual types."
    ns = scope()
    good = {
        "int": [1, 2, 3, 4], "str": ["a", "b", "c", "d"], "Data": [ns["Data"](i) for i in range(4)], "Optional[str]": ["a", None, "b", None],
        "list[int]": [[1], [], [2, 3], [4]], "tuple[int, str]": [(1, "a"), (2, "b"), (3, "c"), (4, "d")], "tuple[int, ...]": [(), (1,), (2, 3), (4, 5, 6)],
        "dict[str, int]": [{"a": 1}, {}, {"b": 2, "c": 3}, {"d": 4}], "Annotated[int, 'm']": [5, 6, 7, 8], "Color": [ns["Color"].RED] * 4,
    }
    for item, values in good.items():
        for n in (0, 1, 2, 3, 4):
            for src, wrap in ((f"tuple[{item}, ...]", lambda v: v), (f"Tuple[{item}, ...]", lambda v: v), (f"list[tuple[{item}, ...]]", lambda v: [v, v[:1]]), (f"Annotated[tuple[{item}, ...], 3]", lambda v: v), (f"tuple[str, tuple[{item}, ...]]", lambda v: ("z", v))):
                C = dataclasses.make_dataclass("Holder", [("a", float), ("field", evaluate(ns, src))])
                C.__module__ = "vp21scope"
                v = tuple(values[:n])
                o = C(0.5, wrap(v))
                seen = []
                kind, got = lab.outcome(I.check_recursive, o, value_pred=lambda obj: seen.append(obj) or True)
                ctx.check(got is True, lambda: f"check of {o!r} whose field is {src} gives {got!r}")
                want = members_of(wrap(v))
                ctx.check(sorted(map(repr, seen)) == sorted(map(repr, [0.5] + want)), lambda: f"check of {o!r} whose field is {src} visits {seen}, not {want}")
                kind, got = lab.outcome(I.check_recursive, o)
                ctx.check(got is True, lambda: f"check of {o!r} whose field is {src} gives {got!r} without predicate")
                holds = lambda typ, obj: I.is_generic_instance(obj, typ)
                kind, got = lab.outcome(I.check_recursive, o, pred=holds)
                ctx.check(got is True, lambda: f"check of {o!r} whose field is {src} gives {got!r} if members must be of their type")
                for w in want:
                    kind, got = lab.outcome(I.check_recursive, o, value_pred=lambda obj: obj is not w)
                    ctx.check(got is False, lambda: f"check of {o!r} whose field is {src} gives {got!r} although it fails for {w!r}")
                ctx.count("evaluations", 3 + len(want))
                ctx.distinct("tuple", src, n)
                if n and item in ("int", "str", "Data", "tuple[int, ...]"):
                    for p in range(n):
                        o = C(0.5, wrap((*v[:p], b"bad", *v[p + 1 :])))
                        kind, got = lab.outcome(I.check_recursive, o, pred=holds)
                        ctx.check(got is False or kind == "E" and isinstance(got, TypeError), lambda: f"check of {o!r} whose field is {src} gives {got!r}")
                        ctx.count("evaluations")


def members_of(v):
    if isinstance(v, (list, tuple)):
        return [m for i in v for m in members_of(i)]
    if isinstance(v, dict):
        return [m for i in v.values() for m in members_of(i)]
    if dataclasses.is_dataclass(v):
        return [m for f in dataclasses.fields(v) for m in members_of(getattr(v, f.name))]
    return [v]


def stored_elsewhere(ctx):
    "Members count whatever options their field has and wherever their value is stored: the object, a slot, the class, a base class."
    m = types.ModuleType("vp21stored")
    sys.modules["vp21stored"] = m
    exec(
        """
import dataclasses, typing
from dataclasses import dataclass, field
from typing import *
@dataclass
class Options:
    a: int
    b: str = field(compare=False, default="b")
    c: float = field(repr=False, default=1.5)
    d: "list[bytes]" = field(hash=False, metadata={"x": 1}, default_factory=lambda: [b"d"])
    e: bool = field(init=False, default=True)
    f: Optional[int] = field(compare=False, repr=False, kw_only=True, default=None)
    _g: "Literal[1, 2]" = field(repr=False, default=2)
@dataclass(slots=True)
class Slotted:
    a: int = 1
    b: str = field(compare=False, default="b")
@dataclass
class Kept:
    a: int = 1
    b: str = "b"
class Defaults:
    a: int = 1
    b: str = "b"
    _c: "list[float]" = []
class Derived(Defaults):
    b: str
    d: bytes = b"d"
class Slots:
    __slots__ = ("a", "b")
    a: int
    b: str
class Both(Slots):
    __slots__ = ("c", "__dict__")
    c: float
    d: bytes = b""
class Failed(Exception):
    a: int
    b: str = "b"
class Point(NamedTuple):
    a: int = 1
    b: "list[Kept]" = []
""",
        m.__dict__,
    )

    def put(o, **kw):
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    cases = [
        (m.Options(5), {"a": 5, "b": "b", "c": 1.5, "d": b"d", "e": True, "f": None, "_g": 2}),
        (m.Options(6, b="x", c=2.0, d=[b"y"], f=9, _g=1), {"a": 6, "b": "x", "c": 2.0, "d": b"y", "e": True, "f": 9, "_g": 1}),
        (m.Slotted(7), {"a": 7, "b": "b"}),
        (m.Kept(), {"a": 1, "b": "b"}),
        (m.Defaults(), {"a": 1, "b": "b"}),
        (put(m.Defaults(), a=3), {"a": 3, "b": "b"}),
        (put(m.Defaults(), _c=[0.5]), {"a": 1, "b": "b", "_c": 0.5}),
        (m.Derived(), {"a": 1, "b": "b", "d": b"d"}),
        (put(m.Derived(), d=b"e"), {"a": 1, "b": "b", "d": b"e"}),
        (put(m.Slots(), a=1, b="s"), {"a": 1, "b": "s"}),
        (put(m.Both(), a=1, b="s", c=0.5), {"a": 1, "b": "s", "c": 0.5, "d": b""}),
        (put(m.Both(), a=1, b="s", c=0.5, d=b"z"), {"a": 1, "b": "s", "c": 0.5, "d": b"z"}),
        (put(m.Failed("message"), a=4), {"a": 4, "b": "b"}),
        (m.Point(), {"a": 1}),
        (m.Point(2, [m.Kept(3, "q"), m.Kept()]), {"a": 2, "b.a": 3, "b.b": "q", "c.a": 1, "c.b": "b"}),
    ]
    cases += [(C(o), want) for o, want in cases for C in [lambda o: dataclasses.make_dataclass("Holder", [("inner", type(o))])(o), lambda o: dataclasses.make_dataclass("Holder", [("inner", dict[str, type(o)], dataclasses.field(compare=False))])({"k": o})]]
    try:
        for o, want in cases:
            ctx.note(object=lambda: repr(o), cls=type(o).__name__)
            seen = []
            kind, got = lab.outcome(I.check_recursive, o, value_pred=lambda obj: seen.append(obj) or True)
            ctx.check(got is True and sorted(map(repr, seen)) == sorted(map(repr, want.values())), lambda: f"check of {o!r} gives {got!r} and visits {seen}, its members are {want}")
            for n, w in want.items():
                kind, got = lab.outcome(I.check_recursive, o, value_pred=lambda obj: repr(obj) != repr(w))
                ctx.check(got is False, lambda: f"check of {o!r} gives {got!r} although it fails for {n}={w!r}")
                kind, got = lab.outcome(I.check_recursive, o, pred=lambda typ, obj: repr(obj) == repr(w) or typing.get_origin(typ) is typing.Literal or I.is_generic_instance(obj, typ))
                ctx.check(got is True, lambda: f"check of {o!r} gives {got!r} although all members are of their type")
            ctx.count("evaluations", 1 + 2 * len(want))
            ctx.distinct("stored", type(o).__name__, repr(sorted(want.items())))
        for cls, want in ((m.Options, ["a", "b", "c", "d", "e", "f", "_g"]), (m.Slotted, ["a", "b"]), (m.Slots, ["a", "b"]), (m.Defaults, ["a", "b", "_c"]), (m.Derived, ["a", "b", "_c", "d"]), (m.Both, ["a", "b", "c", "d"]), (m.Failed, ["a", "b"]), (m.Point, ["a", "b"])):
            got = [n for n, _ in I.get_class_properties(cls)]
            ctx.check(sorted(got) == sorted(want), lambda: f"properties of {cls.__name__} are {got}, not {want}")
            got = list(I.get_resolved_hints(cls))
            ctx.check(sorted(got) == sorted(want), lambda: f"hints of {cls.__name__} are {got}, not {want}")
            if dataclasses.is_dataclass(cls):
                got = [f.name for f in I.dataclass_fields(cls)]
                ctx.check(got == want, lambda: f"fields of {cls.__name__} are {got}, not {want}")
                for n in want:
                    got = lab.outcome(I.dataclass_field_by_name, cls, n)
                    ctx.check(got[0] == "A" and got[1].name == n, lambda: f"field {n} of {cls.__name__} is {got}")
            ctx.count("evaluations")
    finally:
        del sys.modules[m.__name__]


def misuse(ctx):
    "Combinations of predicates that are refused."
    ns = scope()
    v = ns["Data"](1)
    p = lambda *a: True
    for kw in ({"pred": p, "value_pred": p}, {"pred": p, "type_pred": p, "value_pred": p}, {"type_pred": p}, {"type_pred": p, "pred": p}):
        kind, e = lab.outcome(I.check_recursive, v, **kw)
        ctx.check(kind == "E" and isinstance(e, TypeError), lambda: f"check with {sorted(kw)} gives {e!r}")
        ctx.count("evaluations")


def modules(ctx):
    "Classes and functions declared in a module."
    names = ["vp21mod", "vp21mod.part", "vp21mod2", "vp21"]
    text = """
import enum, functools, operator
from dataclasses import dataclass
from decimal import Decimal
from json import dumps
from typing import List, Union, TypeVar
class B:
    def method(self):
        pass
    class Nested:
        pass
class A(enum.Enum):
    X = 1
@dataclass
class C:
    pass
class Callee:
    def __call__(self):
        pass
def f():
    def inner():
        pass
    return inner
def a():
    pass
def decorated(fn):
    @functools.wraps(fn)
    def wrapper():
        return fn()
    return wrapper
async def co():
    pass
def gen():
    yield 1
alias = B
x = 3
handler = Callee()
cached = functools.lru_cache(f)
bound = B().method
getter = operator.itemgetter(1)
part = functools.partial(a)
instance = C()
member = A.X
items = List[B]
either = Union[B, C]
T = TypeVar("T")
"""
    mods = []
    try:
        for n in names:
            m = types.ModuleType(n)
            sys.modules[n] = m
            exec(text, m.__dict__)
            mods.append(m)
        for m in mods:
            # what the other modules declare, under names of its own
            for i, o in enumerate(mods):
                if o is not m:
                    setattr(m, f"B{i}", o.B)
                    setattr(m, f"f{i}", o.f)
                # a function declared here, within a wrapper of another module that stands for it
                m.wrapped = o.decorated(m.a)
        for m in mods:
            got = I.get_module_classes(m)
            ctx.check(set(got) == {m.A, m.B, m.C, m.Callee}, lambda: f"classes of module {m.__name__} are {got}")
            got = I.get_module_functions(m)
            ctx.check(set(got) == {m.f, m.a, m.decorated, m.co, m.gen, m.wrapped} and len(got) == 6, lambda: f"functions of module {m.__name__} are {got}")
            ctx.count("evaluations", 2)
    finally:
        for m in mods:
            del sys.modules[m.__name__]


def defined_later(ctx):
    "Names in annotations that are defined, or defined anew, after the class has been inspected for the first time."
    COUNT[0] += 1
    m = types.ModuleType(f"vp21later{COUNT[0]}")
    sys.modules[m.__name__] = m
    try:
        exec("""
import dataclasses
from typing import *
@dataclasses.dataclass
class A:
    x: int
    y: "Later"
    z: "Optional[list[Later]]" = None
class P:
    x: int
    y: "Later"
    z: "Optional[list[Later]]"
class N(NamedTuple):
    x: int
    y: "Later"
    z: "Optional[list[Later]]" = None
""", m.__dict__)
        looks = [
            lambda c: dict(I.get_class_properties(c)), lambda c: {n: I.get_class_property(c, n) for n in "xyz"}, I.get_resolved_hints,
            lambda c: {f.name: f.type for f in I.dataclass_fields(c)}, lambda c: {n: I.dataclass_field_by_name(c, n).type for n in "xyz"},
            lambda c: {n: I.evaluate_member_type(t, c) for n, t in vars(c)["__annotations__"].items()}, lambda c: I.get_referenced_types(c, m),
        ]
        for i in range(3):
            for c in (m.A, m.P, m.N):
                for k, look in enumerate(looks):
                    if k in (3, 4) and c is not m.A:
                        continue
                    kind, got = lab.outcome(look, c)
                    ctx.count("evaluations")
                    ctx.distinct("defined later", i, c.__name__, k)
                    if i == 0:
                        continue  # nothing is said about names that mean nothing
                    if k == 6:
                        ctx.check(kind == "A" and m.Later in got, lambda: f"types referenced by {c} are {got!r}, Later is now {m.Later}")
                        continue
                    want = {"x": int, "y": m.Later, "z": typing.Optional[list[m.Later]]}
                    ctx.check(kind == "A" and got == want, lambda: f"properties of {c} are {got!r}, Later is now {m.Later}")
            if i == 0:
                exec("class Later:\n    pass\n", m.__dict__)
            else:
                # what the name means has changed, so do the fields that use it
                exec("class Later:\n    a: int\n", m.__dict__)
                exec("@dataclasses.dataclass\nclass A:\n    x: int\n    y: 'Later'\n    z: 'Optional[list[Later]]' = None\nclass P:\n    x: int\n    y: 'Later'\n    z: 'Optional[list[Later]]'\nclass N(NamedTuple):\n    x: int\n    y: 'Later'\n    z: 'Optional[list[Later]]' = None\n", m.__dict__)
    finally:
        del sys.modules[m.__name__]


COUNT = [0]


def case(ctx, i):
    r = ctx.rng
    k = i % 3
    if k == 0:
        for _ in range(10):
            inspect_type(ctx, r)
    elif k == 1:
        for _ in range(6):
            instance_checks(ctx, r)
    else:
        program(ctx)


def references(ctx):
    "Types defined in terms of themselves or of names that are also used within the library."
    from strong_typing.core import JsonType, StrictJsonType

    cases = [
        (JsonType, [None, True, 1, 2.5, "a", [], {}, [1, [None, "x", {"a": [False]}]], {"a": {"b": [None]}}], [b"x", [b"x"], {"a": object()}, {1: 2}, [{"a": {1: 1}}], (1,), {1}, [[[[[(1,)]]]]]]),
        (StrictJsonType, [True, 1, 2.5, "a", [], {}, [1, ["x", {"a": [False]}]]], [None, [None], {"a": None}, [[{"a": [None]}]]]),
        (list[JsonType], [[], [None, [1]]], [None, {}, [b""]]),
        (typing.List["list[int]"], [[], [[]], [[1], []]], [[1], [["a"]], [None]]),
        (typing.Dict[str, "Optional[list[str]]"], [{}, {"a": None}, {"a": ["b"]}], [{"a": [1]}, {"a": "b"}]),
        (typing.Optional["dict[str, list[Any]]"], [None, {}], [[], {"a": b""}, {1: 1}]),
    ]
    for T, good, bad in cases:
        for v, w in [(v, True) for v in good] + [(v, False) for v in bad]:
            kind, got = lab.outcome(I.is_generic_instance, v, T)
            ctx.check(got is w, lambda: f"is_generic_instance({v!r}, {str(T)[:60]}) is {got!r}")
            ctx.count("evaluations")
            ctx.distinct("reference", str(T), repr(v))
    for name in ("obj", "fwd", "identifier", "typ_"):
        kind, got = lab.outcome(I.is_generic_instance, [int], typing.List[name])
        ctx.check(got is not True, lambda: f"is_generic_instance([int], List[{name!r}]) is {got!r}")


def not_of_the_type(ctx):
    "An object that is not of the declared type has no members of it: the check fails or an error is raised, it does not pass."
    ns = scope()
    bad = {"int": [1], "list[int]": (1,), "set[int]": [1], "dict[str, int]": [1], "tuple[int, str]": [1, "a"], "Data": 1, "Row": 5, "Color": "r", "Frozen": ns["Data"](1), "Local": "x", "List[int]": {1}, "Dict[str, int]": {1}}
    for src, v in bad.items():
        for wrap, place in ((src, lambda v: v), (f"list[{src}]", lambda v: [v]), (f"dict[str, {src}]", lambda v: {"a": v}), (f"tuple[str, {src}]", lambda v: ("a", v)), (f"Annotated[list[Annotated[{src}, 1]], 2]", lambda v: [v])):
            C = dataclasses.make_dataclass("Holder", [("a", int), ("field", evaluate(ns, wrap)), ("b", int)])
            C.__module__ = "vp21scope"
            o = C(1, place(v), 2)
            holds = lambda typ, obj: I.is_generic_instance(obj, typ)
            kind, got = lab.outcome(I.check_recursive, o, pred=holds)
            ctx.count("evaluations")
            ctx.check(kind == "E" and isinstance(got, TypeError) or got is False, lambda: f"recursive check of {o!r} whose field is declared {wrap} gives {got!r}")
            if src != "int":
                kind, got = lab.outcome(I.check_recursive, o)
                ctx.check(kind == "E" and isinstance(got, TypeError), lambda: f"recursive check without predicate of {o!r} whose field is declared {wrap} gives {got!r}")
            ctx.distinct("wrong", wrap)


def helpers(ctx):
    "Members evaluated in the module that declares them, objects made without calling their initializer."
    mods = []
    for n, item in (("vp21one", "class Item: pass\nclass Base:\n    x: 'Item'\n    y: 'list[Item]'\n@dataclasses.dataclass\nclass DBase:\n    x: 'Item'\n"), ("vp21two", "import vp21one\nclass Item: pass\nclass Derived(vp21one.Base):\n    z: 'Item'\nclass Redeclared(vp21one.Base):\n    x: 'Item'\n@dataclasses.dataclass\nclass DDerived(vp21one.DBase):\n    z: 'Item'\n")):
        m = types.ModuleType(n)
        sys.modules[n] = m
        exec("import dataclasses\nfrom typing import *\n" + item, m.__dict__)
        mods.append(m)
    one, two = mods
    try:
        for cls, want in (
            (one.Base, {"x": one.Item, "y": list[one.Item]}), (two.Derived, {"x": one.Item, "y": list[one.Item], "z": two.Item}),
            (two.Redeclared, {"x": two.Item, "y": list[one.Item]}), (one.DBase, {"x": one.Item}), (two.DDerived, {"x": one.Item, "z": two.Item}),
        ):
            ctx.check(dict(I.get_class_properties(cls)) == want, lambda: f"properties of {cls} are {list(I.get_class_properties(cls))}")
            ctx.check(I.get_resolved_hints(cls) == want, lambda: f"hints of {cls} are {I.get_resolved_hints(cls)}")
            for n, t in want.items():
                got = I.get_class_property(cls, n)
                ctx.check(got == t, lambda: f"property {n} of {cls} is {got}")
                declares = one if n == "y" or (n == "x" and cls is not two.Redeclared) else two
                ctx.check(I.get_member_module(cls, n) is declares, lambda: f"member {n} of {cls} belongs to {I.get_member_module(cls, n)}")
            ctx.count("evaluations", len(want))
        for m in mods:
            for cls in (m.Item,):
                for t, want in (("Item", m.Item), ("list['Item']", None), (typing.ForwardRef("Item"), m.Item), ("Optional[Item]", typing.Optional[m.Item]), (int, int), (list[int], list[int])):
                    got = I.evaluate_member_type(t, cls)
                    ctx.check(want is None or got == want, lambda: f"member type {t!r} evaluates to {got!r}")
                    got = I.evaluate_type(t, m)
                    ctx.check(want is None or got == want, lambda: f"type {t!r} evaluates to {got!r}")
                    ctx.count("evaluations", 2)
        # a name that cannot be found is an error, not some type
        exec("class Lost:\n    a: int\n    b: 'list[NoSuchName]'\n@dataclasses.dataclass\nclass DLost:\n    a: int\n    b: 'NoSuchName'\n", one.__dict__)
        for cls in (one.Lost, one.DLost):
            for f in (I.get_resolved_hints, lambda c: list(I.get_class_properties(c)), lambda c: I.get_class_property(c, "b")):
                kind, got = lab.outcome(f, cls)
                if cls is one.DLost and f is not I.get_resolved_hints:
                    continue  # may be reported as written
                ctx.check(kind == "E" and isinstance(got, NameError), lambda: f"type of a field that names nothing: {got!r}")
                ctx.count("evaluations")
    finally:
        for m in mods:
            del sys.modules[m.__name__]
    calls = []

    class Made:
        def __init__(self, a):
            calls.append(a)

    class Failed(Exception):
        def __init__(self, a, *, b):
            calls.append(a)

    for cls in (Made, Failed, dataclasses.make_dataclass("Frozen", [("x", int)], frozen=True), KeyError, type("Slots", (), {"__slots__": ("a",)})):
        o, p = I.create_object(cls), I.create_object(cls)
        ctx.check(type(o) is cls and o is not p and not calls, lambda: f"create_object({cls}) gives {o!r}, calls {calls}")
        ctx.count("evaluations")


SCENARIOS = [objects, misuse, modules, references, not_of_the_type, helpers, long_tuples, stored_elsewhere, defined_later]
