"C03: what deserialization returns."

import copy
import json
import typing

from strong_typing.serialization import json_to_generic

from .. import dated, extremes, ir, lab, model

CASES = {"quick": 4000, "thorough": 120000}
RULE = """A case is a random program with up to nine of its types and a dozen JSON documents for each: forms of values,
mutations of them (kinds swapped, members dropped, renamed or added, items added or removed, texts and numbers tweaked),
forms of values of other types, and random data. A monitor compares each outcome with an independent reference reader:
the value returned is the one denoted, of the same concrete types at every depth, and a document is accepted exactly if it
denotes a value. The forms of some 9000 boundary values of the scalar types and some 7800 spellings of durations are read besides. Non-trivial unless the document is null, a boolean or empty; distinct by type and document."""
ASSUMPTIONS = ["lenient variants of ISO 8601 and UUID texts are left open by the reference reader and not judged"]

PROBES = [
    # a small matrix of every kind of data against every scalar type
    None, True, False, 0, 1, -1, 1.0, 0.0, 1.5, -0.5, 2**70, 1e300, 10**400, "", "0", "1", "1.5", "true", "True", "None", "null", "a", [], [0], [""],
    [None], {}, {"a": 1}, "2020-02-29", "2019-02-29", "2020-02-29T01:02:03Z", "2020-02-29T01:02:03.5Z", "2020-02-29T01:02:03", "01:02:03", "01:02:03Z",
    "P1D", "PT1H", "P1Y", "QQ==", "QQ=", "Q", "10.0.0.1", "010.0.0.1", "::1", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "{f81d4fae}",
    "PT0.0000001S", "PT0.0000010S", "QQ==\n", "Q Q=", "٣", "2020-٠2-29",
]


def judge(ctx, L, t, j, skip=False):
    exp = model.Decoder(skip).decode(t, j)
    kind, got = lab.outcome(L.decode, t, copy.deepcopy(j), skip)
    ctx.count("evaluations")
    if exp[0] == "U":
        ctx.count("documents with unspecified meaning")
        if kind == "A":
            ctx.check(model.belongs(t, got), lambda: f"{lab.compact(j)} read as {t} gives {got!r}, which is not of the type")
        return exp
    if exp[0] == "R":
        ctx.count("documents that denote nothing")
        ctx.check(kind == "E", lambda: f"{lab.compact(j)} is not a {t} but is read as {got!r}")
    else:
        ctx.count("documents that denote a value")
        ctx.check(kind == "A", lambda: f"{lab.compact(j)} denotes {exp[1]!r} of {t} but is refused with {got!r}")
        ctx.check(model.same(t, got, exp[1]), lambda: f"{lab.compact(j)} read as {t} gives {got!r} instead of {exp[1]!r}")
    return exp


def case(ctx, i):
    with lab.Lab(ctx) as L:
        pool = []
        for t in L.types:
            lab.cover(ctx, t)
            for how, j in lab.documents(L, t, 12, pool):
                ctx.note(type=repr(t), document=lambda: json.dumps(j))
                exp = judge(ctx, L, t, j)
                if not lab.trivial(j):
                    ctx.distinct(repr(t), json.dumps(j))
                    ctx.sample(lambda: {"type": repr(t), "document": j, "expected": repr(exp)})


def scalar_matrix(ctx):
    "Every kind of data against every scalar type, alone and inside containers, unions, tagged and annotated types."
    prims = [ir.prim(k) for k in ir.PRIM_SRC if k != "none"] + [ir.Fixed(n) for n in (*ir.FIXED, *ir.FIXED_FLOAT)]
    prims += [ir.Lit([v]) for v in ("a", "1", 0, 1, True, False)] + [ir.Lit(["a", ""]), ir.Lit([1, 2])]
    cfg = ir.Config(modules=(1,), n_classes=(1,), n_enums=(6,))
    with lab.Lab(ctx, cfg, 0) as L:
        prims += [ir.Ref(e) for e in L.prog.enums]
        for p in prims:
            shapes = [p, ir.List(p), ir.Dict(p), ir.Tuple_([p]), ir.Tuple_([p, p]), ir.Ann(p, [("raw", ("n",))])]
            shapes += [ir.Opt(p), ir.List(ir.Opt(p)), ir.Union_([p, ir.List(p)])]
            if p.k not in ("float", "fixed"):
                shapes.append(ir.Set(p))
            for t in shapes:
                for j in PROBES:
                    for doc in (j, [j], {"k": j}, [j, j]):
                        ctx.note(type=repr(t), document=lambda: json.dumps(doc))
                        judge(ctx, L, t, doc)
                        if not lab.trivial(doc):
                            ctx.distinct(repr(t), json.dumps(doc))


LOOKUPS = """
import enum

class Nearest(enum.Enum):
    A = "a"
    B = "b"

    @classmethod
    def _missing_(cls, value):
        return cls.__members__.get(value) if isinstance(value, str) else None

class Grown(enum.Enum):
    LOW = 1
    HIGH = 10

    @classmethod
    def _missing_(cls, value):
        if isinstance(value, int) and value > 1:
            return cls.HIGH
        if isinstance(value, list):
            return cls.LOW

class Refusing(str, enum.Enum):
    A = "a"

    @classmethod
    def _missing_(cls, value):
        raise ValueError(f"unknown: {value}")

class Aliased(enum.Enum):
    ONE = "one"
    UNO = "one"
    TWO = "two"
"""


def lookups(ctx):
    "Enumerations that define which member belongs to a value that is not listed, or have several names for a member."
    m = lab.load(LOOKUPS)
    try:
        N, G, R, A = m.Nearest, m.Grown, m.Refusing, m.Aliased
        table = {
            N: {"a": N.A, "b": N.B, "A": N.A, "B": N.B, "c": None, "": None, 1: None, True: None},
            G: {1: G.LOW, 10: G.HIGH, 5: G.HIGH, 11: G.HIGH, 0: None, -1: None, "1": None, "LOW": None},
            R: {"a": R.A, "b": None, "A": None, 1: None},
            A: {"one": A.ONE, "two": A.TWO, "UNO": None, "ONE": None},
        }
        for E, rows in table.items():
            for j, want in [*rows.items(), ([], G.LOW if E is G else None), ({}, None), (None, None)]:
                for T, wrap, unwrap in (
                    (E, lambda x: x, lambda x: x), (list[E], lambda x: [x], lambda x: x[0]), (dict[str, E], lambda x: {"k": x}, lambda x: x["k"]), (tuple[str, E], lambda x: ["", x], lambda x: x[1]),
                    (typing.Optional[E], lambda x: x, lambda x: x), (typing.Union[bytes, E], lambda x: x, lambda x: x),
                    *([(dict[E, int], lambda x: {x: 1}, lambda x: next(iter(x)))] if isinstance(j, str) and E is not G else []),
                ):
                    if j is None and T == typing.Optional[E] or T == typing.Union[bytes, E] and isinstance(j, str) and len(j) % 4 == 0:
                        continue
                    ctx.note(enumeration=E.__name__, type=str(T), document=lambda: json.dumps(wrap(j)))
                    kind, got = lab.outcome(json_to_generic, T, wrap(copy.deepcopy(j)), context=m)
                    ctx.count("evaluations")
                    if want is None:
                        ctx.check(kind == "E", lambda: f"{j!r}, which is no value of {E}, is read as {got!r}")
                    else:
                        ctx.check(kind == "A" and unwrap(got) is want, lambda: f"{j!r}, which stands for {want!r}, is read as {got!r}")
                    ctx.distinct("lookup", str(T), repr(j))
    finally:
        lab.unload(m)


def enumerations_of_other_values(ctx):
    "Members of enumerations of dates, identifiers, numbers or binary data are read from the form of their value."
    m = lab.load(dated.SOURCE)
    try:
        for T, v, j in dated.rows(m):
            ctx.note(type=str(T), document=lambda: json.dumps(j))
            kind, got = lab.outcome(json_to_generic, T, copy.deepcopy(j), context=m)
            ctx.check(kind == "A" and type(got) is type(v) and got == v, lambda: f"{j!r} is read as {got!r} into {T}, not {v!r}")
            ctx.count("evaluations")
            ctx.distinct("enumeration", str(T), repr(j))
        for T, j in dated.strangers(m):
            ctx.note(type=str(T), document=lambda: json.dumps(j))
            kind, got = lab.outcome(json_to_generic, T, copy.deepcopy(j), context=m)
            ctx.check(kind == "E" and lab.error_kind(got), lambda: f"{j!r}, which stands for no member of {T}, is read as {got!r}")
            ctx.count("evaluations")
            ctx.distinct("enumeration", str(T), repr(j))
    finally:
        lab.unload(m)


def boundary_documents(ctx):
    "The forms of boundary values of every scalar type, and all combinations of the components of a duration."
    with lab.Lab(ctx, ir.Config(modules=(1,), n_classes=(1,), n_enums=(1,)), 0) as L:
        docs = [(kind, model.concrete(model.encode(ir.prim(kind), v))) for kind, values in extremes.values() for v in values]
        docs += [("timedelta", s) for s in extremes.durations()]
        for kind, j in docs:
            for t, doc in extremes.shapes(ir.prim(kind), j):
                ctx.note(type=repr(t), document=lambda: json.dumps(doc)[:500])
                judge(ctx, L, t, list(doc) if isinstance(doc, tuple) else doc)
            ctx.distinct("boundary", kind, json.dumps(j))


SCENARIOS = [scalar_matrix, boundary_documents, lookups, enumerations_of_other_values]
