"C16: classes reachable from a type."

import sys
import types

from strong_typing.inspection import TypeCollector, get_referenced_types

from .. import ir, lab, spell

CASES = {"quick": 3000, "thorough": 70000}
RULE = """A case is a random program of classes that refer to one another through containers, unions, optionals, annotations,
string annotations, inheritance across modules and cycles. For each of its types the set of referenced types is computed for
several spellings of the expression (built-in or typing containers, either union notation, arguments or the whole expression as a
string or forward reference) and compared with the set of classes computed from the generated definitions; the graph kept by the
collector is compared edge by edge. Non-trivial if the type refers to more than itself; distinct by expression."""
ASSUMPTIONS = ["the null type, Any and the values of literals are not classes a type refers to"]


def describe(cs):
    return sorted(getattr(c, "__name__", str(c)) for c in cs)


def spellings(r, t, n):
    yield "generated", ir.src(t)
    for _ in range(n):
        yield "notation", spell.spell(r, t)
    for _ in range(n):
        yield "strings inside", spell.spell(r, t, 0.5)
    yield "string", repr(spell.spell(r, t))
    yield "reference", f"typing.ForwardRef({spell.spell(r, t)!r})"
    yield "annotated reference", f"Annotated[{spell.spell(r, t)!r}, 'note', 1]"
    yield "optional reference", f"Optional[{spell.spell(r, t)!r}]"
    yield "listed", f"list[{spell.spell(r, t)!r}]"
    yield "frozen set", f"frozenset[{spell.spell(r, t)}]"
    yield "sequence", f"tuple[{spell.spell(r, t)}, ...]"
    yield "keyed", f"dict[str, tuple[{spell.spell(r, t)!r}, None]]"


def case(ctx, i):
    r = ctx.rng
    cfg = ir.Config(register=0.2, docs=False, max_fields=4, class_kinds=("dataclass",) * 10 + ("namedtuple",) * 4 + ("plain",) * 4 + ("exception",), classvars=True)
    with lab.Lab(ctx, cfg, 4) as L:
        prog = L.prog
        module = L.module.py
        ns = module.__dict__
        for d in prog.defs:
            ns.setdefault(d.name, d.cls)
        exec(spell.HEAD, ns)
        for t in L.types:
            lab.cover(ctx, t)
            want = {spell.resolve(prog, c) for c in spell.closure_of(t)}
            for how, text in spellings(r, t, 2):
                extra = {str} if how == "keyed" else set()
                ctx.note(type=repr(t), expression=text, spelling=how)
                T = eval(text, ns)
                got = get_referenced_types(T, module)
                ctx.count("evaluations")
                ctx.count(f"spelling {how}")
                ctx.check(type(got) is set, lambda: f"result is {got!r}")
                ctx.check(got == want | extra, lambda: f"types referenced by {text}: missing {describe((want | extra) - got)}, unexpected {describe(got - want - extra)}")
                if len(want) > 1:
                    ctx.distinct(text)
                    ctx.sample(lambda: {"expression": text, "classes": describe(want)})
            if t.k == "ref" and not t.extra.is_enum:
                got = get_referenced_types(L.py(t))
                ctx.check(got == want, lambda: f"types referenced by class {t}, without module: missing {describe(want - got)}, unexpected {describe(got - want)}")
        picked = r.sample(prog.defs, min(len(prog.defs), r.choice([1, 2, 3])))
        graph = {spell.resolve(prog, c): {spell.resolve(prog, d) for d in ds} for c, ds in spell.closure(picked).items()}
        c = TypeCollector()
        c.traverse_all([d.cls for d in picked])
        ctx.note(expression=lambda: f"collector for {spell.show(picked)}")
        if hasattr(c, "dependency_graph"):
            ctx.check(c.dependency_graph == graph, lambda: f"dependencies of {spell.show(picked)}: {c.dependency_graph} instead of {graph}")
        ctx.check(c.references == set(graph), lambda: f"classes reachable from {spell.show(picked)}: missing {describe(set(graph) - c.references)}, unexpected {describe(c.references - set(graph))}")
        ctx.count("collectors")


def make(name, text):
    m = types.ModuleType(name)
    sys.modules[name] = m
    exec(text, m.__dict__)
    return m


HEAD = """
import typing
from dataclasses import dataclass, field
from typing import *
from enum import Enum
"""


def check_modules(tag):
    "Names mean what they mean in the module of the class that declares the annotation."
    a = make(f"vp16{tag}a", HEAD + """
class Item:
    a: int
class Secret:
    s: bytes
@dataclass
class Holder:
    item: "Item"
    items: "list[Optional[Item]]" = field(default_factory=list)
class Base:
    x: "Item"
class Pair(NamedTuple):
    first: "Item"
    second: "Annotated[list[Secret], 'Item']"
""")
    b = make(f"vp16{tag}b", HEAD + f"""
from vp16{tag}a import Holder, Base, Pair
class Item:
    b: float
class Secret:
    pass
@dataclass
class Derived(Holder):
    other: "Item" = None
class Plain(Base):
    y: "Union[Item, Pair]"
Alias = Annotated["Item", "Secret"]
Node = list["Node"]
""")
    t = lambda *names: {eval(n, {"a": a, "b": b, "int": int, "float": float, "bytes": bytes, "str": str}) for n in names}
    want = [
        (b.Derived, None, t("b.Derived", "b.Item", "a.Item", "int", "float")),
        (b.Derived, a, t("b.Derived", "b.Item", "a.Item", "int", "float")),
        (b.Plain, None, t("b.Plain", "b.Item", "a.Item", "a.Pair", "a.Secret", "int", "float", "bytes")),
        (b.Plain, a, t("b.Plain", "b.Item", "a.Item", "a.Pair", "a.Secret", "int", "float", "bytes")),
        ("Item", a, t("a.Item", "int")),
        ("Item", b, t("b.Item", "float")),
        (b.Alias, b, t("b.Item", "float")),
        (b.Alias, a, t("a.Item", "int")),
        (list["Optional[Holder]"], b, t("a.Holder", "a.Item", "int")),
        (a.Pair, b, t("a.Pair", "a.Item", "a.Secret", "int", "bytes")),
        (dict[str, list["Secret"]], b, t("b.Secret", "str")),
        ("dict[str, list['Secret']]", a, t("a.Secret", "str", "bytes")),
        (b.Node, b, set()),
        ("Node", b, set()),
    ]
    out = []
    for T, m, w in want:
        try:
            got = get_referenced_types(T, m)
        except Exception as e:
            out.append(f"{T} in {m and m.__name__}: {e!r}")
            continue
        if got != w:
            out.append(f"{T} in {m and m.__name__}: {sorted(map(str, got))} instead of {sorted(map(str, w))}")
    for m in (a, b):
        del sys.modules[m.__name__]
    return out


def names_in_modules(ctx):
    for n in range(3):
        out = check_modules(str(n))
        ctx.check(not out, lambda: "\n".join(out))
        ctx.count("evaluations", 14)


def long_chain(ctx):
    "Classes nested deeper than usual."
    text = HEAD + "".join(f'@dataclass\nclass C{i}:\n    next: "Optional[C{i + 1}]"\n    back: "list[C0]"\n' for i in range(60)) + "class C60:\n    x: bytes\n"
    m = make("vp16chain", text)
    got = get_referenced_types(m.C0)
    want = {getattr(m, f"C{i}") for i in range(61)} | {bytes}
    ctx.check(got == want, lambda: f"missing {describe(want - got)}, unexpected {describe(got - want)}")
    ctx.check(get_referenced_types(m.C30) == want, "reached from the middle of a cycle the classes differ")
    del sys.modules["vp16chain"]
    ctx.count("evaluations", 2)


def all_members(ctx):
    "Every annotated member counts, whatever its name or its type, in every kind of class."
    m = make("vp16members", HEAD + """
import datetime, decimal, ipaddress, uuid
class Hidden:
    a: datetime.date
class Private:
    b: uuid.UUID
class Default:
    c: decimal.Decimal = decimal.Decimal(1)
""")
    types_ = {"object": {object}, "Hidden": {m.Hidden, m.datetime.date}, "list[Private]": {m.Private, m.uuid.UUID}, "'Optional[Default]'": {m.Default, m.decimal.Decimal}, "dict[str, object]": {object, str}, "bytes": {bytes}, "bool": {bool}, "ipaddress.IPv4Address": {m.ipaddress.IPv4Address}, "None": set(), "Exception": None, "Literal['a']": set()}
    names = ["plain", "_hidden", "_", "type_", "class_", "__mangled", "from_", "X", "ő"]
    try:
        n = 0
        for t, want in types_.items():
            if want is None:
                continue
            for name in names:
                for kind in ("@dataclass\nclass {}:\n    {}: {}\n    {}z: int = 0\n", "@dataclass\nclass {}:\n    {}: {} = field(default=None, compare=False, repr=False, metadata=dict(a=1))\n    {}z: int = 0\n", "class {}:\n    {}: {}\n    {}z: int = 0\n", "class {}(Exception):\n    {}: {}\n    {}z: int = 0\n", "@dataclass(slots=True)\nclass {}:\n    {}: {}\n    {}z: int = 0\n", "class {}(NamedTuple):\n    {}: {}\n    {}z: int = 0\n"):
                    if "NamedTuple" in kind and name.startswith("_"):
                        continue
                    n += 1
                    cls = f"M{n}"
                    exec(kind.format(cls, name, t, "z"), m.__dict__)
                    c = getattr(m, cls)
                    ctx.note(definition=kind.format(cls, name, t, "z"))
                    w = want | {c, int}
                    for T in (c, list[c], cls):
                        got = get_referenced_types(T, m)
                        ctx.check(got == w, lambda: f"types referenced by {T}: missing {describe(w - got)}, unexpected {describe(got - w)}")
                        ctx.count("evaluations")
                    ctx.distinct("member", t, name, kind)
        for t, want in types_.items():
            if want is not None:
                for wrap in ("{}", "list[{}]", "Optional[{}]", "tuple[{}, ...]", "tuple[bool, {}]", "dict[str, {}]", "Annotated[{}, 'note']", "Union[{}, bool]"):
                    T = eval(wrap.format(t), m.__dict__)
                    w = want | ({bool} if "bool" in wrap else set()) | ({str} if "dict" in wrap else set())
                    got = get_referenced_types(T, m)
                    ctx.check(got == w, lambda: f"types referenced by {T}: missing {describe(w - got)}, unexpected {describe(got - w)}")
                    ctx.count("evaluations")
    finally:
        del sys.modules[m.__name__]


SCENARIOS = [names_in_modules, long_chain, all_members]


def refused(ctx):
    "What is not a type, or a name that cannot be looked up, is refused at whatever depth instead of left out."
    m = make("vp16refused", HEAD + """
import collections.abc
class Plain:
    a: int
@dataclass
class Data:
    a: "int"
""")
    bad = ["Callable[[int], str]", "Type[Plain]", "type[Plain]", "collections.abc.Sequence[Plain]", "Iterable[int]", "Generator[int, int, int]", "ClassVar[int]"]
    wraps = ["{}", "list[{}]", "dict[str, {}]", "tuple[int, {}]", "Optional[{}]", "Union[int, {}, str]", "Annotated[{}, 'note']", "set[{}]"]
    names = ["NoSuchName", "list[NoSuchName]", "Plain.Inner"]
    ns = m.__dict__
    try:
        for b in bad:
            for w in wraps:
                if b.startswith("ClassVar") and w != "{}":
                    continue
                T = eval(w.format(b), ns)
                kind, e = lab.outcome(get_referenced_types, T, m)
                ctx.check(kind == "E", lambda: f"types referenced by {T}, which is not of a supported form: {e!r}")
                exec(f"@dataclass\nclass Bad:\n    f: {w.format(b)!r}\n" if not b.startswith("ClassVar") else "Bad = ClassVar[int]", ns)
                kind, e = lab.outcome(get_referenced_types, ns["Bad"])
                ctx.check(kind == "E", lambda: f"types referenced by a class with a field {T}, which is not of a supported form: {e!r}")
                ctx.count("evaluations", 2)
                ctx.distinct("refused", w.format(b))
        for n in names:
            for w in wraps:
                T = eval(w.format(repr(n)), ns)
                kind, e = lab.outcome(get_referenced_types, T, m)
                ctx.check(kind == "E" and isinstance(e, (NameError, AttributeError)), lambda: f"types referenced by {T}, with a name that means nothing: {e!r}")
                kind, e = lab.outcome(get_referenced_types, T)
                ctx.check(kind == "E", lambda: f"types referenced by {T}, evaluated nowhere: {e!r}")
                ctx.count("evaluations", 2)
                ctx.distinct("refused", w.format(n))
        for x in (1, 1.5, [int], (int, str), {}, object()):
            kind, e = lab.outcome(get_referenced_types, x, m)
            ctx.check(kind == "E", lambda: f"types referenced by {x!r}, which is not a type: {e!r}")
            ctx.count("evaluations")
        # nothing of this stays behind
        ctx.check(get_referenced_types(list["Data"], m) == {m.Data, int}, "types referenced by list['Data'] after refusals")
    finally:
        del sys.modules[m.__name__]


SCENARIOS.append(refused)
