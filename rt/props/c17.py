"C17: textual names of types."

import decimal
import sys
import types
import typing

from strong_typing import auxiliary
from strong_typing.name import TypeFormatter, python_type_to_name, python_type_to_str

from .. import lab, runner, spell

CASES = {"quick": 16000, "thorough": 400000}
RULE = """A case is a random type expression (built-in, standard and user-defined classes, fixed-width types, containers in built-in
or typing spelling, unions in either notation, optionals, literals of every kind, annotations, callables, generic classes, type
variables, class types, forward references). A monitor evaluates the text printed for it (either union notation, with and without
context, with and without transformations) in a scope that has the names, and compares the result with the original structurally,
including order, annotations and the type of literal values. Simple and forced names are compared with names computed from the
tree that produced the expression. Non-trivial if the expression is composite; distinct by expression."""
ASSUMPTIONS = ["annotations print as the expression that creates them; forward references are resolved before comparison"]

SCOPE = """
import collections.abc, dataclasses, datetime, decimal, enum, ipaddress, types, typing, uuid
from collections.abc import Iterable, Mapping, Sequence, Awaitable
from datetime import date, timedelta, timezone
from decimal import Decimal
from ipaddress import IPv4Address, IPv6Address
from uuid import UUID
from typing import Annotated, Any, Callable, Concatenate, Dict, FrozenSet, Generic, List, Literal, NamedTuple, Optional, ParamSpec, Self, Set, Tuple, Type, TypeVar, Union
from strong_typing.auxiliary import *
from strong_typing.auxiliary import typeannotation

T = TypeVar("T")
K = TypeVar("K", bound=str)
P = ParamSpec("P")

class Local:
    pass

class Box(Generic[T]):
    item: T

class Pair(Generic[T, K]):
    pass

class Outer:
    class Inner:
        pass

Inner = Outer.Inner

@dataclasses.dataclass(frozen=True)
class Point:
    x: int
    y: "Optional[Local]" = None

class Row(NamedTuple):
    a: int

class Color(enum.Enum):
    RED = "red"
    GREEN = "green"
    def __repr__(self):
        return "a color"

class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2

class Mode(str, enum.Enum):
    A = "a"
    def __str__(self):
        return "mode"

@typeannotation
class Unit:
    name: str
    scale: int = 3

@typeannotation
class Mark:
    pass

@dataclasses.dataclass(frozen=True)
class Meta:
    a: tuple
    b: str = "x"

class Problem(Exception):
    pass
"""


def scope():
    m = types.ModuleType("vp17scope")
    sys.modules[m.__name__] = m
    exec(SCOPE, m.__dict__)
    return m


M = None


class N:
    "Node of a type expression."

    def __init__(self, k, src, parts=(), name=None):
        self.k = k
        self.src = src
        self.parts = list(parts)
        self.name = name  # simple name, or None if there is none
        self.comp = None  # name of the composite, if specified

    def __repr__(self):
        return self.src


SIMPLE = ["bool", "int", "float", "str", "bytes", "Local", "Point", "Row", "Color", "Level", "Mode", "Problem", "Inner", "UUID", "Decimal", "date", "timedelta", "IPv4Address", "IPv6Address", "object", "complex", "Unit"]
MODULED = {"datetime.datetime": "datetime", "datetime.time": "time", "uuid.UUID": "UUID", "Outer.Inner": "Inner"}
FIXED = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
LITS = ["'a'", "'b'", "'it\\'s'", "'x]y'", "'\\n'", "''", "1", "-5", "0", "True", "False", "None", "b'q'", "Color.RED", "Color.GREEN", "Level.LOW", "Mode.A"]
METAS = ["'text'", "'two, words'", "7", "-3", "2.5", "(5, 'x')", "Unit('m')", "Unit('k', 9)", "Mark()", "Meta((7,), 'z')", "Meta(())", "Alias('name')", "MaxLength(5)", "MinLength(2)", "Length(4)", "Precision(10, 2)", "TimePrecision(3)", "IntegerRange(-5, 9)", "Storage(4)", "Signed(False)", "None", "b'm'", "Storage(8)"]


def leaf(r):
    k = r.randrange(12)
    if k < 6:
        s = r.choice(SIMPLE)
        return N("class", s, name=s)
    if k == 6:
        s = r.choice(sorted(MODULED))
        return N("class", s, name=MODULED[s])
    if k in (7, 8):
        s = r.choice(FIXED)
        return N("fixed", s, name=s)
    if k == 9:
        return N("any", "Any")
    if k == 10:
        return N("lit", f"Literal[{', '.join(r.sample(LITS, r.choice([1, 1, 2, 3])))}]")
    return N("var", "T")


def build(r, depth):
    if depth <= 0 or r.random() < 0.15:
        return leaf(r)
    sub = lambda: build(r, depth - 1)
    k = r.choice(["list", "set", "frozenset", "dict", "tuple", "seq", "empty", "type", "opt", "union", "union", "ann", "ann", "fixann", "callable", "generic", "abc", "none-arg", "lit"])
    out = None
    if k in ("list", "set", "frozenset"):
        a = sub()
        n = N(k, f"{r.choice({'list': ['list', 'List'], 'set': ['set', 'Set'], 'frozenset': ['frozenset', 'FrozenSet']}[k])}[{a}]", [a])
        n.comp = {"list": "List", "set": "Set", "frozenset": "FrozenSet"}[k]
        return n
    if k == "dict":
        a, b = sub(), sub()
        n = N(k, f"{r.choice(['dict', 'Dict'])}[{a}, {b}]", [a, b])
        n.comp = "Dict"
        return n
    if k == "tuple":
        parts = [sub() for _ in range(r.choice([1, 2, 3, 4]))]
        n = N(k, f"{r.choice(['tuple', 'Tuple'])}[{', '.join(map(str, parts))}]", parts)
        n.comp = "Tuple"
        return n
    if k == "seq":
        a = sub()
        return N(k, f"{r.choice(['tuple', 'Tuple'])}[{a}, ...]", [a])
    if k == "empty":
        return N(k, f"{r.choice(['tuple', 'Tuple'])}[()]")
    if k == "type":
        a = r.choice([leaf(r), N("class", "Local", name="Local")])
        if a.k not in ("class",):
            a = N("class", "int", name="int")
        n = N(k, f"{r.choice(['type', 'Type'])}[{a}]", [a])
        n.comp = "Type"
        return n
    if k == "opt":
        a = sub()
        n = N(k, r.choice([f"Optional[{a}]", f"Union[{a}, None]", f"Union[None, {a}]", f"({a}) | None", f"None | ({a})"]), [a])
        n.comp = "Optional"
        return n
    if k == "union":
        parts = [sub() for _ in range(r.choice([2, 2, 3, 4]))]
        none = r.random() < 0.3
        text = [str(p) for p in parts]
        if none:
            text.insert(r.randint(0, len(text)), "None")
        n = N(k, f"Union[{', '.join(text)}]" if r.random() < 0.5 else " | ".join(f"({t})" for t in text), parts)
        n.comp = "Union"
        return n
    if k == "ann":
        a = sub()
        metas = [r.choice(METAS) for _ in range(r.choice([1, 1, 2, 3]))]
        name = a.name if a.k == "class" else None
        if name == "float" and metas in (["Storage(4)"], ["Storage(8)"]):
            name = {"Storage(4)": "float32", "Storage(8)": "float64"}[metas[0]]
        return N(k, f"Annotated[{a}, {', '.join(metas)}]", [a], name=name)
    if k == "fixann":
        return N(k, f"Annotated[{r.choice(FIXED)}, {', '.join(r.choice(METAS) for _ in range(r.choice([1, 2])))}]")
    if k == "callable":
        a = sub()
        args = r.choice(["...", "P", "[]", f"[{sub()}]", f"[{sub()}, {sub()}]", f"Concatenate[{sub()}, P]"])
        return N(k, f"{r.choice(['Callable', 'collections.abc.Callable'])}[{args}, {a}]", [a])
    if k == "generic":
        return N(k, r.choice([f"Box[{sub()}]", f"Pair[{sub()}, {sub()}]", f"Box[Box[{sub()}]]"]), [leaf(r)])
    if k == "abc":
        return N(k, r.choice([f"Iterable[{sub()}]", f"Mapping[str, {sub()}]", f"Sequence[{sub()}]", f"Awaitable[{sub()}]"]), [leaf(r)])
    if k == "none-arg":
        return N(k, r.choice(["dict[str, None]", "list[None]", "tuple[None, int]", "Callable[[None], None]", "Callable[[], None]", "Box[None]", "set[Any]", "list[Self]", "Optional[Self]"]), [leaf(r)])
    return N("lit", f"Literal[{', '.join(r.sample(LITS, r.choice([1, 2, 3, 4])))}]")


def norm(t):
    return spell.structure(t, M.__dict__)


def simple(node):
    return node.name


def expected_forced(node, T):
    "Name of a composite, or None if unspecified."
    if node.comp is None:
        return None
    if node.k in ("opt", "union"):
        # members may have been merged; use what the expression denotes
        args = typing.get_args(T)
        if typing.get_origin(T) not in (typing.Union, types.UnionType):
            return None
        names = []
        for a in args:
            if a is type(None):
                names.append("NoneType")
                continue
            n = by_object(node, a)
            if n is None:
                return None
            names.append(n)
        if "NoneType" in names and len(names) == 2:
            return "Optional__" + next(n for n in names if n != "NoneType")
        return "Union__" + "__".join(names)
    names = [simple(p) for p in node.parts]
    if None in names:
        return None
    return "__".join([node.comp] + names)


def by_object(node, a):
    for p in node.parts:
        if p.name is not None and norm(eval(p.src, M.__dict__)) == norm(a):
            return p.name
    return None


def printed(ctx, T, how, text, names, want):
    ctx.count("evaluations")
    ctx.count(how)
    runner.forget_types()
    try:
        back = eval(text, dict(names))
    except Exception as e:
        ctx.check(False, f"{how}: text {text!r} does not evaluate: {e!r}")
    ctx.check(norm(back) == want, lambda: f"{how}: text {text!r} is of another type: {norm(back)} instead of {want}")


def case(ctx, i):
    global M
    if M is None:
        M = scope()
    r = ctx.rng
    node = build(r, r.choice([0, 1, 1, 2, 2, 3, 4]))
    ns = M.__dict__
    ctx.note(expression=node.src)
    try:
        T = eval(node.src, ns)
    except TypeError:
        ctx.count("expressions Python refuses")
        return
    ctx.count("kind " + node.k)
    want = norm(T)
    names = {k: v for k, v in ns.items()}
    names.update(datetime=sys.modules["datetime"].datetime, time=sys.modules["datetime"].time, Callable=typing.Callable)
    if "collections.abc.Callable" in node.src and "Callable" in node.src:
        want_ok = "typing" not in node.src
        names["Callable"] = typing.Callable
    for op in (False, True):
        printed(ctx, T, f"union operator {op}", python_type_to_str(T, use_union_operator=op), names, want)
        printed(ctx, T, "in context", TypeFormatter(context=M, use_union_operator=op).python_type_to_str(T), names, want)
    # transformations
    reg, vals = [], []

    def on_type(t):
        reg.append(t)
        return f"TYPE[{len(reg) - 1}]"

    def on_value(v):
        vals.append(v)
        return f"VALUE[{len(vals) - 1}]"

    op = r.random() < 0.5
    text = TypeFormatter(context=r.choice([None, M]), type_transform=on_type, value_transform=on_value, use_union_operator=op).python_type_to_str(T)
    for t in reg:
        ctx.check(isinstance(t, type), lambda: f"transformation is given {t!r}")
    printed(ctx, T, "transformed", text, {**names, "TYPE": reg, "VALUE": vals}, want)
    ctx.count("transformed names", len(reg) + len(vals))
    # string and forward references
    if node.k != "none-arg" or "Self" not in node.src:
        for how, ref in (("string", node.src), ("reference", typing.ForwardRef(node.src)), ("list of string", list[node.src]), ("typed list of string", typing.List[node.src]), ("annotated string", typing.Annotated[node.src, "m"]), ("optional string", typing.Optional[node.src])):
            op = r.random() < 0.5
            ctx.note(expression=node.src, spelling=how)
            printed(ctx, ref, how, TypeFormatter(context=M, use_union_operator=op).python_type_to_str(ref), names, norm(ref))
            reg.clear(), vals.clear()
            text = TypeFormatter(context=M, type_transform=on_type, value_transform=on_value, use_union_operator=op).python_type_to_str(ref)
            for t in reg:
                ctx.check(isinstance(t, type), lambda: f"{how}: transformation is given {t!r}")
            printed(ctx, ref, how + ", transformed", text, {**names, "TYPE": list(reg), "VALUE": list(vals)}, norm(ref))
            ctx.count("transformed names in references", len(reg) + len(vals))
    if node.k == "class" and node.src == node.name:
        for ref in (list[node.src], typing.List[node.src]):
            printed(ctx, ref, "name without context", python_type_to_str(ref), names, norm(list[T]))
    # names
    ctx.note(expression=node.src)
    name_of(ctx, node, T)
    if node.parts:
        ctx.distinct(node.src)
        ctx.sample(lambda: {"expression": node.src, "text": python_type_to_str(T), "operator": python_type_to_str(T, use_union_operator=True)})


def name_of(ctx, node, T):
    for force in (False, True):
        kind, got = lab.outcome(python_type_to_name, T, force=force)
        ctx.count("names")
        same = [n for n in FIXED if hasattr(T, "__metadata__") and norm(getattr(auxiliary, n)) == norm(T)]
        if same:
            ctx.check((kind, got) == ("A", same[0]), lambda: f"simple name of {node} with force={force} is {got!r}, expected {same[0]!r}")
        elif node.name is not None:
            ctx.check((kind, got) == ("A", node.name), lambda: f"simple name of {node} with force={force} is {got!r}, expected {node.name!r}")
        elif node.k in ("lit", "callable", "abc", "generic"):
            ctx.check(kind == "E" and isinstance(got, TypeError), lambda: f"{node} has no simple name, but with force={force} the result is {got!r}")
            ctx.count("refused")
        elif node.comp is not None and typing.get_args(T) and not hasattr(T, "__metadata__"):
            if typing.get_origin(T) is typing.Literal:
                continue  # merged
            if not force:
                ctx.check(kind == "E" and isinstance(got, TypeError), lambda: f"{node} has no simple name, but the result is {got!r}")
                ctx.count("refused")
                continue
            want = expected_forced(node, T)
            if want is not None:
                ctx.check((kind, got) == ("A", want), lambda: f"name of {node} is {got!r}, expected {want!r}")
                ctx.count("composite names")
                ctx.count("composite " + node.comp)
            elif any(p.k in ("lit",) for p in node.parts):
                ctx.check(kind == "E" and isinstance(got, TypeError), lambda: f"{node} has a part without name, but the result is {got!r}")
                ctx.count("refused")


def fixed(ctx):
    "Every fixed-width type, alone and in other types."
    global M
    if M is None:
        M = scope()
    for n in FIXED:
        T = getattr(auxiliary, n)
        ctx.check(python_type_to_str(T) == n and python_type_to_name(T) == n, f"{n} is printed {python_type_to_str(T)!r} and named {python_type_to_name(T)!r}")
        base = T.__origin__
        ctx.check(python_type_to_str(typing.Annotated[T, "x"]) == f"Annotated[{n}, 'x']", f"annotated {n} is printed {python_type_to_str(typing.Annotated[T, 'x'])!r}")
        for other in FIXED:
            U = typing.Annotated[(base, *getattr(auxiliary, other).__metadata__)]
            if base is getattr(auxiliary, other).__origin__:
                continue
            text = python_type_to_str(U)
            ctx.check(norm(eval(text, M.__dict__)) == norm(U), lambda: f"{U} is printed {text!r}")
            ctx.check(python_type_to_name(U) == base.__name__, lambda: f"{U} is named {python_type_to_name(U)!r}")
        meta = T.__metadata__
        for k in range(1, len(meta)):
            for cut in (meta[:k], meta[k:], tuple(reversed(meta))):
                U = typing.Annotated[(base, *cut)]
                if U in [getattr(auxiliary, x) for x in FIXED]:
                    continue
                text = python_type_to_str(U)
                ctx.check(norm(eval(text, M.__dict__)) == norm(U), lambda: f"{U} is printed {text!r}")
                ctx.check(python_type_to_name(U) == base.__name__, lambda: f"{U} is named {python_type_to_name(U)!r}")
                ctx.count("evaluations")


def plain(ctx):
    "Types without arguments."
    for T, text in ((type(None), "None"), (None, "None"), (typing.Any, "Any"), (typing.Self, "Self"), (Ellipsis, "..."), (typing.TypeVar("Q"), "Q"), (list, "list"), (dict, "dict"), (set, "set"), (tuple, "tuple"), (type, "type"), (frozenset, "frozenset"), (object, "object")):
        got = python_type_to_str(T)
        ctx.check(got == text, lambda: f"{T} is printed {got!r}")
    for T in (list, dict, set, tuple, type, object, int, type(None)):
        ctx.check(python_type_to_name(T) == T.__name__ and python_type_to_name(T, force=True) == T.__name__, lambda: f"{T} is named {python_type_to_name(T)!r}")
    ctx.count("evaluations", 21)


def refused(ctx):
    "What is no type has no text, wherever it is."
    m = scope()
    for x in (1, 1.5, {}, (), object(), len, b"x"):
        for T in (x, list[(x,)] if x != () else x, dict[str, list[(x,)]] if x != () else x):
            kind, got = lab.outcome(TypeFormatter(context=m).python_type_to_str, T)
            ctx.check(kind == "E", lambda: f"{T!r} is printed {got!r}")
            kind, got = lab.outcome(python_type_to_name, T)
            if x is not len:
                ctx.check(kind == "E", lambda: f"{T!r} is named {got!r}")
            ctx.count("evaluations", 2)
    for text in ("list[int]", "Optional[Local]", "Local | None", "a b", "typing.Any"):
        for T in (text, list[text], dict[str, list[text]]):
            kind, got = lab.outcome(python_type_to_str, T)
            ctx.check(kind == "E", lambda: f"{T!r}, evaluated nowhere, is printed {got!r}")
            ctx.count("evaluations")
    for name in ("NoSuchName", "list[NoSuchName]"):
        for T in (list[name], typing.Optional[typing.ForwardRef(name)]):
            kind, got = lab.outcome(TypeFormatter(context=m).python_type_to_str, T)
            ctx.check(kind == "E" and isinstance(got, NameError), lambda: f"{T!r}, a name that means nothing, is printed {got!r}")
            ctx.count("evaluations")


def combinations(ctx):
    "Every generic type of up to three simple arguments, repeated ones and None included: its text and its forced name."
    import itertools

    simple = {int: "int", str: "str", bool: "bool", type(None): "None", decimal.Decimal: "Decimal", auxiliary.int8: "int8", bytes: "bytes"}
    named = {**simple, type(None): "NoneType"}
    space = {**vars(typing), "Decimal": decimal.Decimal, "int8": auxiliary.int8}
    made = {}
    for n in (1, 2, 3):
        for args in itertools.product(simple, repeat=n):
            texts, names = [simple[a] for a in args], [named[a] for a in args]
            todo = [(tuple[args], f"tuple[{', '.join(texts)}]", "Tuple__" + "__".join(names))]
            if n == 1:
                todo += [(list[args], f"list[{texts[0]}]", f"List__{names[0]}"), (set[args], f"set[{texts[0]}]", f"Set__{names[0]}"), (frozenset[args], f"frozenset[{texts[0]}]", f"FrozenSet__{names[0]}"), (type[args], f"type[{texts[0]}]", f"Type__{names[0]}")]
            elif n == 2:
                todo += [(dict[args], f"dict[{', '.join(texts)}]", "Dict__" + "__".join(names))]
            if len(set(args)) == n > 1:
                none = type(None) in args
                if none and n == 2:
                    k = next(i for i in (0, 1) if args[i] is not type(None))
                    todo.append((typing.Union[args], f"Optional[{texts[k]}]", f"Optional__{names[k]}"))
                else:
                    todo.append((typing.Union[args], f"Union[{', '.join(texts)}]", "Union__" + "__".join(names)))
            for T, text, name in todo:
                for clear in typing._cleanups:
                    clear()
                got = python_type_to_str(T)
                ctx.check(eval(got, space) == eval(text, space), lambda: f"{T} is printed {got!r}")
                got = python_type_to_name(T, force=True)
                ctx.check(got == name, lambda: f"forced name of {T} is {got!r}, expected {name!r}")
                ctx.check(made.setdefault(got, T) == T, lambda: f"{T} and {made[got]} have the same forced name {got!r}")
                kind, got = lab.outcome(python_type_to_name, T)
                ctx.check(kind == "E" and isinstance(got, TypeError), lambda: f"{T} has no simple name but is named {got!r}")
                ctx.count("evaluations", 3)


SCENARIOS = [fixed, plain, refused, combinations]
