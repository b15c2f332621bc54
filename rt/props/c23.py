"C23: values and types that JSON cannot represent are refused."

import collections
import dataclasses
import datetime
import decimal
import enum
import sys

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.serialization import json_dump_string, json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from .. import lab, runner

CASES = {"quick": 12000, "thorough": 300000}
RULE = """Two kinds of cases. (1) A value is built twice from the same random choices, once with an ordinary leaf and once with one that
JSON cannot represent (a function, lambda, coroutine function, bound or built-in method, method of a class, class with any metaclass,
module, a decimal that is not finite, or a timestamp without time zone) at one place of a random nesting of lists, sets, tuples, mappings, data classes (frozen,
slotted), named tuples, annotated and plain objects, exceptions, optionals and unions; the ordinary value must be written, the other
refused, in either order and repeatedly. (2) A type for which no reader or writer can exist is put at a random place of a type
expression; its readers and writers must be refused at each use, before and after successful uses of other types and with different
options. Non-trivial if an error was observed; distinct by value or type and entry point."""
ASSUMPTIONS = [
    "values are of the declared type of the field that has them, i.e. a function in a field declared an integer is out of scope",
    "a bound method that is an attribute of an object without annotations is not part of its data",
]

SRC = """
import collections, collections.abc, dataclasses, datetime, decimal, enum, ipaddress, typing, types, uuid
from typing import *
from strong_typing.auxiliary import Alias, int8, MaxLength

T = TypeVar("T"); P = ParamSpec("P"); UserId = NewType("UserId", int)

class Mixed(enum.Enum):
    A = 1
    B = "b"
class Ints(enum.Enum):
    A = 1
    B = 2
class IntsE(enum.IntEnum):
    A = 1
class Floats(enum.Enum):
    A = 1.5
class Strs(enum.Enum):
    A = "a"
    B = "b"
class StrsE(str, enum.Enum):
    A = "a"
@dataclasses.dataclass(frozen=True)
class Key:
    x: int = 0
"""

# ------------------------------------------------------------------------------------------------------------------
# values


class Meta(type):
    pass


class Plain:
    def method(self):
        pass

    @classmethod
    def of(cls):
        pass

    @staticmethod
    def static():
        pass


class Loose:
    def method(self):
        pass


class WithMeta(metaclass=Meta):
    pass


class Color(enum.Enum):
    RED = "red"


@dataclasses.dataclass
class Data:
    x: int = 0


async def coroutine():
    pass


def generator():
    yield


def function():
    pass


UTC = datetime.timezone.utc
INFINITE = [decimal.Decimal("NaN"), decimal.Decimal("Infinity"), decimal.Decimal("-Infinity"), decimal.Decimal("-NaN12")]
FINITE = [decimal.Decimal("1.5"), decimal.Decimal(0), decimal.Decimal("1E+5"), decimal.Decimal("-0.25")]
NAIVE = [datetime.datetime(2024, 1, 2, 3, 4, 5), datetime.datetime.min, datetime.datetime.max, datetime.datetime(1970, 1, 1), datetime.datetime(2024, 10, 27, 2, 30, fold=1), datetime.datetime(2000, 1, 1, 0, 0, 0, 1)]
AWARE = [datetime.datetime(2024, 1, 2, 3, 4, 5, tzinfo=UTC), datetime.datetime(1999, 12, 31, tzinfo=datetime.timezone(datetime.timedelta(hours=-5, minutes=-30)))]
EXOTIC = {
    "function": lambda: function,
    "lambda": lambda: (lambda: 0),
    "coroutine function": lambda: coroutine,
    "generator function": lambda: generator,
    "static method": lambda: Plain.static,
    "method of class": lambda: Plain.method,
    "bound method": lambda: Plain().method,
    "class method": lambda: Plain.of,
    "built-in function": lambda: len,
    "built-in method": lambda: [].append,
    "method of built-in class": lambda: str.upper,
    "slot wrapper": lambda: str.__len__,
    "method wrapper": lambda: "".__len__,
    "class": lambda: Plain,
    "built-in class": lambda: int,
    "exception class": lambda: ValueError,
    "class of classes": lambda: type,
    "class with metaclass": lambda: WithMeta,
    "enumeration class": lambda: Color,
    "module": lambda: sys,
    "module of package": lambda: collections,
    "data class": lambda: Data,
    "decimal that is not a number": lambda: INFINITE[0],
    "infinite decimal": lambda: INFINITE[1],
    "negative infinite decimal": lambda: INFINITE[2],
}

GOOD = [0, 1, -5, 2.5, "", "text", True, b"x", AWARE[0], datetime.date(2020, 1, 1), datetime.time(1, 2), Color.RED]

def dynamic(r, leaf, depth, m, hashable):
    "Wraps a function that makes the leaf into one that makes a container or object without declared item type around it."
    if depth == 0:
        return leaf
    others = [r.choice(GOOD) for _ in range(r.choice([0, 0, 1, 2, 4]))]
    at = r.randint(0, len(others))
    put = lambda x: others[:at] + [x] + others[at:]
    choices = ["list", "tuple", "dict", "untyped", "exception", "bare namedtuple", "kwargs"]
    if hashable:
        choices.append("set")
        choices.append("tuple")
    k = r.choice(choices)
    if k == "list":
        make, h = lambda: put(leaf()), False
    elif k == "tuple":
        make, h = lambda: tuple(put(leaf())), hashable
    elif k == "set":
        make, h = lambda: set(put(leaf())), False
    elif k == "dict":
        keys = r.sample(["a", "b", "", "key", Color.RED, "7", "class"], len(others) + 1)
        make, h = lambda: dict(zip(keys, put(leaf()))), False
    elif k == "untyped":
        name = r.choice(["value", "a", "zz", "from_", "data1"])

        def make():
            o = Loose()
            for i, x in enumerate(others):
                setattr(o, f"m{i}", x)
            setattr(o, name, leaf())
            return o

        h = True
    elif k == "kwargs":
        cls = type("Attr", (), {"m": 1})

        def make():
            o = cls()
            o.value = leaf()
            return o

        h = True
    elif k == "exception":
        make, h = (lambda: ValueError(*put(leaf()))), True
    else:
        nt = collections.namedtuple("NT", [f"f{i}" for i in range(len(others) + 1)])
        make, h = (lambda: nt(*put(leaf()))), hashable
    return dynamic(r, make, depth - 1, m, h)


STYLES = {
    "dataclass": "@dataclasses.dataclass\nclass {n}:\n",
    "frozen": "@dataclasses.dataclass(frozen=True)\nclass {n}:\n",
    "slots": "@dataclasses.dataclass(slots=True)\nclass {n}:\n",
    "kwonly": "@dataclasses.dataclass(kw_only=True)\nclass {n}:\n",
    "namedtuple": "class {n}(NamedTuple):\n",
    "plain": "class {n}:\n",
    "exception": "class {n}(Exception):\n",
}


def typed(r, src, make, depth, classes, hashable=True):
    "Declared type and maker of a value around a timestamp."
    if depth == 0:
        return src, make
    k = r.choice(["list", "dict", "edict", "tuple", "optional", "union", "annotated", "class", "class", "class"] + (["set"] if hashable else []))
    n = r.randint(0, 2)
    if k == "list":
        return typed(r, f"{r.choice(['list', 'List'])}[{src}]", lambda x: [make(False) for _ in range(n)] + [make(x)], depth - 1, classes, False)
    if k == "set":
        return typed(r, f"{r.choice(['set', 'Set'])}[{src}]", lambda x: {make(x)}, depth - 1, classes, False)
    if k == "dict":
        return typed(r, f"{r.choice(['dict', 'Dict'])}[str, {src}]", lambda x: {**{f"k{i}": make(False) for i in range(n)}, "z": make(x)}, depth - 1, classes, False)
    if k == "edict":
        return typed(r, f"dict[Strs, {src}]", lambda x, m=classes: {m["module"].Strs.A: make(x)}, depth - 1, classes, False)
    if k == "tuple":
        if r.random() < 0.5:
            return typed(r, f"{r.choice(['tuple', 'Tuple'])}[int, {src}]", lambda x: (1, make(x)), depth - 1, classes, hashable)
        return typed(r, f"{r.choice(['tuple', 'Tuple'])}[{src}, str, {src}]", lambda x: (make(False), "", make(x)), depth - 1, classes, hashable)
    if k == "optional":
        return typed(r, f"Optional[{src}]", make, depth - 1, classes, hashable)
    if k == "union":
        return typed(r, f"Union[{src}, int]", make, depth - 1, classes, hashable)
    if k == "annotated":
        return typed(r, f"Annotated[{src}, 'note']", make, depth - 1, classes, hashable)
    style = r.choice(sorted(STYLES))
    name = f"C{len(classes['names'])}"
    classes["names"].append(name)
    fields = ["field", "when_", "class_", "a"]
    r.shuffle(fields)
    field, other = fields[:2]
    spec = src
    if r.random() < 0.3:
        spec = f"Annotated[{src}, Alias('re-named')]"
    elif r.random() < 0.3:
        spec = repr(src)
    lines = [f"    {field}: {spec}\n", f"    {other}: Optional[int]\n"]
    if r.random() < 0.5:
        lines.reverse()
    classes["text"].append(STYLES[style].format(n=name) + "".join(lines))

    def build(x):
        cls = getattr(classes["module"], name)
        v = {field: make(x), other: None}
        if style in ("plain", "exception"):
            o = cls()
            for a, b in v.items():
                setattr(o, a, b)
            return o
        return cls(**v)

    return typed(r, name, build, depth - 1, classes, style in ("plain", "exception") or style in ("frozen", "namedtuple") and hashable)


def refused(ctx, what, f):
    kind, e = lab.outcome(f)
    ctx.count("assertions")
    if kind != "E":
        ctx.fail(f"{what}: not refused, result is {runner.clip(repr(e), 300)}")
    if isinstance(e, (RecursionError, MemoryError, SystemError)):
        ctx.fail(f"{what}: fails with {e!r}")
    ctx.count("refusals")
    ctx.cover([f"{type(e).__name__}"])
    return e


def written(ctx, what, f):
    kind, e = lab.outcome(f)
    ctx.count("assertions")
    if kind != "A":
        ctx.fail(f"{what}: a value without anything exotic is refused: {e!r}")
    return e


def values_dynamic(ctx, r):
    depth = r.choice([0, 1, 1, 2, 2, 3, 5])
    naive = r.random() < 0.3
    if naive:
        name, bad = "naive timestamp", r.choice(NAIVE)
        make_bad = lambda: bad
    else:
        name = r.choice(sorted(EXOTIC))
        make_bad = EXOTIC[name]
    good = r.choice(GOOD)
    state = r.getstate()
    bad_value = dynamic(r, make_bad, depth, None, True)()
    r.setstate(state)
    if name in ("bound method", "class method", "built-in function", "built-in method", "method wrapper"):
        if depth and attribute(bad_value):
            return  # methods are not part of the data of an object
    good_value = dynamic(r, lambda: good, depth, None, True)()
    ctx.note(kind=name, value=lambda: repr(bad_value))
    ctx.cover([name, f"depth {depth}"])
    order = [False, True] * r.choice([1, 1, 2])
    r.shuffle(order)
    api = r.randrange(3)
    for bad_now in order:
        v = bad_value if bad_now else good_value
        write = [lambda: object_to_json(v), lambda: json_dump_string(object_to_json(v)), lambda: create_serializer(type(v)).generate(v)][api]
        if bad_now:
            refused(ctx, f"writing {name} in {v!r}", write)
        else:
            written(ctx, f"writing {v!r}", write)
    ctx.distinct("dynamic", name, shape(bad_value), api)
    ctx.sample(lambda: {"value": repr(bad_value), "kind": name, "error": repr(lab.outcome(lambda: object_to_json(bad_value))[1])})


def attribute(v):
    "Whether a method is directly an attribute of a plain object somewhere."
    if isinstance(v, (list, tuple, set)):
        return any(map(attribute, v))
    if isinstance(v, dict):
        return any(map(attribute, v.values()))
    if isinstance(v, BaseException):
        return any(map(attribute, v.args))
    if hasattr(v, "__dict__") and not isinstance(v, (type, type(sys))) and not callable(v):
        return any(callable(x) or attribute(x) for x in vars(v).values())
    return False


def shape(v):
    if isinstance(v, (list, tuple, set)):
        return [type(v).__name__, *(shape(x) for x in v)] if not isinstance(v, set) else ["set", len(v)]
    if isinstance(v, dict):
        return {str(k): shape(x) for k, x in v.items()}
    return type(v).__name__


def values_typed(ctx, r):
    leaf = "datetime.datetime"
    bad, good = r.choice(NAIVE), r.choice(AWARE)
    if r.random() < 0.25:
        leaf = "decimal.Decimal"
        bad, good = r.choice(INFINITE), r.choice(FINITE)
    classes = {"names": [], "text": [], "module": None}
    depth = r.choice([1, 1, 2, 2, 3, 4])
    src, make = typed(r, r.choice([leaf, repr(leaf)]) if depth else leaf, lambda x: bad if x else good, depth, classes)
    m = lab.load(SRC + "\n".join(classes["text"]) + f"\nROOT = {src}\n")
    classes["module"] = m
    ctx.note(type=src, source="\n".join(classes["text"]), value=lambda: repr(make(True)))
    ctx.cover([f"typed {leaf}", f"depth {depth}"])
    order = [False, True] * r.choice([1, 1, 2])
    r.shuffle(order)
    if r.random() < 0.3:
        gen = create_serializer(m.ROOT, m)
        write = gen.generate
    elif r.random() < 0.5:
        write = lambda v: create_serializer(m.ROOT, m).generate(v)
    else:
        write = object_to_json
    for bad_now in order:
        v = make(bad_now)
        if bad_now:
            refused(ctx, f"writing {bad!r} in {v!r} of type {src}", lambda: write(v))
        else:
            written(ctx, f"writing {v!r} of type {src}", lambda: write(v))
    ctx.distinct("typed", src, classes["text"], bad)
    lab.unload(m)


# ------------------------------------------------------------------------------------------------------------------
# types

KEYS = ["int", "float", "bool", "bytes", "Key", "Mixed", "Ints", "IntsE", "Floats", "datetime.date", "datetime.datetime", "decimal.Decimal", "uuid.UUID", "tuple[str, str]"]
BOTH = (
    [f"dict[{k}, {v}]" for k in KEYS for v in ("int", "str", "list[str]")]
    + [f"Dict[{k}, {v}]" for k in KEYS for v in ("int",)]
    + ["Literal[1, 'a']", "Literal['a', 1]", "Literal[1, True]", "Literal[False, 0]", "Literal['a', b'a']", "Literal[1, None]", "Literal['a', 'b', 'c', 4]", "Literal[1, 2, 3, 'd']", "Literal[Strs.A, 'a']"]
    + "Callable|Callable[[int], str]|Callable[..., Any]|collections.abc.Callable[[], int]|Iterable[int]|Iterable|collections.abc.Iterable[int]|Mapping[str, int]|collections.abc.Mapping[str, int]|Sequence[int]|collections.abc.Sequence[str]|MutableMapping[str, int]|Type[int]|type[int]|T|P|UserId|Self|Never|NoReturn|LiteralString|Any|TypeGuard[int]|Iterator[int]|Deque[int]|DefaultDict[str, int]|Counter[str]|OrderedDict[str, int]|collections.OrderedDict[str, int]|collections.deque[int]|AnyStr|Awaitable[int]|frozenset[int]|FrozenSet[str]|AbstractSet[int]".split("|")
)
TOP = ["ClassVar[int]", "Final[int]", "Final", "Required[int]", "NotRequired[int]", "Union", "Optional", "Concatenate"]
READ = ["list", "dict", "set", "tuple", "List", "Dict", "Set", "Tuple"]


def embed(r, src, depth, reader, classes):
    "A type expression that has the given one as a part; returns it and whether a writer must look at the part."
    if depth == 0:
        return src
    k = r.choice(["list", "dict", "edict", "set", "tuple", "annotated", "optional", "class", "class"] + (["union"] if reader else []))
    if src in ("Never", "NoReturn") and k in ("optional", "union"):
        k = "list"
    if k == "optional" and not reader:
        k = "list"
    if k == "optional":
        out = f"Optional[{src}]"
    elif k == "union":
        out = r.choice([f"Union[{src}, int]", f"Union[int, {src}]", f"Union[str, {src}, bool]"])
    elif k == "list":
        out = f"{r.choice(['list', 'List'])}[{src}]"
    elif k == "set":
        out = f"{r.choice(['set', 'Set'])}[{src}]"
    elif k == "dict":
        out = f"{r.choice(['dict', 'Dict'])}[str, {src}]"
    elif k == "edict":
        out = f"dict[{r.choice(['Strs', 'StrsE'])}, {src}]"
    elif k == "tuple":
        out = r.choice([f"tuple[{src}]", f"Tuple[int, {src}]", f"tuple[{src}, str]"])
    elif k == "annotated":
        out = f"Annotated[{src}, 'note']"
    else:
        name = f"C{len(classes)}"
        style = r.choice(["dataclass", "frozen", "slots", "kwonly", "namedtuple", "plain"])
        lines = [f"    bad: {src if r.random() < 0.7 else repr(src)}\n", "    other: int\n"]
        r.shuffle(lines)
        classes.append((name, style, STYLES[style].format(n=name) + "".join(lines)))
        return embed(r, name, depth - 1, reader, classes) if r.random() < 0.6 else name
    return embed(r, out, depth - 1, reader, classes)


def types(ctx, r):
    reader = r.random() < 0.55
    bad = r.choice(BOTH + READ * 3 if reader else BOTH)
    if r.random() < 0.05:
        bad, depth = r.choice(TOP), 0
    else:
        depth = r.choice([0, 1, 1, 2, 3])
    classes = []
    src = embed(r, bad, depth, reader, classes)
    text = SRC + "\n".join(c[2] for c in classes) + f"\nROOT = {src}\n"
    try:
        m = lab.load(text)
    except TypeError as e:
        # Python itself refuses the expression
        ctx.count("expression refused by Python")
        return
    ctx.note(bad=bad, type=src, source="\n".join(c[2] for c in classes), direction="read" if reader else "write")
    ctx.cover([bad])
    T = m.ROOT
    repeat = r.choice([1, 2, 3])
    neighbours = ["list[int]", "dict[str, int]", "dict[Strs, int]", "Literal[1, 2]", "Literal['a', 'b']", "set[str]", "tuple[int, str]", "Optional[int]", "Key"]
    for _ in range(repeat):
        if r.random() < 0.4:
            t = eval(r.choice(neighbours), vars(m))
            written(ctx, f"type {t}", lambda: (create_serializer(t, m), create_deserializer(t, m)))
        if reader:
            opts = r.choice([DeserializerOptions(), DeserializerOptions(skip_unassigned=True), None])
            doc = r.choice([{}, [], None, 1, "a", {"a": 1}, {"bad": None, "other": 1}, {"bad": {}, "other": 1}, {"bad": [], "other": 1}, {"bad": 1, "other": 1}, [[]], [{}], ["a"]])
            kind = r.randrange(4)
            if kind == 0:
                f = lambda: create_deserializer(T, m, opts) if opts else create_deserializer(T, m)
            elif kind == 1:
                f = lambda: json_to_object(T, doc, context=m)
            elif kind == 2:
                f = lambda: (json_to_generic(T, doc, context=m))
            else:
                f = lambda: create_deserializer(T, m).parse(doc)
            refused(ctx, f"reading type {src} that has {bad}", f)
        elif not classes:
            refused(ctx, f"writer of type {src} that has {bad}", lambda: create_serializer(T, m))
        else:
            # the innermost class that has the type as a field
            name, style, _ = classes[0]
            cls = getattr(m, name)
            value = r.choice([None, 0, "a", [], {}, {"a": 1}, {1: 2}])
            if style == "plain":
                v = cls()
                v.bad, v.other = value, 1
            else:
                v = cls(bad=value, other=1)
            f = r.choice([lambda: object_to_json(v), lambda: object_to_json([v]), lambda: object_to_json({"a": (v,)}), lambda: create_serializer(cls).generate(v), lambda: json_dump_string(object_to_json(v))])
            refused(ctx, f"writing {v!r} of class {name} whose field is of type {bad}", f)
    ctx.distinct("type", reader, bad, src, [c[2] for c in classes])
    ctx.sample(lambda: {"type": src, "classes": [c[2] for c in classes], "refused": bad, "times": repeat, "by": "reader" if reader else "writer"})
    lab.unload(m)


def case(ctx, i):
    r = ctx.rng
    p = r.random()
    if p < 0.35:
        values_dynamic(ctx, r)
    elif p < 0.55:
        values_typed(ctx, r)
    else:
        types(ctx, r)


def each_value(ctx):
    for name, make in EXOTIC.items():
        for _ in range(2):
            v = make()
            refused(ctx, f"writing {name}", lambda: object_to_json(v))
            refused(ctx, f"writing {name} in a list", lambda: object_to_json([1, [v]]))
            refused(ctx, f"writing {name} in a mapping", lambda: object_to_json({"a": {"b": v}}))
            refused(ctx, f"writing {name} in a tuple", lambda: object_to_json((v, 1)))
            refused(ctx, f"writing {name} in a set", lambda: object_to_json({v}))
            refused(ctx, f"writing {name} in an exception", lambda: object_to_json(ValueError(v)))
    for v in NAIVE + INFINITE + [decimal.Decimal("sNaN")]:
        refused(ctx, f"writing {v!r}", lambda: object_to_json(v))
        if type(v) is decimal.Decimal and v.is_snan():
            continue
        refused(ctx, f"writing {v!r}", lambda: object_to_json({v}))
    ctx.distinct("each value")


def each_type(ctx):
    m = lab.load(SRC)
    for src in BOTH + TOP + READ:
        t = eval(src, vars(m))
        for _ in range(2):
            refused(ctx, f"reading {src}", lambda: create_deserializer(t, m))
            if src not in READ:
                refused(ctx, f"writing {src}", lambda: create_serializer(t, m))
        ctx.distinct("each type", src)
    lab.unload(m)


SCENARIOS = [each_value, each_type]
