"C24: annotation classes, enumeration extension, dynamic classes, fixed-width types."

import copy
import dataclasses
import enum
import pickle
import sys
import types
import typing

from strong_typing import auxiliary as A
from strong_typing import inspection as I

from .. import lab, runner

CASES = {"quick": 12000, "thorough": 300000}
RULE = """A case is one of: random annotation classes (several fields, defaults, nested annotations, inheritance, with and without
arguments to the decorator) with random contents, on which a monitor tries every way of changing them and compares equality, hash,
order and text with those of the contents; a random pair of enumerations combined into one; a random data class, module or object
created dynamically; a random annotated type (a fixed-width type, a part, a reordering, an extension or a modification of one)
whose recognized format is compared with the definition. Non-trivial if there is at least one field, member or annotation;
distinct by content."""
ASSUMPTIONS = ["annotation classes have positional fields whose values are themselves immutable and hashable"]

BUILTIN = {
    "Alias": ["str"], "Signed": ["bool"], "Storage": ["int"], "IntegerRange": ["int", "int"], "Precision": ["int", "int?0"], "TimePrecision": ["int?0"],
    "Length": ["int"], "MinLength": ["int"], "MaxLength": ["int"], "SpecialConversion": [],
}
FIXED = {
    "int8": "int|Signed(True)|Storage(1)|IntegerRange(-128, 127)",
    "int16": "int|Signed(True)|Storage(2)|IntegerRange(-32768, 32767)",
    "int32": "int|Signed(True)|Storage(4)|IntegerRange(-2147483648, 2147483647)",
    "int64": "int|Signed(True)|Storage(8)|IntegerRange(-9223372036854775808, 9223372036854775807)",
    "uint8": "int|Signed(False)|Storage(1)|IntegerRange(0, 255)",
    "uint16": "int|Signed(False)|Storage(2)|IntegerRange(0, 65535)",
    "uint32": "int|Signed(False)|Storage(4)|IntegerRange(0, 4294967295)",
    "uint64": "int|Signed(False)|Storage(8)|IntegerRange(0, 18446744073709551615)",
    "float32": "float|Storage(4)",
    "float64": "float|Storage(8)",
}


def scalar(r, k):
    return {
        "str": lambda: r.choice(["", "a", "b", "it's", 'q"', "x, y", "\n", "é"]),
        "int": lambda: r.choice([0, 1, -1, 5, 255, 2**63, -(2**40)]),
        "bool": lambda: r.random() < 0.5,
        "float": lambda: r.choice([0.5, 1e100, -2.25]),
        "tuple": lambda: r.choice([(), (3,), (4, "x")]),
        "none": lambda: None,
        "nested": lambda: r.choice([A.Alias("n"), A.Length(4), A.IntegerRange(2, 3)]),
    }[k]()


def make_class(r, name, base=None):
    "Class definition: (source, [(field, kind, default or missing)])."
    fields = list(base[1]) if base else []
    lines = []
    opt = any(d is not None for _, _, d in fields)
    for n in r.sample(["value", "minimum", "name", "other", "bytes", "unit", "x"], r.choice([0, 1, 1, 2, 3])):
        if n in [f for f, _, _ in fields]:
            continue
        k = r.choice(["str", "int", "bool", "float", "tuple", "none", "nested"])
        d = None
        if opt or r.random() < 0.35:
            opt = True
            d = (scalar(r, k),)
        fields.append((n, k, d))
        lines.append(f"    {n}: object" + (f" = {d[0]!r}" if d else ""))
    deco, order = r.choice([("@typeannotation", False), ("@typeannotation()", False), ("@typeannotation(eq=True)", False), ("@typeannotation(order=True)", True), ("@typeannotation(eq=True, order=False)", False)])
    body = lines or ["    pass"]
    if r.random() < 0.3:
        body = ['    "Description."'] + body
    return "\n".join([deco, f"class {name}{'(' + base[2] + ')' if base else ''}:"] + body), fields, name, order


def annotations(ctx, r):
    ns = dict(A.__dict__)
    ns["__name__"] = "vp24"
    base = make_class(r, "Base")
    defs = [base]
    defs.append(make_class(r, "Derived", base if r.random() < 0.4 else None))
    if r.random() < 0.5:
        n = r.choice(sorted(BUILTIN))
        fs = [(f.name, k.split("?")[0], (0,) if "?" in k else None) for f, k in zip(dataclasses.fields(getattr(A, n)), BUILTIN[n])]
        ctx.check(len(fs) == len(BUILTIN[n]), lambda: f"{n} has fields {fs}")
        defs.append((None, fs, n, False))
    for src, _, name, _ in defs:
        if src is not None:
            ctx.note(definition="\n".join(d[0] for d in defs if d[0]))
            exec(src, ns)
    instances = []
    for src, fields, name, order in defs:
        cls = ns[name]
        ctx.check(isinstance(cls, type) and cls.__name__ == name, lambda: f"decorated class is {cls!r}")
        for _ in range(3):
            vals = [scalar(r, k) for _, k, _ in fields]
            used = len(vals)
            while used and fields[used - 1][2] is not None and r.random() < 0.4:
                used -= 1
                vals[used] = fields[used][2][0]
            if r.random() < 0.3:
                kind, obj = lab.outcome(cls, **{f: v for (f, _, _), v in zip(fields, vals[:used])})
            else:
                kind, obj = lab.outcome(cls, *vals[:used])
            ctx.check(kind == "A", lambda: f"{name} cannot be created from {vals[:used]}: {obj!r}")
            instances.append((name, cls, fields, vals, obj, order))
    if r.random() < 0.5:
        name, cls, fields, vals, obj, order = r.choice(instances)
        instances.append((name, cls, fields, vals, cls(*copy.deepcopy(vals)), order))
    for name, cls, fields, vals, obj, order in instances:
        ctx.count("evaluations")
        ctx.note(object=repr(obj))
        ctx.check([getattr(obj, f) for f, _, _ in fields] == vals, lambda: f"{obj!r} does not have the contents {vals}")
        want = f"{name}({', '.join(repr(v) for v in vals)})"
        ctx.check(repr(obj) == want, lambda: f"text is {obj!r}, expected {want}")
        back = eval(repr(obj), dict(ns))
        ctx.check(back == obj and type(back) is cls and hash(back) == hash(obj), lambda: f"{obj!r} evaluates to another value")
        h = hash(obj)
        for f, _, _ in fields:
            for change in (lambda: setattr(obj, f, getattr(obj, f)), lambda: setattr(obj, f, 99), lambda: delattr(obj, f)):
                kind, e = lab.outcome(change)
                ctx.check(kind == "E" and isinstance(e, AttributeError), lambda: f"field {f} of {obj!r} can be changed")
        kind, e = lab.outcome(setattr, obj, "brand_new", 1)
        ctx.check(kind == "E" and isinstance(e, AttributeError), lambda: f"{obj!r} accepts a new attribute")
        ctx.check([getattr(obj, f) for f, _, _ in fields] == vals and hash(obj) == h, lambda: f"{obj!r} was changed")
        ctx.check(copy.copy(obj) == obj and copy.deepcopy(obj) == obj, lambda: f"a copy of {obj!r} differs")
        ctx.check(typing.get_args(typing.Annotated[int, obj])[1] is not None and obj in {obj: 1}, "annotation cannot be a key")
        if fields:
            ctx.distinct("annotation", [(f, k) for f, k, _ in fields], repr(vals))
    for name, cls, fields, vals, obj, order in instances:
        for name2, cls2, _, vals2, obj2, _ in instances:
            w = cls is cls2 and vals == vals2
            ctx.check((obj == obj2) is w and (obj != obj2) is not w, lambda: f"{obj!r} == {obj2!r} is {obj == obj2}")
            ctx.count("comparisons")
            if w:
                ctx.check(hash(obj) == hash(obj2) and len({obj, obj2}) == 1, lambda: f"equal annotations {obj!r} and {obj2!r} have different hashes")
            if order and cls is cls2 and all(type(a) is type(b) and isinstance(a, (str, int, float, bool)) for a, b in zip(vals, vals2)):
                for op in ("__lt__", "__le__", "__gt__", "__ge__"):
                    ctx.check(getattr(obj, op)(obj2) is getattr(tuple(vals), op)(tuple(vals2)), lambda: f"{obj!r} {op} {obj2!r} is not the order of their contents")
            if not any(o for *_, o in instances):
                kind, e = lab.outcome(lambda: obj < obj2)
                ctx.check(kind == "E" and isinstance(e, TypeError), lambda: f"{obj!r} and {obj2!r} are ordered, although not asked for")
        for other in (1, None, tuple(vals), repr(obj)):
            ctx.check(obj != other and not obj == other, lambda: f"{obj!r} equals {other!r}")
    if r.random() < 0.3:
        p = A.Precision(scalar(r, "int"), scalar(r, "int"))
        ctx.check(p.integer_digits == p.significant_digits - p.decimal_digits, lambda: f"integer digits of {p!r}")


COUNTER = [0]


def extension(ctx, r):
    COUNTER[0] += 1
    name = f"vp24enum{COUNTER[0]}"
    m = types.ModuleType(name)
    m.__dict__.update(enum=enum, extend_enum=I.extend_enum, typing=typing)
    sys.modules[name] = m
    try:
        names = r.sample(["A", "B", "C", "RED", "x", "_y", "d1", "Z", "mro_", "value_", "name1"], 8)
        values = ["a", "b", 1, 2, 3, "1", (1, 2), 2.5, True, None, "", "A", b"x"]
        n1, n2 = r.randint(0, 4), r.randint(0, 4)
        pool = list(values)
        r.shuffle(pool)
        pool = [v for i, v in enumerate(pool) if not any(v == w for w in pool[:i])]  # distinct
        first = list(zip(names[:n1], pool[:n1]))
        second = list(zip(names[n1 : n1 + n2], pool[n1 : n1 + n2]))
        dup = bool(first and second) and r.random() < 0.35
        if dup:
            i = r.randrange(len(second))
            second[i] = (second[i][0], r.choice(first)[1])
            if any(v == second[i][1] for j, (_, v) in enumerate(second) if j != i):
                return
        doc = r.choice([None, "Text of the new enumeration."])
        body = lambda ms: "".join(f"    {n} = {v!r}\n" for n, v in ms) or "    pass\n"
        src = f"class Old(enum.Enum):\n    'Old text.'\n{body(first)}\nKeep = Old\n"
        src2 = f"@extend_enum(Old)\nclass New(enum.Enum):\n{'    ' + repr(doc) + chr(10) if doc else ''}{body(second)}\n"
        if r.random() < 0.3:
            src += "\n".join(["class Mixin(str, enum.Enum):", "    OTHER = 'o'", ""])
        ctx.note(definition=src + src2)
        exec(src, m.__dict__)
        kind, e = lab.outcome(exec, src2, m.__dict__)
        ctx.count("evaluations")
        old = [(x.name, x.value) for x in m.Keep]
        ctx.check([(n, type(v), v) for n, v in old] == [(n, type(v), v) for n, v in first] and m.Old is m.Keep, "the existing enumeration has changed")
        if dup:
            ctx.check(kind == "E" and isinstance(e, ValueError), lambda: f"duplicate values are accepted or fail otherwise: {e!r}")
            ctx.count("duplicates refused")
            ctx.distinct("duplicate", src2, src)
            return
        ctx.check(kind == "A", lambda: f"extension fails with {e!r}")
        got = [(x.name, x.value) for x in m.New]
        ctx.check([(n, type(v), v) for n, v in got] == [(n, type(v), v) for n, v in first + second], lambda: f"members are {got}, not {first + second}")
        ctx.check(list(m.New.__members__) == [n for n, _ in first + second], lambda: f"names are {list(m.New.__members__)}")
        ctx.check(isinstance(m.New, type) and issubclass(m.New, enum.Enum) and m.New.__name__ == "New" and m.New.__module__ == name, lambda: f"result is {m.New!r} of {m.New.__module__}")
        if doc:
            ctx.check(m.New.__doc__ == doc, lambda: f"documentation is {m.New.__doc__!r}")
        for n, v in first + second:
            ctx.check(m.New(v) is getattr(m.New, n) and m.New[n].value == v, lambda: f"member {n} is not found by its value or name")
        if first:
            ctx.check(m.New[first[0][0]] is not m.Keep[first[0][0]], "member of the existing enumeration is shared")
            ctx.check(not isinstance(m.Keep[first[0][0]], m.New), "member belongs to both enumerations")
        if first or second:
            ctx.distinct("extension", first, second)
        if r.random() < 0.3 and (first or second):
            # once more
            exec("@extend_enum(New)\nclass Third(enum.Enum):\n    LAST = 'last value'\n", m.__dict__)
            ctx.check([(x.name, x.value) for x in m.Third] == first + second + [("LAST", "last value")], lambda: f"members are {list(m.Third)}")
            ctx.check([(x.name, x.value) for x in m.New] == first + second, "the extended enumeration has changed")
    finally:
        del sys.modules[name]


def dynamic(ctx, r):
    pool = {"int": int, "str": str, "list[int]": list[int], "Optional[str]": typing.Optional[str], "Annotated[int, 'x']": typing.Annotated[int, "x"], "bytes": bytes, "'Fwd'": "Fwd", "dict[str, Any]": dict[str, typing.Any]}
    names = r.sample(["a", "b", "value", "name", "x1", "_hidden", "type_", "self_", "cls", "fields"], r.randint(0, 6))
    fields = [(n, pool[r.choice(sorted(pool))]) for n in names]
    given = list(fields)
    cname = r.choice(["Made", "Type1", "lower", "_Private"])
    ctx.note(definition=f"{cname}: {fields}")
    cls = I.create_data_type(cname, given)
    ctx.count("evaluations")
    ctx.check(given == fields, "the list of fields has changed")
    ctx.check(isinstance(cls, type) and cls.__name__ == cname and cls.__qualname__ == cname and dataclasses.is_dataclass(cls), lambda: f"class is {cls!r}")
    got = [(f.name, f.type) for f in dataclasses.fields(cls)]
    ctx.check(got == fields, lambda: f"fields are {got}, not {fields}")
    vals = [r.choice([1, "x", None, (2,)]) for _ in fields]
    obj = cls(*vals)
    ctx.check([getattr(obj, n) for n in names] == vals and cls(**dict(zip(names, vals))) == obj, lambda: f"object is {obj!r}, not {vals}")
    if names:
        other = list(vals)
        other[-1] = "different"
        ctx.check(cls(*other) != obj, "objects with different fields are equal")
        kind, _ = lab.outcome(cls, *vals[:-1])
        ctx.check(kind == "E", "object is created without all its fields")
        ctx.distinct("type", cname, str(fields))
    kind, _ = lab.outcome(setattr, obj, "no_such_field", 1)
    ctx.check(kind == "E", "object accepts a field it does not have")
    ctx.check(not hasattr(obj, "__dict__"), "object is not limited to its fields")
    ctx.check(I.create_data_type(cname, fields) is not cls, "two classes created with the same name are the same")
    # modules
    COUNTER[0] += 1
    name = r.choice(["vp24m", "vp24.sub.m"]) + str(COUNTER[0])
    m = I.create_module(name)
    try:
        ctx.check(isinstance(m, types.ModuleType) and m.__name__ == name and sys.modules.get(name) is m, lambda: f"module is {m!r}")
        kind, e = lab.outcome(I.create_module, name)
        ctx.check(kind == "E" and isinstance(e, KeyError) and sys.modules.get(name) is m, lambda: f"module that exists is created again: {e!r}")
        m.x = 1
        exec("class K:\n    pass", m.__dict__)
        ctx.check(m.K.__module__ == name, lambda: f"class in module belongs to {m.K.__module__}")
    finally:
        sys.modules.pop(name, None)
    for existing in ("sys", "strong_typing.inspection"):
        before = sys.modules[existing]
        kind, e = lab.outcome(I.create_module, existing)
        ctx.check(kind == "E" and isinstance(e, KeyError) and sys.modules[existing] is before, lambda: f"existing module {existing} is replaced")
    # objects
    calls = []

    class Plain:
        def __init__(self):
            calls.append(1)

    @dataclasses.dataclass
    class Data:
        x: int

        def __post_init__(self):
            calls.append(2)

    class Err(Exception):
        def __init__(self, a, b):
            calls.append(3)

    class Sub(ValueError):
        pass

    for c in (Plain, Data, Err, Sub, cls, Exception):
        o = I.create_object(c)
        ctx.check(type(o) is c and not calls, lambda: f"object of {c} is {o!r}, {len(calls)} initializers called")
        ctx.check(I.create_object(c) is not o, "the same object is given twice")
    ctx.count("objects created", 6)


def formats(ctx, r):
    ns = A.__dict__
    n = r.choice(sorted(FIXED))
    base, *metas = FIXED[n].split("|")
    c = r.randrange(10)
    if c == 0:
        pass
    elif c == 1:
        metas.append(r.choice(["'x'", "7", "Alias('n')", "Storage(1)"]))
    elif c == 2:
        metas.insert(0, r.choice(["'x'", "Alias('n')"]))
    elif c == 3:
        r.shuffle(metas)
    elif c == 4 and len(metas) > 1:
        metas.pop(r.randrange(len(metas)))
    elif c == 5:
        o = r.choice(sorted(FIXED))
        metas[r.randrange(len(metas))] = r.choice(FIXED[o].split("|")[1:])
    elif c == 6:
        base = r.choice(["int", "float", "str", "bool"])
    elif c == 7:
        metas = ["IntegerRange(%d, %d)" % (r.choice([0, -128, 1]), r.choice([255, 127, 256])) if m.startswith("IntegerRange") else m for m in metas]
    elif c == 8:
        metas = metas * 2
    else:
        metas = [r.choice([m for f in FIXED.values() for m in f.split("|")[1:]]) for _ in range(r.choice([1, 2, 3]))]
    text = f"Annotated[{base}, {', '.join(metas)}]"
    ctx.note(expression=text)
    runner.forget_types()
    T = eval(text, dict(ns))
    want = next((k for k, v in FIXED.items() if v == "|".join([base, *metas])), None)
    got = A.get_auxiliary_format(T)
    ctx.count("evaluations")
    ctx.count("recognized" if want else "not recognized")
    ctx.check(got == want, lambda: f"format of {text} is {got!r}, expected {want!r}")
    ctx.distinct("format", text)
    for other in (int, float, str, None, typing.Any, list[T], typing.Optional[T], "int8", typing.Annotated[str, "int8"], typing.ForwardRef("int8")):
        ctx.check(A.get_auxiliary_format(other) is None, lambda: f"format of {other} is {A.get_auxiliary_format(other)!r}")


def fixed_types(ctx):
    "The fixed-width types are what they are documented to be."
    for n, text in FIXED.items():
        base, *metas = text.split("|")
        T = getattr(A, n)
        ctx.check(repr(T.__metadata__) == "(" + ", ".join(metas) + ("," if len(metas) == 1 else "") + ")", lambda: f"annotations of {n} are {T.__metadata__}")
        ctx.check(T.__origin__ is {"int": int, "float": float}[base], lambda: f"{n} is a {T.__origin__}")
        ctx.check(A.get_auxiliary_format(T) == n, lambda: f"format of {n} is {A.get_auxiliary_format(T)!r}")
        ctx.count("evaluations")


def compact(ctx):
    "Data classes with positional text."

    @dataclasses.dataclass(frozen=True, repr=False)
    class Point(A.CompactDataClass):
        x: int
        y: str = "it's"

    class Bare(A.CompactDataClass):
        pass

    @A.typeannotation
    @dataclasses.dataclass(frozen=True)
    class Given:
        x: int

    ctx.check(repr(Point(1)) == 'Point(1, "it\'s")', lambda: f"text is {Point(1)!r}")
    ctx.check(repr(Bare()) == "Bare", lambda: f"text is {Bare()!r}")
    ctx.check(repr(Given(3)) == "Given(3)" and Given(3) == Given(3), lambda: f"text is {Given(3)!r}")
    ctx.count("evaluations", 3)

    # attributes that are not fields, fields that are not attributes of the instance, order of inherited fields
    @dataclasses.dataclass(repr=False)
    class Loose(A.CompactDataClass):
        x: int
        y: str = "y"
        limit: typing.ClassVar[int] = 8
        hidden: int = dataclasses.field(default=3, repr=True, init=False)

    @dataclasses.dataclass(repr=False)
    class Derived(Loose):
        z: Point = Point(2, "n")
        x: int = 7

    @dataclasses.dataclass(repr=False, slots=True)
    class Slots(A.CompactDataClass):
        a: int
        b: list

    o = Loose(1)
    o.cache = [1]
    ctx.check(repr(o) == "Loose(1, 'y', 3)", lambda: f"text is {o!r}")
    o.hidden, o.x = 5, -1
    ctx.check(repr(o) == "Loose(-1, 'y', 5)", lambda: f"text is {o!r}")
    d = Derived(4)
    d.x = 9
    ctx.check(repr(d) == "Derived(9, 'y', 3, Point(2, 'n'))", lambda: f"text is {d!r}")
    ctx.check(repr(Slots(1, [Loose(2)])) == "Slots(1, [Loose(2, 'y', 3)])", lambda: f"text is {Slots(1, [Loose(2)])!r}")

    @A.typeannotation
    class Fields:
        a: int
        b: str = "b"

    class Marked(Fields):
        def __init__(self):
            super().__init__(1)
            object.__setattr__(self, "extra", 2)

    @A.typeannotation(eq=False)
    class ByIdentity:
        a: int

    x, y = ByIdentity(1), ByIdentity(1)
    ctx.check(x == x and x != y and hash(x) is not None and repr(x) == "ByIdentity(1)", lambda: f"{x!r} is compared by content, although not asked for")
    ctx.check(repr(Fields(1)) == "Fields(1, 'b')" and repr(Marked()) == "Marked(1, 'b')", lambda: f"texts are {Fields(1)!r} and {Marked()!r}")
    ctx.count("evaluations", 5)


def case(ctx, i):
    r = ctx.rng
    (annotations, extension, dynamic, formats)[i % 4](ctx, r)


SCENARIOS = [fixed_types, compact]
