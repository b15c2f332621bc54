"C19: docstrings matched against definitions."

import sys
import types

from strong_typing.docstring import check_dataclass_docstring, check_docstring, check_function_docstring, has_default_docstring, has_docstring, parse_text, parse_type

from .. import lab

CASES = {"quick": 4000, "thorough": 90000}
RULE = """A case is a module of random data classes (plain, frozen, slotted, keyword-only, inherited, with and without docstring,
default values of many kinds) and functions (positional, keyword, variadic parameters, methods, string annotations, with and
without annotations), whose docstrings name random parameters, return values and exceptions, some of which do not exist. A
monitor compares the types attached to each entry, or the refusal, with what the generated definition says, and does the same for
strict checks. Undocumented data classes of every kind must have no documentation. Non-trivial if the docstring has entries;
distinct by definition."""
ASSUMPTIONS = ["a data class documents the members it declares itself; members it inherits are documented in the base class"]

HEAD = """
import dataclasses, datetime, decimal, enum, typing, uuid
from dataclasses import dataclass, field
from typing import *

class Local:
    pass

class Err(Exception):
    pass

class SubErr(Err):
    "Documented error."

class TimeoutError(Exception):
    pass

class PermissionError(SubErr):
    pass

class NotErr:
    pass

class Multi:
    def __repr__(self):
        return "Multi(\\n  1,\\n  2\\n)"

class Odd:
    def __repr__(self):
        return "odd -> None ((("
    __hash__ = object.__hash__

T = TypeVar("T")
"""
TYPES = ["int", "str", "Local", "list[Local]", "Optional[int]", "Union[int, str]", "dict[str, Local]", "datetime.datetime", "Annotated[int, 'x']", "Literal['a', 'b']", "bool | None", "List[int]", "tuple[int, ...]", "Any", "Callable[[int], str]", "None", "bool", "float", "bytes", "set[int]", "type[Local]", "Err", "object"]
STRING = {"Local": "'Local'", "list[Local]": "'list[Local]'", "Optional[int]": "'Optional[int]'", "int": "'int'"}
NAMES = ["a", "b", "c", "name", "value", "type_", "x1", "flag", "from_", "_hidden", "cls"]
DEFAULTS = ["1", "'text'", "None", "1.5", "(1, 2)", "Multi()", "Odd()", "'a\\nb'", "')'", "datetime.date(2020, 1, 1)", "field(default_factory=list)", "field(default=3)"]
EXC = {"ValueError": "ValueError", "KeyError": "KeyError", "Err": "Err", "SubErr": "SubErr", "KeyboardInterrupt": "KeyboardInterrupt", "OSError": "OSError", "TimeoutError": "TimeoutError", "PermissionError": "PermissionError"}
NOT_EXC = ["NotErr", "Missing", "int", "Local", "errors.Err", "T"]


def doc_text(r, params, returns, raises, short):
    lines = []
    if short:
        lines += [short]
        if r.random() < 0.3:
            lines += ["", "Longer text."]
    entries = [f":param {p}: Text of {p}." for p in params]
    if returns:
        entries.append(":returns: Something.")
    entries += [f":raises {e}: When {e}." for e in raises]
    if r.random() < 0.2:
        entries.append(":see: other")
    if r.random() < 0.2:
        r.shuffle(entries)
    if lines and entries:
        lines.append("")
    text = "\n    ".join([""] + lines + entries + [""]) if lines or entries else None
    # text may also start next to the quotes
    return text.strip() if text and r.random() < 0.3 else text


class Definition:
    "What a generated definition says."

    def __init__(self):
        self.params = {}  # name -> type source, or None if there is no annotation
        self.bases = {}
        self.doc = []
        self.returns = None  # documented
        self.return_type = None  # annotation
        self.raises = []
        self.kind = None
        self.selfparam = False

    def refusal(self, strict):
        own = self.params
        for p in self.doc:
            if p not in own:
                return True
        if self.kind != "class" and self.returns and self.return_type is None:
            return True
        if strict:
            for p in own:
                if p == "self" and self.selfparam:
                    continue
                if p not in self.doc:
                    return True
            if self.kind != "class" and self.return_type is not None and not self.returns:
                return True
        return False


def make_class(r, name, bases, STRING):
    d = Definition()
    d.kind = "class"
    base = r.choice(bases) if bases and r.random() < 0.35 else None
    flags = []
    if base is None or base.flags["frozen"] is False:
        frozen = base is None and r.random() < 0.25
    else:
        frozen = True
    d.flags = {"frozen": frozen}
    if frozen:
        flags.append("frozen=True")
    if r.random() < 0.2:
        flags.append("slots=True")
    flags.append("kw_only=True")
    d.inherited = dict(base.all) if base else {}
    lines = []
    for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 4])):
        if n in d.inherited:
            continue
        t = r.choice(TYPES)
        d.params[n] = t
        src = STRING[t] if t in STRING and r.random() < 0.4 else t
        line = f"    {n}: {src}"
        if r.random() < 0.35:
            line += " = " + r.choice(DEFAULTS)
        lines.append(line)
    d.all = {**d.inherited, **d.params}
    d.name = name
    documented = r.random() < 0.7
    d.short = None
    if documented:
        style = r.random()
        d.doc = list(d.params) if style < 0.5 else r.sample(list(d.params), r.randint(0, len(d.params)))
        if r.random() < 0.2:
            d.doc.append(r.choice(["missing", "return", "A", "cls"]))
        if r.random() < 0.3:
            d.raises = r.sample(sorted(EXC), 1)
            if r.random() < 0.3:
                d.raises.append(r.choice(NOT_EXC))
        d.short = r.choice(["Text.", None, f"The {name}(x)", "Ends)", f"{name}(s) of a kind.", f"{name}(a: int) is created with a."]) if d.doc or d.raises else "Text."
        d.text = doc_text(r, d.doc, False, d.raises, d.short)
    else:
        d.text = None
    head = f"@dataclass({', '.join(flags)})\nclass {name}{f'({base.name})' if base else ''}:"
    body = ([f"    {d.text!r}"] if d.text is not None else []) + lines or ["    pass"]
    d.source = "\n".join([head] + body)
    return d


def make_function(r, name, STRING):
    d = Definition()
    d.kind = "function"
    d.name = name
    args = []
    if r.random() < 0.15:
        args.append("self")
        d.params["self"] = None
        d.selfparam = True
    names = r.sample(NAMES, r.choice([0, 1, 2, 3]))
    star = False
    for n in names:
        t = r.choice(TYPES) if r.random() < 0.8 else None
        d.params[n] = t
        src = "" if t is None else ": " + (STRING[t] if t in STRING and r.random() < 0.5 else t)
        if not star and r.random() < 0.15:
            args.append("*")
            star = True
        args.append(n + src + (" = None" if star or any("=" in a for a in args) or r.random() < 0.2 else ""))
    if not star and r.random() < 0.15:
        t = r.choice(TYPES)
        args.append("*args: " + t)
        d.params["args"] = t
    if r.random() < 0.15:
        args.append("**kwargs: int")
        d.params["kwargs"] = "int"
    if r.random() < 0.15 and names and not star or d.selfparam and r.random() < 0.3:
        args.insert(1, "/")
    d.return_type = r.choice(TYPES) if r.random() < 0.65 else None
    ret = "" if d.return_type is None else " -> " + (STRING[d.return_type] if d.return_type in STRING and r.random() < 0.5 else d.return_type)
    if r.random() < 0.85:
        style = r.random()
        pool = [p for p in d.params if p != "self" or r.random() < 0.1]
        d.doc = pool if style < 0.5 else r.sample(pool, r.randint(0, len(pool)))
        d.returns = r.random() < (0.6 if d.return_type else 0.2)
        if r.random() < 0.15:
            d.doc.append(r.choice(["missing", "return", "A", "*args"]))
        if r.random() < 0.4:
            d.raises = r.sample(sorted(EXC), r.choice([1, 2]))
            if r.random() < 0.25:
                d.raises.append(r.choice(NOT_EXC))
        d.text = doc_text(r, d.doc, d.returns, d.raises, "Text." if not (d.doc or d.returns or d.raises) else r.choice(["Text.", None]))
    else:
        d.text = None
    if d.text is None:
        d.doc, d.returns, d.raises = [], False, []
    d.returns = bool(d.returns)
    d.source = f"def {name}({', '.join(args)}){ret}:\n" + (f"    {d.text!r}\n" if d.text is not None else "") + "    return None"
    return d


def evaluate(m, text):
    return eval(text, m.__dict__)


def judge(ctx, m, d):
    import inspect

    obj = getattr(m, d.name)
    ctx.note(definition=d.source)
    ctx.count("evaluations")
    if d.kind == "class" and d.text is None:
        ctx.check(has_default_docstring(obj) and not has_docstring(obj), lambda: f"automatic text {obj.__doc__!r} is taken for documentation")
        got = parse_type(obj)
        ctx.check(got.short_description is None and not got.params and not got.raises and got.returns is None, lambda: f"automatic text {obj.__doc__!r} is parsed as {got}")
        ctx.count("undocumented classes")
    elif d.text is not None:
        ctx.check(has_docstring(obj), lambda: f"docstring {obj.__doc__!r} is not recognized")
    unknown = [e for e in d.raises if e not in EXC]
    kind, got = lab.outcome(parse_type, obj)
    if d.refusal(False) or unknown:
        ctx.check(kind == "E" and isinstance(got, TypeError), lambda: f"docstring {d.text!r} is accepted or fails otherwise: {got!r}")
        ctx.count("refused")
    else:
        ctx.check(kind == "A", lambda: f"docstring {d.text!r} is refused with {got!r}")
        if d.text is not None or d.kind != "class":
            ctx.check(set(got.params) == set(d.doc), lambda: f"parameters {list(got.params)} instead of {d.doc}")
            for n, p in got.params.items():
                t = d.params[n]
                want = inspect.Parameter.empty if t is None else evaluate(m, t)
                ctx.check(same_type(p.param_type, want), lambda: f"parameter {n} has type {p.param_type!r}, the definition has {t}")
                ctx.check(p.description == f"Text of {n}.", lambda: f"parameter {n} has description {p.description!r}")
                ctx.count("parameter types")
            ctx.check((got.returns is not None) == bool(d.returns), lambda: f"return value: {got.returns}")
            if d.returns and d.kind == "function":
                ctx.check(same_type(got.returns.return_type, evaluate(m, d.return_type)), lambda: f"return value has type {got.returns.return_type!r}, the definition has {d.return_type}")
                ctx.count("return types")
            ctx.check(set(got.raises) == set(d.raises), lambda: f"exceptions {list(got.raises)} instead of {d.raises}")
            for n, x in got.raises.items():
                ctx.check(x.raise_type is evaluate(m, n), lambda: f"exception {n} has type {x.raise_type!r}")
                ctx.count("exception types")
        if d.doc or d.returns or d.raises:
            ctx.distinct(d.source)
            ctx.sample(lambda: {"definition": d.source, "parsed": str(got)})
    if d.text is not None:
        for strict in (False, True):
            for check in (check_docstring, check_dataclass_docstring if d.kind == "class" else check_function_docstring):
                for args, kw in (((strict,), {}), ((), {"strict": strict}), ((), {})):
                    if strict and not args and not kw:
                        continue  # lenient unless told otherwise
                    kind, e = lab.outcome(check, obj, parse_text(obj.__doc__), *args, **kw)
                    if d.refusal(strict):
                        ctx.check(kind == "E" and isinstance(e, TypeError), lambda: f"{check.__name__} with {args or kw} accepts {d.text!r}, or fails otherwise: {e!r}")
                        ctx.count(f"refused strict={strict}")
                    else:
                        ctx.check(kind == "A", lambda: f"{check.__name__} with {args or kw} refuses {d.text!r} with {e!r}")
                        ctx.count(f"accepted strict={strict}")


def same_type(a, b):
    if b is None or b is type(None):
        return a is None or a is type(None)
    return a == b and (type(a) is type(b) or str(a) == str(b) or True)


def case(ctx, i):
    r = ctx.rng
    name = f"vp19_{i}"
    m = types.ModuleType(name)
    sys.modules[name] = m
    future = r.random() < 0.15
    quoted = {} if future else STRING
    try:
        exec(compile(("from __future__ import annotations\n" if future else "") + HEAD, name, "exec"), m.__dict__)
        bases, defs = [], []
        for n in range(r.choice([1, 2, 3])):
            d = make_class(r, f"C{n}", bases, quoted)
            bases.append(d)
            defs.append(d)
        for n in range(r.choice([1, 2, 3])):
            defs.append(make_function(r, f"f{n}", quoted))
        for d in defs:
            ctx.note(definition=d.source)
            exec(compile(("from __future__ import annotations\n" if future else "") + d.source, name, "exec"), m.__dict__)
        for d in defs:
            judge(ctx, m, d)
    finally:
        del sys.modules[name]


def undocumented(ctx):
    "Text that Python assigns to data classes by itself."
    import dataclasses
    import enum
    from typing import NamedTuple

    Made = dataclasses.make_dataclass("Made", ["a", ("b", int, 3)])

    @dataclasses.dataclass
    class Empty:
        pass

    @dataclasses.dataclass(init=False)
    class NoInit:
        x: int

    @dataclasses.dataclass
    class Name_With_1:
        a: "tuple[int, ...]" = ()
        b: str = "multi\nline)"
        c: object = dataclasses.field(default_factory=dict)

    class Color(enum.Enum):
        RED = 1

    @dataclasses.dataclass
    class Doc:
        "Doc of it."

    @dataclasses.dataclass
    class Sub(Doc):
        y: int = 0

    for cls in (Made, Empty, Name_With_1, Sub, NoInit):
        if cls.__doc__ is not None and cls.__doc__ != cls.__name__:
            ctx.check(parse_type(cls).short_description is None, lambda: f"{cls.__doc__!r} is taken for documentation")
        ctx.count("evaluations")
    ctx.check(parse_type(Color).short_description is None, lambda: f"{Color.__doc__!r} is taken for documentation")
    ctx.check(parse_type(Doc).short_description == "Doc of it.", "documentation is lost")


FUNCTIONS = """
import asyncio, functools
Other = int

def passing(f):
    @functools.wraps(f)
    def inner(*args, **kwargs):
        return f(*args, **kwargs)
    return inner

def renamed(f):
    @functools.wraps(f)
    def inner(first, /, *rest: str, key: "Local" = None) -> int:
        return 0
    return inner

def with_parameter(n: int):
    def decorate(f):
        @functools.wraps(f)
        def inner(*args):
            return n
        return passing(inner)
    return decorate
"""
KINDS = {
    "plain": "{decorators}def fn{n}({args}){ret}:\n    {doc!r}\n",
    "async": "{decorators}async def fn{n}({args}){ret}:\n    {doc!r}\n",
    "generator": "{decorators}def fn{n}({args}){ret}:\n    {doc!r}\n    yield 1\n",
    "method": "class K{n}:\n    {decorators}def fn{n}(self{comma}{args}){ret}:\n        {doc!r}\nfn{n} = K{n}.fn{n}\n",
    "static": "class K{n}:\n    @staticmethod\n    {decorators}def fn{n}({args}){ret}:\n        {doc!r}\nfn{n} = K{n}.fn{n}\n",
    "closure": "def outer{n}():\n    x = 1\n    {decorators}def fn{n}({args}){ret}:\n        {doc!r}\n        return x\n    return fn{n}\nfn{n} = outer{n}()\n",
}


def kinds_of_functions(ctx):
    "Functions of every kind, decorated or not: the entries are those of the function that was documented."
    import inspect

    m = types.ModuleType("vp19kinds")
    sys.modules["vp19kinds"] = m
    exec(HEAD + FUNCTIONS, m.__dict__)
    parameters = [
        ({}, "", ""),
        ({"a": "int"}, "a: int", ""),
        ({"a": "Local", "b": "list[Local]"}, "a: 'Local', b: 'list[Local]' = ()", ""),
        ({"a": None, "b": "str"}, "a, /, *, b: str", ""),
        ({"args": "Err", "kwargs": "Optional[int]"}, "*args: Err, **kwargs: 'Optional[int]'", ""),
    ]
    n = 0
    try:
        for kind, text in KINDS.items():
            for decorators in ("", "@passing\n", "@renamed\n", "@passing\n@passing\n", "@with_parameter(3)\n"):
                for params, args, _ in parameters:
                    for ret in (None, "int", "'Local'", "None"):
                        for flaw in (None, "missing", "undocumented", "exception"):
                            doc = [p for p in params if p not in ("self",)]
                            if flaw == "undocumented":
                                if not doc:
                                    continue
                                doc = doc[:-1]
                            if flaw == "missing":
                                doc = doc + ["first" if "renamed" in decorators else "args" if "args" not in params else "x"]
                            raises = ["Err", "ValueError"] + (["Missing"] if flaw == "exception" else [])
                            entries = [f":param {p}: Text of {p}." for p in doc] + ([":returns: Result."] if ret else []) + [f":raises {e}: When." for e in raises]
                            n += 1
                            indent = "    " if kind in ("method", "static", "closure") else ""
                            source = text.format(decorators="".join(x + "\n" + indent for x in decorators.split("\n") if x), n=n, args=args, comma=", " if args else "", ret=f" -> {ret}" if ret else "", doc="\n".join(["Text.", ""] + entries))
                            ctx.note(definition=source, flaw=flaw)
                            exec(source, m.__dict__)
                            fn = getattr(m, f"fn{n}")
                            got_kind, got = lab.outcome(parse_type, fn)
                            ctx.count("evaluations")
                            ctx.distinct("kind", kind, decorators, args, ret, flaw)
                            if flaw in ("missing", "exception"):
                                ctx.check(got_kind == "E" and isinstance(got, TypeError), lambda: f"docstring of a function with {flaw} entry is accepted or fails otherwise: {got!r}")
                                if flaw == "exception":
                                    continue
                            else:
                                ctx.check(got_kind == "A", lambda: f"docstring is refused with {got!r}")
                                have = {p: x.param_type for p, x in got.params.items()}
                                want = {p: inspect.Parameter.empty if params[p] is None else evaluate(m, params[p]) for p in doc}
                                ctx.check(list(have) == list(want) and all(same_type(have[p], want[p]) for p in want), lambda: f"parameters are {have}, not {want}")
                                ctx.check((got.returns is not None) == bool(ret) and (not ret or same_type(got.returns.return_type, evaluate(m, ret.strip("'")))), lambda: f"return value is {got.returns}")
                                ctx.check([x.raise_type for x in got.raises.values()] == [m.Err, ValueError], lambda: f"exceptions are {got.raises}")
                            for check in (check_docstring, check_function_docstring):
                                for strict in (False, True):
                                    got_kind, got = lab.outcome(check, fn, parse_text(fn.__doc__), strict)
                                    refuse = flaw == "missing" or strict and flaw == "undocumented"
                                    ctx.check((got_kind == "E" and isinstance(got, TypeError)) == refuse, lambda: f"{check.__name__} with strict={strict} of a docstring with flaw {flaw}: {got!r}")
                                    ctx.count("evaluations")
    finally:
        del sys.modules["vp19kinds"]


SCENARIOS = [undocumented, kinds_of_functions]
