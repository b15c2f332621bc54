"""
Intermediate representation of types and class definitions, random program generation, and emission of Python source.

The representation is independent of the code under test: what a type means is read off the tree that generated the
source text, never off Python's or strong_typing's introspection of the resulting classes.
"""

import random
import sys
import types
import typing
import zlib

# ------------------------------------------------------------------------------------------------------------------
# types

PRIM_SRC = {
    "none": "None",
    "bool": "bool",
    "int": "int",
    "float": "float",
    "str": "str",
    "bytes": "bytes",
    "datetime": "datetime.datetime",
    "date": "datetime.date",
    "time": "datetime.time",
    "timedelta": "datetime.timedelta",
    "decimal": "decimal.Decimal",
    "uuid": "uuid.UUID",
    "ipv4": "ipaddress.IPv4Address",
    "ipv6": "ipaddress.IPv6Address",
}
FIXED = {
    "int8": (-(2**7), 2**7 - 1),
    "int16": (-(2**15), 2**15 - 1),
    "int32": (-(2**31), 2**31 - 1),
    "int64": (-(2**63), 2**63 - 1),
    "uint8": (0, 2**8 - 1),
    "uint16": (0, 2**16 - 1),
    "uint32": (0, 2**32 - 1),
    "uint64": (0, 2**64 - 1),
}
FIXED_FLOAT = ("float32", "float64")


class Ty:
    "A type expression; `k` is the constructor."

    __slots__ = ("k", "args", "extra")

    def __init__(self, k, args=(), extra=None):
        self.k = k
        self.args = tuple(args)
        self.extra = extra

    def __repr__(self):
        return src(self)


def prim(name):
    return Ty(name)


def List(t):
    return Ty("list", [t])


def Set(t):
    return Ty("set", [t])


def Dict(t, key=None):
    "Dictionary with string keys or enumeration keys (`key` is an EnumDef)."
    return Ty("dict", [t], key)


def Tuple_(ts):
    return Ty("tuple", ts)


def Union_(ts, none=False, pipe=False):
    "Union of members; `none` adds the null type as the last member."
    return Ty("union", ts, (none, pipe))


def Opt(t, pipe=False):
    return Ty("union", [t], (True, pipe))


def Lit(values, enum=None):
    "Literal of plain values (`enum` None), or of member names of an EnumDef."
    return Ty("lit", (), (tuple(values), enum))


def Fixed(name):
    return Ty("fixed", (), name)


def Ann(t, metas):
    "Annotated type; `metas` is a tuple of (class name, args)."
    return Ty("ann", [t], tuple(metas))


def Ref(d):
    "Reference to a class or enumeration definition."
    return Ty("ref", (), d)


JSON = Ty("json")  # JsonType
STRICT = Ty("strict")  # StrictJsonType


def meta_src(m):
    name, args = m
    if name == "raw":
        return repr(args[0])
    return f"{name}({', '.join(repr(a) for a in args)})"


def lit_value_src(t, v):
    _, enum = t.extra
    return f"{enum.name}.{v}" if enum is not None else repr(v)


def src(t, quote=lambda d: False):
    """Python expression for a type; `quote` tells which definitions to write as a string (forward reference)."""
    k = t.k
    if k in PRIM_SRC:
        return PRIM_SRC[k]
    if k == "fixed":
        return t.extra
    if k == "json":
        return "JsonType"
    if k == "strict":
        return "StrictJsonType"
    if k == "any":
        return "Any"
    if k == "ref":
        return repr(t.extra.name) if quote(t.extra) else t.extra.name
    if k == "list":
        return f"list[{src(t.args[0], quote)}]"
    if k == "set":
        return f"set[{src(t.args[0], quote)}]"
    if k == "dict":
        key = t.extra.name if t.extra is not None else "str"
        return f"dict[{key}, {src(t.args[0], quote)}]"
    if k == "tuple":
        return f"tuple[{', '.join(src(a, quote) for a in t.args)}]" if t.args else "tuple[()]"
    if k == "lit":
        return f"Literal[{', '.join(lit_value_src(t, v) for v in t.extra[0])}]"
    if k == "ann":
        return f"Annotated[{src(t.args[0], quote)}, {', '.join(meta_src(m) for m in t.extra)}]"
    if k == "union":
        none, pipe = t.extra
        parts = [src(a, quote) for a in t.args]
        if pipe and not any(p.startswith(("'", '"')) for p in parts):
            return " | ".join(parts + (["None"] if none else []))
        if none and len(parts) == 1:
            return f"Optional[{parts[0]}]"
        return f"Union[{', '.join(parts + (['None'] if none else []))}]"
    raise AssertionError(k)


def walk(t):
    yield t
    for a in t.args:
        yield from walk(a)


def refs(t):
    "All definitions mentioned in a type expression (not those reached through fields)."
    out = []
    for n in walk(t):
        if n.k == "ref":
            out.append(n.extra)
        elif n.k == "dict" and n.extra is not None:
            out.append(n.extra)
        elif n.k == "lit" and n.extra[1] is not None:
            out.append(n.extra[1])
    return out


def strip_ann(t):
    while t.k == "ann":
        t = t.args[0]
    return t


def is_optional(t):
    "True if null is a permitted value of a field of this type."
    t = strip_ann(t)
    return t.k == "json" or (t.k == "union" and t.extra[0])


# ------------------------------------------------------------------------------------------------------------------
# definitions


class EnumDef:
    is_enum = True

    def __init__(self, name, module, members, mixin="enum.Enum", doc=None):
        self.name, self.module, self.members, self.mixin, self.doc = name, module, members, mixin, doc
        self.hooks = None
        self.registered = None
        self.cls = None
        self.doc_parts = (None, None, {})

    @property
    def value_types(self):
        return {type(v) for _, v in self.members}

    def source(self):
        lines = []
        if self.registered is not None and "name" not in self.registered:
            lines.append(registration(self.registered))
        lines.append(f"class {self.name}({self.mixin}):")
        if self.doc is not None:
            lines.append("    " + repr(self.doc))
        for n, v in self.members:
            lines.append(f"    {n} = {v!r}")
        if self.hooks:
            lines += hook_source(self)
        return "\n".join(lines) + registration_call(self)


class FieldDef:
    """
    A field of a class.

    `default`: None, ("value", source, thunk) or ("factory", source, thunk), where thunk(module) gives the value.
    """

    __slots__ = ("name", "type", "alias", "default", "init", "style", "doc")

    def __init__(self, name, type, alias=None, default=None, init=True, style="direct", doc=None):
        self.name, self.type, self.alias, self.default = name, type, alias, default
        self.init, self.style, self.doc = init, style, doc

    @property
    def declared_type(self):
        return Ann(self.type, [("Alias", (self.alias,))]) if self.alias is not None else self.type

    @property
    def external(self):
        if self.alias is not None:
            return self.alias
        if self.name.endswith("_") and self.name[:-1] in KEYWORDS:
            return self.name[:-1]
        return self.name


KEYWORDS = (
    "False None True and as assert async await break class continue def del elif else except finally for from global "
    "if import in is lambda nonlocal not or pass raise return try while with yield"
).split()


class ClassDef:
    is_enum = False

    def __init__(self, name, module, kind, base=None):
        self.name, self.module, self.kind, self.base = name, module, kind, base
        self.own = []  # own fields
        self.flags = {}  # dataclass parameters
        self.classvars = []
        self.hooks = None  # None or hook style
        self.doc = None
        self.doc_parts = (None, None, {})
        self.registered = None
        self.cls = None

    @property
    def is_dataclass(self):
        return self.kind == "dataclass"

    @property
    def fields(self):
        "All fields in the order in which they are reported: base class first, overridden fields in place."
        out = {}
        for f in self.base.fields if self.base is not None else ():
            out[f.name] = f
        for f in self.own:
            out[f.name] = f
        if self.kind in ("plain", "exception"):
            return list(out.values())
        return list(out.values())

    def owner(self, field):
        c = self
        while c is not None:
            if any(f is field for f in c.own):
                return c
            c = c.base
        raise AssertionError

    @property
    def frozen(self):
        return bool(self.flags.get("frozen"))

    def bases_chain(self):
        c, out = self, []
        while c is not None:
            out.append(c)
            c = c.base
        return out

    def source(self, module, defined):
        lines = []
        if self.registered is not None and "name" not in self.registered:
            lines.append(registration(self.registered))
        if self.kind == "dataclass":
            args = ", ".join(f"{k}={v}" for k, v in self.flags.items())
            lines.append(f"@dataclasses.dataclass({args})" if args else "@dataclasses.dataclass")
            head = f"({self.base.name})" if self.base else ""
        elif self.kind == "namedtuple":
            head = "(NamedTuple)"
        elif self.kind == "exception":
            head = f"({self.base.name})" if self.base else "(Exception)"
        else:
            head = f"({self.base.name})" if self.base else ""
        lines.append(f"class {self.name}{head}:")
        if self.doc is not None:
            lines.append("    " + repr(self.doc))
        for n, s, v in self.classvars:
            lines.append(f"    {n}: {s} = {v}")
        for f in self.own:
            lines.append("    " + self.field_source(f, module, defined))
        if self.hooks:
            lines += hook_source(self)
        if len(lines) and lines[-1].endswith(":"):
            lines.append("    pass")
        return "\n".join(lines) + registration_call(self)

    def field_source(self, f, module, defined):
        t = f.declared_type
        missing = [d for d in refs(t) if d not in defined]
        style = f.style
        if module.future:
            style = "direct"
        elif missing and style == "direct":
            style = "string"
        if style == "string":
            ann = repr(src(t))
        elif style == "inner":
            ann = src(t, lambda d: True)
        else:
            ann = src(t)
        out = f"{f.name}: {ann}"
        args = []
        if f.default is not None:
            kind, text, _ = f.default
            if self.kind != "dataclass":
                return f"{out} = {text}"
            args.append(f"default_factory={text}" if kind == "factory" else f"default={text}")
        if self.kind == "dataclass":
            if not f.init:
                args.append("init=False")
            args += self.field_options(f, ann)
            if f.default is not None and args == [f"default={text}"]:
                out += f" = {text}"
            elif args:
                out += f" = dataclasses.field({', '.join(args)})"
        return out

    def field_options(self, f, ann):
        "Options of a field that matter to the class only; what is written or described does not depend on them."
        n = zlib.crc32(f"{self.module.name} {self.name} {f.name} {ann}".encode())
        if n % 7:
            return []
        options = [["repr=False"], ["metadata={'note': 'text', 1: None}"], ["hash=False"], ["repr=False", "metadata={'alias': 'x'}"], ["compare=False", "hash=False"]]
        chosen = options[n // 7 % len(options)]
        return ["repr=False"] if self.frozen and "compare=False" in chosen else chosen


def registration(reg):
    "reg: dict with optional keys schema, examples."
    args = ", ".join(f"{k}={v!r}" for k, v in reg.items() if v is not None and k in ("schema", "examples"))
    return f"@json_schema_type({args})" if args else "@json_schema_type"


def registration_call(d):
    "Registration by function call, if the type has a registered name of its own."
    if d.registered is None or "name" not in d.registered:
        return ""
    args = ", ".join(f"{k}={v!r}" for k, v in d.registered.items() if v is not None)
    return f"\n\n\nregister_schema({d.name}, {args})"


def hook_source(d):
    return ["    " + line for line in d.hooks.splitlines()]


class ModuleDef:
    def __init__(self, name, future):
        self.name, self.future = name, future
        self.defs = []
        self.imports = []  # definitions from earlier modules
        self.extra = ""
        self.py = None

    def source(self):
        head = ["from __future__ import annotations"] if self.future else []
        head += [
            "import dataclasses, datetime, decimal, enum, ipaddress, typing, uuid",
            "from typing import Annotated, Any, ClassVar, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, Union",
            "from strong_typing.auxiliary import Alias, IntegerRange, Length, MaxLength, MinLength, Precision, Signed",
            "from strong_typing.auxiliary import SpecialConversion, Storage, TimePrecision",
            "from strong_typing.auxiliary import float32, float64, int8, int16, int32, int64",
            "from strong_typing.auxiliary import uint8, uint16, uint32, uint64",
            "from strong_typing.core import JsonType, StrictJsonType, Schema",
            "from strong_typing.schema import json_schema_type, register_schema",
        ]
        for d in self.imports:
            head.append(f"from {d.module.name} import {d.name}")
        if self.extra:
            head.append(self.extra)
        body = []
        defined = set(self.imports)
        for d in self.defs:
            body.append(d.source() if d.is_enum else d.source(self, defined))
            defined.add(d)
        return "\n".join(head) + "\n\n\n" + "\n\n\n".join(body) + "\n"


class Program:
    def __init__(self, tag):
        self.tag = tag
        self.modules = []
        self.union_order = {}
        self.loaded = False

    @property
    def defs(self):
        return [d for m in self.modules for d in m.defs]

    @property
    def classes(self):
        return [d for d in self.defs if not d.is_enum]

    @property
    def enums(self):
        return [d for d in self.defs if d.is_enum]

    def load(self):
        "Executes the source text of all modules and attaches the classes to the definitions."
        for clear in typing._cleanups:  # subscripted types are memoized irrespective of the order of union members
            clear()
        for m in self.modules:
            py = types.ModuleType(m.name)
            sys.modules[m.name] = py
            m.py = py
            exec(compile(m.source(), f"<{m.name}>", "exec"), py.__dict__)
            for d in m.defs:
                d.cls = py.__dict__[d.name]
        self.loaded = True
        return self

    def unload(self):
        for m in self.modules:
            sys.modules.pop(m.name, None)

    def text(self):
        return "\n".join(f"# --- module {m.name}\n{m.source()}" for m in self.modules)

    def pytype(self, t, module=None):
        "Evaluates a type expression in a module (by default: the last one)."
        m = module or self.modules[-1]
        return eval(src(t), scope(self, m))


def scope(prog, m):
    ns = dict(m.py.__dict__)
    for d in prog.defs:
        ns.setdefault(d.name, d.cls)
    return ns


# ------------------------------------------------------------------------------------------------------------------
# random generation

FIELD_NAMES = (
    "a b c d x y z id name value data key items size kind_of lo hi count_of first second left right parent child extra "
    "note flag total camelCase snake_case x1 in_ from_ class_ is_ if_ or_ None_ type_ id_ obj cls self typ text url "
    "größe"
).split()
NT_NAMES = [n for n in FIELD_NAMES if n not in ("cls", "self")]
ALIASES = ["$ref", "in", "the-name", "with space", "ALIAS", "α", "a.b", "x-y", "class", "$schema", "_private", "0", "A/B", "name~", "", "from_", "null"]


class Config:
    """What programs may contain; each property restricts this to the domain it is stated for."""

    def __init__(self, **kw):
        self.modules = (1, 1, 1, 2, 3)
        self.n_classes = (1, 2, 2, 3, 3, 4, 5)
        self.n_enums = (0, 1, 1, 2)
        self.enum_kinds = ("str", "str", "str", "int", "int", "float", "bool", "mixed")
        self.class_kinds = ("dataclass",) * 11 + ("namedtuple",) * 3 + ("plain",) * 3 + ("exception",)
        self.prims = (
            "bool int float str bytes datetime date time timedelta decimal uuid ipv4 ipv6 int str bool int str"
        ).split()
        self.fixed = True
        self.unions = True
        self.overlap_unions = True  # untagged unions whose members may accept the same document
        self.tagged = True
        self.literals = True
        self.enum_literals = True
        self.json = True
        self.recursion = True
        self.defaults = True
        self.aliases = True
        self.annotated = True
        self.inherit = True
        self.docs = False
        self.register = 0.0
        self.strings = True  # string annotations
        self.optional = True
        self.none = False
        self.plain_defaults = False
        self.max_fields = 5
        self.depth = 3
        self.init_false = True
        self.empty_classes = True
        self.classvars = True
        self.sets = True
        self.register_rich = False  # registered names, schemas and examples
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class Gen:
    "Random generator of programs and type expressions."

    counter = 0

    def __init__(self, rng: random.Random, cfg: Config, tag: str):
        self.rng, self.cfg = rng, cfg
        self.prog = Program(tag)
        self.tag = tag
        self.n = 0
        self.enums = []
        self.complete = []  # class definitions that are available for use
        self.module = None
        self.hashables = []

    # -- names

    def fresh(self, prefix):
        self.n += 1
        return f"{prefix}{self.tag}{self.n}"

    # -- types

    def prim(self):
        r = self.rng
        c = self.cfg
        if c.fixed and r.random() < 0.08:
            return Fixed(r.choice(list(FIXED) + list(FIXED_FLOAT)))
        return prim(r.choice(c.prims))

    def annotated(self):
        r = self.rng
        c = r.randrange(8)
        if c == 0:
            lo = r.choice([-128, 0, 1, 23, -5])
            return Ann(prim("int"), [("IntegerRange", (lo, lo + r.choice([0, 1, 59, 1000])))])
        if c == 1:
            n = r.choice([0, 1, 2, 5])
            return Ann(prim("str"), [("MinLength", (n,)), ("MaxLength", (n + r.choice([0, 1, 3]),))])
        if c == 2:
            return Ann(prim("str"), [("MaxLength", (r.choice([0, 1, 3, 10]),))])
        if c == 3:
            return Ann(prim("str"), [("MinLength", (r.choice([0, 1, 3]),))])
        if c == 4:
            return Ann(prim("str"), [("Length", (r.choice([0, 1, 3]),))])
        if c == 5:
            return Ann(prim(r.choice(["int", "str", "float", "bool", "uuid", "date"])), [("raw", ("note",))])
        if c == 6:
            return Ann(prim("datetime"), [("TimePrecision", (r.choice([0, 3, 6]),))])
        return Ann(prim(r.choice(["str", "int"])), [("SpecialConversion", ()), ("raw", (7,))])

    def literal(self):
        r = self.rng
        if self.cfg.enum_literals and self.enums and r.random() < 0.25:
            e = r.choice(self.enums)
            names = [n for n, _ in e.members]
            vs = r.sample(names, min(len(names), r.choice([1, 1, 2, 2, 3])))
            return self.canonical_lit(Lit(vs, e))
        k = r.choice("str str int bool".split())
        pool = {"str": ["a", "b", "value", "", "L", "q'\"", "α"], "int": [0, 1, 2, -1, 42], "bool": [True, False]}[k]
        return self.canonical_lit(Lit(r.sample(pool, min(len(pool), r.choice([1, 1, 1, 2, 2, 3, 4])))))

    def canonical_lit(self, t):
        # literals compare equal irrespective of order, and subscripted types are memoized
        values, e = t.extra
        key = ("lit", frozenset((type(v), v) for v in values), e)
        return self.prog.union_order.setdefault(key, t)

    def type(self, depth=None):
        t = self.plain_type(depth)
        if self.cfg.annotated and t.k in ("ref", "list", "dict", "set", "tuple") and self.rng.random() < 0.08:
            # annotations without a meaning, on a type of any kind
            return Ann(t, self.rng.choice([[("raw", ("note",))], [("raw", ("note",)), ("raw", (7,))], [("SpecialConversion", ())]]))
        return t

    def plain_type(self, depth):
        r, c = self.rng, self.cfg
        depth = c.depth if depth is None else depth
        p = r.random()
        if depth <= 0 or p < 0.36:
            return self.leaf()
        if p < 0.50:
            return List(self.type(depth - 1))
        if p < 0.60:
            key = None
            ks = [e for e in self.enums if e.value_types == {str}]
            if ks and r.random() < 0.4:
                key = r.choice(ks)
            return Dict(self.type(depth - 1), key)
        if p < 0.66 and c.sets:
            return Set(self.hashable(depth - 1))
        if p < 0.73:
            return Tuple_([self.type(depth - 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3]) or 1)])
        if p < 0.83 and c.unions:
            return self.union(depth - 1)
        if p < 0.90 and c.optional:
            return self.opt(self.type(depth - 1))
        return self.class_ref() or self.leaf()

    def opt(self, t):
        s = strip_ann(t)
        if s.k in ("json", "strict", "any", "none") or t.k == "union":
            return t
        return Opt(t, self.rng.random() < 0.4)

    def leaf(self):
        r, c = self.rng, self.cfg
        p = r.random()
        if p < 0.12 and c.annotated:
            return self.annotated()
        if p < 0.24 and c.literals:
            return self.literal()
        if p < 0.38 and self.enums:
            return Ref(r.choice(self.enums))
        if p < 0.42 and c.json:
            return r.choice([JSON, STRICT])
        if p < 0.62:
            return self.class_ref() or self.prim()
        return self.prim()

    def class_ref(self):
        return Ref(self.rng.choice(self.complete)) if self.complete else None

    def hashable(self, depth):
        r = self.rng
        p = r.random()
        if p < 0.2 and self.enums:
            return Ref(r.choice(self.enums))
        if p < 0.35 and self.hashables:
            return Ref(r.choice(self.hashables))
        if p < 0.45 and depth > 0:
            return Tuple_([self.hashable(depth - 1) for _ in range(r.choice([1, 2]))])
        return prim(r.choice([p for p in self.cfg.prims if p not in ("float", "time", "none")]))

    def is_hashable(self, t):
        t2 = strip_ann(t)
        if t2.k in ("list", "set", "dict", "json", "strict", "any", "float"):
            return False
        if t2.k == "fixed":
            return not t2.extra.startswith("float")
        if t2.k == "ref":
            return t2.extra.is_enum or t2.extra in self.hashables
        return all(self.is_hashable(a) for a in t2.args)

    def union(self, depth):
        r = self.rng
        if self.cfg.tagged and r.random() < 0.3:
            t = self.tagged_union()
            if t is not None:
                return t
        n = r.choice([2, 2, 2, 3, 4])
        members, texts = [], set()
        for _ in range(n * 3):
            m = self.type(depth) if r.random() < 0.5 else self.leaf()
            if m.k == "ann" and m.args[0].k in ("ref", "list", "dict", "set", "tuple"):
                m = m.args[0]
            if m.k in ("union", "json", "strict", "any"):
                continue
            s = src(m)
            if s in texts:
                continue
            if not self.cfg.overlap_unions and any(overlap(m, o) for o in members):
                continue
            texts.add(s)
            members.append(m)
            if len(members) == n:
                break
        if len(members) < 2 or ambiguous_tags(members):
            return members[0] if members else self.prim()
        none = self.cfg.optional and r.random() < 0.2
        return self.canonical_union(members, none, r.random() < 0.4)

    def canonical_union(self, members, none, pipe):
        # unions compare equal irrespective of the order of members, and subscripted types are memoized
        key = ("union", frozenset(src(m) for m in members))
        members = self.prog.union_order.setdefault(key, members)
        return Union_(members, none, pipe)

    def tagged_union(self):
        groups = getattr(self, "tag_groups", [])
        groups = [g for g in groups if all(c in self.complete for c in g)]
        if not groups:
            return None
        g = self.rng.choice(groups)
        if self.rng.random() < 0.3 and len(g) > 2:
            g = g[:2]
        return self.canonical_union([Ref(c) for c in g], self.cfg.optional and self.rng.random() < 0.2, False)

    # -- definitions

    def enum(self, kinds=None):
        r = self.rng
        kind = r.choice(kinds or self.cfg.enum_kinds)
        n = r.choice([1, 2, 3, 3, 5, 6])
        names = r.sample(["A", "B", "C", "D", "LEFT", "RIGHT", "x", "two_words", "Z9", "item"], n)
        pools = {
            "str": ["a", "b", "L", "R", "", "two words", "a.b", "x|y", "A", "ü", "$", "a+", "1", "null"],
            "int": [0, 1, 2, 3, -1, 10, 1000, 42],
            "float": [0.5, 1.5, -2.25, 1e10 + 0.5, 3.75, 0.125],
            "bool": [True, False],
            "mixed": ["a", 1, 2.5, "b", 3, "c", 7, -1.5],
        }
        pool = pools[kind]
        n = min(n, len(pool))
        names = names[:n]
        if kind == "mixed" and n > 1:
            values = r.sample(pool, n)
        else:
            values = r.sample(pool, n)
        mixin = "enum.Enum"
        if kind == "str" and r.random() < 0.25:
            mixin = r.choice(["str, enum.Enum", "enum.StrEnum"])
        elif kind == "int" and r.random() < 0.25:
            mixin = r.choice(["int, enum.Enum", "enum.IntEnum"])
        d = EnumDef(self.fresh("E"), self.module, list(zip(names, values)), mixin)
        return d

    def default_for(self, t, allow_factory=True):
        "A default for a field of the given type, or None if this generator has none to offer."
        r = self.rng
        if is_optional(t) and r.random() < 0.5:
            return ("value", "None", lambda m: None)
        s = strip_ann(t)
        if s.k == "union" and len(s.args) == 1:
            s = strip_ann(s.args[0])
        k = s.k
        text = None
        if k == "fixed":
            text = "7" if not s.extra.startswith("float") else "1.5"
        elif k == "bool":
            text = r.choice(["True", "False"])
        elif k == "int":
            text = r.choice(["0", "23", "-7"])
        elif k == "float":
            text = r.choice(["0.0", "2.5", "-1e-3"])
        elif k == "str":
            text = r.choice(["''", "'text'", "'α\"'"])
        elif k == "bytes":
            text = "b'\\x00z'"
        elif k == "datetime":
            text = "datetime.datetime(2020, 2, 29, 23, 59, 1, 5, tzinfo=datetime.timezone.utc)"
        elif k == "date":
            text = "datetime.date(1999, 12, 31)"
        elif k == "time":
            text = "datetime.time(1, 2, 3, tzinfo=datetime.timezone.utc)"
        elif k == "timedelta":
            text = "datetime.timedelta(days=1, seconds=3)"
        elif k == "decimal":
            text = "decimal.Decimal('1.25')"
        elif k == "uuid":
            text = "uuid.UUID(int=7)"
        elif k == "ipv4":
            text = "ipaddress.IPv4Address('10.0.0.1')"
        elif k == "ipv6":
            text = "ipaddress.IPv6Address('::1')"
        elif k == "lit":
            text = lit_value_src(s, s.extra[0][0])
        elif k == "ref" and s.extra.is_enum:
            text = f"{s.extra.name}.{s.extra.members[0][0]}"
        elif k in ("list", "set", "dict") and allow_factory:
            text = k
            return ("factory", text, lambda m: eval(text)())
        if text is None:
            return None
        if allow_factory and r.random() < 0.1:
            return ("factory", f"lambda: {text}", lambda m: eval(text, m.__dict__))
        return ("value", text, lambda m: eval(text, m.__dict__))

    def cls(self, kind=None):
        r, c = self.rng, self.cfg
        kind = kind or r.choice(c.class_kinds)
        base = None
        if c.inherit and kind in ("dataclass", "plain", "exception") and r.random() < 0.25:
            cands = [d for d in self.complete if d.kind == kind and d.registered is None and d.hooks is None]
            if cands:
                base = r.choice(cands)
        d = ClassDef(self.fresh({"dataclass": "D", "namedtuple": "N", "plain": "P", "exception": "X"}[kind]), self.module, kind, base)
        if kind == "dataclass":
            if base is not None and base.frozen or base is None and r.random() < 0.3:
                d.flags["frozen"] = True
            if r.random() < 0.25:
                d.flags["slots"] = True
            if r.random() < 0.2:
                d.flags["kw_only"] = True
        n = r.randint(0 if c.empty_classes and r.random() < 0.15 else 1, c.max_fields)
        if kind == "exception" or kind == "plain":
            n = max(n, 1)
        if kind == "namedtuple":
            n = max(n, 1)
        names = NT_NAMES if kind == "namedtuple" else FIELD_NAMES
        taken = {f.name for f in base.fields} if base else set()
        used_ext = {f.external for f in base.fields} if base else set()
        fields = []
        # a class becomes available to its own fields (recursion) where a value can end
        for _ in range(n):
            name = r.choice(names)
            if base is not None and taken and r.random() < 0.08 and kind == "dataclass":
                name = r.choice(sorted(taken))
                if any(f.name == name for f in fields) or any(f.name == name and f.default is not None for f in base.fields):
                    continue
            elif name in taken:
                continue
            if kind == "namedtuple" and name.startswith("_"):
                continue
            if c.recursion and r.random() < 0.22:
                t = self.recursive_type(d)
            else:
                t = self.type()
            f = FieldDef(name, t)
            if c.aliases and r.random() < 0.15:
                f.alias = r.choice(ALIASES)
            if f.external in used_ext and not (name in taken and f.external == name):
                continue
            if name in taken and any(g.name != name and g.external == f.external for g in (base.fields if base else [])):
                continue
            used_ext.add(f.external)
            taken.add(name)
            if c.strings:
                f.style = r.choice(["direct", "direct", "direct", "string", "inner"])
            if c.defaults and r.random() < 0.3 and kind in ("dataclass", "namedtuple"):
                f.default = self.default_for(t, kind == "dataclass")
            elif c.plain_defaults and kind == "plain" and r.random() < 0.3:
                f.default = self.default_for(t, False)
            if kind == "dataclass" and c.init_false and r.random() < 0.06:
                if f.default is not None and not d.flags.get("slots"):
                    f.init = False
            fields.append(f)
        if kind == "namedtuple" or kind == "dataclass":
            base_default = base is not None and any(f.default is not None for f in base.fields)
            if base_default:
                d.flags["kw_only"] = True
            if base is not None and any(c2.flags.get("kw_only") for c2 in base.bases_chain()):
                d.flags["kw_only"] = True
            if not d.flags.get("kw_only"):
                overridden = {f.name for f in base.fields} if base else set()
                if any(f.name in overridden and f.default is not None for f in fields):
                    d.flags["kw_only"] = True
                else:
                    fields.sort(key=lambda f: f.default is not None)
        if (kind in ("plain", "exception", "namedtuple")) and not fields and not base:
            fields = [FieldDef("a", prim("int"))]
        d.own = fields
        if kind == "dataclass" and c.classvars and r.random() < 0.06:
            d.classvars.append(("shared_limit", "ClassVar[int]", "99"))
        if c.register and r.random() < c.register and kind != "exception":
            d.registered = {"schema": None, "examples": None}
        if kind == "namedtuple" and all(self.is_hashable(f.type) for f in fields):
            self.hashables.append(d)
        if kind == "dataclass" and d.frozen and all(self.is_hashable(f.type) for f in d.fields):
            self.hashables.append(d)
        self.complete.append(d)
        return d

    def recursive_type(self, d):
        "A type that refers to the class being defined (or a later one), at a place where a value may end."
        r = self.rng
        target = d
        t = Ref(target)
        c = r.randrange(6)
        if c == 0:
            return List(t)
        if c == 1:
            return Dict(t)
        if c == 2:
            return Opt(List(t))
        if c == 3 and self.complete:
            o = Ref(r.choice(self.complete))
            return Opt(Tuple_([o, t]))
        if c == 4:
            return List(Opt(t))
        return Opt(t)

    def tag_group(self):
        "Two or three classes that share a property of literal type."
        r = self.rng
        tag = r.choice(["kind", "tag", "type_", "event"])
        alias = r.choice([None, None, None, "$type"]) if self.cfg.aliases else None
        n = r.choice([2, 3])
        style = r.choice(["str", "str", "int", "enum"]) if self.cfg.enum_literals else r.choice(["str", "int"])
        if style == "enum":
            es = [e for e in self.enums if len(e.members) >= n and len(e.value_types) == 1 and e.value_types != {float}]
            if not es:
                style = "str"
            else:
                e = r.choice(es)
        kinds = ["dataclass", "dataclass", "dataclass", "namedtuple", "plain"]
        kinds = [k for k in kinds if k in self.cfg.class_kinds] or ["dataclass"]
        group = []
        many = r.random() < 0.3
        for i in range(n):
            saved = self.cfg.inherit
            self.cfg.inherit = False
            d = self.cls(r.choice(kinds))
            self.cfg.inherit = saved
            if style == "enum":
                # members of the enumeration are dealt out like cards
                hand = [e.members[j][0] for j in range(i, len(e.members), n)]
                lit = self.canonical_lit(Lit(hand if many else hand[:1], e))
            elif style == "int":
                first = r.choice([0, 1])
                lit = self.canonical_lit(Lit([i + first + 10 * j for j in range(r.choice([1, 2, 3, 4]) if many else 1)] if first else [[0, 2, -1][i]]))
            else:
                vals = [["circle", "square", "line"][i]]
                if many:
                    vals += [vals[0] + str(j) for j in range(2, r.choice([2, 3, 4, 5]) + 1)]
                lit = self.canonical_lit(Lit(vals))
            d.own = [f for f in d.own if not literal_type(f.type) and f.name != tag and f.external != (alias or tag)]
            f = FieldDef(tag, lit, alias)
            if d.kind == "dataclass" and r.random() < 0.25:
                f.default = ("value", lit_value_src(lit, lit.extra[0][0]), None)
                text = f.default[1]
                f.default = ("value", text, lambda m, text=text: eval(text, m.__dict__))
                d.own.append(f)
                if not d.flags.get("kw_only"):
                    d.own.sort(key=lambda f: f.default is not None)
            else:
                d.own.insert(0, f)
            if not all(self.is_hashable(f.type) for f in d.fields):
                if d in self.hashables:
                    self.hashables.remove(d)
            group.append(d)
        if not hasattr(self, "tag_groups"):
            self.tag_groups = []
        self.tag_groups.append(group)
        return group

    def program(self):
        r, c = self.rng, self.cfg
        nmod = r.choice(c.modules)
        for i in range(nmod):
            m = ModuleDef(f"vp_{self.tag}_{i}", c.strings and r.random() < 0.2)
            self.module = m
            self.prog.modules.append(m)
            for _ in range(r.choice(c.n_enums)):
                e = self.enum()
                m.defs.append(e)
                self.enums.append(e)
                if c.register and r.random() < c.register / 2 and e.value_types != {float} and len(e.value_types) == 1:
                    e.registered = {"schema": None, "examples": None}
            for _ in range(r.choice(c.n_classes)):
                if c.tagged and r.random() < 0.12:
                    m.defs += self.tag_group()
                else:
                    m.defs.append(self.cls())
            # imports: everything from earlier modules that is mentioned
            for d in m.defs:
                if d.is_enum:
                    continue
                need = [x for f in d.own for x in refs(f.type)]
                if d.base is not None:
                    need.append(d.base)
                # defaults mention enumerations and literals as well
                for x in need:
                    if x.module is not m and x not in m.imports:
                        m.imports.append(x)
            self.mutual(m)
        if c.docs:
            for d in self.prog.defs:
                self.document(d)
        if c.register_rich:
            for d in self.prog.defs:
                self.enrich(d)
        return self.prog

    def enrich(self, d):
        r = self.rng
        if d.registered is None:
            return
        reg = {"schema": None, "examples": None}
        if r.random() < 0.3:
            reg["name"] = r.choice(["Named", "registered_", "X.", "T-"]) + d.name
        if r.random() < 0.25:
            reg["schema"] = r.choice([{"type": "string"}, {"type": "object", "title": "Own title"}, {"type": "array", "items": {"type": "integer"}}, {"enum": ["a", 1]}, {"type": "string", "description": "own text", "x-extra": [1, {"a": None}]}])
        if r.random() < 0.4:
            reg["examples"] = r.choice([[1], ["a", "b"], [{"a": [1, 2]}], [[], {}], [None, "x"]])
        d.registered = reg

    SHORT = ["A class.", "Represents `something`", "Text with: colon, and more.", "Árvíztűrő tükörfúrógép", "One (1) thing", "x", "Ends, oddly("]
    LONG = ["Long text.", "Long text\nin two lines.", "First paragraph.\n\nSecond *paragraph*\n    indented", "- item\n- item"]
    PARAM = ["The value.", "A value: with colon", "", "text\n    continued here", "`code` and \"quotes\"", "日本", "x"]

    def document(self, d):
        "Adds a documentation string; `doc_parts` is what it says: short, long, and text by field."
        r = self.rng
        d.doc_parts = (None, None, {})
        if r.random() < 0.4:
            d.doc = None
            return
        short = r.choice(self.SHORT) if r.random() < 0.9 else None
        long = r.choice(self.LONG) if short and r.random() < 0.4 else None
        params = {}
        if not d.is_enum:
            inherited = {f.name for f in d.base.fields} if d.base else set()
            # classes other than data classes may also document what they inherit
            free = d.kind == "plain" and r.random() < 0.5
            for f in d.fields if free else d.own:
                if (free or f.name not in inherited) and r.random() < 0.5:
                    params[f.name] = r.choice(self.PARAM)
        blocks = []
        if short:
            blocks.append(short)
        if long:
            blocks.append(long)
        if params:
            blocks.append("\n".join(f":param {n}:{' ' if t else ''}{t}" for n, t in params.items()))
        text = "\n\n".join(blocks)
        if not text:
            d.doc = None
            return
        if r.random() < 0.7:  # as it looks in source code
            lines = text.split("\n")
            head = [""] if r.random() < 0.6 or params and not short else []
            body = [("    " + line if line else "") for line in lines]
            if not head:
                body[0] = lines[0]
            text = "\n".join(head + body) + "\n    "
        d.doc = text
        d.doc_parts = (short, long, {n: " ".join(t.split()) for n, t in params.items()})

    def mutual(self, m):
        "Adds references to classes that are defined later in the same module."
        r = self.rng
        if not self.cfg.recursion:
            return
        cs = [d for d in m.defs if not d.is_enum and d.kind == "dataclass"]
        if len(cs) < 2 or r.random() > 0.3:
            return
        first, last = cs[0], cs[-1]
        if any(f.name in ("later", "later_list") for d in cs for f in d.fields):
            return
        subclasses = [d for d in self.complete if first in d.bases_chain() and d is not first]
        if subclasses or first in self.hashables:
            return
        t = r.choice([Opt(Ref(last)), List(Ref(last)), Dict(Ref(last))])
        f = FieldDef("later", t, style=r.choice(["string", "inner"]))
        if first.flags.get("kw_only"):
            first.own.append(f)
        else:
            first.own.insert(0, f)


def tag_properties(members):
    """
    External names of the properties of literal type that all members share, in declaration order of the first member;
    empty unless all members are classes.
    """
    if not members or not all(m.k == "ref" and not m.extra.is_enum for m in members):
        return []
    sets = [[f.external for f in m.extra.fields if literal_type(f.type)] for m in members]
    return [n for n in sets[0] if all(n in s for s in sets[1:])]


def tag_values(member, prop):
    for f in member.extra.fields:
        if f.external == prop:
            values, e = strip_ann(f.type).extra
            return [dict(e.members)[v] for v in values] if e is not None else list(values)
    raise AssertionError


def ambiguous_tags(members):
    "True if the union is one that cannot be read: members share a tag value, or there is more than one tag."
    props = tag_properties(members)
    if len(props) > 1:
        return True
    for p in props:
        seen = [(type(v) is bool, v) for m in members for v in tag_values(m, p)]
        if len(set(seen)) != len(seen) or len({v for _, v in seen}) != len(seen):
            return True
    return False


def literal_type(t):
    return strip_ann(t).k == "lit"


def json_kinds(t):
    "The kinds of JSON values that a type may take (over-approximation)."
    t = strip_ann(t)
    k = t.k
    if k in ("int", "float", "decimal", "fixed"):
        return {"number"}
    if k == "bool":
        return {"boolean"}
    if k == "none":
        return {"null"}
    if k in ("str", "bytes", "datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6"):
        return {"string"}
    if k in ("list", "set", "tuple"):
        return {"array"}
    if k == "dict":
        return {"object"}
    if k == "lit":
        values, e = t.extra
        vs = [dict(e.members)[v] for v in values] if e is not None else values
        return {kind_of(v) for v in vs}
    if k == "ref":
        if t.extra.is_enum:
            return {kind_of(v) for _, v in t.extra.members}
        return {"object"}
    if k == "union":
        out = set()
        for a in t.args:
            out |= json_kinds(a)
        return out | ({"null"} if t.extra[0] else set())
    return {"null", "boolean", "number", "string", "array", "object"}


def kind_of(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "boolean"
    if isinstance(v, (int, float)):
        return "number"
    if isinstance(v, str):
        return "string"
    if isinstance(v, (list, tuple)):
        return "array"
    return "object"


def overlap(a, b):
    return bool(json_kinds(a) & json_kinds(b))


def features(t, out=None, parent="top"):
    "Pairs (enclosing constructor, constructor), used to report coverage."
    out = set() if out is None else out
    k = t.k
    if k == "ref":
        k = "enum" if t.extra.is_enum else t.extra.kind
    out.add(f"{parent}>{k}")
    for a in t.args:
        features(a, out, k)
    return out
