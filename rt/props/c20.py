"C20: custom conversion hooks."

import copy
import sys
import types

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from .. import lab, runner

CASES = {"quick": 8000, "thorough": 200000}
RULE = """A case is a module of classes with hooks (data classes, frozen and slotted ones, named tuples, plain classes, exceptions,
enumerations, subclasses of built-in types; with hooks of their own, inherited or mixed in; for one direction or both) and classes
and type expressions that contain them at random places. The hooks record each call. After writing a value the log must list each
hooked value once, and the data must have exactly what the hook returned at that place; after reading a document it must list each
place where the type is read once, with exactly the data there, and the result must have exactly the object the hook returned.
Hooks fail at random with random errors, which must reach the caller as the same object. Non-trivial if a hook was called;
distinct by type and number of calls."""
ASSUMPTIONS = [
    "a value whose class overrides the hook of the declared type of its field or container item is out of scope",
    "a value error or JSON error raised by a hook for a member of an untagged union means that the member does not match",
]

HEAD = """
import dataclasses, datetime, decimal, enum, typing, uuid
from typing import Annotated, Any, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, Union
from strong_typing.auxiliary import Alias
LOG = None
"""
TO = """
    def to_json(self):
        return LOG.write(self)
"""
FROM_CLASS = """
    @classmethod
    def from_json(cls, data):
        return LOG.read(cls, data)
"""
FROM_STATIC = """
    @staticmethod
    def from_json(data):
        return LOG.read({name}, data)
"""

KINDS = {
    "dataclass": "@dataclasses.dataclass\nclass {name}{base}:\n    x: int = 0\n    y: \"Optional[{name}]\" = None\n",
    "frozen": "@dataclasses.dataclass(frozen=True)\nclass {name}{base}:\n    x: int = 0\n",
    "slots": "@dataclasses.dataclass(slots=True, eq=False)\nclass {name}{base}:\n    x: int = 0\n    to_: str = ''\n",
    "plain": "class {name}{base}:\n    x: int\n    other: list\n    def __init__(self, x=0):\n        self.x = x\n",
    "bare": "class {name}{base}:\n    def __init__(self, x=0):\n        self.x = x\n",
    "namedtuple": "class {name}(NamedTuple):\n    x: int = 0\n    y: Any = None\n",
    "exception": "class {name}(Exception):\n    x: int\n",
    "enum": "class {name}(enum.Enum):\n    A = 1\n    B = 'b'\n    C = (1, 2)\n",
    "strenum": "class {name}(str, enum.Enum):\n    A = 'a'\n    B = 'b'\n",
    "intenum": "class {name}(enum.IntEnum):\n    A = 1\n    B = 2\n",
    "str": "class {name}(str):\n    pass\n",
    "int": "class {name}(int):\n    pass\n",
    "float": "class {name}(float):\n    pass\n",
    "bytes": "class {name}(bytes):\n    pass\n",
    "list": "class {name}(list):\n    pass\n",
    "dict": "class {name}(dict):\n    pass\n",
    "set": "class {name}(set):\n    pass\n",
    "tuple": "class {name}(tuple):\n    pass\n",
    "date": "class {name}(datetime.date):\n    pass\n",
    "datetime": "class {name}(datetime.datetime):\n    pass\n",
    "decimal": "class {name}(decimal.Decimal):\n    pass\n",
    "uuid": "class {name}(uuid.UUID):\n    pass\n",
    "tagged": "@dataclasses.dataclass\nclass {name}{base}:\n    x: int = 0\n    tag: Literal['{name}'] = '{name}'\n",
}
UNHASHABLE = ("dataclass", "list", "dict", "set", "tagged")
OPEN = ("dataclass", "frozen", "slots", "plain", "bare", "tagged")


class Boom(Exception):
    pass


class Log:
    "Records the calls of hooks and decides what they do."

    def __init__(self, r):
        self.r = r
        self.calls = []
        self.tokens = {}  # id of object -> (object, what its hook returns)
        self.fail_at = None
        self.error = None
        self.returned = []
        self.refuse = {}

    def write(self, obj):
        self.calls.append(("to", obj, None))
        if self.fail_at is not None and len(self.calls) - 1 == self.fail_at:
            raise self.error
        return self.tokens[id(obj)][1]

    def read(self, cls, data):
        self.calls.append(("from", cls, data))
        if self.fail_at is not None and len(self.calls) - 1 == self.fail_at:
            raise self.error
        if cls.__name__ in self.refuse:
            raise self.refuse[cls.__name__]
        out = Token(len(self.returned))
        self.returned.append((cls, copy.deepcopy(data), out))
        return out


class Token:
    "What a hook for reading returns; hashable, equal only to itself."

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<token {self.n}>"


class H:
    "A class with hooks."

    def __init__(self, name, kind, to, frm, own=True):
        self.name, self.kind, self.to, self.frm = name, kind, to, frm
        self.subs = []

    @property
    def hashable(self):
        return self.kind not in UNHASHABLE


def define(r):
    "Source of hooked classes."
    out, text = [], []
    text.append("class Writes:" + TO)
    text.append("class Reads:" + FROM_CLASS)
    for n in range(r.choice([1, 2, 3])):
        kind = r.choice(sorted(KINDS))
        name = f"H{n}"
        to, frm = r.choice([(True, True), (True, True), (True, True), (True, False), (False, True)])
        h = H(name, kind, to, frm)
        hooks, bases = "", []
        if to:
            if kind in OPEN and r.random() < 0.25:
                bases.append("Writes")
            else:
                hooks += TO
        if frm:
            if kind in OPEN and r.random() < 0.25:
                bases.append("Reads")
            else:
                hooks += (FROM_CLASS if r.random() < 0.7 else FROM_STATIC).replace("{name}", name)
        base = f"({', '.join(bases)})" if bases else ""
        text.append(KINDS[kind].replace("{name}", name).replace("{base}", base) + hooks)
        out.append(h)
        if r.random() < 0.5 and kind not in ("enum", "strenum", "intenum", "namedtuple") and "staticmethod" not in hooks:
            s = H(f"Sub{n}", kind, to, frm)
            deco = {"dataclass": "@dataclasses.dataclass\n", "frozen": "@dataclasses.dataclass(frozen=True)\n", "slots": "@dataclasses.dataclass(slots=True, eq=False)\n", "tagged": "@dataclasses.dataclass\n"}.get(kind, "")
            if r.random() < 0.3 and kind in ("dataclass", "plain", "bare"):
                text.append(f"class Sub{n}(H{n}):\n    pass\n")
            else:
                text.append(f"{deco}class Sub{n}(H{n}):\n    " + (f"tag: Literal['Sub{n}'] = 'Sub{n}'" if kind == "tagged" else "extra: int = 5" if deco else "pass") + "\n")
            h.subs.append(s)
            out.append(s)
    return out, "\n".join(text)


def instance(r, m, h, log):
    cls = getattr(m, h.name)
    k = h.kind
    x = r.randint(0, 9)
    if k in ("enum", "strenum", "intenum"):
        obj = r.choice(list(cls))
    elif k in ("date", "datetime"):
        obj = cls(2020, 1, 1 + x)
    elif k == "uuid":
        obj = cls(int=x)
    elif k == "list":
        obj = cls([x])
    elif k == "dict":
        obj = cls({"x": x})
    elif k == "set":
        obj = cls({x})
    elif k == "tuple":
        obj = cls((x,))
    elif k == "bytes":
        obj = cls(b"%d" % x)
    elif k == "exception":
        obj = cls("text")
        obj.x = x
    else:
        obj = cls(x)
    if id(obj) not in log.tokens:
        log.tokens[id(obj)] = (obj, r.choice([{"$": len(log.tokens)}, [len(log.tokens), {"a": None}], f"text {len(log.tokens)}", len(log.tokens) + 1000, None, True, {}, []]))
    return obj


class N:
    def __init__(self, k, src, args=(), h=None, fields=None):
        self.k, self.src, self.args, self.h, self.fields = k, src, list(args), h, fields

    def __repr__(self):
        return self.src


def make(r, hs, holders, depth, hashable=False):
    p = r.random()
    if depth <= 0 or p < 0.2:
        cands = [h for h in hs if h.hashable] if hashable else hs
        if cands and r.random() < 0.7:
            h = r.choice(cands)
            src = h.name
            if not hashable:
                src = r.choice([h.name, h.name, repr(h.name), f"Annotated[{h.name}, 'note']"])
            return N("hook", src, h=h)
        return N("prim", r.choice(["int", "str"]))
    sub = lambda hs_=hashable: make(r, hs, holders, depth - 1, hs_)
    k = r.choice(["tuple", "opt"] if hashable else ["list", "dict", "tuple", "set", "opt", "union", "holder", "holder"])
    if k == "list":
        a = sub()
        return N(k, f"{r.choice(['list', 'List'])}[{a}]", [a])
    if k == "dict":
        a = sub()
        return N(k, f"{r.choice(['dict', 'Dict'])}[str, {a}]", [a])
    if k == "set":
        a = sub(True)
        return N(k, f"{r.choice(['set', 'Set'])}[{a}]", [a])
    if k == "tuple":
        a = [sub() for _ in range(r.choice([1, 2, 3]))]
        return N(k, f"{r.choice(['tuple', 'Tuple'])}[{', '.join(map(str, a))}]", a)
    if k == "opt":
        a = sub()
        if a.k in ("opt", "union"):
            return a
        return N(k, f"Optional[{a}]", [a])
    if k == "union":
        # a union that Python does not merge: hooked classes and int
        a = [N("hook", h.name, h=h) for h in r.sample(hs, min(len(hs), r.choice([1, 2])))]
        if r.random() < 0.6:
            a.append(N("prim", "int"))
        a.sort(key=lambda x: ORDER.index(x.src))
        if len(a) < 2:
            return a[0]
        return N(k, f"Union[{', '.join(map(str, a))}]", a)
    if not holders:
        return sub()
    return r.choice(holders)


def field_type(t):
    return t.args[0] if t.k == "opt" else t


HOLDER = {
    "dataclass": "@dataclasses.dataclass(kw_only=True)\nclass {name}:\n{fields}",
    "frozen": "@dataclasses.dataclass(frozen=True)\nclass {name}:\n{fields}",
    "namedtuple": "class {name}(NamedTuple):\n{fields}",
    "plain": "class {name}:\n{fields}",
}


def holder(r, hs, holders, n):
    kind = r.choice(sorted(HOLDER))
    name = f"Holder{n}"
    fields = []
    for f in r.sample(["a", "b", "from_", "value", "c"], r.choice([1, 2, 3])):
        t = make(r, hs, [], 2)
        alias = r.choice([None, None, f"re-named {n}"]) if not any(q[2] for q in fields) else None
        fields.append((f, t, alias))
    # mark names
    lines = "".join(f"    {f}: {t if not alias else f'Annotated[{t}, Alias({alias!r})]'}\n" for f, t, alias in fields)
    h = N("holder", name, fields=[(f, t, alias or f.rstrip("_")) for f, t, alias in fields])
    h.kind = kind
    return h, HOLDER[kind].format(name=name, fields=lines)


def value(r, m, t, log, typed, nested=False):
    "(Python value, expected JSON) for a type; expectations for hooked values are markers resolved by identity."
    k = t.k
    if k == "prim":
        v = r.choice([0, 7, -3]) if t.src == "int" else r.choice(["", "s"])
        return v, v
    if k == "hook":
        h = t.h
        if h.subs and r.random() < 0.3:
            h = r.choice(h.subs)
        v = instance(r, m, h, log)
        return v, ("hook", v) if h.to else ("any", v)
    if k == "opt":
        return (None, None) if r.random() < 0.3 else value(r, m, t.args[0], log, typed)
    if k == "union":
        return value(r, m, r.choice(t.args), log, False)
    n = r.choice([0, 1, 2, 2, 3])
    if k == "list":
        items = [value(r, m, t.args[0], log, typed) for _ in range(n)]
        return [v for v, _ in items], [e for _, e in items]
    if k == "dict":
        items = [(f"k{i}", value(r, m, t.args[0], log, typed)) for i in range(n)]
        return {k_: v for k_, (v, _) in items}, {k_: e for k_, (_, e) in items}
    if k == "tuple":
        items = [value(r, m, a, log, typed) for a in t.args]
        return tuple(v for v, _ in items), [e for _, e in items]
    if k == "set":
        items = [value(r, m, t.args[0], log, typed) for _ in range(n)]
        s = {v for v, _ in items}
        return s, ("set", [next((e for v, e in items if v is x), x) for x in s])
    cls = getattr(m, t.src)
    out, exp = {}, {}
    for f, ft, ext in t.fields:
        v, e = value(r, m, ft, log, typed)
        out[f] = v
        if v is not None:
            exp[ext] = e
    if t.kind == "plain":
        obj = cls()
        for f, v in out.items():
            setattr(obj, f, v)
    else:
        obj = cls(**out)
    return obj, exp


def hooked(e, out):
    "Objects whose hook must be called, in any order."
    if isinstance(e, tuple):
        if e[0] == "hook":
            out.append(e[1])
        elif e[0] == "set":
            for x in e[1]:
                hooked(x, out)
    elif isinstance(e, list):
        for x in e:
            hooked(x, out)
    elif isinstance(e, dict):
        for x in e.values():
            hooked(x, out)
    return out


def undetermined(e):
    if isinstance(e, tuple):
        return e[0] == "any" or (e[0] == "set" and any(map(undetermined, e[1])))
    if isinstance(e, list):
        return any(map(undetermined, e))
    if isinstance(e, dict):
        return any(map(undetermined, e.values()))
    return False


def agrees(e, j, log):
    if isinstance(e, tuple):
        if e[0] == "any":
            return True
        if e[0] == "hook":
            w = log.tokens[id(e[1])][1]
            return type(j) is type(w) and j == w
        if not isinstance(j, list) or len(j) != len(e[1]):
            return False
        rest = list(e[1])
        for x in j:
            hit = next((i for i, y in enumerate(rest) if agrees(y, x, log)), None)
            if hit is None:
                return False
            del rest[hit]
        return True
    if isinstance(e, list):
        return isinstance(j, list) and len(e) == len(j) and all(agrees(a, b, log) for a, b in zip(e, j))
    if isinstance(e, dict):
        return isinstance(j, dict) and list(e) == list(j) and all(agrees(e[k], j[k], log) for k in e)
    return type(e) is type(j) and e == j


def writable(t):
    "Whether every value of the type can be written, i.e. hooked classes without a hook for writing have a default rule."
    return all(h.to or h.kind in ("dataclass", "frozen", "namedtuple", "enum", "strenum", "intenum", "tagged") for h in all_hooks(t))


def readable(t):
    return all(h.frm or h.kind in ("dataclass", "frozen", "enum", "strenum", "intenum", "tagged") for h in all_hooks(t))


def all_hooks(t):
    out = []
    if t.k == "hook":
        out += [t.h, *t.h.subs]
    for a in t.args:
        out += all_hooks(a)
    for _, f, _ in t.fields or ():
        out += all_hooks(f)
    return out


def writing(ctx, r, m, t, T):
    if not writable(t):
        return
    if any(h.to is False for h in all_hooks(t)):
        return  # the default rules for writing are the subject of other properties
    log = m.LOG = Log(r)
    v, e = value(r, m, t, log, True)
    ctx.note(type=t.src, value=lambda: repr(v), direction="write")
    want = hooked(e, [])
    api = r.randrange(3)
    write = (lambda: object_to_json(v)) if api == 0 else (lambda: create_serializer(T, m).generate(v))
    if api and t.k in ("hook",) and type(v) is not getattr(m, t.h.name):
        write = lambda: object_to_json(v)
    j = write()
    ctx.count("evaluations")
    ctx.count("writing hooks called", len(log.calls))
    got = [o for k, o, _ in log.calls]
    ctx.check(all(k == "to" for k, _, _ in log.calls), lambda: f"hook for reading called when writing: {log.calls}")
    ctx.check(sorted(map(id, got)) == sorted(map(id, want)), lambda: f"hook called for {got}, the values are {want}")
    ctx.check(agrees(e, j, log), lambda: f"result {j!r} does not have what the hooks returned: {[(o, w) for o, w in log.tokens.values()]}")
    if want:
        ctx.distinct("write", t.src, len(want), repr(j)[:200])
        ctx.sample(lambda: {"type": t.src, "value": repr(v), "json": repr(j), "hook calls": len(log.calls)})
        log.calls.clear()
        log.fail_at = r.randrange(len(want))
        log.error = r.choice([Boom("x"), ValueError("x"), KeyError("x"), TypeError("x"), JsonKeyError("x"), AttributeError("x"), RuntimeError("x")])
        kind, err = lab.outcome(write)
        ctx.check(kind == "E" and err is log.error, lambda: f"hook raises {log.error!r}, the caller gets {err!r}")
        ctx.check(len(log.calls) == log.fail_at + 1, lambda: f"{len(log.calls)} hooks called although number {log.fail_at + 1} fails")
        ctx.count("writing errors")
        log.fail_at = None
        log.calls.clear()
        again = write()
        ctx.check(agrees(e, again, log) and len(log.calls) == len(want), "writing again gives something else")


def document(r, t, top=True):
    "(document, expectation) for a type; expectations for hooked places are ('hook', class name, data)."
    k = t.k
    if k == "prim":
        v = r.choice([0, 7, -3]) if t.src == "int" else r.choice(["", "s"])
        return v, v
    if k == "hook":
        d = r.choice([{"$h": r.randint(0, 9)}, [1, [2]], "text", 5, 2.5, True, {}, [], {"x": 1, "unknown": [None]}, {"a": None, "b": [None, {"c": None}], "": 0}, {"x": None}, [None], ["2020-01-01", False], "", 0, False, 1e300, "2020-01-01"])
        if r.random() < 0.15 and top:
            d = None
        return d, ("hook", t.h.name, d)
    if k == "opt":
        if r.random() < 0.3 and not (top and t.args[0].k == "hook"):
            return None, None
        d, e = document(r, t.args[0], False)
        return d, e
    n = r.choice([0, 1, 2, 2, 3])
    if k == "list":
        items = [document(r, t.args[0]) for _ in range(n)]
        return [d for d, _ in items], [e for _, e in items]
    if k == "set":
        items = [document(r, t.args[0]) for _ in range(n)]
        return [d for d, _ in items], ("set", [e for _, e in items])
    if k == "dict":
        items = [(f"k{i}", document(r, t.args[0])) for i in range(n)]
        return {a: d for a, (d, _) in items}, {a: e for a, (_, e) in items}
    if k == "tuple":
        items = [document(r, a) for a in t.args]
        return [d for d, _ in items], ("tuple", [e for _, e in items])
    if k == "union":
        if all(a.k == "hook" and a.h.kind == "tagged" for a in t.args):
            h = r.choice(t.args).h
            d = {"tag": h.name, "more": r.randint(0, 9)}
            return d, ("hook", h.name, d)
        if t.args[0].k == "prim" and r.random() < 0.5:
            return 7, 7
        i = next(i for i, a in enumerate(t.args) if a.k == "hook")
        d, e = document(r, t.args[i], False)
        if type(d) in (int, bool, float):
            d, e = "text", ("hook", t.args[i].h.name, "text")
        return d, e
    out, exp = {}, {}
    for f, ft, ext in t.fields:
        d, e = document(r, ft, False)
        out[ext] = d
        exp[f] = e
    items = list(out.items())
    r.shuffle(items)
    return dict(items), ("holder", t.src, exp)


def reads(e, out):
    if isinstance(e, tuple):
        if e[0] == "hook":
            out.append((e[1], e[2]))
        elif e[0] in ("set", "tuple"):
            for x in e[1]:
                reads(x, out)
        else:
            for x in e[2].values():
                reads(x, out)
    elif isinstance(e, list):
        for x in e:
            reads(x, out)
    elif isinstance(e, dict):
        for x in e.values():
            reads(x, out)
    return out


def result(e, v, log, m, used):
    "Whether a value is the one expected, with each object a hook returned at its place."
    if isinstance(e, tuple):
        if e[0] == "hook":
            if not isinstance(v, Token) or v.n in used:
                return False
            used.add(v.n)
            cls, data, out = log.returned[v.n]
            return out is v and cls is getattr(m, e[1]) and same_data(data, e[2])
        if e[0] == "set":
            if type(v) is not set or len(v) > len(e[1]):
                return False
            items = [x for x in v]
            rest = list(e[1])
            for x in items:
                hit = next((i for i, y in enumerate(rest) if result(y, x, log, m, set())), None)
                if hit is None:
                    return False
                del rest[hit]
            return True
        if e[0] == "tuple":
            return type(v) is tuple and len(v) == len(e[1]) and all(result(a, b, log, m, used) for a, b in zip(e[1], v))
        return type(v) is getattr(m, e[1]) and all(result(x, getattr(v, f), log, m, used) for f, x in e[2].items())
    if isinstance(e, list):
        return type(v) is list and len(v) == len(e) and all(result(a, b, log, m, used) for a, b in zip(e, v))
    if isinstance(e, dict):
        return type(v) is dict and list(v) == list(e) and all(result(e[k], v[k], log, m, used) for k in e)
    return type(e) is type(v) and e == v


def same_data(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_data(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same_data, a, b))
    return a == b


def in_union(t):
    return t.k in ("union", "opt") or any(in_union(a) for a in t.args) or any(in_union(field_type(f)) for _, f, _ in t.fields or ())


def reading(ctx, r, m, t, T):
    if any(not h.frm for h in all_hooks(t)):
        return
    log = m.LOG = Log(r)
    d, e = document(r, t)
    before = copy.deepcopy(d)
    ctx.note(type=t.src, document=repr(d), direction="read")
    want = reads(e, [])
    options = r.choice([None, DeserializerOptions(skip_unassigned=True), DeserializerOptions()])
    api = r.randrange(3)
    if api == 0:
        read = lambda: json_to_generic(T, d, context=m, options=options)
    elif api == 1 and isinstance(T, type):
        read = lambda: json_to_object(T, d, options=options)
    else:
        read = lambda: create_deserializer(T, m, options=options).parse(d)
    v = read()
    ctx.count("evaluations")
    ctx.count("reading hooks called", len(log.calls))
    got = [(c.__name__, x) for _, c, x in log.calls]
    ctx.check(all(k == "from" for k, _, _ in log.calls), lambda: f"hook for writing called when reading: {log.calls}")
    rest = list(got)
    for w in want:
        hit = next((i for i, g in enumerate(rest) if g[0] == w[0] and same_data(g[1], w[1])), None)
        ctx.check(hit is not None, lambda: f"hook of {w[0]} is not called with {w[1]!r}; calls: {got}")
        del rest[hit]
    ctx.check(not rest, lambda: f"hook is called with data of no value: {rest}")
    ctx.check(result(e, v, log, m, set()), lambda: f"result {v!r} does not have what the hooks returned for {log.returned}")
    ctx.check(same_data(d, before), lambda: f"document has changed from {before!r} to {d!r}")
    if want:
        ctx.distinct("read", t.src, len(want), repr(d)[:200])
        log.calls.clear()
        log.fail_at = r.randrange(len(want))
        errors = [Boom("x"), RuntimeError("x"), AttributeError("x"), ZeroDivisionError("x")]
        if not in_union(t):
            errors += [ValueError("x"), KeyError("x"), TypeError("x"), JsonKeyError("x"), JsonValueError("x"), JsonTypeError("x"), LookupError("x")]
        log.error = r.choice(errors)
        kind, err = lab.outcome(read)
        ctx.check(kind == "E" and err is log.error, lambda: f"hook raises {log.error!r}, the caller gets {err!r}")
        ctx.check(len(log.calls) == log.fail_at + 1, lambda: f"{len(log.calls)} hooks called although number {log.fail_at + 1} fails")
        ctx.count("reading errors")
        log.fail_at = None
        log.calls.clear()
        log.returned.clear()
        again = read()
        ctx.check(result(e, again, log, m, set()) and len(log.calls) == len(want), "reading again gives something else")


def refusing(ctx, r, m, hs):
    "A hook that refuses the data of an untagged union leaves it to the next member."
    frm = [h for h in hs if h.frm]
    if len(frm) < 2:
        return
    members = r.sample(frm, r.choice([2, len(frm)]))
    if all(h.kind == "tagged" for h in members):
        return
    src = f"Union[{', '.join(h.name for h in members)}]"
    runner.forget_types()
    T = eval(src, m.__dict__)
    log = m.LOG = Log(r)
    accept = r.randrange(len(members) + 1)
    for i, h in enumerate(members):
        if i < accept:
            log.refuse[h.name] = r.choice([ValueError("no"), JsonKeyError("no"), JsonTypeError("no"), JsonValueError("no")])
    d = r.choice([{"a": 1}, [1], "text", 5])
    wrapped = r.random() < 0.5
    ctx.note(type=src, document=repr(d), direction="refuse", accept=str(accept))
    kind, v = lab.outcome(json_to_generic, list[T] if wrapped else T, [d] if wrapped else d, context=m)
    ctx.count("evaluations")
    ctx.count("refusals")
    ctx.check([c.__name__ for _, c, _ in log.calls] == [h.name for h in members[: accept + 1]], lambda: f"hooks called: {[c.__name__ for _, c, _ in log.calls]}, members {[h.name for h in members]}, number {accept + 1} accepts")
    ctx.check(all(same_data(x, d) for _, _, x in log.calls), lambda: f"hooks called with {log.calls}")
    if accept == len(members):
        ctx.check(kind == "E" and lab.error_kind(v) == "K", lambda: f"every member refuses, result is {v!r}")
    else:
        ctx.check(kind == "A" and (v[0] if wrapped else v) is log.returned[0][2], lambda: f"result is {v!r}")


def tagged(ctx, r, m, hs):
    "Members of a tagged union are read by their hook."
    ts = [h for h in hs if h.kind == "tagged" and h.frm]
    if len(ts) < 2:
        return
    runner.forget_types()
    T = eval(f"Union[{', '.join(h.name for h in ts)}]", m.__dict__)
    for h in ts:
        log = m.LOG = Log(r)
        d = {"tag": h.name, "more": [1]}
        ctx.note(type=str(T), document=repr(d), direction="tagged")
        v = json_to_generic(T, d, context=m)
        ctx.check([(c.__name__, x) for _, c, x in log.calls] == [(h.name, d)] and v is log.returned[0][2], lambda: f"hooks called: {log.calls}, result {v!r}")
        ctx.count("tagged reads")


COUNTER = [0]
ORDER = []


def case(ctx, i):
    r = ctx.rng
    COUNTER[0] += 1
    name = f"vp20_{COUNTER[0]}"
    m = types.ModuleType(name)
    sys.modules[name] = m
    try:
        hs, text = define(r)
        ORDER[:] = [h.name for h in hs] + ["int"]
        r.shuffle(ORDER)  # one order throughout the module: caches of `typing` take unions in another order for the same type
        holders = []
        for n in range(r.choice([0, 1, 2])):
            h, src = holder(r, hs, holders, n)
            holders.append(h)
            text += "\n" + src
        ctx.note(program=text)
        exec(HEAD + text, m.__dict__)
        todo = [N("hook", h.name, h=h) for h in hs] + holders + [make(r, hs, holders, r.choice([1, 2, 3])) for _ in range(4)]
        for t in todo:
            runner.forget_types()
            T = eval(t.src, m.__dict__)
            if isinstance(T, str):
                T = getattr(m, T)
            ctx.cover({f"{h.kind} hooked" for h in all_hooks(t)} | {t.k})
            writing(ctx, r, m, t, T)
            reading(ctx, r, m, t, T)
        refusing(ctx, r, m, hs)
        tagged(ctx, r, m, hs)
        untyped(ctx, r, m, hs)
    finally:
        del sys.modules[name]


def untyped(ctx, r, m, hs):
    "Values in containers and objects without declared types, including subclasses."
    hs = [h for h in hs if h.to]
    if not hs:
        return
    log = m.LOG = Log(r)

    class Loose:
        pass

    def build(depth):
        k = r.choice(["hook", "hook", "list", "dict", "tuple", "set", "object"]) if depth else "hook"
        if k == "hook":
            v = instance(r, m, r.choice(hs), log)
            return v, ("hook", v)
        n = r.choice([1, 2, 3])
        items = [build(depth - 1) for _ in range(n)]
        if k == "list":
            return [v for v, _ in items], [e for _, e in items]
        if k == "tuple":
            return tuple(v for v, _ in items), [e for _, e in items]
        if k == "dict":
            return {f"k{i}": v for i, (v, _) in enumerate(items)}, {f"k{i}": e for i, (_, e) in enumerate(items)}
        if k == "set":
            c = [h for h in hs if h.hashable]
            if not c:
                return [], []
            s = {instance(r, m, r.choice(c), log) for _ in range(n)}
            return s, ("set", [("hook", v) for v in s])
        o = Loose()
        for i, (v, _) in enumerate(items):
            setattr(o, f"f{i}", v)
        return o, {f"f{i}": e for i, (_, e) in enumerate(items)}

    v, e = build(3)
    ctx.note(value=lambda: repr(v), direction="untyped")
    want = hooked(e, [])
    j = object_to_json(v)
    ctx.count("evaluations")
    ctx.check(sorted(id(o) for _, o, _ in log.calls) == sorted(map(id, want)), lambda: f"hook called for {[o for _, o, _ in log.calls]}, the values are {want}")
    ctx.check(agrees(e, j, log), lambda: f"result {j!r} does not have what the hooks returned")
    ctx.count("untyped values")
