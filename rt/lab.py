"Shared parts of the property modules: programs, types and values to work on."

import json
import random

from . import ir, model
from .model import Values
from .runner import Skip

from strong_typing import serialization
from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.serializer import create_serializer

DOCUMENTED = (KeyError, TypeError, ValueError)


class Lab:
    "A loaded random program with types to test, for the duration of one case."

    def __init__(self, ctx, cfg=None, extra_types=3, tag=None):
        self.ctx = ctx
        self.rng = ctx.rng
        self.gen = ir.Gen(self.rng, cfg or ir.Config(), tag or f"t{ctx.index}_")
        self.prog = self.gen.program()
        self.module = self.prog.modules[-1]
        ctx.note(program=self.prog.text)
        self.types = [ir.Ref(d) for d in self.prog.classes]
        self.rng.shuffle(self.types)
        if len(self.types) > 6:
            del self.types[6:]
        for _ in range(extra_types):
            t = self.gen.type()
            if ir.strip_ann(t).k not in ("none",):
                self.types.append(t)

    def __enter__(self):
        self.prog.load()
        return self

    def __exit__(self, *exc):
        self.prog.unload()
        return False

    def py(self, t):
        return self.prog.pytype(t)

    def values(self, **kw):
        return Values(self.rng, self.module, **kw)

    def decode(self, t, j, skip=False, api=None):
        "Reads a document with the code under test, by one of the equivalent entry points."
        T = self.py(t)
        ctx = self.module.py
        options = DeserializerOptions(skip_unassigned=True) if skip else None
        c = self.rng.randrange(4) if api is None else api
        if c == 0:
            return create_deserializer(T, ctx, options=options).parse(j)
        if c == 1 and isinstance(T, type):
            return serialization.json_to_object(T, j, context=ctx, options=options)
        if c == 2:
            return serialization.json_to_generic(T, j, options=options)
        return serialization.json_to_generic(T, j, context=ctx, options=options)

    def encode(self, t, v, api=None):
        "Writes a value with the code under test, by one of the equivalent entry points."
        c = self.rng.randrange(3) if api is None else api
        if c == 0:
            return create_serializer(self.py(t), self.module.py).generate(v)
        return serialization.object_to_json(v)


def cover(ctx, t, seen=None):
    seen = set() if seen is None else seen
    fs = set()

    def go(t):
        ir.features(t, fs)
        for d in ir.refs(t):
            if d not in seen and not d.is_enum:
                seen.add(d)
                for f in d.fields:
                    fs.add(f"{d.kind} field {f.style}{' alias' if f.alias else ''}{' default' if f.default else ''}{'' if f.init else ' noinit'}")
                    go(f.type)
                for k in d.flags:
                    fs.add(f"dataclass {k}")
                if d.base:
                    fs.add(f"{d.kind} inherits")

    go(t)
    ctx.cover(fs)


def trivial(j):
    "Data without structure."
    return j is None or j == [] or j == {} or isinstance(j, (bool,))


def compact(j):
    return serialization.json_dump_string(j)


def load_text(s):
    return json.loads(s)


def outcome(f, *args, **kw):
    "('A', value) or ('E', exception); failures of the check itself are not outcomes."
    from .runner import TooLong, Violation

    try:
        return ("A", f(*args, **kw))
    except (Violation, Skip, TooLong):
        raise
    except Exception as e:
        return ("E", e)


def error_kind(e):
    "Class of a deserialization error: K, T, V, or None if it is not one of the documented errors."
    from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError

    if isinstance(e, JsonKeyError):
        return "K"
    if isinstance(e, JsonTypeError):
        return "T"
    if isinstance(e, JsonValueError) or isinstance(e, ValueError):
        return "V"
    return None


def member_names(t, seen=None):
    "Names of members, internal and external, of all classes reachable from a type."
    seen = set() if seen is None else seen
    out = set()
    for d in ir.refs(t):
        if d.is_enum or d in seen:
            continue
        seen.add(d)
        for f in d.fields:
            out |= {f.name, f.external}
            out |= member_names(f.type, seen)
    return out


def documents(L, t, n, pool):
    "Documents for a type: mutated forms of its values, forms of values of other types, and random ones."
    from . import mutate

    r = L.rng
    names = sorted(member_names(t))
    for _ in range(n):
        p = r.random()
        if p < 0.06:
            yield "random", mutate.random_doc(r)
            continue
        if p < 0.12 and pool:
            yield "foreign", r.choice(pool)
            continue
        j = model.concrete(model.encode(t, L.values().value(t)))
        pool.append(j)
        if len(pool) > 30:
            del pool[r.randrange(30)]
        if p < 0.2:
            yield "valid", j
        else:
            yield "mutant", mutate.mutate(r, j, names, pool)


_loaded = [0]


def load(text):
    "Executes source text as a module of its own; for use with `unload`."
    import sys
    import types

    _loaded[0] += 1
    m = types.ModuleType(f"rt_loaded_{_loaded[0]}")
    sys.modules[m.__name__] = m
    try:
        exec(compile(text, m.__name__, "exec", dont_inherit=True), vars(m))
    except BaseException:
        del sys.modules[m.__name__]
        raise
    return m


def unload(m):
    import sys

    sys.modules.pop(m.__name__, None)
