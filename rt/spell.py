"Alternative spellings of the same type expression, and the classes a type expression refers to."

import types
import typing

from . import ir, runner

HEAD = "import typing, types\nfrom typing import Annotated, Any, Dict, FrozenSet, List, Literal, Optional, Set, Tuple, Type, Union\n"


def spell(r, t, strings=0.0):
    """Python expression for a type, with containers, unions and optionals written in a randomly chosen notation.
    `strings`: probability of writing a type argument as a string (forward reference)."""

    def sub(a):
        s = spell(r, a, strings)
        if strings and r.random() < strings and not s.startswith(("'", '"')):
            return repr(s)
        return s

    k = t.k
    if k == "list":
        return f"{r.choice(['list', 'List', 'typing.List'])}[{sub(t.args[0])}]"
    if k == "set":
        return f"{r.choice(['set', 'Set', 'typing.Set'])}[{sub(t.args[0])}]"
    if k == "dict":
        key = t.extra.name if t.extra is not None else "str"
        if strings and t.extra is not None and r.random() < strings:
            key = repr(key)
        return f"{r.choice(['dict', 'Dict', 'typing.Dict'])}[{key}, {sub(t.args[0])}]"
    if k == "tuple":
        inner = ", ".join(sub(a) for a in t.args) if t.args else "()"
        return f"{r.choice(['tuple', 'Tuple', 'typing.Tuple'])}[{inner}]"
    if k == "ann":
        return f"Annotated[{sub(t.args[0])}, {', '.join(ir.meta_src(m) for m in t.extra)}]"
    if k == "union":
        none, _ = t.extra
        parts = [sub(a) for a in t.args]
        quoted = any(p.startswith(("'", '"')) for p in parts)
        if none and len(parts) == 1:
            c = r.randrange(4)
            if c == 0 and not quoted:
                return f"{parts[0]} | None"
            if c == 1 and not quoted:
                return f"None | {parts[0]}"
            if c == 2:
                return f"Union[{parts[0]}, None]"
            return f"Optional[{parts[0]}]"
        if r.random() < 0.5 and not quoted:
            return " | ".join(parts + (["None"] if none else []))
        if none and r.random() < 0.3:
            return f"Optional[Union[{', '.join(parts)}]]"
        return f"Union[{', '.join(parts + (['None'] if none else []))}]"
    return ir.src(t)


def classes(t, fields=True):
    "Names of the classes reachable from a type expression: `int`, ... for built-in types, definitions for others."
    out = set()
    seen = set()

    def go(t):
        k = t.k
        if k in ir.PRIM_SRC:
            if k != "none":
                out.add(ir.PRIM_SRC[k])
        elif k == "fixed":
            out.add("float" if t.extra.startswith("float") else "int")
        elif k in ("json", "strict"):
            out.update({"bool", "int", "float", "str"})
        elif k == "ref":
            out.add(t.extra)
            if fields:
                reach(t.extra)
        elif k == "lit" or k == "any":
            pass
        else:
            if k == "dict":
                if t.extra is None:
                    out.add("str")
                else:
                    out.add(t.extra)
            for a in t.args:
                go(a)

    def reach(d):
        if d in seen or d.is_enum:
            return
        seen.add(d)
        for f in d.fields:
            go(f.type)

    go(t)
    return out


def direct(d):
    "Classes a class refers to in its own fields."
    out = set()
    if not d.is_enum:
        for f in d.fields:
            out |= classes(f.type, fields=False)
    return out


def closure(names):
    "All classes reachable from the given ones, with what each depends on directly."
    graph = {}
    todo = list(names)
    while todo:
        c = todo.pop()
        if c in graph:
            continue
        graph[c] = set() if isinstance(c, str) else direct(c)
        todo += graph[c]
    return graph


def resolve(prog, c):
    "The Python class for an item of the above sets."
    return prog.pytype(ir.Ty(NAMES[c])) if isinstance(c, str) else c.cls


NAMES = {v: k for k, v in ir.PRIM_SRC.items()}


def show(cs):
    return sorted(c if isinstance(c, str) else c.name for c in cs)


def closure_of(t):
    "Classes reachable from a type expression, at any depth."
    return set(closure(classes(t, fields=False)))


def structure(t, ns=None, metadata=True):
    """Structure of a type, with everything that distinguishes it: order, annotations and kinds of literal values. Strings and
    forward references are evaluated in the namespace given."""

    def norm(t):
        return structure(t, ns, metadata)

    if isinstance(t, (str, typing.ForwardRef)):
        runner.forget_types()
    if t is None or t is type(None):
        return "none"
    if t is Ellipsis:
        return "..."
    if isinstance(t, (list, tuple)):
        return ("params", tuple(norm(a) for a in t))
    if hasattr(t, "__metadata__"):
        meta = t.__metadata__
        if not metadata:
            return norm(t.__origin__)
        items = tuple((type(m).__name__, repr(m), m) for m in meta)
        base = norm(t.__origin__)
        if isinstance(base, tuple) and base[0] == "ann":
            return ("ann", base[1], base[2] + items)
        return ("ann", base, items)
    if isinstance(t, str):
        return norm(eval(t, ns))
    if isinstance(t, typing.ForwardRef):
        return norm(eval(t.__forward_arg__, ns))
    o = typing.get_origin(t)
    if o is None:
        return t
    args = typing.get_args(t)
    if o is typing.Union or o is types.UnionType:
        items = [norm(a) for a in args]
        flat = []
        for x in items:
            for y in (x[1:] if isinstance(x, tuple) and x and x[0] == "union" else (x,)):
                if y not in flat:
                    flat.append(y)
        if len(flat) == 1:
            return flat[0]
        return ("union", *[x for x in flat if x != "none"], *[x for x in flat if x == "none"])
    if o is typing.Literal:
        return ("lit", tuple((type(v).__name__, v) for v in args))
    return (o, *[norm(a) for a in args])
