"C06: unions."

import copy
import json

from .. import ir, lab, model, mutate
from strong_typing import serialization

CASES = {"quick": 3000, "thorough": 60000}
RULE = """A case is a random program with tagged groups of classes and eight random unions (top level, and in fields and
containers), half with members that overlap. For each union, documents of each member, mutations of them, documents with
changed, missing or ill-typed tags, and foreign documents are read. A monitor compares the outcome with an independent
reference reader and, for untagged unions, with what reading the same document into each member type alone gives: the
first that accepts decides, and the union fails exactly if all fail. Values of every member are written and compared with
the reference encoding. Non-trivial unless the document is a trivial scalar; distinct by union text and document."""
ASSUMPTIONS = ["a union with members of annotated or forward reference form is only tried untagged"]


def gen_unions(L, n):
    out = []
    for _ in range(n * 3):
        if L.rng.random() < 0.4:
            t = L.gen.tagged_union()
        else:
            t = L.gen.union(2)
        if t is not None and t.k == "union" and len(t.args) > 1:
            out.append(t)
        if len(out) == n:
            break
    return out


def is_tagged(t):
    return not t.extra[0] and bool(ir.tag_properties(list(t.args)))


def judge(ctx, L, t, j):
    exp = model.Decoder().decode(t, j)
    kind, got = lab.outcome(L.decode, t, copy.deepcopy(j))
    ctx.count("evaluations")
    if exp[0] == "R":
        ctx.check(kind == "E", lambda: f"{lab.compact(j)} fits no member of {t} but is read as {got!r}")
        ctx.check(lab.error_kind(got) in exp[1], lambda: f"{lab.compact(j)} read as {t} fails with {got!r}; admissible: {sorted(exp[1])}")
        ctx.count("errors")
    elif exp[0] == "A":
        ctx.check(kind == "A", lambda: f"{lab.compact(j)} read as {t} is refused with {got!r}, expected {exp[1]!r}")
        ctx.check(model.same(t, got, exp[1]) and type(got) is type(exp[1]), lambda: f"{lab.compact(j)} read as {t} gives {got!r} instead of {exp[1]!r}")
        ctx.count(f"member {type(got).__name__ if type(got).__module__ == 'builtins' else 'class'} chosen")
    if is_tagged(t):
        ctx.count("tagged documents")
        return
    # the union against its own members
    for m in list(t.args) + ([ir.Ty("none")] if t.extra[0] else []):
        if m.k == "none":
            first = ("A", None) if j is None else ("E", None)
        else:
            first = lab.outcome(L.decode, m, copy.deepcopy(j))
        if first[0] == "A":
            ctx.check(kind == "A", lambda: f"{lab.compact(j)} is accepted by member {m} of {t} but the union fails with {got!r}")
            ctx.check(model.same(m, got, first[1]), lambda: f"{lab.compact(j)} read as {t} gives {got!r} but its first accepting member {m} gives {first[1]!r}")
            ctx.count("decided by a member")
            return
    ctx.check(kind == "E", lambda: f"{lab.compact(j)} is refused by every member of {t} but is read as {got!r}")


def tag_documents(L, t, j):
    r = L.rng
    if type(j) is not dict:
        return
    for prop in ir.tag_properties(list(t.args))[:1]:
        values = [v for m in t.args for v in ir.tag_values(m, prop)]
        yield {k: v for k, v in j.items() if k != prop}
        for v in values:
            yield {**j, prop: v}
        for v in [None, "", "other", 0, 1, True, 1.0, [], {}, str(values[0]), [values[0]]]:
            yield {**j, prop: v}
        items = list(j.items())
        r.shuffle(items)
        yield dict(items)


def case(ctx, i):
    if ctx.rng.random() < 0.25:
        several_tags(ctx)
        return
    cfg = ir.Config(n_classes=(2, 3, 3, 4), overlap_unions=ctx.rng.random() < 0.7, depth=2, max_fields=3)
    with lab.Lab(ctx, cfg, 0) as L:
        unions = gen_unions(L, 8)
        pool = []
        for u in unions:
            lab.cover(ctx, u)
            shapes = [u]
            if ctx.rng.random() < 0.3:
                shapes.append(ctx.rng.choice([ir.List(u), ir.Dict(u), ir.Tuple_([u, u])]))
            ctx.count("tagged unions" if is_tagged(u) else "untagged unions")
            for m in u.args:
                v = L.values().value(m)
                ctx.note(type=repr(u), value=lambda: repr(v))
                e = model.encode(m, v)
                for api in (0, 1):
                    out = L.encode(u, v, api)
                    d = model.match(e, out)
                    ctx.check(d is None, lambda: f"{v!r} as member of {u} is written as {out!r}: {d}")
                j = model.concrete(e)
                docs = [j, mutate.mutate(L.rng, j, sorted(lab.member_names(u)), pool), mutate.mutate(L.rng, j, sorted(lab.member_names(u)), pool)]
                pool.append(j)
                docs += tag_documents(L, u, j)
                if pool and L.rng.random() < 0.5:
                    docs.append(L.rng.choice(pool))
                docs.append(mutate.random_doc(L.rng))
                for doc in docs:
                    ctx.note(document=lambda: json.dumps(doc))
                    judge(ctx, L, u, doc)
                    if not lab.trivial(doc):
                        ctx.distinct(repr(u), json.dumps(doc))
                ctx.sample(lambda: {"union": repr(u), "documents": docs})
            for s in shapes[1:]:
                v = L.values().value(s)
                j = model.concrete(model.encode(s, v))
                ctx.note(type=repr(s), document=lambda: json.dumps(j))
                exp = model.Decoder().decode(s, j)
                got = L.decode(s, j)
                if exp[0] == "A":
                    ctx.check(model.same(s, got, exp[1]), lambda: f"{lab.compact(j)} read as {s} gives {got!r} instead of {exp[1]!r}")
                ctx.count("evaluations")


TAGS_SRC = """
import dataclasses, enum
from typing import Annotated, Literal, NamedTuple, Optional, Union
from strong_typing.auxiliary import Alias

class Word(enum.Enum):
    A = "wa"
    B = "wb"
    C = "wc"
    D = "wd"
class Number(enum.Enum):
    A = 101
    B = 102
    C = 103
    D = 104
"""


def several_tags(ctx):
    "Classes that share several properties of literal type, some of which are absent from the document."
    r = ctx.rng
    n = r.choice([2, 2, 3, 4])
    names = r.sample(["kind", "version", "class_", "z", "is_a"], r.choice([1, 2, 2, 3]))
    pools = {}
    for name in names:
        kind = r.choice(["str", "str", "int", "word", "number"])
        if n == 2 and r.random() < 0.2:
            kind = "bool"
        pool = {"str": [(repr(x), x) for x in ("a", "b", "c", "d", "", "1", "true")], "int": [(repr(x), x) for x in (0, 1, 2, 3, -1, 10**20)],
                "word": [(f"Word.{x}", "w" + x.lower()) for x in "ABCD"], "number": [(f"Number.{x}", 101 + i) for i, x in enumerate("ABCD")], "bool": [("True", True), ("False", False)]}[kind]
        pools[name] = r.sample(pool, n)
    alias = {name: f"@{name}" if r.random() < 0.2 else name.rstrip("_") for name in names}
    styles = ["dataclass", "frozen", "namedtuple"]
    text, members = TAGS_SRC, []
    for i in range(n):
        order = names[:]
        r.shuffle(order)
        tags = {name: [pools[name][i]] for name in names}
        fields = []
        for name in order:
            t = f"Literal[{pools[name][i][0]}]"
            if alias[name].startswith("@"):
                t = f"Annotated[{t}, Alias({alias[name]!r})]"
            if r.random() < 0.3:
                t = repr(t)
            fields.append(f"    {name}: {t} = {pools[name][i][0]}\n")
        fields.insert(r.randint(0, len(fields)), "    value: Optional[int] = None\n")
        style = r.choice(styles)
        text += {"dataclass": "@dataclasses.dataclass\n", "frozen": "@dataclasses.dataclass(frozen=True)\n", "namedtuple": ""}[style]
        text += f"class M{i}{'(NamedTuple)' if style == 'namedtuple' else ''}:\n" + "".join(fields)
        members.append({alias[name]: pools[name][i][1] for name in names})
    m = lab.load(text)
    try:
        order = list(range(n))
        expr = f"Union[{', '.join(f'M{i}' for i in order)}]" if r.random() < 0.5 else " | ".join(f"M{i}" for i in order)
        T = eval(expr, vars(m))
        props = list(members[0])
        for _ in range(8):
            i = r.randrange(n)
            have = [p for p in props if r.random() < 0.6]
            doc = {p: members[i][p] for p in have}
            want = i if have else None
            if have and r.random() < 0.3:
                # one tag contradicts the others, or is none of those listed
                p = r.choice(have)
                doc[p] = r.choice([members[(i + 1) % n][p], "other", 77, [], {}, 1.5])
                if len(have) > 1 or doc[p] not in [x[p] for x in members if type(x[p]) is type(doc[p])]:
                    want = None
                else:
                    want = (i + 1) % n
            if r.random() < 0.5:
                doc["value"] = 5
            for p in props:
                if p not in doc and r.random() < 0.2:
                    doc[p] = None
            items = list(doc.items())
            r.shuffle(items)
            doc = dict(items)
            ctx.note(source=text[len(TAGS_SRC):], type=expr, document=lambda: json.dumps(doc))
            kind, got = lab.outcome(serialization.json_to_generic, T, copy.deepcopy(doc), context=m)
            ctx.count("evaluations")
            ctx.count("documents with several tags")
            if want is None:
                ctx.check(kind == "E" and lab.error_kind(got) in ("K", "T", "V"), lambda: f"{doc} does not have the tags of any member of {expr} but gives {got!r}")
            else:
                ctx.check(kind == "A", lambda: f"{doc} has the tags of M{want} but reading it into {expr} fails with {got!r}")
                ctx.check(type(got).__name__ == f"M{want}" and got.value == doc.get("value"), lambda: f"{doc} has the tags of M{want} but reading it into {expr} gives {got!r}")
            ctx.distinct(text, expr, json.dumps(doc))
    finally:
        lab.unload(m)


def reasons_of_refusal(ctx):
    "A union whose first member refuses the document for every kind of reason, and the second accepts it."
    cfg = ir.Config(modules=(1,), n_classes=(3,), n_enums=(2,))
    with lab.Lab(ctx, cfg, 0) as L:
        firsts = [ir.prim(k) for k in "bool int float str bytes datetime date time timedelta uuid ipv4 ipv6".split()]
        firsts += [ir.List(ir.prim("int")), ir.Set(ir.prim("uuid")), ir.Tuple_([ir.prim("int"), ir.prim("str")]), ir.Dict(ir.prim("int"))]
        firsts += [ir.Lit(["a", "b"]), ir.Lit([1])] + [ir.Ref(d) for d in L.prog.defs] + [ir.Fixed("int8"), ir.Fixed("float32")]
        docs = [True, 0, 1, -1, 1.5, 10**400, "", "a", "x", "2020-13-01", "2020-01-01", "10:00:00Z", "P1D", "!", "QQ==", "PT0.0000001S", "P9999999999999D",
                "::1", "10.0.0.1", [], [1], ["a"], [1, "a"], [1, "a", None], {}, {"a": 1}, {"a": "x"}, {"kind": 1}]
        for a in firsts:
            for b in firsts:
                if a is b or repr(a) == repr(b):
                    continue
                t = L.gen.canonical_union([a, b], False, False)
                if ir.ambiguous_tags(list(t.args)):
                    continue
                for j in docs:
                    ctx.note(type=repr(t), document=lambda: json.dumps(j))
                    judge(ctx, L, t, j)


def conflicting_tags(ctx):
    "Unions whose members share a tag value, or share several tags, cannot be read."
    import typing
    from dataclasses import dataclass
    from typing import Literal, Union

    from strong_typing.serialization import json_to_generic

    for va, vb in [("a", "a"), (1, 1), (True, True)]:
        @dataclass
        class A:
            kind: Literal[va]
            x: int

        @dataclass
        class B:
            kind: Literal[vb]
            y: int

        for doc in ({"kind": va, "x": 1}, {"kind": vb, "y": 1}, {}, None, 1):
            for _ in range(2):
                kind, got = lab.outcome(json_to_generic, Union[A, B], doc)
                ctx.count("evaluations")
                ctx.check(kind == "E", lambda: f"union of classes that share tag {va!r} reads {doc} as {got!r}")
    @dataclass
    class C:
        kind: Literal["a", "b"]

    @dataclass
    class D:
        kind: Literal["b", "c"]

    for doc in ({"kind": "a"}, {"kind": "b"}, {"kind": "c"}):
        kind, got = lab.outcome(json_to_generic, Union[C, D], doc)
        ctx.count("evaluations")
        ctx.check(kind == "E", lambda: f"union of classes that share tag 'b' reads {doc} as {got!r}")


SCENARIOS = [reasons_of_refusal, conflicting_tags]
