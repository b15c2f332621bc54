"C04: errors of deserialization."

import copy
import json

from .. import ir, lab, model, mutate

CASES = {"quick": 4000, "thorough": 120000}
RULE = """A case is a random program with up to nine of its types and a dozen JSON documents for each, most of them near
misses of values (kinds swapped, members dropped, renamed or added, tuple lengths changed, texts damaged, numbers out of
range). A monitor on the outcome checks that a document refused by an independent reference reader raises, that the error
is one of the documented classes and of a class admissible for the defects the document has, that no outcome whatsoever is
another exception, that the document is left as it was (types and order included), and that the same reader then still
reads a valid document. An observation is non-trivial if an error was observed; distinct by type, document and error."""
ASSUMPTIONS = ["a document with several defects may be refused for any of them; documents nested to the interpreter's recursion limit are not tried"]


def judge(ctx, L, t, j, skip=False):
    exp = model.Decoder(skip).decode(t, j)
    before = copy.deepcopy(j)
    kind, got = lab.outcome(L.decode, t, j, skip)
    ctx.count("evaluations")
    ctx.check(model.same_json(before, j, order=True), lambda: f"reading {before!r} as {t} turned the document into {j!r}")
    if kind == "E":
        c = lab.error_kind(got)
        ctx.check(c is not None, lambda: f"{lab.compact(before)} read as {t} fails with {type(got).__name__}: {got}")
        ctx.count(f"errors {type(got).__name__}")
        if exp[0] == "R":
            ctx.check(c in exp[1], lambda: f"{lab.compact(before)} read as {t} fails with {type(got).__name__}: {got}; admissible: {sorted(exp[1])}")
        ctx.check(exp[0] != "A", lambda: f"{lab.compact(before)} denotes {exp[1]!r} of {t} but is refused with {got!r}")
        ctx.distinct(repr(t), json.dumps(before), type(got).__name__)
        ctx.sample(lambda: {"type": repr(t), "document": before, "error": repr(got), "admissible": sorted(exp[1]) if exp[0] == "R" else "any documented"})
    else:
        ctx.check(exp[0] != "R", lambda: f"{lab.compact(before)} does not fit {t} but is read as {got!r}")
    return kind


def usable(ctx, L, t):
    v = L.values().value(t)
    j = model.concrete(model.encode(t, v))
    exp = model.Decoder().decode(t, j)
    kind, got = lab.outcome(L.decode, t, j)
    ctx.check(kind == "A", lambda: f"after errors, {lab.compact(j)} is refused for {t}: {got!r}")
    if exp[0] == "A":
        ctx.check(model.same(t, got, exp[1]), lambda: f"after errors, {lab.compact(j)} read as {t} gives {got!r} instead of {exp[1]!r}")
    ctx.count("valid documents after errors")


def case(ctx, i):
    with lab.Lab(ctx) as L:
        pool = []
        for t in L.types:
            lab.cover(ctx, t)
            failed = False
            for how, j in lab.documents(L, t, 12, pool):
                ctx.note(type=repr(t), document=lambda: json.dumps(j))
                failed |= judge(ctx, L, t, j, skip=L.rng.random() < 0.15) == "E"
            if failed:
                usable(ctx, L, t)


def every_kind_everywhere(ctx):
    "Each scalar and each container replaced by each probe."
    cfg = ir.Config(modules=(1,), n_classes=(3,), n_enums=(6,))
    with lab.Lab(ctx, cfg, 0) as L:
        prims = [ir.prim(k) for k in ir.PRIM_SRC if k != "none"] + [ir.Fixed(n) for n in (*ir.FIXED, *ir.FIXED_FLOAT)]
        prims += [ir.Lit([v]) for v in ("a", 1, True)] + [ir.Lit(["a", ""])] + [ir.Ref(e) for e in L.prog.enums] + [ir.JSON, ir.STRICT]
        prims += [ir.Ref(d) for d in L.prog.classes]
        for p in prims:
            shapes = [p, ir.List(p), ir.Dict(p), ir.Tuple_([p, p])]
            if p.k not in ("json", "strict"):
                shapes += [ir.Opt(p), ir.Union_([ir.List(p), ir.Tuple_([p])])]
            for t in shapes:
                for j in mutate.SCALARS + mutate.COMPOUND:
                    for doc in (j, [j], {"k": j}):
                        ctx.note(type=repr(t), document=lambda: json.dumps(doc))
                        judge(ctx, L, t, doc)
                usable(ctx, L, t)


SCENARIOS = [every_kind_everywhere]
