"C08: generated schemas reject documents that do not fit."

import json

import jsonschema

from strong_typing import schema

from .. import ir, lab, model, mutate, schemas

CASES = {"quick": 450, "thorough": 14000}
RULE = """A case is a random program; for up to eight of its types a schema is generated and thirty JSON documents, near misses of
values for the most part, are validated against it with every format asserted by format checkers independent of the code under
test. A monitor demands that the schema rejects each document that by an independent reference cannot represent the type (kinds,
required and unknown members, listed values, lengths, tuple items, repeated set items, keys, texts, ranges), and that
validate_object raises a validation error for the documents that fail regardless of format, and exactly for those that fail with
the formats the installed validator checks. An observation is non-trivial if the document is one to be rejected; distinct by type
and document."""
ASSUMPTIONS = ["integral floats for integers, malformed Base64, lenient time texts, and nulls for optional members are left open", "2020-12 standard (tuples have no items in the older ones)"]


def judge(ctx, t, T, s, j, native):
    fits = schemas.Fits()(t, j)
    ctx.count("evaluations")
    ok = schemas.first_error(jsonschema.Draft202012Validator, s, j) is None
    if fits is False:
        ctx.count("documents to be rejected")
        ctx.check(not ok, lambda: f"schema of {t} accepts {json.dumps(j)}, which cannot represent the type")
        ctx.distinct(repr(t), json.dumps(j))
        ctx.sample(lambda: {"type": repr(t), "rejected": j})
    elif fits is True:
        ctx.count("documents that fit")
        err = schemas.first_error(schemas.LENIENT[jsonschema.Draft202012Validator], s, j)
        ctx.check(err is None, lambda: f"schema of {t} rejects {json.dumps(j)}: {err}")
    if native is None:
        return
    kind, got = lab.outcome(schema.validate_object, T, j)
    ctx.count("objects validated")
    if kind == "E":
        ctx.check(isinstance(got, jsonschema.ValidationError), lambda: f"validate_object fails for {json.dumps(j)} of {t} with {type(got).__name__}: {got}")
    if schemas.Fits(formats=False)(t, j) is False:
        ctx.check(kind == "E", lambda: f"validate_object accepts {json.dumps(j)}, which cannot represent {t}")
    ctx.check((kind == "A") == native.is_valid(j), lambda: f"validate_object {'accepts' if kind == 'A' else 'refuses'} {json.dumps(j)} of {t}, unlike its schema with the installed format checks")


def case(ctx, i):
    r = ctx.rng
    cfg = ir.Config(
        enum_kinds=("str", "str", "int", "float", "bool"), overlap_unions=r.random() < 0.3, json=r.random() < 0.2,
        register=r.choice([0.0, 0.3]), tagged=r.random() < 0.4, class_kinds=("dataclass",) * 10 + ("namedtuple",) * 3 + ("plain",) * 3,
    )
    with lab.Lab(ctx, cfg, 4) as L:
        pool = []
        for t in L.types[:8]:
            lab.cover(ctx, t)
            T = L.py(t)
            full = r.random() < 0.25
            s = schema.classdef_to_schema(T) if full else derive(T)
            ctx.note(type=repr(t), schema=lambda: json.dumps(s, indent=1))
            native = jsonschema.Draft202012Validator(s, format_checker=jsonschema.Draft202012Validator.FORMAT_CHECKER) if full else None
            for n, (how, j) in enumerate(docs(L, t, 30, pool)):
                ctx.note(document=lambda: json.dumps(j))
                judge(ctx, t, T, s, j, native if n < 2 else None)


def derive(T):
    "The schema without the (slow) check against the meta-schema."
    node, definitions = schema.JsonSchemaGenerator().classdef_to_schema(T)
    return {"definitions": definitions, **node}


def docs(L, t, n, pool):
    yield from lab.documents(L, t, n - 6, pool)
    for _ in range(6):
        # values that do not meet their constraints
        yield "unconstrained", model.concrete(model.encode(t, L.values().value(t)))


def formats_and_constraints(ctx):
    "Each format and constraint against a list of texts and numbers."
    texts = [x for x in mutate.SCALARS if type(x) is str] + ["2020-2-29", "2020-02-29T12:00Z", "12:00:61Z", "P", "P1Y", "1D", "g" * 36, "256.0.0.1", ":::", "1::2::3"]
    nums = [-(2**64), -(2**63) - 1, -(2**63), -(2**31) - 1, -(2**31), -32769, -32768, -129, -128, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 0.5, 1.5, 99.99, 99.999, 100, 999, 1000, -100, 12.345]
    lengths = ["", "a", "ab", "abc", "abcd", "äö", "😀", "abcdefghijk"]
    ts = [ir.prim(k) for k in "datetime date time timedelta uuid ipv4 ipv6 bytes str".split()]
    ns = [ir.Fixed(n) for n in ir.FIXED] + [ir.Ann(ir.prim("int"), [("IntegerRange", (-5, 7))]), ir.Ann(ir.prim("int"), [("IntegerRange", (0, 0))])]
    ns += [ir.Ann(ir.prim(p), [("Precision", a)]) for p in ("float", "decimal") for a in ((4, 2), (3,  0), (5, 1))]
    ls = [ir.Ann(ir.prim("str"), [m]) for m in (("MinLength", (1,)), ("MaxLength", (3,)), ("Length", (2,)), ("MinLength", (0,)), ("MaxLength", (0,)))]
    ls += [ir.Ann(ir.prim("str"), [("MinLength", (1,)), ("MaxLength", (3,))]), ir.Ann(ir.prim("str"), [("raw", ("note",)), ("MaxLength", (2,)), ("Alias", ("x",))])]
    with lab.Lab(ctx, ir.Config(modules=(1,), n_classes=(2,), n_enums=(6,), enum_kinds=("str", "int", "bool", "float")), 0) as L:
        for group, docs in ((ts, texts), (ns, nums), (ls, lengths)):
            for t in group:
                for shape, wrap in ((t, lambda x: x), (ir.List(t), lambda x: [x]), (ir.Dict(t), lambda x: {"k": x}), (ir.Opt(t), lambda x: x), (ir.Tuple_([t, ir.prim("bool")]), lambda x: [x, True])):
                    T = L.py(shape)
                    s = derive(T)
                    ctx.note(type=repr(shape), schema=lambda: json.dumps(s, indent=1))
                    native = jsonschema.Draft202012Validator(s, format_checker=jsonschema.Draft202012Validator.FORMAT_CHECKER)
                    for j in docs + [None, True, [], {}, 1, "a"]:
                        doc = wrap(j)
                        if shape.k == "union" and t.k == "ann" and t.extra[0][0] == "Precision":
                            continue
                        ctx.note(document=lambda: json.dumps(doc))
                        judge(ctx, shape, T, s, doc, native if shape is t else None)


SCENARIOS = [formats_and_constraints]
