"C09: annotations, definitions and options of schemas."

import contextlib
import io
import json
from typing import Annotated, Optional, Union

import jsonschema

from strong_typing import schema
from strong_typing.auxiliary import Alias

from .. import dated, ir, lab, model, peculiar, schemas

CASES = {"quick": 2500, "thorough": 70000}
RULE = """A case is a random program of documented classes and enumerations, many of them registered (with own names, own schemas and
examples), with aliases, defaults and annotations; for up to nine of its types a schema is generated with random options (path of
definitions, descriptions, examples, description transformer), by classdef_to_schema and by the generator class. A monitor
walks type and schema side by side and compares everything the schema says (fields and their order, required, types, formats,
constraints, defaults, titles, descriptions, examples, references, definitions) with what the definition in the program says, and
checks that the transformer was called with the class, name and text of documented fields. Non-trivial if a class was compared;
distinct by type text, definitions and options."""
ASSUMPTIONS = ["the title of an undocumented named tuple, and defaults that are not plain scalars or dates are left open"]


def transformer(calls):
    def describe(typ, name, text):
        calls.append((typ, name, text))
        if text == "x":
            return ""
        return f"<{typ.__name__}.{name}: {text}>"

    return describe


def case(ctx, i):
    r = ctx.rng
    cfg = ir.Config(
        enum_kinds=("str", "str", "int", "float", "bool"), docs=True, register=r.choice([0.0, 0.3, 0.7]), register_rich=True, plain_defaults=True,
        class_kinds=("dataclass",) * 10 + ("namedtuple",) * 3 + ("plain",) * 3, depth=2,
    )
    with lab.Lab(ctx, cfg, 3) as L:
        for t in L.types:
            lab.cover(ctx, t)
            T = L.py(t)
            path = r.choice(["#/definitions/", "#/definitions/", "#/components/schemas/", "#/$defs/", "other.json#/", "urn:example:", "#"])
            descriptions, examples = r.random() < 0.6, r.random() < 0.6
            calls = []
            describe = transformer(calls) if r.random() < 0.4 else None
            options = schema.SchemaOptions(definitions_path=path, use_descriptions=descriptions, use_examples=examples, property_description_fun=describe)
            if r.random() < 0.2:
                path, descriptions, examples, describe, options = "#/definitions/", True, True, None, None
            how = r.randrange(3)
            ctx.note(type=repr(t), options=repr(options))
            if how == 0:
                s = schema.classdef_to_schema(T, options)
            elif how == 1:
                node, definitions = schema.JsonSchemaGenerator(options).classdef_to_schema(T)
                s = {**node, "definitions": definitions}
            else:
                # the type itself is spelled out even if it is registered
                node, definitions = schema.JsonSchemaGenerator(options).classdef_to_schema(T, force_expand=True)
                s = {**node, "definitions": definitions}
            ctx.note(schema=lambda: json.dumps(s, indent=1))
            c = schemas.Compare(s, path, descriptions, examples, transformer([]) if describe else None)
            try:
                if how == 2 and ir.strip_ann(t).k == "ref":
                    d = ir.strip_ann(t).extra
                    saved = d.registered
                    c.body(d, {k: v for k, v in s.items() if k != "definitions"}, "$")
                else:
                    c.root(t, s)
            except schemas.Differ as e:
                ctx.fail(f"schema of {t}: {e}")
            for typ, name, text in calls:
                owners = [d for d in L.prog.classes if d.cls is typ]
                ok = owners and any(name in b.doc_parts[2] and b.doc_parts[2][name] == text for b in owners[0].bases_chain())
                ctx.check(ok, lambda: f"description transformer called with {typ}, {name!r}, {text!r}, which is not the documentation of a field")
            ctx.count("evaluations")
            ctx.count("properties compared", c.properties)
            ctx.count("definitions compared", len(c.used))
            ctx.count("transformer calls", len(calls))
            if c.properties:
                ctx.distinct(repr(t), json.dumps(s))
                ctx.sample(lambda: {"type": repr(t), "options": repr(options), "schema": s})


def identifiers(ctx):
    "Registered types are known by their registered name."
    from dataclasses import dataclass

    @dataclass
    class PlainlyRegistered:
        a: int

    @dataclass
    class RegisteredElsewhere:
        a: PlainlyRegistered

    @dataclass
    class NotRegistered:
        a: RegisteredElsewhere

    schema.register_schema(PlainlyRegistered)
    got = schema.register_schema(RegisteredElsewhere, name="Else", examples=[{"a": {"a": 1}}])
    ctx.check(got is RegisteredElsewhere, "register_schema does not return its argument")
    for cls, name in ((PlainlyRegistered, "PlainlyRegistered"), (RegisteredElsewhere, "Else"), (NotRegistered, None)):
        ctx.count("evaluations")
        ctx.check(schema.get_schema_identifier(cls) == name, f"identifier of {cls} is {schema.get_schema_identifier(cls)!r} instead of {name!r}")
    s = schema.classdef_to_schema(NotRegistered)
    ctx.check(sorted(s["definitions"]) == ["Else", "PlainlyRegistered"], f"definitions are {sorted(s['definitions'])}")
    ctx.check(s["definitions"]["Else"].get("examples") == [{"a": {"a": 1}}], "examples are missing")
    kind, e = lab.outcome(schema.register_schema, PlainlyRegistered)
    ctx.check(kind == "E" and isinstance(e, ValueError), "a type can be registered twice")
    kind, e = lab.outcome(schema.classdef_to_schema, 5)
    ctx.check(kind == "E" and isinstance(e, TypeError), "a schema is generated for something that is not a type")
    # a registered type, with or without annotations, is spelled out on demand only, at the top only
    for T in (RegisteredElsewhere, Annotated[RegisteredElsewhere, "note"], Annotated[RegisteredElsewhere, Alias("other")]):
        g = schema.JsonSchemaGenerator()
        node, definitions = g.classdef_to_schema(T)
        ctx.check(node == {"$ref": "#/definitions/Else"} and sorted(definitions) == ["Else", "PlainlyRegistered"], lambda: f"schema of {T} is {node} with {sorted(definitions)}")
        node, definitions = g.classdef_to_schema(T, force_expand=True)
        ctx.check(node.get("properties") == {"a": {"$ref": "#/definitions/PlainlyRegistered"}} and sorted(definitions) == ["PlainlyRegistered"], lambda: f"expanded schema of {T} is {node} with {sorted(definitions)}")
        ctx.check(g.type_to_schema(T) == {"$ref": "#/definitions/Else"}, lambda: f"schema of {T} is {g.type_to_schema(T)}")
        ctx.count("evaluations")
    ctx.distinct("identifiers")


PRINTED = """
import dataclasses, enum
from typing import *
class Color(enum.Enum):
    "Colors, e.g. \u00e4 and \\"quoted\\"."
    RED = "red"
@dataclasses.dataclass
class Node:
    '''
    A node.

    :param value: Its value \u2013 with a dash.
    :param next: The next node.
    '''
    value: int = 3
    color: Optional[Color] = None
    next: Optional["Node"] = None
"""


def printed(ctx):
    "The schema as text is the schema."
    m = lab.load(PRINTED)
    try:
        for T in (int, str, m.Color, m.Node, list[m.Node], dict[m.Color, Optional[m.Node]], Union[int, str, m.Color], Annotated[int, "note"]):
            s = schema.classdef_to_schema(T)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                schema.print_schema(T)
            kind, got = lab.outcome(json.loads, out.getvalue())
            ctx.check(kind == "A" and got == s and json.dumps(got) == json.dumps(s), lambda: f"schema of {T} is printed {out.getvalue()!r}")
            ctx.count("evaluations")
            ctx.distinct("printed", out.getvalue())
    finally:
        lab.unload(m)


DATED = """
import datetime, decimal, enum, uuid
from dataclasses import dataclass
class Dates(enum.Enum):
    """ + '"""' + """
    Days off.

    Days nobody works.
    """ + '"""' + """
    A = datetime.date(2020, 1, 1)
class Ids(enum.Enum):
    "Identifiers."
    A = uuid.UUID("f81d4fae-7dec-11d0-a765-00a0c91e6bf6")
class Amounts(enum.Enum):
    A = decimal.Decimal("1.5")
class Words(enum.Enum):
    "Words."
    A = "a"
@dataclass
class Holder:
    "Holder."
    a: Dates
    b: Ids
    c: Amounts
    d: Words
"""


def enumerations_of_other_values(ctx):
    "Enumerations whose values are not plain scalars: documentation, format, options."
    m = lab.load(DATED)
    docs = {"Dates": {"title": "Days off.", "description": "Days nobody works."}, "Ids": {"title": "Identifiers."}, "Amounts": {}, "Words": {"title": "Words."}}
    body = {"Dates": {"type": "string", "format": "date"}, "Ids": {"type": "string", "format": "uuid"}, "Amounts": {"type": "number"}, "Words": {"type": "string", "enum": ["a"]}}
    try:
        for descriptions in (True, False):
            options = schema.SchemaOptions(use_descriptions=descriptions)
            want = {n: {**body[n], **(docs[n] if descriptions else {})} for n in body}
            for n, w in want.items():
                T = vars(m)[n]
                for t, e in ((T, w), (list[T], {"type": "array", "items": w}), (Annotated[T, "note"], w)):
                    got = {k: v for k, v in schema.classdef_to_schema(t, options).items() if k != "$schema"}
                    ctx.check(got == e, lambda: f"schema of {t} with use_descriptions={descriptions} is {got}, not {e}")
                    ctx.count("evaluations")
            got = schema.classdef_to_schema(m.Holder, options)["properties"]
            ctx.check(got == dict(zip("abcd", want.values())), lambda: f"properties of a class with enumerations are {got}, not {want}")
            ctx.distinct("enumerations", descriptions)
    finally:
        lab.unload(m)


ALIASED = """
import enum
from dataclasses import dataclass
from typing import Optional
class Level(enum.Enum):
    LOW = 1
    MINOR = 1
    HIGH = 2
    MAJOR = 2
    least = LOW
class Word(enum.Enum):
    A = "a"
    B = "a"
class Flagged(enum.IntEnum):
    ONE = 1
    UNO = 1
@dataclass
class Holder:
    level: Level = Level.MINOR
    words: Optional[dict[Word, Flagged]] = None
"""


def enumerations_with_aliases(ctx):
    "Several names of one member: its value is listed once, whatever the standard."
    m = lab.load(ALIASED)
    try:
        for std in schema.Validator:
            for T, values in ((m.Level, [1, 2]), (m.Word, ["a"]), (m.Flagged, [1])):
                got = lab.outcome(schema.classdef_to_schema, T, None, std)
                ctx.check(got[0] == "A" and got[1].get("enum") == values, lambda: f"schema of {T}, which has members under several names, is {got[1]!r}")
                ctx.count("evaluations")
            got = schema.classdef_to_schema(m.Holder, None, std)["properties"]
            ctx.check(got["level"] == {"type": "integer", "enum": [1, 2], "default": 1} and list(got["words"]["properties"]) == ["a"], lambda: f"properties of a class with enumerations whose members have several names are {got}")
            ctx.distinct("aliases", std)
    finally:
        lab.unload(m)


STANDARDS = {"Draft7": jsonschema.Draft7Validator, "Draft201909": jsonschema.Draft201909Validator, "Draft202012": jsonschema.Draft202012Validator, "Latest": jsonschema.Draft202012Validator}
PARTS = [
    {"type": "array", "items": [{"type": "string"}]}, {"enum": [1, 1]}, {"additionalItems": 1}, {"$recursiveAnchor": 1}, {"prefixItems": []}, {"unevaluatedItems": 1}, {"$dynamicRef": 1}, {"$id": "a#b"}, {"minContains": -1},
    {"dependentRequired": 1}, {"type": "text"}, {"minimum": "a"}, {"type": "string", "minLength": 1}, {"x-unknown": 1}, {"properties": {"a": {"$anchor": 1}}}, {"if": 1}, {"examples": 1}, {"items": {"items": {"items": [True]}}},
]


def allowed(validator, part):
    try:
        validator.check_schema({"definitions": {"R": part}})
    except jsonschema.SchemaError:
        return False
    return True


def other_standards(ctx):
    "A schema is refused exactly if the chosen standard does not allow it, wherever the part at fault is."
    text = "from dataclasses import dataclass\nfrom typing import Optional\nfrom strong_typing.schema import json_schema_type\n"
    for n, part in enumerate(PARTS):
        text += f"@json_schema_type(schema={part})\nclass R{n}:\n    x: int\n@dataclass\nclass H{n}:\n    f: R{n}\n    g: 'Optional[list[R{n}]]' = None\n"
    m = lab.load(text)
    try:
        for n, part in enumerate(PARTS):
            refused = {k for k, v in STANDARDS.items() if not allowed(v, part)}
            ctx.count(f"refused by {len(refused)} standards")
            R, H = vars(m)[f"R{n}"], vars(m)[f"H{n}"]
            for T in (R, list[R], Optional[H], H, dict[str, list[H]]):
                for std in STANDARDS:
                    kind, got = lab.outcome(schema.classdef_to_schema, T, None, schema.Validator[std])
                    ctx.check(kind == "E" and isinstance(got, TypeError) if std in refused else kind == "A", lambda: f"schema of {T}, in which {R} is described by {part}, for the standard {std}: {got!r}")
                    if kind == "A":
                        ctx.check(got["$schema"] == STANDARDS[std].META_SCHEMA["$id"], lambda: f"schema of {T} for {std} names {got['$schema']}")
                    ctx.count("evaluations")
            kind, got = lab.outcome(schema.classdef_to_schema, H)
            ctx.check(kind == ("E" if "Latest" in refused else "A"), lambda: f"schema of {H}, in which {R} is described by {part}: {got!r}")
            ctx.distinct("standards", str(part))
    finally:
        lab.unload(m)


def constraints(ctx):
    "Every value of every annotation that restricts numbers and strings, alone and inside of other types."
    from dataclasses import make_dataclass
    from decimal import Decimal

    from strong_typing.auxiliary import IntegerRange, Length, MaxLength, MinLength, Precision

    cases = []
    for s in range(1, 25):
        for d in {0, 1, 2, s // 2, s - 1, s} & set(range(s + 1)):
            for T in (float, Decimal):
                cases.append((Annotated[T, Precision(s, d)], {"type": "number", "multipleOf": 10.0**-d, "exclusiveMinimum": -(10 ** (s - d)), "exclusiveMaximum": 10 ** (s - d)}))
    for n in (0, 1, 2, 7, 100, 1 << 31, 1 << 40):
        cases.append((Annotated[str, MinLength(n)], {"type": "string", "minLength": n}))
        cases.append((Annotated[str, MaxLength(n)], {"type": "string", "maxLength": n}))
        cases.append((Annotated[str, Length(n)], {"type": "string", "minLength": n, "maxLength": n}))
        cases.append((Annotated[str, MinLength(n), "note", MaxLength(n + 5)], {"type": "string", "minLength": n, "maxLength": n + 5}))
        for low in (-n, 0, n, -(1 << 70)):
            cases.append((Annotated[int, IntegerRange(low, n + 1)], {"type": "integer", "minimum": low, "maximum": n + 1}))
    for T, want in cases:
        C = make_dataclass("Holder", [("a", T), ("c", Annotated[T, Alias("other")]), ("b", Optional[list[T]], None)])
        C.__module__ = __name__
        for outer, pick in ((T, lambda g: [g]), (list[T], lambda g: [g["items"]]), (dict[str, T], lambda g: [g["additionalProperties"]]), (C, lambda g: [g["properties"]["a"], g["properties"]["b"]["items"], g["properties"]["other"]])):
            kind, got = lab.outcome(schema.classdef_to_schema, outer)
            ctx.check(kind == "A", lambda: f"no schema for {outer}: {got!r}")
            for g in pick(got):
                g = {k: v for k, v in g.items() if k != "$schema"}
                ctx.check(
                    g.keys() == want.keys() and all(g[k] == want[k] if k != "multipleOf" else abs(g[k] / want[k] - 1) < 1e-12 for k in want),
                    lambda: f"schema of {T} within {outer} is {g}, not {want}",
                )
            ctx.count("evaluations")
        ctx.distinct("constraint", str(T))


def peculiar_defaults(ctx):
    "Defaults that are equal to None, false, empty or cannot be compared leave the rest of the schema as it is."
    text, classes = peculiar.source()
    for name, kind, odd in classes:
        if odd not in ("unhashable", "hash_fails", "nameless"):
            text += f"DEFAULT_{name} = {name}(9, 'd')\n@dataclasses.dataclass(eq=False)\nclass Defaults_{name}:\n    a: int\n    f: {name} = DEFAULT_{name}\n    o: Optional[{name}] = DEFAULT_{name}\n    i: int = 0\n    s: str = ''\n    b: bool = False\n"
    m = lab.load(text)
    try:
        for name, kind, odd in classes:
            T = vars(m).get("Defaults_" + name)
            if T is None or kind == "untyped":
                continue
            k, got = lab.outcome(schema.classdef_to_schema, T)
            ctx.check(k == "A", lambda: f"no schema for a class with a default of a {kind} class ({odd}): {got!r}")
            ctx.check(list(got["properties"]) == ["a", "f", "o", "i", "s", "b"] and sorted(got["required"]) == ["a", "b", "f", "i", "s"], lambda: f"schema of a class with a default of a {kind} class ({odd}) is {got}")
            d = {n: p.get("default") for n, p in got["properties"].items() if n in "aisb"}
            ctx.check(d == {"a": None, "i": 0, "s": "", "b": False} and "default" not in got["properties"]["a"], lambda: f"defaults in the schema are {d}")
            inner = [x for x in (got["properties"]["f"], got["properties"]["o"]) if "properties" in x]
            ctx.check(all(list(x["properties"]) == ["x", "y"] for x in inner), lambda: f"schema of a {kind} class ({odd}) is {inner}")
            ctx.count("evaluations")
            ctx.distinct("peculiar", name)
    finally:
        lab.unload(m)


def enumerations_as_defaults(ctx):
    "The default of a field whose type is an enumeration of dates, identifiers or numbers is given in its JSON form."
    m = lab.load(dated.SOURCE)
    try:
        for std in schema.Validator:
            kind, got = lab.outcome(schema.classdef_to_schema, m.Defaults, validator=std)
            ctx.check(kind == "A", lambda: f"no schema for a class with defaults that are members of enumerations: {got!r}")
            ctx.check(model.pure_json(got), lambda: f"schema is not plain JSON data: {got!r}")
            d = {n: p.get("default") for n, p in got["properties"].items()}
            want = dict(dated.DEFAULTS)
            ctx.check(d == want, lambda: f"defaults in the schema are {d}, not {want}")
            ctx.count("evaluations")
            ctx.distinct("enumeration defaults", std.name)
    finally:
        lab.unload(m)


SCENARIOS = [enumerations_as_defaults, identifiers, printed, constraints, other_standards, enumerations_with_aliases, enumerations_of_other_values, peculiar_defaults]
