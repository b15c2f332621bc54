"C07: generated schemas are valid, self-contained and accept every instance."

import dataclasses
import json
import typing

import jsonschema

from strong_typing import schema, serialization

from .. import dated, ir, lab, model, schemas

CASES = {"quick": 700, "thorough": 17000}
RULE = """A case is a random program with registered and unregistered, documented, mutually recursive classes; for up to eight of
its types a schema is generated under each of the three standards with random options. Monitors check the schema against its
meta-schema, resolve every reference in it, look for definitions nothing refers to, and validate random constraint-respecting
values of the type in their JSON form with every format asserted (by format checkers independent of the code under test), and
through validate_object. An instance refused only because several members of a oneOf accept it is attributed to the known
finding, and only where the type has members that overlap. Non-trivial unless trivially small; distinct by type text and
instance."""
ASSUMPTIONS = ["values of times and timestamps have offsets of whole minutes; enumerations have members of a single type"]

STANDARDS = [
    (schema.Validator.Draft7, jsonschema.Draft7Validator),
    (schema.Validator.Draft201909, jsonschema.Draft201909Validator),
    (schema.Validator.Draft202012, jsonschema.Draft202012Validator),
]


def overlapping(t, seen=None):
    "True if a document may fit several members of a union somewhere in a type."
    seen = set() if seen is None else seen
    for n in ir.walk(t):
        if n.k in ("json", "strict"):
            return True
        if n.k == "union":
            kinds = [ir.json_kinds(a) for a in n.args] + ([{"null"}] if n.extra[0] else [])
            for i, a in enumerate(kinds):
                if any(a & b for b in kinds[:i]):
                    return True
    for d in ir.refs(t):
        if not d.is_enum and d not in seen:
            seen.add(d)
            if any(overlapping(f.type, seen) for f in d.fields):
                return True
    return False


def check_schema(ctx, t, s, cls):
    ctx.check(s.get("$schema") == cls.META_SCHEMA["$id"], lambda: f"schema of {t} names standard {s.get('$schema')!r}")
    try:
        cls.check_schema(s)
    except jsonschema.SchemaError as e:
        ctx.fail(f"schema of {t} is not valid: {e.message} at {list(e.absolute_path)}")
    for ref in schemas.references(s):
        ctx.count("references resolved")
        try:
            schemas.pointer(s, ref)
        except (KeyError, IndexError, TypeError, ValueError):
            ctx.fail(f"schema of {t} has reference {ref!r} that leads nowhere; definitions: {sorted(s.get('definitions', {}))}")
    defs = s.get("definitions", {})
    used, todo = set(), list(schemas.references({k: v for k, v in s.items() if k != "definitions"}))
    while todo:
        ref = todo.pop()
        name = ref.removeprefix("#/definitions/")
        if name in used:
            continue
        used.add(name)
        todo += schemas.references(schemas.pointer(s, ref))
    ctx.check(set(defs) == used, lambda: f"schema of {t} has definitions {sorted(set(defs) - used)} that nothing uses")
    ctx.count("schemas checked")


def check_instance(ctx, t, s, cls, j, overlaps):
    err = schemas.first_error(schemas.LENIENT[cls], s, j)
    ctx.check(err is None, lambda: f"{lab.compact(j)} of {t} does not validate: {err}")
    err = schemas.first_error(cls, s, j)
    if err is not None:
        ctx.check(False, lambda: f"{lab.compact(j)} of {t} does not validate: {err}", "oneof-overlap" if overlaps else None)
        return False
    return True


def case(ctx, i):
    r = ctx.rng
    cfg = ir.Config(
        enum_kinds=("str", "str", "int", "float", "bool"), overlap_unions=r.random() < 0.15, json=r.random() < 0.15, docs=r.random() < 0.5,
        register=r.choice([0.0, 0.3, 0.6]), tagged=r.random() < 0.3, class_kinds=("dataclass",) * 10 + ("namedtuple",) * 3 + ("plain",) * 3,
        plain_defaults=True,
    )
    with lab.Lab(ctx, cfg, 3) as L:
        for t in L.types[:8]:
            lab.cover(ctx, t)
            overlaps = overlapping(t)
            ctx.note(type=repr(t))
            T = L.py(t)
            std, cls = r.choice(STANDARDS)
            options = None
            if r.random() < 0.5:
                options = schema.SchemaOptions(use_descriptions=r.random() < 0.5, use_examples=r.random() < 0.5)
            s = schema.classdef_to_schema(T, options, std)
            ctx.note(schema=lambda: json.dumps(s, indent=1))
            check_schema(ctx, t, s, cls)
            for n in range(3):
                v = L.values(constrained=True, portable=True).value(t)
                j = L.encode(t, v)
                ctx.note(instance=lambda: json.dumps(j))
                ok = check_instance(ctx, t, s, cls, j, overlaps)
                ctx.count("evaluations")
                if ok and n == 0:
                    got = lab.outcome(schema.validate_object, T, j)
                    ctx.check(got[0] == "A", lambda: f"validate_object refuses {lab.compact(j)} of {t}: {got[1]}", "oneof-overlap" if overlaps else None)
                    ctx.count("objects validated")
                if not lab.trivial(j):
                    ctx.distinct(repr(t), json.dumps(j))
                    ctx.sample(lambda: {"type": repr(t), "instance": j, "schema": s})


def integers_in_json_data(ctx):
    "JSON data of unknown structure: an integer is both an integer and a number."
    from strong_typing.core import JsonType, StrictJsonType

    for T in (JsonType, StrictJsonType):
        for std, cls in STANDARDS:
            s = schema.classdef_to_schema(T, None, std)
            check_schema(ctx, str(T)[:20], s, cls)
            for j in (True, 1.5, "x", [1.5, "y"], {"a": {"b": [False]}}, 1, [1], {"a": 1}):
                ctx.count("evaluations")
                ints = "1" in json.dumps(j).replace("1.5", "")
                err = schemas.first_error(schemas.LENIENT[cls], s, j)
                ctx.check(err is None, f"{j!r} as JsonType does not validate: {err}")
                err = schemas.first_error(cls, s, j)
                ctx.check(err is None, f"{j!r} does not validate as JsonType: {err}", "oneof-overlap" if ints else None)


def unrestricted_data(ctx):
    "Data of unknown structure (Any), any object (JsonObject) and any array (JsonArray), alone and as a part."
    m = lab.load(UNRESTRICTED)
    docs = [None, True, False, 0, 1, -1.5, "", "x", [], {}, [1, None, "a", [True, {"a": 2.5}]], {"a": [1, {"b": None}], "": 0}, {"$ref": "#/definitions/x"}]
    fits = {"Any": lambda j: True, "JsonObject": lambda j: type(j) is dict, "JsonArray": lambda j: type(j) is list}
    for base, ok in fits.items():
        shapes = {
            base: lambda j: j,
            f"Annotated[{base}, 'note']": lambda j: j,
            f"list[{base}]": lambda j: [j, j],
            f"dict[str, {base}]": lambda j: {"a": j, "b": j},
            f"dict[Key, {base}]": lambda j: {"a": j},
            f"tuple[int, {base}]": lambda j: [1, j],
            f"set[{base}]": lambda j: [j],
            f"list[dict[str, {base}]]": lambda j: [{}, {"": j}],
            f"Data{base}": lambda j: {"field": j, "items": [j], "next": {"field": j, "items": []}},
        }
        if base != "Any":
            shapes[f"Optional[Data{base}]"] = lambda j: {"field": j, "items": []}
            shapes[f"Union[int, {base}]"] = lambda j: j
        for src, wrap in shapes.items():
            T = eval(src, vars(m))
            for std, cls in STANDARDS:
                if src.startswith("tuple") and std is not schema.Validator.Draft202012:
                    continue
                s = schema.classdef_to_schema(T, None, std)
                ctx.note(type=src, schema=lambda: json.dumps(s, indent=1))
                check_schema(ctx, src, s, cls)
                for j in docs:
                    ctx.count("evaluations")
                    d = wrap(j)
                    if not ok(j):
                        if src.startswith("Union[int"):
                            continue
                        if std is schema.Validator.Draft202012:
                            ctx.check(schemas.first_error(cls, s, d) is not None, f"{d!r} validates as {src}")
                        continue
                    err = schemas.first_error(cls, s, d)
                    ctx.check(err is None, f"{d!r} does not validate as {src}: {err}")
                    if std is schema.Validator.Draft202012:
                        got = lab.outcome(schema.validate_object, T, d)
                        ctx.check(got[0] == "A", f"validate_object refuses {d!r} of {src}: {got[1]}")
                    ctx.distinct("unrestricted", src, json.dumps(d))
    lab.unload(m)


UNRESTRICTED = """
import dataclasses, enum
from typing import *
from strong_typing.core import JsonArray, JsonObject
class Key(enum.Enum):
    A = "a"
    B = "b"
""" + "".join(
    f"""
@dataclasses.dataclass
class Data{t}:
    field: {t}
    items: list[{t}]
    next: Optional["Data{t}"] = None
"""
    for t in ("Any", "JsonObject", "JsonArray")
)

INVALID = [
    {"type": "objekt"}, {"type": 1}, {"type": ["string", "string"]}, {"required": "a"}, {"required": [1]}, {"properties": []}, {"properties": {"a": 1}}, {"items": 1},
    {"minLength": -1}, {"minLength": "1"}, {"multipleOf": 0}, {"enum": "a"}, {"pattern": 1}, {"additionalProperties": "no"}, {"oneOf": []}, {"oneOf": [1]}, {"$ref": 1},
    {"uniqueItems": 1}, {"title": 1}, {"format": 1}, {"properties": {"a": {"items": {"type": "x"}}}}, {"maximum": "1"},
]
VALID = [{}, {"type": "object"}, {"type": ["string", "null"]}, {"oneOf": [{"type": "string"}]}, {"type": "object", "properties": {"a": {"type": "integer", "minimum": 1}}, "required": ["a"]}]


def registered_schemas(ctx):
    "A registered schema that is not valid never becomes part of a result, at whatever depth the type occurs; a valid one does."
    for n, (sub, valid) in enumerate([(s, False) for s in INVALID] + [(s, True) for s in VALID]):
        m = lab.load("import dataclasses\nfrom typing import *\n@dataclasses.dataclass\nclass Part:\n    a: int\n@dataclasses.dataclass\nclass Whole:\n    part: list[Part]\n    other: 'Optional[Whole]' = None\n")
        copy = json.loads(json.dumps(sub))
        name = f"registered_part_{n}"
        schema.register_schema(m.Part, schema=sub, name=name)
        try:
            for T in (m.Part, list[m.Part], typing.Optional[m.Part], m.Whole, dict[str, m.Whole]):
                for std, cls in STANDARDS:
                    kind, got = lab.outcome(schema.classdef_to_schema, T, None, std)
                    ctx.note(type=str(T), registered=sub, outcome=lambda: str(got))
                    ctx.count("evaluations")
                    if valid:
                        ctx.check(kind == "A", f"{T} with registered schema {sub}: {got!r}")
                        check_schema(ctx, T, got, cls)
                        ctx.check({k: v for k, v in got["definitions"][name].items() if k != "description"} == copy, f"{T}: definition {got['definitions']} instead of {copy}")
                    else:
                        ctx.check(kind == "E" and isinstance(got, TypeError), f"{T} with registered schema {sub}, which is not valid: {got!r} instead of a type error")
                    ctx.distinct("registered", str(T), json.dumps(sub), std.name)
        finally:
            lab.unload(m)
    for x in (1, "a b", 1.5, [], {}, (), b"x", [int], object(), lab):
        for f in (schema.classdef_to_schema, schema.JsonSchemaGenerator().classdef_to_schema):
            kind, got = lab.outcome(f, x)
            if type(x) is not str:
                ctx.check(kind == "E", f"{x!r}, which is not a type, has schema {got!r}")
            ctx.count("evaluations")


UNUSUAL = """
import datetime, decimal, enum, uuid
from dataclasses import dataclass
from typing import *
class Mixed(enum.Enum):
    A = 1
    B = "b"
class Numbers(enum.Enum):
    A = 1
    B = 2.5
class Truth(enum.Enum):
    A = True
    B = 1.5
class Dates(enum.Enum):
    A = datetime.date(2020, 1, 1)
class Moments(enum.Enum):
    A = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)
class Amounts(enum.Enum):
    A = decimal.Decimal("1.5")
    B = decimal.Decimal("2")
class Ids(enum.Enum):
    A = uuid.UUID("f81d4fae-7dec-11d0-a765-00a0c91e6bf6")
class Truths(enum.Enum):
    "Only true."
    A = True
class Halves(enum.Enum):
    A = 0.5
class Single(enum.Enum):
    A = 1
class Empty(enum.Enum):
    pass
"""
UNUSUAL_TYPES = [  # type and documents that represent its values
    ("Dates", ["2020-01-01"]), ("Moments", ["2020-01-01T00:00:00Z"]), ("Amounts", [1.5, 2]), ("Ids", ["f81d4fae-7dec-11d0-a765-00a0c91e6bf6"]), ("Truths", [True]), ("Halves", [0.5]), ("Mixed", [1, "b"]), ("Numbers", [1, 2.5]), ("Truth", [True, 1.5]), ("Single", [1]), ("Literal[1, 'a']", [1, "a"]), ("Literal[True, 2]", [True, 2]), ("Literal['a', None]", ["a", None]),
    ("Literal[1.5, 'x']", [1.5, "x"]), ("dict[float, int]", [{"1.5": 1}]), ("dict[uuid.UUID, int]", [{"f81d4fae-7dec-11d0-a765-00a0c91e6bf6": 1}]), ("dict[bytes, int]", [{"": 1}]), ("dict[bool, int]", [{"true": 1}, {"True": 1}]),
    ("dict[datetime.date, int]", [{"2020-01-01": 1}]), ("dict[Optional[str], int]", [{"a": 1}]), ("dict[tuple[int, int], int]", [{"": 1}]), ("dict[Mixed, int]", [{"1": 1}, {"b": 1}]), ("dict[Single, int]", [{"1": 1}]),
    ("dict[Annotated[str, 'note'], int]", [{"a": 1}]), ("dict[Union[int, str], int]", [{"a": 1}, {"1": 1}]), ("dict[Literal['a'], int]", [{"a": 1}]),
]


def unusual_types(ctx):
    "A type that has no schema is refused, alone and as a part; a schema that is produced accepts every instance."
    m = lab.load(UNUSUAL)
    wraps = [("{}", lambda j: j), ("list[{}]", lambda j: [j, j]), ("Optional[{}]", lambda j: j), ("dict[str, {}]", lambda j: {"k": j}), ("tuple[int, {}]", lambda j: [1, j]), ("Annotated[{}, 'x']", lambda j: j)]
    try:
        for src, docs in UNUSUAL_TYPES:
            for w, wrap in wraps:
                for field in (False, True):
                    T = eval(w.format(src), vars(m))
                    if field:
                        exec(f"@dataclass\nclass Data:\n    f: {w.format(src)}", vars(m))
                        T = m.Data
                    kind, s = lab.outcome(schema.classdef_to_schema, T)
                    ctx.count("evaluations")
                    ctx.count("unusual types refused" if kind == "E" else "unusual types with a schema")
                    # enumerations whose values are all of one type that has a schema have one
                    ctx.check(kind == "A" or src not in ("Dates", "Moments", "Amounts", "Ids", "Truths", "Halves", "Single"), lambda: f"no schema can be generated for {w.format(src)}: {s!r}")
                    if kind == "E":
                        continue
                    ctx.note(type=w.format(src), schema=lambda: json.dumps(s, indent=1))
                    check_schema(ctx, w.format(src), s, jsonschema.Draft202012Validator)
                    for d in docs:
                        d = {"f": wrap(d)} if field else wrap(d)
                        err = schemas.first_error(schemas.LENIENT[jsonschema.Draft202012Validator], s, d)
                        ctx.check(err is None, f"{d!r} does not validate as {w.format(src)}, which has the schema {s}: {err}")
                        ctx.distinct("unusual", w.format(src), json.dumps(d))
    finally:
        lab.unload(m)


RECURSIVE = {  # style of a field of class X that leads back to X, and a value that has a nested object
    "optional": ("Optional['{X}']", lambda x: x),
    "list": ("list['{X}']", lambda x: [x, x]),
    "mapping": ("dict[str, '{X}']", lambda x: {"k": x}),
    "tuple": ("Optional[tuple['{X}', int]]", lambda x: (x, 1)),
    "union": ("Union['{X}', int, None]", lambda x: x),
}


def names_alike(ctx):
    "Classes of several modules that contain themselves have the same names as others, or as classes that are registered."
    r = ctx.rng
    for n in range(16):
        base = f"Alike_{r.getrandbits(40)}_"
        modules, taken, made = [], set(), []
        try:
            for i in range(r.choice([2, 3, 3, 4])):
                name = r.choice([base, base, base, base + "2", base + "3"])
                style = r.choice(list(RECURSIVE))
                ann, wrap = RECURSIVE[style]
                empty = {"list": "dataclasses.field(default_factory=list)", "mapping": "dataclasses.field(default_factory=dict)"}.get(style, "None")
                via = r.random() < 0.4
                text = "import dataclasses\nfrom typing import *\n"
                text += f"@dataclasses.dataclass\nclass {name}:\n    tag{i}: int\n    v{i}: {ann.format(X=base + 'Link' if via else name)} = {empty}\n"
                if via:
                    text += f"@dataclasses.dataclass\nclass {base}Link:\n    link{i}: Optional[{name}] = None\n"
                m = lab.load(text)
                modules.append(m)
                cls, step = getattr(m, name), (getattr(m, base + "Link") if via else lambda x: x)
                if name not in taken and r.random() < 0.4:
                    taken.add(name)
                    schema.register_schema(cls)
                if via and base + "Link" not in taken and r.random() < 0.3:
                    taken.add(base + "Link")
                    schema.register_schema(step)

                def build(depth, cls=cls, step=step, wrap=wrap):
                    v = cls(0)
                    for d in range(1, depth + 1):
                        v = cls(d, wrap(step(v)))
                    return v

                made.append((cls, build, style))
            order = [r.choice(made) for _ in range(r.choice([1, 2]))] + made
            r.shuffle(order)
            g = schema.JsonSchemaGenerator()
            for how in ("tuple", "class", "union", "again"):
                if how == "class":
                    H = dataclasses.make_dataclass(base + "Holder", [(f"f{k}", c) for k, (c, _, _) in enumerate(order)], module=modules[0].__name__)
                    T, instances = H, [H(*(b(r.randrange(4)) for _, b, _ in order)), H(*(b(3) for _, b, _ in order))]
                elif how == "union":
                    T = typing.Union[tuple(c for c, _, _ in order)]
                    instances = [b(3) for _, b, _ in order]
                else:
                    T = tuple[tuple(c for c, _, _ in order)]
                    instances = [tuple(b(r.randrange(4)) for _, b, _ in order), tuple(b(3) for _, b, _ in order)]
                ctx.note(type=str(T), classes=[f"{c} {s}" for c, _, s in order], registered=sorted(taken))
                for std, cls in STANDARDS:
                    s = schema.classdef_to_schema(T, None, std)
                    ctx.note(schema=lambda: json.dumps(s, indent=1))
                    check_schema(ctx, T, s, cls)
                    for v in instances:
                        j = serialization.object_to_json(v)
                        err = schemas.first_error(schemas.LENIENT[cls], s, j)
                        ctx.check(err is None, lambda: f"{json.dumps(j)} does not validate as {T}: {err}")
                        ctx.count("evaluations")
                        ctx.distinct("alike", how, [str(c[2]) for c in order], len(taken), json.dumps(j))
                # a generator that has been used before gives the same
                body, defs = g.classdef_to_schema(T)
                ctx.check(json.dumps({"definitions": defs, **body} if defs else body) == json.dumps({k: v for k, v in s.items() if k != "$schema"}), lambda: f"{T}: a generator used before gives {body} with {defs} instead of {s}")
        finally:
            for m in modules:
                lab.unload(m)


def enumerations_of_other_values(ctx):
    "Members of enumerations of dates, identifiers, numbers or binary data, in types and as defaults."
    m = lab.load(dated.SOURCE)
    try:
        for T, v, j in dated.rows(m):
            for std, cls in STANDARDS:
                s = schema.classdef_to_schema(T, None, std)
                ctx.note(type=str(T), schema=lambda: json.dumps(s, indent=1))
                check_schema(ctx, T, s, cls)
                for d in (j, serialization.object_to_json(v)):
                    err = schemas.first_error(schemas.LENIENT[cls], s, d)
                    ctx.check(err is None, lambda: f"{d!r} does not validate as {T}: {err}")
                for n, p in s.get("properties", {}).items():
                    if "default" in p:
                        err = schemas.first_error(schemas.LENIENT[cls], p, p["default"])
                        ctx.check(err is None, lambda: f"default {p['default']!r} of {n} does not validate: {err}")
                ctx.count("evaluations")
            ctx.distinct("enumeration", str(T), repr(j))
    finally:
        lab.unload(m)


SCENARIOS = [enumerations_of_other_values, unusual_types, integers_in_json_data, unrestricted_data, registered_schemas, names_alike]
