"C12: no operation changes or shares its inputs, types or shared state."

import copy
import dataclasses
import datetime
import decimal
import enum
import io
import ipaddress
import json
import sys
import types
import typing
import uuid

import strong_typing.auxiliary
import strong_typing.core
from strong_typing import docstring, inspection, name, schema, serialization, topological
from strong_typing.classdef import JsonSchemaTopLevelObject, SchemaFlattener, SchemaFlatteningOptions, flatten_schema, schema_to_type
from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.serializer import create_serializer

from .. import digest, ir, lab, model, mutate, runner
from . import c13

CASES = {"quick": 500, "thorough": 25000}
RULE = """A case is a random program (data classes with default factories, named tuples, enumerations, registered classes with schemas and
examples, documentation) and the operations of the library on its types, values and documents: writing, reading valid and invalid
documents, generating schemas, validating, flattening, generating classes, sorting, inspecting, naming, parsing documentation. Monitors
take a deep snapshot (identity of every mutable part, type, content and order) of the inputs before and after, and of every class of the
program (attributes, annotations, fields, members) and of the standard library classes and modules involved. The mutable parts of each
result are intersected with those of the inputs, of an equal earlier result, and of the registered schemas and examples; then a result is
overwritten in every place and the operation repeated, which must give what it gave before. Non-trivial if the result has a mutable part;
distinct by operation and result."""
ASSUMPTIONS = [
    "a default that is given as an object rather than by a factory belongs to the class and is shared by design",
    "attaching types to a docstring that is passed for that purpose is not a modification in the sense of the property",
    "an empty mapping of annotations that Python adds to a class on access is not a change of the class",
]
ATOMS = (bool, int, float, str, bytes, complex, decimal.Decimal, datetime.date, datetime.time, datetime.timedelta, datetime.tzinfo, uuid.UUID,
         ipaddress.IPv4Address, ipaddress.IPv6Address, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.MethodType, enum.Enum, type(None))


def is_expression(v):
    "A type expression, such as `list[int]`, which is not a value."
    return typing.get_origin(v) is not None or isinstance(v, (typing.TypeVar, typing.ForwardRef)) or type(v).__module__ == "typing"


def state(v):
    "Attributes of an instance, or None if it has none."
    t = type(v)
    out = {}
    d = getattr(v, "__dict__", None)
    if isinstance(d, dict):
        out.update(d)
    for c in t.__mro__:
        slots = c.__dict__.get("__slots__", ())
        for s in (slots,) if isinstance(slots, str) else slots:
            if s not in ("__dict__", "__weakref__") and hasattr(v, s):
                out[s] = getattr(v, s)
    return out


def frozen(t):
    p = getattr(t, "__dataclass_params__", None)
    return p is not None and p.frozen


def walk(v, visit, seen=None):
    "Calls `visit` for each mutable part of a value."
    seen = {} if seen is None else seen
    if isinstance(v, ATOMS) or is_expression(v):
        return
    if id(v) in seen:
        return
    seen[id(v)] = v
    if isinstance(v, dict):
        visit(v)
        for k, x in list(v.items()):
            walk(k, visit, seen)
            walk(x, visit, seen)
    elif isinstance(v, (list, set)):
        visit(v)
        for x in list(v):
            walk(x, visit, seen)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            walk(x, visit, seen)
    elif not hasattr(v, "__next__"):
        if not frozen(type(v)):
            visit(v)
        for x in list(state(v).values()):
            walk(x, visit, seen)


def parts(v):
    out = {}
    walk(v, lambda x: out.__setitem__(id(x), x))
    return out


def snapshot(v, depth=0, seen=None):
    "Identity of mutable parts, types, contents and order."
    seen = set() if seen is None else seen
    t = type(v)
    if v is None or t in (bool, int, float, str, bytes):
        return (t.__name__, v if v == v else "nan")
    if isinstance(v, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)) or is_expression(v):
        return ("=", id(v), repr(v))
    if isinstance(v, ATOMS):
        return (t.__name__, repr(v))
    if id(v) in seen:
        return ("again", id(v))
    seen.add(id(v))
    if isinstance(v, dict):
        return ("dict", id(v), t.__name__, tuple((snapshot(k, depth + 1, seen), snapshot(x, depth + 1, seen)) for k, x in v.items()))
    if isinstance(v, list):
        return ("list", id(v), t.__name__, tuple(snapshot(x, depth + 1, seen) for x in v))
    if isinstance(v, (set, frozenset)):
        return (t.__name__, id(v), tuple(sorted((repr(snapshot(x, depth + 1, seen)) for x in v))))
    if isinstance(v, tuple):
        return ("tuple", t.__name__, tuple(snapshot(x, depth + 1, seen) for x in v))
    return ("object", id(v), t.__name__, tuple((k, snapshot(x, depth + 1, seen)) for k, x in state(v).items()))


def describe_class(c):
    "What defines a class."
    out = {}
    for k, v in vars(c).items():
        if k in ("__weakref__", "__dict__", "__slotnames__", "_abc_impl", "__static_attributes__"):
            continue
        if k == "__annotations__":
            if v:
                out[k] = tuple((n, id(a) if not isinstance(a, str) else a, repr(a)) for n, a in v.items())
            continue
        if k == "__dataclass_fields__":
            out[k] = tuple((n, id(f), repr(f.type), id(f.default), id(f.default_factory), repr(f.default), f.init, f.kw_only, repr(dict(f.metadata))) for n, f in v.items())
            continue
        if isinstance(v, (types.FunctionType, type, property, classmethod, staticmethod)):
            out[k] = id(v)
        elif isinstance(v, ATOMS):
            out[k] = (id(v), repr(v))
        else:
            out[k] = snapshot(v)
    out["bases"] = tuple(map(id, c.__bases__))
    out["names"] = (c.__name__, c.__qualname__, c.__module__, c.__doc__)
    if isinstance(c, type) and issubclass(c, enum.Enum):
        out["members"] = tuple((n, id(m), repr(m.value)) for n, m in c.__members__.items())
    return out


def changes(a, b):
    return [f"{k}: {runner.clip(repr(a.get(k)), 150)} -> {runner.clip(repr(b.get(k)), 150)}" for k in dict.fromkeys([*a, *b]) if a.get(k) != b.get(k)]


STDLIB = [uuid.UUID, decimal.Decimal, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, datetime.timezone, ipaddress.IPv4Address, ipaddress.IPv6Address, enum.Enum, enum.EnumMeta,
          enum.IntEnum, uuid.SafeUUID, Exception, BaseException, bool, int, float, str, bytes, list, dict, set, tuple, object, type, typing.NamedTuple]
MODULES = [uuid, decimal, datetime, ipaddress, enum, dataclasses, json, typing, sys.modules["builtins"]]


def describe_stdlib():
    out = {}
    for c in STDLIB:
        if isinstance(c, type):
            out[f"{c.__module__}.{c.__qualname__}"] = {k: id(v) for k, v in vars(c).items() if k != "__annotations__"}
            out[f"{c.__module__}.{c.__qualname__}"]["names"] = (c.__name__, c.__module__, c.__doc__)
    for m in MODULES:
        out[f"module {m.__name__}"] = {k: id(v) for k, v in vars(m).items() if k not in ("_cleanups",)}
    for a in ("int8", "int16", "int32", "int64", "uint8", "float32", "float64"):
        out[a] = {a: repr(getattr(strong_typing.auxiliary, a, None))}
    c = decimal.getcontext()
    out["process"] = {"decimal": (c.prec, c.rounding, c.Emin, c.Emax), "recursion": sys.getrecursionlimit(), "path": tuple(sys.path), "switch": sys.getswitchinterval(), "hash": sys.flags.hash_randomization}
    return out


def scramble(v, exempt):
    "Overwrites a result in every place."

    def hit(x):
        if id(x) in exempt:
            return
        if isinstance(x, dict):
            for k in list(x):
                x[k] = "overwritten"
            try:
                x["added"] = "added"
            except Exception:
                pass
        elif isinstance(x, list):
            x[:] = ["overwritten"] * (len(x) + 1)
        elif isinstance(x, set):
            x.clear()
            x.add("overwritten")
        else:
            for k in list(state(x)):
                try:
                    object.__setattr__(x, k, "overwritten")
                except Exception:
                    pass

    targets = []
    walk(v, targets.append)
    for x in targets:
        hit(x)


class Op:
    def __init__(self, name, fn, inputs, key=None, shared=()):
        self.name, self.fn, self.inputs, self.key, self.shared = name, fn, inputs, key, shared


def observe(ctx, op, exempt, classes):
    ctx.note(operation=op.name, inputs=lambda: repr(op.inputs))
    before = snapshot(op.inputs)
    types_before = [(c, describe_class(c)) for c in classes]
    outcome1 = lab.outcome(op.fn)
    ctx.count("evaluations")
    ctx.count("operations")
    ctx.cover([op.name])

    def unchanged(when):
        after = snapshot(op.inputs)
        ctx.check(after == before, lambda: f"{op.name}: {when} the inputs are {op.inputs!r}")
        for c, d in types_before:
            e = describe_class(c)
            ctx.check(e == d, lambda: f"{op.name}: {when} class {c} is changed: {changes(d, e)}")

    unchanged("afterwards")
    kind, r1 = outcome1
    if kind == "E":
        k2, r2 = lab.outcome(op.fn)
        ctx.check(k2 == "E" and type(r1) is type(r2), lambda: f"{op.name}: fails with {r1!r}, then gives {r2!r}")
        ctx.count("operations that fail")
        return
    own = parts(op.inputs)
    mine = {k: v for k, v in parts(r1).items() if k not in exempt}
    both = [v for k, v in mine.items() if k in own]
    ctx.check(not both, lambda: f"{op.name}: result {runner.clip(repr(r1), 300)} shares {runner.clip(repr(both), 300)} with its inputs")
    k2, r2 = lab.outcome(op.fn)
    ctx.check(k2 == "A", lambda: f"{op.name}: works, then fails with {r2!r}")
    text = digest.canon(r2)
    both = [v for k, v in parts(r2).items() if k in mine]
    ctx.check(not both, lambda: f"{op.name}: two results share {runner.clip(repr(both), 300)}")
    if not mine:
        return
    ctx.count("mutable parts of results", len(mine))
    ctx.check(digest.canon(r1) == text, lambda: f"{op.name}: gives {runner.clip(digest.canon(r1), 400)}, then {runner.clip(text, 400)}")
    scramble(r1, exempt)
    ctx.check(digest.canon(r2) == text, lambda: f"{op.name}: an earlier result changes to {runner.clip(repr(r2), 400)} when another is changed")
    k3, r3 = lab.outcome(op.fn)
    ctx.check(k3 == "A" and digest.canon(r3) == text, lambda: f"{op.name}: gives {runner.clip(digest.canon(r3) if k3 == 'A' else repr(r3), 500)} after its result was changed, before it gave {runner.clip(text, 500)}")
    unchanged("when the result is changed")
    ctx.distinct(op.name, op.key or text)
    ctx.sample(lambda: {"operation": op.name, "inputs": repr(op.inputs), "mutable parts of result": len(mine), "result": text})


def default_objects(classes):
    out = {}
    for c in classes:
        for v in list(vars(c).values()):
            if not callable(v) and not isinstance(v, (property, types.MappingProxyType)):
                out.update(parts(v))
        for f in getattr(c, "__dataclass_fields__", {}).values():
            if f.default is not dataclasses.MISSING:
                out.update(parts(f.default))
        out.update(parts(getattr(c, "_field_defaults", {})))
    return out


def ops(ctx, L, t):
    r = L.rng
    T, m = L.py(t), L.module.py
    vals = L.values()
    v = vals.value(t)
    j = model.concrete(model.encode(t, v))
    bad = mutate.mutate(r, copy.deepcopy(j), sorted(lab.member_names(t)))
    options = DeserializerOptions(skip_unassigned=r.random() < 0.5)
    extra = {**j, "unknown member": [1, {"a": 2}]} if type(j) is dict else j
    sopts = schema.SchemaOptions(definitions_path=r.choice(["#/definitions/", "#/$defs/", "urn:x:", "#", ""]), use_descriptions=r.random() < 0.5, use_examples=r.random() < 0.7)
    yield Op("object_to_json", lambda: serialization.object_to_json(v), [v])
    yield Op("serializer", lambda: create_serializer(T, m).generate(v), [v, T])
    gen = create_serializer(T, m)
    yield Op("serializer used again", lambda: gen.generate(v), [v, T])
    yield Op("json_to_generic", lambda: serialization.json_to_generic(T, j, context=m), [j, T])
    yield Op("json_to_generic with options", lambda: serialization.json_to_generic(T, extra, context=m, options=options), [extra, T, options])
    yield Op("json_to_object", lambda: serialization.json_to_object(T, j, context=m), [j, T])
    yield Op("json_to_generic of another document", lambda: serialization.json_to_generic(T, bad, context=m, options=options), [bad, T, options])
    yield Op("create_deserializer", lambda: create_deserializer(T, m, options=options) and None, [T, options])
    parser = create_deserializer(T, m, options=copy.copy(options))  # before anything is observed
    yield Op("deserializer", lambda: parser.parse(extra), [extra, T, options])
    yield Op("json_dump_string", lambda: serialization.json_dump_string(j), [j])
    yield Op("json_dump", lambda: serialization.json_dump(j, io.StringIO()), [j])
    std = r.choice(list(schema.Validator))
    yield Op("classdef_to_schema", lambda: schema.classdef_to_schema(T, sopts, std), [T, sopts])
    yield Op("classdef_to_schema of defaults", lambda: schema.classdef_to_schema(T), [T])
    yield Op("JsonSchemaGenerator", lambda: schema.JsonSchemaGenerator(sopts).classdef_to_schema(T, force_expand=r.random() < 0), [T, sopts])
    yield Op("JsonSchemaGenerator expanding", lambda: schema.JsonSchemaGenerator(sopts).classdef_to_schema(T, force_expand=True), [T, sopts])
    yield Op("JsonSchemaGenerator created", lambda: schema.JsonSchemaGenerator(sopts) and None, [sopts])
    gen2 = schema.JsonSchemaGenerator(copy.copy(sopts))  # before anything is observed
    yield Op("JsonSchemaGenerator used again", lambda: gen2.classdef_to_schema(T), [T, sopts])
    yield Op("type_to_schema", lambda: schema.JsonSchemaGenerator(sopts).type_to_schema(T, force_expand=False), [T, sopts])
    yield Op("validate_object", lambda: schema.validate_object(T, j), [T, j])
    yield Op("validate_object of another document", lambda: schema.validate_object(T, bad), [T, bad])
    yield Op("get_referenced_types", lambda: inspection.get_referenced_types(T, m), [T])
    yield Op("is_generic_instance", lambda: inspection.is_generic_instance(v, T), [v, T])
    yield Op("check_recursive", lambda: inspection.check_recursive(v, T, pred=lambda t_, o: True), [v, T])
    yield Op("python_type_to_str", lambda: name.python_type_to_str(T, use_union_operator=r.random() < 0), [T])
    yield Op("python_type_to_name", lambda: name.python_type_to_name(T, force=True), [T])
    if isinstance(T, type):
        yield Op("type_topological_sort", lambda: topological.type_topological_sort([T, int]), [T])
        yield Op("get_class_properties", lambda: list(inspection.get_class_properties(T)), [T])
        yield Op("get_resolved_hints", lambda: inspection.get_resolved_hints(T), [T])
        yield Op("get_class_docstrings", lambda: schema.get_class_docstrings(T), [T])
        yield Op("get_class_property_docstrings", lambda: schema.get_class_property_docstrings(T), [T])
        yield Op("docstring_to_schema", lambda: schema.docstring_to_schema(T), [T])
        yield Op("parse_type", lambda: docstring.parse_type(T), [T])
        yield Op("has_docstring", lambda: (docstring.has_docstring(T), docstring.has_default_docstring(T), docstring.get_docstring(T)), [T])
        yield Op("check_docstring", lambda: docstring.check_docstring(T, docstring.parse_type(T), strict=True), [T])
        if dataclasses.is_dataclass(T):
            yield Op("dataclass_fields", lambda: [(f.name, f.type) for f in inspection.dataclass_fields(T)], [T])
        yield Op("create_object", lambda: type(inspection.create_object(T)).__name__, [T])


def program_case(ctx, r):
    cfg = ir.Config(
        enum_kinds=("str", "str", "int", "float"), docs=r.random() < 0.5, register=r.choice([0.0, 0.4, 0.8]), register_rich=r.random() < 0.7, depth=2, n_classes=(2, 3, 4), max_fields=4,
        class_kinds=("dataclass",) * 10 + ("namedtuple",) * 3 + ("plain",) * 3,
    )
    std = describe_stdlib()
    names_done = []
    with lab.Lab(ctx, cfg, 2) as L:
        classes = [d.cls for d in L.prog.defs]
        exempt = default_objects(classes)
        ids = set(exempt)
        for t in L.types:
            lab.cover(ctx, t)
            todo = list(ops(ctx, L, t))
            r.shuffle(todo)
            for op in todo[:14]:
                op.key = (repr(t), op.name)
                ctx.note(type=repr(t))
                observe(ctx, op, ids, classes)
                names_done.append(op.name)
        m = L.module.py
        for op in [
            Op("get_module_classes", lambda: inspection.get_module_classes(m), []),
            Op("get_module_functions", lambda: inspection.get_module_functions(m), []),
            Op("get_exceptions", lambda: docstring.get_exceptions(m), []),
        ]:
            observe(ctx, op, ids, classes)
    after = describe_stdlib()
    for k in std:
        ctx.check(std[k] == after[k], lambda: f"{k} is changed by {sorted(set(names_done))}: {changes(std[k], after[k])}")
    ctx.count("standard library classes and modules compared", len(std))


FIXED = """
import dataclasses, enum, typing
from strong_typing.auxiliary import Alias, typeannotation

class Base(enum.Enum):
    A = "a"
    B = "b"

class More(enum.Enum):
    C = "c"

@typeannotation
class Note:
    text: str

@dataclasses.dataclass
class Doc:
    \"\"\"
    Documented.

    :param a: First.
    :param b: Second.
    \"\"\"
    a: int
    b: typing.List[str] = dataclasses.field(default_factory=list)

def function(a: int, b: str = "x") -> int:
    \"\"\"
    Does it.

    :param a: First.
    :param b: Second.
    :returns: Result.
    :raises ValueError: Wrong.
    \"\"\"
    raise ValueError
"""


def other_case(ctx, r):
    "Operations on schemas, graphs and enumerations."
    std = describe_stdlib()
    m = lab.load(FIXED)
    try:
        s = c13.Maker(r).schema()
        if c13.grounded(s):

            def generate():
                g = c13.new_module()
                try:
                    c = schema_to_type(s, module=g, class_name="Top")
                    return [(f.name, repr(f.type).replace(g.__name__, "g")) for f in dataclasses.fields(c)]
                finally:
                    sys.modules.pop(g.__name__, None)

            observe(ctx, Op("schema_to_type", generate, [s]), set(), [m.Doc])
        opts = SchemaFlatteningOptions(qualified_names=r.random() < 0.5, recursive=r.random() < 0.5)
        flat = {k: v for k, v in s.items()}
        observe(ctx, Op("flatten_schema", lambda: flatten_schema(flat, options=opts), [flat, opts]), set(), [m.Doc])
        # a schema that has been read already; the result may share parts with it
        kind, top = lab.outcome(serialization.json_to_object, JsonSchemaTopLevelObject, flat)
        if kind == "A":
            flattener = SchemaFlattener(opts)
            observe(ctx, Op("SchemaFlattener.flatten", lambda: flattener.flatten(top), [top, opts]), set(parts(top)), [m.Doc])
        n = r.randint(1, 8)
        nodes = list(range(n)) if r.random() < 0.5 else [f"n{i}" for i in range(n)]
        graph = {nodes[i]: {x for x in nodes[: i + 1] if r.random() < 0.4} for i in range(n)}
        if r.random() < 0.2 and n > 2:
            graph[nodes[0]].add(nodes[-1])
            graph[nodes[-1]].add(nodes[0])
        observe(ctx, Op("topological_sort", lambda: topological.topological_sort(graph), [graph]), set(), [])
        deps = {m.Doc: [m.Base, str]}
        given = [m.Doc, m.Base]
        r.shuffle(given)
        observe(ctx, Op("type_topological_sort", lambda: topological.type_topological_sort(given, lambda t: deps.get(t, [])), [given, deps]), set(), [m.Doc, m.Base])

        def extend():
            e = inspection.extend_enum(m.Base)(type(m.More)("Extension", {"X": "x", "Y": "y"}))
            return [(k, v.value) for k, v in e.__members__.items()]

        observe(ctx, Op("extend_enum", extend, [m.Base, m.More]), set(), [m.Base, m.More])
        fields = [("a", int), ("b", typing.Optional[str])]

        def create():
            return [f.name for f in dataclasses.fields(inspection.create_data_type("Made", fields))]

        observe(ctx, Op("create_data_type", create, [fields]), set(), [])
        for x in (m.Doc, m.function):
            observe(ctx, Op("parse_type", lambda: docstring.parse_type(x), [x]), set(), [m.Doc])
            observe(ctx, Op("check_docstring", lambda: docstring.check_docstring(x, docstring.parse_type(x), strict=True), [x]), set(), [m.Doc])
        text = FIXED
        observe(ctx, Op("parse_text", lambda: docstring.parse_text(m.function.__doc__), [text]), set(), [])
        # objects of classes without annotations
        o = types.SimpleNamespace()
        payload = {"a": [1, {"b": (1, [2])}], "c": {1, 2}, "d": None, "e": [[]]}
        observe(ctx, Op("object_to_json of untyped containers", lambda: serialization.object_to_json(payload), [payload]), set(), [])
        e = ValueError("text", ["list"], {"k": []})
        observe(ctx, Op("object_to_json of an exception", lambda: serialization.object_to_json(e), [e.args]), set(), [])
        registered(ctx, r)
    finally:
        lab.unload(m)
    after = describe_stdlib()
    for k in std:
        ctx.check(std[k] == after[k], lambda: f"{k} is changed: {changes(std[k], after[k])}")


REGISTERED = [0]


def registered(ctx, r):
    "Registered schemas and examples, and the options of a reader."
    REGISTERED[0] += 1
    cls = dataclasses.make_dataclass(f"Registered{REGISTERED[0]}", [("a", int), ("b", typing.Optional[str], None)])
    cls.__module__ = __name__
    given = {"type": "object", "properties": {"a": {"type": "integer", "enum": [1, 2]}}, "required": ["a"], "additionalProperties": False} if r.random() < 0.6 else None
    examples = [{"a": 1, "b": "x"}, cls(2, "y")] if r.random() < 0.7 else None
    if given is not None and r.random() < 0.5:
        given["examples"] = [{"a": 2}]
    inputs = [given, examples]
    before = snapshot(inputs)
    schema.register_schema(cls, schema=given, name=f"Registered{REGISTERED[0]}", examples=examples)
    ctx.check(snapshot(inputs) == before, lambda: f"register_schema changes {inputs}")
    holder = dataclasses.make_dataclass("Holder", [("x", cls), ("y", list[cls])])
    holder.__module__ = __name__
    for T in (cls, holder, list[cls]):
        for make in (lambda: schema.classdef_to_schema(T), lambda: schema.JsonSchemaGenerator().classdef_to_schema(T), lambda: schema.JsonSchemaGenerator().classdef_to_schema(T, force_expand=True),
                     lambda: schema.JsonSchemaGenerator().type_to_schema(T, force_expand=True)):
            observe(ctx, Op("schema of a registered class", make, [inputs, T]), set(), [cls])


def case(ctx, i):
    r = ctx.rng
    if r.random() < 0.75:
        program_case(ctx, r)
    else:
        other_case(ctx, r)
