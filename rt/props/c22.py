"C22: the same output in every process."

import json
import os
import random
import subprocess
import sys

from strong_typing import classdef, docstring, inspection, name, schema, serialization, topological

from .. import digest, ir, lab, model, runner
from . import c10, c13

LINES = False
CASES = {"quick": 64, "thorough": 700}
STALL = 300
RULE = """A case is a batch of 8 random programs with 14 operations each (writing, compact text, reading valid and invalid documents, schemas
with different options, validating, type names, documentation, classes generated from a schema, flattened schemas, unique topological
orders). The batch runs in separate interpreters that differ in hash seed, time zone, locale, text encoding, optimisation, development
mode, recursion of imports and order in which the modules of the library are imported; each writes a log of its outcomes (documents and
schemas with the order of members, values with concrete types, error classes), and an offline checker compares the logs line by line.
Non-trivial if the outcome is not an error; distinct by operation and outcome."""
ASSUMPTIONS = [
    "order of items of a set is unspecified, so types with sets are read but not written",
    "optimisation that removes documentation strings (-OO) changes the program",
    "messages of errors are not compared",
]
MODULES = ["auxiliary", "classdef", "core", "deserializer", "docstring", "exception", "inspection", "mapping", "name", "schema", "serialization", "serializer", "topological"]
KINDS = ["write", "write typed", "read", "read", "read loosely", "read bad", "schema", "schema", "expand", "validate", "unsupported", "text", "name", "doc", "sorted"]
READ_ONLY = ["read", "read loosely", "read bad", "schema", "expand", "validate", "name", "doc"]


class World(c10.World):
    def load(self, k):
        seed, tag, suffix = self.specs[k]
        r = random.Random(seed)
        cfg = ir.Config(
            docs=r.random() < 0.6, enum_kinds=("str", "int", "float"), n_classes=(2, 3, 4), modules=(1, 1, 2), depth=2, sets=r.random() < 0.3, register=r.choice([0.0, 0.5, 0.9]), register_rich=r.random() < 0.5,
        )
        prog = ir.Gen(r, cfg, tag).program()
        prog.load()
        exec(c10.EXTRA, prog.modules[-1].py.__dict__)
        prog.has_sets = cfg.sets
        self.progs[k] = prog

    def run(self, op):
        out = super().run(op)
        return out if out.startswith("returns") else out.split(":")[0]

    def perform(self, kind, prog, module, d, t, r):
        T = prog.pytype(t)
        if kind == "text":
            values = model.Values(r, prog.modules[-1])
            return serialization.json_dump_string(serialization.object_to_json(values.value(t)))
        if kind == "name":
            return repr((name.python_type_to_str(T), name.python_type_to_str(T, use_union_operator=True), name.python_type_to_name(T, force=True)))
        if kind == "doc":
            cls = d.cls
            return str(docstring.parse_type(cls)) + json.dumps(schema.docstring_to_schema(cls)) + repr([n for n, _ in inspection.get_class_properties(cls)])
        if kind == "sorted":
            # a chain has one order only
            n = r.randint(2, 9)
            nodes = [f"node{r.getrandbits(20)}_{i}" for i in range(n)]
            graph = {}
            for i in range(n):
                graph[nodes[i]] = {x for k, x in enumerate(nodes[:i]) if k == i - 1 or r.random() < 0.3}
            items = list(graph.items())
            r.shuffle(items)
            return repr(topological.topological_sort(dict(items)))
        return super().perform(kind, prog, module, d, t, r)


def generated(seed):
    "Classes made from a random schema, and the flattened schema."
    r = random.Random(seed)
    s = c13.Maker(r).schema()
    if not c13.grounded(s):
        return "skipped"
    g = c13.new_module()
    try:
        try:
            c = classdef.schema_to_type(s, module=g, class_name="Top")
            own = {k: v for k, v in vars(g).items() if isinstance(v, type) and v.__module__ == g.__name__}
            text = repr([(k, inspection.is_dataclass_type(v) and [(n, str(t)) for n, t in inspection.get_class_properties(v)], v.__doc__) for k, v in own.items()])
            text += name.python_type_to_str(c) + json.dumps(schema.classdef_to_schema(c))
            text += json.dumps(classdef.flatten_schema(s, options=classdef.SchemaFlatteningOptions(qualified_names=True, recursive=True)))
            return "returns " + text.replace(g.__name__, "g")
        except Exception as e:
            return "raises " + type(e).__name__
    finally:
        sys.modules.pop(g.__name__, None)


def batch(seed, count, per):
    out = []
    r = random.Random(seed)
    for k in range(count):
        spec = (r.getrandbits(32), f"d{k}_", "")
        w = World([spec])
        w.load(0)
        kinds = READ_ONLY if w.progs[0].has_sets else KINDS
        for _ in range(per):
            op = (0, r.choice(kinds), r.choice([r.randrange(4), 60 + r.randrange(16)]), r.getrandbits(32))
            out.append((f"program {k} {op}", w.run(op)))
        w.progs[0].unload()
        s = r.getrandbits(32)
        out.append((f"generated {s}", generated(s)))
    return out


def child_main():
    seed, count, per = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    json.dump(batch(seed, count, per), sys.stdout, ensure_ascii=True)


LAUNCH = """
import sys, json
sys.path[:0] = [{verif!r}, {repo!r}]
for m in {order!r}:
    __import__("strong_typing." + m)
from rt.props import c22
c22.child_main()
"""


def launch(config, seed, count, per):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "TZ"))}
    env.update(config["env"], PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=runner.REPO)
    code = LAUNCH.format(verif=runner.VERIF, repo=runner.REPO, order=config["order"])
    return subprocess.Popen([sys.executable, *config["flags"], "-c", code, str(seed), str(count), str(per)], env=env, cwd=config["cwd"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


BASE = {"env": {"PYTHONHASHSEED": "0", "TZ": "UTC", "LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"}, "flags": [], "order": [], "cwd": "/"}


def random_config(r):
    order = MODULES[:]
    r.shuffle(order)
    env = {
        "PYTHONHASHSEED": str(r.choice([r.randrange(1, 1 << 32), r.randrange(1, 100)])),
        "TZ": r.choice(["UTC", "Asia/Tokyo", "America/New_York", "America/St_Johns", "Pacific/Chatham", "Australia/Lord_Howe", "Europe/Budapest", "XYZ-11:37", "Africa/Monrovia"]),
        "LC_ALL": r.choice(["C", "C.UTF-8", "POSIX", "hu_HU.UTF-8"]),
    }
    if r.random() < 0.3:
        env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    flags = r.choice([[], [], ["-O"], ["-X", "dev"], ["-B"], ["-X", "int_max_str_digits=0"]])
    if "-X" in flags and "dev" in flags:
        flags = flags + ["-W", "ignore"]
    return {"env": env, "flags": flags, "order": order if r.random() < 0.8 else [], "cwd": r.choice(["/", "/usr"])}


def case(ctx, i):
    r = ctx.rng
    seed = r.getrandbits(32)
    count, per = 8, 14
    configs = [BASE] + [random_config(r) for _ in range(3 if not ctx.thorough else 7)]
    # the outcomes of the base are recorded in this process as well as in one of its own
    children = [(c, launch(c, seed, count, per)) for c in configs]
    logs = []
    for c, p in children:
        try:
            out, err = p.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill()
            ctx.fail(f"the program does not end in a process with {c}")
        ctx.note(configuration=repr(c), batch=str(seed))
        text = err.decode(errors="replace")
        if p.returncode != 0:
            if "strong_typing" in text:
                ctx.fail(f"the program fails in a process with {c}: {text[-1500:]}")
            raise RuntimeError(f"child process failed: {text[-1500:]}")
        logs.append((c, json.loads(out)))
    base = logs[0][1]
    for c, log in logs[1:]:
        ctx.note(configuration=repr(c), batch=str(seed))
        ctx.check(len(log) == len(base), "logs of different length")
        for (op, a), (op2, b) in zip(base, log):
            if op != op2:
                raise RuntimeError(f"the workload differs: {op}, {op2}")
            ctx.count("evaluations")
            ctx.check(a == b, lambda: f"{op}: {difference(a, b)}\nbase: {runner.clip(a, 1500)}\nin a process with {c}: {runner.clip(b, 1500)}")
        ctx.count("processes compared")
        ctx.cover([f"{k}={v}" for k, v in c["env"].items() if k != "PYTHONHASHSEED"] + [f"flags {' '.join(c['flags'])}"])
    for op, a in base:
        kind = op.split("'")[1] if "'" in op else "generated"
        ctx.count(f"{kind} {a.split(' ')[0]}")
        if a.startswith("returns"):
            ctx.distinct(kind, a)
    ctx.sample(lambda: {"configurations": configs, "outcomes": base[:3]})


def difference(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, n - 40):n + 60]!r} differs from ...{b[max(0, n - 40):n + 60]!r}"
