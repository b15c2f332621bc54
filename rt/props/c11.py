"C11: concurrent callers."

import random
import sys
import threading

from strong_typing import schema, serialization
from strong_typing.deserializer import create_deserializer
from strong_typing.serializer import create_serializer

from .. import digest, lab, model, proc, runner, sched
from . import c10

LINES = False
DYNAMIC = True  # every schedule runs in a process of its own
CASES = {"quick": 80, "thorough": 4000}
STALL = 240
RULE = """A case is a random program whose types have not been used before in the process, two to four threads and one to three operations for
each (writing, reading valid and invalid documents, generating schemas, validating, types that cannot be supported, with shared readers
and writers), mostly on the same type. Each schedule runs in a fresh process under a controlled scheduler that lets one thread run at a
time and decides at each line or bytecode instruction of the library which one goes on: one preemption at each distinct line that the
first thread executes, two preemptions, random walks, random priorities; and then without control, with 8 threads and the shortest
switch interval of the interpreter. An offline checker compares the recorded outcomes of each thread with those of the sequential run;
a monitor reports threads that wait for each other. Non-trivial if the schedule switches threads within an operation; distinct by the
sequence of switches (threads, function and line)."""
ASSUMPTIONS = [
    "threads share types, readers and writers, but not a JsonSchemaGenerator, which belongs to its caller",
    "classes are complete (defined and registered) before threads use them",
    "a thread is taken to wait for a lock if it makes no progress for some milliseconds, and for ever after 25 seconds",
]


class World(c10.World):
    "Adds readers and writers that are created before and shared by all threads."

    def __init__(self, specs):
        super().__init__(specs)
        self.shared = {}

    def perform(self, kind, prog, module, d, t, r):
        if kind == "shared":
            T = prog.pytype(t)
            values = model.Values(r, prog.modules[-1])
            key = (id(prog), repr(t))
            if key not in self.shared:
                self.shared[key] = (create_serializer(T, module), create_deserializer(T, module))
            writer, reader = self.shared[key]
            v = values.value(t)
            j = model.concrete(model.encode(t, v))
            return digest.canon(reader.parse(j)) + digest.canon(writer.generate(v))
        return super().perform(kind, prog, module, d, t, r)


def perform(w, ops):
    return [w.run(op) for op in ops]


def sequential(w, jobs):
    "Outcomes of the operations one after another, and the lines that each thread executes."
    traces = []
    out = []
    for ops in jobs:
        log = []

        def local(frame, event, arg):
            if event == "line":
                log.append((frame.f_code.co_name, frame.f_lineno))
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(runner.PKG) else None

        sys.settrace(trace)
        try:
            out.append(perform(w, ops))
        finally:
            sys.settrace(None)
        traces.append(log)
    return out, traces


def first_lines(w, jobs):
    "Lines that each thread executes when it is the first."
    return [sequential(w, [ops])[1][0] for ops in jobs[:1]]


def controlled(w, jobs, policy, opcodes):
    s = sched.Scheduler(runner.PKG, [lambda ops=ops: perform(w, ops) for ops in jobs], policy, opcodes)
    try:
        out = s.run()
    except sched.Deadlock as e:
        return "deadlock", str(e), None, None
    # nothing is left locked or half prepared
    after = []
    done = threading.Event()

    def again():
        after.extend(perform(w, ops) for ops in jobs)
        done.set()

    threading.Thread(target=again, daemon=True).start()
    if not done.wait(sched.PATIENCE):
        return "deadlock", "a further caller waits for ever after all threads have ended", None, None
    return out, after, s.switches, (s.total, s.waits, s.count)


def stress(w, jobs, copies, seed):
    "All threads at once, several for each job."
    r = random.Random(seed)
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    order = [k for k in range(len(jobs)) for _ in range(copies)]
    r.shuffle(order)
    barrier = threading.Barrier(len(order))
    out = [None] * len(order)

    def body(n):
        barrier.wait()
        try:
            out[n] = perform(w, jobs[order[n]])
        except BaseException as e:
            out[n] = repr(e)

    threads = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(len(order))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(sched.PATIENCE)
        if t.is_alive():
            return "deadlock", "threads wait for each other; " + sched.stacks(threads)
    return order, out


KINDS = ["write", "write typed", "read", "read", "read", "read loosely", "read bad", "schema", "schema", "expand", "validate", "unsupported", "shared", "shared"]


def plan(r, tag):
    specs = [(r.getrandbits(32), tag, "")]
    n = r.choice([2, 2, 2, 3, 4])
    focus = r.randrange(4)
    wrapped = r.random() < 0.4
    same = r.random() < 0.5
    kind = r.choice(KINDS)
    jobs = []
    for _ in range(n):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3]) if n < 4 else 1):
            which = focus if r.random() < 0.8 else r.randrange(4)
            ops.append((0, kind if same or r.random() < 0.4 else r.choice(KINDS), which + (60 + 4 * r.randrange(4) if wrapped or r.random() < 0.2 else 0), r.getrandbits(32)))
        jobs.append(ops)
    return specs, jobs


def positions(r, trace, most):
    "Steps at which to preempt: first and last time of each distinct line, at most so many."
    first, last = {}, {}
    for i, x in enumerate(trace):
        first.setdefault(x, i)
        last[x] = i
    points = sorted({*first.values(), *last.values(), *(i + 1 for i in first.values())})
    if len(points) > most:
        points = sorted(r.sample(points, most))
    return points


def judge(ctx, jobs, expected, got, schedule):
    out, after, switches, totals = got
    ctx.note(schedule=schedule, switches=lambda: "\n".join(f"thread {a} is at {w[0]} line {w[1]}, thread {b} goes on" for a, b, w in (switches or [])[:60]))
    if out == "deadlock":
        ctx.fail(after)
    ctx.count("evaluations")
    for k, ops in enumerate(jobs):
        ctx.check(type(out[k]) is list and len(out[k]) == len(ops), lambda: f"thread {k} ends with {out[k]}")
        for n, op in enumerate(ops):
            ctx.check(out[k][n] == expected[k][n], lambda: f"thread {k}, operation {op}: {runner.clip(out[k][n], 1500)}\nbut it {runner.clip(expected[k][n], 1500)}\nwhen the calls are made one after another")
            ctx.check(after[k][n] == expected[k][n], lambda: f"operation {op}, repeated after the threads have ended: {runner.clip(after[k][n], 1500)}\nbut it {runner.clip(expected[k][n], 1500)}\nin a sequential run")
    ctx.count("schedules")
    ctx.count("steps", totals[0])
    ctx.count("switches", len(switches))
    ctx.count("times a thread waits for a lock", totals[1])
    inside = [x for x in switches if x[2] is not None]
    if inside:
        ctx.count("schedules with switches within operations")
        ctx.distinct(tuple(inside))


def case(ctx, i):
    r = ctx.rng
    specs, jobs = plan(r, f"k{i}_")
    w = World(specs)
    w.load(0)
    ctx.note(program=lambda: w.progs[0].text(), jobs=lambda: "\n".join(map(repr, jobs)))
    try:
        got = proc.call(sequential, w, jobs)
        ctx.check(got is not None, "the sequential run does not end")
        expected, traces = got[0]
        ctx.cover([op[1] for ops in jobs for op in ops])
        length = sum(map(len, traces))
        schedules = []
        # schemas take many more steps than other operations
        budget = 90_000 if not ctx.thorough else 2_000_000
        most = max(8, min(40 if not ctx.thorough else 400, budget // max(1, length)))
        heavy = not ctx.thorough and length > 60_000
        if heavy:
            most = 2
        for p in positions(r, traces[0], most):
            order = list(range(len(jobs)))
            schedules.append((f"one preemption of thread 0 after {p} steps", sched.OneSwitch(order, p), False))
        other = min(range(1, len(jobs)), key=lambda k: r.random())
        for p in positions(r, traces[other], most // 4):
            order = [other] + [k for k in range(len(jobs)) if k != other]
            schedules.append((f"one preemption of thread {other} after {p} steps", sched.OneSwitch(order, p), False))
        for _ in range(most // 4):
            p, q = r.randrange(len(traces[0]) + 1), r.randrange(len(traces[1]) + 1)
            schedules.append((f"threads 0 and 1 preempted after {p} and {q} steps", sched.TwoSwitches(list(range(len(jobs))), p, q), False))
        for _ in range(most // 4):
            if r.random() < 0.5:
                p = r.choice([0.01, 0.05, 0.2, 0.5])
                schedules.append((f"random walk, probability {p}", sched.Walk(random.Random(r.getrandbits(32)), p), r.random() < 0.3))
            else:
                fine = r.random() < 0.3
                schedules.append(("random priorities", sched.Priorities(random.Random(r.getrandbits(32)), len(jobs), length * (6 if fine else 1), r.randint(1, 4)), fine))
        for name, policy, fine in schedules:
            got = proc.call(controlled, w, jobs, policy, fine, timeout=150)
            ctx.check(got is not None, f"{name}: the run does not end")
            judge(ctx, jobs, expected, got[0], name)
        for _ in range((1 if heavy else 3) if not ctx.thorough else 10):
            ctx.note(schedule="stress", switches="unknown")
            copies = r.choice([2, 4])
            got = proc.call(stress, w, jobs, copies, r.getrandbits(32), timeout=300)
            ctx.check(got is not None, "stress: the run does not end")
            order, out = got[0]
            if order == "deadlock":
                ctx.fail(out)
            ctx.count("stress runs")
            ctx.count("evaluations")
            for k, o in zip(order, out):
                ctx.check(o == expected[k], lambda: f"under stress: {runner.clip(repr(o), 1500)}\nbut {runner.clip(repr(expected[k]), 1500)}\nwhen the calls are made one after another")
        ctx.sample(lambda: {"jobs": jobs, "outcomes": expected, "schedules": len(schedules), "steps of first thread": len(traces[0])})
    finally:
        for p in w.progs.values():
            p.unload()


# ------------------------------------------------------------------------------------------------------------------

HOOKS = '''
import threading
from dataclasses import dataclass, field
from typing import Dict, List, Optional, Union, Literal
from strong_typing.core import JsonType
from strong_typing import serialization, schema
from strong_typing.deserializer import create_deserializer
from strong_typing.serializer import create_serializer

def elsewhere(fn):
    "Calls a function in another thread and waits for it."
    box = []
    t = threading.Thread(target=lambda: box.append(fn()), daemon=True)
    t.start()
    t.join(20)
    if not box:
        raise RuntimeError("the other thread does not come back")
    return box[0]

@dataclass
class Leaf:
    a: int

@dataclass
class Twig:
    leaf: Leaf
    next: Optional["Twig"] = None

@dataclass
class Branch:
    twigs: List[Twig]
    by: Dict[str, "Branch"] = field(default_factory=lambda: elsewhere(lambda: {"d": serialization.json_to_object(Branch, {"twigs": [], "by": {}})}))

class Hooked:
    def __init__(self, twig):
        self.twig = twig
    def to_json(self) -> JsonType:
        return elsewhere(lambda: serialization.object_to_json(self.twig))
    @classmethod
    def from_json(cls, j: JsonType) -> "Hooked":
        return cls(elsewhere(lambda: serialization.json_to_object(Twig, j)))

@dataclass
class Holder:
    hooked: Hooked
    more: List[Hooked]
    branch: Branch
'''


def hooks_in_threads(ctx):
    "Conversions written by the user, and default factories, that rely on work in another thread."

    def child():
        m = lab.load(HOOKS)
        doc = {"hooked": {"leaf": {"a": 1}}, "more": [{"leaf": {"a": 2}, "next": {"leaf": {"a": 3}}}], "branch": {"twigs": [{"leaf": {"a": 4}}]}}
        o = serialization.json_to_object(m.Holder, doc)
        if o.hooked.twig != m.Twig(m.Leaf(1)) or o.more[0].twig.next != m.Twig(m.Leaf(3)):
            return f"{o}"
        if list(o.branch.by) != ["d"]:
            return f"{o.branch}"
        o.branch.by = {}
        j = serialization.object_to_json(o)
        if j != {**doc, "branch": {"twigs": [{"leaf": {"a": 4}}], "by": {}}}:
            return f"{j}"
        j = create_serializer(m.Holder).generate(o)
        return None if j["hooked"] == doc["hooked"] else f"{j}"

    got = proc.call(child, timeout=100)
    ctx.check(got is not None, "a conversion that waits for another thread never ends")
    ctx.check(got[0] is None, lambda: f"reads or writes {got[0]}")
    ctx.count("evaluations")
    ctx.distinct("hooks")


RECURSIVE = '''
from dataclasses import dataclass, field
from typing import Dict, List, Literal, NamedTuple, Optional, Union, Set
import enum

class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"

@dataclass
class A:
    b: Optional["B"] = None
    n: int = 0

@dataclass
class B:
    c: List["C"]
    tag: Literal["b"] = "b"

@dataclass(frozen=True)
class C:
    a: A
    tag: Literal["c"] = "c"
    color: Color = Color.RED

class N(NamedTuple):
    a: A
    u: Union["B", C]

class P:
    n: N
    d: Dict[str, Union["B", "C"]]

@dataclass
class Top:
    a: A
    b: B
    n: N
    p: P
    s: Set[Color]
    t: Optional["Top"] = None
'''


def entry_points(m):
    c = {"a": {"n": 5}, "tag": "c", "color": "blue"}
    a = {"b": {"c": [c], "tag": "b"}, "n": 1}
    b = {"c": [c, {**c, "a": a}], "tag": "b"}
    n = {"a": a, "u": b}
    p = {"n": n, "d": {"x": c, "y": b}}
    top = {"a": a, "b": b, "n": n, "p": p, "s": ["red"], "t": {"a": {"n": 1}, "b": {"c": [], "tag": "b"}, "n": n, "p": p, "s": []}}
    docs = {m.A: a, m.B: b, m.C: c, m.N: n, m.P: p, m.Top: top}
    return docs


def mutual_recursion(ctx):
    "Threads that start at different classes of a group of classes that refer to each other, preempted at each line."
    m = lab.load(RECURSIVE)
    try:
        docs = entry_points(m)
        r = ctx.rng
        names = list(docs)
        pairs = [(x, y) for x in names for y in names]
        r.shuffle(pairs)

        def job(cls, kind):
            def run():
                try:
                    if kind == "read":
                        return digest.canon(serialization.json_to_object(cls, docs[cls]))
                    if kind == "write":
                        return digest.canon(serialization.object_to_json(serialization.json_to_object(cls, docs[cls])))
                    if kind == "bad":
                        return digest.canon(serialization.json_to_object(cls, {**docs[cls], "odd": 1}))
                    return digest.canon(schema.classdef_to_schema(cls))
                except Exception as e:
                    return digest.error(e)

            return run

        def alone(cls, kind):
            log = []

            def local(frame, event, arg):
                if event == "line":
                    log.append((frame.f_code.co_name, frame.f_lineno))
                return local

            sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(runner.PKG) else None)
            try:
                return job(cls, kind)(), log
            finally:
                sys.settrace(None)

        def both(x, y, policy):
            s = sched.Scheduler(runner.PKG, [job(*x), job(*y)], policy)
            try:
                return s.run(), s.switches, s.waits
            except sched.Deadlock as e:
                return "deadlock", str(e), 0

        for x, y in pairs[: 3 if not ctx.thorough else 36]:
            kinds = (r.choice(["read", "read", "read", "write", "bad", "schema"]), r.choice(["read", "read", "write", "schema"]))
            (ex, log), (ey, _) = proc.call(alone, x, kinds[0])[0], proc.call(alone, y, kinds[1])[0]
            for p in positions(r, log, 40 if not ctx.thorough else 600):
                ctx.note(threads=f"{kinds[0]} {x.__name__}, {kinds[1]} {y.__name__}", schedule=f"first thread preempted after {p} steps")
                got = proc.call(both, (x, kinds[0]), (y, kinds[1]), sched.OneSwitch([0, 1], p))
                ctx.check(got is not None, "the run does not end")
                out, switches, waits = got[0]
                if out == "deadlock":
                    ctx.fail(switches)
                ctx.count("evaluations")
                ctx.count("schedules")
                ctx.count("times a thread waits for a lock", waits)
                ctx.check(out == [ex, ey], lambda: f"the threads get {out}\nbut alone they get {[ex, ey]}")
                if switches:
                    ctx.distinct(x.__name__, y.__name__, tuple(switches))
    finally:
        lab.unload(m)


def many_threads_first_use(ctx):
    "Eight threads that all start with the same unused types, at the shortest switch interval, again and again."
    m = lab.load(RECURSIVE)
    try:
        docs = entry_points(m)

        def child(seed):
            sys.setswitchinterval(2e-5)
            r = random.Random(seed)
            order = list(docs) * 3
            r.shuffle(order)
            order = order[:8]
            barrier = threading.Barrier(len(order))
            out = [None] * len(order)

            def body(n):
                barrier.wait()
                try:
                    o = serialization.json_to_object(order[n], docs[order[n]])
                    out[n] = (digest.canon(o), digest.canon(serialization.object_to_json(o)), digest.canon(schema.classdef_to_schema(order[n])))
                except BaseException as e:
                    out[n] = digest.error(e)

            ts = [threading.Thread(target=body, args=(n,), daemon=True) for n in range(len(order))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(sched.PATIENCE)
            expected = {c: (digest.canon(serialization.json_to_object(c, docs[c])), digest.canon(serialization.object_to_json(serialization.json_to_object(c, docs[c]))), digest.canon(schema.classdef_to_schema(c))) for c in docs}
            for n, c in enumerate(order):
                if out[n] != expected[c]:
                    return f"a thread gets {out[n]} for {c.__name__}, not {expected[c]}"

        for seed in range(12 if not ctx.thorough else 400):
            got = proc.call(child, seed)
            ctx.check(got is not None, "the threads do not end")
            ctx.check(got[0] is None, lambda: got[0])
            ctx.count("evaluations")
            ctx.count("stress runs")
            ctx.distinct("stress", seed)
    finally:
        lab.unload(m)


SCENARIOS = [hooks_in_threads, mutual_recursion, many_threads_first_use]
