"C15: topological sort of graphs and of types."

import copy

from strong_typing.topological import topological_sort, type_topological_sort

from .. import ir, lab, spell

CASES = {"quick": 6000, "thorough": 130000}
RULE = """Half of the cases sort random graphs of up to 60 nodes (integers, strings, tuples, objects equal by value, classes):
acyclic by construction, with self-loops, chains, diamonds, isolated nodes and several components, or with one cycle of two or
more nodes planted in a random place; now and then a chain, fan or grid of thousands of nodes. A monitor checks that each node
appears exactly once and after all it depends on, that graphs with a cycle fail, and that the graph given and its sets are
unchanged. The other half sorts classes of random programs together with a random function of further dependencies and compares
with the closure computed from the generated definitions; calls of the function are recorded. Non-trivial if there is an edge
between different nodes; distinct by graph."""
ASSUMPTIONS = ["graphs list every adjacent node as a key", "types given are classes defined in a module"]


class Key:
    "A node that is equal to others by value."

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Key) and o.n == self.n

    def __hash__(self):
        return hash(self.n) % 7

    def __repr__(self):
        return f"Key({self.n})"


def nodes(r, n):
    style = r.randrange(5)
    if style == 0:
        return list(range(n))
    if style == 1:
        return [f"n{i}" for i in range(n)]
    if style == 2:
        return [(i % 5, str(i)) for i in range(n)]
    if style == 3:
        return [Key(i) for i in range(n)]
    return [type(f"T{i}", (), {}) for i in range(n)]


def twin(n):
    "An object that is equal to a node but (as a rule) not the same object."
    if isinstance(n, str):
        return "".join(list(n))
    if isinstance(n, tuple):
        return tuple([twin(x) for x in n])
    if isinstance(n, Key):
        return Key(n.n)
    if isinstance(n, int) and not isinstance(n, bool):
        return float(n)
    return n


def acyclic(r, ns):
    "Each node depends on nodes that precede it in a hidden order."
    order = list(ns)
    r.shuffle(order)
    density = r.choice([0.0, 0.5, 1.0, 2.0, 4.0])
    graph = {}
    for i, n in enumerate(order):
        deps = set()
        if i:
            style = r.random()
            if style < 0.3:
                deps.add(order[i - 1])
            k = min(i, int(r.expovariate(1 / density)) if density else 0)
            deps.update(r.sample(order[:i], k))
        if r.random() < 0.12:
            deps.add(n)
        graph[n] = deps
    return shuffled(r, graph), order


def shuffled(r, graph):
    items = list(graph.items())
    r.shuffle(items)
    return dict(items)


def plant_cycle(r, graph, order):
    "Closes a cycle of at least two nodes."
    k = r.choice([2, 2, 3, 5, len(order)])
    k = min(k, len(order))
    chosen = r.sample(order, k)
    graph = {n: set(d) for n, d in graph.items()}
    for a, b in zip(chosen, chosen[1:] + chosen[:1]):
        graph[a].add(b)
    return graph


def judge(ctx, graph, result, what):
    ctx.check(type(result) is list, lambda: f"{what}: result is a {type(result)}")
    pos = {}
    for i, n in enumerate(result):
        ctx.check(n not in pos, lambda: f"{what}: node {n!r} appears more than once in {result!r}")
        pos[n] = i
    ctx.check(len(pos) == len(graph) and all(n in pos for n in graph), lambda: f"{what}: nodes {list(graph)!r} are sorted as {result!r}")
    for n, deps in graph.items():
        for m in deps:
            if m != n:
                ctx.check(pos[m] < pos[n], lambda: f"{what}: node {n!r} depends on {m!r}, and precedes it in {result!r}")
    ctx.count("orders checked")


def snapshot(graph):
    return [(n, id(d), frozenset(d)) for n, d in graph.items()]


def graphs(ctx):
    r = ctx.rng
    ns = nodes(r, r.choice([0, 1, 2, 3, 4, 5, 8, 13, 20, 60]))
    graph, order = acyclic(r, ns)
    cyclic = len(ns) > 1 and r.random() < 0.35
    if cyclic:
        graph = plant_cycle(r, graph, order)
    if r.random() < 0.15:
        graph = {n: (frozenset(d) if r.random() < 0.5 else d) for n, d in graph.items()}
    if r.random() < 0.3:
        graph = {n: type(d)(twin(m) if r.random() < 0.7 else m for m in d) for n, d in graph.items()}
    ctx.note(graph=lambda: repr(graph))
    before = snapshot(graph)
    kind, got = lab.outcome(topological_sort, graph)
    ctx.count("evaluations")
    ctx.check(snapshot(graph) == before, "the graph was altered")
    if cyclic:
        ctx.check(kind == "E", lambda: f"a graph with a cycle is sorted as {got!r}")
        ctx.count("cycles refused")
    else:
        ctx.check(kind == "A", lambda: f"an acyclic graph fails with {got!r}")
        judge(ctx, graph, got, "graph")
    if any(m != n for n, d in graph.items() for m in d):
        ctx.distinct(repr({n: sorted(map(repr, d)) for n, d in graph.items()}))
        ctx.sample(lambda: {"graph": repr(graph), "cyclic": cyclic, "result": repr(got)})


def types(ctx):
    r = ctx.rng
    cfg = ir.Config(max_fields=3, depth=2, n_classes=(2, 3, 4, 5), recursion=r.random() < 0.25, classvars=False)
    with lab.Lab(ctx, cfg, 0) as L:
        prog = L.prog
        pool = prog.classes + prog.enums
        given = r.sample(pool, r.randint(0, len(pool)))
        if r.random() < 0.3:
            given += r.choice([["int"], ["str", "bytes"], given[:1]])
        graph = spell.closure(given)
        deps = {}
        if r.random() < 0.6:
            for c in pool:
                if r.random() < 0.4:
                    extra = r.sample(pool, min(len(pool), r.choice([1, 1, 2])))
                    if r.random() < 0.75:  # keep it acyclic most of the time
                        rank = {d: i for i, d in enumerate(pool)}
                        extra = [d for d in extra if rank[d] < rank[c]]
                    if r.random() < 0.1:
                        extra.append("datetime.timedelta")
                    deps[c] = extra
            todo = list(graph)
            while todo:
                c = todo.pop()
                for d in deps.get(c, ()):
                    for n, ms in spell.closure([d]).items():
                        if n not in graph:
                            graph[n] = set(ms)
                            todo.append(n)
                    graph[c] = graph[c] | {d}
        py = {c: spell.resolve(prog, c) for c in graph}
        want = {py[c]: {py[d] for d in ds} for c, ds in graph.items()}
        table = {py[c]: [spell.resolve(prog, d) for d in ds] for c, ds in deps.items() if c in py}
        asked = []
        fresh = r.random() < 0.5

        def fn(typ):
            asked.append(typ)
            found = table.get(typ, [])
            return iter(found) if fresh else list(found)

        args = [spell.resolve(prog, c) for c in given]
        ctx.note(types=lambda: spell.show(given), dependencies=lambda: {c.name: spell.show(d) for c, d in deps.items()})
        use = bool(deps) or r.random() < 0.3
        source = r.choice([list, tuple, iter])(args)
        kind, got = lab.outcome(type_topological_sort, source, fn) if use else lab.outcome(type_topological_sort, source)
        ctx.count("evaluations")
        if has_cycle(want):
            ctx.check(kind == "E", lambda: f"types that depend on each other are sorted as {got!r}")
            ctx.count("cycles refused")
        else:
            ctx.check(kind == "A", lambda: f"types {spell.show(given)} fail with {got!r}")
            judge(ctx, want, got, f"types {spell.show(given)}")
        if use and kind == "A":
            ctx.check(set(asked) <= set(want), lambda: f"dependencies asked of {set(asked) - set(want)}, which are not among the types")
            ctx.check(set(asked) == set(want), lambda: f"dependencies never asked of {set(want) - set(asked)}")
            ctx.count("calls recorded", len(asked))
        if any(m != n for n, d in want.items() for m in d):
            ctx.distinct(sorted((str(n), sorted(map(str, d))) for n, d in want.items()), repr(given))


def has_cycle(graph):
    left = {n: {m for m in d if m != n} for n, d in graph.items()}
    while left:
        free = [n for n, d in left.items() if not d]
        if not free:
            return True
        for n in free:
            del left[n]
        for d in left.values():
            d.difference_update(free)
    return False


def case(ctx, i):
    (graphs if i % 2 else types)(ctx)


def large_graphs(ctx):
    "Long chains, wide fans and grids."
    for n in (900, 1100, 5000, 30000):
        chain = {i: {i + 1} for i in range(n)}
        chain[n] = set()
        shapes = {
            "chain": chain,
            "reverse chain": {i: {i - 1} if i else set() for i in range(n)},
            "fan": {0: set(range(1, n)), **{i: set() for i in range(1, n)}},
            "fan in": {0: set(), **{i: {0, i} for i in range(1, n)}},
            "grid": {(i, j): {(i + 1, j), (i, j + 1)} & {(a, b) for a in (i, i + 1) for b in (j, j + 1) if a < n // 30 and b < 30} for i in range(n // 30) for j in range(30)},
        }
        for name, g in shapes.items():
            ctx.note(graph=f"{name} of {n}")
            before = copy.deepcopy(g) if n < 2000 else None
            kind, got = lab.outcome(topological_sort, g)
            ctx.count("evaluations")
            ctx.check(kind == "A", lambda: f"a {name} of {n} nodes fails with {type(got).__name__}")
            judge(ctx, g, got, f"{name} of {n} nodes")
            ctx.check(before is None or before == g, f"{name} was altered")
            ctx.distinct(name, n)
        ring = {**chain, n: {0}}
        kind, got = lab.outcome(topological_sort, ring)
        ctx.check(kind == "E" and not isinstance(got, RecursionError), lambda: f"a ring of {n + 1} nodes gives {got!r:.80}")


def not_types(ctx):
    for bad in (["a"], [1], [int, "x"], [None]):
        kind, got = lab.outcome(type_topological_sort, bad)
        ctx.check(kind == "E", lambda: f"sorting {bad} gives {got!r}")
    ctx.count("evaluations", 4)


SCENARIOS = [large_graphs, not_types]
