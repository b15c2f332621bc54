"""
Runs the check of one property: workload generation in forked workers, monitors, watchdog, evidence, replay.

    python -m rt.runner --prop C01                 run the check (tier and seed from VERIF_TIER and VERIF_SEED)
    python -m rt.runner --prop C01 --replay FILE   run the failing case again
    python -m rt.runner --prop C01 --case 17       run a single case

Exit status: 0 the property held, 1 a violation (with a VIOLATION line), 2 the check itself is at fault or inconclusive.
"""

import argparse
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
import typing
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "strong_typing") + os.sep
OUT = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Violation(Exception):
    "Raised by a monitor when it observes behaviour that breaks the property."

    def __init__(self, message, mechanism=None):
        super().__init__(message)
        self.message, self.mechanism = message, mechanism


class Skip(Exception):
    "The case is outside the domain of the property."


class TooLong(BaseException):
    "The code under test executed more steps than any case can need."


class Stats:
    def __init__(self):
        self.cases = 0
        self.counts = {}
        self.keys = set()
        self.features = {}
        self.samples = []
        self.findings = {}
        self.lines = {}

    def merge(self, o):
        self.cases += o.cases
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.keys |= o.keys
        for k, v in o.features.items():
            self.features[k] = self.features.get(k, 0) + v
        if len(self.samples) < 4:
            self.samples += o.samples[: 4 - len(self.samples)]
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        for k, v in o.lines.items():
            self.lines.setdefault(k, set()).update(v)


def forget_types():
    """Empties the caches of `typing`, where a type expression may otherwise evaluate to an equal one of an earlier case whose
    union members or literal values are in another order."""
    for clear in getattr(typing, "_cleanups", ()):
        clear()


class Ctx:
    "What a property module sees of the run."

    def __init__(self, prop, seed, tier, stats, known=()):
        self.prop, self.seed, self.tier, self.stats, self.known = prop, seed, tier, stats, known
        self.rng = None
        self.index = None
        self.notes = []
        self.current = {}

    def begin(self, index):
        self.index = index
        self.rng = random.Random(f"{self.seed}/{self.prop}/{index}")
        self.notes = []
        self.current = {}
        forget_types()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def note(self, **kw):
        "Remembers the input at hand for the report of a violation; values may be callables."
        self.current.update(kw)

    def count(self, name, n=1):
        self.stats.counts[name] = self.stats.counts.get(name, 0) + n

    def distinct(self, *key):
        "Records a non-trivial observation."
        h = hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=8).digest()
        self.stats.keys.add(h)

    def cover(self, names):
        for n in names:
            self.stats.features[n] = self.stats.features.get(n, 0) + 1

    def sample(self, make):
        if len(self.stats.samples) < 2 and self.index is not None and self.stats.cases >= 3 * len(self.stats.samples):
            s = make() if callable(make) else make
            self.stats.samples.append({"case": self.index, "observed": clip(s, 1500)})

    def fail(self, message, mechanism=None):
        if mechanism is not None and mechanism in self.known:
            self.stats.findings.setdefault(mechanism, clip(message, 300))
            self.count(f"known finding: {mechanism}")
            return
        raise Violation(message, mechanism)

    def check(self, ok, message, mechanism=None):
        self.count("assertions")
        if not ok:
            self.fail(message() if callable(message) else message, mechanism)


def clip(s, n):
    s = s if isinstance(s, str) else repr(s)
    return s if len(s) <= n else s[:n] + f"... ({len(s)} characters)"


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].strip().partition(" | ")
                fields = dict(p.split("=", 1) for p in head.split())
                if fields["property"] == prop:
                    out[fields["mechanism"]] = text
    return out


# ------------------------------------------------------------------------------------------------------------------
# where the code under test has been


class LineMonitor:
    "Records which lines of the code under test have been executed."

    TOOL = 3

    def __init__(self):
        self.lines = {}
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "rt")
        mon.register_callback(self.TOOL, mon.events.LINE, self.hit)
        mon.set_events(self.TOOL, mon.events.LINE)

    def hit(self, code, line):
        f = code.co_filename
        if f.startswith(PKG):
            self.lines.setdefault(f[len(PKG):], set()).add(line)
        return sys.monitoring.DISABLE


def count_steps(limit):
    "Aborts the case when the code under test executes more lines than `limit`."
    left = [limit]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                raise TooLong(f"more than {limit} lines executed, at {frame.f_code.co_filename}:{frame.f_lineno}")
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None

    sys.settrace(trace)


# ------------------------------------------------------------------------------------------------------------------
# workers


def blame(tb):
    "True if an exception comes from the code under test (or what it calls), not from the check."
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(PKG):
            last = "repo"
        elif f.startswith(VERIF + os.sep):
            last = "check"
        tb = tb.tb_next
    return last == "repo"


def run_case(mod, ctx, index):
    """Runs one case. Returns None, or a report of what went wrong."""
    ctx.begin(index)
    scenarios = getattr(mod, "SCENARIOS", [])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if index < len(scenarios):
                ctx.note(scenario=scenarios[index].__name__)
                scenarios[index](ctx)
                ctx.count("scenarios")
            else:
                mod.case(ctx, index)
        ctx.stats.cases += 1
        return None
    except Skip:
        ctx.count("skipped")
        return None
    except Violation as e:
        return report(ctx, "violation", e.message, "")
    except TooLong as e:
        return report(ctx, "violation", f"no end in sight: {e}", "")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        text = "".join(traceback.format_exception(e)[-12:])
        if blame(e.__traceback__):
            return report(ctx, "violation", f"unexpected {type(e).__name__}: {clip(str(e), 500)}", text)
        if not isinstance(e, (OSError, MemoryError, ImportError)) and type(e).__name__ != "ChildFailed":
            # never happens with results of the form that is specified
            return report(ctx, "violation", f"the monitor cannot make sense of what it observed: {type(e).__name__}: {clip(str(e), 500)}", text)
        return report(ctx, "error", f"{type(e).__name__}: {e}", text)


def report(ctx, kind, message, tb):
    detail = {}
    for k, v in ctx.current.items():
        try:
            detail[k] = clip(v() if callable(v) else v, 6000)
        except Exception as e:
            detail[k] = f"<{type(e).__name__}: {e}>"
    return {"kind": kind, "case": ctx.index, "message": clip(message, 4000), "traceback": clip(tb, 4000), "detail": detail}


def shared_cases(counter, total):
    "Case numbers that workers divide among them as they become free; for cases that take very different times."
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= total:
            return
        yield i


def worker(w, n, mod_name, prop, seed, tier, total, deadline, state, queue, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    faulthandler.enable()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    stats = Stats()
    problem = None
    done = []
    try:
        mod = importlib.import_module(mod_name)
        mon = LineMonitor() if getattr(mod, "LINES", True) else None
        ctx = Ctx(prop, seed, tier, stats, known)
        for i in shared_cases(state["next"], total) if getattr(mod, "DYNAMIC", False) else range(w, total, n):
            if time.monotonic() > deadline or state["stop"].value:
                break
            state["case"][w] = i
            state["since"][w] = time.monotonic()
            problem = run_case(mod, ctx, i)
            if problem is not None:
                problem["before"] = done
                break
            done.append(i)
        if mon is not None:
            stats.lines = mon.lines
    except BaseException as e:
        problem = {"kind": "error", "case": -1, "message": f"worker failed: {e!r}", "traceback": traceback.format_exc(), "detail": {}}
    state["case"][w] = -2
    queue.put((w, stats, problem))
    queue.close()
    queue.join_thread()
    os._exit(0)


def isolated(prop, seed, tier, index, known, limit, timeout, before=()):
    "Runs a single case (after others, if given) in a process of its own; returns its report."
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            mod = importlib.import_module(f"rt.props.{prop.lower()}")
            ctx = Ctx(prop, seed, tier, Stats(), known)
            for b in before:
                run_case(mod, ctx, b)
            if limit:
                count_steps(limit)
            p = run_case(mod, ctx, index)
            sys.settrace(None)
            os.write(wfd, json.dumps(p).encode())
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    import select

    end = time.monotonic() + timeout
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "timeout"
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return "died"
    return json.loads(data)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    args = ap.parse_args(argv)
    prop = args.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    start = time.monotonic()
    mod_name = f"rt.props.{prop.lower()}"
    known = known_findings(prop)

    if args.replay or args.case is not None:
        before = []
        if args.replay:
            rec = json.load(open(args.replay, encoding="utf-8"))
            index, seed, tier, before = rec["case"], rec["seed"], rec["tier"], rec.get("before", [])
        else:
            index = args.case
        p = isolated(prop, seed, tier, index, known, 0, 600)
        if p is None and before:
            p = isolated(prop, seed, tier, index, known, 0, 900, before)
        print(json.dumps(p, indent=1, ensure_ascii=False) if isinstance(p, dict) else p)
        if isinstance(p, dict):
            for k, v in p["detail"].items():
                print(f"--- {k}\n{v}")
            print(p["traceback"])
        return 0 if p is None else 1

    mod = importlib.import_module(mod_name)
    total = args.cases or mod.CASES[tier]
    wall = getattr(mod, "WALL", {"quick": 100, "thorough": 600})[tier]
    stall = getattr(mod, "STALL", 30)
    workers = min(args.workers, total)
    ctxm = multiprocessing.get_context("fork")
    state = {"stop": ctxm.Value("b", 0), "next": ctxm.Value("l", 0), "case": ctxm.Array("l", [-1] * workers), "since": ctxm.Array("d", [time.monotonic()] * workers)}
    queue = ctxm.Queue()
    deadline = start + wall
    procs = []
    for w in range(workers):
        p = ctxm.Process(target=worker, args=(w, workers, mod_name, prop, seed, tier, total, deadline, state, queue, known))
        p.start()
        procs.append(p)
    stats = Stats()
    problems = []
    waiting = set(range(workers))
    while waiting:
        try:
            w, s, problem = queue.get(timeout=0.5)
            waiting.discard(w)
            stats.merge(s)
            if problem is not None:
                problems.append(problem)
                state["stop"].value = 1
            continue
        except Exception:
            pass
        now = time.monotonic()
        for w in sorted(waiting):
            i = state["case"][w]
            dead = not procs[w].is_alive()
            if dead:
                try:
                    ww, s, problem = queue.get(timeout=1.0)
                    waiting.discard(ww)
                    stats.merge(s)
                    if problem is not None:
                        problems.append(problem)
                        state["stop"].value = 1
                    continue
                except Exception:
                    pass
            if dead or i >= -1 and now - state["since"][w] > stall:
                if not dead:
                    os.kill(procs[w].pid, signal.SIGKILL)
                    procs[w].join()
                waiting.discard(w)
                if i < 0:
                    problems.append({"kind": "error", "case": i, "message": "worker died outside of a case", "traceback": "", "detail": {}})
                    continue
                p = isolated(prop, seed, tier, i, known, getattr(mod, "STEPS", 30_000_000), 240)
                if p == "timeout":
                    p = {"kind": "violation", "case": i, "message": "the case does not end (stalled in the run and again in a process of its own)", "traceback": "", "detail": {}}
                elif p == "died":
                    p = {"kind": "violation", "case": i, "message": "the interpreter died in this case", "traceback": "", "detail": {}}
                elif p is None:
                    stats.counts["slow cases"] = stats.counts.get("slow cases", 0) + 1
                    continue
                problems.append(p)
                state["stop"].value = 1
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()

    if not problems and hasattr(mod, "finish"):
        fctx = Ctx(prop, seed, tier, stats, known)
        fctx.begin(-1)
        try:
            mod.finish(fctx)
        except Violation as e:
            problems.append(report(fctx, "violation", e.message, ""))

    wall_s = time.monotonic() - start
    violations = [p for p in problems if p["kind"] == "violation"]
    errors = [p for p in problems if p["kind"] == "error"]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.counts.get("evaluations", stats.cases),
            "distinct_nontrivial": len(stats.keys),
            "rule": " ".join(mod.RULE.split()),
            "samples": stats.samples or [{"case": -1, "observed": "none"}],
            "cases": stats.cases,
            "observed": {k: stats.counts[k] for k in sorted(stats.counts)},
            "features_seen": len(stats.features),
            "features": {k: stats.features[k] for k in sorted(stats.features, key=lambda k: (-stats.features[k], k))[:60]},
            "lines_executed": {k: len(v) for k, v in sorted(stats.lines.items())},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall_s, 3),
        "violations": len(violations),
    }
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{prop}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=True)
    os.replace(path + ".tmp", path)

    for m, text in known.items():
        print(f"KNOWN-FINDING: property={prop} {text}" + (f" (observed in this run: {stats.findings[m]})" if m in stats.findings else ""))
    print(f"{prop} {tier} seed={seed}: {stats.cases} cases, {evidence['coverage']['evaluations']} evaluations, "
          f"{len(stats.keys)} distinct, {wall_s:.1f} s")
    if violations:
        v = min(violations, key=lambda p: p["case"])
        v.update(property=prop, seed=seed, tier=tier)
        replay = os.path.join(OUT, f"{prop}.replay.json")
        with open(replay, "w", encoding="utf-8") as fh:
            json.dump(v, fh, indent=1, ensure_ascii=True)
        print(f"{prop}: case {v['case']}: {v['message']}")
        for k, x in v["detail"].items():
            print(f"--- {k}\n{clip(x, 3000)}".encode("utf-8", "backslashreplace").decode())
        if v["traceback"]:
            print(v["traceback"])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors:
        for e in errors[:2]:
            print(f"{prop}: check failed in case {e['case']}: {e['message']}\n{e['traceback']}")
            for k, x in e["detail"].items():
                print(f"--- {k}\n{clip(x, 3000)}")
        return 2
    if not stats.keys or stats.cases < min(total, workers):
        print(f"{prop}: inconclusive, the monitors observed nothing")
        return 3
    return 0


if __name__ == "__main__":
    if sys.stdout.encoding.lower() != "utf-8":
        sys.stdout.reconfigure(encoding="utf-8", errors="backslashreplace")
    sys.exit(main())
