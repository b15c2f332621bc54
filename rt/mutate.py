"Mutation of JSON documents: near misses of what a type accepts."

import copy
import json
import random

SCALARS = [
    None, True, False, 0, 1, -1, 2, 42, 300, -129, 65536, 2**31, 2**63, 2**64, 10**400, 0.0, 1.0, 1.5, -2.25, 1e308, 3.0, 1e22,
    "", "a", "b", "true", "null", "0", "1", "1.5", "L", "A", "text", "2020-02-30", "2020-02-29", "2020-02-29T25:00:00Z",
    "2020-02-29T12:00:00Z", "2020-02-29T12:00:00", "12:00:00", "12:00:00Z", "24:61:00Z", "P1D", "PT", "P", "PT1.1234567S", "P999999999999D",
    "QUJD", "QUJ", "Q===", "ä", "10.0.0.1", "10.0.0.256", "10.0.0", "::1", "::g", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6",
    "f81d4fae-7dec-11d0-a765-00a0c91e6bf", "circle", "square", "line", "\x00", "😀",
]
COMPOUND = [[], {}, [None], [[]], [1], ["a"], [1, 2], [1, "a", None], {"a": 1}, {"kind": "circle"}, {"": None}, [{}], {"a": {}}, {"value": [1]}]


def positions(j, path=()):
    yield path
    if type(j) is list:
        for i, x in enumerate(j):
            yield from positions(x, path + (i,))
    elif type(j) is dict:
        for k, x in j.items():
            yield from positions(x, path + (k,))


def get(j, path):
    for p in path:
        j = j[p]
    return j


def put(j, path, v):
    if not path:
        return v
    get(j, path[:-1])[path[-1]] = v
    return j


def random_doc(r, depth=2):
    p = r.random()
    if p < 0.7 or depth <= 0:
        return copy.deepcopy(r.choice(SCALARS))
    if p < 0.8:
        return copy.deepcopy(r.choice(COMPOUND))
    if p < 0.9:
        return [random_doc(r, depth - 1) for _ in range(r.randint(0, 3))]
    return {r.choice(["a", "b", "kind", "", "value", "x"]): random_doc(r, depth - 1) for _ in range(r.randint(0, 3))}


def text_variants(r, s):
    i = r.randrange(len(s) + 1)
    c = r.randrange(12)
    if c == 0:
        return s[:i] + s[i + 1:]
    if c == 1:
        return s[:i] + r.choice("0123456789:-+.TZPWDHMS=/ abc_%\n٣é") + s[i:]
    if c == 2:
        return s[:i] + r.choice("0123456789:-+.TZPWDHMS=/ xyz") + s[i + 1:]
    if c == 3:
        return s + r.choice(["Z", " ", "\n", "0", "=", "x"])
    if c == 4:
        return " " + s
    if c == 5:
        return s.upper() if s.upper() != s else s.lower()
    if c == 6:
        return s[::-1]
    if c == 7:
        return s * 2
    if c == 8:
        return s.replace("Z", "+00:00") if "Z" in s else s.replace("T", " ")
    if c == 9 and s:
        return s[:-1]
    if c == 10 and s:
        return s[1:]
    return ""


def mutate_at(r, v, names, pool):
    "A variant of one value."
    c = r.random()
    if c < 0.22:
        return random_doc(r)
    if c < 0.32:
        return copy.deepcopy(r.choice(pool)) if pool else None
    if c < 0.37:
        return [v]
    if c < 0.40:
        return {r.choice(names) if names else "a": v}
    if c < 0.46:
        return None
    if type(v) is bool:
        return r.choice([int(v), float(v), str(v), not v, None, [v]])
    if type(v) is int:
        return r.choice([v + 1, -v, float(v) if abs(v) < 2**53 else 0.5, v + 0.5 if abs(v) < 2**50 else 0.5, str(v), bool(v), v * 10**20, 10**400])
    if type(v) is float:
        return r.choice([-v, int(v), str(v), v + 1.25, bool(v), 10**400, -(10**309)])
    if type(v) is str:
        return text_variants(r, v)
    if v is None:
        return r.choice([0, False, "", [], {}])
    if type(v) is list:
        v = list(v)
        k = r.randrange(8)
        if k == 0 and v:
            del v[r.randrange(len(v))]
        elif k == 1 and v:
            v.insert(r.randrange(len(v) + 1), copy.deepcopy(r.choice(v)))
        elif k == 2:
            v.insert(r.randrange(len(v) + 1), random_doc(r, 1))
        elif k == 3:
            v.reverse()
        elif k == 4:
            return {str(i): x for i, x in enumerate(v)}
        elif k == 5:
            return v[0] if v else ""
        elif k == 6:
            v.append(None)
        else:
            return []
        return v
    if type(v) is dict:
        v = dict(v)
        k = r.randrange(10)
        keys = list(v)
        if k <= 1 and keys:
            del v[r.choice(keys)]
        elif k == 2:
            v[r.choice(names + ["zz", "", "a"])] = random_doc(r, 1)
        elif k == 3 and keys:
            old = r.choice(keys)
            x = v.pop(old)
            v[r.choice(names + [old + "_", old.upper(), old.lower(), "_" + old, old[:-1], old + " "])] = x
        elif k == 4 and keys:
            v[r.choice(keys)] = None
        elif k == 5 and keys:
            v[r.choice(names + ["zz", "unknown"])] = copy.deepcopy(v[r.choice(keys)])
        elif k == 6:
            return list(v.values())
        elif k == 7:
            return list(v.keys())
        elif k == 8 and len(keys) > 1:
            a, b = r.sample(keys, 2)
            v[a], v[b] = v[b], v[a]
        else:
            items = list(v.items())
            r.shuffle(items)
            return dict(items)
        return v
    return v


def mutate(r: random.Random, j, names=(), pool=()):
    "A document one to three edits away from another one."
    j = copy.deepcopy(j)
    names = list(names)
    for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
        ps = list(positions(j))
        # prefer inner positions, but try the whole document as well
        p = r.choice(ps) if r.random() < 0.9 else ()
        j = put(j, p, mutate_at(r, get(j, p), names, pool))
    return j


def text_of(j):
    return json.dumps(j, ensure_ascii=False)
