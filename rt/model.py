"""
Reference semantics: values of a type, their JSON form, and what a JSON document denotes.

Everything here is computed from the intermediate representation (ir.py) and the Python standard library; nothing is
imported from the code under test.
"""

import base64
import datetime
import decimal
import enum
import ipaddress
import math
import re
import uuid

from . import ir
from .ir import Ty, is_optional, strip_ann

UTC = datetime.timezone.utc

# ------------------------------------------------------------------------------------------------------------------
# values

STRINGS = [
    "", "a", "b", "text", "value", "L", "null", "true", "0", "1", "-1", "1.5", "1e5", "{}", "[]", "Α α", "árvíztűrő",
    "日本語", "😀", "line\nbreak", "tab\t", "q\"uote", "back\\slash", "\u0000", "\x7f", " lead", "trail ", "2020-02-29",
    "2020-02-29T00:00:00Z", "P1D", "12:30:00", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "10.0.0.1", "::1", "QUJD",
    "circle", "\u2028", "</script>", "é", "e\u0301", "ß", "x" * 200, "None", "NaN",
]
INTS = [0, 1, 2, -1, 7, 42, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 2**31 - 1, 2**31, -(2**31), 2**32,
        2**53, 2**53 + 1, -(2**53) - 1, 2**63 - 1, 2**63, 2**64, 10**30, -(10**40)]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 0.1, 1e-7, 1e16, 1e22, 1.7976931348623157e308, 5e-324, 3.141592653589793,
          123456789.123, 2.0, 1e300, -1e-300, 1e5]


def rnd_str(r):
    p = r.random()
    if p < 0.6:
        return r.choice(STRINGS)
    if p < 0.9:
        return "".join(r.choice("abcXYZ012 _-.äßπ") for _ in range(r.randint(0, 12)))
    return "".join(chr(r.choice([r.randrange(0x20, 0x250), r.randrange(0x4E00, 0x4E80), r.randrange(0x1F600, 0x1F640), r.randrange(0, 32)])) for _ in range(r.randint(0, 6)))


def rnd_micro(r):
    return r.choice([0, 0, 1, 10, 1000, 123000, 123456, 999999, 500000, 100, r.randrange(10**6)])


def rnd_tz(r, seconds=False):
    p = r.random()
    if p < 0.4:
        return UTC if p < 0.35 else datetime.timezone(datetime.timedelta(0), "GMT")
    if seconds and p < 0.45:
        s = r.choice([r.randrange(-86399, 86400), r.randrange(1, 60), -r.randrange(1, 60), r.choice([-1, 1]) * (3600 * r.randrange(24) + r.randrange(60))])
        return datetime.timezone(datetime.timedelta(seconds=s))
    m = r.choice([60, -60, 330, -210, 0, 1, -1, 765, 840, -720, 1439, -1439, r.randrange(-1439, 1440)])
    return datetime.timezone(datetime.timedelta(minutes=m))


def rnd_date(r):
    p = r.random()
    if p < 0.15:
        return r.choice([datetime.date.min, datetime.date.max, datetime.date(2020, 2, 29), datetime.date(1970, 1, 1), datetime.date(999, 12, 31), datetime.date(2000, 1, 1)])
    return datetime.date.fromordinal(r.randrange(1, datetime.date.max.toordinal() + 1)) if p < 0.3 else datetime.date(r.randrange(1900, 2100), r.randrange(1, 13), r.randrange(1, 29))


def rnd_time(r, tz):
    h, m, s = r.choice([(0, 0, 0), (23, 59, 59), (12, 30, 0), (r.randrange(24), r.randrange(60), r.randrange(60))])
    return datetime.time(h, m, s, rnd_micro(r), tzinfo=tz)


def rnd_delta(r):
    p = r.random()
    if p < 0.25:
        return r.choice([
            datetime.timedelta(0), datetime.timedelta(days=1), datetime.timedelta(days=-1), datetime.timedelta(seconds=1),
            datetime.timedelta(seconds=-1), datetime.timedelta(microseconds=1), datetime.timedelta(microseconds=-1),
            datetime.timedelta(hours=1), datetime.timedelta(minutes=1), datetime.timedelta(hours=23, minutes=59, seconds=59, microseconds=999999),
            datetime.timedelta.max, datetime.timedelta.min, datetime.timedelta(days=365, hours=23, minutes=39, milliseconds=59001),
            datetime.timedelta(hours=2, seconds=5), datetime.timedelta(weeks=3), datetime.timedelta(milliseconds=5), datetime.timedelta(microseconds=100),
        ])
    return datetime.timedelta(days=r.choice([0, 0, 1, -3, 400, r.randrange(-10**6, 10**6)]), seconds=r.choice([0, 1, 60, 3600, 3661, r.randrange(86400)]), microseconds=rnd_micro(r))


class Abort(Exception):
    "No value of the type can be generated (e.g. constraints cannot be met)."


class Values:
    """Generates values of a type. `constrained`: keep to what annotations declare. `portable`: keep to values whose text
    form is in the interchange formats of JSON schema (whole-minute offsets)."""

    def __init__(self, rng, module, constrained=False, portable=False, max_depth=4):
        self.r, self.module = rng, module
        self.constrained, self.portable, self.max_depth = constrained, portable, max_depth

    def prim(self, k):
        r = self.r
        if k == "none":
            return None
        if k == "bool":
            return r.random() < 0.5
        if k == "int":
            return r.choice(INTS) if r.random() < 0.6 else r.randrange(-1000, 1000)
        if k == "float":
            return r.choice(FLOATS) if r.random() < 0.6 else r.uniform(-1e6, 1e6)
        if k == "str":
            return rnd_str(r)
        if k == "bytes":
            return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 4, 16, 57, 100])))
        if k == "datetime":
            return datetime.datetime.combine(rnd_date(r), rnd_time(r, None)).replace(tzinfo=rnd_tz(r, not self.portable))
        if k == "date":
            return rnd_date(r)
        if k == "time":
            return rnd_time(r, rnd_tz(r, not self.portable) if self.portable or r.random() < 0.75 else None)
        if k == "timedelta":
            return rnd_delta(r)
        if k == "decimal":
            d = decimal.Decimal(r.choice(["0", "1", "-3", "0.5", "1.25", "-0.001", "123456.789", "1E+3", "100.00", "99999.99999", "9007199254740993", "-12345678901234567890.0", "1E+25", "18446744073709551616", str(r.randrange(10**r.randrange(16, 40))), str(r.randrange(-10**9, 10**9)), f"{r.randrange(10**6)}.{r.randrange(10**6):06d}", repr(r.random()), repr(r.uniform(-1e9, 1e9)), repr(r.random() * 10.0 ** -r.randrange(20))]))
            return d
        if k == "uuid":
            return r.choice([uuid.UUID(int=0), uuid.UUID(int=2**128 - 1), uuid.UUID(int=r.getrandbits(128)), uuid.UUID(int=r.getrandbits(128), version=4)])
        if k == "ipv4":
            return ipaddress.IPv4Address(r.choice([0, 2**32 - 1, 0x7F000001, r.getrandbits(32)]))
        if k == "ipv6":
            return ipaddress.IPv6Address(r.choice([0, 1, 2**128 - 1, r.getrandbits(128), r.getrandbits(32), 0x20010DB8 << 96, (0xFFFF << 32) | r.getrandbits(32)]))
        raise AssertionError(k)

    def json(self, depth=2, null=True):
        r = self.r
        p = r.random()
        if depth <= 0 or p < 0.6:
            c = r.randrange(0 if null else 1, 5)
            return [None, r.random() < 0.5, self.prim("int"), self.prim("float"), rnd_str(r)][c]
        if p < 0.8:
            return [self.json(depth - 1, null) for _ in range(r.randint(0, 3))]
        return {rnd_str(r): self.json(depth - 1, null) for _ in range(r.randint(0, 3))}

    def value(self, t: Ty, depth=0):
        r = self.r
        k = t.k
        if k in ir.PRIM_SRC:
            return self.prim(k)
        if k == "fixed":
            if t.extra.startswith("float"):
                return r.choice([0.0, 1.5, -2.25, 0.5, 1.0])
            lo, hi = ir.FIXED[t.extra]
            return r.choice([lo, hi, 0, 1, r.randint(lo, hi)])
        if k == "ann":
            return self.annotated(t, depth)
        if k == "json":
            return self.json()
        if k == "strict":
            return self.json(null=False)
        if k == "any":
            return self.json()
        if k == "lit":
            values, e = t.extra
            v = r.choice(values)
            return getattr(e.cls, v) if e is not None else v
        if k == "union":
            none = t.extra[0]
            if none and (depth >= self.max_depth or r.random() < 0.3):
                return None
            return self.value(r.choice(t.args), depth + 1)
        n = 0 if depth >= self.max_depth else r.choice([0, 1, 1, 2, 3])
        if k == "list":
            return [self.value(t.args[0], depth + 1) for _ in range(n)]
        if k == "set":
            return {self.value(t.args[0], depth + 1) for _ in range(n)}
        if k == "tuple":
            return tuple(self.value(a, depth + 1) for a in t.args)
        if k == "dict":
            if t.extra is not None:
                names = [m for m, _ in t.extra.members]
                keys = [getattr(t.extra.cls, m) for m in r.sample(names, min(n, len(names)))]
            else:
                keys = [rnd_str(r) for _ in range(n)]
            return {key: self.value(t.args[0], depth + 1) for key in keys}
        if k == "ref":
            d = t.extra
            if d.is_enum:
                return getattr(d.cls, r.choice(d.members)[0])
            return self.instance(d, depth)
        raise AssertionError(k)

    def annotated(self, t, depth):
        r = self.r
        if not self.constrained:
            return self.value(t.args[0], depth)
        metas = dict(m for m in t.extra if m[0] != "raw")
        if "IntegerRange" in metas:
            lo, hi = metas["IntegerRange"]
            return r.choice([lo, hi, r.randint(lo, hi)])
        if metas.keys() & {"Length", "MinLength", "MaxLength"}:
            lo = max([metas.get("MinLength", (0,))[0], metas.get("Length", (0,))[0]])
            hi = min([metas.get("MaxLength", (lo + 5,))[0], metas.get("Length", (10**9,))[0]])
            return "".join(r.choice("abcä😀 1") for _ in range(r.choice([lo, hi, r.randint(lo, hi)])))
        if "Precision" in metas:
            sig, dec = metas["Precision"]
            n = r.randrange(-(10**sig) + 1, 10**sig)
            d = decimal.Decimal(n).scaleb(-dec)
            return d if strip_ann(t).k == "decimal" else float(d)
        return self.value(t.args[0], depth)

    def instance(self, d, depth=0):
        vals = {}
        for f in d.fields:
            narrow = self.constrained and any(n.k == "ann" for n in ir.walk(f.type))  # the default may not meet constraints
            if f.default is not None and not narrow and self.r.random() < 0.15:
                vals[f.name] = f.default[2](d.owner(f).module.py)
            else:
                vals[f.name] = self.value(f.type, depth + 1)
            if f.default is not None and vals[f.name] is None and f.default[1] != "None":
                # a null that stands for a default is outside what JSON objects can express (see known findings)
                s = strip_ann(f.type)
                while vals[f.name] is None and narrow and s.k == "union":
                    vals[f.name] = self.value(self.r.choice(s.args), depth + 1)
                if vals[f.name] is None:
                    vals[f.name] = f.default[2](d.owner(f).module.py)
        return build(d, vals)


def build(d, vals):
    "Creates an instance of a class from the values of its fields."
    if d.kind == "namedtuple":
        return d.cls(**vals)
    if d.kind == "dataclass":
        init = {f.name: vals[f.name] for f in d.fields if f.init}
        obj = d.cls(**init)
        for f in d.fields:
            if not f.init:
                object.__setattr__(obj, f.name, vals[f.name])
        return obj
    obj = d.cls.__new__(d.cls)
    for n, v in vals.items():
        setattr(obj, n, v)
    return obj


# ------------------------------------------------------------------------------------------------------------------
# comparison


def same_text(a, b):
    return a == b


def same(t: Ty, a, b) -> bool:
    "Equality of two values of a type, and of their concrete types, at every depth."
    t = strip_ann(t)
    k = t.k
    if a is None or b is None:
        return a is b
    if k == "union":
        return same_any(a, b, t)
    if type(a) is not type(b):
        return False
    if k == "float" or k == "fixed" and t.extra.startswith("float"):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if k in ("datetime", "time"):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    if k in ir.PRIM_SRC or k == "fixed" or k == "lit":
        return a == b
    if k in ("json", "strict", "any"):
        return same_json(a, b)
    if k == "list":
        return len(a) == len(b) and all(same(t.args[0], x, y) for x, y in zip(a, b))
    if k == "tuple":
        return len(a) == len(b) == len(t.args) and all(same(s, x, y) for s, x, y in zip(t.args, a, b))
    if k == "set":
        return same_set(t.args[0], a, b)
    if k == "dict":
        if list(map(type, a)) != list(map(type, b)) and len(a) != len(b):
            return False
        return len(a) == len(b) and all(key in b and same(t.args[0], v, b[key]) for key, v in a.items()) and all(any(key is k2 or (type(key) is type(k2) and key == k2) for k2 in b) for key in a)
    if k == "ref":
        d = t.extra
        if d.is_enum:
            return a is b
        return same_fields(d, a, b)
    raise AssertionError(k)


MISSING = object()


def same_fields(d, a, b):
    if type(a) is not d.cls or type(b) is not d.cls:
        return False
    for f in d.fields:
        x, y = getattr(a, f.name, MISSING), getattr(b, f.name, MISSING)
        if x is MISSING or y is MISSING:
            return False
        if not same(f.type, x, y):
            return False
    if hasattr(a, "__dict__") and hasattr(b, "__dict__"):
        if set(vars(a)) != set(vars(b)):
            return False
    return True


def same_set(t, a, b):
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if same(t, x, y):
                del rest[i]
                break
        else:
            return False
    return True


def same_any(a, b, t=None):
    "Equality for a value of a union: the first member type that has both values decides."
    for m in t.args:
        if belongs(m, a) and belongs(m, b):
            return same(m, a, b)
    return False


def belongs(t: Ty, v, constrained=False) -> bool:
    "Strict type membership at every depth."
    t = strip_ann(t)
    k = t.k
    py = {"bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "datetime": datetime.datetime, "date": datetime.date,
          "time": datetime.time, "timedelta": datetime.timedelta, "decimal": decimal.Decimal, "uuid": uuid.UUID,
          "ipv4": ipaddress.IPv4Address, "ipv6": ipaddress.IPv6Address}
    if k == "none":
        return v is None
    if k in py:
        return type(v) is py[k]
    if k == "fixed":
        return type(v) is (float if t.extra.startswith("float") else int)
    if k in ("json", "any"):
        return pure_json(v)
    if k == "strict":
        return pure_json(v, null=False)
    if k == "lit":
        values, e = t.extra
        if e is not None:
            return any(v is getattr(e.cls, n) for n in values)
        return any(type(v) is type(x) and v == x for x in values)
    if k == "union":
        return (t.extra[0] and v is None) or any(belongs(m, v) for m in t.args)
    if k == "list":
        return type(v) is list and all(belongs(t.args[0], x) for x in v)
    if k == "set":
        return type(v) is set and all(belongs(t.args[0], x) for x in v)
    if k == "tuple":
        return type(v) is tuple and len(v) == len(t.args) and all(belongs(s, x) for s, x in zip(t.args, v))
    if k == "dict":
        if type(v) is not dict:
            return False
        for key, x in v.items():
            if t.extra is not None:
                if type(key) is not t.extra.cls:
                    return False
            elif type(key) is not str:
                return False
            if not belongs(t.args[0], x):
                return False
        return True
    if k == "ref":
        d = t.extra
        if type(v) is not d.cls:
            return False
        if d.is_enum:
            return True
        for f in d.fields:
            x = getattr(v, f.name, MISSING)
            if x is MISSING:
                return False
            if not belongs(f.type, x):
                # a default may be null irrespective of the type
                if not (f.default is not None and f.default[1] == "None" and x is None):
                    return False
        return True
    raise AssertionError(k)


# ------------------------------------------------------------------------------------------------------------------
# JSON data


def pure_json(v, null=True):
    if v is None:
        return null
    if type(v) in (bool, int, float, str):
        return True
    if type(v) is list:
        return all(pure_json(x, null) for x in v)
    if type(v) is dict:
        return all(type(key) is str and pure_json(x, null) for key, x in v.items())
    return False


def same_json(a, b, order=False):
    if type(a) is not type(b):
        return False
    if type(a) is float:
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if type(a) is list:
        return len(a) == len(b) and all(same_json(x, y, order) for x, y in zip(a, b))
    if type(a) is dict:
        if order and list(a) != list(b):
            return False
        return a.keys() == b.keys() and all(same_json(v, b[k], order) for k, v in a.items())
    return a == b


class Text:
    "Expected text of a well-known type, compared by meaning."

    __slots__ = ("kind", "value")

    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def canonical(self):
        k, v = self.kind, self.value
        if k == "datetime":
            s = v.isoformat()
            return s[:-6] + "Z" if s.endswith("+00:00") else s
        if k in ("date", "time"):
            return v.isoformat()
        if k == "timedelta":
            return duration_text(v)
        if k == "bytes":
            return base64.b64encode(v).decode("ascii")
        return str(v)

    def matches(self, s):
        if type(s) is not str:
            return False
        k, v = self.kind, self.value
        if k == "datetime":
            if not RE_DATETIME.fullmatch(s) or (v.utcoffset() == datetime.timedelta(0)) != s.endswith("Z"):
                return False
        elif k == "time":
            if not RE_TIME.fullmatch(s):
                return False
        elif k in ("bytes", "uuid", "ipv4", "ipv6", "date"):
            return s == self.canonical()
        r = parse_text(k, s)
        return r[0] == "A" and same(Ty(k), r[1], v)

    def __repr__(self):
        return repr(self.canonical())


class Bag:
    "Expected array of the items of a set, in any order."

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return "Bag" + repr(self.items)


def duration_text(v):
    if not v:
        return "PT0S"
    out = "P"
    if v.days:
        out += f"{v.days}D"
    s, us = v.seconds, v.microseconds
    if s or us:
        out += "T"
        if s >= 3600:
            out += f"{s // 3600}H"
        if s >= 60:
            out += f"{s % 3600 // 60}M"
        frac = f".{us:06d}" if us % 1000 else f".{us // 1000:03d}" if us else ""
        out += f"{s % 60}{frac}S"
    return out


OFFSET = r"(?:Z|[+-]\d\d:\d\d(?::\d\d(?:\.\d{1,6})?)?)"
RE_DATE = re.compile(r"\d{4}-\d\d-\d\d", re.ASCII)
RE_TIME = re.compile(rf"\d\d:\d\d:\d\d(?:\.(?:\d{{3}}|\d{{6}}))?{OFFSET}?", re.ASCII)
RE_DATETIME = re.compile(rf"\d{{4}}-\d\d-\d\dT\d\d:\d\d:\d\d(?:\.(?:\d{{3}}|\d{{6}}))?{OFFSET}", re.ASCII)
RE_NAIVE = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(?:\.(?:\d{3}|\d{6}))?", re.ASCII)
RE_DURATION = re.compile(r"P(?:(\d+)W)?(?:(-?\d+)D)?(?:T(?=\d)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d{1,9}))?S)?)?", re.ASCII)
RE_UUID = re.compile(r"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}", re.ASCII)
RE_B64 = re.compile(r"(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?", re.ASCII)


STDLIB = {"date": datetime.date.fromisoformat, "datetime": datetime.datetime.fromisoformat, "time": datetime.time.fromisoformat,
          "uuid": uuid.UUID}


def parse_text(kind, s):
    "Meaning of the text form of a well-known type; what only the standard library's lenient parsers take is left open."
    m = text_meaning(kind, s)
    if m[0] == "R" and kind in STDLIB:
        for x in {s, s.removesuffix("Z")}:
            try:
                v = STDLIB[kind](x)
            except ValueError:
                continue
            if kind != "datetime" or v.tzinfo is not None or x != s:
                return ("U",)
    return m


def text_meaning(kind, s):
    "Meaning of the text form of a well-known type: ('A', value), ('R',) malformed, or ('U',) latitude in the format."
    if kind == "date":
        if RE_DATE.fullmatch(s):
            try:
                return ("A", datetime.date.fromisoformat(s))
            except ValueError:
                return ("R",)
        # other forms of ISO 8601 (basic format, week dates) are left open
        return ("U",) if re.fullmatch(r"\d{4}-?W?\d\d-?\d{0,2}", s) else ("R",)
    if kind == "datetime":
        if RE_DATETIME.fullmatch(s):
            try:
                return ("A", datetime.datetime.fromisoformat(s))
            except ValueError:
                return ("U",) if re.search(r"[+-]2[4-9]:|T24|:60", s) and not plain_bad(s) else ("R",)
        if RE_NAIVE.fullmatch(s):
            return ("R",)
        if len(s) < 7 or not re.match(r"\d{4}", s) or len(re.findall(r"[^0-9:.,+\-TWZtz\s]", s)) >= 2:
            return ("R",)
        return ("U",)
    if kind == "time":
        if RE_TIME.fullmatch(s):
            try:
                return ("A", datetime.time.fromisoformat(s))
            except ValueError:
                return ("U",) if re.search(r"[+-]2[4-9]:|^24|:60", s) else ("R",)
        if len(s) < 2 or not re.match(r"T?\d\d", s) or re.search(r"[^0-9:.,+\-TZtz]", s):
            return ("R",)
        return ("U",)
    if kind == "timedelta":
        m = RE_DURATION.fullmatch(s)
        if not m:
            return ("U",) if re.fullmatch(r"P(?:\d+W)?(?:-?\d+D)?T?", s, re.ASCII) else ("R",)
        if not any(m.groups()):
            return ("U",)
        w, d, h, mi, se, fr = m.groups()
        ns = int((fr or "0").ljust(9, "0"))
        if ns % 1000:
            return ("R",)
        try:
            return ("A", datetime.timedelta(weeks=int(w or 0), days=int(d or 0), hours=int(h or 0), minutes=int(mi or 0), seconds=int(se or 0), microseconds=ns // 1000))
        except OverflowError:
            return ("R",)
    if kind == "bytes":
        if RE_B64.fullmatch(s):
            v = base64.b64decode(s)
            return ("A", v) if base64.b64encode(v).decode() == s else ("U",)
        # superfluous padding after complete groups is left open
        return ("U",) if RE_B64.fullmatch(s.rstrip("=")) and s.rstrip("=") else ("R",)
    if kind == "uuid":
        if RE_UUID.fullmatch(s):
            return ("A", uuid.UUID(s))
        h = s.replace("urn:", "").replace("uuid:", "").strip("{}").replace("-", "")
        if len(h) != 32:
            return ("R",)
        return ("R",) if not re.fullmatch(r"[0-9a-fA-F_+\s]+", h) and h.isascii() else ("U",)
    if kind == "ipv4":
        if re.fullmatch(r"\d{1,3}(?:\.\d{1,3}){3}", s, re.ASCII):
            try:
                return ("A", ipaddress.IPv4Address(s))
            except ValueError:
                return ("R",)
        return ("R",)
    if kind == "ipv6":
        if "%" in s:
            return ("U",)
        try:
            return ("A", ipaddress.IPv6Address(s))
        except ValueError:
            return ("R",)
    raise AssertionError(kind)


def plain_bad(s):
    "True if the calendar part of a timestamp is out of range."
    try:
        datetime.date.fromisoformat(s[:10])
    except ValueError:
        return True
    return False


TEXT_KINDS = ("bytes", "datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6")


def encode(t: Ty, v):
    "JSON form of a value, with Text and Bag at places where there is latitude."
    t = strip_ann(t)
    k = t.k
    if k == "union":
        if v is None:
            return None
        for m in t.args:
            if belongs(m, v):
                return encode(m, v)
        raise AssertionError(f"value {v!r} is not of type {t}")
    if k in TEXT_KINDS:
        return Text(k, v)
    if k == "decimal":
        return Number(v)
    if k in ("none", "bool", "int", "float", "str", "fixed", "json", "strict", "any"):
        return v
    if k == "lit":
        return v.value if t.extra[1] is not None else v
    if k in ("list", "tuple"):
        ts = t.args if k == "tuple" else [t.args[0]] * len(v)
        return [encode(s, x) for s, x in zip(ts, v)]
    if k == "set":
        return Bag([encode(t.args[0], x) for x in v])
    if k == "dict":
        return {(key.value if t.extra is not None else key): encode(t.args[0], x) for key, x in v.items()}
    if k == "ref":
        d = t.extra
        if d.is_enum:
            return dict(d.members)[v.name]
        out = {}
        for f in d.fields:
            x = getattr(v, f.name)
            if x is not None:
                out[f.external] = encode(f.type, x)
        return out
    raise AssertionError(k)


class Number:
    "Expected JSON number for a decimal."

    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def canonical(self):
        v = self.value
        return int(v) if v == v.to_integral_value() else float(v)

    def matches(self, x):
        return type(x) in (int, float) and decimal.Decimal(x if type(x) is int else repr(x)) == self.value

    def __repr__(self):
        return f"Number({self.value})"


def concrete(e):
    "A JSON document for an expected form."
    if isinstance(e, (Text, Number)):
        return e.canonical()
    if isinstance(e, Bag):
        # in an order that does not depend on hash values
        return sorted((concrete(x) for x in e.items), key=repr)
    if type(e) is list:
        return [concrete(x) for x in e]
    if type(e) is dict:
        return {k: concrete(x) for k, x in e.items()}
    return e


def match(e, a, path="$"):
    "None if actual JSON data is an expected form, or a description of the first difference."
    if isinstance(e, (Text, Number)):
        return None if e.matches(a) else f"{path}: expected {e!r}, got {a!r}"
    if isinstance(e, Bag):
        if type(a) is not list or len(a) != len(e.items):
            return f"{path}: expected an array of {len(e.items)} items, got {a!r}"
        rest = list(e.items)
        for x in a:
            for i, y in enumerate(rest):
                if match(y, x) is None:
                    del rest[i]
                    break
            else:
                return f"{path}: unexpected set item {x!r}"
        return None
    if type(a) is not type(e):
        return f"{path}: expected {e!r}, got {a!r} of type {type(a).__name__}"
    if type(e) is list:
        if len(e) != len(a):
            return f"{path}: expected {len(e)} items, got {len(a)}"
        for i, (x, y) in enumerate(zip(e, a)):
            m = match(x, y, f"{path}[{i}]")
            if m:
                return m
        return None
    if type(e) is dict:
        if list(e) != list(a):
            return f"{path}: expected members {list(e)}, got {list(a)}"
        for k, x in e.items():
            if type(k) is not str:
                return f"{path}: member name {k!r}"
            m = match(x, a[k], f"{path}.{k}")
            if m:
                return m
        for k in a:
            if type(k) is not str:
                return f"{path}: member name {k!r} of type {type(k).__name__}"
        return None
    if type(e) is float:
        return None if e == a and math.copysign(1, e) == math.copysign(1, a) else f"{path}: expected {e!r}, got {a!r}"
    return None if e == a else f"{path}: expected {e!r}, got {a!r}"


# ------------------------------------------------------------------------------------------------------------------
# what a document denotes

ALL = frozenset("KTV")


def rej(*kinds):
    return ("R", frozenset("".join(kinds)))


def merge(results):
    "Combines the outcome of parts: values, or rejection for the reasons of any part, or open."
    bad, unknown, vals = set(), False, []
    for r in results:
        if r[0] == "R":
            bad |= r[1]
        elif r[0] == "U":
            unknown = True
        else:
            vals.append(r[1])
    if bad:
        return ("R", ALL if unknown else frozenset(bad))
    if unknown:
        return ("U",)
    return ("A", vals)


class Decoder:
    """
    Reference reader. `skip`: ignore unknown members. `module` is irrelevant to meaning.

    Results: ('A', value) | ('R', kinds of admissible errors out of K/T/V) | ('U',) unspecified.
    """

    def __init__(self, skip=False):
        self.skip = skip

    def decode(self, t: Ty, j):
        t = strip_ann(t)
        k = t.k
        jk = ir.kind_of(j)
        if k == "none":
            return ("A", None) if j is None else rej("T")
        if k == "bool":
            return ("A", j) if jk == "boolean" else rej("T")
        if k == "int" or k == "fixed" and not t.extra.startswith("float"):
            return ("A", j) if type(j) is int else rej("T")
        if k == "float" or k == "fixed":
            if jk != "number":
                return rej("T")
            try:
                return ("A", float(j))
            except OverflowError:
                return rej("V")
        if k == "decimal":
            if jk != "number":
                return rej("T")
            return ("A", decimal.Decimal(j if type(j) is int else repr(j)))
        if k == "str":
            return ("A", j) if jk == "string" else rej("T")
        if k in TEXT_KINDS:
            if jk != "string":
                return rej("T")
            r = parse_text(k, j)
            return rej("V") if r[0] == "R" else r
        if k in ("json", "any"):
            return ("A", j)
        if k == "strict":
            return ("A", j) if pure_json(j, null=False) else rej("K", "T", "V")
        if k == "lit":
            values, e = t.extra
            for v in values:
                raw = dict(e.members)[v] if e is not None else v
                if type(raw) is type(j) and raw == j:
                    return ("A", getattr(e.cls, v) if e is not None else v)
            if e is not None:
                for _, raw in e.members:
                    if type(raw) is float and type(j) is int and raw == j:
                        return ("U",)
                return rej("T", "V")
            return rej("T", "V") if ir.kind_of(values[0]) == jk else rej("T")
        if k == "list":
            if jk != "array":
                return rej("T")
            return merge([self.decode(t.args[0], x) for x in j])
        if k == "set":
            if jk != "array":
                return rej("T")
            m = merge([self.decode(t.args[0], x) for x in j])
            return ("A", set(m[1])) if m[0] == "A" else m
        if k == "tuple":
            if jk != "array":
                return rej("T")
            if len(j) != len(t.args):
                return rej("V")
            m = merge([self.decode(s, x) for s, x in zip(t.args, j)])
            return ("A", tuple(m[1])) if m[0] == "A" else m
        if k == "dict":
            if jk != "object":
                return rej("T")
            keys = list(j)
            parts = []
            if t.extra is not None:
                by_value = {v: n for n, v in t.extra.members}
                if any(key not in by_value for key in keys):
                    parts.append(rej("V", "K", "T"))
                keys = [getattr(t.extra.cls, by_value[key]) for key in keys if key in by_value]
            m = merge(parts + [self.decode(t.args[0], x) for x in j.values()])
            return ("A", dict(zip(keys, m[1]))) if m[0] == "A" else m
        if k == "union":
            return self.union(t, j)
        if k == "ref":
            d = t.extra
            if d.is_enum:
                return self.enum(d, j)
            return self.obj(d, j)
        raise AssertionError(k)

    def enum(self, d, j):
        for n, v in d.members:
            if type(v) is type(j) and v == j:
                return ("A", getattr(d.cls, n))
        for n, v in d.members:
            if type(v) is float and type(j) is int and v == j:
                return ("U",)
        return rej("T", "V")

    def union(self, t, j, drop_none=False):
        none = t.extra[0] and not drop_none
        members = list(t.args)
        if len(members) == 1 and not none:
            return self.decode(members[0], j)
        if not none:
            props = ir.tag_properties(members)
            if props:
                return self.tagged(members, props[0], j)
        unknown = False
        for m in members + ([Ty("none")] if none else []):
            r = self.decode(m, j)
            if r[0] == "A":
                return ("U",) if unknown else r
            if r[0] == "U":
                unknown = True
        return ("U",) if unknown else rej("K")

    def tagged(self, members, prop, j):
        if ir.kind_of(j) != "object":
            return rej("T")
        tag = j.get(prop)
        if tag is None:
            return rej("T", "K", "V")
        for m in members:
            for v in ir.tag_values(m, prop):
                if type(v) is type(tag) and v == tag:
                    return self.decode(m, j)
        return rej("T", "K", "V")

    def obj(self, d, j):
        if ir.kind_of(j) != "object":
            return rej("T")
        parts, names = [], []
        for f in d.fields:
            parts.append(self.field(d, f, j))
            names.append(f.name)
        if not self.skip and set(j) - {f.external for f in d.fields}:
            parts.append(rej("K"))
        m = merge(parts)
        if m[0] != "A":
            return m
        return ("A", build(d, dict(zip(names, m[1]))))

    def field(self, d, f, j):
        v = j.get(f.external)
        if v is None:
            if f.default is not None and d.kind in ("dataclass", "namedtuple"):
                return ("A", f.default[2](d.owner(f).module.py))
            if is_optional(f.type):
                return ("A", None)
            if f.default is not None:
                return ("U",)
            return rej("K") if f.external not in j else rej("V")
        t = strip_ann(f.type)
        if t.k == "union" and t.extra[0]:
            return self.union(t, v, drop_none=True)
        return self.decode(t, v)
