"Text that identifies the outcome of an operation, independent of object identity."

import collections.abc
import dataclasses
import enum
import re


def canon(v):
    "Deep representation of a value with concrete types; sets in sorted order."
    t = type(v)
    if v is None or t in (bool, int, float, str, bytes):
        return repr(v)
    name = f"{t.__module__}.{t.__qualname__}"
    if isinstance(v, enum.Enum):
        return f"{name}.{v.name}"
    if t is list:
        return "[" + ", ".join(map(canon, v)) + "]"
    if t in (set, frozenset):
        return f"{t.__name__}{{" + ", ".join(sorted(map(canon, v))) + "}"
    if t is dict:
        return "{" + ", ".join(f"{canon(k)}: {canon(x)}" for k, x in v.items()) + "}"
    if isinstance(v, tuple):
        return (name if t is not tuple else "") + "(" + ", ".join(map(canon, v)) + ")"
    if dataclasses.is_dataclass(v):
        return f"{name}(" + ", ".join(f"{f.name}={canon(getattr(v, f.name, '<unset>'))}" for f in dataclasses.fields(v)) + ")"
    if hasattr(v, "__dict__") and t.__module__ not in ("decimal", "uuid", "ipaddress", "datetime"):
        return f"{name}<" + ", ".join(f"{k}={canon(x)}" for k, x in sorted(vars(v).items())) + ">"
    return f"{t.__name__}:{v!r}"


def error(e):
    text = re.sub(r"0x[0-9a-f]+", "0x", str(e))
    return f"{type(e).__name__}: {text}"
