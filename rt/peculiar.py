"Classes whose objects answer to operators in unusual ways, which must not matter for reading or writing them."

ODD = {
    "eq_all": "    def __eq__(self, other):\n        return True\n    def __ne__(self, other):\n        return False\n    __hash__ = object.__hash__\n",
    "eq_none": "    def __eq__(self, other):\n        return other is None\n    def __hash__(self):\n        return hash(None)\n",
    "eq_never": "    def __eq__(self, other):\n        return False\n    def __ne__(self, other):\n        return True\n    __hash__ = object.__hash__\n",
    "eq_fails": "    def __eq__(self, other):\n        raise RuntimeError('compared')\n    __ne__ = __eq__\n    __hash__ = object.__hash__\n",
    "eq_vague": "    def __eq__(self, other):\n        return Vague()\n    __ne__ = __eq__\n    __hash__ = object.__hash__\n",
    "falsy": "    def __bool__(self):\n        return False\n",
    "vague": "    def __bool__(self):\n        raise RuntimeError('tested')\n",
    "empty": "    def __len__(self):\n        return 0\n",
    "callable": "    def __call__(self, *args, **kwargs):\n        raise RuntimeError('called')\n",
    "iterable": "    def __iter__(self):\n        raise RuntimeError('iterated')\n    def __contains__(self, x):\n        raise RuntimeError('searched')\n    def __getitem__(self, x):\n        raise RuntimeError('indexed')\n",
    "sequence": "    def __iter__(self):\n        return iter(())\n    def __len__(self):\n        return 0\n    def __getitem__(self, x):\n        raise IndexError(x)\n",
    "mapping": "    def keys(self):\n        return []\n    def items(self):\n        return []\n    def get(self, x, y=None):\n        return y\n    def __getitem__(self, x):\n        raise KeyError(x)\n",
    "attributes": "    def __getattr__(self, name):\n        raise RuntimeError('attribute ' + name)\n",
    "unhashable": "    __hash__ = None\n",
    "hash_fails": "    def __hash__(self):\n        raise RuntimeError('hashed')\n",
    "numeric": "    def __int__(self):\n        return 0\n    def __index__(self):\n        return 0\n    def __float__(self):\n        return 0.0\n    def __str__(self):\n        return ''\n",
    "nameless": "    def __repr__(self):\n        raise RuntimeError('printed')\n    __str__ = __repr__\n",
    "copied": "    def __copy__(self):\n        raise RuntimeError('copied')\n    __deepcopy__ = __reduce_ex__ = __copy__\n",
    "value": "    value = None\n    name = None\n    _fields = ()\n",
}
KINDS = {
    "dataclass": "@dataclasses.dataclass(eq=False, repr=False)\nclass {name}:\n    x: int = 0\n    y: Optional[str] = None\n",
    "frozen": "@dataclasses.dataclass(frozen=True, eq=False, repr=False)\nclass {name}:\n    x: int = 0\n    y: Optional[str] = None\n",
    "slots": "@dataclasses.dataclass(slots=True, eq=False, repr=False)\nclass {name}:\n    x: int = 0\n    y: Optional[str] = None\n",
    "plain": "class {name}:\n    x: int\n    y: Optional[str]\n    def __init__(self, x=0, y=None):\n        self.x = x\n        self.y = y\n",
    "exception": "class {name}(Exception):\n    x: int\n    y: Optional[str]\n    def __init__(self, x=0, y=None):\n        self.x = x\n        self.y = y\n",
    "untyped": "class {name}:\n    def __init__(self, x=0, y=None):\n        self.x = x\n        self.y = y\n",
}
HEAD = """
import dataclasses
from typing import *
class Vague:
    def __bool__(self):
        raise RuntimeError('tested')
"""


def source():
    "Text of a module, and (class name, kind, odd behaviour) of each class."
    text, out = [HEAD], []
    for kind, body in KINDS.items():
        for odd, methods in ODD.items():
            if kind in ("slots", "untyped") and odd == "value" or kind == "untyped" and odd in ("callable", "mapping"):
                continue
            name = f"{kind.capitalize()}_{odd}"
            text.append(body.format(name=name) + methods)
            text.append(f"@dataclasses.dataclass(eq=False)\nclass Holder_{name}:\n    a: int\n    f: {name}\n    o: Optional[{name}] = None\n    b: int = 5\n")
            out.append((name, kind, odd))
    return "\n".join(text), out


def places(m, name, obj):
    "(type or None, value, expected JSON given that of the object) with the object at some place."
    cls = m.__dict__[name]
    holder = m.__dict__["Holder_" + name]
    import typing

    yield cls, obj, lambda j: j
    yield list[cls], [obj, obj], lambda j: [j, j]
    yield dict[str, cls], {"k": obj}, lambda j: {"k": j}
    yield tuple[int, cls], (1, obj), lambda j: [1, j]
    yield typing.Annotated[cls, "note"], obj, lambda j: j
    yield typing.Union[cls, int], obj, lambda j: j
    yield typing.Optional[cls], obj, lambda j: j
    yield holder, holder(1, obj), lambda j: {"a": 1, "f": j, "b": 5}
    yield holder, holder(1, obj, obj), lambda j: {"a": 1, "f": j, "o": j, "b": 5}
    yield list[holder], [holder(1, obj, obj, 0)], lambda j: [{"a": 1, "f": j, "o": j, "b": 0}]
