"Enumerations whose values are not JSON scalars (shared by the checks)."

import typing

SOURCE = '''
import datetime, decimal, enum, ipaddress, uuid
from dataclasses import dataclass
from typing import Optional
UTC = datetime.timezone.utc
class Dates(enum.Enum):
    A = datetime.date(2020, 1, 1)
    B = datetime.date(2021, 12, 31)
class Moments(enum.Enum):
    A = datetime.datetime(2020, 1, 1, 12, 30, 0, tzinfo=UTC)
    B = datetime.datetime(1999, 12, 31, 0, 0, 1, tzinfo=UTC)
class Ids(enum.Enum):
    A = uuid.UUID("f81d4fae-7dec-11d0-a765-00a0c91e6bf6")
    B = uuid.UUID(int=0)
class Amounts(enum.Enum):
    A = decimal.Decimal("1.5")
    B = decimal.Decimal("0.1")
class Blobs(enum.Enum):
    A = b"abc"
    B = b""
class Hosts(enum.Enum):
    A = ipaddress.IPv4Address("192.0.2.1")
    B = ipaddress.IPv4Address("0.0.0.0")
@dataclass
class Holder:
    dates: Dates
    ids: list[Ids]
    amounts: dict[str, Amounts]
    blobs: Optional[Blobs] = None
@dataclass
class Defaults:
    dates: Dates = Dates.B
    moments: Moments = Moments.B
    ids: Optional[Ids] = Ids.A
    amounts: Amounts = Amounts.B
'''

FORMS = {
    "Dates": ("2020-01-01", "2021-12-31"),
    "Moments": ("2020-01-01T12:30:00Z", "1999-12-31T00:00:01Z"),
    "Ids": ("f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "00000000-0000-0000-0000-000000000000"),
    "Amounts": (1.5, 0.1),
    "Blobs": ("YWJj", ""),
    "Hosts": ("192.0.2.1", "0.0.0.0"),
}

DEFAULTS = {"dates": FORMS["Dates"][1], "moments": FORMS["Moments"][1], "ids": FORMS["Ids"][0], "amounts": FORMS["Amounts"][1]}


def rows(m):
    "Types, values and JSON forms."
    for name, forms in FORMS.items():
        E = vars(m)[name]
        for member, j in zip((E.A, E.B), forms):
            yield E, member, j
            yield list[E], [member, E.A], [j, forms[0]]
            yield dict[str, E], {"k": member}, {"k": j}
            yield set[E], {member}, [j]
            yield tuple[E, int], (member, 1), [j, 1]
            yield typing.Optional[E], member, j
            yield typing.Union[bool, E], member, j
            yield typing.Annotated[E, "note"], member, j
            yield dict[str, list[E]], {"k": [E.B, member]}, {"k": [forms[1], j]}
    yield m.Holder, m.Holder(m.Dates.B, [m.Ids.A, m.Ids.B], {"x": m.Amounts.A}, m.Blobs.A), {"dates": "2021-12-31", "ids": list(FORMS["Ids"]), "amounts": {"x": 1.5}, "blobs": "YWJj"}
    yield m.Holder, m.Holder(m.Dates.A, [], {}), {"dates": "2020-01-01", "ids": [], "amounts": {}}
    yield m.Defaults, m.Defaults(), DEFAULTS


def strangers(m):
    "Documents that stand for no member."
    for name in FORMS:
        E = vars(m)[name]
        for j in ("A", "Dates.A", "nobody", 7, 2.25, True, [], {}, {"k": 1}, [1]):
            yield E, j
            yield list[E], [j]
            yield dict[str, E], {"k": j}
