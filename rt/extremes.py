"Boundary values of every scalar type, and spellings of durations (shared by the checks)."

import datetime
import decimal
import ipaddress
import uuid

from . import ir


def values():
    "Names of scalar types with values at and around boundaries."
    ints = {0}
    for e in [*range(0, 70), 127, 128, 255, 256, 512, 1023, 1024, 1025, 2048, 4096]:
        ints |= {s * (2**e + d) for s in (1, -1) for d in (-1, 0, 1)}
    for e in [*range(1, 40), 100, 308, 309, 400, 1000]:
        ints |= {s * (10**e + d) for s in (1, -1) for d in (-1, 0, 1)}
    yield "int", sorted(ints)
    floats = [0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.1 + 0.2, 1 / 3, 100.0, 123456789.0]
    floats += [s * 10.0**e for s in (1, -1, 1.5, 9.999999999999999) for e in range(-30, 31)]
    floats += [float(2**e + d) for e in (24, 31, 52, 53, 54, 63, 64) for d in (-1, 0, 1)]
    yield "float", floats
    strings = ["", " ", "  ", "\r\n", "a\r\nb", "a\n\nb\n", "\t", "\ufeff", "\ufeffa", "a\ufeff", "e\u0301", "\u00e9", "\u1e9b\u0323", "\ufb01", "\u212b", "\u00df", "\u0130", "\u0131", "a\u00a0", "\u2028x\u2029", "\u200bz", "\uffff", "\U0010ffff", "\U0001f468\u200d\U0001f469"]
    strings += [chr(c) for c in range(0, 256)] + ["x" + chr(c) + "y" for c in range(0, 33)] + ["z" + chr(c) for c in (0, 9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 127, 133, 160)]
    strings += ["\\", "\\\\", "\\n", "\\u0041", '"', '""', "'", "</script>", "&amp;", "%20", "{}", "[]", "{x}", "%s", "$ref", "null", "a" * 255, "ab" * 40000, "\u00e4" * 1000]
    yield "str", strings
    raw = bytes(range(256))
    yield "bytes", [raw[:n] for n in range(0, 130)] + [raw, raw * 40, raw[::-1], b"\xfb\xef\xbe", b"\xff\xff\xff", b"\r\n", b"\0", b"\0\0\0"] + [bytes([n]) for n in range(256)]
    yield "bool", [True, False]
    offsets = [datetime.timedelta(minutes=m) for m in (0, 1, -1, 30, -30, 59, -59, 60, -60, 61, 345, 840, -720, 1439, -1439)]
    zones = [datetime.timezone.utc] + [datetime.timezone(o) for o in offsets] + [datetime.timezone(offsets[3], "EST")]
    micros = [0, 1, 9, 10, 99, 100, 999, 1000, 1001, 9000, 99000, 100000, 500000, 999000, 999999]
    clock = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (12, 0, 0), (12, 30, 59), (23, 59, 59)]
    days = [(1, 1, 1), (1, 12, 31), (99, 9, 9), (999, 12, 31), (1000, 1, 1), (1582, 10, 15), (1900, 2, 28), (1969, 12, 31), (1970, 1, 1), (2000, 2, 29), (2020, 12, 31), (2024, 2, 29), (2038, 1, 19), (9999, 12, 31)]
    yield "date", [datetime.date(*d) for d in days] + [datetime.date(2023, m, d) for m in range(1, 13) for d in (1, 9, 10, 28)]
    yield "datetime", [datetime.datetime(*d, *c, u, z) for n, d in enumerate(days) for c in clock for u in (micros if n % 5 == 0 else micros[::5]) for z in (zones if n % 5 == 2 else zones[n % 5 :: 5])]
    yield "time", [datetime.time(*c, u, z) for c in clock for u in micros for z in (*zones, None)] + [datetime.time(1, 2, 3, u, zones[0]) for u in range(1, 10**6, 997)]
    spans = [datetime.timedelta(days=d, seconds=s, microseconds=u) for d in (0, 1, -1, 6, 7, 8, 365, -365, 999999998, -999999999) for s in (0, 1, 59, 60, 61, 3599, 3600, 3601, 3660, 36000, 86399) for u in (0, 1, 1000, 10000, 100000, 999999)]
    spans += [datetime.timedelta(microseconds=u) for u in range(1, 10**6, 997)]
    yield "timedelta", [*spans, datetime.timedelta.max, datetime.timedelta.min, datetime.timedelta.resolution]
    yield "decimal", [decimal.Decimal(s + t) for s in ("", "-") for t in ("1", "0.1", "0.5", "1.10", "2.0", "100", "1E+2", "1E+22", "1E-7", "0.001", "123.456", "9007199254740993", "12345678901234567890", "1E+100", "0.30000000000000004")] + [decimal.Decimal(0)]
    yield "uuid", [uuid.UUID(int=n) for n in (0, 1, 2**64, 2**127, 2**128 - 1, 0x0A << 120, 0xABCDEF)] + [uuid.uuid3(uuid.NAMESPACE_DNS, str(n)) for n in range(8)] + [uuid.uuid5(uuid.NAMESPACE_DNS, str(n)) for n in range(8)]
    yield "ipv4", [ipaddress.IPv4Address(n) for n in (0, 1, 255, 256, 2**24, 0x7F000001, 0xC0A80001, 2**32 - 1)]
    yield "ipv6", [ipaddress.IPv6Address(s) for s in ("::", "::1", "1::", "1::1", "2001:db8::1", "::ffff:192.0.2.1", "::192.0.2.1", "64:ff9b::192.0.2.33", "fe80::1", "1:0:0:2:0:0:0:3", "1:2:3:4:5:6:7:8", "1:0:3:4:5:6:7:8", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "ff02::1", "2002:c000:201::")]


def durations():
    "Texts of durations, with every combination of components."
    for w in ("", "0W", "2W"):
        for d in ("", "0D", "3D", "-3D", "007D"):
            for h in ("", "0H", "5H", "25H"):
                for m in ("", "7M", "90M"):
                    for s in ("", "0S", "9S", "100S", "1.5S", "0.000001S", "0.100000000S", "2.1234560S", "2.12345678S"):
                        t = h + m + s
                        yield "P" + w + d + ("T" + t if t else "")
    for u in range(1, 10**6, 331):
        yield f"PT0.{u:06d}S"
        yield f"PT59.{u:06d}000S"
    for u in range(1, 1000, 7):
        yield f"PT{u}.{u:03d}S"


def shapes(t, v):
    "A value of a type, alone and in containers."
    yield t, v
    yield ir.List(t), [v, v]
    yield ir.Dict(t), {"k": v}
    yield ir.Opt(t), v
    yield ir.Tuple_([t, ir.prim("bool")]), (v, True)
