"C18: text of docstrings."

import sys

from strong_typing.docstring import Docstring, parse_text

from .. import lab

CASES = {"quick": 20000, "thorough": 600000}
RULE = """Half of the cases build a docstring from a description of its parts (short and long description, parameters, return value,
exceptions, see-also entries, text on one line or continued over several, blank lines between entries) in the layout of source
code with random indentation, and compare every part parsed with the description. The other half parse hostile text: random
sequences of fragments (colons, keywords, control characters, blank lines, tabs, unusual white space), where parsing must not
fail. In both, what is parsed is printed and parsed again, and the two results compared. Non-trivial if there is more than a short
description; distinct by text."""
ASSUMPTIONS = ["a description that itself begins with a colon is not printed in a form that can be read back"]

WORDS = ["text", "a", "value:", "`code`", "(in ms)", "50%", "ő", "日本語", "x=1", "e.g.", "\"q\"", "it's", "{a}", "\\n", "*", "-", "param", "returns", "None", ":inline:", "a:b", "raises", "http://x.y/z", "::", "😀"]
NAMES = ["a", "b", "x1", "name", "self", "*args", "**kw", "very_long_name", "ő", "type_", "_", "A.b", "list[int]", "mod.Error", "'q'"]
EXC = ["ValueError", "KeyError", "mod.CustomError", "E", "OSError"]


def sentence(r, n=None):
    ws = [r.choice(WORDS) for _ in range(n or r.choice([1, 2, 4, 9]))]
    if ws[0].startswith(":"):
        ws[0] = "Text"
    return " ".join(ws)


def wrap(r, words, indent, colon):
    "Text continued over several lines."
    out = words[0] if words else ""
    for w in words[1:]:
        # a line that begins with a colon is continuation text only as long as it is indented more than the entry
        sep = " " if r.random() < 0.75 or w.startswith(":") and not colon else "\n" + indent + " " * r.choice([4, 4, 8])
        out += sep + w
    return out


def structured(r):
    "A docstring and its parts."
    indent = " " * r.choice([0, 4, 4, 8])
    parts = {"short": None, "long": None, "params": {}, "returns": None, "raises": {}, "see": []}
    blocks = []
    if r.random() < 0.85:
        lines = [sentence(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        parts["short"] = " ".join(lines)
        blocks.append(lines)
        if r.random() < 0.5:
            long = []
            for p in range(r.choice([1, 1, 2, 3])):
                if p:
                    long.append("")
                for q in range(r.choice([1, 2, 3])):
                    margin = r.choice([0, 0, 2, 4]) if p or q else 0
                    # an entry begins at the margin of the text; indented, the same characters are a preformatted example
                    long.append(" " * margin + (r.choice([":param x: ", ":returns: ", ": ", ":raises E: ", ":see: "]) if margin and r.random() < 0.25 else "") + sentence(r))
            parts["long"] = "\n".join(long)
            blocks.append(long)
    entries = []
    kinds = r.choice(["p", "pp", "ppr", "pprx", "ppprxxss", "r", "x", "s", "sr", ""])
    if r.random() < 0.3:
        kinds = "".join(r.sample(kinds, len(kinds)))
    for k in kinds:
        words = sentence(r).split(" ") if r.random() < 0.92 else []
        text = " ".join(words)
        body = wrap(r, words, "", bool(blocks))
        if k == "p":
            n = r.choice(NAMES)
            if n in parts["params"]:
                continue
            head = f":param {n}:"
            parts["params"][n] = text
        elif k == "r":
            head = r.choice([":returns:", ":return:"])
            parts["returns"] = text
        elif k == "x":
            n = r.choice(EXC)
            if n in parts["raises"]:
                continue
            head = r.choice([":raises ", ":raise "]) + n + ":"
            parts["raises"][n] = text
        else:
            head = r.choice([":see:", ":seealso:"])
            parts["see"].append(text)
        entries.append(head + (" " if body else "") + body)
    lines = []
    for b in blocks:
        if lines:
            lines.append("")
        lines += b
    if entries and lines and r.random() < 0.9:
        lines.append("")
    for e in entries:
        if r.random() < 0.1 and lines:
            lines.append("")
        lines += e.split("\n")
        if r.random() < 0.05:
            # not an entry: no closing colon, or a keyword that is not known
            lines.append(r.choice([":param a", ":returns", ":see", ":raises E", ":note: text", ":", ":return value", ":param a b c: text", ":type a: int", ":rtype: str", ":note that: text", ":returns a value: text", ":return a: text", ":see also this: text", ":seealso a: text", ":raises: text", ":raises E if bad: text", ":param: text", ":Param a: text", ":parameter a: text", ":RETURNS: text", ":returns_: text", ":var a: text", ":: text", ":::"]))
    style = r.randrange(3)
    if style == 0:  # starts next to the quotes
        text = "\n".join([lines[0] if lines else ""] + [(indent + x if x else "") for x in lines[1:]])
        text += "" if len(lines) < 2 else "\n" + indent
    elif style == 1:
        text = "\n" + "\n".join(indent + x if x else "" for x in lines) + "\n" + indent
    else:
        text = "\n".join(lines)
    return text, parts


HOSTILE = [
    ":", "::", ":param", ":param a:", ":param a b:", ":param :", ":params x: y", ":returns:", ":return", ":returns x:", ":raises E:", ":raises:", ":see:", ":see also:", ":seealso: x", "\n", "\n", "\n", "\n\n", "\n    ", "    ", "\t", " ",
    "\r\n", "\r", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\xa0", "\u3000", "\x00", "text", "a:b", "word", "ő", "\ud800", "(", "[", "\\", ".*", "^:", "$", "None", "x" * 300, ":type a: int", ":rtype: str", "-----", "```", ":param a: b", ":raises E: f", ":param \xa0x\u2028:",
]


def hostile(r):
    return "".join(r.choice(HOSTILE) + r.choice(["", "", " ", "\n", "\n:"]) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, 30])))


def view(d):
    return {
        "short": d.short_description, "long": d.long_description, "params": {n: p.description for n, p in d.params.items()},
        "returns": d.returns.description if d.returns is not None else None, "raises": {n: x.description for n, x in d.raises.items()}, "see": [s.text for s in d.see_also],
    }


def compare(ctx, want, d, text):
    got = view(d)
    for k in want:
        ctx.check(got[k] == want[k], lambda: f"{k} of {text!r} is {got[k]!r}, expected {want[k]!r}")
        if isinstance(want[k], dict):
            ctx.check(list(got[k]) == list(want[k]), lambda: f"order of {k} in {text!r} is {list(got[k])}")
    for n, p in d.params.items():
        ctx.check(p.name == n, lambda: f"parameter {n} has name {p.name}")
    for n, x in d.raises.items():
        ctx.check(x.typename == n, lambda: f"exception {n} has name {x.typename}")
    full = "\n\n".join(x for x in (want["short"], want["long"]) if x) or None
    ctx.check(d.full_description == full, lambda: f"full description of {text!r} is {d.full_description!r}, expected {full!r}")


def printable(d):
    return not any(line.startswith(":") for t in (d.short_description, d.long_description) if t for line in t.split("\n"))


def again(ctx, d, text):
    if not printable(d):
        ctx.count("not printable")
        return
    printed = str(d)
    e = parse_text(printed)
    ctx.check(view(e) == view(d) and e == d, lambda: f"{text!r} is parsed as {view(d)}, printed as {printed!r}, which is parsed as {view(e)}")
    ctx.check(str(e) == printed, lambda: f"{printed!r} is printed as {str(e)!r}")
    ctx.count("printed and parsed again")


def case(ctx, i):
    r = ctx.rng
    for _ in range(4):
        if r.random() < 0.5:
            text, want = structured(r)
            ctx.note(text=repr(text), expected=want)
            d = parse_text(text)
            ctx.check(isinstance(d, Docstring), "not a Docstring")
            compare(ctx, want, d, text)
            if want["long"] or want["params"] or want["returns"] is not None or want["raises"] or want["see"]:
                ctx.distinct(text)
                ctx.sample(lambda: {"text": text, "parsed": view(d)})
            ctx.count("structured")
        else:
            text = hostile(r)
            ctx.note(text=repr(text))
            kind, d = lab.outcome(parse_text, text)
            ctx.check(kind == "A", lambda: f"{text!r} fails with {d!r}")
            if ":" in text:
                ctx.distinct(text)
            ctx.count("hostile")
        again(ctx, d, text)
        ctx.count("evaluations")


def own_docstrings(ctx):
    "Docstrings of the standard library and of the package itself."
    import inspect

    seen = 0
    for name in sorted(sys.modules):
        m = sys.modules[name]
        if m is None or name.startswith("rt"):
            continue
        for x in list(vars(m).values()) if hasattr(m, "__dict__") else ():
            doc = getattr(x, "__doc__", None)
            if not isinstance(doc, str) or not (inspect.isclass(x) or inspect.isfunction(x) or inspect.ismodule(x)):
                continue
            ctx.note(text=repr(doc))
            kind, d = lab.outcome(parse_text, doc)
            ctx.check(kind == "A", lambda: f"{doc!r} fails with {d!r}")
            again(ctx, d, doc)
            seen += 1
    ctx.count("docstrings of installed code", seen)
    ctx.count("evaluations", seen)


def no_text(ctx):
    for t in ("", None, " ", "\n", "\n\n   \n", "\t"):
        ctx.check(view(parse_text(t)) == view(Docstring()), f"{t!r} is parsed as {parse_text(t)}")
    ctx.check(str(Docstring()) == "", f"an empty docstring is printed as {str(Docstring())!r}")
    ctx.count("evaluations", 7)


SCENARIOS = [own_docstrings, no_text]
