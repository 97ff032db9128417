import re
from gaspra.changesets import diff_token_sequences
from gaspra.merge import merge_token_sequence
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer, diff, merged
from gaspra.types import Change

RULE = (
    "histories of up to four calls of diff() and merged() on str or bytes texts, with the default tokenizer (kinds mixed) or one tokenizer shared by the calls: diffs read both ways, merges "
    "compared with the token-level merge of the texts cut independently, with a marking transformation; non-trivial: texts that differ and share a line"
)
TOK = {"null": NullTokenizer, "char": CharTokenizer, "line": LineTokenizer, "symbol": SymbolTokenizer, "default": None}
WORD = "[\\w\\d$-]+|.|\\n"


def cut(name, s):
    """the pieces of a str"""
    if name == "line":
        return re.findall("[^\n]*\n|[^\n]+", s)
    if name == "symbol":
        return re.findall("(?s)" + "[\\w$-]+|.", s)
    return list(s)


def cuts(name, x):
    """the pieces of a text, str or bytes"""
    if isinstance(x, str):
        return cut(name, x)
    if name in ("null", "default"):
        return [x[i : i + 1] for i in range(len(x))]
    if name == "line":
        return [p.encode("latin-1") for p in cut(name, x.decode("latin-1"))]
    return [p.encode("utf-8") for p in cut(name, x.decode("utf-8"))]


WORDS = ["a", "b", "foo", "x-1", "\u00e9", "\u6f22", " ", "\n", "\n\n", "+", "  ", "\r\n", "\x85", "\u2028", "\ufeff", "$y", "."]


def text(rng):
    return "".join(rng.choice(WORDS) for _ in range(rng.randrange(12)))


def change(rng, s):
    for _ in range(rng.randrange(4)):
        i = rng.randrange(len(s) + 1)
        j = min(len(s), i + rng.randrange(4))
        s = s[:i] + (rng.choice(WORDS) if rng.random() < 0.7 else "") + s[j:]
    return s


def cases(rng, hard):
    yield ("default", (("diff", "str", ("a\nb", "a\nc")), ("diff", "bytes", ("ab", "ac")), ("merged", "str", ("", "a", ""))))
    yield ("default", (("merged", "bytes", ("abc", "abd", "xbc")), ("diff", "str", ("", ""))))
    for t in TOK:
        yield (t, (("diff", "str", ("a\nb\n", "a\nc")), ("merged", "str", ("a\nb\nc\n", "a\nB\nc\n", "a\nb\nC\n")), ("merged", "str", ("a", "b", "c"))))
    many = ["w%d \u4e00\n" % i for i in range(300)]
    x, y, z = "".join(many), "".join(many[:40] + many[45:] + many[:3]), "new\n" + "".join(many[:200] + ["z\n"] + many[201:])
    for t in TOK:
        yield (t, (("diff", "str", (x, y)), ("diff", "str", (y, z)), ("merged", "str", (x, y, z))))
        yield (t, (("merged", "bytes", (x, y, z)), ("diff", "bytes", (z, y))))
    for a, b in ((500, 501), (900, 2), (700, 700)):
        for t in TOK:
            yield (t, (("diff", "str", ("x " + "ab \n" * a, "x " + "ab \n" * b)), ("diff", "bytes" if t == "default" else "str", ("c\n" * a + "d", "c\n" * b + "c"))))
    while True:
        t = rng.choice(list(TOK))
        k = rng.choice(["str", "bytes"])
        calls = []
        for _ in range(rng.randrange(1, 5)):
            if t == "default":
                k = rng.choice(["str", "bytes"])
            s = text(rng)
            if rng.random() < 0.5:
                calls.append(("diff", k, (s, change(rng, s))))
            else:
                calls.append(("merged", k, (s, change(rng, s), change(rng, s))))
        yield (t, tuple(calls))


def side(out, want, which):
    r = want()
    for x in out:
        y = (x.a if which else x.b) if isinstance(x, Change) else x
        if type(y) is not want:
            raise TypeError(f"piece {y!r} is not of type {want.__name__}")
        r += y
    return r


def check(c):
    name, calls = c
    args = [] if TOK[name] is None else [TOK[name]()]
    for op, kind, ts in calls:
        want = str if kind == "str" else bytes
        xs = [s if kind == "str" else s.encode("utf-8") for s in ts]
        if op == "diff":
            out = list(diff(*xs, *args))
            if side(out, want, True) != xs[1] or side(out, want, False) != xs[0]:
                return f"diff of {xs!r} ({name}) is {out!r}"
            continue
        l, r = ("<", ">") if kind == "str" else (b"<", b">")
        num = {}
        enc = [tuple(num.setdefault(p, len(num)) for p in cuts(name, x)) for x in xs]
        dec = list(num)
        back = lambda w: want().join(dec[i] for i in w)
        for f, kw in ((lambda s: l + s + r, True), (lambda s: s, False)):
            out = list(merged(*xs, *(args or ([None] if kw else [])), *([f] if kw else [])))
            exp = [Change(f(back(x.a)), f(back(x.b))) if isinstance(x, Change) else f(back(x)) for x in merge_token_sequence(*enc)]
            if out != exp:
                return f"merge of {xs!r} ({name}) is {out!r}, the decoded token-level merge is {exp!r}"
    return None


def nontrivial(c):
    return any(len(set(ts)) > 1 and ts[0] for _, _, ts in c[1])


def valid(c):
    return (isinstance(c, tuple) and len(c) == 2 and c[0] in TOK and isinstance(c[1], tuple) and c[1] != ()
            and all(isinstance(x, tuple) and len(x) == 3 and x[0] in ("diff", "merged") and x[1] in ("str", "bytes") and isinstance(x[2], tuple)
                    and len(x[2]) == (2 if x[0] == "diff" else 3) and all(isinstance(s, str) for s in x[2]) for x in c[1])
            and (c[0] == "default" or len({x[1] for x in c[1]}) == 1))
