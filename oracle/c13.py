import random
from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
from gaspra.types import Change

RULE = (
    "alternating sequences of up to 9 texts (up to 80 in some, with texts of hundreds of characters) and changes over newlines, blanks and letters (empty sides, whitespace-only texts, missing final newlines, empty sequence), "
    "all sequences of up to three pieces of at most one token exhaustively; both forms (plain and consolidated); non-trivial: a change and a newline"
)
PIECES = ["", "\n", "a", " ", "a\n", "\na", "ab", "\n\n", " \n", "a\nb", "a\nb\n", "\n \n", "\t", "x\n\ny\n", "\r", "a\r\nb", "\u2028", "\x0b", "\u00a0\n"]
SMALL = ["", "\n", "a", " "]


def long_text(rng):
    k = rng.choice([0, 1, 30, 60, 300])
    t = "".join(rng.choice(PIECES + ["word", "some longer text"]) for _ in range(k // 3 + 1))
    return t * 2 if k == 300 and rng.random() < 0.3 else t[: rng.randrange(len(t) + 1)] if rng.random() < 0.3 else t


def long_stream(rng):
    """long fragments, or many of them"""
    out, text = [], rng.random() < 0.5
    for _ in range(rng.choice([2, 3, 4, 6, 6, 40, 80])):
        if text:
            t = long_text(rng)
            out.append(rng.choice(["a", "\n", " ", ""]) * rng.choice([0, 1, 40]) + t)
            text = False
        else:
            out.append(tuple(rng.choice([long_text(rng), long_text(rng).replace("\n", ""), rng.choice(PIECES)]) for _ in "ab"))
            text = rng.random() < 0.8
    return tuple(out)


def cases(rng, hard):
    yield ()
    for p in PIECES:
        yield (p,)
        for q in PIECES:
            yield ((p, q),)
            yield ((p, q), "a\nb")
            yield ("a", (p, q), "\n")
    for p in SMALL:
        for q in SMALL:
            for r in SMALL:
                yield ((p, q), r)
                yield (r, (p, q))
                for s in SMALL:
                    yield ((p, q), (r, s))
                    yield ((p, q), " ", (r, s))
                    yield ((p, q), "x\ny", (r, s))
                    yield ("x", (p, q), "y", (r, s), "z")
    yield tuple(x for i in range(150) for x in (("p%d\n" % i, "q"), "abc\n\nd %d" % i, ("", "\n"), "x" * i))
    yield ("a" * 5000, ("b\n" * 1500, "c" * 3000), "\n" * 300)
    while True:
        yield long_stream(rng)
        n = rng.randrange(1, 10)
        out = []
        text = rng.random() < 0.5
        for _ in range(n):
            if text:
                out.append(rng.choice(PIECES) + rng.choice(["", "", rng.choice(PIECES)]))
                text = False
            else:
                out.append((rng.choice(PIECES) + rng.choice(["", rng.choice(PIECES)]), rng.choice(PIECES)))
                text = rng.random() < 0.8
        yield tuple(out)


def side(x, k):
    return "".join(i[k] if isinstance(i, Change) else i for i in x)


def check(c):
    stream = [Change(*x) if isinstance(x, tuple) else x for x in c]
    want = [side(stream, 0), side(stream, 1)]
    for f in (to_line_diff, consolidated_line_diff):
        out = list(f(list(stream)))
        for k, name in ((0, "insertions"), (1, "deletions")):
            got = ""
            for x in out:
                t = side(x[k], k) if isinstance(x, Change) else x
                if t and not t.endswith("\n"):
                    return f"{f.__name__}: a piece read with its {name} does not end with a newline: {x!r} in {out!r}"
                got += t
            if got not in (want[k], want[k] + "\n"):
                return f"{f.__name__}: read with its {name} the line diff is {got!r}, not {want[k]!r}: {out!r}"
    return None


def nontrivial(c):
    return any(isinstance(x, tuple) for x in c) and any("\n" in y for x in c for y in ((x,) if isinstance(x, str) else x))


def valid(c):
    if not isinstance(c, tuple):
        return False
    for x in c:
        if not (isinstance(x, str) or isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, str) for y in x)):
            return False
    return not any(isinstance(x, str) and isinstance(y, str) for x, y in zip(c, c[1:]))
