import random
from gaspra.versions import Versions
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer

RULE = (
    "histories of up to 40 additions (bases chosen among the current heads or all stored versions, sometimes none) with every supplied tokenizer: contents that share, repeat and reorder lines and words, "
    "empty contents, long contents and inserted runs, bytes outside ASCII, carriage returns, no final newline, 330 different lines, tags of several types; "
    "after every addition all versions are retrieved and absent tags are asked for; non-trivial: some version is three additions below a head"
)
TOK = {"default": None, "null": NullTokenizer, "char": CharTokenizer, "line": LineTokenizer, "symbol": SymbolTokenizer}
NAMES = tuple(TOK)
TAGS = [lambda i: f"v{i}", lambda i: i, lambda i: ("t", i), lambda i: "" if i == 0 else "x" * i, lambda i: "release/2026-11-%06d-of-a-long-running-branch" % i, lambda i: 10**9 + i]
WORDS = ["alpha", "beta", "x", "y1", " ", "  ", "\n", "\n", "\r\n", "", "= ", "\u00e9", "\u20ac", "\U0001f600", "\ufeff", "\t", "$a-b", "0", "\u0308"]


def text(rng):
    k = rng.choice([0, 1, 3, 8, 20])
    if rng.random() < 0.3:
        return "".join(rng.choice("ab\n") for _ in range(k))
    return "".join(rng.choice(WORDS) for _ in range(k))


def edited(rng, s):
    for _ in range(rng.randrange(1, 4)):
        i = rng.randrange(len(s) + 1)
        j = min(len(s), i + rng.choice([0, 1, 2, 5, 40]))
        new = rng.choice(["", "", "a", "\n", rng.choice(WORDS), s[:5], s[j:j + 9] * 2, text(rng)])
        s = s[:i] + new + s[j:]
        if rng.random() < 0.1:
            s = s[i:] + s[:i]
    return s


def history(rng, n, p, big, raw, q=0.0):
    ops, seen, heads = [], [], []
    for i in range(n):
        b = None if not heads or rng.random() < p else rng.randrange(len(heads))
        old = -1 - rng.randrange(len(seen)) if b is not None and rng.random() < q else None
        src = rng.choice(seen) if seen and rng.random() < 0.3 else seen[-1 - old] if old is not None else seen[heads[b]] if b is not None else text(rng)
        s = edited(rng, src) if rng.random() < 0.85 else rng.choice(["", src, text(rng)])
        if big and len(s) < 1500 and rng.random() < 0.4:
            k = rng.randrange(len(s) + 1)
            s = s[:k] + "".join(rng.choice("abc\n") for _ in range(rng.choice([241, 300, 2288, 2500]))) + s[k:]
        if len(s) > (4000 if big else 400):
            s = s[: 300]
        if raw:
            s = "".join(chr(ord(c) % 256) for c in s)
        seen.append(s)
        if old is not None:
            b = old
            if -1 - b in heads:
                heads.remove(-1 - b)
        elif b is not None:
            heads.pop(b)
        heads.append(i)
        ops.append((b, s.encode("latin-1") if raw else s.encode()))
    return tuple(ops)


def cases(rng, hard):
    fixed = random.Random(5)
    for name in NAMES:
        yield (name, 0, ((None, b""), (0, b"a\nb\n"), (0, b"b\na\n"), (0, b""), (0, b"a\nb\nc"), (0, b"a\nb\nc"), (0, b"c")))
        for n in (5, 9, 18):
            yield (name, n % 4, history(fixed, n, 0.0, False, False))
        for kind in (4, 5):
            yield (name, kind, history(fixed, 7, 0.1, False, False, 0.2))
        yield (name, 1, history(fixed, 12, 0.3, False, False))
        yield (name, 2, history(fixed, 6, 0.1, True, False))
        yield (name, 3, history(fixed, 12, 0.1, False, False, 0.5))
    many = ["w%d\n" % i for i in range(330)]
    for name in ("line", "symbol"):
        t = many[:300]
        ops = [(None, t), (0, t[:100] + many[300:] + t[90:]), (0, many[310:] + t[50:]), (0, t + t[:20]), (0, t[200:]), (0, t[::-1])]
        yield (name, 0, tuple((b, "".join(x).encode()) for b, x in ops))
    if hard:
        yield ("line", 0, tuple((None if not i else 0, b"a\n" * (i % 7) + b"%d\n" % i) for i in range(140)))
    i = 0
    while True:
        i += 1
        name = rng.choice(NAMES)
        raw = name in ("default", "null", "line") and rng.random() < 0.3
        big = rng.random() < (0.15 if name in ("line", "symbol") else 0.04)
        yield (name, rng.randrange(len(TAGS)), history(rng, rng.randrange(2, rng.choice([5, 9, 20, 40])) if not big else rng.randrange(2, 7), rng.choice([0.0, 0.1, 0.4]), big, raw, rng.choice([0.0, 0.0, 0.3, 0.8])))


def check(c):
    name, tagkind, ops = c
    tagof = TAGS[tagkind]
    v = Versions(tokenizer_factory=TOK[name]) if TOK[name] else Versions()
    stored, heads = {}, []
    for i, (b, content) in enumerate(ops):
        base = None
        if b is not None and b < 0 and stored:
            base = list(stored)[(-1 - b) % len(stored)]
            if base in heads:
                heads.remove(base)
        elif b is not None and heads:
            base = heads.pop(b % len(heads))
        t = tagof(i)
        if t in v or v.get(t) is not None:
            return f"{t!r} is present before it was added"
        if base is None and i % 2:
            v.add(t, content)
        else:
            v.add(t, content, base)
        stored[t] = content
        heads.append(t)
        for x, want in stored.items():
            if x not in v:
                return f"after {i + 1} additions: {x!r} is reported as absent"
            got = v.get(x)
            if type(got) is not bytes or got != want:
                return f"after {i + 1} additions: {x!r} retrieves as {got!r}, not {want!r}"
    if "absent" in v or v.get("absent") is not None or ("t", -1) in v or v.get(("t", -1)) is not None:
        return "a tag that was never added is present"
    return None


def nontrivial(c):
    return len(c[2]) > 4


def valid(c):
    if not (isinstance(c, tuple) and len(c) == 3 and c[0] in TOK and c[1] in range(len(TAGS)) and isinstance(c[2], tuple)):
        return False
    for o in c[2]:
        if not (isinstance(o, tuple) and len(o) == 2 and (o[0] is None or isinstance(o[0], int)) and isinstance(o[1], bytes)):
            return False
        if c[0] in ("char", "symbol"):
            try:
                o[1].decode()
            except UnicodeDecodeError:
                return False
    return True
