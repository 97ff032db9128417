import itertools
from gaspra.serialize import serialize_changeset, deserialize_changeset, vserialize_int, vdeserialize_int

RULE = "scripts over a set of byte strings and slices (all up to length 4, then random long ones); non-trivial: at least two items"
ITEMS = [b"", b"a", b"\x00\x00", b"q" * 241, ("s", 0, 0), ("s", 0, 1), ("s", 5, 5), ("s", 3, 300), ("s", 9, 2)]


def cases(rng, hard):
    for n in range(0, 4 if not hard else 5):
        for c in itertools.product(ITEMS, repeat=n):
            yield list(c)
    yield [b"x" * (i % 3) if i % 2 else ("s", i * 7, i * 7 + 5) for i in range(700)]
    yield [b"x" * 70000, ("s", 2**32, 2**63), b"y" * 65536, ("s", 0, 2**64 - 1)]
    while True:
        out = []
        for _ in range(rng.randrange(1, 12) if rng.random() < 0.8 else rng.randrange(30, 90)):
            if rng.random() < 0.5:
                n = rng.choice([0, 1, 2, 240, 241, 2287, 2288, 2289, rng.randrange(70000)]) if rng.random() < 0.5 else rng.randrange(9)
                out.append(bytes([rng.randrange(256)]) * n)
            else:
                a = rng.getrandbits(rng.randrange(1, 64))
                out.append(("s", a, a if rng.random() < 0.3 else rng.getrandbits(rng.randrange(1, 64))))
        yield out


def real(c):
    return [slice(x[1], x[2]) if isinstance(x, tuple) else x for x in c]


def norm(c):
    return [x for x in c if not (x == b"" or isinstance(x, slice) and x.start == x.stop)]


def boundaries(s):
    """positions at which an item ends"""
    out = [0]
    rest, nb = s, True
    while rest:
        if nb:
            n, rest = vdeserialize_int(rest)
            rest = rest[n:]
        else:
            _, rest = vdeserialize_int(rest)
            _, rest = vdeserialize_int(rest)
        nb = not nb
        out.append(len(s) - len(rest))
    return out


def check(c):
    items = real(c)
    s = serialize_changeset(iter(items))
    for given in (items, tuple(items)):
        if serialize_changeset(given) != s:
            return f"the same items given as {type(given).__name__} serialize differently: {serialize_changeset(given)!r:.200} instead of {s!r:.200}"
    got = list(deserialize_changeset(s))
    want = norm(items)
    if got != want:
        return f"decoded {got!r:.200} instead of {want!r:.200}"
    if len(s) < 400:
        b = set(boundaries(s))
        for i in range(len(s)):
            out = []
            try:
                for x in deserialize_changeset(s[:i]):
                    out.append(x)
                if i not in b:
                    return f"stream cut at {i} of {len(s)} inside an item is accepted as {out!r:.200}"
            except RuntimeError:
                if i in b:
                    return f"stream cut at the item boundary {i} is rejected"
            if out != want[: len(out)]:
                return f"stream cut at {i} yields {out!r:.200}, not a prefix of {want!r:.200}"
    return None


def nontrivial(c):
    return len(c) >= 2


def valid(c):
    return isinstance(c, list) and all(isinstance(x, bytes) or isinstance(x, tuple) and len(x) == 3 and x[0] == "s" for x in c)
