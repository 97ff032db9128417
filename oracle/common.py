"""Helpers shared by the oracles."""
import itertools


def words(alpha, maxlen):
    for n in range(maxlen + 1):
        for w in itertools.product(alpha, repeat=n):
            yield w


ODD = "\x00\n\u00e9\u2028\U0001f600 \r\xff\ufeff\u0301\x7f\x80"
MIXED = (None, "", 0, b"", (), "ab", -1, b"a", "a", 1.5, ("a",), frozenset())


def as_kind(w, kind):
    """a tuple of small ints as str, bytes or tuple; the second kinds have unusual tokens"""
    if kind == "str":
        return "".join(chr(97 + x) for x in w)
    if kind == "bytes":
        return bytes(97 + x for x in w)
    if kind == "str2":
        return "".join(ODD[x] if x < len(ODD) else chr(0x4E00 + x) for x in w)
    if kind == "bytes2":
        return bytes(255 - x // 2 if x % 2 else x // 2 for x in w)
    if kind == "tuple2":
        return tuple(MIXED[x] if x < len(MIXED) else ("t", x) for x in w)
    return tuple(w)


KINDS = ("str", "bytes", "tuple", "str2", "bytes2", "tuple2")


def long_pairs(sizes):
    """pairs of long texts that differ in a few places"""
    for i, n in enumerate(sizes):
        a = tuple((j * j + j // 7) % 23 for j in range(n))
        b = a[: n // 3] + (24, 25) + a[n // 3 + 5 : n - 4] + (1, 26)
        yield (KINDS[i % 3], a, b)
        yield (KINDS[i % 3], b, a)
        yield (KINDS[i % 3], a, a[n // 2 :] + a[: n // 2])
        yield (KINDS[i % 3], (2,) + (0, 1) * (n // 2), (2,) + (0, 1) * (n // 2 + 1) + (0,) * (i % 2))
        # one token, or two, in common
        x, y = tuple(range(n)), tuple(range(n, 2 * n))
        yield (("str", "tuple")[i % 2], x, y[: n // 2] + (n // 3,) + y[n // 2 :])
        yield (("tuple", "str")[i % 2], y, x[: n // 4] + (n, n + 1) + x[n // 4 :] + (2 * n - 2,))


def rand_word(rng, k, n):
    return tuple(rng.randrange(k) for _ in range(n))


def repetitive(rng, k, n):
    """random words with repeated blocks"""
    out = []
    while len(out) < n:
        if out and rng.random() < 0.5:
            i = rng.randrange(len(out))
            j = rng.randrange(i, min(len(out), i + 6) + 1)
            out += out[i:j]
        else:
            out.append(rng.randrange(k))
    return tuple(out[:n])


def edit(rng, w, k, times):
    """apply random block edits to a word"""
    w = list(w)
    for _ in range(times):
        i = rng.randrange(len(w) + 1)
        j = min(len(w), i + rng.randrange(4))
        w[i:j] = [rng.randrange(k) for _ in range(rng.randrange(4))]
    return tuple(w)


def pair_cases(rng, hard):
    """random pairs of words: one an edit of the other, or with few, many or repeated letters"""
    while True:
        k = rng.choice([1, 2, 3, 4, 8])
        n = rng.randrange(rng.choice([3, 6, 12, 25, 60] if rng.random() < 0.97 else [150, 400]))
        a = repetitive(rng, k, n) if rng.random() < 0.5 else rand_word(rng, k, n)
        if rng.random() < 0.7:
            b = edit(rng, a, k, rng.randrange(1, 5))
            if rng.random() < 0.2:
                i = rng.randrange(len(b) + 1)
                b = b[i:] + b[:i]
        else:
            b = repetitive(rng, k, rng.randrange(n + 2))
        yield (rng.choice(KINDS), a, b)


def join(kind, pieces):
    """the pieces of a diff put together; every piece has to be of the kind of the texts"""
    want = type(as_kind((), kind))
    for p in pieces:
        if type(p) is not want:
            raise TypeError(f"piece {p!r} is not of type {want.__name__}")
    if want is tuple:
        return tuple(t for p in pieces for t in p)
    return want().join(pieces)
