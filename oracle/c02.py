from common import *
from gaspra.wrappers import find_lcs
from gaspra import suffix_automaton as sa

RULE = "pairs of words over 1-3 letters (exhaustive to length 4, then random and repetitive ones to length 60, rarely 400, and some long pairs), as str, bytes and tuples; non-trivial: something in common"


def cases(rng, hard):
    small = list(words(range(2), 4)) + [w for w in words(range(3), 3)]
    for i, a in enumerate(small):
        for b in small:
            yield (KINDS[(len(a) + len(b)) % 3], a, b)
    for w in words(range(2), 6):
        for b in ((1, 0, 1), (0, 0, 1, 1), w[1:] + w[:1]):
            yield ("str", w, b)
    yield from long_pairs((130, 257, 1030) + ((3000,) if hard else ()))
    while True:
        k = rng.choice([1, 2, 2, 3, 4])
        n = rng.choice([3, 8, 15, 30, 60] if rng.random() < 0.97 else [150, 400])
        a = repetitive(rng, k, rng.randrange(n)) if rng.random() < 0.6 else rand_word(rng, k, rng.randrange(n))
        b = edit(rng, a, k, rng.randrange(1, 5)) if rng.random() < 0.5 else repetitive(rng, k, rng.randrange(n))
        yield (rng.choice(KINDS), a, b)


def best(a, b):
    """(i, j, k): the length by bisection, then the earliest place in b, then the first in a"""
    lo, hi = 0, min(len(a), len(b))
    while lo < hi:
        k = (lo + hi + 1) // 2
        there = {a[i : i + k] for i in range(len(a) - k + 1)}
        if any(b[j : j + k] in there for j in range(len(b) - k + 1)):
            lo = k
        else:
            hi = k - 1
    if lo == 0:
        return (0, 0, 0)
    first = {}
    for i in range(len(a) - lo, -1, -1):
        first[a[i : i + lo]] = i
    j = next(j for j in range(len(b) - lo + 1) if b[j : j + lo] in first)
    return (first[b[j : j + lo]], j, lo)


def check(c):
    kind, a, b = c
    x, y = as_kind(a, kind), as_kind(b, kind)
    want = best(a, b)
    got = tuple(find_lcs(x, y))
    if got != want:
        return f"find_lcs({x!r}, {y!r}) is {got} instead of {want}"
    for flags in ((False, False), (True, False)):
        got = tuple(sa.find_lcs(sa.build(x, *flags), y))
        if got != want:
            return f"find_lcs(build({x!r}), {y!r}) is {got} instead of {want}"
    return None


def nontrivial(c):
    return bool(set(c[1]) & set(c[2]))


def valid(c):
    return len(c) == 3 and c[0] in KINDS and all(isinstance(w, tuple) and all(type(t) is int for t in w) for w in c[1:])
