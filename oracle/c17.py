from common import *
from gaspra import changesets as cs
from gaspra.types import Change, CommonSlice

RULE = (
    "a pair of sequences as str, bytes or tuple (all pairs to length 4 over 2 letters, some pairs of long ones, then random edits of repetitive words to length 60, rarely 400): the diff and the "
    "change script in normal form; non-trivial: the sequences differ and share a token"
)


def cases(rng, hard):
    small = list(words(range(2), 4))
    for i, a in enumerate(small):
        for j, b in enumerate(small):
            yield (KINDS[(i + j) % 3], a, b)
    yield from long_pairs((130, 257, 1030, 5000) + ((20000,) if hard else ()))
    yield from pair_cases(rng, hard)


def check(c):
    kind, a, b = c
    x, y = as_kind(a, kind), as_kind(b, kind)
    d = list(cs.diff_token_sequences(x, y))
    for i, item in enumerate(d):
        change = isinstance(item, Change)
        if i and change == isinstance(d[i - 1], Change):
            return f"diff of {x!r} and {y!r} does not alternate at {i}: {d!r}"
        if change and not len(item.a) and not len(item.b):
            return f"diff of {x!r} and {y!r} holds an empty change: {d!r}"
        if not change and not len(item):
            return f"diff of {x!r} and {y!r} holds an empty fragment: {d!r}"
        if change and set(item.a) & set(item.b):
            return f"both sides of a change share a token in the diff of {x!r} and {y!r}: {d!r}"
    p = q = 0
    for item in cs.find_changeset(x, y).as_change_stream():
        if not isinstance(item, CommonSlice):
            if not len(item.a) and not len(item.b):
                return f"script of {x!r} and {y!r} holds an empty change"
            continue
        s, t = item.a_slice, item.b_slice
        if not (p <= s.start < s.stop <= len(x) and q <= t.start < t.stop <= len(y)) or x[s] != y[t]:
            return f"slices {s} {t} in the script of {x!r} and {y!r}"
        p, q = s.stop, t.stop
    return None


def nontrivial(c):
    return c[1] != c[2] and bool(set(c[1]) & set(c[2]))


def valid(c):
    return isinstance(c, tuple) and len(c) == 3 and c[0] in KINDS and all(isinstance(w, tuple) and all(type(t) is int and t >= 0 for t in w) for w in c[1:])
