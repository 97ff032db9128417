import itertools
from common import *
from gaspra.changesets import diff_token_sequences
from gaspra.merge import merge_token_sequence
from gaspra.types import Change

RULE = (
    "a parent and two branches as str, bytes or tuple whose changes (taken from their diffs from the parent) do not touch: edits of separate places, one branch like the parent, two equal branches "
    "(words up to 16 tokens, some seeds exhaustive over 2 letters); the merge compared with the parent with all changes applied; non-trivial: both branches change the parent in different places"
)


def apart(rng, p, k):
    """Two edits of p at places with tokens of p between them."""
    a, b, i = [], [], 0
    turn = rng.randrange(2)
    while True:
        n = rng.choice([0, 1, 1, 2, 3])
        keep, i = p[i : i + n], i + n
        a += keep
        b += keep
        if i > len(p) or rng.random() < 0.1:
            break
        m = rng.choice([0, 0, 1, 2])
        old, i = p[i : i + m], i + m
        new = [rng.randrange(k) + rng.choice([0, 20]) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
        (a, b)[turn].extend(new)
        (b, a)[turn].extend(old)
        turn ^= rng.random() < 0.7
    rest = p[i:]
    return tuple(a) + tuple(rest), tuple(b) + tuple(rest)


def many(rng, n):
    """some forty changes in each branch of a parent of distinct tokens"""
    a, b, turn = [], [], 0
    for i in range(n):
        change = i % 2 and rng.random() < 0.9
        turn ^= rng.random() < 0.7
        both = [a, b]
        if change:
            both[turn] += rng.choice([[], [200 + i], [i, 200 + i], [200 + i, i], [200 + i, 201 + i]])
            both[1 - turn].append(i)
        else:
            a.append(i)
            b.append(i)
    return ("str", tuple(range(n)), tuple(a), tuple(b))


def cases(rng, hard):
    yield ("str", (), (), (0, 1))
    yield ("tuple", (), (0,), (0,))
    small = list(words(range(2), 2))
    for i, (p, a) in enumerate(itertools.product(small, small)):
        yield (KINDS[i % 3], p, a, a)
        yield (KINDS[i % 3], p, a, p)
        yield (KINDS[i % 3], p, p, a)
    for i, (p, a, b) in enumerate(itertools.product(list(words(range(2), 3)), small, small)):
        yield (KINDS[i % 3], p, a, b)
    for kind, p, a in long_pairs((130, 257, 1030)):
        yield (kind, p, a, p)
        yield (kind, p, p, a)
        yield (kind, p, a, a)
        yield (kind, p, a, p[:9] + (30,) + p[12:])
    for i in itertools.count():
        if i % 10 == 3:  # many changes
            n = rng.choice([90, 160])
            yield many(rng, n)
        k = rng.choice([2, 3, 4, 9])
        n = rng.randrange(rng.choice([4, 8, 16]))
        p = tuple(range(n)) if k == 9 else rand_word(rng, k, n)
        u = rng.random()
        if u < 0.8:
            a, b = apart(rng, p, k + 2)
        else:
            a = edit(rng, p, k, rng.randrange(0, 4))
            b = p if u < 0.9 else a
        yield (rng.choice(KINDS), p, a, b) if rng.random() < 0.5 else (rng.choice(KINDS), p, b, a)


def changes(P, B):
    """(start, end, inserted) of each change of the diff from P to B"""
    r, i = [], 0
    for x in diff_token_sequences(P, B):
        if isinstance(x, Change):
            r.append((i, i + len(x.b), x.a))
            i += len(x.b)
        else:
            i += len(x)
    return r


def independent(P, A, B):
    a, b = changes(P, A), changes(P, B)
    return all(y < u or v < x for x, y, _ in a for u, v, _ in b), a, b


def text(out, kind):
    return tuple(t for x in out for t in x)


def check(c):
    kind, p, a, b = c
    P, A, B = (as_kind(w, kind) for w in (p, a, b))
    ok, ca, cb = independent(P, A, B)
    want = tuple(B) if p == a else tuple(A) if p == b or a == b else None
    if want is None:
        if not ok:
            return None
        want, i = (), 0
        for s, e, new in sorted(ca + cb, key=lambda x: x[:2]):
            want += tuple(P[i:s]) + tuple(new)
            i = e
        want += tuple(P[i:])
    out = list(merge_token_sequence(P, A, B))
    if any(isinstance(x, Change) for x in out):
        return f"changes of {A!r} and {B!r} from {P!r} do not touch, but their merge has a conflict: {out!r}"
    if text(out, kind) != want:
        return f"merge of {P!r}, {A!r}, {B!r} is {out!r}, not the text {want!r}"
    return None


def nontrivial(c):
    if c[1] in c[2:] or c[2] == c[3]:
        return False
    P, A, B = (as_kind(w, c[0]) for w in c[1:])
    return independent(P, A, B)[0]


def valid(c):
    return isinstance(c, tuple) and len(c) == 4 and c[0] in KINDS and all(isinstance(w, tuple) and all(type(t) is int and t >= 0 for t in w) for w in c[1:])
