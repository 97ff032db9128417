import itertools
from functools import lru_cache
from common import *
from gaspra.merge import merge_token_sequence
from gaspra.types import Change

RULE = (
    "a parent and two branches as str, bytes or tuple (random edits of words to length 12, small ones first; some seeds exhaustive over 2 letters; deletions and insertions of fresh tokens in a parent of distinct tokens, all of them for up to 3 tokens in the hard mode): the merge output "
    "explained by a common cut of the three sequences; non-trivial: both branches differ from the parent and from each other"
)


def triples(rng, hard):
    while True:
        k = rng.choice([2, 3, 4, 9, 9])
        n = rng.randrange(rng.choice([3, 5, 8, 13]))
        p = tuple(range(n)) if k == 9 else rand_word(rng, k, n)
        k += n if k == 9 else 0
        a = edit(rng, p, k, rng.randrange(0, 4))
        b = edit(rng, p, k, rng.randrange(0, 4))
        if rng.random() < 0.05:
            b = a
        yield (rng.choice(KINDS), p, a, b)


def script(rng, n, new):
    """a branch of (0, .., n-1): runs of tokens deleted, fresh tokens put in gaps"""
    r, gone = [], rng.random() < 0.4
    d, g = rng.choice([0.3, 0.5]), rng.choice([0.15, 0.35])
    for i in range(n + 1):
        if rng.random() < g:
            r += [new + i] * rng.choice([1, 1, 2])
        if i < n and not gone:
            r.append(i)
        if rng.random() < d:
            gone = not gone
    return tuple(r)


def busy(rng, n):
    """some forty changes in each branch, at the same places, beside each other, or apart"""
    branches = []
    for new in (200, 400):
        r = []
        for i in range(n):
            u = rng.random()
            r += [] if u < 0.15 else [new + i] if u < 0.25 else [i, new + i] if u < 0.35 else [i]
        branches.append(tuple(r))
    return ("str", tuple(range(n)), *branches)


def scripts(n, new):
    """all branches of (0, .., n-1) that delete tokens and put one fresh token in gaps"""
    for m in itertools.product((0, 1), repeat=2 * n + 1):
        yield tuple(i // 2 if i % 2 else new + i // 2 for i in range(2 * n + 1) if m[i])


def cases(rng, hard):
    yield ("bytes", (0, 1), (2,), (3, 1, 4))
    yield ("str", (0, 1, 2, 3, 4, 5, 6, 7), (0, 1, 18, 4, 19, 7), (0, 16, 3, 17, 6, 7))
    yield ("str", (0, 1, 2, 25), (23, 0, 24, 1, 2, 25), (25,))
    small = list(words(range(2), 2))
    for i, (p, a, b) in enumerate(itertools.product(small, small, small)):
        yield (KINDS[i % 3], p, a, b)
    for n in (1, 2, 3) if hard else (1,):
        for i, (a, b) in enumerate(itertools.product(scripts(n, 10), scripts(n, 20))):
            yield (KINDS[i % 3], tuple(range(n)), a, b)
    for n in (70, 140):
        p = tuple(range(n))
        yield ("str", p, p[:9] + (n,) + p[11:40] + p[45:], p[:20] + (n + 1, n + 2) + p[22 : n - 2])
        yield ("tuple", p, p[:9] + (n,) + p[11:40] + p[45:], p[:10] + (n + 1, n + 2) + p[42 : n - 2] + (n,))
    for n in (30, 300):
        for k in (40, 7):  # a long conflict whose alternatives begin and end alike
            r = tuple(k + i % n for i in range(n))
            yield ("str", (0,), r + (1, 1), r + (1,))
            yield ("tuple", (0, 1), (2,) + r + r[5:] + (1,), (3, 4) + r + (1,))
            yield ("str", (0,), r + (1, 2), r + (3, 4))
            yield ("str", (0,), (1,) + r, tuple(k + n + 9 + i for i in range(n)))
            yield ("tuple", (0, 1, 0), (0, 2) + r + (3, 0), (0, 3) + r[::-1] + (2, 0))
    more = triples(rng, hard)
    for i in itertools.count():
        if i % 12 == 3:  # many changes
            n = rng.choice([60, 120])
            yield ("str", tuple(range(n)), script(rng, n, 200), script(rng, n, 400))
            yield busy(rng, n)
        yield next(more)
        n = rng.randrange(2, 7)
        yield (rng.choice(KINDS), tuple(range(n)), script(rng, n, 10), script(rng, n, 20))


class Conflict(tuple):
    pass


def marks(out, kind):
    """the output as tokens and conflicts, with the pieces of one type joined"""
    want = type(as_kind((), kind))
    r = []
    for x in out:
        if isinstance(x, Change):
            if type(x.a) is not want or type(x.b) is not want:
                raise TypeError(f"conflict {x!r} is not of type {want.__name__}")
            r.append(Conflict((tuple(x.a), tuple(x.b))))
        else:
            if type(x) is not want:
                raise TypeError(f"piece {x!r} is not of type {want.__name__}")
            r += list(x)
    return r


def explained(P, A, B, ms, strict=True):
    """Is there a cut of P, A, B into aligned segments that gives the output?"""
    P, A, B = tuple(P), tuple(A), tuple(B)
    seen = set()
    todo = [(0, 0, 0, 0)]
    goal = (len(P), len(A), len(B), len(ms))
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        if s == goal:
            return True
        seen.add(s)
        i, j, k, u = s
        token = u < len(ms) and not isinstance(ms[u], Conflict)
        c = ms[u] if u < len(ms) and isinstance(ms[u], Conflict) else None
        if i < len(P):
            todo.append((i + 1, j, k, u))  # both deleted it
            if k < len(B) and B[k] == P[i]:
                todo.append((i + 1, j, k + 1, u))  # A deleted it
            if j < len(A) and A[j] == P[i]:
                todo.append((i + 1, j + 1, k, u))  # B deleted it
        if token:
            m = ms[u]
            ina, inb = j < len(A) and A[j] == m, k < len(B) and B[k] == m
            if ina and inb:
                todo.append((i, j + 1, k + 1, u + 1))
            if ina:
                todo.append((i, j + 1, k, u + 1))
            if inb:
                todo.append((i, j, k + 1, u + 1))
        if not strict:
            if c is not None and A[j : j + len(c[0])] == c[0] and B[k : k + len(c[1])] == c[1]:
                for i2 in range(i, len(P) + 1):
                    todo.append((i2, j + len(c[0]), k + len(c[1]), u + 1))
            continue
        la, lb, conf = (), (), False
        for v in range(u, len(ms)):
            x = ms[v]
            if isinstance(x, Conflict):
                la, lb, conf = la + x[0], lb + x[1], True
            else:
                la, lb = la + (x,), lb + (x,)
            if A[j : j + len(la)] != la or B[k : k + len(lb)] != lb:
                break
            if conf and la != lb:
                for i2 in range(i, len(P) + 1):
                    if P[i:i2] not in (la, lb):
                        todo.append((i2, j + len(la), k + len(lb), v + 1))
    return False


def check(c, strict=True):
    kind, p, a, b = c
    P, A, B = (as_kind(w, kind) for w in (p, a, b))
    out = list(merge_token_sequence(P, A, B))
    if any(isinstance(x, Change) and x.a == x.b for x in out):
        return f"merge of {P!r}, {A!r}, {B!r} has a conflict of equal texts: {out!r}"
    if not explained(P, A, B, marks(out, kind), strict):
        return f"no common cut of {P!r}, {A!r}, {B!r} gives their merge {out!r}"
    return None


def nontrivial(c):
    return c[1] != c[2] and c[1] != c[3] and c[2] != c[3]


def valid(c):
    return isinstance(c, tuple) and len(c) == 4 and c[0] in KINDS and all(isinstance(w, tuple) and all(type(t) is int and t >= 0 for t in w) for w in c[1:])
