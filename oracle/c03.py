from common import *
from gaspra.wrappers import find_substring
from gaspra import suffix_automaton as sa

RULE = "a text (exhaustive to length 6 over 2 letters and 5 over 3, then random to length 60, some long) with all its substrings and some absent words as queries, as str, bytes and tuples; non-trivial: length at least 2"


def cases(rng, hard):
    for i, a in enumerate(list(words(range(2), 7)) + list(words(range(3), 5))):
        yield (KINDS[i % 3], a, [(), (0,), (1,), (0, 1), (1, 1, 0), (0, 2), a + (0,), (1,) + a])
    for kind, a, b in long_pairs((130, 257, 600)):
        yield (kind, a, [b, a[5:], a[:-1], b[7:40]])
    while True:
        k = rng.choice([1, 2, 2, 3, 4])
        n = rng.choice([3, 8, 15, 30, 60])
        a = repetitive(rng, k, rng.randrange(n)) if rng.random() < 0.6 else rand_word(rng, k, rng.randrange(n))
        yield (rng.choice(KINDS), a, [rand_word(rng, k + 1, rng.randrange(5)) for _ in range(3)] + [edit(rng, a, k, 1)])


def check(c):
    kind, a, qs = c
    x = as_kind(a, kind)
    n = len(a)
    root = sa.build(x)
    bare = sa.build(x, reverse_links=False, mark_terminals=False)
    spans = [(i, j) for i in range(n) for j in range(i, n + 1)] if n <= 100 else [(i, j) for i in range(0, n, 41) for j in (i, i + 1, i + 2, i + 130, n) if i <= j <= n]
    todo = {a[i:j] for i, j in spans} | set(qs)
    if len(todo) > 200:
        todo = set(sorted(todo, key=lambda w: hash((w, n)))[:200]) | set(qs)
    for q in todo:
        y = as_kind(q, kind)
        where = [i for i in range(n - len(q) + 1) if a[i : i + len(q)] == q]
        got = where if n > 100 and q not in qs else list(find_substring(x, y))
        if got != where:
            return f"find_substring({x!r}, {y!r}) is {got} instead of {where}"
        got = list(sa.find_substring_all(root, y))
        if got != where:
            return f"find_substring_all of {y!r} in {x!r} is {got} instead of {where}"
        want = where[0] if where else None
        for r in (root, bare):
            one = sa.find_substring(r, y)
            if one != want or (one is None) != (want is None):
                return f"find_substring of {y!r} in {x!r} is {one} instead of {want}"
    return None


def nontrivial(c):
    return len(c[1]) >= 2


def valid(c):
    return (isinstance(c, tuple) and len(c) == 3 and c[0] in KINDS and isinstance(c[1], tuple) and isinstance(c[2], list)
            and all(isinstance(w, tuple) and all(type(t) is int and 0 <= t for t in w) for w in [c[1]] + c[2]))
