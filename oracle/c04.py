from common import *
from gaspra import find_lcs_multiple

RULE = ("collections of 0-6 words and some of up to 70 over 1-4 letters (all pairs and triples of short words, then random, edited, rotated and repetitive ones to length 60), as str, bytes, tuples, "
        "lists of strings, tuples of one-element tuples, and str mixed with tuples of letters; unusual characters, bytes and tokens; non-trivial: something in common")
KINDS4 = ("str", "bytes", "tuple", "list", "one", "mix", "str2", "bytes2", "tuple2")


def show(w, kind, i):
    if kind == "one":
        return tuple((x,) for x in w)
    if kind == "list":
        return [chr(97 + x) * 2 for x in w]
    if kind == "mix":
        return as_kind(w, "str") if i % 2 else tuple(chr(97 + x) for x in w)
    return as_kind(w, kind)


def cases(rng, hard):
    yield ("str", ())
    for w in words(range(2), 3):
        yield ("str", (w,))
        yield ("one", (w,))
    for a in words(range(2), 3):
        for b in words(range(2), 3):
            yield (KINDS4[(2 * len(a) + len(b)) % 6], (a, b))
    for a in words(range(2), 2):
        for b in words(range(2), 3):
            for c in words(range(2), 3):
                yield (KINDS4[(len(a) + len(b) + 2 * len(c)) % 6], (a, b, c))
    for n in (9, 17, 33, 40, 65, 70):  # many sequences: the word is in all of them, or in all but one
        yield ("str", tuple((0, 1) + (2,) * (i % 3) for i in range(n)))
        yield ("tuple", tuple((0, 1, 2) if i != n - 1 else (2, 0) for i in range(n)))
    for n in (300, 2000):
        yield ("str", ((0,) * n, (0,) * (n - 7) + (1,), (1,) + (0,) * (n - 3)))
    while True:
        k = rng.choice([1, 2, 2, 3, 4])
        n = rng.choice([3, 8, 15, 30, 60])
        base = repetitive(rng, k, rng.randrange(n) + 1) if rng.random() < 0.6 else rand_word(rng, k, rng.randrange(n) + 1)
        ws = []
        for _ in range(rng.choice([1, 2, 3, 3, 4, 5, 6])):
            r = rng.random()
            if r < 0.5:
                w = edit(rng, base, k, rng.randrange(1, 4))
            elif r < 0.7:
                i = rng.randrange(len(base) + 1)
                w = base[i:] + base[:i]
            elif r < 0.8 and ws:
                w = rng.choice(ws)
            else:
                w = repetitive(rng, k, rng.randrange(n))
            ws.append(w)
        yield (rng.choice(KINDS4), tuple(ws))


def best(ws):
    """length of the longest common word: words of the shortest sequence, by bisection"""
    short = min(ws, key=len)
    texts = ["".join(chr(97 + x) for x in w) for w in ws]
    t = "".join(chr(97 + x) for x in short)
    lo, hi = 0, len(t)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if any(all(t[i:i + m] in x for x in texts) for i in range(len(t) - m + 1)):
            lo = m
        else:
            hi = m - 1
    return lo


def check(c):
    kind, ws = c
    args = [show(w, kind, i) for i, w in enumerate(ws)]
    text = ", ".join(map(repr, args))
    text = text if len(text) < 400 else text[:400] + " ..."
    pos, k = find_lcs_multiple(*args)
    pos = tuple(pos)
    if not ws:
        return None if (pos, k) == ((), None) else f"find_lcs_multiple() is {(pos, k)}"
    if type(k) is not int or k < 0 or len(pos) != len(ws) or any(type(p) is not int or p < 0 or p + k > len(w) for p, w in zip(pos, ws)):
        return f"find_lcs_multiple({text}) is {(pos, k)}: not one place in every sequence"
    found = [w[p:p + k] for p, w in zip(pos, ws)]
    if any(f != found[0] for f in found):
        return f"find_lcs_multiple({text}) is {(pos, k)}: the words there differ"
    want = best(ws)
    if k != want:
        return f"find_lcs_multiple({text}) is {(pos, k)}: the longest common word has length {want}"
    for i, (p, w) in enumerate(zip(pos, ws)):
        for q in range(p):
            if w[q:q + k] == found[0]:
                return f"find_lcs_multiple({text}) is {(pos, k)}: in sequence {i} the word is at {q} already"
    return None


def nontrivial(c):
    return bool(c[1]) and bool(set.intersection(*map(set, c[1])))


def valid(c):
    return len(c) == 2 and c[0] in KINDS4 and isinstance(c[1], tuple) and all(isinstance(w, tuple) and all(type(t) is int and 0 <= t < 1000 for t in w) for w in c[1])
