from common import *
from gaspra import changesets as cs
from gaspra.types import Change

RULE = (
    "a pair of sequences as str, bytes or tuple (all pairs to length 4 over 2 letters, then some pairs of long ones, then random edits of repetitive words to length 60, rarely 400): the diff "
    "read both ways, the change script stripped and applied both ways, the tree applied both ways; non-trivial: the sequences differ and share a token"
)


def cases(rng, hard):
    yield from (("str", (0, 2, 3, 1), (1, 3, 2, 0)), ("tuple", (0, 0), ()), ("bytes", (), (0, 1)))
    small = list(words(range(2), 4))
    for i, a in enumerate(small):
        for j, b in enumerate(small):
            yield (KINDS[(i + j) % 3], a, b)
    yield from long_pairs((130, 257, 1030, 5000) + ((20000,) if hard else ()))
    yield from pair_cases(rng, hard)


def check(c):
    kind, a, b = c
    x, y = as_kind(a, kind), as_kind(b, kind)
    d = list(cs.diff_token_sequences(x, y))
    new = join(kind, [i.a if isinstance(i, Change) else i for i in d])
    old = join(kind, [i.b if isinstance(i, Change) else i for i in d])
    if new != y:
        return f"diff of {x!r} and {y!r} read with insertions: {new!r}"
    if old != x:
        return f"diff of {x!r} and {y!r} read with deletions: {old!r}"
    tree = cs.find_changeset(x, y)
    script = list(tree.as_change_stream())
    got = cs.apply_forward(script, x)
    if got != y or type(got) is not type(x):
        return f"forward script of {x!r} and {y!r} applied: {got!r}"
    got = cs.apply_reverse(script, y)
    if got != x or type(got) is not type(x):
        return f"reverse script of {x!r} and {y!r} applied: {got!r}"
    for strip, source, want in ((cs.strip_forward, x, y), (cs.strip_reverse, y, x)):
        patch = list(strip(script))
        got = cs.apply(patch, source)
        if got != want:
            return f"{strip.__name__} of {x!r}, {y!r} applied: {got!r}"
        if any(type(i) is not slice and type(i) is not type(x) for i in patch):
            return f"{strip.__name__} of {x!r}, {y!r} holds {patch!r}"
    got = cs.old_apply_forward(tree, x)
    if got != y:
        return f"tree of {x!r} and {y!r} applied forward: {got!r}"
    got = cs.old_apply_reverse(tree, y)
    if got != x:
        return f"tree of {x!r} and {y!r} applied in reverse: {got!r}"
    frags = list(tree._stream(x))
    got = join(kind, [f.insert for f in frags])
    if got != y:
        return f"fragments of {x!r} and {y!r}: {got!r}"
    return None


def nontrivial(c):
    return c[1] != c[2] and bool(set(c[1]) & set(c[2]))


def valid(c):
    return isinstance(c, tuple) and len(c) == 3 and c[0] in KINDS and all(isinstance(w, tuple) and all(type(t) is int and t >= 0 for t in w) for w in c[1:])


SCATTERED = "diff_token_sequences(tuple(x for i in range(1500) for x in (0, 2 * i + 1)), tuple(x for i in range(1500) for x in (0, 2 * i + 2)))"


def known():
    x = tuple(t for i in range(1500) for t in (0, 2 * i + 1))
    y = tuple(t for i in range(1500) for t in (0, 2 * i + 2))
    try:
        list(cs.diff_token_sequences(x, y))
    except RecursionError:
        return ["RecursionError: " + SCATTERED]
    return []
