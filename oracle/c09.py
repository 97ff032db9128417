import random
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions

RULE = (
    "histories of up to 60 additions through Versions.add (bases chosen among the current heads, sometimes none) and histories of up to 25 additions and re-parentings of a MemoryTree: "
    "after every step all paths against a mirror of the parents, prefixes, heads, bases, the heights and sizes kept, and every split against the longest downward paths; non-trivial: some tag has two ancestors"
)


def cases(rng, hard):
    for n in (4, 7, 12, 20):  # many below one tag, chains, and taking them apart again
        for up in (lambda i: 0, lambda i: i - 1, lambda i: (i - 1) // 2, lambda i: max(0, i - 3), lambda i: 1 if i > 1 else 0):
            ops = (("a", 0),) * n + tuple(("c", i, up(i)) for i in range(1, n))
            yield ("t", ops)
            yield ("t", ops + tuple(("c", i, j) for i, j in ((n // 2, n), (n - 1, 1), (1, n // 2), (2, n), (n - 2, 0), (n // 2, 0), (0, n - 1), (3, n))))
            yield ("t", (("a", 0),) * n + tuple(("c", i, up(i)) for i in range(n - 1, 0, -1)))
    for n in range(2, 34):
        yield ("v", tuple([None] + [0] * n))
    yield ("v", (None,) + (0,) * 70)
    if hard:
        yield ("v", (None,) + (0,) * 270)
    for n in range(1, 5):
        yield ("v", tuple([None] * n + [0, 1, 2, 3, 0, 1] * 3))
    while True:
        if rng.random() < 0.5:
            p = rng.choice([0.05, 0.2, 0.5])
            yield ("v", tuple(None if i == 0 or rng.random() < p else rng.randrange(8) for i in range(rng.randrange(1, 60))))
        else:
            yield ("t", tuple(("a", rng.randrange(9)) if i == 0 or rng.random() < 0.35 else ("c", rng.randrange(30), rng.randrange(31)) for i in range(rng.randrange(1, 45))))


def longest(kids, t):
    return 1 + max((longest(kids, c) for c in kids.get(t, ())), default=0)


def below(kids, t):
    return 1 + sum(below(kids, c) for c in kids.get(t, ()))


def audit(tree, parent, base, heads=None):
    kids = {}
    for t, p in parent.items():
        if t not in tree:
            return f"{t!r} is not in the tree"
        kids.setdefault(p, []).append(t)
    if "absent" in tree or tree.path_to("absent") is not None:
        return "a tag that was never added is in the tree"
    paths = {}
    for t, p in parent.items():
        want = [t]
        while want[0] in parent and parent[want[0]] is not None:
            want.insert(0, parent[want[0]])
        got = tree.path_to(t)
        if got is None or tuple(got) != tuple(want):
            return f"path of {t!r} is {got!r}, not {tuple(want)!r}"
        if heads is not None and got[0] not in heads:
            return f"path of {t!r} starts at {got[0]!r}, which is not a head"
        paths[t] = tuple(got)
        if tree.base_version(t) != base[t]:
            return f"base of {t!r} is {tree.base_version(t)!r}, not {base[t]!r}"
    kept = getattr(tree, "nodes", None)
    if isinstance(kept, dict):
        for t in parent:
            for name, want in (("height", longest(kids, t)), ("size", below(kids, t))):
                got = getattr(kept.get(t), name, want)
                if got != want:
                    return f"{name} of {t!r} is {got!r}, not {want!r}"
    for t in parent:
        split, path = tree.get_split(t)
        path = list(path)
        h = longest(kids, t)
        if not path or path[0] != t or path[-1] != split or any(parent.get(c) != p for p, c in zip(path, path[1:])):
            return f"split of {t!r}: {path!r} is not a downward path ending at {split!r}"
        if len(path) != h // 2 + 1 and h > 1 or h == 1 and len(path) != 1:
            return f"split of {t!r} at depth {len(path)} of longest downward paths of {h} tags"
        if longest(kids, split) + len(path) - 1 != h:
            return f"split of {t!r} is not on a longest downward path"
    return None


def check(c):
    kind, ops = c
    if kind == "v":
        v, parent, base, heads = Versions(), {}, {}, []
        for i, b in enumerate(ops):
            b = heads[b % len(heads)] if b is not None and heads else None
            t = f"v{i}"
            v.add(t, b"x%d\n" % i, b)
            base[t] = b
            heads = [h for h in heads if h != b] + [t]
            if set(v.head_version) != set(heads):
                return f"heads are {sorted(v.head_version)!r}, not {sorted(heads)!r}"
            parent[t] = None
            # which re-parentings happen is the store's choice: they are read back and must form a forest
            for x in parent:
                p = v.tree.path_to(x)
                if p is None or len(set(p)) != len(p) or p[-1] != x:
                    return f"path of {x!r} is {p!r}"
                parent[x] = p[-2] if len(p) > 1 else None
            m = audit(v.tree, parent, base, heads)
            if m:
                return f"after {i + 1} additions: {m}"
        return None
    tree, parent, base, tags = MemoryTree(), {}, {}, []
    for i, op in enumerate(ops):
        if op[0] == "a":
            t = len(tags)
            b = tags[op[1] % len(tags)] if tags and op[1] % 3 else None
            tree.add(t, b)
            tags.append(t)
            parent[t], base[t] = None, b
        elif tags:
            t = tags[op[1] % len(tags)]
            q = (tags + [None])[op[2] % (len(tags) + 1)]
            x = q
            while x is not None and x != t:
                x = parent[x]
            if x is not None:
                continue
            tree.change_parent(t, q)
            parent[t] = q
        m = audit(tree, parent, base)
        if m:
            return f"after {i + 1} operations: {m}"
    return None


def nontrivial(c):
    return len(c[1]) > 4


def valid(c):
    return isinstance(c, tuple) and len(c) == 2 and c[0] in ("v", "t") and isinstance(c[1], tuple) and all(
        (x is None or isinstance(x, int)) if c[0] == "v" else isinstance(x, tuple) and x and x[0] in ("a", "c") and len(x) == (2 if x[0] == "a" else 3) and all(isinstance(y, int) for y in x[1:]) for x in c[1])
