from common import *
from gaspra import suffix_automaton as sa

RULE = "a text (exhaustive to length 7 over 2 letters and 5 over 3, then random to length 80, some long), its index followed along every transition; non-trivial: length at least 2"


def cases(rng, hard):
    for i, a in enumerate(list(words(range(2), 7)) + list(words(range(3), 5))):
        yield (KINDS[i % 3], a, ((True, True), (False, True))[i % 2])
    for kind, a, b in long_pairs((130, 257)):
        yield (kind, a, (True, True))
    while True:
        k = rng.choice([1, 2, 2, 3, 4])
        n = rng.choice([3, 8, 15, 30, 80])
        a = repetitive(rng, k, rng.randrange(n)) if rng.random() < 0.6 else rand_word(rng, k, rng.randrange(n))
        yield (rng.choice(KINDS), a, (rng.random() < 0.5, True))


def states(root):
    seen = {id(root): root}
    todo = [root]
    while todo:
        s = todo.pop()
        for t in list(s.transitions.values()) + ([s.link] if s.link is not None else []):
            if id(t) not in seen:
                seen[id(t)] = t
                todo.append(t)
    return list(seen.values())


def check(c):
    kind, a, flags = c
    x = as_kind(a, kind)
    n = len(a)
    root = sa.build(x, *flags)
    st = states(root)
    if len(st) > 2 * n + 1:
        return f"index of {x!r} has {len(st)} states, more than 2 * {n} + 1"
    # every substring can be followed, and it is accepted exactly when it is a suffix
    for i in range(n + 1):
        s = root
        for j in range(i, n + 1):
            word = x[i:j]
            suffix = n - len(word) >= 0 and x[n - len(word) :] == word
            if bool(s.is_terminal) != suffix:
                return f"index of {x!r} {'accepts' if s.is_terminal else 'rejects'} {word!r}"
            if j == n:
                break
            s2 = s.transitions.get(x[j])
            if s2 is None:
                return f"index of {x!r} cannot follow its substring {x[i:j+1]!r}"
            s = s2
    # nothing else can be followed: the number of distinct words from the root
    # along transitions equals the number of distinct substrings
    memo = {}
    onpath = set()

    def count(s):
        if id(s) in memo:
            return memo[id(s)]
        if id(s) in onpath:
            raise ValueError("cycle")
        onpath.add(id(s))
        memo[id(s)] = 1 + sum(count(t) for t in s.transitions.values())
        onpath.discard(id(s))
        return memo[id(s)]

    try:
        paths = count(root)
    except ValueError:
        return f"index of {x!r} has a cycle"
    subs = len({x[i:j] for i in range(n) for j in range(i + 1, n + 1)}) + 1
    if paths != subs:
        return f"index of {x!r} follows {paths} words but there are {subs} substrings"
    got = sorted(sa.all_suffixes(root), key=lambda w: (len(w), w)) if not kind.startswith("tuple") else sorted(sa.all_suffixes(root), key=len)
    if [len(w) for w in got] != list(range(n + 1)) or any(x[n - len(w) :] != w for w in got):
        return f"all_suffixes of {x!r} gives {got!r:.200}"
    return None


def nontrivial(c):
    return len(c[1]) >= 2


def valid(c):
    return isinstance(c, tuple) and len(c) == 3 and c[0] in KINDS and isinstance(c[1], tuple) and all(type(t) is int and t >= 0 for t in c[1]) and len(c[2]) == 2
