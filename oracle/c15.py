import random
from gaspra.manifest import add_manifest, get_manifest
from gaspra.versions import Versions
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer

RULE = (
    "histories of up to 15 manifests with every supplied tokenizer, based on nothing, on the latest or on any earlier manifest: names appear, disappear, change, return to an earlier item "
    "and share items; empty manifests, odd names (quotes, newlines, non-ASCII); after every addition all manifests and all items are retrieved; non-trivial: at least three manifests"
)
TOK = {"default": None, "null": NullTokenizer, "char": CharTokenizer, "line": LineTokenizer, "symbol": SymbolTokenizer}
KINDS = tuple(TOK)
NAMES = ["f0", "f1", "f2", "", "a b", 'q"uote', "new\nline", "tab\t", "\u00e9", "\U0001f600", "back\\slash", "f0/f1", "{}", ",\n", "\u2028", "\x00"]


def text(rng, old):
    s = rng.choice(old) if old and rng.random() < 0.7 else ""
    for _ in range(rng.randrange(0, 4)):
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice(["a", "b\n", "line\n", " ", "", "\u20ac", "x = 1\n", s[:4]]) + s[min(len(s), i + rng.choice([0, 0, 1, 3])):]
    return s[:200]


def history(rng, n, share):
    contents, steps, old = [], [], []
    cur = {}
    made = []
    for i in range(n):
        base = None if not steps or rng.random() < 0.1 else i - 1 if rng.random() < 0.8 else rng.randrange(i)
        m = dict(made[base]) if base is not None else {}
        for name in list(m):
            r = rng.random()
            if r < 0.15:
                del m[name]
            elif r < 0.5:
                m[name] = None
            elif r < 0.6 and (share or any(name in x for x in made)):
                pool = range(len(contents)) if share else [x[name] for x in made if name in x]
                m[name] = rng.choice(list(pool))
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            m.setdefault(rng.choice(NAMES if rng.random() < 0.5 else NAMES[:4]), None)
        for name in m:
            if m[name] is None:
                m[name] = len(contents)
                s = text(rng, old)
                old.append(s)
                contents.append(s.encode())
        made.append(m)
        steps.append((base, tuple(m.items())))
    return tuple(contents), tuple(steps)


def cases(rng, hard):
    fixed = random.Random(11)
    a = (b"a", b"ab", b"abc", b"x\ny\n", b"x\n")
    for k in KINDS:
        yield (k, a, ((None, (("f", 0),)), (0, (("f", 1), ("g", 3))), (1, (("g", 4), ("f", 0))), (2, (("f", 2),)), (3, ()), (4, (("h", 1),))))
        yield (k, *history(fixed, 5, False))
        yield (k, *history(fixed, 8, True))
        yield (k, *history(fixed, 14, False))
    while True:
        yield (rng.choice(KINDS), *history(rng, rng.randrange(1, rng.choice([3, 5, 8, 15])), rng.random() < 0.3))


def check(c):
    name, contents, steps = c
    v = Versions(tokenizer_factory=TOK[name]) if TOK[name] else Versions()
    tags = {i: f"i{i}" if i % 5 else f"t\u00e9g {i}" for i in range(len(contents))}
    given, items = {}, {}
    for i, (base, m) in enumerate(steps):
        manifest = {n: tags[x] for n, x in m}
        now = {tags[x]: contents[x] for _, x in m}
        supplied = dict(now) if i % 2 else {tags[x]: contents[x] for x in tags}
        asked = dict(manifest)
        add_manifest(f"m{i}", asked, v, supplied, None if base is None else f"m{base}")
        if asked != manifest:
            return f"add_manifest changed the manifest it was given: {asked!r}"
        given[f"m{i}"] = manifest
        items.update(now)
        for t, want in given.items():
            got = get_manifest(v, t)
            if got != want:
                return f"after {i + 1} manifests: {t} retrieves as {got!r}, not {want!r}"
        for t, want in items.items():
            if t not in v or v.get(t) != want:
                return f"after {i + 1} manifests: item {t!r} retrieves as {v.get(t)!r}, not {want!r}"
    return None


def nontrivial(c):
    return len(c[2]) > 2


def valid(c):
    if not (isinstance(c, tuple) and len(c) == 3 and c[0] in TOK and isinstance(c[1], tuple) and isinstance(c[2], tuple)):
        return False
    if not all(isinstance(x, bytes) for x in c[1]):
        return False
    try:
        [x.decode() for x in c[1]]
    except UnicodeDecodeError:
        return False
    for i, s in enumerate(c[2]):
        if not (isinstance(s, tuple) and len(s) == 2 and (s[0] is None or isinstance(s[0], int) and 0 <= s[0] < i) and isinstance(s[1], tuple)):
            return False
        if not all(isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str) and isinstance(e[1], int) and 0 <= e[1] < len(c[1]) for e in s[1]):
            return False
        if len({e[0] for e in s[1]}) != len(s[1]):
            return False
    return True
