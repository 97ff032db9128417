import shutil
import sqlite3
import tempfile
from pathlib import Path

from gaspra.db_collections import DBCollection

RULE = (
    "sequences of up to 40 operations (make, store, fetch, delete, membership, count, iteration) on up to three collections of one database (one connection in memory, one connection to a file, "
    "a new connection for every operation), compared with dictionaries; keys of all sorts of characters, contents to 5000 bytes; non-trivial: a key is stored twice or deleted"
)
TABLES = ("versions", "deltas_2", "T")
KEYS = ("a", "A", "", "b", "a ", "1", "01", "1.0", "é", "e\u0301", "a'b", '"', "%", "_", "a_b", "axb", "\n", "\U0001f600", "a" * 300, "NULL", "None", "tag", "a;b", "?", "{}", "{table}", " a", "0", "-1", "1e0", "x\x00y", "x")
VALUES = (b"", b"\x00", b"one", b"two", b"\xff\xfe", "é".encode(), bytes(range(256)), b"x" * 5000, b"0", b"NULL")
MODES = ("memory", "file", "fresh")
OPS = ("set", "get", "del", "in", "len", "iter", "new")


def cases(rng, hard):
    for m in MODES:
        yield (m, (("set", 0, 0, 2), ("set", 0, 0, 3), ("get", 0, 0, 0), ("get", 0, 3, 0), ("del", 0, 3, 0), ("len", 0, 0, 0), ("iter", 0, 0, 0), ("del", 0, 0, 0), ("in", 0, 0, 0), ("len", 0, 0, 0)))
        yield (m, (("set", 0, 0, 2), ("new", 1, 0, 0), ("set", 1, 0, 3), ("del", 0, 0, 0), ("iter", 1, 0, 0), ("new", 0, 0, 0), ("new", 1, 0, 0), ("len", 1, 0, 0)))
        yield (m, tuple(("set", 0, k, k % len(VALUES)) for k in range(len(KEYS))) + tuple(("get", 0, k, 0) for k in range(len(KEYS))) + (("iter", 0, 0, 0), ("len", 0, 0, 0))
               + tuple(("del", 0, k, 0) for k in range(0, len(KEYS), 2)) + tuple(("in", 0, k, 0) for k in range(len(KEYS))) + (("iter", 0, 0, 0), ("len", 0, 0, 0)))
        yield (m, tuple(x for v in range(len(VALUES)) for x in (("set", 0, 5, v), ("get", 0, 5, 0), ("in", 0, 5, 0), ("del", 0, 3, 0), ("get", 0, 5, 0), ("set", 0, v + 7, 1), ("len", 0, 0, 0))))
        yield (m, (("iter", 0, 0, 0), ("len", 0, 0, 0), ("in", 0, 2, 0), ("get", 0, 2, 0), ("del", 0, 2, 0), ("set", 0, 2, 0), ("get", 0, 2, 0), ("in", 0, 2, 0), ("len", 0, 0, 0), ("iter", 0, 0, 0), ("del", 0, 2, 0)))
    while True:
        nk = rng.choice([2, 3, 6, len(KEYS)])
        nc = rng.choice([1, 1, 2, 3])
        ops = []
        for _ in range(rng.randrange(1, 41)):
            op = rng.choice(OPS[:3] * 4 + OPS[3:6] * 2 + OPS[6:])
            ops.append((op, rng.randrange(nc), rng.randrange(nk), rng.randrange(len(VALUES))))
        yield (rng.choice(MODES), tuple(ops))


def outcome(f):
    try:
        return f()
    except KeyError:
        return KeyError


def listed(c):
    r = list(c)
    return sorted(r) if all(type(k) is str for k in r) else r


def run(mode, ops, path):
    shared = []

    def factory():
        if mode == "fresh" or not shared:
            connection = sqlite3.connect(":memory:" if mode == "memory" else path, timeout=2)
            connection.execute("PRAGMA synchronous=OFF")
            if mode == "fresh":
                return connection
            shared.append(connection)
        return shared[0]

    real, model = {}, {}
    for c in sorted({o[1] for o in ops}):
        real[c], model[c] = DBCollection(TABLES[c], factory), {}
    for i, (op, c, k, v) in enumerate(ops):
        key, value = KEYS[k], VALUES[v]
        r, m = real[c], model[c]
        if op == "new":
            real[c], model[c] = DBCollection(TABLES[c], factory), {}
            got, want = None, None
        elif op == "set":
            got, want = outcome(lambda: r.__setitem__(key, value)), outcome(lambda: m.__setitem__(key, value))
        elif op == "get":
            got, want = outcome(lambda: r[key]), outcome(lambda: m[key])
        elif op == "del":
            got, want = outcome(lambda: r.__delitem__(key)), outcome(lambda: m.__delitem__(key))
        elif op == "in":
            got, want = key in r, key in m
        elif op == "len":
            got, want = len(r), len(m)
        else:
            got, want = listed(r), sorted(m)
        if got != want or type(got) is not type(want):
            return f"operation {i + 1}, {op} {key!r} on {TABLES[c]}, gives {got!r} where a dictionary gives {want!r}"
        if any(s.in_transaction for s in shared):
            return f"operation {i + 1}, {op} {key!r}, leaves a transaction open"
    for c in real:
        got, want = {k: real[c][k] for k in list(real[c])}, model[c]
        if got != want or len(real[c]) != len(want):
            return f"at the end {TABLES[c]} holds {got!r}, not {want!r}"
    for s in shared:
        s.close()
    if mode == "file":
        s = sqlite3.connect(path)
        for c in real:
            n = s.execute(f"SELECT count(*) FROM {TABLES[c]}").fetchone()[0]
            if n != len(model[c]):
                return f"{n} entries of {TABLES[c]} are on disk, not {len(model[c])}"
        s.close()
    return None


def check(c):
    mode, ops = c
    if mode == "memory":
        return run(mode, ops, None)
    folder = tempfile.mkdtemp(prefix="c19_")
    try:
        return run(mode, ops, str(Path(folder) / "data.db"))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def nontrivial(c):
    return len(c[1]) > len({(o[1], o[2]) for o in c[1] if o[0] == "set"}) > 0 and any(o[0] in ("set", "del") for o in c[1][1:])


def valid(c):
    return (isinstance(c, tuple) and len(c) == 2 and c[0] in MODES and isinstance(c[1], tuple)
            and all(isinstance(o, tuple) and len(o) == 4 and o[0] in OPS and o[1] in range(3) and o[2] in range(len(KEYS)) and o[3] in range(len(VALUES)) for o in c[1]))
