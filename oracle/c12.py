import itertools
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer

RULE = (
    "one tokenizer of each class given up to four texts (str, UTF-8 bytes; arbitrary bytes where it takes them), all texts of up to three letters of a small alphabet first, then random ones "
    "to length 40 and some with 700 different pieces: all decodings, token equality against piece equality, every contiguous run re-encoded; non-trivial: at least two texts with a piece in common"
)
TOK = {"null": NullTokenizer, "char": CharTokenizer, "line": LineTokenizer, "symbol": SymbolTokenizer}
ALPHA = "ab1_$- \n"
WIDE = ALPHA + "\r\t\x0b\x0c\x1c\x85\u2028\u00e9e\u0301\u212b\ufeff\u6f22\U0001f600\x00AB.+(\u0663\ufffd"
RAW = bytes([0, 9, 10, 10, 13, 65, 97, 97, 98, 0x80, 0xC3, 0xA9, 0xEF, 0xBB, 0xBF, 0xFF, 32, 0x85])


def texts(rng, hard):
    for n in (1, 2, 3):
        for w in itertools.product("a-\n ", repeat=n):
            yield ["".join(w)]
    while True:
        out = []
        alpha = rng.choice([ALPHA, WIDE, "a\n", "ab \n"])
        pool = ["".join(rng.choice(alpha) for _ in range(rng.randrange(6))) for _ in range(4)]
        for _ in range(rng.randrange(1, 5)):
            s = ""
            for _ in range(rng.randrange(8)):
                s += rng.choice(pool) if rng.random() < 0.6 else rng.choice(alpha)
                if rng.random() < 0.2:
                    s += "\n"
            out.append(s[:40])
        yield out


def cases(rng, hard):
    for t in TOK:
        yield (t, "str", ("a\n", "", "b\na\n\n", "a"))
        yield (t, "bytes", ("a\n", "", "b\na\n\n", "a"))
        yield (t, "bytes", ("\ufeffa\u00e9\n", "\ufeff"))
    many = "".join(chr(0x4E00 + i) + "\n" for i in range(700))
    for t in TOK:
        yield (t, "str", (many, many[7::3], "a\n" + many[:900]))
        yield (t, "bytes", (many, many[600:], "a\n" + many[:900]))
    for ts in texts(rng, hard):
        for t in TOK:
            yield (t, rng.choice(["str", "bytes"]), tuple(ts))
        if rng.random() < 0.2:
            yield (rng.choice(["null", "line"]), "raw", tuple(bytes(rng.choice(RAW) for _ in range(rng.randrange(20))).decode("latin-1") for _ in ts))


def check(c):
    name, kind, ts = c
    tk = TOK[name]()
    ins = [s if kind == "str" else s.encode("utf-8" if kind == "bytes" else "latin-1") for s in ts]
    want = str if kind == "str" else bytes
    encs = []
    for s in ins:
        e = tk.encode(s)
        encs.append(e)
        back = tk.decode(e)
        if type(back) is not want or back != s:
            return f"{name}: decode(encode({s!r})) = {back!r}"
    one = lambda e, i: tk.decode(e[i : i + 1])
    pieces = []
    for s, e in zip(ins, encs):
        back = tk.decode(e)
        if back != s:
            return f"{name}: after encoding {ins!r}, the encoding of {s!r} decodes to {back!r}"
        p = [one(e, i) for i in range(len(e))]
        if any(type(x) is not want for x in p) or want().join(p) != s:
            return f"{name}: tokens of {s!r} decode one by one to {p!r}"
        pieces.append(p)
    allt = [(t, p) for e, ps in zip(encs, pieces) for t, p in zip(e, ps)]
    far = allt[:: len(allt) // 60 + 1]
    for (t, p), (u, q) in itertools.chain(itertools.combinations(allt[:60], 2), itertools.combinations(far, 2) if len(allt) > 60 else ()):
        if (t == u) != (p == q):
            return f"{name}: tokens {t!r} and {u!r} of {ins!r} stand for {p!r} and {q!r}"
    flat = [t for e in encs for t in e]
    if name != "null":
        mixed = tuple(reversed(flat))
        if tk.decode(mixed) != want().join(p for _, p in reversed(allt)):
            return f"{name}: tokens {mixed!r} do not decode piece by piece after {ins!r}"
    for s, e, ps in zip(ins, encs, pieces):
        n = len(e)
        runs = [(i, j) for i in range(n + 1) for j in range(i, n + 1)] if n <= 8 else [(i, j) for i in (0, 1, n // 2, n - 1) for j in (i, i + 1, (i + n) // 2, n) if i <= j]
        for i, j in runs:
            text = tk.decode(e[i:j])
            again = tk.encode(text)
            ps2 = [one(again, k) for k in range(len(again))]
            if ps2 != ps[i:j] or tuple(again) != tuple(e[i:j]):
                return f"{name}: run {i}:{j} of the tokens of {s!r} is {ps[i:j]!r} but encodes again to {ps2!r}"
    return None


def nontrivial(c):
    ts = [t for t in c[2] if t]
    return len(ts) > 1 and any(set(a) & set(b) for a, b in itertools.combinations(ts, 2))


def valid(c):
    if not (isinstance(c, tuple) and len(c) == 3 and c[0] in TOK and c[1] in ("str", "bytes", "raw") and isinstance(c[2], tuple) and all(isinstance(s, str) for s in c[2])):
        return False
    return c[1] != "raw" or c[0] in ("null", "line")
