from gaspra.serialize import vserialize_int, vdeserialize_int

RULE = "integers around every boundary of the format, then random widths; non-trivial: value > 240 or out of range"
B = [0, 240, 241, 2287, 2288, 67823, 67824] + [2**k for k in range(7, 66)] + [2**(8 * i) - 1 for i in range(1, 9)]
TAILS = [b"", b"\x00", b"\xff\xfe", bytes(range(240, 256)), bytes(range(256)) * 20]


def cases(rng, hard):
    for v in range(0, 3000):
        yield v
    for b in B:
        for d in range(-3, 4):
            yield b + d
    for v in range(-20, 0):
        yield v
    for v in range(3000, 80000, 1 if hard else 37):
        yield v
    while True:
        yield rng.getrandbits(rng.randrange(1, 67)) * (1 if rng.random() < 0.97 else -1)


def check(v):
    try:
        e = vserialize_int(v)
    except Exception as x:
        return None if not 0 <= v < 2**64 else f"{v} refused: {type(x).__name__}"
    if not 0 <= v < 2**64:
        return f"{v} is out of range but encoded as {e!r}"
    if type(e) is not bytes:
        return "encoding is not bytes"
    for t in TAILS:
        r = vdeserialize_int(e + t)
        if r != (v, t):
            return f"decoding the encoding of {v} followed by {t!r} gives {r!r}"
    for i in range(len(e)):
        try:
            r = vdeserialize_int(e[:i])
        except Exception:
            continue
        return f"proper prefix {e[:i]!r} of the encoding of {v} decodes to {r!r}"
    return None


def nontrivial(v):
    return not 0 <= v <= 240
