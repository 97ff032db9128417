"""Types of the extraction (Python values as WhyML values)."""

INT = ("int",)
BOOL = ("bool",)
TOK = ("tok",)
NONE = ("none",)
BOT = ("bot",)
UNIT = ("unit",)
SLICE = ("fam", "slice")
KIND = ("kind",)


def SEQ(t):
    return ("seq", t)


TEXT = SEQ(TOK)


def OPT(t):
    return t if t[0] == "opt" else ("opt", t)


def TUP(*ts):
    return ("tup", tuple(ts))


def DICT(k, v):
    return ("dict", k, v)


def SET(t):
    return ("set", t)


def FAM(n):
    return ("fam", n)


def REC(n):
    return ("rec", n)


def OBJ(n):
    return ("obj", n)


def FN(name):
    return ("fn", name)


def GEN(name):
    """a suspended generator; next() goes through the contract <gen>.name.next"""
    return ("gen", name)


def FRAC(den):
    return ("frac", den)


def why(t):
    k = t[0]
    if k in ("int", "tok"):
        return "int"
    if k == "bool":
        return "bool"
    if k == "kind":
        return "kind"
    if k == "unit":
        return "unit"
    if k == "none":
        return "unit"
    if k == "seq":
        return f"(seq {why(t[1])})"
    if k == "opt":
        return f"(opt {why(t[1])})"
    if k == "tup":
        return "(" + ", ".join(why(x) for x in t[1]) + ")"
    if k == "dict":
        return f"(dict {why(t[1])} {why(t[2])})"
    if k == "set":
        return f"(pset {why(t[1])})"
    if k in ("fam", "rec"):
        return t[1]
    if k == "obj":
        return "int"
    if k == "rmatch":
        return "(seq int)"
    if k in ("fn", "gen", "sqlfac", "sqlcon"):
        return "unit"
    if k == "sqltext":
        return "int"
    if k == "sqlcur":
        return {"one": "(opt int)", "ints": "(opt int)", "all": "(seq int)", "changed": "int", "nothing": "unit"}[t[1]]
    raise TypeError(f"no WhyML type for {t}")


class Unsupported(Exception):
    pass


def ground(t):
    if t[0] in ("bot", "none", "frac"):
        return False
    return all(ground(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) and (
        t[0] != "tup" or all(ground(x) for x in t[1])
    )


def join(a, b, families=None):
    if a == b:
        return a
    if a == BOT:
        return b
    if b == BOT:
        return a
    if a == NONE:
        return b if b[0] == "opt" else OPT(b)
    if b == NONE:
        return a if a[0] == "opt" else OPT(a)
    if a[0] == "opt" or b[0] == "opt":
        return OPT(join(a[1] if a[0] == "opt" else a, b[1] if b[0] == "opt" else b, families))
    if {a, b} == {INT, TOK}:
        return TOK
    if {a, b} == {INT, BOOL}:
        return INT
    if a[0] == b[0] == "seq":
        return SEQ(join(a[1], b[1], families))
    if a[0] == b[0] == "set":
        return SET(join(a[1], b[1], families))
    if a[0] == b[0] == "dict":
        return DICT(join(a[1], b[1], families), join(a[2], b[2], families))
    if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
        return TUP(*(join(x, y, families) for x, y in zip(a[1], b[1])))
    # a member type and its family
    for fam in (families or {}).values():
        inj = [t for t in fam.inject]
        ft = FAM(fam.name)
        def member(t):
            return t == ft or any(compatible(t, m) for m in inj)
        if fam.auto and member(a) and member(b):
            return ft
    raise Unsupported(f"values of types {show(a)} and {show(b)} in one variable")


def compatible(t, m):
    """t can be used where m is expected without a check"""
    try:
        return join(t, m) == m
    except Unsupported:
        return False


def show(t):
    try:
        return why(t)
    except TypeError:
        return str(t)
