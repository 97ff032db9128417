import argparse
import contextlib
import importlib
import io
import os
import random
import shutil
import sys
import tempfile
from gaspra.types import Change

RULE = (
    "streams of up to 6 (sometimes 60) texts and changes (sides empty, texts, or streams of texts and changes; brackets, backslashes, emoji codes, newlines), every option combination of "
    "git/output/strikeout, chosen after every history of up to three other choices, written to memory, to a file and to the console (read back without markup), and "
    "gaspra-diff / gaspra-merge run on small files in a scratch folder; non-trivial: a change with a non-empty side"
)
TEXTS = ["", "a", "\n", "a\n", "[red]", "x[", "]", "\\", "\\[b]", "a\\", ":smile:", "[/]", "b c\n", "end", "{}", "%s", "\\\\", "é", "\n\n", "[1]", "word " * 30 + "\n", "a\r\nb", "\r", "日本\n", "t\tb"]
OPTS = [(g, o, s, a) for g in (0, 1) for o in (0, 1) for s in (0, 1) for a in (0, 1)]
NAMES = ["a.txt", "dir/b.txt", "[x].txt", "c", "x\\[red].py"]
FLAGS = [(), ("-g",), ("-s",), ("-g", "-s"), ("-L",), ("-w",), ("-l", "-s"), ("-c", "-g"), ("-l", "-g")]
FILES = [("a\nb\nc\n", "a\nB\nc\n", "a\nb\nc\nd\n"), ("x [red] y\n", "x \\[red] y\n", "x [red]\n"), ("", "a", "b"), ("same", "same", "same"), ("one\ntwo\n", "one\n2\n", "one\nzwei\n"),
         ("caf\udce9 a\n", "caf\udce9 b\n", "caf\udce9 a\nd\n"), ("a\\\nb", "a\\\\\nb", "a\\\nc"), (":smile: a\n", ":smile: b\n", ":tada: a\n")]


def item(rng, nested=True):
    if rng.random() < 0.1:
        u = rng.choice(TEXTS) * rng.choice([9, 40])
        return u if rng.random() < 0.5 else (u, rng.choice(TEXTS) * 11)
    if rng.random() < 0.4:
        return rng.choice(TEXTS)
    sides = []
    for _ in "ab":
        if nested and rng.random() < 0.5:
            sides.append(tuple(item(rng, False) for _ in range(rng.randrange(4))))
        else:
            sides.append(rng.choice(TEXTS))
    return tuple(sides)


def tools(rng):
    for files in (FILES[0], FILES[1], FILES[5]):
        for flags in FLAGS:
            for tool, extra in (("diff", ()), ("merge", ()), ("merge", ("-d",))):
                for to_file in (False, True):
                    yield (tool, files, flags + extra, to_file, ("[x].txt", "dir/b.txt"))
    while True:
        tool = rng.choice(("diff", "merge"))
        files = rng.choice(FILES) if rng.random() < 0.5 else tuple("".join(rng.choice(TEXTS) for _ in range(rng.randrange(5))) for _ in range(3))
        flags = rng.choice(FLAGS) + (("-d",) if tool == "merge" and rng.random() < 0.4 else ())
        yield (tool, files, flags, rng.random() < 0.5, ("[x].txt", "dir/b.txt"))


def pairs(rng):
    for t in TEXTS:
        for kind in ("console", "memory", "file"):
            yield (kind, (t, (t, t), ((t, (t, t)), t)), (0, 0, 0, 1), (), ("a.txt", "b.txt"))
    table = [(k, t, u) for t in TEXTS for k in ("console", "memory", "file") for u in TEXTS]
    rng.shuffle(table)
    for kind, t, u in table:
        yield (kind, (t, (u, t), ((t, (u, t)), "z")), (0, 0, 1, 1), (), ("a.txt", "b.txt"))


def streams(rng):
    for opt in OPTS:
        for kind in ("console", "file"):
            yield (kind, ("x", ("a", "b"), (("p", ("q", "r")), (("s", ""), "t"))), opt, (), ("a.txt", "b.txt"))
    histories = [(o, h) for o in OPTS for h in [()] + [(p,) for p in OPTS]]
    rng.shuffle(histories)
    for opt, before in histories:
        yield ("memory", ("x", ("a", "b"), (("p", ("q", "r")), (("s", ""), "t")), ("", "n"), ("m", "")), opt, before, ("a.txt", "b.txt"))
        items = tuple(item(rng) for _ in range(rng.randrange(7) if rng.random() < 0.9 else rng.randrange(30, 60)))
        kind = rng.choice(("memory", "memory", "console", "file"))
        yield (kind, items, rng.choice(OPTS), tuple(rng.choice(OPTS) for _ in range(rng.randrange(4))), (rng.choice(NAMES), rng.choice(NAMES)))
    while True:
        items = tuple(item(rng) for _ in range(rng.randrange(7) if rng.random() < 0.9 else rng.randrange(30, 60)))
        kind = rng.choice(("memory", "memory", "console", "file"))
        yield (kind, items, rng.choice(OPTS), tuple(rng.choice(OPTS) for _ in range(rng.randrange(4))), (rng.choice(NAMES), rng.choice(NAMES)))


def cases(rng, hard):
    sources = [streams(rng), tools(rng), streams(rng), pairs(rng)]
    while True:
        for g in sources:
            c = next(g, None)
            if c is not None:
                yield c


def fresh():
    """markup and merge_tool as they are when first imported"""
    saved = {m: sys.modules.pop(m) for m in ("gaspra.markup", "gaspra.merge_tool") if m in sys.modules}
    try:
        return importlib.import_module("gaspra.markup"), importlib.import_module("gaspra.merge_tool")
    finally:
        sys.modules.update(saved)


def build(x):
    return Change(*(s if isinstance(s, str) else [build(y) for y in s] for s in x)) if isinstance(x, tuple) else x


def arguments(opt):
    return argparse.Namespace(git_compatible=bool(opt[0]), output="out" if opt[1] else None, strikeout=bool(opt[2]), show_lines=False)


def shown(items, s0, s1, n, f, esc):
    """what is written, as the parts between which a line is never broken"""
    out = []
    for x in items:
        if isinstance(x, str):
            out.append(esc(x))
            continue
        for i, (side, mark, name) in enumerate(((x[0], s0["into"], n), (x[1], s0["from"], f))):
            if side:
                body = esc(side) if isinstance(side, str) else "".join(shown(side, s1, None, None, None, esc))
                out.append(mark["prefix"](name) + body + mark["suffix"](name))
            if i == 0:
                out.append(s0["separator"])
    return out


def plain(items, s0, n, f):
    """what the console shows: the texts and, for git, the markers"""
    return "".join(shown(items, s0, {"into": EMPTY, "from": EMPTY, "separator": ""}, n, f, lambda t: t))


EMPTY = {"prefix": lambda _: "", "suffix": lambda _: ""}
GIT = {"into": {"prefix": lambda s: f"<<<<<<< {s}\n", "suffix": lambda _: ""}, "from": {"prefix": lambda _: "", "suffix": lambda s: f">>>>>>> {s}\n"}, "separator": "=======\n"}
BARE = {"into": EMPTY, "from": EMPTY, "separator": ""}


def usable(style, opt):
    for level in ("level0", "level1"):
        s = style[level]
        for side in ("into", "from"):
            for part in ("prefix", "suffix"):
                m = s[side][part]
                if not callable(m):
                    return f"{level} {side} {part} is {m!r}, which cannot be called with a branch name"
                if not isinstance(m("nm"), str):
                    return f"{level} {side} {part} gives {m('nm')!r}"
        if not isinstance(s["separator"], str):
            return f"{level} separator is {s['separator']!r}"
    if opt[0]:
        got = "".join(shown([("a", "b")], style["level0"], None, "N", "F", str))
        if got != "<<<<<<< N\na=======\nb>>>>>>> F\n":
            return f"the git style shows a change as {got!r}"
    return None


def capture(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return out.getvalue()


def seen(text):
    """a file that is not UTF-8 is read as Latin-1"""
    raw = text.encode("utf-8", "surrogateescape")
    try:
        return raw.decode("utf-8")
    except UnicodeDecodeError:
        return raw.decode("iso-8859-1")


def run_tool(c):
    tool, files, flags, to_file, names = c
    d = tempfile.mkdtemp(prefix="c14_")
    try:
        os.mkdir(os.path.join(d, "dir"))
        paths = []
        for nm, text in zip(("parent.txt",) + names, files):
            p = os.path.join(d, nm)
            with open(p, "wb") as fh:
                fh.write(text.encode("utf-8", "surrogateescape"))
            paths.append(p)
        mark, mt = fresh()
        out = os.path.join(d, "out")
        argv = ["gaspra", *flags] + (["-o", out] if to_file else [])
        argv += paths[:2] if tool == "diff" else [paths[0], paths[2], paths[1]]
        saved = sys.argv
        sys.argv = argv
        try:
            got = capture(mt.diff_cli if tool == "diff" else mt.merge_cli)
        finally:
            sys.argv = saved
        if to_file:
            with open(out, encoding="utf-8", newline="") as fh:
                got = fh.read()
        # the streams shown, from the same library functions
        opt = (int("-g" in flags), int(to_file), int("-s" in flags), 1)
        args = argparse.Namespace(words="-w" in flags, lines="-l" in flags)
        texts = [seen(t).replace("\r\n", "\n").replace("\r", "\n") for t in files]
        lines = "-g" in flags or "-L" in flags
        from gaspra.changesets import diff_token_sequences
        from gaspra.diff_to_lines import consolidated_line_diff
        from gaspra.merge import merge_token_sequence
        from gaspra.tokenizers import decode_changes
        shape = lambda ch: [x if isinstance(x, str) else (x.a, x.b) for x in (consolidated_line_diff(ch) if lines else ch)]
        nest = lambda items: [x if isinstance(x, str) else tuple(s if isinstance(s, str) else tuple(y if isinstance(y, str) else (y.a, y.b) for y in s) for s in x) for x in items]
        tk = mt.make_tokenizer(args)
        base = os.path.basename
        parts = []
        if tool == "diff":
            a, b = tk.encode(texts[0]), tk.encode(texts[1])
            parts.append((nest(shape(decode_changes(diff_token_sequences(a, b), tk))), base(names[0]), "parent.txt", None, 1))
        else:
            enc = [tk.encode(texts[i]) for i in (0, 1, 2)]
            if "-d" in flags:
                for i in (1, 2):
                    parts.append((nest(shape(decode_changes(diff_token_sequences(enc[0], enc[i]), tk))), base(names[i - 1]), "parent.txt", base(names[i - 1]), 1))
            parts.append((nest(shape(decode_changes(merge_token_sequence(*enc), tk))), base(names[0]), base(names[1]), "Merged" if "-d" in flags else None, 0))
        want = ""
        for items, n, f, header, allow in parts:
            style = fresh()[1].get_markup_style(arguments(opt), bool(allow))
            bad = usable(style, opt)
            if bad:
                return f"options {flags}: {bad}"
            if header:
                h = style["level0"].get("header", {})
                want += ("\n" + h.get("prefix", "") + header + h.get("suffix", "")) if to_file else ("\n" + ("<<<" + header + ">>>\n" if h else header))
            want += "".join(shown(items, style["level0"], style["level1"], n, f, str)) if to_file else plain(items, GIT if opt[0] else BARE, n, f)
        if to_file or not any(ch in want for ch in "\t\r\x0b\x0c\x07\x08"):
            if got != want:
                return f"gaspra-{tool} {' '.join(flags)} {'-o FILE ' if to_file else ''}writes {got!r}, not {want!r}"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(c):
    if c[0] in ("diff", "merge"):
        return run_tool(c)
    kind, items, opt, before, names = c
    mark, mt = fresh()
    for o in before:
        mt.get_markup_style(arguments(o), bool(o[3]))
    esc = mark.rich_escape if kind == "console" else (lambda t: t)
    style = fresh()[1].get_markup_style(arguments(opt), bool(opt[3]))
    bad = usable(style, opt)
    if bad:
        return f"options (git, output, strikeout, allowed) = {opt}: {bad}"
    stream = [build(x) for x in items]
    n, f = (os.path.basename(x) for x in names)
    if kind == "memory":
        esc = lambda t: t.replace("a", "<a>")
        parts = []
        mt.get_markup_function(arguments(opt), esc, bool(opt[3]))(parts.append, stream, *names)
        got, want = "".join(parts), "".join(shown(items, style["level0"], style["level1"], esc(n), esc(f), esc))
        if got != want:
            return f"with options {opt} chosen after {list(before)} the output is {got!r}, not {want!r}"
        parts = []
        mark.markup_changes(parts.append, stream, style["level0"], style["level1"], "N", "F", None, esc)
        got, want = "".join(parts), "".join(shown(items, style["level0"], style["level1"], "N", "F", esc))
        if got != want:
            return f"markup_changes writes {got!r}, not {want!r}"
        return None
    if kind == "console":
        def go():
            with mark.console_writer() as (w, e):
                mt.get_markup_function(arguments(opt), e, bool(opt[3]))(w, stream, *names)
        if opt[1]:
            return None  # a style for files
        want = plain(items, GIT if opt[0] else BARE, n, f)
        if any(ch in want for ch in "\t\r\x0b\x0c\x07\x08"):
            return None
        got = capture(go)
        return None if got == want else f"with options {opt} the console shows {got!r}, not {want!r}"
    d = tempfile.mkdtemp(prefix="c14_")
    try:
        p = os.path.join(d, "out")
        with mark.file_writer(p) as (w, e):
            mt.get_markup_function(arguments(opt), e, bool(opt[3]))(w, stream, *names)
        with open(p, encoding="utf-8", newline="") as fh:
            got = fh.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    want = "".join(shown(items, style["level0"], style["level1"], n, f, lambda t: t))
    return None if got == want else f"with options {opt} the file holds {got!r}, not {want!r}"


def nontrivial(c):
    return c[0] in ("diff", "merge") or any(isinstance(x, tuple) and (x[0] or x[1]) for x in c[1])


def ok(x, nested=True):
    if isinstance(x, str):
        return True
    if not (isinstance(x, tuple) and len(x) == 2):
        return False
    return all(isinstance(s, str) or nested and isinstance(s, tuple) and all(ok(y, False) for y in s) for s in x)


def valid(c):
    if not (isinstance(c, tuple) and len(c) == 5):
        return False
    if c[0] in ("diff", "merge"):
        return (isinstance(c[1], tuple) and len(c[1]) == 3 and all(isinstance(t, str) for t in c[1]) and c[4] == ("[x].txt", "dir/b.txt")
                and c[2] in FLAGS + [f + ("-d",) for f in FLAGS] and (c[0] == "merge" or "-d" not in c[2]))
    return c[0] in ("memory", "console", "file") and isinstance(c[1], tuple) and all(ok(x) for x in c[1]) and c[2] in OPTS and all(o in OPTS for o in c[3]) and len(c[4]) == 2 and all(
        x in NAMES + ["b.txt"] for x in c[4])
