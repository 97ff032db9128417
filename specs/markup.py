"""Contracts of markup.py and merge_tool.py (C14)."""
from vfw.spec import *
import specs.changesets  # noqa: F401

NAME = OPT(TEXT)
family("mark", ctors={}, mapping=NAME)
family("esc", ctors={}, mapping=TEXT)
family("writer", ctors={}, home={"StringIO": "<io>"}, fields={"write": FAM("writer")})
family("marks", ctors={}, auto=False, keys={"prefix": FAM("mark"), "suffix": FAM("mark")})
family("hdr", ctors={}, auto=False, keys={"prefix": OPT(TEXT), "suffix": OPT(TEXT)})
family("style", ctors={}, auto=False, keys={"into": FAM("marks"), "from": FAM("marks"), "separator": TEXT, "header": OPT(FAM("hdr"))})
family("styles", ctors={}, auto=False, keys={"level0": FAM("style"), "level1": FAM("style")})
family("mside", ctors={}, inject={TEXT: ("MText", "get_MText", "is_MText"), SEQ(FAM("ditem")): ("MList", "get_MList", "is_MList")}, truthy="truthy_mside")
family("mitem", ctors={"Change": ("IChange", [("a", FAM("mside")), ("b", FAM("mside"))])}, home={"Change": "types"}, fields={"a": FAM("mside"), "b": FAM("mside")},
       inject={TEXT: ("IText", "get_IText", "is_IText")})
record("opts", cls="Namespace", module="<argparse>", fields={"git_compatible": BOOL, "strikeout": BOOL, "output": OPT(TEXT)})
T = ["py.PyFlat", "diff.Tree", "diff.Streams", "markup.Mark", "markup.Write"]
W = ["wr.out"]
STYLE, WR, ESC = FAM("style"), FAM("writer"), FAM("esc")
KS = ("texts are str", "kk = KStr")


def wrote(term):
    return f"wrote (old wr.out) wr.out _print ({term})"


def inv(term):
    return [("what is written so far", wrote(term)), ("an open writer", "open_ wr.out _print")]


fn("<fn>", "writer", params={"print": WR, "s": TEXT}, ret=UNIT, theories=T, extern=True, writes=["wr.out"], requires=[("an open writer", "open_ wr.out _print")], ensures=[wrote("_s")],
   note="a writer adds the text it is given to its output, and changes no other writer's output")
fn("<fn>", "mark", params={"f": FAM("mark"), "n": NAME}, ret=TEXT, theories=T, extern=True, ensures=["result = mk _f _n"], note="a marker is a function of the branch name")
fn("<fn>", "esc", params={"f": ESC, "t": TEXT}, ret=TEXT, theories=T, extern=True, ensures=["result = es _f _t"], note="an escape is a function of the text")
fn("<ext>", "io.StringIO", vname="ext__StringIO", params={}, ret=WR, theories=T, extern=True, writes=W,
   ensures=["not (open_ (old wr.out) result) /\\ open_ wr.out result /\\ length (outof wr.out result) = 0 /\\ forall v [outof wr.out v | open_ wr.out v]. open_ (old wr.out) v -> open_ wr.out v /\\ outof wr.out v = outof (old wr.out) v"], note="io.StringIO(): a new writer with nothing written")
fn("<io>", "writer.getvalue", vname="io__getvalue", params={"w": WR}, ret=TEXT, theories=T, extern=True, ensures=["result = outof wr.out _w"], note="StringIO.getvalue(): everything written to it")
fn("<ext>", "os.path.basename", vname="ext__basename", params={"p": TEXT}, ret=TEXT, theories=T, extern=True, ensures=["result = basename _p"])

OPEN = ("an open writer", "open_ wr.out _print")
NAMES = {"name_into": NAME, "name_from": NAME}
# The functions are used for streams of texts and changes, and (nested) for streams of texts and changes of texts: one contract for each.
fn("markup", "markup_stream", params={"print": WR, "stream": SEQ(FAM("mitem")), "markup0": STYLE, "markup1": STYLE, **NAMES, "escape": ESC}, ret=NONE, theories=T, kind="str", writes=W, requires=[OPEN],
   ensures=[("every item is shown, in order", wrote("ishown _markup0 _markup1 _name_into _name_from _escape _stream"))],
   loops={1: Loop(inv=inv("ishown _markup0 _markup1 _name_into _name_from _escape it1[..k1]"))})
fn("markup", "markup_stream", key="markup.markup_stream(nested)", params={"print": WR, "stream": SEQ(FAM("ditem")), "markup0": STYLE, "markup1": OPT(STYLE), **NAMES, "escape": ESC}, ret=NONE, theories=T, kind="str",
   vname="markup__nested_stream", writes=W, requires=[OPEN], client={"markup.markup_change_item": "markup.markup_change_item(nested)"},
   ensures=[("every item is shown, in order", wrote("shown _markup0 _name_into _name_from _escape _stream"))],
   loops={1: Loop(inv=inv("shown _markup0 _name_into _name_from _escape it1[..k1]"))})
KEPT = ("no other writer is used", "forall v [outof wr.out v | open_ wr.out v]. open_ (old wr.out) v -> open_ wr.out v /\\ outof wr.out v = outof (old wr.out) v")
fn("markup", "markup_change_item", params={"item": FAM("mside"), "branch_markup": FAM("marks"), "branch_name": NAME, "markup": STYLE, "escape": ESC}, ret=TEXT, theories=T, kind="str", writes=W,
   client={"markup.markup_stream": "markup.markup_stream(nested)"},
   ensures=[("the side between its markers", "result = wrap _branch_markup _branch_name (sideshown _markup _escape _item)"), KEPT])
fn("markup", "markup_change_item", key="markup.markup_change_item(nested)", params={"item": TEXT, "branch_markup": FAM("marks"), "branch_name": NAME, "markup": OPT(STYLE), "escape": ESC}, ret=TEXT, theories=T, kind="str",
   vname="markup__nested_item", writes=W, ensures=[("the text between its markers", "result = wrap _branch_markup _branch_name (es _escape _item)"), KEPT])
fn("markup", "show_header", params={"print": WR, "header": NAME, "markup": STYLE}, ret=NONE, theories=T, kind="str", writes=W, requires=[OPEN], ensures=[("the header", wrote("header _markup _header"))])
fn("markup", "markup_changes", params={"print": WR, "stream": SEQ(FAM("mitem")), "markup0": STYLE, "markup1": STYLE, **NAMES, "header": NAME, "escape": ESC}, ret=NONE, theories=T, kind="str", writes=W, requires=[OPEN],
   ensures=[("the header, and every item in order", wrote("header _markup0 _header ++ ishown _markup0 _markup1 _name_into _name_from _escape _stream"))])
fn("merge_tool", "get_markup_style", params={"arguments": REC("opts"), "allow_strikeout": BOOL}, ret=FAM("styles"), theories=T, kind="str",
   ensures=[("conflict markers of git where asked for", "length result.styles_level0.style_separator > 0 <-> _arguments.opts_git_compatible"), ("nested changes are marked inline", "length result.styles_level1.style_separator = 0")])
fn("merge_tool", "get_markup_function.markup_function", params={"writer": WR, "changeset": SEQ(FAM("mitem")), "branch0": TEXT, "branch1": TEXT, "header": NAME, "markup": FAM("styles"), "escape": ESC}, free=["markup", "escape"],
   ret=NONE, theories=T, kind="str", writes=W, requires=[("an open writer", "open_ wr.out _writer")],
   ensures=[("the changes in the chosen style", "let s = _markup in " + wrote(
       "header s.styles_level0 (if isn _header || length (the _header) = 0 then none else some (es _escape (basename (the _header)))) ++ "
       "ishown s.styles_level0 s.styles_level1 (some (es _escape (basename _branch0))) (some (es _escape (basename _branch1))) _escape _changeset").replace("_print", "_writer"))])
