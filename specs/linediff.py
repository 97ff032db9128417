"""Contracts of diff_to_lines.py (C13)."""
from vfw.spec import *
import specs.changesets  # noqa: F401

DI, OI = FAM("ditem"), FAM("oitem")
family("oitem", ctors={"Change": ("OChange", [("a", SEQ(DI)), ("b", SEQ(DI))])}, home={"Change": "types"}, fields={"a": SEQ(DI), "b": SEQ(DI)}, inject={TEXT: ("OText", "get_OText", "is_OText")})
record("acc", cls="DiffAccumulator", module="diff_to_lines", fields={"partial_line_into": SEQ(DI), "partial_line_from": SEQ(DI), "finishable": BOOL, "in_conflict": BOOL})
T = ["py.PyFlat", "py.PyJoin", "codec.Item", "diff.Tree", "diff.Streams", "tokens.Splits", "linediff.Out", "linediff.Lines"]
SELF = REC("acc")
KS = ("texts are str", "kk = KStr")


def st(x):
    return [f"{x}.acc_{f}" for f in ("partial_line_into", "partial_line_from", "finishable", "in_conflict")]


PI, PF, FIN, INC = st("_self")
O = [f"(old {x})" for x in st("_self")]
TIDY = ("the current line", f"tidy {PI} {PF} {FIN} {INC}")
W = [PI, PF, FIN, INC]
NOTHING = [("nothing collected", f"length {PI} = 0 /\\ length {PF} = 0 /\\ {FIN} /\\ not {INC}")]


def sm(name, **kw):
    fn("diff_to_lines", "DiffAccumulator." + name, params={"self": SELF, **kw.pop("params", {})}, theories=T, kind="str", mutates=["self"], writes=kw.pop("writes", W), **kw)


fn("diff_to_lines", "DiffAccumulator.__new__", params={}, ret=SELF, theories=T, kind="str", extern=True, ensures=[f.replace("_self.", "result.") for _, f in NOTHING],
   note="DiffAccumulator(): a new object, initialised by __init__, which is proved against this contract")
sm("__init__", ret=UNIT, ensures=NOTHING)
sm("add_conflict", params={"conflict": DI}, ret=NONE, classes={"Change": "ditem"},
   requires=[("a change", "not (ltext _conflict)"), TIDY],
   ensures=[TIDY, ("in a change", INC), ("both texts are added", f"dnew {PI} = dnew {O[0]} ++ dnew1 _conflict /\\ dold {PF} = dold {O[1]} ++ dold1 _conflict")])
ADDED = [("the text is added on both sides", f"{PI} = snoc {O[0]} (DText _fragment) /\\ {PF} = snoc {O[1]} (DText _fragment)"),
         ("a line is complete if it ends with a newline", f"{FIN} <-> if length _fragment > 0 then al _fragment else {O[2]}")]
sm("add", params={"fragment": TEXT}, ret=NONE, ensures=ADDED, writes=[PI, PF, FIN])
sm("conditional_add", params={"fragment": TEXT}, ret=TEXT, writes=[PI, PF, FIN],
   ensures=[("added where the line is not complete", f"if not {O[2]} && length _0_fragment > 0 then {PI} = snoc {O[0]} (DText _0_fragment) /\\ {PF} = snoc {O[1]} (DText _0_fragment) /\\ ({FIN} <-> al _0_fragment) else {PI} = {O[0]} /\\ {PF} = {O[1]} /\\ {FIN} = {O[2]}".replace("_0_", "_")),
            ("or left over", f"result = if {O[2]} then _fragment else empty")])
sm("is_nonempty", ret=BOOL, writes=[], ensures=[("is there a current line", f"result <-> length {PI} > 0 /\\ length {PF} > 0")])
sm("finish_conflict", params={"fragment": TEXT}, ret=SEQ(OI), classes={"Change": "oitem"},
   requires=[TIDY, ("in a change", INC), ("the text completes the line", f"al _fragment /\\ ({FIN} \\/ length _fragment > 0)")],
   ensures=NOTHING + [("all of the line is written", f"onew result = dnew {O[0]} ++ _fragment /\\ oold result = dold {O[1]} ++ _fragment"), ("whole lines", "oal result")],
   )
FLUSHED = "({0} = {1} \\/ {0} = {1} ++ singleton 10)"
sm("flush", ret=SEQ(OI), requires=[KS, TIDY],
   ensures=[("all of the line is written, with at most one newline added", FLUSHED.format("onew result", f"dnew {O[0]}") + " /\\ " + FLUSHED.format("oold result", f"dold {O[1]}")), ("whole lines", "oal result")])
fn("diff_to_lines", "join_with_newline", params={"lines": SEQ(TEXT)}, ret=TEXT, theories=T, kind="str", requires=[KS],
   ensures=[("every line with its newline", "result = flat (ended _lines)")],
   hints={"start": "if py_len _lines > 0 then ended_join _lines else assert { ended _lines == empty }", "c1.after": "assert { rc1 == itc1 }"})
A = st("_accumulator")
AO = [f"(old {x})" for x in A]
READ = lambda r, x: f"dnew {AO[0]} ++ dnew1 {x} = onew {r} ++ dnew {A[0]} /\\ dold {AO[1]} ++ dold1 {x} = oold {r} ++ dold {A[1]}"
ATIDY = ("the current line", "tidy " + " ".join(A))
fn("diff_to_lines", "handle_fragment", params={"fragment": DI, "accumulator": SELF}, ret=SEQ(OI), theories=T, kind="str", mutates=["accumulator"], writes=A,
   requires=[KS, ATIDY, ("a text only after a change or at the start", f"ltext _fragment -> {A[3]} \\/ length {A[0]} = 0"), ("not empty", "match _fragment with DText t -> length t > 0 | _ -> true end")],
   ensures=[ATIDY, ("a change is open after a change", f"not (ltext _fragment) -> {A[3]}"), ("no token is lost or moved", READ("result", "_fragment")), ("whole lines", "oal result")])
fn("diff_to_lines", "to_line_diff", params={"fragment_sequence": SEQ(DI)}, ret=SEQ(OI), theories=T, kind="str",
   requires=[KS, ("no two texts in a row", "alternating _fragment_sequence")],
   ensures=[("the same two texts, but for a newline at the end", FLUSHED.format("onew result", "dnew _fragment_sequence") + " /\\ " + FLUSHED.format("oold result", "dold _fragment_sequence")), ("whole lines", "oal result")],
   loops={1: Loop(inv=[("the current line", "tidy " + " ".join(A)), ("whole lines so far", "oal __out"),
                       ("no token is lost or moved", f"onew __out ++ dnew {A[0]} = dnew it1[..k1] /\\ oold __out ++ dold {A[1]} = dold it1[..k1]"),
                       ("a change is open after a change", f"if k1 = 0 then length {A[0]} = 0 else not (ltext it1[k1 - 1]) -> {A[3]}")])})
fn("diff_to_lines", "consolidate", params={"stream": SEQ(OI)}, ret=SEQ(OI), theories=T, kind="str", classes={"Change": "oitem"}, locals={"a_fragments": SEQ(DI), "b_fragments": SEQ(DI)},
   ensures=[("the same two texts", "onew result = onew _stream /\\ oold result = oold _stream"), ("whole lines", "oal _stream -> oal result")],
   loops={1: Loop(inv=[("the same two texts so far", "onew __out ++ dnew _a_fragments = onew it1[..k1] /\\ oold __out ++ dold _b_fragments = oold it1[..k1]"),
                       ("whole lines so far", "oal _stream -> oal __out /\\ al (dnew _a_fragments) /\\ al (dold _b_fragments)")])})
fn("diff_to_lines", "consolidated_line_diff", params={"stream": SEQ(DI)}, ret=SEQ(OI), theories=T, kind="str",
   requires=[KS, ("no two texts in a row", "alternating _stream")],
   ensures=[("the same two texts, but for a newline at the end", FLUSHED.format("onew result", "dnew _stream") + " /\\ " + FLUSHED.format("oold result", "dold _stream")), ("whole lines", "oal result")])
