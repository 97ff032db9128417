"""Contracts of merge.py and common.py (C06, C07)."""
from vfw.spec import *
import specs.changesets  # noqa: F401

JOINER = FN("joiner")
J = ["py.PyJoin", "py.PyFlat"]
fn("<fn>", "joiner", params={"g": SEQ(TEXT)}, ret=TEXT, theories=J, ensures=[("all pieces joined", "result = flat _g")],
   impl={"common.string_joiner": "kk = KStr", "common.bytes_joiner": "kk = KBytes", "common.tuple_joiner": "kk = KTuple"}, extern=True,
   note="a function value made by get_joiner: one of the three joiners, each proved against this contract for the kind it is chosen for")
for n, k in (("string", "KStr"), ("bytes", "KBytes"), ("tuple", "KTuple")):
    fn("common", f"{n}_joiner", params={"g": SEQ(TEXT)}, ret=TEXT, theories=J, requires=[("chosen for its kind", f"kk = {k}")],
       ensures=[("all pieces joined", "result = flat _g")])
fn("common", "get_joiner", params={"empty": TEXT}, ret=JOINER, theories=J, locals={"joiner": JOINER})
fn("common", "common_prefix_length", params={"a": TEXT, "b": TEXT}, ret=INT, theories=[],
   ensures=[("in range", "0 <= result <= length _a /\\ result <= length _b"), ("common", "forall i. 0 <= i < result -> _a[i] = _b[i]"), ("all common", "result = length _a -> result = length _b -> _a = _b"),
            ("longest", "result < length _a -> result < length _b -> _a[result] <> _b[result]")],
   hints={"end": "assert { result_ = length _a -> result_ = length _b -> _a == _b }"},
   loops={1: Loop(inv=[("equal so far", "forall i. 0 <= i < k1 -> _a[i] = _b[i]")])})

T = ["py.PyFlat", "py.PyRev", "codec.Item", "diff.Tree", "diff.Streams", "merge.FragOps"]
S = T + ["merge.Shows"]
F = FAM("frag")
OF = OPT(F)

fn("merge", "split_copy_fragment", params={"fragment": F, "length": INT}, ret=TUP(OF, OF), theories=T,
   requires=[("a copy", "wff _fragment /\\ copies _fragment"), ("inside", "0 <= _length <= flen _fragment")],
   ensures=[("head", "let (h, t) = result in if _length = 0 then isn h else h = some (FCopy (fnew1 _fragment)[.._length] _length)"),
            ("tail", "let (h, t) = result in if _length = flen _fragment then isn t else t = some (FCopy (fnew1 _fragment)[_length..] (flen _fragment - _length))")])
fn("merge", "split_change_fragment", params={"fragment": F, "insert_length": INT, "length": INT}, ret=TUP(OF, OF), theories=T,
   requires=[("a change", "wff _fragment /\\ changes _fragment"), ("inside", "0 <= _length <= flen _fragment /\\ 0 <= _insert_length <= length (fnew1 _fragment)")],
   ensures=[("head", "let (h, t) = result in if _length = 0 && _insert_length = 0 then isn h else h = some (FChange (fnew1 _fragment)[.._insert_length] (fold1 _fragment)[.._length] _length)"),
            ("tail", "let (h, t) = result in if _length = flen _fragment && _insert_length = length (fnew1 _fragment) then isn t "
                     "else t = some (FChange (fnew1 _fragment)[_insert_length..] (fold1 _fragment)[_length..] (flen _fragment - _length))")])
fn("merge", "split_fragment", params={"fragment": F, "length": INT}, ret=TUP(OF, OF), theories=T,
   requires=[("a fragment", "wff _fragment"), ("inside", "0 <= _length <= flen _fragment")],
   ensures=[("head", "let (h, t) = result in owf h /\\ (isn h -> _length = 0 /\\ (copies _fragment \\/ length (fnew1 _fragment) = 0)) /\\ oold h = (fold1 _fragment)[.._length] /\\ onew h = (if copies _fragment then (fnew1 _fragment)[.._length] else fnew1 _fragment)"),
            ("tail", "let (h, t) = result in owf t /\\ oold t = (fold1 _fragment)[_length..] /\\ onew t = (if copies _fragment then (fnew1 _fragment)[_length..] else empty)"),
            ("of the same kind", "let (h, t) = result in isn t \\/ (copies (the t) <-> copies _fragment)")])

WF = [("well formed fragments of the same part of the parent", "wff _fragment0 /\\ wff _fragment1 /\\ same _fragment0 _fragment1")]
def stp(pat):
    return ("the output shows what is consumed", f"let {pat} = result in stepped _fragment0 _fragment1 o t0 t1")
PAIR = {"fragment0": F, "fragment1": F}
def consumed(n, i="py_len (get_frag_insert _fragment0)", j="py_len (get_frag_insert _fragment1)", pat="(o', t0', t1')"):
    return f"let {pat} = result_ in stepping _fragment0 _fragment1 o' t0' t1' ({n}) ({i}) ({j})"

fn("merge", "pending_conflict", params=PAIR, ret=TUP(OF, OF, OF), theories=S, requires=WF, ensures=[stp("(o, t0, t1)")],
   hints={"end": "let (o', t0', t1') = result_ in stepping _fragment0 _fragment1 o' t0' t1' (pure { length (fold1 _fragment0) - length (oold t0') }) "
                 "(pure { length (fnew1 _fragment0) - length (onew t0') }) (pure { length (fnew1 _fragment1) - length (onew t1') })"})
fn("merge", "copy_copy", params=PAIR, ret=TUP(OF, OF, OF), theories=S,
   requires=WF + [("two copies", "copies _fragment0 /\\ copies _fragment1")], ensures=[stp("(o, t0, t1)")],
   hints={"end": "let (o', t0', t1') = result_ in stepping _fragment0 _fragment1 o' t0' t1' (pure { length (fold1 _fragment0) - length (oold t0') }) "
                 "(pure { length (fnew1 _fragment0) - length (onew t0') }) (pure { length (fnew1 _fragment1) - length (onew t1') })"})
fn("merge", "copy_change", params={"copy_fragment": F, "change_fragment": F}, ret=TUP(OF, OF, OF), theories=S,
   requires=[("a copy and a change of the same part", "wff _copy_fragment /\\ wff _change_fragment /\\ copies _copy_fragment /\\ changes _change_fragment /\\ same _change_fragment _copy_fragment")],
   ensures=[("the output shows what is consumed, the change first", "let (o, t0, t1) = result in stepped _change_fragment _copy_fragment o t1 t0")],
   hints={"end": "let (o', t0', t1') = result_ in stepping _change_fragment _copy_fragment o' t1' t0' (pure { length (fold1 _copy_fragment) - length (oold t0') }) "
                 "(pure { length (fnew1 _change_fragment) - length (onew t1') }) (pure { length (fnew1 _copy_fragment) - length (onew t0') })"})
fn("merge", "change_change", params=PAIR, ret=TUP(OF, OF, OF, BOOL), theories=S,
   requires=WF + [("two changes", "changes _fragment0 /\\ changes _fragment1")], ensures=[stp("(o, t0, t1, _)")],
   hints={"end": "let (o', t0', t1', _) = result_ in stepping _fragment0 _fragment1 o' t0' t1' (pure { length (fold1 _fragment0) - length (oold t0') }) "
                 "(pure { length (fnew1 _fragment0) - length (onew t0') }) (pure { length (fnew1 _fragment1) - length (onew t1') })"})
fn("merge", "process_fragments", params={**PAIR, "within_conflict": BOOL}, ret=TUP(OF, OF, OF, BOOL), theories=S, requires=WF, ensures=[stp("(o, t0, t1, _)")],
   hints={"end": "let (o', t0', t1', _) = result_ in let lemma turned (o: opt frag) requires { stepped _fragment1 _fragment0 o t1' t0' /\\ flips o o' } "
                 "ensures { stepped _fragment0 _fragment1 o' t0' t1' } = swapped _fragment1 _fragment0 o o' t1' t0' in ()"})
fn("merge", "flush_remaining", params={"fragments0": SEQ(F), "fragments1": SEQ(F), "within_conflict": BOOL}, ret=SEQ(F), theories=S,
   requires=[("one stack is left", "length _fragments0 = 0 \\/ length _fragments1 = 0"),
             ("only insertions are left", "wfs _fragments0 /\\ wfs _fragments1 /\\ fold (rev _fragments0) = empty /\\ fold (rev _fragments1) = empty")],
   ensures=[("the insertions", "good result empty (fnew (rev _fragments0)) (fnew (rev _fragments1))")],
   loops={1: Loop(inv=[("so far", "good __out empty (text0 (length _fragments0 > 0) (fnew it1[..k1])) (text1 (length _fragments0 > 0) (fnew it1[..k1]))")])},
   hints={"loop1.start": "no_old it1 k1", "loop1.end": "assert { (fnew1 it1[k1])[0..0] = empty }; assert { length _fragments0 > 0 -> it1 = rev _fragments0 } ; assert { length _fragments0 = 0 -> it1 = rev _fragments1 }; flushed (pure { __out[..length __out - 1] }) (pure { __out[length __out - 1] }) (pure { it1[k1] }) (pure { text0 (length _fragments0 > 0) (fnew it1[..k1])}) (pure { text1 (length _fragments0 > 0) (fnew it1[..k1])}) (py_len _fragments0 > 0)"})
fn("merge", "_merge", params={"fragments0": SEQ(F), "fragments1": SEQ(F)}, ret=SEQ(F), theories=S, mutates=["fragments0", "fragments1"],
   requires=[("two edit scripts of one parent", "wfs _fragments0 /\\ wfs _fragments1 /\\ fold (rev _fragments0) = fold (rev _fragments1)")],
   ensures=[("the output shows parent and branches", "good result (fold (rev (old _fragments0))) (fnew (rev (old _fragments0))) (fnew (rev (old _fragments1)))")],
   ghosts={"g_p": (TEXT, "pure { fold (rev _fragments0) }"), "g_a": (TEXT, "pure { fnew (rev _fragments0) }"), "g_b": (TEXT, "pure { fnew (rev _fragments1) }")},
   loops={1: Loop(inv=[("the fragments left are well formed", "wfs _fragments0 /\\ wfs _fragments1"),
                       ("out so far and what is left", "mstate __out _fragments0 _fragments1 g_p g_a g_b")],
                  var="left _fragments0 + left _fragments1")},
   hints={"loop1.start": "heads __out _fragments0 _fragments1 g_p g_a g_b",
          "process_fragments#1.after": "advance __out _fragments0 _fragments1 g_p g_a g_b _fragment0 _fragment1 _output _tail0 _tail1",
          "loop1.after": "let lemma fin (rest: seq frag) requires { good rest empty (fnew (rev _fragments0)) (fnew (rev _fragments1)) /\\ fold (rev _fragments0) = empty } "
                         "ensures { good (__out ++ rest) g_p g_a g_b } "
                         "= finished __out rest _fragments0 _fragments1 g_p g_a g_b in "
                         "assert { fold (rev _fragments0) = fold (rev _fragments1) }"})

G = S + ["auto.Com", "auto.Lcs", "diff.Diff", "merge.Mark", "merge.Marks", "merge.Groups"]
DIT = {"Change": "ditem"}
def passes(st):
    """Both passes take runs from a stack: g_k items of the input are consumed, the current run starts at g_m."""
    left = ("left", f"0 <= g_m <= g_k /\\ g_k + length _{st} = length _0_{st} /\\ rev _{st} = _0_{st}[g_k..length _0_{st}]")
    def run(g, what):
        return ("run", f"_{g} = _0_{st}[g_m..g_k] /\\ {what} _{g}")
    top = ("progress", f"g_k > g_n \\/ g_k = g_n /\\ not (conflicts _{st}[length _{st} - 1])")
    init = f"assert {{ length _{st} = length _0_{st} }} ; assert {{ rev _{st} == _0_{st}[0..length _0_{st}] }}"
    return left, run, top, init, f"popping _0_{st} _{st} g_k"

SIDES = ("assert { forall r [flat r]. sides1 _conflict_group r -> flat r = fv1 _conflict_group } ; "
         "assert { forall r [flat r]. sides2 _conflict_group r -> flat r = fv2 _conflict_group }")
GH = {"g_n": (INT, "0"), "g_k": (INT, "0"), "g_m": (INT, "0")}
NEXT = "g_k <- g_k + 1"
left, run, top, init, pop = passes("input_stack")
fn("merge", "consolidate_conflicts", params={"input_stack": SEQ(F), "empty": TEXT}, ret=SEQ(F), theories=G, locals={"conflict_group": SEQ(F)}, ghosts=GH,
   ensures=[("what the input shows the output shows", "refines _input_stack result")],
   loops={1: Loop(inv=[left, ("so far", "partly _0_input_stack[..g_k] __out empty empty")], var="length _input_stack"),
          2: Loop(inv=[left, run("conflict_group", "confl"), ("start", "g_m = g_n")], var="length _input_stack"),
          3: Loop(inv=[("so far", "partly _0_input_stack[..g_m] __out (fnew it3[..k3]) (fold it3[..k3])")]),
          4: Loop(inv=[left, ("so far", "partly _0_input_stack[..g_k] __out empty empty"), top], var="length _input_stack")},
   hints={"loop1.before": "partly_none () ; " + init, "loop1.start": "g_n <- g_k ; g_m <- g_k",
          "loop2.start": pop + " ; growing _0_input_stack _conflict_group g_m g_k", "loop2.end": NEXT,
          "loop4.start": pop + " ; partly_same (pure { _0_input_stack[..g_k] }) __out (pure { _0_input_stack[g_k] }) ; front _0_input_stack g_k",
          "loop4.end": NEXT,
          "loop2.after": SIDES,
          "joiner#1.after": "assert { _version1 = fv1 _conflict_group }",
          "joiner#2.after": "assert { _version2 = fv2 _conflict_group } ; let lemma mf (t: cs) requires { made _version2 _version1 t } "
                            "ensures { wfs (fstream _version2 t) /\\ fnew (fstream _version2 t) = _version1 /\\ fold (fstream _version2 t) = _version2 } = made_frags _version2 _version1 t in ()",
          "loop3.end": "partly_piece (pure { _0_input_stack[..g_m] }) (pure { __out[..length __out - 1] }) (pure { fnew it3[..k3] }) (pure { fold it3[..k3] }) (pure { __out[length __out - 1] }) (pure { fnew1 it3[k3] }) (pure { fold1 it3[k3] })",
          "loop3.after": "partly_run (pure { _0_input_stack[..g_m] }) _conflict_group __out ; whole _0_input_stack g_m g_k"})
left, run, top, init, pop = passes("staged")
fn("merge", "consolidate_all", params={"staged": SEQ(F), "empty": TEXT}, ret=SEQ(FAM("ditem")), theories=G, classes=DIT, ghosts=GH,
   locals={"conflict_group": SEQ(F), "copy_or_change_group": SEQ(F)},
   requires=[("the empty text", "length _empty = 0")],
   ensures=[("the same tokens and conflicts", "lays _staged (dmarks result)")],
   loops={1: Loop(inv=[left, ("so far", "lays _0_staged[..g_k] (dmarks __out)")], var="length _staged"),
          2: Loop(inv=[left, run("conflict_group", "confl"), ("start", "g_m = g_n")], var="length _staged"),
          3: Loop(inv=[left, run("copy_or_change_group", "plain"), top], var="length _staged")},
   hints={"loop1.before": "lays_none () ; " + init, "loop1.start": "g_n <- g_k ; g_m <- g_k",
          "loop2.start": pop + " ; growing _0_staged _conflict_group g_m g_k", "loop2.end": NEXT,
          "loop3.start": pop + " ; growing _0_staged _copy_or_change_group g_m g_k", "loop3.end": NEXT,
          "loop2.after": SIDES + " ; lays_run (pure { _0_staged[..g_m] }) _conflict_group (pure { dmarks __out }) ; whole _0_staged g_m g_k ; g_m <- g_k",
          "joiner#1.after": "assert { _version1 = fv1 _conflict_group }",
          "joiner#2.after": "assert { _version2 = fv2 _conflict_group }",
          "loop3.after": "assert { forall r [flat r]. inserts _copy_or_change_group r -> flat r = fnew _copy_or_change_group } ; "
                         "lays_text (pure { _0_staged[..g_m] }) _copy_or_change_group (pure { dmarks __out }) ; whole _0_staged g_m g_k",
          "joiner#3.after": "assert { _insert = fnew _copy_or_change_group }"})
fn("merge", "consolidate", params={"fragments": SEQ(F), "empty": TEXT}, ret=SEQ(FAM("ditem")), theories=G,
   requires=[("the empty text", "length _empty = 0")],
   ensures=[("what the fragments show the output gives", "lays _fragments (dmarks result)")])
fn("merge", "merge_token_sequence", params={"parent": TEXT, "branch0": TEXT, "branch1": TEXT}, ret=SEQ(FAM("ditem")), theories=G,
   hints={"find_changeset#1.after": "made_frags _parent _branch0 _changeset0", "find_changeset#2.after": "made_frags _parent _branch1 _changeset1"},
   ensures=[("segment by segment the common text, the changed text, or a conflict", "gives (dmarks result) _parent _branch0 _branch1")])
