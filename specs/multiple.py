"""Contracts of multiple_strings.py (C04)."""
from vfw.spec import *
from specs.suffix_automaton import B, NODE, WF, LINKED

tokclass("Separator", "types", ctor="sepc", test="is_separator", fields=[("index", INT)])
TEXTS = SEQ(TEXT)
SETS = DICT(INT, SET(TOK))
M = B + ["py.PyFlat", "py.PyJoin", "pset.Pset", "multi.Sep", "multi.Cat", "multi.Shares", "multi.NLcs"]
PLAIN = ("no token is a separator", "plain _string_set")
fn(
    "multiple_strings", "concatenate_strings", params={"string_set": TEXTS}, ret=TEXT, theories=M, kind="plain",
    ensures=[("the sequences, each with its own separator", "cat _string_set (length _string_set) result")],
    hints={"end": "flatten _string_set _chainlets (py_len _string_set) ; assert { _chainlets[..length _chainlets] = _chainlets }"},
    loops={"c1": Loop(inv=[("each sequence has a separator", "length rc1 = kc1 /\\ forall j [rc1[j]]. 0 <= j < kc1 -> rc1[j] = itc1[j] ++ singleton (sepc j)")])},
)
fn(
    "multiple_strings", "update_shared_strings", params={"shared_strings": SETS, "top": NODE}, ret=NONE, theories=M, mutates=["shared_strings"],
    requires=[WF, ("text ends with a separator", "ended h.str"), ("node exists", "valid h.hs _top"),
              ("sets of the known nodes", "settled h.str h.hs _shared_strings"), ("the node is not known", "not (known _shared_strings _top)"),
              ("children are known", "forall c [dfind (trs h.hs _top) c]. isn (tr h.hs _top c) \\/ known _shared_strings (the (tr h.hs _top c))")],
    ensures=[
        ("only the node becomes known", "forall u [dfind _shared_strings u]. u <> _top -> dfind _shared_strings u = dfind (old _shared_strings) u"),
        ("set of the node", "known _shared_strings _top /\\ exact h.str h.hs _top (the (dfind _shared_strings _top))"),
    ],
    loops={1: Loop(inv=[
        ("only the node becomes known", "forall u [dfind _shared_strings u]. u <> _top -> dfind _shared_strings u = dfind (old _shared_strings) u"),
        ("set so far holds separators of the node", "known _shared_strings _top /\\ forall x [pin x (the (dfind _shared_strings _top))]. pin x (the (dfind _shared_strings _top)) -> shares h.str h.hs _top x"),
        ("set so far holds the separators by the keys so far", "forall j x [via h.str h.hs _top it1[j] x]. 0 <= j < k1 -> via h.str h.hs _top it1[j] x -> pin x (the (dfind _shared_strings _top))"),
    ])},
    hints={
        "loop1.start": "let ghost t = pure { it1[k1] } in let ghost w = pure { the (tr h.hs _top t) } in assert { not (isn (tr h.hs _top t)) } ; assert { valid h.hs w /\\ h.str[fep h.hs w - 1] = t }",
        "end": "down h.str h.hs _top (pure { the (dfind _shared_strings _top) })",
    },
)
fn(
    "multiple_strings", "get_string_offsets", params={"positions": SEQ(INT), "string_set": TEXTS}, ret=SEQ(INT), theories=M, kind="plain",
    requires=[("strictly ascending", "strictly _positions"), ("every sequence has a position", "forall i [off _string_set i]. 0 <= i < length _string_set -> hit _string_set _positions i")],
    ensures=[("first position in each sequence", "length result = length _string_set /\\ forall i [result[i]]. 0 <= i < length _string_set -> first_in _string_set _positions i result[i]")],
    hints={"loop1.start": "assert { hit _string_set _positions k1 } ; assert { off _string_set (k1 + 1) = off _string_set k1 + length _string_set[k1] + 1 }"},
    loops={
        1: Loop(inv=[
            ("start of the next sequence", "_next_string_start_pos = off _string_set k1"),
            ("first position in each sequence so far", "length _adjusted_positions = k1 /\\ forall i [_adjusted_positions[i]]. 0 <= i < k1 -> first_in _string_set _positions i _adjusted_positions[i]"),
        ]),
        2: Loop(inv=[
            ("nothing found yet", "length _adjusted_positions = k1 /\\ forall j [it2[j]]. 0 <= j < k2 -> it2[j] < off _string_set k1"),
            ("first position in each sequence so far", "forall i [_adjusted_positions[i]]. 0 <= i < k1 -> first_in _string_set _positions i _adjusted_positions[i]"),
        ]),
    },
)
fn(
    "multiple_strings", "find_lcs", params={"string_set": TEXTS}, ret=TUP(SEQ(INT), OPT(INT)), theories=M + ["multi.Left"], kind="plain",
    writes=["h.hs", "h.nodes", "h.str", "h.base", "h.nwn", "h.ids"],
    requires=[PLAIN, ("fresh region", "full h.hs /\\ alloc h.hs = 0")],
    ensures=[("an empty collection has no positions and no length", "length _string_set = 0 -> let (p, k) = result in p = empty /\\ isn k"),
             ("a longest common substring, first in each sequence", "length _string_set > 0 -> let (p, k) = result in not (isn k) /\\ nlcs _string_set p (the k)")],
    ghosts={"g_d": (SETS, "dict_new ()")},
    loops={
        "c1": Loop(inv=[("which children are known", "length rc1 = kc1 /\\ forall j [rc1[j] | itc1[j]]. 0 <= j < kc1 -> (rc1[j] <-> known _shared_strings (the (dfind dc1 itc1[j])))")]),
        1: Loop(inv=[
            ("waiting nodes exist", "forall i [_stack[i]]. 0 <= i < length _stack -> valid h.hs _stack[i]"),
            ("the root is known or waits at the bottom", "known _shared_strings 0 \\/ (length _stack > 0 /\\ _stack[0] = 0)"),
            ("sets of the known nodes", "settled h.str h.hs _shared_strings"),
            ("known nodes that all share are no longer than the best", "sized (length _string_set) h.hs _shared_strings _max_length"),
            ("best node", "valid h.hs _best_node /\\ _max_length = len h.hs _best_node /\\ forall i [off _string_set i]. 0 <= i < length _string_set -> ends_in _string_set h.str h.hs _best_node i"),
        ], var="unk _shared_strings (alloc h.hs), steps (length h.str) h.hs _shared_strings _stack"),
        2: Loop(inv=[
            ("waiting nodes exist", "forall i [_stack[i]]. 0 <= i < length _stack -> valid h.hs _stack[i]"),
            ("the root is known or waits at the bottom", "known _shared_strings 0 \\/ (length _stack > 0 /\\ _stack[0] = 0)"),
            ("the last one that waits is longer than the node, or all children so far are known",
             "length _stack > 0 /\\ ((not (known _shared_strings _stack[length _stack - 1]) /\\ len h.hs _stack[length _stack - 1] > len h.hs _top) \\/ forall j [it2[j]]. 0 <= j < k2 -> known _shared_strings (the (dfind d2 it2[j])))"),
        ]),
    },
    hints={
        "loop2.start": "assert { not (isn (tr h.hs _top it2[k2])) } ; assert { len h.hs (the (dfind d2 it2[k2])) > len h.hs _top }",
        "update_shared_strings#1.before": "g_d <- _shared_strings",
        "build#1.after": "is_ended _string_set h.str ; roots_in _string_set h.str h.hs",
        "c1.after": "assert { (forall j [rc1[j]]. 0 <= j < length rc1 -> rc1[j]) -> forall c [dfind (trs h.hs _top) c]. isn (tr h.hs _top c) \\/ known _shared_strings (the (tr h.hs _top c)) }",
        "update_shared_strings#1.after": "learned g_d _shared_strings _top (pure { alloc h.hs }) ; counted _string_set h.str h.hs _top (pure { the (dfind _shared_strings _top) })",
        "get_string_offsets#1.before": "all_lie _string_set h.str h.hs _best_node ; hits _string_set h.str h.hs _best_node _raw_positions",
        "get_string_offsets#1.after": "maximal _string_set h.str h.hs _shared_strings _max_length ; result_is _string_set h.str h.hs _best_node _raw_positions _string_positions",
    },
)
