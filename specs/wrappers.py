"""Contracts of wrappers.py (C02, C03)."""
from vfw.spec import *
from specs.suffix_automaton import B

FRESH = ("fresh region", "full h.hs /\\ alloc h.hs = 0")
W = ["h.hs", "h.nodes", "h.str", "h.base", "h.nwn", "h.ids"]
fn(
    "wrappers", "find_substring", params={"search_in": TEXT, "search_for": TEXT}, ret=SEQ(INT), theories=B, writes=W, requires=[FRESH],
    ensures=[("strictly ascending", "strictly result"),
             ("all occurrences and nothing else", "forall x [mem x result | occ _search_in _search_for x]. mem x result <-> occ _search_in _search_for x")],
)
fn(
    "wrappers", "find_lcs", params={"a": TEXT, "b": TEXT}, ret=TUP(INT, INT, INT), theories=B, writes=W, requires=[FRESH],
    ensures=[("a longest common substring, first in b, then first in a", "let (i, j, k) = result in lcs _a _b i j k")],
)
