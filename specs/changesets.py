"""Contracts of changesets.py (C01, C17)."""
from vfw.spec import *
import specs.suffix_automaton  # noqa: F401
import specs.serialize  # noqa: F401  (items and slices)

family("cs", ctors={
    "ChangesetLeaf": ("Leaf", [("original", TEXT), ("modified", TEXT), ("original_slice", SLICE), ("modified_slice", SLICE)]),
    "Changeset": ("Node", [("common_original", SLICE), ("common_modified", SLICE), ("prefix", FAM("cs")), ("suffix", FAM("cs"))]),
}, home={"ChangesetLeaf": "changesets", "Changeset": "changesets"}, fields={
    "original": TEXT, "modified": TEXT, "original_slice": SLICE, "modified_slice": SLICE,
    "common_original": SLICE, "common_modified": SLICE, "prefix": FAM("cs"), "suffix": FAM("cs"),
})
family("chg", ctors={"Change": ("CChange", [("a", TEXT), ("b", TEXT)]), "CommonSlice": ("CCommon", [("a_slice", SLICE), ("b_slice", SLICE)])},
       home={"Change": "types", "CommonSlice": "types"}, fields={"a": TEXT, "b": TEXT, "a_slice": SLICE, "b_slice": SLICE})
family("ditem", ctors={"Change": ("DChange", [("a", TEXT), ("b", TEXT)])}, home={"Change": "types"}, fields={"a": TEXT, "b": TEXT},
       inject={TEXT: ("DText", "get_DText", "is_DText")}, truthy="truthy_ditem")
family("frag", ctors={
    "CopyFragment": ("FCopy", [("insert", TEXT), ("length", INT)]),
    "ChangeFragment": ("FChange", [("insert", TEXT), ("delete", TEXT), ("length", INT)]),
    "ConflictFragment": ("FConflict", [("version1", TEXT), ("version2", TEXT)]),
}, home={"CopyFragment": "changesets", "ChangeFragment": "changesets", "ConflictFragment": "changesets"},
    fields={"insert": TEXT, "delete": TEXT, "length": INT, "version1": TEXT, "version2": TEXT})

T = ["py.PyFlat", "codec.Item", "auto.Com", "auto.Lcs", "diff.Tree", "diff.Streams", "diff.Diff"]
N = T + ["diff.Normal"]

CHG = {"Change": "chg"}
DIT = {"Change": "ditem"}
fn("changesets", "cs.as_change_stream", params={"self": FAM("cs")}, ret=SEQ(FAM("chg")), theories=T, rec=True, variant="size _self", classes=CHG,
   ensures=[("the change script of the tree", "result = cstream _self")])
fn("changesets", "cs.as_diff_stream", params={"self": FAM("cs"), "original": TEXT}, ret=SEQ(FAM("ditem")), theories=T, rec=True, variant="size _self", classes=DIT,
   ensures=[("the diff of the tree", "result = dstream _original _self")])
fn("changesets", "cs._stream", params={"self": FAM("cs"), "original": TEXT}, ret=SEQ(FAM("frag")), theories=T, rec=True, variant="size _self",
   ensures=[("the fragments of the tree", "result = fstream _original _self")])
fn("changesets", "cs.old_apply_forward", params={"self": FAM("cs"), "original": TEXT}, ret=SEQ(TEXT), theories=T, rec=True, variant="size _self",
   ensures=[("the pieces of the modified text", "result = tnew _original _self")])
fn("changesets", "cs.old_apply_reverse", params={"self": FAM("cs"), "modified": TEXT}, ret=SEQ(TEXT), theories=T, rec=True, variant="size _self",
   ensures=[("the pieces of the original text", "result = told _modified _self")])

fn("changesets", "strip_forward", params={"stream": SEQ(FAM("chg"))}, ret=SEQ(FAM("item")), theories=T,
   ensures=[("insertions and slices of the original", "result = fwd _stream")],
   loops={1: Loop(inv=[("script so far", "__out = fwd it1[..k1]")])})
fn("changesets", "strip_reverse", params={"stream": SEQ(FAM("chg"))}, ret=SEQ(FAM("item")), theories=T,
   ensures=[("deletions and slices of the modified", "result = rvs _stream")],
   loops={1: Loop(inv=[("script so far", "__out = rvs it1[..k1]")])})
fn("changesets", "join_changes", params={"version": TEXT, "changed": SEQ(TEXT)}, ret=TEXT, theories=["py.PyJoin"] + T,
   ensures=[("all pieces joined", "result = flat _changed")])
fn("changesets", "apply", params={"stripped_changeset": SEQ(FAM("item")), "version": TEXT}, ret=TEXT, theories=T,
   ensures=[("the script applied to the version", "result = applied _stripped_changeset _version")],
   loops={1: Loop(inv=[("pieces so far", "flat _i1__out = applied it1[..k1] _version")])})
fn("changesets", "apply_forward", params={"reduced_changeset": SEQ(FAM("chg")), "original": TEXT}, ret=TEXT, theories=T,
   ensures=[("the forward direction applied", "result = applied (fwd _reduced_changeset) _original"),
            ("the change script turns the original into the modified", "forall m t [made _original m t]. made _original m t -> _reduced_changeset = cstream t -> result = m")])
fn("changesets", "apply_reverse", params={"reduced_changeset": SEQ(FAM("chg")), "modified": TEXT}, ret=TEXT, theories=T,
   ensures=[("the reverse direction applied", "result = applied (rvs _reduced_changeset) _modified"),
            ("the change script turns the modified into the original", "forall o t [made o _modified t]. made o _modified t -> _reduced_changeset = cstream t -> result = o")])
fn("changesets", "old_apply_forward", params={"changeset": FAM("cs"), "original": TEXT}, ret=TEXT, theories=T,
   ensures=[("the tree turns the original into the modified", "forall m [made _original m _changeset]. made _original m _changeset -> result = m")])
fn("changesets", "old_apply_reverse", params={"changeset": FAM("cs"), "modified": TEXT}, ret=TEXT, theories=T,
   ensures=[("the tree turns the modified into the original", "forall o [made o _modified _changeset]. made o _modified _changeset -> result = o")])

# clients of the automaton: one automaton per call of build(), in a region of its own
fn("<region>", "build", params={"tokens": TEXT, "reverse_links": BOOL, "mark_terminals": BOOL, "empty": OPT(TEXT)}, ret=TEXT, theories=["auto.Com", "auto.Lcs"], extern=True,
   defaults={"reverse_links": "true", "mark_terminals": "true", "empty": "none"}, ensures=["result = _tokens"],
   note="the automaton stands for its text; each build() works in a region of its own; proved in suffix_automaton.build")
fn("<region>", "find_lcs", params={"root": TEXT, "s": TEXT}, ret=TUP(INT, INT, INT), theories=["auto.Com", "auto.Lcs"], extern=True,
   ensures=["let (a, b, k) = result in lcs _root _s a b k"],
   note="the contract of suffix_automaton.find_lcs, where it is proved, with the automaton standing for its text")
CLIENT = {"suffix_automaton.build": "<region>.build", "suffix_automaton.find_lcs": "<region>.find_lcs"}

fn("changesets", "find_changeset", params={"original": TEXT, "modified": TEXT, "original_slice": SLICE, "modified_slice": SLICE}, ret=FAM("cs"),
   theories=N, rec=True, variant="hi _original _original_slice - slice_start _original_slice", client=CLIENT,
   requires=[("slices in range", "part_ok _original _original_slice /\\ part_ok _modified _modified_slice")],
   ensures=[("a change tree of the two parts", "csok _original _modified (slice_start _original_slice) (hi _original _original_slice) (slice_start _modified_slice) (hi _modified _modified_slice) result"),
            ("slices of the script in range", "placed (cstream result) (slice_start _original_slice) (hi _original _original_slice) (slice_start _modified_slice) (hi _modified _modified_slice)"),
            ("slices of the script strictly increasing", "rising (cstream result)")],
   hints={"end": "slices_rise _original _modified (get_slice_start _original_slice) (pure { hi _original _original_slice }) (get_slice_start _modified_slice) (pure { hi _modified _modified_slice }) result_",
          "find_lcs#1.after": "part _original _modified (get_slice_start _original_slice) (pure { hi _original _original_slice }) (get_slice_start _modified_slice) (pure { hi _modified _modified_slice }) _common_offset_original _common_offset_modified _common_length"})
fn("changesets", "diff_token_sequences", params={"original": TEXT, "modified": TEXT}, ret=SEQ(FAM("ditem")), theories=N,
   ensures=[("read with its insertions it is the modified text", "dnew result = _modified"),
            ("read with its deletions it is the original text", "dold result = _original"),
            ("normal form", "dnorm result")],
   hints={"as_diff_stream#1.after": "made_reads _original _modified _changeset ; normal _original _modified 0 (py_len _original) 0 (py_len _modified) _changeset"})
