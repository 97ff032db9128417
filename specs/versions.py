"""Contracts of versions.py (C08)."""
from vfw.spec import *
from specs.tree import METHODS, sub
import specs.serialize  # noqa: F401
import specs.tokenizers  # noqa: F401

# ---- the Tree protocol: what every method of MemoryTree is proved to do, for a tree of unknown representation
objclass("tree", cls="Tree", module="tree", fields={})
VT = ["py.PyMax", "py.PyRev", "mem.Mem", "dict.Dict", "vtree.TreeHeap", "vtree.View", "vtree.Chains"]
ST = VT + ["codec.Bytes", "codec.BytesLemmas", "codec.Varint", "codec.Script", "py.PyFlat", "tokens.Cut", "tokens.Utf8", "tokens.Spell", "tokens.Tokens", "tokdiff.TokHeap", "vers.Delta", "vers.Store"]
V, OLD = "tr.tw", "(old tr.tw)"
NOTE = "the contract every method of MemoryTree is proved against, for a tree of unknown representation"
for name, m in METHODS.items():
    fn("tree", f"Tree.{name}", params={"self": OBJ("tree"), **m["params"]}, ret=m["ret"], theories=ST, extern=True, note=NOTE, writes=["tr.tw"] if m.get("mut") else [],
       requires=[("a forest", f"forest {V}")] + sub(m.get("requires", []), V, OLD), ensures=([f"forest {V}"] if m.get("mut") else []) + sub(m["ensures"], V, OLD))

fn("<fn>", "tokenizer_factory", params={}, ret=OBJ("tok"), theories=ST, extern=True, writes=["th.ts"],
   ensures=["tcls result = vt", "isn (tsrc th.ts result)", "tkeys th.ts result = empty", "same_others (old th.ts) th.ts result"],
   note="tokenizer_factory(): a new tokenizer that has numbered nothing; always of the same class")

CONTENT = DICT(TOK, TEXT)
record("versions", cls="Versions", module="versions", fields={"head_version": CONTENT, "diffs": CONTENT, "tree": OBJ("tree"), "tokenizer_factory": FN("tokenizer_factory")})
SELF = REC("versions")
HD, DF = "_self.versions_head_version", "_self.versions_diffs"
S = [("g_s", CONTENT)]
KB = ("contents are bytes", "kk = KBytes")
D = ST + ["diff.Tree", "diff.Streams", "auto.Com", "auto.Lcs", "diff.Diff", "diff.Normal", "vers.Deltas"]
KEYS = "(tkeys th.ts _tokenizer)"

fn("versions", "Versions._make_changeset", params={"self": SELF, "original": TEXT, "modified": TEXT}, ret=SEQ(FAM("item")), theories=D, writes=["th.ts"],
   requires=[KB, ("contents the store takes", "goodv _original /\\ goodv _modified")],
   ensures=[("a script the format can hold", "ok_script result /\\ texts vt result"),
            ("piece by piece it turns the original into the modified", "patch vt result (chop vt _original) = chop vt _modified")],
   loops={"c1": Loop(inv=[("decoded so far", "length rc1 = kc1 /\\ forall i [rc1[i] | itc1[i]]. 0 <= i < kc1 -> dec1 vt (tkeys th.ts _tokenizer) itc1[i] rc1[i]")])},
   ghosts={"g_k": (SEQ(TEXT), "pure { (empty: seq (seq int)) }")},
   hints={"encode#1.after": "g_k <- pure { tkeys th.ts _tokenizer }",
          "strip_forward#1.after": "script_good (pure { vt }) (pure { tkeys th.ts _tokenizer }) _modified _encoded_original _encoded_modified _encoded_changeset",
          "c1.after": "script_delta (pure { vt }) g_k (pure { tkeys th.ts _tokenizer }) _original _modified _encoded_original _encoded_modified itc1 rc1"})
fn("versions", "Versions._add_edge", params={"self": SELF, "parent_tag": TOK, "child_tag": TOK, "changeset": SEQ(FAM("item"))}, ret=NONE, theories=D, mutates=["self"], writes=[HD, DF, "tr.tw"],
   requires=[("a forest", f"forest {V}"), ("both tags are stored", f"has {V} _child_tag /\\ free {V} _child_tag (some _parent_tag)"), ("a script the format can hold", "ok_script _changeset")],
   ensures=[("a forest", f"forest {V}"), ("the child is moved below the parent", f"moved {OLD} {V} _child_tag (some _parent_tag)"),
            ("its delta is stored", f"not (isn (dfind {DF} _child_tag)) /\\ forall o m [delta vt (txt {DF} _child_tag) o m]. texts vt _changeset -> patch vt _changeset (chop vt o) = chop vt m -> delta vt (txt {DF} _child_tag) o m"),
            ("other deltas are kept", f"forall t [dfind {DF} t]. t <> _child_tag -> dfind {DF} t = dfind (old {DF}) t"),
            ("it is no head any more", f"forall t [dfind {HD} t]. dfind {HD} t = if t = _child_tag then none else dfind (old {HD}) t")],
   hints={"serialize_changeset#1.after": f"let lemma one (o m: seq int) requires {{ texts vt _changeset /\\ patch vt _changeset (chop vt o) = chop vt m }} ensures {{ delta vt (txt {DF} _child_tag) o m }} = delta_of (pure {{ vt }}) (pure {{ txt {DF} _child_tag }}) o m _changeset in ()"})
fn("versions", "Versions._retrieve_using_path", params={"self": SELF, "path": SEQ(TOK)}, ret=TEXT, theories=D, writes=["th.ts"], ghost_params=S, kind="plain",
   requires=[KB, ("every step has its delta", f"steps {HD} {DF} g_s _path")],
   ensures=[("the contents stored under the last tag", "result = txt g_s _path[length _path - 1]")],
   ghosts={"g_k": (SEQ(TEXT), "pure { (empty: seq (seq int)) }")},
   loops={1: Loop(inv=[("one kind of text", "tsrc th.ts _tokenizer = some kk /\\ tcls _tokenizer = vt"),
                       ("the contents of the tag reached", f"allknown vt {KEYS} _encoded_patched /\\ pieces vt {KEYS} _encoded_patched = chop vt (txt g_s _path[k1])")]),
          "c1": Loop(inv=[("one kind of text", "tsrc th.ts _tokenizer = some kk"), ("encoded so far", f"encoded vt {KEYS} itc1[..kc1] rc1"),
                          ("earlier tokens keep their pieces", f"extends {KEYS} g_k")])},
   hints={"loop1.start": f"g_k <- pure {{ {KEYS} }}",
          "c1.after": f"spell_grows (pure {{ vt }}) g_k (pure {{ {KEYS} }}) _encoded_patched ; applied_pieces (pure {{ vt }}) (pure {{ {KEYS} }}) itc1 rc1 _encoded_patched"})
SAVE = f"g_v <- pure {{ {V} }}; g_h <- pure {{ {HD} }}; g_d <- pure {{ {DF} }}"
EDGE = f"edge g_h g_d (pure {{{{ {HD} }}}}) (pure {{{{ {DF} }}}}) g_v (pure {{{{ {V} }}}}) (pure {{{{ dset g_s _tag _version }}}}) {{c}} _tag"
fn("versions", "Versions.add", params={"self": SELF, "tag": TOK, "version": TEXT, "existing_head": OPT(TOK)}, ret=NONE, theories=D, mutates=["self"], writes=[HD, DF, "tr.tw", "th.ts"], ghost_params=S, kind="plain",
   requires=[KB, ("a forest", f"forest {V}"), ("the store holds its contents", f"stored {HD} {DF} {V} g_s"), ("a new tag", f"not (has {V} _tag)"),
             ("based on nothing or on a stored version", f"isn _existing_head \\/ has {V} (the _existing_head)"), ("contents the store takes", "goodv _version")],
   ensures=[("a forest", f"forest {V}"), ("the store holds its contents and the new one", f"stored {HD} {DF} {V} (dset g_s _tag _version)")],
   ghost_args={"g_s": "(pure { dset g_s _tag _version })"},
   ghosts={"g_v": ("view", f"pure {{ {V} }}"), "g_h": (CONTENT, f"pure {{ {HD} }}"), "g_d": (CONTENT, f"pure {{ {DF} }}")},
   hints={"add#1.after": f"assert {{ stored {HD} {DF} {V} (dset g_s _tag _version) }}",
          "_add_edge#1.before": f"{SAVE}; root_free (pure {{ {V} }}) _tag (the _split)",
          "_add_edge#1.after": f"assert {{ delta vt (txt {DF} (the _split)) _version (txt g_s (the _split)) }} ; " + EDGE.format(c="(the _split)"),
          "change_parent#1.before": f"g_v <- pure {{ {V} }}; root_free (pure {{ {V} }}) _tag (the _split)",
          "change_parent#1.after": f"same_place (pure {{ {HD} }}) (pure {{ {DF} }}) g_v (pure {{ {V} }}) (pure {{ dset g_s _tag _version }}) (the _split) _tag",
          "_add_edge#2.before": f"{SAVE}; root_free (pure {{ {V} }}) _tag (the _existing_head)",
          "_add_edge#2.after": f"assert {{ delta vt (txt {DF} (the _existing_head)) _version (txt g_s (the _existing_head)) }} ; " + EDGE.format(c="(the _existing_head)")})
fn("versions", "Versions.get", params={"self": SELF, "tag": TOK}, ret=OPT(TEXT), theories=D, writes=["th.ts"], ghost_params=S, kind="plain",
   requires=[KB, ("a forest", f"forest {V}"), ("the store holds its contents", f"stored {HD} {DF} {V} g_s")],
   ensures=[("exactly what was stored under the tag, or None", "result = dfind g_s _tag")])
fn("versions", "Versions.__contains__", params={"self": SELF, "tag": TOK}, ret=BOOL, theories=D, ghost_params=S, kind="plain",
   requires=[("a forest", f"forest {V}"), ("the store holds its contents", f"stored {HD} {DF} {V} g_s")],
   ensures=[("was something stored under the tag", "result <-> not (isn (dfind g_s _tag))")])
