"""Contracts of manifest.py (C15)."""
from vfw.spec import *
from specs.versions import CONTENT, D, DF, HD, KB, V
import specs.versions  # noqa: F401

MAN = DICT(TOK, TOK)
M = D + ["vers.Grow", "vers.Manifest"]
family("mform", ctors={}, inject={TEXT: ("BDoc", "get_BDoc", "is_BDoc"), MAN: ("BMan", "get_BMan", "is_BMan")})
VS = REC("versions")
HD, DF = HD.replace("_self.", "_versions."), DF.replace("_self.", "_versions.")
G = [("g_s", CONTENT), ("g_ms", DICT(TOK, MAN)), ("g_is", CONTENT)]
STORE = [KB, ("a forest", f"forest {V}"), ("the store holds its contents", f"stored {HD} {DF} {V} g_s"), ("among them the manifests and items added so far", "archive g_s g_ms g_is")]
GROWN = "(grow g_s _contents _manifest {})"

fn("manifest", "manifest_to_doc", params={"manifest": MAN}, ret=TEXT, theories=M, kind="plain", ensures=[("the document of the manifest", "result = mdoc _manifest")])
fn("manifest", "doc_to_manifest", params={"manifest_doc": TEXT}, ret=MAN, theories=M, kind="plain", ghost_params=[("g_m", MAN)],
   requires=[("the document of a manifest", "_manifest_doc = mdoc g_m")], ensures=[("that manifest", "result = g_m")])
fn("manifest", "get_manifest", params={"versions": VS, "tag": TOK}, ret=MAN, theories=M, kind="plain", ghost_params=G, writes=["th.ts"],
   requires=STORE + [("a manifest was added under the tag", "not (isn (dfind g_ms _tag))")], ensures=[("exactly the manifest added under the tag", "result = the (dfind g_ms _tag)")],
   ghost_args={"g_m": "(pure { the (dfind g_ms _tag) })"})
fn("manifest", "add_manifest", params={"manifest_tag": TOK, "manifest": MAN, "versions": VS, "contents": CONTENT, "base_tag": OPT(TOK)}, ret=NONE, theories=M, kind="plain",
   ghost_params=G, mutates=["versions"], writes=[HD, DF, "tr.tw", "th.ts"],
   requires=STORE + [("a new tag, and contents for every item that are those added before if it is not new", "addable g_s g_ms g_is _contents _manifest _manifest_tag"),
                     ("based on nothing or on a manifest added before", "isn _base_tag \\/ not (isn (dfind g_ms (the _base_tag)))")],
   ensures=[("a forest", f"forest {V}"),
            ("the store holds its contents, the new items and the manifest", f"stored {HD} {DF} {V} (dset {GROWN.format('(dkeys _manifest)')} _manifest_tag (mdoc _manifest))"),
            ("all manifests and items added so far are among them", f"archive (dset {GROWN.format('(dkeys _manifest)')} _manifest_tag (mdoc _manifest)) (dset g_ms _manifest_tag _manifest) (grow g_is _contents _manifest (dkeys _manifest))")],
   ghosts={"g_t": (CONTENT, "pure { g_s }")}, ghost_args={"g_s": "g_t", "g_m": "(pure { the (dfind g_ms (the _base_tag)) })"},
   loops={1: Loop(inv=[("a forest", f"forest {V}"), ("the items so far are stored", f"g_t = {GROWN.format('it1[..k1]')} /\\ stored {HD} {DF} {V} g_t"),
                       ("what was stored before is kept", "forall t [dfind g_t t]. not (isn (dfind g_s t)) -> dfind g_t t = dfind g_s t")])},
   hints={"loop1.end": "g_t <- pure { grow g_s _contents _manifest it1[..k1 + 1] }",
          "loop1.after": "assert { it1[..length it1] == it1 } ; assert { g_t = grow g_s _contents _manifest (dkeys _manifest) } ; grown g_s _contents _manifest (pure { dkeys _manifest }) ; "
                         "kept g_s (pure { dset g_t _manifest_tag (mdoc _manifest) }) g_ms g_is _contents _manifest _manifest_tag g_t"})
