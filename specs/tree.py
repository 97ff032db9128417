"""Contracts of memory_tree.py (C09) and of the Tree protocol."""
from vfw.spec import *

TNODE = OBJ("tnode")
objclass("tnode", cls="Node", module="memory_tree", fields={
    "order_id": INT, "parent": OPT(TOK), "children": SEQ(TOK), "height": INT, "size": INT, "base_version": OPT(TOK),
}, logic={"order_id": "nord tn.ns {}", "parent": "npar tn.ns {}", "children": "nkids tn.ns {}", "height": "nht tn.ns {}", "size": "nsz tn.ns {}", "base_version": "nbas tn.ns {}"},
    shared=["children"])
record("mtree", cls="MemoryTree", module="memory_tree", fields={"nodes": DICT(TOK, TNODE)})
SELF = REC("mtree")
T = ["py.PyMax", "py.PyRev", "mem.Mem", "dict.Dict", "vtree.TreeHeap", "vtree.View", "vtree.Chains"]
M = T + ["vtree.MemTree"]
V = "(mview _self.mtree_nodes tn.ns)"
OLD = "(old (mview _self.mtree_nodes tn.ns))"
APART = ("no two tags share a node or a list of children", "apart _self.mtree_nodes tn.ns")
SHAPE = ("parents and children agree and every chain of parents ends", f"shape {V}")
FOREST = ("a forest with correct heights and sizes", f"forest {V}")

fn("memory_tree", "Node.__new__", params={"order_id": INT, "parent": OPT(TOK), "children": SEQ(TOK), "height": INT, "size": INT, "base_version": OPT(TOK)}, ret=TNODE,
   theories=T, writes=["tn.ns"], extern=True, ensures=["made_node (old tn.ns) tn.ns result _order_id _parent _children _height _size _base_version"],
   note="allocation of a Node: a new object whose fields have the given values, with a list of children of its own (defaults are read from the class)")

METHODS = {
    "__contains__": dict(params={"tag": TOK}, ret=BOOL, ensures=[("is the tag stored", "result <-> has {V} _tag")]),
    "base_version": dict(params={"tag": TOK}, ret=OPT(TOK), requires=[("the tag is stored", "has {V} _tag")], ensures=[("the base given when it was added", "result = bas {V} _tag")]),
    "add": dict(params={"tag": TOK, "existing_head": OPT(TOK)}, ret=NONE, mut=True, requires=[("a new tag", "not (has {V} _tag)")],
                ensures=[("the tag is added, without connections", "planted {OLD} {V} _tag _existing_head")]),
    "path_to": dict(params={"tag": OPT(TOK)}, ret=OPT(SEQ(TOK)),
                    ensures=[("the path to the tag, or None if it is not stored", "not (isn _tag) -> if has {V} (the _tag) then not (isn result) /\\ is_path {V} (the result) (the _tag) else isn result")]),
    "change_parent": dict(params={"tag": TOK, "new_parent": OPT(TOK)}, ret=NONE, mut=True,
                          requires=[("the tag is stored", "has {V} _tag"), ("the new parent is not below the tag", "free {V} _tag _new_parent")],
                          ensures=[("only the parent of the tag changes", "moved {OLD} {V} _tag _new_parent")]),
    "get_split": dict(params={"tag": TOK}, ret=TUP(TOK, SEQ(TOK)), requires=[("the tag is stored", "has {V} _tag")],
                      ensures=[("the middle of a longest downward path, and the path to it", "let (s, p) = result in is_down {V} p _tag /\\ p[length p - 1] = s /\\ halfway {V} p _tag")]),
}
RELINK = " ; ".join(["apart_copy g_d g_h tn.ns _tag",
    "assert { moved {OLD} {V} _tag _new_parent }",
    "assert { forall s [ht {V} s]. ht {V} s = ht {OLD} s }",
    "assert { forall s [sz {V} s]. sz {V} s = sz {OLD} s }",
    "assert { forall s [kids {V} s]. has {OLD} s -> par {OLD} _tag <> some s -> _new_parent <> some s -> kids {V} s = kids {OLD} s }",
    "assert { forall s [kids {V} s]. has {OLD} s -> distinct (kids {V} s) }",
    "assert { forall s c [mem c (kids {V} s)]. has {OLD} s -> (mem c (kids {V} s) <-> (if c = _tag then _new_parent = some s else mem c (kids {OLD} s))) }",
    "relink (pure { {OLD} }) (pure { {V} }) _tag _new_parent"])
LOOPS = {
    "change_parent": dict(kind="plain", ghosts={"g_d": (DICT(TOK, TNODE), "_self.mtree_nodes"), "g_h": ("thp", "tn.ns"), "g_v": ("view", "pure { {V} }")}, hints={
        "start": "assert { not (isn (par {V} _tag)) -> has {V} (the (par {V} _tag)) }",
        "_update_metrics#1.before": RELINK + " ; g_v <- pure { {V} } ; assert { anc g_v (the _new_parent) (the _new_parent) }",
        "_update_metrics#1.after": "assert { forall s [heq {V} s]. has {V} s -> par {OLD} _tag <> some s -> heq {V} s }",
        "_update_metrics#2.after": "assert { forall s [heq {V} s]. has {V} s -> heq {V} s }",
        "_update_metrics#2.before": "if isn _new_parent then begin " + RELINK + " end ; g_v <- pure { {V} } ; assert { anc g_v (the (par {OLD} _tag)) (the (par {OLD} _tag)) }",
        "end": "if isn _new_parent && pure { isn (par {OLD} _tag) } then begin " + RELINK + " end",
    }),
    "add": dict(hints={"end": "plant (pure { {OLD} }) (pure { {V} }) _tag _existing_head"}),
    "path_to": dict(
        locals={"path": SEQ(TOK)},
        ghosts={"g_n": (INT, "reach (pure { {V} }) _0_tag")},
        loops={1: Loop(inv=[("None is the end", "isn _0_tag -> isn _tag"), ("only stored tags", "not (isn _0_tag) -> has {V} (the _0_tag) -> isn _tag \\/ has {V} (the _tag)"),
                            ("first the tag itself", "not (isn _0_tag) -> if length _path = 0 then _tag = _0_tag else _path[0] = the _0_tag"),
                            ("then its ancestors", "forall i [_path[i]]. 0 <= i < length _path -> has {V} _path[i] /\\ par {V} _path[i] = if i + 1 < length _path then some _path[i + 1] else _tag"),
                            ("the ancestors end", "not (isn _0_tag) -> has {V} (the _0_tag) -> g_n >= 0 /\\ up {V} _tag g_n = none")], var="g_n")},
        hints={"loop1.start": "if g_n > 0 then ups (pure { {V} }) _tag g_n", "loop1.end": "g_n <- g_n - 1"}, kind="plain",
    ),
    "get_split": dict(
        loops={1: Loop(inv=[("the node of the tag", "not (isn (dfind _self.mtree_nodes _tag)) /\\ the (dfind _self.mtree_nodes _tag) = _node"),
                            ("downward path", "is_down {V} _path_to_split _0_tag /\\ _path_to_split[length _path_to_split - 1] = _tag"),
                            ("depth", "_depth = length _path_to_split"),
                            ("the rest of a longest path", "ht {V} _tag + _depth = ht {V} _0_tag + 1"),
                            ("not past the middle", "_depth = 1 \\/ _depth - 1 < ht {V} _tag + 1")], var="ht {V} _tag")},
        kind="plain",
        hints={"loop1.before": "assert { heq {V} _tag }", "loop1.start": "assert { heq {V} _tag } ",
               "loop1.after": "half_down (pure { {V} }) _path_to_split _0_tag _tag"},
    ),
}


def sub(x, v, old):
    if isinstance(x, str):
        return x.replace("{V}", v).replace("{OLD}", old)
    if isinstance(x, tuple):
        return tuple(sub(y, v, old) for y in x)
    if isinstance(x, list):
        return [sub(y, v, old) for y in x]
    if isinstance(x, dict):
        return {k: sub(y, v, old) for k, y in x.items()}
    if isinstance(x, Loop):
        return Loop(inv=sub(x.inv, v, old), var=sub(x.var, v, old) if x.var else None)
    return x


for name, m in METHODS.items():
    mut = m.get("mut")
    fn("memory_tree", f"MemoryTree.{name}", params={"self": SELF, **m["params"]}, ret=m["ret"], theories=M if name != "path_to" else M,
       mutates=["self"] if mut else [], writes=["_self.mtree_nodes", "tn.ns"] if mut else [],
       requires=[APART, FOREST] + sub(m.get("requires", []), V, OLD),
       ensures=([APART, FOREST] if mut else []) + sub(m["ensures"], V, OLD), **sub(LOOPS.get(name, {}), V, OLD))

fn("memory_tree", "MemoryTree._update_metrics", params={"self": SELF, "tag": OPT(TOK)}, ret=NONE, theories=M, mutates=["self"], writes=["_self.mtree_nodes", "tn.ns"],
   requires=[APART, SHAPE, ("the tag is stored", f"isn _tag \\/ has {V} (the _tag)")],
   ensures=[APART, SHAPE, ("only heights and sizes change", f"same_tree {OLD} {V}"),
            ("correct heights and sizes from the tag upwards, and where they were correct", f"climbing {OLD} {V} (old _tag) none"),
            ("nodes keep their parents", "nalloc (old tn.ns) <= nalloc tn.ns /\\ forall m [npar tn.ns m]. m < nalloc (old tn.ns) -> npar tn.ns m = npar (old tn.ns) m")],
   ghosts={"g_n": (INT, f"reach (pure {{ {V} }}) _0_tag"), "g_v0": ("view", f"pure {{ {V} }}"), "g_v": ("view", f"pure {{ {V} }}"),
           "g_t": (OPT(TOK), "_tag"),
           "g_d": (DICT(TOK, TNODE), "_self.mtree_nodes"), "g_h": ("thp", "tn.ns"), "g_h0": ("thp", "tn.ns")},
   loops={1: Loop(inv=[("nodes keep their parents", "nalloc g_h0 <= nalloc tn.ns /\\ forall m [npar tn.ns m]. m < nalloc g_h0 -> npar tn.ns m = npar g_h0 m"),
                       APART, SHAPE, ("only heights and sizes change", f"same_tree g_v0 {V}"), ("only stored tags", f"isn _tag \\/ has {V} (the _tag)"),
                       ("heights and sizes are correct or above the tag", f"climbing g_v0 {V} _0_tag _tag"), ("the ancestors end", f"g_n >= 0 /\\ up {V} _tag g_n = none")], var="g_n")},
   hints={"loop1.start": f"g_v <- pure {{ {V} }}; g_t <- _tag; g_d <- _self.mtree_nodes; g_h <- tn.ns; assert {{ forall i [(kids {V} (the _tag))[i]]. 0 <= i < length (kids {V} (the _tag)) -> has {V} (kids {V} (the _tag))[i] }}",
          "c1.after": "assert { length rc1 = length (kids g_v (the g_t)) /\\ forall i [rc1[i]]. 0 <= i < length (kids g_v (the g_t)) -> rc1[i] = ht g_v (kids g_v (the g_t))[i] }",
          "c2.after": "assert { rc2 == sizes g_v (kids g_v (the g_t)) }",
          "loop1.end": f"apart_copy g_d g_h tn.ns (pure {{ the g_t }}) ; assert {{ same_tree g_v {V} }} ; assert {{ forall s. s <> the g_t -> ht {V} s = ht g_v s }} ; assert {{ ht {V} (the g_t) = _child_height + 1 }} ; assert {{ forall s. s <> the g_t -> sz {V} s = sz g_v s }} ; assert {{ sz {V} (the g_t) = 1 + total (sizes g_v (kids g_v (the g_t))) }} ; "
                       f"assert {{ lifted g_v {V} (the g_t) }} ; climb g_v0 g_v (pure {{ {V} }}) _0_tag g_t; up_same g_v (pure {{ {V} }}) _tag (g_n - 1); ups g_v g_t g_n; g_n <- g_n - 1"})
