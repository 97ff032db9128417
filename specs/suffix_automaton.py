"""Contracts of suffix_automaton.py (C02, C03, C05)."""
from vfw.spec import *

NODE = OBJ("node")
objclass("node", cls="Node", module="suffix_automaton", fields={
    "id": INT, "length": INT, "transitions": DICT(TOK, NODE), "first_endpos": INT, "is_terminal": BOOL,
    "link": OPT(NODE), "reverse_links": SEQ(NODE), "empty": TEXT,
}, logic={"first_endpos": "fep h.hs {}", "length": "len h.hs {}"})
A = ["dict.Dict", "auto.Eqw", "auto.Heap", "auto.Auto", "auto.AutoNode", "auto.AutoProg"]
SOUND = ("heap holds the nodes in order of creation", "sound h.hs h.nodes /\\ h.ids = alloc h.hs")

IDS = ("ids are given out in order of creation", "h.ids = alloc h.hs")
DEF = {"length": "0", "first_endpos": "0", "link": "none", "transitions": "(dict_new ())"}
KW = {"length": INT, "first_endpos": INT, "link": OPT(NODE), "transitions": DICT(TOK, NODE)}
MADE = "created (old h.hs) h.hs result _length _first_endpos _link _transitions"

fn(
    "<gen>", "ids.start", params={}, ret=GEN("ids"), theories=A, writes=["h.ids"], extern=True, ensures=["h.ids = 0"],
    note="a call of make_id_sequence() starts a new sequence; its values are proved in suffix_automaton.make_id_sequence",
)
fn(
    "<gen>", "ids.next", params={}, ret=INT, theories=A, writes=["h.ids"], extern=True,
    ensures=["result = old h.ids", "h.ids = old h.ids + 1"],
    note="next() gives the values of make_id_sequence() one after the other",
)
fn(
    "suffix_automaton", "make_id_sequence", params={}, ret=SEQ(INT), theories=[], diverges=True,
    ensures=[("the sequence does not end", "false")],
    loops={1: Loop(inv=[("the values are 0, 1, 2, ...", "_id = length __out /\\ forall i [__out[i]]. 0 <= i < length __out -> __out[i] = i")])},
)
fn(
    "suffix_automaton", "Node.__new__", params={
        "id": INT, "length": INT, "transitions": DICT(TOK, NODE), "first_endpos": INT, "is_terminal": BOOL, "link": OPT(NODE),
        "reverse_links": SEQ(NODE), "empty": TEXT}, ret=NODE, theories=A, writes=["h.hs"], extern=True,
    requires=[("ids are given out in order of creation", "_id = alloc h.hs"), ("new nodes are not terminal and have no reverse links", "not _is_terminal /\\ _reverse_links = empty")],
    ensures=[MADE],
    note="allocation of a Node: a new object whose fields have the given values (defaults are read from the class)",
)
fn(
    "<fn>", "raw_factory", params=dict(KW), defaults=DEF, ret=NODE, theories=A, writes=["h.hs", "h.ids"], extern=True,
    requires=[IDS], ensures=[MADE, IDS[1]], impl=["factory"],
    note="proved for every set of keywords in use: suffix_automaton.Node.get_factory.factory",
)
fn(
    "<fn>", "node_factory", params=dict(KW), defaults=DEF,
    ret=NODE, theories=A, writes=["h.hs", "h.nodes", "h.ids"], extern=True, requires=[IDS],
    ensures=[MADE, "h.nodes = snoc (old h.nodes) result", IDS[1]], impl=["wrapped_node_factory"],
    note="proved for every set of keywords in use: suffix_automaton.wrap_node_factory.wrapped_node_factory",
)
KEYWORDS = [[], ["length", "first_endpos"], ["length", "first_endpos", "link", "transitions"]]
FACTORIES = []
for ks in KEYWORDS:
    made = "created (old h.hs) h.hs result " + " ".join("_" + k if k in ks else {"transitions": "dempty"}.get(k, DEF[k]) for k in KW)
    fn(
        "suffix_automaton", "Node.get_factory.factory", key=f"suffix_automaton.Node.get_factory.factory({','.join(ks)})", vname="factory",
        params={**{k: KW[k] for k in ks}, "generator": GEN("ids"), "empty_sequence": TEXT}, free=["generator", "empty_sequence"], kwargs={"kwargs": ks},
        ret=NODE, theories=A, writes=["h.hs", "h.ids"], requires=[IDS], ensures=[("creates a node with the given fields", made), IDS],
    )
    fn(
        "suffix_automaton", "wrap_node_factory.wrapped_node_factory", key=f"suffix_automaton.wrap_node_factory.wrapped_node_factory({','.join(ks)})", vname="wrapped",
        params={**{k: KW[k] for k in ks}, "node_factory": FN("raw_factory")}, free=["node_factory"], cells={"node_list": ("h.nodes", SEQ(NODE))}, kwargs={"kwargs": ks},
        ret=NODE, theories=A, writes=["h.hs", "h.ids", "h.nodes"], requires=[IDS],
        ensures=[("creates a node with the given fields", made), ("appends it to the list", "h.nodes = snoc (old h.nodes) result"), IDS],
    )
    FACTORIES += [f"suffix_automaton.Node.get_factory.factory({','.join(ks)})", f"suffix_automaton.wrap_node_factory.wrapped_node_factory({','.join(ks)})"]
FACTORIES.append("suffix_automaton.make_id_sequence")

fn(
    "suffix_automaton", "insert_node", params={"token": TOK, "p": NODE, "q": NODE, "node_factory": FN("node_factory")}, ret=NODE,
    theories=A + ["auto.AutoExt", "auto.AutoStop", "auto.AutoClone"], writes=["h.hs", "h.nodes", "h.ids"],
    requires=[
        ("automaton of the text before the token", "wf h.str h.base /\\ walked h.str _token h.base h.hs h.nwn (len h.base _p)"),
        ("p is a suffix state leading to q", "valid h.base _p /\\ sfx h.str h.base _p /\\ tr h.base _p _token = some _q"),
        ("q holds longer words", "len h.base _q > len h.base _p + 1"),
        SOUND,
    ],
    ensures=[
        ("clone takes over the words up to p and the token", "cloned h.str _token h.base (old h.hs) h.hs h.nwn _p _q result"),
        ("one node is created", "alloc h.hs = alloc (old h.hs) + 1"),
        SOUND,
    ],
    ghosts={"g1": ("hp", "h.hs")},
    hints={
        "start": "assert { valid h.base _q }",
        "loop1.before": "assert { half h.str _token h.base g1 h.hs h.nwn _p _q _clone (len h.base _p) }",
        "loop1.start": "chain_next h.str h.base (the _current) ; redirect h.str _token h.base g1 h.hs h.nwn _p _q _clone (the _current)",
        "loop1.after": "if not (isn _current) then chain_stop h.str _token h.base _p _q (the _current)",
    },
    loops={
        1: Loop(inv=[
            SOUND,
            ("one node is created", "alloc h.hs = alloc g1 + 1"),
            ("current is on the suffix chain of p", "isn _current \\/ (valid h.base (the _current) /\\ sfx h.str h.base (the _current) /\\ len h.base (the _current) <= len h.base _p)"),
            ("transitions above current are redirected", "half h.str _token h.base g1 h.hs h.nwn _p _q _clone (if isn _current then -1 else len h.base (the _current))"),
        ], var="if isn _current then 0 else len h.base (the _current) + 1"),
    },
)

fn(
    "suffix_automaton", "extend", params={"token": TOK, "last": NODE, "node_factory": FN("node_factory")}, ret=NODE,
    theories=A + ["auto.AutoExt", "auto.AutoStop", "auto.AutoClone"], writes=["h.hs", "h.nodes", "h.str", "h.base", "h.nwn", "h.ids"],
    requires=[
        ("automaton of the text so far", "wf h.str h.hs"), SOUND,
        ("last is the state of the whole text", "_last = pre h.hs (length h.str)"),
    ],
    ensures=[
        ("automaton of the text with the token", "h.str = snoc (old h.str) _token /\\ wf h.str h.hs"), SOUND,
        ("result is the state of the whole text", "result = pre h.hs (length h.str)"),
        ("at most two nodes are created", "alloc h.hs <= alloc (old h.hs) + 2"),
    ],
    ghosts={"g1": ("hp", "h.hs")},
    hints={
        "start": "h.base <- h.hs",
        "node_factory#1.after": "ghost_set_pre (py_len h.str + 1) _new_node ; h.nwn <- _new_node ; assert { walked h.str _token h.base h.hs _new_node (length h.str) }",
        "loop1.start": "chain_next h.str h.base (the _current)",
        "loop1.after": "g1 <- h.hs",
        "insert_node#1.before": "g1 <- h.hs",
        "end": """if isn _current then case_a h.str _token h.base h.hs _new_node
            else begin let p = the _current in let q = pure { the (tr h.base p _token) } in
              if pure { len h.base q = len h.base p + 1 } then case_b h.str _token h.base h.hs _new_node p q
              else case_c h.str _token h.base g1 h.hs _new_node p q (pure { the (link h.hs _new_node) }) end ;
            h.str <- py_snoc h.str _token""",
    },
    loops={
        1: Loop(inv=[
            SOUND,
            ("one node is created", "alloc h.hs = alloc h.base + 1"),
            ("current is on the suffix chain of last", "isn _current \\/ (valid h.base (the _current) /\\ sfx h.str h.base (the _current))"),
            ("longer suffix states lead to the new node", "walked h.str _token h.base h.hs _new_node (if isn _current then -1 else len h.base (the _current))"),
            ("the walk past the root leaves previous at the root", "isn _current -> _previous = some 0"),
        ], var="if isn _current then 0 else len h.base (the _current) + 1"),
    },
)

B = A + ["auto.AutoExt", "auto.AutoStop", "auto.AutoClone", "mem.Mem", "auto.Com", "auto.Desc", "auto.Reach", "auto.Lcs", "auto.AutoSearch"]
WF = ("automaton of the indexed text", "wf h.str h.hs")
LINKED = ("reverse links mirror the links", "linked h.hs")
NODES = ("root is the root of the automaton", "_root = 0")

fn(
    "suffix_automaton", "Node.get_factory", params={"empty_sequence": TEXT}, ret=FN("raw_factory"), theories=B, writes=["h.ids"],
    client={"suffix_automaton.make_id_sequence": "<gen>.ids.start"},
    ensures=[("ids start at 0", "h.ids = 0")],
)
fn(
    "suffix_automaton", "wrap_node_factory", params={"node_factory": FN("raw_factory"), "node_list": SEQ(NODE)}, ret=FN("node_factory"), theories=B,
)
fn(
    "suffix_automaton", "mark_terminal_nodes", params={"final_node": NODE}, ret=NONE, theories=B, writes=["h.hs"],
    requires=[WF, ("final node is the state of the whole text", "_final_node = pre h.hs (length h.str)"),
              ("no state is marked yet", "forall v [term h.hs v]. valid h.hs v -> not (term h.hs v)")],
    ensures=[("only terminal marks change", "same_core (old h.hs) h.hs /\\ forall v [rev h.hs v]. rev h.hs v = rev (old h.hs) v"), WF,
             ("terminal states are exactly the suffix states", "marked h.str h.hs")],
    ghosts={"g0": ("hp", "h.hs")},
    hints={"loop1.start": "chain_next h.str g0 (the _current)", "end": "core_wf h.str g0 h.hs"},
    loops={1: Loop(inv=[
        ("only terminal marks change", "same_core g0 h.hs /\\ forall v [rev h.hs v]. rev h.hs v = rev g0 v"),
        ("current is a suffix state", "isn _current \\/ (valid g0 (the _current) /\\ sfx h.str g0 (the _current))"),
        ("suffix states above current are marked", "forall v [term h.hs v]. valid g0 v -> (term h.hs v <-> sfx h.str g0 v /\\ (isn _current \\/ len g0 v > len g0 (the _current)))"),
    ], var="if isn _current then 0 else len g0 (the _current) + 1")},
)
fn(
    "suffix_automaton", "add_reverse_links", params={"node_list": SEQ(NODE)}, ret=NONE, theories=B, writes=["h.hs"],
    requires=[WF, ("list holds the nodes", "full h.hs /\\ listed h.hs _node_list"),
              ("no reverse links yet", "forall v [rev h.hs v]. valid h.hs v -> rev h.hs v = empty")],
    ensures=[("only reverse links change", "same_core (old h.hs) h.hs /\\ forall v [term h.hs v]. term h.hs v <-> term (old h.hs) v"), WF, LINKED],
    ghosts={"g0": ("hp", "h.hs")},
    hints={"end": "core_wf h.str g0 h.hs", "loop1.start": "assert { _node = k1 }"},
    loops={1: Loop(inv=[
        ("only reverse links change", "same_core g0 h.hs /\\ forall v [term h.hs v]. term h.hs v <-> term g0 v"),
        ("reverse links of the nodes so far", "forall v x [mem x (rev h.hs v)]. valid g0 v -> (mem x (rev h.hs v) <-> 0 <= x < k1 /\\ link g0 x = some v)"),
    ])},
)
fn(
    "suffix_automaton", "build", params={"tokens": TEXT, "reverse_links": BOOL, "mark_terminals": BOOL, "empty": OPT(TEXT)}, ret=NODE,
    theories=B, writes=["h.hs", "h.nodes", "h.str", "h.base", "h.nwn", "h.ids"],
    cells={"node_list": ("h.nodes", SEQ(NODE))},
    requires=[("fresh region", "full h.hs /\\ alloc h.hs = 0")],
    ensures=[
        ("automaton of the tokens", "h.str = _tokens /\\ wf h.str h.hs"),
        ("result is the root", "result = 0"),
        ("at most two nodes per token and the root", "alloc h.hs <= 2 * length _tokens + 1 /\\ full h.hs"),
        ("terminal states are exactly the suffix states", "_mark_terminals -> marked h.str h.hs"),
        ("reverse links mirror the links", "_reverse_links -> linked h.hs"),
    ],
    hints={
        "node_factory#1.after": "h.str <- py_empty () ; ghost_set_pre 0 _root ; base_wf h.hs",
        "end": "()",
    },
    loops={1: Loop(inv=[
        ("automaton of the tokens so far", "h.str = it1[..k1] /\\ wf h.str h.hs"), SOUND,
        ("current is the state of the tokens so far", "_current = pre h.hs k1"),
        ("at most two nodes per token and the root", "alloc h.hs <= 2 * k1 + 1"),
    ])},
)
fn(
    "suffix_automaton", "_find_match_node", params={"root": NODE, "s": TEXT}, ret=OPT(NODE), theories=B,
    requires=[WF, NODES],
    ensures=[
        ("no state only if s does not occur", "isn result -> forall e [com h.str _s (length _s) e (length _s)]. not (com h.str _s (length _s) e (length _s))"),
        ("the state holds s", "isn result \\/ held h.str h.hs _s (the result) (length _s) (length _s)"),
    ],
    hints={
        "start": "begin_at h.str h.hs _s 0",
        "loop1.start": "if pure { isn (tr h.hs (the _current) _s[k1]) } then mismatch h.str h.hs _s (the _current) k1 else advance h.str h.hs _s (the _current) (pure { the (tr h.hs (the _current) _s[k1]) }) k1 k1",
    },
    loops={1: Loop(inv=[
        ("current holds the tokens so far", "not (isn _current) /\\ held h.str h.hs _s (the _current) k1 k1"),
    ])},
)

fn(
    "suffix_automaton", "find_substring", params={"root": NODE, "s": TEXT}, ret=OPT(INT), theories=B, requires=[WF, NODES],
    ensures=[
        ("none only if s does not occur", "isn result -> forall x [occ h.str _s x]. not (occ h.str _s x)"),
        ("result is the first occurrence", "isn result \\/ (occ h.str _s (the result) /\\ forall x [occ h.str _s x]. occ h.str _s x -> the result <= x)"),
    ],
    hints={"end": "if not (isn _current) then occurs h.str h.hs _s (the _current)"},
)
fn(
    "suffix_automaton", "follow_reverse_links", params={"current": NODE}, ret=SEQ(NODE), theories=B + ["auto.Weigh"],
    requires=[WF, LINKED, ("node exists", "valid h.hs _current")],
    ensures=[("result lists the states below the node", "all_of h.str h.hs _current result")],
    hints={
        "start": "g0 <- _current",
        "loop1.before": "assert { forall x [desc h.str h.hs g0 x]. desc h.str h.hs g0 x -> reach h.str h.hs _to_do x }",
        "loop1.start": "assert { length _to_do > 0 }",
        "loop2.before": "popped h.str h.hs _to_do _current ; g1 <- _to_do ; weighed h.str h.hs _current ; assert { it2[..0] = empty }",
        "loop2.after": "assert { forall x [reach h.str h.hs g1 x]. reach h.str h.hs g1 x -> reach h.str h.hs _to_do x } ; assert { forall x [mem x it2]. mem x it2 -> mem x _to_do } ; assert { forall x [reach h.str h.hs it2 x]. reach h.str h.hs it2 x -> reach h.str h.hs _to_do x }",
        "loop2.start": "child_desc h.str h.hs g0 _current _child ; assert { it2[..k2 + 1] = snoc it2[..k2] it2[k2] }",
    },
    ghosts={"g0": ("int", "0"), "g1": (SEQ(NODE), "py_empty ()")},
    loops={
        1: Loop(inv=[
            ("listed nodes are below", "forall x [mem x _all]. mem x _all -> desc h.str h.hs g0 x"),
            ("waiting nodes are below", "forall x [mem x _to_do]. mem x _to_do -> desc h.str h.hs g0 x"),
            ("every node below is listed or is reached from a waiting one", "forall x [desc h.str h.hs g0 x]. desc h.str h.hs g0 x -> mem x _all \\/ reach h.str h.hs _to_do x"),
        ], var="wl h.hs (length h.str) _to_do"),
        2: Loop(inv=[
            ("waiting nodes are below", "forall x [mem x _to_do]. mem x _to_do -> desc h.str h.hs g0 x"),
            ("nothing is lost", "forall x [mem x g1]. mem x g1 -> mem x _to_do"),
            ("children so far are waiting", "forall i [it2[i]]. 0 <= i < k2 -> mem it2[i] _to_do"),
            ("weight of what waits", "wl h.hs (length h.str) _to_do = wl h.hs (length h.str) g1 + wl h.hs (length h.str) it2[..k2]"),
        ]),
    },
)
fn(
    "suffix_automaton", "dedup_sorted", params={"sequence": SEQ(INT)}, ret=SEQ(INT), theories=["mem.Mem"], kind="plain",
    requires=[("ascending", "ascending _sequence")],
    ensures=[("strictly ascending", "strictly result"), ("same values", "forall x [mem x _sequence | mem x result]. mem x result <-> mem x _sequence")],
    loops={1: Loop(inv=[
        ("strictly ascending", "strictly _deduped"),
        ("values so far", "forall x. mem x _deduped <-> mem x it1[..k1]"),
        ("the last value is kept", "k1 > 0 -> length _deduped > 0 /\\ _deduped[length _deduped - 1] = it1[k1 - 1]"),
    ])},
)
fn(
    "suffix_automaton", "_get_all_start_positions", params={"current": NODE, "length": INT}, ret=SEQ(INT), theories=B,
    requires=[WF, LINKED, ("node exists", "valid h.hs _current")],
    ensures=[("strictly ascending", "strictly result"),
             ("start positions of the words of the state", "forall x [mem x result | ends_at h.str h.hs _current _length x]. mem x result <-> ends_at h.str h.hs _current _length x")],
    hints={"c1.after": "starts h.str h.hs _current _length itc1 rc1"},
)
fn(
    "suffix_automaton", "find_substring_all", params={"root": NODE, "s": TEXT}, ret=SEQ(INT), theories=B, kind="plain",
    requires=[WF, NODES, LINKED],
    ensures=[("strictly ascending", "strictly result"),
             ("all occurrences and nothing else", "forall x [mem x result | occ h.str _s x]. mem x result <-> occ h.str _s x")],
    hints={"end": "if not (isn _current) then occurs h.str h.hs _s (the _current)"},
)
fn(
    "suffix_automaton", "find_lcs", params={"root": NODE, "s": TEXT}, ret=TUP(INT, INT, INT), theories=B, requires=[WF, NODES], locals={"current": NODE},
    ensures=[("a longest common substring, first in s, then first in the indexed text", "let (a, b, k) = result in lcs h.str _s a b k")],
    hints={
        "start": "begin_at h.str h.hs _s 0",
        "loop1.start": "next_longest h.str _s _current_match_length k1",
        "loop2.start": "stuck h.str h.hs _s _current _current_match_length k1 ; drop_to h.str h.hs _s _current _current_match_length k1",
        "loop2.after": """if isn _next then begin stuck h.str h.hs _s _current _current_match_length k1 ; begin_at h.str h.hs _s (k1 + 1) end
           else begin advance h.str h.hs _s _current (the _next) _current_match_length k1 ; first_occ h.str h.hs _s (the _next) (_current_match_length + 1) (k1 + 1) end""",
    },
    loops={
        1: Loop(inv=[
            ("current holds the longest match that ends here", "held h.str h.hs _s _current _current_match_length k1 /\\ longest h.str _s _current_match_length k1"),
            ("best match so far", "best h.str _s _longest_match_s1_endpos _longest_match_s2_endpos _longest_match_length k1"),
        ]),
        2: Loop(inv=[
            ("current holds a match that ends here", "held h.str h.hs _s _current _current_match_length k1"),
            ("no longer match can be extended", "longest h.str _s (_current_match_length + 1) (k1 + 1)"),
        ], var="len h.hs _current"),
    },
)
