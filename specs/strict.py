"""Contracts of merge.py for conflicts only where both branches differ from the parent (C06): those of specs/merge.py, strengthened."""
from dataclasses import replace
from vfw.spec import *
import specs.merge  # noqa: F401

R = ["calm.Calm", "strict.Alive", "blocks.Block0", "blocks.Block", "runs.Runs"]
S = ["py.PyFlat", "auto.Com", "auto.Lcs", "diff.Diff", "merge.Mark", "merge.Marks", "merge.Groups"]
Q = ["diff.Normal", "calm.Calm", "calm.Sole", "blocks.Block0", "blocks.Block", "runs.Sparse", "runs.Refine"]
CALLS = ("merge.pending_conflict", "merge.copy_copy", "merge.copy_change", "merge.change_change", "merge.process_fragments", "merge.flush_remaining",
         "merge._merge", "merge.consolidate_conflicts", "merge.consolidate_all", "merge.consolidate")


def also(name, theories=S + R, ensures=(), requires=(), inv={}, hints={}, ghosts={}, **kw):
    """The contract of a function with more postconditions, loop invariants and hints."""
    b = FNS[name]
    h = dict(b.hints)
    for k, v in hints.items():
        h[k] = f"{h[k]} ; {v}" if k in h else v
    loops = {k: replace(l, inv=l.inv + inv.get(k, [])) for k, l in b.loops.items()}
    f = replace(b, key=f"{name}(C06)", vname=b.why + "_c06", theories=b.theories + [t for t in theories if t not in b.theories], requires=b.requires + list(requires), ensures=b.ensures + list(ensures),
                hints=h, loops=loops, ghosts={**b.ghosts, **ghosts}, client={**b.client, **{c: f"{c}(C06)" for c in CALLS}}, **kw)
    FNS[f.name] = f


also("merge.pending_conflict", ensures=[("a conflict, and what is left", "let (o, t0, t1) = result in conflicts (the o) /\\ kept _fragment0 t0 /\\ kept _fragment1 t1")])
also("merge.copy_copy", ensures=[("the common text, and what is left", "let (o, t0, t1) = result in moved _fragment0 _fragment1 o t0 t1 true false")])
also("merge.copy_change", ensures=[("the change, or a conflict where it reaches beyond the copy", "let (o, t0, t1) = result in if conflicts (the o) then moved _change_fragment _copy_fragment o t1 t0 false true else moved _change_fragment _copy_fragment o t1 t0 false false")])
also("merge.change_change", ensures=[("one of the changes, or a conflict of two changes", "let (o, t0, t1, c) = result in moved _fragment0 _fragment1 o t0 t1 false c")])
also("merge.process_fragments", ensures=[("a conflict begins where both branches change the parent and goes on up to a common copy", "let (o, t0, t1, c) = result in moved _fragment0 _fragment1 o t0 t1 _within_conflict c")],
     hints={"end": "let (o', t0', t1', w') = result_ in let lemma turned_move (o: opt frag) (w: bool) requires { stepped _fragment1 _fragment0 o t1' t0' /\\ flips o o' /\\ moved _fragment1 _fragment0 o t1' t0' false w } "
                   "ensures { moved _fragment0 _fragment1 o' t0' t1' false w } = moved_swap _fragment1 _fragment0 o o' t1' t0' w in ()"})
also("merge.flush_remaining", ensures=[("a run of conflicts goes on to the end", "flushes _within_conflict (rev _fragments0) (rev _fragments1) result")],
     inv={1: [("as they are", "not _within_conflict -> __out = it1[..k1]"),
              ("conflicts", "_within_conflict -> confl __out /\\ fv1 __out = text0 (length _fragments0 > 0) (fnew it1[..k1]) /\\ fv2 __out = text1 (length _fragments0 > 0) (fnew it1[..k1])")]},
     hints={"loop1.end": "assert { it1[..k1 + 1] == snoc it1[..k1] it1[k1] } ; assert { not _within_conflict -> __out == it1[..k1 + 1] } ; assert { fnew it1[..k1 + 1] = fnew it1[..k1] ++ fnew1 it1[k1] }",
            "loop1.after": "assert { it1[..length it1] == it1 }"})
R0, R1 = "(rev _fragments0)", "(rev _fragments1)"
SHIFT = ("let r0' = pure { _fragments0 } in let r1' = pure { _fragments1 } in let q0' = pure { rev r0' } in let q1' = pure { rev r1' } in "
         "assert { wff _fragment0 /\\ wff _fragment1 /\\ wfs q0' /\\ wfs q1' } ; assert { rev (snoc r0' _fragment0) = singleton _fragment0 ++ q0' /\\ rev (snoc r1' _fragment1) = singleton _fragment1 ++ q1' } ; "
         "assert { forall t. rev (pushed r0' t) == lst t ++ q0' } ; assert { forall t. rev (pushed r1' t) == lst t ++ q1' } ; "
         "xstep __out q0' q1' _fragment0 _fragment1 _output _tail0 _tail1 g_w _within_conflict g_p g_a g_b")
also("merge._merge",
     requires=[("edit scripts of longest common parts", f"alive {R0} /\\ cc {R0} /\\ alive {R1} /\\ cc {R1}")],
     ensures=[("conflicts only where both branches differ from the parent", "xg result (fold (rev (old _fragments0))) (fnew (rev (old _fragments0))) (fnew (rev (old _fragments1)))")],
     ghosts={"g_w": (BOOL, "false")},
     inv={1: [("run by run", f"xstate _within_conflict __out {R0} {R1} g_p g_a g_b"), ("no conflict outside of a run", "not _within_conflict -> closed __out")]},
     hints={"loop1.before": f"xstart (pure {{ {R0} }}) (pure {{ {R1} }})", "loop1.start": "g_w <- _within_conflict",
            "process_fragments#1.after": SHIFT,
            "loop1.after": f"let lemma ends (rest: seq frag) requires {{ flushes _within_conflict {R0} {R1} rest }} ensures {{ xg (__out ++ rest) g_p g_a g_b }} "
                           f"= xend _within_conflict __out (pure {{ {R0} }}) (pure {{ {R1} }}) rest g_p g_a g_b in ()"})
NOC = "not (length _input_stack > 0 /\\ conflicts _input_stack[length _input_stack - 1])"
also("merge.consolidate_conflicts", Q,
     ensures=[("run by run the texts of the branches", "xpartly _input_stack (fmarks result)"), ("no adjacent conflicts", "sparse result")],
     ghosts={"g_o": (SEQ(FAM("frag")), "pure { (empty: seq frag) }")},
     inv={1: [("run by run", "xpartly _0_input_stack[..g_k] (fmarks __out) /\\ sparse __out"), ("between runs", "length _input_stack = 0 \\/ closed _0_input_stack[..g_k] /\\ closed __out")],
          2: [("run by run", "xpartly _0_input_stack[..g_m] (fmarks __out) /\\ sparse __out"), ("between runs", "closed _0_input_stack[..g_m] /\\ closed __out")],
          3: [("this run", "onto g_o __out (fnew it3[..k3]) (fold it3[..k3]) /\\ sparse __out"), ("by turns", "if k3 = 0 then __out = g_o /\\ closed __out else copies it3[k3 - 1] <-> closed __out")],
          4: [("run by run", "xpartly _0_input_stack[..g_k] (fmarks __out) /\\ sparse __out"), ("between runs", f"{NOC} \\/ closed _0_input_stack[..g_k] /\\ closed __out")]},
     hints={"loop1.before": "xp_none ()",
            "joiner#2.after": "made_turns_all _version2 _version1 ; g_o <- __out ; onto_none g_o",
            "loop3.end": "let o' = pure { __out[..length __out - 1] } in let f' = pure { __out[length __out - 1] } in onto_piece g_o o' (pure { fnew it3[..k3] }) (pure { fold it3[..k3] }) f' (pure { fnew1 it3[k3] }) (pure { fold1 it3[k3] }) ; sparse_snoc o' f' ; "
                         "assert { it3[..k3 + 1] == snoc it3[..k3] it3[k3] }",
            "loop3.after": "assert { it3[..length it3] == it3 } ; if py_len _conflict_group > 0 then onto_run (pure { _0_input_stack[..g_m] }) _conflict_group g_o __out else no_text it3",
            "loop4.start": "xp_plain (pure { _0_input_stack[..g_k] }) (pure { fmarks __out }) (pure { _0_input_stack[g_k] }) ; sparse_snoc __out (pure { _0_input_stack[g_k] })"})
also("merge.consolidate_all", ["blocks.Block0", "runs.Sparse"], ensures=[("the same tokens and conflicts", "sparse _staged -> dmarks result = fmarks _staged")],
     inv={1: [("the same so far", "sparse _0_staged -> dmarks __out = fmarks _0_staged[..g_k]")],
          2: [("the same so far", "sparse _0_staged -> dmarks __out = fmarks _0_staged[..g_m]")],
          3: [("the same so far", "sparse _0_staged -> dmarks __out = fmarks _0_staged[..g_m]")]},
     hints={"loop2.after": "whole _0_staged g_n g_k ; if pure { sparse _0_staged } then begin sparse_run _0_staged _conflict_group g_n g_k ; assert { fmarks _0_staged[..g_k] = fmarks _0_staged[..g_n] ++ fmarks _conflict_group } end",
            "loop3.after": "plain_marks _copy_or_change_group ; assert { fmarks _0_staged[..g_k] = fmarks _0_staged[..g_m] ++ fmarks _copy_or_change_group }"})
also("merge.consolidate", Q, ensures=[("run by run the texts of the branches", "xpartly _fragments (dmarks result)")])
also("merge.merge_token_sequence", S + R + ["diff.Normal", "calm.Sole", "runs.Sparse", "runs.Refine"],
     ensures=[("a conflict only where both branches differ from the parent", "xgives (dmarks result) _parent _branch0 _branch1")],
     hints={"find_changeset#1.after": "made_cc _parent _branch0 _changeset0 ; tree_alive _parent _branch0 0 (py_len _parent) 0 (py_len _branch0) _changeset0",
            "find_changeset#2.after": "made_cc _parent _branch1 _changeset1 ; tree_alive _parent _branch1 0 (py_len _parent) 0 (py_len _branch1) _changeset1"})
