"""Contracts of merge.py for edits that do not touch each other (C07): those of specs/merge.py, strengthened."""
from dataclasses import replace
from vfw.spec import *
import specs.merge  # noqa: F401

C = ["calm.Calm"]
D = C + ["diff.Normal", "calm.Sole"]
CALLS = ("changesets.find_changeset", "merge.copy_copy", "merge.copy_change", "merge.change_change", "merge.process_fragments", "merge.flush_remaining",
         "merge._merge", "merge.consolidate_conflicts", "merge.consolidate_all", "merge.consolidate")


def also(name, theories=C, ensures=(), inv={}, hints={}, ghosts={}, **kw):
    """The contract of a function with more postconditions, loop invariants and hints."""
    b = FNS[name]
    h = dict(b.hints)
    for k, v in hints.items():
        h[k] = f"{h[k]} ; {v}" if k in h else v
    loops = {k: replace(l, inv=l.inv + inv.get(k, [])) for k, l in b.loops.items()}
    module, qual = name.split(".", 1)
    f = replace(b, key=f"{name}(C07)", vname=b.why + "_c07", theories=b.theories + [t for t in theories if t not in b.theories], ensures=b.ensures + list(ensures), hints=h, loops=loops,
                ghosts={**b.ghosts, **ghosts}, client={**b.client, **{c: f"{c}(C07)" for c in CALLS}}, **kw)
    FNS[f.name] = f


also("changesets.find_changeset", D,
     [("every common part is the first longest one", "det _original _modified (slice_start _original_slice) (hi _original _original_slice) (slice_start _modified_slice) (hi _modified _modified_slice) result")])
PLAIN = "tame _fragment0 _fragment1"
also("merge.copy_copy", ensures=[("two copies: the shorter one, and what is left", "let (o, t0, t1) = result in cleaned _fragment0 _fragment1 o t0 t1")])
also("merge.copy_change", ensures=[("a change no longer than the copy: the change, and what is left", "let (o, t0, t1) = result in flen _change_fragment <= flen _copy_fragment -> cleaned _copy_fragment _change_fragment o t0 t1")])
also("merge.change_change", ensures=[("a change made twice: the change", "let (o, t0, t1, c) = result in _fragment0 = _fragment1 -> cleaned _fragment0 _fragment1 o t0 t1 /\\ not c")])
also("merge.process_fragments", ensures=[("no conflict where the fragments do not collide", f"let (o, t0, t1, c) = result in not _within_conflict -> {PLAIN} -> cleaned _fragment0 _fragment1 o t0 t1 /\\ not c")])
also("merge.flush_remaining", ensures=[("no conflict begins here", "not _within_conflict -> result = (if length _fragments0 > 0 then rev _fragments0 else rev _fragments1)")],
     inv={1: [("as they are", "not _within_conflict -> __out = it1[..k1]")]},
     hints={"loop1.end": "assert { not _within_conflict -> __out == it1[..k1 + 1] }", "loop1.after": "assert { it1[..length it1] == it1 }"})
R0, R1 = "(rev _fragments0)", "(rev _fragments1)"
SHIFT = ("let r0' = pure { _fragments0 } in let r1' = pure { _fragments1 } in let n' = pure { flen (both _fragment0 _fragment1) } in let q0' = pure { rev r0' } in let q1' = pure { rev r1' } in "
         "assert { wff _fragment0 /\\ wff _fragment1 /\\ wfs q0' /\\ wfs q1' } ; assert { rev (snoc r0' _fragment0) = singleton _fragment0 ++ q0' /\\ rev (snoc r1' _fragment1) = singleton _fragment1 ++ q1' } ; "
         "assert { forall t. rev (pushed r0' t) == lst t ++ q0' } ; assert { forall t. rev (pushed r1' t) == lst t ++ q1' } ; "
         "if pure { calm g_s0 g_s1 0 } then begin same_left __out (pure { singleton _fragment0 ++ q0' }) (pure { singleton _fragment1 ++ q1' }) g_s0 g_s1 g_p ; tame_heads _fragment0 _fragment1 q0' q1' (pure { hs __out }) ; "
         "  assert { _output = some (both _fragment0 _fragment1) } ; "
         "  moves _fragment0 _fragment1 ; step_tidy __out q0' q1' g_s0 g_s1 _fragment0 _fragment1 (pure { both _fragment0 _fragment1 }) n' g_p ; "
         "  step_lone __out q0' q1' g_s0 g_s1 _fragment0 _fragment1 (pure { both _fragment0 _fragment1 }) n' end ; "
         "if pure { g_s0 = g_s1 } then begin tame_twins __out q0' q1' g_s0 _fragment0 _fragment1 ; step_twins __out q0' q1' g_s0 _fragment0 _fragment1 end")
also("merge._merge",
     ensures=[("edits that do not touch: all of them, no conflict", "calm (rev (old _fragments0)) (rev (old _fragments1)) 0 -> united (fold (rev (old _fragments0))) (rev (old _fragments0)) (rev (old _fragments1)) result"),
              ("one script without change: the other one", "calm (rev (old _fragments0)) (rev (old _fragments1)) 0 -> allcopy (rev (old _fragments0)) -> fnew result = fnew (rev (old _fragments1))"),
              ("the other script without change: the one", "calm (rev (old _fragments0)) (rev (old _fragments1)) 0 -> allcopy (rev (old _fragments1)) -> fnew result = fnew (rev (old _fragments0))"),
              ("equal scripts: the script", "rev (old _fragments0) = rev (old _fragments1) -> result = rev (old _fragments0)")],
     ghosts={"g_s0": (SEQ(F := FAM("frag")), "pure { rev _fragments0 }"), "g_s1": (SEQ(F), "pure { rev _fragments1 }")},
     inv={1: [("edits that do not touch so far", f"calm g_s0 g_s1 0 -> not _within_conflict /\\ tidy __out {R0} {R1} g_s0 g_s1 g_p /\\ lone __out {R0} {R1} g_s0 g_s1"),
              ("equal scripts so far", f"g_s0 = g_s1 -> not _within_conflict /\\ twins __out {R0} {R1} g_s0")]},
     hints={"loop1.before": "if pure { calm g_s0 g_s1 0 } then tidy_start g_s0 g_s1 g_p ; assert { empty ++ g_s0 == g_s0 }",
            "process_fragments#1.after": SHIFT,
            "loop1.after": f"if pure {{ calm g_s0 g_s1 0 }} then tidy_end __out (pure {{ {R0} }}) (pure {{ {R1} }}) g_s0 g_s1 (pure {{ if length _fragments0 > 0 then {R0} else {R1} }}) g_p"})
also("merge.consolidate_conflicts", ensures=[("fragments without conflict stay as they are", "quiet _input_stack -> result = _input_stack")],
     inv={1: [("as they are", "quiet _0_input_stack -> __out = _0_input_stack[..g_k]")],
          2: [("no conflict", "quiet _0_input_stack -> __out = _0_input_stack[..g_m] /\\ g_m = g_k")],
          3: [("as they are", "quiet _0_input_stack -> __out = _0_input_stack[..g_k] /\\ g_m = g_k /\\ it3 = empty")],
          4: [("as they are", "quiet _0_input_stack -> __out = _0_input_stack[..g_k]")]})
also("merge.consolidate_all", ensures=[("fragments without conflict: their text", "quiet _staged -> dmarks result = tmarks (fnew _staged)")],
     inv={1: [("their text", "quiet _0_staged -> dmarks __out = tmarks (fnew _0_staged[..g_k])")],
          2: [("no conflict", "quiet _0_staged -> dmarks __out = tmarks (fnew _0_staged[..g_m]) /\\ g_m = g_k")],
          3: [("their text", "quiet _0_staged -> dmarks __out = tmarks (fnew _0_staged[..g_m])")]})
also("merge.consolidate", ensures=[("fragments without conflict: their text", "quiet _fragments -> dmarks result = tmarks (fnew _fragments)")])
also("merge.merge_token_sequence", D,
     ensures=[("a branch like the parent: the other branch", "_parent = _branch0 -> dmarks result = tmarks _branch1"),
              ("the other branch like the parent: the one branch", "_parent = _branch1 -> dmarks result = tmarks _branch0"),
              ("equal branches: the branch", "_branch0 = _branch1 -> dmarks result = tmarks _branch0"),
              ("edits that do not touch: all of them applied, no conflict",
               "forall t0 t1 [diffed _parent _branch0 t0, diffed _parent _branch1 t1]. diffed _parent _branch0 t0 -> diffed _parent _branch1 t1 -> "
               "let s0 = fstream _parent t0 in let s1 = fstream _parent t1 in sep s0 s1 0 -> exists fs. united _parent s0 s1 fs /\\ dmarks result = tmarks (fnew fs)")],
     hints={"find_changeset#1.after": "made_cc _parent _branch0 _changeset0 ; if pure { _parent = _branch0 } then no_change _parent _changeset0",
            "find_changeset#2.after": "made_cc _parent _branch1 _changeset1 ; if pure { _parent = _branch1 } then no_change _parent _changeset1 ; "
            "let n' = py_len _parent in let m0' = py_len _branch0 in let m1' = py_len _branch1 in "
            "if pure { _branch0 = _branch1 } then sole _parent _branch0 0 n' 0 m0' _changeset0 _changeset1 ; "
            "if pure { _parent = _branch0 \\/ _parent = _branch1 } then sep_copies (pure { fstream _parent _changeset0 }) (pure { fstream _parent _changeset1 }) ; "
            "let lemma only0 (t: cs) requires { diffed _parent _branch0 t } ensures { fstream _parent t = fstream _parent _changeset0 } = sole _parent _branch0 0 n' 0 m0' t _changeset0 in "
            "let lemma only1 (t: cs) requires { diffed _parent _branch1 t } ensures { fstream _parent t = fstream _parent _changeset1 } = sole _parent _branch1 0 n' 0 m1' t _changeset1 in ()"})
