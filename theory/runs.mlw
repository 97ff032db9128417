(* The merge loop, run of conflicts by run of conflicts. *)
module Runs
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyFlat
  use py.PyRev
  use codec.Item
  use diff.Tree
  use diff.Streams
  use merge.Mark
  use merge.Marks
  use merge.FragOps
  use merge.Shows
  use merge.Groups
  use calm.Calm
  use strict.Alive
  use blocks.Block0
  use blocks.Block

  (* one step: outside of a run of conflicts, into one, within one *)
  predicate clash (f0 f1: frag) (t0 t1: opt frag) =
    changes f0 /\ changes f1 \/
    copies f0 /\ changes f1 /\ isn t0 /\ length (oold t1) > 0 \/
    changes f0 /\ copies f1 /\ isn t1 /\ length (oold t0) > 0
  predicate moved (f0 f1: frag) (o t0 t1: opt frag) (w w': bool) =
    if w' then conflicts (the o) /\ kept f0 t0 /\ kept f1 t1 /\ (w \/ clash f0 f1 t0 t1)
    else xshows (the o) (eat_old f0 t0) (eat_new f0 t0) (eat_new f1 t1) /\ whole f0 t0 /\ whole f1 t1 /\ (w -> copies f0 /\ copies f1)

  let ghost moved_swap (f0 f1: frag) (o o' t0 t1: opt frag) (w: bool)
    requires { stepped f0 f1 o t0 t1 /\ flips o o' /\ moved f0 f1 o t0 t1 false w }
    ensures { moved f1 f0 o' t1 t0 false w }
  = assert { eat_old f1 t1 = eat_old f0 t0 }

  predicate outw (out t0 t1: seq frag) (p a b p1 a1 b1: seq int) =
    xg out p1 a1 b1 /\ p = p1 ++ fold t0 /\ p = p1 ++ fold t1 /\ a = a1 ++ fnew t0 /\ b = b1 ++ fnew t1
  predicate cold (out t0 t1: seq frag) (p a b: seq int) =
    alive t0 /\ cc t0 /\ alive t1 /\ cc t1 /\ exists p1 a1 b1. outw out t0 t1 p a b p1 a1 b1
  (* a run g of conflicts is under way: it began where ts0 and ts1 were left *)
  predicate hotw (out t0 t1: seq frag) (p a b: seq int) (s g: seq frag) (c p1 a1 b1: seq int) (ts0 ts1: seq frag) =
    out = s ++ g /\ closed s /\ confl g /\ length g > 0 /\ outw s ts0 ts1 p a b p1 a1 b1 /\
    alive ts0 /\ cc ts0 /\ alive ts1 /\ cc ts1 /\ live ts0 t0 /\ live ts1 t1 /\
    fold ts0 = c ++ fold t0 /\ fold ts1 = c ++ fold t1 /\ fnew ts0 = fv1 g ++ fnew t0 /\ fnew ts1 = fv2 g ++ fnew t1
  predicate hot (out t0 t1: seq frag) (p a b: seq int) = exists s g c p1 a1 b1 ts0 ts1. hotw out t0 t1 p a b s g c p1 a1 b1 ts0 ts1
  predicate xstate (w: bool) (out t0 t1: seq frag) (p a b: seq int) = if w then hot out t0 t1 p a b else cold out t0 t1 p a b

  let ghost eaten (f0 f1: frag) (o t0 t1: opt frag)
    requires { stepped f0 f1 o t0 t1 }
    ensures { fold1 f0 = eat_old f0 t0 ++ oold t0 /\ fold1 f1 = eat_old f0 t0 ++ oold t1 }
    ensures { fnew1 f0 = eat_new f0 t0 ++ onew t0 /\ fnew1 f1 = eat_new f1 t1 ++ onew t1 }
    ensures { forall r. fold (singleton f0 ++ r) = eat_old f0 t0 ++ fold (lst t0 ++ r) }
    ensures { forall r. fold (singleton f1 ++ r) = eat_old f0 t0 ++ fold (lst t1 ++ r) }
    ensures { forall r. fnew (singleton f0 ++ r) = eat_new f0 t0 ++ fnew (lst t0 ++ r) }
    ensures { forall r. fnew (singleton f1 ++ r) = eat_new f1 t1 ++ fnew (lst t1 ++ r) }
  = assert { fold (lst t0) = oold t0 /\ fnew (lst t0) = onew t0 };
    assert { fold (lst t1) = oold t1 /\ fnew (lst t1) = onew t1 };
    assert { forall r. fold (singleton f0 ++ r) = fold1 f0 ++ fold r };
    assert { forall r. fold (singleton f1 ++ r) = fold1 f1 ++ fold r };
    assert { forall r. fnew (singleton f0 ++ r) = fnew1 f0 ++ fnew r };
    assert { forall r. fnew (singleton f1 ++ r) = fnew1 f1 ++ fnew r };
    assert { forall r. fold (lst t0 ++ r) = oold t0 ++ fold r };
    assert { forall r. fold (lst t1 ++ r) = oold t1 ++ fold r };
    assert { forall r. fnew (lst t0 ++ r) = onew t0 ++ fnew r };
    assert { forall r. fnew (lst t1 ++ r) = onew t1 ++ fnew r }
  let ghost strand_all (t: seq frag)
    ensures { strand t t 0 }
  = assert { t[0..] = t }
  let ghost alive_tail (f: frag) (r: seq frag) (t: opt frag)
    requires { alive (singleton f ++ r) /\ cc (singleton f ++ r) /\ whole f t }
    ensures { alive (lst t ++ r) /\ cc (lst t ++ r) }
  = let ts = pure { singleton f ++ r } in
    cons_tail f r;
    if isn t then begin
      assert { lst t ++ r = r };
      assert { strand ts r 1 };
      alive_strand ts r 1
    end else begin
      cons_tail (pure { the t }) r;
      if pure { the t = f } then assert { lst t ++ r = ts }
      else begin
        assert { strand ts (lst t ++ r) 0 };
        alive_strand ts (pure { lst t ++ r }) 0
      end
    end
  let ghost live_first (f: frag) (r: seq frag) (t: opt frag)
    requires { wff f /\ wfs r /\ kept f t /\ cc (singleton f ++ r) /\ (changes f \/ isn t /\ length r > 0) }
    ensures { live (singleton f ++ r) (lst t ++ r) }
  = let ts = pure { singleton f ++ r } in
    cons_tail f r;
    strand_all ts;
    let k = strand_step ts r f t 0 in
    if pure { changes f } then assert { armed ts k }
    else begin
      assert { copies ts[0] };
      assert { not (copies ts[1]) };
      assert { ts[1] = r[0] };
      assert { changes ts[1] };
      assert { armed ts k }
    end
  let ghost live_next (ts r: seq frag) (f: frag) (t: opt frag)
    requires { live ts (singleton f ++ r) /\ kept f t }
    ensures { live ts (lst t ++ r) }
  = let lemma one (k: int)
      requires { strand ts (singleton f ++ r) k /\ armed ts k }
      ensures { live ts (lst t ++ r) }
    = let k' = strand_step ts r f t k in
      assert { armed ts k' } in
    ()
  let ghost live_end (ts t: seq frag)
    requires { live ts t }
    ensures { strand ts empty (length ts) /\ armed ts (length ts) }
  = assert { ts[length ts..] = empty }
  let ghost live_fired (ts t: seq frag) (c x: seq int)
    requires { alive ts /\ cc ts /\ live ts t /\ tops t /\ fold ts = c ++ fold t /\ fnew ts = x ++ fnew t }
    ensures { c <> x /\ alive t /\ cc t }
  = let lemma one (k: int)
      requires { strand ts t k /\ armed ts k }
      ensures { c <> x /\ alive t /\ cc t }
    = fired ts t k c x;
      alive_strand ts t k in
    ()

  let ghost cold_cold (out r0 r1: seq frag) (f0 f1: frag) (o t0 t1: opt frag) (w: bool) (p a b: seq int)
    requires { cold out (singleton f0 ++ r0) (singleton f1 ++ r1) p a b /\ stepped f0 f1 o t0 t1 /\ moved f0 f1 o t0 t1 w false }
    ensures { cold (snoc out (the o)) (lst t0 ++ r0) (lst t1 ++ r1) p a b /\ closed (snoc out (the o)) }
  = eaten f0 f1 o t0 t1;
    alive_tail f0 r0 t0;
    alive_tail f1 r1 t1;
    let c = pure { eat_old f0 t0 } in
    let x = pure { eat_new f0 t0 } in
    let y = pure { eat_new f1 t1 } in
    let u0 = pure { lst t0 ++ r0 } in
    let u1 = pure { lst t1 ++ r1 } in
    let lemma one (p1 a1 b1: seq int)
      requires { outw out (singleton f0 ++ r0) (singleton f1 ++ r1) p a b p1 a1 b1 }
      ensures { cold (snoc out (the o)) u0 u1 p a b }
    = xg_plain out p1 a1 b1 (pure { the o }) c x y;
      assert { p = (p1 ++ c) ++ fold u0 };
      assert { p = (p1 ++ c) ++ fold u1 };
      assert { a = (a1 ++ x) ++ fnew u0 };
      assert { b = (b1 ++ y) ++ fnew u1 };
      assert { outw (snoc out (the o)) u0 u1 p a b (p1 ++ c) (a1 ++ x) (b1 ++ y) } in
    ()
  let ghost more_left (f0 f1: frag) (r0 r1: seq frag) (o t0 t1: opt frag)
    requires { stepped f0 f1 o t0 t1 /\ isn t0 /\ length (oold t1) > 0 /\ fold (singleton f0 ++ r0) = fold (singleton f1 ++ r1) }
    ensures { length r0 > 0 }
  = eaten f0 f1 o t0 t1;
    assert { length (fold (singleton f1 ++ r1)) = length (fold1 f1) + length (fold r1) };
    assert { length (fold (singleton f0 ++ r0)) = length (fold1 f0) + length (fold r0) };
    assert { length (fold1 f0) < length (fold1 f1) };
    assert { length r0 = 0 -> r0 = empty /\ length (fold r0) = 0 }
  let ghost cold_hot (out r0 r1: seq frag) (f0 f1: frag) (o t0 t1: opt frag) (p a b: seq int)
    requires { cold out (singleton f0 ++ r0) (singleton f1 ++ r1) p a b /\ stepped f0 f1 o t0 t1 /\ moved f0 f1 o t0 t1 false true /\ closed out }
    requires { wff f0 /\ wff f1 /\ wfs r0 /\ wfs r1 }
    ensures { hot (snoc out (the o)) (lst t0 ++ r0) (lst t1 ++ r1) p a b }
  = eaten f0 f1 o t0 t1;
    let ts0 = pure { singleton f0 ++ r0 } in
    let ts1 = pure { singleton f1 ++ r1 } in
    let u0 = pure { lst t0 ++ r0 } in
    let u1 = pure { lst t1 ++ r1 } in
    let c = pure { eat_old f0 t0 } in
    let g = pure { singleton (the o) } in
    assert { fv1 g = eat_new f0 t0 /\ fv2 g = eat_new f1 t1 };
    assert { confl g };
    let lemma one (p1 a1 b1: seq int)
      requires { outw out ts0 ts1 p a b p1 a1 b1 }
      ensures { hot (snoc out (the o)) u0 u1 p a b }
    = app_cancel p1 (pure { fold ts0 }) (pure { fold ts1 });
      if pure { copies f0 } then begin
        more_left f0 f1 r0 r1 o t0 t1
      end;
      if pure { copies f1 } then begin
        assert { length (fold ts0) = length (fold1 f0) + length (fold r0) };
        assert { length (fold ts1) = length (fold1 f1) + length (fold r1) };
        assert { length (fold1 f1) < length (fold1 f0) };
        assert { length r1 = 0 -> r1 = empty /\ length (fold r1) = 0 };
        assert { length r1 > 0 }
      end;
      live_first f0 r0 t0;
      live_first f1 r1 t1;
      assert { snoc out (the o) = out ++ g };
      assert { hotw (snoc out (the o)) u0 u1 p a b out g c p1 a1 b1 ts0 ts1 } in
    ()
  let ghost hot_hot (out r0 r1: seq frag) (f0 f1: frag) (o t0 t1: opt frag) (p a b: seq int)
    requires { hot out (singleton f0 ++ r0) (singleton f1 ++ r1) p a b /\ stepped f0 f1 o t0 t1 /\ moved f0 f1 o t0 t1 true true }
    ensures { hot (snoc out (the o)) (lst t0 ++ r0) (lst t1 ++ r1) p a b }
  = eaten f0 f1 o t0 t1;
    let u0 = pure { lst t0 ++ r0 } in
    let u1 = pure { lst t1 ++ r1 } in
    let e = pure { eat_old f0 t0 } in
    let x = pure { eat_new f0 t0 } in
    let y = pure { eat_new f1 t1 } in
    let lemma one (s g: seq frag) (c p1 a1 b1: seq int) (ts0 ts1: seq frag)
      requires { hotw out (singleton f0 ++ r0) (singleton f1 ++ r1) p a b s g c p1 a1 b1 ts0 ts1 }
      ensures { hot (snoc out (the o)) u0 u1 p a b }
    = live_next ts0 r0 f0 t0;
      live_next ts1 r1 f1 t1;
      let h = pure { snoc g (the o) } in
      assert { fv1 h = fv1 g ++ x };
      assert { fv2 h = fv2 g ++ y };
      assert { confl h };
      assert { s ++ h = snoc out (the o) };
      assert { fold ts0 = (c ++ e) ++ fold u0 };
      assert { fold ts1 = (c ++ e) ++ fold u1 };
      assert { fnew ts0 = fv1 h ++ fnew u0 };
      assert { fnew ts1 = fv2 h ++ fnew u1 };
      assert { hotw (snoc out (the o)) u0 u1 p a b s h (c ++ e) p1 a1 b1 ts0 ts1 } in
    ()
  let ghost cooled (out t0 t1: seq frag) (p a b: seq int)
    requires { hot out t0 t1 p a b /\ tops t0 /\ tops t1 }
    ensures { cold out t0 t1 p a b }
  = let lemma one (s g: seq frag) (c p1 a1 b1: seq int) (ts0 ts1: seq frag)
      requires { hotw out t0 t1 p a b s g c p1 a1 b1 ts0 ts1 }
      ensures { cold out t0 t1 p a b }
    = live_fired ts0 t0 c (pure { fv1 g });
      live_fired ts1 t1 c (pure { fv2 g });
      xg_run s g p1 a1 b1 c;
      assert { p = (p1 ++ c) ++ fold t0 };
      assert { p = (p1 ++ c) ++ fold t1 };
      assert { a = (a1 ++ fv1 g) ++ fnew t0 };
      assert { b = (b1 ++ fv2 g) ++ fnew t1 };
      assert { outw out t0 t1 p a b (p1 ++ c) (a1 ++ fv1 g) (b1 ++ fv2 g) } in
    ()
  (* a step of the loop *)
  let ghost xstep (out r0 r1: seq frag) (f0 f1: frag) (o t0 t1: opt frag) (w w': bool) (p a b: seq int)
    requires { xstate w out (singleton f0 ++ r0) (singleton f1 ++ r1) p a b /\ (not w -> closed out) }
    requires { stepped f0 f1 o t0 t1 /\ moved f0 f1 o t0 t1 w w' }
    requires { wff f0 /\ wff f1 /\ wfs r0 /\ wfs r1 }
    ensures { xstate w' (snoc out (the o)) (lst t0 ++ r0) (lst t1 ++ r1) p a b /\ (not w' -> closed (snoc out (the o))) }
  = if w' then begin
      if w then hot_hot out r0 r1 f0 f1 o t0 t1 p a b else cold_hot out r0 r1 f0 f1 o t0 t1 p a b
    end else begin
      if w then begin
        cons_tail f0 r0;
        cons_tail f1 r1;
        cooled out (pure { singleton f0 ++ r0 }) (pure { singleton f1 ++ r1 }) p a b
      end;
      cold_cold out r0 r1 f0 f1 o t0 t1 w p a b
    end
  let ghost xstart (t0 t1: seq frag)
    requires { alive t0 /\ cc t0 /\ alive t1 /\ cc t1 /\ fold t0 = fold t1 }
    ensures { xstate false empty t0 t1 (fold t0) (fnew t0) (fnew t1) /\ closed empty }
  = xg_none ();
    assert { forall x: seq int. empty ++ x = x };
    assert { outw empty t0 t1 (fold t0) (fnew t0) (fnew t1) empty empty empty }

  (* one script is used up: what is left are insertions of the other one *)
  let rec ghost rest_plain (out r: seq frag) (p a b: seq int) (first: bool)
    requires { xg out p a b /\ wfs r /\ fold r = empty }
    ensures { xg (out ++ r) p (a ++ text0 first (fnew r)) (b ++ text1 first (fnew r)) }
    variant { length r }
  = let n = length r - 1 in
    if length r > 0 then begin
      let r' = pure { r[..n] } in
      let f = pure { r[n] } in
      assert { r == snoc r' f };
      assert { fold r = fold r' ++ fold1 f };
      assert { length (fold r) = length (fold r') + length (fold1 f) };
      assert { fold r' = empty /\ fold1 f = empty };
      assert { wff f };
      rest_plain out r' p a b first;
      let x = pure { text0 first (fnew1 f) } in
      let y = pure { text1 first (fnew1 f) } in
      assert { xshows f empty x y };
      xg_plain (pure { out ++ r' }) p (pure { a ++ text0 first (fnew r') }) (pure { b ++ text1 first (fnew r') }) f (pure { (empty: seq int) }) x y;
      assert { out ++ r = snoc (out ++ r') f };
      assert { p ++ empty = p };
      assert { fnew r = fnew r' ++ fnew1 f };
      assert { text0 first (fnew r) = text0 first (fnew r') ++ x };
      assert { text1 first (fnew r) = text1 first (fnew r') ++ y };
      assert { (a ++ text0 first (fnew r')) ++ x = a ++ text0 first (fnew r) };
      assert { (b ++ text1 first (fnew r')) ++ y = b ++ text1 first (fnew r) }
    end else begin
      assert { r = empty /\ fnew r = empty };
      assert { text0 first (fnew r) = empty /\ text1 first (fnew r) = empty }
    end
  predicate flushes (w: bool) (t0 t1 rest: seq frag) =
    if w then confl rest /\ fv1 rest = fnew t0 /\ fv2 rest = fnew t1 else rest = (if length t0 > 0 then t0 else t1)
  let ghost xend (w: bool) (out t0 t1 rest: seq frag) (p a b: seq int)
    requires { xstate w out t0 t1 p a b /\ (length t0 = 0 \/ length t1 = 0) /\ fold t0 = empty /\ fold t1 = empty /\ wfs t0 /\ wfs t1 }
    requires { flushes w t0 t1 rest }
    ensures { xg (out ++ rest) p a b }
  = if w then begin
      let lemma one (s g: seq frag) (c p1 a1 b1: seq int) (ts0 ts1: seq frag)
        requires { hotw out t0 t1 p a b s g c p1 a1 b1 ts0 ts1 }
        ensures { xg (out ++ rest) p a b }
      = let h = pure { g ++ rest } in
        let n = pure { (empty: seq frag) } in
        assert { fv1 h = fv1 g ++ fnew t0 };
        assert { fv2 h = fv2 g ++ fnew t1 };
        assert { c ++ empty = c };
        assert { fold n = empty /\ fnew n = empty };
        assert { fold ts0 = c ++ fold n /\ fold ts1 = c ++ fold n };
        assert { fnew ts0 = fv1 h ++ fnew n /\ fnew ts1 = fv2 h ++ fnew n };
        live_end ts0 t0;
        live_end ts1 t1;
        fired ts0 n (pure { length ts0 }) c (pure { fv1 h });
        fired ts1 n (pure { length ts1 }) c (pure { fv2 h });
        assert { forall i. 0 <= i < length h -> h[i] = (if i < length g then g[i] else rest[i - length g]) };
        assert { confl h };
        xg_run s h p1 a1 b1 c;
        assert { s ++ h = out ++ rest } in
      ()
    end else begin
      let first = length t0 > 0 in
      assert { t0 = empty \/ t1 = empty };
      let lemma one (p1 a1 b1: seq int)
        requires { outw out t0 t1 p a b p1 a1 b1 }
        ensures { xg (out ++ rest) p a b }
      = rest_plain out rest p1 a1 b1 first;
        assert { p1 ++ empty = p1 };
        assert { first -> t1 = empty /\ fnew t1 = empty };
        assert { not first -> t0 = empty /\ fnew t0 = empty } in
      ()
    end
end

(* Conflicts with something between them. *)
module Sparse
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyFlat
  use codec.Item
  use diff.Tree
  use diff.Streams
  use merge.Mark
  use merge.Marks
  use merge.FragOps
  use merge.Shows
  use merge.Groups
  use blocks.Block0

  (* no two conflicts next to each other *)
  predicate sparse (s: seq frag) = forall i [s[i]]. 0 <= i < length s - 1 -> conflicts s[i] -> not (conflicts s[i + 1])
  let ghost sparse_snoc (s: seq frag) (f: frag)
    requires { sparse s /\ (closed s \/ not (conflicts f)) }
    ensures { sparse (snoc s f) }
  = assert { forall i. 0 <= i < length s -> (snoc s f)[i] = s[i] };
    assert { (snoc s f)[length s] = f }
  let ghost sparse_run (s g: seq frag) (m n: int)
    requires { sparse s /\ 0 <= m <= n <= length s /\ g = s[m..n] /\ confl g }
    ensures { fmarks g = mconfl (fv1 g) (fv2 g) }
  = if n - m >= 2 then begin
      assert { g[0] = s[m] /\ g[1] = s[m + 1] };
      absurd
    end;
    if n - m = 1 then begin
      assert { g == singleton g[0] };
      assert { conflicts g[0] }
    end else assert { g = empty }
end

(* Putting conflicts and texts together again. *)
module Refine
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyFlat
  use py.PyRev
  use codec.Item
  use diff.Tree
  use diff.Streams
  use diff.Diff
  use diff.Normal
  use merge.Mark
  use merge.Marks
  use merge.FragOps
  use merge.Shows
  use merge.Groups
  use calm.Calm
  use calm.Sole
  use blocks.Block0
  use blocks.Block
  use Sparse

  (* every reading of the fragments is one of the tokens and conflicts *)
  predicate xpartly (s: seq frag) (m: seq mark) = forall p a b [xg s p a b]. xg s p a b -> xgives m p a b
  let ghost xp_none ()
    ensures { xpartly empty empty }
  = let lemma one (p a b: seq int)
      requires { xg empty p a b }
      ensures { xgives empty p a b }
    = xg_back_none p a b;
      xgives_none () in
    ()
  let ghost xp_plain (s: seq frag) (m: seq mark) (f: frag)
    requires { xpartly s m /\ not (conflicts f) }
    ensures { xpartly (snoc s f) (m ++ fmarks1 f) /\ closed (snoc s f) }
  = let lemma one (p a b: seq int)
      requires { xg (snoc s f) p a b }
      ensures { xgives (m ++ fmarks1 f) p a b }
    = xg_back_plain s f p a b;
      let lemma two (p1 a1 b1 c x y: seq int)
        requires { backp s f p a b p1 a1 b1 c x y }
        ensures { xgives (m ++ fmarks1 f) p a b }
      = xgives_text m p1 a1 b1 (pure { fnew1 f }) c x y;
        assert { fmarks1 f = tmarks (fnew1 f) } in
      () in
    ()
  let ghost xp_run (s g: seq frag) (m n: seq mark)
    requires { xpartly s m /\ closed s /\ confl g /\ length g > 0 /\ mleft n = fv1 g /\ mright n = fv2 g }
    ensures { xpartly (s ++ g) (m ++ n) }
  = let lemma one (p a b: seq int)
      requires { xg (s ++ g) p a b }
      ensures { xgives (m ++ n) p a b }
    = xg_back_run s g p a b;
      let lemma two (p1 a1 b1 c: seq int)
        requires { backr s g p a b p1 a1 b1 c }
        ensures { xgives (m ++ n) p a b }
      = xgives_run m n p1 a1 b1 c in
      () in
    ()
  (* the output out continues go with a piece of which the branches' texts are x and y *)
  predicate onto (go out: seq frag) (x y: seq int) = exists n. fmarks out = fmarks go ++ n /\ mleft n = x /\ mright n = y
  let ghost onto_none (go: seq frag)
    ensures { onto go go empty empty }
  = assert { fmarks go = fmarks go ++ empty }
  let ghost onto_piece (go out: seq frag) (x y: seq int) (f: frag) (v w: seq int)
    requires { onto go out x y /\ ((copies f /\ v = fnew1 f /\ w = v) \/ f = FConflict v w) }
    ensures { onto go (snoc out f) (x ++ v) (y ++ w) }
  = let e = pure { fmarks1 f } in
    if pure { copies f } then assert { e = tmarks v }
    else if length v = 0 && length w = 0 then assert { e = empty /\ v = empty /\ w = empty }
    else assert { e = singleton (MC v w) };
    assert { mleft e = v /\ mright e = w };
    let lemma one (n: seq mark)
      requires { fmarks out = fmarks go ++ n /\ mleft n = x /\ mright n = y }
      ensures { onto go (snoc out f) (x ++ v) (y ++ w) }
    = assert { fmarks (snoc out f) = fmarks go ++ (n ++ e) };
      assert { mleft (n ++ e) = x ++ v };
      assert { mright (n ++ e) = y ++ w } in
    ()
  let ghost onto_run (s g go out: seq frag)
    requires { xpartly s (fmarks go) /\ closed s /\ confl g /\ length g > 0 /\ onto go out (fv1 g) (fv2 g) }
    ensures { xpartly (s ++ g) (fmarks out) }
  = let lemma one (n: seq mark)
      requires { fmarks out = fmarks go ++ n /\ mleft n = fv1 g /\ mright n = fv2 g }
      ensures { xpartly (s ++ g) (fmarks out) }
    = xp_run s g (pure { fmarks go }) n in
    ()
  (* copies and changes by turns *)
  predicate turns (s: seq frag) = forall i [s[i]]. 0 <= i < length s - 1 -> (copies s[i] <-> not (copies s[i + 1]))
  let ghost made_turns (o m: seq int) (t: cs)
    requires { made o m t }
    ensures { turns (fstream o t) }
  = normal o m 0 (pure { length o }) 0 (pure { length m }) t;
    mirror o t;
    let s = pure { fstream o t } in
    let lemma one (i: int)
      requires { 0 <= i < length s - 1 }
      ensures { copies s[i] <-> not (copies s[i + 1]) }
    = assert { dtext (dstream o t)[i] <-> not (dtext (dstream o t)[i + 1]) } in
    ()
  let ghost made_turns_all (o m: seq int)
    ensures { forall t. made o m t -> turns (fstream o t) }
  = let lemma one (t: cs)
      requires { made o m t }
      ensures { turns (fstream o t) }
    = made_turns o m t in
    ()
  let ghost no_text (s: seq frag)
    requires { wfs s /\ length (fnew s) = 0 /\ length (fold s) = 0 }
    ensures { s = empty }
  = if length s > 0 then begin
      let r = pure { s[1..] } in
      assert { s == singleton s[0] ++ s[1..] };
      assert { length (fnew s) = length (fnew1 s[0]) + length (fnew r) };
      assert { length (fold s) = length (fold1 s[0]) + length (fold r) };
      assert { wff s[0] };
      absurd
    end
end
