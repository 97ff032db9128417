(* What the merged fragments show of parent and branches. *)
module Block0
  use int.Int
  use sq.Sq
  use diff.Tree
  use merge.Mark
  use merge.Marks
  use merge.FragOps
  use merge.Groups

  (* the part c of the parent, a and b of the branches: both the same text, or one of them as in the parent and the other one's text *)
  predicate agree (t c a b: seq int) = t = a /\ t = b \/ t = a /\ b = c \/ t = b /\ a = c
  predicate xshows (f: frag) (c a b: seq int) = match f with
    | FConflict _ _ -> false
    | FCopy t _ | FChange t _ _ -> agree t c a b end
  predicate closed (s: seq frag) = length s > 0 -> not (conflicts s[length s - 1])
  function mside1 (m: mark) : seq int = match m with MT x -> singleton x | MC v _ -> v end
  function mside2 (m: mark) : seq int = match m with MT x -> singleton x | MC _ w -> w end
end
module Block
  use int.Int
  use sq.Sq
  use diff.Tree
  use merge.Mark
  use merge.Marks
  use merge.FragOps
  use merge.Groups
  use Block0

  (* the text of one branch in the output *)
  function mleft (s: seq mark) : seq int
  axiom mleft_empty: mleft empty = empty
  axiom mleft_one: forall x [mleft (singleton x)]. mleft (singleton x) = mside1 x
  axiom mleft_app: forall s t [mleft (s ++ t)]. mleft (s ++ t) = mleft s ++ mleft t
  axiom mleft_text: forall s [mleft (tmarks s)]. mleft (tmarks s) = s
  function mright (s: seq mark) : seq int
  axiom mright_empty: mright empty = empty
  axiom mright_one: forall x [mright (singleton x)]. mright (singleton x) = mside2 x
  axiom mright_app: forall s t [mright (s ++ t)]. mright (s ++ t) = mright s ++ mright t
  axiom mright_text: forall s [mright (tmarks s)]. mright (tmarks s) = s

  (* fragments: parts of the parent on which the branches agree, and between them
     runs of conflicts, where both branches differ from the parent *)
  predicate xg (s: seq frag) (p a b: seq int)
  val ghost xg_none () : unit ensures { xg empty empty empty empty }
  val ghost xg_plain (s: seq frag) (p a b: seq int) (f: frag) (c x y: seq int) : unit
    requires { xg s p a b /\ xshows f c x y }
    ensures { xg (snoc s f) (p ++ c) (a ++ x) (b ++ y) }
  val ghost xg_run (s g: seq frag) (p a b c: seq int) : unit
    requires { xg s p a b /\ closed s /\ confl g /\ length g > 0 /\ c <> fv1 g /\ c <> fv2 g }
    ensures { xg (s ++ g) (p ++ c) (a ++ fv1 g) (b ++ fv2 g) }
  predicate backp (s: seq frag) (f: frag) (p a b p1 a1 b1 c x y: seq int) =
    xg s p1 a1 b1 /\ xshows f c x y /\ p = p1 ++ c /\ a = a1 ++ x /\ b = b1 ++ y
  predicate backr (s g: seq frag) (p a b p1 a1 b1 c: seq int) =
    xg s p1 a1 b1 /\ p = p1 ++ c /\ a = a1 ++ fv1 g /\ b = b1 ++ fv2 g /\ c <> fv1 g /\ c <> fv2 g
  val ghost xg_back_none (p a b: seq int) : unit
    requires { xg empty p a b }
    ensures { p = empty /\ a = empty /\ b = empty }
  val ghost xg_back_plain (s: seq frag) (f: frag) (p a b: seq int) : unit
    requires { xg (snoc s f) p a b /\ not (conflicts f) }
    ensures { exists p1 a1 b1 c x y. backp s f p a b p1 a1 b1 c x y }
  val ghost xg_back_run (s g: seq frag) (p a b: seq int) : unit
    requires { xg (s ++ g) p a b /\ closed s /\ confl g /\ length g > 0 }
    ensures { exists p1 a1 b1 c. backr s g p a b p1 a1 b1 c }

  (* tokens and conflicts: the same, a run of conflicts told as the texts of the two branches *)
  predicate xgives (m: seq mark) (p a b: seq int)
  val ghost xgives_none () : unit ensures { xgives empty empty empty empty }
  val ghost xgives_text (m: seq mark) (p a b t c x y: seq int) : unit
    requires { xgives m p a b /\ agree t c x y }
    ensures { xgives (m ++ tmarks t) (p ++ c) (a ++ x) (b ++ y) }
  val ghost xgives_run (m n: seq mark) (p a b c: seq int) : unit
    requires { xgives m p a b /\ c <> mleft n /\ c <> mright n }
    ensures { xgives (m ++ n) (p ++ c) (a ++ mleft n) (b ++ mright n) }
end
module BlockReal
  use int.Int
  use sq.Sq
  use diff.Tree
  use merge.Mark
  use merge.Marks
  use merge.FragOps
  use merge.Groups
  use Block0
  lemma front: forall s: seq 'a, x: 'a. (snoc s x)[..length (snoc s x) - 1] = s
  let rec ghost function mleft (s: seq mark) : seq int
    variant { length s }
  = if length s = 0 then empty else mleft s[..length s - 1] ++ pure { mside1 s[length s - 1] }
  lemma mleft_snoc: forall s x. mleft (snoc s x) = mleft s ++ mside1 x
  let rec lemma mleft_app (s t: seq mark)
    variant { length t }
    ensures { mleft (s ++ t) = mleft s ++ mleft t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      mleft_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { mleft (s ++ t) = mleft (s ++ t') ++ mside1 x };
      assert { mleft t = mleft t' ++ mside1 x }
    end
  lemma mleft_one: forall x [mleft (singleton x)]. mleft (singleton x) = mside1 x
  let rec lemma mleft_text (s: seq int)
    variant { length s }
    ensures { mleft (tmarks s) = s }
  = if length s = 0 then () else begin
      let s' = s[..length s - 1] in
      let x = pure { s[length s - 1] } in
      mleft_text s';
      assert { s == snoc s' x };
      assert { tmarks s = tmarks s' ++ mtok x };
      assert { mleft (mtok x) = singleton x };
      assert { mleft (tmarks s) = s' ++ singleton x }
    end
  let rec ghost function mright (s: seq mark) : seq int
    variant { length s }
  = if length s = 0 then empty else mright s[..length s - 1] ++ pure { mside2 s[length s - 1] }
  lemma mright_snoc: forall s x. mright (snoc s x) = mright s ++ mside2 x
  let rec lemma mright_app (s t: seq mark)
    variant { length t }
    ensures { mright (s ++ t) = mright s ++ mright t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      mright_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { mright (s ++ t) = mright (s ++ t') ++ mside2 x };
      assert { mright t = mright t' ++ mside2 x }
    end
  lemma mright_one: forall x [mright (singleton x)]. mright (singleton x) = mside2 x
  let rec lemma mright_text (s: seq int)
    variant { length s }
    ensures { mright (tmarks s) = s }
  = if length s = 0 then () else begin
      let s' = s[..length s - 1] in
      let x = pure { s[length s - 1] } in
      mright_text s';
      assert { s == snoc s' x };
      assert { tmarks s = tmarks s' ++ mtok x };
      assert { mright (mtok x) = singleton x };
      assert { mright (tmarks s) = s' ++ singleton x }
    end

  inductive xg (s: seq frag) (p a b: seq int) =
    | XNone: xg empty empty empty empty
    | XPlain: forall s p a b f c x y. xg s p a b -> xshows f c x y -> xg (snoc s f) (p ++ c) (a ++ x) (b ++ y)
    | XRun: forall s g p a b c. xg s p a b -> closed s -> confl g -> length g > 0 -> c <> fv1 g -> c <> fv2 g ->
        xg (s ++ g) (p ++ c) (a ++ fv1 g) (b ++ fv2 g)
  let ghost xg_none () ensures { xg empty empty empty empty } = ()
  let ghost xg_plain (s: seq frag) (p a b: seq int) (f: frag) (c x y: seq int)
    requires { xg s p a b /\ xshows f c x y }
    ensures { xg (snoc s f) (p ++ c) (a ++ x) (b ++ y) }
  = ()
  let ghost xg_run (s g: seq frag) (p a b c: seq int)
    requires { xg s p a b /\ closed s /\ confl g /\ length g > 0 /\ c <> fv1 g /\ c <> fv2 g }
    ensures { xg (s ++ g) (p ++ c) (a ++ fv1 g) (b ++ fv2 g) }
  = ()
  predicate backp (s: seq frag) (f: frag) (p a b p1 a1 b1 c x y: seq int) =
    xg s p1 a1 b1 /\ xshows f c x y /\ p = p1 ++ c /\ a = a1 ++ x /\ b = b1 ++ y
  predicate backr (s g: seq frag) (p a b p1 a1 b1 c: seq int) =
    xg s p1 a1 b1 /\ p = p1 ++ c /\ a = a1 ++ fv1 g /\ b = b1 ++ fv2 g /\ c <> fv1 g /\ c <> fv2 g
  (* the last step of the derivation *)
  predicate lastp (s: seq frag) (p a b: seq int) = exists s' f p1 a1 b1 c x y [xg s' p1 a1 b1, xshows f c x y]. s = snoc s' f /\ backp s' f p a b p1 a1 b1 c x y
  predicate lastr (s: seq frag) (p a b: seq int) = exists s' g p1 a1 b1 c [xg s' p1 a1 b1, s' ++ g, p1 ++ c]. s = s' ++ g /\ closed s' /\ confl g /\ length g > 0 /\ backr s' g p a b p1 a1 b1 c
  lemma last: forall s p a b. xg s p a b -> (s = empty /\ p = empty /\ a = empty /\ b = empty) \/ lastp s p a b \/ lastr s p a b
  let ghost xg_back_none (p a b: seq int)
    requires { xg empty p a b }
    ensures { p = empty /\ a = empty /\ b = empty }
  = let lemma plain_ (s': seq frag) (f: frag)
      requires { empty = snoc s' f }
      ensures { false }
    = assert { length (snoc s' f) = 0 } in
    let lemma run_ (s' g: seq frag)
      requires { empty = s' ++ g /\ length g > 0 }
      ensures { false }
    = assert { length (s' ++ g) = 0 } in
    assert { not (lastp empty p a b) };
    assert { not (lastr empty p a b) }
  let ghost xg_back_plain (s: seq frag) (f: frag) (p a b: seq int)
    requires { xg (snoc s f) p a b /\ not (conflicts f) }
    ensures { exists p1 a1 b1 c x y. backp s f p a b p1 a1 b1 c x y }
  = let r = pure { snoc s f } in
    let n = length s in
    assert { r <> empty };
    let lemma plain_ (s': seq frag) (f': frag) (p1 a1 b1 c x y: seq int)
      requires { r = snoc s' f' /\ backp s' f' p a b p1 a1 b1 c x y }
      ensures { exists p1 a1 b1 c x y. backp s f p a b p1 a1 b1 c x y }
    = assert { length s' = n };
      assert { f' = r[n] /\ f = r[n] };
      assert { s' = r[0..n] /\ s = r[0..n] } in
    let lemma run_ (s' g: seq frag)
      requires { r = s' ++ g /\ confl g /\ length g > 0 }
      ensures { false }
    = assert { r[n] = g[length g - 1] };
      assert { r[n] = f } in
    assert { not (lastr r p a b) };
    assert { lastp r p a b }
  let ghost xg_back_run (s g: seq frag) (p a b: seq int)
    requires { xg (s ++ g) p a b /\ closed s /\ confl g /\ length g > 0 }
    ensures { exists p1 a1 b1 c. backr s g p a b p1 a1 b1 c }
  = let r = pure { s ++ g } in
    let n = length s in
    let m = n + length g in
    assert { length r = m };
    assert { r <> empty };
    assert { r[m - 1] = g[length g - 1] };
    let lemma plain_ (s': seq frag) (f': frag) (c x y: seq int)
      requires { r = snoc s' f' /\ xshows f' c x y }
      ensures { false }
    = assert { length s' = m - 1 };
      assert { r[m - 1] = f' } in
    let lemma run_ (s' g': seq frag) (p1 a1 b1 c: seq int)
      requires { r = s' ++ g' /\ closed s' /\ confl g' /\ length g' > 0 /\ backr s' g' p a b p1 a1 b1 c }
      ensures { exists p1 a1 b1 c. backr s g p a b p1 a1 b1 c }
    = let k = length s' in
      if k > n then begin
        assert { r[k - 1] = s'[k - 1] };
        assert { r[k - 1] = g[k - 1 - n] };
        absurd
      end;
      if k < n then begin
        assert { r[n - 1] = s[n - 1] };
        assert { r[n - 1] = g'[n - 1 - k] };
        absurd
      end;
      assert { forall i. 0 <= i < n -> s'[i] = r[i] };
      assert { forall i. 0 <= i < n -> s[i] = r[i] };
      assert { s' == s };
      assert { length g' = length g };
      assert { forall i. 0 <= i < length g -> g'[i] = r[n + i] };
      assert { forall i. 0 <= i < length g -> g[i] = r[n + i] };
      assert { g' == g } in
    assert { not (lastp r p a b) };
    assert { lastr r p a b }

  inductive xgives (m: seq mark) (p a b: seq int) =
    | GNone: xgives empty empty empty empty
    | GText: forall m p a b t c x y. xgives m p a b -> agree t c x y -> xgives (m ++ tmarks t) (p ++ c) (a ++ x) (b ++ y)
    | GRun: forall m n p a b c. xgives m p a b -> c <> mleft n -> c <> mright n ->
        xgives (m ++ n) (p ++ c) (a ++ mleft n) (b ++ mright n)
  let ghost xgives_none () ensures { xgives empty empty empty empty } = ()
  let ghost xgives_text (m: seq mark) (p a b t c x y: seq int)
    requires { xgives m p a b /\ agree t c x y }
    ensures { xgives (m ++ tmarks t) (p ++ c) (a ++ x) (b ++ y) }
  = ()
  let ghost xgives_run (m n: seq mark) (p a b c: seq int)
    requires { xgives m p a b /\ c <> mleft n /\ c <> mright n }
    ensures { xgives (m ++ n) (p ++ c) (a ++ mleft n) (b ++ mright n) }
  = ()
  clone Block with function mleft = mleft, function mright = mright, predicate xg = xg, predicate xgives = xgives,
    val xg_none = xg_none, val xg_plain = xg_plain, val xg_run = xg_run, predicate backp = backp, predicate backr = backr,
    val xg_back_none = xg_back_none, val xg_back_plain = xg_back_plain, val xg_back_run = xg_back_run,
    val xgives_none = xgives_none, val xgives_text = xgives_text, val xgives_run = xgives_run
end
