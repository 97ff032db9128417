(* Merging edits that do not touch each other (C07): the merge loop on two edit
   scripts of one parent. *)
module Calm
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyRev
  use codec.Item
  use diff.Tree
  use diff.Streams
  use merge.FragOps

  predicate quiet (s: seq frag) = forall i [s[i]]. 0 <= i < length s -> not (conflicts s[i])
  predicate allcopy (s: seq frag) = forall i [s[i]]. 0 <= i < length s -> copies s[i]
  (* no two adjacent copies *)
  predicate cc (s: seq frag) = forall i [s[i]]. 0 <= i < length s - 1 -> copies s[i] -> not (copies s[i + 1])

  (* fragment x of the script s stands at position p of the parent; s begins at position b *)
  predicate stands (s: seq frag) (b p: int) (x: frag) = exists k. 0 <= k < length s /\ s[k] = x /\ p = b + length (fold s[..k])
  let lemma at_left (s t: seq frag) (b p: int) (x: frag)
    requires { stands s b p x }
    ensures { stands (s ++ t) b p x }
  = let lemma one (k: int)
      requires { 0 <= k < length s /\ s[k] = x /\ p = b + length (fold s[..k]) }
      ensures { stands (s ++ t) b p x }
    = assert { (s ++ t)[..k] == s[..k] };
      assert { (s ++ t)[k] = x } in
    ()
  let lemma at_right (s t: seq frag) (b p: int) (x: frag)
    requires { stands t (b + length (fold s)) p x }
    ensures { stands (s ++ t) b p x }
  = let lemma one (k: int)
      requires { 0 <= k < length t /\ t[k] = x /\ p = b + length (fold s) + length (fold t[..k]) }
      ensures { stands (s ++ t) b p x }
    = assert { (s ++ t)[..length s + k] == s ++ t[..k] };
      assert { (s ++ t)[length s + k] = x } in
    ()
  let lemma at_split (s t: seq frag) (b p: int) (x: frag)
    requires { stands (s ++ t) b p x }
    ensures { stands s b p x \/ stands t (b + length (fold s)) p x }
  = let lemma one (k: int)
      requires { 0 <= k < length (s ++ t) /\ (s ++ t)[k] = x /\ p = b + length (fold (s ++ t)[..k]) }
      ensures { stands s b p x \/ stands t (b + length (fold s)) p x }
    = if k < length s then begin
        assert { (s ++ t)[..k] == s[..k] };
        assert { s[k] = x }
      end else begin
        assert { (s ++ t)[..k] == s ++ t[..k - length s] };
        assert { t[k - length s] = x }
      end in
    ()
  lemma at_app: forall s t b p x [stands (s ++ t) b p x]. stands (s ++ t) b p x <-> stands s b p x \/ stands t (b + length (fold s)) p x
  let lemma at_one (f: frag) (b p: int) (x: frag)
    ensures { stands (singleton f) b p x <-> x = f /\ p = b }
  = assert { (singleton f)[..0] == empty };
    assert { length (fold (singleton f)[..0]) = 0 };
    assert { x = f /\ p = b -> (singleton f)[0] = x }
  lemma at_none: forall b p x. not (stands empty b p x)
  let lemma at_snoc (s: seq frag) (f: frag) (b p: int) (x: frag)
    ensures { stands (snoc s f) b p x <-> stands s b p x \/ (x = f /\ p = b + length (fold s)) }
  = assert { snoc s f == s ++ singleton f }

  (* the changes of two scripts do not touch *)
  predicate sep (s0 s1: seq frag) (b: int) = forall p0 x0 p1 x1 [stands s0 b p0 x0, stands s1 b p1 x1].
    stands s0 b p0 x0 -> stands s1 b p1 x1 -> changes x0 -> changes x1 -> p0 + flen x0 < p1 \/ p1 + flen x1 < p0
  predicate calm (s0 s1: seq frag) (b: int) = sep s0 s1 b /\ cc s0 /\ cc s1

  (* one step without conflict *)
  function both (f0 f1: frag) : frag = if changes f0 then f0 else if changes f1 then f1 else if flen f0 < flen f1 then f0 else f1
  function rest (f: frag) (n: int) : opt frag =
    if copies f then (if n = flen f then none else some (FCopy (fnew1 f)[n..] (flen f - n))) else none
  predicate tame (f0 f1: frag) =
    copies f0 /\ copies f1 \/ copies f0 /\ changes f1 /\ flen f1 <= flen f0 \/ changes f0 /\ copies f1 /\ flen f0 <= flen f1 \/ f0 = f1
  predicate cleaned (f0 f1: frag) (o t0 t1: opt frag) =
    o = some (both f0 f1) /\ t0 = rest f0 (flen (both f0 f1)) /\ t1 = rest f1 (flen (both f0 f1))

  function lst (t: opt frag) : seq frag = if isn t then empty else singleton (the t)

  let ghost follows (f: frag) (r: seq frag) (b: int)
    requires { wff f /\ wfs r /\ length r > 0 }
    ensures { stands (singleton f ++ r) b (b + flen f) r[0] }
  = assert { r[..0] == empty };
    assert { length (fold r[..0]) = 0 };
    assert { stands r (b + length (fold (singleton f))) (b + flen f) r[0] }
  let ghost cc_next (f: frag) (r: seq frag)
    requires { cc (singleton f ++ r) /\ length r > 0 /\ copies f /\ wfs r }
    ensures { changes r[0] }
  = assert { (singleton f ++ r)[0] = f };
    assert { (singleton f ++ r)[1] = r[0] }
  let ghost small (f0 f1: frag) (r0 r1: seq frag) (b: int)
    requires { wff f0 /\ wff f1 /\ wfs r0 /\ wfs r1 /\ fold (singleton f0 ++ r0) = fold (singleton f1 ++ r1) }
    requires { sep (singleton f0 ++ r0) (singleton f1 ++ r1) b /\ cc (singleton f0 ++ r0) /\ copies f0 /\ changes f1 }
    ensures { flen f1 <= flen f0 }
  = assert { stands (singleton f1) b b f1 };
    assert { stands (singleton f1 ++ r1) b b f1 };
    if length r0 = 0 then begin
      assert { r0 == empty };
      assert { length (fold (singleton f0 ++ r0)) = flen f0 };
      assert { length (fold (singleton f1 ++ r1)) = flen f1 + length (fold r1) }
    end else begin
      follows f0 r0 b;
      cc_next f0 r0;
      assert { flen r0[0] >= 0 }
    end
  predicate flipped (s0 s1: seq frag) (b: int) = sep s1 s0 b
  let lemma sep_flip (s0 s1: seq frag) (b: int)
    requires { sep s0 s1 b }
    ensures { sep s1 s0 b }
  = ()
  let ghost tame_heads (f0 f1: frag) (r0 r1: seq frag) (b: int)
    requires { wff f0 /\ wff f1 /\ wfs r0 /\ wfs r1 /\ fold (singleton f0 ++ r0) = fold (singleton f1 ++ r1) }
    requires { calm (singleton f0 ++ r0) (singleton f1 ++ r1) b }
    ensures { tame f0 f1 /\ not (changes f0 /\ changes f1) }
  = if pure { copies f0 /\ changes f1 } then small f0 f1 r0 r1 b
    else if pure { changes f0 /\ copies f1 } then begin
      sep_flip (pure { singleton f0 ++ r0 }) (pure { singleton f1 ++ r1 }) b;
      small f1 f0 r1 r0 b
    end else if pure { changes f0 /\ changes f1 } then begin
      assert { stands (singleton f0) b b f0 };
      assert { stands (singleton f1) b b f1 };
      assert { stands (singleton f0 ++ r0) b b f0 };
      assert { stands (singleton f1 ++ r1) b b f1 };
      absurd
    end

  (* what is left of a script when the first n tokens of it are consumed *)
  predicate eats (f: frag) (n: int) = wff f /\ (copies f /\ 0 <= n <= flen f \/ changes f /\ n = flen f)
  let lemma rest_at (f: frag) (r: seq frag) (n b p: int) (x: frag)
    requires { eats f n /\ changes x }
    ensures { stands (singleton f ++ r) b p x <-> (x = f /\ p = b) \/ stands (lst (rest f n) ++ r) (b + n) p x }
  = assert { stands (singleton f ++ r) b p x <-> stands (singleton f) b p x \/ stands r (b + flen f) p x };
    let t = pure { rest f n } in
    if isn t then begin
      assert { lst t ++ r == r };
      assert { n = flen f }
    end else begin
      assert { length (fold (lst t)) = flen f - n };
      assert { stands (lst t ++ r) (b + n) p x <-> stands (lst t) (b + n) p x \/ stands r (b + flen f) p x };
      assert { copies (the t) };
      assert { not (stands (lst t) (b + n) p x) }
    end
  let ghost rest_cc (f: frag) (r: seq frag) (n: int)
    requires { eats f n /\ cc (singleton f ++ r) }
    ensures { cc (lst (rest f n) ++ r) }
  = let t = pure { rest f n } in
    assert { forall i. 0 <= i < length r -> (singleton f ++ r)[i + 1] = r[i] };
    if isn t then begin
      assert { lst t ++ r == r };
      let lemma one (i: int)
        requires { 0 <= i < length r - 1 /\ copies r[i] }
        ensures { not (copies r[i + 1]) }
      = assert { copies (singleton f ++ r)[i + 1] } in
      ()
    end else begin
      assert { copies f /\ copies (the t) };
      let lemma one (i: int)
        requires { 0 <= i < length (lst t ++ r) - 1 /\ copies (lst t ++ r)[i] }
        ensures { not (copies (lst t ++ r)[i + 1]) }
      = assert { (lst t ++ r)[i + 1] = (singleton f ++ r)[i + 1] };
        assert { copies (singleton f ++ r)[i] } in
      ()
    end
  let ghost rest_sep (f0 f1: frag) (r0 r1: seq frag) (n b: int)
    requires { eats f0 n /\ eats f1 n /\ sep (singleton f0 ++ r0) (singleton f1 ++ r1) b }
    ensures { sep (lst (rest f0 n) ++ r0) (lst (rest f1 n) ++ r1) (b + n) }
  = let lemma one (p0: int) (x0: frag) (p1: int) (x1: frag)
      requires { stands (lst (rest f0 n) ++ r0) (b + n) p0 x0 /\ stands (lst (rest f1 n) ++ r1) (b + n) p1 x1 /\ changes x0 /\ changes x1 }
      ensures { p0 + flen x0 < p1 \/ p1 + flen x1 < p0 }
    = rest_at f0 r0 n b p0 x0;
      rest_at f1 r1 n b p1 x1;
      assert { stands (singleton f0 ++ r0) b p0 x0 } in
    ()

  (* the loop: out is what the merge has given, t0 and t1 the scripts that are left *)
  function hs (out: seq frag) : int = length (fold out)
  predicate edits (out t0 t1 s0 s1: seq frag) = forall p x [stands out 0 p x | stands t0 (hs out) p x | stands t1 (hs out) p x | stands s0 0 p x | stands s1 0 p x].
    changes x -> ((stands out 0 p x \/ stands t0 (hs out) p x \/ stands t1 (hs out) p x) <-> (stands s0 0 p x \/ stands s1 0 p x))
  predicate tidy (out t0 t1 s0 s1: seq frag) (p: seq int) =
    wfs out /\ quiet out /\ calm t0 t1 (hs out) /\ p = fold out ++ fold t0 /\ p = fold out ++ fold t1 /\ edits out t0 t1 s0 s1
  let lemma wfs_back (s: seq frag)
    requires { wfs s }
    ensures { wfs (rev s) }
  = ()
  predicate lone (out t0 t1 s0 s1: seq frag) =
    (allcopy s0 -> allcopy t0 /\ fnew out ++ fnew t1 = fnew s1) /\ (allcopy s1 -> allcopy t1 /\ fnew out ++ fnew t0 = fnew s0)
  let ghost same_left (out t0 t1 s0 s1: seq frag) (p: seq int)
    requires { tidy out t0 t1 s0 s1 p }
    ensures { fold t0 = fold t1 }
  = assert { (fold out ++ fold t0)[length (fold out)..] == fold t0 };
    assert { (fold out ++ fold t1)[length (fold out)..] == fold t1 }
  let ghost tidy_start (s0 s1: seq frag) (p: seq int)
    requires { calm s0 s1 0 /\ p = fold s0 /\ p = fold s1 }
    ensures { tidy empty s0 s1 s0 s1 p }
    ensures { lone empty s0 s1 s0 s1 }
  = assert { hs empty = 0 };
    assert { (empty: seq int) ++ p == p };
    assert { (empty: seq int) ++ fnew s0 == fnew s0 };
    assert { (empty: seq int) ++ fnew s1 == fnew s1 }
  let ghost rest_fold (f: frag) (r: seq frag) (n: int)
    requires { eats f n }
    ensures { fold (singleton f ++ r) = (fold1 f)[..n] ++ fold (lst (rest f n) ++ r) }
  = let t = pure { rest f n } in
    assert { fold (singleton f ++ r) = fold1 f ++ fold r };
    if isn t then begin
      assert { lst t ++ r == r };
      assert { (fold1 f)[..n] == fold1 f }
    end else begin
      assert { fold (lst t ++ r) = (fold1 f)[n..] ++ fold r };
      assert { (fold1 f)[..n] ++ (fold1 f)[n..] == fold1 f };
      assert { ((fold1 f)[..n] ++ (fold1 f)[n..]) ++ fold r == (fold1 f)[..n] ++ ((fold1 f)[n..] ++ fold r) }
    end
  let ghost rest_new (f: frag) (r: seq frag) (n: int)
    requires { eats f n }
    ensures { fnew (singleton f ++ r) = (if copies f then (fold1 f)[..n] else fnew1 f) ++ fnew (lst (rest f n) ++ r) }
  = let t = pure { rest f n } in
    assert { fnew (singleton f ++ r) = fnew1 f ++ fnew r };
    if isn t then begin
      assert { lst t ++ r == r };
      assert { copies f -> (fnew1 f)[..n] == fnew1 f }
    end else begin
      assert { fnew (lst t ++ r) = (fnew1 f)[n..] ++ fnew r };
      assert { (fnew1 f)[..n] ++ (fnew1 f)[n..] == fnew1 f };
      assert { ((fnew1 f)[..n] ++ (fnew1 f)[n..]) ++ fnew r == (fnew1 f)[..n] ++ ((fnew1 f)[n..] ++ fnew r) }
    end
  let ghost rest_copies (f: frag) (r: seq frag) (n: int)
    requires { eats f n /\ allcopy (singleton f ++ r) }
    ensures { allcopy (lst (rest f n) ++ r) }
    ensures { copies f }
  = assert { (singleton f ++ r)[0] = f };
    assert { forall i. 0 <= i < length r -> r[i] = (singleton f ++ r)[i + 1] };
    assert { allcopy r }
  (* one change at most is put out at a step *)
  predicate moved (f0 f1 o: frag) (n: int) =
    eats f0 n /\ eats f1 n /\ wff o /\ not (conflicts o) /\ n = flen o /\ o = both f0 f1 /\ not (changes f0 /\ changes f1) /\
    fold1 o = (fold1 f0)[..n] /\ fold1 o = (fold1 f1)[..n]
  let ghost moves (f0 f1: frag)
    requires { wff f0 /\ wff f1 /\ tame f0 f1 /\ not (changes f0 /\ changes f1) }
    requires { forall i. 0 <= i < length (fold1 f0) -> i < length (fold1 f1) -> (fold1 f0)[i] = (fold1 f1)[i] }
    ensures { moved f0 f1 (both f0 f1) (flen (both f0 f1)) }
  = let o = pure { both f0 f1 } in
    let n = pure { flen (both f0 f1) } in
    assert { n <= length (fold1 f0) /\ n <= length (fold1 f1) };
    assert { (fold1 f0)[..n] == (fold1 f1)[..n] };
    assert { o = f0 -> (fold1 f0)[..n] == fold1 f0 };
    assert { o = f1 -> (fold1 f1)[..n] == fold1 f1 };
    assert { o = f0 \/ o = f1 }
  let ghost step_edits (out r0 r1 s0 s1: seq frag) (f0 f1 o: frag) (n: int)
    requires { moved f0 f1 o n /\ edits out (singleton f0 ++ r0) (singleton f1 ++ r1) s0 s1 }
    ensures { edits (snoc out o) (lst (rest f0 n) ++ r0) (lst (rest f1 n) ++ r1) s0 s1 }
  = let t0 = pure { lst (rest f0 n) ++ r0 } in
    let t1 = pure { lst (rest f1 n) ++ r1 } in
    let b = pure { hs out } in
    assert { hs (snoc out o) = b + n };
    let lemma one (p: int) (x: frag)
      requires { changes x }
      ensures { (stands (snoc out o) 0 p x \/ stands t0 (hs (snoc out o)) p x \/ stands t1 (hs (snoc out o)) p x) <-> (stands s0 0 p x \/ stands s1 0 p x) }
    = rest_at f0 r0 n b p x;
      rest_at f1 r1 n b p x;
      at_snoc out o 0 p x;
      assert { (stands out 0 p x \/ stands (singleton f0 ++ r0) (hs out) p x \/ stands (singleton f1 ++ r1) (hs out) p x) <-> (stands s0 0 p x \/ stands s1 0 p x) };
      assert { x = o <-> x = f0 \/ x = f1 } in
    ()
  let ghost step_tidy (out r0 r1 s0 s1: seq frag) (f0 f1 o: frag) (n: int) (p: seq int)
    requires { moved f0 f1 o n /\ tidy out (singleton f0 ++ r0) (singleton f1 ++ r1) s0 s1 p }
    ensures { tidy (snoc out o) (lst (rest f0 n) ++ r0) (lst (rest f1 n) ++ r1) s0 s1 p }
  = step_edits out r0 r1 s0 s1 f0 f1 o n;
    rest_sep f0 f1 r0 r1 n (pure { hs out });
    rest_cc f0 r0 n;
    rest_cc f1 r1 n;
    rest_fold f0 r0 n;
    rest_fold f1 r1 n;
    assert { hs (snoc out o) = hs out + n };
    assert { fold (snoc out o) ++ fold (lst (rest f0 n) ++ r0) == p };
    assert { fold (snoc out o) ++ fold (lst (rest f1 n) ++ r1) == p }
  let ghost step_lone (out r0 r1 s0 s1: seq frag) (f0 f1 o: frag) (n: int)
    requires { moved f0 f1 o n /\ lone out (singleton f0 ++ r0) (singleton f1 ++ r1) s0 s1 }
    ensures { lone (snoc out o) (lst (rest f0 n) ++ r0) (lst (rest f1 n) ++ r1) s0 s1 }
  = rest_new f0 r0 n;
    rest_new f1 r1 n;
    if pure { allcopy s0 } then begin
      rest_copies f0 r0 n;
      assert { fnew1 o = (if copies f1 then (fold1 f1)[..n] else fnew1 f1) };
      assert { fnew (snoc out o) ++ fnew (lst (rest f1 n) ++ r1) == fnew s1 }
    end;
    if pure { allcopy s1 } then begin
      rest_copies f1 r1 n;
      assert { fnew1 o = (if copies f0 then (fold1 f0)[..n] else fnew1 f0) };
      assert { fnew (snoc out o) ++ fnew (lst (rest f0 n) ++ r0) == fnew s0 }
    end

  (* the result: the parent with the changes of both scripts applied *)
  predicate united (p: seq int) (s0 s1 fs: seq frag) =
    wfs fs /\ quiet fs /\ fold fs = p /\
    forall q x [stands fs 0 q x | stands s0 0 q x | stands s1 0 q x]. changes x -> (stands fs 0 q x <-> stands s0 0 q x \/ stands s1 0 q x)
  let ghost no_copies (s: seq frag)
    requires { wfs s /\ fold s = empty /\ allcopy s }
    ensures { s = empty }
  = if length s > 0 then begin
      let t = s[1..] in
      assert { s == singleton s[0] ++ t };
      assert { fold s = fold1 s[0] ++ fold t };
      assert { length (fold s) > 0 };
      absurd
    end else assert { s == empty }
  let ghost tidy_end (out t0 t1 s0 s1 r: seq frag) (p: seq int)
    requires { tidy out t0 t1 s0 s1 p /\ lone out t0 t1 s0 s1 /\ wfs t0 /\ wfs t1 }
    requires { length t0 = 0 /\ r = t1 \/ length t1 = 0 /\ r = t0 }
    ensures { united p s0 s1 (out ++ r) }
    ensures { allcopy s0 -> fnew (out ++ r) = fnew s1 }
    ensures { allcopy s1 -> fnew (out ++ r) = fnew s0 }
  = assert { length t0 = 0 -> t0 == empty };
    assert { length t1 = 0 -> t1 == empty };
    assert { length (fold t0) = length (fold t1) };
    assert { length (fold t0) = 0 /\ length (fold t1) = 0 };
    assert { fold t0 == empty /\ fold t1 == empty };
    assert { fold out ++ (empty: seq int) == fold out };
    assert { fold (out ++ r) = p };
    assert { forall q x [stands t0 (hs out) q x]. length t0 = 0 -> not (stands t0 (hs out) q x) };
    assert { forall q x [stands t1 (hs out) q x]. length t1 = 0 -> not (stands t1 (hs out) q x) };
    let lemma one (q: int) (x: frag)
      requires { changes x }
      ensures { stands (out ++ r) 0 q x <-> stands s0 0 q x \/ stands s1 0 q x }
    = assert { stands (out ++ r) 0 q x <-> stands out 0 q x \/ stands r (hs out) q x };
      assert { (stands out 0 q x \/ stands t0 (hs out) q x \/ stands t1 (hs out) q x) <-> (stands s0 0 q x \/ stands s1 0 q x) } in
    assert { wfs (out ++ r) /\ quiet (out ++ r) };
    if pure { allcopy s0 } then begin
      no_copies t0;
      assert { t0 = empty };
      assert { length t1 = 0 -> r = t1 };
      assert { r = t1 }
    end;
    if pure { allcopy s1 } then begin
      no_copies t1;
      assert { r = t0 }
    end

  (* two equal scripts *)
  predicate twins (out t0 t1 s: seq frag) = t0 = t1 /\ out ++ t0 = s
  let ghost step_twins (out r0 r1 s: seq frag) (f0 f1: frag)
    requires { wff f0 /\ twins out (singleton f0 ++ r0) (singleton f1 ++ r1) s }
    ensures { f0 = f1 /\ both f0 f1 = f0 /\ rest f0 (flen f0) = none /\ r0 = r1 }
    ensures { twins (snoc out f0) (lst (rest f0 (flen f0)) ++ r0) (lst (rest f1 (flen f0)) ++ r1) s }
  = assert { (singleton f0 ++ r0)[0] = f0 /\ (singleton f1 ++ r1)[0] = f1 };
    assert { f0 = f1 };
    assert { (singleton f0 ++ r0)[1..] == r0 };
    assert { (singleton f1 ++ r1)[1..] == r1 };
    assert { lst (none: opt frag) ++ r0 == r0 };
    assert { snoc out f0 ++ r0 == out ++ (singleton f0 ++ r0) }
  let ghost tame_twins (out r0 r1 s: seq frag) (f0 f1: frag)
    requires { twins out (singleton f0 ++ r0) (singleton f1 ++ r1) s }
    ensures { tame f0 f1 }
  = assert { (singleton f0 ++ r0)[0] = f0 /\ (singleton f1 ++ r1)[0] = f1 }
end

(* The edit script of two texts is a function of them, and has the normal form. *)
module Sole
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use codec.Item
  use auto.Com
  use auto.Lcs
  use diff.Tree
  use diff.Streams
  use diff.Diff
  use diff.Normal
  use merge.FragOps
  use Calm

  (* every common part is the first longest one *)
  predicate det (o m: seq int) (a b c d: int) (t: cs) = match t with
    | Leaf x y _ _ -> x = o[a..b] /\ y = m[c..d] /\ lcs o[a..b] m[c..d] 0 0 0
    | Node (Slice i j) (Slice k l) p q -> i < j /\ lcs o[a..b] m[c..d] (i - a) (k - c) (j - i) /\ l - k = j - i /\ det o m a i c k p /\ det o m j b l d q
    | _ -> false end
  predicate diffed (o m: seq int) (t: cs) = det o m 0 (length o) 0 (length m) t
  let lemma one_lcs (s t: seq int) (a b k a' b' k': int)
    requires { lcs s t a b k /\ lcs s t a' b' k' }
    ensures { a = a' /\ b = b' /\ k = k' }
  = assert { com s t k (a + k) (b + k) };
    assert { com s t k' (a' + k') (b' + k') };
    assert { k = k' };
    assert { b = b' }
  let rec ghost sole (o m: seq int) (a b c d: int) (t u: cs)
    requires { det o m a b c d t /\ det o m a b c d u }
    ensures { fstream o t = fstream o u }
    variant { t }
  = match t, u with
    | Leaf _ _ _ _, Leaf _ _ _ _ -> ()
    | Node (Slice i j) (Slice k l) p q, Node (Slice i' j') (Slice k' l') p' q' ->
        one_lcs o[a..b] m[c..d] (i - a) (k - c) (j - i) (i' - a) (k' - c) (j' - i');
        sole o m a i c k p p';
        sole o m j b l d q q'
    | Leaf _ _ _ _, Node (Slice i j) (Slice k _) _ _ -> one_lcs o[a..b] m[c..d] 0 0 0 (i - a) (k - c) (j - i); absurd
    | Node (Slice i j) (Slice k _) _ _, Leaf _ _ _ _ -> one_lcs o[a..b] m[c..d] 0 0 0 (i - a) (k - c) (j - i); absurd
    | _ -> absurd end
  let rec ghost mirror (o: seq int) (t: cs)
    ensures { length (fstream o t) = length (dstream o t) }
    ensures { forall i [(fstream o t)[i]]. 0 <= i < length (fstream o t) -> copies (fstream o t)[i] <-> dtext (dstream o t)[i] }
    variant { t }
  = match t with
    | Leaf _ _ _ _ -> ()
    | Node x _ p q -> mirror o p; mirror o q;
        let f = pure { FCopy (at_slice o x) (length (at_slice o x)) } in
        let g = pure { DText (at_slice o x) } in
        assert { fstream o t = snoc (fstream o p) f ++ fstream o q };
        assert { dstream o t = snoc (dstream o p) g ++ dstream o q };
        let lemma one (i: int)
          requires { 0 <= i < length (fstream o t) }
          ensures { copies (fstream o t)[i] <-> dtext (dstream o t)[i] }
        = let n = pure { length (fstream o p) } in
          if i < n then assert { (fstream o t)[i] = (fstream o p)[i] /\ (dstream o t)[i] = (dstream o p)[i] }
          else if i = n then assert { (fstream o t)[i] = f /\ (dstream o t)[i] = g }
          else assert { (fstream o t)[i] = (fstream o q)[i - n - 1] /\ (dstream o t)[i] = (dstream o q)[i - n - 1] } in
        ()
    end
  let ghost made_cc (o m: seq int) (t: cs)
    requires { made o m t }
    ensures { cc (fstream o t) }
  = normal o m 0 (pure { length o }) 0 (pure { length m }) t;
    mirror o t;
    let s = pure { fstream o t } in
    let lemma one (i: int)
      requires { 0 <= i < length s - 1 /\ copies s[i] }
      ensures { not (copies s[i + 1]) }
    = assert { dtext (dstream o t)[i] };
      assert { not (dtext (dstream o t)[i + 1]) } in
    ()
  (* the edit script of a text and itself has no changes *)
  let ghost no_change (p: seq int) (t: cs)
    requires { made p p t }
    ensures { allcopy (fstream p t) }
  = let n = length p in
    assert { com p p 0 0 0 };
    assert { p[0..n] = p };
    assert { com p p n n n };
    match t with
    | Leaf _ _ _ _ -> assert { n <= 0 }
    | Node (Slice i j) _ x y ->
        assert { n <= j - i };
        assert { i = 0 /\ j = n };
        (match x with Leaf _ _ _ _ -> () | Node _ _ _ _ -> absurd end);
        (match y with Leaf _ _ _ _ -> () | Node _ _ _ _ -> absurd end);
        assert { fstream p x = empty /\ fstream p y = empty }
    | _ -> absurd end
  let ghost sep_copies (s0 s1: seq frag)
    requires { allcopy s0 \/ allcopy s1 }
    ensures { sep s0 s1 0 }
  = ()
end
