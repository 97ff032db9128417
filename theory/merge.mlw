(* Three-way merge (merge.py): what a fragment of the output shows. *)
module FragOps
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use diff.Tree
  use diff.Streams

  (* dataclasses.replace *)
  val with_frag_insert (x: frag) (v: seq int) : frag
    requires { [@expl:object has the field] match x with FConflict _ _ -> false | _ -> true end }
    ensures { result = match x with FCopy _ n -> FCopy v n | FChange _ d n -> FChange v d n | _ -> x end }
  val with_frag_delete (x: frag) (v: seq int) : frag
    requires { [@expl:object has the field] match x with FChange _ _ _ -> true | _ -> false end }
    ensures { result = match x with FChange i _ n -> FChange i v n | _ -> x end }
  val with_frag_length (x: frag) (v: int) : frag
    requires { [@expl:object has the field] match x with FConflict _ _ -> false | _ -> true end }
    ensures { result = match x with FCopy i _ -> FCopy i v | FChange i d _ -> FChange i d v | _ -> x end }

  predicate copies (f: frag) = match f with FCopy _ _ -> true | _ -> false end
  predicate changes (f: frag) = match f with FChange _ _ _ -> true | _ -> false end
  predicate conflicts (f: frag) = match f with FConflict _ _ -> true | _ -> false end
  function flen (f: frag) : int = match f with FCopy _ n -> n | FChange _ _ n -> n | FConflict _ _ -> 0 end

  function frag_version1 (f: frag) : seq int = match f with FConflict x _ -> x | _ -> empty end
  function frag_version2 (f: frag) : seq int = match f with FConflict _ y -> y | _ -> empty end
  function frag_insert (f: frag) : seq int = match f with FCopy t _ -> t | FChange t _ _ -> t | FConflict _ _ -> empty end

  (* a fragment of an edit script *)
  predicate wff (f: frag) = match f with
    | FCopy t n -> n = length t /\ n > 0
    | FChange i d n -> n = length d /\ length i + n > 0
    | FConflict _ _ -> false end
  function onew (o: opt frag) : seq int = if isn o then empty else fnew1 (the o)
  function oold (o: opt frag) : seq int = if isn o then empty else fold1 (the o)
  predicate owf (o: opt frag) = isn o \/ wff (the o)
  predicate wfs (s: seq frag) = forall i [s[i]]. 0 <= i < length s -> wff s[i]
end

(* The output of a merge as one sequence of tokens and conflicts. *)
module Mark
  use int.Int
  use sq.Sq
  use diff.Tree
  type mark = MT int | MC (seq int) (seq int)
end
module Marks
  use int.Int
  use sq.Sq
  use diff.Tree
  use Mark
  function mtok (x: int) : seq mark = singleton (MT x)
  function tmarks (s: seq int) : seq mark
  axiom tmarks_empty: tmarks empty = empty
  axiom tmarks_one: forall x [tmarks (singleton x)]. tmarks (singleton x) = mtok x
  axiom tmarks_snoc: forall s x [tmarks (snoc s x)]. tmarks (snoc s x) = tmarks s ++ mtok x
  axiom tmarks_app: forall s t [tmarks (s ++ t)]. tmarks (s ++ t) = tmarks s ++ tmarks t
  function fmarks1 (f: frag) : seq mark = match f with
    | FConflict x y -> if length x = 0 && length y = 0 then empty else singleton (MC x y)
    | FCopy t _ -> tmarks t | FChange t _ _ -> tmarks t end
  function fmarks (s: seq frag) : seq mark
  axiom fmarks_empty: fmarks empty = empty
  axiom fmarks_one: forall x [fmarks (singleton x)]. fmarks (singleton x) = fmarks1 x
  axiom fmarks_snoc: forall s x [fmarks (snoc s x)]. fmarks (snoc s x) = fmarks s ++ fmarks1 x
  axiom fmarks_app: forall s t [fmarks (s ++ t)]. fmarks (s ++ t) = fmarks s ++ fmarks t
  function dmarks1 (d: ditem) : seq mark = match d with DChange x y -> singleton (MC x y) | DText t -> tmarks t end
  function dmarks (s: seq ditem) : seq mark
  axiom dmarks_empty: dmarks empty = empty
  axiom dmarks_one: forall x [dmarks (singleton x)]. dmarks (singleton x) = dmarks1 x
  axiom dmarks_snoc: forall s x [dmarks (snoc s x)]. dmarks (snoc s x) = dmarks s ++ dmarks1 x
  axiom dmarks_app: forall s t [dmarks (s ++ t)]. dmarks (s ++ t) = dmarks s ++ dmarks t
  function fside1 (f: frag) : seq int = match f with FConflict x _ -> x | _ -> empty end
  function fv1 (s: seq frag) : seq int
  axiom fv1_empty: fv1 empty = empty
  axiom fv1_one: forall x [fv1 (singleton x)]. fv1 (singleton x) = fside1 x
  axiom fv1_snoc: forall s x [fv1 (snoc s x)]. fv1 (snoc s x) = fv1 s ++ fside1 x
  axiom fv1_app: forall s t [fv1 (s ++ t)]. fv1 (s ++ t) = fv1 s ++ fv1 t
  function fside2 (f: frag) : seq int = match f with FConflict _ y -> y | _ -> empty end
  function fv2 (s: seq frag) : seq int
  axiom fv2_empty: fv2 empty = empty
  axiom fv2_one: forall x [fv2 (singleton x)]. fv2 (singleton x) = fside2 x
  axiom fv2_snoc: forall s x [fv2 (snoc s x)]. fv2 (snoc s x) = fv2 s ++ fside2 x
  axiom fv2_app: forall s t [fv2 (s ++ t)]. fv2 (s ++ t) = fv2 s ++ fv2 t
end
module MarksReal
  use int.Int
  use sq.Sq
  use diff.Tree
  use Mark
  lemma front: forall s: seq 'a, x: 'a. (snoc s x)[..length (snoc s x) - 1] = s
  function mtok (x: int) : seq mark = singleton (MT x)
  let rec ghost function tmarks (s: seq int) : seq mark
    variant { length s }
  = if length s = 0 then empty else tmarks s[..length s - 1] ++ pure { mtok s[length s - 1] }
  lemma tmarks_snoc: forall s x. tmarks (snoc s x) = tmarks s ++ mtok x
  let rec lemma tmarks_app (s t: seq int)
    variant { length t }
    ensures { tmarks (s ++ t) = tmarks s ++ tmarks t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      tmarks_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { tmarks (s ++ t) = tmarks (s ++ t') ++ mtok x };
      assert { tmarks t = tmarks t' ++ mtok x }
    end
  lemma tmarks_one: forall x [tmarks (singleton x)]. tmarks (singleton x) = mtok x
  function fmarks1 (f: frag) : seq mark = match f with
    | FConflict x y -> if length x = 0 && length y = 0 then empty else singleton (MC x y)
    | FCopy t _ -> tmarks t | FChange t _ _ -> tmarks t end
  let rec ghost function fmarks (s: seq frag) : seq mark
    variant { length s }
  = if length s = 0 then empty else fmarks s[..length s - 1] ++ pure { fmarks1 s[length s - 1] }
  lemma fmarks_snoc: forall s x. fmarks (snoc s x) = fmarks s ++ fmarks1 x
  let rec lemma fmarks_app (s t: seq frag)
    variant { length t }
    ensures { fmarks (s ++ t) = fmarks s ++ fmarks t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      fmarks_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { fmarks (s ++ t) = fmarks (s ++ t') ++ fmarks1 x };
      assert { fmarks t = fmarks t' ++ fmarks1 x }
    end
  lemma fmarks_one: forall x [fmarks (singleton x)]. fmarks (singleton x) = fmarks1 x
  function dmarks1 (d: ditem) : seq mark = match d with DChange x y -> singleton (MC x y) | DText t -> tmarks t end
  let rec ghost function dmarks (s: seq ditem) : seq mark
    variant { length s }
  = if length s = 0 then empty else dmarks s[..length s - 1] ++ pure { dmarks1 s[length s - 1] }
  lemma dmarks_snoc: forall s x. dmarks (snoc s x) = dmarks s ++ dmarks1 x
  let rec lemma dmarks_app (s t: seq ditem)
    variant { length t }
    ensures { dmarks (s ++ t) = dmarks s ++ dmarks t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      dmarks_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { dmarks (s ++ t) = dmarks (s ++ t') ++ dmarks1 x };
      assert { dmarks t = dmarks t' ++ dmarks1 x }
    end
  lemma dmarks_one: forall x [dmarks (singleton x)]. dmarks (singleton x) = dmarks1 x
  function fside1 (f: frag) : seq int = match f with FConflict x _ -> x | _ -> empty end
  let rec ghost function fv1 (s: seq frag) : seq int
    variant { length s }
  = if length s = 0 then empty else fv1 s[..length s - 1] ++ pure { fside1 s[length s - 1] }
  lemma fv1_snoc: forall s x. fv1 (snoc s x) = fv1 s ++ fside1 x
  let rec lemma fv1_app (s t: seq frag)
    variant { length t }
    ensures { fv1 (s ++ t) = fv1 s ++ fv1 t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      fv1_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { fv1 (s ++ t) = fv1 (s ++ t') ++ fside1 x };
      assert { fv1 t = fv1 t' ++ fside1 x }
    end
  lemma fv1_one: forall x [fv1 (singleton x)]. fv1 (singleton x) = fside1 x
  function fside2 (f: frag) : seq int = match f with FConflict _ y -> y | _ -> empty end
  let rec ghost function fv2 (s: seq frag) : seq int
    variant { length s }
  = if length s = 0 then empty else fv2 s[..length s - 1] ++ pure { fside2 s[length s - 1] }
  lemma fv2_snoc: forall s x. fv2 (snoc s x) = fv2 s ++ fside2 x
  let rec lemma fv2_app (s t: seq frag)
    variant { length t }
    ensures { fv2 (s ++ t) = fv2 s ++ fv2 t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      fv2_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { fv2 (s ++ t) = fv2 (s ++ t') ++ fside2 x };
      assert { fv2 t = fv2 t' ++ fside2 x }
    end
  lemma fv2_one: forall x [fv2 (singleton x)]. fv2 (singleton x) = fside2 x
  clone Marks with function tmarks = tmarks, function fmarks = fmarks, function dmarks = dmarks, function fv1 = fv1, function fv2 = fv2
end

module Shows
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyFlat
  use py.PyRev
  use codec.Item
  use diff.Tree
  use diff.Streams
  use Mark
  use Marks
  use FragOps

  (* the fragment f of the output is what the segment (c, a, b) of parent and
     branches gives: the common text, the changed text, or a conflict; a part of
     the parent that both branches drop shows nothing *)
  predicate suffix (x y: seq int) = length x <= length y /\ y[length y - length x..] = x
  predicate shows (f: frag) (c a b: seq int) = match f with
    | FConflict v1 v2 -> v1 = a /\ v2 = b
    | FCopy t _ | FChange t _ _ -> t = a /\ t = b \/ t = a /\ suffix b c \/ t = b /\ suffix a c end
  let lemma gap_before (f: frag) (d c a b: seq int)
    requires { shows f c a b }
    ensures { shows f (d ++ c) a b }
  = let lemma one (x: seq int)
      requires { suffix x c }
      ensures { suffix x (d ++ c) }
    = assert { (d ++ c)[length d + length c - length x..] == c[length c - length x..] } in
    ()
  predicate shown (fs: seq frag) (gc ga gb: seq (seq int)) =
    length gc = length fs /\ length ga = length fs /\ length gb = length fs /\
    forall i [fs[i]]. 0 <= i < length fs -> shows fs[i] gc[i] ga[i] gb[i]
  (* there is a cut of p, a and b into segments that gives fs *)
  predicate cut (fs: seq frag) (p a b d: seq int) (gc ga gb: seq (seq int)) =
    shown fs gc ga gb /\ p = flat gc ++ d /\ a = flat ga /\ b = flat gb
  predicate good (fs: seq frag) (p a b: seq int) = exists d gc ga gb. cut fs p a b d gc ga gb

  let lemma good_empty ()
    ensures { good empty empty empty empty }
  = assert { cut empty empty empty empty empty empty empty empty }
  let lemma good_gap (fs: seq frag) (p a b x: seq int)
    requires { good fs p a b }
    ensures { good fs (p ++ x) a b }
  = assert { forall d gc ga gb. cut fs p a b d gc ga gb -> cut fs (p ++ x) a b (d ++ x) gc ga gb }
  let lemma good_snoc (fs: seq frag) (p a b: seq int) (f: frag) (c x y: seq int)
    requires { good fs p a b /\ shows f c x y }
    ensures { good (snoc fs f) (p ++ c) (a ++ x) (b ++ y) }
  = let lemma one (d: seq int) (gc ga gb: seq (seq int))
      requires { cut fs p a b d gc ga gb }
      ensures { good (snoc fs f) (p ++ c) (a ++ x) (b ++ y) }
    = assert { shown (snoc fs f) (snoc gc (d ++ c)) (snoc ga x) (snoc gb y) };
      assert { flat (snoc gc (d ++ c)) = p ++ c };
      assert { (p ++ c) ++ empty = p ++ c };
      assert { cut (snoc fs f) (p ++ c) (a ++ x) (b ++ y) empty (snoc gc (d ++ c)) (snoc ga x) (snoc gb y) } in
    ()

  (* one step of the merge: from fragments f0 and f1 at the same place of the
     parent to an output and what remains of them *)
  predicate same (f0 f1: frag) =
    forall i [(fold1 f0)[i] | (fold1 f1)[i]]. 0 <= i < length (fold1 f0) -> i < length (fold1 f1) -> (fold1 f0)[i] = (fold1 f1)[i]
  predicate step (f0 f1: frag) (o t0 t1: opt frag) (c a b: seq int) =
    not (isn o) /\ owf t0 /\ owf t1 /\
    fold1 f0 = c ++ oold t0 /\ fold1 f1 = c ++ oold t1 /\
    fnew1 f0 = a ++ onew t0 /\ fnew1 f1 = b ++ onew t1 /\
    length a + length b + length c > 0 /\
    shows (the o) c a b
  (* what is consumed *)
  function eat_old (f: frag) (t: opt frag) : seq int = (fold1 f)[..length (fold1 f) - length (oold t)]
  function eat_new (f: frag) (t: opt frag) : seq int = (fnew1 f)[..length (fnew1 f) - length (onew t)]
  predicate stepped (f0 f1: frag) (o t0 t1: opt frag) =
    step f0 f1 o t0 t1 (eat_old f0 t0) (eat_new f0 t0) (eat_new f1 t1)

  let lemma split2 (x y: seq int)
    ensures { (x ++ y)[..length x] = x }
    ensures { (x ++ y)[length x..] = y }
  = assert { (x ++ y)[..length x] == x };
    assert { (x ++ y)[length x..] == y }
  let lemma same_cut (f0 f1: frag) (n: int)
    requires { same f0 f1 /\ 0 <= n <= length (fold1 f0) /\ n <= length (fold1 f1) }
    ensures { (fold1 f0)[..n] = (fold1 f1)[..n] }
  = assert { (fold1 f0)[..n] == (fold1 f1)[..n] }
  let ghost stepping (f0 f1: frag) (o t0 t1: opt frag) (n i j: int)
    requires { wff f0 /\ wff f1 /\ same f0 f1 /\ not (isn o) /\ owf t0 /\ owf t1 }
    requires { 0 <= n <= length (fold1 f0) /\ n <= length (fold1 f1) /\ oold t0 = (fold1 f0)[n..] /\ oold t1 = (fold1 f1)[n..] }
    requires { 0 <= i <= length (fnew1 f0) /\ onew t0 = (fnew1 f0)[i..] }
    requires { 0 <= j <= length (fnew1 f1) /\ onew t1 = (fnew1 f1)[j..] }
    requires { n + i + j > 0 /\ shows (the o) (fold1 f0)[..n] (fnew1 f0)[..i] (fnew1 f1)[..j] }
    ensures { stepped f0 f1 o t0 t1 }
  = assert { (fold1 f0)[..n] = (fold1 f1)[..n] };
    assert { length (oold t0) = length (fold1 f0) - n };
    assert { length (onew t0) = length (fnew1 f0) - i };
    assert { length (onew t1) = length (fnew1 f1) - j };
    assert { (fold1 f0)[..n] ++ oold t0 == fold1 f0 };
    assert { (fold1 f0)[..n] ++ oold t1 == fold1 f1 };
    assert { (fnew1 f0)[..i] ++ onew t0 == fnew1 f0 };
    assert { (fnew1 f1)[..j] ++ onew t1 == fnew1 f1 };
    assert { eat_old f0 t0 = (fold1 f0)[..n] /\ eat_new f0 t0 = (fnew1 f0)[..i] /\ eat_new f1 t1 = (fnew1 f1)[..j] }
  (* the two branches exchanged *)
  predicate flips (o o': opt frag) =
    isn o = isn o' /\ (not (isn o) -> match the o with
      | FConflict x y -> the o' = FConflict y x
      | _ -> the o' = the o end)
  let lemma swapped (f0 f1: frag) (o o' t0 t1: opt frag)
    requires { stepped f0 f1 o t0 t1 /\ flips o o' }
    ensures { stepped f1 f0 o' t1 t0 }
  = assert { eat_old f1 t1 = eat_old f0 t0 };
    assert { shows (the o') (eat_old f0 t0) (eat_new f1 t1) (eat_new f0 t0) }

  (* the merge loop: what is out and what is left on the two stacks *)
  predicate mstate (out fr0 fr1: seq frag) (p a b: seq int) =
    exists p1 a1 b1. good out p1 a1 b1 /\
      p = p1 ++ fold (rev fr0) /\ p = p1 ++ fold (rev fr1) /\
      a = a1 ++ fnew (rev fr0) /\ b = b1 ++ fnew (rev fr1)
  function pushed (s: seq frag) (t: opt frag) : seq frag = if isn t then s else snoc s (the t)
  function left (s: seq frag) : int = length (fnew (rev s)) + length (fold (rev s))

  let lemma popped (s: seq frag)
    requires { length s > 0 }
    ensures { snoc s[..length s - 1] s[length s - 1] = s }
  = assert { snoc s[..length s - 1] s[length s - 1] == s }
  let lemma wfs_init (s: seq frag)
    requires { wfs s /\ length s > 0 }
    ensures { wfs s[..length s - 1] }
    ensures { wff s[length s - 1] }
  = assert { forall i. 0 <= i < length s - 1 -> s[..length s - 1][i] = s[i] }
  let lemma wfs_snoc (s: seq frag) (f: frag)
    requires { wfs s /\ wff f }
    ensures { wfs (snoc s f) }
  = ()
  let lemma rev_pushed (s: seq frag) (t: opt frag)
    ensures { fold (rev (pushed s t)) = oold t ++ fold (rev s) }
    ensures { fnew (rev (pushed s t)) = onew t ++ fnew (rev s) }
  = ()
  let lemma rev_top (s: seq frag) (f: frag)
    ensures { fold (rev (snoc s f)) = fold1 f ++ fold (rev s) }
    ensures { fnew (rev (snoc s f)) = fnew1 f ++ fnew (rev s) }
  = ()
  let lemma app_cancel (x y z: seq int)
    requires { x ++ y = x ++ z }
    ensures { y = z }
  = assert { (x ++ y)[length x..] = y };
    assert { (x ++ z)[length x..] = z }
  let ghost heads (out fr0 fr1: seq frag) (p a b: seq int)
    requires { mstate out fr0 fr1 p a b /\ length fr0 > 0 /\ length fr1 > 0 }
    ensures { same fr0[length fr0 - 1] fr1[length fr1 - 1] }
    ensures { fr0 = snoc fr0[..length fr0 - 1] fr0[length fr0 - 1] /\ fr1 = snoc fr1[..length fr1 - 1] fr1[length fr1 - 1] }
  = let r0 = fr0[..length fr0 - 1] in
    let r1 = fr1[..length fr1 - 1] in
    let f0 = pure { fr0[length fr0 - 1] } in
    let f1 = pure { fr1[length fr1 - 1] } in
    assert { fr0 = snoc r0 f0 /\ fr1 = snoc r1 f1 };
    assert { fold (rev fr0) = fold (rev fr1) };
    assert { fold1 f0 ++ fold (rev r0) = fold1 f1 ++ fold (rev r1) };
    let lemma one (i: int)
      requires { 0 <= i < length (fold1 f0) /\ i < length (fold1 f1) }
      ensures { (fold1 f0)[i] = (fold1 f1)[i] }
    = assert { (fold1 f0 ++ fold (rev r0))[i] = (fold1 f0)[i] };
      assert { (fold1 f1 ++ fold (rev r1))[i] = (fold1 f1)[i] } in
    ()
  let ghost advance (out r0 r1: seq frag) (p a b: seq int) (f0 f1: frag) (o t0 t1: opt frag)
    requires { mstate out (snoc r0 f0) (snoc r1 f1) p a b /\ stepped f0 f1 o t0 t1 }
    ensures { mstate (snoc out (the o)) (pushed r0 t0) (pushed r1 t1) p a b }
    ensures { left (pushed r0 t0) + left (pushed r1 t1) < left (snoc r0 f0) + left (snoc r1 f1) }
  = let c = pure { eat_old f0 t0 } in
    let x = pure { eat_new f0 t0 } in
    let y = pure { eat_new f1 t1 } in
    assert { fold1 f0 = c ++ oold t0 /\ fold1 f1 = c ++ oold t1 };
    assert { fnew1 f0 = x ++ onew t0 /\ fnew1 f1 = y ++ onew t1 };
    assert { fold (rev (snoc r0 f0)) = c ++ fold (rev (pushed r0 t0)) };
    assert { fold (rev (snoc r1 f1)) = c ++ fold (rev (pushed r1 t1)) };
    assert { fnew (rev (snoc r0 f0)) = x ++ fnew (rev (pushed r0 t0)) };
    assert { fnew (rev (snoc r1 f1)) = y ++ fnew (rev (pushed r1 t1)) };
    let lemma one (p1 a1 b1: seq int)
      requires { good out p1 a1 b1 /\ p = p1 ++ fold (rev (snoc r0 f0)) /\ p = p1 ++ fold (rev (snoc r1 f1)) /\
                 a = a1 ++ fnew (rev (snoc r0 f0)) /\ b = b1 ++ fnew (rev (snoc r1 f1)) }
      ensures { mstate (snoc out (the o)) (pushed r0 t0) (pushed r1 t1) p a b }
    = good_snoc out p1 a1 b1 (pure { the o }) c x y;
      assert { p = (p1 ++ c) ++ fold (rev (pushed r0 t0)) };
      assert { p = (p1 ++ c) ++ fold (rev (pushed r1 t1)) };
      assert { a = (a1 ++ x) ++ fnew (rev (pushed r0 t0)) };
      assert { b = (b1 ++ y) ++ fnew (rev (pushed r1 t1)) } in
    ()

  (* one stack is empty: what is left are insertions of one branch *)
  function text0 (first: bool) (s: seq int) : seq int = if first then s else empty
  function text1 (first: bool) (s: seq int) : seq int = if first then empty else s
  let ghost no_old (s: seq frag) (i: int)
    requires { fold s = empty /\ 0 <= i < length s }
    ensures { fold1 s[i] = empty }
  = assert { s == (s[..i] ++ singleton s[i]) ++ s[i + 1..] };
    assert { fold s = (fold s[..i] ++ fold1 s[i]) ++ fold s[i + 1..] };
    assert { length (fold1 s[i]) = 0 }
  let ghost flushed (out: seq frag) (f x: frag) (a b: seq int) (first: bool)
    requires { good out empty a b }
    requires { shows f empty (text0 first (fnew1 x)) (text1 first (fnew1 x)) }
    ensures { good (snoc out f) empty (a ++ text0 first (fnew1 x)) (b ++ text1 first (fnew1 x)) }
  = good_snoc out empty a b f empty (pure { text0 first (fnew1 x) }) (pure { text1 first (fnew1 x) });
    assert { (empty: seq int) ++ empty = empty }
  let rec ghost appended (out more: seq frag) (p a b p2 a2 b2: seq int) (d: seq int) (gc ga gb: seq (seq int))
    requires { good out p a b /\ cut more p2 a2 b2 d gc ga gb }
    ensures { good (out ++ more) (p ++ p2) (a ++ a2) (b ++ b2) }
    variant { length more }
  = let n = length more - 1 in
    if length more = 0 then begin
      assert { flat gc = empty /\ p2 = d };
      good_gap out p a b d
    end else begin
      let m' = pure { more[..n] } in
      let gc' = pure { gc[..n] } in
      let ga' = pure { ga[..n] } in
      let gb' = pure { gb[..n] } in
      let f = pure { more[n] } in
      assert { more = snoc m' f /\ gc = snoc gc' gc[n] /\ ga = snoc ga' ga[n] /\ gb = snoc gb' gb[n] };
      assert { shown m' gc' ga' gb' };
      let p' = pure { flat gc' } in
      let a' = pure { flat ga' } in
      let b' = pure { flat gb' } in
      assert { cut m' p' a' b' empty gc' ga' gb' };
      appended out m' p a b p' a' b' empty gc' ga' gb';
      assert { shows f gc[n] ga[n] gb[n] };
      good_snoc (pure { out ++ m' }) (pure { p ++ p' }) (pure { a ++ a' }) (pure { b ++ b' }) f (pure { gc[n] }) (pure { ga[n] }) (pure { gb[n] });
      assert { snoc (out ++ m') f = out ++ more };
      good_gap (pure { out ++ more }) (pure { (p ++ p') ++ gc[n] }) (pure { (a ++ a') ++ ga[n] }) (pure { (b ++ b') ++ gb[n] }) d;
      assert { p2 = (p' ++ gc[n]) ++ d };
      assert { ((p ++ p') ++ gc[n]) ++ d = p ++ p2 };
      assert { (a ++ a') ++ ga[n] = a ++ a2 };
      assert { (b ++ b') ++ gb[n] = b ++ b2 }
    end
  let ghost append (out more: seq frag) (p a b p2 a2 b2: seq int)
    requires { good out p a b /\ good more p2 a2 b2 }
    ensures { good (out ++ more) (p ++ p2) (a ++ a2) (b ++ b2) }
  = let lemma one (d: seq int) (gc ga gb: seq (seq int))
      requires { cut more p2 a2 b2 d gc ga gb }
      ensures { good (out ++ more) (p ++ p2) (a ++ a2) (b ++ b2) }
    = appended out more p a b p2 a2 b2 d gc ga gb in
    ()
  let ghost finished (out rest fr0 fr1: seq frag) (p a b: seq int)
    requires { mstate out fr0 fr1 p a b /\ good rest empty (fnew (rev fr0)) (fnew (rev fr1)) }
    requires { fold (rev fr0) = empty }
    ensures { good (out ++ rest) p a b }
  = let lemma one (p1 a1 b1: seq int)
      requires { good out p1 a1 b1 /\ p = p1 ++ fold (rev fr0) /\ a = a1 ++ fnew (rev fr0) /\ b = b1 ++ fnew (rev fr1) }
      ensures { good (out ++ rest) p a b }
    = append out rest p1 a1 b1 empty (pure { fnew (rev fr0) }) (pure { fnew (rev fr1) }) in
    ()
end

(* the two passes that consolidate the fragments of a merge *)
module Groups
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyFlat
  use py.PyRev
  use codec.Item
  use auto.Com
  use auto.Lcs
  use diff.Tree
  use diff.Streams
  use diff.Diff
  use FragOps
  use Mark
  use Marks
  use Shows

  (* the fragments of a change tree are well formed *)
  let ghost wfs_app (s t: seq frag)
    requires { wfs s /\ wfs t }
    ensures { wfs (s ++ t) }
  = ()
  let rec ghost tree_wfs (o m: seq int) (a b c d: int) (t: cs)
    requires { csok o m a b c d t }
    ensures { wfs (fstream o t) }
    variant { t }
  = match t with
    | Leaf x y _ _ ->
        assert { wff (FChange y x (length x)) \/ length x + length y = 0 }
    | Node (Slice i j) (Slice k l) p q ->
        tree_wfs o m a i c k p;
        tree_wfs o m j b l d q;
        csok_range o m a i c k p;
        assert { wff (FCopy (at_slice o (Slice i j)) (length (at_slice o (Slice i j)))) };
        wfs_snoc (pure { fstream o p }) (pure { FCopy (at_slice o (Slice i j)) (length (at_slice o (Slice i j))) });
        wfs_app (pure { snoc (fstream o p) (FCopy (at_slice o (Slice i j)) (length (at_slice o (Slice i j)))) }) (pure { fstream o q })
    | _ -> absurd end
  let ghost made_frags (o m: seq int) (t: cs)
    requires { made o m t }
    ensures { wfs (fstream o t) /\ fnew (fstream o t) = m /\ fold (fstream o t) = o }
  = made_reads o m t;
    tree_wfs o m 0 (pure { length o }) 0 (pure { length m }) t
  let lemma wfs_rev (s: seq frag)
    requires { wfs s }
    ensures { wfs (rev s) }
  = ()

  let ghost popping (s st: seq frag) (k: int)
    requires { 0 < length st <= length s /\ k = length s - length st /\ rev st = s[k..length s] }
    ensures { st[length st - 1] = s[k] }
    ensures { rev st[..length st - 1] = s[k + 1..length s] }
  = assert { (rev st)[0] = st[length st - 1] };
    assert { rev st = singleton st[length st - 1] ++ rev st[..length st - 1] };
    let lemma one (i: int)
      requires { 0 <= i < length st - 1 }
      ensures { (rev st[..length st - 1])[i] = s[k + 1..length s][i] }
    = assert { (rev st)[i + 1] = s[k + 1 + i] };
      assert { (rev st)[i + 1] = (rev st[..length st - 1])[i] } in
    assert { rev st[..length st - 1] == s[k + 1..length s] }

  (* a run of conflicts *)
  predicate confl (s: seq frag) = forall i [s[i]]. 0 <= i < length s -> conflicts s[i]
  predicate plain (s: seq frag) = forall i [s[i]]. 0 <= i < length s -> not (conflicts s[i])
  predicate sides1 (s: seq frag) (r: seq (seq int)) = length r = length s /\ forall i [r[i]]. 0 <= i < length s -> r[i] = fside1 s[i]
  predicate sides2 (s: seq frag) (r: seq (seq int)) = length r = length s /\ forall i [r[i]]. 0 <= i < length s -> r[i] = fside2 s[i]
  predicate inserts (s: seq frag) (r: seq (seq int)) = length r = length s /\ forall i [r[i]]. 0 <= i < length s -> r[i] = fnew1 s[i]
  let rec lemma flat_sides1 (s: seq frag) (r: seq (seq int))
    requires { sides1 s r }
    ensures { flat r = fv1 s }
    variant { length s }
  = let n = length s - 1 in
    if length s > 0 then begin
      flat_sides1 s[..n] r[..n];
      assert { s == snoc s[..n] s[n] };
      assert { r == snoc r[..n] r[n] }
    end
  let rec lemma flat_sides2 (s: seq frag) (r: seq (seq int))
    requires { sides2 s r }
    ensures { flat r = fv2 s }
    variant { length s }
  = let n = length s - 1 in
    if length s > 0 then begin
      flat_sides2 s[..n] r[..n];
      assert { s == snoc s[..n] s[n] };
      assert { r == snoc r[..n] r[n] }
    end
  let rec lemma flat_inserts (s: seq frag) (r: seq (seq int))
    requires { inserts s r }
    ensures { flat r = fnew s }
    variant { length s }
  = let n = length s - 1 in
    if length s > 0 then begin
      flat_inserts s[..n] r[..n];
      assert { s == snoc s[..n] s[n] };
      assert { r == snoc r[..n] r[n] }
    end
  let rec lemma plain_marks (s: seq frag)
    requires { plain s }
    ensures { fmarks s = tmarks (fnew s) }
    variant { length s }
  = let n = length s - 1 in
    if length s > 0 then begin
      plain_marks s[..n];
      assert { s == snoc s[..n] s[n] };
      assert { fmarks s = fmarks s[..n] ++ tmarks (fnew1 s[n]) };
      assert { fnew s = fnew s[..n] ++ fnew1 s[n] }
    end

  let ghost growing (s g: seq frag) (m n: int)
    requires { 0 <= m <= n < length s /\ g = s[m..n] }
    ensures { snoc g s[n] = s[m..n + 1] }
    ensures { confl g /\ conflicts s[n] -> confl s[m..n + 1] }
    ensures { plain g /\ not (conflicts s[n]) -> plain s[m..n + 1] }
  = assert { snoc g s[n] == s[m..n + 1] };
    assert { forall i. 0 <= i < n - m -> s[m..n + 1][i] = g[i] };
    assert { s[m..n + 1][n - m] = s[n] }
  let ghost whole (s: seq frag) (m n: int)
    requires { 0 <= m <= n <= length s }
    ensures { s[..m] ++ s[m..n] = s[..n] }
  = ()
  let ghost front (s: seq frag) (n: int)
    requires { 0 <= n < length s }
    ensures { snoc s[..n] s[n] = s[..n + 1] }
  = assert { snoc s[..n] s[n] == s[..n + 1] }

  (* taking a cut apart *)
  predicate apart (s t: seq frag) (p a b p1 a1 b1 p2 a2 b2: seq int) =
    good s p1 a1 b1 /\ good t p2 a2 b2 /\ p = p1 ++ p2 /\ a = a1 ++ a2 /\ b = b1 ++ b2
  let ghost split_cut (s t: seq frag) (p a b d: seq int) (gc ga gb: seq (seq int))
    requires { cut (s ++ t) p a b d gc ga gb }
    ensures { exists p1 a1 b1 p2 a2 b2. apart s t p a b p1 a1 b1 p2 a2 b2 }
  = let n = length s in
    let m = n + length t in
    let p1 = pure { flat gc[..n] } in
    let a1 = pure { flat ga[..n] } in
    let b1 = pure { flat gb[..n] } in
    let p2 = pure { flat gc[n..m] ++ d } in
    let a2 = pure { flat ga[n..m] } in
    let b2 = pure { flat gb[n..m] } in
    assert { forall i. 0 <= i < n -> (s ++ t)[i] = s[i] };
    assert { forall i. 0 <= i < length t -> (s ++ t)[n + i] = t[i] };
    assert { shown s gc[..n] ga[..n] gb[..n] };
    assert { shown t gc[n..m] ga[n..m] gb[n..m] };
    assert { p1 ++ empty = p1 };
    assert { cut s p1 a1 b1 empty gc[..n] ga[..n] gb[..n] };
    assert { cut t p2 a2 b2 d gc[n..m] ga[n..m] gb[n..m] };
    assert { gc == gc[..n] ++ gc[n..m] };
    assert { ga == ga[..n] ++ ga[n..m] };
    assert { gb == gb[..n] ++ gb[n..m] };
    assert { p = p1 ++ p2 };
    assert { apart s t p a b p1 a1 b1 p2 a2 b2 }
  let lemma split_good (s t: seq frag) (p a b: seq int)
    requires { good (s ++ t) p a b }
    ensures { exists p1 a1 b1 p2 a2 b2. apart s t p a b p1 a1 b1 p2 a2 b2 }
  = let lemma one (d: seq int) (gc ga gb: seq (seq int))
      requires { cut (s ++ t) p a b d gc ga gb }
      ensures { exists p1 a1 b1 p2 a2 b2. apart s t p a b p1 a1 b1 p2 a2 b2 }
    = split_cut s t p a b d gc ga gb in
    ()
  let ghost confl_cut (s: seq frag) (p a b d: seq int) (gc ga gb: seq (seq int))
    requires { cut s p a b d gc ga gb /\ confl s }
    ensures { a = fv1 s /\ b = fv2 s }
  = assert { sides1 s ga };
    assert { sides2 s gb }
  let lemma confl_good (s: seq frag) (p a b: seq int)
    requires { good s p a b /\ confl s }
    ensures { a = fv1 s /\ b = fv2 s }
  = let lemma one (d: seq int) (gc ga gb: seq (seq int))
      requires { cut s p a b d gc ga gb }
      ensures { a = fv1 s /\ b = fv2 s }
    = confl_cut s p a b d gc ga gb in
    ()

  (* first pass: every cut that gives the input, up to the texts x and y of the
     current run of conflicts, gives the output *)
  predicate partly (s out: seq frag) (x y: seq int) = forall p a b [good s p a b]. good s p a b -> good out p (a ++ x) (b ++ y)
  let ghost partly_piece (s out: seq frag) (x y: seq int) (f: frag) (v w: seq int)
    requires { partly s out x y /\ shows f empty v w }
    ensures { partly s (snoc out f) (x ++ v) (y ++ w) }
  = let lemma one (p a b: seq int)
      requires { good s p a b }
      ensures { good (snoc out f) p (a ++ (x ++ v)) (b ++ (y ++ w)) }
    = good_snoc out p (pure { a ++ x }) (pure { b ++ y }) f (pure { (empty: seq int) }) v w;
      assert { p ++ empty = p };
      assert { (a ++ x) ++ v = a ++ (x ++ v) };
      assert { (b ++ y) ++ w = b ++ (y ++ w) } in
    ()
  let ghost partly_run (s g out: seq frag)
    requires { confl g /\ partly s out (fv1 g) (fv2 g) }
    ensures { partly (s ++ g) out empty empty }
  = let lemma two (p a b p1 a1 b1 p2 a2 b2: seq int)
      requires { apart s g p a b p1 a1 b1 p2 a2 b2 }
      ensures { good out p a b }
    = assert { a2 = fv1 g /\ b2 = fv2 g };
      good_gap out p1 a b p2 in
    let lemma one (p a b: seq int)
      requires { good (s ++ g) p a b }
      ensures { good out p (a ++ empty) (b ++ empty) }
    = split_good s g p a b in
    ()
  let ghost partly_same (s out: seq frag) (f: frag)
    requires { partly s out empty empty }
    ensures { partly (snoc s f) (snoc out f) empty empty }
  = let g = pure { singleton f } in
    let lemma two (p a b p1 a1 b1 p2 a2 b2: seq int)
      requires { apart s g p a b p1 a1 b1 p2 a2 b2 }
      ensures { good (snoc out f) p a b }
    = assert { good out (p1) (a1 ++ empty) (b1 ++ empty) };
      append out g p1 a1 b1 p2 a2 b2 in
    let lemma one (p a b: seq int)
      requires { good (snoc s f) p a b }
      ensures { good (snoc out f) p (a ++ empty) (b ++ empty) }
    = assert { s ++ g = snoc s f };
      split_good s g p a b in
    ()
  let ghost partly_none ()
    ensures { partly empty empty empty empty }
  = ()
  predicate refines (s out: seq frag) = forall p a b [good s p a b]. good s p a b -> good out p a b

  (* second pass: the same tokens and conflicts *)
  predicate gives (ms: seq mark) (p a b: seq int) = exists fs. good fs p a b /\ fmarks fs = ms
  predicate lays (s: seq frag) (ms: seq mark) = forall p a b [good s p a b]. good s p a b -> gives ms p a b
  function mconfl (x y: seq int) : seq mark = if length x = 0 && length y = 0 then empty else singleton (MC x y)
  let ghost lays_run (s g: seq frag) (ms: seq mark)
    requires { confl g /\ lays s ms }
    ensures { lays (s ++ g) (ms ++ mconfl (fv1 g) (fv2 g)) }
  = let v = pure { fv1 g } in
    let w = pure { fv2 g } in
    let lemma three (fs: seq frag) (p1 a1 b1 p2: seq int)
      requires { good fs p1 a1 b1 /\ fmarks fs = ms }
      ensures { gives (ms ++ mconfl v w) (p1 ++ p2) (a1 ++ v) (b1 ++ w) }
    = good_snoc fs p1 a1 b1 (FConflict v w) p2 v w;
      assert { fmarks (snoc fs (FConflict v w)) = ms ++ mconfl v w } in
    let lemma two (p a b p1 a1 b1 p2 a2 b2: seq int)
      requires { apart s g p a b p1 a1 b1 p2 a2 b2 }
      ensures { gives (ms ++ mconfl v w) p a b }
    = assert { a2 = v /\ b2 = w };
      assert { gives ms p1 a1 b1 };
      assert { gives (ms ++ mconfl v w) (p1 ++ p2) (a1 ++ v) (b1 ++ w) } in
    let lemma one (p a b: seq int)
      requires { good (s ++ g) p a b }
      ensures { gives (ms ++ mconfl v w) p a b }
    = split_good s g p a b in
    ()
  let ghost lays_text (s g: seq frag) (ms: seq mark)
    requires { plain g /\ lays s ms }
    ensures { lays (s ++ g) (ms ++ tmarks (fnew g)) }
  = let u = pure { tmarks (fnew g) } in
    let lemma three (fs: seq frag) (p1 a1 b1 p2 a2 b2: seq int)
      requires { good fs p1 a1 b1 /\ fmarks fs = ms /\ good g p2 a2 b2 }
      ensures { gives (ms ++ u) (p1 ++ p2) (a1 ++ a2) (b1 ++ b2) }
    = append fs g p1 a1 b1 p2 a2 b2;
      assert { fmarks (fs ++ g) = ms ++ u } in
    let lemma two (p a b p1 a1 b1 p2 a2 b2: seq int)
      requires { apart s g p a b p1 a1 b1 p2 a2 b2 }
      ensures { gives (ms ++ u) p a b }
    = assert { gives ms p1 a1 b1 };
      assert { gives (ms ++ u) (p1 ++ p2) (a1 ++ a2) (b1 ++ b2) } in
    let lemma one (p a b: seq int)
      requires { good (s ++ g) p a b }
      ensures { gives (ms ++ u) p a b }
    = split_good s g p a b in
    ()
  let ghost lays_none ()
    ensures { lays empty empty }
  = assert { fmarks empty = empty }
end
