(* Change trees and the streams made from them (changesets.py). *)
module Tree
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use codec.Item

  (* ChangesetLeaf(original, modified, original_slice, modified_slice) and
     Changeset(common_original, common_modified, prefix, suffix) *)
  type cs = Leaf (seq int) (seq int) slice slice | Node slice slice cs cs
  val is_Leaf (t: cs) : bool ensures { result <-> match t with Leaf _ _ _ _ -> true | _ -> false end }
  val is_Node (t: cs) : bool ensures { result <-> match t with Node _ _ _ _ -> true | _ -> false end }
  val get_cs_original (t: cs) : seq int
    requires { [@expl:object has the attribute] match t with Leaf _ _ _ _ -> true | _ -> false end }
    ensures { match t with Leaf a _ _ _ -> result = a | _ -> false end }
  val get_cs_modified (t: cs) : seq int
    requires { [@expl:object has the attribute] match t with Leaf _ _ _ _ -> true | _ -> false end }
    ensures { match t with Leaf _ b _ _ -> result = b | _ -> false end }
  val get_cs_original_slice (t: cs) : slice
    requires { [@expl:object has the attribute] match t with Leaf _ _ _ _ -> true | _ -> false end }
    ensures { match t with Leaf _ _ a _ -> result = a | _ -> false end }
  val get_cs_modified_slice (t: cs) : slice
    requires { [@expl:object has the attribute] match t with Leaf _ _ _ _ -> true | _ -> false end }
    ensures { match t with Leaf _ _ _ b -> result = b | _ -> false end }
  val get_cs_common_original (t: cs) : slice
    requires { [@expl:object has the attribute] match t with Node _ _ _ _ -> true | _ -> false end }
    ensures { match t with Node a _ _ _ -> result = a | _ -> false end }
  val get_cs_common_modified (t: cs) : slice
    requires { [@expl:object has the attribute] match t with Node _ _ _ _ -> true | _ -> false end }
    ensures { match t with Node _ b _ _ -> result = b | _ -> false end }
  val get_cs_prefix (t: cs) : cs
    requires { [@expl:object has the attribute] match t with Node _ _ _ _ -> true | _ -> false end }
    ensures { match t with Node _ _ p _ -> result = p | _ -> false end }
  val get_cs_suffix (t: cs) : cs
    requires { [@expl:object has the attribute] match t with Node _ _ _ _ -> true | _ -> false end }
    ensures { match t with Node _ _ _ q -> result = q | _ -> false end }
  function size (t: cs) : int = match t with Leaf _ _ _ _ -> 0 | Node _ _ p q -> 1 + size p + size q end
  let rec lemma size_nonneg (t: cs)
    variant { t }
    ensures { size t >= 0 }
  = match t with Leaf _ _ _ _ -> () | Node _ _ p q -> size_nonneg p; size_nonneg q end

  (* change script: Change(a, b) and CommonSlice(a_slice, b_slice) *)
  type chg = CChange (seq int) (seq int) | CCommon slice slice
  val is_CChange (x: chg) : bool ensures { result <-> match x with CChange _ _ -> true | _ -> false end }
  val is_CCommon (x: chg) : bool ensures { result <-> match x with CCommon _ _ -> true | _ -> false end }
  val get_chg_a (x: chg) : seq int
    requires { [@expl:object has the attribute] match x with CChange _ _ -> true | _ -> false end }
    ensures { match x with CChange a _ -> result = a | _ -> false end }
  val get_chg_b (x: chg) : seq int
    requires { [@expl:object has the attribute] match x with CChange _ _ -> true | _ -> false end }
    ensures { match x with CChange _ b -> result = b | _ -> false end }
  val get_chg_a_slice (x: chg) : slice
    requires { [@expl:object has the attribute] match x with CCommon _ _ -> true | _ -> false end }
    ensures { match x with CCommon a _ -> result = a | _ -> false end }
  val get_chg_b_slice (x: chg) : slice
    requires { [@expl:object has the attribute] match x with CCommon _ _ -> true | _ -> false end }
    ensures { match x with CCommon _ b -> result = b | _ -> false end }

  (* diff: a text or Change(a, b) *)
  type ditem = DText (seq int) | DChange (seq int) (seq int)
  val is_DText (x: ditem) : bool ensures { result <-> match x with DText _ -> true | _ -> false end }
  val is_DChange (x: ditem) : bool ensures { result <-> match x with DChange _ _ -> true | _ -> false end }
  val truthy_ditem (x: ditem) : bool ensures { result <-> match x with DText t -> length t > 0 | DChange _ _ -> true end }
  val get_DText (x: ditem) : seq int
    requires { [@expl:item is a text] match x with DText _ -> true | _ -> false end }
    ensures { x = DText result }
  val get_ditem_a (x: ditem) : seq int
    requires { [@expl:object has the attribute] match x with DChange _ _ -> true | _ -> false end }
    ensures { match x with DChange a _ -> result = a | _ -> false end }
  val get_ditem_b (x: ditem) : seq int
    requires { [@expl:object has the attribute] match x with DChange _ _ -> true | _ -> false end }
    ensures { match x with DChange _ b -> result = b | _ -> false end }
  function dnew1 (x: ditem) : seq int = match x with DText a -> a | DChange a _ -> a end
  function dold1 (x: ditem) : seq int = match x with DText a -> a | DChange _ b -> b end

  (* fragments of an edit script: CopyFragment(insert, length),
     ChangeFragment(insert, delete, length), ConflictFragment(version1, version2) *)
  type frag = FCopy (seq int) int | FChange (seq int) (seq int) int | FConflict (seq int) (seq int)
  val is_FCopy (x: frag) : bool ensures { result <-> match x with FCopy _ _ -> true | _ -> false end }
  val is_FChange (x: frag) : bool ensures { result <-> match x with FChange _ _ _ -> true | _ -> false end }
  val is_FConflict (x: frag) : bool ensures { result <-> match x with FConflict _ _ -> true | _ -> false end }
  val get_frag_insert (x: frag) : seq int
    requires { [@expl:object has the attribute] match x with FConflict _ _ -> false | _ -> true end }
    ensures { match x with FCopy a _ -> result = a | FChange a _ _ -> result = a | _ -> false end }
  val get_frag_delete (x: frag) : seq int
    requires { [@expl:object has the attribute] match x with FChange _ _ _ -> true | _ -> false end }
    ensures { match x with FChange _ b _ -> result = b | _ -> false end }
  val get_frag_length (x: frag) : int
    requires { [@expl:object has the attribute] match x with FConflict _ _ -> false | _ -> true end }
    ensures { match x with FCopy _ n -> result = n | FChange _ _ n -> result = n | _ -> false end }
  val get_frag_version1 (x: frag) : seq int
    requires { [@expl:object has the attribute] match x with FConflict _ _ -> true | _ -> false end }
    ensures { match x with FConflict a _ -> result = a | _ -> false end }
  val get_frag_version2 (x: frag) : seq int
    requires { [@expl:object has the attribute] match x with FConflict _ _ -> true | _ -> false end }
    ensures { match x with FConflict _ b -> result = b | _ -> false end }

  (* the streams of a tree *)
  function cstream (t: cs) : seq chg = match t with
    | Leaf a b _ _ -> if length b > 0 || length a > 0 then singleton (CChange b a) else empty
    | Node x y p q -> snoc (cstream p) (CCommon x y) ++ cstream q end
  function dstream (o: seq int) (t: cs) : seq ditem = match t with
    | Leaf a b _ _ -> if length b > 0 || length a > 0 then singleton (DChange b a) else empty
    | Node x _ p q -> snoc (dstream o p) (DText (at_slice o x)) ++ dstream o q end
  function fstream (o: seq int) (t: cs) : seq frag = match t with
    | Leaf a b _ _ -> if length b > 0 || length a > 0 then singleton (FChange b a (length a)) else empty
    | Node x _ p q -> snoc (fstream o p) (FCopy (at_slice o x) (length (at_slice o x))) ++ fstream o q end
  function tnew (o: seq int) (t: cs) : seq (seq int) = match t with
    | Leaf _ b _ _ -> singleton b
    | Node x _ p q -> snoc (tnew o p) (at_slice o x) ++ tnew o q end
  function told (m: seq int) (t: cs) : seq (seq int) = match t with
    | Leaf a _ _ _ -> singleton a
    | Node _ y p q -> snoc (told m p) (at_slice m y) ++ told m q end
end

(* reading streams *)
module Streams
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use codec.Item
  use Tree

  (* a diff read with its insertions, or with its deletions *)
  function dnew (s: seq ditem) : seq int
  axiom dnew_empty: dnew empty = empty
  axiom dnew_one: forall x [dnew (singleton x)]. dnew (singleton x) = dnew1 x
  axiom dnew_snoc: forall s x [dnew (snoc s x)]. dnew (snoc s x) = dnew s ++ dnew1 x
  axiom dnew_app: forall s t [dnew (s ++ t)]. dnew (s ++ t) = dnew s ++ dnew t
  function dold (s: seq ditem) : seq int
  axiom dold_empty: dold empty = empty
  axiom dold_one: forall x [dold (singleton x)]. dold (singleton x) = dold1 x
  axiom dold_snoc: forall s x [dold (snoc s x)]. dold (snoc s x) = dold s ++ dold1 x
  axiom dold_app: forall s t [dold (s ++ t)]. dold (s ++ t) = dold s ++ dold t

  (* a change script stripped for one direction *)
  function fwd1 (x: chg) : seq item = match x with
    | CChange a _ -> if length a = 0 then empty else singleton (IText a) | CCommon a _ -> singleton (ISlice a) end
  function rev1 (x: chg) : seq item = match x with
    | CChange _ b -> if length b = 0 then empty else singleton (IText b) | CCommon _ b -> singleton (ISlice b) end
  function fwd (s: seq chg) : seq item
  axiom fwd_empty: fwd empty = empty
  axiom fwd_one: forall x [fwd (singleton x)]. fwd (singleton x) = fwd1 x
  axiom fwd_snoc: forall s x [fwd (snoc s x)]. fwd (snoc s x) = fwd s ++ fwd1 x
  axiom fwd_app: forall s t [fwd (s ++ t)]. fwd (s ++ t) = fwd s ++ fwd t
  function rvs (s: seq chg) : seq item
  axiom rvs_empty: rvs empty = empty
  axiom rvs_one: forall x [rvs (singleton x)]. rvs (singleton x) = rev1 x
  axiom rvs_snoc: forall s x [rvs (snoc s x)]. rvs (snoc s x) = rvs s ++ rev1 x
  axiom rvs_app: forall s t [rvs (s ++ t)]. rvs (s ++ t) = rvs s ++ rvs t

  (* a stripped script applied to a version *)
  function applied1 (x: item) (v: seq int) : seq int = match x with IText a -> a | ISlice s -> at_slice v s end
  function applied (s: seq item) (v: seq int) : seq int
  axiom applied_empty: forall v [applied empty v]. applied empty v = empty
  axiom applied_one: forall x v [applied (singleton x) v]. applied (singleton x) v = applied1 x v
  axiom applied_snoc: forall s x v [applied (snoc s x) v]. applied (snoc s x) v = applied s v ++ applied1 x v
  axiom applied_app: forall s t v [applied (s ++ t) v]. applied (s ++ t) v = applied s v ++ applied t v

  (* fragments: the text they stand for and the text they replace *)
  function fnew1 (x: frag) : seq int = match x with FCopy a _ -> a | FChange a _ _ -> a | FConflict _ _ -> empty end
  function fold1 (x: frag) : seq int = match x with FCopy a _ -> a | FChange _ b _ -> b | FConflict _ _ -> empty end
  function fnew (s: seq frag) : seq int
  axiom fnew_empty: fnew empty = empty
  axiom fnew_one: forall x [fnew (singleton x)]. fnew (singleton x) = fnew1 x
  axiom fnew_snoc: forall s x [fnew (snoc s x)]. fnew (snoc s x) = fnew s ++ fnew1 x
  axiom fnew_app: forall s t [fnew (s ++ t)]. fnew (s ++ t) = fnew s ++ fnew t
  function fold (s: seq frag) : seq int
  axiom fold_empty: fold empty = empty
  axiom fold_one: forall x [fold (singleton x)]. fold (singleton x) = fold1 x
  axiom fold_snoc: forall s x [fold (snoc s x)]. fold (snoc s x) = fold s ++ fold1 x
  axiom fold_app: forall s t [fold (s ++ t)]. fold (s ++ t) = fold s ++ fold t
end
module StreamsReal
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use codec.Item
  use Tree
  lemma front: forall s: seq 'a, x: 'a. (snoc s x)[..length (snoc s x) - 1] = s
  function fwd1 (x: chg) : seq item = match x with
    | CChange a _ -> if length a = 0 then empty else singleton (IText a) | CCommon a _ -> singleton (ISlice a) end
  function rev1 (x: chg) : seq item = match x with
    | CChange _ b -> if length b = 0 then empty else singleton (IText b) | CCommon _ b -> singleton (ISlice b) end
  function applied1 (x: item) (v: seq int) : seq int = match x with IText a -> a | ISlice s -> at_slice v s end
  function fnew1 (x: frag) : seq int = match x with FCopy a _ -> a | FChange a _ _ -> a | FConflict _ _ -> empty end
  function fold1 (x: frag) : seq int = match x with FCopy a _ -> a | FChange _ b _ -> b | FConflict _ _ -> empty end

  let rec ghost function dnew (s: seq ditem) : seq int
    variant { length s }
  = if length s = 0 then empty else dnew s[..length s - 1] ++ pure { dnew1 s[length s - 1] }
  lemma dnew_snoc: forall s x. dnew (snoc s x) = dnew s ++ dnew1 x
  let rec lemma dnew_app (s t: seq ditem)
    variant { length t }
    ensures { dnew (s ++ t) = dnew s ++ dnew t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      dnew_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { dnew (s ++ t) = dnew (s ++ t') ++ dnew1 x };
      assert { dnew t = dnew t' ++ dnew1 x }
    end
  lemma dnew_one: forall x [dnew (singleton x)]. dnew (singleton x) = dnew1 x

  let rec ghost function dold (s: seq ditem) : seq int
    variant { length s }
  = if length s = 0 then empty else dold s[..length s - 1] ++ pure { dold1 s[length s - 1] }
  lemma dold_snoc: forall s x. dold (snoc s x) = dold s ++ dold1 x
  let rec lemma dold_app (s t: seq ditem)
    variant { length t }
    ensures { dold (s ++ t) = dold s ++ dold t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      dold_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { dold (s ++ t) = dold (s ++ t') ++ dold1 x };
      assert { dold t = dold t' ++ dold1 x }
    end
  lemma dold_one: forall x [dold (singleton x)]. dold (singleton x) = dold1 x

  let rec ghost function fwd (s: seq chg) : seq item
    variant { length s }
  = if length s = 0 then empty else fwd s[..length s - 1] ++ pure { fwd1 s[length s - 1] }
  lemma fwd_snoc: forall s x. fwd (snoc s x) = fwd s ++ fwd1 x
  let rec lemma fwd_app (s t: seq chg)
    variant { length t }
    ensures { fwd (s ++ t) = fwd s ++ fwd t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      fwd_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { fwd (s ++ t) = fwd (s ++ t') ++ fwd1 x };
      assert { fwd t = fwd t' ++ fwd1 x }
    end
  lemma fwd_one: forall x [fwd (singleton x)]. fwd (singleton x) = fwd1 x

  let rec ghost function rvs (s: seq chg) : seq item
    variant { length s }
  = if length s = 0 then empty else rvs s[..length s - 1] ++ pure { rev1 s[length s - 1] }
  lemma rvs_snoc: forall s x. rvs (snoc s x) = rvs s ++ rev1 x
  let rec lemma rvs_app (s t: seq chg)
    variant { length t }
    ensures { rvs (s ++ t) = rvs s ++ rvs t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      rvs_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { rvs (s ++ t) = rvs (s ++ t') ++ rev1 x };
      assert { rvs t = rvs t' ++ rev1 x }
    end
  lemma rvs_one: forall x [rvs (singleton x)]. rvs (singleton x) = rev1 x

  let rec ghost function applied (s: seq item) (v: seq int) : seq int
    variant { length s }
  = if length s = 0 then empty else applied s[..length s - 1] v ++ pure { applied1 s[length s - 1] v }
  lemma applied_snoc: forall s x v. applied (snoc s x) v = applied s v ++ applied1 x v
  let rec lemma applied_app (s t: seq item) (v: seq int)
    variant { length t }
    ensures { applied (s ++ t) v = applied s v ++ applied t v }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      applied_app s t' v;
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { applied (s ++ t) v = applied (s ++ t') v ++ applied1 x v };
      assert { applied t v = applied t' v ++ applied1 x v }
    end
  lemma applied_one: forall x v [applied (singleton x) v]. applied (singleton x) v = applied1 x v

  let rec ghost function fnew (s: seq frag) : seq int
    variant { length s }
  = if length s = 0 then empty else fnew s[..length s - 1] ++ pure { fnew1 s[length s - 1] }
  lemma fnew_snoc: forall s x. fnew (snoc s x) = fnew s ++ fnew1 x
  let rec lemma fnew_app (s t: seq frag)
    variant { length t }
    ensures { fnew (s ++ t) = fnew s ++ fnew t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      fnew_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { fnew (s ++ t) = fnew (s ++ t') ++ fnew1 x };
      assert { fnew t = fnew t' ++ fnew1 x }
    end
  lemma fnew_one: forall x [fnew (singleton x)]. fnew (singleton x) = fnew1 x

  let rec ghost function fold (s: seq frag) : seq int
    variant { length s }
  = if length s = 0 then empty else fold s[..length s - 1] ++ pure { fold1 s[length s - 1] }
  lemma fold_snoc: forall s x. fold (snoc s x) = fold s ++ fold1 x
  let rec lemma fold_app (s t: seq frag)
    variant { length t }
    ensures { fold (s ++ t) = fold s ++ fold t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      fold_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { fold (s ++ t) = fold (s ++ t') ++ fold1 x };
      assert { fold t = fold t' ++ fold1 x }
    end
  lemma fold_one: forall x [fold (singleton x)]. fold (singleton x) = fold1 x
  clone Streams with function dnew = dnew, function dold = dold, function fwd = fwd, function rvs = rvs, function applied = applied, function fnew = fnew, function fold = fold
end

(* well-formed change trees and what their streams read as *)
module Diff
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyFlat
  use codec.Item
  use auto.Com
  use auto.Lcs
  use Tree
  use Streams

  (* no word common to o[a..b] and m[c..d] is longer than w *)
  predicate most (o m: seq int) (a b c d w: int) =
    forall l e f [com o m l e f]. com o m l e f -> a <= e - l -> e <= b -> c <= f - l -> f <= d -> l <= w
  predicate inrange (o m: seq int) (a b c d: int) = 0 <= a <= b <= length o /\ 0 <= c <= d <= length m
  (* t is a change tree for o[a..b] and m[c..d] *)
  predicate csok (o m: seq int) (a b c d: int) (t: cs) = match t with
    | Leaf x y _ _ -> inrange o m a b c d /\ x = o[a..b] /\ y = m[c..d] /\ most o m a b c d 0
    | Node (Slice i j) (Slice k l) p q -> inrange o m a b c d /\ a <= i < j <= b /\ c <= k < l <= d /\ j - i = l - k /\ o[i..j] = m[k..l] /\
        most o m a b c d (j - i) /\ csok o m a i c k p /\ csok o m j b l d q
    | _ -> false end
  let rec lemma csok_range (o m: seq int) (a b c d: int) (t: cs)
    requires { csok o m a b c d t }
    ensures { inrange o m a b c d }
    variant { t }
  = match t with Leaf _ _ _ _ -> () | Node _ _ _ _ -> () end

  (* the longest common substring of two parts *)
  let ghost part (o m: seq int) (a b c d x y k: int)
    requires { inrange o m a b c d /\ lcs o[a..b] m[c..d] x y k }
    ensures { most o m a b c d k }
    ensures { 0 <= x /\ 0 <= y /\ 0 <= k /\ a + x + k <= b /\ c + y + k <= d /\ o[a + x..a + x + k] = m[c + y..c + y + k] }
  = assert { com o[a..b] m[c..d] k (x + k) (y + k) };
    assert { o[a..b][x..x + k] = m[c..d][y..y + k] };
    let lemma sub (l e f: int)
      requires { com o m l e f /\ a <= e - l /\ e <= b /\ c <= f - l /\ f <= d }
      ensures { l <= k }
    = assert { o[a..b][e - a - l..e - a] = o[e - l..e] };
      assert { m[c..d][f - c - l..f - c] = m[f - l..f] };
      assert { com o[a..b] m[c..d] l (e - a) (f - c) }
    in ()

  predicate reading (o m: seq int) (a b c d: int) (t: cs) =
    dnew (dstream o t) = m[c..d] /\ dold (dstream o t) = o[a..b] /\
    applied (fwd (cstream t)) o = m[c..d] /\ applied (rvs (cstream t)) m = o[a..b] /\
    fnew (fstream o t) = m[c..d] /\ fold (fstream o t) = o[a..b] /\
    flat (tnew o t) = m[c..d] /\ flat (told m t) = o[a..b]
  let ghost read_node (o m: seq int) (a b c d i j k l: int) (p q: cs)
    requires { inrange o m a b c d /\ a <= i < j <= b /\ c <= k < l <= d /\ o[i..j] = m[k..l] }
    requires { reading o m a i c k p /\ reading o m j b l d q }
    ensures { reading o m a b c d (Node (Slice i j) (Slice k l) p q) }
  = let t = Node (Slice i j) (Slice k l) p q in
      assert { at_slice o (Slice i j) = o[i..j] /\ at_slice m (Slice k l) = o[i..j] };
      let x = pure { o[i..j] } in
      let oo = pure { (o[a..i] ++ x) ++ o[j..b] } in
      let mm = pure { (m[c..k] ++ x) ++ m[l..d] } in
      assert { oo = o[a..b] };
      assert { mm = m[c..d] };
      assert { dstream o t = snoc (dstream o p) (DText x) ++ dstream o q };
      assert { dnew (snoc (dstream o p) (DText x)) = m[c..k] ++ x };
      assert { dold (snoc (dstream o p) (DText x)) = o[a..i] ++ x };
      assert { dnew (dstream o t) = mm };
      assert { dold (dstream o t) = oo };
      assert { fstream o t = snoc (fstream o p) (FCopy x (length x)) ++ fstream o q };
      assert { fnew (snoc (fstream o p) (FCopy x (length x))) = m[c..k] ++ x };
      assert { fold (snoc (fstream o p) (FCopy x (length x))) = o[a..i] ++ x };
      assert { fnew (fstream o t) = mm };
      assert { fold (fstream o t) = oo };
      assert { tnew o t = snoc (tnew o p) x ++ tnew o q };
      assert { flat (snoc (tnew o p) x) = m[c..k] ++ x };
      assert { flat (tnew o t) = mm };
      assert { told m t = snoc (told m p) x ++ told m q };
      assert { flat (snoc (told m p) x) = o[a..i] ++ x };
      assert { flat (told m t) = oo };
      assert { cstream t = snoc (cstream p) (CCommon (Slice i j) (Slice k l)) ++ cstream q };
      assert { fwd (cstream t) = (fwd (cstream p) ++ singleton (ISlice (Slice i j))) ++ fwd (cstream q) };
      assert { applied (fwd (cstream t)) o = mm };
      assert { rvs (cstream t) = (rvs (cstream p) ++ singleton (ISlice (Slice k l))) ++ rvs (cstream q) };
      assert { applied (rvs (cstream t)) m = oo }
  let ghost read_leaf (o m: seq int) (a b c d: int) (s1 s2: slice)
    requires { inrange o m a b c d }
    ensures { reading o m a b c d (Leaf o[a..b] m[c..d] s1 s2) }
  = ()
  let rec ghost read_all (o m: seq int) (a b c d: int) (t: cs)
    requires { csok o m a b c d t }
    ensures { reading o m a b c d t }
    variant { t }
  = match t with
    | Leaf _ _ s1 s2 -> read_leaf o m a b c d s1 s2
    | Node (Slice i j) (Slice k l) p q ->
      read_all o m a i c k p; read_all o m j b l d q;
      read_node o m a b c d i j k l p q
    | _ -> absurd
    end
  (* t is a change tree for the whole of o and m *)
  predicate made (o m: seq int) (t: cs) = csok o m 0 (length o) 0 (length m) t
  let lemma made_reads (o m: seq int) (t: cs)
    requires { made o m t }
    ensures { dnew (dstream o t) = m /\ dold (dstream o t) = o /\ applied (fwd (cstream t)) o = m /\ applied (rvs (cstream t)) m = o }
    ensures { fnew (fstream o t) = m /\ fold (fstream o t) = o /\ flat (tnew o t) = m /\ flat (told m t) = o }
  = read_all o m 0 (length o) 0 (length m) t

  (* the end of the part a slice selects *)
  function hi (s: seq int) (p: slice) : int = match p with Slice _ b -> b | SliceOpen _ -> length s end
  predicate part_ok (s: seq int) (p: slice) = 0 <= slice_start p <= hi s p <= length s
end

(* normal form *)
module Normal
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use codec.Item
  use auto.Com
  use Tree
  use Streams
  use Diff

  predicate disj (x y: seq int) = forall i j [x[i], y[j]]. 0 <= i < length x -> 0 <= j < length y -> x[i] <> y[j]
  predicate dtext (x: ditem) = match x with DText _ -> true | DChange _ _ -> false end
  predicate dgood (x: ditem) = match x with DText a -> length a > 0 | DChange a b -> length a + length b > 0 /\ disj a b end
  (* a diff in normal form *)
  predicate dnorm (s: seq ditem) =
    (forall i [s[i]]. 0 <= i < length s -> dgood s[i]) /\
    (forall i [s[i]]. 0 <= i < length s - 1 -> (dtext s[i] <-> not (dtext s[i + 1])))

  (* the slices of a change script lie in o[a..b] and m[c..d] ... *)
  predicate in1 (x: chg) (a b c d: int) = match x with
    | CCommon (Slice i j) (Slice k l) -> a <= i < j <= b /\ c <= k < l <= d
    | CCommon _ _ -> false
    | CChange _ _ -> true end
  predicate placed (s: seq chg) (a b c d: int) = forall i [s[i]]. 0 <= i < length s -> in1 s[i] a b c d
  (* ... and increase strictly *)
  predicate before (x y: chg) = match x, y with
    | CCommon (Slice _ j) (Slice _ l), CCommon (Slice i _) (Slice k _) -> j <= i /\ l <= k
    | _ -> true end
  predicate rising (s: seq chg) = forall i j [s[i], s[j]]. 0 <= i < j < length s -> before s[i] s[j]

  let ghost apart (o m: seq int) (a b c d i j: int)
    requires { inrange o m a b c d /\ most o m a b c d 0 /\ a <= i < b /\ c <= j < d }
    ensures { o[i] <> m[j] }
  = if pure { o[i] = m[j] } then begin
      assert { com o m 0 i j };
      assert { com o m 1 (i + 1) (j + 1) };
      absurd
    end
  let ghost leaf_disj (o m: seq int) (a b c d: int)
    requires { inrange o m a b c d /\ most o m a b c d 0 }
    ensures { disj m[c..d] o[a..b] }
  = let lemma one (i j: int)
      requires { 0 <= i < d - c /\ 0 <= j < b - a }
      ensures { m[c..d][i] <> o[a..b][j] }
    = apart o m a b c d (a + j) (c + i)
    in ()

  predicate first (o m: seq int) (a b c d: int) (s: seq ditem) =
    (length s = 0 -> a = b /\ c = d) /\
    (length s > 0 -> match s[0] with DText w -> let n = length w in a + n <= b /\ c + n <= d /\ w = o[a..a + n] /\ w = m[c..c + n] | DChange _ _ -> true end)
  predicate last (o m: seq int) (a b c d: int) (s: seq ditem) =
    (length s = 0 -> a = b /\ c = d) /\
    (length s > 0 -> match s[length s - 1] with DText w -> let n = length w in a <= b - n /\ c <= d - n /\ w = o[b - n..b] /\ w = m[d - n..d] | DChange _ _ -> true end)

  let ghost join_words (o m: seq int) (i j k l n: int)
    requires { 0 <= i <= j /\ 0 <= k <= l /\ 0 <= n /\ j + n <= length o /\ l + n <= length m /\ j - i = l - k }
    requires { o[i..j] = m[k..l] /\ o[j..j + n] = m[l..l + n] }
    ensures { com o m (j - i + n) (j + n) (l + n) }
  = assert { o[i..j] ++ o[j..j + n] = o[i..j + n] };
    assert { m[k..l] ++ m[l..l + n] = m[k..l + n] }

  let ghost norm_join (s t: seq ditem) (x: ditem)
    requires { dnorm s /\ dnorm t /\ dgood x /\ dtext x }
    requires { length s > 0 -> not (dtext s[length s - 1]) }
    requires { length t > 0 -> not (dtext t[0]) }
    ensures { dnorm (snoc s x ++ t) }
  = let r = pure { snoc s x ++ t } in
    let n = pure { length s } in
    assert { forall i. 0 <= i < n -> r[i] = s[i] };
    assert { r[n] = x };
    assert { forall i. 0 <= i < length t -> r[n + 1 + i] = t[i] };
    assert { forall i [r[i]]. 0 <= i < length r - 1 -> i >= n + 1 -> r[i] = t[i - n - 1] /\ r[i + 1] = t[i + 1 - n - 1] };
    assert { forall i [r[i]]. 0 <= i < length r - 1 -> (dtext r[i] <-> not (dtext r[i + 1])) }

  let ghost norm_node (o m: seq int) (a b c d i j k l: int) (s t: seq ditem)
    requires { inrange o m a b c d /\ a <= i < j <= b /\ c <= k < l <= d /\ j - i = l - k /\ o[i..j] = m[k..l] /\ most o m a b c d (j - i) }
    requires { dnorm s /\ dnorm t /\ first o m a i c k s /\ last o m a i c k s /\ first o m j b l d t /\ last o m j b l d t }
    ensures { let r = snoc s (DText o[i..j]) ++ t in dnorm r /\ first o m a b c d r /\ last o m a b c d r }
  = let n = length s in let q = length t in
    let x = DText (pure { o[i..j] }) in
    let r = pure { snoc s x ++ t } in
    if n > 0 then match pure { s[n - 1] } with
      | DChange _ _ -> ()
      | DText w -> let z = length w in assert { dgood s[n - 1] }; join_words o m (i - z) i (k - z) k (j - i); absurd end;
    if q > 0 then match pure { t[0] } with
      | DChange _ _ -> ()
      | DText w -> let z = length w in assert { dgood t[0] }; join_words o m i j k l z; absurd end;
    norm_join s t x;
    assert { n > 0 -> r[0] = s[0] };
    assert { n = 0 -> r[0] = x };
    assert { q > 0 -> r[length r - 1] = t[q - 1] };
    assert { q = 0 -> r[length r - 1] = x }

  let rec ghost normal (o m: seq int) (a b c d: int) (t: cs)
    requires { csok o m a b c d t }
    ensures { dnorm (dstream o t) }
    ensures { first o m a b c d (dstream o t) }
    ensures { last o m a b c d (dstream o t) }
    variant { t }
  = match t with
    | Leaf _ _ _ _ -> leaf_disj o m a b c d
    | Node (Slice i j) (Slice k l) p q ->
      normal o m a i c k p; normal o m j b l d q;
      assert { dstream o t = snoc (dstream o p) (DText o[i..j]) ++ dstream o q };
      norm_node o m a b c d i j k l (dstream o p) (dstream o q)
    | _ -> absurd
    end

  let ghost rise_join (s t: seq chg) (a b c d i j k l: int)
    requires { a <= i < j <= b /\ c <= k < l <= d }
    requires { placed s a i c k /\ rising s /\ placed t j b l d /\ rising t }
    ensures { let r = snoc s (CCommon (Slice i j) (Slice k l)) ++ t in placed r a b c d /\ rising r }
  = let x = CCommon (Slice i j) (Slice k l) in
    let r = pure { snoc s x ++ t } in
    let n = pure { length s } in
    assert { forall u. 0 <= u < n -> r[u] = s[u] };
    assert { r[n] = x };
    assert { forall u [r[u]]. n + 1 <= u < length r -> r[u] = t[u - n - 1] };
    assert { placed r a b c d };
    assert { forall u v [r[u], r[v]]. 0 <= u < v < length r -> u < n -> v <= n -> before r[u] r[v] };
    assert { forall u v [r[u], r[v]]. 0 <= u < v < length r -> u < n -> v > n -> in1 r[u] a i c k /\ in1 r[v] j b l d /\ before r[u] r[v] };
    assert { forall u v [r[u], r[v]]. 0 <= u < v < length r -> u = n -> in1 r[v] j b l d /\ before r[u] r[v] };
    assert { forall u v [r[u], r[v]]. 0 <= u < v < length r -> u > n -> before r[u] r[v] }

  let rec ghost slices_rise (o m: seq int) (a b c d: int) (t: cs)
    requires { csok o m a b c d t }
    ensures { placed (cstream t) a b c d }
    ensures { rising (cstream t) }
    variant { t }
  = match t with
    | Leaf _ _ _ _ -> ()
    | Node (Slice i j) (Slice k l) p q ->
      slices_rise o m a i c k p; slices_rise o m j b l d q;
      assert { cstream t = snoc (cstream p) (CCommon (Slice i j) (Slice k l)) ++ cstream q };
      rise_join (cstream p) (cstream q) a b c d i j k l
    | _ -> absurd
    end
end
