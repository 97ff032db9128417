(* The version store: stored deltas and what they say about the contents *)
module Delta
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use codec.Bytes
  use codec.Script
  use tokens.Spell

  (* a script applied to a text, piece by piece *)
  function patch1 (t: int) (x: item) (c: seq (seq int)) : seq (seq int) =
    match x with IText b -> chop t b | ISlice p -> at_slice c p end
  function patch (t: int) (s: seq item) (c: seq (seq int)) : seq (seq int)
  axiom patch_empty: forall t c [patch t empty c]. patch t empty c = empty
  axiom patch_snoc: forall t s x c [patch t (snoc s x) c]. patch t (snoc s x) c = patch t s c ++ patch1 t x c
  predicate text1 (t: int) (x: item) = match x with IText b -> okin t b | ISlice _ -> true end
  predicate texts (t: int) (s: seq item) = forall i [s[i]]. 0 <= i < length s -> text1 t s[i]
  (* the bytes d, read as a script, turn the text o into the text m *)
  predicate delta (t: int) (d o m: seq int) =
    is_bytes d /\ p_ok true d /\ texts t (p_out true d empty) /\ patch t (p_out true d empty) (chop t o) = chop t m
end
module DeltaReal
  use int.Int
  use sq.Sq
  use py.Py
  use codec.Script
  use tokens.Spell
  function patch1 (t: int) (x: item) (c: seq (seq int)) : seq (seq int) =
    match x with IText b -> chop t b | ISlice p -> at_slice c p end
  let rec ghost function patch (t: int) (s: seq item) (c: seq (seq int)) : seq (seq int)
    variant { length s }
  = if length s = 0 then (empty: seq (seq int)) else patch t s[..length s - 1] c ++ pure { patch1 t s[length s - 1] c }
  lemma front: forall s: seq item, x: item. (snoc s x)[..length (snoc s x) - 1] = s
  lemma patch_snoc: forall t s x c. patch t (snoc s x) c = patch t s c ++ patch1 t x c
  clone Delta with function patch = patch
end
module Deltas
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyFlat
  use codec.Bytes
  use codec.BytesLemmas
  use codec.Script
  use tokens.Cut
  use tokens.Utf8
  use tokens.Spell
  use tokens.Tokens
  use diff.Tree
  use diff.Streams
  use diff.Diff
  use diff.Normal
  use Delta

  let ghost pieces_slice (t: int) (keys: seq (seq int)) (v: seq int) (p: slice)
    requires { allknown t keys v }
    ensures { pieces t keys (at_slice v p) = at_slice (pieces t keys v) p }
    ensures { allknown t keys (at_slice v p) }
  = let n = pure { length v } in
    let a = pure { py_clip (slice_start p) n } in
    let b = pure { py_clip (match p with Slice _ b -> b | SliceOpen _ -> n end) n } in
    if a < b then begin
      assert { at_slice v p = v[a..b] };
      assert { at_slice (pieces t keys v) p = (pieces t keys v)[a..b] };
      pieces_sub t keys v a b
    end else begin
      assert { at_slice v p = empty };
      assert { at_slice (pieces t keys v) p = empty };
      assert { pieces t keys empty == empty }
    end

  (* e is the script s with its texts encoded *)
  predicate enc1 (t: int) (keys: seq (seq int)) (x y: item) = match x, y with
    | IText b, IText e -> allknown t keys e /\ pieces t keys e = chop t b
    | ISlice p, ISlice q -> p = q
    | _ -> false end
  predicate encoded (t: int) (keys: seq (seq int)) (s e: seq item) =
    length e = length s /\ forall i [s[i] | e[i]]. 0 <= i < length s -> enc1 t keys s[i] e[i]
  let ghost enc_grows (t: int) (o n: seq (seq int)) (s e: seq item)
    requires { extends n o /\ encoded t o s e }
    ensures { encoded t n s e }
  = let lemma one (i: int)
      requires { 0 <= i < length s }
      ensures { enc1 t n s[i] e[i] }
    = assert { enc1 t o s[i] e[i] };
      (match pure { e[i] } with IText x -> assert { forall b. enc1 t o (IText b) (IText x) -> allknown t o x }; (if pure { allknown t o x } then spell_grows t o n x) | _ -> () end) in
    ()
  let rec ghost applied_pieces (t: int) (keys: seq (seq int)) (s e: seq item) (v: seq int)
    requires { allknown t keys v }
    requires { encoded t keys s e }
    ensures { allknown t keys (applied e v) /\ pieces t keys (applied e v) = patch t s (pieces t keys v) }
    variant { length s }
  = if length s = 0 then begin
      assert { s = empty /\ e = empty };
      assert { applied e v = empty };
      assert { pieces t keys empty == empty }
    end else begin
      let n = length s - 1 in
      let s' = s[..n] in
      let e' = e[..n] in
      let x = pure { s[n] } in
      let y = pure { e[n] } in
      assert { s = snoc s' x /\ e = snoc e' y };
      assert { forall i. 0 <= i < n -> enc1 t keys s'[i] e'[i] by s'[i] = s[i] /\ e'[i] = e[i] };
      applied_pieces t keys s' e' v;
      let a = pure { applied e' v } in
      let b = pure { applied1 y v } in
      assert { applied e v = a ++ b };
      assert { enc1 t keys x y };
      (match y with ISlice p -> assert { x = ISlice p }; pieces_slice t keys v p | IText _ -> () end);
      assert { allknown t keys b /\ pieces t keys b = patch1 t x (pieces t keys v) };
      pieces_app t keys a b;
      assert { forall i. 0 <= i < length a + length b -> known t keys (a ++ b)[i] by (a ++ b)[i] = (if i < length a then a[i] else b[i - length a]) }
    end

  (* every inserted text of a change script is a run of the modified text *)
  predicate run1 (m: seq int) (x: chg) = match x with CChange a _ -> exists i j. 0 <= i <= j <= length m /\ a = m[i..j] | CCommon _ _ -> true end
  predicate runs (m: seq int) (s: seq chg) = forall i [s[i]]. 0 <= i < length s -> run1 m s[i]
  let ghost run_leaf (m: seq int) (x y: seq int) (c d: int)
    requires { 0 <= c <= d <= length m /\ y = m[c..d] }
    ensures { run1 m (CChange y x) }
  = ()
  let rec ghost csok_runs (o m: seq int) (a b c d: int) (t: cs)
    requires { csok o m a b c d t }
    ensures { runs m (cstream t) }
    variant { t }
  = match t with
    | Leaf x y _ _ -> run_leaf m x y c d;
      assert { forall i. 0 <= i < length (cstream t) -> (cstream t)[i] = CChange y x }
    | Node (Slice i j) (Slice k l) p q ->
      csok_runs o m a i c k p; csok_runs o m j b l d q;
      let u = pure { snoc (cstream p) (CCommon (Slice i j) (Slice k l)) } in
      let w = pure { cstream q } in
      assert { cstream t = u ++ w };
      assert { runs m u by forall n. 0 <= n < length u -> run1 m u[n] by (if n < length (cstream p) then u[n] = (cstream p)[n] else u[n] = CCommon (Slice i j) (Slice k l)) };
      assert { forall n. 0 <= n < length (cstream t) -> run1 m (cstream t)[n] by (if n < length u then (cstream t)[n] = u[n] else (cstream t)[n] = w[n - length u]) }
    | _ -> absurd
    end

  (* what holds of the items of a script made for eo and em *)
  predicate good1 (t: int) (keys: seq (seq int)) (m eo: seq int) (x: item) = match x with
    | IText e -> allknown t keys e /\ okin t (spell t keys e) /\ pieces t keys e = chop t (spell t keys e)
        /\ (is_bytes m -> is_bytes (spell t keys e)) /\ length (spell t keys e) <= length m
    | ISlice (Slice a b) -> 0 <= a <= b <= length eo
    | ISlice (SliceOpen _) -> false end
  predicate goods (t: int) (keys: seq (seq int)) (m eo: seq int) (s: seq item) =
    forall i [s[i]]. 0 <= i < length s -> good1 t keys m eo s[i]
  let ghost good_text (t: int) (keys: seq (seq int)) (m eo em: seq int) (i j: int)
    requires { okin t m /\ pieces t keys em = chop t m /\ allknown t keys em }
    requires { 0 <= i <= j <= length em }
    ensures { good1 t keys m eo (IText em[i..j]) }
  = again t keys m em i j;
    let e = em[i..j] in
    assert { forall k. 0 <= k < length e -> known t keys e[k] by e[k] = em[i + k] };
    let p = pure { chop t m } in
    let n = pure { length p } in
    assert { n = length em };
    assert { p == (p[0..i] ++ p[i..j]) ++ p[j..n] };
    assert { m = (flat p[0..i] ++ flat p[i..j]) ++ flat p[j..n] };
    let x = pure { flat p[0..i] } in
    let y = pure { flat p[i..j] } in
    assert { spell t keys e = y };
    assert { forall k. 0 <= k < length y -> y[k] = m[length x + k] };
    assert { length y <= length m }
  let rec ghost good_script (t: int) (keys: seq (seq int)) (m eo em: seq int) (s: seq chg)
    requires { okin t m /\ pieces t keys em = chop t m /\ allknown t keys em }
    requires { runs em s /\ placed s 0 (length eo) 0 (length em) }
    ensures { goods t keys m eo (fwd s) }
    variant { length s }
  = if length s = 0 then begin assert { s = empty }; assert { fwd s = empty } end
    else begin
      let n = length s - 1 in
      let s' = s[..n] in
      let x = pure { s[n] } in
      assert { s = snoc s' x };
      assert { forall i. 0 <= i < n -> s'[i] = s[i] };
      good_script t keys m eo em s';
      assert { run1 em x /\ in1 x 0 (length eo) 0 (length em) };
      let u = pure { fwd s' } in
      let w = pure { fwd1 x } in
      (match x with
       | CChange a _ ->
         let lemma one (i j: int)
           requires { 0 <= i <= j <= length em /\ a = em[i..j] }
           ensures { good1 t keys m eo (IText a) }
         = good_text t keys m eo em i j in
         assert { good1 t keys m eo (IText a) };
         assert { forall i. 0 <= i < length w -> w[i] = IText a }
       | CCommon a _ ->
         assert { good1 t keys m eo (ISlice a) };
         assert { forall i. 0 <= i < length w -> w[i] = ISlice a } end);
      assert { fwd s = u ++ w };
      assert { forall i. 0 <= i < length u + length w -> good1 t keys m eo (u ++ w)[i] by (u ++ w)[i] = (if i < length u then u[i] else w[i - length u]) }
    end

  (* the script with its texts decoded *)
  predicate dec1 (t: int) (keys: seq (seq int)) (x y: item) = match x, y with
    | IText e, IText b -> b = spell t keys e
    | ISlice p, ISlice q -> p = q
    | _ -> false end
  predicate decoded (t: int) (keys: seq (seq int)) (e s: seq item) =
    length e = length s /\ forall i [s[i] | e[i]]. 0 <= i < length s -> dec1 t keys e[i] s[i]

  let ghost encodable_each (q: seq (seq int))
    requires { encodable (flat q) }
    requires { forall i [q[i]]. 0 <= i < length q -> length q[i] > 0 }
    ensures { forall i [utf8enc q[i]]. 0 <= i < length q -> length (utf8enc q[i]) > 0 }
  = let lemma one (i: int)
      requires { 0 <= i < length q }
      ensures { length (utf8enc q[i]) > 0 }
    = encodable_piece q i;
      assert { utf8dec (utf8enc q[i]) = q[i] };
      assert { utf8dec (utf8enc empty) = empty } in
    ()
  let rec ghost few (p: seq (seq int))
    requires { forall i [p[i]]. 0 <= i < length p -> length p[i] > 0 }
    ensures { length p <= length (flat p) }
    variant { length p }
  = if length p > 0 then begin
      let n = length p - 1 in
      assert { p = snoc p[..n] p[n] };
      assert { forall i. 0 <= i < n -> p[..n][i] = p[i] };
      few p[..n]
    end
  let ghost chop_few (t: int) (c: seq int)
    requires { okin t c }
    ensures { length (chop t c) <= length c }
  = if pure { coded t } then begin
      let q = pure { cut t (utf8dec c) } in
      assert { is_cut t (utf8dec c) q };
      encodable_each q;
      assert { forall i. 0 <= i < length q -> length (encs q)[i] > 0 };
      few (encs q)
    end else begin
      assert { is_cut t c (cut t c) };
      few (cut t c)
    end

  let ghost make_delta (t: int) (keys: seq (seq int)) (o m eo em: seq int) (c: cs) (s s': seq item)
    requires { okin t o /\ okin t m /\ is_bytes m /\ length o < 18446744073709551616 /\ length m < 18446744073709551616 }
    requires { pieces t keys eo = chop t o /\ allknown t keys eo /\ pieces t keys em = chop t m /\ allknown t keys em }
    requires { made eo em c /\ s = fwd (cstream c) /\ goods t keys m eo s }
    requires { decoded t keys s s' }
    ensures { ok_script s' /\ texts t s' /\ patch t s' (chop t o) = chop t m }
  = made_reads eo em c;
    chop_few t o;
    assert { length eo = length (chop t o) };
    assert { forall i. 0 <= i < length s' -> enc1 t keys s'[i] s[i] by good1 t keys m eo s[i] /\ dec1 t keys s[i] s'[i] };
    assert { forall i. 0 <= i < length s' -> ok_item s'[i] by good1 t keys m eo s[i] /\ dec1 t keys s[i] s'[i] };
    assert { forall i. 0 <= i < length s' -> text1 t s'[i] by good1 t keys m eo s[i] /\ dec1 t keys s[i] s'[i] };
    applied_pieces t keys s' s eo

  (* the same, for the script of a change tree that has no name *)
  predicate scripted (eo em: seq int) (s: seq item) =
    exists c [cstream c]. csok eo em 0 (length eo) 0 (length em) c /\ placed (cstream c) 0 (length eo) 0 (length em) /\ s = fwd (cstream c)
  let ghost script_good (t: int) (keys: seq (seq int)) (m eo em: seq int) (s: seq item)
    requires { okin t m /\ pieces t keys em = chop t m /\ allknown t keys em }
    requires { scripted eo em s }
    ensures { goods t keys m eo s }
  = let lemma one (c: cs)
      requires { csok eo em 0 (length eo) 0 (length em) c /\ placed (cstream c) 0 (length eo) 0 (length em) /\ s = fwd (cstream c) }
      ensures { goods t keys m eo s }
    = csok_runs eo em 0 (length eo) 0 (length em) c;
      good_script t keys m eo em (pure { cstream c }) in
    ()
  let ghost script_delta (t: int) (k keys: seq (seq int)) (o m eo em: seq int) (s s': seq item)
    requires { okin t o /\ okin t m /\ is_bytes m /\ length o < 18446744073709551616 /\ length m < 18446744073709551616 }
    requires { pieces t k eo = chop t o /\ allknown t k eo /\ extends keys k /\ pieces t keys em = chop t m /\ allknown t keys em }
    requires { scripted eo em s /\ goods t keys m eo s }
    requires { decoded t keys s s' }
    ensures { ok_script s' /\ texts t s' /\ patch t s' (chop t o) = chop t m }
  = spell_grows t k keys eo;
    let lemma one (c: cs)
      requires { csok eo em 0 (length eo) 0 (length em) c /\ s = fwd (cstream c) }
      ensures { ok_script s' /\ texts t s' /\ patch t s' (chop t o) = chop t m }
    = make_delta t keys o m eo em c s s' in
    ()

  (* empty items say nothing *)
  let ghost chop_empty (t: int)
    requires { okin t empty }
    ensures { chop t empty = empty }
  = chop_few t empty
  let rec ghost norm_same (t: int) (s: seq item) (c: seq (seq int))
    requires { texts t s }
    ensures { texts t (norm s) /\ patch t (norm s) c = patch t s c }
    variant { length s }
  = if length s = 0 then assert { s = empty /\ norm s = empty }
    else begin
      let n = length s - 1 in
      let x = pure { s[n] } in
      assert { s = snoc s[..n] x };
      assert { forall i. 0 <= i < n -> s[..n][i] = s[i] };
      norm_same t s[..n] c;
      assert { text1 t x };
      assert { norm s = if empty_item x then norm s[..n] else snoc (norm s[..n]) x };
      if pure { empty_item x } then begin
        (match x with IText b -> assert { b = empty }; chop_empty t | ISlice _ -> () end);
        assert { patch1 t x c = empty }
      end else begin
        assert { patch t (norm s) c = patch t (norm s[..n]) c ++ patch1 t x c };
        assert { forall i. 0 <= i <= length (norm s[..n]) -> text1 t (norm s)[i] by (norm s)[i] = (if i < length (norm s[..n]) then (norm s[..n])[i] else x) }
      end
    end
  let ghost delta_of (t: int) (d o m: seq int) (s: seq item)
    requires { is_bytes d /\ p_ok true d /\ p_out true d empty = norm s }
    requires { texts t s /\ patch t s (chop t o) = chop t m }
    ensures { delta t d o m }
  = norm_same t s (pure { chop t o })
end

(* The whole store: heads verbatim, every other version as a delta from its parent *)
module Store
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use dict.Dict
  use codec.Bytes
  use tokens.Spell
  use tokdiff.TokHeap
  use vtree.View
  use vtree.Chains
  use Delta

  type trees = { mutable tw: view }
  val tr : trees
  constant vt : int  (* the class of the tokenizers of the store *)
  axiom vt_range: 0 <= vt <= 3

  predicate goodv (b: seq int) = is_bytes b /\ okin vt b /\ length b < 18446744073709551616
  function txt (s: dict int (seq int)) (t: int) : seq int = the (dfind s t)
  predicate stored (hd df: dict int (seq int)) (v: view) (s: dict int (seq int)) =
    (forall t [has v t]. has v t <-> not (isn (dfind s t))) /\
    (forall t [dfind s t]. not (isn (dfind s t)) -> goodv (txt s t)) /\
    (forall t [dfind hd t]. not (isn (dfind hd t)) -> has v t /\ par v t = none) /\
    (forall t [dfind hd t]. has v t -> par v t = none -> dfind hd t = dfind s t) /\
    (forall t [dfind df t]. has v t -> not (isn (par v t)) -> not (isn (dfind df t)) /\ delta vt (txt df t) (txt s (the (par v t))) (txt s t))
  (* a path along which every step has its delta *)
  predicate steps (hd df s: dict int (seq int)) (p: seq int) =
    length p > 0 /\ dfind hd p[0] = dfind s p[0] /\
    (forall i [p[i]]. 0 <= i < length p -> not (isn (dfind s p[i])) /\ goodv (txt s p[i])) /\
    (forall i [p[i]]. 0 < i < length p -> not (isn (dfind df p[i])) /\ delta vt (txt df p[i]) (txt s p[i - 1]) (txt s p[i]))
  lemma path_steps: forall hd df v s p. stored hd df v s -> length p > 0 -> par v p[0] = none ->
    (forall i [p[i]]. 0 <= i < length p -> has v p[i]) ->
    (forall i [p[i]]. 0 < i < length p -> par v p[i] = some p[i - 1]) -> steps hd df s p
  (* a root is below nothing *)
  let ghost root_free (v: view) (c t: int)
    requires { has v c /\ par v c = none /\ c <> t }
    ensures { free v t (some c) }
  = if pure { anc v c t } then anc_step v c t
  (* a version becomes a delta from another one *)
  let ghost edge (hd df hd' df': dict int (seq int)) (v w: view) (s: dict int (seq int)) (c p: int)
    requires { stored hd df v s /\ moved v w c (some p) /\ has v c /\ has v p }
    requires { forall t [dfind hd' t]. dfind hd' t = if t = c then none else dfind hd t }
    requires { forall t [dfind df' t]. t <> c -> dfind df' t = dfind df t }
    requires { not (isn (dfind df' c)) /\ delta vt (txt df' c) (txt s p) (txt s c) }
    ensures { stored hd' df' w s }
  = assert { forall t. not (isn (dfind hd' t)) -> has w t /\ par w t = none };
    assert { forall t. has w t -> par w t = none -> dfind hd' t = dfind s t };
    assert { forall t. has w t -> not (isn (par w t)) -> not (isn (dfind df' t)) /\ delta vt (txt df' t) (txt s (the (par w t))) (txt s t) }
  (* moving a version to where it is *)
  let ghost same_place (hd df: dict int (seq int)) (v w: view) (s: dict int (seq int)) (c p: int)
    requires { stored hd df v s /\ moved v w c (some p) /\ par v c = some p }
    ensures { stored hd df w s }
  = assert { forall t. has w t <-> has v t };
    assert { forall t. has w t -> par w t = par v t }
  (* an empty store *)
  goal nothing: forall v: view. (forall t. not (has v t)) -> stored dempty dempty v dempty
end

(* Manifests: dictionaries from names to item tags, stored as documents *)
module Grow
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  (* the contents c of the item tags of the manifest m under the names ks, in that order, added to s where new *)
  function grow (s c: dict int (seq int)) (m: dict int int) (ks: seq int) : dict int (seq int)
  axiom grow_empty: forall s c m [grow s c m empty]. grow s c m empty = s
  axiom grow_snoc: forall s c m ks k [grow s c m (snoc ks k)].
    grow s c m (snoc ks k) = let t = the (dfind m k) in let g = grow s c m ks in if isn (dfind g t) then dset g t (the (dfind c t)) else g
end
module GrowReal
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  let rec ghost function grow (s c: dict int (seq int)) (m: dict int int) (ks: seq int) : dict int (seq int)
    variant { length ks }
  = if length ks = 0 then s else
    let k = ks[length ks - 1] in
    let t = pure { the (dfind m k) } in
    let g = grow s c m ks[..length ks - 1] in
    pure { if isn (dfind g t) then dset g t (the (dfind c t)) else g }
  lemma front: forall s: seq int, x: int. (snoc s x)[..length (snoc s x) - 1] = s
  clone Grow with function grow = grow
end
module Manifest
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use dict.Dict
  use codec.Bytes
  use tokens.Utf8
  use tokens.Spell
  use Store
  use Grow

  (* json.dumps of a dictionary from strings to strings, and json.loads of it *)
  function jdump (m: dict int int) : seq int
  function jload (s: seq int) : dict int int
  axiom load_dump: forall m [jdump m]. jload (jdump m) = m
  axiom dump_text: forall m [jdump m]. encodable (jdump m) /\ is_bytes (utf8enc (jdump m))
  val json_dumps (m: dict int int) : seq int ensures { result = jdump m }
  val json_loads (s: seq int) : dict int int
    requires { [@expl:a JSON document] exists m [jdump m]. s = jdump m }
    ensures { result = jload s }

  type mform = BDoc (seq int) | BMan (dict int int)
  val is_BDoc (x: mform) : bool ensures { result <-> match x with BDoc _ -> true | _ -> false end }
  val is_BMan (x: mform) : bool ensures { result <-> match x with BMan _ -> true | _ -> false end }
  val get_BDoc (x: mform) : seq int
    requires { [@expl:value is a document] match x with BDoc _ -> true | _ -> false end }
    ensures { match x with BDoc s -> result = s | _ -> false end }
  val get_BMan (x: mform) : dict int int
    requires { [@expl:value is a manifest] match x with BMan _ -> true | _ -> false end }
    ensures { match x with BMan s -> result = s | _ -> false end }

  function mdoc (m: dict int int) : seq int = utf8enc (jdump m)
  predicate names (m: dict int int) (t: int) = exists k [dfind m k]. dfind m k = some t
  (* the store s holds the manifests ms and the items is *)
  predicate archive (s: dict int (seq int)) (ms: dict int (dict int int)) (is: dict int (seq int)) =
    (forall t [dfind ms t]. not (isn (dfind ms t)) -> dfind s t = some (mdoc (the (dfind ms t)))) /\
    (forall t [dfind is t]. not (isn (dfind is t)) -> dfind s t = dfind is t /\ isn (dfind ms t)) /\
    (forall t k [dfind (the (dfind ms t)) k]. not (isn (dfind ms t)) -> not (isn (dfind (the (dfind ms t)) k)) ->
      not (isn (dfind is (the (dfind (the (dfind ms t)) k)))))
  (* the items of the manifest m with the contents c can be added to the items is, under the tag mt *)
  predicate addable (s: dict int (seq int)) (ms: dict int (dict int int)) (is c: dict int (seq int)) (m: dict int int) (mt: int) =
    isn (dfind s mt) /\ goodv (mdoc m) /\
    forall k [dfind m k]. not (isn (dfind m k)) -> let t = the (dfind m k) in
      t <> mt /\ isn (dfind ms t) /\ not (isn (dfind c t)) /\ goodv (the (dfind c t)) /\
      (isn (dfind is t) -> isn (dfind s t)) /\ (not (isn (dfind is t)) -> dfind c t = dfind is t)

  let rec ghost grown (s c: dict int (seq int)) (m: dict int int) (ks: seq int)
    requires { forall i [ks[i]]. 0 <= i < length ks -> not (isn (dfind m ks[i])) }
    requires { forall k [dfind m k]. not (isn (dfind m k)) -> not (isn (dfind c (the (dfind m k)))) }
    ensures { forall t [dfind (grow s c m ks) t]. not (isn (dfind s t)) -> dfind (grow s c m ks) t = dfind s t }
    ensures { forall t [dfind (grow s c m ks) t]. isn (dfind s t) -> isn (dfind (grow s c m ks) t) \/ (dfind (grow s c m ks) t = dfind c t /\ names m t) }
    ensures { forall i [ks[i]]. 0 <= i < length ks -> not (isn (dfind (grow s c m ks) (the (dfind m ks[i])))) }
    variant { length ks }
  = if length ks = 0 then assert { ks = empty }
    else begin
      let n = length ks - 1 in
      let ks' = ks[..n] in
      let k = pure { ks[n] } in
      assert { ks = snoc ks' k };
      assert { forall i. 0 <= i < n -> ks'[i] = ks[i] };
      grown s c m ks';
      let t = pure { the (dfind m k) } in
      assert { dfind m k = some t };
      assert { names m t }
    end
  let ghost kept (s s': dict int (seq int)) (ms: dict int (dict int int)) (is c: dict int (seq int)) (m: dict int int) (mt: int) (g: dict int (seq int))
    requires { archive s ms is /\ addable s ms is c m mt }
    requires { g = grow s c m (dkeys m) /\ s' = dset g mt (mdoc m) }
    ensures { archive s' (dset ms mt m) (grow is c m (dkeys m)) }
  = grown s c m (dkeys m);
    grown is c m (dkeys m);
    let i' = pure { grow is c m (dkeys m) } in
    let ms' = pure { dset ms mt m } in
    assert { isn (dfind ms mt) /\ isn (dfind is mt) };
    assert { forall t. names m t -> not (isn (dfind g t)) /\ not (isn (dfind i' t)) /\ t <> mt
      by exists k. dfind m k = some t so (dkeys m)[dpos m k] = k };
    assert { forall t. not (isn (dfind ms' t)) -> dfind s' t = some (mdoc (the (dfind ms' t))) };
    assert { forall t. not (isn (dfind i' t)) -> dfind s' t = dfind i' t /\ isn (dfind ms' t)
      by (if isn (dfind is t) then dfind i' t = dfind c t /\ names m t else dfind i' t = dfind is t) };
    assert { forall t k. not (isn (dfind ms' t)) -> not (isn (dfind (the (dfind ms' t)) k)) -> not (isn (dfind i' (the (dfind (the (dfind ms' t)) k))))
      by (if t = mt then names m (the (dfind m k)) else not (isn (dfind is (the (dfind (the (dfind ms t)) k))))) }
  goal empty_archive: archive dempty dempty dempty
end
