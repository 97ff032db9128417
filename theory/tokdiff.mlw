(* Diffs and merges of token sequences, decoded piece by piece *)
module TokHeap
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use tokens.Spell
  (* tokenizer objects: class, kind of texts seen, pieces numbered so far *)
  type tst
  type theap = { mutable ts: tst }
  val th : theap
  function tcls (o: int) : int
  axiom tcls_range: forall o [tcls o]. 0 <= tcls o <= 3
  function tsrc (h: tst) (o: int) : opt kind
  function tkeys (h: tst) (o: int) : seq (seq int)
  predicate same_others (h h': tst) (o: int) =
    forall x [tkeys h' x]. x <> o -> tkeys h' x = tkeys h x /\ tsrc h' x = tsrc h x
end

module Decoded
  use int.Int
  use sq.Sq
  use py.PyFlat
  use tokens.Spell
  use diff.Tree
  use diff.Streams

  (* the transformation the caller gives (f), or none *)
  function given (s: seq int) : seq int
  function tr (f: bool) (s: seq int) : seq int = if f then given s else s
  function ditem1 (f: bool) (t: int) (keys: seq (seq int)) (d: ditem) : ditem = match d with
    | DText x -> DText (tr f (spell t keys x))
    | DChange a b -> DChange (tr f (spell t keys a)) (tr f (spell t keys b)) end
  function ditems (f: bool) (t: int) (keys: seq (seq int)) (s: seq ditem) : seq ditem
  axiom ditems_len: forall f t keys s [ditems f t keys s]. length (ditems f t keys s) = length s
  axiom ditems_get: forall f t keys s i [(ditems f t keys s)[i]]. 0 <= i < length s -> (ditems f t keys s)[i] = ditem1 f t keys s[i]
  predicate dknown1 (t: int) (keys: seq (seq int)) (d: ditem) = allknown t keys (dnew1 d) /\ allknown t keys (dold1 d)
  predicate dknown (t: int) (keys: seq (seq int)) (s: seq ditem) = forall i [s[i]]. 0 <= i < length s -> dknown1 t keys s[i]
end
module DecodedReal
  use int.Int
  use sq.Sq
  use diff.Tree
  use tokens.Spell
  function given (s: seq int) : seq int
  function tr (f: bool) (s: seq int) : seq int = if f then given s else s
  function ditem1 (f: bool) (t: int) (keys: seq (seq int)) (d: ditem) : ditem = match d with
    | DText x -> DText (tr f (spell t keys x))
    | DChange a b -> DChange (tr f (spell t keys a)) (tr f (spell t keys b)) end
  let rec ghost function ditems (f: bool) (t: int) (keys: seq (seq int)) (s: seq ditem) : seq ditem
    variant { length s }
    ensures { length result = length s }
    ensures { forall i. 0 <= i < length s -> result[i] = ditem1 f t keys s[i] }
  = if length s = 0 then empty else snoc (ditems f t keys s[..length s - 1]) (pure { ditem1 f t keys s[length s - 1] })
  clone Decoded with function given = given, function ditems = ditems
end
module DecodedDiff
  use int.Int
  use sq.Sq
  use py.PyFlat
  use tokens.Spell
  use tokens.Tokens
  use diff.Tree
  use diff.Streams
  use Decoded

  let lemma ditems_snoc (f: bool) (t: int) (keys: seq (seq int)) (s: seq ditem) (x: ditem)
    ensures { ditems f t keys (snoc s x) = snoc (ditems f t keys s) (ditem1 f t keys x) }
  = assert { ditems f t keys (snoc s x) == snoc (ditems f t keys s) (ditem1 f t keys x) }
  let lemma ditems_front (f: bool) (t: int) (keys: seq (seq int)) (s: seq ditem) (k: int)
    requires { 0 <= k < length s }
    ensures { ditems f t keys s[..k + 1] = snoc (ditems f t keys s[..k]) (ditem1 f t keys s[k]) }
  = assert { s[..k + 1] = snoc s[..k] s[k] }
  let lemma ditems_none (f: bool) (t: int) (keys: seq (seq int))
    ensures { ditems f t keys empty = empty }
  = assert { ditems f t keys empty == empty }

  (* reading the decoded diff is decoding the diff as it is read *)
  let rec lemma read_decoded (t: int) (keys: seq (seq int)) (s: seq ditem)
    ensures { dnew (ditems false t keys s) = spell t keys (dnew s) }
    ensures { dold (ditems false t keys s) = spell t keys (dold s) }
    variant { length s }
  = if length s = 0 then begin assert { s = empty }; spell_empty t keys; assert { dnew s = empty /\ dold s = empty } end
    else begin
      let q = s[..length s - 1] in
      let x = s[length s - 1] in
      read_decoded t keys q;
      assert { s = snoc q x };
      assert { ditems false t keys s = snoc (ditems false t keys q) (ditem1 false t keys x) };
      spell_app t keys (pure { dnew q }) (pure { dnew1 x });
      spell_app t keys (pure { dold q }) (pure { dold1 x })
    end

  let lemma known_app (t: int) (keys: seq (seq int)) (a b: seq int)
    ensures { allknown t keys (a ++ b) <-> allknown t keys a /\ allknown t keys b }
  = assert { forall i [a[i]]. 0 <= i < length a -> (a ++ b)[i] = a[i] };
    assert { forall i [b[i]]. 0 <= i < length b -> (a ++ b)[length a + i] = b[i] };
    if pure { allknown t keys (a ++ b) } then begin
      assert { forall i. 0 <= i < length a -> known t keys (a ++ b)[i] };
      assert { forall i. 0 <= i < length b -> known t keys (a ++ b)[length a + i] }
    end
  let rec lemma known_items (t: int) (keys: seq (seq int)) (s: seq ditem)
    requires { allknown t keys (dnew s) }
    requires { allknown t keys (dold s) }
    ensures { dknown t keys s }
    variant { length s }
  = if length s > 0 then begin
      let q = s[..length s - 1] in
      let x = s[length s - 1] in
      assert { s = snoc q x };
      known_app t keys (pure { dnew q }) (pure { dnew1 x });
      known_app t keys (pure { dold q }) (pure { dold1 x });
      known_items t keys q;
      assert { forall i. 0 <= i < length q -> s[i] = q[i] }
    end
end
module DecodedMerge
  use int.Int
  use sq.Sq
  use py.PyFlat
  use tokens.Spell
  use tokens.Tokens
  use diff.Tree
  use diff.Streams
  use Decoded
  use DecodedDiff
  use merge.Mark
  use merge.Marks
  use merge.Shows
  use merge.Groups

  predicate mknown1 (t: int) (keys: seq (seq int)) (m: mark) =
    match m with MT x -> known t keys x | MC x y -> allknown t keys x /\ allknown t keys y end
  predicate mknown (t: int) (keys: seq (seq int)) (ms: seq mark) = forall i [ms[i]]. 0 <= i < length ms -> mknown1 t keys ms[i]
  let lemma mknown_app (t: int) (keys: seq (seq int)) (a b: seq mark)
    ensures { mknown t keys (a ++ b) <-> mknown t keys a /\ mknown t keys b }
  = assert { forall i [a[i]]. 0 <= i < length a -> (a ++ b)[i] = a[i] };
    assert { forall i [b[i]]. 0 <= i < length b -> (a ++ b)[length a + i] = b[i] };
    if pure { mknown t keys (a ++ b) } then begin
      assert { forall i. 0 <= i < length a -> mknown1 t keys (a ++ b)[i] };
      assert { forall i. 0 <= i < length b -> mknown1 t keys (a ++ b)[length a + i] }
    end
  let rec lemma mknown_text (t: int) (keys: seq (seq int)) (s: seq int)
    ensures { mknown t keys (tmarks s) <-> allknown t keys s }
    variant { length s }
  = if length s = 0 then assert { s = empty } else begin
      let q = s[..length s - 1] in
      let x = s[length s - 1] in
      assert { s = snoc q x };
      mknown_text t keys q;
      assert { tmarks s = tmarks q ++ mtok x };
      mknown_app t keys (pure { tmarks q }) (pure { mtok x });
      assert { (mtok x)[0] = MT x };
      assert { mknown t keys (mtok x) <-> known t keys x };
      assert { allknown t keys (singleton x) <-> known t keys (singleton x)[0] };
      known_app t keys q (singleton x);
      assert { s = q ++ singleton x }
    end
  let rec lemma mknown_items (t: int) (keys: seq (seq int)) (s: seq ditem)
    requires { mknown t keys (dmarks s) }
    ensures { dknown t keys s }
    variant { length s }
  = if length s > 0 then begin
      let q = s[..length s - 1] in
      let x = s[length s - 1] in
      assert { s = snoc q x };
      mknown_app t keys (pure { dmarks q }) (pure { dmarks1 x });
      mknown_items t keys q;
      (match x with
       | DText y -> mknown_text t keys y
       | DChange a b -> assert { (dmarks1 x)[0] = MC a b }; assert { mknown1 t keys (MC a b) } end);
      assert { forall i. 0 <= i < length q -> s[i] = q[i] }
    end
  let lemma known_piece (t: int) (keys: seq (seq int)) (g: seq (seq int)) (i: int)
    requires { allknown t keys (flat g) }
    requires { 0 <= i < length g }
    ensures { allknown t keys g[i] }
  = assert { g == (g[..i] ++ singleton g[i]) ++ g[i + 1..] };
    assert { flat g = (flat g[..i] ++ g[i]) ++ flat g[i + 1..] }
  let lemma known_shown1 (t: int) (keys: seq (seq int)) (f: frag) (c a b: seq int)
    requires { shows f c a b }
    requires { allknown t keys a /\ allknown t keys b }
    ensures { mknown t keys (fmarks1 f) }
  = match f with
    | FConflict x y -> assert { mknown1 t keys (MC x y) }; assert { forall m. m = MC x y -> mknown t keys (singleton m) }
    | FCopy x _ -> mknown_text t keys x
    | FChange x _ _ -> mknown_text t keys x end
  let rec lemma known_shown (t: int) (keys: seq (seq int)) (fs: seq frag) (gc ga gb: seq (seq int))
    requires { shown fs gc ga gb }
    requires { forall i [ga[i]]. 0 <= i < length ga -> allknown t keys ga[i] }
    requires { forall i [gb[i]]. 0 <= i < length gb -> allknown t keys gb[i] }
    ensures { mknown t keys (fmarks fs) }
    variant { length fs }
  = if length fs = 0 then assert { fs = empty } else begin
      let n = length fs - 1 in
      let q = fs[..n] in
      let f = fs[n] in
      assert { fs = snoc q f };
      known_shown t keys q gc[..n] ga[..n] gb[..n];
      known_shown1 t keys f gc[n] ga[n] gb[n];
      mknown_app t keys (pure { fmarks q }) (pure { fmarks1 f })
    end
  (* every token of a merge is a token of a branch *)
  let lemma known_merge (t: int) (keys: seq (seq int)) (s: seq ditem) (p a b: seq int)
    requires { gives (dmarks s) p a b }
    requires { allknown t keys a /\ allknown t keys b }
    ensures { dknown t keys s }
  = let lemma two (fs: seq frag) (d: seq int) (gc ga gb: seq (seq int))
      requires { cut fs p a b d gc ga gb /\ fmarks fs = dmarks s }
      ensures { dknown t keys s }
    = assert { forall i. 0 <= i < length ga -> allknown t keys ga[i] };
      assert { forall i. 0 <= i < length gb -> allknown t keys gb[i] };
      known_shown t keys fs gc ga gb;
      mknown_items t keys s in
    let lemma one (fs: seq frag)
      requires { good fs p a b /\ fmarks fs = dmarks s }
      ensures { dknown t keys s }
    = () in
    ()
  (* result is the merge of the token sequences, every piece of text decoded and transformed *)
  predicate decoded_as (t: int) (keys: seq (seq int)) (p a b: seq int) (tp ta tb: seq int) (s: seq ditem) =
    pieces t keys tp = chop t p /\ pieces t keys ta = chop t a /\ pieces t keys tb = chop t b /\ gives (dmarks s) tp ta tb
  predicate decoded_merge (t: int) (p a b: seq int) (result: seq ditem) =
    exists keys tp ta tb s. decoded_as t keys p a b tp ta tb s /\ result = ditems true t keys s
end
