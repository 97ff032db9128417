(* Line-oriented diffs: every piece is empty or ends with a newline *)
module OutDef
  use int.Int
  use sq.Sq
  use diff.Tree
  use diff.Streams

  (* an item of a line diff: a text, or Change of two tuples of texts and changes *)
  type oitem = OText (seq int) | OChange (seq ditem) (seq ditem)
  (* read with the insertions, or with the deletions *)
  function onew1 (x: oitem) : seq int = match x with OText t -> t | OChange a _ -> dnew a end
  function oold1 (x: oitem) : seq int = match x with OText t -> t | OChange _ b -> dold b end
  predicate al (s: seq int) = length s = 0 \/ s[length s - 1] = 10
  predicate oal1 (x: oitem) = match x with OText t -> al t | OChange a b -> al (dnew a) /\ al (dold b) end
  predicate oal (s: seq oitem) = forall i [s[i]]. 0 <= i < length s -> oal1 s[i]
  function end1 (x: seq int) : seq int = snoc x 10
end
module Out
  use int.Int
  use sq.Sq
  use py.PyFlat
  use diff.Tree
  use diff.Streams
  use export OutDef
  function onew (s: seq oitem) : seq int
  axiom onew_empty: onew empty = empty
  axiom onew_one: forall x [onew (singleton x)]. onew (singleton x) = onew1 x
  axiom onew_snoc: forall s x [onew (snoc s x)]. onew (snoc s x) = onew s ++ onew1 x
  axiom onew_app: forall s t [onew (s ++ t)]. onew (s ++ t) = onew s ++ onew t
  function oold (s: seq oitem) : seq int
  axiom oold_empty: oold empty = empty
  axiom oold_one: forall x [oold (singleton x)]. oold (singleton x) = oold1 x
  axiom oold_snoc: forall s x [oold (snoc s x)]. oold (snoc s x) = oold s ++ oold1 x
  axiom oold_app: forall s t [oold (s ++ t)]. oold (s ++ t) = oold s ++ oold t
  function ended (s: seq (seq int)) : seq (seq int)  (* every line with a newline *)
  axiom ended_len: forall s [ended s]. length (ended s) = length s
  axiom ended_get: forall s i [(ended s)[i]]. 0 <= i < length s -> (ended s)[i] = end1 s[i]
end
module OutReal
  use int.Int
  use sq.Sq
  use py.PyFlat
  use diff.Tree
  use diff.Streams
  use OutDef
  let rec ghost function onew (s: seq oitem) : seq int
    variant { length s }
  = if length s = 0 then empty else onew s[..length s - 1] ++ pure { onew1 s[length s - 1] }
  lemma front: forall s, x: oitem. (snoc s x)[..length (snoc s x) - 1] = s
  lemma onew_snoc: forall s x. onew (snoc s x) = onew s ++ onew1 x
  let rec lemma onew_app (s t: seq oitem)
    variant { length t }
    ensures { onew (s ++ t) = onew s ++ onew t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      onew_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { onew (s ++ t) = onew (s ++ t') ++ onew1 x };
      assert { onew t = onew t' ++ onew1 x }
    end
  let rec ghost function oold (s: seq oitem) : seq int
    variant { length s }
  = if length s = 0 then empty else oold s[..length s - 1] ++ pure { oold1 s[length s - 1] }
  lemma oold_snoc: forall s x. oold (snoc s x) = oold s ++ oold1 x
  let rec lemma oold_app (s t: seq oitem)
    variant { length t }
    ensures { oold (s ++ t) = oold s ++ oold t }
  = if length t = 0 then () else begin
      let t' = t[..length t - 1] in
      let x = pure { t[length t - 1] } in
      oold_app s t';
      assert { t == snoc t' x };
      assert { s ++ t = snoc (s ++ t') x };
      assert { oold (s ++ t) = oold (s ++ t') ++ oold1 x };
      assert { oold t = oold t' ++ oold1 x }
    end
  let rec ghost function ended (s: seq (seq int)) : seq (seq int)
    variant { length s }
    ensures { length result = length s /\ forall i. 0 <= i < length s -> result[i] = end1 s[i] }
  = if length s = 0 then empty else snoc (ended s[..length s - 1]) (pure { end1 s[length s - 1] })
  clone Out with function onew = onew, function oold = oold, function ended = ended
end
module Lines
  use int.Int
  use sq.Sq
  use py.Py
  use py.PyFlat
  use py.PyJoin
  use diff.Tree
  use diff.Streams
  use tokens.Splits
  use Out

  val is_OText (x: oitem) : bool ensures { result <-> match x with OText _ -> true | _ -> false end }
  val is_OChange (x: oitem) : bool ensures { result <-> match x with OChange _ _ -> true | _ -> false end }
  val get_OText (x: oitem) : seq int
    requires { [@expl:item is a text] match x with OText _ -> true | _ -> false end }
    ensures { x = OText result }
  val get_oitem_a (x: oitem) : seq ditem
    requires { [@expl:object has the attribute] match x with OChange _ _ -> true | _ -> false end }
    ensures { match x with OChange a _ -> result = a | _ -> false end }
  val get_oitem_b (x: oitem) : seq ditem
    requires { [@expl:object has the attribute] match x with OChange _ _ -> true | _ -> false end }
    ensures { match x with OChange _ b -> result = b | _ -> false end }
  (* a list of items that are all texts, as a list of texts *)
  val unmap_DText (s: seq ditem) : seq (seq int)
    requires { [@expl:only texts] forall i [s[i]]. 0 <= i < length s -> match s[i] with DText _ -> true | _ -> false end }
    ensures { length result = length s /\ forall i [s[i] | result[i]]. 0 <= i < length s -> s[i] = DText result[i] }
  predicate isspace (s: seq int)
  val str_isspace (s: seq int) : bool ensures { result <-> isspace s }

  predicate ltext (x: ditem) = match x with DText _ -> true | DChange _ _ -> false end
  predicate alternating (s: seq ditem) = forall i [s[i]]. 0 <= i < length s - 1 -> not (ltext s[i] /\ ltext s[i + 1])
  (* the state of the accumulator between two fragments: the current line on both sides *)
  predicate tidy (pi pf: seq ditem) (fin inc: bool) =
    (fin -> al (dnew pi) /\ al (dold pf)) /\
    (if inc then length pi > 0 /\ length pf > 0
     else pi = pf /\ (length pi = 0 /\ fin \/ length pi = 1 /\ not fin /\ match pi[0] with DText t -> length t > 0 | _ -> false end))

  lemma al_app: forall s t [al (s ++ t)]. al s -> al t -> al (s ++ t)
  lemma al_end: forall x [end1 x]. al (end1 x)
  let lemma al_last (s: seq int)
    requires { length s > 0 }
    ensures { s[length s - 1..] = singleton 10 <-> al s }
  = let t = pure { s[length s - 1..length s] } in
    assert { length t = 1 /\ t[0] = s[length s - 1] };
    if s[length s - 1] = 10 then assert { t == singleton 10 }
  let rec lemma ended_al (s: seq (seq int))
    ensures { al (flat (ended s)) }
    variant { length s }
  = if length s = 0 then begin assert { ended s == empty }; assert { al (flat (ended s)) } end
    else begin
      let n = length s - 1 in
      ended_al s[..n];
      assert { ended s == snoc (ended s[..n]) (end1 s[n]) };
      assert { flat (ended s) = flat (ended s[..n]) ++ end1 s[n] }
    end
  let rec lemma ended_join (s: seq (seq int))
    requires { length s > 0 }
    ensures { sepjoin (singleton 10) s ++ singleton 10 = flat (ended s) }
    variant { length s }
  = let n = length s - 1 in
    assert { ended s == snoc (ended s[..n]) (end1 s[n]) };
    assert { flat (ended s) = flat (ended s[..n]) ++ end1 s[n] };
    assert { end1 s[n] == s[n] ++ singleton 10 };
    if n = 0 then begin assert { s == singleton s[0] }; assert { ended s[..n] == empty } end
    else begin
      ended_join s[..n];
      assert { s = snoc s[..n] s[n] };
      assert { sepjoin (singleton 10) s = (sepjoin (singleton 10) s[..n] ++ singleton 10) ++ s[n] }
    end
  let lemma oal_snoc (s: seq oitem) (x: oitem)
    requires { oal s /\ oal1 x }
    ensures { oal (snoc s x) }
  = assert { forall i. 0 <= i <= length s -> oal1 (snoc s x)[i] by (snoc s x)[i] = (if i < length s then s[i] else x) }
  let lemma oal_app (s t: seq oitem)
    requires { oal s /\ oal t }
    ensures { oal (s ++ t) }
  = assert { forall i. 0 <= i < length s + length t -> oal1 (s ++ t)[i] by (s ++ t)[i] = (if i < length s then s[i] else t[i - length s]) }
  (* what a split at the newlines says, and how the lines can be put together again *)
  let lemma split_text (s: seq int) (r: seq (seq int))
    requires { split_of s (singleton 10) r }
    ensures { s = flat (ended r[..length r - 1]) ++ r[length r - 1] }
    ensures { length r > 1 -> s = ((r[0] ++ singleton 10) ++ flat (ended r[1..length r - 1])) ++ r[length r - 1] }
  = let n = length r - 1 in
    let p = pure { ended r[..n] } in
    assert { forall i. 0 <= i < length p -> p[i] = r[i] ++ singleton 10 by p[i] = end1 r[i] so end1 r[i] == r[i] ++ singleton 10 };
    assert { flat p ++ r[n] = s };
    if n > 0 then begin
      let q = pure { ended r[1..n] } in
      let x = pure { r[0] ++ singleton 10 } in
      assert { p == singleton x ++ q by forall i. 0 <= i < n -> p[i] = (singleton x ++ q)[i] by (if i = 0 then p[0] = x else q[i - 1] = p[i]) };
      assert { flat p = flat (singleton x) ++ flat q };
      assert { singleton x == snoc empty x };
      assert { flat (singleton x) == x }
    end
  lemma flat_two: forall r: seq (seq int) [flat r]. length r = 2 -> flat r = r[0] ++ r[1]
    by r == snoc (snoc empty r[0]) r[1] so flat (snoc empty r[0]) == r[0]
  lemma one_item: forall s [dnew s | dold s]. length s = 1 -> dnew s = dnew1 s[0] /\ dold s = dold1 s[0] by s == singleton s[0]
end
