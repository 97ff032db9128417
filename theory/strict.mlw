(* A conflict is reported only where both branches differ from the parent (C06). *)
module Alive
  use int.Int
  use sq.Sq
  use opt.Opt
  use py.Py
  use py.PyRev
  use codec.Item
  use auto.Com
  use diff.Tree
  use diff.Streams
  use diff.Diff
  use diff.Normal
  use merge.FragOps
  use merge.Groups
  use calm.Calm

  (* every stretch of the script with a change in it changes the parent's text *)
  predicate haschg (s: seq frag) = exists i. 0 <= i < length s /\ changes s[i]
  predicate alive (s: seq frag) = forall i j [s[i..j]]. 0 <= i < j <= length s -> haschg s[i..j] -> fnew s[i..j] <> fold s[i..j]

  let ghost app_slice (s t: seq frag) (f: frag) (i j: int)
    requires { let n = length s in 0 <= i < j <= n + 1 + length t }
    ensures { let n = length s in let r = snoc s f ++ t in
      (j <= n -> r[i..j] = s[i..j]) /\ (i > n -> r[i..j] = t[i - n - 1..j - n - 1]) /\
      (i <= n < j -> r[i..j] = snoc s[i..n] f ++ t[0..j - n - 1]) }
  = let n = length s in
    let r = pure { snoc s f ++ t } in
    if j <= n then assert { r[i..j] == s[i..j] }
    else if i > n then assert { r[i..j] == t[i - n - 1..j - n - 1] }
    else assert { r[i..j] == snoc s[i..n] f ++ t[0..j - n - 1] }
  let ghost chg_text (s: seq frag)
    requires { wfs s /\ haschg s }
    ensures { length (fnew s) + length (fold s) > 0 }
  = let lemma one (i: int)
      requires { 0 <= i < length s /\ changes s[i] }
      ensures { length (fnew s) + length (fold s) > 0 }
    = assert { s == snoc s[..i] s[i] ++ s[i + 1..] };
      assert { length (fnew s) = length (fnew s[..i]) + length (fnew1 s[i]) + length (fnew s[i + 1..]) };
      assert { length (fold s) = length (fold s[..i]) + length (fold1 s[i]) + length (fold s[i + 1..]) } in
    ()
  let ghost haschg_app (s t: seq frag) (f: frag)
    requires { haschg (snoc s f ++ t) /\ copies f }
    ensures { haschg s \/ haschg t }
  = let lemma one (i: int)
      requires { 0 <= i < length (snoc s f ++ t) /\ changes (snoc s f ++ t)[i] }
      ensures { haschg s \/ haschg t }
    = if i < length s then assert { changes s[i] }
      else if i = length s then assert { (snoc s f ++ t)[i] = f }
      else assert { changes t[i - length s - 1] } in
    ()
  (* a stretch around a longest common part *)
  let ghost around (o m: seq int) (a b c d i j k l: int) (s t u v: seq frag) (f: frag)
    requires { inrange o m a b c d /\ a <= i < j <= b /\ c <= k < l <= d /\ j - i = l - k /\ o[i..j] = m[k..l] /\ most o m a b c d (j - i) }
    requires { f = FCopy o[i..j] (j - i) }
    requires { fold (s ++ u) = o[a..i] /\ fnew (s ++ u) = m[c..k] /\ fold (v ++ t) = o[j..b] /\ fnew (v ++ t) = m[l..d] }
    requires { fnew (snoc u f ++ v) = fold (snoc u f ++ v) }
    ensures { length (fnew u) + length (fold u) + length (fnew v) + length (fold v) = 0 }
  = let ou = pure { fold u } in let nu = pure { fnew u } in
    let ov = pure { fold v } in let nv = pure { fnew v } in
    let e = length ou in let e' = length nu in
    let g = length ov in let g' = length nv in
    assert { o[a..i] = fold s ++ ou };
    assert { o[i - e..i] == ou };
    assert { m[c..k] = fnew s ++ nu };
    assert { m[k - e'..k] == nu };
    assert { o[j..b] = ov ++ fold t };
    assert { o[j..j + g] == ov };
    assert { m[l..d] = nv ++ fnew t };
    assert { m[l..l + g'] == nv };
    assert { o[i - e..i] ++ o[i..j] = o[i - e..j] };
    assert { o[i - e..j] ++ o[j..j + g] = o[i - e..j + g] };
    assert { o[i - e..j + g] = (ou ++ o[i..j]) ++ ov };
    assert { m[k - e'..k] ++ m[k..l] = m[k - e'..l] };
    assert { m[k - e'..l] ++ m[l..l + g'] = m[k - e'..l + g'] };
    assert { m[k - e'..l + g'] = (nu ++ m[k..l]) ++ nv };
    assert { fold (snoc u f ++ v) = (ou ++ o[i..j]) ++ ov };
    assert { fnew (snoc u f ++ v) = (nu ++ o[i..j]) ++ nv };
    assert { o[i - e..j + g] = m[k - e'..l + g'] };
    let n = e + (j - i) + g in
    assert { n = e' + (l - k) + g' };
    assert { com o m n (j + g) (l + g') };
    assert { n <= j - i }
  let rec ghost tree_alive (o m: seq int) (a b c d: int) (t: cs)
    requires { csok o m a b c d t }
    ensures { alive (fstream o t) }
    variant { t }
  = match t with
    | Leaf x y _ _ ->
        leaf_disj o m a b c d;
        let s = pure { fstream o t } in
        let lemma one (i j: int)
          requires { 0 <= i < j <= length s /\ haschg s[i..j] }
          ensures { fnew s[i..j] <> fold s[i..j] }
        = assert { s[i..j] == s };
          assert { fnew s = y /\ fold s = x };
          assert { length x > 0 /\ length y > 0 -> x[0] <> y[0] } in
        ()
    | Node (Slice i' j') (Slice k' l') p q ->
        tree_alive o m a i' c k' p;
        tree_alive o m j' b l' d q;
        read_all o m a i' c k' p;
        read_all o m j' b l' d q;
        let f = pure { FCopy o[i'..j'] (length o[i'..j']) } in
        let sp = pure { fstream o p } in
        let sr = pure { fstream o q } in
        let n = length sp in
        let s = pure { fstream o t } in
        assert { s = snoc sp f ++ sr };
        tree_wfs o m a i' c k' p;
        tree_wfs o m j' b l' d q;
        let lemma one (i j: int)
          requires { 0 <= i < j <= length s /\ haschg s[i..j] }
          ensures { fnew s[i..j] <> fold s[i..j] }
        = app_slice sp sr f i j;
          if i <= n && n < j then begin
            let u = sp[i..n] in
            let v = sr[0..j - n - 1] in
            assert { sp[..i] ++ u == sp };
            assert { v ++ sr[j - n - 1..] == sr };
            if pure { fnew (snoc u f ++ v) = fold (snoc u f ++ v) } then begin
              around o m a b c d i' j' k' l' (pure { sp[..i] }) (pure { sr[j - n - 1..] }) u v f;
              haschg_app u v f;
              assert { wfs u /\ wfs v };
              if pure { haschg u } then chg_text u else chg_text v;
              absurd
            end
          end in
        ()
    | _ -> absurd end

  let ghost cons_tail (x: frag) (s: seq frag)
    ensures { length (singleton x ++ s) = length s + 1 /\ (singleton x ++ s)[0] = x /\ (singleton x ++ s)[1..] = s }
    ensures { forall i. 0 < i <= length s -> (singleton x ++ s)[i] = s[i - 1] }
  = let r = pure { singleton x ++ s } in
    assert { r[1..] = r[1..length r] };
    let q = pure { r[1..length r] } in
    assert { length q = length s };
    assert { forall i. 0 <= i < length s -> q[i] = s[i] };
    assert { q == s }
  let ghost headed (s: seq frag)
    requires { length s > 0 }
    ensures { s = singleton s[0] ++ s[1..] }
  = let r = pure { s[1..] } in
    assert { r = s[1..length s] };
    assert { forall i. 0 <= i < length r -> r[i] = s[i + 1] };
    assert { s == singleton s[0] ++ r }

  (* t is what is left of the script ts: from its fragment k on, of which a part may be gone *)
  predicate sametype (f g: frag) = (copies f <-> copies g) /\ (changes f <-> changes g)
  predicate strand (ts t: seq frag) (k: int) =
    0 <= k <= length ts /\ (t = ts[k..] \/ (k < length ts /\ length t > 0 /\ t[1..] = ts[k + 1..] /\ sametype t[0] ts[k]))
  predicate kept (f: frag) (t: opt frag) = isn t \/ sametype (the t) f
  predicate whole (f: frag) (t: opt frag) = isn t \/ the t = f \/ copies f /\ copies (the t)
  let ghost strand_step (ts r: seq frag) (f: frag) (t: opt frag) (k: int) : (k': int)
    requires { strand ts (singleton f ++ r) k /\ kept f t }
    ensures { strand ts (lst t ++ r) k' /\ k <= k' <= k + 1 /\ (isn t -> k' = k + 1) }
  = cons_tail f r;
    let q = pure { singleton f ++ r } in
    if pure { q = ts[k..] } then begin
      assert { ts[k..] = ts[k..length ts] };
      assert { k < length ts };
      headed (pure { ts[k..] });
      assert { ts[k..length ts][0] = ts[k] };
      assert { ts[k + 1..] = ts[k + 1..length ts] };
      assert { ts[k..length ts][1..length ts - k] = ts[k + 1..length ts] };
      assert { q[1..] = q[1..length q] };
      assert { r = ts[k + 1..] };
      assert { f = ts[k] };
      assert { sametype f ts[k] }
    end else begin
      assert { k < length ts };
      assert { q[1..] = ts[k + 1..] };
      assert { sametype q[0] ts[k] }
    end;
    assert { r = ts[k + 1..] };
    assert { k < length ts };
    assert { r = ts[k + 1..] /\ k < length ts /\ sametype f ts[k] };
    if isn t then begin
      assert { lst t ++ r == r };
      k + 1
    end else begin
      cons_tail (pure { the t }) r;
      k
    end
  predicate tops (t: seq frag) = length t = 0 \/ copies t[0]
  let ghost alive_strand (ts t: seq frag) (k: int)
    requires { alive ts /\ cc ts /\ strand ts t k /\ (t = ts[k..] \/ tops t) }
    ensures { alive t /\ cc t }
  = if pure { t = ts[k..] } then begin
      assert { forall i. 0 <= i < length t -> t[i] = ts[k + i] };
      let lemma one (i j: int)
        requires { 0 <= i < j <= length t /\ haschg t[i..j] }
        ensures { fnew t[i..j] <> fold t[i..j] }
      = assert { t[i..j] == ts[k + i..k + j] } in
      ()
    end else begin
      assert { length t = length ts - k };
      assert { forall i. 0 <= i < length t - 1 -> t[1..][i] = ts[k + 1..][i] };
      assert { forall i. 1 <= i < length t -> t[i] = t[1..][i - 1] };
      assert { forall i. 1 <= i < length t -> t[i] = ts[k + i] };
      assert { forall i. 0 <= i < length t -> copies t[i] = copies ts[k + i] };
      let lemma one (i j: int)
        requires { 0 <= i < j <= length t /\ haschg t[i..j] }
        ensures { fnew t[i..j] <> fold t[i..j] }
      = if i > 0 then assert { t[i..j] == ts[k + i..k + j] }
        else begin
          let r = pure { ts[k + 1..k + j] } in
          headed (pure { t[0..j] });
          assert { t[0..j][1..] = t[1..j] };
          assert { r = t[1..][0..j - 1] };
          assert { t[1..][0..j - 1] = t[1..j] };
          assert { t[0..j] = singleton t[0] ++ r };
          assert { snoc (empty: seq frag) t[0] ++ r == t[0..j] };
          haschg_app (pure { (empty: seq frag) }) r (pure { t[0] });
          assert { not (haschg (empty: seq frag)) };
          assert { j > 1 };
          assert { fnew r <> fold r };
          assert { fnew t[0..j] = fnew1 t[0] ++ fnew r };
          assert { fold t[0..j] = fnew1 t[0] ++ fold r };
          assert { (fnew1 t[0] ++ fnew r)[length (fnew1 t[0])..] == fnew r };
          assert { (fnew1 t[0] ++ fold r)[length (fnew1 t[0])..] == fold r }
        end in
      let lemma two (i: int)
        requires { 0 <= i < length t - 1 /\ copies t[i] }
        ensures { not (copies t[i + 1]) }
      = assert { copies ts[k + i] } in
      ()
    end
  (* a change is among the fragments that are gone when a copy comes to the top *)
  predicate armed (ts: seq frag) (k: int) = length ts > 0 /\ changes ts[0] \/ length ts > 1 /\ changes ts[1] /\ k >= 1
  predicate live (ts t: seq frag) = exists k. strand ts t k /\ armed ts k
  let ghost fired (ts t: seq frag) (k: int) (c x: seq int)
    requires { alive ts /\ strand ts t k /\ armed ts k /\ tops t /\ fold ts = c ++ fold t /\ fnew ts = x ++ fnew t }
    ensures { c <> x }
  = let u = pure { ts[0..k] } in
    assert { k = 0 -> t = ts[k..] -> t[0] = ts[0] };
    assert { k = 1 -> t = ts[k..] -> length ts > 1 -> t[0] = ts[1] };
    assert { k > 0 };
    assert { k = 1 -> changes ts[0] };
    assert { ts[0..k][0] = ts[0] };
    assert { k > 1 -> ts[0..k][1] = ts[1] };
    assert { haschg u };
    assert { fnew u <> fold u };
    if pure { t = ts[k..] } then begin
      assert { u ++ t == ts };
      assert { (fold u ++ fold t)[..length (fold ts) - length (fold t)] == fold u };
      assert { (c ++ fold t)[..length (fold ts) - length (fold t)] == c };
      assert { (fnew u ++ fnew t)[..length (fnew ts) - length (fnew t)] == fnew u };
      assert { (x ++ fnew t)[..length (fnew ts) - length (fnew t)] == x }
    end else begin
      let r = pure { ts[k + 1..] } in
      assert { u ++ (singleton ts[k] ++ r) == ts };
      headed t;
      let q = pure { fnew1 t[0] } in
      let w = pure { fnew1 ts[k] } in
      assert { q = fold1 t[0] /\ w = fold1 ts[k] };
      assert { fold ts = fold u ++ (w ++ fold r) };
      assert { fold ts = c ++ (q ++ fold r) };
      assert { fnew ts = fnew u ++ (w ++ fnew r) };
      assert { fnew ts = x ++ (q ++ fnew r) };
      assert { (fold u ++ (w ++ fold r))[..length (fold ts) - length (fold r)] == fold u ++ w };
      assert { (c ++ (q ++ fold r))[..length (fold ts) - length (fold r)] == c ++ q };
      assert { (fnew u ++ (w ++ fnew r))[..length (fnew ts) - length (fnew r)] == fnew u ++ w };
      assert { (x ++ (q ++ fnew r))[..length (fnew ts) - length (fnew r)] == x ++ q };
      if pure { c = x } then begin
        assert { fold u ++ w = fnew u ++ w };
        assert { (fold u ++ w)[..length (fold u ++ w) - length w] == fold u };
        assert { (fnew u ++ w)[..length (fnew u ++ w) - length w] == fnew u };
        absurd
      end
    end
end
