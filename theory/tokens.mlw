(* Tokenizers: texts cut into pieces, pieces spelled by tokens *)

(* A text is cut between two adjacent elements c, d where brk t c d holds
   (t: 0 null, 1 characters, 2 lines, 3 symbols) *)
module CutDef
  use int.Int
  use sq.Sq
  use py.PyFlat

  predicate word (c: int)  (* the characters of the repeated class of the symbol pattern *)
  predicate brk (t c d: int) =
    if t = 2 then c = 10 else if t = 3 then not (word c /\ word d) else true

  predicate is_cut (t: int) (s: seq int) (p: seq (seq int)) =
    flat p = s
    /\ (forall i [p[i]]. 0 <= i < length p -> length p[i] > 0)
    /\ (forall i k [p[i][k]]. 0 <= i < length p -> 0 <= k < length p[i] - 1 -> not (brk t p[i][k] p[i][k + 1]))
    /\ (forall i [p[i]]. 0 <= i < length p - 1 -> brk t p[i][length p[i] - 1] p[i + 1][0])
end

module Cut
  use int.Int
  use sq.Sq
  use py.PyFlat
  use export CutDef

  function cut (t: int) (s: seq int) : seq (seq int)
  axiom cut_is: forall t s [cut t s]. is_cut t s (cut t s)
  axiom cut_uniq: forall t s p [is_cut t s p]. is_cut t s p -> p = cut t s
  axiom cut_sub: forall t s i j [cut t (flat (cut t s)[i..j])]. 0 <= i <= j <= length (cut t s) ->
    cut t (flat (cut t s)[i..j]) = (cut t s)[i..j]
  axiom cut_singles: forall s i [(cut 0 s)[i]]. 0 <= i < length s -> (cut 0 s)[i] = singleton s[i]
  axiom cut_singles1: forall s i [(cut 1 s)[i]]. 0 <= i < length s -> (cut 1 s)[i] = singleton s[i]
  axiom cut_len: forall s [cut 0 s]. length (cut 0 s) = length s
  axiom cut_len1: forall s [cut 1 s]. length (cut 1 s) = length s
end

(* pieces numbered in the order in which they were first seen *)
module Number
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  predicate numbered (d: dict (seq int) int) = forall i [(dkeys d)[i]]. 0 <= i < length (dkeys d) -> dfind d (dkeys d)[i] = some i
end

(* str.split and the symbol pattern, in terms of Cut (trusted) *)
module Splits
  use int.Int
  use sq.Sq
  use py.PyFlat
  use Cut
  predicate category (k c: int)  (* digit, white space, word character *)
  (* the matches of a pattern that matches at every character, as described at
     regex_covers in vfw/translate.py; word is its repeated class *)
  val regex_split (s: seq int) : seq (seq int)
    ensures { result = cut 3 s }
  (* s.split(sep) for a one-character separator *)
  predicate split_of (s sep: seq int) (r: seq (seq int)) =
    length r >= 1 /\
    (forall i k [r[i][k]]. 0 <= i < length r -> 0 <= k < length r[i] -> r[i][k] <> sep[0]) /\
    (forall p: seq (seq int) [flat p].
      (length p = length r - 1 -> (forall i. 0 <= i < length p -> p[i] = r[i] ++ sep) -> flat p ++ r[length r - 1] = s))
  val str_split (s sep: seq int) : seq (seq int)
    requires { [@expl:one-character separator] length sep = 1 }
    ensures { split_of s sep result }
end

module CutReal
  use int.Int
  use sq.Sq
  use py.PyFlat
  use CutDef
  let rec ghost function cut (t: int) (s: seq int) : seq (seq int)
    ensures { is_cut t s result }
    variant { length s }
  = if length s = 0 then empty else begin
      let n = length s in
      let s' = s[..n - 1] in
      let c = s[n - 1] in
      let p = cut t s' in
      assert { s = snoc s' c };
      if pure { length p = 0 } then begin
        let r = singleton (singleton c) in
        assert { flat r = singleton c };
        assert { s' = empty };
        assert { s == singleton c };
        r
      end else begin
        let l = length p in
        let q = p[l - 1] in
        assert { p = snoc p[..l - 1] q };
        assert { flat p = flat p[..l - 1] ++ q };
        if pure { brk t q[length q - 1] c } then begin
          let r = snoc p (singleton c) in
          assert { flat r = flat p ++ singleton c };
          assert { forall i. 0 <= i < l -> r[i] = p[i] };
          r
        end else begin
          let r = snoc p[..l - 1] (snoc q c) in
          assert { flat r = flat p[..l - 1] ++ snoc q c };
          assert { flat p[..l - 1] ++ snoc q c = snoc (flat p[..l - 1] ++ q) c };
          assert { forall i. 0 <= i < l - 1 -> r[i] = p[i] };
          assert { r[l - 1] = snoc q c };
          assert { length (snoc q c) = length q + 1 };
          assert { (snoc q c)[length q] = c };
          assert { forall k. 0 <= k < length q -> (snoc q c)[k] = q[k] };
          r
        end
      end
    end

  let lemma last_cut (t: int) (s: seq int) (p: seq (seq int))
    requires { is_cut t s p }
    requires { length p > 0 }
    ensures { let q = p[length p - 1] in let p' = p[..length p - 1] in
              s = flat p' ++ q /\ length s > 0 /\ s[length s - 1] = q[length q - 1] }
    ensures { let q = p[length p - 1] in let p' = p[..length p - 1] in is_cut t (flat p') p' }
  = let q = pure { p[length p - 1] } in
    let p' = p[..length p - 1] in
    assert { p = snoc p' q };
    assert { forall i. 0 <= i < length p' -> p'[i] = p[i] };
    ()

  let lemma flat_last (p: seq (seq int))
    requires { length p > 0 }
    requires { length p[length p - 1] > 0 }
    ensures { length (flat p) > 0 }
    ensures { (flat p)[length (flat p) - 1] = p[length p - 1][length p[length p - 1] - 1] }
  = assert { p = snoc p[..length p - 1] p[length p - 1] }

  let rec lemma uniq (t: int) (s: seq int) (p q: seq (seq int))
    requires { is_cut t s p }
    requires { is_cut t s q }
    ensures { p = q }
    variant { length s }
  = if length p = 0 then begin
      assert { s = empty };
      if length q > 0 then last_cut t s q
    end else if length q = 0 then begin assert { s = empty }; last_cut t s p end
    else begin
      last_cut t s p; last_cut t s q;
      let x = pure { p[length p - 1] } in
      let y = pure { q[length q - 1] } in
      let p' = p[..length p - 1] in
      let q' = q[..length q - 1] in
      let n = length s in
      if length x < length y then begin
        assert { length (flat p') > 0 };
        assert { length p' > 0 };
        flat_last p';
        let k = length y - length x - 1 in
        assert { y[k] = s[n - length x - 1] };
        assert { y[k + 1] = s[n - length x] };
        assert { s[n - length x] = x[0] };
        assert { s[n - length x - 1] = (flat p')[length (flat p') - 1] };
        assert { brk t y[k] y[k + 1] };
        assert { not (brk t q[length q - 1][k] q[length q - 1][k + 1]) };
        absurd
      end else if length y < length x then begin
        assert { length (flat q') > 0 };
        assert { length q' > 0 };
        flat_last q';
        let k = length x - length y - 1 in
        assert { x[k] = s[n - length y - 1] };
        assert { x[k + 1] = s[n - length y] };
        assert { s[n - length y] = y[0] };
        assert { s[n - length y - 1] = (flat q')[length (flat q') - 1] };
        assert { brk t x[k] x[k + 1] };
        assert { not (brk t p[length p - 1][k] p[length p - 1][k + 1]) };
        absurd
      end else begin
        let m = n - length x in
        assert { forall k. 0 <= k < length x -> x[k] = s[m + k] };
        assert { forall k. 0 <= k < length x -> y[k] = s[m + k] };
        assert { x == y };
        assert { flat p' == s[..m] };
        assert { flat q' == s[..m] };
        uniq t (flat p') p' q';
        assert { p = snoc p' x };
        assert { q = snoc q' y }
      end
    end

  let lemma uniq2 (t: int) (s: seq int) (p: seq (seq int))
    requires { is_cut t s p }
    ensures { p = cut t s }
  = uniq t s p (cut t s)

  let lemma sub (t: int) (s: seq int) (i j: int)
    requires { 0 <= i <= j <= length (cut t s) }
    ensures { cut t (flat (cut t s)[i..j]) = (cut t s)[i..j] }
  = let p = cut t s in
    let r = p[i..j] in
    assert { forall k. 0 <= k < length r -> r[k] = p[i + k] };
    assert { is_cut t (flat r) r };
    uniq t (flat r) r (cut t (flat r))

  let ghost function singles (s: seq int) : seq (seq int)
    ensures { length result = length s }
    ensures { forall i. 0 <= i < length s -> result[i] = singleton s[i] }
    ensures { flat result = s }
  = let rec aux (s: seq int) : seq (seq int)
      ensures { length result = length s }
      ensures { forall i. 0 <= i < length s -> result[i] = singleton s[i] }
      ensures { flat result = s }
      variant { length s }
    = if length s = 0 then begin assert { s = empty }; (empty: seq (seq int)) end
      else begin
        let f = aux s[..length s - 1] in
        let r = snoc f (singleton s[length s - 1]) in
        assert { s = snoc s[..length s - 1] s[length s - 1] };
        assert { flat r = flat f ++ singleton s[length s - 1] };
        r
      end in aux s

  let lemma cut_each (t: int) (s: seq int)
    requires { t = 0 \/ t = 1 }
    ensures { cut t s = singles s }
  = assert { is_cut t s (singles s) };
    uniq t s (singles s) (cut t s)

  clone Cut with function cut = cut
end

(* UTF-8 as a homomorphism from texts to bytes (trusted) *)
module Utf8
  use int.Int
  use sq.Sq
  use py.PyFlat
  function utf8enc (s: seq int) : seq int
  function utf8dec (s: seq int) : seq int
  predicate valid_utf8 (s: seq int)
  predicate encodable (s: seq int)
  axiom dec_enc: forall s [utf8enc s]. encodable s -> valid_utf8 (utf8enc s) /\ utf8dec (utf8enc s) = s
  axiom enc_dec: forall s [utf8dec s]. valid_utf8 s -> encodable (utf8dec s) /\ utf8enc (utf8dec s) = s
  axiom enc_empty: utf8enc empty = empty
  axiom enc_app: forall s t [utf8enc (s ++ t)]. utf8enc (s ++ t) = utf8enc s ++ utf8enc t
  axiom encodable_app: forall s t [encodable (s ++ t)]. encodable (s ++ t) <-> encodable s /\ encodable t
  axiom encodable_empty: encodable empty

  val utf8_decode (s: seq int) : seq int
    requires { [@expl:bytes are UTF-8] valid_utf8 s }
    ensures { result = utf8dec s /\ encodable result }
  val utf8_encode (s: seq int) : seq int
    requires { [@expl:text can be encoded] encodable s }
    ensures { result = utf8enc s /\ valid_utf8 result }

end

(* What a tokenizer of class t does.  k: the kind of the texts; keys: the
   pieces numbered so far (classes 2 and 3). *)
module Spell
  use int.Int
  use sq.Sq
  use py.Py
  use py.PyFlat
  use Cut
  use Utf8

  predicate coded (t: int) = (t = 1 \/ t = 3) /\ kk = KBytes

  function encs (p: seq (seq int)) : seq (seq int)
  axiom encs_len: forall p [encs p]. length (encs p) = length p
  axiom encs_get: forall p i [(encs p)[i]]. 0 <= i < length p -> (encs p)[i] = utf8enc p[i]

  (* the pieces of a text *)
  predicate okin (t: int) (c: seq int) = kk <> KTuple /\ (coded t -> valid_utf8 c)
  function chop (t: int) (c: seq int) : seq (seq int) = if coded t then encs (cut t (utf8dec c)) else cut t c

  (* the piece a token stands for *)
  predicate known (t: int) (keys: seq (seq int)) (x: int) =
    if t = 0 then true else if t = 1 then (coded t -> encodable (singleton x)) else 0 <= x < length keys
  function piece (t: int) (keys: seq (seq int)) (x: int) : seq int =
    if t = 0 then singleton x
    else if t = 1 then (if coded t then utf8enc (singleton x) else singleton x)
    else keys[x]
  predicate distinct (keys: seq (seq int)) = forall i j [keys[i], keys[j]]. 0 <= i < j < length keys -> keys[i] <> keys[j]
  predicate extends (n o: seq (seq int)) = length o <= length n /\ (forall i [n[i]]. 0 <= i < length o -> n[i] = o[i])

  predicate allknown (t: int) (keys: seq (seq int)) (s: seq int) = forall i [s[i]]. 0 <= i < length s -> known t keys s[i]
  function pieces (t: int) (keys: seq (seq int)) (s: seq int) : seq (seq int)
  axiom pieces_len: forall t keys s [pieces t keys s]. length (pieces t keys s) = length s
  axiom pieces_get: forall t keys s i [(pieces t keys s)[i]]. 0 <= i < length s -> (pieces t keys s)[i] = piece t keys s[i]
  function spell (t: int) (keys: seq (seq int)) (s: seq int) : seq int = flat (pieces t keys s)
end

module SpellReal
  use int.Int
  use sq.Sq
  use py.Py
  use py.PyFlat
  use Cut
  use Utf8
  predicate coded (t: int) = (t = 1 \/ t = 3) /\ kk = KBytes
  function piece (t: int) (keys: seq (seq int)) (x: int) : seq int =
    if t = 0 then singleton x
    else if t = 1 then (if coded t then utf8enc (singleton x) else singleton x)
    else keys[x]
  let rec ghost function encs (p: seq (seq int)) : seq (seq int)
    variant { length p }
    ensures { length result = length p }
    ensures { forall i. 0 <= i < length p -> result[i] = utf8enc p[i] }
  = if length p = 0 then empty else snoc (encs p[..length p - 1]) (pure { utf8enc p[length p - 1] })
  let rec ghost function pieces (t: int) (keys: seq (seq int)) (s: seq int) : seq (seq int)
    variant { length s }
    ensures { length result = length s }
    ensures { forall i. 0 <= i < length s -> result[i] = piece t keys s[i] }
  = if length s = 0 then empty else snoc (pieces t keys s[..length s - 1]) (pure { piece t keys s[length s - 1] })
  clone Spell with function encs = encs, function pieces = pieces
end

(* Consequences used by the clients, and the property C12 itself *)
module Tokens
  use int.Int
  use sq.Sq
  use py.Py
  use py.PyFlat
  use Cut
  use Utf8
  use Spell

  let lemma pieces_is (t: int) (keys: seq (seq int)) (s: seq int) (r: seq (seq int))
    requires { length r = length s }
    requires { forall i [r[i]]. 0 <= i < length s -> r[i] = piece t keys s[i] }
    ensures { r = pieces t keys s }
  = assert { r == pieces t keys s }
  let lemma chop_is (t: int) (c: seq int) (keys: seq (seq int)) (r: seq int) (p: seq (seq int))
    requires { length r = length p }
    requires { forall i [r[i]]. 0 <= i < length r -> piece t keys r[i] = p[i] }
    requires { p = chop t c }
    ensures { pieces t keys r = chop t c }
  = assert { pieces t keys r == p }
  let lemma pieces_app (t: int) (keys: seq (seq int)) (a b: seq int)
    ensures { pieces t keys (a ++ b) = pieces t keys a ++ pieces t keys b }
  = assert { pieces t keys (a ++ b) == pieces t keys a ++ pieces t keys b }
  let lemma pieces_sub (t: int) (keys: seq (seq int)) (a: seq int) (i j: int)
    requires { 0 <= i <= j <= length a }
    ensures { pieces t keys a[i..j] = (pieces t keys a)[i..j] }
  = assert { pieces t keys a[i..j] == (pieces t keys a)[i..j] }
  let lemma spell_empty (t: int) (keys: seq (seq int))
    ensures { spell t keys empty = empty }
  = assert { pieces t keys empty = empty }
  let lemma spell_snoc (t: int) (keys: seq (seq int)) (s: seq int) (x: int)
    ensures { spell t keys (snoc s x) = spell t keys s ++ piece t keys x }
  = assert { pieces t keys (snoc s x) == snoc (pieces t keys s) (piece t keys x) }
  let lemma spell_app (t: int) (keys: seq (seq int)) (a b: seq int)
    ensures { spell t keys (a ++ b) = spell t keys a ++ spell t keys b }
  = ()
  let lemma spell_one (t: int) (keys: seq (seq int)) (x: int)
    ensures { spell t keys (singleton x) = piece t keys x }
  = assert { pieces t keys (singleton x) == singleton (piece t keys x) }
  (* the numbering only grows, and old tokens keep their meaning *)
  let lemma spell_grows (t: int) (o n: seq (seq int)) (s: seq int)
    requires { allknown t o s }
    requires { extends n o }
    ensures { allknown t n s /\ pieces t n s = pieces t o s /\ spell t n s = spell t o s }
  = assert { pieces t n s == pieces t o s }
  let lemma null_spell (keys: seq (seq int)) (s: seq int)
    ensures { spell 0 keys s = s }
  = assert { pieces 0 keys s == cut 0 s }

  let rec lemma encs_flat (p: seq (seq int))
    ensures { flat (encs p) = utf8enc (flat p) }
    variant { length p }
  = if length p = 0 then assert { encs p = empty }
    else begin
      let q = p[..length p - 1] in
      let x = p[length p - 1] in
      encs_flat q;
      assert { p = snoc q x };
      assert { encs p == snoc (encs q) (utf8enc x) };
      assert { flat p = flat q ++ x }
    end
  let lemma encodable_part (p: seq (seq int)) (i j: int)
    requires { encodable (flat p) }
    requires { 0 <= i <= j <= length p }
    ensures { encodable (flat p[i..j]) }
  = assert { p == (p[..i] ++ p[i..j]) ++ p[j..] };
    assert { flat p = (flat p[..i] ++ flat p[i..j]) ++ flat p[j..] }
  let lemma encodable_piece (p: seq (seq int)) (i: int)
    requires { encodable (flat p) }
    requires { 0 <= i < length p }
    ensures { encodable p[i] }
  = encodable_part p i (i + 1);
    assert { p[i..i + 1] == singleton p[i] };
    assert { flat p[i..i + 1] = p[i] }

  let lemma encodable_one (s: seq int) (i: int)
    requires { encodable s }
    requires { 0 <= i < length s }
    ensures { encodable (singleton s[i]) }
  = encodable_piece (cut 0 s) i
  (* lines: the pieces between newlines, each with its newline, without an empty last one *)
  let ghost split_lines (s sep: seq int) (sp l: seq (seq int))
    requires { sep = singleton 10 }
    requires { length sp >= 1 }
    requires { forall i k [sp[i][k]]. 0 <= i < length sp -> 0 <= k < length sp[i] -> sp[i][k] <> 10 }
    requires { forall p: seq (seq int) [flat p].
      (length p = length sp - 1 -> (forall i. 0 <= i < length p -> p[i] = sp[i] ++ sep) -> flat p ++ sp[length sp - 1] = s) }
    requires { length l = (if length sp[length sp - 1] = 0 then length sp - 1 else length sp) }
    requires { forall i [l[i]]. 0 <= i < length sp - 1 -> l[i] = sp[i] ++ sep }
    requires { length sp[length sp - 1] > 0 -> l[length l - 1] = sp[length sp - 1] }
    ensures { l = cut 2 s }
  = let n = length sp - 1 in
    let p = l[..n] in
    assert { flat p ++ sp[n] = s };
    if pure { length sp[n] > 0 } then begin
      assert { l == snoc p sp[n] };
      assert { flat l = flat p ++ sp[n] }
    end else begin
      assert { l == p }
    end;
    assert { flat l = s };
    assert { forall i k. 0 <= i < n -> 0 <= k < length l[i] - 1 -> l[i][k] = sp[i][k] };
    assert { forall i. 0 <= i < n -> l[i][length l[i] - 1] = 10 };
    assert { is_cut 2 s l }

  let lemma chop_flat (t: int) (c: seq int)
    requires { okin t c }
    ensures { flat (chop t c) = c }
  = ()

  (* C12: decoding the encoding returns the input *)
  let lemma lossless (t: int) (keys: seq (seq int)) (c: seq int) (r: seq int)
    requires { okin t c }
    requires { pieces t keys r = chop t c }
    ensures { spell t keys r = c }
  = chop_flat t c

  (* C12: tokens are equal exactly when the pieces are *)
  let lemma consistent (t: int) (keys: seq (seq int)) (x y: int)
    requires { 0 <= t <= 3 }
    requires { distinct keys }
    requires { known t keys x }
    requires { known t keys y }
    ensures { x = y <-> piece t keys x = piece t keys y }
  = if pure { piece t keys x = piece t keys y } then begin
      if pure { t = 1 /\ coded t } then begin
        assert { utf8dec (utf8enc (singleton x)) = singleton x };
        assert { utf8dec (utf8enc (singleton y)) = singleton y }
      end;
      if t <= 1 then assert { (singleton x)[0] = (singleton y)[0] }
    end

  (* C12: the decoded text of a run of tokens is cut into the same pieces again *)
  let lemma again (t: int) (keys: seq (seq int)) (c: seq int) (r: seq int) (i j: int)
    requires { okin t c }
    requires { pieces t keys r = chop t c }
    requires { 0 <= i <= j <= length r }
    ensures { okin t (spell t keys r[i..j]) }
    ensures { chop t (spell t keys r[i..j]) = (chop t c)[i..j] }
    ensures { chop t (spell t keys r[i..j]) = pieces t keys r[i..j] }
  = let d = spell t keys r[i..j] in
    assert { length r = length (chop t c) };
    assert { pieces t keys r[i..j] = (chop t c)[i..j] };
    assert { d = flat (chop t c)[i..j] };
    if pure { coded t } then begin
      let q = cut t (utf8dec c) in
      assert { flat q = utf8dec c };
      assert { encs q[i..j] == (encs q)[i..j] };
      assert { d = utf8enc (flat q[i..j]) };
      encodable_part q i j;
      assert { utf8dec d = flat q[i..j] };
      assert { cut t (utf8dec d) = q[i..j] }
    end
end
