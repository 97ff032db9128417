(* Byte strings, the variable-length integer format and the change-script
   format: specification functions, plus the Python primitives involved. *)
module Bytes
  use int.Int
  use sq.Sq
  use py.Py

  predicate is_bytes (s: seq int) = forall i. 0 <= i < length s -> 0 <= s[i] < 256

  (* big-endian value of the bytes s[i..j) *)
  function be (s: seq int) (i j: int) : int
  axiom be_empty: forall s, i j [be s i j]. j <= i -> be s i j = 0
  axiom be_step: forall s, i j [be s i j]. i < j -> be s i j = 256 * be s i (j - 1) + s[j - 1]

  function pow256 (n: int) : int =
    if n <= 0 then 1 else if n = 1 then 256 else if n = 2 then 65536 else if n = 3 then 16777216
    else if n = 4 then 4294967296 else if n = 5 then 1099511627776
    else if n = 6 then 281474976710656 else if n = 7 then 72057594037927936
    else 18446744073709551616

  val to_bytes_big (v n: int) : seq int
    requires { [@expl:integer fits its bytes] 0 <= n <= 8 /\ 0 <= v < pow256 n }
    ensures { length result = n /\ is_bytes result /\ be result 0 n = v }
    ensures { n = 1 -> result = singleton v }
  val to_bytes_big_raise (v n: int) : seq int
    requires { 0 <= n <= 8 }
    ensures { 0 <= v < pow256 n }
    ensures { length result = n /\ is_bytes result /\ be result 0 n = v }
    ensures { n = 1 -> result = singleton v }
    raises { OverflowError -> not (0 <= v < pow256 n) }
  val from_bytes_big (s: seq int) : int
    requires { is_bytes s }
    ensures { result = be s 0 (length s) }
end

module BytesLemmas
  use int.Int
  use sq.Sq
  use Bytes

  lemma bytes_app: forall s t [is_bytes (s ++ t)]. is_bytes s -> is_bytes t -> is_bytes (s ++ t)
  lemma bytes_sub: forall s i j [is_bytes s[i..j]]. 0 <= i <= j <= length s -> is_bytes s -> is_bytes s[i..j]

  let rec lemma be_ext (s t: seq int) (i j d: int)
    requires { forall k. i <= k < j -> s[k] = t[k + d] }
    ensures { be s i j = be t (i + d) (j + d) }
    variant { j - i }
  = if i < j then be_ext s t i (j - 1) d

  let rec lemma be_nonneg (s: seq int) (i j: int)
    requires { is_bytes s /\ 0 <= i <= j <= length s }
    ensures { be s i j >= 0 }
    variant { j - i }
  = if i < j then be_nonneg s i (j - 1)
end

module Varint
  use int.Int
  use sq.Sq
  use py.Py
  use Bytes

  (* length of the encoding that starts with byte a *)
  function vlen (a: int) : int =
    if a <= 240 then 1 else if a <= 248 then 2 else if a = 249 then 3 else a - 246
  (* value of the encoding at the start of s *)
  function vval (s: seq int) : int =
    let a = s[0] in
    if a <= 240 then a
    else if a <= 248 then 240 + 256 * (a - 241) + s[1]
    else if a = 249 then 2288 + be s 1 3
    else be s 1 (a - 246)
  predicate has_v (s: seq int) = length s > 0 /\ vlen s[0] <= length s
  (* e is an encoding of v *)
  predicate codes (v: int) (e: seq int) =
    is_bytes e /\ length e > 0 /\ length e = vlen e[0] /\ vval e = v
end

module VarintLemmas
  use int.Int
  use sq.Sq
  use Bytes
  use BytesLemmas
  use Varint

  lemma decode_first: forall v e r [codes v e, e ++ r]. codes v e ->
    has_v (e ++ r) /\ vlen (e ++ r)[0] = length e /\ vval (e ++ r) = v
  lemma rest: forall e r: seq int [e ++ r]. (e ++ r)[length e..] == r
end

(* C10: the format is uniquely decodable and no proper prefix of an encoding decodes *)
module VarintTheorems
  use int.Int
  use sq.Sq
  use Bytes
  use Varint
  use VarintLemmas
  goal unique: forall v w e f r q. codes v e -> codes w f -> e ++ r = f ++ q -> v = w /\ length e = length f
  goal prefix_fails: forall v e p q. codes v e -> e = p ++ q -> length q > 0 -> not (has_v p)
end

(* the items of a stripped change script: new text or a slice of the old one *)
module Item
  use int.Int
  use sq.Sq
  use py.Py
  type item = IText (seq int) | ISlice slice
  val is_IText (x: item) : bool ensures { result <-> match x with IText _ -> true | _ -> false end }
  val is_ISlice (x: item) : bool ensures { result <-> match x with ISlice _ -> true | _ -> false end }
  val get_IText (x: item) : seq int
    requires { [@expl:item is bytes] match x with IText _ -> true | _ -> false end }
    ensures { x = IText result }
  val get_ISlice (x: item) : slice
    requires { [@expl:item is a slice] match x with ISlice _ -> true | _ -> false end }
    ensures { x = ISlice result }
end

module Script
  use int.Int
  use sq.Sq
  use py.Py
  use opt.Opt
  use Bytes
  use Varint

  use export Item

  predicate empty_item (x: item) =
    match x with IText s -> length s = 0 | ISlice (Slice a b) -> a = b | ISlice (SliceOpen _) -> false end
  (* items the format can hold *)
  predicate ok_item (x: item) =
    match x with
    | IText s -> is_bytes s /\ length s < 18446744073709551616
    | ISlice (Slice a b) -> 0 <= a < 18446744073709551616 /\ 0 <= b < 18446744073709551616
    | ISlice (SliceOpen _) -> false end
  predicate ok_script (c: seq item) = forall i. 0 <= i < length c -> ok_item c[i]

  (* the script without its empty items *)
  function norm (c: seq item) : seq item
  axiom norm_empty: norm empty = empty
  axiom norm_snoc: forall c x [norm (snoc c x)].
    norm (snoc c x) = if empty_item x then norm c else snoc (norm c) x

  (* decoding: state (expecting bytes?), remaining stream, items so far
     -> items, and whether the stream ended at an item boundary *)
  function p_out (nb: bool) (s: seq int) (o: seq item) : seq item
  function p_ok (nb: bool) (s: seq int) : bool
  axiom p_end: forall nb s o [p_out nb s o]. length s = 0 -> p_out nb s o = o
  axiom p_end_ok: forall nb s [p_ok nb s]. length s = 0 -> p_ok nb s
  function tail1 (s: seq int) : seq int = s[vlen s[0]..]
  axiom p_text: forall s o [p_out true s o]. length s > 0 ->
    p_out true s o = if not (has_v s) || length (tail1 s) < vval s then o
      else p_out false (tail1 s)[vval s..] (if vval s = 0 then o else snoc o (IText (tail1 s)[..vval s]))
  axiom p_text_ok: forall s [p_ok true s]. length s > 0 ->
    p_ok true s <-> (has_v s /\ length (tail1 s) >= vval s /\ p_ok false (tail1 s)[vval s..])
  axiom p_slice: forall s o [p_out false s o]. length s > 0 ->
    p_out false s o = if not (has_v s) || not (has_v (tail1 s)) then o
      else p_out true (tail1 (tail1 s)) (if vval s = vval (tail1 s) then o else snoc o (ISlice (Slice (vval s) (vval (tail1 s)))))
  axiom p_slice_ok: forall s [p_ok false s]. length s > 0 ->
    p_ok false s <-> (has_v s /\ has_v (tail1 s) /\ p_ok true (tail1 (tail1 s)))

  exception DecodeError (seq item)
end

module ScriptLemmas
  use int.Int
  use sq.Sq
  use py.Py
  use Bytes
  use BytesLemmas
  use Varint
  use VarintLemmas
  use Script

  (* reading one item back *)
  lemma read_zero: forall e t o [p_out true (e ++ t) o, codes 0 e]. codes 0 e -> is_bytes t ->
    p_out true (e ++ t) o = p_out false t o /\ (p_ok true (e ++ t) <-> p_ok false t)
  let lemma read_text (e b t: seq int) (o: seq item)
    requires { codes (length b) e /\ is_bytes b /\ is_bytes t }
    ensures { p_out true (e ++ (b ++ t)) o = p_out false t (if length b = 0 then o else snoc o (IText b)) }
    ensures { p_ok true (e ++ (b ++ t)) <-> p_ok false t }
  = let ghost s = e ++ (b ++ t) in
    assert { tail1 s = b ++ t };
    assert { (b ++ t)[length b..] == t };
    assert { (b ++ t)[..length b] == b }

  let lemma read_slice (e f t: seq int) (x y: int) (o: seq item)
    requires { codes x e /\ codes y f /\ is_bytes t }
    ensures { p_out false (e ++ (f ++ t)) o = p_out true t (if x = y then o else snoc o (ISlice (Slice x y))) }
    ensures { p_ok false (e ++ (f ++ t)) <-> p_ok true t }
  = let ghost s = e ++ (f ++ t) in
    assert { tail1 s = f ++ t };
    assert { tail1 (f ++ t) == t }
end

(* rd nb s x nb2: decoding s from state nb appends the items x and ends in
   state nb2, whatever follows *)
module Reads
  use int.Int
  use sq.Sq
  use py.Py
  use Bytes
  use Varint
  use Script

  predicate rd (nb: bool) (s: seq int) (x: seq item) (nb2: bool)
  axiom reads_nothing: rd true empty empty true
  axiom then_zero: forall nb s x e [rd nb s x true, s ++ e]. rd nb s x true -> codes 0 e ->
    rd nb (s ++ e) x false
  axiom then_zeros: forall nb s x e f [rd nb s x false, (s ++ e) ++ f]. rd nb s x false -> codes 0 e -> codes 0 f ->
    rd nb ((s ++ e) ++ f) x true
  axiom then_text: forall nb s x e b [rd nb s x true, (s ++ e) ++ b].
    rd nb s x true -> codes (length b) e -> is_bytes b ->
    rd nb ((s ++ e) ++ b) (if length b = 0 then x else snoc x (IText b)) false
  axiom then_slice: forall nb s x e f a b [rd nb s x false, (s ++ e) ++ f, codes a e, codes b f].
    rd nb s x false -> codes a e -> codes b f ->
    rd nb ((s ++ e) ++ f) (if a = b then x else snoc x (ISlice (Slice a b))) true
  axiom reads_all: forall s x nb2 [rd true s x nb2]. rd true s x nb2 ->
    p_ok true s /\ p_out true s empty = x
end

module ReadsReal
  use int.Int
  use sq.Sq
  use py.Py
  use Bytes
  use BytesLemmas
  use Varint
  use VarintLemmas
  use Script
  use ScriptLemmas
  predicate rd (nb: bool) (s: seq int) (x: seq item) (nb2: bool) =
    forall t o. is_bytes t -> p_out nb (s ++ t) o = p_out nb2 t (o ++ x) /\ (p_ok nb (s ++ t) <-> p_ok nb2 t)
lemma reads_app: forall nb s x nb2 s' x' nb3 [rd nb s x nb2, rd nb2 s' x' nb3].
    rd nb s x nb2 -> rd nb2 s' x' nb3 -> is_bytes s' -> rd nb (s ++ s') (x ++ x') nb3
  lemma reads_zero: forall e [codes 0 e]. codes 0 e -> rd true e empty false
  lemma reads_zeros: forall e f [codes 0 e, codes 0 f, e ++ f]. codes 0 e -> codes 0 f -> rd false (e ++ f) empty true
  lemma reads_text: forall e b [e ++ b, codes (length b) e]. codes (length b) e -> is_bytes b ->
    rd true (e ++ b) (if length b = 0 then empty else singleton (IText b)) false
  lemma reads_slice: forall e f x y [codes x e, codes y f, e ++ f]. codes x e -> codes y f ->
    rd false (e ++ f) (if x = y then empty else singleton (ISlice (Slice x y))) true
  lemma two_zero: forall e f t o. codes 0 e -> codes 0 f -> is_bytes t ->
    p_out false (e ++ (f ++ t)) o = p_out true t o /\ (p_ok false (e ++ (f ++ t)) <-> p_ok true t)
  lemma all: forall s x nb2. rd true s x nb2 -> p_ok true (s ++ empty) /\ p_out true (s ++ empty) empty = empty ++ x
  clone Reads with predicate rd = rd
end
