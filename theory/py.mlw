(* Model of the Python built-ins the extracted code uses.
   Sequences (str, bytes, tuple, list) are finite mathematical sequences of
   element codes; integers are unbounded in Python, so `int` is exact. *)
module Py
  use int.Int
  use sq.Sq
  use opt.Opt

  val py_len (s: seq 'a) : int ensures { result = length s }
  val py_snoc (s: seq 'a) (x: 'a) : seq 'a ensures { result = snoc s x }
  val py_app (s t: seq 'a) : seq 'a ensures { result = s ++ t }
  val py_empty () : seq 'a ensures { result = empty }
  val py_single (x: 'a) : seq 'a ensures { result = singleton x }

  exception RuntimeError
  exception OverflowError
  exception KeyError
  exception ValueError

  (* an error the contract does not allow *)
  val raise_unreachable () : unit
    requires { [@expl:no unexpected exception] false }
  val unbound_local () : unit
    requires { [@expl:local variable is assigned] false }
  val missing_return () : unit
    requires { [@expl:a value is returned] false }
  val none_value () : 'a
    requires { [@expl:value is not None] false }
  val assert_holds (b: bool) : unit
    requires { [@expl:assert statement holds] b }
    ensures { b }
  val any_value () : 'a
  val empty_of (s: seq 'a) : seq 'a ensures { result = empty }
  val int_of_bool (b: bool) : int ensures { result = if b then 1 else 0 }

  (* the kind (str, bytes or tuple) of the token sequences a generic function
     works on: one per call *)
  type kind = KStr | KBytes | KTuple
  constant kk : kind
  val is_kind (k: kind) : bool ensures { result <-> k = kk }
  val lit_kind (k: kind) (s: seq 'a) : seq 'a
    requires { [@expl:literal is of the kind of the sequences] k = kk }
    ensures { result = s }
  val kind_of_text () : kind ensures { result = kk }

  (* slice objects *)
  type slice = Slice int int | SliceOpen int
  function slice_start (s: slice) : int = match s with Slice a _ -> a | SliceOpen a -> a end
  function slice_stop (s: slice) : opt int = match s with Slice _ b -> some b | SliceOpen _ -> none end
  val get_slice_start (s: slice) : int ensures { result = slice_start s }
  val get_slice_stop (s: slice) : opt int ensures { result = slice_stop s }
  val mk_slice_opt (a: int) (b: opt int) : slice
    ensures { slice_start result = a /\ slice_stop result = b }

  val py_all (s: seq bool) : bool ensures { result <-> forall i [s[i]]. 0 <= i < length s -> s[i] }
  val py_any (s: seq bool) : bool ensures { result <-> exists i [s[i]]. 0 <= i < length s /\ s[i] }

  val py_eq (a b: 'a) : bool ensures { result <-> a = b }

  function py_clip (i n: int) : int =
    if i < 0 then (if i + n < 0 then 0 else i + n)
    else (if i > n then n else i)

  function pyslice (s: seq 'a) (i j: int) : seq 'a =
    let n = length s in
    let a = py_clip i n in
    let b = py_clip j n in
    if a < b then s[a..b] else empty

  (* s[i:j] *)
  val slice2 (s: seq 'a) (i j: int) : seq 'a
    ensures { result = pyslice s i j }
    ensures { 0 <= i <= j <= length s -> result = s[i..j] }
  (* s[i:] *)
  val slice_from (s: seq 'a) (i: int) : seq 'a
    ensures { result = pyslice s i (length s) }
    ensures { 0 <= i <= length s -> result = s[i..] }
  (* s[:j] *)
  val slice_to (s: seq 'a) (j: int) : seq 'a
    ensures { result = pyslice s 0 j }
    ensures { 0 <= j <= length s -> result = s[..j] }

  function at_slice (s: seq 'a) (sl: slice) : seq 'a =
    match sl with Slice a b -> pyslice s a b | SliceOpen a -> pyslice s a (length s) end
  val slice_obj (s: seq 'a) (sl: slice) : seq 'a
    ensures { result = at_slice s sl }

  val getitem (s: seq 'a) (i: int) : 'a
    requires { [@expl:index in range] - length s <= i < length s }
    ensures { i >= 0 -> result = s[i] }
    ensures { i < 0 -> result = s[length s + i] }

  val seq_last (s: seq 'a) : 'a
    requires { [@expl:pop from non-empty list] length s > 0 }
    ensures { result = s[length s - 1] }
  val seq_front (s: seq 'a) : seq 'a
    requires { length s > 0 }
    ensures { result = s[..length s - 1] }
    ensures { s = snoc result s[length s - 1] }

  val unopt (o: opt 'a) : 'a
    requires { [@expl:value is not None] not (isn o) }
    ensures { result = the o /\ o = some result }

  let function py_min (a b: int) : int = if a <= b then a else b
  let function py_max (a b: int) : int = if a >= b then a else b

  (* Python's % and // for a positive divisor *)
  use int.EuclideanDivision
  val py_mod (a b: int) : int
    requires { [@expl:positive divisor] b > 0 }
    ensures { result = mod a b }
    ensures { 0 <= result < b }
  val py_floordiv (a b: int) : int
    requires { [@expl:positive divisor] b > 0 }
    ensures { result = div a b }
    ensures { b * result <= a < b * result + b }
  (* int(n / 2**k) computed in binary floating point: exact division because
     the divisor is a power of two and |n| < 2**53, then truncation *)
  val int_of_frac (num den: int) : int
    requires { [@expl:float division is exact] 0 <= num < 9007199254740992 /\ den > 0 }
    ensures { result = div num den }
    ensures { den * result <= num < den * result + den }
end

module PyFlat
  use int.Int
  use sq.Sq

  (* concatenation of a sequence of sequences, e.g. ''.join(x) *)
  function flat (s: seq (seq int)) : seq int
  axiom flat_empty: flat empty = empty
  axiom flat_snoc: forall s, x: seq int [flat (snoc s x)]. flat (snoc s x) = flat s ++ x
  axiom flat_one: forall x: seq int [flat (singleton x)]. flat (singleton x) = x
  axiom flat_app: forall a b: seq (seq int) [flat (a ++ b)]. flat (a ++ b) = flat a ++ flat b
end

module PyTotal
  use int.Int
  use sq.Sq
  function total (s: seq int) : int
  axiom total_empty: total empty = 0
  axiom total_snoc: forall s x [total (snoc s x)]. total (snoc s x) = total s + x
end
module TotalReal
  use int.Int
  use sq.Sq
  let rec ghost function total (s: seq int) : int
    variant { length s }
  = if length s = 0 then 0 else total s[..length s - 1] + s[length s - 1]
  lemma front: forall s, x: int. (snoc s x)[..length (snoc s x) - 1] = s
  clone PyTotal with function total = total
end

module PyMax
  use int.Int
  use sq.Sq
  use export PyTotal

  (* tuples of integers compare lexicographically *)
  type i2 = I2 int int
  type i3 = I3 int int int
  predicate le2 (x y: i2) = match x, y with I2 a b, I2 c d -> a < c \/ a = c /\ b <= d end
  predicate le3 (x y: i3) = match x, y with I3 a b e, I3 c d f -> a < c \/ a = c /\ (b < d \/ b = d /\ e <= f) end
  val i2_0 (x: i2) : int ensures { match x with I2 a _ -> result = a end }
  val i2_1 (x: i2) : int ensures { match x with I2 _ a -> result = a end }
  val i3_0 (x: i3) : int ensures { match x with I3 a _ _ -> result = a end }
  val i3_1 (x: i3) : int ensures { match x with I3 _ a _ -> result = a end }
  val i3_2 (x: i3) : int ensures { match x with I3 _ _ a -> result = a end }
  val seq_max (s: seq int) : int
    requires { [@expl:max of a non-empty sequence] length s > 0 }
    ensures { exists i [s[i]]. 0 <= i < length s /\ s[i] = result }
    ensures { forall i [s[i]]. 0 <= i < length s -> s[i] <= result }
  val seq_min (s: seq int) : int
    requires { [@expl:min of a non-empty sequence] length s > 0 }
    ensures { exists i [s[i]]. 0 <= i < length s /\ s[i] = result }
    ensures { forall i [s[i]]. 0 <= i < length s -> result <= s[i] }
  val seq_max2 (s: seq i2) : i2
    requires { [@expl:max of a non-empty sequence] length s > 0 }
    ensures { exists i [s[i]]. 0 <= i < length s /\ s[i] = result }
    ensures { forall i [s[i]]. 0 <= i < length s -> le2 s[i] result }
  val seq_max3 (s: seq i3) : i3
    requires { [@expl:max of a non-empty sequence] length s > 0 }
    ensures { exists i [s[i]]. 0 <= i < length s /\ s[i] = result }
    ensures { forall i [s[i]]. 0 <= i < length s -> le3 s[i] result }
  val seq_sum (s: seq int) : int ensures { result = total s }
end

module PyRev
  use int.Int
  use sq.Sq

  function rev (s: seq 'a) : seq 'a
  axiom rev_length: forall s: seq 'a [rev s]. length (rev s) = length s
  axiom rev_get: forall s: seq 'a, i [(rev s)[i]]. 0 <= i < length s -> (rev s)[i] = s[length s - 1 - i]
  axiom rev_rev: forall s: seq 'a [rev (rev s)]. rev (rev s) = s
  axiom rev_empty: rev (empty: seq 'a) = empty
  axiom rev_snoc: forall s, x: 'a [rev (snoc s x)]. rev (snoc s x) = singleton x ++ rev s
  val py_rev (s: seq 'a) : seq 'a ensures { result = rev s }
end

module PyJoin
  use int.Int
  use sq.Sq
  use Py
  use PyFlat

  (* separator.join(pieces): str and bytes have it *)
  function sepjoin (sep: seq int) (s: seq (seq int)) : seq int
  axiom sepjoin_none: forall sep s [sepjoin sep s]. length sep = 0 -> sepjoin sep s = flat s
  axiom sepjoin_one: forall sep x [sepjoin sep (singleton x)]. sepjoin sep (singleton x) = x
  axiom sepjoin_snoc: forall sep s x [sepjoin sep (snoc s x)]. length s > 0 -> sepjoin sep (snoc s x) = (sepjoin sep s ++ sep) ++ x
  val join_sep (sep: seq int) (s: seq (seq int)) : seq int
    requires { [@expl:str or bytes] kk <> KTuple }
    ensures { result = sepjoin sep s }
  val join_flat (s: seq (seq int)) : seq int
    ensures { result = flat s }
end

module FlatReal
  use int.Int
  use sq.Sq
  let rec ghost function flat (s: seq (seq int)) : seq int
    variant { length s }
  = if length s = 0 then empty else flat s[..length s - 1] ++ s[length s - 1]

  lemma front: forall s, x: seq int. (snoc s x)[..length (snoc s x) - 1] = s
  lemma flat_empty: flat empty = empty
  lemma flat_snoc: forall s, x: seq int. flat (snoc s x) = flat s ++ x

  let rec lemma flat_app (a b: seq (seq int))
    variant { length b }
    ensures { flat (a ++ b) = flat a ++ flat b }
  = if length b = 0 then () else begin
      let b' = b[..length b - 1] in
      let x = b[length b - 1] in
      flat_app a b';
      assert { b == snoc b' x };
      assert { a ++ b = snoc (a ++ b') x };
      assert { flat (a ++ b) = flat (a ++ b') ++ x };
      assert { flat b = flat b' ++ x }
    end
  clone PyFlat with function flat = flat
end

module JoinReal
  use int.Int
  use sq.Sq
  use Py
  use PyFlat
  let rec ghost function sepjoin (sep: seq int) (s: seq (seq int)) : seq int
    variant { length s }
    ensures { length sep = 0 -> result = flat s }
  = if length s = 0 then empty
    else if length s = 1 then begin assert { s == snoc empty s[0] }; assert { flat s == s[0] }; s[0] end
    else begin
      assert { s = snoc s[..length s - 1] s[length s - 1] };
      (sepjoin sep s[..length s - 1] ++ sep) ++ s[length s - 1]
    end
  lemma front: forall s, x: seq int. (snoc s x)[..length (snoc s x) - 1] = s
  clone PyJoin with function sepjoin = sepjoin
end
