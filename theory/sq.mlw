(* Finite sequences with trigger-annotated axioms.  Module SqReal proves every
   axiom from Why3's standard library sequences. *)
module Sq
  use int.Int

  type seq 'a
  function length (s: seq 'a) : int
  function ([]) (s: seq 'a) (i: int) : 'a
  constant empty : seq 'a
  function singleton (x: 'a) : seq 'a
  function snoc (s: seq 'a) (x: 'a) : seq 'a
  function (++) (s t: seq 'a) : seq 'a
  function ([..]) (s: seq 'a) (i j: int) : seq 'a
  function ([_..]) (s: seq 'a) (i: int) : seq 'a
  function ([.._]) (s: seq 'a) (j: int) : seq 'a
  function set (s: seq 'a) (i: int) (x: 'a) : seq 'a
  predicate (==) (s t: seq 'a)

  axiom length_nonneg: forall s: seq 'a [length s]. 0 <= length s
  axiom ext_elim: forall s t: seq 'a [s == t]. s == t -> s = t
  axiom ext_intro: forall s t: seq 'a [s == t].
    length s = length t -> (forall i. 0 <= i < length s -> s[i] = t[i]) -> s == t
  axiom length_empty: length (empty: seq 'a) = 0
  axiom empty_unique: forall s: seq 'a [length s]. length s = 0 -> s = empty
  axiom length_singleton: forall x: 'a [singleton x]. length (singleton x) = 1
  axiom get_singleton: forall x: 'a, i [(singleton x)[i]]. i = 0 -> (singleton x)[i] = x
  axiom get_singleton0: forall x: 'a [singleton x]. (singleton x)[0] = x
  axiom length_snoc: forall s, x: 'a [snoc s x]. length (snoc s x) = length s + 1
  axiom get_snoc: forall s, x: 'a, i [(snoc s x)[i]].
    0 <= i <= length s -> (snoc s x)[i] = (if i = length s then x else s[i])
  axiom length_app: forall s t: seq 'a [s ++ t]. length (s ++ t) = length s + length t
  axiom get_app: forall s t: seq 'a, i [(s ++ t)[i]].
    0 <= i < length s + length t -> (s ++ t)[i] = (if i < length s then s[i] else t[i - length s])
  axiom length_sub: forall s: seq 'a, i j [s[i..j]].
    0 <= i <= j <= length s -> length s[i..j] = j - i
  axiom get_sub: forall s: seq 'a, i j k [s[i..j][k]].
    0 <= i <= j <= length s -> 0 <= k < j - i -> s[i..j][k] = s[i + k]
  axiom from_def: forall s: seq 'a, i [s[i..]]. 0 <= i <= length s -> s[i..] = s[i..length s]
  axiom to_def: forall s: seq 'a, j [s[..j]]. 0 <= j <= length s -> s[..j] = s[0..j]
  axiom length_set: forall s, i, x: 'a [set s i x].
    0 <= i < length s -> length (set s i x) = length s
  axiom get_set: forall s, i, x: 'a, j [(set s i x)[j]].
    0 <= i < length s -> 0 <= j < length s -> (set s i x)[j] = (if j = i then x else s[j])

  (* derived equations, all instances of extensionality *)
  axiom snoc_def: forall s, x: 'a [s ++ singleton x]. s ++ singleton x = snoc s x
  axiom snoc_empty: forall x: 'a [snoc empty x]. snoc empty x = singleton x
  axiom app_empty_l: forall s: seq 'a [empty ++ s]. empty ++ s = s
  axiom app_empty_r: forall s: seq 'a [s ++ empty]. s ++ empty = s
  axiom app_snoc: forall s t, x: 'a [s ++ snoc t x]. s ++ snoc t x = snoc (s ++ t) x
  axiom app_assoc: forall s t u: seq 'a [s ++ (t ++ u) | (s ++ t) ++ u]. s ++ (t ++ u) = (s ++ t) ++ u
  axiom sub_full: forall s: seq 'a, j [s[0..j]]. j = length s -> s[0..j] = s
  axiom sub_empty: forall s: seq 'a, i j [s[i..j]]. 0 <= i <= length s -> i = j -> s[i..j] = empty
  axiom sub_sub: forall s: seq 'a, i j k l [s[i..j][k..l]].
    0 <= i <= j <= length s -> 0 <= k <= l <= j - i -> s[i..j][k..l] = s[i + k..i + l]
  axiom sub_join: forall s: seq 'a, i j k [s[i..j] ++ s[j..k]].
    0 <= i <= j <= k <= length s -> s[i..j] ++ s[j..k] = s[i..k]
  axiom sub_snoc: forall s: seq 'a, i j [snoc s[i..j] s[j]].
    0 <= i <= j < length s -> snoc s[i..j] s[j] = s[i..j + 1]
  axiom snoc_front: forall s, x: 'a, n [(snoc s x)[0..n]].
    n = length s -> (snoc s x)[0..n] = s
end

module SqReal
  use int.Int
  use seq.Seq
  lemma join_get: forall s: seq 'a, i j k l. 0 <= i <= j <= k <= length s -> 0 <= l < k - i ->
    (s[i..j] ++ s[j..k])[l] = s[i + l]
  lemma join_eq: forall s: seq 'a, i j k. 0 <= i <= j <= k <= length s -> s[i..j] ++ s[j..k] == s[i..k]
  clone Sq with type seq = seq, function length = length, function ([]) = ([]), function empty = empty,
    function singleton = singleton, function snoc = snoc, function (++) = (++),
    function ([..]) = ([..]), function ([_..]) = ([_..]), function ([.._]) = ([.._]), function set = set,
    predicate (==) = (==)
end
