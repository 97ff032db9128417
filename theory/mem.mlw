(* Membership in sequences *)
module Mem
  use int.Int
  use sq.Sq
  predicate mem (x: 'a) (s: seq 'a)
  function pos (x: 'a) (s: seq 'a) : int
  axiom mem_empty: forall x: 'a [mem x empty]. not (mem x empty)
  axiom mem_single: forall x y: 'a [mem x (singleton y)]. mem x (singleton y) <-> x = y
  axiom mem_snoc: forall s, x y: 'a [mem x (snoc s y)]. mem x (snoc s y) <-> x = y \/ mem x s
  axiom mem_app: forall s t, x: 'a [mem x (s ++ t)]. mem x (s ++ t) <-> mem x s \/ mem x t
  axiom mem_get: forall s: seq 'a, i [s[i]]. 0 <= i < length s -> mem s[i] s
  axiom mem_pos: forall s, x: 'a [mem x s]. mem x s -> 0 <= pos x s < length s /\ s[pos x s] = x

  val seq_mem (s: seq 'a) (x: 'a) : bool ensures { result <-> mem x s }
  (* list.remove(): without the first occurrence *)
  val seq_remove (s: seq 'a) (x: 'a) : seq 'a
    requires { [@expl:removed value is in the list] mem x s }
    ensures { exists k [s[k]]. 0 <= k < length s /\ s[k] = x /\ (forall j [s[j]]. 0 <= j < k -> s[j] <> x) /\ result = s[..k] ++ s[k + 1..] }
  (* sorted(): ascending, same elements *)
  predicate ascending (s: seq int) = forall i j [s[i], s[j]]. 0 <= i <= j < length s -> s[i] <= s[j]
  predicate strictly (s: seq int) = forall i j [s[i], s[j]]. 0 <= i < j < length s -> s[i] < s[j]
  val py_sorted (s: seq int) : seq int
    ensures { ascending result /\ length result = length s }
    ensures { forall x [mem x s | mem x result]. mem x result <-> mem x s }
end
module MemReal
  use int.Int
  use sq.Sq
  let rec ghost function pos (x: 'a) (s: seq 'a) : int
    ensures { -1 <= result < length s }
    ensures { result >= 0 -> s[result] = x }
    ensures { result < 0 -> forall i. 0 <= i < length s -> s[i] <> x }
    variant { length s }
  = if length s = 0 then -1 else if pure { s[length s - 1] = x } then length s - 1 else pos x s[..length s - 1]
  predicate mem (x: 'a) (s: seq 'a) = exists i [s[i]]. 0 <= i < length s /\ s[i] = x
  lemma memp: forall x: 'a, s [mem x s]. mem x s <-> pos x s >= 0
  lemma app_l: forall s t: seq 'a, i [s[i], s ++ t]. 0 <= i < length s -> (s ++ t)[i] = s[i]
  lemma app_r: forall s t: seq 'a, i [t[i], s ++ t]. 0 <= i < length t -> (s ++ t)[length s + i] = t[i]
  lemma snoc_l: forall s, x: 'a, i [s[i], snoc s x]. 0 <= i < length s -> (snoc s x)[i] = s[i]
  lemma snoc_r: forall s, x: 'a [snoc s x]. (snoc s x)[length s] = x
  clone Mem with predicate mem = mem, function pos = pos
end
