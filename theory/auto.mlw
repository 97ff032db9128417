(* Suffix automata: words of a text by end position, the node heap, the
   automaton invariant, and the proof that one extension step keeps it. *)
module Eqw
  use int.Int
  use sq.Sq
  (* the words of length k of s that end at positions a and b exist and are equal *)
  predicate eqw (s: seq int) (k a b: int)
  axiom eqw_dom: forall s k a b [eqw s k a b]. eqw s k a b -> 0 <= k <= a <= length s /\ k <= b <= length s
  axiom eqw_refl: forall s k a [eqw s k a a]. 0 <= k <= a <= length s -> eqw s k a a
  axiom eqw_sym: forall s k a b [eqw s k a b]. eqw s k a b -> eqw s k b a
  axiom eqw_trans: forall s k l a b c [eqw s k a b, eqw s l b c]. eqw s k a b -> eqw s l b c -> k <= l -> eqw s k a c
  axiom eqw_mono: forall s k l a b [eqw s k a b, eqw s l a b]. eqw s k a b -> 0 <= l <= k -> eqw s l a b
  axiom eqw_zero: forall s a b [eqw s 0 a b]. 0 <= a <= length s -> 0 <= b <= length s -> eqw s 0 a b
  axiom eqw_step: forall s k a b [eqw s k a b, s[a], s[b]]. a < length s -> b < length s ->
     eqw s k a b -> s[a] = s[b] -> eqw s (k+1) (a+1) (b+1)
  axiom eqw_unstep: forall s k a b [eqw s k a b, s[a-1]]. 0 < k -> eqw s k a b -> eqw s (k-1) (a-1) (b-1) /\ s[a-1] = s[b-1]
  axiom eqw_snoc: forall s c k a b [eqw (snoc s c) k a b | eqw s k a b, snoc s c].
     a <= length s -> b <= length s -> (eqw (snoc s c) k a b <-> eqw s k a b)
  predicate eqwd (s: seq int) (k a b: int) =
    0 <= k <= a <= length s /\ k <= b <= length s /\ forall i. a - k <= i < a -> s[i] = s[i + (b - a)]
  axiom eqw_is: forall s k a b [eqwd s k a b]. eqwd s k a b <-> eqw s k a b
end
module EqwReal
  use int.Int
  use sq.Sq
  predicate eqw (s: seq int) (k a b: int) =
    0 <= k <= a <= length s /\ k <= b <= length s /\ forall i. a - k <= i < a -> s[i] = s[i + (b - a)]
  clone Eqw with predicate eqw = eqw
end

(* heap of automaton nodes: a node is its position in creation order *)
module Heap
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict

  type node = int
  type hp
  function alloc hp : int
  function len (h: hp) (v: node) : int
  function fep (h: hp) (v: node) : int
  function link (h: hp) (v: node) : opt node
  function trs (h: hp) (v: node) : dict int node
  function term (h: hp) (v: node) : bool
  function pre (h: hp) (j: int) : node  (* ghost: the node created for the prefix of length j *)
  function rev (h: hp) (v: node) : seq node
  function tr (h: hp) (v: node) (c: int) : opt node = dfind (trs h v) c
  predicate valid (h: hp) (v: node)
  function set_len (h: hp) (v: node) (x: int) : hp
  axiom set_len_valid: forall h v x u [valid (set_len h v x) u]. valid (set_len h v x) u <-> valid h u
  axiom set_len_pre: forall h v x j [pre (set_len h v x) j]. pre (set_len h v x) j = pre h j
  axiom set_len_alloc: forall h v x [set_len h v x]. alloc (set_len h v x) = alloc h
  axiom set_len_len: forall h v x u [len (set_len h v x) u]. len (set_len h v x) u = if u = v then x else len h u
  axiom set_len_fep: forall h v x u [fep (set_len h v x) u]. fep (set_len h v x) u = fep h u
  axiom set_len_link: forall h v x u [link (set_len h v x) u]. link (set_len h v x) u = link h u
  axiom set_len_trs: forall h v x u [trs (set_len h v x) u]. trs (set_len h v x) u = trs h u
  axiom set_len_term: forall h v x u [term (set_len h v x) u]. term (set_len h v x) u = term h u
  axiom set_len_rev: forall h v x u [rev (set_len h v x) u]. rev (set_len h v x) u = rev h u
  function set_fep (h: hp) (v: node) (x: int) : hp
  axiom set_fep_valid: forall h v x u [valid (set_fep h v x) u]. valid (set_fep h v x) u <-> valid h u
  axiom set_fep_pre: forall h v x j [pre (set_fep h v x) j]. pre (set_fep h v x) j = pre h j
  axiom set_fep_alloc: forall h v x [set_fep h v x]. alloc (set_fep h v x) = alloc h
  axiom set_fep_len: forall h v x u [len (set_fep h v x) u]. len (set_fep h v x) u = len h u
  axiom set_fep_fep: forall h v x u [fep (set_fep h v x) u]. fep (set_fep h v x) u = if u = v then x else fep h u
  axiom set_fep_link: forall h v x u [link (set_fep h v x) u]. link (set_fep h v x) u = link h u
  axiom set_fep_trs: forall h v x u [trs (set_fep h v x) u]. trs (set_fep h v x) u = trs h u
  axiom set_fep_term: forall h v x u [term (set_fep h v x) u]. term (set_fep h v x) u = term h u
  axiom set_fep_rev: forall h v x u [rev (set_fep h v x) u]. rev (set_fep h v x) u = rev h u
  function set_link (h: hp) (v: node) (x: opt node) : hp
  axiom set_link_valid: forall h v x u [valid (set_link h v x) u]. valid (set_link h v x) u <-> valid h u
  axiom set_link_pre: forall h v x j [pre (set_link h v x) j]. pre (set_link h v x) j = pre h j
  axiom set_link_alloc: forall h v x [set_link h v x]. alloc (set_link h v x) = alloc h
  axiom set_link_len: forall h v x u [len (set_link h v x) u]. len (set_link h v x) u = len h u
  axiom set_link_fep: forall h v x u [fep (set_link h v x) u]. fep (set_link h v x) u = fep h u
  axiom set_link_link: forall h v x u [link (set_link h v x) u]. link (set_link h v x) u = if u = v then x else link h u
  axiom set_link_trs: forall h v x u [trs (set_link h v x) u]. trs (set_link h v x) u = trs h u
  axiom set_link_term: forall h v x u [term (set_link h v x) u]. term (set_link h v x) u = term h u
  axiom set_link_rev: forall h v x u [rev (set_link h v x) u]. rev (set_link h v x) u = rev h u
  function set_trs (h: hp) (v: node) (x: dict int node) : hp
  axiom set_trs_valid: forall h v x u [valid (set_trs h v x) u]. valid (set_trs h v x) u <-> valid h u
  axiom set_trs_pre: forall h v x j [pre (set_trs h v x) j]. pre (set_trs h v x) j = pre h j
  axiom set_trs_alloc: forall h v x [set_trs h v x]. alloc (set_trs h v x) = alloc h
  axiom set_trs_len: forall h v x u [len (set_trs h v x) u]. len (set_trs h v x) u = len h u
  axiom set_trs_fep: forall h v x u [fep (set_trs h v x) u]. fep (set_trs h v x) u = fep h u
  axiom set_trs_link: forall h v x u [link (set_trs h v x) u]. link (set_trs h v x) u = link h u
  axiom set_trs_trs: forall h v x u [trs (set_trs h v x) u]. trs (set_trs h v x) u = if u = v then x else trs h u
  axiom set_trs_term: forall h v x u [term (set_trs h v x) u]. term (set_trs h v x) u = term h u
  axiom set_trs_rev: forall h v x u [rev (set_trs h v x) u]. rev (set_trs h v x) u = rev h u
  function set_term (h: hp) (v: node) (x: bool) : hp
  axiom set_term_valid: forall h v x u [valid (set_term h v x) u]. valid (set_term h v x) u <-> valid h u
  axiom set_term_pre: forall h v x j [pre (set_term h v x) j]. pre (set_term h v x) j = pre h j
  axiom set_term_alloc: forall h v x [set_term h v x]. alloc (set_term h v x) = alloc h
  axiom set_term_len: forall h v x u [len (set_term h v x) u]. len (set_term h v x) u = len h u
  axiom set_term_fep: forall h v x u [fep (set_term h v x) u]. fep (set_term h v x) u = fep h u
  axiom set_term_link: forall h v x u [link (set_term h v x) u]. link (set_term h v x) u = link h u
  axiom set_term_trs: forall h v x u [trs (set_term h v x) u]. trs (set_term h v x) u = trs h u
  axiom set_term_term: forall h v x u [term (set_term h v x) u]. term (set_term h v x) u = if u = v then x else term h u
  axiom set_term_rev: forall h v x u [rev (set_term h v x) u]. rev (set_term h v x) u = rev h u
  function set_rev (h: hp) (v: node) (x: seq node) : hp
  axiom set_rev_valid: forall h v x u [valid (set_rev h v x) u]. valid (set_rev h v x) u <-> valid h u
  axiom set_rev_pre: forall h v x j [pre (set_rev h v x) j]. pre (set_rev h v x) j = pre h j
  axiom set_rev_alloc: forall h v x [set_rev h v x]. alloc (set_rev h v x) = alloc h
  axiom set_rev_len: forall h v x u [len (set_rev h v x) u]. len (set_rev h v x) u = len h u
  axiom set_rev_fep: forall h v x u [fep (set_rev h v x) u]. fep (set_rev h v x) u = fep h u
  axiom set_rev_link: forall h v x u [link (set_rev h v x) u]. link (set_rev h v x) u = link h u
  axiom set_rev_trs: forall h v x u [trs (set_rev h v x) u]. trs (set_rev h v x) u = trs h u
  axiom set_rev_term: forall h v x u [term (set_rev h v x) u]. term (set_rev h v x) u = term h u
  axiom set_rev_rev: forall h v x u [rev (set_rev h v x) u]. rev (set_rev h v x) u = if u = v then x else rev h u
  function set_pre (h: hp) (i: int) (v: node) : hp
  axiom set_pre_valid: forall h i v u [valid (set_pre h i v) u]. valid (set_pre h i v) u <-> valid h u
  axiom set_pre_pre: forall h i v j [pre (set_pre h i v) j]. pre (set_pre h i v) j = if j = i then v else pre h j
  axiom set_pre_alloc: forall h i v [set_pre h i v]. alloc (set_pre h i v) = alloc h
  axiom set_pre_len: forall h i v u [len (set_pre h i v) u]. len (set_pre h i v) u = len h u
  axiom set_pre_fep: forall h i v u [fep (set_pre h i v) u]. fep (set_pre h i v) u = fep h u
  axiom set_pre_link: forall h i v u [link (set_pre h i v) u]. link (set_pre h i v) u = link h u
  axiom set_pre_trs: forall h i v u [trs (set_pre h i v) u]. trs (set_pre h i v) u = trs h u
  axiom set_pre_term: forall h i v u [term (set_pre h i v) u]. term (set_pre h i v) u = term h u
  axiom set_pre_rev: forall h i v u [rev (set_pre h i v) u]. rev (set_pre h i v) u = rev h u
  (* the heap without node x and without the transitions to it *)
  function drop (h: hp) (x: node) : hp
  axiom drop_valid: forall h x v [valid (drop h x) v]. valid (drop h x) v <-> valid h v /\ v <> x
  axiom drop_len: forall h x v [len (drop h x) v]. len (drop h x) v = len h v
  axiom drop_fep: forall h x v [fep (drop h x) v]. fep (drop h x) v = fep h v
  axiom drop_link: forall h x v [link (drop h x) v]. link (drop h x) v = link h v
  axiom drop_pre: forall h x j [pre (drop h x) j]. pre (drop h x) j = pre h j
  axiom drop_tr: forall h x v c [dfind (trs (drop h x) v) c]. dfind (trs (drop h x) v) c = if dfind (trs h v) c = some x then none else dfind (trs h v) c
end

module Auto
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use Eqw
  use Heap

  function mn (h: hp) (v: node) : int = if isn (link h v) then 0 else len h (the (link h v)) + 1

  predicate i1 (s: seq int) (h: hp) =
    valid h 0 /\ len h 0 = 0 /\ link h 0 = none /\ fep h 0 = 0 /\
    (forall v [link h v]. valid h v -> v <> 0 -> not (isn (link h v)) /\ let p = the (link h v) in valid h p /\ 0 <= len h p < len h v <= fep h v <= length s)
  predicate i2 (s: seq int) (h: hp) =
    forall v [link h v]. valid h v -> isn (link h v) \/ let p = the (link h v) in eqw s (len h p) (fep h p) (fep h v)
  predicate i3 (s: seq int) (h: hp) =
    forall v c [dfind (trs h v) c]. valid h v -> isn (tr h v c) \/ let u = the (tr h v c) in
        valid h u /\ u <> 0 /\ s[fep h u - 1] = c /\ len h v + 1 <= len h u /\
        eqw s (len h v) (fep h v) (fep h u - 1) /\ mn h u <= mn h v + 1
  predicate i4 (s: seq int) (h: hp) =
    forall v j [eqw s (len h v) (fep h v) j]. valid h v -> j < length s -> eqw s (len h v) (fep h v) j -> not (isn (tr h v s[j]))
  predicate i5 (s: seq int) (h: hp) =
    forall v j [eqw s (len h v) (fep h v) j | eqw s (mn h v) (fep h v) j]. valid h v -> eqw s (mn h v) (fep h v) j -> eqw s (len h v) (fep h v) j
  predicate i7 (s: seq int) (h: hp) =
    forall v j [eqw s (len h v) (fep h v) j]. valid h v -> eqw s (len h v) (fep h v) j -> fep h v <= j
  predicate iu (s: seq int) (h: hp) =
    forall u v k [eqw s k (fep h u) (fep h v)]. valid h u -> valid h v -> mn h u <= k <= len h u -> mn h v <= k <= len h v ->
      eqw s k (fep h u) (fep h v) -> u = v
  predicate ip (s: seq int) (h: hp) =
    forall j [pre h j]. 0 <= j <= length s -> valid h (pre h j) /\ len h (pre h j) = j /\ fep h (pre h j) = j
  predicate wf (s: seq int) (h: hp) = i1 s h /\ ip s h /\ i2 s h /\ i3 s h /\ i4 s h /\ i5 s h /\ i7 s h /\ iu s h

  (* the longest word of v is a suffix of s *)
  predicate sfx (s: seq int) (h: hp) (v: node) = eqw s (len h v) (fep h v) (length s)

  (* after the first walk: the suffix nodes longer than m go to nw by c *)
  predicate walked (s: seq int) (c: int) (h0 h1: hp) (nw: node) (m: int) =
    not (valid h0 nw) /\ (forall v [valid h1 v]. valid h1 v <-> valid h0 v \/ v = nw) /\
    len h1 nw = length s + 1 /\ fep h1 nw = length s + 1 /\
    (forall v [len h1 v]. valid h0 v -> len h1 v = len h0 v) /\
    (forall v [fep h1 v]. valid h0 v -> fep h1 v = fep h0 v) /\
    (forall v [link h1 v]. valid h0 v -> link h1 v = link h0 v) /\
    (forall j [pre h1 j]. pre h1 j = if j = length s + 1 then nw else pre h0 j) /\
    (forall d [dfind (trs h1 nw) d]. isn (tr h1 nw d)) /\
    (forall v d [dfind (trs h1 v) d]. valid h0 v -> tr h1 v d = if d = c && sfx s h0 v && len h0 v > m then some nw else tr h0 v d) /\
    (forall v [dfind (trs h0 v) c]. valid h0 v -> sfx s h0 v -> len h0 v > m -> isn (tr h0 v c))
end
module AutoNode
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use Eqw
  use Heap
  use Auto
  (* the state on the suffix chain of x that holds the word of length k *)
  let ghost unstep (s: seq int) (k a b: int)
    requires { eqw s k a b /\ k > 0 }
    ensures { eqw s (k-1) (a-1) (b-1) /\ s[a-1] = s[b-1] }
  = assert { s[a-1] = s[a-1] }
  let rec ghost function climb (s: seq int) (h: hp) (x: node) (k: int) : node
    requires { wf s h /\ valid h x /\ 0 <= k <= len h x }
    ensures { valid h result /\ mn h result <= k <= len h result }
    ensures { eqw s (len h result) (fep h result) (fep h x) }
    ensures { len h result <= len h x }
    variant { len h x }
  = if mn h x <= k then x else
    if isn (link h x) then x else climb s h (the (link h x)) k

  (* every word of s is held by a state *)
  let lemma node_of (s: seq int) (h: hp) (k a: int)
    requires { wf s h /\ 0 <= k <= a <= length s }
    ensures { let v = climb s h (pre h a) k in valid h v /\ mn h v <= k <= len h v /\ eqw s (len h v) (fep h v) a }
  = let ghost _ = climb s h (pre h a) k in ()
end

module AutoExt
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use Eqw
  use Heap
  use Auto
  use AutoNode

  (* one extension step after its walk: nw links to lk, whose longest word is
     the longest suffix of s ++ c that occurs in s *)
  predicate ctx (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int) =
    wf s h0 /\ walked s c h0 h1 nw m /\ link h1 nw = some lk /\ valid h0 lk /\ len h0 lk = m + 1 /\ 0 <= m + 1 <= length s /\
    eqw (snoc s c) (m + 1) (fep h0 lk) (length s + 1) /\
    (forall k j [eqw s k j (length s)]. eqw s k j (length s) -> j < length s -> s[j] = c -> k <= m) /\
    (forall v [mn h0 v | len h0 v]. valid h0 v -> sfx s h0 v -> len h0 v > m -> mn h0 v >= m + 1) /\
    (forall v [dfind (trs h0 v) c]. valid h0 v -> sfx s h0 v -> len h0 v <= m -> not (isn (tr h0 v c)))

  let ghost facts (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int) (v: node)
    requires { ctx s c h0 h1 nw lk m /\ valid h1 v }
    ensures { v <> nw -> mn h1 v = mn h0 v /\ 0 <= mn h0 v <= len h0 v <= length s /\ 0 <= len h0 v <= fep h0 v <= length s }
    ensures { v = nw -> mn h1 v = m + 2 /\ len h1 v = length s + 1 /\ fep h1 v = length s + 1 }
  = ()

  let lemma e1 (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int)
    requires { ctx s c h0 h1 nw lk m }
    ensures { i1 (snoc s c) h1 /\ ip (snoc s c) h1 /\ i2 (snoc s c) h1 /\ i7 (snoc s c) h1 }
  = ()
  let lemma e3 (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int) (v u: node) (d: int)
    requires { ctx s c h0 h1 nw lk m /\ valid h1 v /\ tr h1 v d = some u }
    ensures { valid h1 u /\ u <> 0 /\ (snoc s c)[fep h1 u - 1] = d /\ len h1 v + 1 <= len h1 u /\
        eqw (snoc s c) (len h1 v) (fep h1 v) (fep h1 u - 1) /\ mn h1 u <= mn h1 v + 1 }
  = facts s c h0 h1 nw lk m v;
    assert { valid h0 v };
    if pure { d = c && sfx s h0 v && len h0 v > m } then begin
      assert { u = nw };
      facts s c h0 h1 nw lk m nw;
      assert { eqw s (len h0 v) (fep h0 v) (length s) };
      assert { mn h0 v >= m + 1 }
    end else begin
      assert { tr h0 v d = some u };
      assert { valid h0 u };
      facts s c h0 h1 nw lk m u;
      assert { (snoc s c)[fep h0 u - 1] = s[fep h0 u - 1] };
      assert { eqw s (len h0 v) (fep h0 v) (fep h0 u - 1) }
    end

  let lemma e4 (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int) (v: node) (j: int)
    requires { ctx s c h0 h1 nw lk m /\ valid h1 v /\ j < length s + 1 /\ eqw (snoc s c) (len h1 v) (fep h1 v) j }
    ensures { not (isn (tr h1 v (snoc s c)[j])) }
  = facts s c h0 h1 nw lk m v;
    assert { v <> nw };
    assert { eqw s (len h0 v) (fep h0 v) j };
    if j < length s then begin
      assert { not (isn (tr h0 v s[j])) };
      assert { (snoc s c)[j] = s[j] }
    end else begin
      assert { sfx s h0 v };
      assert { (snoc s c)[j] = c }
    end

  let lemma e5 (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int) (v: node) (j: int)
    requires { ctx s c h0 h1 nw lk m /\ valid h1 v /\ eqw (snoc s c) (mn h1 v) (fep h1 v) j }
    ensures { eqw (snoc s c) (len h1 v) (fep h1 v) j }
  = facts s c h0 h1 nw lk m v;
    let s1 = snoc s c in
    if v = nw then begin
      if j < length s + 1 then begin
        unstep s1 (m + 2) (length s + 1) j;
        assert { s1[j - 1] = c };
        assert { s[j - 1] = c };
        assert { eqw s (m + 1) (length s) (j - 1) };
        assert { eqw s (m + 1) (j - 1) (length s) };
        absurd
      end
    end else if j <= length s then begin
      assert { eqw s (mn h0 v) (fep h0 v) j };
      assert { eqw s (len h0 v) (fep h0 v) j }
    end else begin
      let ghost n = length s in
      let ghost k = mn h1 v in
      if pure { k = 0 } then assert { v = 0 } else begin
      assert { eqw s1 k (fep h0 v) (n + 1) };
      unstep s1 k (fep h0 v) (n + 1);
      assert { eqw s (k - 1) (fep h0 v - 1) n };
      assert { s[fep h0 v - 1] = c };
      assert { k - 1 <= m };
      assert { eqw s1 k (fep h0 lk) (n + 1) };
      assert { eqw s1 k (fep h0 lk) (fep h0 v) };
      assert { eqw s k (fep h0 lk) (fep h0 v) };
      let ghost w = climb s h0 lk k in
      assert { eqw s k (fep h0 w) (fep h0 lk) };
      assert { eqw s k (fep h0 w) (fep h0 v) };
      assert { w = v };
      assert { eqw s (len h0 v) (fep h0 v) (fep h0 lk) };
      assert { eqw s1 (len h0 v) (fep h0 v) (fep h0 lk) };
      assert { eqw s1 (len h0 v) (fep h0 v) (n + 1) }
      end
    end

  let ghost eu (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int) (v: node) (k: int)
    requires { ctx s c h0 h1 nw lk m /\ valid h1 v /\ v <> nw }
    requires { m + 2 <= k <= length s + 1 /\ eqw (snoc s c) k (length s + 1) (fep h1 v) }
    ensures { false }
  = facts s c h0 h1 nw lk m v;
    let s1 = snoc s c in
    unstep s1 k (length s + 1) (fep h0 v);
    assert { s1[fep h0 v - 1] = c };
    assert { s[fep h0 v - 1] = c };
    assert { eqw s (k - 1) (length s) (fep h0 v - 1) };
    assert { eqw s (k - 1) (fep h0 v - 1) (length s) }

  let lemma eu2 (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int) (u v: node) (k: int)
    requires { ctx s c h0 h1 nw lk m /\ valid h1 v /\ valid h1 u }
    requires { mn h1 u <= k <= len h1 u /\ mn h1 v <= k <= len h1 v /\ eqw (snoc s c) k (fep h1 u) (fep h1 v) }
    ensures { u = v }
  = facts s c h0 h1 nw lk m v;
    facts s c h0 h1 nw lk m u;
    if u = nw then begin if v <> nw then eu s c h0 h1 nw lk m v k end
    else if v = nw then begin assert { eqw (snoc s c) k (fep h1 v) (fep h1 u) }; eu s c h0 h1 nw lk m u k end
    else begin
      assert { eqw s k (fep h0 u) (fep h0 v) }
    end

  let ghost ext (s: seq int) (c: int) (h0 h1: hp) (nw lk: node) (m: int)
    requires { ctx s c h0 h1 nw lk m }
    ensures { wf (snoc s c) h1 }
  = let ghost s1 = snoc s c in
    assert { i3 s1 h1 };
    assert { i4 s1 h1 };
    assert { i5 s1 h1 };
    assert { iu s1 h1 }
end

module AutoStop
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use Eqw
  use Heap
  use Auto
  use AutoNode
  use AutoExt

  (* an occurrence before the end of a suffix of length k of s, followed by c:
     then the walk stopped at a state that is at least that long *)
  let lemma stop (s: seq int) (c: int) (h0 h1: hp) (nw: node) (m k j: int)
    requires { wf s h0 }
    requires { walked s c h0 h1 nw m }
    requires { eqw s k j (length s) /\ j < length s /\ s[j] = c }
    ensures { k <= m }
  = if k > m then begin
      let ghost v = climb s h0 (pre h0 (length s)) k in
      assert { eqw s (len h0 v) (fep h0 v) (length s) };
      assert { sfx s h0 v };
      assert { eqw s k (fep h0 v) (length s) };
      assert { eqw s k (length s) j };
      assert { eqw s k (fep h0 v) j };
      assert { eqw s (mn h0 v) (fep h0 v) j };
      assert { eqw s (len h0 v) (fep h0 v) j };
      assert { not (isn (tr h0 v s[j])) };
      absurd
    end

  let ghost case_a (s: seq int) (c: int) (h0 h1: hp) (nw: node)
    requires { wf s h0 /\ walked s c h0 h1 nw (-1) /\ link h1 nw = some 0 }
    ensures { wf (snoc s c) h1 }
  = assert { forall k j [eqw s k j (length s)]. eqw s k j (length s) -> j < length s -> s[j] = c -> k <= -1 };
    assert { forall v [mn h0 v]. valid h0 v -> mn h0 v >= 0 };
    assert { ctx s c h0 h1 nw 0 (-1) };
    ext s c h0 h1 nw 0 (-1)

  let lemma gap (s: seq int) (h: hp) (p v: node)
    requires { wf s h /\ valid h p /\ sfx s h p /\ valid h v /\ sfx s h v }
    requires { len h v > len h p }
    ensures { mn h v >= len h p + 1 }
  = if pure { mn h v <= len h p } then begin
      assert { eqw s (len h p) (fep h v) (length s) };
      assert { eqw s (len h p) (length s) (fep h p) };
      assert { eqw s (len h p) (fep h v) (fep h p) };
      assert { mn h p <= len h p };
      assert { v = p }
    end
  let ghost low (s: seq int) (c: int) (h: hp) (p q v: node)
    requires { wf s h /\ valid h p /\ sfx s h p /\ valid h v /\ sfx s h v }
    requires { len h v <= len h p /\ tr h p c = some q }
    ensures { not (isn (tr h v c)) }
  = let ghost j = fep h q - 1 in
    assert { valid h q };
    assert { eqw s (len h p) (fep h p) j };
    assert { s[j] = c };
    assert { j < length s };
    assert { eqw s (len h p) (length s) (fep h p) };
    assert { eqw s (len h p) (length s) j };
    assert { eqw s (len h v) (fep h v) j };
    assert { not (isn (tr h v s[j])) }

  let ghost case_b (s: seq int) (c: int) (h0 h1: hp) (nw p q: node)
    requires { wf s h0 /\ valid h0 p /\ sfx s h0 p /\ walked s c h0 h1 nw (len h0 p) }
    requires { tr h0 p c = some q /\ len h0 q = len h0 p + 1 }
    requires { link h1 nw = some q }
    ensures { wf (snoc s c) h1 }
  = let ghost m = len h0 p in
    assert { forall k j [eqw s k j (length s)]. eqw s k j (length s) -> j < length s -> s[j] = c -> k <= m };
    assert { valid h0 q /\ s[fep h0 q - 1] = c };
    assert { eqw s m (fep h0 p) (fep h0 q - 1) };
    assert { eqw s m (fep h0 q - 1) (fep h0 p) };
    assert { eqw s m (fep h0 q - 1) (length s) };
    assert { (snoc s c)[fep h0 q - 1] = (snoc s c)[length s] };
    assert { eqw (snoc s c) (m + 1) (fep h0 q - 1 + 1) (length s + 1) };
    assert { ctx s c h0 h1 nw q m };
    ext s c h0 h1 nw q m
end

module AutoClone
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use Eqw
  use Heap
  use Auto
  use AutoNode
  use AutoExt
  use AutoStop

  (* the chain below p: once a transition by c no longer leads to q, none does *)
  let ghost chain_mono (s: seq int) (c: int) (h: hp) (p q v w: node)
    requires { wf s h /\ valid h p /\ sfx s h p /\ valid h v /\ sfx s h v /\ valid h w /\ sfx s h w }
    requires { len h w <= len h v <= len h p /\ tr h p c = some q /\ tr h w c = some q }
    ensures { tr h v c = some q }
  = low s c h p q v;
    let ghost r = the (tr h v c) in
    assert { tr h v c = some r };
    let ghost k = len h v in
    assert { valid h q /\ valid h r /\ k + 1 <= len h r /\ k + 1 <= len h q /\ mn h r <= k + 1 /\ mn h q <= len h w + 1 };
    assert { eqw s k (fep h v) (fep h r - 1) };
    assert { eqw s (len h p) (fep h p) (fep h q - 1) };
    assert { eqw s k (length s) (fep h p) };
    assert { eqw s k (length s) (fep h q - 1) };
    assert { eqw s k (fep h v) (fep h q - 1) };
    assert { eqw s k (fep h r - 1) (fep h v) };
    assert { eqw s k (fep h r - 1) (fep h q - 1) };
    assert { s[fep h r - 1] = s[fep h q - 1] };
    assert { eqw s (k + 1) (fep h r - 1 + 1) (fep h q - 1 + 1) };
    assert { r = q }

  (* a state whose transition by c leads to q and that is no longer than p is
     on the chain of p *)
  let ghost chain_all (s: seq int) (c: int) (h: hp) (p q v: node)
    requires { wf s h /\ valid h p /\ sfx s h p /\ valid h v }
    requires { len h v <= len h p /\ tr h p c = some q /\ tr h v c = some q }
    ensures { sfx s h v }
  = assert { valid h q };
    assert { eqw s (len h p) (fep h p) (fep h q - 1) };
    assert { eqw s (len h v) (fep h v) (fep h q - 1) };
    assert { eqw s (len h p) (fep h q - 1) (fep h p) };
    assert { eqw s (len h v) (fep h v) (fep h p) };
    assert { eqw s (len h v) (fep h v) (length s) }

  (* and a state that is longer: its shortest word is longer than p *)
  let ghost chain_gap (s: seq int) (c: int) (h: hp) (p q v: node)
    requires { wf s h /\ valid h p /\ sfx s h p /\ valid h v }
    requires { len h v > len h p /\ tr h p c = some q /\ tr h v c = some q }
    ensures { mn h v >= len h p + 1 }
  = if pure { mn h v <= len h p } then begin
      assert { valid h q };
      assert { eqw s (len h p) (fep h p) (fep h q - 1) };
      assert { eqw s (len h v) (fep h v) (fep h q - 1) };
      assert { eqw s (len h p) (fep h v) (fep h q - 1) };
      assert { eqw s (len h p) (fep h q - 1) (fep h p) };
      assert { eqw s (len h p) (fep h v) (fep h p) };
      assert { mn h p <= len h p };
      assert { v = p }
    end

  predicate half (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) (m: int) =
    not (valid h1 cl) /\ (forall v [valid h2 v]. valid h2 v <-> valid h1 v \/ v = cl) /\
    len h2 cl = len h1 p + 1 /\ fep h2 cl = fep h1 q /\ link h2 cl = link h1 q /\
    (forall d [dfind (trs h2 cl) d]. tr h2 cl d = tr h1 q d) /\
    (forall v [len h2 v]. valid h1 v -> len h2 v = len h1 v) /\
    (forall v [fep h2 v]. valid h1 v -> fep h2 v = fep h1 v) /\
    (forall v [link h2 v]. valid h1 v -> v <> nw -> link h2 v = if v = q then some cl else link h1 v) /\
    (forall j [pre h2 j]. pre h2 j = pre h1 j) /\
    (forall v d [dfind (trs h2 v) d]. valid h1 v -> tr h2 v d =
       if d = c && sfx s h0 v && m < len h0 v <= len h0 p && tr h1 v c = some q then some cl else tr h1 v d)
  predicate cloned (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) = half s c h0 h1 h2 nw p q cl (-1)

  (* below a state of the chain that does not lead to q, no state does *)
  let ghost chain_stop (s: seq int) (c: int) (h: hp) (p q v: node)
    requires { wf s h /\ valid h p /\ sfx s h p /\ valid h v /\ sfx s h v /\ len h v <= len h p }
    requires { tr h p c = some q /\ tr h v c <> some q }
    ensures { forall w [dfind (trs h w) c]. valid h w -> sfx s h w -> len h w <= len h v -> tr h w c <> some q }
  = let lemma one (w: node)
      requires { valid h w /\ sfx s h w /\ len h w <= len h v /\ tr h w c = some q }
      ensures { false }
    = chain_mono s c h p q v w
    in ()

  (* the next state of the suffix chain *)
  let ghost chain_next (s: seq int) (h: hp) (v: node)
    requires { wf s h /\ valid h v /\ sfx s h v }
    ensures { isn (link h v) -> v = 0 }
    ensures { not (isn (link h v)) -> let p = the (link h v) in valid h p /\ sfx s h p /\ 0 <= len h p < len h v }
    ensures { forall w [len h w]. valid h w -> sfx s h w -> len h w <= len h v -> (if isn (link h v) then true else len h w > len h (the (link h v))) -> w = v }
  = assert { not (isn (link h v)) -> let p = the (link h v) in eqw s (len h p) (fep h p) (fep h v) };
    let lemma one (w: node)
      requires { valid h w /\ sfx s h w /\ len h w <= len h v /\ (if isn (link h v) then true else len h w > len h (the (link h v))) }
      ensures { w = v }
    = assert { mn h w <= len h w /\ mn h v <= len h w };
      assert { eqw s (len h w) (length s) (fep h v) };
      assert { eqw s (len h w) (fep h w) (fep h v) }
    in ()

  predicate cctx (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) =
    wf s h0 /\ walked s c h0 h1 nw (len h0 p) /\ valid h0 p /\ sfx s h0 p /\ tr h0 p c = some q /\ len h0 q > len h0 p + 1 /\
    cloned s c h0 h1 h2 nw p q cl

  let ghost cfacts (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) (v: node)
    requires { cctx s c h0 h1 h2 nw p q cl /\ valid (drop h2 nw) v }
    ensures { valid h0 q /\ cl <> q /\ nw <> q /\ nw <> cl /\ cl <> 0 }
    ensures { valid h0 v \/ v = cl }
    ensures { v <> cl -> len (drop h2 nw) v = len h0 v /\ fep (drop h2 nw) v = fep h0 v }
    ensures { v = cl -> len (drop h2 nw) v = len h0 p + 1 /\ fep (drop h2 nw) v = fep h0 q /\ link (drop h2 nw) v = link h0 q /\ mn (drop h2 nw) v = mn h0 q }
    ensures { v = q -> link (drop h2 nw) v = some cl /\ mn (drop h2 nw) v = len h0 p + 2 }
    ensures { v <> cl -> v <> q -> link (drop h2 nw) v = link h0 v /\ mn (drop h2 nw) v = mn h0 v }
    ensures { mn h0 q <= len h0 p + 1 }
    ensures { v <> cl -> 0 <= mn h0 v <= len h0 v <= length s /\ 0 <= len h0 v <= fep h0 v <= length s }
  = assert { valid h0 q }

  let ghost ctrs (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) (v: node) (d: int)
    requires { cctx s c h0 h1 h2 nw p q cl /\ valid (drop h2 nw) v }
    ensures { v = cl -> tr (drop h2 nw) v d = tr h0 q d }
    ensures { v <> cl -> tr (drop h2 nw) v d = if d = c && len h0 v <= len h0 p && tr h0 v c = some q then some cl else tr h0 v d }
    ensures { v <> cl -> d = c -> len h0 v <= len h0 p -> tr h0 v c = some q -> sfx s h0 v }
  = cfacts s c h0 h1 h2 nw p q cl v;
    if v = cl then begin
      assert { tr h2 v d = tr h1 q d };
      assert { tr h1 q d = tr h0 q d \/ tr h1 q d = some nw };
      assert { tr h0 q d <> some nw }
    end else begin
      assert { valid h0 v };
      if pure { d = c && len h0 v <= len h0 p && tr h0 v c = some q } then begin
        chain_all s c h0 p q v;
        assert { tr h1 v c = some q };
        assert { tr h2 v c = some cl }
      end else begin
        assert { tr h0 v d <> some nw };
        assert { tr h1 v d = tr h0 v d \/ (tr h1 v d = some nw /\ isn (tr h0 v d)) }
      end
    end

  let ghost c1 (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node)
    requires { cctx s c h0 h1 h2 nw p q cl }
    ensures { i1 s (drop h2 nw) }
    ensures { ip s (drop h2 nw) }
  = let ghost hd = drop h2 nw in
    assert { valid h0 0 /\ valid hd 0 };
    cfacts s c h0 h1 h2 nw p q cl 0;
    assert { forall v [link hd v]. valid hd v -> v <> 0 -> not (isn (link hd v)) /\ let p = the (link hd v) in valid hd p /\ 0 <= len hd p < len hd v <= fep hd v <= length s };
    assert { forall j [pre hd j]. 0 <= j <= length s -> pre hd j = pre h0 j }

  let ghost c27 (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node)
    requires { cctx s c h0 h1 h2 nw p q cl }
    ensures { i2 s (drop h2 nw) }
    ensures { i7 s (drop h2 nw) }
  = let ghost hd = drop h2 nw in
    assert { forall v [link hd v]. valid hd v -> isn (link hd v) \/ let p = the (link hd v) in eqw s (len hd p) (fep hd p) (fep hd v) };
    assert { forall v j [eqw s (len hd v) (fep hd v) j]. valid hd v -> eqw s (len hd v) (fep hd v) j -> v <> cl -> fep hd v <= j };
    assert { forall j. eqw s (len h0 p + 1) (fep h0 q) j -> eqw s (mn h0 q) (fep h0 q) j }

  let lemma c3 (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) (v u: node) (d: int)
    requires { cctx s c h0 h1 h2 nw p q cl /\ valid (drop h2 nw) v /\ tr (drop h2 nw) v d = some u }
    ensures { valid (drop h2 nw) u /\ u <> 0 }
    ensures { s[fep (drop h2 nw) u - 1] = d }
    ensures { len (drop h2 nw) v + 1 <= len (drop h2 nw) u }
    ensures { eqw s (len (drop h2 nw) v) (fep (drop h2 nw) v) (fep (drop h2 nw) u - 1) }
    ensures { mn (drop h2 nw) u <= mn (drop h2 nw) v + 1 }
  = let ghost hd = drop h2 nw in
    cfacts s c h0 h1 h2 nw p q cl v;
    ctrs s c h0 h1 h2 nw p q cl v d;
    if v = cl then begin
      assert { tr h0 q d = some u };
      assert { valid h0 u };
      cfacts s c h0 h1 h2 nw p q cl u;
      assert { u <> q };
      assert { s[fep h0 u - 1] = d };
      assert { eqw s (len h0 q) (fep h0 q) (fep h0 u - 1) }
    end else if pure { d = c && len h0 v <= len h0 p && tr h0 v c = some q } then begin
      assert { u = cl };
      cfacts s c h0 h1 h2 nw p q cl u;
      assert { s[fep h0 q - 1] = c };
      assert { fep hd u = fep h0 q };
      assert { eqw s (len h0 v) (fep h0 v) (fep h0 q - 1) };
      assert { v <> q }
    end else begin
      assert { tr h0 v d = some u };
      assert { valid h0 u };
      cfacts s c h0 h1 h2 nw p q cl u;
      assert { s[fep h0 u - 1] = d };
      assert { eqw s (len h0 v) (fep h0 v) (fep h0 u - 1) };
      if u = q then begin
        assert { s[fep h0 q - 1] = c };
        assert { d = c };
        assert { len h0 v > len h0 p };
        chain_gap s c h0 p q v;
        assert { v <> q };
        assert { mn hd u <= mn hd v + 1 }
      end;
      assert { u <> cl /\ v <> cl };
      assert { fep hd u = fep h0 u /\ fep hd v = fep h0 v /\ len hd v = len h0 v /\ len hd u = len h0 u };
      assert { mn hd u <= mn hd v + 1 }
    end

  let lemma c4 (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) (v: node) (j: int)
    requires { cctx s c h0 h1 h2 nw p q cl /\ valid (drop h2 nw) v }
    requires { let h = drop h2 nw in j < length s /\ eqw s (len h v) (fep h v) j }
    ensures { let h = drop h2 nw in not (isn (tr h v s[j])) }
  = cfacts s c h0 h1 h2 nw p q cl v;
    ctrs s c h0 h1 h2 nw p q cl v s[j];
    if v = cl then begin
      assert { eqw s (mn h0 q) (fep h0 q) j };
      assert { eqw s (len h0 q) (fep h0 q) j }
    end else
      assert { eqw s (len h0 v) (fep h0 v) j }

  let lemma c5 (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) (v: node) (j: int)
    requires { cctx s c h0 h1 h2 nw p q cl /\ valid (drop h2 nw) v }
    requires { let h = drop h2 nw in eqw s (mn h v) (fep h v) j }
    ensures { let h = drop h2 nw in eqw s (len h v) (fep h v) j }
  = cfacts s c h0 h1 h2 nw p q cl v;
    if v = cl || v = q then begin
      assert { eqw s (mn h0 q) (fep h0 q) j };
      assert { eqw s (len h0 q) (fep h0 q) j }
    end else
      assert { eqw s (mn h0 v) (fep h0 v) j }

  let lemma cu (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node) (u v: node) (k: int)
    requires { cctx s c h0 h1 h2 nw p q cl /\ valid (drop h2 nw) v /\ valid (drop h2 nw) u }
    requires { let h = drop h2 nw in mn h u <= k <= len h u /\ mn h v <= k <= len h v /\ eqw s k (fep h u) (fep h v) }
    ensures { u = v }
  = cfacts s c h0 h1 h2 nw p q cl v;
    cfacts s c h0 h1 h2 nw p q cl u;
    let ghost u0 = if u = cl then q else u in
    let ghost v0 = if v = cl then q else v in
    assert { mn h0 u0 <= k <= len h0 u0 /\ mn h0 v0 <= k <= len h0 v0 /\ eqw s k (fep h0 u0) (fep h0 v0) };
    assert { u0 = v0 }

  let ghost cwf (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node)
    requires { cctx s c h0 h1 h2 nw p q cl }
    ensures { wf s (drop h2 nw) }
  = let ghost hd = drop h2 nw in
    c1 s c h0 h1 h2 nw p q cl; c27 s c h0 h1 h2 nw p q cl;
    assert { i3 s hd };
    assert { i4 s hd };
    assert { i5 s hd };
    assert { iu s hd }

  let ghost cwalked (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node)
    requires { cctx s c h0 h1 h2 nw p q cl }
    ensures { walked s c (drop h2 nw) h2 nw (len h0 p) }
  = let ghost hd = drop h2 nw in
    let ghost n = length s in
    assert { not (valid hd nw) };
    assert { valid h1 nw };
    assert { forall v [valid h2 v]. valid h2 v <-> valid hd v \/ v = nw };
    assert { forall v [sfx s hd v]. valid hd v -> v <> cl -> (sfx s hd v <-> sfx s h0 v) };
    assert { valid h0 q /\ mn h0 q <= len h0 p + 1 };
    assert { sfx s hd cl -> eqw s (mn h0 q) (fep h0 q) n };
    assert { sfx s hd cl <-> sfx s h0 q };
    assert { forall d [dfind (trs h2 nw) d]. isn (tr h2 nw d) };
    assert { forall d [dfind (trs h2 cl) d]. tr h2 cl d = tr h1 q d };
    assert { forall d [dfind (trs h2 cl) d]. tr h2 cl d = if d = c && sfx s hd cl && len hd cl > len h0 p then some nw else tr hd cl d };
    assert { forall v d [dfind (trs h2 v) d]. valid h0 v -> tr h2 v d = if d = c && sfx s hd v && len hd v > len h0 p then some nw else tr hd v d };
    assert { forall v d [dfind (trs h2 v) d]. valid hd v -> tr h2 v d = if d = c && sfx s hd v && len hd v > len h0 p then some nw else tr hd v d };
    assert { forall v [dfind (trs hd v) c]. valid h0 v -> sfx s hd v -> len hd v > len h0 p -> isn (tr hd v c) };
    assert { forall v [dfind (trs hd v) c]. valid hd v -> sfx s hd v -> len hd v > len h0 p -> isn (tr hd v c) }

  let ghost case_c (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl: node)
    requires { cctx s c h0 h1 h2 nw p q cl /\ link h2 nw = some cl }
    ensures { wf (snoc s c) h2 }
  = let ghost hd = drop h2 nw in
    cwf s c h0 h1 h2 nw p q cl;
    cwalked s c h0 h1 h2 nw p q cl;
    ctrs s c h0 h1 h2 nw p q cl p c;
    cfacts s c h0 h1 h2 nw p q cl p;
    cfacts s c h0 h1 h2 nw p q cl cl;
    assert { valid hd p /\ sfx s hd p /\ len hd p = len h0 p };
    assert { tr hd p c = some cl /\ len hd cl = len hd p + 1 };
    case_b s c hd h2 nw p cl
  (* one round of the second walk *)
  let ghost redirect (s: seq int) (c: int) (h0 h1 h2: hp) (nw p q cl v: node)
    requires { wf s h0 /\ valid h0 p /\ valid h0 v /\ sfx s h0 v /\ len h0 v <= len h0 p }
    requires { walked s c h0 h1 nw (len h0 p) }
    requires { half s c h0 h1 h2 nw p q cl (len h0 v) /\ tr h2 v c = some q /\ q <> cl }
    ensures { half s c h0 h1 (set_trs h2 v (dset (trs h2 v) c cl)) nw p q cl (if isn (link h0 v) then -1 else len h0 (the (link h0 v))) }
  = chain_next s h0 v;
    let h3 = pure { set_trs h2 v (dset (trs h2 v) c cl) } in
    let m = pure { if isn (link h0 v) then -1 else len h0 (the (link h0 v)) } in
    assert { tr h1 v c = some q };
    assert { forall d. tr h3 v d = if d = c then some cl else tr h1 v d };
    assert { forall w d [dfind (trs h3 w) d]. valid h1 w -> tr h3 w d =
       if d = c && sfx s h0 w && m < len h0 w <= len h0 p && tr h1 w c = some q then some cl else tr h1 w d }

end

(* the program's heap and the operations on node attributes *)
module AutoProg
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use Heap

  type heap = { mutable hs: hp; mutable nodes: seq int; mutable str: seq int; mutable base: hp; mutable nwn: int; mutable ids: int }
  val h : heap
  val obj_get_length (v: node) : int
    requires { [@expl:object exists] valid h.hs v }
    ensures { result = len h.hs v }
  val obj_set_length (v: node) (x: int) : unit
    requires { [@expl:object exists] valid h.hs v }
    writes { h.hs }
    ensures { h.hs = set_len (old h.hs) v x }
  val obj_get_first_endpos (v: node) : int
    requires { [@expl:object exists] valid h.hs v }
    ensures { result = fep h.hs v }
  val obj_set_first_endpos (v: node) (x: int) : unit
    requires { [@expl:object exists] valid h.hs v }
    writes { h.hs }
    ensures { h.hs = set_fep (old h.hs) v x }
  val obj_get_link (v: node) : opt node
    requires { [@expl:object exists] valid h.hs v }
    ensures { result = link h.hs v }
  val obj_set_link (v: node) (x: opt node) : unit
    requires { [@expl:object exists] valid h.hs v }
    writes { h.hs }
    ensures { h.hs = set_link (old h.hs) v x }
  val obj_get_transitions (v: node) : dict int node
    requires { [@expl:object exists] valid h.hs v }
    ensures { result = trs h.hs v }
  val obj_set_transitions (v: node) (x: dict int node) : unit
    requires { [@expl:object exists] valid h.hs v }
    writes { h.hs }
    ensures { h.hs = set_trs (old h.hs) v x }
  val obj_get_is_terminal (v: node) : bool
    requires { [@expl:object exists] valid h.hs v }
    ensures { result = term h.hs v }
  val obj_set_is_terminal (v: node) (x: bool) : unit
    requires { [@expl:object exists] valid h.hs v }
    writes { h.hs }
    ensures { h.hs = set_term (old h.hs) v x }
  val obj_get_reverse_links (v: node) : seq node
    requires { [@expl:object exists] valid h.hs v }
    ensures { result = rev h.hs v }
  val obj_set_reverse_links (v: node) (x: seq node) : unit
    requires { [@expl:object exists] valid h.hs v }
    writes { h.hs }
    ensures { h.hs = set_rev (old h.hs) v x }
  val obj_get_id (v: node) : int
    requires { [@expl:object exists] valid h.hs v }
    ensures { result = v }
  val ghost_set_pre (i: int) (v: node) : unit
    writes { h.hs }
    ensures { h.hs = set_pre (old h.hs) i v }

  predicate full (x: hp) = alloc x >= 0 /\ forall v [valid x v]. valid x v <-> 0 <= v < alloc x
  predicate bare (x: hp) = (forall v [term x v]. valid x v -> not (term x v)) /\ (forall v [rev x v]. valid x v -> rev x v = empty)
  predicate listed (x: hp) (l: seq int) = length l = alloc x /\ forall i [l[i]]. 0 <= i < alloc x -> l[i] = i
  predicate sound (x: hp) (l: seq int) = full x /\ bare x /\ listed x l

  (* x1 is x0 with one more node v *)
  predicate created (x0 x1: hp) (v: node) (l f: int) (k: opt node) (t: dict int node) =
    v = alloc x0 /\ alloc x1 = v + 1 /\
    (forall u [valid x1 u]. valid x1 u <-> valid x0 u \/ u = v) /\
    (forall j [pre x1 j]. pre x1 j = pre x0 j) /\
    (forall u [len x1 u]. len x1 u = if u = v then l else len x0 u) /\
    (forall u [fep x1 u]. fep x1 u = if u = v then f else fep x0 u) /\
    (forall u [link x1 u]. link x1 u = if u = v then k else link x0 u) /\
    (forall u [trs x1 u]. trs x1 u = if u = v then t else trs x0 u) /\
    (forall u [term x1 u]. term x1 u <-> if u = v then false else term x0 u) /\
    (forall u [rev x1 u]. rev x1 u = if u = v then empty else rev x0 u)
end

(* matching a query t against the automaton of s *)
module Com
  use int.Int
  use sq.Sq
  use Eqw
  (* the words of length k ending at e in s and at f in t exist and are equal *)
  predicate com (s t: seq int) (k e f: int)
  axiom com_dom: forall s t k e f [com s t k e f]. com s t k e f -> 0 <= k <= e <= length s /\ k <= f <= length t
  axiom com_zero: forall s t e f [com s t 0 e f]. 0 <= e <= length s -> 0 <= f <= length t -> com s t 0 e f
  axiom com_mono: forall s t k l e f [com s t k e f, com s t l e f]. com s t k e f -> 0 <= l <= k -> com s t l e f
  axiom com_step: forall s t k e f [com s t k e f, s[e], t[f]]. com s t k e f -> e < length s -> f < length t -> s[e] = t[f] ->
     com s t (k+1) (e+1) (f+1)
  axiom com_eqw: forall s t k e f j [com s t k e f, eqw s k e j]. com s t k e f -> eqw s k e j -> com s t k j f
  axiom eqw_com: forall s t k e f j [com s t k e f, com s t k j f]. com s t k e f -> com s t k j f -> eqw s k e j
  predicate com_cut (s t: seq int) (k e f d: int) = com s t (k-d) (e-d) (f-d)
  axiom com_cutting: forall s t k e f d [com_cut s t k e f d]. com s t k e f -> 0 <= d <= k -> com_cut s t k e f d
  predicate com_end (s t: seq int) (k e f: int) = s[e-1] = t[f-1]
  axiom com_last: forall s t k e f [com_end s t k e f]. com s t k e f -> k > 0 -> com_end s t k e f
  axiom com_word: forall s t k e f. com s t k e f <-> 0 <= k <= e <= length s /\ k <= f <= length t /\ s[e-k..e] = t[f-k..f]
end
module ComReal
  use int.Int
  use sq.Sq
  use Eqw
  predicate com (s t: seq int) (k e f: int) =
    0 <= k <= e <= length s /\ k <= f <= length t /\ forall i [s[i]]. e - k <= i < e -> s[i] = t[i + (f - e)]
  lemma com_ji: forall s t k e f j. com s t k e f -> com s t k j f -> forall i. e - k <= i < e -> s[i] = s[i + (j - e)]
  lemma com_eqwd: forall s t k e f j. com s t k e f -> com s t k j f -> eqwd s k e j
  let lemma eqwd_com (s t: seq int) (k e f j i: int)
    requires { com s t k e f /\ eqwd s k e j /\ j - k <= i < j }
    ensures { s[i] = t[i + (f - j)] }
  = let l = i - (j - e) in
    assert { s[l] = s[l + (j - e)] };
    assert { s[l] = t[l + (f - e)] }
  lemma eqw_eqwd: forall s k e j [eqw s k e j]. eqw s k e j -> eqwd s k e j
  lemma word_get: forall s t: seq int, k e f. 0 <= k <= e <= length s -> k <= f <= length t -> s[e-k..e] = t[f-k..f] ->
    forall i. e - k <= i < e -> s[e-k..e][i - (e-k)] = s[i] /\ t[f-k..f][i - (e-k)] = t[i + (f - e)]
  lemma get_word: forall s t: seq int, k e f. com s t k e f -> forall i. 0 <= i < k -> s[e-k..e][i] = t[f-k..f][i]
  lemma word_ext: forall s t: seq int, k e f. com s t k e f -> s[e-k..e] == t[f-k..f]
  clone Com with predicate com = com
end

module Lcs
  use int.Int
  use sq.Sq
  use Com
  (* longest common substring: first in t, then first in s *)
  predicate lcs (s t: seq int) (a b k: int) =
    0 <= k /\ (k = 0 -> a = 0 /\ b = 0) /\
    com s t k (a + k) (b + k) /\
    (forall l e f [com s t l e f]. com s t l e f -> l <= k) /\
    (k > 0 -> forall e f [com s t k e f]. com s t k e f -> b + k <= f) /\
    (k > 0 -> forall e [com s t k e (b + k)]. com s t k e (b + k) -> a + k <= e)
end
module Desc
  use int.Int
  use sq.Sq
  use opt.Opt
  use mem.Mem
  use Eqw
  use Heap
  (* x is on a suffix chain that leads to a: every occurrence of the words of a
     that ends at fep x *)
  predicate desc (s: seq int) (h: hp) (a x: node) =
    valid h a /\ valid h x /\ len h a <= len h x /\ eqw s (len h a) (fep h a) (fep h x)
end
module Reach
  use int.Int
  use sq.Sq
  use opt.Opt
  use mem.Mem
  use Eqw
  use Heap
  use Desc
  (* some node of the list leads to x *)
  predicate reach (s: seq int) (h: hp) (l: seq node) (x: node)
  function reacher (s: seq int) (h: hp) (l: seq node) (x: node) : node
  axiom reach_mem: forall s h l x [reach s h l x]. reach s h l x -> mem (reacher s h l x) l /\ desc s h (reacher s h l x) x
  axiom mem_reach: forall s h l x y [desc s h y x, mem y l]. mem y l -> desc s h y x -> reach s h l x
end
module ReachReal
  use int.Int
  use sq.Sq
  use opt.Opt
  use mem.Mem
  use Eqw
  use Heap
  use Desc
  let rec ghost function reacher (s: seq int) (h: hp) (l: seq node) (x: node) : node
    ensures { (desc s h result x /\ mem result l) \/ forall y. mem y l -> not (desc s h y x) }
    variant { length l }
  = if length l = 0 then -1 else
    let ghost y = pure { l[length l - 1] } in
    let ghost l1 = pure { l[..length l - 1] } in
    assert { l == snoc l1 y };
    if pure { desc s h y x } then y else reacher s h l1 x
  predicate reach (s: seq int) (h: hp) (l: seq node) (x: node) = mem (reacher s h l x) l /\ desc s h (reacher s h l x) x
  clone Reach with predicate reach = reach, function reacher = reacher
end

(* how many nodes a walk over the reverse links meets *)
module Weigh
  use int.Int
  use sq.Sq
  use Heap
  function wt (h: hp) (n: int) (x: node) : int
  function wl (h: hp) (n: int) (l: seq node) : int
  axiom wl_empty: forall h n. wl h n empty = 0
  axiom wl_snoc: forall h n l x [wl h n (snoc l x)]. wl h n (snoc l x) = wl h n l + wt h n x
  axiom wl_pos: forall h n l [wl h n l]. wl h n l >= 0
  axiom wt_rev: forall h n x [wt h n x]. len h x <= n -> (forall i [(rev h x)[i]]. 0 <= i < length (rev h x) -> len h x < len h (rev h x)[i]) ->
    wt h n x = 1 + wl h n (rev h x)
end
module WeighReal
  use int.Int
  use sq.Sq
  use Heap
  let rec ghost function wt (h: hp) (n: int) (x: node) : int
    ensures { result >= 1 }
    variant { (if len h x > n then 0 else n - len h x + 1), 0 }
  = if pure { len h x > n } then 1 else 1 + over h n (pure { len h x }) (pure { rev h x })
  with ghost function over (h: hp) (n m: int) (l: seq node) : int
    ensures { result >= 0 }
    variant { (if m > n then 0 else n - m), 1 + length l }
  = if pure { length l = 0 || m > n } then 0 else
      over h n m (pure { l[..length l - 1] }) + (if pure { len h l[length l - 1] > m } then wt h n (pure { l[length l - 1] }) else 0)
  let rec ghost function wl (h: hp) (n: int) (l: seq node) : int
    ensures { result >= 0 }
    variant { length l }
  = if pure { length l = 0 } then 0 else wl h n (pure { l[..length l - 1] }) + wt h n (pure { l[length l - 1] })
  lemma front: forall l, x: node. (snoc l x)[..length (snoc l x) - 1] = l
  let rec lemma all_over (h: hp) (n m: int) (l: seq node)
    requires { m <= n /\ forall i [l[i]]. 0 <= i < length l -> m < len h l[i] }
    ensures { over h n m l = wl h n l }
    variant { length l }
  = if pure { length l > 0 } then all_over h n m (pure { l[..length l - 1] })
  clone Weigh with function wt = wt, function wl = wl
end

(* reading a query through the automaton *)
module AutoSearch
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use mem.Mem
  use Eqw
  use Com
  use Heap
  use Auto
  use AutoNode
  use Desc
  use Reach
  use Weigh
  use Lcs

  (* state v holds the word of length m that ends at f in t *)
  predicate held (s: seq int) (h: hp) (t: seq int) (v: node) (m f: int) =
    valid h v /\ mn h v <= m <= len h v /\ com s t m (fep h v) f
  (* t occurs in s at position x *)
  predicate occ (s t: seq int) (x: int) = com s t (length t) (x + length t) (length t)
  (* no word of t that ends before f + 1 and reaches back further than k is in s *)
  predicate longest (s t: seq int) (k f: int) = forall l e [com s t l e f]. com s t l e f -> l <= k

  let ghost uncom (s t: seq int) (k e f: int)
    requires { com s t k e f /\ k > 0 }
    ensures { com s t (k-1) (e-1) (f-1) /\ s[e-1] = t[f-1] }
  = assert { com_cut s t k e f 1 };
    assert { com_end s t k e f }

  let ghost prefix (s t: seq int) (e k: int)
    requires { com s t (length t) e (length t) /\ 0 <= k <= length t }
    ensures { com s t k (e - (length t - k)) k }
  = assert { com_cut s t (length t) e (length t) (length t - k) }

  let ghost begin_at (s: seq int) (h: hp) (t: seq int) (f: int)
    requires { wf s h /\ 0 <= f <= length t }
    ensures { held s h t 0 0 f }
    ensures { mn h 0 = 0 }
  = ()

  let ghost advance (s: seq int) (h: hp) (t: seq int) (v u: node) (m f: int)
    requires { wf s h /\ held s h t v m f /\ 0 <= f < length t /\ tr h v t[f] = some u }
    ensures { held s h t u (m + 1) (f + 1) }
  = assert { valid h u /\ s[fep h u - 1] = t[f] };
    assert { eqw s (len h v) (fep h v) (fep h u - 1) };
    assert { eqw s m (fep h v) (fep h u - 1) };
    assert { com s t m (fep h u - 1) f };
    assert { com s t (m + 1) (fep h u - 1 + 1) (f + 1) }

  let ghost stuck (s: seq int) (h: hp) (t: seq int) (v: node) (m f: int)
    requires { wf s h /\ held s h t v m f /\ 0 <= f < length t /\ isn (tr h v t[f]) }
    requires { longest s t (m + 1) (f + 1) }
    ensures { longest s t (mn h v) (f + 1) }
  = let lemma one (k e: int)
      requires { com s t k e (f + 1) }
      ensures { k <= mn h v }
    = if pure { k > mn h v } then begin
        uncom s t k e (f + 1);
        assert { com s t (k - 1) (fep h v) f };
        assert { eqw s (k - 1) (fep h v) (e - 1) };
        assert { eqw s (mn h v) (fep h v) (e - 1) };
        assert { eqw s (len h v) (fep h v) (e - 1) };
        assert { not (isn (tr h v s[e - 1])) };
        absurd
      end
    in ()

  let ghost next_longest (s t: seq int) (m f: int)
    requires { longest s t m f /\ m >= 0 }
    ensures { longest s t (m + 1) (f + 1) }
  = let lemma one (k e: int)
      requires { com s t k e (f + 1) }
      ensures { k <= m + 1 }
    = if k > 0 then uncom s t k e (f + 1)
    in ()

  let ghost mismatch (s: seq int) (h: hp) (t: seq int) (v: node) (k: int)
    requires { wf s h /\ held s h t v k k /\ k < length t /\ isn (tr h v t[k]) }
    ensures { forall e [com s t (length t) e (length t)]. not (com s t (length t) e (length t)) }
  = assert { longest s t (k + 1) (k + 1) };
    stuck s h t v k k;
    let lemma one (e: int)
      requires { com s t (length t) e (length t) }
      ensures { false }
    = prefix s t e (k + 1)
    in ()

  let ghost drop_to (s: seq int) (h: hp) (t: seq int) (v: node) (m f: int)
    requires { wf s h /\ held s h t v m f /\ not (isn (link h v)) }
    ensures { let p = the (link h v) in held s h t p (len h p) f /\ len h p < len h v /\ mn h v = len h p + 1 }
  = let ghost p = the (link h v) in
    assert { v <> 0 /\ valid h p };
    assert { eqw s (len h p) (fep h p) (fep h v) };
    assert { eqw s (len h p) (fep h v) (fep h p) };
    assert { com s t (len h p) (fep h v) f }

  let ghost first_occ (s: seq int) (h: hp) (t: seq int) (v: node) (m f: int)
    requires { wf s h /\ held s h t v m f }
    ensures { forall e [com s t m e f]. com s t m e f -> fep h v <= e }
    ensures { forall e [com s t m e f]. com s t m e f <-> eqw s (len h v) (fep h v) e }
  = let lemma one (e: int)
      requires { com s t m e f }
      ensures { fep h v <= e }
      ensures { eqw s (len h v) (fep h v) e }
    = assert { eqw s m (fep h v) e };
      assert { eqw s (mn h v) (fep h v) e };
      assert { eqw s (len h v) (fep h v) e }
    in ()

  predicate linked (h: hp) =
    forall v x [mem x (rev h v)]. valid h v -> (mem x (rev h v) <-> valid h x /\ link h x = some v)
  predicate marked (s: seq int) (h: hp) = forall v [term h v]. valid h v -> (term h v <-> sfx s h v)

  let ghost weighed (s: seq int) (h: hp) (y: node)
    requires { wf s h /\ linked h /\ valid h y }
    ensures { wt h (length s) y = 1 + wl h (length s) (rev h y) }
  = assert { forall i [(rev h y)[i]]. 0 <= i < length (rev h y) -> mem (rev h y)[i] (rev h y) /\ valid h (rev h y)[i] /\ (rev h y)[i] <> 0 /\ len h y < len h (rev h y)[i] };
    assert { y = 0 \/ (not (isn (link h y)) /\ len h y <= fep h y <= length s) };
    assert { len h y <= length s };
    assert { wt h (length s) y = 1 + wl h (length s) (rev h y) }
  let ghost child_desc (s: seq int) (h: hp) (a y z: node)
    requires { wf s h /\ desc s h a y /\ valid h z /\ link h z = some y }
    ensures { desc s h a z }
  = assert { z <> 0 };
    assert { eqw s (len h y) (fep h y) (fep h z) };
    assert { eqw s (len h a) (fep h a) (fep h z) }

  let rec ghost function under (s: seq int) (h: hp) (y x: node) : node
    requires { wf s h /\ desc s h y x /\ x <> y }
    ensures { valid h result /\ link h result = some y /\ desc s h result x }
    variant { len h x }
  = assert { x = 0 -> len h y = 0 };
    assert { x = 0 -> mn h y = 0 };
    assert { x = 0 -> eqw s 0 (fep h x) (fep h y) };
    assert { x <> 0 };
    let ghost p = the (link h x) in
    assert { valid h p /\ len h p < len h x };
    assert { eqw s (len h p) (fep h p) (fep h x) };
    assert { eqw s (len h p) (fep h x) (fep h p) };
    if p = y then begin assert { link h x = some y }; assert { eqw s (len h x) (fep h x) (fep h x) }; x end
    else begin
      if pure { len h y > len h p } then begin
        assert { mn h x <= len h y };
        assert { mn h y <= len h y };
        assert { eqw s (len h y) (fep h y) (fep h x) };
        absurd
      end;
      assert { eqw s (len h y) (fep h x) (fep h p) };
      assert { desc s h y p };
      let ghost r = under s h y p in
      assert { eqw s (len h r) (fep h r) (fep h p) };
      assert { eqw s (len h r) (fep h p) (fep h x) };
      r
    end

  let ghost popped (s: seq int) (h: hp) (l: seq node) (y: node)
    requires { wf s h /\ linked h }
    ensures { forall x [reach s h (snoc l y) x]. reach s h (snoc l y) x -> x = y \/ reach s h l x \/ reach s h (rev h y) x }
  = let lemma one (x: node)
      requires { reach s h (snoc l y) x }
      ensures { x = y \/ reach s h l x \/ reach s h (rev h y) x }
    = let ghost r = reacher s h (snoc l y) x in
      assert { mem r (snoc l y) };
      if r = y && x <> y then begin
        let ghost z = under s h y x in
        assert { mem z (rev h y) }
      end
    in ()

  (* a list of nodes that holds exactly the descendants of v *)
  predicate all_of (s: seq int) (h: hp) (v: node) (l: seq node) = forall x [mem x l | desc s h v x]. mem x l <-> desc s h v x

  (* the words of v occur at x + n *)
  predicate ends_at (s: seq int) (h: hp) (v: node) (n x: int) = eqw s (len h v) (fep h v) (x + n)
  let ghost starts (s: seq int) (h: hp) (v: node) (n: int) (l: seq node) (p: seq int)
    requires { wf s h /\ valid h v /\ all_of s h v l }
    requires { length p = length l /\ forall j. 0 <= j < length l -> p[j] = fep h l[j] - n }
    ensures { forall x [mem x p | ends_at s h v n x]. mem x p <-> ends_at s h v n x }
  = let lemma from (x: int)
      requires { mem x p }
      ensures { ends_at s h v n x }
    = let ghost i = pos x p in
      assert { p[i] = x };
      let ghost u = pure { l[i] } in
      assert { mem u l };
      assert { desc s h v u };
      assert { x + n = fep h u }
    in
    let lemma onto (x: int)
      requires { ends_at s h v n x }
      ensures { mem x p }
    = let ghost e = x + n in
      assert { eqw s (len h v) (fep h v) e };
      let ghost u = pure { pre h e } in
      assert { 0 <= e <= length s };
      assert { valid h u /\ fep h u = e /\ len h u = e };
      assert { desc s h v u };
      assert { mem u l };
      let ghost i = pos u l in
      assert { l[i] = u };
      assert { p[i] = x }
    in ()
  let ghost occurs (s: seq int) (h: hp) (t: seq int) (v: node)
    requires { wf s h /\ held s h t v (length t) (length t) }
    ensures { forall x [ends_at s h v (length t) x | occ s t x]. ends_at s h v (length t) x <-> occ s t x }
    ensures { forall x [occ s t x]. occ s t x -> fep h v - length t <= x }
  = first_occ s h t v (length t) (length t);
    assert { forall x [occ s t x]. occ s t x -> com s t (length t) (x + length t) (length t) }

  (* the fields the search reads are the same *)
  predicate same_core (h0 h1: hp) =
    alloc h1 = alloc h0 /\
    (forall u [valid h1 u]. valid h1 u <-> valid h0 u) /\
    (forall j [pre h1 j]. pre h1 j = pre h0 j) /\
    (forall u [len h1 u]. len h1 u = len h0 u) /\
    (forall u [fep h1 u]. fep h1 u = fep h0 u) /\
    (forall u [link h1 u]. link h1 u = link h0 u) /\
    (forall u [trs h1 u]. trs h1 u = trs h0 u)
  let ghost core_wf (s: seq int) (h0 h1: hp)
    requires { wf s h0 /\ same_core h0 h1 }
    ensures { wf s h1 }
    ensures { forall v [sfx s h1 v]. sfx s h1 v <-> sfx s h0 v }
    ensures { forall v [mn h1 v]. mn h1 v = mn h0 v }
  = assert { forall v [mn h1 v]. mn h1 v = mn h0 v };
    assert { i1 s h1 };
    assert { ip s h1 };
    assert { i2 s h1 };
    assert { i3 s h1 };
    assert { i4 s h1 };
    assert { i5 s h1 };
    assert { i7 s h1 };
    assert { iu s h1 }

  (* the automaton of the empty text: one state *)
  let ghost base_wf (h: hp)
    requires { forall v [valid h v]. valid h v <-> v = 0 }
    requires { len h 0 = 0 /\ fep h 0 = 0 /\ link h 0 = none /\ trs h 0 = dempty /\ pre h 0 = 0 }
    ensures { wf empty h }
  = assert { forall c [dfind (trs h 0) c]. dfind (trs h 0) c = none };
    assert { forall k a b [eqw (empty: seq int) k a b]. eqw (empty: seq int) k a b -> k = 0 /\ a = 0 /\ b = 0 };
    assert { i1 empty h };
    assert { ip empty h };
    assert { i2 empty h };
    assert { i3 empty h };
    assert { i4 empty h };
    assert { i5 empty h };
    assert { i7 empty h };
    assert { iu empty h }

  (* the same for the part of t read so far *)
  predicate best (s t: seq int) (e0 f0 k f: int) =
    0 <= k /\ (k = 0 -> e0 = 0 /\ f0 = 0) /\
    com s t k e0 f0 /\ f0 <= f /\
    (forall l e g [com s t l e g]. com s t l e g -> g <= f -> l <= k) /\
    (k > 0 -> forall e g [com s t k e g]. com s t k e g -> g <= f -> f0 <= g) /\
    (k > 0 -> forall e [com s t k e f0]. com s t k e f0 -> e0 <= e)

  (* x is a suffix of s *)
  predicate suffix (s x: seq int) = length x <= length s /\ com s x (length x) (length s) (length x)
  let ghost accepts (s: seq int) (h: hp) (t: seq int) (v: node)
    requires { wf s h /\ marked s h /\ held s h t v (length t) (length t) }
    ensures { term h v <-> suffix s t }
  = first_occ s h t v (length t) (length t);
    assert { suffix s t <-> com s t (length t) (length s) (length t) }
end
