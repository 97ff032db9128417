(* The longest common substring of a collection: the sequences one after the
   other, each followed by a separator of its own. *)
module Sep
  use int.Int
  (* Separator(i) is a token that equals no other token (a class of its own) *)
  val function sepc (i: int) : int
  function sepi (c: int) : int
  val predicate is_separator (c: int)
  axiom sep_is: forall i [sepc i]. is_separator (sepc i) /\ sepi (sepc i) = i
end
module Cat
  use int.Int
  use sq.Sq
  use Sep
  use py.PyFlat
  (* where sequence i starts *)
  let rec ghost function off (l: seq (seq int)) (i: int) : int
    requires { 0 <= i <= length l }
    ensures { i <= result }
    variant { i }
  = if i = 0 then 0 else off l (i - 1) + pure { length l[i - 1] } + 1

  (* t starts with the first n sequences of l and their separators *)
  predicate cat (l: seq (seq int)) (n: int) (t: seq int) =
    length t = off l n /\
    (forall i j [l[i][j]]. 0 <= i < n -> 0 <= j < length l[i] -> 0 <= off l i + j < length t /\ t[off l i + j] = l[i][j]) /\
    (forall i [off l i]. 0 <= i < n -> 0 <= off l i /\ off l i + length l[i] < length t /\ t[off l i + length l[i]] = sepc i)
  predicate plain (l: seq (seq int)) = forall i j [l[i][j]]. 0 <= i < length l -> 0 <= j < length l[i] -> not (is_separator l[i][j])

  let rec ghost flatten (l c: seq (seq int)) (n: int) : unit
    requires { length c = length l /\ 0 <= n <= length l }
    requires { forall j [c[j]]. 0 <= j < length l -> c[j] = l[j] ++ singleton (sepc j) }
    ensures { cat l n (flat c[..n]) }
    variant { n }
  = if n = 0 then assert { c[..0] = empty }
    else begin
      flatten l c (n - 1);
      assert { snoc c[..n - 1] c[n - 1] == c[..n] };
      let ghost t = pure { flat c[..n - 1] } in
      assert { flat c[..n] = t ++ (l[n - 1] ++ singleton (sepc (n - 1))) };
      assert { off l n = off l (n - 1) + length l[n - 1] + 1 };
      assert { length t = off l (n - 1) }
    end

  let rec ghost off_mono (l: seq (seq int)) (i j: int) : unit
    requires { 0 <= i < j <= length l }
    ensures { off l i + length l[i] + 1 <= off l j }
    variant { j }
  = if i < j - 1 then off_mono l i (j - 1)

  (* the sequence that position e of the concatenation belongs to *)
  let rec ghost function own (l: seq (seq int)) (n e: int) : int
    requires { 0 <= n <= length l /\ 0 <= e < off l n }
    ensures { 0 <= result < n /\ off l result <= e <= off l result + length l[result] }
    variant { n }
  = if pure { off l (n - 1) <= e } then n - 1 else own l (n - 1) e
end
(* which sequences share the words of a state *)
module Shares
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use pset.Pset
  use mem.Mem
  use auto.Eqw
  use auto.Com
  use auto.Heap
  use auto.Auto
  use Sep
  use Cat

  (* the first separator from e on *)
  let rec ghost function nsep (s: seq int) (e: int) : int
    requires { 0 <= e }
    variant { length s - e }
  = if e >= length s || is_separator s[e] then pure { s[e] } else nsep s (e + 1)

  predicate ended (s: seq int) = length s > 0 -> is_separator s[length s - 1]
  (* a word of v ends before separator x, with no other separator in between *)
  predicate shares (s: seq int) (h: hp) (v: node) (x: int) =
    exists e [eqw s (len h v) (fep h v) e]. eqw s (len h v) (fep h v) e /\ e < length s /\ nsep s e = x
  predicate exact (s: seq int) (h: hp) (v: node) (m: pset int) = forall x [pin x m]. pin x m <-> shares s h v x

  (* c leads on from v to a place before x *)
  predicate via (s: seq int) (h: hp) (v: node) (c x: int) =
    not (isn (tr h v c)) /\ (if is_separator c then x = c else shares s h (the (tr h v c)) x)

  let ghost up (s: seq int) (h: hp) (v: node) (c x: int)
    requires { wf s h /\ ended s /\ valid h v /\ via s h v c x }
    ensures { shares s h v x }
  = let ghost u = pure { the (tr h v c) } in
    assert { valid h u /\ u <> 0 /\ s[fep h u - 1] = c };
    assert { eqw s (len h v) (fep h v) (fep h u - 1) };
    if is_separator c then
      assert { nsep s (fep h u - 1) = x }
    else begin
      let lemma one (e: int)
        requires { eqw s (len h u) (fep h u) e /\ e < length s /\ nsep s e = x }
        ensures { shares s h v x }
      = assert { s[e - 1] = c };
        assert { eqw s (len h u - 1) (fep h u - 1) (e - 1) };
        assert { eqw s (len h v) (fep h v) (e - 1) };
        assert { nsep s (e - 1) = x }
      in ()
    end

  let ghost down (s: seq int) (h: hp) (v: node) (m: pset int)
    requires { wf s h /\ ended s /\ valid h v }
    requires { forall c x [via s h v c x]. via s h v c x -> pin x m }
    ensures { forall x [shares s h v x]. shares s h v x -> pin x m }
  = let lemma one (x e: int)
      requires { eqw s (len h v) (fep h v) e /\ e < length s /\ nsep s e = x }
      ensures { pin x m }
    = let ghost c = pure { s[e] } in
      let ghost u = pure { the (tr h v c) } in
      assert { not (isn (tr h v c)) };
      assert { valid h u /\ u <> 0 /\ s[fep h u - 1] = c };
      if is_separator c then assert { via s h v c x }
      else begin
        assert { eqw s (len h v) (fep h u - 1) e };
        assert { eqw s (len h v + 1) (fep h u - 1 + 1) (e + 1) };
        assert { eqw s (mn h u) (fep h u) (e + 1) };
        assert { eqw s (len h u) (fep h u) (e + 1) };
        assert { nsep s (e + 1) = x };
        assert { e + 1 < length s };
        assert { via s h v c x }
      end
    in ()

  predicate known (d: dict int (pset int)) (v: node) = not (isn (dfind d v))
  (* the nodes with a known set: the set is right and their children have one *)
  predicate settled (s: seq int) (h: hp) (d: dict int (pset int)) =
    forall v [dfind d v]. known d v -> valid h v /\ exact s h v (the (dfind d v)) /\
      forall c [dfind (trs h v) c]. isn (tr h v c) \/ known d (the (tr h v c))

  (* every word is held by a known state *)
  let rec ghost function walk (s: seq int) (h: hp) (d: dict int (pset int)) (k a: int) : node
    requires { wf s h /\ settled s h d /\ known d 0 /\ 0 <= k <= a <= length s }
    ensures { valid h result /\ known d result /\ mn h result <= k <= len h result /\ eqw s (len h result) (fep h result) a }
    variant { k }
  = if k = 0 then 0 else begin
      let ghost v = walk s h d (k - 1) (a - 1) in
      let ghost c = pure { s[a - 1] } in
      let ghost u = pure { the (tr h v c) } in
      assert { not (isn (tr h v c)) };
      assert { valid h u /\ s[fep h u - 1] = c };
      assert { eqw s (len h v) (fep h u - 1) (a - 1) };
      assert { eqw s (len h v + 1) (fep h u - 1 + 1) (a - 1 + 1) };
      assert { eqw s (mn h u) (fep h u) a };
      u
    end

  (* the separators of the first n sequences *)
  let rec ghost function seps (n: int) : pset int
    requires { n >= 0 }
    ensures { pcard result = n }
    ensures { forall x [pin x result]. pin x result -> 0 <= sepi x < n /\ x = sepc (sepi x) }
    ensures { forall i [sepc i]. 0 <= i < n -> pin (sepc i) result }
    variant { n }
  = if n = 0 then pempty else padd (seps (n - 1)) (sepc (n - 1))

  let rec ghost nsep_own (l: seq (seq int)) (s: seq int) (i e: int) : unit
    requires { cat l (length l) s /\ plain l /\ 0 <= i < length l /\ off l i <= e <= off l i + length l[i] }
    ensures { nsep s e = sepc i }
    variant { off l i + length l[i] - e }
  = if e < pure { off l i + length l[i] } then begin
      assert { s[off l i + (e - off l i)] = l[i][e - off l i] };
      nsep_own l s i (e + 1)
    end

  let ghost is_ended (l: seq (seq int)) (s: seq int)
    requires { cat l (length l) s }
    ensures { ended s }
  = if pure { length l > 0 } then assert { off l (length l) = off l (length l - 1) + length l[length l - 1] + 1 }

  (* a word of v ends in sequence i *)
  predicate ends_in (l: seq (seq int)) (s: seq int) (h: hp) (v: node) (i: int) =
    exists e [eqw s (len h v) (fep h v) e]. eqw s (len h v) (fep h v) e /\ off l i <= e <= off l i + length l[i]

  let ghost shared_ends (l: seq (seq int)) (s: seq int) (h: hp) (v: node) (i: int)
    requires { cat l (length l) s /\ plain l /\ 0 <= i < length l }
    ensures { shares s h v (sepc i) <-> ends_in l s h v i }
  = let lemma one (e: int)
      requires { eqw s (len h v) (fep h v) e /\ e < length s /\ nsep s e = sepc i }
      ensures { ends_in l s h v i }
    = let ghost j = own l (length l) e in
      nsep_own l s j e;
      assert { sepi (sepc j) = j /\ sepi (sepc i) = i }
    in
    let lemma two (e: int)
      requires { eqw s (len h v) (fep h v) e /\ off l i <= e <= off l i + length l[i] }
      ensures { shares s h v (sepc i) }
    = nsep_own l s i e
    in ()

  let ghost among (l: seq (seq int)) (s: seq int) (h: hp) (v: node) (m: pset int)
    requires { cat l (length l) s /\ plain l /\ exact s h v m }
    ensures { psub m (seps (length l)) }
  = let lemma one (x e: int)
      requires { eqw s (len h v) (fep h v) e /\ e < length s /\ nsep s e = x }
      ensures { pin x (seps (length l)) }
    = let ghost j = own l (length l) e in
      nsep_own l s j e
    in ()

  (* all sequences share the words of v iff the set has as many members *)
  let ghost counted (l: seq (seq int)) (s: seq int) (h: hp) (v: node) (m: pset int)
    requires { cat l (length l) s /\ plain l /\ exact s h v m }
    ensures { pcard m = length l <-> forall i [off l i]. 0 <= i < length l -> ends_in l s h v i }
  = among l s h v m;
    let ghost n = pure { length l } in
    if pure { pcard m = n } then begin
      assert { m = seps n };
      let lemma one (i: int)
        requires { 0 <= i < length l }
        ensures { ends_in l s h v i }
      = shared_ends l s h v i; assert { pin (sepc i) m }
      in ()
    end else if pure { forall i [off l i]. 0 <= i < length l -> ends_in l s h v i } then begin
      let lemma one (x: int)
        requires { pin x (seps n) }
        ensures { pin x m }
      = let ghost i = pure { sepi x } in
        assert { off l i = off l i };
        shared_ends l s h v i
      in
      assert { psub (seps n) m };
      absurd
    end
end
(* why the search ends *)
module Left
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use pset.Pset
  use auto.Eqw
  use auto.Heap
  use auto.Auto
  use Shares

  (* how many of the first n nodes are not known *)
  let rec ghost function unk (d: dict int (pset int)) (n: int) : int
    ensures { result >= 0 }
    variant { if n < 0 then 0 else n }
  = if n <= 0 then 0 else unk d (n - 1) + (if pure { known d (n - 1) } then 0 else 1)
  let rec ghost learned (d e: dict int (pset int)) (x n: int) : unit
    requires { forall u [dfind e u]. u <> x -> dfind e u = dfind d u }
    requires { not (known d x) /\ known e x }
    ensures { unk e n = if 0 <= x < n then unk d n - 1 else unk d n }
    variant { if n < 0 then 0 else n }
  = if n > 0 then begin learned d e x (n - 1); assert { (known d (n - 1) <-> known e (n - 1)) \/ x = n - 1 } end
  (* steps until a set is computed: known nodes are dropped, then the search goes down *)
  function steps (n: int) (h: hp) (d: dict int (pset int)) (l: seq node) : int =
    if length l = 0 then 0 else let t = l[length l - 1] in if known d t then n + 2 + length l else n + 1 - len h t
end
module NLcs
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use pset.Pset
  use mem.Mem
  use auto.Eqw
  use auto.Com
  use auto.Heap
  use auto.Auto
  use auto.AutoSearch
  use Sep
  use Cat
  use Shares

  (* the same word of length k starts at the given places *)
  predicate placed (l: seq (seq int)) (k: int) (p: seq int) =
    0 <= k /\ length p = length l /\ forall i [p[i]]. 0 <= i < length l -> com l[0] l[i] k (p[0] + k) (p[i] + k)
  (* a longest common substring, and where it is first in each sequence *)
  predicate nlcs (l: seq (seq int)) (p: seq int) (k: int) =
    placed l k p /\
    (forall q j [placed l j q]. placed l j q -> j <= k) /\
    (forall i x [com l[0] l[i] k (p[0] + k) (x + k)]. 0 <= i < length l -> com l[0] l[i] k (p[0] + k) (x + k) -> p[i] <= x)

  (* words of two sequences and of the concatenation *)
  let ghost put (l: seq (seq int)) (s: seq int) (i j k e f: int)
    requires { cat l (length l) s /\ 0 <= i < length l /\ 0 <= j < length l /\ com l[i] l[j] k e f }
    ensures { eqw s k (off l i + e) (off l j + f) }
  = let ghost a = pure { l[i] } in
    let ghost b = pure { l[j] } in
    assert { a[e-k..e] = b[f-k..f] };
    assert { 0 <= k <= e <= length a /\ k <= f <= length b };
    let lemma one (x: int)
      requires { off l i + e - k <= x < off l i + e }
      ensures { s[x] = s[x + (off l j + f - (off l i + e))] }
    = let ghost y = x - pure { off l i } in
      let ghost z = y + f - e in
      assert { s[off l i + y] = a[y] };
      assert { s[off l j + z] = b[z] };
      assert { a[e-k..e][y - (e - k)] = a[y] };
      assert { b[f-k..f][z - (f - k)] = b[z] }
    in
    assert { off l i + length a < length s /\ off l j + length b < length s };
    assert { eqwd s k (off l i + e) (off l j + f) }

  let ghost take (l: seq (seq int)) (s: seq int) (i j k e f: int)
    requires { cat l (length l) s /\ 0 <= i < length l /\ 0 <= j < length l }
    requires { 0 <= k <= e <= length l[i] /\ k <= f <= length l[j] /\ eqw s k (off l i + e) (off l j + f) }
    ensures { com l[i] l[j] k e f }
  = let ghost a = pure { l[i] } in
    let ghost b = pure { l[j] } in
    assert { eqwd s k (off l i + e) (off l j + f) };
    let lemma one (x: int)
      requires { 0 <= x < k }
      ensures { a[e-k..e][x] = b[f-k..f][x] }
    = let ghost y = e - k + x in
      let ghost z = f - k + x in
      assert { s[off l i + y] = a[y] };
      assert { s[off l j + z] = b[z] };
      assert { s[off l i + y] = s[off l i + y + (off l j + f - (off l i + e))] }
    in
    assert { a[e-k..e] == b[f-k..f] }

  (* a word of v lies in sequence i *)
  predicate lies_in (l: seq (seq int)) (s: seq int) (h: hp) (v: node) (i: int) =
    exists x [ends_at s h v (len h v) x]. ends_at s h v (len h v) x /\ off l i <= x /\ x + len h v <= off l i + length l[i]

  (* a word that ends in every sequence lies in every sequence *)
  let ghost no_separator (l: seq (seq int)) (s: seq int) (h: hp) (v: node) (i: int)
    requires { wf s h /\ valid h v /\ cat l (length l) s /\ plain l /\ 0 <= i < length l }
    requires { ends_in l s h v i /\ ends_in l s h v 0 }
    ensures { lies_in l s h v i }
  = let lemma one (e f: int)
      requires { eqw s (len h v) (fep h v) e /\ off l i <= e <= off l i + length l[i] }
      requires { eqw s (len h v) (fep h v) f /\ off l 0 <= f <= off l 0 + length l[0] }
      ensures { lies_in l s h v i }
    = assert { eqw s (len h v) f e };
      assert { off l 0 = 0 };
      let ghost k = pure { len h v } in
      if e - k < pure { off l i } then begin
        assert { i > 0 };
        assert { off l i = off l (i - 1) + length l[i - 1] + 1 };
        let ghost b = pure { off l i } - 1 in
        assert { s[off l (i - 1) + length l[i - 1]] = sepc (i - 1) };
        assert { is_separator s[b] };
        assert { eqwd s k f e };
        let ghost a = b - (e - f) in
        assert { s[a] = s[a + (e - f)] };
        assert { s[off l 0 + a] = l[0][a] };
        assert { 0 <= a < length l[0] };
        absurd
      end;
      assert { ends_at s h v (len h v) (e - k) }
    in ()

  (* shared words are at most k long *)
  predicate sized (n: int) (h: hp) (d: dict int (pset int)) (k: int) =
    forall v [dfind d v]. known d v -> pcard (the (dfind d v)) = n -> len h v <= k

  let ghost maximal (l: seq (seq int)) (s: seq int) (h: hp) (d: dict int (pset int)) (k: int)
    requires { wf s h /\ cat l (length l) s /\ plain l /\ length l > 0 /\ settled s h d /\ known d 0 /\ sized (length l) h d k }
    ensures { forall q j [placed l j q]. placed l j q -> j <= k }
  = let lemma one (q: seq int) (j: int)
      requires { placed l j q }
      ensures { j <= k }
    = assert { com l[0] l[0] j (q[0] + j) (q[0] + j) };
      assert { off l 0 = 0 };
      put l s 0 0 j (pure { q[0] } + j) (pure { q[0] } + j);
      let ghost v = walk s h d j (pure { q[0] } + j) in
      let lemma each (i: int)
        requires { 0 <= i < length l }
        ensures { ends_in l s h v i }
      = assert { com l[0] l[i] j (q[0] + j) (q[i] + j) };
        put l s 0 i j (pure { q[0] } + j) (pure { q[i] } + j);
        assert { eqw s j (fep h v) (off l i + (q[i] + j)) };
        assert { eqw s (mn h v) (fep h v) (off l i + (q[i] + j)) };
        assert { eqw s (len h v) (fep h v) (off l i + (q[i] + j)) };
        assert { 0 <= q[i] + j <= length l[i] }
      in
      counted l s h v (pure { the (dfind d v) });
      assert { len h v <= k }
    in ()

  (* the root lies in every sequence *)
  let ghost roots_in (l: seq (seq int)) (s: seq int) (h: hp)
    requires { wf s h /\ cat l (length l) s }
    ensures { forall i [off l i]. 0 <= i < length l -> ends_in l s h 0 i }
  = let lemma one (i: int)
      requires { 0 <= i < length l }
      ensures { ends_in l s h 0 i }
    = assert { eqw s 0 0 (off l i) }
    in ()
  let ghost all_lie (l: seq (seq int)) (s: seq int) (h: hp) (v: node)
    requires { wf s h /\ valid h v /\ cat l (length l) s /\ plain l }
    requires { forall i [off l i]. 0 <= i < length l -> ends_in l s h v i }
    ensures { forall i [off l i]. 0 <= i < length l -> lies_in l s h v i }
  = let lemma one (i: int)
      requires { 0 <= i < length l }
      ensures { lies_in l s h v i }
    = assert { off l 0 = 0 };
      assert { off l i >= 0 };
      no_separator l s h v i
    in ()

  (* the first places at or after the start of each sequence *)
  predicate hit (l: seq (seq int)) (p: seq int) (i: int) =
    exists x [mem x p]. mem x p /\ off l i <= x <= off l i + length l[i]
  let ghost hits (l: seq (seq int)) (s: seq int) (h: hp) (v: node) (p: seq int)
    requires { 0 <= len h v }
    requires { forall i [off l i]. 0 <= i < length l -> lies_in l s h v i }
    requires { forall x [mem x p]. mem x p <-> ends_at s h v (len h v) x }
    ensures { forall i [off l i]. 0 <= i < length l -> hit l p i }
  = let lemma one (i: int)
      requires { 0 <= i < length l }
      ensures { hit l p i }
    = assert { off l i >= 0 };
      let lemma two (x: int)
        requires { ends_at s h v (len h v) x /\ off l i <= x /\ x + len h v <= off l i + length l[i] }
        ensures { hit l p i }
      = assert { mem x p }
      in ()
    in ()
  predicate first_in (l: seq (seq int)) (p: seq int) (i x: int) =
    x >= 0 /\ mem (x + off l i) p /\ forall y [mem y p]. mem y p -> off l i <= y -> x + off l i <= y

  let ghost result_is (l: seq (seq int)) (s: seq int) (h: hp) (v: node) (p r: seq int)
    requires { wf s h /\ valid h v /\ cat l (length l) s /\ plain l /\ length l > 0 }
    requires { forall i [off l i]. 0 <= i < length l -> lies_in l s h v i }
    requires { forall x [mem x p]. mem x p <-> ends_at s h v (len h v) x }
    requires { length r = length l /\ forall i [r[i]]. 0 <= i < length l -> first_in l p i r[i] }
    requires { forall q j [placed l j q]. placed l j q -> j <= len h v }
    ensures { nlcs l r (len h v) }
  = let ghost k = pure { len h v } in
    assert { off l 0 = 0 };
    let lemma inside (i: int)
      requires { 0 <= i < length l }
      ensures { 0 <= r[i] /\ r[i] + k <= length l[i] /\ eqw s k (fep h v) (off l i + (r[i] + k)) }
    = assert { first_in l p i r[i] };
      assert { lies_in l s h v i };
      assert { ends_at s h v k (r[i] + off l i) };
      let lemma fits (x: int)
        requires { ends_at s h v (len h v) x /\ off l i <= x /\ x + len h v <= off l i + length l[i] }
        ensures { r[i] + off l i <= x }
      = assert { mem x p }
      in ()
    in
    let lemma same (i: int)
      requires { 0 <= i < length l }
      ensures { com l[0] l[i] k (r[0] + k) (r[i] + k) }
    = inside 0; inside i;
      assert { eqw s k (fep h v) (off l 0 + (r[0] + k)) };
      assert { eqw s k (off l 0 + (r[0] + k)) (off l i + (r[i] + k)) };
      take l s 0 i k (pure { r[0] } + k) (pure { r[i] } + k)
    in
    assert { placed l k r };
    let lemma first (i x: int)
      requires { 0 <= i < length l /\ com l[0] l[i] k (r[0] + k) (x + k) }
      ensures { r[i] <= x }
    = put l s 0 i k (pure { r[0] } + k) (x + k);
      inside 0;
      assert { eqw s k (fep h v) (off l i + (x + k)) };
      assert { ends_at s h v (len h v) (off l i + x) };
      assert { mem (off l i + x) p };
      assert { first_in l p i r[i] }
    in ()
end
