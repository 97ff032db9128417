(* memory_tree.Node objects: the list of children is held by reference *)
module TreeHeap
  use int.Int
  use sq.Sq
  use opt.Opt

  type thp
  function nord (h: thp) (n: int) : int
  function npar (h: thp) (n: int) : opt int
  function nht (h: thp) (n: int) : int
  function nsz (h: thp) (n: int) : int
  function nbas (h: thp) (n: int) : opt int
  function nlist (h: thp) (n: int) : int
  function lget (h: thp) (l: int) : seq int
  function nalloc (h: thp) : int
  function lalloc (h: thp) : int
  function nkids (h: thp) (n: int) : seq int = lget h (nlist h n)

  predicate sord (h k: thp) = forall m [nord k m]. nord k m = nord h m
  predicate spar (h k: thp) = forall m [npar k m]. npar k m = npar h m
  predicate sht (h k: thp) = forall m [nht k m]. nht k m = nht h m
  predicate ssz (h k: thp) = forall m [nsz k m]. nsz k m = nsz h m
  predicate sbas (h k: thp) = forall m [nbas k m]. nbas k m = nbas h m
  predicate slist (h k: thp) = forall m [nlist k m]. nlist k m = nlist h m
  predicate slget (h k: thp) = forall l [lget k l]. lget k l = lget h l
  predicate salloc (h k: thp) = nalloc k = nalloc h /\ lalloc k = lalloc h

  type state = { mutable ns: thp }
  val tn : state

  val obj_get_order_id (n: int) : int ensures { result = nord tn.ns n }
  val obj_get_parent (n: int) : opt int ensures { result = npar tn.ns n }
  val obj_get_children (n: int) : seq int ensures { result = nkids tn.ns n }
  val obj_get_height (n: int) : int ensures { result = nht tn.ns n }
  val obj_get_size (n: int) : int ensures { result = nsz tn.ns n }
  val obj_get_base_version (n: int) : opt int ensures { result = nbas tn.ns n }

  val obj_set_order_id (n v: int) : unit writes { tn.ns }
    ensures { let h = old tn.ns in let k = tn.ns in spar h k /\ sht h k /\ ssz h k /\ sbas h k /\ slist h k /\ slget h k /\ salloc h k }
    ensures { forall m [nord tn.ns m]. nord tn.ns m = if m = n then v else nord (old tn.ns) m }
  val obj_set_parent (n: int) (v: opt int) : unit writes { tn.ns }
    ensures { let h = old tn.ns in let k = tn.ns in sord h k /\ sht h k /\ ssz h k /\ sbas h k /\ slist h k /\ slget h k /\ salloc h k }
    ensures { forall m [npar tn.ns m]. npar tn.ns m = if m = n then v else npar (old tn.ns) m }
  val obj_set_height (n v: int) : unit writes { tn.ns }
    ensures { let h = old tn.ns in let k = tn.ns in sord h k /\ spar h k /\ ssz h k /\ sbas h k /\ slist h k /\ slget h k /\ salloc h k }
    ensures { forall m [nht tn.ns m]. nht tn.ns m = if m = n then v else nht (old tn.ns) m }
  val obj_set_size (n v: int) : unit writes { tn.ns }
    ensures { let h = old tn.ns in let k = tn.ns in sord h k /\ spar h k /\ sht h k /\ sbas h k /\ slist h k /\ slget h k /\ salloc h k }
    ensures { forall m [nsz tn.ns m]. nsz tn.ns m = if m = n then v else nsz (old tn.ns) m }
  val obj_set_base_version (n: int) (v: opt int) : unit writes { tn.ns }
    ensures { let h = old tn.ns in let k = tn.ns in sord h k /\ spar h k /\ sht h k /\ ssz h k /\ slist h k /\ slget h k /\ salloc h k }
    ensures { forall m [nbas tn.ns m]. nbas tn.ns m = if m = n then v else nbas (old tn.ns) m }
  (* the list of children is changed in place: for every node that holds it *)
  val obj_set_children (n: int) (v: seq int) : unit writes { tn.ns }
    ensures { let h = old tn.ns in let k = tn.ns in sord h k /\ spar h k /\ sht h k /\ ssz h k /\ sbas h k /\ slist h k /\ salloc h k }
    ensures { forall l [lget tn.ns l]. lget tn.ns l = if l = nlist (old tn.ns) n then v else lget (old tn.ns) l }
  (* dataclasses.replace(): a new node that holds the same list *)
  val obj_copy (n: int) : int writes { tn.ns }
    ensures { result = nalloc (old tn.ns) /\ nalloc tn.ns = nalloc (old tn.ns) + 1 /\ lalloc tn.ns = lalloc (old tn.ns) /\ slget (old tn.ns) tn.ns }
    ensures { forall m [nord tn.ns m]. nord tn.ns m = nord (old tn.ns) (if m = result then n else m) }
    ensures { forall m [npar tn.ns m]. npar tn.ns m = npar (old tn.ns) (if m = result then n else m) }
    ensures { forall m [nht tn.ns m]. nht tn.ns m = nht (old tn.ns) (if m = result then n else m) }
    ensures { forall m [nsz tn.ns m]. nsz tn.ns m = nsz (old tn.ns) (if m = result then n else m) }
    ensures { forall m [nbas tn.ns m]. nbas tn.ns m = nbas (old tn.ns) (if m = result then n else m) }
    ensures { forall m [nlist tn.ns m]. nlist tn.ns m = nlist (old tn.ns) (if m = result then n else m) }
  predicate made_node (h k: thp) (r o: int) (p: opt int) (c: seq int) (ht sz: int) (b: opt int) =
    r = nalloc h /\ nalloc k = nalloc h + 1 /\ lalloc k = lalloc h + 1 /\
    (forall m [nord k m]. nord k m = if m = r then o else nord h m) /\
    (forall m [npar k m]. npar k m = if m = r then p else npar h m) /\
    (forall m [nht k m]. nht k m = if m = r then ht else nht h m) /\
    (forall m [nsz k m]. nsz k m = if m = r then sz else nsz h m) /\
    (forall m [nbas k m]. nbas k m = if m = r then b else nbas h m) /\
    (forall m [nlist k m]. nlist k m = if m = r then lalloc h else nlist h m) /\
    (forall l [lget k l]. lget k l = if l = lalloc h then c else lget h l)
end
(* The version tree: tags with a parent, children, a height and the base they
   were added with.  A view is what one state of the tree says about each tag. *)
module View
  use int.Int
  use sq.Sq
  use opt.Opt
  use mem.Mem
  use dict.Dict
  use py.PyTotal
  use TreeHeap

  type view
  predicate has (v: view) (t: int)
  function par (v: view) (t: int) : opt int
  function bas (v: view) (t: int) : opt int
  function kids (v: view) (t: int) : seq int
  function ht (v: view) (t: int) : int
  function sz (v: view) (t: int) : int
  (* the sizes of some tags *)
  function sizes (v: view) (s: seq int) : seq int
  axiom sizes_length: forall v s [sizes v s]. length (sizes v s) = length s
  axiom sizes_get: forall v s i [(sizes v s)[i]]. 0 <= i < length s -> (sizes v s)[i] = sz v s[i]

  (* what a MemoryTree says: d gives the node of each tag *)
  function mview (d: dict int int) (h: thp) : view
  axiom mview_has: forall d h t [has (mview d h) t]. has (mview d h) t <-> not (isn (dfind d t))
  axiom mview_par: forall d h t [par (mview d h) t]. par (mview d h) t = if isn (dfind d t) then none else npar h (the (dfind d t))
  axiom mview_bas: forall d h t [bas (mview d h) t]. bas (mview d h) t = if isn (dfind d t) then none else nbas h (the (dfind d t))
  axiom mview_kids: forall d h t [kids (mview d h) t]. kids (mview d h) t = if isn (dfind d t) then empty else nkids h (the (dfind d t))
  axiom mview_ht: forall d h t [ht (mview d h) t]. ht (mview d h) t = if isn (dfind d t) then 0 else nht h (the (dfind d t))
  axiom mview_sz: forall d h t [sz (mview d h) t]. sz (mview d h) t = if isn (dfind d t) then 0 else nsz h (the (dfind d t))
  (* no two tags share a node or a list of children *)
  predicate apart (d: dict int int) (h: thp) =
    0 <= nalloc h /\ 0 <= lalloc h /\
    (forall t [dfind d t]. not (isn (dfind d t)) -> 0 <= the (dfind d t) < nalloc h) /\
    (forall t [nlist h (the (dfind d t))]. not (isn (dfind d t)) -> 0 <= nlist h (the (dfind d t)) < lalloc h) /\
    (forall s t [nlist h (the (dfind d s)), nlist h (the (dfind d t))]. not (isn (dfind d s)) -> not (isn (dfind d t)) -> s <> t -> nlist h (the (dfind d s)) <> nlist h (the (dfind d t)))

  (* the n-th ancestor *)
  function up (v: view) (o: opt int) (n: int) : opt int
  axiom up_zero: forall v o n [up v o n]. n <= 0 -> up v o n = o
  axiom up_none: forall v o n [up v o n]. isn o -> up v o n = none
  axiom up_step: forall v o n [up v o n, up v (par v (the o)) (n - 1)]. n > 0 -> not (isn o) -> up v o n = up v (par v (the o)) (n - 1)

  (* a is c or above it *)
  predicate anc (v: view) (c a: int) = exists n [up v (some c) n]. n >= 0 /\ up v (some c) n = some a
  predicate free (v: view) (t: int) (np: opt int) = isn np \/ (has v (the np) /\ not (anc v (the np) t))
  predicate ends (v: view) (t: int) = exists n [up v (some t) n]. n >= 0 /\ up v (some t) n = none

  (* the height and the size of t are those of what is below it *)
  predicate heq (v: view) (t: int) =
    sz v t = 1 + total (sizes v (kids v t)) /\
    (forall i [(kids v t)[i]]. 0 <= i < length (kids v t) -> ht v (kids v t)[i] < ht v t) /\
    (ht v t = 1 \/ exists i [(kids v t)[i]]. 0 <= i < length (kids v t) /\ ht v t = ht v (kids v t)[i] + 1)

  predicate distinct (s: seq int) = forall i [s[i]]. 0 <= i < length s -> pos s[i] s = i
  predicate shape (v: view) =
    (forall t [par v t]. not (has v t) -> par v t = none) /\
    (forall t [par v t]. has v t -> not (isn (par v t)) -> has v (the (par v t)) /\ mem t (kids v (the (par v t)))) /\
    (forall p c [mem c (kids v p)]. has v p -> mem c (kids v p) -> has v c /\ par v c = some p) /\
    (forall p [kids v p]. has v p -> distinct (kids v p)) /\
    (forall t [ht v t]. has v t -> ht v t >= 1) /\
    (forall t [ends v t]. has v t -> ends v t)
  predicate forest (v: view) = shape v /\ (forall t [heq v t]. has v t -> heq v t)

  (* everything but the heights and sizes *)
  predicate same_tree (v w: view) =
    (forall t [has w t]. has w t <-> has v t) /\ (forall t [par w t]. par w t = par v t) /\
    (forall t [bas w t]. bas w t = bas v t) /\ (forall t [kids w t]. kids w t = kids v t)

  predicate planted (v w: view) (t: int) (base: opt int) =
    (forall s [has w s]. has w s <-> (has v s \/ s = t)) /\
    (forall s [par w s]. par w s = par v s) /\ (forall s [bas w s]. bas w s = if s = t then base else bas v s)
  predicate moved (v w: view) (t: int) (np: opt int) =
    (forall s [has w s]. has w s <-> has v s) /\
    (forall s [par w s]. par w s = if s = t then np else par v s) /\ (forall s [bas w s]. bas w s = bas v s)

  predicate is_path (v: view) (p: seq int) (t: int) =
    length p >= 1 /\ p[length p - 1] = t /\ par v p[0] = none /\
    (forall i [p[i]]. 0 <= i < length p -> has v p[i]) /\
    (forall i [p[i]]. 0 < i < length p -> par v p[i] = some p[i - 1])
  predicate is_down (v: view) (p: seq int) (t: int) =
    length p >= 1 /\ p[0] = t /\
    (forall i [p[i]]. 0 <= i < length p -> has v p[i]) /\
    (forall i [p[i]]. 0 < i < length p -> par v p[i] = some p[i - 1])
  (* q is a longest downward path from t *)
  predicate longest (v: view) (q: seq int) (t: int) =
    is_down v q t /\ (forall r [is_down v r t]. is_down v r t -> length r <= length q)
  predicate halfway (v: view) (p: seq int) (t: int) =
    exists q [longest v q t]. longest v q t /\ length p <= length q /\ 2 * length p >= length q + 1 /\ 2 * length p <= length q + 2 /\ p = q[..length p]
end
module ViewReal
  use int.Int
  use sq.Sq
  use opt.Opt
  use dict.Dict
  use py.PyTotal
  use TreeHeap
  type view = View (dict int int) thp
  function vd (v: view) : dict int int = match v with View d _ -> d end
  function vh (v: view) : thp = match v with View _ h -> h end
  function mview (d: dict int int) (h: thp) : view = View d h
  predicate has (v: view) (t: int) = not (isn (dfind (vd v) t))
  function par (v: view) (t: int) : opt int = if isn (dfind (vd v) t) then none else npar (vh v) (the (dfind (vd v) t))
  function bas (v: view) (t: int) : opt int = if isn (dfind (vd v) t) then none else nbas (vh v) (the (dfind (vd v) t))
  function kids (v: view) (t: int) : seq int = if isn (dfind (vd v) t) then empty else nkids (vh v) (the (dfind (vd v) t))
  function ht (v: view) (t: int) : int = if isn (dfind (vd v) t) then 0 else nht (vh v) (the (dfind (vd v) t))
  function sz (v: view) (t: int) : int = if isn (dfind (vd v) t) then 0 else nsz (vh v) (the (dfind (vd v) t))
  let rec ghost function sizes (v: view) (s: seq int) : seq int
    variant { length s }
  = if pure { length s = 0 } then pure { (empty: seq int) } else
      let r = sizes v (pure { s[..length s - 1] }) in pure { snoc r (sz v s[length s - 1]) }
  let rec lemma sizes_n (v: view) (s: seq int)
    ensures { length (sizes v s) = length s }
    ensures { forall i. 0 <= i < length s -> (sizes v s)[i] = sz v s[i] }
    variant { length s }
  = if pure { length s > 0 } then sizes_n v (pure { s[..length s - 1] })
  let rec ghost function up (v: view) (o: opt int) (n: int) : opt int
    variant { if n < 0 then 0 else n }
  = if n <= 0 then o else if isn o then none else up v (pure { par v (the o) }) (n - 1)
  let rec ghost up_n (v: view) (o: opt int) (n: int)
    ensures { isn o -> up v o n = none }
    variant { if n < 0 then 0 else n }
  = if n > 0 then up_n v o (n - 1)
  clone View with type view = view, function mview = mview, predicate has = has, function par = par, function bas = bas, function kids = kids, function ht = ht, function sz = sz, function sizes = sizes, function up = up
end
module Chains
  use int.Int
  use sq.Sq
  use opt.Opt
  use mem.Mem
  use View

  let ghost ups (v: view) (o: opt int) (n: int)
    requires { n > 0 /\ not (isn o) }
    ensures { up v o n = up v (par v (the o)) (n - 1) }
  = assert { let m = n - 1 in up v (par v (the o)) m = up v (par v (the o)) m /\ up v o n = up v (par v (the o)) m }
  lemma anc_self: forall v c [anc v c c]. up v (some c) 0 = some c
  let ghost anc_step (v: view) (c a: int)
    requires { anc v c a }
    ensures { c = a \/ (not (isn (par v c)) /\ anc v (the (par v c)) a) }
  = let lemma one (n: int)
      requires { n >= 0 /\ up v (some c) n = some a }
      ensures { c = a \/ (not (isn (par v c)) /\ anc v (the (par v c)) a) }
    = if n > 0 then assert { up v (some c) n = up v (par v c) (n - 1) } in
    ()
  let ghost anc_over (v: view) (c a: int)
    requires { not (isn (par v c)) /\ anc v (the (par v c)) a }
    ensures { anc v c a }
  = let lemma one (n: int)
      requires { n >= 0 /\ up v (par v c) n = some a }
      ensures { anc v c a }
    = ups v (pure { some c }) (n + 1) in
    ()
  let rec ghost up_same (v w: view) (o: opt int) (n: int)
    requires { forall t [par w t]. par w t = par v t }
    ensures { up w o n = up v o n }
    variant { if n < 0 then 0 else n }
  = if n > 0 && not (isn o) then begin ups v o n; ups w o n; up_same v w (pure { par v (the o) }) (n - 1) end
  let ghost anc_same (v w: view) (c a: int)
    requires { forall t [par w t]. par w t = par v t }
    ensures { anc w c a <-> anc v c a }
  = let lemma one (n: int)
      requires { n >= 0 /\ up v (some c) n = some a }
      ensures { anc w c a }
    = up_same v w (pure { some c }) n in
    let lemma two (n: int)
      requires { n >= 0 /\ up w (some c) n = some a }
      ensures { anc v c a }
    = up_same v w (pure { some c }) n in
    ()
  let ghost ends_same (v w: view) (c: int)
    requires { forall t [par w t]. par w t = par v t }
    requires { ends v c }
    ensures { ends w c }
  = let lemma one (n: int)
      requires { n >= 0 /\ up v (some c) n = none }
      ensures { ends w c }
    = up_same v w (pure { some c }) n in
    ()

  (* paths *)
  let rec ghost path_up (v: view) (p: seq int) (t: int) (k: int)
    requires { is_path v p t }
    requires { 0 <= k }
    ensures { forall i [up v (some p[i]) k]. k <= i < length p -> up v (some p[i]) k = some p[i - k] }
    ensures { forall i [up v (some p[i]) k]. 0 <= i < k /\ i < length p -> up v (some p[i]) k = none }
    variant { k }
  = if k > 0 then begin
      path_up v p t (k - 1);
      assert { forall i [p[i]]. 0 < i < length p -> up v (some p[i]) k = up v (some p[i - 1]) (k - 1) };
      ups v (pure { some p[0] }) k;
      assert { up v (some p[0]) k = none }
    end
  let ghost path_distinct (v: view) (p: seq int) (t: int)
    requires { is_path v p t }
    ensures { forall i j [p[i], p[j]]. 0 <= i < j < length p -> p[i] <> p[j] }
  = let lemma two (i j: int)
      requires { 0 <= i < j < length p }
      ensures { p[i] <> p[j] }
    = path_up v p t (i + 1); assert { up v (some p[i]) (i + 1) = none }; assert { up v (some p[j]) (i + 1) = some p[j - (i + 1)] } in
    ()
  (* the path of a tag: there is only one *)
  let ghost path_unique (v: view) (p q: seq int) (t: int)
    requires { is_path v p t /\ is_path v q t }
    ensures { p = q }
  = let n = pure { length p } in
    let m = pure { length q } in
    path_up v p t n; path_up v q t n; path_up v p t m; path_up v q t m;
    assert { up v (some p[n - 1]) n = none /\ up v (some q[m - 1]) m = none };
    assert { n < m -> up v (some q[m - 1]) n = some q[m - 1 - n] };
    assert { m < n -> up v (some p[n - 1]) m = some p[n - 1 - m] };
    assert { n = m };
    let lemma eq (i: int)
      requires { 0 <= i < n }
      ensures { p[i] = q[i] }
    = path_up v p t (n - 1 - i); path_up v q t (n - 1 - i);
      assert { up v (some p[n - 1]) (n - 1 - i) = some p[i] };
      assert { up v (some q[n - 1]) (n - 1 - i) = some q[i] } in
    assert { p == q }
  (* every prefix of a path is the path of the tag it ends at *)
  lemma path_prefix: forall v p t n [is_path v p t, p[..n]]. is_path v p t -> 0 < n <= length p -> is_path v p[..n] p[n - 1]

  (* downward paths and heights *)
  let rec ghost down_height (v: view) (r: seq int) (t: int)
    requires { forest v }
    requires { is_down v r t }
    ensures { length r <= ht v t }
    variant { length r }
  = assert { has v t };
    if length r > 1 then begin
      let c = r[1] in
      assert { par v c = some t };
      assert { has v c };
      assert { mem c (kids v t) };
      assert { (kids v t)[pos c (kids v t)] = c };
      assert { heq v t };
      assert { ht v c < ht v t };
      assert { forall i [r[1..][i]]. 0 <= i < length r - 1 -> r[1..][i] = r[i + 1] };
      assert { is_down v r[1..] c };
      down_height v r[1..] c
    end
  let ghost child_of (v: view) (t i: int)
    requires { shape v /\ has v t }
    requires { 0 <= i < length (kids v t) }
    ensures { has v (kids v t)[i] /\ par v (kids v t)[i] = some t }
  = assert { mem (kids v t)[i] (kids v t) }
  let rec ghost deep (v: view) (t: int)
    requires { forest v /\ has v t }
    ensures { exists q. is_down v q t /\ length q = ht v t }
    variant { ht v t }
  = assert { heq v t };
    if pure { ht v t = 1 } then assert { is_down v (singleton t) t } else begin
      let lemma one (i: int)
        requires { 0 <= i < length (kids v t) }
        requires { ht v t = ht v (kids v t)[i] + 1 }
        ensures { exists q. is_down v q t /\ length q = ht v t }
      = let c = pure { (kids v t)[i] } in
        child_of v t i;
        deep v c;
        let lemma two (q: seq int)
          requires { is_down v q c /\ length q = ht v c }
          ensures { exists q. is_down v q t /\ length q = ht v t }
        = let r = pure { singleton t ++ q } in
          assert { r[0] = t };
          assert { forall i [q[i]]. 0 <= i < length q -> r[i + 1] = q[i] };
          assert { forall i [r[i]]. 0 < i < length r -> r[i] = q[i - 1] };
          assert { is_down v r t } in
        () in
      ()
    end
  let ghost append_down (v: view) (p q: seq int) (t s: int)
    requires { is_down v p t /\ p[length p - 1] = s }
    requires { is_down v q s }
    ensures { is_down v (p ++ q[1..]) t }
    ensures { (p ++ q[1..])[..length p] = p }
    ensures { length (p ++ q[1..]) = length p + length q - 1 }
  = let r = pure { p ++ q[1..] } in
    assert { forall i [p[i]]. 0 <= i < length p -> r[i] = p[i] };
    assert { forall i [q[i]]. 0 < i < length q -> r[length p - 1 + i] = q[i] };
    assert { r[length p - 1] = q[0] };
    assert { forall i [r[i]]. length p <= i < length r -> r[i] = q[i - length p + 1] };
    assert { forall i [r[i]]. length p <= i < length r -> par v r[i] = some r[i - 1] };
    assert { r[..length p] == p }
  (* get_split stops halfway *)
  let ghost half_down (v: view) (p: seq int) (t s: int)
    requires { forest v }
    requires { is_down v p t /\ p[length p - 1] = s }
    requires { ht v s + length p = ht v t + 1 }
    requires { length p >= ht v s }
    requires { length p = 1 \/ length p - 1 < ht v s + 1 }
    ensures { halfway v p t }
  = deep v s;
    let lemma one (q: seq int)
      requires { is_down v q s /\ length q = ht v s }
      ensures { halfway v p t }
    = append_down v p q t s;
      let lemma other (r: seq int) requires { is_down v r t } ensures { length r <= ht v t } = down_height v r t in
      assert { longest v (p ++ q[1..]) t } in
    ()
end

module MemTree
  use int.Int
  use sq.Sq
  use opt.Opt
  use mem.Mem
  use dict.Dict
  use py.PyTotal
  use TreeHeap
  use View
  use Chains

  let rec ghost loops (v: view) (t n: int)
    requires { par v t = some t }
    ensures { up v (some t) n = some t }
    variant { if n < 0 then 0 else n }
  = if n > 0 then begin ups v (pure { some t }) n; loops v t (n - 1) end
  let ghost no_self (v: view) (t: int)
    requires { ends v t }
    ensures { par v t <> some t }
  = if pure { par v t = some t } then begin
      let lemma one (n: int)
        requires { n >= 0 /\ up v (some t) n = none }
        ensures { false }
      = loops v t n in
      ()
    end

  let ghost apart_copy (d: dict int int) (h k: thp) (t: int)
    requires { apart d h /\ not (isn (dfind d t)) }
    requires { nalloc k = nalloc h + 1 /\ lalloc k = lalloc h }
    requires { forall m [nlist k m]. nlist k m = nlist h (if m = nalloc h then the (dfind d t) else m) }
    ensures { apart (dset d t (nalloc h)) k }
  = ()

  (* one step of the metric update *)
  predicate lifted (v w: view) (c: int) =
    same_tree v w /\ (forall s [ht w s]. s <> c -> ht w s = ht v s) /\ ht w c >= 1 /\
    (forall s [sz w s]. s <> c -> sz w s = sz v s) /\ sz w c = 1 + total (sizes v (kids v c)) /\
    (forall i [(kids v c)[i]]. 0 <= i < length (kids v c) -> ht v (kids v c)[i] < ht w c) /\
    (ht w c = 1 \/ exists i [(kids v c)[i]]. 0 <= i < length (kids v c) /\ ht w c = ht v (kids v c)[i] + 1)
  let ghost lift_shape (v w: view) (c: int)
    requires { shape v /\ has v c /\ lifted v w c }
    ensures { shape w }
  = let lemma each (s: int)
      requires { has w s }
      ensures { ends w s }
    = ends_same v w s in
    ()
  let ghost lift_self (v w: view) (c: int)
    requires { shape v /\ has v c /\ lifted v w c }
    ensures { heq w c }
  = no_self v c;
    assert { forall i [(kids v c)[i]]. 0 <= i < length (kids v c) -> mem (kids v c)[i] (kids v c) /\ (kids v c)[i] <> c };
    assert { sizes w (kids w c) == sizes v (kids v c) }
  let ghost lift_other (v w: view) (c s: int)
    requires { shape v /\ has v c /\ lifted v w c }
    requires { has v s /\ heq v s /\ s <> c }
    ensures { heq w s \/ par v c = some s }
  = if pure { par v c <> some s } then begin
      assert { forall i [(kids v s)[i]]. 0 <= i < length (kids v s) -> mem (kids v s)[i] (kids v s) /\ (kids v s)[i] <> c };
      assert { kids w s = kids v s };
      assert { sizes w (kids w s) == sizes v (kids v s) }
    end
  (* all tags that were balanced, or are above t0, are balanced or above o *)
  predicate climbing (v0 v: view) (t0 o: opt int) =
    forall s [heq v s]. has v s -> (heq v0 s \/ (not (isn t0) /\ anc v0 (the t0) s)) -> (heq v s \/ (not (isn o) /\ anc v (the o) s))
  let ghost climb (v0 v w: view) (t0 o: opt int)
    requires { not (isn o) /\ has v (the o) /\ shape v /\ lifted v w (the o) }
    requires { same_tree v0 v }
    requires { climbing v0 v t0 o }
    ensures { climbing v0 w t0 (par v (the o)) }
    ensures { shape w /\ same_tree v0 w }
  = let c = pure { the o } in
    lift_shape v w c;
    let lemma one (s: int)
      requires { has v s /\ (heq v0 s \/ (not (isn t0) /\ anc v0 (the t0) s)) }
      ensures { heq w s \/ (not (isn (par v c)) /\ anc w (the (par v c)) s) }
    = if pure { heq v s } then begin
        if s = c then lift_self v w c else begin
          lift_other v w c s;
          if pure { par v c = some s } then assert { anc w s s }
        end
      end else begin
        anc_step v c s;
        if s = c then lift_self v w c else anc_same v w (pure { the (par v c) }) s
      end in
    ()

  (* how far the ancestors go *)
  let ghost reach (v: view) (o: opt int) : int
    requires { shape v }
    ensures { result >= 0 }
    ensures { isn o \/ has v (the o) -> up v o result = none }
  = if isn o then 0 else if pure { has v (the o) } then begin
      assert { ends v (the o) };
      any int ensures { result >= 0 /\ up v o result = none }
    end else 0

  (* giving t another parent *)
  let rec ghost up_away (v w: view) (t: int) (o: opt int) (n: int)
    requires { forall s [par w s]. s <> t -> par w s = par v s }
    requires { forall k [up v o k]. 0 <= k <= n -> up v o k <> some t }
    ensures { up w o n = up v o n }
    variant { if n < 0 then 0 else n }
  = if n > 0 && not (isn o) then begin
      let p = pure { par v (the o) } in
      assert { up v o 0 = o };
      assert { the o <> t };
      let lemma one (k: int) requires { 0 <= k <= n - 1 } ensures { up v p k = up v o (k + 1) } = ups v o (k + 1) in
      up_away v w t p (n - 1);
      ups v o n; ups w o n
    end
  let rec ghost ends_after (v w: view) (t: int) (s n: int)
    requires { forall s [par w s]. s <> t -> par w s = par v s }
    requires { ends w t }
    requires { n >= 0 /\ up v (some s) n = none }
    ensures { ends w s }
    variant { n }
  = if s <> t then begin
      assert { n > 0 };
      let o = pure { par v s } in
      if isn o then begin ups w (pure { some s }) 1; assert { up w (some s) 1 = none } end else begin
        ends_after v w t (pure { the o }) (n - 1);
        let lemma one (m: int)
          requires { m >= 0 /\ up w o m = none }
          ensures { ends w s }
        = ups w (pure { some s }) (m + 1); assert { up w (some s) (m + 1) = none } in
        assert { o = some (the o) }
      end
    end
  let ghost ends_moved (v w: view) (t: int) (np: opt int)
    requires { forall s [par w s]. par w s = if s = t then np else par v s }
    requires { forall s [has v s]. has v s -> ends v s }
    requires { free v t np /\ has v t }
    ensures { forall s [has v s]. has v s -> ends w s }
  = if isn np then begin ups w (pure { some t }) 1; assert { up w (some t) 1 = none } end else begin
      let x = pure { the np } in
      assert { np = some x };
      assert { ends v x };
      let lemma one (n: int)
        requires { n >= 0 /\ up v (some x) n = none }
        ensures { ends w t }
      = up_away v w t np n;
        ups w (pure { some t }) (n + 1); assert { up w (some t) (n + 1) = none } in
      ()
    end;
    assert { ends w t };
    let lemma each (s: int)
      requires { has v s }
      ensures { ends w s }
    = let lemma one (n: int)
        requires { n >= 0 /\ up v (some s) n = none }
        ensures { ends w s }
      = ends_after v w t s n in
      () in
    ()
  predicate relinked (v w: view) (t: int) (np: opt int) =
    moved v w t np /\
    (forall s [ht w s]. ht w s = ht v s) /\ (forall s [sz w s]. sz w s = sz v s) /\
    (forall s c [mem c (kids w s)]. has v s -> (mem c (kids w s) <-> (if c = t then np = some s else mem c (kids v s)))) /\
    (forall s [kids w s]. has v s -> distinct (kids w s)) /\
    (forall s [kids w s]. has v s -> par v t <> some s -> np <> some s -> kids w s = kids v s)
  let ghost relink (v w: view) (t: int) (np: opt int)
    requires { shape v /\ has v t /\ free v t np /\ relinked v w t np }
    ensures { shape w }
    ensures { forall s [heq w s]. has v s -> heq v s -> par v t <> some s -> np <> some s -> heq w s }
  = ends_moved v w t np;
    let lemma same (s: int)
      requires { has v s /\ heq v s /\ par v t <> some s /\ np <> some s }
      ensures { heq w s }
    = assert { kids w s = kids v s };
      assert { sizes w (kids w s) == sizes v (kids v s) } in
    ()

  (* the list of children without and with t *)
  let ghost without (s r: seq int) (x i: int)
    requires { distinct s }
    requires { 0 <= i < length s /\ s[i] = x /\ r = s[..i] ++ s[i + 1..] }
    ensures { distinct r }
    ensures { forall c [mem c r]. mem c r <-> (c <> x /\ mem c s) }
  = assert { forall j [r[j]]. 0 <= j < i -> r[j] = s[j] };
    assert { forall j [r[j]]. i <= j < length r -> r[j] = s[j + 1] };
    assert { forall c [mem c r]. mem c r -> c <> x /\ mem c s };
    let lemma back (c: int)
      requires { c <> x /\ mem c s }
      ensures { mem c r }
    = let j = pure { pos c s } in
      if j < i then assert { r[j] = c } else assert { r[j - 1] = c } in
    ()
  let lemma without2 (s: seq int) (x i: int)
    requires { distinct s }
    requires { 0 <= i < length s /\ s[i] = x }
    ensures { distinct (s[..i] ++ s[i + 1..]) }
    ensures { forall c [mem c (s[..i] ++ s[i + 1..])]. mem c (s[..i] ++ s[i + 1..]) <-> (c <> x /\ mem c s) }
  = without s (pure { s[..i] ++ s[i + 1..] }) x i
  lemma with_one: forall s x [distinct (snoc s x)]. distinct s -> not (mem x s) -> distinct (snoc s x)

  (* a new tag *)
  let ghost plant (v w: view) (t: int) (b: opt int)
    requires { forest v /\ not (has v t) }
    requires { planted v w t b }
    requires { forall s [kids w s]. has v s -> kids w s = kids v s }
    requires { forall s [ht w s]. has v s -> ht w s = ht v s }
    requires { forall s [sz w s]. has v s -> sz w s = sz v s }
    requires { kids w t = empty /\ ht w t = 1 /\ sz w t = 1 }
    ensures { forest w }
  = let lemma each (s: int)
      requires { has w s }
      ensures { ends w s }
    = if s = t then begin ups w (pure { some t }) 1; assert { up w (some t) 1 = none } end else ends_same v w s in
    let lemma balanced (s: int)
      requires { has w s }
      ensures { heq w s }
    = if s <> t then begin
        assert { forall i [(kids v s)[i]]. 0 <= i < length (kids v s) -> mem (kids v s)[i] (kids v s) /\ has v (kids v s)[i] };
        assert { heq v s };
        assert { sizes w (kids w s) == sizes v (kids v s) }
      end else assert { sizes w (kids w t) == empty } in
    ()
end
