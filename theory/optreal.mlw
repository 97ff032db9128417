(* unsimplified: the encoding of polymorphism is kept *)
module OptReal
  use option.Option
  type opt 'a = option 'a
  let constant none : opt 'a = None
  let function some (x: 'a) : opt 'a = Some x
  let function isn (o: opt 'a) : bool = match o with None -> true | Some _ -> false end
  val constant any_a : 'a
  let function the (o: opt 'a) : 'a = match o with None -> any_a | Some x -> x end
  clone opt.Opt with type opt = opt, val none = none, val some = some, val isn = isn, val the = the
end
module DictReal
  use int.Int
  use sq.Sq
  use py.Py
  use opt.Opt
  type dict 'k 'v = { ghost keys: seq 'k; ghost find: 'k -> opt 'v; ghost posi: 'k -> int }
    invariant { forall i [keys[i]]. 0 <= i < length keys -> not (isn (find keys[i])) /\ posi keys[i] = i }
    invariant { forall k [posi k | find k]. not (isn (find k)) -> 0 <= posi k < length keys /\ keys[posi k] = k }
    by { keys = pure { (empty: seq 'k) }; find = pure { fun (_: 'k) -> (none: opt 'v) }; posi = (fun _ -> 0) }
  function dfind (d: dict 'k 'v) (k: 'k) : opt 'v = d.find k
  function dkeys (d: dict 'k 'v) : seq 'k = d.keys
  function dpos (d: dict 'k 'v) (k: 'k) : int = d.posi k
  let ghost function dempty0 () : dict 'k 'v
    ensures { dkeys result = empty }
    ensures { forall k. dfind result k = none }
  = { keys = pure { (empty: seq 'k) }; find = pure { fun (_: 'k) -> (none: opt 'v) }; posi = (fun _ -> 0) }
  let ghost function dset (d: dict 'k 'v) (k: 'k) (v: 'v) : dict 'k 'v
    ensures { forall l [dfind result l]. dfind result l = if l = k then some v else dfind d l }
    ensures { dkeys result = if isn (dfind d k) then snoc (dkeys d) k else dkeys d }
  = let n = pure { length d.keys } in
    let was = pure { not (isn (d.find k)) } in
    { keys = pure { if was then d.keys else snoc d.keys k };
      find = pure { fun l -> if l = k then some v else d.find l };
      posi = pure { fun l -> if l = k then (if was then d.posi k else n) else d.posi l } }
  let ghost function ddel (d: dict 'k 'v) (k: 'k) : dict 'k 'v
    ensures { forall l [dfind result l]. dfind result l = if l = k then none else dfind d l }
  = if pure { isn (d.find k) } then d else
    let n = pure { length d.keys } in
    let p = pure { d.posi k } in
    let a = pure { d.keys[..p] } in
    let b = pure { d.keys[p + 1..] } in
    let c = pure { a ++ b } in
    assert { forall i [c[i]]. 0 <= i < n - 1 -> c[i] = if i < p then d.keys[i] else d.keys[i + 1] };
    assert { forall l [d.posi l]. not (isn (d.find l)) -> l <> k -> c[if d.posi l > p then d.posi l - 1 else d.posi l] = l };
    { keys = c;
      find = pure { fun l -> if l = k then none else d.find l };
      posi = pure { fun l -> if d.posi l > p then d.posi l - 1 else d.posi l } }
  constant dempty : dict 'k 'v = dempty0 ()
  clone dict.Dict with type dict = dict, function dfind = dfind, function dkeys = dkeys, function dset = dset, function ddel = ddel,
    constant dempty = dempty, function dpos = dpos
end
module RevReal
  use int.Int
  use sq.Sq
  let rec ghost function rev (s: seq 'a) : seq 'a
    variant { length s }
  = let n = pure { length s } in
    if n = 0 then pure { (empty: seq 'a) } else pure { singleton s[n - 1] } ++ rev (pure { s[..n - 1] })
  let rec lemma rev_length (s: seq 'a)
    variant { length s }
    ensures { length (rev s) = length s }
  = if pure { length s = 0 } then () else rev_length (pure { s[..length s - 1] })
  let rec ghost rev_get (s: seq 'a) (i: int)
    requires { 0 <= i < length s }
    variant { length s }
    ensures { (rev s)[i] = s[length s - 1 - i] }
  = if i = 0 then () else rev_get (pure { s[..length s - 1] }) (i - 1)
  let lemma rev_at (s: seq 'a) (i: int)
    requires { 0 <= i < length s }
    ensures { (rev s)[i] = s[length s - 1 - i] }
  = rev_get s i
  let lemma rev_rev (s: seq 'a)
    ensures { rev (rev s) = s }
  = assert { rev (rev s) == s }
  lemma front: forall s: seq 'a, x: 'a. (snoc s x)[..length (snoc s x) - 1] = s
  lemma rev_snoc: forall s: seq 'a, x: 'a. rev (snoc s x) = singleton x ++ rev s
  clone py.PyRev with function rev = rev
end
