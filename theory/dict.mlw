(* Python dictionaries: finite maps that remember insertion order *)
module Dict
  use int.Int
  use sq.Sq
  use py.Py
  use opt.Opt

  type dict 'k 'v
  function dfind (d: dict 'k 'v) (k: 'k) : opt 'v
  function dkeys (d: dict 'k 'v) : seq 'k
  function dset (d: dict 'k 'v) (k: 'k) (v: 'v) : dict 'k 'v
  function ddel (d: dict 'k 'v) (k: 'k) : dict 'k 'v
  constant dempty : dict 'k 'v
  function dpos (d: dict 'k 'v) (k: 'k) : int  (* position of a key *)

  axiom find_empty: forall k: 'k [dfind (dempty: dict 'k 'v) k]. dfind (dempty: dict 'k 'v) k = none
  axiom keys_empty: dkeys (dempty: dict 'k 'v) = empty
  axiom find_set: forall d: dict 'k 'v, k v l [dfind (dset d k v) l].
    dfind (dset d k v) l = if l = k then some v else dfind d l
  axiom keys_set: forall d: dict 'k 'v, k v [dkeys (dset d k v)].
    dkeys (dset d k v) = if isn (dfind d k) then snoc (dkeys d) k else dkeys d
  axiom find_del: forall d: dict 'k 'v, k l [dfind (ddel d k) l].
    dfind (ddel d k) l = if l = k then none else dfind d l
  axiom keys_find: forall d: dict 'k 'v, i [(dkeys d)[i]].
    0 <= i < length (dkeys d) -> not (isn (dfind d (dkeys d)[i])) /\ dpos d (dkeys d)[i] = i
  axiom find_keys: forall d: dict 'k 'v, k [dpos d k | dfind d k].
    not (isn (dfind d k)) -> 0 <= dpos d k < length (dkeys d) /\ (dkeys d)[dpos d k] = k

  val dict_new () : dict 'k 'v ensures { result = dempty }
  val dict_find (d: dict 'k 'v) (k: 'k) : opt 'v ensures { result = dfind d k }
  val dict_get (d: dict 'k 'v) (k: 'k) : 'v
    requires { [@expl:key is present] not (isn (dfind d k)) }
    ensures { dfind d k = some result /\ result = the (dfind d k) }
  val dict_mem (d: dict 'k 'v) (k: 'k) : bool ensures { result <-> not (isn (dfind d k)) }
  val dict_set (d: dict 'k 'v) (k: 'k) (v: 'v) : dict 'k 'v ensures { result = dset d k v }
  val dict_del (d: dict 'k 'v) (k: 'k) : dict 'k 'v
    requires { [@expl:key is present] not (isn (dfind d k)) }
    ensures { result = ddel d k }
  val dict_keys (d: dict 'k 'v) : seq 'k ensures { result = dkeys d }
end
