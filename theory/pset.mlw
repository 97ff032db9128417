(* Python sets: finite sets of values.  Module PsetReal proves the axioms from
   Why3's standard library. *)
module Pset
  use int.Int
  type pset 'a
  predicate pin (x: 'a) (s: pset 'a)
  function pcard (s: pset 'a) : int
  constant pempty : pset 'a
  function padd (s: pset 'a) (x: 'a) : pset 'a
  function punion (s t: pset 'a) : pset 'a
  predicate psub (s t: pset 'a)
  axiom psub_def: forall s t: pset 'a [psub s t]. psub s t <-> forall x: 'a [pin x s | pin x t]. pin x s -> pin x t
  axiom pin_empty: forall x: 'a [pin x (pempty: pset 'a)]. not (pin x (pempty: pset 'a))
  axiom pin_add: forall s, x y: 'a [pin y (padd s x)]. pin y (padd s x) <-> y = x \/ pin y s
  axiom pin_union: forall s t, x: 'a [pin x (punion s t)]. pin x (punion s t) <-> pin x s \/ pin x t
  axiom card_empty: pcard (pempty: pset 'a) = 0
  axiom card_add: forall s, x: 'a [padd s x]. pcard (padd s x) = if pin x s then pcard s else pcard s + 1
  axiom card_sub: forall s t: pset 'a [psub s t]. psub s t -> pcard s <= pcard t
  axiom sub_eq: forall s t: pset 'a [psub s t]. psub s t -> pcard s = pcard t -> s = t

  val set_new () : pset 'a ensures { result = pempty }
  val set_mem (s: pset 'a) (x: 'a) : bool ensures { result <-> pin x s }
  val set_add (s: pset 'a) (x: 'a) : pset 'a ensures { result = padd s x }
  val set_union (s t: pset 'a) : pset 'a ensures { result = punion s t }
  val set_card (s: pset 'a) : int ensures { result = pcard s }
end
module PsetReal
  use int.Int
  use set.Fset as F
  function padd (s: F.fset 'a) (x: 'a) : F.fset 'a = F.add x s
  clone Pset with type pset = F.fset, predicate pin = F.mem, function pcard = F.cardinal, constant pempty = F.empty,
    function padd = padd, function punion = F.union, predicate psub = F.subset
end
