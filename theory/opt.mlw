(* Optional values (None or a value).  Not the algebraic option type: the
   printer keeps only monomorphic algebraic types for the solvers. *)
module Opt
  type opt 'a
  val constant none : opt 'a
  val function some (x: 'a) : opt 'a
  val function isn (o: opt 'a) : bool
  val function the (o: opt 'a) : 'a
  axiom isn_none: isn (none: opt 'a)
  axiom isn_some: forall x: 'a [some x]. not (isn (some x))
  axiom the_some: forall x: 'a [some x]. the (some x) = x
  axiom some_the: forall o: opt 'a [isn o | the o]. not (isn o) -> o = some (the o)
  axiom none_isn: forall o: opt 'a [isn o]. isn o -> o = none
end
