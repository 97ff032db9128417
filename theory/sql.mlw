(* A database as the collections use it: tables from keys to contents, and a transaction *)
module Sql
  use int.Int
  use sq.Sq
  use py.Py
  use opt.Opt
  use dict.Dict

  (* tabs: what the connection sees; kept: what is committed; busy: a transaction is open *)
  type base = { mutable tabs: dict int (dict int int); mutable kept: dict int (dict int int); mutable busy: bool }
  val db : base

  predicate there (b: dict int (dict int int)) (t: int) = not (isn (dfind b t))
  function table (b: dict int (dict int int)) (t: int) : dict int int = the (dfind b t)
  predicate idle (b: base) = not b.busy /\ b.kept = b.tabs

  (* the same tables but for t, and t holds the same but for the key k *)
  predicate others (b c: dict int (dict int int)) (t: int) = forall u [dfind c u]. u <> t -> dfind c u = dfind b u
  predicate but (d e: dict int int) (k: int) = forall l [dfind e l]. l <> k -> dfind e l = dfind d l

  (* all keys, each once, in any order *)
  predicate listing (s: seq int) (d: dict int int) =
    (forall i j [s[i], s[j]]. 0 <= i < j < length s -> s[i] <> s[j]) /\ (forall i [s[i]]. 0 <= i < length s -> not (isn (dfind d s[i]))) /\
    (forall k [dfind d k]. not (isn (dfind d k)) -> exists i. 0 <= i < length s /\ s[i] = k)

  val sql_commit () : unit writes { db.kept, db.busy } ensures { db.kept = db.tabs /\ not db.busy }
  val sql_rollback () : unit writes { db.tabs, db.busy } ensures { db.tabs = db.kept /\ not db.busy }

  val sql_drop (t: int) : unit writes { db.tabs, db.kept }
    ensures { db.tabs = ddel (old db.tabs) t /\ db.kept = if db.busy then old db.kept else if old db.kept = old db.tabs then db.tabs else ddel (old db.kept) t }
  val sql_create (t: int) : unit writes { db.tabs, db.kept }
    requires { [@expl:no table of that name] isn (dfind db.tabs t) }
    ensures { db.tabs = dset (old db.tabs) t dempty /\ db.kept = if db.busy then old db.kept else if old db.kept = old db.tabs then db.tabs else dset (old db.kept) t dempty }
  val sql_select (t k: int) : opt int
    requires { [@expl:the table exists] there db.tabs t }
    ensures { result = dfind (table db.tabs t) k }
  val sql_some (t k: int) : opt int
    requires { [@expl:the table exists] there db.tabs t }
    ensures { isn result <-> isn (dfind (table db.tabs t) k) }
  val sql_insert (t k v: int) : unit writes { db.tabs, db.busy }
    requires { [@expl:the table exists] there db.tabs t }
    ensures { db.busy /\ db.tabs = dset (old db.tabs) t (dset (table (old db.tabs) t) k v) }
  val sql_update (t v k: int) : int writes { db.tabs, db.busy }
    requires { [@expl:the table exists] there db.tabs t }
    ensures { db.busy /\ if isn (dfind (table (old db.tabs) t) k) then result = 0 /\ db.tabs = old db.tabs
                         else result = 1 /\ db.tabs = dset (old db.tabs) t (dset (table (old db.tabs) t) k v) }
  val sql_delete (t k: int) : int writes { db.tabs, db.busy }
    requires { [@expl:the table exists] there db.tabs t }
    ensures { db.busy /\ result = (if isn (dfind (table (old db.tabs) t) k) then 0 else 1) /\
              db.tabs = if isn (dfind (table (old db.tabs) t) k) then old db.tabs else dset (old db.tabs) t (ddel (table (old db.tabs) t) k) }
  val sql_count (t: int) : opt int
    requires { [@expl:the table exists] there db.tabs t }
    ensures { result = some (length (dkeys (table db.tabs t))) }
  val sql_tags (t: int) : seq int
    requires { [@expl:the table exists] there db.tabs t }
    ensures { listing result (table db.tabs t) /\ length result = length (dkeys (table db.tabs t)) }
end

(* two dictionaries that answer alike: what the contracts say is what Python's own dictionary does *)
module AsDict
  use int.Int
  use sq.Sq
  use py.Py
  use opt.Opt
  use dict.Dict
  use Sql

  predicate alike (d e: dict int int) = forall k [dfind d k | dfind e k]. dfind d k = dfind e k

  lemma store: forall c d e: dict int int, k v. alike c d -> but d e k -> dfind e k = some v -> alike (dset c k v) e
  lemma erase: forall c d e: dict int int, k. alike c d -> but d e k -> isn (dfind e k) -> alike (ddel c k) e

  predicate inn (x: int) (t: seq int) = exists j. 0 <= j < length t /\ t[j] = x
  predicate within (s t: seq int) = forall i [s[i]]. 0 <= i < length s -> inn s[i] t
  predicate once (s: seq int) = forall i j [s[i], s[j]]. 0 <= i < j < length s -> s[i] <> s[j]

  function place (x: int) (t: seq int) : int
  axiom place_def: forall x t [inn x t]. inn x t -> 0 <= place x t < length t /\ t[place x t] = x

  let rec ghost fits (s t: seq int) : unit
    requires { once s /\ within s t }
    ensures { length s <= length t }
    variant { length s }
  = if length s > 0 then begin
      let x = s[length s - 1] in
      assert { inn x t };
      let j = pure { place x t } in
      let r = s[..length s - 1] in
      let u = t[..j] ++ t[j + 1..] in
      assert { forall i [r[i]]. 0 <= i < length r -> r[i] = s[i] /\ r[i] <> x };
      assert { forall i [t[i]]. 0 <= i < length t -> i <> j -> t[i] = if i < j then u[i] else u[i - 1] };
      assert { forall y [inn y t]. inn y t -> y <> x -> inn y u
        by let p = place y t in if p < j then u[p] = y else u[p - 1] = y };
      assert { within r u };
      fits r u
    end

  lemma keys_once: forall a: dict int int [dkeys a]. once (dkeys a)
  lemma keys_in: forall a b: dict int int [alike a b]. alike a b -> within (dkeys a) (dkeys b)

  let lemma count (d e: dict int int) : unit
    requires { alike d e }
    ensures { length (dkeys d) = length (dkeys e) }
  = assert { alike e d };
    fits (pure { dkeys d }) (pure { dkeys e });
    fits (pure { dkeys e }) (pure { dkeys d })
end
