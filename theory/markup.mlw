(* Marked-up output: what is written for a stream of texts and changes *)
module MarkDef
  use int.Int
  use sq.Sq
  use opt.Opt
  use diff.Tree
  use diff.Streams

  (* function values: a marker for a branch name (or none), and the escaping of a text *)
  type mark = int
  function mk (m: mark) (n: opt (seq int)) : seq int
  type esc = int
  function es (e: esc) (t: seq int) : seq int
  type writer = int
  (* styles: dictionaries with fixed keys *)
  type marks = { marks_prefix: mark; marks_suffix: mark }
  type hdr = { hdr_prefix: opt (seq int); hdr_suffix: opt (seq int) }
  type style = { style_into: marks; style_from: marks; style_separator: seq int; style_header: opt hdr }
  type styles = { styles_level0: style; styles_level1: style }
  (* a side of a change: a text, or a stream of texts and changes of texts *)
  type mside = MText (seq int) | MList (seq ditem)
  type mitem = IText (seq int) | IChange mside mside

  function wrap (m: marks) (n: opt (seq int)) (body: seq int) : seq int = mk m.marks_prefix n ++ body ++ mk m.marks_suffix n
  (* one item of a stream of texts and changes of texts; an empty side is omitted *)
  function piece1 (i o: marks) (sep: seq int) (n f: opt (seq int)) (e: esc) (x: ditem) : seq int =
    match x with
    | DText t -> es e t
    | DChange a b -> (if length a > 0 then wrap i n (es e a) else empty) ++ sep ++ (if length b > 0 then wrap o f (es e b) else empty)
    end
  predicate given (x: mside) = match x with MText t -> length t > 0 | MList l -> length l > 0 end
end
module Mark
  use int.Int
  use sq.Sq
  use opt.Opt
  use diff.Tree
  use diff.Streams
  use export MarkDef
  function pieces (i o: marks) (sep: seq int) (n f: opt (seq int)) (e: esc) (l: seq ditem) : seq int
  axiom pieces_empty: forall i o sep n f e. pieces i o sep n f e empty = empty
  axiom pieces_snoc: forall i o sep n f e l x [pieces i o sep n f e (snoc l x)]. pieces i o sep n f e (snoc l x) = pieces i o sep n f e l ++ piece1 i o sep n f e x
  (* a side: its text, or its stream in the style of nested changes, without names *)
  function sidetext (i o: marks) (sep: seq int) (e: esc) (x: mside) : seq int = match x with MText t -> es e t | MList l -> pieces i o sep none none e l end
  function ipiece1 (i o: marks) (sep: seq int) (i1 o1: marks) (sep1: seq int) (n f: opt (seq int)) (e: esc) (x: mitem) : seq int =
    match x with
    | IText t -> es e t
    | IChange a b -> (if given a then wrap i n (sidetext i1 o1 sep1 e a) else empty) ++ sep ++ (if given b then wrap o f (sidetext i1 o1 sep1 e b) else empty)
    end
  function ipieces (i o: marks) (sep: seq int) (i1 o1: marks) (sep1: seq int) (n f: opt (seq int)) (e: esc) (l: seq mitem) : seq int
  axiom ipieces_empty: forall i o sep i1 o1 sep1 n f e. ipieces i o sep i1 o1 sep1 n f e empty = empty
  axiom ipieces_snoc: forall i o sep i1 o1 sep1 n f e l x [ipieces i o sep i1 o1 sep1 n f e (snoc l x)].
    ipieces i o sep i1 o1 sep1 n f e (snoc l x) = ipieces i o sep i1 o1 sep1 n f e l ++ ipiece1 i o sep i1 o1 sep1 n f e x
  (* a whole stream in a style *)
  function shown (s: style) (n f: opt (seq int)) (e: esc) (l: seq ditem) : seq int = pieces s.style_into s.style_from s.style_separator n f e l
  function sideshown (s: style) (e: esc) (x: mside) : seq int = sidetext s.style_into s.style_from s.style_separator e x
  function ishown (s s1: style) (n f: opt (seq int)) (e: esc) (l: seq mitem) : seq int =
    ipieces s.style_into s.style_from s.style_separator s1.style_into s1.style_from s1.style_separator n f e l
end
module MarkReal
  use int.Int
  use sq.Sq
  use opt.Opt
  use diff.Tree
  use diff.Streams
  use MarkDef
  let rec ghost function pieces (i o: marks) (sep: seq int) (n f: opt (seq int)) (e: esc) (l: seq ditem) : seq int
    variant { length l }
  = if length l = 0 then empty else pieces i o sep n f e l[..length l - 1] ++ pure { piece1 i o sep n f e l[length l - 1] }
  lemma front: forall l, x: ditem. (snoc l x)[..length (snoc l x) - 1] = l
  (* a side: its text, or its stream in the style of nested changes, without names *)
  function sidetext (i o: marks) (sep: seq int) (e: esc) (x: mside) : seq int = match x with MText t -> es e t | MList l -> pieces i o sep none none e l end
  function ipiece1 (i o: marks) (sep: seq int) (i1 o1: marks) (sep1: seq int) (n f: opt (seq int)) (e: esc) (x: mitem) : seq int =
    match x with
    | IText t -> es e t
    | IChange a b -> (if given a then wrap i n (sidetext i1 o1 sep1 e a) else empty) ++ sep ++ (if given b then wrap o f (sidetext i1 o1 sep1 e b) else empty)
    end
  let rec ghost function ipieces (i o: marks) (sep: seq int) (i1 o1: marks) (sep1: seq int) (n f: opt (seq int)) (e: esc) (l: seq mitem) : seq int
    variant { length l }
  = if length l = 0 then empty else ipieces i o sep i1 o1 sep1 n f e l[..length l - 1] ++ pure { ipiece1 i o sep i1 o1 sep1 n f e l[length l - 1] }
  lemma ifront: forall l, x: mitem. (snoc l x)[..length (snoc l x) - 1] = l
  clone Mark with function pieces = pieces, function ipieces = ipieces
end
module Write
  use int.Int
  use sq.Sq
  use opt.Opt
  use diff.Tree
  use diff.Streams
  use Mark

  (* everything written so far, writer by writer *)
  type outs
  function outof (o: outs) (w: writer) : seq int
  predicate open_ (o: outs) (w: writer)
  type wheap = { mutable out: outs }
  val wr : wheap
  predicate wrote (o o': outs) (w: writer) (s: seq int) =
    outof o' w = outof o w ++ s /\ forall v [outof o' v | open_ o' v]. open_ o v -> open_ o' v /\ (v <> w -> outof o' v = outof o v)

  function text_or_none (n: opt (seq int)) : seq int  (* the name, or the text "None" *)
  axiom text_given: forall n [text_or_none n]. not (isn n) -> text_or_none n = the n
  val str_or_none (n: opt (seq int)) : seq int ensures { result = text_or_none n }
  function basename (s: seq int) : seq int  (* nothing is assumed of os.path.basename *)

  val is_MText (x: mside) : bool ensures { result <-> match x with MText _ -> true | _ -> false end }
  val is_MList (x: mside) : bool ensures { result <-> match x with MList _ -> true | _ -> false end }
  val get_MText (x: mside) : seq int
    requires { [@expl:side is a text] match x with MText _ -> true | _ -> false end }
    ensures { x = MText result }
  val get_MList (x: mside) : seq ditem
    requires { [@expl:side is a stream] match x with MList _ -> true | _ -> false end }
    ensures { x = MList result }
  val truthy_mside (x: mside) : bool ensures { result <-> given x }
  val is_IText (x: mitem) : bool ensures { result <-> match x with IText _ -> true | _ -> false end }
  val is_IChange (x: mitem) : bool ensures { result <-> match x with IChange _ _ -> true | _ -> false end }
  val get_IText (x: mitem) : seq int
    requires { [@expl:item is a text] match x with IText _ -> true | _ -> false end }
    ensures { x = IText result }
  val get_mitem_a (x: mitem) : mside
    requires { [@expl:object has the attribute] match x with IChange _ _ -> true | _ -> false end }
    ensures { match x with IChange a _ -> result = a | _ -> false end }
  val get_mitem_b (x: mitem) : mside
    requires { [@expl:object has the attribute] match x with IChange _ _ -> true | _ -> false end }
    ensures { match x with IChange _ b -> result = b | _ -> false end }
  val get_writer_write (w: writer) : writer ensures { result = w }

  (* the header of a diff *)
  function some_or_empty (t: opt (seq int)) : seq int = if isn t then empty else the t
  function header (s: style) (h: opt (seq int)) : seq int =
    if isn h || length (the h) = 0 then empty
    else if isn s.style_header then singleton 10 ++ the h
    else singleton 10 ++ some_or_empty (the s.style_header).hdr_prefix ++ the h ++ some_or_empty (the s.style_header).hdr_suffix
end
