"""Contracts of tokenizers.py (C12, C18).

Class t of a tokenizer: 0 NullTokenizer, 1 CharTokenizer, 2 LineTokenizer,
3 SymbolTokenizer.  Every class is proved against the same contract, PROTO,
with its own numbering of pieces; the Tokenizer protocol, through which the
rest of the code calls them, is PROTO with the numbering kept abstract."""
from vfw.spec import *
import specs.changesets  # noqa: F401
import specs.merge  # noqa: F401

K = ["py.PyFlat", "mem.Mem", "dict.Dict", "tokens.Cut", "tokens.Utf8", "tokens.Spell", "tokens.Tokens", "tokens.Splits"]
PIECES = SEQ(TEXT)

SRC = OPT(KIND)
for cls, fields in {
    "NullTokenizer": {}, "CharTokenizer": {},
    "LineTokenizer": {"bytes_encoding": DICT(TEXT, INT), "bytes_decoding": PIECES},
    "SymbolTokenizer": {"encoding": DICT(TEXT, INT), "decoding": PIECES},
}.items():
    record(cls[:4].lower() + "tok", cls=cls, module="tokenizers", fields={"source_type": SRC, **fields})

NUMBERED = "numbered {0}"
fn("tokenizers", "generic_encode", params={"unencoded_tokens": PIECES, "encoding": DICT(TEXT, INT)}, ret=TUP(SEQ(INT), PIECES), theories=K + ["tokens.Number"], kind="plain",
   mutates=["encoding"],
   requires=[("numbered in order", "numbered _encoding")],
   ensures=[("numbered in order", "numbered _encoding"),
            ("the numbering grows", "extends (dkeys _encoding) (old (dkeys _encoding))"),
            ("the pieces in order of their numbers", "let (_, d) = result in d = dkeys _encoding"),
            ("one number per piece", "let (e, _) = result in length e = length _unencoded_tokens"),
            ("the number of each piece", "let (e, _) = result in forall i [e[i]]. 0 <= i < length e -> 0 <= e[i] < length (dkeys _encoding) /\\ (dkeys _encoding)[e[i]] = _unencoded_tokens[i]")],
   loops={1: Loop(inv=[("numbered in order", "numbered _encoding"),
                       ("the numbering grows", "extends (dkeys _encoding) (dkeys g_enc)"),
                       ("pieces seen are numbered", "forall i [it1[i]]. 0 <= i < k1 -> not (isn (dfind _encoding it1[i]))")])},
   hints={"end": "let (_, d) = result_ in assert { d == dkeys _encoding }"},
   ghosts={"g_enc": ("dict (seq int) int", "_encoding")})
fn("tokenizers", "generic_decode", params={"contents": SEQ(INT), "decoding": PIECES, "separator": TEXT}, ret=TEXT, theories=["py.PyJoin"] + K,
   requires=[("str or bytes", "kk <> KTuple"), ("empty separator", "length _separator = 0"), ("known tokens", "allknown 2 _decoding _contents")],
   ensures=[("the pieces joined", "result = spell 2 _decoding _contents")])


def proto(t, src, keys, contents="_contents"):
    """requires and ensures of encode and decode for class t"""
    return dict(
        enc_req=[("one kind of text", f"isn {src} \\/ {src} = some kk"), ("a text this tokenizer takes", f"okin {t} {contents}")],
        enc_ens=[("kind remembered", f"{src} = some kk"),
                 ("known tokens", f"allknown {t} {keys} result"),
                 ("one token per piece, standing for it", f"pieces {t} {keys} result = chop {t} {contents}"),
                 ("earlier tokens keep their pieces", f"extends {keys} (old {keys})"),
                 ("no piece has two numbers", f"distinct {keys}")],
        dec_req=[("str or bytes", "kk <> KTuple"), ("something was encoded", f"{src} = some kk"), ("known tokens", f"allknown {t} {keys} {contents}")],
        dec_ens=[("the pieces of the tokens, one after the other", f"result = spell {t} {keys} {contents}")],
    )


def concrete(t, cls, dname=None, ename=None):
    rec = cls[:4].lower() + "tok"
    src = f"_self.{rec}_source_type"
    keys = f"(dkeys _self.{rec}_{ename})" if ename else "(empty: seq (seq int))"
    pr = proto(t, src, keys)
    inv = []
    if ename:
        inv = [("numbered in order", f"numbered _self.{rec}_{ename}"), ("decoder in step", f"not (isn {src}) -> _self.{rec}_{dname} = {keys}")]
    th = ["py.PyJoin"] + K + ["tokens.Number"]
    tr = SEQ(INT) if t else TEXT
    fn("tokenizers", f"{cls}.encode", params={"self": REC(rec), "contents": TEXT}, ret=tr, theories=th, mutates=["self"],
       hints={"generic_encode#1.before": "split_lines _contents _split_on _split _lines"} if t == 2 else {},
       writes=[f"_self.{rec}_source_type"] + ([f"_self.{rec}_{ename}", f"_self.{rec}_{dname}"] if ename else []),
       requires=inv + pr["enc_req"], ensures=inv + pr["enc_ens"])
    fn("tokenizers", f"{cls}.decode", params={"self": REC(rec), "contents": tr}, ret=TEXT, theories=th,
       requires=inv + pr["dec_req"], ensures=pr["dec_ens"])
    if ename:
        fn("tokenizers", f"{cls}.__init__", params={"self": REC(rec)}, ret=UNIT, theories=th, mutates=["self"], writes=[f"_self.{rec}_{ename}"],
           ensures=[("no piece is numbered", f"dkeys _self.{rec}_{ename} = empty"), ("numbered in order", f"numbered _self.{rec}_{ename}")])


concrete(0, "NullTokenizer")
concrete(1, "CharTokenizer")
concrete(2, "LineTokenizer", "bytes_decoding", "bytes_encoding")
concrete(3, "SymbolTokenizer", "decoding", "encoding")

# ---- the Tokenizer protocol: PROTO with the numbering kept abstract
objclass("tok", cls="Tokenizer", module="tokenizers", fields={})
TOKZ = OBJ("tok")
H = K + ["tokdiff.TokHeap"]
T_, S_, N_ = "(tcls _self)", "(tsrc th.ts _self)", "(tkeys th.ts _self)"
PR = proto(T_, S_, N_)
PROTO_NOTE = "the contract every tokenizer class is proved against, for an unknown class"
fn("tokenizers", "Tokenizer.encode", params={"self": TOKZ, "contents": TEXT}, ret=TEXT, theories=H, extern=True, writes=["th.ts"], note=PROTO_NOTE,
   requires=PR["enc_req"], ensures=PR["enc_ens"] + [("other tokenizers are unchanged", "same_others (old th.ts) th.ts _self")])
fn("tokenizers", "Tokenizer.decode", params={"self": TOKZ, "contents": TEXT}, ret=TEXT, theories=H, extern=True, note=PROTO_NOTE,
   requires=PR["dec_req"], ensures=PR["dec_ens"])
fn("<tok>", "NullTokenizer", vname="new_null_tokenizer", params={}, ret=TOKZ, theories=H, extern=True, writes=["th.ts"],
   ensures=["tcls result = 0", "isn (tsrc th.ts result)", "same_others (old th.ts) th.ts result"],
   note="a new NullTokenizer object; its class attribute source_type is None")
fn("<fn>", "transform", params={"s": TEXT}, ret=TEXT, theories=["tokdiff.Decoded"], extern=True, ensures=["result = given _s"],
   note="the caller's function: any function of the text")

DT = H + ["tokdiff.Decoded", "tokdiff.DecodedDiff", "diff.Tree", "diff.Streams"]
DITEMS = SEQ(FAM("ditem"))
for key, f, extra in (("tokenizers.decode_changes", "true", {"transform": FN("transform")}), ("tokenizers.decode_changes(plain)", "false", {})):
    fn("tokenizers", "decode_changes", key=key, vname="tokenizers__decode_changes" + ("" if extra else "_plain"), params={"changes": DITEMS, "tokenizer": TOKZ, **extra}, ret=DITEMS, theories=DT, classes={"Change": "ditem"},
       requires=[("str or bytes", "kk <> KTuple"), ("something was encoded", "tsrc th.ts _tokenizer = some kk"),
                 ("known tokens", "dknown (tcls _tokenizer) (tkeys th.ts _tokenizer) _changes")],
       ensures=[("every piece of text decoded" + (" and transformed" if extra else ""), f"result = ditems {f} (tcls _tokenizer) (tkeys th.ts _tokenizer) _changes")],
       loops={1: Loop(inv=[("so far", f"__out = ditems {f} (tcls _tokenizer) (tkeys th.ts _tokenizer) it1[..k1]")])})

GIVEN = [("a tokenizer that can take these texts", "not (isn _tokenizer) -> let t = the _tokenizer in (isn (tsrc th.ts t) \\/ tsrc th.ts t = some kk) /\\ {}"),
         ("str or bytes", "kk <> KTuple")]
fn("tokenizers", "diff", params={"original": TEXT, "modified": TEXT, "tokenizer": OPT(TOKZ)}, ret=DITEMS, theories=DT, writes=["th.ts"],
   client={"tokenizers.NullTokenizer": "<tok>.NullTokenizer", "tokenizers.decode_changes": "tokenizers.decode_changes(plain)"},
   requires=[(GIVEN[0][0], GIVEN[0][1].format("okin (tcls t) _original /\\ okin (tcls t) _modified")), GIVEN[1]],
   ensures=[("read with its insertions it is the modified text", "dnew result = _modified"),
            ("read with its deletions it is the original text", "dold result = _original")])
MT = DT + ["merge.Mark", "merge.Marks", "merge.FragOps", "merge.Shows", "merge.Groups", "tokdiff.DecodedMerge"]
fn("tokenizers", "merged", params={"parent": TEXT, "current": TEXT, "other": TEXT, "tokenizer": OPT(TOKZ), "transformer": FN("transform")}, ret=DITEMS, theories=MT, writes=["th.ts"],
   client={"tokenizers.NullTokenizer": "<tok>.NullTokenizer"},
   hints={"end": "assert { decoded_as (tcls (the _tokenizer)) (tkeys th.ts (the _tokenizer)) _parent _current _other _encoded_parent _encoded_current _encoded_other _changes }"},
   requires=[(GIVEN[0][0], GIVEN[0][1].format("okin (tcls t) _parent /\\ okin (tcls t) _current /\\ okin (tcls t) _other")), GIVEN[1]],
   ensures=[("the token-level merge, decoded and transformed", "let t = if isn _tokenizer then 0 else tcls (the _tokenizer) in decoded_merge t _parent _current _other result")])
