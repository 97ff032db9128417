"""Contracts of serialize.py (C10, C11)."""
from vfw.spec import *

U64 = "18446744073709551616"
BYTES = TEXT
T = ["codec.Bytes", "codec.BytesLemmas", "codec.Varint", "codec.VarintLemmas"]

family(
    "item",
    ctors={},
    inject={TEXT: ("IText", "get_IText", "is_IText"), SLICE: ("ISlice", "get_ISlice", "is_ISlice")},
)
family("slice", ctors={}, fields={"start": INT, "stop": OPT(INT)})

fn(
    "serialize", "vserialize_int", params={"value": INT}, ret=BYTES, kind="bytes", theories=T,
    ensures=[("encodes the value", "codes _value result"), ("in range", f"0 <= _value < {U64}")],
    raises={"OverflowError": f"not (0 <= _value < {U64})"},
)

fn(
    "serialize", "vdeserialize_int", params={"stream": BYTES}, ret=TUP(INT, BYTES), kind="bytes", theories=T,
    requires=[("stream of bytes", "is_bytes _stream")],
    ensures=[
        ("value of the encoding at the front", "let (v, r) = result in has_v _stream /\\ v = vval _stream"),
        ("rest of the stream", "let (v, r) = result in r = _stream[vlen _stream[0]..] /\\ is_bytes r"),
    ],
    raises={"RuntimeError": "not (has_v _stream)"},
)

CT = T + ["codec.Script", "codec.ScriptLemmas"]

fn(
    "serialize", "serialize_changeset", params={"changeset": SEQ(FAM("item"))}, ret=BYTES, kind="bytes", theories=T + ["codec.Script", "codec.Reads"],
    requires=[("script of byte strings and slices in range", "ok_script _changeset")],
    ensures=[
        ("bytes", "is_bytes result"),
        ("decodes to the same script", "p_ok true result /\\ p_out true result empty = norm _changeset"),
    ],
    loops={
        1: Loop(inv=[
            ("bytes so far", "is_bytes _serialized"),
            ("decodes to the items so far", "rd true _serialized (norm it1[..k1]) _next_is_bytes"),
        ]),
    },
)

fn(
    "serialize", "deserialize_changeset", params={"stream": BYTES}, ret=SEQ(FAM("item")), kind="bytes", theories=CT,
    requires=[("stream of bytes", "is_bytes _stream")],
    ensures=[("decoded items", "result = p_out true _stream empty /\\ p_ok true _stream")],
    raises={"RuntimeError": ("DecodeError o", "not (p_ok true _stream) /\\ o = p_out true _stream empty")},
    loops={
        1: Loop(inv=[
            ("bytes", "is_bytes _stream"),
            ("items so far and the rest", """p_out true _0_stream empty = p_out _next_is_bytes _stream __out
               /\\ (p_ok true _0_stream <-> p_ok _next_is_bytes _stream)"""),
        ], var="length _stream"),
    },
)
