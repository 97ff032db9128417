"""Contracts of db_collections.py (C19)."""
from vfw.spec import *

T = ["dict.Dict", "sql.Sql"]
record("dbcoll", cls="DBCollection", module="db_collections", fields={"table": TOK, "connection_factory": ("sqlfac",)})
SELF = REC("dbcoll")
NAME = "_self.dbcoll_table"
D, OLD = f"(table db.tabs {NAME})", f"(table (old db.tabs) {NAME})"
READY = [("the table exists and no transaction is open", f"there db.tabs {NAME} /\\ idle db")]
SAME = ("nothing is changed", "db.tabs = old db.tabs /\\ idle db")
KEPT = [("the change is committed", f"there db.tabs {NAME} /\\ idle db"), ("no other table is changed", f"others (old db.tabs) db.tabs {NAME}"),
        ("no other key is changed", f"but {OLD} {D} _tag")]
MISSING = {"KeyError": f"isn (dfind {OLD} _tag) /\\ db.tabs = old db.tabs /\\ idle db"}
W = ["db.tabs", "db.kept", "db.busy"]

fn("db_collections", "DBCollection.__init__", params={"self": SELF, "table": TOK, "connection_factory": ("sqlfac",)}, ret=NONE, theories=T, kind="plain",
   mutates=["self"], writes=["_self.dbcoll_table", "_self.dbcoll_connection_factory"] + W, requires=[("no transaction is open", "idle db")],
   ensures=[("an empty table", f"{NAME} = _table /\\ there db.tabs _table /\\ idle db /\\ forall k [dfind (table db.tabs _table) k]. isn (dfind (table db.tabs _table) k)"),
            ("no other table is changed", "others (old db.tabs) db.tabs _table")])
M = dict(theories=T, kind="plain", requires=READY)
fn("db_collections", "DBCollection.__getitem__", params={"self": SELF, "tag": TOK}, ret=TOK, writes=W, raises=MISSING,
   ensures=[("what was stored last under the key", f"dfind {OLD} _tag = some result"), SAME], **M)
fn("db_collections", "DBCollection.__setitem__", params={"self": SELF, "tag": TOK, "contents": TOK}, ret=NONE, writes=W,
   ensures=[("the contents are stored under the key", f"dfind {D} _tag = some _contents")] + KEPT, **M)
fn("db_collections", "DBCollection.__delitem__", params={"self": SELF, "tag": TOK}, ret=NONE, writes=W, raises=MISSING,
   ensures=[("the key was there and is gone", f"not (isn (dfind {OLD} _tag)) /\\ isn (dfind {D} _tag)")] + KEPT, **M)
fn("db_collections", "DBCollection.__iter__", params={"self": SELF}, ret=SEQ(TOK), writes=W,
   ensures=[("every key once", f"listing result {OLD}"), SAME],
   loops={1: Loop(inv=[("the keys so far", "__out == it1[..k1]"), ("no transaction is open", "idle db")])}, hints={"loop1.after": "assert { __out == it1 } ; assert { __out = it1 }"}, **M)
fn("db_collections", "DBCollection.__len__", params={"self": SELF}, ret=INT, writes=W,
   ensures=[("the number of keys", f"result = length (dkeys {OLD})"), SAME], **M)
fn("db_collections", "DBCollection.__contains__", params={"self": SELF, "tag": TOK}, ret=BOOL, writes=W,
   ensures=[("is something stored under the key", f"result <-> not (isn (dfind {OLD} _tag))"), SAME], **M)
