"""The SQL statements the extraction knows, each with its assumed meaning (theory/sql.mlw)."""
import ast
import re

# normalised text ({} is the table) -> (WhyML function, number of parameters, what execute() gives)
ONE, INTS, ALL, CHANGED, NOTHING = "one", "ints", "all", "changed", "nothing"
UPSERT = "on conflict(tag) do update set data=excluded.data"
SQL = {
    "drop table if exists {}": ("sql_drop", 0, NOTHING),
    "create table {}(tag text primary key,data blob)": ("sql_create", 0, NOTHING),
    "create table {}(tag text not null primary key,data blob)": ("sql_create", 0, NOTHING),
    "select data from {} where tag=?": ("sql_select", 1, ONE),
    "select tag from {} where tag=?": ("sql_some", 1, ONE),
    "select 1 from {} where tag=?": ("sql_some", 1, ONE),
    "insert into {}(tag,data)values(?,?)" + UPSERT: ("sql_insert", 2, NOTHING),
    "insert or replace into {}(tag,data)values(?,?)": ("sql_insert", 2, NOTHING),
    "replace into {}(tag,data)values(?,?)": ("sql_insert", 2, NOTHING),
    "update {} set data=? where tag=?": ("sql_update", 2, CHANGED),
    "delete from {} where tag=?": ("sql_delete", 1, CHANGED),
    "select count(*)from {}": ("sql_count", 0, INTS),
    "select count(tag)from {}": ("sql_count", 0, INTS),
    "select count(1)from {}": ("sql_count", 0, INTS),
    "select tag from {}": ("sql_tags", 0, ALL),
    "select tag from {} order by tag": ("sql_tags", 0, ALL),
}


def normal(s):
    s = re.sub(r"\s+", " ", s.strip().rstrip(";").strip()).lower()
    return re.sub(r"(?<=[(),=?*]) | (?=[(),=?*])", "", s)


TEXTS = {normal(k): v for k, v in SQL.items()}


def template(node, text_of):
    """(SQL text with {} for the table, expression of the table) of an f-string or a .format() call, or None"""
    if isinstance(node, ast.JoinedStr):
        text, names = "", []
        for v in node.values:
            if isinstance(v, ast.Constant):
                text += v.value
            elif v.conversion == -1 and v.format_spec is None:
                text, names = text + "{}", names + [v.value]
            else:
                return None
        return (text, names[0]) if len(names) == 1 else None
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "format":
        text = text_of(node.func.value)
        if text is None or len(re.findall(r"[{}]", text)) != 2:
            return None
        if len(node.args) == 1 and not node.keywords and re.search(r"\{0?\}", text):
            return re.sub(r"\{0?\}", "{}", text), node.args[0]
        if not node.args and len(node.keywords) == 1 and "{%s}" % node.keywords[0].arg in text:
            return text.replace("{%s}" % node.keywords[0].arg, "{}"), node.keywords[0].value
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
        text = text_of(node.left)
        if text is not None and text.count("%s") == text.count("%") == 1 and "{" not in text:
            return text.replace("%s", "{}"), node.right.elts[0] if isinstance(node.right, ast.Tuple) and len(node.right.elts) == 1 else node.right
    return None
