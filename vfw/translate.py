"""Mechanical extraction of a Python function into a WhyML function.

Everything the extraction does not understand raises Unsupported, which the
checks report as an obligation that could not be discharged."""
from __future__ import annotations

import ast
import os
import re
from vfw import pysrc, sqltext
from vfw.pysrc import PKG, Mod, module, resolve, class_fields, is_generator
from vfw.ptypes import *
from vfw.spec import FNS, FAMILIES, RECORDS, OBJS, TOKENS, Fn, Loop

EXC = {"RuntimeError", "OverflowError", "KeyError", "IndexError", "ValueError", "TypeError", "NotImplementedError", "StopIteration", "AttributeError", "AssertionError"}


def joint(a, b):
    return join(a, b, FAMILIES)


class Code(str):
    pass


def has_effect(code):
    return "<-" in code or "raise " in code or "__" in code or "return " in code


class Scope:
    """A Python function body being translated (top level or inlined)."""

    def __init__(self, mod, node, prefix, clsname=None):
        self.mod = mod
        self.node = node
        self.prefix = prefix
        self.clsname = clsname
        self.locals = local_names(node)
        self.comp = []  # comprehension substitutions
        self.is_gen = is_generator(node)
        self.retvar = None
        self.retexc = None
        self.out = None
        self.closures = {}
        self.lambdas = {}


def local_names(f):
    names = []
    glob = set()

    def add(n):
        if n not in names:
            names.append(n)

    a = f.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        add(x.arg)
    if a.vararg:
        add(a.vararg.arg)
    if a.kwarg:
        add(a.kwarg.arg)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)

        def visit_Global(self, n):
            glob.update(n.names)

        visit_Nonlocal = visit_Global

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    add(m.target.id)
            # only the first iterable is evaluated in this scope; targets are private

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    v = V()
    for s in f.body:
        v.visit(s)
    return [n for n in names if n not in glob]


LAMBDAS = {}


class Translator:
    def __init__(self, fn: Fn):
        self.fn = fn
        self.mod = module(fn.module)
        self.src_qual = fn.qual
        node = self.mod.defs.get(fn.qual)
        if node is None and "." in fn.qual and fn.qual.split(".")[0] in FAMILIES:
            node = self.dispatcher()
        if node is None:
            raise Unsupported(f"{fn.module}.{fn.qual} not found in the source")
        self.node = node
        self.env = {}  # why name -> type
        self.vals = {}  # callee contracts used
        self.iface_used = {}
        self.inlined = []
        self.used_builtin = set()
        self.notes = set()
        self.body_missing_hints = set()

    # ---------------------------------------------------------------- driver
    def translate(self):
        fn = self.fn
        for p, t in fn.params.items():
            self.env["_" + p] = t
        for p, t in fn.locals.items():
            self.env["_" + p] = t
        self.loopfresh = {}
        last = None
        for it in range(14):
            self.changed = False
            self.final = False
            try:
                self.one_pass()
            except Unsupported as e:
                # may be an artefact of missing types; keep going if types grew
                if not self.changed:
                    last = e
                    break
                continue
            if not self.changed:
                break
        else:
            raise Unsupported("type inference does not stabilise")
        self.final = True
        text = self.one_pass()
        return text

    def one_pass(self):
        fn = self.fn
        self.loopno = 0
        self.compno = 0
        self.tmpno = 0
        self.inlno = 0
        self.callno = {}
        self.anchors = set()
        self.needdiv = False
        self.narrow = {}
        self.defs = set()
        self.fresh = set()
        self.dead = False
        self.withs = self.inwith = 0  # with statements around, in this function and in those it is inlined into
        self.connecting = False
        cls = fn.qual.rsplit(".", 1)[0] if "." in fn.qual and fn.qual.rsplit(".", 1)[0] in self.mod.classes else None
        sc = Scope(self.mod, self.node, "_", cls)
        self.sc = sc
        a = self.node.args
        pynames = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            pynames.append(a.vararg.arg)
        given = [x for l in fn.kwargs.values() for x in l]
        if a.kwarg and a.kwarg.arg not in fn.kwargs or fn.kwargs and not a.kwarg:
            raise Unsupported("keyword parameters")
        if given or fn.free:
            self.check_closure()
            sc.locals = sc.locals + given + fn.free + [c for c in fn.cells if c not in sc.locals]
            pynames += given + fn.free
        extra = [p for p in fn.params if p not in pynames]
        if extra:
            raise Unsupported(f"parameters {extra} of the contract are not in the source")
        missing = [p for p in pynames if p not in fn.params]
        # new parameters are acceptable only if they have defaults: they are bound to them
        defaults = default_map(self.node)
        for p in missing:
            if p not in defaults:
                raise Unsupported(f"parameter {p} has no contract")
        assigned = assigned_names(self.node)
        self.toplocals = []
        decls = []
        for p in pynames:
            if p in fn.params:
                self.defs.add("_" + p)
                if p in fn.mutates:
                    self.fresh.add("_" + p)
        body_pre = []
        for p in missing:
            c, t = self.ex(defaults[p])
            if t[0] in ("lam", "pyfn"):
                self.env["_" + p] = t
                self.defs.add("_" + p)
                continue
            body_pre.append(self.assign_name(p, c, t, defaults[p]))
        if sc.is_gen:
            sc.out = "__out"
            it = fn.ret[1] if fn.ret[0] == "seq" else BOT
            self.env["__out"] = SEQ(it)
        code = self.hint("start") + body_pre + self.block(self.node.body)
        # fallthrough
        tail = []
        if not self.dead:
            tail += self.hint("end")
            if sc.is_gen:
                tail.append("return __out")
            else:
                tail.append(self.ret_code(None))
        elif True:
            tail.append("absurd") if False else None
        code += tail
        # declarations
        allvars = [n for n in self.env if n not in {"_" + p for p in fn.params}]
        lines = []
        for p in fn.params:
            w = "_" + p
            if p in assigned and p not in fn.mutates:
                lines.append(f"let _0{w} = {w} in")
                lines.append(f"let ref {w} = {w} in")
        for g, (t, init) in fn.ghosts.items():
            lines.append(f"let ref {g} : {t if isinstance(t, str) else why(t)} = {init} in")
        for w in allvars:
            t = self.env[w]
            if w == "__out":
                lines.append(f"let ref {w} = (py_empty () : {why(self.env[w])}) in")
                continue
            t2 = defaulted(t)
            if t[0] in ("fnval", "lam", "pyfn"):
                continue
            lines.append(f"let ref {w} = (any {why(t2)}) in")
        self.lastcode = code
        return self.function_text(lines, code)

    def dispatcher(self):
        """a method of a family: the method of the class of the first argument"""
        fam, meth = self.fn.qual.split(".")
        fam = FAMILIES[fam]
        params = list(self.fn.params)
        node = ast.parse(f"def {meth}({', '.join(params)}): pass").body[0]
        body = []
        classes = list(fam.ctors)
        for i, cls in reversed(list(enumerate(classes))):
            m = module(fam.home.get(cls, self.fn.module))
            d = m.defs.get(f"{cls}.{meth}")
            if d is None:
                raise Unsupported(f"{cls}.{meth} not found in the source")
            call = ast.parse(f"{params[0]}.{meth}({', '.join(params[1:])})", mode="eval").body
            call._dispatch = (m, d, f"{cls}.{meth}")
            ret = ast.Return(value=call)
            if i == len(classes) - 1:
                body = [ret]
            else:
                body = [ast.If(test=ast.parse(f"isinstance({params[0]}, {cls})", mode="eval").body, body=[ret], orelse=body)]
        node.body = body
        return ast.fix_missing_locations(node)

    def check_closure(self):
        """variables of the enclosing function are bound once, before the inner function"""
        fn = self.fn
        outer = self.mod.defs.get(fn.qual.rsplit(".", 1)[0])
        if outer is None:
            raise Unsupported("enclosing function not found")
        names = local_names(outer)
        for v in fn.free + list(fn.cells):
            if v not in names:
                raise Unsupported(f"{v} is not a variable of the enclosing function")
            if v in assigned_names(self.node):
                if v in fn.free:
                    raise Unsupported(f"{v} is changed by the inner function")
            stores = [n for n in ast.walk(outer) if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store)]
            params = [x.arg for x in outer.args.args]
            if len(stores) + (v in params) != 1:
                raise Unsupported(f"{v} is bound more than once")

    def function_text(self, lines, code):
        fn = self.fn
        if self.final:
            for anchor in fn.hints:
                if anchor not in self.anchors:
                    self.body_missing_hints.add(anchor)
        params = []
        for p, t in fn.params.items():
            ref = "ref " if p in fn.mutates and t[0] not in ("rec",) else ""
            params.append(f"({ref}_{p}: {why(t)})")
        for g, t in fn.ghost_params:
            params.append(f"(ghost {g}: {why(t)})")
        if not params:
            params = ["()"]
        out = []
        rec = "rec " if fn.rec else ""
        out.append(f"let {rec}{fn.why} {' '.join(params)} : {why(defaulted(fn.ret))}")
        out += contract_lines(fn, self.callee_iface(fn))
        if fn.variant:
            out.append(f"  variant {{ {fn.variant} }}")
        if fn.diverges or self.needdiv:
            out.append("  diverges")
        out.append("=")
        for l in lines:
            out.append("  " + l)
        out.append("  " + join_stmts(code, "  "))
        return "\n".join(out)

    def callee_iface(self, fn):
        return None

    # ---------------------------------------------------------------- hints
    def hint(self, anchor):
        self.anchors.add(anchor)
        h = self.fn.hints.get(anchor)
        if not h:
            return []
        if isinstance(h, str):
            h = [h]
        return ["begin " + x.rstrip().rstrip(";") + " end" for x in h]

    # ---------------------------------------------------------------- blocks
    def block(self, stmts):
        out = []
        for s in stmts:
            if self.dead:
                break
            pre_calls = dict(self.callno)
            c = self.stmt(s)
            # call anchors
            for name, n in self.callno.items():
                for i in range(pre_calls.get(name, 0) + 1, n + 1):
                    if not isinstance(s, (ast.If, ast.While, ast.For)):
                        b = self.hint(f"{name}#{i}.before")
                        a = self.hint(f"{name}#{i}.after")
                        c = b + c + (a if not self.dead else [])
            out += c
        return out

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} (line {s.lineno})")
        return m(s)

    def s_Pass(self, s):
        return []

    def s_Global(self, s):
        raise Unsupported("global statement")

    def s_Import(self, s):
        return []

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s):
        self.sc.closures[s.name] = s
        return []

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return []
        if isinstance(v, ast.Yield):
            return self.emit_yield(v.value)
        if isinstance(v, ast.YieldFrom):
            c, t = self.ex(v.value)
            return self.emit_yield_from(c, t)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            r = self.mutator(v)
            if r is not None:
                return r
        if isinstance(v, ast.Call) and self.makes_generator(v.func):
            raise Unsupported("a generator that is not run: " + ast.unparse(v)[:60])
        c, t = self.ex(v)
        if t == UNIT:
            return [c]
        if t in (NONE,) and c == "()":
            return []
        return [f"let _ = {c} in ()"]

    def makes_generator(self, f):
        """may the call of f only make a generator (which runs when it is iterated over)?"""
        defs = [d for q, d in self.sc.mod.defs.items() if q.split(".")[-1] == (f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None))]
        if isinstance(f, ast.Name) and (r := resolve(self.sc.mod, f.id)) and not r[0].startswith("<ext>"):
            defs = [d for d in [module(r[0]).defs.get(r[1])] if d]
        return any(is_generator(d) for d in defs)

    def emit_yield(self, value):
        c, t = self.ex(value) if value is not None else ("()", NONE)
        self.escape(value)
        o = self.sc.out
        self.settype(o, SEQ(t))
        it = self.env[o][1]
        return [f"{o} <- py_snoc {o} {self.co(c, t, it)}"]

    def emit_yield_from(self, c, t):
        o = self.sc.out
        if t == BOT:
            return [f"{o} <- {o}"]
        if t[0] != "seq":
            raise Unsupported("yield from a non-sequence")
        self.settype(o, t)
        return [f"{o} <- py_app {o} {self.co(c, t, self.env[o])}"]

    def s_Return(self, s):
        out = []
        if self.withs and self.sc.is_gen:
            raise Unsupported("return in a with statement")
        if self.sc.is_gen:
            if self.sc.retexc is None:
                out += self.hint("end")
                out.append("return __out")
            else:
                out.append(f"raise {self.sc.retexc}")
        else:
            if self.sc.retexc is None:
                if s.value is None:
                    out += ["sql_commit ()"] * self.withs + self.hint("end")
                    out.append(self.ret_code(None))
                elif self.withs and self.fn.hints.get("end"):
                    raise Unsupported("return in a with statement")
                elif self.withs:
                    c, t = self.ex(s.value)
                    out.append(f"let result_ = {self.co(c, t, self.fn.ret)} in sql_commit (); return result_")
                elif self.fn.hints.get("end"):
                    c, t = self.ex(s.value)
                    self.tmpno += 1
                    out.append(f"let result_ = {self.co(c, t, self.fn.ret)} in {' ; '.join(self.hint('end'))}; return result_")
                else:
                    c, t = self.ex(s.value)
                    out.append(f"return {self.co(c, t, self.fn.ret)}")
            else:
                c, t = self.ex(s.value) if s.value is not None else ("()", NONE)
                self.settype(self.sc.retvar, t)
                out.append(f"{self.sc.retvar} <- {self.co(c, t, self.env[self.sc.retvar])}")
                out += ["sql_commit ()"] * self.withs
                out.append(f"raise {self.sc.retexc}")
        self.dead = True
        return out

    def ret_code(self, v):
        t = self.fn.ret
        if t in (UNIT, NONE):
            return "return ()"
        if t[0] == "opt":
            return "return none"
        return "(missing_return (); return (any_value ()))"

    def s_Raise(self, s):
        name = None
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        if name not in EXC:
            raise Unsupported(f"raise {ast.unparse(s)}")
        self.dead = True
        if self.withs or self.inwith:
            return ["sql_rollback ()", self.raise_code(name)]
        return [self.raise_code(name)]

    def s_With(self, s):
        """with a database connection: commits at the end, rolls back when an exception leaves it"""
        if len(s.items) != 1 or self.withs or self.inwith:
            raise Unsupported("with statement")
        out = []
        self.connecting = True
        c, t = self.ex(s.items[0].context_expr)
        self.connecting = False
        if t == BOT and not self.final:
            t = ("sqlcon",)
        if t != ("sqlcon",):
            raise Unsupported("with statement on " + show(t))
        if s.items[0].optional_vars is not None:
            out += self.assign(s.items[0].optional_vars, c, t)
        self.withs = 1
        out += self.block(s.body)
        self.withs = 0
        return out if self.dead else out + ["sql_commit ()"]

    def sql_text(self, n):
        """a known SQL statement about a table: (code of the name of the table, type)"""
        def text_of(x):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                return x.value
            if isinstance(x, ast.Name) and not self.is_local(x.id):
                res = resolve(self.sc.mod, x.id)
                v = module(res[0]).consts.get(res[1]) if res and not res[0].startswith("<ext>") else None
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    return v.value
            return None

        r = sqltext.template(n, text_of)
        if r is None:
            return None
        k = sqltext.normal(r[0])
        if k not in sqltext.TEXTS:
            if "db_" in self.fn.module:
                raise Unsupported("SQL statement: " + k)
            return None
        c, t = self.ex(r[1])
        return self.co(c, t, TOK), ("sqltext", k)

    def once(self, n):
        """is the cursor n denotes used nowhere else?"""
        if isinstance(n, ast.Call):
            return True
        if not isinstance(n, ast.Name) or sum(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Load) for x in ast.walk(self.sc.node)) != 1:
            return False
        return not any(x is n for l in ast.walk(self.sc.node) if isinstance(l, (ast.For, ast.While)) for b in l.body for x in ast.walk(b))

    def sql_method(self, c, t, meth, n):
        if t == ("sqlcon",) and meth == "cursor" and not n.args and not n.keywords:
            return c, t
        if t == ("sqlcon",) and meth == "execute" and n.args and len(n.args) <= 2 and not n.keywords:
            c, st = self.ex(n.args[0])
            if st == BOT:
                return "(any_value ())", BOT
            if st[0] != "sqltext":
                raise Unsupported("SQL statement " + ast.unparse(n.args[0])[:60])
            f, k, gives = sqltext.TEXTS[st[1]]
            ps = n.args[1].elts if len(n.args) == 2 and isinstance(n.args[1], (ast.Tuple, ast.List)) else []
            if len(n.args) == 2 and not isinstance(n.args[1], (ast.Tuple, ast.List)) or len(ps) != k:
                raise Unsupported("SQL parameters")
            args = [c]
            for p in ps:
                x, xt = self.ex(p)
                args.append(self.co(x, xt, TOK))
            return self.app(f, args), UNIT if gives == "nothing" else ("sqlcur", gives)
        if t[0] == "sqlcur" and meth == "fetchone" and not n.args and not n.keywords and t[1] in ("one", "ints") and self.once(n.func.value):
            return c, OPT(TUP(INT if t[1] == "ints" else TOK))
        raise Unsupported(f"method {meth} of a database object")

    def raise_code(self, name):
        if name in self.fn.raises:
            r = self.fn.raises[name]
            if isinstance(r, tuple):
                return f"raise ({r[0].split()[0]} __out)"
            return f"raise {name}"
        return "begin raise_unreachable (); absurd end"

    def s_Assert(self, s):
        return [f"assert_holds {self.truth(s.test)}"]

    def s_Assign(self, s):
        out = []
        if len(s.targets) == 1:
            t = s.targets[0]
            r = self.special_assign(t, s.value)
            if r is not None:
                return r
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and not any(
                isinstance(e, ast.Starred) for e in list(t.elts) + list(s.value.elts)
            ) and len(t.elts) == len(s.value.elts):
                vals = []
                for e in s.value.elts:
                    vals.append((*self.ex(e), e))
                tmp = []
                pre = ""
                for c, ty, e in vals:
                    self.tmpno += 1
                    n = f"t'{self.tmpno}"
                    pre += f"let {n} = {c} in "
                    tmp.append((n, ty, e))
                inner = []
                for tt, (n, ty, e) in zip(t.elts, tmp):
                    inner += self.assign(tt, n, ty, e)
                return [f"begin {pre} {' ; '.join(inner) or '()'} end"]
            c, ty = self.ex(s.value)
            return self.assign(t, c, ty, s.value)
        c, ty = self.ex(s.value)
        self.tmpno += 1
        n = f"t'{self.tmpno}"
        inner = []
        for i, t in enumerate(s.targets):
            inner += self.assign(t, n, ty, s.value)
        if self.is_mutable(ty):
            # two names for one mutable object
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.fresh.discard(self.vname(t.id))
        return [f"let {n} = {c} in {' ; '.join(inner)}"]

    def special_assign(self, target, value):
        """closures and lambdas bound to names"""
        if isinstance(target, ast.Name) and isinstance(value, ast.Lambda):
            self.sc.lambdas[target.id] = value
            return []
        return None

    def s_AnnAssign(self, s):
        if s.value is None:
            return []
        c, ty = self.ex(s.value)
        return self.assign(s.target, c, ty, s.value)

    def s_AugAssign(self, s):
        b = ast.BinOp(left=as_load(s.target), op=s.op, right=s.value)
        ast.copy_location(b, s)
        ast.fix_missing_locations(b)
        c, t = self.ex(b)
        if self.shape(t):
            raise Unsupported("dictionary changed in place")
        if t[0] == "set" and not isinstance(s.target, ast.Name):
            self.check_inner(s.target)
        if isinstance(s.target, ast.Name) and (t[0] == "seq" and t != TEXT and t != BOT or t[0] == "set") and self.final:
            w = self.vname(s.target.id)
            if w not in self.fresh:
                raise Unsupported(f"+= on the possibly shared list {s.target.id}")
        return self.assign(s.target, c, t, b)

    def s_Delete(self, s):
        out = []
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                d, dt = self.ex(t.value)
                k, kt = self.ex(t.slice)
                if dt[0] != "dict":
                    raise Unsupported("del on a non-dictionary")
                out += self.write_path(t.value, f"(dict_del {d} {self.co(k, kt, dt[1])})", dt)
            elif isinstance(t, ast.Name):
                self.defs.discard(self.vname(t.id))
            else:
                raise Unsupported("del " + ast.unparse(t))
        return out

    def assign(self, t, c, ty, node=None):
        if isinstance(t, ast.Name):
            return [self.assign_name(t.id, c, ty, node)]
        if isinstance(t, ast.Starred):
            raise Unsupported("starred assignment")
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, c, ty)
        if isinstance(t, ast.Attribute):
            at = self.attr_type(t)
            bt = self.ex(t.value)[1]
            bt = bt[1] if bt[0] == "opt" else bt
            if bt[0] == "obj" and t.attr in OBJS[bt[1]].shared:
                raise Unsupported(f"another {t.attr} object")
            if self.is_mutable(at) and at[0] != "obj" and node is not None and not self.is_fresh(node) and self.final:
                raise Unsupported(f"shared mutable value stored in attribute {t.attr}")
            self.escape(node)
            return self.write_path(t, self.co(c, ty, at), at)
        if isinstance(t, ast.Subscript):
            dt = self.ex(t.value)[1]
            if dt == BOT:
                return ["()"]
            if ty[0] == "set" and self.final and node is not None and not self.is_fresh(node) and not (isinstance(node, ast.Name) and self.vname(node.id) in self.fresh):
                raise Unsupported("a set that may be shared stored in a dictionary")
            self.escape(node)
            if dt[0] == "dict":
                kc, kt = self.ex(t.slice)
                nt = DICT(joint(dt[1], kt), joint(dt[2], ty))
                self.grow_path(t.value, nt)
                d, dt = self.ex(t.value)
                # Python evaluates the value before the container and key
                return [f"let v' = {self.co(c, ty, dt[2])} in " + " ; ".join(
                    self.write_path(t.value, f"(dict_set {d} {self.co(kc, kt, dt[1])} v')", dt))]
            raise Unsupported("item assignment on " + show(dt))
        raise Unsupported("assignment target " + ast.unparse(t))

    def grow_path(self, node, ty):
        if isinstance(node, ast.Name):
            self.settype(self.vname(node.id), ty)

    def is_shared(self, node):
        """a mutable field of an object that other objects may hold too"""
        if isinstance(node, ast.Attribute):
            bt = self.ex(node.value)[1]
            bt = bt[1] if bt[0] == "opt" else bt
            return bt[0] == "obj" and node.attr in OBJS[bt[1]].shared
        return False

    def assign_name(self, name, c, ty, node=None):
        if self.fn.writes and node is not None and self.is_shared(node):
            raise Unsupported("a variable for a list that may change")
        if ty == UNIT:
            ty, c = NONE, f"(let () = {c} in ())"
        if self.cell(name):
            place, ct = self.cell(name)
            if self.final and node is not None and not self.is_fresh(node):
                raise Unsupported(f"{name} bound to a shared list")
            return f"{place} <- {self.co(c, ty, ct)}"
        w = self.vname(name)
        self.settype(w, ty)
        self.defs.add(w)
        if w in self.narrow:
            self.narrow = {x: s for x, s in self.narrow.items() if x != w}
        if self.is_mutable(ty):
            if node is not None and self.is_fresh(node):
                self.fresh.add(w)
            else:
                self.fresh.discard(w)
                self.escape(node)
        return f"{w} <- {self.co(c, ty, self.env[w])}"

    def unpack(self, t, c, ty):
        if ty == BOT:
            out = []
            for e in t.elts:
                if isinstance(e, ast.Starred):
                    continue
                out += self.assign(e, "(any_value ())", BOT)
            return out
        if ty[0] == "opt":
            c, ty = f"(unopt {c})", ty[1]
        if ty[0] != "tup":
            raise Unsupported("unpacking a " + show(ty))
        n = len(ty[1])
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        names = []
        for i in range(n):
            self.tmpno += 1
            names.append(f"t'{self.tmpno}")
        if stars:
            i = stars[0]
            after = len(t.elts) - i - 1
            if n < len(t.elts) - 1:
                raise Unsupported("unpacking lengths differ")
            pairs = [(t.elts[j], names[j], ty[1][j]) for j in range(i)]
            pairs += [(t.elts[i + 1 + j], names[n - after + j], ty[1][n - after + j]) for j in range(after)]
            st = t.elts[i].value
            if isinstance(st, ast.Name) and self.is_read(st.id):
                raise Unsupported("starred unpacking that is used")
        else:
            if n != len(t.elts):
                raise Unsupported("unpacking lengths differ")
            pairs = list(zip(t.elts, names, ty[1]))
        inner = []
        for e, nm, tt in pairs:
            inner += self.assign(e, nm, tt)
        pat = ", ".join(names)
        return [f"let ({pat}) = {c} in {' ; '.join(inner) or '()'}"]

    def is_read(self, name):
        for n in ast.walk(self.sc.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                return True
        return False

    def s_If(self, s):
        cond = self.truth(s.test)
        d0, f0 = set(self.defs), set(self.fresh)
        n0 = self.narrow
        ya, no = self.tests(s.test)
        if cond in ("true", "false"):
            # settled by the type (isinstance)
            self.narrow = self.with_narrow(ya if cond == "true" else no)
            return self.block(s.body if cond == "true" else s.orelse)
        self.narrow = self.with_narrow(ya)
        a = self.block(s.body)
        d1, f1, x1, n1 = self.defs, self.fresh, self.dead, self.narrow
        self.defs, self.fresh, self.dead = set(d0), set(f0), False
        self.narrow = n0
        self.narrow = self.with_narrow(no)
        b = self.block(s.orelse)
        d2, f2, x2, n2 = self.defs, self.fresh, self.dead, self.narrow
        self.narrow = n2 if x1 else n1 if x2 else {w: n1[w] | n2[w] for w in n1 if w in n2}
        if x1 and x2:
            self.dead = True
            self.defs, self.fresh = d1 & d2, f1 & f2
        elif x1:
            self.dead, self.defs, self.fresh = False, d2, f2
        elif x2:
            self.dead, self.defs, self.fresh = False, d1, f1
        else:
            self.dead, self.defs, self.fresh = False, d1 & d2, f1 & f2
        ca = join_stmts(a, "    ") if a else "()"
        if b:
            cb = join_stmts(b, "    ")
            return [f"if {cond} then begin\n    {ca}\n  end else begin\n    {cb}\n  end"]
        return [f"if {cond} then begin\n    {ca}\n  end"]

    def loop_clauses(self, key, idx=None):
        lp = self.fn.loops.get(key)
        out = []
        if lp is None:
            return out, None
        if isinstance(lp, dict):
            lp = Loop(**lp)
        for inv in lp.inv:
            lab, f = inv if isinstance(inv, tuple) else (inv[:60], inv)
            out.append(f"invariant {{ [@expl:loop {key}: {clean(lab)}] {oneline(f)} }}")
        if lp.var:
            out.append(f"variant {{ {lp.var} }}")
        return out, lp

    def enter_loop(self, s):
        key = (id(s), self.sc.prefix)
        self.forget([s])
        saved = set(self.defs), set(self.fresh), self.narrow
        keep = self.loopfresh.get(key)
        if keep is not None:
            self.fresh &= keep
        return key, saved

    def exit_loop(self, key, saved):
        d0, f0, self.narrow = saved
        end = set(self.fresh)
        old = self.loopfresh.get(key)
        new = end if old is None else (old & end)
        if old is None or new != old:
            self.loopfresh[key] = new
            self.changed = True
        self.defs = d0
        self.fresh = f0 & new
        self.dead = False

    def s_While(self, s):
        if s.orelse:
            raise Unsupported("while-else")
        self.loopno += 1
        n = self.loopno
        clauses, lp = self.loop_clauses(n)
        before = self.hint(f"loop{n}.before")
        key, saved = self.enter_loop(s)
        const_true = isinstance(s.test, ast.Constant) and s.test.value is True
        cond = "true" if const_true else self.truth(s.test)
        bdefs = set(self.defs)
        body = self.hint(f"loop{n}.start")
        body += self.block(s.body)
        if not self.dead:
            body += self.hint(f"loop{n}.end")
        self.exit_loop(key, saved)
        # names assigned in the condition (walrus) are assigned after the loop
        for m in ast.walk(s.test):
            if isinstance(m, ast.NamedExpr):
                self.defs.add(self.vname(m.target.id))
        if lp is None or not lp.var:
            self.needdiv = True
        cl = "\n      ".join(clauses)
        if const_true and not has_break(s.body):
            self.dead = True
            return before + [f"while {cond} do\n      {cl}\n    {join_stmts(body, '    ')}\n  done"] + self.hint(f"loop{n}.after") + ["absurd"]
        return before + [f"while {cond} do\n      {cl}\n    {join_stmts(body, '    ')}\n  done"] + self.hint(f"loop{n}.after")

    def s_For(self, s):
        if s.orelse:
            raise Unsupported("for-else")
        self.loopno += 1
        n = self.loopno
        binds, length, elem, ty = self.iteration(s.iter, str(n))
        guard = self.iter_guard(s.iter, s.body)
        clauses, lp = self.loop_clauses(n)
        before = self.hint(f"loop{n}.before")
        key, saved = self.enter_loop(s)
        body = []
        body += self.assign(s.target, elem(f"k{n}"), ty)
        for x in sorted(set(re.findall(r"let (it\w+) = ", " ".join(binds)))):
            body.append(f"assert {{ {x}[..k{n} + 1] == snoc {x}[..k{n}] {x}[k{n}] }}")
        body += self.hint(f"loop{n}.start")
        body += self.block(s.body)
        if not self.dead:
            body += self.hint(f"loop{n}.end")
        self.exit_loop(key, saved)
        cl = "\n      ".join(clauses)
        b = " ".join(binds)
        h = " ; ".join(before)
        h = h + " ; " if h else ""
        after = self.hint(f"loop{n}.after")
        aft = (" ; " + " ; ".join(after)) if after else ""
        return [f"begin {b}\n  {h}for k{n} = 0 to {length} - 1 do\n      {cl}\n    {join_stmts(body, '    ')}\n  done{aft} end"]

    def iter_guard(self, it, body):
        """No mutation of the container being iterated over."""
        paths = set()
        node = it
        while isinstance(node, ast.Call) and node.args:
            node = node.args[0]
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            node = node.func.value
        if isinstance(node, (ast.Name, ast.Attribute)):
            paths.add(ast.unparse(node))
        for st in body:
            for m in ast.walk(st):
                tgt = None
                if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in MUTATORS:
                    tgt = m.func.value
                elif isinstance(m, ast.Subscript) and isinstance(m.ctx, (ast.Store, ast.Del)):
                    tgt = m.value
                if tgt is not None and ast.unparse(tgt) in paths:
                    # assignment to existing dict keys while iterating is legal but not modelled
                    raise Unsupported("container changed while iterated over")

    def s_Break(self, s):
        if self.withs:
            raise Unsupported("break in a with statement")
        self.dead = True
        return ["break"]

    def s_Continue(self, s):
        if self.withs:
            raise Unsupported("continue in a with statement")
        self.dead = True
        return ["continue"]

    def s_Nonlocal(self, s):
        raise Unsupported("nonlocal")

    # ------------------------------------------------------------- iteration
    def iteration(self, it, tag):
        """(bindings, length term, index -> element code, element type)"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not self.is_local(it.func.id):
            f = it.func.id
            if f == "enumerate" and it.args:
                start = "0"
                if len(it.args) > 1:
                    start = self.ex(it.args[1])[0]
                b, l, e, t = self.iteration(it.args[0], tag)
                return b, l, (lambda k: f"({k} + {start}, {e(k)})" if start != "0" else f"({k}, {e(k)})"), TUP(INT, t)
            if f == "zip" and len(it.args) == 2:
                b1, l1, e1, t1 = self.iteration(it.args[0], tag + "a")
                b2, l2, e2, t2 = self.iteration(it.args[1], tag + "b")
                return b1 + b2, f"(py_min ({l1}) ({l2}))", (lambda k: f"({e1(k)}, {e2(k)})"), TUP(t1, t2)
            if f == "range" and 1 <= len(it.args) <= 2:
                lo = "0"
                hi, _ = self.ex(it.args[-1])
                if len(it.args) == 2:
                    lo, _ = self.ex(it.args[0])
                return [f"let lo{tag} = {lo} in let hi{tag} = {hi} in"], f"(py_max 0 (hi{tag} - lo{tag}))", (
                    lambda k: f"(lo{tag} + {k})"), INT
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args:
            base, bt = None, None
            if it.func.attr in ("items", "values", "keys"):
                base, bt = self.ex(it.func.value)
                if bt == BOT:
                    return ["let it%s = any (seq int) in" % tag], f"(py_len it{tag})", lambda k: "(any_value ())", BOT
                if bt[0] == "dict":
                    b = [f"let d{tag} = {base} in let it{tag} = dict_keys d{tag} in"]
                    ln = f"(py_len it{tag})"
                    key = lambda k: f"(getitem it{tag} {k})"
                    val = lambda k: f"(dict_get d{tag} (getitem it{tag} {k}))"
                    if it.func.attr == "items":
                        return b, ln, (lambda k: f"({key(k)}, {val(k)})"), TUP(bt[1], bt[2])
                    if it.func.attr == "keys":
                        return b, ln, key, bt[1]
                    return b, ln, val, bt[2]
        c, t = self.ex(it)
        if t == BOT:
            return [f"let it{tag} = (any (seq int)) in"], f"(py_len it{tag})", lambda k: "(any_value ())", BOT
        if t[0] == "opt":
            c, t = f"(unopt {c})", t[1]
        if t[0] == "dict":
            c, t = f"(dict_keys {c})", SEQ(t[1])
        if t[0] == "fam":
            fam = FAMILIES[t[1]]
            for it_t, (ctor, proj, test) in fam.inject.items():
                if it_t[0] == "seq":
                    c, t = f"({proj} {c})", it_t
                    break
        if t == ("sqlcur", "all") and self.once(it):
            if any(isinstance(x, ast.Attribute) and x.attr in ("execute", "executemany") for l in ast.walk(self.sc.node) if isinstance(l, ast.For) and l.iter is it for b in l.body for x in ast.walk(b)):
                raise Unsupported("a statement while rows are read")
            t = SEQ(TUP(TOK))
        if t[0] != "seq":
            raise Unsupported("iteration over " + show(t))
        return [f"let it{tag} = {c} in"], f"(py_len it{tag})", (lambda k: f"(getitem it{tag} {k})"), t[1]

    # ------------------------------------------------------------ mutation
    def mutator(self, call):
        """Statement-level method call that changes its receiver."""
        meth = call.func.attr
        recv = call.func.value
        if meth not in MUTATORS:
            return None
        if not self.is_value(recv):
            return None
        t = self.ex(recv)[1]
        if t[0] == "opt":
            raise Unsupported("mutation of an optional value")
        if t == BOT or t[0] == "seq":
            self.check_fresh(recv)
            self.dead_expr = False
            c, t = self.ex(recv)
            if meth == "append" and len(call.args) == 1:
                e, et = self.ex(call.args[0])
                self.escape(call.args[0])
                nt = SEQ(joint(t[1] if t != BOT else BOT, et))
                self.grow_path(recv, nt)
                c, t = self.ex(recv)
                if t == BOT:
                    return ["()"]
                return self.write_path(recv, f"(py_snoc {c} {self.co(e, et, t[1])})", t)
            if meth == "extend" and len(call.args) == 1:
                e, et = self.seq_of(call.args[0])
                self.grow_path(recv, joint(t, et))
                c, t = self.ex(recv)
                return self.write_path(recv, f"(py_app {c} {self.co(e, et, t)})", t)
            if meth == "clear":
                return self.write_path(recv, f"(empty_of {c})", t)
            if meth == "pop" and not call.args:
                pc, pt = self.ex_pop(recv)
                return [f"let _ = {pc} in ()"]
            if meth == "remove" and len(call.args) == 1:
                e, et = self.ex(call.args[0])
                return self.write_path(recv, f"(seq_remove {c} {self.co(e, et, t[1])})", t)
            if meth == "insert" and len(call.args) == 2:
                raise Unsupported("list.insert")
        if t[0] == "set":
            self.check_fresh(recv)
            self.check_inner(recv)
            if meth == "add":
                e, et = self.ex(call.args[0])
                self.grow_path(recv, SET(joint(t[1], et)))
                c, t = self.ex(recv)
                return self.write_path(recv, f"(set_add {c} {self.co(e, et, t[1])})", t)
            if meth == "update" and len(call.args) == 1:
                e, et = self.ex(call.args[0])
                if et[0] != "set":
                    raise Unsupported("set.update of " + show(et))
                self.grow_path(recv, joint(t, et))
                c, t = self.ex(recv)
                return self.write_path(recv, f"(set_union {c} {self.co(e, et, t)})", t)
        return None

    def check_inner(self, recv):
        """an in-place change of a member of a dictionary: no variable may still stand for that member"""
        if not isinstance(recv, ast.Subscript) or not self.final:
            return
        base = ast.unparse(recv.value)

        def changes(n):
            return any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Subscript) and ast.unparse(x.func.value.value) == base
                or isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) and ast.unparse(x.target.value) == base
                for x in ast.walk(n))

        def loads(n):
            return [t.id for x in [n] if isinstance(x, ast.Assign) for t in x.targets
                    if isinstance(t, ast.Name) and any(isinstance(y, ast.Subscript) and ast.unparse(y.value) == base or isinstance(y, ast.Call) and ast.unparse(y.func) == base + ".get" for y in ast.walk(x.value))]

        for owner in ast.walk(self.sc.node):
            for field in ("body", "orelse", "finalbody"):
                stmts = getattr(owner, field, None)
                if not isinstance(stmts, list):
                    continue
                for i, st in enumerate(stmts):
                    for name in loads(st):
                        inside = [x for y in stmts[i + 1:] for x in ast.walk(y) if isinstance(x, ast.Name) and x.id == name]
                        used = [x for x in ast.walk(self.sc.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)]
                        if any(changes(y) for y in stmts[i + 1:]) or any(all(x is not z for z in inside) for x in used):
                            raise Unsupported(f"in-place change of a member of {base} while {name} may stand for it")


    def is_value(self, node):
        if isinstance(node, ast.Name):
            return self.is_local(node.id)
        if isinstance(node, ast.Attribute):
            return self.is_value(node.value)
        if isinstance(node, ast.Subscript):
            return self.is_value(node.value)
        return isinstance(node, ast.Call)

    def ex_pop(self, recv):
        self.check_fresh(recv)
        c, t = self.ex(recv)
        if t == BOT:
            return "(any_value ())", BOT
        if t[0] != "seq":
            raise Unsupported("pop on " + show(t))
        w = self.write_path(recv, f"(seq_front {c})", t)
        return f"(let p' = seq_last {c} in {' ; '.join(w)}; p')", t[1]

    def check_fresh(self, recv):
        if isinstance(recv, ast.Name) and self.final and not self.cell(recv.id):
            w = self.vname(recv.id)
            if w not in self.fresh:
                raise Unsupported(f"in-place change of {recv.id}, which may be shared")

    def escape(self, node):
        """a mutable local handed to someone else may no longer be changed in place"""
        if node is None:
            return
        if isinstance(node, ast.Name) and self.is_local(node.id):
            w = self.vname(node.id)
            if self.is_mutable(self.env.get(w, BOT)):
                self.fresh.discard(w)
        elif isinstance(node, (ast.Tuple, ast.List)):
            for e in node.elts:
                self.escape(e)
        elif isinstance(node, ast.IfExp):
            self.escape(node.body)
            self.escape(node.orelse)
        elif isinstance(node, ast.BoolOp):
            for v in node.values:
                self.escape(v)
        elif isinstance(node, ast.NamedExpr):
            self.escape(node.target)
            self.escape(node.value)

    def is_mutable(self, t):
        # sequences of tokens are immutable texts, except in functions that handle lists of tags
        return t[0] in ("dict", "set") or t[0] == "seq" and (t != TEXT or self.fn.kind == "plain") or t[0] == "opt" and self.is_mutable(t[1])

    def is_fresh(self, node):
        if isinstance(node, (ast.List, ast.ListComp, ast.Dict, ast.Set, ast.Tuple, ast.GeneratorExp, ast.BinOp)):
            return True
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Name) and f.id in ("list", "sorted", "set", "dict", "tuple"):
                return True
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "split", "union"):
                return True
            return True  # function results are new objects (checked for contract functions by `returns alias`)
        return False

    def write_path(self, node, newcode, t):
        """statements storing newcode at the place denoted by node"""
        if isinstance(node, ast.Name):
            if self.cell(node.id):
                return [f"{self.cell(node.id)[0]} <- {newcode}"]
            w = self.vname(node.id)
            return [f"{w} <- {newcode}"]
        if isinstance(node, ast.Attribute):
            b, bt = self.ex(node.value)
            if bt[0] == "opt":
                b, bt = f"(unopt {b})", bt[1]
            if bt[0] == "rec":
                if node.attr not in RECORDS[bt[1]].fields:
                    raise Unsupported(f"new attribute {node.attr}")
                return [f"{b}.{bt[1]}_{node.attr} <- {newcode}"]
            if bt[0] == "obj":
                return [f"obj_set_{node.attr} {b} {newcode}"]
            if bt[0] == "fam":
                return self.write_path(node.value, f"(with_{bt[1]}_{node.attr} {b} {newcode})", bt)
            raise Unsupported("attribute assignment on " + show(bt))
        if isinstance(node, ast.Subscript):
            d, dt = self.ex(node.value)
            if dt[0] == "dict":
                k, kt = self.ex(node.slice)
                return self.write_path(node.value, f"(dict_set {d} {self.co(k, kt, dt[1])} {newcode})", dt)
        raise Unsupported("store to " + ast.unparse(node))

    def attr_type(self, node):
        b, bt = self.ex(node.value)
        if bt[0] == "opt":
            bt = bt[1]
        if bt[0] == "rec":
            f = RECORDS[bt[1]].fields
        elif bt[0] == "obj":
            f = OBJS[bt[1]].fields
        elif bt[0] == "fam":
            f = FAMILIES[bt[1]].fields
        else:
            return BOT
        if node.attr not in f:
            raise Unsupported(f"attribute {node.attr}")
        return f[node.attr]

    # ------------------------------------------------------------ names
    def is_local(self, name):
        for sub in self.sc.comp:
            if name in sub:
                return True
        return name in self.sc.locals

    def vname(self, name):
        for sub in reversed(self.sc.comp):
            if name in sub:
                return sub[name]
        return self.sc.prefix + name

    def settype(self, w, t):
        old = self.env.get(w, BOT)
        fixed = w[1:] in self.fn.params and w.startswith("_") or w[1:] in self.fn.locals
        if fixed and w[0] == "_" and (w[1:] in self.fn.params or w[1:] in self.fn.locals):
            self.env.setdefault(w, old)
            return
        if w == "__out" and ground(old):
            return
        new = joint(old, t)
        if new != old or w not in self.env:
            self.env[w] = new
            self.changed = True

    # ------------------------------------------------------------ coercion
    def co(self, c, f, t):
        if f == t or t == BOT:
            return c
        if f == BOT:
            if self.final and t != BOT:
                return retype_empty(c, t)
            return c
        if t[0] == "opt":
            if f == NONE:
                return f"(let _ = {c} in none)" if c != "()" else "none"
            if f[0] == "opt":
                if defaulted(f) == defaulted(t) or {f[1], t[1]} == {INT, TOK}:
                    return c
                return f"(let o' = {c} in if isn o' then none else some {self.co('(unopt ' + chr(111)+chr(39) + ')', f[1], t[1])})"
            return f"(some {self.co(c, f, t[1])})"
        if f[0] == "opt":
            return self.co(f"(unopt {c})", f[1], t)
        if f == NONE:
            return "(none_value ())"
        if f[0] == "pyfn" and t[0] == "fn" and f[1] in FNS[f"<fn>.{t[1]}"].impl:
            impl = FNS[f"<fn>.{t[1]}"].impl
            if isinstance(impl, dict) and impl[f[1]]:
                return f"(assert {{ [@expl:function value as in its contract] {impl[f[1]]} }})"
            return "()"
        if f[0] in ("lam", "pyfn") and t[0] == "fam" and FAMILIES[t[1]].mapping:
            return self.as_mapping(f, t)
        if f == DICT(BOT, BOT) and t[0] == "fam" and FAMILIES[t[1]].keys:
            return self.shape_build(FAMILIES[t[1]], {})
        if {f, t} == {INT, TOK}:
            return c
        if f == BOOL and t == INT:
            return f"(int_of_bool {c})"
        if t[0] == "fam":
            fam = FAMILIES[t[1]]
            for it, (ctor, proj, test) in fam.inject.items():
                if compatible2(f, it):
                    return f"({ctor} {self.co(c, f, it)})"
        if f[0] == "fam":
            fam = FAMILIES[f[1]]
            for it, (ctor, proj, test) in fam.inject.items():
                if compatible2(it, t):
                    return self.co(f"({proj} {c})", it, t)
        if f[0] == t[0] == "seq":
            if f[1] == BOT or why_eq(f[1], t[1]):
                return retype_empty(c, t) if f[1] == BOT else c
            if isinstance(c, str) and f[1] != t[1]:
                return self.map_seq(c, f[1], t[1])
        if f[0] == t[0] and f[0] in ("dict", "set"):
            if any(x == BOT for x in f[1:]):
                return retype_empty(c, t)
            if defaulted(f) == defaulted(t) or why_eq(f, t):
                return c
        if f[0] == t[0] == "tup" and len(f[1]) == len(t[1]):
            if why_eq(f, t) and ground(f):
                return c
            ns = []
            for _ in f[1]:
                self.tmpno += 1
                ns.append(f"t'{self.tmpno}")
            return f"(let ({', '.join(ns)}) = {c} in ({', '.join(self.co(n, a, b) for n, a, b in zip(ns, f[1], t[1]))}))"
        if not self.final:
            return c
        raise Unsupported(f"a {show(f)} where a {show(t)} is expected")

    def map_seq(self, c, f, t):
        """element-wise injection of a sequence into a family, e.g. list[str] -> list[item]"""
        if t[0] == "fam":
            fam = FAMILIES[t[1]]
            for it, (ctor, proj, test) in fam.inject.items():
                if compatible2(f, it):
                    return f"(map_{ctor} {c})"
        if t[0] == "opt" and f[0] != "opt":
            pass
        if f[0] == "fam":
            for it, (ctor, proj, test) in FAMILIES[f[1]].inject.items():
                if compatible2(it, t):
                    return f"(unmap_{ctor} {c})"
        if not self.final:
            return c
        raise Unsupported(f"a sequence of {show(f)} where a sequence of {show(t)} is expected")

    # ------------------------------------------------------------ type tests
    def narrowed(self, w):
        t = self.env[w]
        if w in self.narrow and t[0] == "fam":
            alts = self.narrow[w]
            if len(alts) == 1:
                (it,) = alts
                if it in FAMILIES[t[1]].inject:
                    return f"({FAMILIES[t[1]].inject[it][1]} {w})", it
        return w, t

    def tests(self, node):
        """what a condition tells about the classes of local variables: (when true, when false)"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            a, b = self.tests(node.operand)
            return b, a
        if isinstance(node, ast.BoolOp):
            both = {}
            for v in node.values:
                x = self.tests(v)[0 if isinstance(node.op, ast.And) else 1]
                for w, s in x.items():
                    both[w] = both[w] & s if w in both else s
            return (both, {}) if isinstance(node.op, ast.And) else ({}, both)
        x = cn = None
        neg = False
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "isinstance" and len(node.args) == 2:
            x, cn = node.args
        elif isinstance(node, ast.Compare) and len(node.ops) == 1 and is_type_call(node.left) and not is_type_call(node.comparators[0]):
            o = type(node.ops[0]).__name__
            if o in ("Is", "Eq", "IsNot", "NotEq"):
                x, cn, neg = node.left.args[0], node.comparators[0], o in ("IsNot", "NotEq")
        if not isinstance(x, ast.Name) or not self.is_local(x.id):
            return {}, {}
        w = self.vname(x.id)
        t = self.env.get(w, BOT)
        if t[0] != "fam":
            return {}, {}
        fam = FAMILIES[t[1]]
        try:
            names = self.class_names(cn)
        except Unsupported:
            return {}, {}
        full = frozenset(fam.ctors) | frozenset(fam.inject)
        yes, no = set(), set(full)
        for nm in names:
            if nm in fam.ctors:
                yes.add(nm)
                no.discard(nm)
            elif nm == "slice" and FAM("slice") in fam.inject:
                yes.add(FAM("slice"))
                no.discard(FAM("slice"))
            elif nm in KINDS:
                for it in fam.inject:
                    if it[0] == "seq":
                        yes.add(it)
                        if it == TEXT and self.kind_test(nm) == "true":
                            no.discard(it)
        a, b = {w: frozenset(yes)}, {w: frozenset(no)}
        return (b, a) if neg else (a, b)

    def with_narrow(self, add):
        n = dict(self.narrow)
        for w, s in add.items():
            n[w] = n[w] & s if w in n else s
        return n

    def forget(self, nodes):
        names = {m.id for s in nodes for m in ast.walk(s) if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del))}
        if names:
            ws = {self.vname(x) for x in names if self.is_local(x)}
            self.narrow = {w: s for w, s in self.narrow.items() if w not in ws}

    # ------------------------------------------------------------ truth
    def truth(self, node):
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return f"(not {self.truth(node.operand)})"
        if isinstance(node, ast.BoolOp):
            op = " && " if isinstance(node.op, ast.And) else " || "
            d0 = set(self.defs)
            parts = []
            n0 = self.narrow
            for i, v in enumerate(node.values):
                parts.append(self.truth(v))
                self.narrow = self.with_narrow(self.tests(v)[0 if isinstance(node.op, ast.And) else 1])
                if i == 0:
                    d1 = set(self.defs)
            self.narrow = n0
            self.defs = d1
            return "(" + op.join(parts) + ")"
        c, t = self.ex(node)
        return self.truth_of(c, t)

    def truth_of(self, c, t):
        if t == BOOL or t == BOT:
            return c
        if t in (INT,):
            return f"({c} <> 0)"
        if t == NONE:
            return "false" if c == "()" else f"(let _ = {c} in false)"
        if t[0] == "seq":
            return f"(py_len {c} > 0)"
        if t[0] == "opt":
            inner = self.truth_of("u'", t[1])
            if inner == "true":
                return f"(not (isn {c}))"
            return f"(let w' = {c} in if isn w' then false else let u' = unopt w' in {inner})"
        if t[0] == "fam":
            tr = FAMILIES[t[1]].truthy
            if tr is None:
                return "true" if not has_effect(c) else f"(let _ = {c} in true)"
            return f"({tr} {c})"
        if t[0] in ("obj",):
            return "true"
        if t[0] == "dict":
            return f"(py_len (dict_keys {c}) > 0)"
        if t[0] == "kindopt":
            return c
        if t[0] == "tup":
            return "true" if t[1] else "false"
        if t[0] == "rec":
            return "true"
        if t == KIND:
            return "true" if not has_effect(c) else f"(let _ = {c} in true)"
        raise Unsupported("truth value of " + show(t))

    # ------------------------------------------------------------ expressions
    def ex(self, node):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__}: {ast.unparse(node)[:60]}")
        return m(node)

    def e_Constant(self, n):
        v = n.value
        if v is None:
            return "()", NONE
        if v is True:
            return "true", BOOL
        if v is False:
            return "false", BOOL
        if isinstance(v, int):
            return (str(v) if v >= 0 else f"(- {-v})"), INT
        if isinstance(v, (str, bytes)):
            k = "str" if isinstance(v, str) else "bytes"
            codes = [ord(ch) for ch in v] if k == "str" else list(v)
            code = lit(codes)
            if self.fn.kind == "generic":
                kk = "KStr" if k == "str" else "KBytes"
                return f"(lit_kind {kk} {code})", TEXT
            if self.fn.kind in ("str", "bytes") and self.fn.kind != k:
                raise Unsupported(f"{k} literal in a {self.fn.kind} function")
            return code, TEXT
        raise Unsupported(f"constant {v!r}")

    def e_JoinedStr(self, n):
        r = self.sql_text(n)
        if r is not None:
            return r
        if self.fn.kind != "str":
            raise Unsupported("f-string")
        code = None
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                if v.conversion != -1 or v.format_spec is not None:
                    raise Unsupported("f-string conversion")
                c, t = self.ex(v.value)
                if t == OPT(TEXT):
                    c = f"(str_or_none {c})"
                elif t not in (TEXT, BOT):
                    raise Unsupported(f"f-string of {show(t)}")
            else:
                c, t = self.ex(v)
            code = c if code is None else self.app("py_app", [code, c])
        return code or "(py_empty ())", TEXT

    def cell(self, name):
        if self.sc.prefix == "_" and name in self.fn.cells and not any(name in sub for sub in self.sc.comp):
            return self.fn.cells[name]
        return None

    def e_Name(self, n):
        name = n.id
        if self.cell(name):
            return self.cell(name)
        if self.is_local(name):
            w = self.vname(name)
            if w in self.env:
                if w in self.defs or any(name in sub for sub in self.sc.comp):
                    return self.narrowed(w)
                return f"(begin unbound_local (); {w} end)", self.env[w]
            if name in self.sc.lambdas or name in self.sc.closures:
                return "()", ("pyfn", name)
            return "(any_value ())", BOT
        if name in self.sc.closures:
            return "()", ("pyfn", name)
        r = self.global_value(self.sc.mod, name)
        if r is not None:
            return r
        raise Unsupported(f"name {name}")

    def global_value(self, mod, name):
        res = resolve(mod, name)
        if res and res[0].startswith("<ext>"):
            return None
        if res:
            m = module(res[0])
            if res[1] in m.consts:
                v = m.consts[res[1]]
                if isinstance(v, ast.Constant):
                    return self.e_Constant(v)
                if isinstance(v, ast.Dict) and v.keys:
                    if changed_somewhere(res[0], res[1]):
                        raise Unsupported(f"{res[1]} is changed somewhere")
                    save, self.sc.mod = self.sc.mod, m
                    try:
                        return self.ex(v)
                    finally:
                        self.sc.mod = save
                if isinstance(v, ast.Call) and ast.unparse(v.func) == "re.compile" and len(v.args) == 1 and not v.keywords and isinstance(
                        v.args[0], ast.Constant) and isinstance(v.args[0].value, str):
                    return "()", ("regex", v.args[0].value)
            if res[1] in m.defs:
                return "()", ("pyfn", f"{res[0]}.{res[1]}")
            if res[1] in m.classes:
                return "()", ("pycls", f"{res[0]}.{res[1]}")
        if name in ("str", "bytes", "tuple", "int", "list"):
            return {"str": "KStr", "bytes": "KBytes", "tuple": "KTuple"}.get(name, "()"), (KIND if name in ("str", "bytes", "tuple") else ("pycls", name))
        return None

    def e_Lambda(self, n):
        """a lambda without free local variables: inlined where it is called"""
        args = {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        for x in ast.walk(n.body):
            if isinstance(x, ast.Name) and x.id not in args and self.is_local(x.id):
                raise Unsupported("lambda with free variables")
        key = (self.sc.mod.name, ast.unparse(n))
        d = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n)], decorator_list=[], lineno=n.lineno, col_offset=0)
        LAMBDAS[key] = (self.sc.mod, d)
        return "()", ("lam", key)

    def e_NamedExpr(self, n):
        c, t = self.ex(n.value)
        a = self.assign_name(n.target.id, c, t, n.value)
        w = self.vname(n.target.id)
        return f"(begin {a}; {w} end)", self.env[w]

    def e_IfExp(self, n):
        c = self.truth(n.test)
        n0 = self.narrow
        ya, no = self.tests(n.test)
        self.narrow = self.with_narrow(ya)
        a, at = self.ex(n.body)
        self.narrow = n0
        self.narrow = self.with_narrow(no)
        b, bt = self.ex(n.orelse)
        self.narrow = n0
        if BOT in (at, bt) and not self.final:
            return a, joint(at, bt) if True else BOT
        t = joint(at, bt)
        return f"(if {c} then {self.co(a, at, t)} else {self.co(b, bt, t)})", t

    def e_BoolOp(self, n):
        vals = [self.ex(v) for v in n.values]
        if all(t == BOOL for _, t in vals):
            op = " && " if isinstance(n.op, ast.And) else " || "
            return "(" + op.join(c for c, _ in vals) + ")", BOOL
        t = BOT
        for _, vt in vals:
            t = joint(t, vt)
        c, ct = vals[-1]
        code = self.co(c, ct, t)
        for c, ct in reversed(vals[:-1]):
            tr = self.truth_of("b'", ct)
            v = self.co("b'", ct, t)
            if isinstance(n.op, ast.And):
                code = f"(let b' = {c} in if {tr} then {code} else {v})"
            else:
                code = f"(let b' = {c} in if {tr} then {v} else {code})"
        return code, t

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return f"(not {self.truth(n.operand)})", BOOL
        c, t = self.ex(n.operand)
        if isinstance(n.op, ast.USub):
            if t in (INT, BOT):
                return f"(- {c})", INT
        raise Unsupported("unary " + type(n.op).__name__)

    def e_BinOp(self, n):
        if isinstance(n.op, ast.BitOr):
            if isinstance(n.right, ast.Dict) and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.right.keys):
                c, t = self.ex(n.left)
                return self.shape_update(c, t, {k.value: self.ex(v) for k, v in zip(n.right.keys, n.right.values)})
            # type union used by isinstance
            raise Unsupported("|")
        a, at = self.ex(n.left)
        b, bt = self.ex(n.right)
        if at[0] == "opt":
            a, at = f"(unopt {a})", at[1]
        if bt[0] == "opt":
            b, bt = f"(unopt {b})", bt[1]
        if BOT in (at, bt):
            return "(any_value ())", joint(at, bt) if {at, bt} & {INT, BOT} == {at, bt} else (at if bt == BOT else bt)
        op = type(n.op).__name__
        if at[0] == "fam":
            a, at = self.fam_text(a, at)
        if bt[0] == "fam":
            b, bt = self.fam_text(b, bt)
        if at == BOOL:
            a, at = f"(int_of_bool {a})", INT
        if bt == BOOL:
            b, bt = f"(int_of_bool {b})", INT
        if at == INT and bt == INT:
            if op in ("Add", "Sub", "Mult"):
                return f"({a} {dict(Add='+', Sub='-', Mult='*')[op]} {b})", INT
            if op == "FloorDiv":
                return f"(py_floordiv {a} {b})", INT
            if op == "Mod":
                return f"(py_mod {a} {b})", INT
            if op == "Div" and isinstance(n.right, ast.Constant) and is_pow2(n.right.value):
                return a, FRAC(n.right.value)
            if op == "Pow" and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                return str(n.left.value ** n.right.value), INT
            if op in ("LShift", "RShift", "BitAnd", "BitOr"):
                if isinstance(n.right, ast.Constant):
                    v = n.right.value
                    if op == "LShift":
                        return f"({a} * {2**v})", INT
                    if op == "RShift":
                        return f"(py_floordiv {a} {2**v})", INT
                    if op == "BitAnd" and is_pow2(v + 1):
                        return f"(py_mod {a} {v+1})", INT
        if at[0] == "frac" and bt == INT and op in ("Add", "Sub"):
            return f"({a} {'+' if op == 'Add' else '-'} {b} * {at[1]})", at
        if bt[0] == "frac" and at == INT and op in ("Add", "Sub"):
            return f"({a} * {bt[1]} {'+' if op == 'Add' else '-'} {b})", bt
        if at[0] == "seq" and bt[0] == "seq" and op == "Add":
            t = joint(at, bt)
            return f"(py_app {self.co(a, at, t)} {self.co(b, bt, t)})", t
        if at[0] == "set" and bt[0] == "set" and op == "BitOr":
            t = joint(at, bt)
            return f"(set_union {self.co(a, at, t)} {self.co(b, bt, t)})", t
        raise Unsupported(f"{show(at)} {op} {show(bt)}")

    def fam_text(self, c, t):
        fam = FAMILIES[t[1]]
        for it, (ctor, proj, test) in fam.inject.items():
            if it[0] == "seq":
                return f"({proj} {c})", it
        return c, t

    def e_Compare(self, n):
        parts = []
        left = n.left
        if len(n.ops) == 1 and is_type_call(left):
            o = type(n.ops[0]).__name__
            if o in ("Is", "Eq", "IsNot", "NotEq") and not is_type_call(n.comparators[0]):
                r = self.try_class_test(left.args[0], n.comparators[0])
                if r is not None:
                    return (r if o in ("Is", "Eq") else f"(not {r})"), BOOL
        lc, lt = self.ex(left)
        for i, (op, right) in enumerate(zip(n.ops, n.comparators)):
            r = self.compare(op, left, lc, lt, right)
            parts.append(r)
            if i + 1 < len(n.ops):
                left = right
                lc, lt = self.ex(right)
        return ("(" + " && ".join(parts) + ")") if len(parts) > 1 else parts[0], BOOL

    def compare(self, op, ln, lc, lt, rn):
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            neg = o == "IsNot"
            if isinstance(rn, ast.Constant) and rn.value is None:
                r = self.none_test(lc, lt)
                return f"(not {r})" if neg else r
            rc, rt = self.ex(rn)
            if isinstance(rn, ast.Constant) and isinstance(rn.value, bool) and lt == BOOL:
                r = lc if rn.value else f"(not {lc})"
                return f"(not {r})" if neg else r
            if lt == KIND and rt == KIND or lt == OPT(KIND):
                r = self.eq(lc, lt, rc, rt)
                return f"(not {r})" if neg else r
            if lt[0] == "obj" or lt == OPT(rt) and rt[0] == "obj":
                r = self.eq(lc, lt, rc, rt)
                return f"(not {r})" if neg else r
            if BOT in (lt, rt):
                return "false"
            raise Unsupported("is")
        rc, rt = self.ex(rn)
        if BOT in (lt, rt) and not (lt == BOT and rt == BOT):
            if not self.final:
                return "false"
        if o in ("Eq", "NotEq"):
            r = self.eq(lc, lt, rc, rt)
            return f"(not {r})" if o == "NotEq" else r
        if o in ("In", "NotIn"):
            r = self.contains(lc, lt, rc, rt, rn)
            return f"(not {r})" if o == "NotIn" else r
        if o in ("Lt", "LtE", "Gt", "GtE"):
            if lt[0] == "opt":
                lc, lt = f"(unopt {lc})", lt[1]
            if rt[0] == "opt":
                rc, rt = f"(unopt {rc})", rt[1]
            if lt == INT and rt == INT:
                return f"({lc} {dict(Lt='<', LtE='<=', Gt='>', GtE='>=')[o]} {rc})"
            if not self.final:
                return "false"
            raise Unsupported(f"ordering of {show(lt)}")
        raise Unsupported("comparison " + o)

    def none_test(self, c, t):
        if t == NONE:
            return "true"
        if t[0] == "opt":
            return f"(isn {c})"
        if t == BOT:
            return "false"
        return "false" if not has_effect(c) else f"(let _ = {c} in false)"

    def eq(self, a, at, b, bt):
        if at[0] == "rec" or bt[0] == "rec":
            raise Unsupported("== on objects")
        if at == NONE or bt == NONE:
            return self.none_test(b if at == NONE else a, bt if at == NONE else at)
        t = joint(at, bt)
        a, b = self.co(a, at, t), self.co(b, bt, t)
        if t in (INT,):
            return f"({a} = {b})"
        if t == TOK:
            return f"({a} = {b})"
        if t[0] == "fam" and FAMILIES[t[1]].kindtest:
            pass
        return f"(py_eq {a} {b})"

    def contains(self, a, at, b, bt, bn):
        if bt == BOT:
            return "false"
        if bt[0] == "opt":
            b, bt = f"(unopt {b})", bt[1]
        if bt[0] == "dict":
            return f"(dict_mem {b} {self.co(a, at, bt[1])})"
        if bt[0] == "set":
            return f"(set_mem {b} {self.co(a, at, bt[1])})"
        if bt[0] == "seq" and (bt != TEXT or self.fn.kind == "plain"):
            return f"(seq_mem {b} {self.co(a, at, bt[1])})"
        if bt[0] in ("obj", "rec"):
            o = (OBJS if bt[0] == "obj" else RECORDS)[bt[1]]
            key = f"{o.module}.{o.cls}.__contains__"
            if key in FNS:
                return self.contract_call(FNS[key], [((a, at), None)], {}, None, bn, recv=(b, bt))[0]
        raise Unsupported("in on " + show(bt))

    def e_Tuple(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.starred_display(n)
        parts = [self.ex(e) for e in n.elts]
        if not parts:
            return ("(lit_kind KTuple (py_empty ()))" if self.fn.kind == "generic" else "(py_empty ())"), SEQ(BOT)
        if len(parts) == 1:
            return f"(py_single {parts[0][0]})", SEQ(parts[0][1])
        return "(" + ", ".join(c for c, _ in parts) + ")", TUP(*(t for _, t in parts))

    def e_List(self, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.starred_display(n)
        t = BOT
        parts = [self.ex(e) for e in n.elts]
        for _, pt in parts:
            t = joint(t, pt)
        if not parts:
            return "(py_empty ())", SEQ(BOT)
        code = None
        for c, pt in parts:
            cc = self.co(c, pt, t)
            code = f"(py_single {cc})" if code is None else f"(py_snoc {code} {cc})"
        return code, SEQ(t)

    def starred_display(self, n):
        # (*a, b, *c)
        has_tuplestar = None
        segs = []
        t = BOT
        for e in n.elts:
            if isinstance(e, ast.Starred):
                c, ct = self.seq_of(e.value) if not isinstance(e.value, ast.Call) else self.ex(e.value)
                if ct[0] == "tup":
                    has_tuplestar = True
                segs.append(("*", c, ct))
                if ct[0] == "seq":
                    t = joint(t, ct[1])
            else:
                c, ct = self.ex(e)
                segs.append(("", c, ct))
                t = joint(t, ct)
        if has_tuplestar:
            if not isinstance(n, ast.Tuple):
                raise Unsupported("star of a heterogeneous tuple")
            pre, names, types = "", [], []
            for s, c, ct in segs:
                if s == "*":
                    if ct[0] != "tup":
                        raise Unsupported("star of a sequence in a heterogeneous tuple")
                    ns = []
                    for x in ct[1]:
                        self.tmpno += 1
                        ns.append(f"t'{self.tmpno}")
                    pre += f"let ({', '.join(ns)}) = {c} in "
                    names += ns
                    types += list(ct[1])
                else:
                    names.append(c)
                    types.append(ct)
            return f"({pre}({', '.join(names)}))", TUP(*types)
        code = "(py_empty ())"
        for s, c, ct in segs:
            if s == "*":
                cc = self.co(c, ct, SEQ(t))
                code = cc if code == "(py_empty ())" else f"(py_app {code} {cc})"
            else:
                cc = self.co(c, ct, t)
                code = f"(py_single {cc})" if code == "(py_empty ())" else f"(py_snoc {code} {cc})"
        return code, SEQ(t)

    def e_Dict(self, n):
        if n.keys:
            return self.shape_display(n)
        return "(dict_new ())", DICT(BOT, BOT)

    def shape_display(self, n):
        """a dictionary with fixed text keys, as a value of a declared shape (never changed in place: a store into one is not supported)"""
        base = None
        keys, vals = list(n.keys), list(n.values)
        if keys[0] is None:
            base, keys, vals = vals[0], keys[1:], vals[1:]
        if not all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in keys):
            raise Unsupported("dictionary display")
        names = [k.value for k in keys]
        got = {k: self.ex(v) for k, v in zip(names, vals)}
        if base is not None:
            c, t = self.ex(base)
            return self.shape_update(c, t, got)
        for fam in FAMILIES.values():
            if fam.keys and set(names) <= set(fam.keys) and all(k in got or t[0] == "opt" for k, t in fam.keys.items()):
                try:
                    return self.shape_build(fam, got), FAM(fam.name)
                except Unsupported:
                    continue
        raise Unsupported("dictionary display with the keys " + ", ".join(names))

    def shape_build(self, fam, got):
        return "{ " + "; ".join(f"{fam.name}_{k} = {self.co(*got[k], t) if k in got else 'none'}" for k, t in fam.keys.items()) + " }"

    def shape_update(self, c, t, got):
        if t == BOT:
            return c, t
        fam = self.shape(t)
        if fam is None or not set(got) <= set(fam.keys):
            raise Unsupported("dictionary update")
        return "(let s' = " + c + " in { s' with " + "; ".join(f"{fam.name}_{k} = {self.co(*v, fam.keys[k])}" for k, v in got.items()) + " })", t

    def shape(self, t):
        return FAMILIES[t[1]] if t[0] == "fam" and FAMILIES[t[1]].keys else None

    def pure_text(self, body, param, opt):
        """a text expression over one parameter as a logic term"""
        if isinstance(body, ast.Constant) and isinstance(body.value, str):
            return " ++ ".join(["(empty : seq int)"] + [f"singleton {ord(ch)}" for ch in body.value])
        if isinstance(body, ast.Name) and body.id == param:
            if opt:
                raise Unsupported("function value that may be None")
            return param_name(param)
        if isinstance(body, ast.JoinedStr):
            out = []
            for v in body.values:
                if isinstance(v, ast.FormattedValue):
                    if v.conversion != -1 or v.format_spec is not None or not (isinstance(v.value, ast.Name) and v.value.id == param):
                        raise Unsupported("f-string in a function value")
                    out.append((f"text_or_none " if opt else "") + param_name(param))
                else:
                    out.append("(" + self.pure_text(v, param, opt) + ")")
            return " ++ ".join(out or ["empty"])
        raise Unsupported("function value " + ast.unparse(body)[:40])

    def as_mapping(self, f, t):
        """a one-parameter function that returns a text expression, as a value of the mapping type t"""
        if f[0] == "lam":
            d = LAMBDAS[f[1]][1]
        else:
            m, q = f[1].rsplit(".", 1) if "." in f[1] else (self.sc.mod.name, f[1])
            d = module(m).defs.get(q)
        if d is None or len(d.args.args) != 1 or d.args.kwonlyargs or d.args.vararg or d.args.kwarg or d.decorator_list:
            raise Unsupported("function value")
        body = [x for x in d.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, ast.Pass)]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            raise Unsupported("function value")
        p = d.args.args[0].arg
        self.pure_text(body[0].value, p, FAMILIES[t[1]].mapping[0] == "opt")
        return f"(any {t[1]})"

    def e_Set(self, n):
        code, t = "(set_new ())", SET(BOT)
        vals = [self.ex(e) for e in n.elts]
        for _, et in vals:
            t = joint(t, SET(et))
        for c, et in vals:
            code = f"(set_add {code} {self.co(c, et, t[1])})"
        return code, t

    def e_Slice(self, n):
        raise Unsupported("slice")

    def e_Attribute(self, n):
        # module attribute?
        if isinstance(n.value, ast.Name) and not self.is_local(n.value.id):
            imp = self.sc.mod.imports.get(n.value.id)
            if imp and imp[0] == "mod":
                r = self.global_value(module(imp[1]), n.attr)
                if r:
                    return r
        c, t = self.ex(n.value)
        return self.attr(c, t, n.attr)

    def attr(self, c, t, a):
        if t == BOT:
            return "(any_value ())", BOT
        if t[0] == "opt":
            return self.attr(f"(unopt {c})", t[1], a)
        if t[0] == "fam":
            fam = FAMILIES[t[1]]
            if a in fam.fields:
                return f"(get_{fam.name}_{a} {c})", fam.fields[a]
            for it, (ctor, proj, test) in fam.inject.items():
                if it[0] == "fam" and a in FAMILIES[it[1]].fields or it[0] == "rec" and a in RECORDS[it[1]].fields:
                    return self.attr(f"({proj} {c})", it, a)
        if t[0] == "rec":
            r = RECORDS[t[1]]
            if a in r.fields:
                return f"{c}.{r.name}_{a}", r.fields[a]
            return "()", ("bound", c, t, a)
        if t == ("sqlcur", "changed") and a == "rowcount":
            return c, INT
        if t[0] == "obj":
            o = OBJS[t[1]]
            if a in o.fields:
                return f"(obj_get_{a} {c})", o.fields[a]
        if not self.final:
            return "(any_value ())", BOT
        raise Unsupported(f"attribute {a} of {show(t)}")

    def fam_dict(self, c, t):
        """a value of a union, used as a dictionary"""
        for it, (ctor, proj, test) in FAMILIES[t[1]].inject.items():
            if it[0] == "dict":
                return f"({proj} {c})", it
        return c, t

    def e_Subscript(self, n):
        c, t = self.ex(n.value)
        if t == BOT:
            if isinstance(n.slice, ast.Slice):
                return c, BOT
            return "(any_value ())", BOT
        if t[0] == "opt":
            c, t = f"(unopt {c})", t[1]
        if t in (FAM("i2"), FAM("i3")) and isinstance(n.slice, ast.Constant) and n.slice.value in range(int(t[1][1])):
            return f"({t[1]}_{n.slice.value} {c})", INT
        if self.shape(t):
            k = n.slice
            ft = self.shape(t).keys.get(k.value) if isinstance(k, ast.Constant) else None
            if ft is None:
                raise Unsupported("key of a fixed dictionary")
            return (f"(unopt {c}.{t[1]}_{k.value})", ft[1]) if ft[0] == "opt" else (f"{c}.{t[1]}_{k.value}", ft)
        if t[0] == "fam":
            c, t = self.fam_dict(c, t)
        if t[0] == "fam":
            c, t = self.fam_text(c, t)
        s = n.slice
        if isinstance(s, ast.Slice):
            if t[0] != "seq":
                raise Unsupported("slice of " + show(t))
            if s.step is not None:
                raise Unsupported("slice step")
            lo = self.int_or_none(s.lower)
            hi = self.int_or_none(s.upper)
            if lo is None and hi is None:
                return c, t
            if hi is None:
                return self.app("slice_from", [c, lo]), t
            if lo is None:
                return self.app("slice_to", [c, hi]), t
            return self.app("slice2", [c, lo, hi]), t
        if t[0] == "rmatch" and isinstance(s, ast.Constant) and s.value == 0:
            return c, TEXT
        if t[0] == "tup":
            if isinstance(s, ast.Constant) and isinstance(s.value, int) and -len(t[1]) <= s.value < len(t[1]):
                i = s.value % len(t[1])
                ns = [f"x'{j}" if j == i else "_" for j in range(len(t[1]))]
                return f"(let ({', '.join(ns)}) = {c} in x'{i})", t[1][i]
            raise Unsupported("tuple index")
        i, it = self.ex(s)
        if t[0] == "seq" and it[0] == "fam" and it != FAM("slice") and FAM("slice") in FAMILIES[it[1]].inject:
            i, it = self.co(i, it, FAM("slice")), FAM("slice")
        if t[0] == "dict":
            return self.app("dict_get", [c, self.co(i, it, t[1])]), t[2]
        if t[0] == "seq":
            if it == FAM("slice"):
                return self.app("slice_obj", [c, i]), t
            if it == BOT:
                return "(any_value ())", t[1]
            return self.app("getitem", [c, self.co(i, it, INT)]), t[1]
        raise Unsupported("subscript of " + show(t))

    def int_or_none(self, n):
        if n is None or isinstance(n, ast.Constant) and n.value is None:
            return None
        c, t = self.ex(n)
        return self.co(c, t, INT)

    def app(self, f, args):
        if sum(1 for a in args if "<-" in a or "__" in a) == 0:
            return f"({f} {' '.join(args)})"
        ns = []
        pre = ""
        for a in args:
            self.tmpno += 1
            nm = f"a'{self.tmpno}"
            pre += f"let {nm} = {a} in "
            ns.append(nm)
        return f"({pre}{f} {' '.join(ns)})"

    # --------------------------------------------------------- comprehensions
    def comprehension(self, n, elt):
        if len(n.generators) != 1 or n.generators[0].is_async:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        self.compno += 1
        tag = f"c{self.compno}"
        binds, length, elem, ty = self.iteration(g.iter, tag)
        sub = {}
        pre = []
        k = f"k{tag}"
        logic_sub = {}
        el = elem(k)
        targets = [(g.target, el, ty)]
        if isinstance(g.target, ast.Tuple):
            if ty[0] == "tup" and len(ty[1]) == len(g.target.elts):
                ns = []
                for e, et in zip(g.target.elts, ty[1]):
                    if not isinstance(e, ast.Name):
                        raise Unsupported("comprehension target")
                    w = f"_{tag}_{e.id}"
                    ns.append(w)
                    sub[e.id] = w
                    self.env[w] = et
                logic_sub.update(self.tuple_logic(g, ty, tag))
                pre.append(f"let ({', '.join(ns)}) = {el} in")
            elif ty == BOT:
                for e in g.target.elts:
                    w = f"_{tag}_{e.id}"
                    sub[e.id] = w
                    self.env[w] = BOT
            else:
                raise Unsupported("comprehension target")
        elif isinstance(g.target, ast.Name):
            w = f"_{tag}_{g.target.id}"
            sub[g.target.id] = w
            self.env[w] = ty
            pre.append(f"let {w} = {el} in")
            logic_sub[g.target.id] = (f"it{tag}[j']", ty)
        else:
            raise Unsupported("comprehension target")
        self.sc.comp.append(sub)
        try:
            conds = [self.truth(c) for c in g.ifs]
            c, t = self.int_tuple(*self.ex(elt))
        finally:
            self.sc.comp.pop()
            for w in sub.values():
                self.env.pop(w, None)
        r = f"r{tag}"
        key = f"c{self.compno_of(tag)}"
        clauses, lp = self.loop_clauses(tag)
        auto = []
        if not conds and (isinstance(g.target, ast.Name) or logic_sub) and lp is None:
            self.sc.comp.append(sub)
            lg = self.logic(elt, logic_sub)
            self.sc.comp.pop()
            auto.append(f"invariant {{ [@expl:{tag} length] length {r} = {k} }}")
            if lg is not None:
                auto.append(f"invariant {{ [@expl:{tag} elements] forall j'. 0 <= j' < {k} -> {r}[j'] = {lg} }}")
        elt_t = defaulted(t) if self.final else t
        tyname = why(elt_t) if self.final else "int"
        body = " ".join(pre) + " "
        push = f"{r} <- py_snoc {r} {self.co(c, t, elt_t)}"
        if conds:
            body += f"if {' && '.join(conds)} then begin {push} end"
        else:
            body += push
        cl = "\n      ".join(clauses + auto)
        after = "".join(x + "; " for x in self.hint(f"{tag}.after"))
        code = (
            f"(begin {' '.join(binds)} let ref {r} = (py_empty () : seq {tyname}) in\n"
            f"    for {k} = 0 to {length} - 1 do\n      {cl}\n      {body}\n    done; {after}{r} end)"
        )
        return code, SEQ(t)

    def int_tuple(self, c, t):
        """pairs and triples of integers in sequences"""
        if t[0] == "tup" and len(t[1]) in (2, 3) and all(x == INT for x in t[1]):
            n = len(t[1])
            ns = ["a'", "b'", "c'"][:n]
            return f"(let ({', '.join(ns)}) = {c} in I{n} {' '.join(ns)})", FAM(f"i{n}")
        return c, t

    def tuple_logic(self, g, ty, tag):
        """the values of the variables of a pair as terms over the index j'"""
        it, names = g.iter, [e.id for e in g.target.elts]
        if not isinstance(it, ast.Call) or len(names) != 2:
            return {}
        if isinstance(it.func, ast.Attribute) and it.func.attr == "items" and ty != BOT:
            return {names[1]: (f"(the (dfind d{tag} it{tag}[j']))", ty[1][1]), names[0]: (f"it{tag}[j']", ty[1][0])}
        if isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and not isinstance(it.args[0], ast.Call):
            return {names[0]: ("j'", INT), names[1]: (f"it{tag}[j']", ty[1][1])}
        return {}

    def compno_of(self, tag):
        return tag[1:]

    def e_ListComp(self, n):
        return self.comprehension(n, n.elt)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        raise Unsupported("set comprehension")

    e_DictComp = e_SetComp

    # --------------------------------------------------------- logic terms
    def logic(self, n, sub):
        """the value of a pure expression as a WhyML term, or None"""
        try:
            return self.lg(n, sub)[0]
        except Unsupported:
            return None

    def lg(self, n, sub):
        if isinstance(n, ast.Name):
            if n.id in sub:
                return sub[n.id]
            if any(n.id in x for x in self.sc.comp):
                raise Unsupported("not a term")
            if self.is_local(n.id):
                return self.vname(n.id), self.env.get(self.vname(n.id), BOT)
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            return str(n.value), INT
        if isinstance(n, ast.Tuple) and len(n.elts) in (2, 3):
            xs = [self.lg(e, sub) for e in n.elts]
            if all(t == INT for _, t in xs):
                return f"(I{len(xs)} {' '.join('(' + c + ')' for c, _ in xs)})", FAM(f"i{len(xs)}")
        if isinstance(n, ast.Attribute):
            c, t = self.lg(n.value, sub)
            if t[0] == "fam" and n.attr in FAMILIES[t[1]].fields:
                return f"({t[1]}_{n.attr} {c})", FAMILIES[t[1]].fields[n.attr]
            if t[0] == "rec" and n.attr in RECORDS[t[1]].fields:
                return f"{c}.{t[1]}_{n.attr}", RECORDS[t[1]].fields[n.attr]
            if t[0] == "obj" and n.attr in OBJS[t[1]].logic:
                return "(" + OBJS[t[1]].logic[n.attr].format(c) + ")", OBJS[t[1]].fields[n.attr]
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, at = self.lg(n.left, sub)
            b, bt = self.lg(n.right, sub)
            if at == INT and bt == INT:
                return f"({a} {'+' if isinstance(n.op, ast.Add) else '-'} {b})", INT
            if at == TEXT and bt == TEXT and isinstance(n.op, ast.Add):
                return f"({a} ++ {b})", TEXT
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
            c, t = self.lg(n.value, sub)
            i, it = self.lg(n.slice, sub)
            if t[0] == "rmatch" and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
                return c, TEXT
            if t[0] == "dict":
                return f"(the (dfind {c} {i}))", t[2]
            if t[0] == "seq" and it in (INT, TOK):
                return f"({c}[{i}])", t[1]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not n.keywords and not self.is_local(n.func.id):
            if n.func.id == "cast" and len(n.args) == 2:
                return self.lg(n.args[1], sub)
            if n.func.id in ("ord", "chr") and len(n.args) == 1:
                c, t = self.lg(n.args[0], sub)
                if n.func.id == "ord" and t == TOK:
                    return c, INT
                if n.func.id == "chr" and t in (INT, TOK):
                    return f"(singleton {c})", TEXT
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("encode", "decode") and is_utf8(n):
            c, t = self.lg(n.func.value, sub)
            if t == TEXT:
                return f"({'utf8enc' if n.func.attr == 'encode' else 'utf8dec'} {c})", TEXT
        raise Unsupported("not a term")

    # --------------------------------------------------------- calls
    def seq_of(self, node):
        """expression used as an iterable, as a sequence"""
        if isinstance(node, (ast.GeneratorExp, ast.ListComp)):
            return self.comprehension(node, node.elt)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("keys", "values", "items") and not node.args:
            d, dt = self.ex(node.func.value)
            if dt[0] == "dict" and node.func.attr == "keys":
                return f"(dict_keys {d})", SEQ(dt[1])
        c, t = self.ex(node)
        if t[0] == "opt":
            c, t = f"(unopt {c})", t[1]
        if t[0] == "dict":
            return f"(dict_keys {c})", SEQ(t[1])
        if t[0] == "fam":
            c, t = self.fam_text(c, t)
        return c, t

    def e_Call(self, n):
        if getattr(n, "_dispatch", None):
            m, d, q = n._dispatch
            return self.inline_call(m, d, q, n, recv=self.ex(n.func.value))
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "format":
            r = self.sql_text(n)
            if r is not None:
                return r
        if any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id in self.fn.kwargs for k in n.keywords) and self.sc.prefix == "_":
            kws = []
            for k in n.keywords:
                if k.arg is None and isinstance(k.value, ast.Name) and k.value.id in self.fn.kwargs:
                    kws += [ast.keyword(arg=x, value=ast.Name(id=x, ctx=ast.Load())) for x in self.fn.kwargs[k.value.id]]
                else:
                    kws.append(k)
            n = ast.copy_location(ast.Call(func=f, args=n.args, keywords=kws), n)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            r = self.starcall(n)
            if r is not None:
                return r
            raise Unsupported("star arguments: " + ast.unparse(n)[:60])
        if isinstance(f, ast.Name):
            if f.id in self.sc.lambdas:
                return self.inline_lambda(self.sc.lambdas[f.id], n)
            if f.id in self.sc.closures:
                return self.inline_call(self.sc.mod, self.sc.closures[f.id], None, n, closure=True)
            if self.is_local(f.id):
                c, t = self.ex(f)
                return self.call_value(c, t, n)
            res = resolve(self.sc.mod, f.id)
            if res is not None and not res[0].startswith("<ext>"):
                return self.call_global(res[0], res[1], n)
            ext = res[1] if res else f.id
            return self.builtin(ext, n, f.id)
        if isinstance(f, ast.Attribute):
            root = f.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root is not f.value and not self.is_local(root.id) and (self.sc.mod.imports.get(root.id) or ("",))[0] == "ext":
                return self.builtin(ast.unparse(f), n, f.attr)
            if isinstance(f.value, ast.Name) and not self.is_local(f.value.id):
                imp = self.sc.mod.imports.get(f.value.id)
                if imp and imp[0] == "mod":
                    return self.call_global(imp[1], f.attr, n)
                if imp and imp[0] == "ext":
                    return self.builtin(f"{f.value.id}.{f.attr}", n, f.attr)
                res = resolve(self.sc.mod, f.value.id)
                if res and not res[0].startswith("<ext>") and res[1] in module(res[0]).classes:
                    return self.call_global(res[0], res[1] + "." + f.attr, n)
                if f.value.id in ("int", "str", "bytes", "dict"):
                    return self.builtin(f"{f.value.id}.{f.attr}", n, f.attr)
                if imp is None and res is not None:
                    c, t = self.ex(f.value)
                    return self.method(c, t, f.attr, n)
            c, t = self.ex(f.value)
            return self.method(c, t, f.attr, n)
        c, t = self.ex(f)
        return self.call_value(c, t, n)

    def starcall(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "chain" and len(n.args) == 1:
            c, t = self.seq_of(n.args[0].value)
            return self.flatten(c, t)
        return None

    def flatten(self, c, t):
        if t == BOT:
            return c, BOT
        if t[0] == "seq" and t[1][0] == "fam":
            fam = FAMILIES[t[1][1]]
            raise Unsupported("flatten of a union")
        if t[0] == "seq" and t[1][0] == "seq":
            return f"(join_flat {c})", t[1]
        if t[0] == "seq" and t[1] == BOT:
            return c, SEQ(BOT)
        raise Unsupported("chain of " + show(t))

    def call_value(self, c, t, n):
        if t == BOT:
            for a in n.args:
                self.ex(a)
            return "(any_value ())", BOT
        if t == ("sqlfac",) and not n.args and not n.keywords:
            if not self.connecting or self.withs:
                raise Unsupported("a connection outside a with statement")
            return "()", ("sqlcon",)
        if t[0] == "pyfn":
            m, q = t[1].split(".", 1) if "." in t[1] else (self.sc.mod.name, t[1])
            return self.call_global(m, q, n)
        if t[0] == "bound":
            return self.method(t[1], t[2], t[3], n)
        if t[0] == "lam":
            m, d = LAMBDAS[t[1]]
            return self.inline_call(m, d, None, n)
        if t[0] == "fn":
            key = f"<fn>.{t[1]}"
            fn = FNS.get(key)
            if fn is None:
                raise Unsupported(f"call of function value {t[1]}")
            self.callno[t[1]] = self.callno.get(t[1], 0) + 1
            return self.contract_call(fn, [(self.ex(a), a) for a in n.args], {k.arg: (self.ex(k.value), k.value) for k in n.keywords}, None, n)
        if t[0] == "opt" and t[1][0] == "fam":
            c, t = f"(unopt {c})", t[1]
        if t[0] == "fam" and f"<fn>.{t[1]}" in FNS:
            fn = FNS[f"<fn>.{t[1]}"]
            self.callno[t[1]] = self.callno.get(t[1], 0) + 1
            return self.contract_call(fn, [((c, t), None)] + [(self.ex(a), a) for a in n.args], {k.arg: (self.ex(k.value), k.value) for k in n.keywords}, None, n)
        if t == KIND:  # joiner value
            raise Unsupported("call of a type")
        raise Unsupported("call of " + show(t))

    def call_global(self, m, q, n):
        key = f"{m}.{q}"
        fn = FNS.get(self.fn.client.get(key, key))
        self.callno[q] = self.callno.get(q, 0) + 1
        if fn is not None and key not in self.fn.inline:
            args = [(self.arg(a), a) for a in n.args]
            kws = {k.arg: (self.arg(k.value), k.value) for k in n.keywords}
            return self.contract_call(fn, args, kws, module(m).defs.get(q), n)
        # class constructor?
        mod = module(m)
        if q in mod.classes or class_fields(m, q) is not None:
            return self.construct(m, q, n)
        if q in mod.defs:
            return self.inline_call(mod, mod.defs[q], q, n)
        raise Unsupported(f"call of {key}")

    def arg(self, a):
        if isinstance(a, (ast.GeneratorExp,)):
            return self.comprehension(a, a.elt)
        return self.ex(a)

    def construct(self, m, q, n):
        tc = TOKENS.get(q)
        if tc and tc.module == m:
            c = module(m).classes.get(q)
            deco = [ast.unparse(d) for d in c.decorator_list] if c is not None else []
            if deco != ["dataclass(frozen=True)"] or c.bases or any(isinstance(x, (ast.FunctionDef, ast.Assign)) for x in c.body):
                raise Unsupported(f"{q} is not a class of its own (a frozen data class): its values may equal other tokens")
            fields = class_fields(m, q)
            if n.keywords or [f for f, _ in fields] != [f for f, _ in tc.fields] or len(n.args) != len(fields):
                raise Unsupported(f"fields of {q} changed: {[f for f, _ in fields]}")
            return self.app(tc.ctor, [self.co(*self.ex(a), t) for a, (_, t) in zip(n.args, tc.fields)]), TOK
        cands = []
        for fam in FAMILIES.values():
            if q in fam.ctors and fam.home.get(q, m) == m:
                cands.append((fam, *fam.ctors[q]))
        pref = self.fn.classes.get(q)
        if pref:
            cands = [c for c in cands if c[0].name == pref or c[1] == pref]
        rec = [r for r in RECORDS.values() if r.cls == q and r.module == m]
        if rec and not cands:
            fn = FNS.get(f"{m}.{q}.__new__")
            if fn:
                args = [(self.arg(a), a) for a in n.args]
                kws = {k.arg: (self.arg(k.value), k.value) for k in n.keywords}
                return self.contract_call(fn, args, kws, None, n)
            raise Unsupported(f"construction of {q}")
        obj = [o for o in OBJS.values() if o.cls == q and o.module == m]
        if not cands and not (obj and f"{m}.{q}.__new__" in FNS):
            raise Unsupported(f"construction of {q}")
        fields = class_fields(m, q)
        if fields is None:
            raise Unsupported(f"{q} is not a plain data class")
        given = {}
        for i, a in enumerate(n.args):
            if i >= len(fields):
                raise Unsupported("too many constructor arguments")
            given[fields[i][0]] = a
        for k in n.keywords:
            given[k.arg] = k.value
        unknown = [k for k in given if k not in [f for f, _ in fields]]
        if unknown:
            raise Unsupported(f"unknown fields {unknown}")
        vals = {}
        for fname, dflt in fields:
            node = given.get(fname, dflt)
            if node is None:
                raise Unsupported(f"missing field {fname}")
            if fname not in given and isinstance(node, ast.Call) and ast.unparse(node.func) == "field":
                fac = [k.value for k in node.keywords if k.arg == "default_factory"]
                if fac and ast.unparse(fac[0]) == "list":
                    vals[fname] = ("(py_empty ())", SEQ(BOT))
                elif fac and ast.unparse(fac[0]) == "dict":
                    vals[fname] = ("(dict_new ())", DICT(BOT, BOT))
                else:
                    raise Unsupported("default_factory")
            else:
                vals[fname] = self.arg(node)
                self.escape(node)
        if not cands:
            new = FNS[f"{m}.{q}.__new__"]
            if list(new.params) != [f for f, _ in fields]:
                raise Unsupported(f"fields of {q} changed: {[f for f, _ in fields]}")
            return self.contract_call(new, [], {f: (vals[f], None) for f in vals}, None, n)
        for fam, ctor, ctorfields in cands:
            if [f for f, _ in ctorfields] != [f for f, _ in fields]:
                raise Unsupported(f"fields of {q} changed: {[f for f, _ in fields]}")
            if all(assignable(vals[f][1], t) for f, t in ctorfields):
                args = [self.co(*vals[f], t) for f, t in ctorfields]
                return self.app(ctor, args), FAM(fam.name)
        if not self.final:
            return "(any_value ())", BOT
        raise Unsupported(f"{q} of {[show(v[1]) for v in vals.values()]}")

    def contract_call(self, fn, args, kws, node, callnode, recv=None):
        """call through the contract"""
        if fn.name not in self.vals:
            self.vals[fn.name] = fn
        names = list(fn.params)
        bound = {}
        pos = list(args)
        if recv is not None:
            bound[names[0]] = (recv, None)
            names = names[1:]
        vararg = node.args.vararg.arg if node is not None and node.args.vararg else None
        for i, a in enumerate(pos):
            if i >= len(names):
                raise Unsupported("too many arguments")
            bound[names[i]] = a
        for k, a in kws.items():
            if k not in names:
                # parameter without contract: allowed only if it is the default
                raise Unsupported(f"keyword argument {k}")
            bound[k] = a
        dm = default_map(node) if node is not None else {}
        out = []
        back = []
        for p, t in fn.params.items():
            if p in bound:
                (c, ct), an = bound[p]
                if p in fn.mutates and t[0] != "rec":
                    if isinstance(an, ast.Attribute) and self.ex(an.value)[1][0] == "rec" and assignable(ct, t):
                        # a field of an object, changed in place by the callee
                        self.tmpno += 1
                        m = f"m'{self.tmpno}"
                        back.append((m, c))
                        out.append(m)
                        continue
                    if not isinstance(an, ast.Name):
                        raise Unsupported("mutable argument is not a variable")
                    self.settype(self.vname(an.id), t)
                    self.check_fresh(an)
                    out.append(c)
                    continue
                if fn.module == "<fn>" and self.is_mutable(t) and an is not None and not self.is_fresh(an) and not (
                        isinstance(an, ast.Name) and any(an.id in l for l in self.fn.kwargs.values())):
                    raise Unsupported(f"shared mutable value passed as {p}")
                out.append(self.co(c, ct, t))
            elif p in dm:
                c, ct = self.default_value(dm[p])
                out.append(self.co(c, ct, t))
            elif p in fn.defaults:
                out.append(fn.defaults[p])
            else:
                raise Unsupported(f"missing argument {p}")
        for g, t in fn.ghost_params:
            if g not in self.fn.ghost_args and g not in [x for x, _ in self.fn.ghost_params]:
                raise Unsupported(f"ghost argument {g}")
            out.append(self.fn.ghost_args.get(g, g))
        code = self.app(fn.why, out or ["()"])
        if back and fn.raises:
            raise Unsupported("field changed by a callee that may raise")
        for m, c in back:
            code = f"(let ref {m} = {c} in let r{m} = {code} in {c} <- {m}; r{m})"
        for e, r in fn.raises.items():
            wexc = r[0].split()[0] if isinstance(r, tuple) else e
            pat = r[0].split()[0] + " _" if isinstance(r, tuple) else e
            mine = self.fn.raises.get(e)
            if mine is None:
                code = f"(try {code} with {pat} -> begin raise_unreachable (); absurd end end)"
            elif isinstance(mine, tuple):
                code = f"(try {code} with {pat} -> raise ({mine[0].split()[0]} __out) end)"
        return code, fn.ret

    def default_value(self, node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "slice":
            return self.ex(node)
        return self.ex(node)

    def method(self, c, t, meth, n):
        if t[0] == "opt":
            c, t = f"(unopt {c})", t[1]
        args = lambda: [(self.arg(a), a) for a in n.args]
        kws = lambda: {k.arg: (self.arg(k.value), k.value) for k in n.keywords}
        if t == BOT:
            for a in n.args:
                self.arg(a)
            return "(any_value ())", BOT
        if t[0] == "rec":
            r = RECORDS[t[1]]
            if meth in r.fields:
                ft = r.fields[meth]
                return self.call_value(f"{c}.{r.name}_{meth}", ft, n)
            key = f"{r.module}.{r.cls}.{meth}"
            self.callno[meth] = self.callno.get(meth, 0) + 1
            if key in FNS:
                return self.contract_call(FNS[key], args(), kws(), module(r.module).defs.get(f"{r.cls}.{meth}") if not r.module.startswith("<") else None, n, recv=(c, t))
            d = module(r.module).defs.get(f"{r.cls}.{meth}")
            if d is not None:
                return self.inline_call(module(r.module), d, f"{r.cls}.{meth}", n, recv=(c, t))
            raise Unsupported(f"method {meth}")
        if t[0] == "fam":
            fam = FAMILIES[t[1]]
            if fam.keys and meth == "get" and len(n.args) in (1, 2) and isinstance(n.args[0], ast.Constant) and n.args[0].value in fam.keys:
                ft = fam.keys[n.args[0].value]
                v = f"{c}.{fam.name}_{n.args[0].value}"
                if len(n.args) == 1:
                    return self.co(v, ft, OPT(ft)), OPT(ft)
                d, dt = self.ex(n.args[1])
                if ft[0] != "opt":
                    return v, ft
                return f"(let w' = {v} in if isn w' then {self.co(d, dt, ft[1])} else unopt w')", ft[1]
            for key in [f"{h}.{fam.name}.{meth}" for h in set(fam.home.values())]:
                if key in FNS:
                    d = None
                    for cls, h in fam.home.items():
                        d = d or (None if h.startswith("<") else module(h).defs.get(f"{cls}.{meth}"))
                    self.callno[meth] = self.callno.get(meth, 0) + 1
                    return self.contract_call(FNS[key], args(), kws(), d, n, recv=(c, t))
            if meth in ("get", "keys", "values", "items"):
                c2, t2 = self.fam_dict(c, t)
                if t2 != t:
                    return self.method(c2, t2, meth, n)
            c2, t2 = self.fam_text(c, t)
            if t2 != t:
                return self.method(c2, t2, meth, n)
        if t[0] == "seq":
            return self.seq_method(c, t, meth, n)
        if t[0] == "dict":
            if meth == "get" and len(n.args) in (1, 2):
                k, kt = self.ex(n.args[0])
                if len(n.args) == 1 or (isinstance(n.args[1], ast.Constant) and n.args[1].value is None):
                    return self.app("dict_find", [c, self.co(k, kt, t[1])]), OPT(t[2])
                d, dt = self.ex(n.args[1])
                vt = joint(t[2], dt)
                return f"(let w' = dict_find {c} {self.co(k, kt, t[1])} in if isn w' then {self.co(d, dt, vt)} else let g' = unopt w' in {self.co(chr(103)+chr(39), t[2], vt)})", vt
            if meth == "copy" and not n.args:
                return c, t
            if meth == "keys" and not n.args:
                return f"(dict_keys {c})", SEQ(t[1])
            if meth == "values" and not n.args:
                self.compno += 1
                return f"(dict_values {c})", SEQ(t[2])
        if t[0] == "set":
            if meth == "union" and len(n.args) == 1:
                b, bt = self.ex(n.args[0])
                tt = joint(t, bt)
                return f"(set_union {self.co(c, t, tt)} {self.co(b, bt, tt)})", tt
        if t[0] == "obj":
            o = OBJS[t[1]]
            key = f"{o.module}.{o.cls}.{meth}"
            if key in FNS:
                self.callno[meth] = self.callno.get(meth, 0) + 1
                return self.contract_call(FNS[key], args(), kws(), module(o.module).defs.get(f"{o.cls}.{meth}"), n, recv=(c, t))
        if t == INT and meth == "to_bytes":
            a = n.args
            kw = {k.arg: k.value for k in n.keywords}
            if len(a) == 2:
                order = a[1]
            else:
                order = kw.get("byteorder")
            if order is None or not isinstance(order, ast.Constant) or order.value != "big" or "signed" in kw:
                raise Unsupported("to_bytes byte order")
            ln, lt = self.ex(a[0])
            nm = "to_bytes_big_raise" if "OverflowError" in self.fn.raises else "to_bytes_big"
            return self.app(nm, [c, self.co(ln, lt, INT)]), TEXT
        if t[0] == "regex" and meth == "finditer" and len(n.args) == 1 and not n.keywords:
            c, ct = self.ex(n.args[0])
            return f"(begin assert {{ [@expl:every character is matched by the pattern] forall c: int. {regex_covers(t[1])} }}; regex_split {self.co(c, ct, TEXT)} end)", SEQ(("rmatch",))
        if t[0] == "rmatch" and meth == "group" and (not n.args or isinstance(n.args[0], ast.Constant) and n.args[0].value == 0):
            return c, TEXT
        if t[0] in ("sqlcon", "sqlcur"):
            return self.sql_method(c, t, meth, n)
        if t[0] == "ext":
            return self.ext_method(c, t, meth, n)
        if not self.final:
            return "(any_value ())", BOT
        raise Unsupported(f"method {meth} of {show(t)}")

    def ext_method(self, c, t, meth, n):
        raise Unsupported(f"method {meth}")

    def seq_method(self, c, t, meth, n):
        if meth == "pop" and not n.args:
            return self.ex_pop(n.func.value)
        if meth == "join" and len(n.args) == 1:
            x, xt = self.seq_of(n.args[0])
            if xt == BOT or xt[0] == "seq" and xt[1] == BOT:
                return "(any_value ())" if not self.final else "(py_empty ())", TEXT
            x = self.co(x, xt, SEQ(TEXT))
            return self.app("join_sep", [c, x]), TEXT
        if meth == "split" and len(n.args) == 1:
            s, st = self.ex(n.args[0])
            return self.app("str_split", [c, self.co(s, st, TEXT)]), SEQ(TEXT)
        if meth == "isspace" and not n.args:
            return self.app("str_isspace", [c]), BOOL
        if meth == "replace" and len(n.args) == 2:
            a, at = self.ex(n.args[0])
            b, bt = self.ex(n.args[1])
            return self.app("str_replace", [c, a, b]), TEXT
        if meth in ("encode", "decode") and is_utf8(n):
            return self.app(f"utf8_{meth}", [c]), TEXT
        if meth == "copy" and not n.args:
            return c, t
        if meth in ("startswith", "endswith") and len(n.args) == 1:
            a, at = self.ex(n.args[0])
            return self.app(f"str_{meth}", [c, self.co(a, at, TEXT)]), BOOL
        if meth == "index":
            pass
        raise Unsupported(f"method {meth} of a sequence")

    # ------------------------------------------------ type tests
    def class_names(self, node):
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.class_names(node.left) + self.class_names(node.right)
        if isinstance(node, ast.Tuple):
            return sum((self.class_names(e) for e in node.elts), [])
        if isinstance(node, ast.Name):
            res = resolve(self.sc.mod, node.id)
            if res and not res[0].startswith("<ext>"):
                m = module(res[0])
                v = m.consts.get(res[1])
                if v is not None and isinstance(v, (ast.BinOp, ast.Name)):
                    save = self.sc.mod
                    self.sc.mod = m
                    try:
                        return self.class_names(v)
                    finally:
                        self.sc.mod = save
                return [res[1]]
            return [node.id]
        if isinstance(node, ast.Attribute):
            return [node.attr]
        raise Unsupported("class expression " + ast.unparse(node))

    def try_class_test(self, xn, cn):
        if isinstance(cn, ast.Name) and self.is_local(cn.id):
            return None
        if isinstance(cn, ast.Attribute):
            return None
        return self.class_test(xn, cn, exact=True)

    def class_test(self, xn, cn, exact=False):
        names = self.class_names(cn)
        c, t = self.ex(xn)
        return self.class_test_val(c, t, names)

    def class_test_val(self, c, t, names):
        if t == BOT:
            return "false"
        if t == NONE:
            return "false"
        if t[0] == "opt":
            inner = self.class_test_val("u'", t[1], names)
            return f"(let w' = {c} in if isn w' then false else let u' = unopt w' in {inner})"
        if t[0] == "fam":
            fam = FAMILIES[t[1]]
            tests = []
            for nm in names:
                if nm in fam.ctors:
                    tests.append(f"is_{fam.ctors[nm][0]} x'")
                elif nm == "slice" and FAM("slice") in fam.inject:
                    tests.append(f"{fam.inject[FAM('slice')][2]} x'")
                elif nm == "slice" and t[1] == "slice":
                    tests.append("true")
                elif nm in KINDS:
                    for it, (ctor, proj, test) in fam.inject.items():
                        if it == TEXT:
                            kt = self.kind_test(nm)
                            tests.append(f"({test} x' && {kt})" if kt != "true" else f"{test} x'")
                        elif it[0] == "seq" and nm in ("tuple", "list"):
                            tests.append(f"{test} x'")
            return f"(let x' = {c} in {' || '.join(tests) if tests else 'false'})"
        if t == TEXT:
            tests = []
            for nm in names:
                if nm in KINDS:
                    tests.append(self.kind_test(nm))
            tests = [x for x in tests if x != "false"]
            if not tests:
                return "false"
            return "true" if "true" in tests else "(" + " || ".join(tests) + ")"
        if t == TOK:
            tests = []
            for nm in names:
                if nm in TOKENS:
                    tests.append(f"({TOKENS[nm].test} {c})")
                else:
                    raise Unsupported(f"type test {nm} on a token")
            return "(" + " || ".join(tests) + ")"
        if t == INT:
            return "true" if "int" in names else "false"
        if t[0] == "seq":
            return "true" if ("tuple" in names or "list" in names or "Sequence" in names) else "false"
        if t[0] == "rec":
            return "true" if RECORDS[t[1]].cls in names else "false"
        if t[0] == "obj":
            return "true" if OBJS[t[1]].cls in names else "false"
        if t[0] == "tup":
            return "true" if "tuple" in names else "false"
        raise Unsupported(f"type test on {show(t)}")

    def kind_test(self, nm):
        k = self.fn.kind
        if nm == "Sequence":
            return "true"
        if nm == "list":
            return "false"
        if k == "generic":
            return {"str": "is_kind KStr", "bytes": "is_kind KBytes", "tuple": "is_kind KTuple"}[nm]
        if k == "str":
            return "true" if nm == "str" else "false"
        if k == "bytes":
            return "true" if nm == "bytes" else "false"
        raise Unsupported("type test in a mixed function")

    # ------------------------------------------------ builtins
    def builtin(self, name, n, local):
        a = n.args
        kw = {k.arg: k.value for k in n.keywords}
        if name == "json.dumps" and len(a) == 1 and json_options(kw):
            return self.app("json_dumps", [self.co(*self.ex(a[0]), DICT(TOK, TOK))]), TEXT
        if name == "json.loads" and len(a) == 1 and not kw:
            return self.app("json_loads", [self.co(*self.ex(a[0]), TEXT)]), DICT(TOK, TOK)
        if f"<ext>.{name}" in FNS and not kw:
            self.callno[name] = self.callno.get(name, 0) + 1
            return self.contract_call(FNS[f"<ext>.{name}"], [(self.ex(x), x) for x in a], {}, None, n)
        if name == "copy.deepcopy" and len(a) == 1 and not kw:
            c, t = self.ex(a[0])
            if t == BOT or self.shape(t):
                return c, t
            raise Unsupported(f"deepcopy of {show(t)}")
        if name == "len":
            c, t = self.ex(a[0])
            if t[0] == "opt":
                c, t = f"(unopt {c})", t[1]
            if t[0] == "fam":
                c, t = self.fam_text(c, t)
            if t[0] == "dict":
                return f"(py_len (dict_keys {c}))", INT
            if t[0] == "set":
                return f"(set_card {c})", INT
            if t[0] in ("seq", "bot"):
                return f"(py_len {c})", INT
            raise Unsupported("len of " + show(t))
        if name in ("list", "tuple") and len(a) == 1:
            if isinstance(a[0], ast.Call) and ast.unparse(a[0].func) in ("chain.from_iterable",):
                c, t = self.seq_of(a[0].args[0])
                c, t = self.flatten(c, t)
            else:
                c, t = self.seq_of(a[0])
            if name == "tuple" and self.fn.kind == "generic" and t == TEXT:
                return f"(lit_kind KTuple {c})", t
            return c, t
        if name == "list" and not a:
            return "(py_empty ())", SEQ(BOT)
        if name == "tuple" and not a:
            return ("(lit_kind KTuple (py_empty ()))" if self.fn.kind == "generic" else "(py_empty ())"), SEQ(BOT)
        if name == "set" and not a:
            return "(set_new ())", SET(BOT)
        if name == "dict" and not a:
            return "(dict_new ())", DICT(BOT, BOT)
        if name == "chain.from_iterable":
            c, t = self.seq_of(a[0])
            return self.flatten(c, t)
        if name == "chain":
            t = BOT
            parts = [self.seq_of(x) for x in a]
            for _, pt in parts:
                t = joint(t, pt)
            code = None
            for c, pt in parts:
                cc = self.co(c, pt, t)
                code = cc if code is None else f"(py_app {code} {cc})"
            return code or "(py_empty ())", t
        if name == "reversed":
            c, t = self.seq_of(a[0])
            return (f"(rev {c})" if False else f"(py_rev {c})"), t
        if name == "sorted" and len(a) == 1 and not kw:
            c, t = self.seq_of(a[0])
            return f"(py_sorted {c})", t
        if name in ("min", "max"):
            if len(a) == 2:
                x, xt = self.ex(a[0])
                y, yt = self.ex(a[1])
                x, y = self.co(x, xt, INT), self.co(y, yt, INT)
                return self.app(f"py_{name}", [x, y]), INT
            if len(a) == 1 and not kw:
                c, t = self.seq_of(a[0])
                if t == BOT or t[1] == BOT:
                    return "(any_value ())", BOT
                if t[1] == INT:
                    return f"(seq_{name} {c})", INT
                if t[1] in (FAM("i2"), FAM("i3")) and name == "max":
                    return f"(seq_{name}{t[1][1][1]} {c})", t[1]
            raise Unsupported(f"{name}()")
        if name == "sum" and len(a) == 1:
            c, t = self.seq_of(a[0])
            return f"(seq_sum {c})", INT
        if name in ("all", "any") and len(a) == 1:
            c, t = self.seq_of(a[0])
            return f"(py_{name} {c})", BOOL
        if name == "isinstance" and len(a) == 2:
            return self.class_test(a[0], a[1]), BOOL
        if name == "slice":
            vals = []
            for x in a:
                c, t = self.ex(x)
                vals.append((c, t))
            if len(vals) == 1:
                vals = [("0", INT)] + vals
            if len(vals) != 2:
                raise Unsupported("slice()")
            (lo, lt), (hi, ht) = vals
            lo = self.co(lo, lt, INT)
            if ht == NONE:
                return f"(SliceOpen {lo})", FAM("slice")
            if ht[0] == "opt":
                return self.app("mk_slice_opt", [lo, hi]), FAM("slice")
            return self.app("Slice", [lo, self.co(hi, ht, INT)]), FAM("slice")
        if name == "int" and len(a) == 1:
            c, t = self.ex(a[0])
            if t == INT:
                return c, INT
            if t[0] == "frac":
                return f"(int_of_frac {c} {t[1]})", INT
            if t == BOT:
                return c, INT
            if t == BOOL:
                return f"(int_of_bool {c})", INT
            raise Unsupported("int()")
        if name == "bool" and len(a) == 1:
            return self.truth(a[0]), BOOL
        if name == "int.from_bytes":
            order = a[1] if len(a) > 1 else kw.get("byteorder")
            if not isinstance(order, ast.Constant) or order.value != "big" or "signed" in kw:
                raise Unsupported("from_bytes byte order")
            c, t = self.ex(a[0])
            return f"(from_bytes_big {self.co(c, t, TEXT)})", INT
        if name == "replace" and len(a) == 1:
            c, t = self.ex(a[0])
            if t[0] == "opt":
                c, t = f"(unopt {c})", t[1]
            if t == BOT:
                for k in kw.values():
                    self.ex(k)
                return "(any_value ())", BOT
            if t[0] == "obj":
                o = OBJS[t[1]]
                sets = ""
                for k, v in kw.items():
                    if k not in o.fields or k in o.shared:
                        raise Unsupported(f"replace: field {k}")
                    vc, vt = self.ex(v)
                    self.tmpno += 1
                    code = f"obj_set_{k} c' v'{self.tmpno}"
                    sets += f" let v'{self.tmpno} = {self.co(vc, vt, o.fields[k])} in {code};"
                return f"(let o' = {c} in let c' = obj_copy o' in{sets} c')", t
            if t[0] != "fam":
                raise Unsupported("replace()")
            fam = FAMILIES[t[1]]
            code = c
            for k, v in kw.items():
                if k not in fam.fields:
                    raise Unsupported(f"replace: field {k}")
                vc, vt = self.ex(v)
                code = self.app(f"with_{fam.name}_{k}", [code, self.co(vc, vt, fam.fields[k])])
            return code, t
        if name == "cast" and len(a) == 2:
            return self.ex(a[1])
        if name == "ord" and len(a) == 1:
            c, t = self.ex(a[0])
            if t in (TOK, BOT):
                return c, INT
            raise Unsupported("ord()")
        if name == "chr" and len(a) == 1:
            c, t = self.ex(a[0])
            return f"(py_single {self.co(c, t, TOK)})", TEXT
        if name == "type" and len(a) == 1:
            c, t = self.ex(a[0])
            if t == TEXT:
                return "(kind_of_text ())" if self.fn.kind == "generic" else {"str": "KStr", "bytes": "KBytes"}[self.fn.kind], KIND
            if t == BOT:
                return "(any_value ())", KIND
            raise Unsupported("type()")
        if name == "next" and len(a) == 1:
            c, t = self.ex(a[0])
            if t[0] == "gen":
                return self.contract_call(FNS[f"<gen>.{t[1]}.next"], [], {}, None, n)
            if t == BOT:
                return "(any_value ())", BOT
            raise Unsupported("next()")
        if name == "print":
            raise Unsupported("print")
        raise Unsupported(f"call of {local}")

    # ------------------------------------------------ inlining
    def inline_lambda(self, lam, n):
        raise Unsupported("lambda call")

    def inline_call(self, mod, node, qual, n, recv=None, closure=False):
        if len(self.inline_stack()) > 6:
            raise Unsupported("helper calls too deep (recursive helper without a contract?)")
        self.inlno += 1
        pre = f"_i{self.inlno}_"
        self.inlined.append(f"{mod.name}.{qual or node.name}") if self.final else None
        cls = qual.rsplit(".", 1)[0] if qual and "." in qual else None
        sc = Scope(mod, node, pre, cls)
        args = [self.arg(a) for a in n.args]
        argnodes = list(n.args)
        deco = [ast.unparse(d) for d in node.decorator_list]
        if recv is not None and "staticmethod" not in deco:
            args.insert(0, recv)
            argnodes.insert(0, None)
        kws = {k.arg: (self.arg(k.value), k.value) for k in n.keywords}
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        konly = [x.arg for x in node.args.kwonlyargs]
        if node.args.vararg or node.args.kwarg:
            raise Unsupported("helper with star parameters")
        dm = default_map(node)
        bound = {}
        for i, (a, an) in enumerate(zip(args, argnodes)):
            if i >= len(names):
                raise Unsupported("too many arguments")
            bound[names[i]] = (a, an)
        bound.update(kws)
        outer = self.sc
        pres = []
        writeback = []
        muts = mutated_names(node)
        assigned = assigned_names(node)
        if closure:
            # free variables of the enclosing scope stay visible
            sub = {x: outer.prefix + x for x in outer.locals if x not in sc.locals}
            for s in outer.comp:
                sub.update({k: v for k, v in s.items() if k not in sc.locals})
            sc.comp = [sub]
            for x in list(assigned):
                pass
        else:
            pass
        sc.stack = self.inline_stack() + [node]
        newdefs = set()
        newfresh = set()
        binds = []
        for p in names + konly:
            w = pre + p
            if p in bound:
                (c, t), an = bound[p]
            elif p in dm:
                self.sc = sc
                c, t = self.ex(dm[p])
                self.sc = outer
                an = None
            else:
                raise Unsupported(f"missing argument {p}")
            if t[0] in ("rec",):
                # objects: bind by substitution
                sc.comp = [dict(sc.comp[0] if sc.comp else {}, **{p: c})]
                self.env[c] = t
                continue
            if t[0] in ("pyfn", "fn", "lam"):
                self.env[w] = t
                newdefs.add(w)
                continue
            self.settype(w, t)
            binds.append(f"{w} <- {self.co(c, t, self.env[w])}")
            newdefs.add(w)
            if p in muts:
                if isinstance(an, ast.Name) and p not in assigned:
                    writeback.append((an, w))
                    ow = self.vname(an.id)
                    if ow in self.fresh:
                        newfresh.add(w)
                elif p in assigned:
                    pass
                else:
                    newfresh.add(w) if an is not None and self.is_fresh(an) else None
        save = self.defs, self.fresh, self.dead
        self.sc = sc
        self.defs = set(self.defs) | newdefs
        self.fresh = set(self.fresh) | newfresh
        self.dead = False
        exc = f"Ret{self.inlno}"
        rv = pre + "_ret"
        sc.retexc = exc
        sc.retvar = rv
        if sc.is_gen:
            sc.out = pre + "_out"
            self.env.setdefault(sc.out, SEQ(BOT))
        else:
            self.env.setdefault(rv, BOT)
        withs = self.withs, self.inwith, self.connecting
        self.withs, self.inwith, self.connecting = 0, self.withs or self.inwith, False
        body = self.block(node.body)
        self.withs, self.inwith, self.connecting = withs
        if not self.dead and not sc.is_gen:
            self.settype(rv, NONE)
            body.append(f"{rv} <- {self.co('()', NONE, self.env[rv])}")
        self.sc = outer
        fresh_after = self.fresh
        self.defs, self.fresh, self.dead = save
        self.fresh = {x for x in self.fresh if x in fresh_after or not x.startswith(outer.prefix)} if closure else self.fresh
        wb = []
        for an, w in writeback:
            self.settype(self.vname(an.id), self.env[w])
            wb.append(f"{self.vname(an.id)} <- {self.co(w, self.env[w], self.env[self.vname(an.id)])}")
        inner = join_stmts(body, "    ") if body else "()"
        seq = " ; ".join(binds)
        seq = seq + " ; " if seq else ""
        if sc.is_gen:
            o = sc.out
            t = self.env[o]
            init = f"{o} <- (py_empty () : {why(defaulted(t))}) ; "
            code = f"(begin {seq}{init}exception {exc} in try begin {inner} end with {exc} -> () end; {' ; '.join(wb + [o])} end)"
            return code, t
        t = self.env[rv]
        code = f"(begin {seq}(exception {exc} in try begin {inner} end with {exc} -> () end); {' ; '.join(wb + [rv])} end)"
        return code, t

    def inline_stack(self):
        return getattr(self.sc, "stack", [])


def regex_covers(pattern):
    """The condition under which the pattern matches at a character c.  The
    pattern must be a choice of single-character classes, the first of which
    may be repeated (one or more, greedy): its matches then cut a text exactly
    between characters that are not both in the repeated class."""
    try:
        import re._parser as sre
    except ImportError:
        import sre_parse as sre
    CATS = ["CATEGORY_DIGIT", "CATEGORY_NOT_DIGIT", "CATEGORY_SPACE", "CATEGORY_NOT_SPACE", "CATEGORY_WORD", "CATEGORY_NOT_WORD"]

    def one(item):
        op, av = str(item[0]), item[1]
        if op == "ANY":
            return "c <> 10"
        if op == "LITERAL":
            return f"c = {av}"
        if op == "NOT_LITERAL":
            return f"c <> {av}"
        if op == "RANGE":
            return f"{av[0]} <= c <= {av[1]}"
        if op == "CATEGORY" and str(av) in CATS:
            k = CATS.index(str(av))
            return ("not " if k % 2 else "") + f"(category {k // 2} c)"
        if op == "IN":
            neg = str(av[0][0]) == "NEGATE"
            r = "(" + " \\/ ".join(one(x) for x in (av[1:] if neg else av)) + ")"
            return f"(not {r})" if neg else r
        if op == "SUBPATTERN" and len(av[3]) == 1 and av[1] == av[2] == 0:
            return one(av[3][0])
        raise Unsupported(f"pattern {pattern!r}")

    tree = sre.parse(pattern)
    if tree.state.flags & ~32 or tree.state.groups > 1:
        raise Unsupported(f"pattern {pattern!r}")
    alts = [list(tree)]
    if len(tree) == 1 and str(tree[0][0]) == "BRANCH":
        alts = [list(x) for x in tree[0][1][1]]
    out = []
    for i, alt in enumerate(alts):
        if len(alt) != 1:
            raise Unsupported(f"pattern {pattern!r}")
        item = alt[0]
        if i == 0 and str(item[0]) == "MAX_REPEAT" and item[1][0] == 1 and str(item[1][1]) == "MAXREPEAT" and len(item[1][2]) == 1:
            item = item[1][2][0]
        out.append(one(item))
    return " \\/ ".join(out)


def json_options(kw):
    """options of json.dumps that do not change what json.loads reads back from a dictionary of strings"""
    for k, v in kw.items():
        if k == "separators" and isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == 2 and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in v.elts):
            if [e.value.strip(" \t\n\r") for e in v.elts] != [",", ":"]:
                return False
        elif k == "ensure_ascii" and isinstance(v, ast.Constant) or k == "indent" and isinstance(v, ast.Constant) and isinstance(v.value, int):
            pass
        else:
            return False
    return True


def is_utf8(n):
    """x.encode("utf-8"), x.encode() and other spellings of the same codec"""
    args = list(n.args) + [k.value for k in n.keywords]
    names = ["encoding", "errors"][:len(n.args)] + [k.arg for k in n.keywords]
    for nm, a in zip(names, args):
        if not isinstance(a, ast.Constant) or not isinstance(a.value, str):
            return False
        if nm == "encoding" and a.value.lower().replace("-", "").replace("_", "") != "utf8" or nm == "errors" and a.value != "strict":
            return False
    return len(names) == len(args) and set(names) <= {"encoding", "errors"}


def is_type_call(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1


KINDS = ("str", "bytes", "tuple", "list", "Sequence")
MUTATORS = {"append", "extend", "pop", "clear", "remove", "add", "insert", "update", "sort", "reverse", "discard", "popleft", "setdefault"}


def mutated_names(f):
    out = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
            out.add(n.func.value.id)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            out.add(n.value.id)
    return out


def param_name(p):
    return "p'" + p


def changed_somewhere(mod, name):
    """a module-level dictionary is changed through its name in some module (or bound twice)"""
    for f in sorted(os.listdir(PKG)):
        if not f.endswith(".py"):
            continue
        m = module(f[:-3])
        binds = 0
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and x.id == name and resolve(m, name) == (mod, name):
                if isinstance(x.ctx, (ast.Store, ast.Del)) and m.name == mod:
                    binds += 1
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                b = x
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id == name and resolve(m, name) == (mod, name) and (
                        isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.Attribute) and x.attr in ("update", "pop", "popitem", "setdefault", "clear")):
                    return True
        if binds > 1:
            return True
    return False


def assigned_names(f):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            pass

    for s in f.body:
        V().visit(s)
    return out | mutated_names(f)


def default_map(f):
    a = f.args
    out = {}
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        out[x.arg] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[x.arg] = d
    return out


def has_break(body):
    class V(ast.NodeVisitor):
        f = False

        def visit_Break(self, n):
            self.f = True

        def visit_For(self, n):
            for s in n.orelse:
                self.visit(s)

        visit_While = visit_For

        def visit_FunctionDef(self, n):
            pass

    v = V()
    for s in body:
        v.visit(s)
    return v.f


def as_load(t):
    import copy

    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def is_pow2(v):
    return isinstance(v, int) and v > 0 and v & (v - 1) == 0


def lit(codes):
    if not codes:
        return "(py_empty ())"
    c = f"(py_single {codes[0]})"
    for x in codes[1:]:
        c = f"(py_snoc {c} {x})"
    return c


def defaulted(t):
    """replace unknown component types by int (nothing is ever stored there)"""
    k = t[0]
    if k in ("bot",):
        return INT
    if k == "none":
        return UNIT
    if k == "frac":
        return INT
    if k in ("seq", "opt", "set"):
        return (k, defaulted(t[1]))
    if k == "dict":
        return (k, defaulted(t[1]), defaulted(t[2]))
    if k == "tup":
        return (k, tuple(defaulted(x) for x in t[1]))
    return t


def why_eq(a, b):
    try:
        return why(defaulted(a)) == why(defaulted(b)) and ground(a)
    except TypeError:
        return False


def compatible2(f, t):
    try:
        return join(f, t) == t or why_eq(f, t)
    except Unsupported:
        return False


def assignable(f, t):
    if f == BOT or t == BOT or f == t:
        return True
    if t[0] == "opt":
        return f == NONE or assignable(f[1] if f[0] == "opt" else f, t[1])
    if f[0] == "opt":
        return assignable(f[1], t)
    if t[0] == "fam":
        return f == t or any(compatible2(f, it) for it in FAMILIES[t[1]].inject)
    if f[0] == "fam":
        return any(compatible2(it, t) for it in FAMILIES[f[1]].inject)
    if f[0] == "seq" and t[0] == "seq":
        return assignable(f[1], t[1]) and not (f[1][0] == "fam" and t[1][0] != "fam")
    return compatible2(f, t)


def retype_empty(c, t):
    if c in ("(py_empty ())", "(dict_new ())", "(set_new ())"):
        return f"({c} : {why(defaulted(t))})"
    return c


def clean(s):
    return s.replace("]", ")").replace("[", "(").replace("\n", " ").replace("@", "")


def oneline(s):
    return " ".join(s.split())


def join_stmts(stmts, ind):
    if not stmts:
        return "()"
    res = []
    for i, s in enumerate(stmts):
        if i < len(stmts) - 1 and (s.startswith("let ") or s.startswith("return") or s.startswith("raise")):
            s = f"begin {s} end"
        res.append(s)
    return (";\n" + ind).join(res)


def contract_lines(fn, iface=None, sub=None):
    out = []
    S = (lambda f: f) if sub is None else sub

    def lab(x, kind, i):
        if isinstance(x, tuple):
            return x
        return (f"{kind} {i}", x)

    for i, r in enumerate(fn.requires, 1):
        l, f = lab(r, "precondition", i)
        out.append(f"  requires {{ [@expl:{clean(l)} of {fn.qual}] {oneline(S(f))} }}")
    for i, r in enumerate(fn.ensures, 1):
        l, f = lab(r, "postcondition", i)
        out.append(f"  ensures {{ [@expl:{clean(l)} of {fn.qual}] {oneline(S(f))} }}")
    for e, r in fn.raises.items():
        if isinstance(r, tuple):
            out.append(f"  raises {{ {r[0]} -> [@expl:{e} of {fn.qual}] {oneline(S(r[1]))} }}")
        else:
            out.append(f"  raises {{ {e} -> [@expl:{e} of {fn.qual}] {oneline(S(r))} }}")
    return out


def val_decl(fn):
    params = []
    for p, t in fn.params.items():
        ref = "ref " if p in fn.mutates and t[0] != "rec" else ""
        params.append(f"({ref}_{p}: {why(t)})")
    for g, t in fn.ghost_params:
        params.append(f"(ghost {g}: {why(t)})")
    if not params:
        params = ["()"]
    out = [f"val {fn.why} {' '.join(params)} : {why(defaulted(fn.ret))}"]
    out += contract_lines(fn)
    writes = list(fn.writes) + ["_" + p for p in fn.mutates if fn.params[p][0] != "rec"]
    if writes:
        out.append(f"  writes {{ {', '.join(writes)} }}")
    if fn.diverges:
        out.append("  diverges")
    return "\n".join(out)


def unit_text(fn: Fn):
    """the complete WhyML file for one function under contract"""
    tr = Translator(fn)
    body = tr.translate()
    theories = ["int.Int", "sq.Sq", "opt.Opt", "py.Py"]
    def add(ts):
        for t in ts:
            if t not in theories:
                theories.append(t)
    add(fn.theories)
    vals = []
    for name, c in tr.vals.items():
        if c is fn:
            if not fn.rec:
                raise Unsupported("recursive call without a recursive contract")
            continue
        add(c.theories)
        vals.append(c)
    out = ["module Unit"]
    for t in theories:
        out.append(f"  use {t}")
    out.append("")
    seen = set()
    recs = []
    for c in [fn] + vals:
        for t in c.params.values():
            if t[0] == "rec" and t[1] not in recs:
                recs.append(t[1])
    for r in recs:
        out.append(f"type {r} = {{ " + "; ".join(f"mutable {r}_{f}: {why(t)}" for f, t in RECORDS[r].fields.items()) + " }")
    for c in vals:
        if c.vpre and c.vpre not in seen:
            out.append(c.vpre)
            seen.add(c.vpre)
    if fn.pre:
        out.append(fn.pre)
    for c in vals:
        out.append(val_decl(c))
    out.append("")
    out.append(body)
    out.append("end")
    return "\n".join(out) + "\n", tr
