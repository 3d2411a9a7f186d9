"""The compiled module's bindings (BF_Py.cc): what each exported member hands to the native object and back.

The clang AST of the module function and of the constructor helpers it instantiates is evaluated symbolically: array
parameters are records of their pointer, sizes and layout flags; calls on the native object are recorded with their
operands; returned arrays with their shape, pointer and owner."""
import os
import re
import sympy as sp
from sympy import Symbol, Integer
import cxx
from core import path, AnchorLost
from ai import Giveup
from solver import Wrong

PASS = {"ExprWithCleanups", "ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultInitExpr"}
ONE = ("CP", "LeP", "LaP", "HoPpro", "HoPphy", "FS", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish", "ELMReLU")
PROD = ("nCP", "nLeP", "nFS")
NELM = ("nELMSigmoid", "nELMTanh", "nELMSin", "nELMSwish", "nELMReLU")


def strip(n):
    while n.get("kind") in PASS and len(n.get("inner", [])) == 1:
        n = n["inner"][0]
    return n


def inner(n):
    return [c for c in n.get("inner", []) if c.get("kind")]


def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


class Arr:
    """Array parameter."""

    def __init__(self, name, elem, flags):
        self.name, self.elem, self.flags = name, elem, flags

    def sym(self, what):
        return Symbol("%s_%s" % (what, self.name), integer=True, nonnegative=True)


class Ev:
    def __init__(self, decls):
        self.fns = {}
        self.methods = {}
        todo = list(decls)
        while todo:
            d = todo.pop()
            if d.get("kind") == "FunctionTemplateDecl" or d.get("kind") in ("NamespaceDecl", "LinkageSpecDecl"):
                todo += inner(d)
            elif d.get("kind") == "FunctionDecl" and d.get("inner") and d["inner"][-1].get("kind") == "CompoundStmt":
                self.fns[d["id"]] = d
            elif d.get("kind") == "CXXRecordDecl":
                for x in inner(d):
                    if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl"):
                        self.methods[x["id"]] = (d.get("name"), x)
        self.classes = {d["name"]: d for d in decls if d.get("kind") == "CXXRecordDecl" and d.get("completeDefinition")}
        self.calls = []
        self.events = []
        self.guards = []
        self.line = None

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        n = strip(n)
        if (n.get("loc") or {}).get("line"):
            self.line = n["loc"]["line"]
        k = n["kind"]
        if k == "IntegerLiteral":
            return Integer(int(n["value"]))
        if k == "CXXBoolLiteralExpr":
            return bool(n["value"])
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            return None
        if k == "StringLiteral":
            return ("str", n["value"].strip('"'))
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            if r["id"] in env:
                v = env[r["id"]]
                return v
            return ("fn", r.get("name"), r["id"], qt(n))
        if k == "CXXThisExpr":
            return ("self",)
        if k == "LambdaExpr":
            return ("lambda", n, env)
        if k == "MemberExpr":
            b = self.ev(n["inner"][0], env)
            if b == ("self",):
                return ("field", n["name"])
            if isinstance(b, tuple) and b[0] == "info":
                f = n["name"]
                if f in ("size", "ndim"):
                    return b[1].sym(f)
                if f == "ptr":
                    return ("ptr", ("data", b[1].name), Integer(0))
                if f == "shape":
                    return ("shapeptr", b[1])
                raise Giveup("%s of an array description" % f)
            return ("member", b, n["name"], n.get("referencedMemberDecl"))
        if k == "UnaryOperator":
            op = n["opcode"]
            a = strip(n["inner"][0])
            if op == "&":
                if a["kind"] == "DeclRefExpr":
                    if a["referencedDecl"]["id"] in env:
                        return ("addr", a["referencedDecl"]["id"])
                    return ("memptr", a["referencedDecl"].get("name"))
                v = self.ev(a, env)
                if isinstance(v, tuple) and v[0] == "elem":
                    return ("ptr", v[1], v[2])
                raise Giveup("address of %r" % (v,))
            v = self.ev(a, env)
            if op == "*":
                return self.elem(v, Integer(0))
            if op in ("++", "--") and a["kind"] == "DeclRefExpr":
                env[a["referencedDecl"]["id"]] = v + (1 if op == "++" else -1)
                return v
            if op == "!" and isinstance(v, bool):
                return not v
            if op == "!" and isinstance(v, (sp.Basic,)):
                return sp.Not(v) if v.is_Boolean else sp.Eq(v, 0)
            if op == "-":
                return -v
            if op == "+":
                return v
            raise Giveup("operator %s" % op)
        if k == "BinaryOperator":
            return self.binop(n, env)
        if k == "CompoundAssignOperator":
            raise Giveup("compound assignment")
        if k == "ConditionalOperator":
            raise Giveup("conditional expression")
        if k == "ArraySubscriptExpr":
            return self.elem(self.ev(n["inner"][0], env), self.ev(n["inner"][1], env))
        if k == "CXXMemberCallExpr":
            return self.mcall(n, env)
        if k == "CallExpr":
            return self.call(n, env)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(n, env)
        if k in ("InitListExpr",):
            return ("list", [self.ev(c, env) for c in inner(n)])
        if k == "CXXStdInitializerListExpr":
            return self.ev(n["inner"][0], env)
        if k == "UnaryExprOrTypeTraitExpr":
            t = (n.get("argType") or {}).get("qualType", "")
            return Symbol("sizeof_" + t, positive=True, integer=True)
        if k == "CXXNewExpr":
            c = [x for x in inner(n) if x["kind"] == "CXXConstructExpr"]
            if c and not n.get("isArray"):
                t = qt(n).replace("*", "").strip()
                return ("make", t, [self.ev(a, env) for a in inner(c[0]) if a["kind"] != "CXXDefaultArgExpr"])
            raise Giveup("new")
        if k == "CXXDeleteExpr":
            self.events.append(("delete[]" if n.get("isArray") or n.get("isArrayAsWritten") else "delete", self.ev(n["inner"][0], env)))
            return None
        if k == "CXXThrowExpr":
            raise Thrown()
        if k == "CXXOperatorCallExpr":
            return self.opcall(n, env)
        raise Giveup(k)

    def elem(self, p, i):
        if isinstance(p, tuple) and p[0] == "shapeptr":
            if not (isinstance(i, sp.Integer)):
                raise Giveup("shape at a variable position")
            return p[1].sym("shape%d" % int(i))
        if isinstance(p, tuple) and p[0] == "ptr":
            return ("elem", p[1], sp.expand(p[2] + i))
        if isinstance(p, tuple) and p[0] == "field":
            return ("elem", p, i)
        raise Giveup("element of %r" % (p,))

    def binop(self, n, env):
        op = n["opcode"]
        if op == "=":
            t = strip(n["inner"][0])
            v = self.ev(n["inner"][1], env)
            if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] in env:
                env[t["referencedDecl"]["id"]] = v
                return v
            l = self.ev(t, env)
            self.events.append(("store", l, v, list(self.loops)))
            return v
        if op == ",":
            self.ev(n["inner"][0], env)
            return self.ev(n["inner"][1], env)
        a, b = self.ev(n["inner"][0], env), self.ev(n["inner"][1], env)
        if op in ("&&", "||"):
            f = sp.And if op == "&&" else sp.Or
            return f(self.tob(a), self.tob(b))
        if isinstance(b, tuple) and b[0] == "field" and op in "+-":
            b = Symbol("field_" + b[1], integer=True)
        if isinstance(a, tuple) and a[0] in ("ptr", "field") and op in "+-" and isinstance(b, sp.Basic) and "*" in qt(n):
            base, off = (a[1], a[2]) if a[0] == "ptr" else (a, Integer(0))
            return ("ptr", base, sp.expand(off + b if op == "+" else off - b))
        if isinstance(a, tuple) and a[0] == "field":
            a = Symbol("field_" + a[1], integer=True)
        if isinstance(b, tuple) and b[0] == "field":
            b = Symbol("field_" + b[1], integer=True)
        if isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None:
            raise Giveup("%s of %r and %r" % (op, a, b))
        if op in "+-*":
            return sp.expand({"+": a + b, "-": a - b, "*": a * b}[op])
        f = {"==": sp.Eq, "!=": sp.Ne, "<": sp.Lt, ">": sp.Gt, "<=": sp.Le, ">=": sp.Ge}.get(op)
        if f is None:
            raise Giveup("operator %s" % op)
        return f(a, b)

    def tob(self, v):
        if isinstance(v, bool):
            return sp.true if v else sp.false
        if isinstance(v, sp.Basic):
            return v if v.is_Boolean or v.is_Relational else sp.Ne(v, 0)
        raise Giveup("condition %r" % (v,))

    loops = []
    incomplete = None

    def args(self, n, env):
        return [self.ev(a, env) for a in inner(n)[1:] if a["kind"] != "CXXDefaultArgExpr"]

    def mcall(self, n, env):
        me = strip(n["inner"][0])
        if me["kind"] != "MemberExpr":
            raise Giveup("call of %s" % me["kind"])
        o = self.ev(me["inner"][0], env)
        name = me["name"]
        a = self.args(n, env)
        if isinstance(o, tuple) and o[0] == "lambda" and name.startswith("operator"):
            return o if name != "operator()" else self.lam(o, a)
        if isinstance(o, Arr):
            if name in ("data", "mutable_data"):
                if not a:
                    return ("ptr", ("data", o.name), Integer(0))
                if len(a) == 1:
                    return ("ptr", ("data", o.name), a[0])
            elif name == "size" and not a:
                return o.sym("size")
            elif name == "ndim":
                return o.sym("ndim")
            elif name == "shape":
                return ("shapeptr", o) if not a else self.elem(("shapeptr", o), a[0])
            elif name == "request" and not a:
                return ("info", o)
            elif name in ("at", "operator()") and len(a) == 1:
                return ("elem", ("data", o.name), a[0])
            raise Giveup("%s of an array" % name)
        if o == ("self",):
            i = len(self.calls)
            names = None
            md = self.methods.get(me.get("referencedMemberDecl"))
            if md:
                names = [p.get("name") for p in inner(md[1]) if p["kind"] == "ParmVarDecl"]
            self.calls.append((name, list(a), names, self.line))
            for q, v in enumerate(a):
                if isinstance(v, tuple) and v[0] == "addr":
                    env[v[1]] = ("res", i, names[q] if names and q < len(names) else q)
            return ("res", i, "ret")
        if isinstance(o, tuple) and o[0] == "make" and name in ("get", "release"):
            return o
        raise Giveup("%s of %r" % (name, o))

    def opcall(self, n, env):
        kids = inner(n)
        f = strip(kids[0])
        nm = (f.get("referencedDecl") or {}).get("name", "")
        a = [self.ev(c, env) for c in kids[1:]]
        if isinstance(a[0], tuple) and a[0][0] == "shapeptr" and nm == "operator[]":
            return self.elem(a[0], a[1])
        if isinstance(a[0], Arr) and nm == "operator()" and len(a) == 2:
            return ("elem", ("data", a[0].name), a[1])
        raise Giveup(nm or "operator")

    def call(self, n, env):
        f = strip(n["inner"][0])
        a = self.args(n, env)
        nm = (f.get("referencedDecl") or {}).get("name") or f.get("name") or ""
        t = qt(f)
        if f["kind"] == "UnresolvedLookupExpr" and nm == "make_unique":
            return ("make", None, a)
        if nm == "make_unique":
            m = re.search(r"_MakeUniq<(\w+)>|unique_ptr<(\w+)", t + " " + qt(n))
            return ("make", (m.group(1) or m.group(2)) if m else None, a)
        if nm in ("move", "forward") and len(a) == 1:
            return a[0]
        if nm == "cast" and len(a) == 1 and a[0] == ("self",):
            return ("keepself",)
        if nm in ("reinterpret_borrow", "reinterpret_steal") and len(a) == 1:
            return (nm[12:], a[0])
        if nm == "free" and len(a) == 1:
            self.events.append(("free", a[0]))
            return None
        if nm == "copy" and len(a) == 3:
            s, e, d = (self.aspt(q) for q in a)
            if s[1] != e[1]:
                raise Giveup("copy over two arrays")
            self.events.append(("copy", d, s, sp.expand(e[2] - s[2])))
            return None
        if nm == "copy_n" and len(a) == 3:
            self.events.append(("copy", self.aspt(a[2]), self.aspt(a[0]), self.intv(a[1])))
            return None
        if nm in ("memcpy", "memmove") and len(a) == 3:
            nb = sp.expand(self.intv(a[2]))
            sz = [s for s in nb.free_symbols if s.name.startswith("sizeof_")]
            if len(sz) == 1:
                nb = sp.cancel(nb / sz[0])
            else:
                raise Giveup("byte count %s" % nb)
            self.events.append(("copy", self.aspt(a[0]), self.aspt(a[1]), nb))
            return None
        d = self.fns.get((f.get("referencedDecl") or {}).get("id"))
        if d is not None:
            return self.inline(d, a, env)
        v = self.ev(f, env) if f["kind"] in ("DeclRefExpr",) else None
        if isinstance(v, tuple) and v[0] == "lambda":
            return self.lam(v, a)
        raise Giveup("call of %s" % (nm or f["kind"]))

    def aspt(self, v):
        if isinstance(v, tuple) and v[0] == "ptr":
            return v
        if isinstance(v, tuple) and v[0] == "field":
            return ("ptr", v, Integer(0))
        raise Giveup("pointer %r" % (v,))

    def intv(self, v):
        if isinstance(v, tuple) and v[0] == "field":
            return Symbol("field_" + v[1], integer=True)
        if isinstance(v, sp.Basic):
            return v
        raise Giveup("number %r" % (v,))

    def inline(self, d, a, env):
        ps = [p for p in inner(d) if p["kind"] == "ParmVarDecl"]
        if len(ps) != len(a):
            raise Giveup("call of %s" % d.get("name"))
        # references and addresses of the caller's variables stay usable
        e2 = Env(env)
        for p, v in zip(ps, a):
            e2[p["id"]] = v
        return self.body(d["inner"][-1], e2)

    def lam(self, v, a):
        _, n, env = v
        op = lambda_op(n)
        ps = [p for p in inner(op) if p["kind"] == "ParmVarDecl"]
        e2 = Env(env)
        for p, x in zip(ps, a):
            e2[p["id"]] = x
        return self.body(op["inner"][-1], e2)

    def construct(self, n, env):
        t = qt(n)
        a = [self.ev(c, env) for c in inner(n) if c["kind"] != "CXXDefaultArgExpr"]
        if "capsule" in t and len(a) >= 2:
            d = a[1]
            if isinstance(d, tuple) and d[0] == "lambda":
                sub = Ev.__new__(Ev)
                sub.__dict__.update(self.__dict__)
                sub.events, sub.calls, sub.guards = [], [], []
                sub.lam(d, [("it",)])
                how = [e for e in sub.events if e[0] in ("free", "delete[]", "delete")]
                if len(how) != 1 or how[0][1] != ("it",):
                    raise Giveup("release function")
                return ("capsule", a[0], how[0][0])
            if isinstance(d, tuple) and d[0] == "fn" and d[1] == "free":
                return ("capsule", a[0], "free")
            if isinstance(d, tuple) and d[0] == "fn" and d[2] in self.fns:
                sub = Ev.__new__(Ev)
                sub.__dict__.update(self.__dict__)
                sub.events = []
                sub.inline(self.fns[d[2]], [("it",)], env)
                how = [e for e in sub.events if e[0] in ("free", "delete[]", "delete")]
                if len(how) != 1:
                    raise Giveup("release function")
                return ("capsule", a[0], how[0][0])
            raise Giveup("release function %r" % (d,))
        if re.search(r"array_t<\w+", t):
            if len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == "array":
                return a[0]
            if len(a) == 1 and isinstance(a[0], Arr):
                return a[0]
            if len(a) in (2, 3):
                shp = a[0]
                shp = shp[1] if isinstance(shp, tuple) and shp[0] == "list" else [shp]
                shp = [x[1][0] if isinstance(x, tuple) and x[0] == "list" and len(x[1]) == 1 else x for x in shp]
                return ("array", shp, a[1], a[2] if len(a) == 3 else None, re.search(r"array_t<(\w+)", t).group(1))
            raise Giveup("array from %d operands" % len(a))
        if len(a) == 1:
            return a[0]
        if not a:
            return ("obj", t)
        if "array::ShapeContainer" in t or "any_container" in t or "vector" in t:
            return ("list", a)
        raise Giveup("construction of %s" % t)

    # ------------------------------------------------------------ statements
    def body(self, n, env):
        try:
            self.block(n, env)
        except Return as r:
            return r.value
        return None

    def block(self, n, env):
        for s in inner(n):
            self.stmt(s, env)

    def stmt(self, s, env):
        k = s["kind"]
        if k == "CompoundStmt":
            return self.block(s, env)
        if k == "DeclStmt":
            for v in inner(s):
                if v["kind"] != "VarDecl":
                    raise Giveup(v["kind"])
                i = [c for c in inner(v) if not c["kind"].endswith("Attr")]
                env[v["id"]] = self.ev(i[0], env) if i else None
            return
        if k == "ReturnStmt":
            raise Return(self.ev(s["inner"][0], env) if s.get("inner") else None)
        if k == "NullStmt":
            return
        if k == "IfStmt":
            kids = inner(s)
            c = self.tob(self.ev(kids[0], env))
            if throws(kids[1]) and len(kids) == 2:
                self.guards.append((c, self.line))
                return
            if c == sp.true:
                return self.stmt(kids[1], env)
            if c == sp.false:
                return self.stmt(kids[2], env) if len(kids) > 2 else None
            if len(kids) == 3 and throws(kids[2]):
                self.guards.append((sp.Not(c), self.line))
                return self.stmt(kids[1], env)
            raise Giveup("branch")
        if k == "ForStmt":
            return self.loop(s, env)
        self.ev(s, env)

    def loop(self, s, env):
        kids = s.get("inner", [])
        init, _, cond, inc, body = kids
        if init.get("kind") != "DeclStmt" or len(inner(init)) != 1:
            raise Giveup("loop")
        v = inner(init)[0]
        lo = self.ev([c for c in inner(v)][0], env)
        c = strip(cond)
        if c.get("kind") != "BinaryOperator" or c["opcode"] not in ("<", "<=", "!="):
            raise Giveup("loop")
        hi = self.intv(self.ev(c["inner"][1], env))
        if c["opcode"] == "<=":
            hi = hi + 1
        i = strip(inc)
        if not (i.get("kind") == "UnaryOperator" and i["opcode"] == "++"):
            raise Giveup("loop step")
        K = Symbol("loop%d" % len(self.loops), integer=True)
        env[v["id"]] = K
        self.loops = self.loops + [(K, lo, hi)]
        try:
            self.stmt(body, env)
        finally:
            self.loops = self.loops[:-1]


class Env(dict):
    """Variables of an inlined function; those of its callers are reached through it."""

    def __init__(self, up):
        dict.__init__(self)
        self.up = up

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.up

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else self.up[k]

    def __setitem__(self, k, v):
        if not dict.__contains__(self, k) and k in self.up:
            self.up[k] = v
        else:
            dict.__setitem__(self, k, v)


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Thrown(Exception):
    pass


def throws(n):
    if n.get("kind") == "CXXThrowExpr":
        return True
    return n.get("kind") in ("CompoundStmt", "ExprWithCleanups") and bool(inner(n)) and throws(inner(n)[-1])


def lambda_op(n):
    rec = [c for c in inner(n) if c["kind"] == "CXXRecordDecl"][0]
    ops = [c for c in inner(rec) if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()"]
    if len(ops) != 1 or not ops[0].get("inner") or ops[0]["inner"][-1].get("kind") != "CompoundStmt":
        raise Giveup("generic lambda")
    return ops[0]


# ---------------------------------------------------------------- the module
class Export:
    def __init__(self, name, cls, bases):
        self.name, self.cls, self.bases = name, cls, bases
        self.members = {}  # name -> (kind, payloads)
        self.inits = []


def exported(E, fn):
    """Classes registered by the module function."""
    out = []
    env = {}
    vars_ = {}

    def cls_of(t):
        m = re.search(r"class_<([^<>]*)>", t)
        return [x.strip() for x in m.group(1).split(",")] if m else None

    def chain(n):
        """(export, handled) of an expression that builds on a class_ object."""
        n = strip(n)
        if n["kind"] == "CXXMemberCallExpr":
            me = strip(n["inner"][0])
            ex = chain(me["inner"][0])
            if ex is None:
                return None
            member(ex, me.get("name"), inner(n)[1:])
            return ex
        if n["kind"] == "DeclRefExpr":
            return vars_.get(n["referencedDecl"]["id"])
        if n["kind"] in ("CXXTemporaryObjectExpr", "CXXConstructExpr"):
            c = cls_of(qt(n)) or cls_of(n.get("type", {}).get("qualType", ""))
            if c is None:
                return None
            names = [strip(a) for a in inner(n)]
            if len(names) == 1 and names[0]["kind"] != "StringLiteral":
                return chain(names[0])
            s = [lit(a) for a in names if lit(a)]
            if not s:
                E.incomplete = "a class whose name is not a constant"
                return None
            ex = Export(s[0], c[0], c[1:])
            out.append(ex)
            return ex
        return None

    def lit(a):
        if a["kind"] == "StringLiteral":
            return a["value"].strip('"')
        if a["kind"] == "DeclRefExpr" and isinstance(vars_.get(a["referencedDecl"]["id"]), str):
            return vars_[a["referencedDecl"]["id"]]
        return None

    def member(ex, how, args):
        a = [strip(x) for x in args]
        if how == "def" and a and lit(a[0]):
            ex.members[lit(a[0])] = ("method", a[1], [arg(x) for x in a[2:] if arg(x)])
        elif how == "def" and a and a[0]["kind"] == "CallExpr":
            ex.inits.append(([arg(x) for x in a[1:] if arg(x)], a[0]))
        elif how in ("def_readwrite", "def_readonly") and lit(a[0]):
            ex.members[lit(a[0])] = ("field", strip(a[1]), how)
        elif how in ("def_property", "def_property_readonly") and lit(a[0]):
            ex.members[lit(a[0])] = ("property", a[1], a[2] if how == "def_property" else None)
        else:
            E.incomplete = "a member defined by %s" % how

    def arg(x):
        if "arg" in qt(x) and x["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            s = [strip(q) for q in inner(x)]
            if s and s[0]["kind"] == "StringLiteral":
                return s[0]["value"].strip('"')
        return None

    def run(body):
        for s in inner(body):
            if s["kind"] == "DeclStmt":
                for v in inner(s):
                    if v["kind"] == "VarDecl" and v.get("inner"):
                        i = [c for c in inner(v) if not c["kind"].endswith("Attr")]
                        ex = chain(i[0]) if i else None
                        if ex is not None:
                            vars_[v["id"]] = ex
                        elif i and lit(strip(i[0])):
                            vars_[v["id"]] = lit(strip(i[0]))
                        elif i and "class_" in qt(v):
                            call(strip(i[0]), v["id"])
                continue
            n = strip(s)
            if n["kind"] == "CallExpr":
                call(n, None)
                continue
            if n["kind"] == "CompoundStmt":
                run(n)
                continue
            if n["kind"] == "ReturnStmt":
                if n.get("inner"):
                    ret.append(chain(n["inner"][0]))
                return
            if chain(n) is None and n["kind"] not in ("NullStmt", "CXXMemberCallExpr", "CXXOperatorCallExpr", "DeclRefExpr"):
                E.incomplete = n["kind"]

    ret = []

    def call(n, target):
        if n["kind"] != "CallExpr":
            E.incomplete = n["kind"]
            return
        f = strip(n["inner"][0])
        d = E.fns.get((f.get("referencedDecl") or {}).get("id"))
        if d is None:
            E.incomplete = "a call of %s" % (f.get("referencedDecl") or {}).get("name")
            return
        exs = []
        for q in inner(n)[1:]:
            q = strip(q)
            exs.append(vars_.get(q["referencedDecl"]["id"]) if q["kind"] == "DeclRefExpr" else lit(q) or chain(q))
        for p, ex in zip([p for p in inner(d) if p["kind"] == "ParmVarDecl"], exs):
            if ex is not None:
                vars_[p["id"]] = ex
        ret.clear()
        run(d["inner"][-1])
        if target is not None:
            if ret and ret[-1] is not None:
                vars_[target] = ret[-1]
            else:
                E.incomplete = "a class made by %s" % d.get("name")

    run(fn["inner"][-1])
    return out


_cache = {}


def load():
    src = path("utils/BF_Py.cc")
    if not os.path.exists(src):
        raise AnchorLost("BF_Py.cc")
    if src not in _cache:
        decls = cxx.top_decls(src, {"BF_Py.cc", "BF.h"})
        fn = [d for d in decls if d.get("kind") == "FunctionDecl" and d.get("name") == "pybind11_init_BF" and d.get("inner") and d["inner"][-1].get("kind") == "CompoundStmt"]
        if not fn:
            raise AnchorLost("module function of BF_Py.cc")
        E = Ev(decls)
        _cache[src] = (E, {e.name: e for e in exported(E, fn[-1])})
    return _cache[src]


def find(exps, name, member):
    """Nearest definition of a member, over the registered bases."""
    todo = [name]
    while todo:
        c = todo.pop(0)
        e = next((x for x in exps.values() if x.cls == c), None)
        if e is None:
            continue
        if member in e.members:
            return e, e.members[member]
        todo += e.bases
    return None, None


def params(op, E):
    """Values of the parameters of a bound lambda: (environment, arrays by name, order)."""
    env, names = {}, []
    ps = [p for p in inner(op) if p["kind"] == "ParmVarDecl"]
    for i, p in enumerate(ps):
        t = qt(p)
        t0 = p.get("type", {}).get("qualType", "")
        m = re.search(r"array_t<\s*(\w+)\s*(?:,\s*([^>]*))?>", t) or re.search(r"array_t<\s*(\w+)\s*(?:,\s*([^>]*))?>", t0)
        if m:
            fl = m.group(2)
            if fl is None:
                flags = 16
            elif fl.strip().isdigit():
                flags = int(fl)
            else:
                flags = (1 if "c_style" in fl else 0) | (2 if "f_style" in fl else 0) | (16 if "forcecast" in fl else 0)
            env[p["id"]] = Arr("p%d" % i, m.group(1), flags)
        elif "&" in t and t.replace("const", "").replace("&", "").strip() in E.classes:
            env[p["id"]] = ("self",)
        elif t.replace("const", "").replace("&", "").strip() in ("double", "int", "bool", "long", "unsigned int", "float"):
            env[p["id"]] = Symbol("p%d" % i, real=True)
            names.append(t.replace("const", "").replace("&", "").strip())
        else:
            raise Giveup("parameter of type %s" % t)
    return env, [env[p["id"]] for p in ps], ps


def run(E, lam):
    n = strip(lam)
    if n["kind"] == "CallExpr":  # py::init(lambda)
        f = strip(n["inner"][0])
        l = [strip(q) for q in inner(n)[1:] if strip(q)["kind"] == "LambdaExpr"]
        if len(l) != 1:
            raise Giveup("constructor binding")
        n = l[0]
    if n["kind"] != "LambdaExpr":
        raise Giveup("bound %s" % n["kind"])
    op = lambda_op(n)
    env, vals, ps = params(op, E)
    E.calls, E.events, E.guards, E.loops = [], [], [], []
    r = E.body(op["inner"][-1], env)
    return r, vals, ps


def contiguous(E, vals, what):
    """Arrays read through their pointer must be contiguous and of the element type of that pointer."""
    for v, (name, elem) in what:
        if not isinstance(v, Arr):
            raise Giveup("%s is not an array" % name)
        if v.elem != elem:
            raise Wrong("%s is taken as an array of %s" % (name, v.elem))
        if not v.flags & 1:
            raise Wrong("%s is read through its pointer although a strided array may be passed (no c_style)" % name)
        if not v.flags & 16:
            raise Wrong("%s is refused unless it has exactly the element type (no forcecast)" % name)


def accepts(E, vals, dims):
    """No guard rejects well-formed arguments."""
    sub = {}
    for v, d in dims:
        sub[v.sym("ndim")] = len(d)
        n = 1
        for k, q in enumerate(d):
            sub[v.sym("shape%d" % k)] = q
            n *= q
        sub[v.sym("size")] = n
    for i, v in enumerate(vals):
        if isinstance(v, Symbol):
            sub[v] = 3
    for c, line in E.guards:
        s = {q: sub.get(q, {"field_dim": 2, "field_m": 5, "field_numC": 1}.get(q.name)) for q in c.free_symbols}
        if any(x is None for x in s.values()):
            raise Giveup("condition %s" % c)
        if c.subs(s) == sp.true:
            raise Wrong("well-formed arguments are refused (%s)" % c)


def ptr(v):
    return ("ptr", ("data", v.name), Integer(0))


def expect(got, want, what):
    if got == want:
        return
    if isinstance(got, sp.Basic) and isinstance(want, sp.Basic):
        if got.is_Relational or got.is_Boolean:
            if got == sp.Ne(want, 0):
                return
            if got == sp.Eq(want, 0) or got in (sp.true, sp.false):
                raise Wrong("%s is %s" % (what, text(got)))
            raise Giveup("%s is %s" % (what, got))
        if sp.expand(got - want) == 0:
            return
    raise Wrong("%s is %s" % (what, text(got)))


def text(v):
    if isinstance(v, tuple):
        if v[0] == "ptr":
            return "the data of %s%s" % (text(v[1]), "" if v[2] == 0 else " from %s" % v[2])
        return " ".join(text(q) for q in v)
    return str(v)


def oneof(got, wants, what):
    for w in wants:
        if got == w or (isinstance(got, sp.Basic) and isinstance(w, sp.Basic) and sp.expand(got - w) == 0):
            return
    raise Wrong("%s is %s" % (what, text(got)))


def missing(E, text):
    if E.incomplete:
        raise Giveup("%s, or it is defined by %s" % (text, E.incomplete))
    raise Wrong(text)


def init(E, exps, cls):
    ex = next((e for e in exps.values() if e.name == cls), None)
    if ex is None:
        missing(E, "the module exports no %s" % cls)
    if ex.cls != cls:
        raise Wrong("%s is bound to the native class %s" % (cls, ex.cls))
    if len(ex.inits) != 1:
        raise Giveup("%d constructors" % len(ex.inits))
    r, v, ps = run(E, ex.inits[0][1])
    if ex.inits[0][0] and ex.inits[0][0] != ["x0", "xf", "nC", "min"]:
        raise Wrong("the parameters of the constructor are called %s" % ex.inits[0][0])
    if not (isinstance(r, tuple) and r[0] == "make"):
        raise Giveup("constructor gives %r" % (r,))
    if r[1] is not None and r[1] != cls:
        raise Wrong("%s(...) makes a %s" % (cls, r[1]))
    if len(v) != 4:
        raise Giveup("%d parameters" % len(v))
    a = r[2]
    if cls in ONE:
        contiguous(E, v, [(v[2], ("nC", "int"))])
        accepts(E, v, [(v[2], (3,))])
        accepts(E, v, [(v[2], (0,))])
        want = [("x0", [v[0]]), ("xf", [v[1]]), ("nC", [ptr(v[2])]), ("the number of removed functions", [v[2].sym("size"), v[2].sym("shape0")]), ("the number of functions", [v[3]])]
        for p in (0, 1):
            if "double" not in qt(ps[p]):
                raise Wrong("an end point is taken as %s" % qt(ps[p]))
    else:
        contiguous(E, v, [(v[0], ("x0", "double")), (v[1], ("xf", "double")), (v[2], ("nC", "int"))])
        s = lambda q, *w: [q.sym(x) for x in w]  # noqa: E731
        want = [("x0", [ptr(v[0])]), ("the length of x0", s(v[0], "size", "shape0")), ("xf", [ptr(v[1])]), ("the length of xf", s(v[1], "size", "shape0")), ("nC", [ptr(v[2])])]
        if cls in PROD:
            accepts(E, v, [(v[0], (2,)), (v[1], (2,)), (v[2], (2, 3))])
            accepts(E, v, [(v[0], (1,)), (v[1], (1,)), (v[2], (1, 0))])
            want += [("the number of rows", s(v[2], "shape0")), ("the number of columns", s(v[2], "shape1"))]
        else:
            accepts(E, v, [(v[0], (2,)), (v[1], (2,)), (v[2], (3,))])
            want += [("the number of removed functions", s(v[2], "size", "shape0"))]
        want += [("the number of functions", [v[3]])]
    if len(a) != len(want):
        raise Giveup("%d operands" % len(a))
    for got, (what, w) in zip(a, want):
        oneof(got, w, what)


def returned(E, r, shape, data, own=True):
    if not (isinstance(r, tuple) and r[0] == "array"):
        raise Giveup("result %r" % (r,))
    _, shp, p, base, elem = r
    if elem != "double":
        raise Wrong("the result is an array of %s" % elem)
    if len(shp) != len(shape):
        raise Wrong("the result has %d dimensions" % len(shp))
    for k, (g, w) in enumerate(zip(shp, shape)):
        oneof(g, w, "the length of axis %d of the result" % k)
    expect(p, data, "the memory of the result")
    if own:
        if base is None:
            if not any(e[0] in ("free",) and e[1] == data for e in E.events):
                raise Wrong("the matrix made by the native object is copied and never released")
            return
        if not (isinstance(base, tuple) and base[0] == "capsule"):
            raise Giveup("owner %r" % (base,))
        expect(base[1], data, "the memory released with the result")
        if base[2] != "free":
            raise Wrong("memory from malloc is released with %s" % base[2])
        if any(e[0] in ("free", "delete[]", "delete") for e in E.events):
            raise Wrong("the memory of the result is released before it is returned")


def one_call(E, name):
    c = [x for x in E.calls if x[0] == name]
    if len(c) != 1 or len(E.calls) != 1:
        other = {"getB": "getW", "getW": "getB", "setB": "setW", "setW": "setB"}.get(name)
        if not c and len(E.calls) == 1 and E.calls[0][0] == other:
            raise Wrong("%s is called instead of %s" % (other, name))
        if not c:
            raise Giveup("no call of %s" % name)
        raise Giveup("calls %s" % [x[0] for x in E.calls])
    return E.calls.index(c[0]), c[0]


def named(c, order):
    """Operands by parameter name."""
    _, args, names, _ = c
    if names and set(order) <= set(names):
        return {n: a for n, a in zip(names, args)}, {n: n for n in order}
    if len(args) == len(order):
        key = {n: (names[i] if names and names[i] else i) for i, n in enumerate(order)}
        return dict(zip(order, args)), key
    raise Giveup("operands of %s" % c[0])


def evaluate(E, exps, cls):
    ex, m = find(exps, cls, "H")
    if m is None:
        missing(E, "%s has no H" % cls)
    if m[0] != "method":
        raise Giveup("H")
    r, v, ps = run(E, m[1])
    if m[2] and m[2] != ["x", "d", "full"]:
        raise Wrong("the parameters of H are called %s" % m[2])
    i, c = one_call(E, "H")
    if len(v) != 4:
        raise Giveup("H has %d parameters" % len(v))
    _, x, d, full = v
    if "bool" not in qt(ps[3]) and "int" not in qt(ps[3]):
        raise Giveup("flag of type %s" % qt(ps[3]))
    if cls.startswith("n"):
        o, key = named(c, ["x", "in", "n", "d", "dDim0", "nOut", "mOut", "F", "full"])
        contiguous(E, v, [(x, ("x", "double")), (d, ("d", "int"))])
        for k in (1, 2, 100):
            accepts(E, v, [(x, (2, k)), (d, (2,))])
        accepts(E, v, [(x, (1, 1)), (d, (1,))])
        expect(o["x"], ptr(x), "the points")
        oneof(o["n"], [x.sym("shape1")], "the number of points")
        expect(o["d"], ptr(d), "the derivative orders")
        if "dDim0" in o:
            oneof(o["dDim0"], [d.sym("shape0"), d.sym("size")], "the number of derivative orders")
    else:
        o, key = named(c, ["x", "n", "d", "nOut", "mOut", "F", "full"])
        contiguous(E, v, [(x, ("x", "double"))])
        for k in (1, 2, 5, 100):
            accepts(E, v, [(x, (k,))])
        expect(o["x"], ptr(x), "the points")
        oneof(o["n"], [x.sym("size"), x.sym("shape0")], "the number of points")
        expect(o["d"], d, "the derivative order")
        if "int" not in qt(ps[2]):
            raise Wrong("the derivative order is taken as %s" % qt(ps[2]))
    expect(o["full"], full, "the full flag")
    n = [("res", i, key["nOut"])] + ([x.sym("shape1")] if cls.startswith("n") else [x.sym("size"), x.sym("shape0")])
    returned(E, r, [n, [("res", i, key["mOut"])]], ("res", i, key["F"]))


def fields(E, exps, cls):
    want = {"m": "m", "numC": "numC", "identifier": "identifier"}
    if cls.startswith("n"):
        want.update({"numBasisFunc": "numBasisFunc", "numBasisFuncFull": "numBasisFuncFull", "dim": "dim"})
    else:
        want.update({"c": "c", "x0": "x0", "z0": "z0"})
    for n, f in want.items():
        ex, m = find(exps, cls, n)
        if m is None:
            raise Wrong("%s has no %s" % (cls, n))
        if m[0] == "field":
            d = strip(m[1])
            a = strip(d["inner"][0]) if d.get("inner") else {}
            nm = (a.get("referencedDecl") or {}).get("name")
            if nm is None:
                raise Giveup("member %s" % n)
            if nm != f:
                raise Wrong("%s of %s is the native member %s" % (n, cls, nm))
        elif m[0] == "property":
            r, v, ps = run(E, m[1])
            if r != ("field", f):
                raise Wrong("%s of %s is %s" % (n, cls, text(r)))
        else:
            raise Giveup("member %s" % n)
    ex, m = find(exps, cls, "xlaCapsule")
    if m is None:
        raise Wrong("%s has no xlaCapsule" % cls)
    if m[0] == "property":
        r, v, ps = run(E, m[1])
        if r == ("steal", ("field", "xlaCapsule")):
            raise Wrong("reading xlaCapsule takes a reference the object still needs: the capsule is destroyed after the first use")
        if r != ("borrow", ("field", "xlaCapsule")):
            if isinstance(r, tuple) and r[0] in ("borrow", "field"):
                raise Wrong("xlaCapsule is %s" % text(r)) if r[0] == "borrow" else Giveup("xlaCapsule is %r" % (r,))
            raise Giveup("xlaCapsule is %r" % (r,))


def prop(E, exps, cls, name):
    ex, m = find(exps, cls, name)
    if m is None or m[0] != "property":
        if m is not None:
            raise Giveup("%s" % name)
        missing(E, "%s has no property %s" % (cls, name))
    return m


def getter(E, exps, cls, name):
    m = prop(E, exps, cls, name)
    r, v, ps = run(E, m[1])
    fld = lambda f: [("field", f), Symbol("field_" + f, integer=True)]  # noqa: E731
    if name == "c":
        if not (isinstance(r, tuple) and r[0] == "array"):
            raise Giveup("result %r" % (r,))
        if E.calls:
            i, c = one_call(E, "getC")
            o, key = named(c, ["arrOut", "nOut"])
            return returned(E, r, [fld("dim") + [("res", i, key["nOut"])]], ("res", i, key["arrOut"]))
        if r[3] is not None and r[3] != ("keepself",):
            raise Giveup("owner %r" % (r[3],))
        return returned(E, r, [fld("dim")], ("field", "c"), own=False)
    meth = {"b": "getB", "w": "getW"}[name]
    i, c = one_call(E, meth)
    if name == "w" and cls.startswith("n"):
        o, key = named(c, ["dimOut", "nOut", "arrOut"])
        returned(E, r, [[("res", i, key["dimOut"])] + fld("dim"), [("res", i, key["nOut"])] + fld("m")], ("res", i, key["arrOut"]))
    else:
        o, key = named(c, ["arrOut", "nOut"])
        returned(E, r, [[("res", i, key["nOut"])] + fld("m")], ("res", i, key["arrOut"]))


def setter(E, exps, cls, name):
    m = prop(E, exps, cls, name)
    if m[2] is None:
        raise Wrong("%s of %s cannot be set" % (name, cls))
    r, v, ps = run(E, m[2])
    a = v[1]
    contiguous(E, v, [(a, (name, "double"))])
    if name == "c":
        accepts(E, v, [(a, (2,))])
        dims = [Symbol("field_dim", integer=True), a.sym("size"), a.sym("shape0")]
        got = [e for e in E.events if e[0] in ("copy", "store")]
        if E.calls:
            raise Giveup("calls")
        if not got:
            raise Wrong("setting c has no effect")
        if len(got) != 1:
            raise Giveup("%d writes" % len(got))
        e = got[0]
        if e[0] == "copy":
            expect(e[1], ("ptr", ("field", "c"), Integer(0)), "the target")
            expect(e[2], ptr(a), "the source")
            oneof(e[3], dims, "the number of values copied")
        else:
            _, t, val, loops = e
            if t == ("field", "c"):
                raise Wrong("the object keeps the pointer of the caller's array")
            if len(loops) != 1:
                raise Giveup("store")
            K, lo, hi = loops[0]
            expect(t, ("elem", ("field", "c"), K), "the target")
            expect(val, ("elem", ("data", a.name), K), "the source")
            expect(lo, Integer(0), "the first value copied")
            oneof(hi, dims, "the number of values copied")
        return
    meth = {"b": "setB", "w": "setW"}[name]
    i, c = one_call(E, meth)
    if name == "w" and cls.startswith("n"):
        accepts(E, v, [(a, (2, 5))])
        want = [[ptr(a)], [a.sym("shape0")], [a.sym("shape1")]]
    else:
        accepts(E, v, [(a, (5,))])
        want = [[ptr(a)], [a.sym("size"), a.sym("shape0")]]
    if len(c[1]) != len(want):
        raise Giveup("operands of %s" % meth)
    for k, (g, w) in enumerate(zip(c[1], want)):
        oneof(g, w, "operand %d of %s" % (k, meth))


def check_poly(rep):
    check(rep, ("CP", "LeP", "LaP", "HoPpro", "HoPphy"))


def check_other(rep):
    check(rep, ("FS", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish", "ELMReLU"))


def check_one(rep):
    check(rep, ONE)


def check_prod(rep):
    check(rep, PROD)


def check_nelm(rep):
    check(rep, NELM)


def check(rep, classes=ONE + PROD + NELM):
    try:
        E, exps = load()
    except cxx.FrontEndError as e:
        rep.undecided("binding", "BF_Py.cc", e)
        return
    todo = []
    for cls in classes:
        todo += [("construction of %s" % cls, init, (cls,)), ("evaluation of %s" % cls, evaluate, (cls,)), ("members of %s" % cls, fields, (cls,))]
        ps = []
        if "ELM" in cls:
            ps += ["b", "w"]
        if cls.startswith("n"):
            ps += ["c"]
        for p in ps:
            todo += [("reading %s of %s" % (p, cls), getter, (cls, p)), ("setting %s of %s" % (p, cls), setter, (cls, p))]
    for con, f, a in todo:
        E.line = None
        where = "src/tfc/utils/BF_Py.cc"
        try:
            f(E, exps, *a)
        except Wrong as e:
            rep.violation("binding", con, where + (":%s" % E.line if E.line else ""), str(e))
        except (Giveup, KeyError, IndexError, Thrown, TypeError, AttributeError) as e:
            rep.undecided("binding", con, "%s %s" % (type(e).__name__, e))
        else:
            rep.hold("binding", con)
    rep.analysed["functions"] |= {("BF_Py.cc", "pybind11_init_BF")} | {("BF_Py.cc", d["name"]) for d in E.fns.values() if d.get("name")}
    rep.analysed["calls"] += len(todo)
