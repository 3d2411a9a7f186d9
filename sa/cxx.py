"""C++ front end: clang's typed AST (JSON dump of the real translation unit) lowered to a small
Python-`ast` IR, so that one analyser reads both implementations of the basis functions.

Nothing is compiled or executed: clang only parses (-fsyntax-only) and we walk the tree it prints.
"""
import ast
import json
import os
import subprocess

CLANG = "/usr/bin/clang-18"
PYINC = "/usr/include/python3.12"
PB11 = "/opt/venv/lib/python3.12/site-packages/pybind11/include"


class FrontEndError(Exception):
    pass


class Unsupported(Exception):
    pass


def _clang(args, src):
    cmd = [CLANG, "-std=c++20", "-fsyntax-only", "-w", "-I" + PYINC, "-I" + PB11] + args + [src]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    return p


def top_decls(src, files):
    """Top-level declarations of `src` located in one of `files` (basenames), as dicts."""
    import threading

    p = _clang(["-Xclang", "-ast-dump=json"], src)
    errbuf = []
    th = threading.Thread(target=lambda: errbuf.append(p.stderr.read()))
    th.start()
    cur = None
    buf = None
    out = []
    owner = None
    for line in p.stdout:
        if buf is None:
            if line == "    {\n":
                buf = [line]
                owner = False
            continue
        buf.append(line)
        if '"file": "' in line:
            cur = line.split('"file": "', 1)[1].split('"', 1)[0]
        if owner is False and line.startswith('      "range"'):
            owner = os.path.basename(cur) in files if cur else None
            if owner is False:
                owner = None
        if line.startswith("    }"):
            if owner:
                txt = "".join(buf).rstrip().rstrip(",")
                out.append(json.loads(txt))
            buf = None
    p.wait()
    th.join()
    if p.returncode != 0:
        raise FrontEndError("clang failed on %s: %s" % (src, (errbuf[0] or "")[:2000]))
    return out


def filtered_decls(src, flt):
    p = _clang(["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter", "-Xclang", flt], src)
    o, e = p.communicate()
    if p.returncode != 0:
        raise FrontEndError("clang failed on %s: %s" % (src, e[:2000]))
    dec = json.JSONDecoder()
    i = 0
    res = []
    while i < len(o):
        while i < len(o) and o[i] in " \n\r\t":
            i += 1
        if i >= len(o):
            break
        d, j = dec.raw_decode(o, i)
        res.append(d)
        i = j
    return res


# --------------------------------------------------------------------------------------------
def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *a):
    return ast.Call(func=_name(fn) if isinstance(fn, str) else fn, args=list(a), keywords=[])


def _const(v):
    return ast.Constant(value=v)


class Fn:
    """One lowered C++ function."""

    def __init__(self, cls, name, params, types, byref, body, line, inits, kind, file, defaults=None):
        self.cls, self.name, self.params, self.types = cls, name, params, types
        self.byref, self.body, self.line, self.inits = byref, body, line, inits
        self.kind, self.file = kind, file
        self.defaults = defaults or {}

    @property
    def qual(self):
        return (self.cls + "::" if self.cls else "") + self.name

    def as_ast(self):
        args = ast.arguments(
            posonlyargs=[],
            args=[ast.arg(arg=p) for p in ((["self"] if self.cls else []) + self.params)],
            kwonlyargs=[],
            kw_defaults=[],
            defaults=[],
        )
        f = ast.FunctionDef(name=self.name, args=args, body=self.body or [ast.Pass()], decorator_list=[], lineno=self.line)
        f.cxx = self
        return f


class Cls:
    def __init__(self, name):
        self.name = name
        self.bases = []  # list of base names
        self.virtual = set()
        self.fields = {}  # name -> type
        self.static = {}
        self.methods = {}  # name -> list[Fn]
        self.decl_methods = {}


class Unit:
    def __init__(self):
        self.classes = {}
        self.functions = {}
        self.globals = {}
        self.statics = {}  # (class, member) -> initial value
        self.problems = []

    def mro(self, cls):
        """Simple linearisation (derived first)."""
        out = []

        def go(c):
            if c in out or c not in self.classes:
                return
            out.append(c)
            for b in self.classes[c].bases:
                go(b)

        go(cls)
        # a base must come after everything deriving from it
        changed = True
        while changed:
            changed = False
            for i, c in enumerate(out):
                for b in self.classes[c].bases:
                    if b in out and out.index(b) < i:
                        out.remove(b)
                        out.append(b)
                        changed = True
                        break
                if changed:
                    break
        return out

    def virtual_bases(self, cls):
        out = []
        for k in reversed(self.mro(cls)):
            for b in self.classes[k].virtual:
                if b not in out:
                    out.append(b)
        return out

    def resolve(self, cls, meth):
        for c in self.mro(cls):
            if meth in self.classes[c].methods and self.classes[c].methods[meth]:
                return self.classes[c].methods[meth]
        return None


class Lower:
    def __init__(self, unit, declowner):
        self.u = unit
        self.declowner = declowner  # decl id -> (class, field)
        self.line = 0
        self.pre = None
        self.post = None
        self.nlam = 0
        self.lams = []
        self.local = {}  # decl id -> unique local name
        self.used = {}
        self.methcls = {}

    # ---------------------------------------------------------------- helpers
    def declare(self, c):
        nm = c.get("name", "_anon")
        n = self.used.get(nm, 0)
        self.used[nm] = n + 1
        u = nm if n == 0 else "%s$%d" % (nm, n + 1)
        self.local[c.get("id")] = u
        return u

    def ln(self, n):
        def find(d):
            if not isinstance(d, dict):
                return None
            if "line" in d:
                return d["line"]
            for k in ("expansionLoc", "spellingLoc"):
                if k in d and "line" in d[k]:
                    return d[k]["line"]
            return None

        r = n.get("range", {}).get("begin", {})
        l = find(r) or find(n.get("loc", {}))
        if l:
            self.line = l
        return self.line

    def at(self, node):
        for x in ast.walk(node):
            if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"):
                x.lineno = self.line
                x.col_offset = 0
        return node

    def qt(self, n):
        return n.get("type", {}).get("qualType", "")

    # ---------------------------------------------------------------- expressions
    def ex(self, n):
        self.ln(n)
        e = self._ex(n)
        t = self.qt(n)
        e.cxx_type = t
        if not hasattr(e, "lineno"):
            e.lineno = self.line
            e.col_offset = 0
        return e

    def inner(self, n):
        return [c for c in n.get("inner", []) if c and c.get("kind")]

    def _ex(self, n):
        k = n["kind"]
        inn = self.inner(n)
        if k in (
            "ParenExpr",
            "ExprWithCleanups",
            "MaterializeTemporaryExpr",
            "CXXBindTemporaryExpr",
            "ConstantExpr",
            "SubstNonTypeTemplateParmExpr",
        ):
            return self.ex(inn[0])
        if k == "ImplicitCastExpr":
            ck = n.get("castKind")
            if ck == "FloatingToIntegral":
                return _call("__toint", self.ex(inn[0]))
            if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
                return _call("__tobool", self.ex(inn[0]))
            return self.ex(inn[-1])
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            ck = n.get("castKind")
            t = self.qt(n)
            e = self.ex(inn[-1])
            if ck == "FloatingToIntegral":
                return _call("__toint", e)
            if ck == "IntegralToFloating":
                return e
            if t.endswith("*"):
                return _call("__cast", _const(t), e)
            return e
        if k == "CXXReinterpretCastExpr":
            return _call("__cast", _const(self.qt(n)), self.ex(inn[-1]))
        if k == "CXXConstCastExpr":
            return self.ex(inn[-1])
        if k == "IntegerLiteral":
            return _const(int(n["value"]))
        if k == "FloatingLiteral":
            c = _const(float(n["value"]))
            c.is_float = True
            return c
        if k == "CXXBoolLiteralExpr":
            return _const(bool(n["value"]))
        if k == "StringLiteral":
            return _const(n.get("value", ""))
        if k == "CharacterLiteral":
            return _const(n.get("value"))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return _const(None)
        if k == "DeclRefExpr":
            rd = n.get("referencedDecl", {})
            nm = rd.get("name", "?")
            own = self.declowner.get(rd.get("id"))
            if own:
                return ast.Attribute(value=_name("self"), attr="%s.%s" % own, ctx=ast.Load())
            return _name(self.local.get(rd.get("id"), nm))
        if k == "CXXThisExpr":
            return _name("self")
        if k == "MemberExpr":
            base = self.ex(inn[0]) if inn else _name("self")
            own = self.declowner.get(n.get("referencedMemberDecl"))
            nm = n.get("name", "?")
            a = ast.Attribute(value=base, attr=("%s.%s" % own) if own else nm, ctx=ast.Load())
            a.member_cls = self.methcls.get(n.get("referencedMemberDecl"))
            return a
        if k == "CXXDependentScopeMemberExpr":
            base = self.ex(inn[0]) if inn else _name("self")
            return ast.Attribute(value=base, attr=n.get("member", n.get("name", "?")), ctx=ast.Load())
        if k == "UnresolvedMemberExpr":
            base = self.ex(inn[0]) if inn else _name("self")
            return ast.Attribute(value=base, attr=n.get("name", "?"), ctx=ast.Load())
        if k == "UnresolvedLookupExpr":
            return _name(n.get("name", "?"))
        if k == "ArraySubscriptExpr":
            return ast.Subscript(value=self.ex(inn[0]), slice=self.ex(inn[1]), ctx=ast.Load())
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "*":
                return ast.Subscript(value=self.ex(inn[0]), slice=_const(0), ctx=ast.Load())
            if op == "&":
                s = inn[0]
                e = self.ex(s)
                if isinstance(e, ast.Subscript):
                    return ast.BinOp(left=e.value, op=ast.Add(), right=e.slice)
                return _call("__ref", e)
            if op == "-":
                return ast.UnaryOp(op=ast.USub(), operand=self.ex(inn[0]))
            if op == "+":
                return self.ex(inn[0])
            if op == "!":
                return ast.UnaryOp(op=ast.Not(), operand=self.ex(inn[0]))
            if op in ("++", "--"):
                t = self.ex(inn[0])
                st = ast.AugAssign(target=self.store(t), op=ast.Add() if op == "++" else ast.Sub(), value=_const(1))
                self.at(st)
                if n.get("isPostfix"):
                    self.post.append(st)
                else:
                    self.pre.append(st)
                return t
            raise Unsupported("unary " + op)
        if k == "BinaryOperator":
            op = n["opcode"]
            if op == "=":
                v = self.ex(inn[1])
                t = self.ex(inn[0])
                st = ast.Assign(targets=[self.store(t)], value=v)
                self.pre.append(self.at(st))
                return t
            if op == ",":
                self.stmt_expr(inn[0], self.pre)
                return self.ex(inn[1])
            a, b = self.ex(inn[0]), self.ex(inn[1])
            if op in ("&&", "||"):
                return ast.BoolOp(op=ast.And() if op == "&&" else ast.Or(), values=[a, b])
            cmpo = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}
            if op in cmpo:
                return ast.Compare(left=a, ops=[cmpo[op]()], comparators=[b])
            ar = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor, "<<": ast.LShift, ">>": ast.RShift}
            if op == "/" and not any(f in self.qt(n) for f in ("double", "float")) and "dependent" not in self.qt(n):
                return ast.BinOp(left=a, op=ast.FloorDiv(), right=b)
            if op in ar:
                return ast.BinOp(left=a, op=ar[op](), right=b)
            raise Unsupported("binary " + op)
        if k == "CompoundAssignOperator":
            st, t = self.compound(n)
            self.pre.append(st)
            return t
        if k == "ConditionalOperator":
            return ast.IfExp(test=self.ex(inn[0]), body=self.ex(inn[1]), orelse=self.ex(inn[2]))
        if k == "CXXNewExpr":
            ct = self.qt(n)
            if n.get("isArray"):
                # the array size is the first inner expression
                return _call("__new", self.ex(inn[0]), _const(ct))
            return _call("__newobj", *[self.ex(c) for c in inn], _const(ct))
        if k == "CXXDeleteExpr":
            return _call("__delete", self.ex(inn[0]), _const(bool(n.get("isArray") or n.get("isArrayAsWritten"))))
        if k == "UnaryExprOrTypeTraitExpr":
            return _call("__sizeof", _const(n.get("argType", {}).get("qualType", "?")))
        if k in ("CallExpr", "CXXMemberCallExpr"):
            f = inn[0]
            args = [self.ex(c) for c in inn[1:] if c["kind"] != "CXXDefaultArgExpr"]
            fe = self.ex(f)
            # qualified (non virtual) call:  CP::Hint(...)
            return ast.Call(func=fe, args=args, keywords=[])
        if k == "CXXOperatorCallExpr":
            f = inn[0]
            g = f
            while g.get("kind") == "ImplicitCastExpr":
                g = self.inner(g)[0]
            nm = g.get("referencedDecl", {}).get("name", "") or g.get("name", "")
            args = [self.ex(c) for c in inn[1:]]
            if nm == "operator[]":
                return ast.Subscript(value=args[0], slice=args[1], ctx=ast.Load())
            if nm == "operator()":
                return ast.Call(func=args[0], args=args[1:], keywords=[])
            if nm == "operator*" and len(args) == 1:
                return ast.Subscript(value=args[0], slice=_const(0), ctx=ast.Load())
            if nm == "operator->":
                return args[0]
            return _call("__" + nm.replace("operator", "op"), *args)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXUnresolvedConstructExpr"):
            args = [self.ex(c) for c in inn if c["kind"] != "CXXDefaultArgExpr"]
            if len(args) == 1 and n.get("elidable"):
                return args[0]
            return _call("__construct", _const(self.qt(n)), *args)
        if k == "InitListExpr":
            return ast.Tuple(elts=[self.ex(c) for c in inn], ctx=ast.Load())
        if k == "CXXThrowExpr":
            return _call("__throw", *[self.ex(c) for c in inn[:1]])
        if k in ("CXXDefaultArgExpr", "CXXDefaultInitExpr"):
            return self.ex(inn[0]) if inn else _const(None)
        if k == "LambdaExpr":
            return self.lam(n)
        if k == "CXXStdInitializerListExpr":
            return self.ex(inn[0])
        if k == "ImplicitValueInitExpr":
            return _const(0)
        if k == "PredefinedExpr":
            return _const("")
        raise Unsupported(k)

    def lam(self, n):
        rec = None
        body = None
        for c in self.inner(n):
            if c["kind"] == "CXXRecordDecl":
                rec = c
            elif c["kind"] == "CompoundStmt":
                body = c
        op = None
        for c in self.inner(rec):
            if c.get("name") == "operator()" and c["kind"] in ("CXXMethodDecl", "FunctionTemplateDecl"):
                op = c
                break
        if op is not None and op["kind"] == "FunctionTemplateDecl":
            op = [c for c in self.inner(op) if c["kind"] == "CXXMethodDecl"][0]
        params = [p.get("name", "_%d" % i) for i, p in enumerate(c for c in self.inner(op) if c["kind"] == "ParmVarDecl")]
        types = [p.get("type", {}).get("qualType", "") for p in self.inner(op) if p["kind"] == "ParmVarDecl"]
        if body is None:
            for c in self.inner(op):
                if c["kind"] == "CompoundStmt":
                    body = c
        sub = Lower(self.u, self.declowner)
        sub.line = self.line
        sub.local = dict(self.local)
        sub.used = dict(self.used)
        sub.methcls = self.methcls
        params = []
        for p in self.inner(op):
            if p["kind"] == "ParmVarDecl":
                params.append(sub.declare(p))
        b = sub.block(body)
        self.nlam += 1
        l = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=_const(None),
        )
        l.cxx_body = b
        l.cxx_types = types
        return l

    def store(self, e):
        import copy

        e2 = copy.copy(e)
        if isinstance(e2, (ast.Name, ast.Attribute, ast.Subscript)):
            e2.ctx = ast.Store()
            return e2
        raise Unsupported("store to " + type(e).__name__)

    def compound(self, n):
        inn = self.inner(n)
        ops = {"+=": ast.Add, "-=": ast.Sub, "*=": ast.Mult, "/=": ast.Div, "%=": ast.Mod}
        o = n["opcode"]
        if o not in ops:
            raise Unsupported(o)
        t = self.ex(inn[0])
        v = self.ex(inn[1])
        op = ops[o]()
        if o == "/=" and not any(f in self.qt(n) for f in ("double", "float")):
            op = ast.FloorDiv()
        return self.at(ast.AugAssign(target=self.store(t), op=op, value=v)), t

    # ---------------------------------------------------------------- statements
    def stmt_expr(self, n, out):
        """Lower an expression statement."""
        k = n["kind"]
        sp, so = self.pre, self.post
        self.pre, self.post = [], []
        self.ln(n)
        core = n
        while core["kind"] in ("ParenExpr", "ExprWithCleanups") and self.inner(core):
            core = self.inner(core)[0]
        k = core["kind"]
        if k == "BinaryOperator" and core["opcode"] == "=":
            inn = self.inner(core)
            v = self.ex(inn[1])
            t = self.ex(inn[0])
            main = [ast.Assign(targets=[self.store(t)], value=v)]
        elif k == "CompoundAssignOperator":
            st, _ = self.compound(core)
            main = [st]
        elif k == "UnaryOperator" and core["opcode"] in ("++", "--"):
            t = self.ex(self.inner(core)[0])
            main = [ast.AugAssign(target=self.store(t), op=ast.Add() if core["opcode"] == "++" else ast.Sub(), value=_const(1))]
        elif k == "CXXThrowExpr":
            main = [ast.Raise(exc=self.ex(core).args[0] if self.inner(core) else None, cause=None)]
        else:
            e = self.ex(core)
            main = [ast.Expr(value=e)]
        for m in main:
            m.lineno = self.line
            m.col_offset = 0
            self.at(m)
        out.extend(self.pre)
        out.extend(main)
        out.extend(self.post)
        self.pre, self.post = sp, so

    def cond(self, n, out):
        sp, so = self.pre, self.post
        self.pre, self.post = [], []
        e = self.ex(n)
        if self.post:
            raise Unsupported("side effect in condition")
        out.extend(self.pre)
        self.pre, self.post = sp, so
        return e

    def block(self, n):
        out = []
        if n["kind"] == "CompoundStmt":
            for c in self.inner(n):
                self.st(c, out)
        else:
            self.st(n, out)
        return out

    def st(self, n, out):
        k = n["kind"]
        self.ln(n)
        line = self.line
        if k == "CompoundStmt":
            for c in self.inner(n):
                self.st(c, out)
            return
        if k in ("NullStmt",):
            return
        if k == "AttributedStmt":
            self.st(self.inner(n)[-1], out)
            return
        if k == "DeclStmt":
            for c in self.inner(n):
                if c["kind"] != "VarDecl":
                    continue
                ii = [x for x in self.inner(c) if not x["kind"].endswith("Attr")]
                uname = self.declare(c)
                if c.get("init") and ii:
                    sp, so = self.pre, self.post
                    self.pre, self.post = [], []
                    v = self.ex(ii[-1])
                    out.extend(self.pre)
                    a = ast.Assign(targets=[ast.Name(id=uname, ctx=ast.Store())], value=v)
                    a.lineno = line
                    a.cxx_decl = self.qt(c)
                    out.append(self.at(a))
                    out.extend(self.post)
                    self.pre, self.post = sp, so
                else:
                    a = ast.Assign(targets=[ast.Name(id=uname, ctx=ast.Store())], value=_call("__undef", _const(uname)))
                    a.lineno = line
                    a.cxx_decl = self.qt(c)
                    out.append(self.at(a))
            return
        if k == "IfStmt":
            inn = self.inner(n)
            idx = 0
            if n.get("hasInit"):
                self.st(inn[0], out)
                idx = 1
            if n.get("hasVar"):
                raise Unsupported("if with declaration")
            t = self.cond(inn[idx], out)
            b = self.block(inn[idx + 1])
            e = self.block(inn[idx + 2]) if len(inn) > idx + 2 else []
            s = ast.If(test=t, body=b or [ast.Pass()], orelse=e)
            s.lineno = line
            out.append(self.at(s))
            return
        if k == "ForStmt":
            raw = n.get("inner", [])
            init, condvar, cnd, inc, body = (raw + [{}] * 5)[:5]
            if init and init.get("kind"):
                self.st_or_expr(init, out)
            b = []
            if cnd and cnd.get("kind"):
                pre = []
                t = self.cond(cnd, pre)
                if pre:
                    raise Unsupported("side effect in loop condition")
            else:
                t = _const(True)
            b = self.block(body)
            incs = []
            if inc and inc.get("kind"):
                self.stmt_comma(inc, incs)
            w = ast.While(test=t, body=b or [ast.Pass()], orelse=[])
            w.cxx_inc = incs
            w.lineno = line
            for i in incs:
                self.at(i)
            out.append(self.at(w))
            return
        if k == "WhileStmt":
            inn = self.inner(n)
            pre = []
            t = self.cond(inn[0], pre)
            if pre:
                raise Unsupported("side effect in loop condition")
            w = ast.While(test=t, body=self.block(inn[1]) or [ast.Pass()], orelse=[])
            w.cxx_inc = []
            w.lineno = line
            out.append(self.at(w))
            return
        if k == "SwitchStmt":
            inn = self.inner(n)
            t = self.cond(inn[0], out)
            self.switch(t, inn[-1], out, line)
            return
        if k == "BreakStmt":
            s = ast.Break()
        elif k == "ContinueStmt":
            s = ast.Continue()
        elif k == "ReturnStmt":
            inn = self.inner(n)
            v = None
            if inn:
                sp, so = self.pre, self.post
                self.pre, self.post = [], []
                v = self.ex(inn[0])
                out.extend(self.pre)
                if self.post:
                    raise Unsupported("post effect in return")
                self.pre, self.post = sp, so
            s = ast.Return(value=v)
        else:
            self.stmt_expr(n, out)
            return
        s.lineno = line
        out.append(self.at(s))

    def st_or_expr(self, n, out):
        if n["kind"] in ("DeclStmt",):
            self.st(n, out)
        else:
            self.stmt_comma(n, out)

    def stmt_comma(self, n, out):
        if n["kind"] == "BinaryOperator" and n["opcode"] == ",":
            a, b = self.inner(n)
            self.stmt_comma(a, out)
            self.stmt_comma(b, out)
        else:
            self.stmt_expr(n, out)

    def switch(self, t, body, out, line):
        items = []  # (labels, stmts)
        for c in self.inner(body):
            labels = []
            cur = c
            while cur and cur["kind"] in ("CaseStmt", "DefaultStmt"):
                inn = self.inner(cur)
                if cur["kind"] == "CaseStmt":
                    labels.append(self.ex(inn[0]))
                    cur = inn[1] if len(inn) > 1 else None
                else:
                    labels.append("default")
                    cur = inn[0] if inn else None
            stm = []
            if cur is not None:
                self.st(cur, stm)
            if labels:
                items.append([labels, stm])
            else:
                if not items:
                    continue
                items[-1][1].extend(stm)

        def full(i):
            res = []
            for _, s in items[i:]:
                s2, brk = strip(s)
                res.extend(s2)
                if brk:
                    return res
            return res

        def strip(s):
            o = []
            for x in s:
                if isinstance(x, ast.Break):
                    return o, True
                if has_break(x):
                    raise Unsupported("conditional break in switch")
                o.append(x)
                if isinstance(x, (ast.Return, ast.Raise, ast.Continue)):
                    return o, True
            return o, False

        def has_break(x):
            if isinstance(x, ast.Break):
                return True
            if isinstance(x, ast.If):
                return any(has_break(y) for y in x.body + x.orelse)
            return False

        self.nlam += 1
        tv = "__sw%d" % self.nlam
        a = ast.Assign(targets=[ast.Name(id=tv, ctx=ast.Store())], value=t)
        a.lineno = line
        out.append(self.at(a))
        default = []
        cases = []
        for i, (labels, _) in enumerate(items):
            b = full(i)
            labs = [l for l in labels if not isinstance(l, str)]
            if "default" in labels:
                default = b
            if labs:
                cases.append((labs, b))
        res = default
        for labs, b in reversed(cases):
            tests = [ast.Compare(left=_name(tv), ops=[ast.Eq()], comparators=[l]) for l in labs]
            tt = tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.Or(), values=tests)
            s = ast.If(test=tt, body=b or [ast.Pass()], orelse=res)
            s.lineno = line
            res = [self.at(s)]
        out.extend(res)


def _fn(u, lower, n, cls, file):
    inn = lower.inner(n)
    params, types, byref, defaults = [], [], set(), {}
    body = None
    inits = []
    for c in inn:
        if c["kind"] == "ParmVarDecl":
            if "name" in c:
                nm = lower.declare(c)
            else:
                nm = "_unused%d" % len(params)
            t = c.get("type", {}).get("qualType", "")
            params.append(nm)
            types.append(t)
            if "&" in t and "const" not in t.split("&")[0].split("*")[-1:][0]:
                byref.add(nm)
            di = [x for x in lower.inner(c)]
            if c.get("init") and di:
                try:
                    lower.pre, lower.post = [], []
                    defaults[nm] = lower.ex(di[-1])
                except Unsupported:
                    pass
        elif c["kind"] == "CompoundStmt":
            body = c
        elif c["kind"] == "CXXCtorInitializer":
            inits.append(c)
    return params, types, byref, body, inits, defaults


def load(src, files=None):
    files = files or {"BF.cc", "BF.h"}
    u = Unit()
    decls = top_decls(src, files)
    declowner = {}
    pending = []
    methcls = {}

    def reg_class(d):
        if not d.get("completeDefinition"):
            return
        c = u.classes.setdefault(d["name"], Cls(d["name"]))
        c.bases = [b["type"]["qualType"] for b in d.get("bases", [])]
        c.virtual = {b["type"]["qualType"] for b in d.get("bases", []) if b.get("isVirtual")}
        for x in d.get("inner", []):
            if x.get("kind") == "FieldDecl":
                c.fields[x["name"]] = x["type"]["qualType"]
                declowner[x["id"]] = (d["name"], x["name"])
                x["_cls"] = d["name"]
            elif x.get("kind") == "VarDecl":
                c.static[x["name"]] = x["type"]["qualType"]
                declowner[x["id"]] = (d["name"], x["name"])
            elif x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                methcls[x["id"]] = d["name"]
                pending.append((x, d["name"]))

    for d in decls:
        if d["kind"] == "CXXRecordDecl":
            reg_class(d)
    for d in decls:
        if d["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
            cls = methcls.get(d.get("previousDecl")) or methcls.get(d.get("parentDeclContextId"))
            if cls is None:
                cls = next((c for i, c in methcls.items() if i == d.get("previousDecl")), None)
            pending.append((d, cls))
        elif d["kind"] == "FunctionDecl":
            pending.append((d, None))
        elif d["kind"] == "VarDecl" and d.get("previousDecl") in declowner:
            declowner[d["id"]] = declowner[d["previousDecl"]]
            lits = [x for x in d.get("inner", []) if x.get("kind") == "IntegerLiteral"]
            u.statics[declowner[d["id"]]] = int(lits[0]["value"]) if len(lits) == 1 and len(d["inner"]) == 1 else None
    prevdefaults = {}
    for d, cls in pending:
        if d.get("isImplicit") or d.get("explicitlyDeleted"):
            continue
        lw = Lower(u, declowner)
        lw.methcls = methcls
        lw.ln(d)
        params, types, byref, body, inits, defaults = _fn(u, lw, d, cls, src)
        prevdefaults[d["id"]] = defaults
        if d.get("previousDecl") in prevdefaults:
            dd = dict(prevdefaults[d["previousDecl"]])
            # parameter names may differ between declaration and definition
            prev = [x for x in pending if x[0]["id"] == d["previousDecl"]]
            if prev:
                pn = [p.get("name", "_unused%d" % i) for i, p in enumerate(c for c in prev[0][0].get("inner", []) if c.get("kind") == "ParmVarDecl")]
                for a, b in zip(pn, params):
                    if a in dd and b not in defaults:
                        defaults[b] = dd[a]
        name = d["name"]
        if body is None:
            if cls:
                u.classes[cls].decl_methods.setdefault(name, []).append((params, types, d.get("pure", False), defaults))
            continue
        il = []
        try:
            for i in inits:
                if "anyInit" in i:
                    fld = i["anyInit"]
                    lw.pre, lw.post = [], []
                    il.append(("field", fld.get("name"), [lw.ex(x) for x in lw.inner(i)]))
                else:
                    bt = i.get("baseInit", {}).get("qualType", "?")
                    lw.pre, lw.post = [], []
                    args = []
                    for x in lw.inner(i):
                        if x["kind"] == "CXXConstructExpr":
                            args = [lw.ex(y) for y in lw.inner(x) if y["kind"] != "CXXDefaultArgExpr"]
                        else:
                            args = [lw.ex(x)]
                    il.append(("base", bt, args))
            b = lw.block(body)
        except Unsupported as e:
            u.problems.append(((cls + "::" if cls else "") + name, lw.line, str(e)))
            b = None
        f = Fn(cls, name, params, types, byref, b, lw.ln(d), il, d["kind"], os.path.basename(src), defaults)
        f.unsupported = b is None
        if b is None:
            f.body = [ast.Raise(exc=None, cause=None)]
        if cls:
            u.classes[cls].methods.setdefault(name, []).append(f)
        else:
            u.functions[name] = f
    return u


if __name__ == "__main__":
    import sys

    u = load("/repo/src/tfc/utils/BF.cc")
    print(u.problems)
    for c in u.classes.values():
        print(c.name, c.bases, list(c.fields), {k: [(f.params, sorted(f.byref)) for f in v] for k, v in c.methods.items()})
    if len(sys.argv) > 2:
        for f in u.classes[sys.argv[1]].methods[sys.argv[2]]:
            for s in f.body:
                print(ast.unparse(ast.fix_missing_locations(s)))
            print(f.inits)
