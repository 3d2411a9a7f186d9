"""TfcPrinter: the printed code denotes the printed expression, and printing changes nothing else.

Each printing method is interpreted on expression shapes (functions of up to three arguments, derivatives of every order
pattern up to three, substitutions that rename, swap and nest); the resulting text is parsed and its syntax tree is
compared with the one the expression defines."""
import ast
import itertools
import re
import sympy as sp
from sympy import S, Integer
import ai
import alg
from ai import Giveup, ModV, Ref, State, Ext, Bound, Opq
from core import module, modules, AnchorLost
from solver import Wrong

MOD = "tfc.utils.CeSolver"


class Node(Ext):
    """Expression: symbol, number, function application, derivative, substitution, or text that is already code."""

    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts

    def __eq__(self, o):
        return isinstance(o, Node) and (o.kind, o.parts) == (self.kind, self.parts)

    def __hash__(self):
        return hash((self.kind, self.parts))

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.parts)

    def attr(self, ip, name, st):
        k, p = self.kind, self.parts
        if name == "args":
            return {"sym": (), "num": (), "fun": p[1] if k == "fun" else (), "der": p, "subs": p, "code": (), "tup": p}[k] if k != "pair" else p
        if name in ("func", "__class__") and k == "fun":
            return Node("cls", p[0])
        if name == "__name__" and k == "cls":
            return p[0]
        if name == "name" and k in ("sym", "fun"):
            return p[0]
        if name in ("is_Atom", "is_Symbol", "is_symbol", "is_Number", "is_number", "is_Function"):
            atom = {"is_Atom": k in ("sym", "num"), "is_Symbol": k == "sym", "is_symbol": k == "sym", "is_Number": k == "num", "is_number": k == "num", "is_Function": k == "fun"}
            return atom[name]
        if k == "der" and name == "expr":
            return p[0]
        if k == "der" and name == "variable_count":
            return tuple(p[1:])
        if k == "der" and name == "variables":
            return tuple(q.parts[0] for q in p[1:] for _ in range(int(q.parts[1])))
        if k == "subs" and name in ("expr", "variables", "point"):
            return {"expr": p[0], "variables": p[1], "point": p[2]}[name]
        return NotImplemented

    def item(self, ip, k, st):
        if self.kind in ("pair", "tup") and alg.isexpr(k) and k.is_Integer and 0 <= int(k) < len(self.parts):
            v = self.parts[int(k)]
            return Integer(v) if isinstance(v, int) else v
        return NotImplemented

    def method(self, ip, name, args, kw, st):
        if self.kind == "tup" and name == "index" and len(args) == 1 and args[0] in self.parts:
            return Integer(self.parts.index(args[0]))
        return NotImplemented

    def iter(self):
        if self.kind in ("pair", "tup"):
            return tuple(Integer(v) if isinstance(v, int) else v for v in self.parts)
        return None


class Match(Ext):
    def __init__(self, m):
        self.m = m

    def method(self, ip, name, args, kw, st):
        if name == "group":
            return self.m.group(*[int(a) if alg.isexpr(a) else a for a in args])
        return NotImplemented

    def item(self, ip, k, st):
        return self.m[int(k) if alg.isexpr(k) else k]


def text(n):
    """Sympy's plain text of an expression (not necessarily code)."""
    if n.kind == "sym":
        return n.parts[0]
    if n.kind == "num":
        return str(n.parts[0])
    if n.kind == "fun":
        return "%s(%s)" % (n.parts[0], ", ".join(text(a) for a in n.parts[1]))
    if n.kind == "code":
        return n.parts[1]
    if n.kind == "cls":
        return n.parts[0]
    raise Giveup("text of %r" % (n,))


# ------------------------------------------------------------------ meaning
def tree(n):
    """Syntax tree the expression defines."""
    if n.kind == "sym":
        return ast.Name(n.parts[0], ast.Load())
    if n.kind == "num":
        return ast.Constant(n.parts[0])
    if n.kind == "code":
        return ast.parse(n.parts[0], mode="eval").body
    if n.kind == "fun":
        return ast.Call(ast.Name(n.parts[0], ast.Load()), [tree(a) for a in n.parts[1]], [])
    if n.kind == "der":
        f, vs = n.parts[0], n.parts[1:]
        op = ast.Name(f.parts[0], ast.Load())
        for v in vs:
            for _ in range(v.parts[1]):
                op = ast.Call(ast.Name("egrad", ast.Load()), [op, ast.Constant(f.parts[1].index(v.parts[0]))], [])
        return ast.Call(op, [tree(a) for a in f.parts[1]], [])
    if n.kind == "subs":
        e, old, new = n.parts
        m = {o.parts[0]: tree(q) for o, q in zip(old.parts, new.parts)}

        class R(ast.NodeTransformer):
            def visit_Name(self, x):
                return m.get(x.id, x)

            def visit_Call(self, x):
                x.args = [self.visit(a) for a in x.args]
                x.func = x.func if isinstance(x.func, ast.Name) else self.visit(x.func)
                return x

        t = tree(e)
        # the operator part (egrad(g, 0)) has no variables
        f = t.func
        t.func = ast.Name("OPERATOR", ast.Load())
        t = R().visit(t)
        t.func = f
        return t
    raise Giveup(n.kind)


def norm(t):
    """egrad(egrad(f, i), j) = egrad(egrad(f, j), i); a missing position is 0."""

    class R(ast.NodeTransformer):
        def visit_Call(self, x):
            self.generic_visit(x)
            if isinstance(x.func, ast.Name) and x.func.id == "egrad":
                pos, f = [], x
                while isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "egrad" and 1 <= len(f.args) <= 2:
                    p = f.args[1] if len(f.args) == 2 else (f.keywords[0].value if f.keywords else ast.Constant(0))
                    if not isinstance(p, ast.Constant):
                        return x
                    pos.append(p.value)
                    f = f.args[0]
                return ast.Call(ast.Name("EGRAD", ast.Load()), [f, ast.Constant(tuple(sorted(pos)))], [])
            return x

    return ast.dump(R().visit(t))


# ------------------------------------------------------------------ interpretation
def hook(ip, fv, args, kw, st, node, env):
    if isinstance(fv, Bound) and fv.name in ("_print", "doprint") and len(args) == 1:
        return printed(ip, args[0], st)
    if isinstance(fv, ModV):
        n = fv.name
        if n == "builtins.str" and len(args) == 1 and isinstance(args[0], Node):
            return text(args[0])
        if n in ("builtins.list", "builtins.tuple") and len(args) == 1 and isinstance(args[0], Node) and args[0].iter() is not None:
            return args[0].iter() if n.endswith("tuple") else ip.list(st, list(args[0].iter()))
        if n == "builtins.len" and len(args) == 1 and isinstance(args[0], Node) and args[0].iter() is not None:
            return Integer(len(args[0].iter()))
        if n == "builtins.isinstance" and len(args) == 2 and isinstance(args[0], Node):
            c = args[1]
            if isinstance(c, ModV) and c.name.startswith("sympy."):
                last = c.name.split(".")[-1]
                if last in ("Symbol", "Derivative", "Subs", "Function", "AppliedUndef", "Number"):
                    return {"Symbol": "sym", "Derivative": "der", "Subs": "subs", "Function": "fun", "AppliedUndef": "fun", "Number": "num"}[last] == args[0].kind
        if n == "re.escape" and isinstance(args[0], str):
            return re.escape(args[0])
        if n == "re.compile" and isinstance(args[0], str):
            return Opq("re", (args[0],))
        if n == "re.sub" and len(args) == 3:
            return resub(ip, args[0], args[1], args[2], st)
    if isinstance(fv, Bound) and isinstance(fv.v, Opq) and fv.v.op == "re" and fv.name == "sub" and len(args) == 2:
        return resub(ip, fv.v.args[0], args[0], args[1], st)
    return NotImplemented


def resub(ip, pat, rep, txt, st):
    if not isinstance(pat, str) or not isinstance(txt, str):
        raise Giveup("pattern")
    if isinstance(rep, str):
        return re.sub(pat, rep, txt)

    def f(m):
        v = ip.call(rep, [Match(m)], {}, st)
        if not isinstance(v, str):
            raise Giveup("replacement %r" % (v,))
        return v

    return re.sub(pat, f, txt)


def printed(ip, v, st):
    if isinstance(v, str):
        return v
    if alg.isexpr(v) and v.is_number:
        return str(v)
    if isinstance(v, Node):
        meth = {"sym": "_print_Symbol", "fun": "_print_Function", "der": "_print_Derivative", "subs": "_print_Subs"}.get(v.kind)
        if v.kind == "num":
            return str(v.parts[0])
        if v.kind == "code":
            return v.parts[0]
        if meth:
            return method(ip, meth, v, st)
    raise Giveup("printing of %r" % (v,))


def method(ip, name, v, st):
    m = ip.find_member(ip.pcls, name)
    if m is None:
        if name == "_print_Symbol":
            return v.parts[0]
        raise Wrong("the printer has no %s" % name)
    r = ip.call_fn(m, [ip.pself, v], {}, st)
    if isinstance(r, ai.Undef) or not isinstance(r, str):
        raise Giveup("%s gives %r" % (name, r))
    return r


def make():
    Mo = module(MOD)
    if "TfcPrinter" not in Mo.classes:
        raise AnchorLost("TfcPrinter")
    ip = ai.Interp(modules(), None, alg.Prover())
    ip.modstack = []
    ip.call_hook = hook
    st = State()
    ip.pcls = ai.ClsV("TfcPrinter", Mo)
    ip.pself = ip.obj(st, ip.pcls, {})
    ip.attr_hook = lambda ip_, o, name, st_: Bound(o, name) if o == ip.pself and name in ("_print", "doprint") else NotImplemented
    return ip, st, Mo


x, y, t, a_, e_ = (Node("sym", q) for q in ("x", "y", "t", "a", "e"))
sq = Node("code", "np.sqrt(x)", "sqrt(x)")
y1 = Node("code", "y + 1", "y + 1")


def fun(name, *args):
    return Node("fun", name, tuple(args))


def der(f, *pairs):
    return Node("der", f, *[Node("pair", v, n) for v, n in pairs])


def subs(e, *pairs):
    return Node("subs", e, Node("tup", *[p[0] for p in pairs]), Node("tup", *[p[1] for p in pairs]))


def num(n):
    return Node("num", n)


def cases():
    g, gx, ga = fun("g", x), fun("gx", x), fun("g", a_)
    gxy, gxyt = fun("g", x, y), fun("g", x, y, t)
    yield "function", "g(x)", g
    yield "function", "g(x, y)", gxy
    yield "function", "g(x, 3)", fun("g", x, num(3))
    yield "function", "g(sqrt(x))", fun("g", sq)
    for n in (1, 2, 3):
        yield "derivative", "order %d of g(x)" % n, der(g, (x, n))
    for i, j in itertools.product((0, 1, 2), repeat=2):
        ps = [p for p in ((x, i), (y, j)) if p[1]]
        if ps:
            yield "derivative", "orders %d, %d of g(x, y)" % (i, j), der(gxy, *ps)
    yield "derivative", "by y of g(x, y, t)", der(gxyt, (y, 1))
    yield "derivative", "by t, x of g(x, y, t)", der(gxyt, (t, 1), (x, 2))
    yield "derivative", "by x of g(x, 3)", der(fun("g", x, num(3)), (x, 1))
    yield "substitution", "x=2 in the derivative of g(x)", subs(der(g, (x, 1)), (x, num(2)))
    yield "substitution", "x=2 in the second derivative of g(x)", subs(der(g, (x, 2)), (x, num(2)))
    yield "substitution", "a=2 in the derivative of g(a)", subs(der(ga, (a_, 1)), (a_, num(2)))
    yield "substitution", "x=2 in the derivative of gx(x)", subs(der(gx, (x, 1)), (x, num(2)))
    yield "substitution", "x=2 in a derivative of g(x, y)", subs(der(gxy, (x, 1)), (x, num(2)))
    yield "substitution", "x=y, y=x in a derivative of g(x, y)", subs(der(gxy, (x, 1)), (x, y), (y, x))
    yield "substitution", "x=y+1 in the derivative of g(x)", subs(der(g, (x, 1)), (x, y1))
    yield "substitution", "x=2, y=3 in a derivative of g(x, y)", subs(der(gxy, (x, 1), (y, 1)), (x, num(2)), (y, num(3)))


def check(rep):
    where = module(MOD).path
    for kind, what, node in cases():
        con = "TfcPrinter %s: %s" % (kind, what)
        try:
            ip, st, Mo = make()
            s = printed(ip, node, st)
            rep.stats(ip)
            want = tree(node)
            try:
                got = ast.parse(s.strip(), mode="eval").body
            except SyntaxError:
                raise Wrong("prints %r, which is not an expression" % s)
            if norm(got) != norm(want):
                raise Wrong("prints %r" % s)
        except Wrong as e:
            rep.violation("printer", con, where, str(e))
        except (Giveup, AnchorLost) as e:
            rep.undecided("printer", con, e)
        else:
            rep.hold("printer", con)
    con = "TfcPrinter construction"
    try:
        ip, st, Mo = make()
        kf = ip.dict(st, {"sin": "math.sin", "Abs": "abs", "log": "math.log"})
        kc = ip.dict(st, {"Pi": "math.pi", "Other": "other"})
        before = {r.id: dict(st.heap[r.id].items) for r in (kf, kc)}
        st.heap[ip.pself.id].open = lambda n: {"_kf": kf, "_kc": kc}.get(n)
        ip.call_fn(ip.find_member(ip.pcls, "__init__"), [ip.pself], {}, st)
        rep.stats(ip)
        for r, nm in ((kf, "functions"), (kc, "constants")):
            if st.heap[r.id].items != before[r.id]:
                raise Wrong("making a TfcPrinter changes the table of %s that all of sympy's code printers share" % nm)
        for n, r in (("_kf", kf), ("_kc", kc)):
            v = ip.getattr(ip.pself, n, st)
            if not (isinstance(v, Ref) and v.kind == "dict"):
                raise Giveup("%s is %r" % (n, v))
            want = {k: q.replace("math.", "np.") for k, q in before[r.id].items()}
            if dict(st.heap[v.id].items) != want:
                if any(not isinstance(q, str) for q in st.heap[v.id].items.values()):
                    raise Giveup(n)
                raise Wrong("%s becomes %s" % (n, dict(st.heap[v.id].items)))
    except Wrong as e:
        rep.violation("printer", con, where, str(e))
    except (Giveup, AnchorLost) as e:
        rep.undecided("printer", con, e)
    else:
        rep.hold("printer", con)
    con = "TfcPrinter square root"
    try:
        ip, st, Mo = make()
        m = ip.find_member(ip.pcls, "_hprint_Pow")
        if m is None:
            raise Wrong("square roots are printed with math.sqrt, which takes no arrays")
        r = repr(ip.call_fn(m, [ip.pself, x], {}, st))
        if "np.sqrt" not in r:
            raise Wrong("square roots are printed with math.sqrt, which takes no arrays") if "math.sqrt" in r else Giveup("square root %s" % r)
    except Wrong as e:
        rep.violation("printer", con, where, str(e))
    except (Giveup, AnchorLost) as e:
        rep.undecided("printer", con, e)
    else:
        rep.hold("printer", con)
