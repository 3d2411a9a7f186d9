"""Set-up shared by the rules over the Python glue (solvers, dictionaries, differentiation, set-up classes).

Values are the terms of the abstract interpreter; library routines without a closed form (a user's residual,
its Jacobian, a pseudo-inverse) are uninterpreted operators applied to the *content* of their arguments, so two
terms agree exactly if they agree for every meaning of those operators that respects the content."""
import hashlib
import mpmath as mp
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import terms
from ai import Opq, Ref, State, ClsV, ModV, FnV, Giveup, Bound, IteV, Undef
from core import module, modules


class Glue:
    def __init__(self, small=8):
        self.p = alg.Prover()
        self.ip = ai.Interp(modules(), None, self.p)
        self.ip.modstack = []
        self.ip.small = small
        self.ip.call_hook = self.hook
        self.ip.undef_hook = self.undef
        self.st = State()
        self.models = {}
        self.fns = {}
        self.tags = []
        self.captured = []

    # -------------------------------------------------------------- operators
    def hook(self, ip, fv, args, kw, st, node, env):
        if isinstance(fv, Opq) and fv.op == "fn" and fv.args[0] in self.fns:
            return self.fns[fv.args[0]](ip, args, kw, st, node)
        if isinstance(fv, Opq) and fv.op == "pyfn":
            return fv.fn(ip, args, kw, st, node)
        if isinstance(fv, ModV) and fv.name in self.models:
            return self.models[fv.name](ip, args, kw, st, node)
        if isinstance(fv, FnV) and fv.mod is not None and fv.selfv is None and (fv.mod.name + "." + (fv.name or "")) in self.models and fv.mod.funcs.get(fv.name) is fv.node:
            return self.models[fv.mod.name + "." + fv.name](ip, args, kw, st, node)
        return NotImplemented

    def undef(self, name, st):
        if not st.pc:
            raise Undefined("line %s uses '%s', which" % (self.ip.line, name))

    def shape_error(self, sym, fun=None):
        """Text of the first operation met on every path whose operands cannot have these shapes at the valuation."""
        for e in self.ip.events:
            if e["kind"] == "index-error" and not e["pc"]:
                return "line %s takes element %s of a sequence that has no such element" % (e["line"], e["key"])
            if e["kind"] not in ("shape-mismatch", "shape-assume") or e["pc"] or "must" not in e:
                continue
            for x, y, ones in e["must"]:
                try:
                    a, b = (terms.ev(sp.sympify(q), sym, fun or {}) for q in (x, y))
                except terms.Unknown:
                    continue
                if a != b and not (ones and 1 in (a, b)):
                    return "line %s combines the shapes %s and %s, which do not fit (%s against %s)" % (e["line"], e["a"], e["b"], mp.nstr(a, 5), mp.nstr(b, 5))
        return None

    def fn(self, name, f):
        self.fns[name] = f
        return Opq("fn", (name,))

    def closure(self, name, f):
        """A callable value defined by the rule itself."""
        o = Opq("pyfn", (name, self.ip.new()))
        o.fn = f
        return o

    def freeze(self, v, st):
        if self.ip.isarr(v):
            a = st.heap[v.id]
            if a.dims is None:
                raise Giveup("array of unknown shape as an operand")
            return ("arr", a.dims, a.ver, st.pc)
        if isinstance(v, Ref) and v.kind == "list":
            if st.heap[v.id].tail is not None:
                raise Giveup("list operand")
            return ("seq", [self.freeze(x, st) for x in st.heap[v.id].items])
        if isinstance(v, tuple):
            return ("seq", [self.freeze(x, st) for x in v])
        if isinstance(v, Ref) and v.kind == "dict":
            return ("dict", [(k, self.freeze(x, st)) for k, x in st.heap[v.id].items.items() if not isinstance(k, tuple)])
        if isinstance(v, IteV):
            return ("ite", v.c, self.freeze(v.a, st), self.freeze(v.b, st))
        if v is None or isinstance(v, (str, bool)) or alg.isexpr(v):
            return ("val", v)
        if isinstance(v, (int, float)):
            return ("val", sp.sympify(v))
        if isinstance(v, Undef):
            raise Undefined(v.name)
        raise Giveup("operand %r" % (v,))

    def uf(self, name, args, dims, st, lib="jax", meta=None):
        """Array of the given shape holding operator `name` of the arguments."""
        tag = len(self.tags)
        self.tags.append((name, [self.freeze(a, st) for a in args], tuple(sp.sympify(d) for d in dims), meta))
        F = Function("uf_" + name)
        if not dims:
            return F(Integer(tag))
        r = self.ip.arr(st, dims, lambda idx: F(Integer(tag), *idx), name)
        st.heap[r.id].lib = lib
        return r

    def array(self, name, dims, lib="jax", integer=False):
        F = Function(("i_" if integer else "") + name)
        r = self.ip.arr(self.st, dims, lambda idx: F(*idx), name)
        self.st.heap[r.id].lib = lib
        return r

    def size(self, name, lo=1):
        s = Symbol(name, integer=True, positive=lo > 0, nonnegative=True)
        self.p.declare(s, lo)
        return s


class Undefined(Exception):
    """A name that has no value on the path is used."""


def h01(*key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return mp.mpf(int.from_bytes(d[:6], "big")) / (1 << 48) * 2 - 1


class Num:
    """Meaning of frozen values at one valuation; operators without an interpretation are arbitrary functions of
    the content of their arguments."""

    def __init__(self, g, sym, interp=None, fun=None):
        self.g = g
        self.sym = {k: mp.mpf(v) for k, v in sym.items()}
        self.interp = interp or {}
        self.cache = {}
        self.fun = dict(fun or {})
        for n, _, _, _ in g.tags:
            self.fun.setdefault("uf_" + n, self.uf)
        self.fun.setdefault("__memo__", {})
        self.base = self.fun

    def arrfun(self, name, f=None):
        self.fun[name] = f or (lambda *idx: h01(name, tuple(int(i) for i in idx)))

    def uf(self, tag, *idx):
        tag = int(tag)
        v = self.op(tag)
        idx = tuple(int(mp.nint(i)) for i in idx)
        if isinstance(v, dict):
            if idx not in v:
                raise terms.Unknown("index outside the operand")
            return v[idx]
        return v

    def op(self, tag):
        if tag not in self.cache:
            name, args, dims, meta = self.g.tags[tag]
            vals = [self.val(a) for a in args]
            shape = tuple(int(terms.ev(sp.sympify(d), self.sym, self.fun)) for d in dims)
            f = self.interp.get(name)
            if f is not None:
                self.cache[tag] = f(vals, shape, meta)
            else:
                key = (name, tuple(canon(v) for v in vals), meta if isinstance(meta, (str, int, tuple)) else None)
                self.cache[tag] = {i: h01(key, i) for i in cells(shape)} if shape else h01(key, ())
        return self.cache[tag]

    def val(self, fz):
        k = fz[0]
        if k == "arr":
            _, dims, ver, pc = fz
            shape = tuple(int(terms.ev(d, self.sym, self.fun)) for d in dims)
            r = terms.NumReader(self.sym, self.fun)
            return ("arr", shape, {i: r.elem(ver, i) for i in cells(shape)})
        if k == "seq":
            return ("seq", tuple(self.val(x) for x in fz[1]))
        if k == "dict":
            return ("dict", tuple((a, self.val(b)) for a, b in fz[1]))
        if k == "ite":
            return self.val(fz[2] if terms.evc(fz[1], self.sym, self.fun) else fz[3])
        v = fz[1]
        if v is None or isinstance(v, (str, bool)):
            return ("val", v)
        if alg.iscond(v):
            return ("val", bool(terms.evc(v, self.sym, self.fun)))
        return ("val", terms.ev(sp.sympify(v), self.sym, self.fun))


def cells(shape):
    if not shape:
        return [()]
    import itertools

    return list(itertools.product(*[range(n) for n in shape]))


def canon(v):
    if v[0] == "arr":
        return ("arr", v[1], tuple(mp.nstr(v[2][i], 15) for i in sorted(v[2])))
    if v[0] == "seq":
        return ("seq", tuple(canon(x) for x in v[1]))
    if v[0] == "dict":
        return ("dict", tuple((a, canon(b)) for a, b in v[1]))
    x = v[1]
    return ("val", mp.nstr(x, 15) if isinstance(x, (mp.mpf, mp.mpc)) else repr(x))


def same(a, b):
    """Equality of two numeric values up to rounding."""
    if a[0] != b[0]:
        return False
    if a[0] == "arr":
        return a[1] == b[1] and all(terms.close(a[2][i], b[2][i]) for i in a[2])
    if a[0] == "seq":
        return len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "dict":
        return [k for k, _ in a[1]] == [k for k, _ in b[1]] and all(same(x[1], y[1]) for x, y in zip(a[1], b[1]))
    x, y = a[1], b[1]
    if isinstance(x, (mp.mpf, mp.mpc)) and isinstance(y, (mp.mpf, mp.mpc)):
        return terms.close(x, y)
    return x == y


def show(v):
    if v[0] == "arr":
        return "array%s[%s]" % (v[1], ", ".join(mp.nstr(v[2][i], 5) for i in sorted(v[2])[:6]))
    if v[0] == "seq":
        return "(" + ", ".join(show(x) for x in v[1]) + ")"
    if v[0] == "dict":
        return "{" + ", ".join("%s: %s" % (k, show(x)) for k, x in v[1]) + "}"
    return mp.nstr(v[1], 6) if isinstance(v[1], (mp.mpf, mp.mpc)) else repr(v[1])


def matrix(v):
    r, c = v[1]
    return mp.matrix([[v[2][(i, j)] for j in range(c)] for i in range(r)])


def pinv_num(A):
    """Moore-Penrose inverse of a full-rank matrix."""
    if A.rows >= A.cols:
        return mp.inverse(A.T * A) * A.T
    return A.T * mp.inverse(A * A.T)


def pinv_op(vals, shape, meta):
    P = pinv_num(matrix(vals[0]))
    return {(i, j): P[i, j] for i in range(P.rows) for j in range(P.cols)}


def lstsq_op(vals, shape, meta):
    A = matrix(vals[0])
    P = pinv_num(A)
    b = vals[1]
    if len(b[1]) == 1:
        x = P * mp.matrix([b[2][(i,)] for i in range(b[1][0])])
        return {(i,): x[i] for i in range(P.rows)}
    x = P * matrix(b)
    return {(i, j): x[i, j] for i in range(x.rows) for j in range(x.cols)}
