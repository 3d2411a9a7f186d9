"""utfc, HybridUtfc and mtfc: accessors, automatic differentiation, abstract evaluation, lowering and batching.

The basis object is an operator BFH(points, order, full) (its value is decided by the rules on BF_Py.py and BF.cc);
JAX's Primitive, its rule tables and the MLIR builders are modelled as records of what they are given."""
import ast
import mpmath as mp
import sympy as sp
from sympy import S, Symbol, Integer, Function
import ai
import alg
import terms
import glue
from ai import Opq, Ref, ClsV, ModV, FnV, Giveup, Bound, DEAD, IteV
from core import module, modules, parallel, AnchorLost
from glue import Glue, Undefined, same, show, cells
from solver import Wrong

DOM = {"CP": (-1, 1), "LeP": (-1, 1), "FS": (-sp.pi, sp.pi)}
ELMS = ("ELMTanh", "ELMSigmoid", "ELMSin", "ELMSwish", "ELMReLU")
BASES = ("CP", "LeP", "FS") + ELMS


def dom(b):
    return DOM.get(b, (0, 1))


class Num(glue.Num):
    def __init__(self, g, sym, fun=None):
        glue.Num.__init__(self, g, sym, {"BFH": bfh}, fun)

    def arrays(self, *names):
        for n in names:
            self.arrfun(n)
        return self


def flat(v):
    if v[0] == "arr":
        return tuple(mp.nstr(v[2][i], 15) for i in sorted(v[2]))
    return glue.canon(v)


def bfh(vals, shape, meta):
    """The basis object looks at the values of the points, the order and the flag."""
    d = vals[1]
    if d[0] == "seq":
        d = tuple(int(mp.nint(x[1])) for x in d[1])
    elif d[0] == "arr":
        d = tuple(int(mp.nint(d[2][i])) for i in sorted(d[2]))
    else:
        d = int(mp.nint(d[1]))
    key = (flat(vals[0]), d, bool(vals[2][1]), meta)
    return {i: glue.h01("BFH", key, i) for i in cells(shape)}


def pyattrs(cls):
    """Names an instance of a class of BF_Py has: members and attributes assigned in the methods, over the bases."""
    M = module("tfc.utils.BF_Py")
    out, todo, seen = set(), [cls], set()
    while todo:
        c = todo.pop()
        if c in seen or c not in M.classes:
            continue
        seen.add(c)
        node = M.classes[c]
        node = getattr(node, "node", node)
        for b in node.bases:
            if isinstance(b, ast.Name):
                todo.append(b.id)
            elif isinstance(b, ast.Attribute):
                todo.append(b.attr)
        for s in ast.walk(node):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.add(s.name)
            elif isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name) and s.value.id == "self":
                out.add(s.attr)
            elif isinstance(s, ast.Assign):
                out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == "setattr":
                return None
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out.add(s.target.id)
        if "__getattr__" in out:
            return None
    return out


class World(Glue):
    """Abstract JAX around a set-up class."""

    def __init__(self, small=8):
        Glue.__init__(self, small)
        self.bfs = []  # (class, args)
        self.objs = []
        self.prims = []
        self.ffi = []
        self.low = []
        self.tracers = set()
        self.calls = []
        self.ip.attr_hook = self.attr
        self.dims1 = {}

    def hook(self, ip, fv, args, kw, st, node, env):
        r = self.jax(ip, fv, args, kw, st, node)
        if r is not NotImplemented:
            return r
        return Glue.hook(self, ip, fv, args, kw, st, node, env)

    # ------------------------------------------------------------ attributes
    def attr(self, ip, o, name, st):
        if isinstance(o, Opq) and o.op == "bfobj":
            k, = o.args
            cls, backend, args = self.bfs[k]
            if backend == "Python":
                have = pyattrs(cls)
                if have is not None and name not in have:
                    raise Wrong("line %s reads %s of the pure-Python %s, which has no such attribute" % (ip.line, name, cls))
            nd = cls.startswith("n")
            if name == "m":
                return Symbol("m%d" % k, integer=True, positive=True) if nd else self.full(k)
            if name == "numC":
                return self.removed(k)
            if name == "numBasisFuncFull" and nd:
                return self.full(k)
            if name == "numBasisFunc" and nd:
                return sp.expand(self.full(k) - self.removed(k))
            if name == "identifier":
                return Symbol("ident%d" % k, integer=True, nonnegative=True)
            if name == "xlaCapsule":
                return Opq("capsule", (k,))
            if name == "c":
                return self.cval(k, st)
            return Bound(o, name)
        if ip.isarr(o) and name == "dtype" and st.heap[o.id].dtype is None:
            return ModV("np.float64")
        if isinstance(o, Opq) and o.op == "irval":
            return Opq("irtype", o.args) if name == "type" else NotImplemented
        if isinstance(o, Opq) and o.op in ("irtype", "ranked"):
            if name == "shape":
                return self.ip.list(st, list(self.irshape(o)))
            if name == "element_type":
                return Opq("elt", ())
        if isinstance(o, Opq) and o.op == "concatop":
            if name == "result":
                return Opq("concat", o.args)
            if name == "results":
                return self.ip.list(st, [Opq("concat", o.args)])
        if isinstance(o, Opq) and o.op == "customcall" and name in ("results",):
            return Opq("ccresults", o.args)
        if isinstance(o, Opq) and o.op == "customcall" and name == "result":
            return Opq("ccresult", o.args)
        if isinstance(o, Opq) and o.op == "aval":
            if name == "shape":
                return o.args[0]
            if name == "dtype":
                return Opq("dtype_in", ())
            if name == "ndim":
                return Integer(len(o.args[0]))
        return NotImplemented

    def irshape(self, o):
        return self.ir_dims

    def full(self, k):
        s = Symbol("M%d" % k, integer=True, positive=True)
        if s not in self.p.bounds:
            self.p.declare(s, 2)
        return s

    def removed(self, k):
        s = Symbol("nc%d" % k, integer=True, nonnegative=True)
        if s not in self.p.bounds:
            self.p.declare(s, 0, self.full(k) - 1)
        return s

    def cval(self, k, st):
        cls, backend, args = self.bfs[k]
        z0, zf = dom(cls.lstrip("n"))
        x0, xf = args[0], args[1]
        if self.ip.isarr(x0):
            a, b = (self.ip.dims(st, q)[0] for q in (x0, xf))
            r = self.ip.arr(st, (a,), lambda i: (zf - z0) / (self.ip.elem(st, xf, i) - self.ip.elem(st, x0, i)), "c")
            st.heap[r.id].lib = "numpy"
            return r
        if not (alg.isexpr(x0) and alg.isexpr(xf)):
            raise Giveup("end points %r %r" % (x0, xf))
        return sp.sympify(zf - z0) / (xf - x0)

    # ------------------------------------------------------------ calls
    def jax(self, ip, fv, args, kw, st, node):
        if isinstance(fv, ModV) and fv.name.startswith("tfc.utils.BF.") and fv.name.count(".") == 3:
            return self.make(fv.name.split(".")[-1], "C++", args, kw)
        if isinstance(fv, ClsV) and fv.mod is not None and fv.mod.name == "tfc.utils.BF_Py":
            return self.make(fv.name, "Python", args, kw)
        if isinstance(fv, Bound) and isinstance(fv.v, Opq):
            o, n = fv.v, fv.name
            if o.op == "bfobj":
                if n == "H":
                    return self.bfH(o.args[0], args, kw, st)
                raise Giveup("method %s of the basis object" % n)
            if o.op == "prim":
                P = self.prims[o.args[0]]
                if n == "bind":
                    return self.bind(P, args, kw, st, node)
                if n in ("def_impl", "def_abstract_eval"):
                    P[n] = args[0]
                    return args[0]
                if n == "def_shape_rule" or n.startswith("def"):
                    raise Giveup("primitive rule %s" % n)
        if isinstance(fv, ModV):
            n = fv.name
            t = n.split(".")[-1]
            if t == "Primitive" and n.startswith("jax"):
                self.prims.append({"name": args[0]})
                return Opq("prim", (len(self.prims) - 1,))
            if t == "register_ffi_target":
                self.ffi.append((list(args), dict(kw)))
                return None
            if t == "register_lowering":
                self.low.append((list(args), dict(kw)))
                return None
            if n.endswith("RankedTensorType.get"):
                a = list(args)
                sh = a[0] if a else kw.get("shape")
                el = a[1] if len(a) > 1 else kw.get("element_type")
                return Opq("rtt", (tuple(ip.items(sh, st) or ()), el))
            if t == "RankedTensorType":
                return Opq("ranked", (args[0],))
            if t == "ir_constant":
                return Opq("irconst", (args[0],))
            if t in ("custom_call", "CustomCallOp"):
                kw = dict(kw)
                if args:
                    kw["call_target_name"] = args[0]
                self.calls.append((kw, st))
                return Opq("customcall", (len(self.calls) - 1,))
            if t == "ConcatenateOp":
                its = ip.items(args[0], st)
                d = args[1] if len(args) > 1 else kw.get("dimension")
                return Opq("concatop", (tuple(its) if its is not None else args[0], d))
            if t == "ShapedArray":
                return Opq("aval", (tuple(ip.items(args[0], st) or ()), args[1] if len(args) > 1 else kw.get("dtype")))
            if n == "builtins.isinstance":
                ks = list(args[1]) if isinstance(args[1], tuple) else [args[1]]
                tr = [k for k in ks if isinstance(k, ModV) and k.name.endswith(".Tracer")]
                if tr:
                    if args[0] in self.tracers:
                        return True
                    rest = tuple(k for k in ks if k not in tr)
                    if not rest:
                        return False
                    return ip.call(fv, [args[0], rest], {}, st)
                if isinstance(args[0], Opq) and args[0].op == "adzero" or any(isinstance(k, ModV) and k.name.endswith("ad.Zero") for k in ks):
                    if all(isinstance(k, ModV) for k in ks):
                        z = isinstance(args[0], Opq) and args[0].op == "adzero"
                        rest = tuple(k for k in ks if not k.name.endswith("ad.Zero"))
                        if z:
                            return len(rest) < len(ks)
                        return ip.call(fv, [args[0], rest], {}, st) if rest else False
            if n == "builtins.type" and isinstance(args[0], Opq) and args[0].op == "adzero":
                return ModV("jax.interpreters.ad.Zero")
            if t in ("int32", "int64", "bool", "bool_", "uint32", "int8") and n.startswith("np.") and args and self.typing:
                return Opq("typed", (t, args[0]))
            if self.typing and n in ("np.array", "np.asarray") and (kw.get("dtype") is not None or len(args) > 1):
                dt = kw.get("dtype", args[1] if len(args) > 1 else None)
                return Opq("typed", (getattr(dt, "name", str(dt)).split(".")[-1], args[0]))
        return NotImplemented

    typing = False

    def make(self, cls, backend, args, kw):
        if kw:
            raise Giveup("basis object built with keywords")
        self.bfs.append((cls, backend, list(args)))
        return Opq("bfobj", (len(self.bfs) - 1,))

    def bfH(self, k, args, kw, st):
        cls, backend, _ = self.bfs[k]
        a = list(args)
        x = a[0] if a else kw.get("x")
        d = a[1] if len(a) > 1 else kw.get("d", Integer(0))
        full = a[2] if len(a) > 2 else kw.get("full", False)
        return self.basis(k, x, d, full, st)

    def basis(self, k, x, d, full, st):
        ip = self.ip
        if not ip.isarr(x):
            raise Giveup("points %r" % (x,))
        dims = ip.dims(st, x)
        cls = self.bfs[k][0]
        n = dims[-1] if cls.startswith("n") else dims[0]
        if full is True or full is False:
            w = self.full(k) if full else sp.expand(self.full(k) - self.removed(k))
        else:
            raise Giveup("full flag %r" % (full,))
        self.pcs.append(st.pc)
        return self.uf("BFH", [x, d, full], (n, w), st, meta=k)

    pcs = []

    def bind(self, P, args, kw, st, node):
        f = P.get("def_impl")
        if f is None:
            raise Wrong("the primitive has no implementation")
        return self.ip.call(f, list(args), dict(kw), st)

    def table(self, name, prim):
        """Function stored under the primitive in one of JAX's rule tables."""
        out = None
        for e in self.ip.events:
            if e["kind"] == "setitem" and isinstance(e["target"], ModV) and e["target"].name.endswith("." + name) and ai.veq(e["key"], prim):
                out = e["value"]
        return out


def exits(g, sym, fun):
    """Line at which the program is ended at this valuation, if any."""
    for e in g.ip.events:
        if e["kind"] in ("exit", "raise"):
            try:
                if all(terms.evc(c, sym, fun) for c in e["pc"]):
                    return e["line"]
            except terms.Unknown:
                continue
    return None


UT, MT = "tfc.utfc", "tfc.mtfc"


def guard(rep, g, rule, con, where, body):
    """Run one obligation and file its outcome."""
    try:
        try:
            body()
        finally:
            rep.stats(g.ip)
        for sym, fun in list(getattr(g, "vals", [])):
            m = g.shape_error(sym, fun)
            if m:
                raise Wrong(m)
    except Wrong as e:
        rep.violation(rule, con, where, str(e))
    except Undefined as e:
        rep.violation(rule, con, where, "%s has no value there" % e)
    except (Giveup, terms.Unknown) as e:
        for sym, fun in list(getattr(g, "vals", [])):
            m = g.shape_error(sym, fun)
            if m:
                rep.violation(rule, con, where, m)
                return
        rep.undecided(rule, con, e)
    else:
        rep.hold(rule, con)


def real(name):
    return Symbol(name, real=True, integer=False)


def build_u(g, basis, backend, tag=""):
    ip, st = g.ip, g.st
    M = module(UT)
    if "utfc" not in M.classes:
        raise AnchorLost("utfc")
    N = g.N
    o = ip.construct(ClsV("utfc", M), [N, g.array("nC" + tag, (g.size("k" + tag),), "numpy", integer=True), g.size("deg" + tag)], dict(basis=basis, x0=real("x0" + tag), xf=real("xf" + tag), backend=backend), st, None)
    if not isinstance(o, Ref):
        raise Giveup("construction gives %r" % (o,))
    return o


def build_m(g, basis, backend, dim):
    ip, st = g.ip, g.st
    M = module(MT)
    if "mtfc" not in M.classes:
        raise AnchorLost("mtfc")
    n = ip.list(st, [Integer(2)] * dim)
    x0 = ip.list(st, [sp.Rational(1, 3)] * dim)
    xf = ip.list(st, [sp.Rational(7, 3)] * dim)
    nC = Integer(1) if basis.startswith("ELM") else ip.list(st, [Integer(1)] * dim)
    o = ip.construct(ClsV("mtfc", M), [n, nC, Integer(5)], dict(dim=Integer(dim), basis=basis, x0=x0, xf=xf, backend=backend), st, None)
    if not isinstance(o, Ref):
        raise Giveup("construction gives %r" % (o,))
    return o


def clean(g):
    """Forget the conditions under which the constructor completes."""
    g.st.pc = ()
    g.pcs = []


def methods(cls_node):
    return {s.name: s for s in cls_node.body if isinstance(s, ast.FunctionDef)}


def classnode(M, name):
    c = M.classes[name]
    return getattr(c, "node", c)


def order1(name):
    """H -> 0, dH -> 1, d2H -> 2 ..."""
    import re

    m = re.fullmatch(r"(?:d(\d*))?H", name)
    if not m:
        return None
    return 0 if m.group(0) == "H" else int(m.group(1) or 1)


def ordern(name, dim):
    import re

    m = re.fullmatch(r"H((?:[xyz]\d*)*)", name)
    if not m:
        return None
    d = [0] * dim
    for v, p in re.findall(r"([xyz])(\d*)", m.group(1)):
        k = "xyz".index(v)
        if k >= dim:
            return None
        d[k] += int(p or 1)
    return tuple(d)


def agree(g, got, want, what, arrays, sizes, st=None):
    """The two values agree at every valuation tried."""
    st = st or g.st
    fg, fw = g.freeze(got, st), g.freeze(want, st)
    for sym, fun in valu(g, arrays, sizes):
        N = Num(g, sym, fun)
        a, b = N.val(fg), N.val(fw)
        if not same(a, b):
            raise Wrong("%s: %s instead of %s" % (what, show(a), show(b)))


def valu(g, arrays, sizes):
    """Sizes and contents; the second content of each array has zeros in it."""
    out = []
    sizes = list(sizes)
    if len(sizes) == 2:
        sizes += sizes
    more = [{**sizes[0], s: v} for s in g.p.bounds if isinstance(s, Symbol) and s.name[:1] == "d" and s.name[1:].isdigit() + (s.name == "d") for v in (0, 9, 21)]
    for s in list(g.p.bounds):
        if isinstance(s, Symbol) and s.name[:1] in "dNk" and s in alg.SEEN:
            more += [{**sizes[0], s: v} for v in alg.near(s, 1 if s.name[:1] == "N" else 0, 40)]
    for i, sz in enumerate(list(sizes) + more[:24]):
        sym = {k: mp.mpf(v) for k, v in sz.items()}
        for s in g.p.bounds:
            if isinstance(s, Symbol) and s not in sym:
                nm = s.name
                sym[s] = mp.mpf(4 if nm.startswith("M") else 1 if nm.startswith("nc") else 3 if nm[:1] == "N" else 2)
        for s in ("x0", "xf"):
            sym[real(s)] = mp.mpf({"x0": "0.3", "xf": "1.9"}[s])
        fun = {}
        for a in arrays:
            if a.startswith("i_"):
                fun[a] = lambda *idx: mp.mpf(int(mp.nint(idx[0])))
            elif i == 2:
                fun[a] = lambda *idx, a=a: -abs(glue.h01("in", a, tuple(int(mp.nint(q)) for q in idx))) - mp.mpf("0.01")
            elif i == 3:  # one element differs from zero
                fun[a] = lambda *idx, a=a: mp.mpf(int(mp.nint(idx[0])) == 1)
            elif i % 2:
                fun[a] = lambda *idx, a=a: mp.mpf(0) if int(mp.nint(idx[0])) % 2 else glue.h01("in", a, tuple(int(mp.nint(q)) for q in idx))
            else:
                fun[a] = lambda *idx, a=a: glue.h01("in", a, tuple(int(mp.nint(q)) for q in idx))
        out.append((sym, fun))
    g.vals = out
    return out


def world(small=8):
    g = World(small)
    g.N = g.size("N", 2)
    g.n = g.size("Np", 1)
    g.pcs = []
    return g


def where_of(M, cls, meth=None):
    c = classnode(M, cls)
    n = methods(c).get(meth) if meth else None
    return "%s:%d %s%s" % (M.path, (n or c).lineno, cls, "." + meth if meth else "")


SZ = lambda g: [{g.n: 3}, {g.n: 4}]  # noqa: E731


def points(g, cols, name="x"):
    return g.array(name, (g.n, Integer(1)) if cols else (g.n,), "jax")


def accessor_u(rep, cls, name, backend, basis, cols, full):
    M = module(UT)
    d = order1(name)
    con = "%s.%s, %s %s, points %s%s" % (cls, name, basis, backend, "as a column" if cols else "as a vector", ", full" if full else "")
    g = world()
    ip, st = g.ip, g.st

    def body():
        if cls == "utfc":
            o = build_u(g, basis, backend)
        else:
            o1 = build_u(g, basis, backend)
            o2 = build_u(g, "LeP", backend, "b")
            clean(g)
            o = ip.construct(ClsV(cls, M), [ip.list(st, [o1, o2])], {}, st, None)
        clean(g)
        x = points(g, cols)
        r = ip.call(ip.getattr(o, name, st), [x], {"full": True} if full else {}, st)
        if cls == "utfc":
            agree(g, r, g.basis(0, x, Integer(d), full, st), "the value", ["x", "i_nC"], SZ(g))
        else:
            a, b = g.basis(0, x, Integer(d), full, st), g.basis(1, x, Integer(d), full, st)
            wa, wb = (ip.dims(st, q)[1] for q in (a, b))
            j = Symbol("j", integer=True)
            want = ip.arr(st, (g.n, wa + wb), lambda i: alg.ite(alg.cmp("<", i[1], wa), ip.elem(st, a, (i[0], i[1])), ip.elem(st, b, (i[0], i[1] - wa))), "want")
            agree(g, r, want, "the value", ["x", "i_nC", "i_nCb"], SZ(g))

    guard(rep, g, "accessor", con, where_of(M, cls, name), body)


def accessor_m(rep, name, backend, basis, dim, full):
    M = module(MT)
    d = ordern(name, dim)
    con = "mtfc.%s, %d inputs, %s %s%s" % (name, dim, basis, backend, ", full" if full else "")
    g = world()
    ip, st = g.ip, g.st

    def body():
        o = build_m(g, basis, backend, dim)
        clean(g)
        xs = [points(g, False, "x%d" % k) for k in range(dim)]
        r = ip.call(ip.getattr(o, name, st), xs, {"full": True} if full else {}, st)
        agree(g, r, g.basis(0, stack(g, xs), tuple(Integer(q) for q in d), full, st), "the value", ["x%d" % k for k in range(dim)], SZ(g))

    guard(rep, g, "accessor", con, where_of(M, "mtfc", name), body)


def stack(g, xs):
    ip, st = g.ip, g.st

    def f(i):
        r = ip.elem(st, xs[-1], (i[1],))
        for k in range(len(xs) - 2, -1, -1):
            r = alg.ite(alg.cmp("==", i[0], Integer(k)), ip.elem(st, xs[k], (i[1],)), r)
        return r

    r = ip.arr(st, (Integer(len(xs)), g.n), f, "stack")
    st.heap[r.id].lib = "jax"
    return r


KIND = {"a": "array", "z": "array of zeros", "Z": "symbolic zero", "t": "traced"}


def tangent(g, kind, cols, name):
    if kind == "Z":
        return Opq("adzero", (name,))
    if kind == "z":
        r = g.ip.arr(g.st, (g.n, Integer(1)) if cols else (g.n,), lambda i: S.Zero, name)
        g.st.heap[r.id].lib = "jax"
        return r
    r = points(g, cols, name)
    if kind == "t":
        g.tracers.add(r)
    return r


def traced_branch(g, names):
    """A branch was taken on the value of something that is only known when the compiled program runs."""
    fs = {Function(n) for n in names}
    for pc in g.pcs:
        for c in pc:
            if isinstance(c, sp.Basic) and any(a.func in fs for a in c.atoms(sp.core.function.AppliedUndef)):
                raise Wrong("a branch depends on the value of a traced tangent")


def jvp_u(rep, backend, basis, cols, kind, full):
    M = module(UT)
    con = "utfc derivative rule, %s %s, points %s, tangent %s%s" % (basis, backend, "as a column" if cols else "as a vector", KIND[kind], ", full" if full else "")
    g = world()
    ip, st = g.ip, g.st

    def body():
        build_u(g, basis, backend)
        clean(g)
        d = Symbol("d", integer=True, nonnegative=True)
        g.p.declare(d, 0)
        f = g.table("primitive_jvps", Opq("prim", (0,)))
        if f is None:
            raise Wrong("the primitive has no derivative rule")
        x, dx = points(g, cols), tangent(g, kind, cols, "dx")
        r = ip.call(f, [(x,), (dx,)], {"d": d, "full": full}, st)
        r = ip.items(r, st)
        if r is None or len(r) != 2:
            raise Giveup("derivative rule gives %r" % (r,))
        if kind == "t":
            traced_branch(g, ["dx"])
        agree(g, r[0], g.basis(0, x, d, full, st), "the value", ["x", "dx", "i_nC"], SZ(g))
        h = g.basis(0, x, d + 1, full, st)
        want = ip.arr(st, ip.dims(st, h), lambda i: ip.elem(st, h, i) * (S.Zero if kind in "zZ" else ip.elem(st, dx, (i[0], S.Zero) if cols else (i[0],))), "want")
        agree(g, r[1], want, "the tangent", ["x", "dx", "i_nC"], SZ(g))

    guard(rep, g, "derivative-rule", con, where_of(M, "utfc", "_SetupJax"), body)


def jvp_m(rep, backend, basis, kinds, full):
    M = module(MT)
    dim = len(kinds)
    con = "mtfc derivative rule, %s %s, tangents %s%s" % (basis, backend, ", ".join(KIND[k] for k in kinds), ", full" if full else "")
    g = world()
    ip, st = g.ip, g.st

    def body():
        build_m(g, basis, backend, dim)
        clean(g)
        d = tuple(Symbol("d%d" % k, integer=True, nonnegative=True) for k in range(dim))
        for s in d:
            g.p.declare(s, 0)
        f = g.table("primitive_jvps", Opq("prim", (0,)))
        if f is None:
            raise Wrong("the primitive has no derivative rule")
        xs = [points(g, False, "x%d" % k) for k in range(dim)]
        dx = [tangent(g, kinds[k], False, "dx%d" % k) for k in range(dim)]
        r = ip.call(f, [tuple(xs), tuple(dx)], {"d": d, "full": full}, st)
        r = ip.items(r, st)
        if r is None or len(r) != 2:
            raise Giveup("derivative rule gives %r" % (r,))
        traced_branch(g, ["dx%d" % k for k in range(dim) if kinds[k] == "t"])
        names = ["x%d" % k for k in range(dim)] + ["dx%d" % k for k in range(dim)]
        X = stack(g, xs)
        sizes = [{g.n: 3, **{s: k + 1 for k, s in enumerate(d)}}, {g.n: 4, **{s: dim - k for k, s in enumerate(d)}}]
        agree(g, r[0], g.basis(0, X, d, full, st), "the value", names, sizes)
        hs = [(g.basis(0, X, tuple(d[j] + (1 if j == k else 0) for j in range(dim)), full, st), k) for k in range(dim) if kinds[k] in "at"]
        w = ip.dims(st, g.basis(0, X, d, full, st))
        want = ip.arr(st, w, lambda i: sum((ip.elem(st, h, i) * ip.elem(st, dx[k], (i[0],)) for h, k in hs), S.Zero), "want")
        agree(g, r[1], want, "the tangent", names, sizes)

    guard(rep, g, "derivative-rule", con, where_of(M, "mtfc", "SetupJAX"), body)


def abstract(rep, cls, backend, basis, rank, full, dim=1):
    M = module(UT if cls == "utfc" else MT)
    con = "%s result shape, %s %s, %s%s%s" % (cls, basis, backend, {0: "scalar points", 1: "vector of points", 2: "column of points"}[rank], ", %d inputs" % dim if cls == "mtfc" else "", ", full" if full else "")
    g = world()
    ip, st = g.ip, g.st

    def body():
        if cls == "utfc":
            build_u(g, basis, backend)
        else:
            build_m(g, basis, backend, dim)
        clean(g)
        f = g.prims[0].get("def_abstract_eval") if g.prims else None
        if f is None:
            raise Wrong("the primitive has no abstract evaluation")
        av = Opq("aval", ((), (g.n,), (g.n, Integer(1)))[rank : rank + 1])
        r = ip.call(f, [av] * dim, {"d": Integer(1) if cls == "utfc" else (Integer(1),) * dim, "full": full}, st)
        if not (isinstance(r, Opq) and r.op == "aval"):
            raise Giveup("abstract evaluation gives %r" % (r,))
        w = g.full(0) if full else sp.expand(g.full(0) - g.removed(0))
        want = (w,) if rank == 0 else (g.n, w)
        if len(r.args[0]) != len(want) or any(not alg.isexpr(a) or sp.expand(a - b) != 0 for a, b in zip(r.args[0], want)):
            if all(alg.isexpr(a) for a in r.args[0]):
                raise Wrong("the shape is announced as %s while the values have shape %s" % (r.args[0], want))
            raise Giveup("shape %r" % (r.args[0],))
        dt = r.args[1]
        if not ai.veq(dt, Opq("dtype_in", ())):
            if isinstance(dt, ModV) and dt.name in ("np.float32", "np.int32", "np.int64", "np.complex128", "np.float16", "np.bool_", "np.bool"):
                raise Wrong("the element type is announced as %s" % dt.name)
            if not (isinstance(dt, ModV) and dt.name in ("np.float64", "np.double", "builtins.float")):
                raise Giveup("element type %r" % (dt,))

    guard(rep, g, "result-shape", con, where_of(M, cls, "_SetupJax" if cls == "utfc" else "SetupJAX"), body)


def batch(rep, cls, backend, full, dim=1):
    M = module(UT if cls == "utfc" else MT)
    con = "%s batching rule, %s%s%s" % (cls, backend, ", %d inputs" % dim if cls == "mtfc" else "", ", full" if full else "")
    g = world()
    ip, st = g.ip, g.st

    def body():
        if cls == "utfc":
            build_u(g, "CP", backend)
        else:
            build_m(g, "CP", backend, dim)
        clean(g)
        f = g.table("primitive_batchers", Opq("prim", (0,)))
        if f is None:
            raise Wrong("the primitive has no batching rule")
        xs = [points(g, False, "x%d" % k) for k in range(dim)]
        d = tuple(Integer(k + 1) for k in range(dim)) if cls == "mtfc" else Integer(3)
        r = ip.items(ip.call(f, [tuple(xs), (Integer(0),) * dim], {"d": d, "full": full}, st), st)
        if r is None or len(r) != 2:
            raise Giveup("batching rule gives %r" % (r,))
        agree(g, r[0], g.basis(0, stack(g, xs) if cls == "mtfc" else xs[0], d, full, st), "the value", ["x%d" % k for k in range(dim)] + ["i_nC"], SZ(g))
        b = ip.items(r[1], st) if not alg.isexpr(r[1]) else [r[1]]
        if b is None or len(b) != 1 or not alg.isexpr(b[0]):
            raise Giveup("batch axis %r" % (r[1],))
        if b[0] != 0:
            raise Wrong("the batch axis of the result is said to be %s" % b[0])

    guard(rep, g, "batching-rule", con, where_of(M, cls, "_SetupJax" if cls == "utfc" else "SetupJAX"), body)


def check_u(rep):
    M = module(UT)
    jobs = []
    for cls in ("utfc", "HybridUtfc"):
        if cls not in M.classes:
            raise AnchorLost(cls)
        for name in methods(classnode(M, cls)):
            if order1(name) is None:
                continue
            for full in (False, True):
                for cols in (False, True):
                    jobs.append((accessor_u, (cls, name, "C++", "CP", cols, full)))
                jobs.append((accessor_u, (cls, name, "Python", "ELMTanh", False, full)))
    for backend in ("C++", "Python"):
        for basis in ("CP", "ELMSin"):
            for full in (False, True):
                for cols in (False, True):
                    for kind in KIND:
                        jobs.append((jvp_u, (backend, basis, cols, kind, full)))
                for rank in (0, 1, 2):
                    jobs.append((abstract, ("utfc", backend, basis, rank, full)))
        for full in (False, True):
            jobs.append((batch, ("utfc", backend, full)))
    parallel(rep, jobs, native=False)


def check_m(rep):
    import itertools

    M = module(MT)
    if "mtfc" not in M.classes:
        raise AnchorLost("mtfc")
    jobs = []
    for dim in (1, 2, 3):
        for name in methods(classnode(M, "mtfc")):
            if ordern(name, dim) is None:
                continue
            for full in (False, True):
                jobs.append((accessor_m, (name, "C++", "CP", dim, full)))
                jobs.append((accessor_m, (name, "Python", "ELMTanh", dim, full)))
        for kinds in itertools.product(KIND, repeat=dim):
            if dim == 3 and len(set(kinds)) == 2 and kinds[0] != "t":
                continue
            for full in (False, True):
                jobs.append((jvp_m, ("C++", "CP", kinds, full)))
                if dim == 2:
                    jobs.append((jvp_m, ("Python", "ELMSin", kinds, full)))
        for full in (False, True):
            for backend in ("C++", "Python"):
                for rank in (0, 1):
                    jobs.append((abstract, ("mtfc", backend, "CP", rank, full, dim)))
                jobs.append((batch, ("mtfc", backend, full, dim)))
    parallel(rep, jobs, native=False)


# ---------------------------------------------------------------- compiled calls
def untyped(v):
    """(type name or None, value) of a constant operand."""
    if isinstance(v, Opq) and v.op == "irconst":
        v = v.args[0]
        if isinstance(v, Opq) and v.op == "typed":
            t, w = v.args
            while isinstance(w, Opq) and w.op == "typed":
                w = w.args[1]
            return t, w
        return None, v
    raise Giveup("operand %r" % (v,))


def lowering(rep, cls, rank, full, dim=1):
    M = module(UT if cls == "utfc" else MT)
    con = "%s compiled call%s%s%s" % (cls, ", points as a column" if rank == 2 else "", ", %d inputs" % dim if cls == "mtfc" else "", ", full" if full else "")
    g = world()
    ip, st = g.ip, g.st

    def body():
        other = None
        if cls == "utfc":
            build_u(g, "CP", "C++")
        else:
            build_m(g, "CP", "C++", dim)
        clean(g)
        low = [l for l in g.low if ai.veq(l[0][0], Opq("prim", (0,)))]
        if not low:
            raise Wrong("no lowering is registered for the primitive")
        f = low[-1][0][1]
        if not g.ffi:
            raise Wrong("the compiled routine is not registered")
        fargs, fkw = g.ffi[-1]
        name = fargs[0]
        cap = fargs[1] if len(fargs) > 1 else fkw.get("fn")
        if not ai.veq(cap, Opq("capsule", (0,))):
            raise Wrong("another object's routine is registered: %r" % (cap,))
        ident = Symbol("ident0", integer=True, nonnegative=True)
        if ident not in symbols(name):
            raise Wrong("the registered name %r does not tell the objects apart" % (name,))
        g.ir_dims = (g.n,) if rank == 1 else (g.n, Integer(1))
        g.typing = True
        xs = [Opq("irval", (k,)) for k in range(dim)]
        d = Symbol("d", integer=True, nonnegative=True) if cls == "utfc" else tuple(Symbol("d%d" % k, integer=True, nonnegative=True) for k in range(dim))
        g.calls = []
        r = ip.call(f, [Opq("ctx", ())] + xs, {"d": d, "full": full}, st)
        if len(g.calls) != 1:
            raise Giveup("%d custom calls" % len(g.calls))
        kw, cst = g.calls[0]
        if not (isinstance(r, Opq) and r.op == "ccresults") and not (ip.items(r, st) is not None and len(ip.items(r, st)) == 1):
            raise Giveup("lowering gives %r" % (r,))
        if not ai.veq(kw.get("call_target_name"), name):
            raise Wrong("the call target %r is not the registered name %r" % (kw.get("call_target_name"), name))
        w = g.full(0) if full else sp.expand(g.full(0) - g.removed(0))
        rts = ip.items(kw.get("result_types"), cst)
        if rts is None or len(rts) != 1 or not (isinstance(rts[0], Opq) and rts[0].op == "rtt"):
            raise Giveup("result types %r" % (kw.get("result_types"),))
        shp = rts[0].args[0]
        if len(shp) != 2 or not all(alg.isexpr(q) for q in shp):
            raise Wrong("the result has %d dimensions" % len(shp)) if len(shp) != 2 else Giveup("result shape")
        if sp.expand(shp[0] - g.n) != 0 or sp.expand(shp[1] - w) != 0:
            raise Wrong("the result is declared as %s x %s instead of %s x %s" % (shp + (g.n, w)))
        if not ai.veq(rts[0].args[1], Opq("elt", ())):
            raise Giveup("result element type")
        ops = ip.items(kw.get("operands"), cst)
        if ops is None:
            raise Giveup("operands")
        ints = ("int32", "int64", "uint32")
        want = [("the identifier", ident), ("the points", None), ("the derivative order", d)]
        if cls == "mtfc":
            want.append(("the number of inputs", Integer(dim)))
        want += [("the full flag", full), ("the number of points", g.n), ("the number of functions", w)]
        if len(ops) != len(want):
            raise Wrong("%d operands are passed, the routine reads %d" % (len(ops), len(want)))
        for k, (what, val) in enumerate(want):
            if what == "the points":
                o = ops[k]
                if cls == "utfc":
                    ok = ai.veq(o, xs[0])
                else:
                    if dim == 1 and ai.veq(o, xs[0]):
                        continue
                    if not (isinstance(o, Opq) and o.op == "concat"):
                        raise Giveup("points operand %r" % (o,))
                    ok = isinstance(o.args[0], tuple) and len(o.args[0]) == dim and all(ai.veq(a, b) for a, b in zip(o.args[0], xs)) and alg.isexpr(o.args[1]) and o.args[1] == 0
                if not ok:
                    raise Wrong("operand %d is not the points: %r" % (k, o))
                continue
            t, v = untyped(ops[k])
            if isinstance(val, tuple):
                v = ip.items(v, cst)
                v = None if v is None else tuple(v)
                if v is None:
                    raise Giveup("operand %d" % k)
                same_ = len(v) == len(val) and all(alg.isexpr(a) and sp.expand(a - b) == 0 for a, b in zip(v, val))
                if t is not None and t != "int32":
                    raise Wrong("operand %d (%s) is an array of %s, the routine reads 32-bit integers" % (k, what, t))
            elif isinstance(val, bool):
                if v not in (True, False):
                    raise Giveup("operand %d: %r" % (k, v))
                same_ = v is val
            else:
                if not alg.isexpr(v):
                    if isinstance(v, bool):
                        raise Wrong("operand %d is %r instead of %s" % (k, v, what))
                    raise Giveup("operand %d: %r" % (k, v))
                same_ = sp.expand(v - val) == 0
            if not same_:
                raise Wrong("operand %d is %s instead of %s %s" % (k, v, what, val))
            if what != "the full flag" and t in ("bool", "bool_"):
                raise Wrong("operand %d (%s) is cut down to a truth value" % (k, what))
            if what != "the full flag" and t == "int8":
                raise Wrong("operand %d (%s) is one byte wide" % (k, what))
        rl = kw.get("result_layouts")
        if rl is not None:
            q = ip.items(rl, cst)
            if q is None or len(q) != 1 or ip.items(q[0], cst) is None:
                raise Giveup("result layout")
            if [int(z) for z in ip.items(q[0], cst)] != [1, 0]:
                raise Wrong("the result is declared column by column, the routine writes row by row")

    guard(rep, g, "compiled-call", con, where_of(M, cls, "_SetupJax" if cls == "utfc" else "SetupJAX"), body)


def symbols(v):
    """Symbols inside a value."""
    if isinstance(v, sp.Basic):
        return v.free_symbols
    if isinstance(v, Opq):
        out = set()
        for a in v.args:
            out |= symbols(a)
        return out
    if isinstance(v, (tuple, list)):
        out = set()
        for a in v:
            out |= symbols(a)
        return out
    return set()


def check_low(rep):
    jobs = []
    for full in (False, True):
        for rank in (1, 2):
            jobs.append((lowering, ("utfc", rank, full)))
        for dim in (1, 2, 3):
            jobs.append((lowering, ("mtfc", 1, full, dim)))
    parallel(rep, jobs, native=False)
