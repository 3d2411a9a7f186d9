"""ComponentConstraintGraph: which embeddings are kept, and what the saved graphs show.

The constructor is interpreted with the number of nodes and edges fixed and the ends of every edge symbolic. Each
orientation's condition for being kept is a term over the ends; it is compared with acyclicity of the oriented graph for
every choice of ends. SaveGraphs is interpreted with opaque names, recording the drawing operations."""
import ast
import itertools
import os
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import arr
import terms
from ai import Giveup, ModV, ClsV, Ref, State, Ext, Bound, Opq
from core import module, modules, parallel, AnchorLost
from solver import Wrong

MOD = "tfc.utils.TFCUtils"
CLS = "ComponentConstraintGraph"
NILP, SING, RHO, RED = Function("NILP"), Function("SING"), Function("RHO"), Function("RED")
BASE = 10  # node k is called k + BASE


class Eig(Ext):
    """Eigenvalues of a matrix with the given entries."""

    def __init__(self, es, what="eig"):
        self.es, self.what = es, what

    def __repr__(self):
        return "<%s of a matrix>" % self.what

    def all_zero(self):
        return alg.TRUTH(NILP(*self.es))

    def some_zero(self):
        return alg.TRUTH(SING(*self.es))

    def binop(self, ip, op, o, refl, st):
        return NotImplemented

    def attr(self, ip, name, st):
        if name in ("real", "imag"):
            raise Giveup("part of eigenvalues")
        return NotImplemented

    def compare(self, ip, op, o, refl, st):
        if not (alg.isexpr(o) and o == 0) or self.what not in ("eig", "abs"):
            raise Giveup("comparison of eigenvalues with %r" % (o,))
        if isinstance(op, ast.Eq):
            return Eig(self.es, "iszero")
        if isinstance(op, ast.NotEq) or (self.what == "abs" and isinstance(op, ast.Lt if refl else ast.Gt)):
            return Eig(self.es, "nonzero")
        if self.what == "abs" and isinstance(op, ast.GtE if refl else ast.LtE):
            return Eig(self.es, "iszero")
        raise Giveup("comparison of eigenvalues")

    def unary(self, ip, op, st):
        if isinstance(op, ast.Invert) and self.what in ("iszero", "nonzero"):
            return Eig(self.es, "nonzero" if self.what == "iszero" else "iszero")
        return NotImplemented

    def reduce(self, f):
        w = self.what
        if f == "all":
            return self.all_zero() if w == "iszero" else ai.neg(self.some_zero())
        if f == "any":
            return self.some_zero() if w == "iszero" else ai.neg(self.all_zero())
        if f in ("max", "amax") and w == "abs":
            return RHO(*self.es)
        if f == "count_nonzero" and w in ("eig", "abs", "nonzero"):
            return RHO(*self.es)
        raise Giveup("%s of eigenvalues" % f)

    def method(self, ip, name, args, kw, st):
        if args or kw:
            return NotImplemented
        return self.reduce(name)


class Mat(Ext):
    """A matrix with known sizes, known only through its entries at each choice of edge ends."""

    def __init__(self, k, dims, boolean=False):
        self.k, self.dims, self.boolean = k, dims, boolean

    def __repr__(self):
        return "<matrix %d>" % self.k

    def binop(self, ip, op, o, refl, st):
        if isinstance(op, ast.MatMult):
            b = mat(ip, o, st)
            return mul(b, self) if refl else mul(self, b)
        f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y}.get(type(op))
        if f is None:
            return NotImplemented
        if alg.isexpr(o):
            return Mat(keep(lambda: [[f(terms.ev(o, VAL, FUN), x) if refl else f(x, terms.ev(o, VAL, FUN)) for x in r] for r in MATS[self.k]()]), self.dims)
        b = mat(ip, o, st)
        if b.dims != self.dims:
            raise Giveup("matrices of different sizes")
        return Mat(keep(lambda: [[f(y, x) if refl else f(x, y) for x, y in zip(r, q)] for r, q in zip(MATS[self.k](), MATS[b.k]())]), self.dims)

    def attr(self, ip, name, st):
        if name == "T":
            return Mat(keep(lambda: [list(r) for r in zip(*MATS[self.k]())]), self.dims[::-1])
        if name == "shape":
            return tuple(Integer(d) for d in self.dims)
        return NotImplemented

    def compare(self, ip, op, o, refl, st):
        f = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}.get(type(op))
        if f is None or not alg.isexpr(o):
            raise Giveup("comparison of a matrix with %r" % (o,))
        one = terms.mp.mpf(1)
        return Mat(keep(lambda: [[one * bool(f(terms.ev(o, VAL, FUN), x) if refl else f(x, terms.ev(o, VAL, FUN))) for x in r] for r in MATS[self.k]()]), self.dims, True)

    def unary(self, ip, op, st):
        if isinstance(op, ast.Invert) and self.boolean:
            return Mat(keep(lambda: [[1 - x for x in r] for r in MATS[self.k]()]), self.dims, True)
        return NotImplemented

    def reduce(self, f):
        red = {
            "trace": lambda M: sum((M[i][i] for i in range(len(M))), terms.mp.mpf(0)),
            "sum": lambda M: sum((x for r in M for x in r), terms.mp.mpf(0)),
            "max": lambda M: max(x for r in M for x in r),
            "min": lambda M: min(x for r in M for x in r),
            "all": lambda M: terms.mp.mpf(all(x != 0 for r in M for x in r)),
            "any": lambda M: terms.mp.mpf(any(x != 0 for r in M for x in r)),
            "count_nonzero": lambda M: terms.mp.mpf(sum(x != 0 for r in M for x in r)),
        }
        red["amax"], red["amin"] = red["max"], red["min"]
        if f not in red:
            raise Giveup("%s of a matrix" % f)
        k = len(REDS)
        REDS.append(lambda: red[f](MATS[self.k]()))
        v = RED(Integer(k))
        return alg.TRUTH(v) if f in ("all", "any") else v

    def method(self, ip, name, args, kw, st):
        if name in ("dot", "__matmul__") and len(args) == 1:
            return mul(self, mat(ip, args[0], st))
        if name in ("copy", "astype"):
            return self
        if name in ("transpose",) and not args:
            return self.attr(ip, "T", st)
        if args or kw:
            return NotImplemented
        return self.reduce(name)


def keep(f):
    """Number of a matrix, recomputed once per choice of edge ends."""
    memo = {}

    def g():
        key = tuple(sorted((str(s), v) for s, v in VAL.items()))
        if memo.get("key") != key:
            memo["val"] = f()
            memo["key"] = key
        return memo["val"]

    MATS.append(g)
    return len(MATS) - 1


def mat(ip, A, st):
    if isinstance(A, Mat):
        return A
    if not (ip.isarr(A) and len(st.heap[A.id].dims) == 2 and all(d.is_Integer for d in st.heap[A.id].dims)):
        raise Giveup("matrix %r" % (A,))
    n, m = [int(d) for d in st.heap[A.id].dims]
    ver, pc = st.heap[A.id].ver, st.pc
    return Mat(keep(lambda: [[entry(ver, (Integer(i), Integer(j)), ip, pc) for j in range(m)] for i in range(n)]), (n, m))


def mul(a, b):
    if a.dims[1] != b.dims[0]:
        raise Giveup("matrices that do not fit")
    z = terms.mp.mpf(0)
    return Mat(keep(lambda: [[sum((x * y for x, y in zip(r, c)), z) for c in zip(*MATS[b.k]())] for r in MATS[a.k]()]), (a.dims[0], b.dims[1]))


def join(parts):
    if not all(isinstance(p, str) for p in parts):
        raise Giveup("path of %r" % (parts,))
    return os.path.join(*parts)


def hook(ip, fv, args, kw, st, node, env):
    if isinstance(fv, ModV):
        f = fv.name.split(".")[-1]
        if fv.name == "itertools.product":
            vs = [ip.items(a, st) for a in args]
            rep = kw.get("repeat", S.One)
            if any(v is None for v in vs) or not (alg.isexpr(rep) and rep.is_Integer):
                raise Giveup("product of unknown sequences")
            return tuple(itertools.product(*vs, repeat=int(rep)))
        if f in ("eigvals", "eig") and "linalg" in fv.name and len(args) == 1:
            A = mat(ip, args[0], st)
            if A.dims[0] != A.dims[1]:
                raise Giveup("eigenvalues of a matrix that is not square")
            e = Eig((Integer(A.k),))
            return e if f == "eigvals" else (e, Opq("eigvecs", ()))
        if f in ("dot", "matmul") and len(args) == 2:
            return mul(mat(ip, args[0], st), mat(ip, args[1], st))
        if f == "matrix_power" and len(args) == 2 and alg.isexpr(args[1]) and args[1].is_Integer and args[1] >= 0:
            A = mat(ip, args[0], st)
            n = A.dims[0]
            one, zero = terms.mp.mpf(1), terms.mp.mpf(0)
            r = Mat(keep(lambda: [[one if i == j else zero for j in range(n)] for i in range(n)]), A.dims)
            for _ in range(int(args[1])):
                r = mul(r, A)
            return r
        if f == "trace" and len(args) == 1 and not kw:
            return mat(ip, args[0], st).reduce("trace")
        if args and isinstance(args[0], Mat):
            if f in ("asarray", "array"):
                return args[0]
            if f in ("all", "any", "max", "amax", "min", "amin", "sum", "count_nonzero") and len(args) == 1 and not kw:
                return args[0].reduce(f)
            if f in ("transpose",) and len(args) == 1:
                return args[0].attr(ip, "T", st)
            raise Giveup("%s of a matrix" % fv.name)
        if args and isinstance(args[0], Eig):
            if f in ("abs", "absolute", "fabs") and args[0].what == "eig":
                return Eig(args[0].es, "abs")
            if f == "logical_not":
                return args[0].unary(ip, ast.Invert(), st)
            if f in ("asarray", "array"):
                return args[0]
            if f in ("all", "any", "max", "amax", "count_nonzero") and len(args) == 1 and not kw:
                return args[0].reduce(f)
            raise Giveup("%s of eigenvalues" % fv.name)
    if isinstance(fv, Bound) and fv.name == "index" and isinstance(fv.v, Ref) and fv.v.id == getattr(ip, "nodes_id", None) and len(args) == 1 and alg.isexpr(args[0]):
        return args[0] - BASE
    return NotImplemented


def acyclic(n, arcs):
    left, arcs = set(range(n)), set(arcs)
    while left:
        free = [v for v in left if not any(b == v for a, b in arcs if a in left)]
        if not free:
            return False
        left -= set(free)
    return True


MATS = []  # matrices met: their entries at the current choice of edge ends
REDS = []  # numbers computed from them
VAL = {}


def entry(ver, idx, ip, pc):
    """Value of one entry at the current valuation, read off the chain of stores."""
    while True:
        if isinstance(ver, arr.IteVer):
            ver = ver.a if truth(ver.c, VAL) else ver.b
        elif isinstance(ver, arr.St) and not ver.loops:
            at = all(terms.ev(i, VAL, FUN) == j for i, j in zip(ver.idx, idx))
            if at and truth(ver.guard, VAL):
                v = ver.val
                return terms.ev(v, VAL, FUN) if not isinstance(v, bool) else terms.mp.mpf(v)
            ver = ver.prev
        else:
            v = ip.r.elem(ver, idx, pc)
            return terms.ev(v, VAL, FUN) if not isinstance(v, bool) else terms.mp.mpf(v)


def entries(k):
    M = MATS[int(k)]()
    return len(M), [x for r in M for x in r]


def nilp(k):
    """Nonnegative matrices are nilpotent iff the graph of the nonzero entries has no cycle."""
    n, es = entries(k)
    if any(x < 0 for x in es):
        raise terms.Unknown("negative entries")
    M = [[bool(es[i * n + j] != 0) for j in range(n)] for i in range(n)]
    return terms.mp.mpf(1 if acyclic(n, [(i, j) for i in range(n) for j in range(n) if M[i][j]]) else 0)


def sing(k):
    n, es = entries(k)
    return terms.mp.mpf(1 if sp.Matrix(n, n, [sp.nsimplify(str(e)) for e in es]).det() == 0 else 0)


def rho(k):
    return terms.mp.mpf(1) - nilp(k)


FUN = {"RED": lambda k: REDS[int(k)](), "NILP": nilp, "SING": sing, "RHO": rho}


def graph(nN, nE):
    ip = ai.Interp(modules(), None, alg.Prover())
    ip.modstack = []
    ip.call_hook = hook
    ip.unroll_limit = 16
    ip.filtered = True
    st = State()
    N = ip.list(st, [Integer(k + BASE) for k in range(nN)])
    ip.nodes_id = N.id
    ends = [(Symbol("a%d" % g, integer=True), Symbol("b%d" % g, integer=True)) for g in range(nE)]
    for e in ends:
        for s in e:
            ip.p.declare(s, None, None)
    E = ip.list(st, [ip.dict(st, {"name": "c%d" % g, "node0": ends[g][0], "node1": ends[g][1]}) for g in range(nE)])
    o = ip.construct(ClsV(CLS, module(MOD)), [N, E], {}, st, None)
    if not isinstance(o, Ref):
        raise Giveup("construction gives %r" % (o,))
    return ip, st, o, ends


def kept(ip, st, o):
    """Pairs (condition, index) of goodTargets."""
    L = ip.getattr(o, "goodTargets", st)
    if isinstance(L, Opq) and L.op == "filtered":
        return list(L.args)
    if not (isinstance(L, Ref) and isinstance(st.heap.get(L.id), ai.ListC)):
        raise Giveup("goodTargets is %r" % (L,))
    out = []
    for e in ip.events:
        if e["kind"] == "inplace" and e["target"] == L:
            if e["op"] != "append":
                raise Giveup("goodTargets is changed by %s" % e["op"])
            out.append((ai.conj(*e["pc"]) if e["pc"] else True, e["value"]))
    if not out and st.heap[L.id].tail is not None:
        raise Giveup("goodTargets is built in an unknown way")
    return out or [(True, v) for v in st.heap[L.id].items]


def truth(c, val):
    if isinstance(c, bool):
        return c
    if val is not VAL:
        VAL.clear()
        VAL.update(val)
    try:
        return bool(terms.evc(c, val, FUN))
    except terms.Unknown as e:
        raise Giveup("condition %s" % e)


def check_good(nN, nE, rep):
    ip, st, o, ends = graph(nN, nE)
    T = ip.items(ip.getattr(o, "targets", st), st)
    if T is None:
        raise Giveup("targets")
    tg = []
    for t in T:
        vs = ip.items(t, st)
        if vs is None or not all(alg.isexpr(v) and v in (0, 1) or isinstance(v, bool) for v in vs):
            raise Giveup("target %r" % (t,))
        tg.append(tuple(int(v) for v in vs))
    if sorted(tg) != sorted(itertools.product((0, 1), repeat=nE)):
        raise Wrong("the orientations considered are %s" % tg)
    ks = kept(ip, st, o)
    rep.stats(ip)
    exits = [e for e in ip.events if e["kind"] in ("exit", "raise")]
    mp = terms.mp
    pairs = [(a, b) for a in range(nN) for b in range(nN) if a != b]
    # larger graphs: up to the names of the nodes of the first edge, without parallel edges
    first = [pairs] if nE < 4 else [pairs[:1]]
    for choice in itertools.product(*(first + [pairs] * (nE - 1))):
        if nE >= 4 and len({frozenset(c) for c in choice}) < nE:
            continue
        val = {}
        for (a, b), (x, y) in zip(ends, choice):
            val[a], val[b] = mp.mpf(x + BASE), mp.mpf(y + BASE)
        if any(truth(ai.conj(*e["pc"]) if e["pc"] else True, val) for e in exits):
            raise Wrong("edges %s between nodes 0..%d are refused" % (list(choice), nN - 1))
        good = []
        for c, v in ks:
            if truth(c, val):
                if not (alg.isexpr(v)):
                    raise Giveup("goodTargets holds %r" % (v,))
                v = int(round(float(terms.ev(v, val, FUN))))
                good.append(v)
        want = [j for j, t in enumerate(tg) if acyclic(nN, [(x, y) if not q else (y, x) for (x, y), q in zip(choice, t)])]
        if sorted(good) != want:
            diff = sorted(set(want) ^ set(good)) or good
            j = diff[0]
            raise Wrong("edges %s with orientation %s: the oriented graph has %s, but it is %s" % (list(choice), tg[j] if 0 <= j < len(tg) else j, "no cycle" if j in want else "a cycle", "kept %d times" % good.count(j) if j in good else "dropped"))
    # an end that is no node
    for g in range(nE):
        for side in (0, 1):
            val = {}
            for h, (a, b) in enumerate(ends):
                val[a], val[b] = mp.mpf(BASE), mp.mpf(BASE + 1)
            val[ends[g][side]] = mp.mpf(BASE + 77)
            if not any(truth(ai.conj(*e["pc"]) if e["pc"] else True, val) for e in exits):
                raise Wrong("edge %d with a node%d that is no node is accepted" % (g, side))


# ---------------------------------------------------------------- SaveGraphs
class Name(Ext):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n

    def __eq__(self, o):
        return isinstance(o, Name) and o.n == self.n

    def __hash__(self):
        return hash(self.n)


class Attrs(Ext):
    def method(self, ip, name, args, kw, st):
        return None

    def item(self, ip, k, st):
        return NotImplemented


class Dig(Ext):
    """graphviz.Digraph (or one of its subgraphs): records what is drawn."""

    def __init__(self, log, name, root=None):
        self.log, self.name, self.root = log, name, root or self

    def __repr__(self):
        return "<digraph %s>" % self.name

    def attr(self, ip, name, st):
        return Attrs() if name in ("node_attr", "edge_attr", "graph_attr") else NotImplemented

    def method(self, ip, name, args, kw, st):
        if name == "attr":
            return None
        if name == "node" and args:
            self.log(ip, st, "node", self.root, args[0], args[1] if len(args) > 1 else kw.get("label"), kw.get("href", kw.get("URL")))
            return None
        if name == "edge" and len(args) >= 2:
            self.log(ip, st, "edge", self.root, args[0], args[1], args[2] if len(args) > 2 else kw.get("label"))
            return None
        if name == "edge" and "tail_name" in kw and "head_name" in kw and not args:
            self.log(ip, st, "edge", self.root, kw["tail_name"], kw["head_name"], kw.get("label"))
            return None
        if name == "subgraph" and not args:
            return Dig(self.log, "", self.root)
        if name == "render":
            p = args[0] if args else kw.get("filename")
            if not isinstance(p, str) or not isinstance(kw.get("format"), str):
                raise Giveup("render to %r as %r" % (p, kw.get("format")))
            self.log(ip, st, "render", self.root, p, kw["format"])
            return p + "." + kw["format"]
        return NotImplemented


class Html(Ext):
    """yattag document: records the tags and text put into it."""

    def __init__(self, kind, doc=None):
        self.kind, self.doc = kind, doc or self
        if doc is None:
            self.parts = []

    def __repr__(self):
        return "<html %s>" % self.kind

    def method(self, ip, name, args, kw, st):
        if self.kind != "doc":
            return NotImplemented
        if name == "tagtext":
            return (self, Html("tag", self), Html("text", self))
        if name in ("asis", "text"):
            self.parts.extend(("text", a, name) for a in args)
            return None
        if name == "stag":
            at = {k: v for k, v in kw.items()}
            for a in args[1:]:
                if isinstance(a, tuple) and len(a) == 2:
                    at[a[0]] = a[1]
            self.parts.append(("stag", args[0], at))
            return None
        if name == "tag":
            return Html("open", self)
        if name == "getvalue":
            return Content(self)
        return NotImplemented

    def call(self, ip, args, kw, st):
        if self.kind == "tag":
            self.doc.parts.append(("open", args[0], dict(kw)))
            return Html("open", self.doc)
        if self.kind == "text":
            self.doc.parts.extend(("text", a, "text") for a in args)
            return None
        return NotImplemented


class Content(Ext):
    def __init__(self, doc):
        self.doc = doc


class FileText(Ext):
    def __init__(self, path):
        self.path = path


class File(Ext):
    def __init__(self, log, path, mode):
        self.log, self.path, self.mode = log, path, mode

    def method(self, ip, name, args, kw, st):
        if name == "close":
            return None
        if name == "read" and "r" in self.mode:
            self.log(ip, st, "read", self.path)
            return FileText(self.path)
        if name == "write" and self.mode == "w" and len(args) == 1:
            self.log(ip, st, "write", self.path, args[0], list(args[0].doc.parts) if isinstance(args[0], Content) else None)
            return None
        return NotImplemented


def draw_hook(log):
    def h(ip, fv, args, kw, st, node, env):
        if isinstance(fv, ModV):
            n = fv.name
            if n == "graphviz.Digraph":
                return Dig(log, kw.get("name", args[0] if args else None))
            if n == "yattag.Doc":
                return Html("doc")
            if n == "yattag.indent":
                return args[0]
            if n == "os.path.join":
                return join(args)
            if n == "os.path.dirname" and isinstance(args[0], str):
                return os.path.dirname(args[0])
            if n in ("os.path.exists", "os.path.isdir") and isinstance(args[0], str):
                return alg.TRUTH(Symbol("exists(%s)" % args[0]))
            if n in ("os.makedirs", "os.mkdir"):
                log(ip, st, n[3:], args[0])
                return None
            if n == "builtins.open" and isinstance(args[0], str):
                mode = args[1] if len(args) > 1 else kw.get("mode", "r")
                log(ip, st, "open", args[0], mode)
                return File(log, args[0], mode)
            if n.split(".")[-1] == "ceil" and len(args) == 1 and alg.isexpr(args[0]) and args[0].is_number:
                return sp.ceiling(sp.nsimplify(args[0]))
        return NotImplemented

    return h


def check_save(nN, nE, good, every, pdf, rep):
    ip = ai.Interp(modules(), None, alg.Prover())
    ip.modstack = []
    ip.unroll_limit = 40
    ip.filtered = True
    events = []

    def log(ip_, st_, *what):
        events.append((st_.pc,) + what)

    ip.call_hook = draw_hook(log)
    st = State()
    ends = [(k % nN, (k + 1) % nN) for k in range(nE)]
    names = [Name("node%d" % k) for k in range(nN)]
    tg = list(itertools.product((0, 1), repeat=nE))
    N = ip.list(st, names)
    E = ip.list(st, [ip.dict(st, {"name": Name("constraint%d" % g), "node0": names[a], "node1": names[b]}) for g, (a, b) in enumerate(ends)])
    M = module(MOD)
    if CLS not in M.classes:
        raise AnchorLost(CLS)
    o = ip.obj(st, ClsV(CLS, M))
    at = dict(N=N, E=E, nNodes=Integer(nN), nEdges=Integer(nE), targets=ip.list(st, [tuple(Integer(x) for x in t) for t in tg]), goodTargets=ip.list(st, [Integer(k) for k in good]))
    st.heap[o.id] = ai.ObjC(ClsV(CLS, M), at)
    f = ip.getattr(o, "SaveGraphs", st)
    ip.call(f, ["OUT"], {"allGraphs": every, "savePDFs": pdf}, st)
    rep.stats(ip)
    want = [tg[k] for k in (range(len(tg)) if every else good)]
    for e in ip.events:
        if e["kind"] in ("exit", "raise", "use-undef", "index-error"):
            raise Giveup("%s while saving" % e["kind"])

    made = {}  # path -> (time, digraph)
    order = {}
    for t, (pc, kind, *a) in enumerate(events):
        if kind in ("node", "edge", "render", "read", "write") and pc:
            raise Giveup("%s under a condition" % kind)
        if kind == "render":
            p = os.path.normpath(a[1]) + "." + a[2]
            if p in made:
                raise Wrong("%s is drawn twice" % p)
            made[p] = (t, a[0])

    def drawn(stem, formats):
        d = None
        for f in formats:
            p = "OUT/dotFiles/%s.%s" % (stem, f)
            if p not in made:
                raise Wrong("%s is not drawn" % p)
            if d is not None and made[p][1] is not d:
                raise Wrong("the formats of %s show different graphs" % stem)
            d = made[p][1]
        first = min(made["OUT/dotFiles/%s.%s" % (stem, f)][0] for f in formats)
        for t, (pc, kind, *a) in enumerate(events):
            if kind in ("node", "edge") and a[0] is d and t > first:
                raise Wrong("%s is drawn before it is complete" % stem)
        return d

    fm = ["cmapx", "svg"]
    trees = []
    for k, t in enumerate(want):
        d = drawn("tree%d" % k, fm + (["pdf"] if pdf else []))
        if any(d is x for x in trees):
            raise Wrong("two trees share one graph")
        trees.append(d)
        ns = [a[1] for pc, kind, *a in events if kind == "node" and a[0] is d]
        es = [(a[1], a[2], a[3]) for pc, kind, *a in events if kind == "edge" and a[0] is d]
        if not all(isinstance(q, Name) for e in es for q in e) or not all(isinstance(q, Name) for q in ns):
            raise Giveup("drawing %r" % (es,))
        exp = []
        for g, (a, b) in enumerate(ends):
            x, y = (b, a) if t[g] else (a, b)
            exp.append((names[x], names[y], Name("constraint%d" % g)))
        if sorted(map(str, es)) != sorted(map(str, exp)):
            raise Wrong("tree %d, orientation %s, shows the edges %s instead of %s" % (k, t, es, exp))
        if set(ns) | {q for e in es for q in e[:2]} != set(names):
            raise Wrong("tree %d shows the nodes %s" % (k, ns))
    extra = [p for p in made if "/tree" in p and p not in {"OUT/dotFiles/tree%d.%s" % (k, f) for k in range(len(want)) for f in fm + ["pdf"]}]
    if extra:
        raise Wrong("%s is drawn, but there are %d trees" % (extra[0], len(want)))
    m = drawn("main", fm)
    links = [a[3] for pc, kind, *a in events if kind == "node" and a[0] is m]
    if not all(isinstance(x, str) for x in links):
        raise Giveup("links %r" % (links,))
    exp = ["htmlFiles/tree%d.html" % k for k in range(len(want))]
    if sorted(os.path.normpath(x) for x in links) != sorted(exp):
        raise Wrong("with %d trees the index links to %s" % (len(want), sorted(links)))
    # pages
    pages = {}
    for t, (pc, kind, *a) in enumerate(events):
        if kind == "write":
            p = os.path.normpath(a[0])
            if p in pages:
                raise Wrong("%s is written twice" % p)
            if a[2] is None:
                raise Giveup("page text %r" % (a[1],))
            pages[p] = (t, a[2])
    for stem, page, d, up in [("main", "OUT/main.html", m, "")] + [("tree%d" % k, "OUT/htmlFiles/tree%d.html" % k, trees[k], "../") for k in range(len(want))]:
        if page not in pages:
            raise Wrong("%s is not written" % page)
        img = [x[2] for x in pages[page][1] if x[0] in ("stag", "open") and x[1] == "img"]
        txt = [x[1] for x in pages[page][1] if x[0] == "text"]
        maps = [x.path for x in txt if isinstance(x, FileText)]
        if len(img) != 1 or not isinstance(img[0].get("src"), str):
            raise Giveup("images %r of %s" % (img, page))
        if os.path.normpath(os.path.join(os.path.dirname(page), img[0]["src"])) != "OUT/dotFiles/%s.svg" % stem:
            raise Wrong("%s shows %s" % (page, img[0]["src"]))
        if not isinstance(d.name, str) or img[0].get("usemap") != "#" + d.name:
            raise Wrong("%s uses the map %s of graph %s" % (page, img[0].get("usemap"), d.name))
        if [os.path.normpath(x) for x in maps] != ["OUT/dotFiles/%s.cmapx" % stem]:
            raise Wrong("%s contains the map %s" % (page, maps))
        rd = [t for t, (pc, kind, *a) in enumerate(events) if kind == "read" and os.path.normpath(a[0]) == "OUT/dotFiles/%s.cmapx" % stem]
        if not rd or rd[-1] < made["OUT/dotFiles/%s.cmapx" % stem][0]:
            raise Wrong("the map of %s is read before it is drawn" % page)


def run(rep, con, f, *a):
    where = module(MOD).path
    try:
        {"good": check_good, "save": check_save}[f](*a, rep)
    except Wrong as e:
        rep.violation("constraint-graph", con, where, str(e))
    except (Giveup, AnchorLost) as e:
        rep.undecided("constraint-graph", con, e)
    else:
        rep.hold("constraint-graph", con)


def check(rep):
    jobs = []
    for nN, nE in ((4, 4), (3, 3), (2, 1), (2, 2), (3, 2), (4, 2)):
        jobs.append((run, ("%s, %d nodes, %d edges: kept orientations" % (CLS, nN, nE), "good", nN, nE)))
    for nN, nE, good in ((3, 2, (0, 1, 3)), (3, 3, (1, 2, 3, 4, 5, 6)), (2, 1, (0, 1))):
        for every in (False, True):
            for pdf in (False, True):
                jobs.append((run, ("%s.SaveGraphs, %d nodes, %d edges, %s%s" % (CLS, nN, nE, "all orientations" if every else "kept orientations %s" % (good,), ", PDFs" if pdf else ""), "save", nN, nE, good, every, pdf)))
    parallel(rep, jobs, native=False)
