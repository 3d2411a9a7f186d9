"""Set-up of utfc and mtfc: the basis object, the removal list, the points and what is refused.

The constructor is interpreted with symbolic end points, degree and (one input) number of points; the object it
leaves behind is compared with the documented one."""
import mpmath as mp
import sympy as sp
from sympy import S, Symbol, Integer
import ai
import alg
import terms
import glue
from ai import Opq, Ref, ClsV, Giveup, IteV
from core import module, parallel, AnchorLost
from glue import Undefined, same, show
from solver import Wrong
from jaxrule import World, Num, guard, real, dom, where_of, exits, BASES, UT, MT


def num(g, fz, sym, fun):
    return Num(g, sym, fun).val(fz)


def attr(g, o, name):
    st = g.st
    a = st.heap[o.id].attrs
    if name in a:
        return a[name]
    try:
        return g.ip.getattr(o, name, st)
    except Giveup:
        raise
    except Exception:
        raise Wrong("the object has no attribute %s" % name)


def ints(v):
    """Tuple of integers of a numeric array value."""
    if v[0] == "arr" and len(v[1]) == 1:
        return tuple(int(mp.nint(v[2][(i,)])) for i in range(v[1][0]))
    if v[0] == "seq":
        return tuple(int(mp.nint(x[1])) for x in v[1])
    raise Giveup("removal list of shape %s" % (v[1],))


def num1(x):
    return ("val", mp.mpf(x))


def exact(g, what, v, want, sym, fun):
    got = num(g, v, sym, fun)
    if not same(got, want):
        raise Wrong("%s is %s instead of %s" % (what, show(got), show(want)))


def nodes(basis, N):
    z0, zf = (mp.mpf(sp.N(q, 30)) for q in dom(basis))
    if basis in ("CP", "LeP"):
        return [-mp.cos(mp.pi * i / (N - 1)) for i in range(N)]
    return [z0 + (zf - z0) * i / (N - 1) for i in range(N)]


def vec(v):
    return ("arr", (len(v),), {(i,): mp.mpf(x) for i, x in enumerate(v)})


XK = {"sym": "real end points", "int": "integer end points", "none": "x0 left out", "jax": "end points as JAX scalars"}
PAIRS = [("-1.5", "2.25"), ("0.3", "1.9"), ("2", "7.5"), ("-9", "-4")]


def setup_u(rep, basis, backend, kind, xk):
    M = module(UT)
    con = "utfc set-up, %s %s, nC %s, %s" % (basis, backend, NCU[kind], XK[xk])
    g = World()
    ip, st = g.ip, g.st
    N, deg = g.size("N", 2), g.size("deg", 1)
    k = g.size("k", 0)
    x0, xf = real("x0"), real("xf")

    def body():
        a0, af = x0, xf
        if xk == "int":
            a0, af = Symbol("ix0", integer=True), Symbol("ixf", integer=True)
        kw = dict(basis=basis, xf=af, backend=backend)
        if xk != "none":
            kw["x0"] = a0
        if kind == "int":
            nC = k
        elif kind in ("0", "-1"):
            nC = Integer(int(kind))
        elif kind == "list":
            nC = ip.list(st, [Symbol("i%d" % q, integer=True) for q in range(2)])
        else:
            nC = g.array("nC", (k,), kind, integer=True)
        o = ip.construct(ClsV("utfc", M), [N, nC, deg], kw, st, None)
        if o is ai.DEAD and kind in ("int", "0", "-1"):
            end = exits(g, {N: mp.mpf(6), deg: mp.mpf(4), k: mp.mpf(1), x0: mp.mpf("0.3"), xf: mp.mpf("1.9"), Symbol("ix0", integer=True): mp.mpf(1), Symbol("ixf", integer=True): mp.mpf(3)}, {})
            if end is not None:
                raise Wrong("N=6, deg=4, one function removed at most: refused at line %s" % end)
        if not isinstance(o, Ref):
            raise Giveup("construction gives %r" % (o,))
        if len(g.bfs) != 1:
            raise Giveup("%d basis objects" % len(g.bfs))
        bc = attr(g, o, "basisClass")
        if not ai.veq(bc, Opq("bfobj", (0,))):
            raise Giveup("basisClass is %r" % (bc,))
        cls, be, args = g.bfs[0]
        if cls != basis or be != backend:
            raise Wrong("the basis object is %s (%s)" % (cls, be))
        if len(args) != 4:
            raise Wrong("the basis object is built from %d arguments" % len(args))
        fz = {n: g.freeze(attr(g, o, n), st) for n in ("N", "deg", "basis", "x0", "xf", "c", "nC", "z", "x")}
        fa = [g.freeze(a, st) for a in args]
        lists = {"int": [0, 1, 3], "0": [0], "-1": [0], "list": [2]}.get(kind, [1, 3])
        Ns = sorted({2, 3, 6} | set(alg.near(N, 2, 300)))
        degs = sorted({1, 4, 7} | set(alg.near(deg, 1, 300)))
        g.vals = []
        for q, (n, dg) in enumerate((n, dg) for n in Ns for dg in degs):
            for kk in lists:
                v0, vf = PAIRS[(q + kk) % len(PAIRS)]
                if xk == "int":
                    v0, vf = ("-2", "3") if q % 2 else ("0", "5")
                if xk == "none":
                    v0, vf = "0", "2.5"
                for bad in (False, True):
                    sym = {N: mp.mpf(n), deg: mp.mpf(dg), k: mp.mpf(kk), x0: mp.mpf(v0), xf: mp.mpf(vf), Symbol("ix0", integer=True): mp.mpf(v0), Symbol("ixf", integer=True): mp.mpf(vf)}
                    vals = list(range(kk)) if kind == "int" else ([] if kind in ("0", "-1") else [(1 + 2 * i) % (dg + 1) for i in range(kk)])
                    if kind == "list":
                        vals = [dg, 0] if q % 2 else [0, dg]
                    if bad:
                        if kind in ("int", "0", "-1") or not vals:
                            continue
                        vals[q % len(vals)] = -1
                    elif len(set(vals)) < len(vals):
                        continue
                    fun = {"i_nC": lambda i, v=tuple(vals): mp.mpf(v[int(mp.nint(i))])}
                    if kind == "list":
                        for w, v in enumerate(vals):
                            sym[Symbol("i%d" % w, integer=True)] = mp.mpf(v)
                    end = exits(g, sym, fun)
                    refuse = bad or len(vals) > dg
                    text = "N=%d, deg=%d, nC=%s" % (n, dg, vals)
                    if refuse != (end is not None):
                        raise Wrong("%s is %s" % (text, "refused at line %s" % end if end is not None else "accepted"))
                    if refuse:
                        continue
                    m = g.shape_error(sym, fun)
                    if m:
                        raise Wrong(text + ": " + m)
                    b0, bf = mp.mpf(v0), mp.mpf(vf)
                    z0, zf = (mp.mpf(sp.N(t, 30)) for t in dom(basis))
                    c = (zf - z0) / (bf - b0)
                    zz = nodes(basis, n)
                    exact(g, text + ": N", fz["N"], num1(n), sym, fun)
                    exact(g, text + ": deg", fz["deg"], num1(dg), sym, fun)
                    exact(g, text + ": basis", fz["basis"], ("val", basis), sym, fun)
                    for what, got, want in (("x0", fz["x0"], b0), ("xf", fz["xf"], bf), ("c", fz["c"], c), ("x0 of the basis object", fa[0], b0), ("xf of the basis object", fa[1], bf), ("the number of functions of the basis object", fa[3], dg + 1)):
                        exact(g, text + ": " + what, got, num1(want), sym, fun)
                    for what, got in (("nC", fz["nC"]), ("the removal list of the basis object", fa[2])):
                        r = ints(num(g, got, sym, fun))
                        if sorted(r) != sorted(vals):
                            raise Wrong("%s: %s is %s" % (text, what, list(r)))
                    exact(g, text + ": z", fz["z"], vec(zz), sym, fun)
                    exact(g, text + ": x", fz["x"], vec([b0 + (z - z0) / c for z in zz]), sym, fun)

    guard(rep, g, "set-up", con, where_of(M, "utfc", "__init__"), body)


NCU = {"int": "a number", "0": "0", "-1": "-1", "list": "a list", "numpy": "a NumPy array", "jax": "a JAX array"}


def check_u(rep):
    M = module(UT)
    if "utfc" not in M.classes:
        raise AnchorLost("utfc")
    jobs = []
    for basis in BASES:
        for backend in ("C++", "Python"):
            jobs.append((setup_u, (basis, backend, "int", "sym")))
    for basis, backend in (("CP", "C++"), ("ELMSin", "Python"), ("FS", "C++")):
        for kind in NCU:
            if kind != "int":
                jobs.append((setup_u, (basis, backend, kind, "sym")))
        for xk in ("int", "none"):
            jobs.append((setup_u, (basis, backend, "int", xk)))
    parallel(rep, jobs, native=False)


# ---------------------------------------------------------------- several inputs
def lst(g, v):
    return g.ip.list(g.st, [lst(g, q) if isinstance(q, list) else sp.sympify(q) for q in v])


def const(g, v, lib, integer):
    """Array of known content."""
    ip, st = g.ip, g.st
    two = isinstance(v[0], list) if v else False
    dims = (Integer(len(v)), Integer(len(v[0]))) if two else (Integer(len(v)),)
    flat = [q for r in v for q in r] if two else list(v)

    def f(i):
        k = sp.expand(i[0] * dims[1] + i[1]) if two else i[0]
        if k.is_Integer:
            return sp.sympify(flat[int(k)])
        r = sp.sympify(flat[-1])
        for q in range(len(flat) - 2, -1, -1):
            r = alg.ite(alg.cmp("==", k, Integer(q)), sp.sympify(flat[q]), r)
        return r

    r = ip.arr(st, dims, f, "given")
    st.heap[r.id].lib = lib
    if integer:
        st.heap[r.id].dtype = "int"
    return r


# way of giving nC -> (value, rows of removed functions)
NCM = {
    1: [("numbers", [2], [[0, 1]]), ("lists", [[1, 3]], [[1, 3]])],
    2: [
        ("numbers", [2, 1], [[0, 1], [0]]),
        ("numbers", [0, 3], [[], [0, 1, 2]]),
        ("numbers", [1, -1], [[0], []]),
        ("lists", [[0, 2], [3]], [[0, 2], [3]]),
        ("lists", [[1], [2]], [[1], [2]]),
        ("numbers and lists", [2, [3, 0, 1]], [[0, 1], [3, 0, 1]]),
        ("numbers and lists", [[2], 1], [[2], [0]]),
        ("jax table", [[0, 1], [2, -1]], [[0, 1], [2]]),
        ("numpy table", [[0, 1], [2, -1]], [[0, 1], [2]]),
        ("jax vector", [1, 2], [[0], [0, 1]]),
        ("numpy vector", [2, 1], [[0, 1], [0]]),
    ],
    3: [("numbers", [1, 2, 3], [[0], [0, 1], [0, 1, 2]]), ("numbers and lists", [[4, 0], 0, [1]], [[4, 0], [], [1]]), ("numpy table", [[0, 2], [1, -1], [-1, -1]], [[0, 2], [1], []])],
}
NCE = [("number", 2, [0, 1]), ("number", 0, []), ("number", -1, []), ("list", [3, 1], [3, 1]), ("numpy vector", [0, 2, 4], [0, 2, 4]), ("jax vector", [1], [1])]
XM = {"list": "lists", "numpy": "NumPy arrays", "jax": "JAX arrays", "int": "lists of integers", "none": "no x0"}


def given(g, how, v):
    if how.startswith("jax") or how.startswith("numpy"):
        return const(g, v, how.split()[0], True)
    if isinstance(v, list):
        return lst(g, v)
    return Integer(v)


def setup_m(rep, basis, backend, ns, how, nC, rows, xk, nk="list"):
    M = module(MT)
    dim = len(ns)
    elm = basis.startswith("ELM")
    con = "mtfc set-up, %s %s, n=%s as a %s, nC=%s as %s, end points as %s" % (basis, backend, list(ns), nk, nC, how, XM[xk])
    g = World()
    ip, st = g.ip, g.st
    deg = g.size("deg", 1)

    def body():
        s0 = [real("x0_%d" % q) if xk != "int" else Symbol("ix0_%d" % q, integer=True) for q in range(dim)]
        sf = [real("xf_%d" % q) if xk != "int" else Symbol("ixf_%d" % q, integer=True) for q in range(dim)]
        kw = dict(dim=Integer(dim), basis=basis, backend=backend)
        if xk in ("list", "int", "none"):
            kw["x0"], kw["xf"] = lst(g, s0), lst(g, sf)
        else:
            kw["x0"], kw["xf"] = const(g, s0, xk, False), const(g, sf, xk, False)
        if xk == "none":
            kw["x0"] = None
        n = lst(g, list(ns)) if nk == "list" else const(g, list(ns), nk, True)
        o = ip.construct(ClsV("mtfc", M), [n, given(g, how, nC), deg], kw, st, None)
        if o is ai.DEAD:
            sym = {deg: mp.mpf(9)}
            for i in range(dim):
                sym[s0[i]], sym[sf[i]] = mp.mpf(1), mp.mpf(3)
            end = exits(g, sym, {})
            if end is not None:
                raise Wrong("deg=9: refused at line %s" % end)
        if not isinstance(o, Ref):
            raise Giveup("construction gives %r" % (o,))
        if len(g.bfs) != 1:
            raise Giveup("%d basis objects" % len(g.bfs))
        if not ai.veq(attr(g, o, "basisClass"), Opq("bfobj", (0,))):
            raise Giveup("basisClass")
        cls, be, args = g.bfs[0]
        if cls != "n" + basis or be != backend:
            raise Wrong("the basis object is %s (%s)" % (cls, be))
        if len(args) != 4:
            raise Wrong("the basis object is built from %d arguments" % len(args))
        fz = {q: g.freeze(attr(g, o, q), st) for q in ("N", "deg", "dim", "basis", "n", "x0", "xf", "c", "nC", "z", "x")}
        fa = [g.freeze(a, st) for a in args]
        most = len(rows) if elm else max(len(r) for r in rows)
        g.vals = []
        for q, dg in enumerate(sorted({1, 2, 4, 6} | set(alg.near(deg, 1, 40)))):
            sym = {deg: mp.mpf(dg)}
            b0, bf = [], []
            for i in range(dim):
                v0, vf = PAIRS[(q + i) % len(PAIRS)] if xk != "int" else (("-2", "3"), ("0", "5"), ("1", "4"))[(q + i) % 3]
                if xk == "none":
                    v0, vf = "0", ("2.5", "4", "0.5")[i]
                sym[s0[i]], sym[sf[i]] = mp.mpf(v0), mp.mpf(vf)
                b0.append(mp.mpf(v0))
                bf.append(mp.mpf(vf))
            fun = {}
            for t in g.p.bounds:
                if isinstance(t, Symbol) and t not in sym:
                    sym[t] = mp.mpf(7 if t.name[:1] == "M" else 1)
            text = "deg=%d" % dg
            end = exits(g, sym, fun)
            table = not elm and how.endswith("table")  # a table is taken as it is
            if table and most > dg:
                continue
            if (most > dg) != (end is not None):
                raise Wrong("%s is %s" % (text, "refused at line %s" % end if end is not None else "accepted"))
            if end is not None:
                continue
            m = g.shape_error(sym, fun)
            if m:
                raise Wrong(text + ": " + m)
            z0, zf = (mp.mpf(sp.N(t, 30)) for t in dom(basis))
            c = [(zf - z0) / (f - a) for a, f in zip(b0, bf)]
            tot = 1
            for v in ns:
                tot *= v
            exact(g, text + ": N", fz["N"], num1(tot), sym, fun)
            exact(g, text + ": deg", fz["deg"], num1(dg), sym, fun)
            exact(g, text + ": dim", fz["dim"], num1(dim), sym, fun)
            exact(g, text + ": basis", fz["basis"], ("val", basis), sym, fun)
            for what, got, want in (("n", fz["n"], ns), ("x0", fz["x0"], b0), ("xf", fz["xf"], bf), ("c", fz["c"], c), ("x0 of the basis object", fa[0], b0), ("xf of the basis object", fa[1], bf)):
                exact(g, text + ": " + what, got, vec(want), sym, fun)
            exact(g, text + ": the number of functions of the basis object", fa[3], num1(dg + 1), sym, fun)
            for what, fr in (("nC", fz["nC"]), ("the removal table of the basis object", fa[2])):
                got = num(g, fr, sym, fun)
                if elm:
                    r = ints(got)
                    bad = sorted(r) != sorted(rows)
                else:
                    if got[0] != "arr" or len(got[1]) != 2:
                        raise Wrong("%s: %s is not a table: %s" % (text, what, show(got)))
                    if got[1][0] != dim:
                        raise Wrong("%s: %s has %d rows" % (text, what, got[1][0]))
                    r = [[int(mp.nint(got[2][(i, j)])) for j in range(got[1][1])] for i in range(dim)]
                    bad = any(sorted(v for v in r[i] if v != -1) != sorted(rows[i]) for i in range(dim))
                if bad:
                    raise Wrong("%s: %s is %s" % (text, what, r))
            # points: every combination once, the last input varying fastest
            grid = glue.cells(tuple(ns))
            zs = [nodes(basis, v) for v in ns]
            want = ("arr", (dim, tot), {(i, p): zs[i][ix[i]] for i in range(dim) for p, ix in enumerate(grid)})
            exact(g, text + ": z", fz["z"], want, sym, fun)
            exact(g, text + ": x", fz["x"], ("seq", tuple(vec([b0[i] + (zs[i][ix[i]] - z0) / c[i] for ix in grid]) for i in range(dim))), sym, fun)

    guard(rep, g, "set-up", con, where_of(M, "mtfc", "__init__"), body)


def check_m(rep):
    M = module(MT)
    if "mtfc" not in M.classes:
        raise AnchorLost("mtfc")
    jobs = []
    for basis in BASES:
        elm = basis.startswith("ELM")
        for backend in ("C++", "Python"):
            jobs.append((setup_m, (basis, backend, (3, 2), "number" if elm else "numbers", 2 if elm else [2, 1], [0, 1] if elm else [[0, 1], [0]], "list")))
    for basis in ("CP", "FS"):
        for dim, ns in ((1, (4,)), (2, (2, 3)), (3, (2, 3, 2))):
            for how, nC, rows in NCM[dim]:
                jobs.append((setup_m, (basis, "C++", ns, how, nC, rows, "list")))
    for how, nC, rows in NCE:
        for dim, ns in ((1, (3,)), (2, (3, 2))):
            jobs.append((setup_m, ("ELMSin", "Python", ns, how, nC, rows, "list")))
    for xk in XM:
        for ns, nC, rows in (((4,), [2], [[0, 1]]), ((3, 4), [1, 2], [[0], [0, 1]]), ((2, 2, 3), [0, 1, 2], [[], [0], [0, 1]])):
            jobs.append((setup_m, ("LeP", "C++", ns, "numbers", nC, rows, xk)))
        jobs.append((setup_m, ("ELMTanh", "C++", (2, 3), "number", 1, [0], xk)))
    for nk in ("numpy", "jax"):
        jobs.append((setup_m, ("CP", "C++", (2, 3), "numbers", [1, 2], [[0], [0, 1]], "list", nk)))
    parallel(rep, jobs, native=False)
