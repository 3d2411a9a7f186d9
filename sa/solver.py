"""Least-squares drivers: what LS, LsClass, NLLS and NllsClass iterate, when they stop and what they return."""
import mpmath as mp
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import terms
import glue
from ai import Opq, Ref, ClsV, FnV, Giveup, DEAD
from core import module, parallel, AnchorLost
from glue import Glue, Num, Undefined, same, show

MOD = "tfc.utils.TFCUtils"
KINDS = ("array", "TFCDict", "TFCDictRobust")
TOL, ITMAX, IT = Symbol("tol", positive=True), Symbol("maxIter", integer=True, positive=True), Symbol("it", integer=True, nonnegative=True)


class Wrong(Exception):
    """A definite failure on the analysed path."""


def clone_fn(g, f, st):
    """The function as tracing sees it now: later rebinding of its free variables has no effect."""
    if not isinstance(f, FnV) or f.envid is None:
        return f
    chain, e = [], f.envid
    while e is not None and e in st.envs:
        chain.append(e)
        e = st.envs[e].get("__parent__")
    mp_ = {}
    for e in chain:
        mp_[e] = g.ip.newenv(st, dict(st.envs[e]), None)
    import copy

    def re(v):
        if isinstance(v, FnV) and v.envid in mp_:
            v = copy.copy(v)
            v.envid = mp_[v.envid]
        return v

    for e in chain:
        n = mp_[e]
        for k, v in list(st.envs[n].items()):
            st.envs[n][k] = re(v)
        par = st.envs[e].get("__parent__")
        st.envs[n]["__parent__"] = mp_.get(par, par)
    return re(f)


def pe_model(g):
    """What partial evaluation does: the named arguments are fixed to the given values, the others stay, in order."""

    def pe(ip, args, kw, st, node):
        cn = kw.get("constant_arg_nums")
        ks = ip.items(cn, st) if cn is not None else []
        if ks is None or not all(alg.isexpr(k) and k.is_Integer for k in ks) or any(isinstance(a, ai.Star) for a in args):
            raise Giveup("constant argument numbers")
        ks = sorted({int(k) for k in ks})
        n = len(args)
        if any(not 0 <= k < n for k in ks):
            raise Wrong("pe is asked to fix argument %s of %d" % (ks, n))
        given = list(args)

        def wrapper(ip, a, kw2, st, node):
            if not ks:
                return a[0]
            f = clone_fn(g, a[0], st)

            def run(ip, rest, kw3, st, node):
                if len(rest) != n - len(ks):
                    raise Wrong("a partially evaluated function of %d arguments is called with %d" % (n - len(ks), len(rest)))
                it = iter(rest)
                return ip.call(f, [given[i] if i in ks else next(it) for i in range(n)], {}, st, node)

            c = g.closure("pe", run)
            c.pe = (f, ks, given)
            return c

        return g.closure("pe-wrapper", wrapper)

    return pe


def world(kind, nargs, method="pinv", userJ=False):
    g = Glue()
    ip, st = g.ip, g.st
    R = g.size("R")
    if kind == "array":
        n = g.size("n")
        shapes = {None: (n,)}
    elif kind == "TFCDict":
        shapes = {"q": (g.size("n1"),), "b": (g.size("n2"),)}
    else:
        shapes = {"q": (g.size("n1"), g.size("q1")), "b": (g.size("n2"),)}
    g.R, g.shapes, g.kind = R, shapes, kind
    M = module(MOD)
    g.M = M

    def res(ip, args, kw, st, node):
        if kw:
            raise Giveup("residual with keywords")
        if len(args) != nargs + 1:
            raise Wrong("the residual is called with %d arguments instead of %d" % (len(args), nargs + 1))
        return g.uf("res", [flat(g, args[0], st)] + list(args[1:]), (R,), st)

    def jac_of(ip, xi, rest, st, op="jac"):
        if len(rest) != nargs:
            raise Wrong("the residual is differentiated with %d arguments instead of %d" % (len(rest) + 1, nargs + 1))
        fx = flat(g, xi, st)
        if isinstance(xi, Ref) and xi.kind == "dict":
            D = st.heap[xi.id]
            ks = [k for k in D.items if not isinstance(k, tuple)]
            off, out = S.Zero, []
            for k in ks:
                d = ip.dims(st, D.items[k])
                out.append((k, g.uf(op + "col", [fx] + list(rest) + [off], (R,) + tuple(d), st)))
                sz = S.One
                for q in d:
                    sz *= q
                off = off + sz
            return ip.construct(D.cls, [tuple(out)], {}, st, None) if D.cls is not None else ip.dict(st, dict(out))
        return g.uf(op + "col", [fx] + list(rest) + [S.Zero], (R,) + tuple(ip.dims(st, xi)), st)

    resv = g.fn("res", res)

    def jacfwd(ip, args, kw, st, node):
        f = args[0]
        num = args[1] if len(args) > 1 else kw.get("argnums", S.Zero)
        if num != 0:
            raise Wrong("the Jacobian is taken with respect to argument %s" % num)

        def run(ip, a, kw2, st, node):
            fixed = f
            rest = list(a[1:])
            if isinstance(fixed, Opq) and hasattr(fixed, "pe"):
                inner, ks, given = fixed.pe
                if len(a) != len(given) - len(ks):
                    raise Wrong("a partially evaluated residual of %d arguments is differentiated with %d" % (len(given) - len(ks), len(a)))
                it = iter(a)
                full = [given[i] if i in ks else next(it) for i in range(len(given))]
                fixed, rest = inner, full[1:]
                a = full
            if fixed != resv:
                raise Giveup("Jacobian of %r" % (fixed,))
            return jac_of(ip, a[0], rest, st)

        return g.closure("jacfwd", run)

    def pinv(ip, args, kw, st, node):
        a = toarray(ip, args[0], st)
        d = ip.dims(st, a)
        if d is None or len(d) != 2:
            raise Giveup("pinv of shape %s" % (d,))
        return g.uf("pinv", [a], (d[1], d[0]), st)

    def lstsq(ip, args, kw, st, node):
        a, b = toarray(ip, args[0], st), toarray(ip, args[1], st)
        d, e = ip.dims(st, a), ip.dims(st, b)
        if d is None or len(d) != 2:
            raise Giveup("lstsq of shape %s" % (d,))
        return (g.uf("lstsq", [a, b], (d[1],) + tuple(e[1:]), st), Opq("lstsq-residuals", ()), Opq("lstsq-rank", ()), Opq("lstsq-sv", ()))

    def amax(ip, args, kw, st, node):
        if len(args) != 1 or kw or not ip.isarr(args[0]):
            return NotImplemented
        return g.uf("max", [args[0]], (), st)

    def while_loop(ip, args, kw, st, node):
        c, b, v = (list(args) + [kw.get(k) for k in ("cond_fun", "body_fun", "init_val")[len(args) :]])[:3]
        k = len(g.captured)
        out = {}
        if not (isinstance(v, Ref) and v.kind == "dict"):
            raise Giveup("loop state %r" % (v,))
        for key, x in st.heap[v.id].items.items():
            out[key] = after(g, x, st, "loop%d_%s" % (k, key)) if key != "args" else x
        frozen = {key: g.freeze(x, st) for key, x in st.heap[v.id].items.items() if key != "args"}
        g.captured.append(dict(cond=c, body=b, init=frozen, args=st.heap[v.id].items.get("args"), out=out, keys=list(out), line=ip.line))
        return ip.dict(st, out)

    def warm(ip, args, kw, st, node):
        return Symbol("clock_%d" % ip.new())

    g.models.update(
        {
            "jax.jacfwd": jacfwd,
            "np.linalg.pinv": pinv,
            "np.linalg.lstsq": lstsq,
            "np.max": amax,
            "np.amax": amax,
            "jax.lax.while_loop": while_loop,
            "jax.experimental.io_callback": lambda ip, a, k, st, n: None,
            "time.process_time": warm,
            "time.perf_counter": warm,
            MOD + ".pe": pe_model(g),
        }
    )
    g.res = resv
    g.userJ = g.fn("userJ", lambda ip, a, kw, st, n: check_userJ(g, ip, a, st, nargs)) if userJ else None
    g.argv = [g.array("arg%d" % i, (g.size("k%d" % i),)) for i in range(nargs)]
    return g


def check_userJ(g, ip, a, st, nargs):
    if len(a) != nargs + 1:
        raise Wrong("the Jacobian is called with %d arguments instead of %d" % (len(a), nargs + 1))
    n = S.Zero
    for d in g.shapes.values():
        q = S.One
        for x in d:
            q *= x
        n += q
    return g.uf("userjac", [flat(g, a[0], st)] + list(a[1:]), (g.R, n), st)


def toarray(ip, v, st):
    if ip.isarr(v):
        return v
    raise Giveup("matrix %r" % (v,))


def flat(g, v, st):
    """Content of the unknowns as one vector, in the order of the keys."""
    ip = g.ip
    if isinstance(v, Ref) and v.kind == "dict":
        import npmodel

        parts = []
        for k, x in st.heap[v.id].items.items():
            if isinstance(k, tuple):
                continue
            if not ip.isarr(x):
                raise Giveup("unknowns %r" % (x,))
            parts.append(flat1(g, x, st))
        return npmodel.concat(ip, parts, 0, st)
    if ip.isarr(v):
        return flat1(g, v, st)
    raise Giveup("unknowns %r" % (v,))


def flat1(g, x, st):
    import npmodel

    d = g.ip.dims(st, x)
    if len(d) == 1:
        return x
    n = S.One
    for q in d:
        n *= q
    return npmodel.reshape(g.ip, x, (sp.expand(n),), st)


def unknowns(g, name, lib="jax"):
    """A value for the unknowns: an array or one of the dictionaries."""
    ip, st = g.ip, g.st
    if g.kind == "array":
        return g.array(name, g.shapes[None], lib)
    return ip.construct(ClsV(g.kind, g.M), [tuple((k, g.array("%s_%s" % (name, k), d, lib)) for k, d in g.shapes.items())], {}, st, None)


def after(g, x, st, name):
    ip = g.ip
    if ip.isarr(x):
        return g.array(name, ip.dims(st, x)) if st is g.st else mk(g, name, ip.dims(st, x), st)
    if isinstance(x, Ref) and x.kind == "dict":
        D = st.heap[x.id]
        its = tuple((k, after(g, v, st, "%s_%s" % (name, k))) for k, v in D.items.items() if not isinstance(k, tuple))
        return ip.construct(D.cls, [its], {}, st, None) if D.cls is not None else ip.dict(st, dict(its))
    if alg.isexpr(x) or isinstance(x, (int, bool)):
        return Symbol(name, integer=True, nonnegative=True)
    raise Giveup("loop state %r" % (x,))


def mk(g, name, dims, st):
    F = Function(name)
    r = g.ip.arr(st, dims, lambda idx: F(*idx), name)
    st.heap[r.id].lib = "jax"
    return r


SIZES = {"n": 2, "n1": 2, "q1": 2, "n2": 1, "R": 6}


def valuations(g, extra=()):
    out = []
    for k, seed in enumerate((0, 1)):
        sym = {}
        for s in g.p.bounds:
            if isinstance(s, Symbol):
                sym[s] = mp.mpf(SIZES.get(s.name, 2) + (seed if s.name in ("n", "n2", "R") else 0))
        sym[TOL] = mp.mpf("1e-3")
        sym[ITMAX] = mp.mpf(7)
        out.append((sym, seed))
    return out


def number(g, sym, seed, affine=True, over=None):
    """Operators at one valuation: the residual is an arbitrary affine function of the unknowns for the drivers of
    linear problems, an arbitrary function for the others."""

    def A(rest, R, n):
        return {(i, j): glue.h01("A", seed, tuple(glue.canon(v) for v in rest), i, j) + (2 if i == j else 0) for i in range(R) for j in range(n)}

    def res(vals, shape, meta):
        x, rest = vals[0], vals[1:]
        R, n = shape[0], x[1][0]
        if affine:
            a = A(rest, R, n)
            return {(i,): sum(a[(i, j)] * x[2][(j,)] for j in range(n)) + glue.h01("b", seed, tuple(glue.canon(v) for v in rest), i) for i in range(R)}
        return {(i,): glue.h01("r", seed, tuple(glue.canon(v) for v in vals), i) for i in range(R)}

    def jac(vals, shape, meta):
        x, rest, off = vals[0], vals[1:-1], int(vals[-1][1])
        R, n = shape[0], x[1][0]
        a = A(rest, R, n) if affine else {(i, j): glue.h01("J", seed, tuple(glue.canon(v) for v in vals[:-1]), i, j) + (2 if i == j else 0) for i in range(R) for j in range(n)}
        out = {}
        for idx in glue.cells(shape):
            f = 0
            for q, s in zip(idx[1:], shape[1:]):
                f = f * s + q
            out[idx] = a[(idx[0], off + f)]
        return out

    def userjac(vals, shape, meta):
        if affine:
            return A(vals[1:], *shape)
        return {(i, j): glue.h01("UJ", seed, tuple(glue.canon(v) for v in vals), i, j) + (2 if i == j else 0) for i in range(shape[0]) for j in range(shape[1])}

    interp = {"res": res, "jaccol": jac, "userjac": userjac, "pinv": glue.pinv_op, "lstsq": glue.lstsq_op, "max": lambda v, s, m: max(v[0][2].values())}
    N = Num(g, sym, interp)
    names = set()
    for a in g.ip.modules and [g]:
        pass
    return N


def extremes(g, sym, seed, f_res, f_dxi, f_cond):
    """The stopping condition where the largest entry alone decides: it may have either sign and stand anywhere, and
    the entries together may exceed the tolerance while none of them does."""
    tol = mp.mpf("1e-3")
    N0 = number(g, sym, seed, affine=False)
    N0.fun = Funs(N0.fun)
    R, n = N0.val(f_res)[1][0], len(N0.val(f_dxi)[2])

    def shapes(k):
        out = [[tol * mp.mpf("0.99")] * k, [-tol * mp.mpf("0.99")] * k, [mp.mpf(5)] * k]
        for p in {0, k - 1, k // 2}:
            for v in (5, -5):
                out.append([mp.mpf(v) if i == p else mp.mpf("1e-9") * (-1) ** i for i in range(k)])
        return out

    both = [mp.mpf(2)]
    for rv, dv in [(a, both * n) for a in shapes(R)] + [(both * R, b) for b in shapes(n)]:
        s = dict(sym)
        s[IT], s[TOL] = mp.mpf(3), tol
        N = number(g, s, seed, affine=False)
        N.interp["res"] = lambda vals, shape, meta, rv=rv: {(i,): rv[i] for i in range(shape[0])}
        N.fun = Funs(N.fun)
        keys = sorted(N0.val(f_dxi)[2])
        N.fun["dxi"] = lambda *i, dv=dv: dv[keys.index(tuple(int(mp.nint(q)) for q in i))]
        want = bool(max(abs(q) for q in rv) > tol and max(abs(q) for q in dv) > tol)
        have = N.val(f_cond)[1]
        if bool(have != 0) != want:
            raise Wrong("with residual %s, last change %s and tolerance %s the iteration %s" % ([mp.nstr(q, 3) for q in rv], [mp.nstr(q, 3) for q in dv], mp.nstr(tol, 3), "goes on" if have != 0 else "stops"))


class Funs(dict):
    """Free input arrays: arbitrary content, one per name."""

    def __contains__(self, k):
        return dict.__contains__(self, k) or k.startswith(("arg", "init", "xi", "dxi", "loop", "i_arg"))

    def __missing__(self, k):
        if k.startswith(("arg", "init", "xi", "dxi", "loop", "i_arg")):
            return lambda *idx, k=k: glue.h01("in", k, tuple(int(mp.nint(i)) for i in idx))
        raise KeyError(k)

    def copy(self):
        return Funs(self)


def vec(N, fz):
    """Numeric unknowns as a flat list."""
    v = N.val(fz)
    return v


def check(rep):
    check_linear(rep)
    check_nonlinear(rep)


def check_linear(rep):
    jobs = []
    for kind in KINDS:
        for cls in ("LS", "LsClass"):
            for timer in (False, True):
                for method in ("pinv", "lstsq"):
                    jobs.append((linear, (cls, kind, method, timer, 0, (), False)))
                    jobs.append((linear, (cls, kind, method, timer, 2, (), False)))
                jobs.append((linear, (cls, kind, "pinv", timer, 1, (), True)))
                jobs.append((linear, (cls, kind, "lstsq", timer, 1, (), True)))
        for timer in (False, True):
            jobs.append((linear, ("LsClass", kind, "pinv", timer, 1, (), False, True)))
    jobs += [j for j in constants() if j[0] is linear]
    parallel(rep, jobs, native=False)


def check_nonlinear(rep):
    jobs = []
    for kind in KINDS:
        for cls in ("NLLS", "NllsClass"):
            for timer in (False, True):
                for method in ("pinv", "lstsq"):
                    jobs.append((nonlinear, (cls, kind, method, timer, False, 0, (), None)))
                    jobs.append((nonlinear, (cls, kind, method, timer, True, 1, (), None)))
                    jobs.append((nonlinear, (cls, kind, method, timer, False, 2, (), None)))
                    jobs.append((nonlinear, (cls, kind, method, timer, False, 1, (), "J")))
                jobs.append((nonlinear, (cls, kind, "pinv", timer, False, 1, (), "cond")))
                jobs.append((nonlinear, (cls, kind, "pinv", timer, False, 1, (), "body")))
        for timer in (False, True):
            jobs.append((nonlinear, ("NllsClass", kind, "pinv", timer, False, 1, (), None, True)))
    jobs += [j for j in constants() if j[0] is nonlinear]
    parallel(rep, jobs, native=False)


CONSTS = {2: ((1,), (2,), (1, 2), (2, 1)), 3: ((1, 3), (3, 1), (2, 3), (3, 2), (3, 1, 2)), 4: ((2, 4), (4, 1, 3), (1, 2, 4))}


def constants():
    """Arguments declared constant: the same problem is solved, whichever they are and in whichever order given."""
    jobs = []
    for nargs, cs in CONSTS.items():
        for const in cs:
            for kind in ("array", "TFCDict") if nargs > 2 else KINDS:
                for cls in ("LS", "LsClass"):
                    jobs.append((linear, (cls, kind, "pinv", nargs == 3, nargs, const, False)))
                for cls in ("NLLS", "NllsClass"):
                    jobs.append((nonlinear, (cls, kind, "pinv", nargs == 3, False, nargs, const, None)))
    return jobs


def call_driver(g, cls, first, kw, timer, second=None, rest=None):
    """Result of the function form, or of constructing the class form and running it."""
    ip, st = g.ip, g.st
    a = list(g.argv)
    if cls in ("LS", "NLLS"):
        f = ip.mod_lookup(g.M, cls, st)
        if f is None:
            raise AnchorLost(cls)
        return ip.call(f, [first, g.res] + a, kw, st)
    if cls not in g.M.classes:
        raise AnchorLost(cls)
    o = ip.construct(ClsV(cls, g.M), [first, g.res] + a, kw, st, None)
    if not isinstance(o, Ref):
        raise Giveup("construction gives %r" % (o,))
    g.obj = o
    if g.first:
        return ip.call(ip.getattr(o, "run", st), [second if second is not None else first] + list(a if rest is None else rest), {}, st)
    # a run before the one that is judged, with another guess and other values of the arguments that are not constant
    before = unknowns(g, "init_prior")
    others = [g.array("arg_prior%d" % i, ip.dims(st, q)) for i, q in enumerate(a if rest is None else rest)]
    keep(g, "the guess given to an earlier run", before)
    p = ip.call(ip.getattr(o, "run", st), [before] + others, {}, st)
    if isinstance(p, tuple):
        p = p[0]
    if p is not DEAD:
        keep(g, "the result of an earlier run", p)
    return ip.call(ip.getattr(o, "run", st), [second if second is not None else first] + list(a if rest is None else rest), {}, st)


def keep(g, what, v):
    """Remember a value of the caller that the drivers have no business changing."""
    g.kept = getattr(g, "kept", [])
    g.kept.append((what, v, g.freeze(v, g.st)))


def changed(g, N):
    for what, v, fz in getattr(g, "kept", []):
        a, b = N.val(fz), N.val(g.freeze(v, g.st))
        if not same(a, b):
            return "%s is changed from %s to %s" % (what, show(a), show(b))
    return None


def flatlist(v):
    """Numbers of an array or dictionary of arrays in order, with their shapes."""
    if v[0] == "arr":
        return [v[2][i] for i in sorted(v[2])]
    if v[0] == "dict":
        return [x for _, y in v[1] for x in flatlist(y)]
    raise Giveup("result %s" % (v[0],))


def shape_of(v):
    if v[0] == "arr":
        return v[1]
    if v[0] == "dict":
        return tuple((k, shape_of(x)) for k, x in v[1])
    return None


def linear(rep, cls, kind, method, timer, nargs, const, userJ, first=False):
    con = "%s %s unknowns, %s%s%s%s" % (cls, kind, method, ", timed" if timer else "", ", %d arguments" % nargs + (" of which %s constant" % (list(const),) if const else "") if nargs else "", (", user Jacobian" if userJ else "") + (", first run" if first else ""))
    where = "%s" % module(MOD).path
    g = world(kind, nargs, method, userJ)
    g.first = first
    ip, st = g.ip, g.st
    node = g.M.funcs.get(cls) or g.M.classes.get(cls)
    if node is None:
        raise AnchorLost(cls)
    where += ":%d" % node.lineno
    try:
        x0 = unknowns(g, "init")
        kw = dict(method=method, timer=timer)
        keep(g, "the first argument", x0)
        for i, q in enumerate(g.argv):
            keep(g, "argument %d of the residual" % (i + 1), q)
        if const:
            kw["constant_arg_nums"] = ip.list(st, [Integer(k) for k in const])
            keep(g, "the list constant_arg_nums", kw["constant_arg_nums"])
        if userJ:
            kw["J"] = g.userJ
        rest = [a for i, a in enumerate(g.argv) if i + 1 not in const]
        second = unknowns(g, "xi0") if cls == "LsClass" else None
        if second is not None:
            keep(g, "the guess", second)
        r = call_driver(g, cls, x0, kw, timer, second, rest)
        rep.stats(ip)
        if r is DEAD:
            rep.violation("linear-solve", con, where, "the call ends the program")
            return
        out = r
        if timer:
            t = ip.items(r, st)
            if t is None or len(t) != 2:
                raise Giveup("timed result %r" % (r,))
            out = t[0]
        fz = g.freeze(out, st)
        probe = g.uf("res", [g.ip.arr(st, (total(g),), lambda i: S.Zero)] + g.argv, (g.R,), st)
        fr = g.freeze(probe, st)
        jz = g.freeze(g.uf("jaccol" if not userJ else "userjac", [g.ip.arr(st, (total(g),), lambda i: S.Zero)] + g.argv + ([S.Zero] if not userJ else []), (g.R, total(g)), st), st)
    except Wrong as e:
        rep.violation("linear-solve", con, where, str(e))
        return
    except Undefined as e:
        rep.violation("linear-solve", con, where, "%s has no value there" % e)
        return
    except Giveup as e:
        bad = shapes_bad(g)
        if bad:
            rep.violation("linear-solve", con, where, bad)
        else:
            rep.undecided("linear-solve", con, e)
        return
    bad = shapes_bad(g)
    if bad:
        rep.violation("linear-solve", con, where, bad)
        return
    for sym, seed in valuations(g):
        N = number(g, sym, seed)
        N.fun = Funs(N.fun)
        try:
            v = N.val(fz)
            A, b = glue.matrix(N.val(jz)), N.val(fr)
        except terms.Unknown as e:
            rep.undecided("linear-solve", con, "value: %s" % e)
            return
        bad = changed(g, N)
        if bad:
            rep.violation("linear-solve", con, where, bad)
            return
        want = -(glue.pinv_num(A) * mp.matrix([b[2][(i,)] for i in range(b[1][0])]))
        got = flatlist(v)
        if len(got) != len(want) or any(not terms.close(got[i], want[i]) for i in range(len(got))):
            rep.violation("linear-solve", con, where, "for an affine residual the result %s is not the least-squares solution [%s]" % (show(v), ", ".join(mp.nstr(x, 5) for x in want)))
            return
        if shape_of(v) != expected_shape(g, N):
            rep.violation("linear-solve", con, where, "the result has the shape %s instead of that of the unknowns %s" % (shape_of(v), expected_shape(g, N)))
            return
    rep.hold("linear-solve", con)


def shapes_bad(g):
    for sym, seed in valuations(g):
        m = g.shape_error(sym)
        if m:
            return m
    return None


def total(g):
    n = S.Zero
    for d in g.shapes.values():
        q = S.One
        for x in d:
            q *= x
        n += q
    return sp.expand(n)


def expected_shape(g, N):
    f = lambda d: tuple(int(terms.ev(sp.sympify(x), N.sym, N.fun)) for x in d)
    if g.kind == "array":
        return f(g.shapes[None])
    return tuple((k, f(d)) for k, d in g.shapes.items())


def guarded(rep, rule, con, where, g, f):
    """Run one analysis; definite failures are violations, shapes outside the fragment undecided."""
    try:
        r = f()
        bad = shapes_bad(g)
        if bad:
            raise Wrong(bad)
        return True, r
    except Wrong as e:
        rep.violation(rule, con, where, str(e))
    except Undefined as e:
        rep.violation(rule, con, where, "%s has no value there" % e)
    except (Giveup, terms.Unknown) as e:
        bad = shapes_bad(g)
        if bad:
            rep.violation(rule, con, where, bad)
        else:
            rep.undecided(rule, con, e)
    return False, None


def nonlinear(rep, cls, kind, method, timer, printout, nargs, const, user, first=False):
    """user: None, or which of J, cond, body the caller supplies."""
    con = "%s %s unknowns, %s%s%s%s%s" % (
        cls, kind, method, ", timed" if timer else "", ", printing" if printout else "",
        (", %d arguments" % nargs + (" of which %s constant" % (list(const),) if const else "")) if nargs else "",
        (", user %s" % user if user else "") + (", first run" if first else ""),
    )
    rule = "nonlinear-solve"
    g = world(kind, nargs, method, user == "J")
    g.first = first
    ip, st = g.ip, g.st
    node = g.M.funcs.get(cls) or g.M.classes.get(cls)
    if node is None:
        raise AnchorLost(cls)
    where = "%s:%d" % (g.M.path, node.lineno)

    def drive():
        x0 = unknowns(g, "init")
        kw = dict(method=method, timer=timer, tol=TOL, maxIter=ITMAX, printOut=printout)
        keep(g, "the first argument", x0)
        for i, q in enumerate(g.argv):
            keep(g, "argument %d of the residual" % (i + 1), q)
        if const:
            kw["constant_arg_nums"] = ip.list(st, [Integer(k) for k in const])
            keep(g, "the list constant_arg_nums", kw["constant_arg_nums"])
        if user == "J":
            kw["J"] = g.userJ
        if user == "cond":
            kw["cond"] = g.fn("ucond", lambda ip, a, k, st, n: g.uf("ucond", [a[0]], (), st))
        if user == "body":
            kw["body"] = g.fn("ubody", lambda ip, a, k, st, n: a[0])
        rest = [a for i, a in enumerate(g.argv) if i + 1 not in const]
        second = unknowns(g, "xi0") if cls == "NllsClass" else None
        if second is not None:
            keep(g, "the guess", second)
        r = call_driver(g, cls, x0, kw, timer, second, rest)
        rep.stats(ip)
        if r is DEAD:
            raise Wrong("the call ends the program")
        t = ip.items(r, st)
        if t is None or len(t) != (3 if timer else 2):
            raise Giveup("result %r" % (r,))
        return x0 if second is None else second, rest, t

    ok, got = guarded(rep, rule, con, where, g, drive)
    if not ok:
        return
    start, rest, t = got

    def judge():
        caps = [c for c in g.captured if all(x is not None for x in (c["out"].get("xi"), c["out"].get("it")))]
        hit = [c for c in caps if ai.veq(c["out"]["it"], t[1])]
        if len(hit) != 1:
            raise Giveup("the number of iterations returned is %r" % (t[1],))
        c = hit[0]
        if set(c["keys"]) != {"xi", "dxi", "it", "args"}:
            raise Giveup("loop state %s" % c["keys"])
        vals = []
        # one step from an arbitrary state
        xi = unknowns(g, "xi")
        dxi = g.array("dxi", (total(g),))
        state = ip.dict(st, {"xi": xi, "dxi": dxi, "it": IT, "args": c["args"]})
        f_xi, f_dxi = g.freeze(xi, st), g.freeze(dxi, st)
        cv = ip.call(c["cond"], [state], {}, st)
        cv = cv if alg.iscond(cv) or isinstance(cv, bool) else ip.cond(cv, st) if not alg.isexpr(cv) else cv
        f_cond = g.freeze(cv, st)
        if user == "cond" and not (alg.isexpr(cv) and any(f.func.__name__ == "uf_ucond" for f in cv.atoms(sp.Function))):
            raise Wrong("the stopping condition given by the caller is not used")
        state = ip.dict(st, {"xi": unknowns(g, "xi"), "dxi": dxi, "it": IT, "args": c["args"]})
        if user == "body":
            if c["body"] != Opq("fn", ("ubody",)):
                raise Giveup("the loop body is %r" % (c["body"],))
            nxt = None
        else:
            nv = ip.call(c["body"], [state], {}, st)
            if not (isinstance(nv, Ref) and nv.kind == "dict"):
                raise Giveup("next state %r" % (nv,))
            D = st.heap[nv.id].items
            nxt = {k: g.freeze(D[k], st) for k in ("xi", "dxi", "it")}
            na = [g.freeze(x, st) for x in (ip.items(D.get("args"), st) or [])]
        fx = flat(g, unknowns(g, "xi"), st)
        f_res = g.freeze(g.uf("res", [fx] + g.argv, (g.R,), st), st)
        f_jac = g.freeze(g.uf("userjac", [fx] + g.argv, (g.R, total(g)), st) if user == "J" else g.uf("jaccol", [fx] + g.argv + [S.Zero], (g.R, total(g)), st), st)
        f_start = g.freeze(start, st)
        f_ret = g.freeze(t[0], st)
        f_fin = g.freeze(c["out"]["xi"], st)
        for sym, seed in valuations(g):
            if user != "cond":
                extremes(g, sym, seed, f_res, f_dxi, f_cond)
            for tol, itv, dscale in ((mp.mpf("1e-3"), 3, 1), (mp.mpf("1e-3"), 6, 1), (mp.mpf("1e-3"), 7, 1), (mp.mpf("0.9999"), 3, 1), (mp.mpf("1e-3"), 3, mp.mpf("1e-6")), (mp.mpf("1e-3"), 0, -1), ("res", 2, 1), ("dxi", 2, 1), (mp.mpf(40), 3, 1000), (mp.mpf(40), 3, -1000)):
                s = dict(sym)
                s[IT] = mp.mpf(itv)
                s[TOL] = mp.mpf(1)
                N = number(g, s, seed, affine=False)
                N.fun = Funs(N.fun)
                N.fun["dxi"] = lambda *i, k=dscale: k * glue.h01("in", "dxi", tuple(int(mp.nint(q)) for q in i))
                r = N.val(f_res)
                mr = max(abs(x) for x in r[2].values())
                md = max(abs(x) for x in N.val(f_dxi)[2].values())
                if tol == "res":
                    tol = mr
                elif tol == "dxi":
                    tol = md
                s[TOL] = N.sym[TOL] = tol
                if user != "cond":
                    want = bool(mr > tol and itv < 7 and md > tol)
                    have = N.val(f_cond)
                    if have[1] not in (True, False):
                        have = ("val", bool(have[1] != 0))
                    if have[1] != want:
                        raise Wrong("with max|res|=%s, max|dxi|=%s, tol=%s, iteration %d of 7 the iteration %s" % (mp.nstr(mr, 5), mp.nstr(md, 5), mp.nstr(tol, 5), itv, "goes on" if have[1] else "stops"))
                if nxt is not None:
                    A = glue.matrix(N.val(f_jac))
                    step = glue.pinv_num(A) * mp.matrix([r[2][(i,)] for i in range(r[1][0])])
                    d = flatlist(N.val(nxt["dxi"]))
                    if len(d) != len(step) or any(not terms.close(abs(d[i]), abs(step[i])) for i in range(len(d))):
                        raise Wrong("the recorded change of the unknowns is not the least-squares step")
                    x, y = flatlist(N.val(f_xi)), flatlist(N.val(nxt["xi"]))
                    if len(y) != len(x) or any(not terms.close(y[i], x[i] - step[i]) for i in range(len(x))):
                        raise Wrong("one iteration takes %s to %s instead of %s" % ([mp.nstr(q, 5) for q in x], [mp.nstr(q, 5) for q in y], [mp.nstr(x[i] - step[i], 5) for i in range(len(x))]))
                    if shape_of(N.val(nxt["xi"])) != expected_shape(g, N):
                        raise Wrong("the unknowns change shape during the iteration")
                    if not terms.close(N.val(nxt["it"])[1], mp.mpf(itv + 1)):
                        raise Wrong("the iteration counter goes from %d to %s" % (itv, show(N.val(nxt["it"]))))
                    if [glue.canon(N.val(q)) for q in na] != [glue.canon(N.val(g.freeze(q, st))) for q in rest]:
                        raise Wrong("the arguments of the residual change during the iteration")
                bad = changed(g, N)
                if bad:
                    raise Wrong(bad)
                # start and result
                if not same(N.val(c["init"]["xi"]), N.val(f_start)):
                    raise Wrong("the iteration does not start from the given guess")
                if not terms.close(N.val(c["init"]["it"])[1], mp.mpf(0)):
                    raise Wrong("the iteration counter starts at %s" % show(N.val(c["init"]["it"])))
                if max(abs(q) for q in flatlist(N.val(c["init"]["dxi"]))) < mp.mpf("0.5"):
                    raise Wrong("the recorded change starts at %s, so the iteration may stop at once" % show(N.val(c["init"]["dxi"])))
                if not same(N.val(f_ret), N.val(f_fin)):
                    raise Wrong("the value returned is not the one the iteration ended with")
        return True

    ok, _ = guarded(rep, rule, con, where, g, judge)
    if ok:
        rep.hold(rule, con)
