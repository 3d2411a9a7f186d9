"""n-input random features.

H(x, d)[i, k] = prod_l (c_l w_{l,k})^{d_l} s^(|d|)(sum_l w_{l,k} z_{l,i} + b_k),  z = (x - x0) c,  c = 1/(xf - x0),
columns listed in nC left out unless the full set is requested."""
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import arr
import bf
import domain
import elm
import terms
from ai import Giveup, Ptr, VarRef, State
from bf import N, M, ROW, COL
from core import module, modules, unit, parallel, AnchorLost
from elm import u, ACT, act

mp = terms.mp
X, X0, XF, NC = Function("x"), Function("x0"), Function("xf"), Function("i_nC")
W, B, D = Function("w"), Function("b"), Function("i_d")
nc = domain.nc
DIM = Symbol("dim", integer=True, positive=True)
DD = Symbol("dDim0", integer=True, nonnegative=True)
NAMES = ("Sigmoid", "Tanh", "Sin", "Swish", "ReLU")
MAXORD = 8


def fun(rem, dv=None, sgn=1):
    return {
        "x": lambda i, j: mp.mpf("0.3") + mp.mpf("0.21") * i + mp.mpf("0.37") * j,
        "x0": lambda *a: mp.mpf("-0.4") + mp.mpf("0.3") * a[0],
        "xf": lambda *a: mp.mpf("1.1") + mp.mpf("0.9") * a[0],
        "w": lambda i, j: mp.mpf("0.7") - mp.mpf("0.29") * i + mp.mpf("0.13") * j + mp.mpf("0.05") * i * j,
        "b": lambda *a: sgn * (mp.mpf("1.9") - mp.mpf("0.41") * a[-1]),
        "i_nC": lambda *a: mp.mpf(rem[int(a[-1])]) if 0 <= int(a[-1]) < len(rem) else mp.mpf(-7),
        "i_d": lambda *a: mp.mpf(dv[int(a[0])]),
    }


def definition(name, dim, ds, sym=True):
    """(coefficient, argument)"""
    cs = [1 / (XF(l) - X0(l)) for l in range(dim)]
    zs = [(X(l, ROW) - X0(l)) * cs[l] for l in range(dim)]
    co = sp.Mul(*[(cs[l] * W(l, COL)) ** ds[l] for l in range(dim)])
    arg = sp.Add(*[W(l, COL) * zs[l] for l in range(dim)]) + B(COL)
    return co, arg


# ------------------------------------------------------------------ pure Python
def py_setup(cls, dim, rem, hook=None):
    p = alg.Prover()
    for s in (N, M):
        p.declare(s, 1)
    p.declare(nc, 1)
    p.declare(ROW, 0, N - 1)
    p.declare(COL, 0, M - 1)
    ip = ai.Interp(modules(), None, p)
    ip.modstack = []
    elm.install(ip)
    st = State()
    Mo = module("tfc.utils.BF_Py")
    if cls not in Mo.classes:
        raise AnchorLost("BF_Py.%s" % cls)
    dim = Integer(dim)
    ax0 = ip.arr(st, (dim,), lambda i: X0(i[0]), "x0")
    axf = ip.arr(st, (dim,), lambda i: XF(i[0]), "xf")
    if rem:
        anc = ip.arr(st, (nc,), lambda i: NC(i[0]), "nC")
        p.atom_bounds.append(lambda f: (S.Zero, M - 1) if f.func == NC else None)
    else:
        anc = ip.arr(st, (S.One,), lambda i: -S.One, "nC")
    o = ip.construct(ai.ClsV(cls, Mo), [ax0, axf, anc, M], {}, st, None)
    if not isinstance(o, ai.Ref):
        raise Giveup("construction gives %r" % (o,))
    return ip, st, o, Mo


def py_weights(ip, st, o, dim, flat):
    dim = Integer(dim)
    if flat:
        w = ip.arr(st, (sp.expand(dim * M),), lambda i: Function("wflat")(i[0]), "w")
        b = ip.arr(st, (M,), lambda i: B(i[0]), "b")
    else:
        w = ip.arr(st, (dim, M), lambda i: W(i[0], i[1]), "w")
        b = ip.arr(st, (S.One, M), lambda i: B(i[1]), "b")
    ip.setattr(o, "w", w, st)
    ip.setattr(o, "b", b, st)


def python(rep, name, dim, ds, rem, full):
    cls = "nELM" + name
    con = "%s python: %d inputs, orders %s%s%s" % (cls, dim, ",".join(str(x) for x in ds), ", columns removed" if rem else "", ", full" if full else "")
    where = module("tfc.utils.BF_Py").path
    try:
        ip, st, o, Mo = py_setup(cls, dim, rem)
        for q in ds:
            if isinstance(q, Symbol):
                ip.p.declare(q, 1)
        py_weights(ip, st, o, dim, False)
        x = ip.arr(st, (Integer(dim), N), lambda i: X(i[0], i[1]), "x")
        H = ip.getattr(o, "H", st)
        where = "%s:%d" % (Mo.path, getattr(getattr(H, "node", None), "lineno", 0))
        da = ip.arr(st, (Integer(dim),), lambda i: ds[int(i[0])] if i[0].is_Integer else D(i[0]), "d") if not any(isinstance(q, Symbol) for q in ds) else tuple(ds)
        if name == "ReLU":
            da = ip.arr(st, (Integer(dim),), lambda i: ds[int(i[0])] if i[0].is_Integer else sel(ds, i[0]), "d")
        else:
            da = tuple(ds)
        r = bf.pick(ip, st, ip.call(H, [x, da, full], {}, st))
        rep.stats(ip)
        if not ip.isarr(r):
            raise Giveup("result %r" % (r,))
        dims = ip.dims(st, r)
        wd = M - nc if rem and not full else M
        if dims is None or len(dims) != 2:
            raise Giveup("shape %s" % (dims,))
        if sp.expand(dims[0] - N) != 0 or sp.expand(dims[1] - wd) != 0:
            if all(alg.isexpr(q) and q.free_symbols <= {N, M, nc} for q in dims):
                rep.violation("random-features", con, where, "the result has shape %s instead of (N, %s)" % (dims, wd))
                return
            raise Giveup("shape %s" % (dims,))
        J = Symbol("J", integer=True)
        ip.p.declare(J, 0, wd - 1)
        v = arr.simp(ip.r.elem(st.heap[r.id].ver, (ROW, J), st.pc), ip.p, st.pc)
        if not alg.isexpr(v):
            raise Giveup("value %r" % (v,))
    except Giveup as e:
        rep.undecided("random-features", con, e)
        return
    col = J
    ks = [f for f in v.atoms(sp.Function) if f.func.__name__ == "i_keep"]
    if rem and not full:
        keeps = getattr(ip, "keeps", {})
        if len(ks) != 1 or ks[0].args[1] != J:
            rep.undecided("random-features", con, "removal %s" % bf.short(v))
            return
        obj, a, L, tot = keeps[ks[0].args[0]]
        q = Symbol("q", integer=True)
        if a is None or a.dims != (nc,) or ip.r.elem(a.ver, (q,)) != NC(q) or sp.expand(tot - M) != 0:
            rep.violation("random-features", con, where, "the columns left out are not the ones listed") if a is not None and a.dims is not None else rep.undecided("random-features", con, "removal list")
            return
        v = v.xreplace({ks[0]: J})
    elif ks:
        rep.violation("random-features", con, where, "columns are left out although %s" % ("the full set is requested" if full else "none is listed"))
        return
    v = v.xreplace({J: COL})
    co, arg = definition(name, dim, ds)
    vals = [{ROW: a, COL: b, N: 4, M: 6, **{q: e for q, e in zip([x_ for x_ in ds if isinstance(x_, Symbol)], es)}} for a, b in ((0, 0), (2, 4), (3, 1)) for es in ((1, 2, 3), (2, 1, 1))]
    if name == "ReLU":
        tot = sum(ds)
        if tot == 0:
            e = Function("MAX")(S.Zero, arg)
        elif tot == 1:
            e = co * alg.ITE(alg.GT0(arg), S.One, S.Zero)
        else:
            e = S.Zero
        res = True
        for sg in (1, -1):
            r_ = terms.equal(v, e, vals, fun([], None, sg))
            if isinstance(r_, tuple):
                rep.violation("random-features", con, where, "the code gives %s, expected %s" % (bf.short(v), bf.short(e)))
                return
            if r_ is not True:
                res = r_
        if res is True or (res == "same" and relu_same(v, e, arg)):
            rep.hold("random-features", con)
        else:
            rep.undecided("random-features", con, "value %s" % bf.short(v))
        return
    s = elm.split_der(v)
    if s is None:
        rep.undecided("random-features", con, "derivative structure %s" % bf.short(v))
        return
    cf, base, orders = s
    for l in range(dim):
        o_ = orders.get(Integer(l), S.Zero)
        if sp.expand(o_ - ds[l]) != 0:
            rep.violation("random-features", con, where, "differentiated %s times with respect to input %d, requested %s" % (o_, l, ds[l]))
            return
    if set(orders) - {Integer(l) for l in range(dim)}:
        rep.violation("random-features", con, where, "differentiates with respect to an input that does not exist")
        return
    cs = sp.Mul(*[(1 / (XF(l) - X0(l))) ** ds[l] for l in range(dim)])
    e = cs * ACT[name].subs(u, arg)
    bf.judge(rep, "random-features", con, where, cf * base, e, vals, "activation and chain factor", fun([]))


def sel(ds, i):
    out = Integer(ds[-1])
    for q in range(len(ds) - 2, -1, -1):
        out = alg.ite(alg.eq0(sp.expand(i - q)), Integer(ds[q]), out)
    return out


def relu_same(v, e, arg):
    a = Symbol("a", real=True)
    b = a - (arg - B(COL))
    out = []
    for x in (v, e):
        x = sp.sympify(x).xreplace({B(COL): b})
        cs = []
        for sg in (1, -1, 0):
            q = Symbol("a+", positive=True) if sg == 1 else (-Symbol("a-", positive=True) if sg == -1 else S.Zero)
            y = x.xreplace({a: q})
            y = y.replace(lambda f: isinstance(f, sp.Function) and f.func.__name__ in ("MAX", "MIN"), lambda f: (sp.Max if f.func.__name__ == "MAX" else sp.Min)(*[sp.simplify(z) for z in f.args]))
            y = y.replace(lambda f: isinstance(f, sp.Function) and f.func in (alg.GT0, alg.GE0, alg.EQ0), lambda f: f.func(sp.simplify(f.args[0])))
            y = arr.simp(y, alg.Prover())
            if not alg.isexpr(y) or any(f.func in alg.CONDF | {alg.ITE} for f in y.atoms(sp.Function)):
                return False
            cs.append(sp.simplify(y))
        out.append(cs)
    return out[0] == out[1]


def py_setters(rep, name, dim):
    """A weight or bias array of the right size is used as given, whatever its shape."""
    cls = "nELM" + name
    con = "%s python: weights given flat, %d inputs" % (cls, dim)
    where = module("tfc.utils.BF_Py").path
    try:
        ip, st, o, Mo = py_setup(cls, dim, False)
        py_weights(ip, st, o, dim, True)
        for nm, want in (("w", Function("wflat")(sp.expand(Symbol("L", integer=True) * M + COL))), ("b", B(COL))):
            L = Symbol("L", integer=True)
            ip.p.declare(L, 0, dim - 1)
            if dim == 1:
                want = want.xreplace({L: S.Zero})
            g = bf.pick(ip, st, ip.getattr(o, nm, st))
            if not ip.isarr(g):
                raise Giveup("%s is %r" % (nm, g))
            dm = ip.dims(st, g)
            if dm is None or len(dm) != 2:
                raise Giveup("shape of %s" % nm)
            exp = (Integer(dim), M) if nm == "w" else (S.One, M)
            if any(sp.expand(a - b) != 0 for a, b in zip(dm, exp)):
                rep.violation("parameters", con, where, "%s is stored with shape %s instead of %s" % (nm, dm, exp))
                return
            v = arr.simp(ip.r.elem(st.heap[g.id].ver, (L if nm == "w" else S.Zero, COL), st.pc), ip.p, st.pc)
            r = terms.equal(v, want, [{L: a, COL: b, M: 5, N: 3} for a in range(dim) for b in (0, 3, 4)], {"wflat": lambda i: mp.mpf(3) + i * i, "b": lambda i: 1 + i})
            if isinstance(r, tuple):
                rep.violation("parameters", con, where, "%s[%s, %s] becomes %s" % (nm, "l", "k", bf.short(v)))
                return
            if r is not True:
                raise Giveup("%s: %s" % (nm, v))
        rep.hold("parameters", con)
    except Giveup as e:
        rep.undecided("parameters", con, e)


def py_jobs():
    d0, d1, d2 = [Symbol("d%d" % i, integer=True, positive=True) for i in range(3)]
    jobs = []
    for nm in NAMES:
        if nm == "ReLU":
            cs = [(1, (0,)), (1, (1,)), (1, (2,)), (2, (0, 0)), (2, (1, 0)), (2, (0, 1)), (2, (1, 1)), (2, (2, 0)), (2, (0, 2)), (3, (0, 0, 1)), (3, (0, 1, 0)), (3, (1, 0, 1)), (3, (0, 3, 0)), (3, (0, 0, 0))]
            cs = [(a, tuple(Integer(q) for q in b)) for a, b in cs]
        else:
            z = S.Zero
            cs = [(1, (z,)), (1, (d0,)), (2, (z, z)), (2, (d0, z)), (2, (z, d1)), (2, (d0, d1)), (3, (z, d1, d2)), (3, (d0, z, d2)), (3, (d0, d1, z)), (3, (d0, d1, d2)), (3, (z, z, z))]
        jobs.append((py_group, (nm, tuple(cs))))
    return jobs


def py_group(rep, nm, cs):
    for dim, ds in cs:
        python(rep, nm, dim, ds, False, False)
    dim, ds = cs[4] if nm == "ReLU" else cs[-2]
    python(rep, nm, dim, ds, True, False)
    python(rep, nm, dim, ds, True, True)
    for dim in (1, 2, 3):
        py_setters(rep, nm, dim)


# ------------------------------------------------------------------ native
WF = Function("w")  # native layout: dim x m, row-major
ZF = Function("z")
CF = Function("c")


def cxx_ip():
    p = alg.Prover()
    for s_ in (N, M, DIM):
        p.declare(s_, 1)
    p.declare(DD, 0)
    p.declare(ROW, 0, N - 1)
    p.declare(COL, 0, M - 1)
    p.declare(nc, 0, M)
    ip = ai.Interp(modules(), unit(), p)
    ip.modstack = []
    return ip, State()


def cxx_eval(rep, name):
    """The evaluation routine itself, for every total order it distinguishes."""
    cls = "nELM" + name
    path = "src/tfc/utils/BF.cc"
    con0 = "%s c++" % cls
    try:
        if cls not in unit().classes:
            raise AnchorLost("class %s in BF.cc" % cls)
        ip, st = cxx_ip()
        a = lambda F, nm: Ptr(ip.arr(st, None, lambda i: F(i[0]), nm), S.Zero)
        out = ip.arr(st, None, lambda i: Function("uninit_F")(i[0]), "F")
        o = ip.obj(st, ai.CxxCls(cls), {})
        fv = ip.cxx_method(o, "nElmHint", None, 5, st)
        if fv is None:
            raise Giveup("no nElmHint with 5 parameters")
        where = "%s:%s" % (path, fv.cxxfn.line)
        setm(ip, st, o, cls, {"m": M, "dim": DIM, "c": a(CF, "c"), "w": a(WF, "w"), "b": a(B, "b")})
        ip.call(fv, [a(D, "d"), DD, a(ZF, "z"), N, out], {}, st)
        rep.stats(ip)
        ver = st.heap[out.id].ver
        v = arr.simp(ip.r.elem(ver, (sp.expand(M * ROW + COL),), st.pc), ip.p, st.pc)
    except Giveup as e:
        rep.undecided("random-features", con0, e)
        return
    if name == "ReLU":
        for dm, dv in [(1, (0,)), (1, (1,)), (1, (2,)), (2, (0, 0)), (2, (1, 0)), (2, (0, 1)), (2, (1, 1)), (2, (2, 0)), (2, (0, 2)), (2, (1,)), (2, ()), (3, (0, 0, 1)), (3, (0, 1, 0)), (3, (1, 0, 1)), (3, (0, 3, 0)), (3, (0, 0, 0)), (3, (0, 1))]:
            cxx_relu(rep, cls, dm, dv)
    q = alg.fresh("q")
    tot = alg.binder(alg.SUM, q, S.Zero, DD, D(q))
    ks = list(range(MAXORD + 1)) if name != "Sin" else list(range(4))
    for k in ks + [None]:
        con = "%s: total order %s" % (con0, k if name != "Sin" else "%s modulo 4" % k) if k is not None else "%s: total order > %d" % (con0, MAXORD)
        if k is None and name in ("Sin", "ReLU"):
            continue
        if name == "ReLU" and k > 2:
            continue
        # a difference at a concrete instance is a witness
        bad = None
        und = None
        cases = orders(k if k is not None else 9, name)
        for dm, dv in cases:
            for dd in {len(dv), dm}:
                ds = list(dv) + [0] * (dm - len(dv))
                f = natfun(ds[:dd])
                for sg in (1, -1):
                    f["b"] = lambda *a_, sg=sg: sg * (mp.mpf("1.9") - mp.mpf("0.41") * a_[-1])
                    for row, col in ((0, 0), (1, 2)):
                        val = {DIM: mp.mpf(dm), DD: mp.mpf(dd), N: mp.mpf(2), M: mp.mpf(3), ROW: mp.mpf(row), COL: mp.mpf(col)}
                        want = expect_num(name, ds, dm, row, col, f)
                        try:
                            got = terms.NumReader(val, f).elem(ver, (3 * row + col,))
                        except terms.Unknown as x:
                            und = x
                            break
                        if not terms.close(got, want):
                            bad = "orders %s: entry (%d, %d) is %s, the derivative is %s" % (ds, row, col, mp.nstr(got, 8), mp.nstr(want, 8))
                            break
                    if bad or und:
                        break
                if bad or und:
                    break
            if bad or und:
                break
        if bad:
            rep.violation("random-features", con, where, bad)
            continue
        if und:
            rep.undecided("random-features", con, und)
            continue
        if name == "ReLU":
            continue
        if k is None:
            rep.undecided("random-features", con, "no closed form")
            continue
        # symbolic, for all numbers of inputs
        vk = v.xreplace({tot: Integer(k)}) if name != "Sin" else v.xreplace({Function("i_MOD")(tot, Integer(4)): Integer(k)})
        vk = arr.simp(vk, ip.p, st.pc)
        l = alg.fresh("l")
        arg = alg.binder(alg.SUM, l, S.Zero, DIM, WF(sp.expand(M * l + COL)) * ZF(sp.expand(l * N + ROW))) + B(COL)
        s_ = [sp.sin(u), sp.cos(u), -sp.sin(u), -sp.cos(u)][k] if name == "Sin" else act(name, k)
        fac = alg.binder(alg.PROD, l, S.Zero, DD, CF(l) ** D(l)) * alg.binder(alg.PROD, l, S.Zero, DD, WF(sp.expand(M * l + COL)) ** D(l))
        if k == 0 and name != "Sin":
            fac = S.One
        t = sp.Dummy("T")
        e = fac * s_.subs(u, arg)
        ok = sp.expand(vk - e) == 0
        if not ok:
            # compare with the pre-activation as one unknown
            a_ = Symbol("a", real=True)
            d_ = sp.expand(vk.xreplace({B(COL): a_ - (arg - B(COL))}) - e.xreplace({B(COL): a_ - (arg - B(COL))}))
            ok = d_ == 0 or sp.simplify(d_) == 0
        if ok:
            rep.hold("random-features", con)
        else:
            rep.undecided("random-features", con, "no normal form for %s" % bf.short(vk))


def cxx_relu(rep, cls, dm, dv):
    con = "%s c++: %d inputs, orders %s" % (cls, dm, ",".join(map(str, dv)) or "not given")
    path = "src/tfc/utils/BF.cc"
    where = path
    try:
        ip, st = cxx_ip()
        ip.small = 4
        a = lambda F, nm: Ptr(ip.arr(st, None, lambda i: F(i[0]), nm), S.Zero)
        out = ip.arr(st, None, lambda i: Function("uninit_F")(i[0]), "F")
        o = ip.obj(st, ai.CxxCls(cls), {})
        fv = ip.cxx_method(o, "nElmHint", None, 5, st)
        if fv is None:
            raise Giveup("no nElmHint with 5 parameters")
        where = "%s:%s" % (path, fv.cxxfn.line)
        dim = Integer(dm)
        setm(ip, st, o, cls, {"m": M, "dim": dim, "c": a(CF, "c"), "w": a(WF, "w"), "b": a(B, "b")})
        dar = ip.arr(st, None, lambda i: Integer(dv[int(i[0])]) if i[0].is_Integer and 0 <= int(i[0]) < len(dv) else D(i[0]), "d")
        ip.call(fv, [Ptr(dar, S.Zero), Integer(len(dv)), a(ZF, "z"), N, out], {}, st)
        rep.stats(ip)
        v = arr.simp(ip.r.elem(st.heap[out.id].ver, (sp.expand(M * ROW + COL),), st.pc), ip.p, st.pc)
    except Giveup as e:
        rep.undecided("random-features", con, e)
        return
    ds = list(dv) + [0] * (dm - len(dv))
    arg = sp.Add(*[WF(sp.expand(M * l + COL)) * ZF(sp.expand(l * N + ROW)) for l in range(dm)]) + B(COL)
    co = sp.Mul(*[(CF(l) * WF(sp.expand(M * l + COL))) ** ds[l] for l in range(dm)])
    t = sum(ds)
    e = S.Zero if t > 1 else (Function("MAX")(S.Zero, arg) if t == 0 else co * alg.ITE(alg.GT0(arg), S.One, S.Zero))
    res = True
    for sg in (1, -1):
        f = natfun(dv)
        f["b"] = lambda *a_, sg=sg: sg * (mp.mpf("1.9") - mp.mpf("0.41") * a_[-1])
        r = terms.equal(v, e, [{ROW: x, COL: y, N: 2, M: 3} for x, y in ((0, 0), (1, 2), (1, 1))], f)
        if isinstance(r, tuple):
            rep.violation("random-features", con, where, "the code gives %s, expected %s" % (bf.short(v), bf.short(e)))
            return
        if r is not True:
            res = r
    if res is True or (res == "same" and relu_same(v, e, arg)):
        rep.hold("random-features", con)
    else:
        rep.undecided("random-features", con, "value %s" % bf.short(v))


def setm(ip, st, o, cls, attrs):
    """Member fields by name, in whichever base class declares them (the most derived one a method sees)."""
    h = st.heap[o.id].attrs
    for n_, v in attrs.items():
        for c in chain(cls):
            if n_ in [f for f in fields(c)]:
                h["%s.%s" % (c, n_)] = v


def chain(cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop(0)
        if c in out:
            continue
        out.append(c)
        k = unit().classes.get(c)
        todo += list(k.bases) if k is not None else []
    return out


def fields(c):
    k = unit().classes.get(c)
    return list(getattr(k, "fields", [])) if k is not None else []


def orders(tot, name):
    """instances (number of inputs, orders) with this total"""
    if name == "Sin":
        out = []
        for t in (tot, tot + 4):
            out += [(1, (t,)), (2, (t // 2, t - t // 2)), (3, (0, t - t // 3, t // 3))]
        return out
    out = [(1, (tot,)), (2, (tot,)), (2, (0, tot)), (3, (tot // 3, tot // 3, tot - 2 * (tot // 3)))]
    if tot >= 2:
        out += [(2, (1, tot - 1)), (3, (0, 2, tot - 2)), (3, (tot - 1, 0, 1))]
    return out


def natfun(ds):
    return {
        "w": lambda i: (lambda l, k: mp.mpf("0.7") - mp.mpf("0.29") * l + mp.mpf("0.13") * k + mp.mpf("0.05") * l * k)(*divmod(int(i), 3)),
        "z": lambda i: (lambda l, r: mp.mpf("0.3") + mp.mpf("0.21") * l + mp.mpf("0.37") * r)(*divmod(int(i), 2)),
        "c": lambda l: mp.mpf("1.3") + mp.mpf("0.4") * l,
        "i_d": lambda l: mp.mpf(ds[int(l)]) if 0 <= int(l) < len(ds) else mp.mpf(99),
        "uninit_F": lambda i: mp.nan,
    }


_diffs = {}


def expect_num(name, ds, dim, row, col, f):
    tot = sum(ds)
    a = sum(f["w"](l * 3 + col) * f["z"](l * 2 + row) for l in range(dim)) + f["b"](col)
    co = mp.mpf(1)
    for l in range(dim):
        co *= (f["c"](l) * f["w"](l * 3 + col)) ** ds[l]
    if name == "ReLU":
        return mp.mpf(0) if tot > 1 else ((max(mp.mpf(0), a)) if tot == 0 else (co if a > 0 else mp.mpf(0)))
    e = [sp.sin(u), sp.cos(u), -sp.sin(u), -sp.cos(u)][tot % 4] if name == "Sin" else act(name, tot)
    return co * terms.ev(e, {u: a}, {})


HN = Function("HN")  # HN(column, value of the mapped points at an arbitrary input)
LL = Symbol("l", integer=True)


def cxx_map(rep, name, entry, full, rem):
    """Map to the basis domain, what the evaluation routine is asked for, and removal of columns."""
    cls = "nELM" + name
    path = "src/tfc/utils/BF.cc"
    where = path
    con = "%s c++ %s: full=%s%s" % (cls, entry, full, "" if rem else ", nothing removed")
    bad = []
    try:
        if cls not in unit().classes:
            raise AnchorLost("class %s in BF.cc" % cls)
        ip, st = cxx_ip()
        ip.p.declare(LL, 0, DIM - 1)
        if rem:
            ip.p.declare(nc, 1, M)
            ip.p.atom_bounds.append(lambda f: (S.Zero, M - 1) if f.func == NC else None)
        da = ip.arr(st, None, lambda i: D(i[0]), "d")

        def hook(ip_, fv, args, kw, st_, node, env):
            if isinstance(fv, ai.FnV) and fv.name == "nElmHint" and getattr(fv, "cxxfn", None) is not None:
                dd, ddim, zz, n, out = args[:5]
                P = lambda v: v if isinstance(v, Ptr) else Ptr(v, S.Zero)
                dp, zp, op = P(dd), P(zz), P(out)
                if not all(isinstance(q.ref, ai.Ref) for q in (dp, zp, op)):
                    raise Giveup("operands of the evaluation routine")
                if dp.ref != da or dp.off != 0:
                    raise Giveup("derivative orders handed to the evaluation routine")
                if alg.isexpr(ddim) and sp.expand(ddim - DD) != 0:
                    bad.append("the evaluation routine is told of %s derivative orders" % ddim)
                if alg.isexpr(n) and sp.expand(n - N) != 0:
                    bad.append("the evaluation routine is asked for %s points" % n)
                zver, pc, off = st_.heap[zp.ref.id].ver, st_.pc, op.off

                def fn(idx):
                    i = sp.expand(idx[0] - off)
                    q, r = arr.split_stride(i, M)
                    if i.is_Integer or not (ip_.p.nonneg(r) and ip_.p.nonneg(M - 1 - r)):
                        q, r = Function("i_DIV")(i, M), Function("i_MOD")(i, M)
                        ip_.p.atom_bounds.append(lambda f, q=q: (S.Zero, N - 1) if f == q else None)
                    return HN(r, ip_.r.elem(zver, (sp.expand(LL * N + q + zp.off),), pc))

                st_.heap[op.ref.id] = st_.heap[op.ref.id].with_ver(arr.Init(fn, "HN"))
                return None
            return NotImplemented

        ip.call_hook = hook
        ax0 = ip.arr(st, None, lambda i: X0(i[0]), "x0")
        axf = ip.arr(st, None, lambda i: XF(i[0]), "xf")
        anc = ip.arr(st, None, (lambda i: NC(i[0])) if rem else (lambda i: -S.One), "nC")
        o = ip.cxx_new(cls, [ax0, DIM, axf, DIM, anc, nc if rem else S.One, M], st)
        x = ip.arr(st, None, lambda i: X(i[0]), "x")
        wd = M if full or not rem else M - nc
        if entry == "H":
            env = ip.newenv(st, {"nOut": S.Zero, "mOut": S.Zero, "F": None})
            fv = ip.cxx_method(o, "H", None, 9, st)
            if fv is None:
                raise Giveup("no H with 9 parameters")
            where = "%s:%s" % (path, fv.cxxfn.line)
            ip.call(fv, [x, DIM, N, da, DD, VarRef(env, "nOut"), VarRef(env, "mOut"), VarRef(env, "F"), full], {}, st)
            no, mo = st.envs[env]["nOut"], st.envs[env]["mOut"]
            if alg.isexpr(no) and alg.isexpr(mo):
                no, mo = arr.simp(sp.expand(no), ip.p), arr.simp(sp.expand(mo), ip.p)
                if sp.expand(no - N) != 0 or sp.expand(mo - wd) != 0:
                    if (no + mo).free_symbols <= {N, M, nc, DIM} and not (no + mo).atoms(sp.Function):
                        bad.append("the result is reported as %s x %s instead of N x %s" % (no, mo, wd))
                    else:
                        raise Giveup("size %s x %s" % (no, mo))
            F = st.envs[env]["F"]
        else:
            fv = ip.cxx_method(o, "xla", None, 2, st)
            if fv is None:
                raise Giveup("no xla")
            where = "%s:%s" % (path, fv.cxxfn.line)
            inp = ip.arr(st, None, lambda i: Function("in_unset")(i[0]), "in")
            cells = st.envs.setdefault("__cells__", {})
            ops = {0: None, 1: Ptr(x, S.Zero), 2: Ptr(da, S.Zero), 3: lambda i: DD, 4: lambda i: full, 5: lambda i: N, 6: lambda i: wd}
            for q, fn in ops.items():
                cells[(inp.id, Integer(q))] = fn if isinstance(fn, Ptr) else Ptr(ip.arr(st, None, (lambda i, fn=fn: fn(i[0])) if fn else (lambda i: Function("i_id")(i[0])), "in%d" % q), S.Zero)
            out = ip.arr(st, None, lambda i: Function("uninit_out")(i[0]), "out")
            ip.call(fv, [out, inp], {}, st)
            F = out
        rep.stats(ip)
        if bad:
            rep.violation("random-features map", con, where, bad[0])
            return
        F = bf.pick(ip, st, F)
        ref, off = (F.ref, F.off) if isinstance(F, Ptr) else (F, S.Zero)
        if not isinstance(ref, ai.Ref) or off != 0:
            raise Giveup("result %r" % (F,))
        ver = st.heap[ref.id].ver
    except Giveup as e:
        rep.undecided("random-features map", con, e)
        return

    def value(k, j):
        return HN(j, (X(sp.expand(LL * N + k)) - X0(LL)) / (XF(LL) - X0(LL)))

    def same(a, b):
        h = [f for f in sp.sympify(a).atoms(sp.Function) if f.func == HN]
        if len(h) != 1 or h[0] != a:
            return False
        return a.args[0] == b.args[0] and sp.simplify(a.args[1] - b.args[1]) == 0

    proved = False
    if full or not rem:
        v = arr.simp(ip.r.elem(ver, (sp.expand(M * ROW + COL),), st.pc), ip.p, st.pc)
        proved = alg.isexpr(v) and same(v, value(ROW, COL))
    else:
        fs, base = domain.families(ver)
        if len(fs) == 1 and len(fs[0].idx) == 1 and len(fs[0].loops) == 2:
            f = fs[0]
            for (j, jl, jh), (k, kl, kh) in (f.loops, f.loops[::-1]):
                if jl == 0 and kl == 0 and sp.expand(jh - M) == 0 and sp.expand(kh - N) == 0 and f.guard == alg.neg(domain.removed(j)) and sp.expand(f.idx[0] - wd * k - domain.rank(j)) == 0 and same(f.val, value(k, j)):
                    proved = True
    if proved:
        rep.hold("random-features map", con)
        return
    for rl in ([0], [3, 1], [2, 0, 4]) if rem else ([-1],):
        mm, nn, dm = 6, 2, 2
        cols = list(range(mm)) if full or not rem else [j for j in range(mm) if j not in rl]
        for l in range(dm):
            val = {N: nn, M: mm, DIM: dm, DD: dm, nc: len(rl), LL: l}
            val = {a_: mp.mpf(b_) for a_, b_ in val.items()}
            f = {"x": lambda i: mp.mpf("0.3") + mp.mpf("0.21") * (int(i) // nn) + mp.mpf("0.37") * (int(i) % nn), "x0": lambda i: mp.mpf("-0.4") + mp.mpf("0.3") * i, "xf": lambda i: mp.mpf("1.1") + mp.mpf("0.9") * i, "i_nC": lambda i: mp.mpf(rl[int(i)]) if 0 <= int(i) < len(rl) else mp.mpf(-7), "HN": lambda c, z: z * (c + 2) + mp.sin(c), "i_d": lambda i: mp.mpf(1)}
            for r in range(nn):
                for q, cj in enumerate(cols):
                    want = f["HN"](cj, (f["x"](l * nn + r) - f["x0"](l)) / (f["xf"](l) - f["x0"](l)))
                    try:
                        got = terms.NumReader(val, f).elem(ver, (len(cols) * r + q,))
                    except terms.Unknown as e:
                        rep.undecided("random-features map", con, e)
                        return
                    if not terms.close(got, want):
                        rep.violation("random-features map", con, where, "m=%d, removed %s, full=%s: entry (%d, %d) is not column %d at the mapped point" % (mm, rl, full, r, q, cj))
                        return
    rep.undecided("random-features map", con, "no normal form; agrees at every sampled instance")


def cxx_params(rep, name, nd):
    """set/get of weights and biases: everything is stored, wrong sizes never are."""
    cls = ("nELM" if nd else "ELM") + name
    path = "src/tfc/utils/BF.cc"
    K, Q = Symbol("k", integer=True), Symbol("q", integer=True, nonnegative=True)
    for w_, setter, getter in (("weights", "setW", "getW"), ("biases", "setB", "getB")):
        con = "%s c++: %s" % (cls, w_)
        where = path
        try:
            ip, st = cxx_ip()
            a = lambda F, nm: Ptr(ip.arr(st, None, lambda i: F(i[0]), nm), S.Zero)
            o = ip.obj(st, ai.CxxCls(cls), {})
            setm(ip, st, o, cls, {"m": M, "dim": DIM, "w": a(Function("w_old"), "w"), "b": a(Function("b_old"), "b")})
            two = nd and w_ == "weights"
            size = sp.expand(DIM * M) if two else M
            ip.p.declare(K, 0, sp.expand(size - 1))
            fv = ip.cxx_method(o, setter, None, 3 if two else 2, st)
            gv = ip.cxx_method(o, getter, None, 3 if two else 2, st)
            if fv is None or gv is None:
                raise Giveup("no %s/%s" % (setter, getter))
            where = "%s:%s" % (path, fv.cxxfn.line)
            ip.call(fv, [a(Function("given"), "given")] + ([DIM, M] if two else [M]), {}, st)
            env = ip.newenv(st, {"n": S.Zero, "d": S.Zero, "p": None})
            args = [VarRef(env, "d"), VarRef(env, "n"), VarRef(env, "p")] if two else [VarRef(env, "p"), VarRef(env, "n")]
            ip.call(gv, args, {}, st)
            rep.stats(ip)
            p_ = bf.pick(ip, st, st.envs[env]["p"])
            ref, off = (p_.ref, p_.off) if isinstance(p_, Ptr) else (p_, S.Zero)
            if not isinstance(ref, ai.Ref) or off != 0:
                raise Giveup("result %r" % (p_,))
            v = arr.simp(ip.r.elem(st.heap[ref.id].ver, (K,), st.pc), ip.p, st.pc)
            n_, d_ = st.envs[env]["n"], st.envs[env]["d"]
        except Giveup as e:
            rep.undecided("parameters", con, e)
            continue
        if alg.isexpr(n_) and sp.expand(n_ - M) != 0:
            rep.violation("parameters", con, where, "reports %s columns" % n_)
            continue
        if two and alg.isexpr(d_) and sp.expand(d_ - DIM) != 0:
            rep.violation("parameters", con, where, "reports %s rows" % d_)
            continue
        vals = [{K: k, M: 3, DIM: 2, N: 2} for k in range(6 if two else 3)]
        fn = {"given": lambda i: 5 + i * i, "w_old": lambda i: -i - 1, "b_old": lambda i: -i - 1, "w": lambda i: -50 - i}
        r = terms.equal(v, Function("given")(K), vals, {k_: (lambda *a_, g=g: mp.mpf(g(*a_))) for k_, g in fn.items()}) if alg.isexpr(v) else None
        if isinstance(r, tuple):
            rep.violation("parameters", con, where, "after setting, entry k reads back as %s" % bf.short(v))
        elif r is True:
            rep.hold("parameters", con)
        else:
            rep.undecided("parameters", con, "entry %s" % bf.short(v))


def cxx_group(rep, name):
    for entry in ("H", "xla"):
        for full, rem in ((True, True), (False, True), (False, False)):
            cxx_map(rep, name, entry, full, rem)


def check(rep):
    parallel(rep, py_jobs() + [(cxx_eval, (nm,)) for nm in NAMES] + [(cxx_group, (nm,)) for nm in NAMES])
