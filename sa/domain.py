"""One-input basis functions: domain map, chain-rule factor, removal of columns, and the agreement of the
two native entry points.

H(x, d)[i, j] = c^d * Hint^(d)_{col(j)}((x_i - x0) c + z0),  c = (zf - z0)/(xf - x0)
with col(j) = j for the full set and the j-th index not listed in nC otherwise.  The evaluation routine
itself is an uninterpreted function HIN(col, order, point)."""
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import arr
import bf
import terms
from ai import Giveup, Opq, Ptr, VarRef, State
from bf import N, M, ROW, COL
from core import module, modules, unit, AnchorLost

mp = terms.mp
HIN = Function("HIN")
X = Function("x")
NC = Function("i_nC")
x0, xf = Symbol("x0", real=True), Symbol("xf", real=True)
nc = Symbol("numC", integer=True, nonnegative=True)
d = Symbol("d", integer=True, nonnegative=True)

DOM = {
    "CP": (Integer(-1), Integer(1)),
    "LeP": (Integer(-1), Integer(1)),
    "LaP": None,
    "HoPpro": None,
    "HoPphy": None,
    "FS": (-sp.pi, sp.pi),
    "ELMReLU": (S.Zero, S.One),
    "ELMSigmoid": (S.Zero, S.One),
    "ELMTanh": (S.Zero, S.One),
    "ELMSin": (S.Zero, S.One),
    "ELMSwish": (S.Zero, S.One),
}

REM = ([], [0], [3, 1], [2, 0, 4])


def fhin(col, dd, zz):
    return mp.sin(1 + mp.mpf("1.3") * col + mp.mpf("0.71") * dd) + zz * (col + 2) + mp.mpf("0.37") * zz**2 * (dd + 1)


def point(cls, xx):
    """expected z and c"""
    if DOM[cls] is None:
        return xx, S.One
    z0, zf = DOM[cls]
    c = (zf - z0) / (xf - x0)
    return (xx - x0) * c + z0, c


def valuation(rem, mm=6, nn=3, dd=2):
    return {x0: mp.mpf("0.5"), xf: mp.mpf("2.25"), nc: len(rem), M: mm, N: nn, d: dd}


def funs(rem, keeps=None, ip=None, val=None):
    f = {
        "x": lambda *i: mp.mpf("0.6") + mp.mpf("0.23") * sum((k + 1) * v for k, v in enumerate(i)),
        "i_nC": lambda *i: mp.mpf(rem[int(i[-1])]) if 0 <= int(i[-1]) < len(rem) else mp.mpf(-7),
        "HIN": fhin,
    }
    return f


def kept(rem, mm):
    return [j for j in range(mm) if j not in rem]


class Fail(Exception):
    pass


def compare(rep, rule, con, where, get, cls, full, rem, mm=6, nn=3, dd=2, expect=None):
    """Concrete instance of the extracted formula against the definition; a difference is a witness."""
    cols = list(range(mm)) if full else kept(rem, mm)
    for i in range(nn):
        for j, cj in enumerate(cols):
            xx = X(Integer(i))
            zz, c = point(cls, xx)
            e = c**dd * HIN(Integer(cj), Integer(dd), zz)
            val = {k: mp.mpf(v) for k, v in valuation(rem, mm, nn, dd).items()}
            want = terms.ev(e, val, funs(rem))
            got = get(i, j)
            if not terms.close(got, want):
                rep.violation(rule, con, where, "for m=%d, removed %s, %d points, d=%d, full=%s: entry (%d, %d) is %s, expected %s" % (mm, rem, nn, dd, full, i, j, mp.nstr(got, 8), mp.nstr(want, 8)))
                return False
    return True


# ------------------------------------------------------------------ python
def py_run(cls, full, ndim, numc):
    p = alg.Prover()
    p.declare(N, 1)
    p.declare(M, 1)
    p.declare(ROW, 0, N - 1)
    p.declare(COL, 0, M - 1)
    p.declare(d, 0)
    p.declare(nc, 1)
    ip = ai.Interp(modules(), None, p)
    ip.modstack = []
    st = State()
    Mo = module("tfc.utils.BF_Py")
    if cls not in Mo.classes:
        raise AnchorLost("BF_Py.%s" % cls)
    seen = []

    def hook(ip_, fv, args, kw, st_, node, env):
        if isinstance(fv, ai.FnV) and fv.name == "_Hint" and fv.selfv is not None:
            a = list(args)
            zz = a[0] if a else kw.get("z")
            dd = a[1] if len(a) > 1 else kw.get("d")
            zz = bf.pick(ip_, st_, zz)
            if not ip_.isarr(zz):
                raise Giveup("Hint argument %r" % (zz,))
            dims = ip_.dims(st_, zz)
            ver, pc = st_.heap[zz.id].ver, st_.pc
            seen.append((dims, dd))
            if len(dims) != 2:
                raise Fail("the evaluation routine receives points of shape %s instead of a column" % (dims,))

            def fn(idx):
                return HIN(idx[1], dd, ip_.r.elem(ver, (idx[0], S.Zero), pc))

            return ip_.arr(st_, (dims[0], M), fn, "HIN")
        return NotImplemented

    ip.call_hook = hook
    nC = ip.arr(st, (nc if numc else S.Zero,), lambda i: NC(i[0]), "nC")
    o = ip.construct(ai.ClsV(cls, Mo), [x0, xf, nC, M], {}, st, None)
    if not isinstance(o, ai.Ref):
        raise Giveup("construction gives %r" % (o,))
    if ndim == 1:
        x = ip.arr(st, (N,), lambda i: X(i[0]), "x")
    else:
        x = ip.arr(st, (N, S.One), lambda i: X(i[0]), "x")
    H = ip.getattr(o, "H", st)
    line = getattr(getattr(H, "node", None), "lineno", 0)
    r = ip.call(H, [x, d, full], {}, st)
    r = bf.pick(ip, st, r)
    return ip, st, o, r, line, Mo.path


def check_py(rep, classes=None):
    for cls in classes or DOM:
        for full, ndim, numc in ((True, 1, True), (True, 2, True), (False, 1, False), (False, 1, True), (False, 2, True)):
            con = "%s python: full=%s, %s, points as %s" % (cls, full, "columns removed" if numc else "nothing removed", "vector" if ndim == 1 else "column")
            try:
                ip, st, o, r, line, path = py_run(cls, full, ndim, numc)
            except Fail as e:
                rep.violation("map", con, "%s" % module("tfc.utils.BF_Py").path, str(e))
                continue
            except Giveup as e:
                rep.undecided("map", con, e)
                continue
            where = "%s:%d" % (path, line)
            rep.stats(ip)
            if not ip.isarr(r):
                rep.undecided("map", con, "result %r" % (r,))
                continue
            dims = ip.dims(st, r)
            wd = M if full or not numc else M - nc
            if dims is None or len(dims) != 2:
                rep.undecided("map", con, "shape %s" % (dims,))
                continue
            if sp.expand(dims[0] - N) != 0 or sp.expand(dims[1] - wd) != 0:
                if all(alg.isexpr(x) and x.free_symbols <= {N, M, nc} for x in dims):
                    rep.violation("map", con, where, "the result has shape %s instead of (N, %s)" % (dims, wd))
                else:
                    rep.undecided("map", con, "shape %s" % (dims,))
                continue
            ver = st.heap[r.id].ver
            J = Symbol("J", integer=True)
            ip.p.declare(J, 0, wd - 1)
            v = arr.simp(ip.r.elem(ver, (ROW, J), st.pc), ip.p, st.pc)
            rem = numc and not full
            keeps = getattr(ip, "keeps", {})
            zz, c = point(cls, X(ROW))
            # symbolic
            proved = False
            if alg.isexpr(v):
                if not rem:
                    e = c**d * HIN(J, d, zz)
                else:
                    fs = [f for f in v.atoms(sp.Function) if f.func.__name__ == "i_keep"]
                    e = None
                    if len(fs) == 1 and fs[0].args[1] == J:
                        tag = fs[0].args[0]
                        obj, a, L, tot = keeps[tag]
                        if a is not None and a.dims == (nc,) and ip.r.elem(a.ver, (J,)) == NC(J) and sp.expand(tot - M) == 0:
                            e = c**d * HIN(fs[0], d, zz)
                if e is not None:
                    # HIN congruence: compare coefficient and argument
                    proved = same_hin(v, e)
            if proved:
                rep.hold("map", con)
                continue
            # witness search on the extracted formula
            bad, undec = False, not alg.isexpr(v)
            if not undec:
                for rl in REM[1:] if rem else REM[:1] if not numc else REM[1:3]:
                    for dd in (0, 1, 2, 3):
                        val = {k: mp.mpf(x) for k, x in valuation(rl, 6, 3, dd).items()}
                        f = funs(rl)
                        tags = {}
                        for t_, (obj, a, L, tot) in keeps.items():
                            try:
                                n = int(terms.ev(L, val, f))
                                rd = terms.NumReader(val, f)
                                lst = [int(rd.elem(a.ver, (q,))) for q in range(n)] if a is not None else None
                                tot_ = int(terms.ev(tot, val, f))
                            except terms.Unknown:
                                lst = None
                            if lst is None:
                                continue
                            tags[len(tags)] = kept(lst, tot_)
                            val[t_] = mp.mpf(len(tags) - 1)
                        f["i_keep"] = lambda t_, j, tags=tags: mp.mpf(tags[int(t_)][int(j)]) if int(j) < len(tags[int(t_)]) else mp.nan

                        def get(i, j):
                            return terms.ev(v, {**val, ROW: mp.mpf(i), J: mp.mpf(j)}, f)

                        try:
                            if not compare(rep, "map", con, where, get, cls, full, rl, 6, 3, dd):
                                bad = True
                                break
                        except terms.Unknown as e:
                            undec = True
                            break
                    if bad or undec:
                        break
            if not bad:
                rep.undecided("map", con, "extracted %s" % bf.short(v))


def same_hin(v, e):
    """Equality of two expressions up to the arguments of HIN."""
    if sp.expand(v - e) == 0:
        return True
    hv, he = [[f for f in x.atoms(sp.Function) if f.func == HIN] for x in (v, e)]
    if len(hv) != 1 or len(he) != 1:
        return False
    a, b = hv[0].args, he[0].args
    for p, q in zip(a, b):
        if p != q and sp.simplify(p - q) != 0:
            return False
    t = sp.Dummy("h")
    return sp.simplify(v.xreplace({hv[0]: t}) - e.xreplace({he[0]: t})) == 0


# ------------------------------------------------------------------ native
def cxx_hint_hook(log):
    def hook(ip, fv, args, kw, st, node, env):
        if isinstance(fv, ai.FnV) and fv.name == "Hint" and getattr(fv, "cxxfn", None) is not None:
            dd, zz, n, dark = args[:4]
            zp = zz if isinstance(zz, Ptr) else Ptr(zz, S.Zero)
            dp = dark if isinstance(dark, Ptr) else Ptr(dark, S.Zero)
            if not isinstance(zp.ref, ai.Ref) or not isinstance(dp.ref, ai.Ref):
                raise Giveup("Hint operands")
            zver = st.heap[zp.ref.id].ver
            m = st.heap[fv.selfv.id].attrs.get("BasisFunc.m")
            pc = st.pc
            log.append((dd, n, m))
            off = dp.off

            def fn(idx):
                i = sp.expand(idx[0] - off)
                if i.is_Integer and sp.sympify(m).is_Integer:
                    q, r = divmod(int(i), int(m))
                    q, r = Integer(q), Integer(r)
                else:
                    q, r = arr.split_stride(i, m)
                    if i.is_Integer or not (ip.p.nonneg(r) and ip.p.nonneg(m - 1 - r)):
                        q, r = Function("i_DIV")(i, m), Function("i_MOD")(i, m)
                        ip.p.atom_bounds.append(lambda f, q=q: (S.Zero, sp.expand(n - 1)) if f == q else None)
                return HIN(r, dd, ip.r.elem(zver, (sp.expand(q + zp.off),), pc))

            st.heap[dp.ref.id] = st.heap[dp.ref.id].with_ver(arr.Init(fn, "HIN"))
            return None
        return NotImplemented

    return hook


def cxx_setup(cls):
    u = unit()
    if cls not in u.classes:
        raise AnchorLost("class %s in BF.cc" % cls)
    p = alg.Prover()
    p.declare(N, 1)
    p.declare(M, 1)
    p.declare(ROW, 0, N - 1)
    p.declare(COL, 0, M - 1)
    p.declare(d, 0)
    p.declare(nc, 0, M)
    ip = ai.Interp(modules(), u, p)
    ip.modstack = []
    st = State()
    log = []
    ip.call_hook = cxx_hint_hook(log)
    nC = ip.arr(st, None, lambda i: NC(i[0]), "nC")
    o = ip.cxx_new(cls, [x0, xf, nC, nc, M], st)
    return ip, st, o, log


def families(ver):
    out = []
    while isinstance(ver, arr.St):
        out.append(ver)
        ver = ver.prev
    return out, ver


def removed(j):
    b = Symbol("_b1", integer=True)
    return alg.EXISTS(b, S.Zero, nc, alg.eq0(sp.expand(j - NC(b))))


def rank(j):
    u_ = alg.fresh("u")
    return j - alg.binder(alg.COUNT, u_, S.Zero, j, removed(u_))


def prove_compaction(ip, ver, stride, value, not_removed=True):
    """Every cell store is F[stride*k + rank(j)] = value(k, j) under 'j not removed'."""
    fs, base = families(ver)
    if len(fs) != 1:
        return False
    f = fs[0]
    if len(f.idx) != 1 or len(f.loops) != 2:
        return False
    for (j, jl, jh), (k, kl, kh) in (f.loops, f.loops[::-1]):
        if jl != 0 or kl != 0 or sp.expand(jh - M) != 0 or sp.expand(kh - N) != 0:
            continue
        g = f.guard
        if g is True or g is False or g != alg.neg(removed(j)):
            continue
        if sp.expand(f.idx[0] - stride * k - rank(j)) != 0:
            continue
        if same_hin(f.val, value(k, j)):
            return True
    return False


def check_cxx(rep, classes=None):
    path = "src/tfc/utils/BF.cc"
    for cls in classes or DOM:
        for entry in ("H", "xla"):
            for full in (True, False):
                con = "%s c++ %s: full=%s" % (cls, entry, full)
                try:
                    ip, st, o, log = cxx_setup(cls)
                    x = ip.arr(st, None, lambda i: X(i[0]), "x")
                    if entry == "H":
                        env = ip.newenv(st, {"nOut": S.Zero, "mOut": S.Zero, "F": None})
                        fv = ip.cxx_method(o, "H", None, 7, st)
                        if fv is None:
                            raise Giveup("no H with 7 parameters")
                        ip.call(fv, [x, N, d, VarRef(env, "nOut"), VarRef(env, "mOut"), VarRef(env, "F"), full], {}, st)
                        F = st.envs[env]["F"]
                        no, mo = st.envs[env]["nOut"], st.envs[env]["mOut"]
                        wd = M if full else M - nc
                        if alg.isexpr(no) and alg.isexpr(mo) and (sp.expand(no - N) != 0 or sp.expand(mo - wd) != 0):
                            rep.violation("map", con, "%s:%s" % (path, fv.cxxfn.line), "the result is reported as %s x %s instead of N x %s" % (no, mo, wd))
                            continue
                    else:
                        fv = ip.cxx_method(o, "xla", None, 2, st)
                        if fv is None:
                            raise Giveup("no xla with 2 parameters")
                        wd = M if full else M - nc
                        inp = ip.arr(st, None, lambda i: Function("in_unset")(i[0]), "in")
                        cells = st.envs.setdefault("__cells__", {})
                        ops = [Function("i_id"), None, lambda i: d, lambda i: full, lambda i: N, lambda i: wd]
                        for q, fn in enumerate(ops):
                            if q == 1:
                                cells[(inp.id, Integer(q))] = Ptr(x, S.Zero)
                            else:
                                cells[(inp.id, Integer(q))] = Ptr(ip.arr(st, None, (lambda i, fn=fn: fn(i[0])) if q else (lambda i: Function("i_id")(i[0])), "in%d" % q), S.Zero)
                        out = ip.arr(st, None, lambda i: Function("uninit_out")(i[0]), "out")
                        ip.call(fv, [out, inp], {}, st)
                        F = out
                    line = fv.cxxfn.line
                    where = "%s:%s" % (path, line)
                    rep.stats(ip)
                except Giveup as e:
                    rep.undecided("map", con, e)
                    continue
                F = bf.pick(ip, st, F)
                ref, off = (F.ref, F.off) if isinstance(F, Ptr) else (F, S.Zero)
                if not isinstance(ref, ai.Ref) or off != 0:
                    rep.undecided("map", con, "result %r" % (F,))
                    continue
                ver = st.heap[ref.id].ver
                stride = wd

                def value(k, j):
                    zz, c = point(cls, X(k))
                    return c**d * HIN(j, d, zz)

                for dd_, n_, m_ in log:
                    if alg.isexpr(n_) and sp.expand(n_ - N) != 0 and n_.free_symbols <= {N, M, nc, d}:
                        rep.violation("map", con, where, "the evaluation routine is asked for %s points instead of N" % n_)
                proved = False
                if full:
                    v = arr.simp(ip.r.elem(ver, (sp.expand(M * ROW + COL),), st.pc), ip.p, st.pc)
                    proved = alg.isexpr(v) and same_hin(v, value(ROW, COL))
                else:
                    proved = prove_compaction(ip, ver, stride, value)
                if proved:
                    rep.hold("map", con)
                    continue
                bad, undec = False, None
                for rl in REM:
                    for dd in (0, 1, 2, 3):
                        mm, nn = 6, 3
                        val = valuation(rl, mm, nn, dd)
                        f = funs(rl)
                        rd = terms.NumReader(val, f)
                        w = mm if full else mm - len(rl)

                        def get(i, j):
                            return rd.elem(ver, (w * i + j,))

                        try:
                            if not compare(rep, "map", con, where, get, cls, full, rl, mm, nn, dd):
                                bad = True
                                break
                        except terms.Unknown as e:
                            undec = e
                            break
                    if bad or undec:
                        break
                if not bad:
                    rep.undecided("map", con, undec or "no normal form; agrees at every sampled instance")


def check(rep):
    check_py(rep)
    check_cxx(rep)


POLY = ["CP", "LeP", "LaP", "HoPpro", "HoPphy"]
OTHER = [c for c in DOM if c not in POLY]


def check_poly(rep):
    check_py(rep, POLY)
    check_cxx(rep, POLY)


def check_other(rep):
    check_py(rep, OTHER)
    check_cxx(rep, OTHER)
