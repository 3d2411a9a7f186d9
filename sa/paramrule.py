"""Weights and biases of the random-feature bases: what is set is what is read back; a wrong size is refused.

Pure Python: the class is constructed and its setters and getters are interpreted for arrays of symbolic size. Compiled:
the set routines are interpreted with a symbolic size; the conditions under which they end the program are compared with
"the size differs"."""
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import arr
import bf
import elm
import nelm
import terms
from ai import Giveup, Ptr, State
from bf import M, COL
from core import module, modules, parallel, AnchorLost
from solver import Wrong

mp = terms.mp
G = Function("given")
L = Symbol("L", integer=True)
NIN = Symbol("nIn", integer=True, nonnegative=True)
DIN = Symbol("dimIn", integer=True, nonnegative=True)
SHAPES = ("flat", "row", "column")


def build(cls, nd):
    if nd:
        return nelm.py_setup(cls, nd, False)
    p = alg.Prover()
    p.declare(M, 1)
    p.declare(COL, 0, M - 1)
    ip = ai.Interp(modules(), None, p)
    ip.modstack = []
    elm.install(ip)
    st = State()
    Mo = module("tfc.utils.BF_Py")
    if cls not in Mo.classes:
        raise AnchorLost("BF_Py.%s" % cls)
    nC = ip.arr(st, (S.One,), lambda i: -S.One, "nC")
    o = ip.construct(ai.ClsV(cls, Mo), [Symbol("x0"), Symbol("xf"), nC, M], {}, st, None)
    if not isinstance(o, ai.Ref):
        raise Giveup("construction gives %r" % (o,))
    return ip, st, o, Mo


def refused(ip, sym, fun):
    for e in ip.events:
        if e["kind"] in ("exit", "raise"):
            try:
                if all(terms.evc(c, sym, fun) for c in e["pc"]):
                    return True
            except terms.Unknown:
                raise Giveup("condition of an error")
    return False


def py_one(rep, name, nd, which, shape):
    cls = ("nELM" if nd else "ELM") + name
    con = "%s python: %s given as a %s%s" % (cls, which, shape, ", %d inputs" % nd if nd else "")
    where = module("tfc.utils.BF_Py").path
    rows = Integer(nd) if nd and which == "w" else S.One
    try:
        for wrong in (False, True):
            ip, st, o, Mo = build(cls, nd)
            cols = NIN if wrong else M
            if shape == "column":
                ip.p.declare(M, 2)  # a column of one value is a row
            if wrong:
                ip.p.declare(NIN, 0)
            if shape == "flat":
                a = ip.arr(st, (sp.expand(rows * cols),), lambda i: G(i[0]), "given")
            elif shape == "row":
                a = ip.arr(st, (rows, cols), lambda i: G(sp.expand(i[0] * cols + i[1])), "given")
            else:
                a = ip.arr(st, (sp.expand(rows * cols), S.One), lambda i: G(i[0]), "given")
            ip.setattr(o, which, a, st)
            rep.stats(ip)
            if wrong:
                for m, n in ((3, 3), (3, 4), (3, 2), (1, 2), (5, 1), (4, 8)):
                    r = refused(ip, {M: mp.mpf(m), NIN: mp.mpf(n)}, {})
                    if r != (m != n):
                        raise Wrong("%d %s columns for %d functions are %s" % (n, "weight" if which == "w" else "bias", m, "refused" if r else "accepted"))
                continue
            if any(refused(ip, {M: mp.mpf(m)}, {}) for m in (1, 2, 5)):
                raise Wrong("%s of the right size are refused" % which)
            g = bf.pick(ip, st, ip.getattr(o, which, st))
            if not ip.isarr(g):
                raise Giveup("%s is %r" % (which, g))
            dm = ip.dims(st, g)
            if dm is None:
                raise Giveup("shape of %s" % which)
            exp = (rows, M)
            if len(dm) != 2 or any(sp.expand(p - q) != 0 for p, q in zip(dm, exp)):
                raise Wrong("%s is stored with shape %s instead of %s" % (which, dm, exp))
            v = arr.simp(ip.r.elem(st.heap[g.id].ver, (L if rows != 1 else S.Zero, COL), st.pc), ip.p, st.pc)
            want = G(sp.expand((L if rows != 1 else S.Zero) * M + COL))
            r = terms.equal(v, want, [{L: p, COL: q, M: 5} for p in range(int(rows)) for q in (0, 3, 4)], {"given": lambda i: mp.mpf(3) + i * i}) if alg.isexpr(v) else None
            if isinstance(r, tuple):
                raise Wrong("%s[l, k] reads back as %s" % (which, bf.short(v)))
            if r is not True:
                raise Giveup("%s: %s" % (which, v))
    except Wrong as e:
        rep.violation("weights", con, where, str(e))
    except (Giveup, AnchorLost) as e:
        rep.undecided("weights", con, e)
    else:
        rep.hold("weights", con)


def cxx_one(rep, name, nd):
    cls = ("nELM" if nd else "ELM") + name
    for which, setter in (("w", "setW"), ("b", "setB")):
        con = "%s c++: size of %s" % (cls, which)
        where = "src/tfc/utils/BF.cc"
        try:
            ip, st = nelm.cxx_ip()
            a = lambda F, nm: Ptr(ip.arr(st, None, lambda i: F(i[0]), nm), S.Zero)
            o = ip.obj(st, ai.CxxCls(cls), {})
            nelm.setm(ip, st, o, cls, {"m": M, "dim": nelm.DIM, "w": a(Function("w_old"), "w"), "b": a(Function("b_old"), "b")})
            two = nd and which == "w"
            fv = ip.cxx_method(o, setter, None, 3 if two else 2, st)
            if fv is None:
                raise Giveup("no %s" % setter)
            where = "%s:%s" % (where, fv.cxxfn.line)
            ip.p.declare(NIN, 0)
            ip.p.declare(DIN, 0)
            ip.call(fv, [a(G, "given")] + ([DIN, NIN] if two else [NIN]), {}, st)
            rep.stats(ip)
            for m, n in ((3, 3), (3, 4), (3, 2), (1, 2), (5, 1), (4, 8)):
                for dm, dn in ((2, 2), (2, 3), (3, 2), (1, 2), (3, 6)) if two else ((2, 2),):
                    r = refused(ip, {M: mp.mpf(m), NIN: mp.mpf(n), nelm.DIM: mp.mpf(dm), DIN: mp.mpf(dn)}, {})
                    if r != (m != n or dm != dn):
                        raise Wrong("%s given for %s are %s" % ("%d x %d values" % (dn, n) if two else "%d values" % n, "%d inputs and %d functions" % (dm, m) if two else "%d functions" % m, "refused" if r else "accepted"))
        except Wrong as e:
            rep.violation("weights", con, where, str(e))
        except (Giveup, AnchorLost) as e:
            rep.undecided("weights", con, e)
        else:
            rep.hold("weights", con)


def check_one(rep):
    check(rep, (0,))


def check_multi(rep):
    check(rep, (1, 2, 3))


def check(rep, nds=(0, 1, 2, 3)):
    jobs = [(py_one, (nm, nd, w, s)) for nm in nelm.NAMES for nd in nds for w in ("w", "b") for s in SHAPES]
    jobs += [(cxx_one, (nm, nd)) for nm in nelm.NAMES for nd in sorted({bool(x) for x in nds})]
    jobs += [(nelm.cxx_params, (nm, nd)) for nm in nelm.NAMES for nd in sorted({bool(x) for x in nds})]
    parallel(rep, jobs)
