"""Entering the evaluation routines of the basis functions symbolically, both implementations."""
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import arr
import terms
from ai import State, Giveup
from core import modules, unit, module

N = Symbol("N", integer=True, positive=True)
M = Symbol("m", integer=True, positive=True)
ROW = Symbol("row", integer=True)
COL = Symbol("col", integer=True)
Z = Function("z")
W = Function("w")
B = Function("b")

VALS = {"z": lambda *i: terms.mp.mpf("0.3") + terms.mp.mpf(37) / 100 * sum((k + 1) * x for k, x in enumerate(i)), "w": lambda *i: terms.mp.mpf("0.7") + terms.mp.mpf(29) / 100 * sum((k + 1) * x for k, x in enumerate(i)), "b": lambda *i: terms.mp.mpf("-1.9") + terms.mp.mpf(41) / 100 * sum(i)}


def pick(ip, st, v):
    while isinstance(v, ai.IteV):
        d = ip.p.decide(v.c, st.pc)
        if d is None:
            return v
        v = v.a if d else v.b
    return v


class Run:
    """One symbolic entry of Hint/_Hint."""

    def __init__(self, be, cls, m, d, decl=(), hooks=None, elm=False):
        self.be, self.cls, self.m, self.d = be, cls, sp.sympify(m), d
        p = alg.Prover()
        self.p = p
        p.declare(N, 1)
        if isinstance(self.m, Symbol):
            p.declare(self.m, 1)
        p.declare(ROW, 0, N - 1)
        for s, lo, hi in decl:
            p.declare(s, lo, hi)
        ip = self.ip = ai.Interp(modules(), unit() if be == "c++" else None, p)
        ip.modstack = []
        if hooks:
            hooks(ip)
        st = self.st = State()
        if be == "python":
            Mo = module("tfc.utils.BF_Py")
            self.file = Mo.path
            fn = ip.find_member(ai.ClsV(cls, Mo), "_Hint")
            if fn is None:
                raise Giveup("%s has no _Hint" % cls)
            self.line = fn.node.lineno
            zz = ip.arr(st, (N, S.One), lambda idx: Z(idx[0]), "z")
            at = {"_m": self.m}
            if elm:
                at["_w"] = ip.arr(st, (S.One, self.m), lambda idx: W(idx[1]), "w")
                at["_b"] = ip.arr(st, (S.One, self.m), lambda idx: B(idx[1]), "b")
            o = ip.obj(st, ai.ClsV(cls, Mo), at)
            res = pick(ip, st, ip.call(ip.getattr(o, "_Hint", st), [zz, d], {}, st))
            self.res = res
            if not ip.isarr(res):
                raise Giveup("result is %r" % (res,))
            self.dims = ip.dims(st, res)
            self.ver, self.nd = st.heap[res.id].ver, len(self.dims) if self.dims else 1
        else:
            self.file = "src/tfc/utils/BF.cc"
            zz = ip.arr(st, None, lambda idx: Z(idx[0]), "z")
            dark = ip.arr(st, None, lambda idx: Function("uninit_dark")(idx[0]), "dark")
            at = {"BasisFunc.m": self.m}
            if elm:
                at["ELM.w"] = ai.Ptr(ip.arr(st, None, lambda idx: W(idx[0]), "w"), S.Zero)
                at["ELM.b"] = ai.Ptr(ip.arr(st, None, lambda idx: B(idx[0]), "b"), S.Zero)
            o = ip.obj(st, ai.CxxCls(cls), at)
            fv = ip.cxx_method(o, "Hint", None, 4, st)
            if fv is None:
                raise Giveup("no Hint with 4 parameters")
            self.line = fv.cxxfn.line
            ip.call(fv, [d, zz, N, dark], {}, st)
            self.dims = None
            self.ver, self.nd = st.heap[dark.id].ver, 1

    def shape_ok(self):
        if self.dims is None:
            return True
        return len(self.dims) == 2 and sp.expand(self.dims[0] - N) == 0 and sp.expand(self.dims[1] - self.m) == 0

    def at(self, row, col):
        idx = (row, col) if self.nd == 2 else (sp.expand(self.m * row + col),)
        v = self.ip.r.elem(self.ver, idx, self.st.pc)
        return arr.simp(v, self.ip.p, self.st.pc)


def judge(rep, rule, construct, where, v, e, vals, what, fun=None):
    """Record the verdict of comparing the extracted value with the expected one."""
    f = dict(VALS)
    if fun:
        f.update(fun)
    r = terms.equal(v, e, vals, f)
    if r is True:
        rep.hold(rule, construct)
        return True
    if isinstance(r, tuple):
        rep.violation(rule, construct, where, "%s: the code gives %s, expected %s (e.g. %s: %s against %s)" % (what, short(v), short(e), terms.showval(r[1]), num(r[2]), num(r[3])))
        return False
    if r == "same":
        rep.undecided(rule, construct, "no common normal form, but equal at all sampled points: %s" % short(v))
    else:
        rep.undecided(rule, construct, "cannot interpret %s" % short(v))
    return None


def num(x):
    if isinstance(x, bool):
        return str(x)
    return terms.mp.nstr(x, 8)


def short(v):
    return str(v)[:180]
