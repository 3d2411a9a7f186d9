"""Extreme learning machines, one input: column k is s(w_k z + b_k), derivative order d is w_k^d s^(d)."""
import ast
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import arr
import bf
import terms
from bf import Run, judge, N, M, ROW, COL, Z, W, B
from ai import Giveup, Opq
from core import module, modules, unit

DER = Function("DER")  # DER(base, j1, n1, ...): base differentiated n1 times in argument j1, ...
MAXORD = 8

u = Symbol("u", real=True)
ACT = {
    "Sigmoid": 1 / (1 + sp.exp(-u)),
    "Tanh": sp.tanh(u),
    "Sin": sp.sin(u),
    "Swish": u / (1 + sp.exp(-u)),
}
_dv = {}


def act(name, d):
    """The d-th derivative of the activation, in u (concrete d)."""
    if (name, d) not in _dv:
        if d == 0:
            _dv[(name, d)] = ACT[name]
        else:
            t = Symbol("T")
            if name == "Tanh":
                p = t
                for _ in range(d):
                    p = sp.expand(sp.diff(p, t) * (1 - t**2))
                r = p.subs(t, sp.tanh(u))
            elif name == "Sigmoid":
                p = t
                for _ in range(d):
                    p = sp.expand(sp.diff(p, t) * (t - t**2))
                r = p.subs(t, ACT["Sigmoid"])
            elif name == "Swish":
                p = u * t
                for _ in range(d):
                    p = sp.expand(sp.diff(p, t) * (t - t**2) + sp.diff(p, u))
                r = p.subs(t, ACT["Sigmoid"])
            else:
                r = sp.diff(ACT[name], u, d)
            _dv[(name, d)] = r
    return _dv[(name, d)]


# ------------------------------------------------------------------ the elementwise-derivative operator
def eg_parts(v):
    """(base function, {argument: order}) of nested applications of egrad"""
    o = {}
    while isinstance(v, Opq):
        if v.op == "egrad":
            g, j = v.args
            o[j] = sp.expand(o.get(j, S.Zero) + 1)
            v = g
        elif v.op == "iter" and v.args and v.args[0] == "egrad":
            _, g, n, j = v.args
            o[j] = sp.expand(o.get(j, S.Zero) + n)
            v = g
        else:
            return None
    return v, o


def is_egrad(fv):
    return isinstance(fv, ai.FnV) and fv.name in ("egrad", "egradRobust") and fv.mod is not None and fv.mod.name == "tfc.utils.TFCUtils" and fv.selfv is None


def eg_hook(ip, fv, args, kw, st, node, env):
    if is_egrad(fv):
        g = args[0] if args else kw.get("g")
        j = args[1] if len(args) > 1 else kw.get("j", S.Zero)
        return Opq("egrad", (g, j))
    if isinstance(fv, Opq):
        r = eg_parts(fv)
        if r is None:
            return NotImplemented
        f, o = r
        y = ip.call(f, args, kw, st, node, env)
        y = bf.pick(ip, st, y)
        if not ip.isarr(y):
            return NotImplemented
        a = st.heap[y.id]
        ver = a.ver
        os_ = sorted(((sp.sympify(j), n) for j, n in o.items()), key=str)

        def fn(idx):
            e = ip.r.elem(ver, idx, st.pc)
            fl = []
            for j, n in os_:
                if n == 0:
                    continue
                fl += [j, n]
            return DER(*([e] + fl)) if fl else e

        return ip.arr(st, a.dims, fn, "egrad")
    return NotImplemented


def install(ip):
    ip.call_hook = eg_hook


def split_der(v):
    """v = coefficient * DER(base, j, n...) -> (coefficient, base, {j: n}); DER-free values have no orders"""
    ds = [f for f in v.atoms(sp.Function) if f.func == DER]
    if not ds:
        return S.One, v, {}
    if len(ds) != 1:
        return None
    f = ds[0]
    t = sp.Dummy("D")
    e = sp.expand(v.xreplace({f: t}))
    co = sp.expand(sp.diff(e, t))
    if co.has(t) or sp.expand(e - co * t) != 0:
        return None
    return co, f.args[0], {f.args[i]: f.args[i + 1] for i in range(1, len(f.args), 2)}


# ------------------------------------------------------------------ one-input routines
def vals(extra=({},)):
    out = []
    for x in extra:
        for row, col in ((0, 0), (1, 2), (2, 4)):
            v = {ROW: row, COL: col, N: 4, M: 6}
            v.update(x)
            out.append(v)
    return out


def check_py(rep, name):
    d = Symbol("d", integer=True, nonnegative=True)
    cls = "ELM" + name
    arg = W(COL) * Z(ROW) + B(COL)
    for dn, dv, lo in (("0", S.Zero, None), (">= 1", d, 1)):
        con = "%s python: d %s" % (cls, dn)
        try:
            run = Run("python", cls, M, dv, [(COL, 0, M - 1)] + ([(d, lo, None)] if lo is not None else []), install, elm=True)
            rep.stats(run.ip)
            where = "%s:%s" % (run.file, run.line)
            if not run.shape_ok():
                rep.violation("shape", con, where, "result has shape %s instead of (N, m)" % (run.dims,))
                continue
            v = run.at(ROW, COL)
            if not alg.isexpr(v):
                rep.undecided("activation", con, v)
                continue
        except Giveup as e:
            rep.undecided("activation", con, e)
            continue
        s = split_der(v)
        if s is None:
            rep.undecided("activation", con, "derivative structure %s" % bf.short(v))
            continue
        co, base, orders = s
        if set(orders) - {S.Zero}:
            rep.violation("activation", con, where, "differentiates with respect to argument %s of a one-argument function" % sorted(orders))
            continue
        n = orders.get(S.Zero, S.Zero)
        # the order of differentiation first
        dd = [{d: k} for k in (1, 2, 3, 5)] if lo is not None else [{}]
        if judge(rep, "order", con + " (number of differentiations)", where, n, dv, dd, "number of differentiations") is not True:
            continue
        judge(rep, "activation", con, where, co * base, ACT[name].subs(u, arg), vals(dd), "activation of column k")


def check_cxx(rep, name):
    cls = "ELM" + name
    arg = W(COL) * Z(ROW) + B(COL)
    q = Symbol("q", integer=True, nonnegative=True)
    d = Symbol("d", integer=True, nonnegative=True)
    cases = []
    if name == "Sin":
        for r in range(4):
            cases.append(("4q+%d" % r, 4 * q + r, [(q, 0, None)], [{q: 0}, {q: 1}], [sp.sin(u), sp.cos(u), -sp.sin(u), -sp.cos(u)][r]))
    else:
        for k in range(0, MAXORD + 1):
            cases.append((str(k), Integer(k), [], [{}], act(name, k)))
        cases.append(("> %d" % MAXORD, d, [(d, MAXORD + 1, None)], [{d: 9}], None))
    for dn, dv, decl, ex, a in cases:
        con = "%s c++: d = %s" % (cls, dn) if not dn.startswith(">") else "%s c++: d %s" % (cls, dn)
        try:
            run = Run("c++", cls, M, dv, [(COL, 0, M - 1)] + decl, None, elm=True)
            rep.stats(run.ip)
            where = "%s:%s" % (run.file, run.line)
            v = run.at(ROW, COL)
        except Giveup as e:
            rep.undecided("activation", con, e)
            continue
        if a is None:
            # beyond the tabulated orders: whatever is returned must still be the derivative
            v = v.xreplace({d: Integer(9)}) if alg.isexpr(v) else v
            a = act(name, 9)
            dv = Integer(9)
        judge(rep, "activation", con, where, v, W(COL) ** dv * a.subs(u, arg), vals(ex), "derivative of order %s of column k" % dn)


def check_relu(rep):
    arg = W(COL) * Z(ROW) + B(COL)
    d = Symbol("d", integer=True, nonnegative=True)
    for be in ("python", "c++"):
        for dn, dv, decl, ex in (("0", S.Zero, [], sp.Function("MAX")(S.Zero, arg)), ("1", S.One, [], W(COL) * alg.ITE(alg.GT0(arg), S.One, S.Zero)), (">= 2", d, [(d, 2, None)], S.Zero)):
            con = "ELMReLU %s: d %s" % (be, dn)
            try:
                run = Run(be, "ELMReLU", M, dv, [(COL, 0, M - 1)] + decl, install, elm=True)
                rep.stats(run.ip)
                where = "%s:%s" % (run.file, run.line)
                if not run.shape_ok():
                    rep.violation("shape", con, where, "result has shape %s instead of (N, m)" % (run.dims,))
                    continue
                v = run.at(ROW, COL)
            except Giveup as e:
                rep.undecided("activation", con, e)
                continue
            vs = vals([{d: 2}, {d: 3}])
            pts = []
            for x in vs:
                pts.append(x)
            ok = None
            for bb in ("-1.9", "3.1"):
                fun = {"b": lambda *i, bb=bb: terms.mp.mpf(bb) + terms.mp.mpf(41) / 100 * sum(i)}
                r = terms.equal(v, ex, pts, dict(bf.VALS, **fun))
                if isinstance(r, tuple):
                    rep.violation("activation", con, where, "order %s: the code gives %s, expected %s" % (dn, bf.short(v), bf.short(ex)))
                    ok = False
                    break
                ok = r
            if ok is True or (ok == "same" and relu_nf(v) is not None and relu_nf(v) == relu_nf(ex)):
                rep.hold("activation", con)
            elif ok is not False:
                rep.undecided("activation", con, bf.short(v))


def relu_nf(v):
    """Case split on the sign of the pre-activation."""
    arg = Symbol("a", real=True)
    pre = W(COL) * Z(ROW) + B(COL)
    b = arg - W(COL) * Z(ROW)
    e = v.xreplace({B(COL): b})
    out = []
    for sgn in (1, -1, 0):
        a = Symbol("a+", positive=True) if sgn == 1 else (-Symbol("a-", positive=True) if sgn == -1 else S.Zero)
        x = e.xreplace({arg: a})
        x = x.replace(lambda f: isinstance(f, sp.Function) and f.func.__name__ in ("MAX", "MIN"), lambda f: (sp.Max if f.func.__name__ == "MAX" else sp.Min)(*[sp.expand(z) for z in f.args]))
        x = arr.simp(x, alg.Prover())
        if not alg.isexpr(x) or any(f.func in alg.CONDF | {alg.ITE} for f in x.atoms(sp.Function)):
            return None
        out.append(sp.expand(x))
    return out


def check(rep):
    for name in ACT:
        check_py(rep, name)
        check_cxx(rep, name)
    check_relu(rep)
