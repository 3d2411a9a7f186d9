"""Symbolic arrays: version chains of (quantified) stores, and forwarding of reads through them."""
import sympy as sp
from sympy import S, Function, Symbol
import alg
from alg import ITE, ite, conj, neg, iscond, condexpr, tocond, CONDF


class Init:
    def __init__(self, fn, tag=""):
        self.fn, self.tag = fn, tag


class St:
    """forall loops: if guard: A[idx] = val   (over prev)"""

    def __init__(self, prev, loops, guard, idx, val, line=0):
        self.prev, self.loops, self.guard, self.idx, self.val, self.line = prev, tuple(loops), guard, tuple(idx), val, line


class Lp:
    """A loop whose stores read what earlier iterations stored (a recurrence)."""

    def __init__(self, prev, outer, var, lo, hi, stores, uid, line=0):
        self.prev, self.outer, self.var, self.lo, self.hi = prev, tuple(outer), var, lo, hi
        self.stores, self.uid, self.line = stores, uid, line


class IteVer:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Phi:
    """Content at the start of an iteration of a loop under analysis."""

    def __init__(self, prev, uid, fname):
        self.prev, self.uid, self.fname = prev, uid, fname
        self.writes = None  # [(loops, idx)] of every store earlier iterations may have made


class Hav:
    def __init__(self, name, why="", sys=None, key=None):
        self.name, self.why, self.sys, self.key = name, why, sys, key

    @property
    def formals(self):
        return self.sys.formals if self.sys is not None else ()


REG = {}  # name of an opaque loop result -> (Sys, key)


class Sys:
    """The equations of one loop that has no closed form: start values, one-step transfer, exits.

    Kept so that a difference found on terms that mention the loop can be confirmed at a valuation."""

    def __init__(self, t, lo, hi, scal, arrs, brks):
        self.t, self.lo, self.hi, self.scal, self.arrs, self.brks = t, lo, hi, scal, arrs, brks
        self.formals = ()
        fr = set()
        bound = {t} | {symof(ph) for ph, _, _ in scal}
        inner = set()
        for ph, i, n in scal:
            fr |= free(i)
            inner |= free(n)
        for h, phi, prev, end in arrs:
            fr |= vfree(prev)
            inner |= vfree(end)
        for g, vals, vers in brks:
            inner |= free(g)
            for v in vals.values():
                inner |= free(v)
            for v in vers.values():
                inner |= vfree(v)
        fr |= free(lo) | free(hi) | (inner - bound)
        self.formals = tuple(sorted(fr, key=str))


def symof(ph):
    return ph.args[0] if isinstance(ph, sp.Basic) and ph.func == alg.TRUTH else ph


def free(e):
    """Free symbols, the bound variables of the binders taken out."""
    if not isinstance(e, sp.Basic):
        return set()
    if isinstance(e, sp.Function) and e.func in (alg.SUM, alg.PROD, alg.EXISTS, alg.COUNT):
        b, lo, hi, body = e.args
        return free(lo) | free(hi) | (free(body) - {b})
    if isinstance(e, Symbol):
        return {e}
    out = set()
    for a in e.args:
        out |= free(a)
    return out


def vfree(ver, depth=0):
    out = set()
    n = None
    while ver is not None and depth < 400:
        depth += 1
        if isinstance(ver, St):
            f = free(ver.guard) | free(ver.val)
            n = len(ver.idx)
            for i in ver.idx:
                f |= free(sp.sympify(i))
            for v, lo, hi in reversed(ver.loops):
                f -= {v}
                f |= free(sp.sympify(lo)) | free(sp.sympify(hi))
            out |= f
            ver = ver.prev
        elif isinstance(ver, Lp):
            f = set()
            for s in ver.stores:
                f |= vfree(St(None, s.loops, s.guard, s.idx, s.val))
            for v, lo, hi in reversed(tuple(ver.outer) + ((ver.var, ver.lo, ver.hi),)):
                f -= {v}
                f |= free(sp.sympify(lo)) | free(sp.sympify(hi))
            out |= f
            ver = ver.prev
        elif isinstance(ver, IteVer):
            return out | free(ver.c) | vfree(ver.a, depth) | vfree(ver.b, depth)
        elif isinstance(ver, Hav):
            return out | set(ver.formals)
        elif isinstance(ver, Init):
            for k in (n,) if n else (1, 2, 3):
                ds = tuple(sp.Dummy("i%d" % q, integer=True) for q in range(k))
                try:
                    v = ver.fn(ds)
                except Exception:
                    continue
                out |= free(v) - set(ds)
                break
            return out
        else:
            return out
    return out


def _isint_fname(n):
    return n


def split_stride(t, s):
    """t = s*q + r termwise"""
    t = sp.expand(t)
    q = S.Zero
    r = S.Zero
    for term in sp.Add.make_args(t):
        z = sp.cancel(term / s)
        num, den = sp.fraction(z)
        if den.is_number and z.is_polynomial(*[x for x in s.free_symbols]) and (den == 1):
            q += z
        else:
            r += term
    return sp.expand(q), sp.expand(r)


def _cost(c):
    c = sp.expand(c)
    if c.is_number:
        return (0, abs(c) if c.is_real else 0)
    return (sp.Poly(c, *sorted(c.free_symbols, key=str)).total_degree(), 0)


def solve1(P, loops, T, prover, pc=()):
    """Solve P(loopvars) == T.  Returns (status, sol, cond); status in match/no/unknown."""
    P = sp.expand(P)
    T = sp.expand(T)
    vs = [l for l in loops if P.has(l[0])]
    if not vs:
        c = prover.decide(alg.eq0(sp.expand(P - T)), pc)
        if c is True:
            return "match", {}, True
        if c is False:
            return "no", None, False
        return "match", {}, alg.eq0(sp.expand(P - T))
    coefs = {}
    for v, lo, hi in vs:
        co = sp.expand(sp.diff(P, v))
        if co.has(*[x[0] for x in vs]):
            return "unknown", None, None
        coefs[v] = co
    order = sorted(vs, key=lambda l: _cost(coefs[l[0]]), reverse=True)
    v, lo, hi = order[0]
    s = coefs[v]
    rest = sp.expand(P - s * v)
    if len(order) == 1 and s in (S.One, S.NegativeOne):
        val = sp.expand((T - rest) * s)
        return rng(v, val, lo, hi, prover, pc)
    if len(order) == 1 and prover.nonneg(s - 1):
        z = sp.cancel(sp.expand(T - rest) / s)
        if sp.fraction(z)[1] == 1 and alg.is_int(sp.expand(z)):
            return rng(v, sp.expand(z), lo, hi, prover, pc)
    if len(order) > 1 and _cost(coefs[order[1][0]]) == _cost(s):
        return "unknown", None, None
    if s.could_extract_minus_sign():
        return "unknown", None, None
    qr, rr = split_stride(rest, s)
    qt, rt = split_stride(T, s)
    # 0 <= rr < s over the inner ranges, 0 <= rt < s
    pr = prover.clone()
    for w, l2, h2 in order[1:]:
        pr.declare(w, l2, sp.expand(h2 - 1))
    if not (pr.nonneg(rr) and pr.nonneg(s - 1 - rr)):
        return "unknown", None, None
    if not (pr.nonneg(rt) and pr.nonneg(s - 1 - rt)):
        return "unknown", None, None
    st, sol, cond = rng(v, sp.expand(qt - qr), lo, hi, prover, pc)
    if st != "match":
        return st, sol, cond
    st2, sol2, cond2 = solve1(rr, order[1:], rt, prover, pc)
    if st2 != "match":
        return st2, None, None
    sol.update(sol2)
    return "match", sol, conj(cond, cond2)


def rng(v, val, lo, hi, prover, pc):
    c1 = alg.cmp(">=", val, lo, prover, pc)
    c2 = alg.cmp("<", val, hi, prover, pc)
    if c1 is False or c2 is False:
        return "no", None, False
    return "match", {v: val}, conj(c1, c2)


def solve(idx, loops, target, prover, pc=()):
    if len(idx) != len(target):
        return "unknown", None, None
    sol = {}
    cond = True
    loops = list(loops)
    unknown = False
    pending = list(zip(idx, target))
    # dims with a single unit-stride unknown first
    while pending:
        pending.sort(key=lambda pt: len([1 for l in loops if sp.sympify(pt[0]).has(l[0])]))
        P, T = pending.pop(0)
        P = sp.sympify(P).xreplace(sol)
        st, s2, c2 = solve1(P, [l for l in loops if l[0] not in sol], T, prover, pc)
        if st == "no":
            return "no", None, False
        if st == "unknown":
            unknown = True
            continue
        sol.update(s2)
        cond = conj(cond, c2)
    if unknown:
        return "unknown", None, None
    if any(l[0] not in sol for l in loops):
        # a loop variable that does not occur in the index
        return "unknown", None, None
    # ranges may depend on other loop variables
    return "match", sol, cond


def simp(e, prover, pc=(), budget=None):
    """Re-decide conditions inside a term."""
    if not isinstance(e, sp.Basic):
        return e
    if not e.args:
        return e
    if isinstance(e, sp.Function) and e.func == ITE:
        c = simp(e.args[0], prover, pc)
        r = prover.decide(c, pc) if not isinstance(c, bool) else c
        if r is True:
            return simp(e.args[1], prover, pc)
        if r is False:
            return simp(e.args[2], prover, pc)
        a = simp(e.args[1], prover, tuple(pc) + (c,))
        b = simp(e.args[2], prover, tuple(pc) + (neg(c),))
        return ite(c, a, b)
    if isinstance(e, sp.Function) and e.func in (alg.AND, alg.OR, alg.NOT):
        ar = [simp(a, prover, pc) for a in e.args]
        if e.func == alg.AND:
            return conj(*ar)
        if e.func == alg.OR:
            return alg.disj(*ar)
        return neg(ar[0])
    if isinstance(e, sp.Function) and e.func in (alg.EQ0, alg.GE0, alg.GT0):
        a = sp.expand(simp(e.args[0], prover, pc))
        c = alg.eq0(a) if e.func == alg.EQ0 else e.func(a)
        r = prover.decide(c, pc)
        return c if r is None else r
    if isinstance(e, sp.Function) and e.func == alg.TRUTH:
        a = e.args[0]
        if a.is_number:
            return bool(a != 0)
        return e
    if isinstance(e, sp.Function) and e.func.__name__ in ("i_MOD", "i_DIV"):
        a, m = simp(e.args[0], prover, pc), e.args[1]
        if m.free_symbols:
            q, r = split_stride(a, m)
            if prover.nonneg(r) and prover.nonneg(m - 1 - r):
                return r if e.func.__name__ == "i_MOD" else q
            return e.func(a, m)
        if e.func.__name__ == "i_MOD":
            return alg.mod(a, m)
        return e.func(a, m)
    if isinstance(e, sp.Function) and e.func in (alg.SUM, alg.PROD, alg.EXISTS, alg.COUNT):
        b, lo, hi, body = e.args
        pr = prover.clone()
        pr.declare(b, lo, sp.expand(hi - 1))
        nb = simp(body, pr, pc)
        if nb is body or nb == body:
            return e
        return alg.binder(e.func, b, lo, hi, nb)
    na = [simp(a, prover, pc) for a in e.args]
    if any(x is not y for x, y in zip(na, e.args)):
        na = [condexpr(x) if isinstance(x, bool) else x for x in na]
        return e.func(*na)
    return e


def subst(e, sol, prover, pc=()):
    if isinstance(e, bool) or e is None:
        return e
    if not sol:
        return e
    return simp(e.xreplace(sol), prover, pc)


_reads = {}


def opaque_read(ver, idx, name=None):
    """A read that could not be resolved symbolically; the version stays known to the evaluator."""
    k = id(ver)
    if k not in _reads:
        nm = name or "rd?%d" % len(_reads)
        fm = tuple(sorted(vfree(ver), key=str))
        _reads[k] = (ver, nm, fm)
        REG[nm] = ("read", ver, fm)
    ver, nm, fm = _reads[k]
    return Function(nm)(*(tuple(idx) + (fm if name is None else ())))


class Reader:
    def __init__(self, prover):
        self.p = prover

    def elem(self, ver, idx, pc=()):
        idx = tuple(sp.expand(sp.sympify(i)) for i in idx)
        while True:
            if isinstance(ver, Init):
                return ver.fn(idx)
            if isinstance(ver, Phi):
                if ver.writes is None:
                    return Function(ver.fname)(*idx)
                c = False
                for loops, widx in ver.writes:
                    st, sol, cond = solve(widx, loops, idx, self.p, pc)
                    if st == "no":
                        continue
                    if st == "unknown":
                        return Function(ver.fname)(*idx)
                    c = alg.disj(c, cond)
                c = c if isinstance(c, bool) else (lambda d: c if d is None else d)(self.p.decide(c, pc))
                if c is True:
                    return Function(ver.fname)(*idx)
                if c is False:
                    ver = ver.prev
                    continue
                return ite(c, Function(ver.fname)(*idx), self.elem(ver.prev, idx, tuple(pc) + (neg(c),)))
            if isinstance(ver, Hav):
                return Function(ver.name)(*(idx + ver.formals))
            if isinstance(ver, IteVer):
                d = self.p.decide(ver.c, pc)
                if d is True:
                    ver = ver.a
                    continue
                if d is False:
                    ver = ver.b
                    continue
                return ite(ver.c, self.elem(ver.a, idx, tuple(pc) + (ver.c,)), self.elem(ver.b, idx, tuple(pc) + (neg(ver.c),)))
            if isinstance(ver, St):
                st, sol, cond = solve(ver.idx, ver.loops, idx, self.p, pc)
                if st == "no":
                    ver = ver.prev
                    continue
                if st == "unknown":
                    return opaque_read(ver, idx)
                c = conj(cond, subst(ver.guard, sol, self.p, pc))
                d = self.p.decide(c, pc)
                if d is False:
                    ver = ver.prev
                    continue
                v = subst(ver.val, sol, self.p, pc)
                if d is True:
                    return v
                prev = self.elem(ver.prev, idx, tuple(pc) + (neg(c),))
                return ite(c, condexpr(v) if isinstance(v, bool) else v, condexpr(prev) if isinstance(prev, bool) else prev)
            if isinstance(ver, Lp):
                hit = False
                for s in ver.stores:
                    st, sol, cond = solve(s.idx, ver.outer + ((ver.var, ver.lo, ver.hi),) + s.loops, idx, self.p, pc)
                    if st == "no":
                        continue
                    if st == "match":
                        c = conj(cond, subst(s.guard, sol, self.p, pc))
                        if self.p.decide(c, pc) is False:
                            continue
                    hit = True
                if not hit:
                    ver = ver.prev
                    continue
                return opaque_read(ver, idx, "rd%d" % ver.uid)
            raise TypeError(ver)

    def rec_elem(self, ver, idx, selfname, pc=()):
        """Like elem, but at a recurrence returns its right-hand side with the loop's own reads
        renamed to `selfname`."""
        idx = tuple(sp.expand(sp.sympify(i)) for i in idx)
        while True:
            if isinstance(ver, Lp):
                for s in reversed(ver.stores):
                    st, sol, cond = solve(s.idx, ver.outer + ((ver.var, ver.lo, ver.hi),) + s.loops, idx, self.p, pc)
                    if st == "no":
                        continue
                    if st == "unknown":
                        return None
                    c = conj(cond, subst(s.guard, sol, self.p, pc))
                    d = self.p.decide(c, pc)
                    if d is False:
                        continue
                    v = subst(s.val, sol, self.p, pc)
                    name = "phi%d" % ver.uid
                    v = v.replace(lambda f: isinstance(f, sp.Function) and f.func.__name__ == name, lambda f: Function(selfname)(*f.args))
                    if d is None:
                        # written only under a condition: elsewhere an earlier version shows through
                        if len(ver.stores) > 1:
                            return None
                        prev = self.rec_elem(ver.prev, idx, selfname, tuple(pc) + (neg(c),))
                        return None if prev is None else ite(c, v, prev)
                    return v
                ver = ver.prev
                continue
            if isinstance(ver, St):
                st, sol, cond = solve(ver.idx, ver.loops, idx, self.p, pc)
                if st == "no":
                    ver = ver.prev
                    continue
                if st == "match":
                    c = conj(cond, subst(ver.guard, sol, self.p, pc))
                    if self.p.decide(c, pc) is False:
                        ver = ver.prev
                        continue
            if isinstance(ver, IteVer):
                d = self.p.decide(ver.c, pc)
                if d is not None:
                    ver = ver.a if d else ver.b
                    continue
            return self.elem(ver, idx, pc)
