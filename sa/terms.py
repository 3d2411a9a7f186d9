"""Deciding equality of two extracted terms.

equal(v, e, ...) returns
  True                       the normal forms coincide,
  (False, witness, lv, le)   both terms are fully interpreted and differ at a concrete valuation,
  None                       neither could be established (an unknown symbol, or no normal form).
The witness is a point of the mathematical domain at which the two *formulas* differ; the analysed
program is not run.
"""
import itertools
import mpmath as mp
import sympy as sp
from sympy import S, Symbol, Function
import alg
from arr import REG, symof

mp.mp.dps = 40


class Unknown(Exception):
    pass


def ev(e, sym, fun):
    """Numeric value of a term under a valuation."""
    if e is True or e is False:
        return e
    if isinstance(e, (int, float)):
        return mp.mpf(e)
    if e in sym:
        if sym[e] is None:
            raise Unknown("value of %s" % e)
        return sym[e]
    if isinstance(e, Symbol):
        raise Unknown("symbol %s" % e)
    if e is sp.pi:
        return mp.pi
    if e is S.Exp1:
        return mp.e
    if e is sp.I:
        return mp.mpc(0, 1)
    if e.is_Rational:
        return mp.mpf(e.p) / e.q
    if e.is_Float:
        return mp.mpf(str(e))
    if e in (sp.oo, -sp.oo, sp.zoo, sp.nan):
        return mp.inf if e == sp.oo else (-mp.inf if e == -sp.oo else mp.nan)
    if e.is_Add:
        r = mp.mpf(0)
        for a in e.args:
            r += ev(a, sym, fun)
        return r
    if e.is_Mul:
        r = mp.mpf(1)
        for a in e.args:
            r *= ev(a, sym, fun)
        return r
    if e.is_Pow:
        b, x = ev(e.base, sym, fun), ev(e.exp, sym, fun)
        if mp.im(x) == 0 and mp.re(x) == int(mp.re(x)):
            n = int(mp.re(x))
            if b == 0 and n < 0:
                raise Unknown("division by zero")
            return mp.mpf(1) if n == 0 else mp.power(b, n)
        return mp.power(b, x)
    if isinstance(e, sp.Function) or isinstance(e, (sp.floor, sp.ceiling)):
        F = e.func
        n = F.__name__
        if F == alg.ITE:
            c = evc(e.args[0], sym, fun)
            return ev(e.args[1] if c else e.args[2], sym, fun)
        if F in (alg.SUM, alg.PROD, alg.COUNT):
            b, lo, hi, body = e.args
            lo, hi = int(ev(lo, sym, fun)), int(ev(hi, sym, fun))
            r = mp.mpf(1) if F == alg.PROD else mp.mpf(0)
            for i in range(lo, hi):
                s2 = dict(sym)
                s2[b] = mp.mpf(i)
                if F == alg.COUNT:
                    r += 1 if evc(body, s2, fun) else 0
                elif F == alg.SUM:
                    r += ev(body, s2, fun)
                else:
                    r *= ev(body, s2, fun)
            return r
        if F in alg.CONDF:
            return mp.mpf(1 if evc(e, sym, fun) else 0)
        if n == "i_MOD":
            a, m = ev(e.args[0], sym, fun), ev(e.args[1], sym, fun)
            return mp.mpf(int(a) % int(m))
        if n == "i_DIV":
            a, m = ev(e.args[0], sym, fun), ev(e.args[1], sym, fun)
            return mp.mpf(int(mp.nint(a)) // int(m))
        if n == "i_TRUNC":
            return mp.mpf(int(ev(e.args[0], sym, fun)))
        if n == "MAX":
            return max(ev(a, sym, fun) for a in e.args)
        if n == "MIN":
            return min(ev(a, sym, fun) for a in e.args)
        if n == "ABS":
            return abs(ev(e.args[0], sym, fun))
        if n == "HEAVISIDE":
            a = ev(e.args[0], sym, fun)
            return mp.mpf(0) if a < 0 else (mp.mpf(1) if a > 0 else ev(e.args[1], sym, fun))
        std = {"sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "exp": mp.exp, "tanh": mp.tanh, "cosh": mp.cosh, "sinh": mp.sinh, "log": mp.log, "ceiling": mp.ceil, "floor": mp.floor, "sign": mp.sign}
        if n in std and n not in fun:
            return std[n](ev(e.args[0], sym, fun))
        if n in REG and n not in fun:
            return evreg(n, [ev(a, sym, fun) for a in e.args], sym, fun)
        if n.startswith("uninit"):
            return mp.nan
        if n in fun:
            return fun[n](*[ev(a, sym, fun) for a in e.args])
        raise Unknown("function %s" % n)
    raise Unknown("term %s" % type(e).__name__)


def evreg(name, args, sym, fun):
    """Value of an opaque loop result at a valuation, from the equations of the loop."""
    kind, what, key = REG[name]
    if kind == "read":
        fm = key
        k = len(args) - len(fm)
        if k <= 0:
            k, fm = len(args), ()
        s2 = dict(sym)
        s2.update(zip(fm, args[k:]))
        return NumReader(s2, fun).elem(what, tuple(int(mp.nint(a)) for a in args[:k]))
    fm = what.formals
    if kind == "scalar":
        s2 = dict(sym)
        s2.update(zip(fm, args))
        r = solve_sys(what, s2, fun)[0][symof(key)]
        if r is None:
            raise Unknown("loop value of %s" % name)
        return r
    k = len(args) - len(fm)
    s2 = dict(sym)
    s2.update(zip(fm, args[k:]))
    base, d = solve_sys(what, s2, fun)[1][key]
    idx = tuple(int(mp.nint(a)) for a in args[:k])
    if idx in d:
        return d[idx]
    return NumReader(s2, fun).base(base, idx)


def solve_sys(sy, sym, fun):
    """Follow the equations of a loop from its start values at a concrete valuation."""
    nr = NumReader(sym, fun)
    # inner scopes see the tables of the enclosing systems; only closed systems are remembered
    memo = fun.get("__memo__")
    key = None
    if memo is not None and not fun.get("__phi__"):
        key = (id(sy),) + tuple(str(sym.get(f)) for f in sy.formals)
        if key in memo:
            return memo[key][1]

    def val(e, s, f):
        if e is None or not (isinstance(e, bool) or alg.isexpr(e) or alg.iscond(e)):
            return None
        try:
            return NumReader(s, f).val(e)
        except Unknown:
            return None

    cur = {symof(ph): val(i, sym, fun) for ph, i, n in sy.scal}
    tabs = {h: nr.table(prev) for h, phi, prev, end in sy.arrs}
    lo, hi = int(nr.val(sy.lo)), int(nr.val(sy.hi))
    steps = 0
    for i in range(lo, hi):
        steps += 1
        if steps > 4000:
            raise Unknown("long loop")
        s2 = dict(sym)
        s2.update(cur)
        s2[sy.t] = mp.mpf(i)
        f2 = dict(fun)
        scope = dict(fun.get("__phi__") or {})
        for h, phi, prev, end in sy.arrs:
            scope[phi.fname] = tabs[h]

            def look(*idx, h=h, tabs=tabs, s2=s2, f2=f2):
                k = tuple(int(mp.nint(q)) for q in idx)
                base, d = tabs[h]
                return d[k] if k in d else NumReader(s2, f2).base(base, k)

            f2[phi.fname] = look
        f2["__phi__"] = scope
        stop = False
        for g, vals, vers in sy.brks:
            if evc(g, s2, f2):
                cur = {symof(ph): val(vals.get(ph), s2, f2) for ph, _, _ in sy.scal}
                n2 = NumReader(s2, f2)
                tabs = {h: bound(n2.table(vers[h]), tabs[h][0], s2, f2) for h, _, _, _ in sy.arrs}
                stop = True
                break
        if stop:
            break
        ncur = {symof(ph): val(n, s2, f2) for ph, _, n in sy.scal}
        n2 = NumReader(s2, f2)
        ntab = {}
        for h, phi, prev, end in sy.arrs:
            if end is None:
                raise Unknown("no end state")
            ntab[h] = bound(n2.table(end), tabs[h][0], s2, f2)
        cur, tabs = ncur, ntab
    r = (cur, tabs)
    if key is not None:
        memo[key] = (sy, r)
    return r


def bound(tab, old, s2, f2):
    """A table whose underlying content is a function of the loop state is closed over that state."""
    import arr

    base, d = tab
    if base is old or getattr(base, "closed", False):
        return tab
    memo = {}

    def fn(idx):
        k = tuple(int(i) for i in idx)
        if k not in memo:
            memo[k] = NumReader(s2, f2).base(base, k)
        return memo[k]

    b = arr.Init(fn, "bound")
    b.closed = True
    return b, d


def evc(c, sym, fun):
    if c is True or c is False:
        return c
    F = c.func
    if F == alg.EQ0:
        return abs(ev(c.args[0], sym, fun)) < mp.mpf(10) ** -25
    if F == alg.GE0:
        return ev(c.args[0], sym, fun) >= -mp.mpf(10) ** -25
    if F == alg.GT0:
        return ev(c.args[0], sym, fun) > mp.mpf(10) ** -25
    if F == alg.AND:
        return all(evc(a, sym, fun) for a in c.args)
    if F == alg.OR:
        return any(evc(a, sym, fun) for a in c.args)
    if F == alg.NOT:
        return not evc(c.args[0], sym, fun)
    if F == alg.TRUTH:
        return ev(c.args[0], sym, fun) != 0
    if F == alg.EXISTS:
        b, lo, hi, body = c.args
        for i in range(int(ev(lo, sym, fun)), int(ev(hi, sym, fun))):
            s2 = dict(sym)
            s2[b] = mp.mpf(i)
            if evc(body, s2, fun):
                return True
        return False
    raise Unknown("condition %s" % F)


def symeq(v, e):
    try:
        d = sp.expand(v - e)
        if d == 0:
            return True
        d = sp.simplify(d)
        return d == 0
    except Exception:
        return False


def equal(v, e, valuations=(), fun=None, simplify=True):
    """valuations: iterable of {symbol: number}; fun: {name: callable}."""
    fun = fun or {}
    cond = alg.iscond(v) or alg.iscond(e)
    if isinstance(v, bool) or isinstance(e, bool) or cond:
        if v is e or (not isinstance(v, bool) and not isinstance(e, bool) and v == e):
            return True
        f = evc
        if not (alg.iscond(v) and alg.iscond(e)):
            return None
    else:
        if not (alg.isexpr(v) and alg.isexpr(e)):
            return None
        if v == e or sp.expand(v - e) == 0:
            return True
        f = ev
    seen = False
    for val in valuations:
        val = {k: (mp.mpf(x) if not isinstance(x, (mp.mpf, mp.mpc)) else x) for k, x in val.items()}
        try:
            a, b = f(v, val, fun), f(e, val, fun)
        except Unknown as x:
            return None
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        seen = True
        if f is evc:
            if a != b:
                return (False, val, a, b)
            continue
        if mp.isnan(a) or mp.isnan(b):
            if mp.isnan(a) != mp.isnan(b):
                return (False, val, a, b)
            continue
        sc = 1 + abs(b)
        if abs(a - b) > mp.mpf(10) ** -18 * sc:
            return (False, val, a, b)
    if f is ev and simplify and symeq(v, e):
        return True
    if seen:
        return "same"  # agrees at every sampled point, no common normal form found
    return None


def showval(val):
    return ", ".join("%s=%s" % (k, mp.nstr(x, 6)) for k, x in sorted(val.items(), key=lambda kv: str(kv[0])))


class NumReader:
    """Values of the cells of a version chain under a concrete valuation of its parameters."""

    def __init__(self, sym, fun, limit=20000):
        self.sym = {k: (mp.mpf(x) if not (x is None or isinstance(x, (mp.mpf, mp.mpc))) else x) for k, x in sym.items()}
        self.fun, self.limit = fun, limit
        if "__memo__" not in fun:
            self.fun = dict(fun)
            self.fun["__memo__"] = {}
        self.cache = {}

    def val(self, e, extra=None):
        if isinstance(e, bool):
            return mp.mpf(1 if e else 0)
        s = self.sym
        if extra:
            s = dict(s)
            s.update(extra)
        if alg.iscond(e):
            return mp.mpf(1 if evc(e, s, self.fun) else 0)
        return ev(e, s, self.fun)

    def cond(self, c, extra):
        s = dict(self.sym)
        s.update(extra)
        return evc(c, s, self.fun)

    def instances(self, loops, extra):
        if not loops:
            yield extra
            return
        v, lo, hi = loops[0]
        a, b = int(self.val(lo, extra)), int(self.val(hi, extra))
        if b - a > self.limit:
            raise Unknown("range")
        for i in range(a, b):
            e2 = dict(extra)
            e2[v] = mp.mpf(i)
            yield from self.instances(loops[1:], e2)

    def table(self, ver):
        """cells written on top of the initial content (later stores win)"""
        import arr

        if id(ver) in self.cache:
            return self.cache[id(ver)]
        if isinstance(ver, arr.Init):
            t = (ver, {})
        elif isinstance(ver, arr.IteVer):
            t = self.table(ver.a if self.cond(ver.c, {}) else ver.b)
        elif isinstance(ver, arr.St):
            base, d = self.table(ver.prev)
            d = dict(d)
            for e2 in self.instances(list(ver.loops), {}):
                if ver.guard is not True and not self.cond(ver.guard, e2):
                    continue
                idx = tuple(int(mp.nint(self.val(i, e2))) for i in ver.idx)
                d[idx] = self.val(ver.val, e2)
            t = (base, d)
        elif isinstance(ver, arr.Lp):
            base, d = self.table(ver.prev)
            d = dict(d)
            name = "phi%d" % ver.uid

            def look(*idx):
                k = tuple(int(mp.nint(i)) for i in idx)
                return d[k] if k in d else self.base(base, k)

            old = self.fun
            self.fun = dict(old)
            for s in ver.stores:
                for f in (s.val.atoms(sp.Function) if isinstance(s.val, sp.Basic) else ()):
                    if f.func.__name__.startswith(name):
                        self.fun[f.func.__name__] = look
            try:
                for e1 in self.instances(list(ver.outer) + [(ver.var, ver.lo, ver.hi)], {}):
                    for s in ver.stores:
                        for e2 in self.instances(list(s.loops), e1):
                            if s.guard is not True and not self.cond(s.guard, e2):
                                continue
                            idx = tuple(int(mp.nint(self.val(i, e2))) for i in s.idx)
                            d[idx] = self.val(s.val, e2)
            finally:
                self.fun = old
            t = (base, d)
        elif isinstance(ver, arr.Phi) and ver.fname in (self.fun.get("__phi__") or {}):
            return self.fun["__phi__"][ver.fname]
        elif isinstance(ver, arr.Hav) and ver.sys is not None:
            t = solve_sys(ver.sys, self.sym, self.fun)[1][ver.key]
        else:
            raise Unknown(type(ver).__name__)
        self.cache[id(ver)] = t
        return t

    def base(self, init, idx):
        r = init.fn(tuple(sp.Integer(i) for i in idx))
        return r if isinstance(r, (mp.mpf, mp.mpc)) else self.val(r)

    def elem(self, ver, idx):
        base, d = self.table(ver)
        if idx in d:
            return d[idx]
        return self.base(base, idx)


def close(a, b):
    if mp.isnan(a) or mp.isnan(b):
        return bool(mp.isnan(a)) == bool(mp.isnan(b))
    return abs(a - b) <= mp.mpf(10) ** -18 * (1 + abs(b))
