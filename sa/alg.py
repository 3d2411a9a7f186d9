"""Term algebra shared by all rules: sympy expressions as normal forms, an uninterpreted-function
vocabulary for conditions / reads / folds, and a small interval prover for index arithmetic."""
import sympy as sp
from sympy import S, Function, Symbol, Integer, Rational

EQ0 = Function("EQ0")
GE0 = Function("GE0")  # e >= 0
GT0 = Function("GT0")  # e > 0   (reals only)
AND = Function("AND")
OR = Function("OR")
NOT = Function("NOT")
TRUTH = Function("TRUTH")
ITE = Function("ITE")
SUM = Function("SUM")  # SUM(k, lo, hi, body)   lo <= k < hi
PROD = Function("PROD")
EXISTS = Function("EXISTS")
COUNT = Function("COUNT")
BIND = {SUM, PROD, EXISTS, COUNT}
CONDF = {EQ0, GE0, GT0, AND, OR, NOT, TRUTH, EXISTS}

DBL_MAX = Symbol("DBL_MAX", positive=True)
import math

_PIS = {math.pi: sp.pi, 2 * math.pi: 2 * sp.pi, math.pi / 2: sp.pi / 2, math.e: sp.E}
_n = [0]


def fresh(base, integer=True):
    _n[0] += 1
    return Symbol("%s#%d" % (base, _n[0]), integer=integer) if integer else Symbol("%s#%d" % (base, _n[0]), real=True)


def isexpr(v):
    return isinstance(v, sp.Basic) and not isinstance(v, (sp.logic.boolalg.BooleanAtom,))


def num(v):
    """Python number -> exact sympy number."""
    if isinstance(v, bool):
        return Integer(int(v))
    if isinstance(v, int):
        return Integer(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return sp.oo if v > 0 else -sp.oo
        if abs(v) in _PIS:
            return _PIS[abs(v)] if v > 0 else -_PIS[abs(v)]
        return Rational(repr(v)) if abs(v) < 1e200 else Symbol("DBL_MAX", positive=True)
    if isinstance(v, complex):
        return num(v.real) + sp.I * num(v.imag)
    raise TypeError(v)


def is_int(e):
    if e.is_integer:
        return True
    if isinstance(e, sp.Function) and e.func.__name__.startswith("i_"):
        return True
    if e.is_Add or e.is_Mul:
        return all(is_int(a) for a in e.args)
    if isinstance(e, sp.Function) and e.func in (COUNT,):
        return True
    if isinstance(e, sp.Function) and e.func == SUM:
        return is_int(e.args[3])
    if isinstance(e, sp.Function) and e.func == ITE:
        return is_int(e.args[1]) and is_int(e.args[2])
    return False


def bind_depth(e):
    d = 0
    for a in sp.preorder_traversal(e):
        if isinstance(a, Symbol) and a.name.startswith("_b"):
            try:
                d = max(d, int(a.name[2:]))
            except ValueError:
                pass
    return d


def binder(F, k, lo, hi, body):
    """F over k in [lo,hi) of body, alpha-normalised."""
    if body is True:
        body = S.One if F in (COUNT,) else TRUTH(S.One)
    if body is False:
        body = S.Zero if F in (COUNT,) else TRUTH(S.Zero)
    if F == EXISTS and body == TRUTH(S.Zero):
        return False
    if F == COUNT and body == TRUTH(S.Zero):
        return S.Zero
    lo, hi = sp.sympify(lo), sp.sympify(hi)
    if F == EXISTS and body == TRUTH(S.One):
        n_ = sp.expand(hi - lo - 1)
        return bool(n_ >= 0) if n_.is_number else GE0(n_)
    if F == COUNT and body in (S.One, TRUTH(S.One)):
        return hi - lo
    # shift to start at zero
    if lo != 0:
        body = body.subs(k, k + lo)
        hi = sp.expand(hi - lo)
        lo = S.Zero
    if F == SUM and body == 0:
        return S.Zero
    if F == PROD and body == 1:
        return S.One
    if F in (SUM, PROD) and not body.has(k):
        return body * hi if F == SUM else body**hi
    if F == SUM and body.is_Mul:
        ind = [a for a in body.args if not a.has(k)]
        dep = [a for a in body.args if a.has(k)]
        if ind:
            return sp.Mul(*ind) * binder(F, k, lo, hi, sp.Mul(*dep))
    if F == SUM:
        eb = sp.expand(body)
        if eb.is_Add:
            return sp.Add(*[binder(F, k, lo, hi, t) for t in eb.args])
        if eb.is_Mul and eb != body:
            return binder(F, k, lo, hi, eb)
    if F == PROD and body.is_Mul:
        return sp.Mul(*[binder(F, k, lo, hi, a) for a in body.args])
    d = bind_depth(body) + 1
    b = Symbol("_b%d" % d, integer=True)
    return F(b, lo, hi, body.subs(k, b))


# ------------------------------------------------------------------ conditions
def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.func == NOT:
        return c.args[0]
    if c.func == GE0 and is_int(c.args[0]):
        return GE0(sp.expand(-c.args[0] - 1))
    if c.func == GE0:
        return GT0(sp.expand(-c.args[0]))
    if c.func == GT0:
        return GE0(sp.expand(-c.args[0]))
    if c.func == AND:
        return disj(*[neg(a) for a in c.args])
    if c.func == OR:
        return conj(*[neg(a) for a in c.args])
    return NOT(c)


def _flat(F, cs):
    out = []
    for c in cs:
        if c is True or c is False:
            out.append(c)
        elif c.func == F:
            out.extend(c.args)
        else:
            out.append(c)
    return out


def conj(*cs):
    cs = _flat(AND, cs)
    o = []
    for c in cs:
        if c is False:
            return False
        if c is True or c in o:
            continue
        if neg(c) in o:
            return False
        o.append(c)
    if not o:
        return True
    if len(o) == 1:
        return o[0]
    return AND(*sorted(o, key=sp.default_sort_key))


def disj(*cs):
    cs = _flat(OR, cs)
    o = []
    for c in cs:
        if c is True:
            return True
        if c is False or c in o:
            continue
        if neg(c) in o:
            return True
        o.append(c)
    if not o:
        return False
    if len(o) == 1:
        return o[0]
    return OR(*sorted(o, key=sp.default_sort_key))


def iscond(e):
    return e is True or e is False or (isinstance(e, sp.Function) and e.func in CONDF)


def tocond(v):
    if v is True or v is False:
        return v
    if v is None:
        return False
    if isinstance(v, (str, tuple, list, dict)):
        return bool(v)
    if iscond(v):
        return v
    if isexpr(v):
        if v.is_number:
            return bool(v != 0)
        if isinstance(v, sp.Function) and v.func == ITE:
            a, b = tocond(v.args[1]), tocond(v.args[2])
            c = v.args[0]
            return disj(conj(c, a), conj(neg(c), b))
        return neg(EQ0(v)) if is_int(v) or v.is_real else TRUTH(v)
    return None


def condexpr(c):
    """cond as an expression usable inside other terms"""
    if c is True:
        return TRUTH(S.One)
    if c is False:
        return TRUTH(S.Zero)
    return c


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if iscond(a) and iscond(b):
        return disj(conj(c, a), conj(neg(c), b))
    if isexpr(a) and isexpr(b):
        if a == b or sp.expand(a - b) == 0:
            return a
        if c.func == NOT:
            c, a, b = c.args[0], b, a
        if isinstance(a, sp.Function) and a.func == ITE and a.args[0] == c:
            a = a.args[1]
        if isinstance(b, sp.Function) and b.func == ITE and b.args[0] == c:
            b = b.args[2]
        return ITE(c, a, b)
    return None


class Prover:
    """Bounds for integer symbols; proves signs of polynomial index expressions."""

    def __init__(self):
        self.bounds = {}  # sym -> (lo, hi) inclusive, sympy or None
        self.order = []
        self.atom_bounds = []  # callables atom -> (lo,hi) or None
        self.facts = {}  # cond -> bool (assumed)
        self.memo = {}

    def clone(self):
        p = Prover()
        p.bounds = dict(self.bounds)
        p.order = list(self.order)
        p.atom_bounds = list(self.atom_bounds)
        p.facts = dict(self.facts)
        return p

    def declare(self, s, lo=None, hi=None):
        if s not in self.bounds:
            self.order.append(s)
        self.memo.clear()
        self.bounds[s] = (None if lo is None else sp.sympify(lo), None if hi is None else sp.sympify(hi))

    def _atoms(self, e):
        fs = [f for f in e.atoms(sp.Function)]
        # outermost function atoms only
        out = []
        for f in fs:
            out.append(f)
        return out

    def nonneg(self, e, depth=0):
        """True if e >= 0 is provable."""
        k = (e, depth, len(self.atom_bounds))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._nonneg(e, depth)
        return r

    def _nonneg(self, e, depth=0):
        e = sp.expand(e)
        if e.is_number:
            return bool(e >= 0)
        if depth > 12:
            return False
        # replace bounded function atoms
        for f in sorted(e.atoms(sp.Function), key=lambda f: -f.count_ops()):
            if not e.has(f):
                continue
            b = None
            for h in self.atom_bounds:
                b = h(f)
                if b:
                    break
            if b is None and f.func == COUNT:
                b = (S.Zero, f.args[2] - f.args[1])
            if b is None and f.func == ITE:
                r = all(self.nonneg(e.xreplace({f: x}), depth + 1) for x in f.args[1:])
                return r
            if b is None:
                continue
            lo, hi = b
            t = sp.Dummy("t", integer=True)
            e2 = e.xreplace({f: t})
            co = sp.expand(sp.diff(e2, t))
            if co.has(t):
                continue
            if self.nonneg(co, depth + 1) and lo is not None:
                return self.nonneg(sp.expand(e2.subs(t, lo)), depth + 1)
            if self.nonneg(-co, depth + 1) and hi is not None:
                return self.nonneg(sp.expand(e2.subs(t, hi)), depth + 1)
        if not e.is_polynomial():
            # floor / ceiling of halves etc.
            return False
        # eliminate symbols with symbolic bounds, latest declared first
        free = e.free_symbols
        for s in reversed(self.order):
            if s not in free:
                continue
            lo, hi = self.bounds[s]
            co = sp.expand(sp.diff(e, s))
            symb = (lo is not None and lo.free_symbols) or hi is not None
            if not symb:
                continue
            if co.has(s):
                continue
            if lo is not None and self.nonneg(co, depth + 1):
                if self.nonneg(sp.expand(e.subs(s, lo)), depth + 1):
                    return True
            elif hi is not None and self.nonneg(-co, depth + 1):
                if self.nonneg(sp.expand(e.subs(s, hi)), depth + 1):
                    return True
            else:
                # either sign: need both ends (linear)
                if lo is not None and hi is not None and self.nonneg(sp.expand(e.subs(s, lo)), depth + 1) and self.nonneg(sp.expand(e.subs(s, hi)), depth + 1):
                    return True
            return False
        # all remaining symbols have constant lower bounds: shift
        sub = {}
        for s in e.free_symbols:
            b = self.bounds.get(s)
            if not b or b[0] is None or not b[0].is_number:
                if s.is_nonnegative:
                    continue
                return False
            sub[s] = s + b[0]
        e = sp.expand(e.subs(sub, simultaneous=True))
        if e.is_number:
            return bool(e >= 0)
        try:
            p = sp.Poly(e, *sorted(e.free_symbols, key=str))
        except sp.PolynomialError:
            return False
        return all(c >= 0 for c in p.coeffs())

    def decide(self, c, pc=()):
        if c is True or c is False:
            return c
        if c is None:
            return None
        if c in pc:
            return True
        n = neg(c)
        if n in pc:
            return False
        if c in self.facts:
            return self.facts[c]
        if n in self.facts:
            return not self.facts[n]
        F = c.func
        if F == TRUTH and c.args[0].is_number:
            return bool(c.args[0] != 0)
        if F == NOT:
            r = self.decide(c.args[0], pc)
            return None if r is None else (not r)
        if F == AND:
            rs = [self.decide(a, pc) for a in c.args]
            if False in rs:
                return False
            return True if all(r is True for r in rs) else None
        if F == OR:
            rs = [self.decide(a, pc) for a in c.args]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if F == EXISTS:
            r = self.decide(c.args[3], pc)
            if r is False:
                return False
            if self.nonneg(c.args[1] - c.args[2]):
                return False
            return None
        e = sp.expand(c.args[0]) if c.args else None
        if F == GE0:
            if self.nonneg(e):
                return True
            if is_int(e) and self.nonneg(-e - 1):
                return False
            # use pc facts of the same shape
            for q in pc:
                if q is True or q is False:
                    continue
                if q.func == GE0 and self.nonneg(e - q.args[0]):
                    return True
                if q.func == GE0 and is_int(e) and self.nonneg(-e - 1 - q.args[0]):
                    return False
                if q.func == EQ0:
                    if self.nonneg(e - q.args[0]) or self.nonneg(e + q.args[0]):
                        return True
                    if is_int(e) and (self.nonneg(-e - 1 - q.args[0]) or self.nonneg(-e - 1 + q.args[0])):
                        return False
            return None
        if F == GT0:
            if e.is_number:
                return bool(e > 0)
            if e.is_positive:
                return True
            if e.is_nonpositive:
                return False
            return None
        if F == EQ0:
            if e == 0:
                return True
            if e.is_number:
                return bool(sp.simplify(e) == 0)
            if e.free_symbols == {DBL_MAX} and sp.expand(e - DBL_MAX).is_number:
                return bool(sp.simplify(e - DBL_MAX) == 0)  # an ordinary number is not the largest double
            if e.free_symbols == {DBL_MAX} and sp.expand(e + DBL_MAX).is_number:
                return False
            if is_int(e):
                if self.nonneg(e - 1) or self.nonneg(-e - 1):
                    return False
                for q in pc:
                    if q is True or q is False:
                        continue
                    if q.func == GE0 and (self.nonneg(e - 1 - q.args[0]) or self.nonneg(-e - 1 - q.args[0])):
                        return False
                if self.ne_mod(e):
                    return False
            if e.is_positive or e.is_negative:
                return False
            return None
        return None

    def ne_mod(self, e):
        """e = 2*q + odd constant can never be zero (and likewise for modulus 3, 4)."""
        co = e.as_coefficients_dict()
        cst = co.get(S.One, S.Zero)
        if not cst.is_integer:
            return False
        for m in (2, 3, 4):
            if all((k == 1) or (v.is_integer and v % m == 0 and is_int(k)) for k, v in co.items()) and cst % m != 0:
                return True
        return False

    def eq(self, a, b):
        return sp.expand(a - b) == 0


def mod(a, n):
    a = sp.expand(a)
    if a.is_number and n.is_number:
        return a % n
    if n.is_Integer:
        r = S.Zero
        for t, c in a.as_coefficients_dict().items():
            if c.is_integer and is_int(t) and c % n == 0:
                continue
            if c.is_integer and is_int(t):
                r += (c % n) * t
            else:
                r += c * t
        if r.is_number:
            return r % n
        return sp.Function("i_MOD")(r, n)
    return sp.Function("i_MOD")(a, n)


def floordiv(a, b):
    a, b = sp.expand(a), sp.expand(b)
    if a.is_number and b.is_number:
        return sp.floor(a / b)
    return sp.floor(a / b)


def cmp(op, a, b, p=None, pc=()):
    """Comparison of two expressions as a condition."""
    if a in (sp.oo, -sp.oo) or b in (sp.oo, -sp.oo):
        fin = lambda v: v.is_number and v.is_finite or (isinstance(v, Symbol))
        if a == b:
            return op in ("==", ">=", "<=")
        if (fin(a) or a in (sp.oo, -sp.oo)) and (fin(b) or b in (sp.oo, -sp.oo)):
            # a finite quantity against an infinite one
            if op in ("==", "!="):
                return op == "!="
            less = (b == sp.oo) or (a == -sp.oo)
            return less if op in ("<", "<=") else not less
    d = sp.expand(a - b)
    integer = is_int(a) and is_int(b)
    if op == "==":
        c = eq0(d)
    elif op == "!=":
        c = neg(eq0(d))
    elif op == ">=":
        c = GE0(d)
    elif op == "<=":
        c = GE0(sp.expand(-d))
    elif op == ">":
        c = GE0(sp.expand(d - 1)) if integer else GT0(d)
    elif op == "<":
        c = GE0(sp.expand(-d - 1)) if integer else GT0(sp.expand(-d))
    else:
        raise ValueError(op)
    if p is not None:
        r = p.decide(c, pc)
        if r is not None:
            return r
    note(d)
    return c


SEEN = {}  # symbol -> constants it was compared with


def note(d):
    fs = getattr(d, "free_symbols", ())
    if len(fs) != 1:
        return
    (s,) = fs
    if len(SEEN.get(s, ())) > 12 or d.count_ops() > 12:
        return
    a = d.coeff(s, 1)
    if a.is_number and a != 0 and not (sp.expand(d - a * s)).free_symbols:
        r = -sp.expand(d - a * s) / a
        if r.is_real:
            SEEN.setdefault(s, set()).add(r)


def near(s, lo, hi):
    """Integers next to the constants a symbol was compared with."""
    out = set()
    for r in SEEN.get(s, ()):
        f = int(sp.floor(r))
        out |= {q for q in range(f - 1, f + 3) if lo <= q <= hi}
    return sorted(out)


def eq0(d):
    if d == 0:
        return True
    if d.is_number:
        return bool(sp.simplify(d) == 0)
    # canonical sign
    if d.could_extract_minus_sign():
        d = sp.expand(-d)
    return EQ0(d)
