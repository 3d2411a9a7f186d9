"""Polynomial families: the values and all derivatives of every column, both implementations.

For a family with f_{k+1} = (A_k + B_k z) f_k - C_k f_{k-1} the d-th derivative satisfies
f^(d)_{k+1} = (A_k + B_k z) f^(d)_k + d B_k f^(d-1)_k - C_k f^(d)_{k-1}.
The analysis is split on m in {1},{2},>=3 and d in {0},{1},>=2; the loop over derivative orders is
summarised with the loop invariant "the buffer holds the t-th derivatives".
"""
import ast
import sympy as sp
from sympy import S, Function, Symbol, Integer
import alg
import ai
import arr
from ai import State, Giveup
from core import modules, unit, module

z = Symbol("z", real=True)
k_ = Symbol("k", integer=True)

FAM = {
    # p1, A_k, B_k, C_k
    "CP": (z, S.Zero, Integer(2), S.One),
    "LeP": (z, S.Zero, (2 * k_ + 1) / (k_ + 1), k_ / (k_ + 1)),
    "LaP": (1 - z, (2 * k_ + 1) / (k_ + 1), -1 / (k_ + 1), k_ / (k_ + 1)),
    "HoPpro": (z, S.Zero, S.One, k_),
    "HoPphy": (2 * z, S.Zero, Integer(2), 2 * k_),
}

_ref = {}


def ref(fam, c, d):
    """The classical polynomial of degree c, differentiated d times (in z)."""
    key = (fam, c)
    if key not in _ref:
        p1, A, B, C = FAM[fam]
        if c == 0:
            _ref[key] = S.One
        elif c == 1:
            _ref[key] = p1
        else:
            k = c - 1
            _ref[key] = sp.expand((A + B * z).subs(k_, k) * ref(fam, c - 1, 0) - C.subs(k_, k) * ref(fam, c - 2, 0))
    p = _ref[key]
    return sp.diff(p, z, d) if d else p


P = Function("P")  # P(col, order, row)
Z = Function("z")  # z(row)
PQ = Function("PQ")  # template read at an index not yet split into row and column
SELF = Function("SELFCOL")  # SELFCOL(col,row)


class PolyCheck:
    def __init__(self, rep, fam, backend):
        self.rep, self.fam, self.backend = rep, fam, backend
        self.N = Symbol("N", integer=True, positive=True)
        self.d = Symbol("d", integer=True, nonnegative=True)
        self.r = Symbol("row", integer=True)
        self.c = Symbol("col", integer=True)
        self.construct = "%s %s" % (fam, backend)

    # ---------------------------------------------------------------- template
    def Pv(self, ip, c, t, r, pc=()):
        """P(c,t,r) with the known low columns evaluated."""
        zr = Z(r)
        if c == 0:
            if self.eq(ip, t, 0, pc):
                return S.One
            if self.ge(ip, t, 1, pc):
                return S.Zero
        if c == 1:
            p1 = FAM[self.fam][0]
            if self.eq(ip, t, 0, pc):
                return p1.subs(z, zr)
            if self.eq(ip, t, 1, pc):
                return sp.diff(p1, z)
            if self.ge(ip, t, 2, pc):
                return S.Zero
        return P(c, t, r)

    def eq(self, ip, a, b, pc=()):
        return ip.p.decide(alg.eq0(sp.expand(sp.sympify(a) - b)) if sp.expand(sp.sympify(a) - b) != 0 else True, pc) is True

    def ge(self, ip, a, b, pc=()):
        return ip.p.decide(alg.GE0(sp.expand(sp.sympify(a) - b)), pc) is True

    def rc(self, ip, idx):
        """(row, col) from an index tuple (2-D, or flat row-major with stride m)."""
        if len(idx) == 2:
            return idx[0], idx[1]
        m = self.m
        if m == 1:
            return idx[0], S.Zero
        q, rem = arr.split_stride(idx[0], sp.sympify(m))
        if q is None:
            return None
        if not (ip.p.nonneg(rem) and ip.p.nonneg(m - 1 - rem)):
            return None
        return q, rem

    def at(self, ip, ndim, row, col):
        return (row, col) if ndim == 2 else (sp.expand(self.m * row + col),)

    def template(self, ip, t, ndim):
        def fn(idx):
            x = self.rc(ip, idx)
            if x is None:
                return PQ(*(tuple(idx) + (t,)))
            return self.Pv(ip, x[1], t, x[0])

        return arr.Init(fn, "P")

    # ---------------------------------------------------------------- content checks
    def norm(self, ip, e, ndim):
        """SELF reads and rows in canonical (col,row) form."""

        def go(f):
            x = self.rc(ip, f.args)
            return SELF(x[1], x[0]) if x is not None else Function("SELF?")(*f.args)

        e = self.unq(ip, e)
        return e.replace(lambda f: isinstance(f, sp.Function) and f.func.__name__ == "SELFIDX", go)

    def unq(self, ip, e):
        if not alg.isexpr(e):
            return e

        def gp(f):
            x = self.rc(ip, f.args[:-1])
            return self.Pv(ip, x[1], f.args[-1], x[0]) if x is not None else f

        return e.replace(lambda f: isinstance(f, sp.Function) and f.func == PQ, gp)

    def content(self, ip, st, ver, ndim, t, what, rule, line):
        """Does the array version hold P(., t)?  True / False / None, with reporting."""
        m = self.m
        low = [0] if m == 1 else [0, 1]
        ok = True
        pc = st.pc
        for c in low:
            v = ip.r.elem(ver, self.at(ip, ndim, self.r, Integer(c)), pc)
            v = self.unq(ip, arr.simp(v, ip.p, pc))
            e = self.Pv(ip, Integer(c), t, self.r)
            res = self.same(v, e)
            if res is True:
                continue
            if res is False:
                self.bad(rule, "column %d, derivative %s (m %s)" % (c, self.tname(t), self.mname()), line, "column %d at derivative order %s is %s, the %s polynomial gives %s" % (c, self.tname(t), self.show(v), self.fam, self.show(e)))
                ok = False
                continue
            self.rep.undecided(rule, "%s: %s column %d" % (self.construct, what, c), "value %s" % str(v)[:120])
            ok = None if ok is True else ok
        if m in (1, 2):
            return ok
        c = self.c
        idx = self.at(ip, ndim, self.r, c)
        v = ip.r.rec_elem(ver, idx, "SELFIDX", pc)
        if v is None or isinstance(v, bool):
            self.rep.undecided(rule, "%s: %s column >= 2" % (self.construct, what), "no recurrence recovered")
            return None if ok is True else ok
        v = self.norm(ip, arr.simp(v, ip.p, pc), ndim)
        res = self.recurrence(v, t)
        if res is True:
            return ok
        if res is None:
            self.rep.undecided(rule, "%s: %s column >= 2" % (self.construct, what), "right-hand side %s" % str(v)[:160])
            return None if ok is True else ok
        cc, tt, got, want = res
        self.bad(rule, "column recurrence, derivative %s" % self.tname(t), line, "the recurrence for column k gives %s; at k=%d, order %s this is %s instead of %s" % (self.show(v), cc, tt, self.show(got), self.show(want)))
        return False

    def show(self, e):
        return str(e).replace("SELFCOL", "F").replace("z(row)", "z")[:200]

    def tname(self, t):
        return str(t)

    def mname(self):
        return str(self.m) if sp.sympify(self.m).is_Integer else ">= 3"

    def bad(self, rule, what, line, msg):
        self.rep.violation(rule, "%s: %s" % (self.construct, what), self.where(line), msg)

    def where(self, line):
        return "%s:%s" % (self.file, line or self.line0)

    def same(self, v, e):
        if isinstance(v, bool) or not alg.isexpr(v):
            return None
        if sp.expand(v - e) == 0 or sp.simplify(v - e) == 0:
            return True
        # definite only when both sides are understood
        if self.understood(v) and self.understood(e):
            return False
        return None

    def understood(self, v):
        for f in v.atoms(sp.Function):
            if f.func not in (P, Z, SELF, alg.ITE, alg.GE0, alg.EQ0, alg.AND, alg.OR, alg.NOT) and not isinstance(f, (sp.sin, sp.cos, sp.exp)):
                return False
        return v.free_symbols <= {self.r, self.c, self.N, self.d} | ({self.m} if isinstance(self.m, Symbol) else set()) | self.tsyms

    def recurrence(self, v, t):
        """Compare a recovered right-hand side with the differentiated three-term recurrence."""
        p1, A, B, C = FAM[self.fam]
        c, r = self.c, self.r
        k = c - 1
        zr = Z(r)
        exp = (A + B * z).subs(k_, k).subs(z, zr) * SELF(c - 1, r) - C.subs(k_, k) * SELF(c - 2, r)
        if t != 0:
            exp = exp + t * B.subs(k_, k) * P(c - 1, sp.expand(t - 1), r)
        if sp.simplify(sp.expand(v - exp)) == 0:
            return True
        if not self.understood(v):
            return None
        if self.N in v.free_symbols:
            return None
        # interpret the recovered recurrence over the classical polynomials: a concrete witness decides
        for cc in range(2, 7):
            for tt in range(0, 5):
                if not sp.sympify(t).free_symbols:
                    if tt != t:
                        continue
                    sub = {}
                else:
                    s = list(sp.sympify(t).free_symbols)[0]
                    val = sp.solve(sp.sympify(t) - tt, s)
                    if not val or not val[0].is_Integer or val[0] < self.tmin.get(s, 0):
                        continue
                    sub = {s: val[0]}
                for mm in (cc + 1, cc + 2, cc + 4) if isinstance(self.m, Symbol) else (None,):
                    x = v.xreplace({c: Integer(cc)}).xreplace(sub)
                    if mm is not None:
                        x = x.xreplace({self.m: Integer(mm)})
                    x = arr.simp(x, alg.Prover())
                    if not alg.isexpr(x):
                        return None
                    try:
                        x = x.replace(lambda f: isinstance(f, sp.Function) and f.func == SELF, lambda f: ref(self.fam, int(sp.expand(f.args[0])), tt))
                        x = x.replace(lambda f: isinstance(f, sp.Function) and f.func == P, lambda f: ref(self.fam, int(sp.expand(f.args[0])), int(sp.expand(f.args[1]))))
                    except (TypeError, ValueError):
                        return None
                    x = x.replace(lambda f: isinstance(f, sp.Function) and f.func == Z, lambda f: z)
                    want = ref(self.fam, cc, tt)
                    if not x.free_symbols <= {z}:
                        return None
                    if sp.simplify(sp.expand(x - want)) != 0:
                        return cc, tt, sp.expand(x), sp.expand(want)
        return None

    # ---------------------------------------------------------------- loop over derivative orders
    def hook(self, ip, info):
        d = self.d
        lo, hi = info["lo"], info["hi"]
        if lo != 0 or sp.expand(hi - d) != 0 or info["desc"]:
            return None
        st, env, body, inc, bind, node = info["st"], info["env"], info["body"], info["inc"], info["bind"], info["node"]
        line = getattr(node, "lineno", 0)
        ndim = 2 if self.backend == "python" else 1
        ip.loop_hook = None  # no nesting
        try:
            # exploratory pass: what does the body change
            def run(prep, tval):
                s1 = st.fork()
                prep(s1)
                bind(tval, s1)
                if info["ivar"] is not None:
                    s1.envs[env][info["ivar"]] = tval
                fl = ip.block(body, s1, env)
                if fl.brk or fl.rets:
                    raise Giveup("early exit from the derivative loop")
                items = ([(fl.normal.pc, fl.normal)] if fl.normal is not None else []) + fl.cont
                if not items:
                    raise Giveup("derivative loop body never completes")
                end = ip.merge_all(items, st.pc)
                if inc:
                    end = ip.block(inc, end, env).normal
                return end

            T0 = Symbol("t0", integer=True, nonnegative=True)
            ip.p.declare(T0, 0, sp.expand(d - 1))
            e0 = run(lambda s: None, T0)
            carr = []
            for w in sorted(info["W"]):
                v = st.envs[env].get(w)
                if ip.isarr(v) and not ai.veq(e0.envs[env].get(w), v):
                    carr.append(("var", w))
            heap = [h for h, o in st.heap.items() if isinstance(o, ai.ArrC) and e0.heap[h].ver is not o.ver]
            for h in heap:
                carr.append(("heap", h))
            held = []
            others = []
            und0, v0 = len(self.rep.und), len(self.rep.viol)
            for kind, x in carr:
                ver = st.heap[st.envs[env][x].id].ver if kind == "var" else st.heap[x].ver
                n = len(st.heap[st.envs[env][x].id].dims) if kind == "var" else (2 if st.heap[x].dims is not None else 1)
                if n not in (1, 2):
                    others.append((kind, x))
                    continue
                held.append((kind, x, ver, n))
            if len(held) > 1:
                # keep those whose content at entry is at least initialised in column 0
                h2 = []
                for q in held:
                    v = ip.r.elem(q[2], self.at(ip, q[3], self.r, S.Zero), st.pc)
                    if alg.isexpr(v) and self.understood(v):
                        h2.append(q)
                    else:
                        others.append(q[:2])
                held = h2
            if len(held) != 1:
                raise Giveup("cannot tell which array carries the derivatives (%d candidates)" % len(held))
            kind, x, ver, n = held[0]
            self.content(ip, st, ver, n, S.Zero, "order 0", "values", line)
            # the step, partitioned on the order
            for tval in (S.Zero, S.One, None):
                if tval is None:
                    T = Symbol("t", integer=True, positive=True)
                    ip.p.declare(T, 2, sp.expand(d - 1))
                    self.tmin[T] = 2
                    self.tsyms.add(T)
                    tval = T

                def prep(s, tval=tval):
                    tm = self.template(ip, tval, n)
                    if kind == "var":
                        a = st.heap[st.envs[env][x].id]
                        i = ip.new()
                        s.heap[i] = ai.ArrC(a.dims, tm, "P", a.dtype)
                        s.envs[env][x] = ai.Ref("arr", i)
                    else:
                        s.heap[x] = s.heap[x].with_ver(tm)
                    for kk, y in others:
                        if kk == "heap":
                            s.heap[y] = s.heap[y].with_ver(arr.Hav("scratch%d" % y))

                end = run(prep, tval)
                if kind == "var":
                    nv = end.envs[env].get(x)
                    if not ip.isarr(nv):
                        raise Giveup("derivative buffer lost")
                    nver, nn = end.heap[nv.id].ver, len(end.heap[nv.id].dims)
                    if sp.expand(end.heap[nv.id].dims[-1] - self.m) != 0 or sp.expand(end.heap[nv.id].dims[0] - self.N) != 0:
                        self.bad("shape", "derivative buffer", line, "derivative buffer has shape %s" % (end.heap[nv.id].dims,))
                else:
                    nver, nn = end.heap[x].ver, n
                r = self.content(ip, end, nver, nn, sp.expand(tval + 1), "order %s" % sp.expand(tval + 1), "derivatives", line)
                if r is True:
                    self.rep.hold("derivatives", "%s: order %s -> %s (m %s, every column and row)" % (self.construct, tval, sp.expand(tval + 1), self.mname()))
            out = st.fork()
            for w in info["W"]:
                if w in out.envs[env] and not (kind == "var" and w == x):
                    v = out.envs[env][w]
                    if not ai.veq(e0.envs[env].get(w), v):
                        out.envs[env][w] = ai.Opq("loopval", (w, id(info)))
            if info["ivar"] is not None:
                out.envs[env][info["ivar"]] = hi
            for h in heap:
                out.heap[h] = out.heap[h].with_ver(arr.Hav("scratch%d" % h))
            tm = self.template(ip, d, n)
            if kind == "var":
                a = st.heap[st.envs[env][x].id]
                i = ip.new()
                out.heap[i] = ai.ArrC(a.dims, tm, "P", a.dtype)
                out.envs[env][x] = ai.Ref("arr", i)
            else:
                out.heap[x] = out.heap[x].with_ver(tm)
            self.used_hook = True
            return ai.Flow(out)
        finally:
            ip.loop_hook = self.hook

    # ---------------------------------------------------------------- run one cell of the partition
    def run(self, m, dcase):
        """dcase: 0, 1, or (lower bound) for symbolic d"""
        self.m = sp.sympify(m)
        self.tsyms, self.tmin = {self.d}, {}
        self.used_hook = False
        p = alg.Prover()
        ip = ai.Interp(modules(), unit() if self.backend == "c++" else None, p)
        ip.modstack = []
        p.declare(self.N, 1)
        if isinstance(self.m, Symbol):
            p.declare(self.m, 3)
        p.declare(self.r, 0, self.N - 1)
        if self.m != 1 and self.m != 2:
            p.declare(self.c, 2, self.m - 1)
        if isinstance(dcase, tuple):
            d = self.d
            p.declare(d, dcase[0])
        else:
            d = Integer(dcase)
        ip.loop_hook = self.hook
        st = State()
        try:
            if self.backend == "python":
                M = module("tfc.utils.BF_Py")
                self.file = M.path
                fn = ip.find_member(ai.ClsV(self.fam, M), "_Hint")
                self.line0 = fn.node.lineno
                zz = ip.arr(st, (self.N, S.One), lambda idx: Z(idx[0]), "z")
                o = ip.obj(st, ai.ClsV(self.fam, M), {"_m": self.m})
                res = ip.call(ip.getattr(o, "_Hint", st), [zz, d], {}, st)
                res = self.pick(ip, st, res)
                if not ip.isarr(res):
                    self.rep.undecided("values", "%s m=%s d=%s" % (self.construct, m, dcase), "result %r" % (res,))
                    return
                dims = ip.dims(st, res)
                if len(dims) != 2 or sp.expand(dims[0] - self.N) != 0 or sp.expand(dims[1] - self.m) != 0:
                    self.bad("shape", "result (m %s)" % self.mname(), self.line0, "result has shape %s instead of (N, m)" % (dims,))
                    return
                ver, nd = st.heap[res.id].ver, 2
            else:
                self.file = "src/tfc/utils/BF.cc"
                u = unit()
                zz = ip.arr(st, None, lambda idx: Z(idx[0]), "z")
                dark = ip.arr(st, None, lambda idx: Function("uninit_dark")(idx[0]), "dark")
                o = ip.obj(st, ai.CxxCls(self.fam), {"BasisFunc.m": self.m})
                fv = ip.cxx_method(o, "Hint", None, 4, st)
                if fv is None:
                    self.rep.undecided("values", self.construct, "no Hint with 4 parameters")
                    return
                self.line0 = fv.cxxfn.line
                ip.call(fv, [d, zz, self.N, dark], {}, st)
                ver, nd = st.heap[dark.id].ver, 1
            self.rep.stats(ip)
            t = d
            r = self.content(ip, st, ver, nd, t, "result", "values" if t == 0 else "derivatives", self.line0) if not self.used_hook else self.final(ip, st, ver, nd)
            if r is True:
                self.rep.hold("values" if t == 0 else "derivatives", "%s: m %s, d %s" % (self.construct, self.mname(), dcase if not isinstance(dcase, tuple) else ">= %d" % dcase[0]))
        except Giveup as e:
            self.rep.stats(ip)
            self.rep.undecided("values", "%s m=%s d=%s" % (self.construct, m, dcase), e)

    def final(self, ip, st, ver, nd):
        """After the derivative loop the returned content must be the template at order d."""
        cols = [S.Zero, S.One, self.c]
        if self.m == 1:
            cols = [S.Zero]
        elif self.m == 2:
            cols = [S.Zero, S.One]
        for c in cols:
            v = self.unq(ip, arr.simp(ip.r.elem(ver, self.at(ip, nd, self.r, c), st.pc), ip.p, st.pc))
            e = self.Pv(ip, c, self.d, self.r)
            if alg.isexpr(v) and sp.expand(v - e) == 0:
                continue
            if alg.isexpr(v) and self.understood(v):
                self.bad("derivatives", "result column %s" % c, self.line0, "after differentiating, column %s of the result is %s" % (c, self.show(v)))
                return False
            self.rep.undecided("derivatives", self.construct, "final content %s" % str(v)[:100])
            return None
        return True

    def pick(self, ip, st, v):
        """A gated array value whose gate the case split decides."""
        while isinstance(v, ai.IteV):
            d = ip.p.decide(v.c, st.pc)
            if d is None:
                return v
            v = v.a if d else v.b
        return v


def check_product(rep):
    check(rep, ("CP", "LeP"))


def check(rep, fams=None):
    m = Symbol("m", integer=True, positive=True)
    for fam in fams or FAM:
        for be in ("python", "c++"):
            for mm in (1, 2):
                for dc in (0, 1, (2,)):
                    PolyCheck(rep, fam, be).run(mm, dc)
            PolyCheck(rep, fam, be).run(m, 0)
            PolyCheck(rep, fam, be).run(m, (1,))
