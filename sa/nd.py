"""n-input product bases.

H(x, d)[i, r] = prod_l c_l^{d_l} Hint^(d_l)_{v_l}((x_{l,i} - x0_l) c_l + z0)
where v = (v_0, ..., v_{dim-1}) is the r-th admissible exponent vector: sum(v) <= m - 1 and, unless the full
set is requested, some v_l not listed in row l of nC.  The vectors are enumerated by a self-recursive routine
(one recursion level per dimension).  The rule is inductive: the recursive case is analysed for a symbolic
level, the innermost case for symbolic outer exponents; nothing is unrolled."""
import ast
import itertools
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import arr
import bf
import domain
import terms
from ai import Giveup, Opq, Ptr, VarRef, State
from bf import N, M, ROW
from core import module, modules, unit, parallel, AnchorLost
from domain import HIN, DOM

mp = terms.mp
DIM = Symbol("dim", integer=True, positive=True)
C0 = Symbol("cnt0", integer=True, nonnegative=True)
DS = Symbol("lev", integer=True, positive=True)
NBR = Symbol("nb_red", integer=True, nonnegative=True)
NBF = Symbol("nb_full", integer=True, positive=True)
nc = domain.nc
DD = Symbol("dDim0", integer=True, nonnegative=True)
X = Function("x")
X0 = Function("x0")
XF = Function("xf")
NC = Function("i_nC")
V = Function("i_V")
D = Function("i_d")
CLS = {"nCP": "CP", "nLeP": "LeP", "nFS": "FS"}


class Bad(Exception):
    """A definite contradiction with the definition."""


def vecp(j, k):
    return alg.ite(alg.eq0(sp.sympify(j)), k, V(j))


def incl(k, full, nco):
    b, g = alg.fresh("b"), alg.fresh("g")
    s = alg.binder(alg.SUM, b, S.Zero, DIM, vecp(b, k))
    deg = alg.GE0(sp.expand(M - 1 - s))
    if full:
        return deg
    j = alg.fresh("j")
    inner = alg.binder(alg.EXISTS, g, S.Zero, nc, alg.eq0(sp.expand(vecp(j, k) - nco(j, g))))
    ex = alg.binder(alg.EXISTS, j, S.Zero, DIM, alg.neg(inner))
    return alg.conj(ex, deg)


def selfrec(fv):
    n = fv.node
    if not hasattr(n, "_selfrec"):
        nm = getattr(n, "name", None)
        body = getattr(n, "cxx_body", None) or getattr(n, "body", [])
        r = False
        if nm and isinstance(body, list):
            for s in body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and ((isinstance(x.func, ast.Name) and x.func.id == nm) or (isinstance(x.func, ast.Attribute) and x.func.attr == nm)):
                        r = True
        n._selfrec = r
    return n._selfrec


class Enum:
    """One call of the enumerating routine and what the analysis of its cases found."""

    def __init__(self):
        self.calls = []


def same(a, b):
    return ai.veq(a, b) or (alg.isexpr(a) and alg.isexpr(b) and not isinstance(a, bool) and not isinstance(b, bool) and sp.expand(a - b) == 0)


class Rule:
    def __init__(self, be, cls, rep):
        self.be, self.cls, self.rep = be, cls, rep
        p = self.p = alg.Prover()
        for s in (N, M, DIM):
            p.declare(s, 1)
        p.declare(nc, 0)
        p.declare(C0, 0)
        p.declare(DD, 0)
        p.declare(ROW, 0, N - 1)
        p.declare(DS, 1, DIM - 1)
        p.declare(NBR, 1)  # with no admissible vector nothing is stored at all
        p.declare(NBF, 1)
        p.atom_bounds.append(lambda f: (S.Zero, M - 1) if f.func == V else None)
        self.ip = ai.Interp(modules(), unit() if be == "c++" else None, p)
        self.ip.modstack = []
        self.st = State()
        self.log = []
        self.inner = None
        self.found = []  # analysed enumerations
        self.ip.call_hook = self.hook
        self.hh = domain.cxx_hint_hook(self.log)
        self.mode = None

    # ---- the native layout of nC is dim x numC row-major, the Python one a matrix
    def nco(self, j, g):
        return NC(sp.expand(j * nc + g)) if self.be == "c++" else NC(j, g)

    def hook(self, ip, fv, args, kw, st, node, env):
        if isinstance(fv, ai.FnV):
            if self.be == "c++":
                r = self.hh(ip, fv, args, kw, st, node, env)
                if r is not NotImplemented:
                    return r
            elif fv.name == "_Hint" and fv.selfv is not None:
                return self.pyhint(ip, args, kw, st)
            if self.inner is not None and fv.node is self.inner[0]:
                return self.inner[1](fv, args, kw, st, node, env)
            if self.inner is None and selfrec(fv):
                return self.enumerate(fv, args, kw, st, node, env)
        return NotImplemented

    def pyhint(self, ip, args, kw, st):
        a = list(args)
        zz = bf.pick(ip, st, a[0] if a else kw.get("z"))
        dd = a[1] if len(a) > 1 else kw.get("d")
        if not ip.isarr(zz):
            raise Giveup("Hint argument %r" % (zz,))
        dims = ip.dims(st, zz)
        if dims is None or len(dims) != 2:
            raise Giveup("Hint argument of shape %s" % (dims,))
        dd = ip.scal(dd)
        if dd is None:
            raise Giveup("Hint order")
        ver, pc = st.heap[zz.id].ver, st.pc
        return ip.arr(st, (dims[0], M), lambda idx: HIN(idx[1], dd, ip.r.elem(ver, (idx[0], S.Zero), pc)), "HIN")

    # ---- the enumeration
    def bind(self, fv, args, kw, st):
        return self.ip.bind_args(fv, args if not (fv.selfv is not None and self.be == "python" and False) else args, kw, st)

    def params(self, fv, args, kw, st):
        """parameter name -> value, in order"""
        if self.be == "c++":
            return dict(zip(fv.cxxfn.params, args))
        a = list(args)
        names = [x.arg for x in fv.node.args.posonlyargs + fv.node.args.args]
        if names and names[0] == "self":
            names = names[1:]
            if len(a) > len(names):
                a = a[1:]
        d = dict(zip(names, a))
        d.update(kw)
        nd = len(fv.node.args.defaults)
        for n_, df in zip(names[len(names) - nd :], fv.node.args.defaults):
            if n_ not in d:
                d[n_] = self.ip.ev_in(fv.mod, df, st)
        return {n_: d[n_] for n_ in names if n_ in d}

    def enter(self, fv, d, st):
        """run the routine with these parameters in state st; -> (result, final parameter values)"""
        ip = self.ip
        if self.be == "c++":
            env = ip.newenv(st, {"a%d" % i: v for i, v in enumerate(d.values())})
            node = ast.parse("f(%s)" % ", ".join("a%d" % i for i in range(len(d)))).body[0].value
            r = ip.call_fn(fv, ([fv.selfv] if fv.selfv is not None else []) + list(d.values()), {}, st, node, env) if False else self.raw(fv, list(d.values()), st, node, env)
            return r, {n_: st.envs[env]["a%d" % i] for i, n_ in enumerate(d)}
        r = self.raw(fv, list(d.values()), st, None, None)
        return r, d

    def raw(self, fv, vals, st, node, env):
        """call without interception of this very call"""
        old = self.ip.call_hook
        first = [True]

        def hook(ip, f, args, kw, s, nd, e):
            if first[0] and f is fv:
                first[0] = False
                return NotImplemented
            return old(ip, f, args, kw, s, nd, e)

        self.ip.call_hook = hook
        try:
            return self.ip.call(fv, vals, {}, st, node, env)
        finally:
            self.ip.call_hook = old

    def enumerate(self, fv, args, kw, st, node, env):
        ip = self.ip
        d = self.params(fv, args, kw, st)
        lev = [n_ for n_, v in d.items() if alg.isexpr(v) and not isinstance(v, bool) and sp.expand(v - (DIM - 1)) == 0]
        zero = [n_ for n_, v in d.items() if alg.isexpr(v) and not isinstance(v, bool) and v == 0]
        fl = [n_ for n_, v in d.items() if isinstance(v, bool)]
        if len(lev) != 1:
            near = [n_ for n_, v in d.items() if alg.isexpr(v) and not isinstance(v, bool) and v.has(DIM)]
            if len(near) == 1 and len(zero) == 1:
                raise Bad("the enumeration starts at dimension %s instead of the last one" % d[near[0]])
            raise Giveup("enumeration: level argument")
        if len(zero) != 1:
            raise Giveup("enumeration: count argument")
        if len(fl) != 1:
            raise Giveup("enumeration: full flag")
        lev, cnt, fl = lev[0], zero[0], fl[0]
        full = d[fl]
        arrs = {n_: v for n_, v in d.items() if ip.isarr(v) or isinstance(v, Ptr)}

        def ref(v):
            return v.ref if isinstance(v, Ptr) else v

        # --- recursive case, first pass: which array does it write itself
        ev = []

        def inner1(f2, a2, k2, s2, nd, e2):
            ev.append((self.params(f2, a2, k2, s2), s2.fork()))
            return Opq("inner", ())

        d1 = dict(d)
        d1[lev], d1[cnt] = DS, C0
        s1 = st.fork()
        self.inner = (fv.node, inner1)
        try:
            self.enter(fv, d1, s1)
        finally:
            self.inner = None
        written = [n_ for n_, v in arrs.items() if s1.heap[ref(v).id].ver is not st.heap[ref(v).id].ver]
        if len(written) != 1:
            raise Giveup("enumeration: exponent vector (%s)" % written)
        vec = written[0]
        vref = ref(d[vec])
        if isinstance(d[vec], Ptr) and d[vec].off != 0:
            raise Giveup("enumeration: offset vector")
        # --- innermost case
        s0 = st.fork()
        s0.heap[vref.id] = s0.heap[vref.id].with_ver(arr.Init(lambda i: V(i[0]), "vec"))
        outs = [n_ for n_ in arrs if n_ != vec]
        d0 = dict(d)
        d0[lev], d0[cnt] = S.Zero, C0
        before = {n_: s0.heap[ref(arrs[n_]).id].ver for n_ in arrs}
        outname = None
        self.inner = (fv.node, lambda *a: (_ for _ in ()).throw(Giveup("recursion in the innermost case")))
        try:
            r0, e0 = self.enter(fv, d0, s0)
        finally:
            self.inner = None
        changed = [n_ for n_ in outs if s0.heap[ref(arrs[n_]).id].ver is not before[n_]]
        # closures may also write
        if len(changed) > 1:
            raise Giveup("enumeration: several arrays written")
        outname = changed[0] if changed else None
        if outname and self.be == "c++":
            # what the cells of the result hold when the enumeration starts
            nb_ = NBF if full else NBR
            qi, ri = alg.fresh("q"), alg.fresh("r")
            pr = self.p.clone()
            pr.declare(qi, S.Zero, N - 1)
            pr.declare(ri, S.Zero, nb_ - 1)
            old = arr.simp(arr.Reader(pr).elem(st.heap[ref(arrs[outname]).id].ver, (sp.expand(nb_ * qi + ri),), st.pc), pr, st.pc)
            if alg.isexpr(old) and old.is_number:
                s0 = st.fork()
                s0.heap[vref.id] = s0.heap[vref.id].with_ver(arr.Init(lambda i: V(i[0]), "vec"))
                o_ = ref(arrs[outname])
                s0.heap[o_.id] = s0.heap[o_.id].with_ver(arr.Init(lambda i: old, "out"))
                self.inner = (fv.node, lambda *a: (_ for _ in ()).throw(Giveup("recursion in the innermost case")))
                try:
                    r0, e0 = self.enter(fv, d0, s0)
                finally:
                    self.inner = None
        # shape of the result
        if self.be == "c++":
            cend = e0[cnt]
            mk = None
        else:
            r0 = bf.pick(ip, s0, r0)
            if isinstance(r0, tuple):
                ci = [i for i, v in enumerate(r0) if alg.isexpr(v) and not isinstance(v, bool)]
                if len(ci) != 1 or any(not (i in ci or (outname and v == arrs[outname])) for i, v in enumerate(r0)):
                    raise Giveup("enumeration: result %r" % (r0,))
                cend = r0[ci[0]]
                tmpl = r0
                mk = lambda c: tuple(c if i == ci[0] else v for i, v in enumerate(tmpl))
            elif alg.isexpr(r0):
                cend = r0
                mk = lambda c: c
            else:
                raise Giveup("enumeration: result %r" % (r0,))
        # --- recursive case, second pass
        CF = Function("i_cnt")
        ev2 = []

        def inner2(f2, a2, k2, s2, nd, e2):
            p2 = self.params(f2, a2, k2, s2)
            vv = self.ip.r.elem(s2.heap[vref.id].ver, (DS,) + (S.Zero,) * self.vnd(s2, vref), s2.pc)
            J = Symbol("J", integer=True)
            oth = self.ip.r.elem(s2.heap[vref.id].ver, (J,) + (S.Zero,) * self.vnd(s2, vref), s2.pc)
            self.ip.event("inner", s2, params=p2, vv=vv, oth=oth)
            c = p2[cnt] + CF(vv) if alg.isexpr(p2[cnt]) and alg.isexpr(vv) else Opq("cnt", ())
            if self.be == "c++":
                i = list(p2).index(cnt)
                an = nd.args[i]
                if isinstance(an, ast.Name):
                    s2.envs[e2][an.id] = c
                return None
            return mk(c)

        d2 = dict(d)
        d2[lev], d2[cnt] = DS, C0
        s2 = st.fork()
        s2.heap[vref.id] = s2.heap[vref.id].with_ver(arr.Init(lambda i: V(i[0]), "vec"))
        n0 = len(ip.events)
        self.inner = (fv.node, inner2)
        try:
            r2, e2 = self.enter(fv, d2, s2)
        finally:
            self.inner = None
        evs = [e for e in ip.events[n0:] if e["kind"] == "inner"]
        cstep = e2[cnt] if self.be == "c++" else None
        if self.be != "c++":
            r2 = bf.pick(ip, s2, r2)
            cstep = r2 if not isinstance(r2, tuple) else next((v for v in r2 if alg.isexpr(v) and not isinstance(v, bool)), None)
        E = dict(fv=fv, full=full, d=d, lev=lev, cnt=cnt, vec=vec, out=outname, cend=cend, state=s0, oref=ref(arrs[outname]) if outname else None, evs=evs, cstep=cstep, CF=CF, J=Symbol("J", integer=True), line=getattr(fv, "cxxfn", fv.node).line if self.be == "c++" else fv.node.lineno)
        self.found.append(E)
        nb = NBF if full else NBR
        # effect on the caller
        if outname:
            o = ref(arrs[outname])
            st.heap[o.id] = st.heap[o.id].with_ver(arr.Hav("enumerated%d" % ip.new()))
        if self.be == "c++":
            i = list(d).index(cnt)
            an = node.args[i] if node is not None else None
            if isinstance(an, ast.Name) and env is not None:
                st.envs[env][an.id] = nb
            elif isinstance(an, ast.Attribute) and env is not None:
                t_ = ast.Attribute(value=an.value, attr=an.attr, ctx=ast.Store())
                for k_, v_ in vars(an).items():
                    if k_ not in ("ctx",):
                        setattr(t_, k_, v_)
                ip.assign(t_, nb, st, env)
            return None
        return mk(nb)

    def vnd(self, st, r):
        dims = st.heap[r.id].dims
        return 0 if dims is None else len(dims) - 1

    # ---- verdicts
    def step_ok(self, E):
        """the recursive case: every exponent 0..m-1 in turn, one level down, everything else passed on"""
        evs = E["evs"]
        if len(evs) != 1:
            raise Giveup("recursive case with %d inner calls" % len(evs))
        e = evs[0]
        loops = e.get("loops", [])
        if len(loops) != 1:
            raise Giveup("recursive case: %d loops around the inner call" % len(loops))
        t, lo, hi = loops[0]
        if not (alg.isexpr(lo) and alg.isexpr(hi)):
            raise Giveup("recursive case: range")
        p2 = e["params"]
        if e["pc"] and any(not isinstance(c, bool) for c in e["pc"]):
            raise Giveup("recursive case: conditional inner call under %s" % (e["pc"],))
        vv = e["vv"]
        if not alg.isexpr(vv):
            raise Giveup("recursive case: exponent %r" % (vv,))
        # values taken by the exponent, in order
        if vv.free_symbols <= {t, M, DS, DIM} and lo.free_symbols <= {M, DS, DIM} and hi.free_symbols <= {M, DS, DIM}:
            for mm, ds, dm in ((1, 1, 2), (2, 1, 3), (4, 2, 3), (5, 1, 2)):
                s = {M: mm, DS: ds, DIM: dm}
                seq = [int(vv.subs(s).subs(t, i)) for i in range(int(lo.subs(s)), int(hi.subs(s)))]
                if seq != list(range(mm)):
                    raise Bad("for m = %d the exponents tried at an outer dimension are %s instead of 0..%d" % (mm, seq, mm - 1))
        else:
            raise Giveup("recursive case: exponent %s" % vv)
        if sp.expand(vv - t) != 0 or lo != 0 or sp.expand(hi - M) != 0:
            raise Giveup("recursive case: exponents %s for %s in [%s, %s)" % (vv, t, lo, hi))
        lv = p2[E["lev"]]
        if not (alg.isexpr(lv) and sp.expand(lv - DS + 1) == 0):
            if alg.isexpr(lv) and lv.free_symbols <= {DS, DIM, M}:
                raise Bad("the recursion goes from dimension k to %s instead of k - 1" % lv)
            raise Giveup("recursive case: level %r" % (lv,))
        for n_, v in p2.items():
            if n_ in (E["lev"], E["cnt"]):
                continue
            w = E["d"].get(n_)
            if not same(v, w):
                if isinstance(v, bool) and isinstance(w, bool):
                    raise Bad("the recursion passes %s for the full-set flag" % v)
                if alg.isexpr(v) and alg.isexpr(w):
                    raise Bad("the recursion passes %s = %s on as %s" % (n_, w, v))
                raise Giveup("recursive case: argument %s" % n_)
        oth = e["oth"]
        J = E["J"]
        if not alg.isexpr(oth):
            raise Giveup("recursive case: vector")
        # other exponents stay: value at J is V(J) off the level
        q = alg.ite(alg.eq0(sp.expand(J - DS)), t, V(J))
        r = terms.equal(oth, q, [{J: a, DS: b, t: 7, DIM: 4, M: 9} for a in range(4) for b in (1, 2, 3)], {"i_V": lambda j: 20 + j})
        if isinstance(r, tuple):
            raise Bad("an outer level changes the exponent of another dimension")
        c = E["cstep"]
        want = C0 + alg.binder(alg.SUM, t, S.Zero, M, E["CF"](t))
        r = terms.equal(c, want, [{C0: a, M: b, DIM: 3, DS: 1} for a in (0, 3) for b in (1, 4)], {"i_cnt": lambda j: 2 + j * j}) if alg.isexpr(c) else None
        if isinstance(r, tuple):
            raise Bad("the number of functions found one level down is not added up (%s)" % bf.short(c))
        if r is not True:
            raise Giveup("recursive case: count %s" % (c,))
        return True

    def vals(self, full):
        """small instances: (valuation, nC table, V)"""
        for dm, mm, rows in ((1, 3, [[0]]), (2, 3, [[0], [0]]), (2, 4, [[0, 2], [1, 0]]), (3, 3, [[0], [1], [0]]), (2, 4, [[], []]), (3, 4, [[1, 0], [0, 2], [0, 1]]), (5, 2, [[0], [1], [0], [0], [1]])):
            for v in itertools.product(*[range(mm)] * (dm - 1)):
                if sum(v) > mm:
                    continue
                yield dm, mm, rows, (0,) + v

    def funs(self, rows, v):
        def fnc(*a):
            n = len(rows[0])
            if len(a) == 1:
                j, g = divmod(int(a[0]), n) if n else (0, 0)
            else:
                j, g = int(a[0]), int(a[1])
            if 0 <= j < len(rows) and 0 <= g < n:
                return mp.mpf(rows[j][g])
            return mp.mpf(-77)

        f = {
            "i_nC": fnc,
            "i_V": lambda j: mp.mpf(v[int(j)]) if 0 <= int(j) < len(v) else mp.mpf(-55),
            "HIN": domain.fhin,
            "x0": lambda *a: mp.mpf("0.4") + mp.mpf("0.3") * a[0],
            "xf": lambda *a: mp.mpf("2.1") + mp.mpf("0.9") * a[0],
            "i_d": lambda *a: mp.mpf((1, 0, 2, 1, 3)[int(a[0])]),
        }
        f["x"] = self.fx
        return f

    def fx(self, *a):
        if len(a) == 1:
            a = divmod(int(a[0]), 2)  # native layout with N = 2
        return mp.mpf("0.6") + mp.mpf("0.31") * a[0] + mp.mpf("0.17") * a[1]

    def inc_num(self, vec, mm, rows, full):
        if sum(vec) > mm - 1:
            return False
        return full or any(q not in rows[j] for j, q in enumerate(vec))

    def base_count(self, E):
        full = E["full"]
        k = alg.fresh("k")
        want = C0 + alg.binder(alg.COUNT, k, S.Zero, M, alg.condexpr(incl(k, full, self.nco)))
        c = E["cend"]
        if not alg.isexpr(c):
            raise Giveup("innermost case: count %r" % (c,))
        for dm, mm, rows, v in self.vals(full):
            val = {DIM: mp.mpf(dm), M: mp.mpf(mm), nc: mp.mpf(len(rows[0])), C0: mp.mpf(2), N: mp.mpf(2)}
            e = 2 + sum(self.inc_num((q,) + v[1:], mm, rows, full) for q in range(mm))
            try:
                g = terms.ev(c, val, self.funs(rows, v))
            except terms.Unknown as x:
                raise Giveup("innermost case: count %s (%s)" % (bf.short(c), x))
            if g != e:
                raise Bad("m = %d, outer exponents %s, removed %s, full=%s: %s functions counted, %d are admissible" % (mm, v[1:], rows, full, mp.nstr(g - 2, 5), e - 2))
        if sp.expand(c - want) != 0:
            raise Giveup("innermost case: no normal form for the count %s" % bf.short(c))
        return True

    def order(self, l):
        if self.be == "c++":
            return alg.ite(alg.GE0(sp.expand(l - DD)), S.Zero, D(l))
        return D(l)

    def factor(self, l, h, k):
        z0, zf = DOM[CLS[self.cls]]
        c = (zf - z0) / (XF(l) - X0(l))
        xx = X(sp.expand(l * N + h)) if self.be == "c++" else X(l, h)
        o = self.order(l)
        return c, o, HIN(vecp(l, k), o, (xx - X0(l)) * c + z0)

    def base_out(self, E, stride):
        full = E["full"]
        ver = E["state"].heap[E["oref"].id].ver
        nd = 1 if self.be == "c++" else 2
        z0, zf = DOM[CLS[self.cls]]
        for dm, mm, rows, v in self.vals(full):
            for dd in (dm,) if self.be != "c++" else (dm, dm - 1):
                vs = [w for w in itertools.product(*[range(mm)] * dm) if self.inc_num(w, mm, rows, full)]
                nb = len(vs)
                nall, nred = (len([w for w in itertools.product(*[range(mm)] * dm) if self.inc_num(w, mm, rows, fl)]) for fl in (True, False))
                loc = [(q,) + v[1:] for q in range(mm) if self.inc_num((q,) + v[1:], mm, rows, full)]
                start = min([i for i, w in enumerate(sorted(vs, key=lambda w: w[::-1])) if w in loc] or [0])
                val = {DIM: mp.mpf(dm), M: mp.mpf(mm), nc: mp.mpf(len(rows[0])), C0: mp.mpf(start), N: mp.mpf(2), DD: mp.mpf(dd), NBF: mp.mpf(nall), NBR: mp.mpf(nred)}
                f = self.funs(rows, v)
                rd = terms.NumReader(val, f)
                for h in range(2):
                    for r, w in enumerate(loc):
                        e = mp.mpf(1)
                        for l in range(dm):
                            x0_, xf_ = f["x0"](l), f["xf"](l)
                            zz0, zzf = terms.ev(z0, {}, {}), terms.ev(zf, {}, {})
                            c = (zzf - zz0) / (xf_ - x0_)
                            o = f["i_d"](l) if l < dd else mp.mpf(0)
                            e *= c**o * domain.fhin(mp.mpf(w[l]), o, (f["x"](l, h) - x0_) * c + zz0)
                        idx = (h * nb + start + r,) if nd == 1 else (h, start + r)
                        try:
                            g = rd.elem(ver, idx)
                        except terms.Unknown as x:
                            raise Giveup("innermost case: value (%s)" % x)
                        if not terms.close(g, e):
                            raise Bad("m = %d, removed %s, full=%s, derivative orders %s: the column of the exponents %s is %s at point %d, expected %s" % (mm, rows, full, [int(f["i_d"](l)) if l < dd else 0 for l in range(dm)], list(w), mp.nstr(g, 8), h, mp.nstr(e, 8)))
        # symbolic
        fs, base = domain.families(ver)
        if len(fs) != 1:
            raise Giveup("innermost case: %d store families" % len(fs))
        s = fs[0]
        lk = [l for l in s.loops if l[1] == 0 and sp.expand(l[2] - M) == 0]
        lh = [l for l in s.loops if l[1] == 0 and sp.expand(l[2] - N) == 0]
        rest = [l for l in s.loops if l not in lk and l not in lh]
        if len(lk) != 1 or len(lh) != 1 or any(not (l[1] == 0 and l[2] == 1) for l in rest):
            raise Giveup("innermost case: loops %s" % (s.loops,))
        k, h = lk[0][0], lh[0][0]
        u = alg.fresh("u")
        g = incl(k, full, self.nco)
        one = {l[0]: S.Zero for l in rest}
        if s.guard != g:
            raise Giveup("innermost case: condition %s" % bf.short(s.guard))
        rank = C0 + alg.binder(alg.COUNT, u, S.Zero, k, alg.condexpr(incl(u, full, self.nco)))
        want = (sp.expand(h * stride + rank),) if nd == 1 else (h, sp.expand(rank))
        got = tuple(sp.expand(sp.sympify(i).xreplace(one)) for i in s.idx)
        if any(sp.expand(a - b) != 0 for a, b in zip(got, want)):
            raise Giveup("innermost case: cell %s" % (got,))
        pr = self.p.clone()
        pr.declare(k, S.Zero, M - 1)
        for v_, lo_, hi_ in s.loops:
            pr.declare(v_, lo_, sp.expand(hi_ - 1))
        v = arr.simp(s.val, pr, s.guard if isinstance(s.guard, tuple) else ()).xreplace(one)
        # product over the dimensions
        fs_ = sp.Mul.make_args(v)
        if not all(x.func == alg.PROD and x.args[1] == 0 and sp.expand(x.args[2] - DIM) == 0 for x in fs_):
            raise Giveup("innermost case: value %s" % bf.short(v))
        l = fs_[0].args[0]
        body = sp.Mul(*[x.args[3].xreplace({x.args[0]: l}) for x in fs_])
        pr = self.p.clone()
        pr.declare(l, S.Zero, DIM - 1)
        pr.declare(k, S.Zero, M - 1)
        pr.declare(h, S.Zero, N - 1)
        for case in ("given", "missing") if self.be == "c++" else ("given",):
            pc = () if self.be != "c++" else ((alg.neg(alg.GE0(sp.expand(l - DD))),) if case == "given" else (alg.GE0(sp.expand(l - DD)),))
            b = arr.simp(body, pr, pc)
            c, o, hin = self.factor(l, h, k)
            o2 = D(l) if case == "given" else S.Zero
            e = (c**o2 * hin.func(hin.args[0], o2, hin.args[2])) if True else None
            if not domain.same_hin(b, e):
                raise Giveup("innermost case: factor %s" % bf.short(b))
        return True


def native(rep, cls, entry, full):
    con = "%s c++ %s: full=%s" % (cls, entry, full)
    path = "src/tfc/utils/BF.cc"
    R = Rule("c++", cls, rep)
    ip, st = R.ip, R.st
    u = unit()
    if cls not in u.classes:
        raise AnchorLost("class %s in BF.cc" % cls)
    where = path
    try:
        ax0 = ip.arr(st, None, lambda i: X0(i[0]), "x0")
        axf = ip.arr(st, None, lambda i: XF(i[0]), "xf")
        anc = ip.arr(st, None, lambda i: NC(i[0]), "nC")
        o = ip.cxx_new(cls, [ax0, DIM, axf, DIM, anc, DIM, nc, M], st)
        cons = list(R.found)
        R.found.clear()
        x = ip.arr(st, None, lambda i: X(i[0]), "x")
        da = ip.arr(st, None, lambda i: D(i[0]), "d")
        nb = NBF if full else NBR
        R.p.declare(C0, 0)
        if entry == "H":
            env = ip.newenv(st, {"nOut": S.Zero, "mOut": S.Zero, "F": None})
            fv = ip.cxx_method(o, "H", None, 9, st)
            if fv is None:
                raise Giveup("no H with 9 parameters")
            where = "%s:%s" % (path, fv.cxxfn.line)
            ip.call(fv, [x, DIM, N, da, DD, VarRef(env, "nOut"), VarRef(env, "mOut"), VarRef(env, "F"), full], {}, st)
            no, mo = st.envs[env]["nOut"], st.envs[env]["mOut"]
            if alg.isexpr(no) and alg.isexpr(mo) and (sp.expand(no - N) != 0 or sp.expand(mo - nb) != 0):
                raise Bad("the result is reported as %s x %s" % (no, mo))
            F = st.envs[env]["F"]
        else:
            fv = ip.cxx_method(o, "xla", None, 2, st)
            if fv is None:
                raise Giveup("no xla")
            where = "%s:%s" % (path, fv.cxxfn.line)
            inp = ip.arr(st, None, lambda i: Function("in_unset")(i[0]), "in")
            cells = st.envs.setdefault("__cells__", {})
            ops = {0: None, 1: Ptr(x, S.Zero), 2: Ptr(da, S.Zero), 3: lambda i: DD, 4: lambda i: full, 5: lambda i: N, 6: lambda i: nb}
            for q, fn in ops.items():
                cells[(inp.id, Integer(q))] = fn if isinstance(fn, Ptr) else Ptr(ip.arr(st, None, (lambda i, fn=fn: fn(i[0])) if fn else (lambda i: Function("i_id")(i[0])), "in%d" % q), S.Zero)
            out = ip.arr(st, None, lambda i: Function("uninit_out")(i[0]), "out")
            ip.call(fv, [out, inp], {}, st)
            F = Ptr(out, S.Zero)
        rep.stats(ip)
        E = [e for e in R.found if e["out"]]
        if len(E) != 1:
            raise Giveup("%d enumerations of the result" % len(E))
        E = E[0]
        F = bf.pick(ip, st, F)
        fr = F.ref if isinstance(F, Ptr) else F
        if fr != E["oref"]:
            raise Giveup("the enumeration fills another array")
        if E["full"] is not full:
            raise Bad("the full-set flag given to the enumeration is %s" % E["full"])
        for e in cons if entry == "H" else []:
            sub(rep, R, e, "%s c++: number of %s functions" % (cls, "all" if e["full"] else "remaining"), path, count_only=True)
        if entry == "H" and cons:
            a = st.heap[o.id].attrs
        R.step_ok(E)
        R.base_count(E)
        R.base_out(E, nb)
        rep.hold("product", con)
    except Bad as e:
        rep.violation("product", con, where, str(e))
    except Giveup as e:
        rep.undecided("product", con, e)


def sub(rep, R, E, con, path, count_only=False):
    where = "%s:%s" % (path, E["line"])
    try:
        R.step_ok(E)
        R.base_count(E)
        rep.hold("count", con)
    except Bad as e:
        rep.violation("count", con, where, str(e))
    except Giveup as e:
        rep.undecided("count", con, e)


def python(rep, cls, full):
    con = "%s python H: full=%s" % (cls, full)
    Mo = module("tfc.utils.BF_Py")
    if cls not in Mo.classes:
        raise AnchorLost("BF_Py.%s" % cls)
    R = Rule("python", cls, rep)
    ip, st = R.ip, R.st
    where = Mo.path
    try:
        ax0 = ip.arr(st, (DIM,), lambda i: X0(i[0]), "x0")
        axf = ip.arr(st, (DIM,), lambda i: XF(i[0]), "xf")
        anc = ip.arr(st, (DIM, nc), lambda i: NC(i[0], i[1]), "nC")
        o = ip.construct(ai.ClsV(cls, Mo), [ax0, axf, anc, M], {}, st, None)
        if not isinstance(o, ai.Ref):
            raise Giveup("construction gives %r" % (o,))
        cons = list(R.found)
        R.found.clear()
        x = ip.arr(st, (DIM, N), lambda i: X(i[0], i[1]), "x")
        da = ip.arr(st, (DIM,), lambda i: D(i[0]), "d")
        H = ip.getattr(o, "H", st)
        where = "%s:%d" % (Mo.path, getattr(getattr(H, "node", None), "lineno", 0))
        r = bf.pick(ip, st, ip.call(H, [x, da, full], {}, st))
        rep.stats(ip)
        for e in cons if full else []:
            sub(rep, R, e, "%s python: number of %s functions" % (cls, "all" if e["full"] else "remaining"), Mo.path)
        E = [e for e in R.found if e["out"]]
        if len(E) != 1:
            raise Giveup("%d enumerations of the result" % len(E))
        E = E[0]
        if r != E["oref"]:
            raise Giveup("the enumeration fills another array")
        dims = ip.dims(st, r)
        nb = NBF if full else NBR
        if dims is None or len(dims) != 2:
            raise Giveup("shape %s" % (dims,))
        if sp.expand(dims[0] - N) != 0 or sp.expand(dims[1] - nb) != 0:
            if all(alg.isexpr(q) and q.free_symbols <= {N, M, NBR, NBF, DIM} for q in dims):
                raise Bad("the result has shape %s" % (dims,))
            raise Giveup("shape %s" % (dims,))
        if E["full"] is not full:
            raise Bad("the full-set flag given to the enumeration is %s" % E["full"])
        R.step_ok(E)
        R.base_count(E)
        R.base_out(E, nb)
        rep.hold("product", con)
    except Bad as e:
        rep.violation("product", con, where, str(e))
    except Giveup as e:
        rep.undecided("product", con, e)


def check(rep, classes=None):
    jobs = []
    for cls in classes or CLS:
        for full in (True, False):
            for entry in ("H", "xla"):
                jobs.append((native, (cls, entry, full)))
            jobs.append((python, (cls, full)))
    parallel(rep, jobs)
