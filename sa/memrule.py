"""Memory discipline of the native code: every access stays inside its array, every buffer is released exactly once.

The routines are interpreted with symbolic sizes; every read and write through a pointer becomes an obligation
0 <= index < size, under the path condition and the enclosing loops. Obligations are discharged by monotonicity: the
index is replaced by its extreme over each loop, innermost first, until only sizes are left, and the rest is a
polynomial in the sizes with no negative coefficient after shifting every size to its least value. What cannot be
discharged so is searched for a violating size; only a definite one is reported."""
import itertools
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import arr
import bf
import domain
import nd
import terms
from ai import Giveup, Ptr, VarRef, Ref, State
from bf import N, M, Z, W, B
from core import modules, unit, parallel, AnchorLost
from solver import Wrong

PATH = "src/tfc/utils/BF.cc"
nc = domain.nc
d = domain.d
UNI = ["CP", "LeP", "LaP", "HoPpro", "HoPphy", "FS"]
ELM = ["ELMTanh", "ELMSigmoid", "ELMSin", "ELMSwish", "ELMReLU"]
REST = Symbol("rest", integer=True, nonnegative=True)
KEPT = Symbol("kept", integer=True, nonnegative=True)
LIMIT = {N: (1, 2, 3), M: (1, 2, 3, 4), nc: (0, 1, 2), d: (0, 1, 2, 3)}


class Bounds:
    def __init__(self, least):
        self.least = dict(least)
        self.more = {}

    def facts(self, pc, loops):
        """Bounds of loop variables that the path condition adds."""
        self.more = {}
        vs = {t for t, _, _ in loops}
        for c in pc:
            if isinstance(c, bool):
                continue
            n = c.func == alg.NOT
            a = c.args[0] if n else c
            if a.func not in (alg.GE0, alg.GT0):
                continue
            e = sp.expand(a.args[0])
            strict = a.func == alg.GT0
            if n:
                e, strict = -e, not strict
            for t in vs & e.free_symbols:
                k = e.coeff(t, 1)
                r = sp.expand(e - k * t)
                if r.has(t):
                    continue
                if k == 1:
                    self.more.setdefault((t, "lo"), []).append(-r + (1 if strict else 0))
                elif k == -1:
                    self.more.setdefault((t, "hi"), []).append(r + (0 if strict else 1))

    def low(self, pc):
        """Least values of the sizes under the path condition."""
        lo, ne = dict(self.least), []
        for c in pc:
            if isinstance(c, bool):
                continue
            n = c.func == alg.NOT
            a = c.args[0] if n else c
            if a.func not in (alg.GE0, alg.GT0, alg.EQ0):
                continue
            e = sp.expand(a.args[0])
            fs = list(e.free_symbols)
            if len(fs) != 1 or fs[0] not in lo:
                continue
            k = sp.expand(e - e.coeff(fs[0], 1) * fs[0])
            if not k.is_Integer or e.coeff(fs[0], 1) not in (1, -1):
                continue
            sg = e.coeff(fs[0], 1)
            if a.func == alg.EQ0:
                if n:
                    ne.append((fs[0], -sg * k))
                else:
                    lo[fs[0]] = max(lo[fs[0]], -sg * k)
            elif sg == 1 and not n:
                lo[fs[0]] = max(lo[fs[0]], -k + (1 if a.func == alg.GT0 else 0))
            elif sg == -1 and n:  # not (k - s >= 0)
                lo[fs[0]] = max(lo[fs[0]], k + (1 if a.func == alg.GE0 else 0))
        for _ in ne:
            for s_, v in ne:
                if lo[s_] == v:
                    lo[s_] = v + 1
        return lo

    def nonneg(self, e, loops, lo, depth=0):
        e = sp.expand(e)
        if e.is_number:
            return bool(e >= 0)
        if depth > 12:
            return False
        for k in range(len(loops) - 1, -1, -1):
            t, a, b = loops[k]
            if not e.has(t):
                continue
            try:
                P = sp.Poly(e, t)
            except sp.PolynomialError:
                return False
            if P.degree() != 1:
                return False
            c = P.coeff_monomial(t)
            rest = loops[:k] + loops[k + 1 :]
            if self.nonneg(c, rest, lo, depth + 1):
                return any(self.nonneg(e.xreplace({t: x}), rest, lo, depth + 1) for x in [a] + self.more.get((t, "lo"), []) if not sp.sympify(x).has(t))
            if self.nonneg(-c, rest, lo, depth + 1):
                return any(self.nonneg(e.xreplace({t: x - 1}), rest, lo, depth + 1) for x in [b] + self.more.get((t, "hi"), []) if not sp.sympify(x).has(t))
            return False
        syms = e.free_symbols
        if e.atoms(sp.Function) or not syms <= set(lo):
            return False
        sh = sp.expand(e.xreplace({s: s + lo[s] for s in syms}))
        try:
            return all(c >= 0 for c in sp.Poly(sh, *syms).coeffs())
        except sp.PolynomialError:
            return False


class Check:
    """One interpreted entry with the sizes of the arrays it is given."""

    def __init__(self, ip, least):
        self.ip = ip
        ip.track = True
        self.sizes = {}  # heap id -> (size, name)
        self.B = Bounds(least)
        self.least = least
        self.n = 0
        self.open = []

    def given(self, ref, size, name):
        ref = ref.ref if isinstance(ref, Ptr) else ref
        self.sizes[ref.id] = (sp.expand(size), name)
        return ref

    def elements(self, ev):
        s = ev["size"]
        if ev["how"] == "malloc":
            z = [q for q in s.free_symbols if q.name.startswith("sizeof_")]
            if not z:
                raise Wrong("line %s: malloc of %s bytes, not of a number of elements" % (ev["line"], s))
            s = sp.cancel(s / z[0])
        return sp.expand(s)

    def accesses(self, events):
        for e in events:
            if e["kind"] == "alloc":
                self.sizes[e["target"].id] = (self.elements(e), "the buffer allocated at line %s" % e["line"])
        for e in events:
            if e["kind"] in ("store", "load", "copy-read") and len(e["idx"]) == 1 and e["target"].id in self.sizes:
                yield e

    def bounds(self, events, vals=None):
        done = set()
        for e in self.accesses(events):
            size, name = self.sizes[e["target"].id]
            i = e["idx"][0]
            loops = list(e.get("loops") or [])
            key = (e["target"].id, e["line"], str(i), str(e["pc"]), e["kind"])
            if key in done:
                continue
            done.add(key)
            self.n += 1
            i, loops2 = ranked(i, loops)
            lo = self.B.low(e["pc"])
            self.B.facts(e["pc"], loops2)
            if self.infeasible(e["pc"], lo) or all(self.bounded(q, size, loops2, lo) for q in branches(i)):
                continue
            w = self.witness(e, size, vals)
            if w is not None:
                raise Wrong("line %s %s %s[%s], outside its %s elements, with %s" % (e["line"], "writes" if e["kind"] == "store" else "reads", name, w[1], w[2], w[0]))
            self.open.append("line %s: %s[%s]" % (e["line"], name, e["idx"][0]))

    def infeasible(self, pc, lo):
        for c in pc:
            if not isinstance(c, bool) and c.func == alg.EQ0 and len(c.free_symbols) == 1 and self.B.nonneg(c.args[0] - 1, [], lo):
                return True
        return False

    def bounded(self, i, size, loops, lo):
        """0 <= i < size, directly or with what is known of the sizes: the list removes some of the m functions
        (m = kept + numC), and there are no more orders than dimensions (dim = dDim0 + rest)."""
        for sub in ({}, {M: KEPT + nc}, {nd.DIM: REST + nd.DD}, {M: KEPT + nc, nd.DIM: REST + nd.DD}):
            if any(k not in lo for k in sub) or M in sub and nc not in lo or nd.DIM in sub and nd.DD not in lo:
                continue
            lo2 = {**{k: v for k, v in lo.items() if k not in sub}, **({KEPT: 0} if M in sub else {}), **({REST: 0} if nd.DIM in sub else {})}
            lp = [(t, sp.sympify(a).xreplace(sub), sp.sympify(b).xreplace(sub)) for t, a, b in loops]
            if all(self.B.nonneg(sp.sympify(q).xreplace(sub), lp, lo2) for q in (i, size - 1 - i)):
                return True
        return False

    def witness(self, e, size, vals):
        i = e["idx"][0]
        loops = list(e.get("loops") or [])
        pc = [c for c in e["pc"] if not isinstance(c, bool)]
        syms = sorted(self.least, key=str)
        for pick in itertools.product(*[LIMIT.get(s, (1, 2, 3)) for s in syms]):
            base = dict(zip(syms, pick))
            if any(v < self.least[s] for s, v in base.items()):
                continue
            if nc in base and base[nc] > base.get(M, 9):
                continue
            if nd.DD in base and base[nd.DD] > base.get(nd.DIM, 9):
                continue
            fun = vals(base) if vals else {}
            for val in runs(loops, {s: terms.mp.mpf(v) for s, v in base.items()}, fun):
                try:
                    if not all(terms.evc(c, val, fun) for c in pc):
                        continue
                    k, n = terms.ev(i, val, fun), terms.ev(size, val, fun)
                except (terms.Unknown, KeyError, TypeError, ValueError):
                    break
                if k < 0 or k >= n:
                    return ", ".join("%s=%d" % (s, v) for s, v in base.items()), int(k), int(n)
        return None

    def lifetime(self, events, escaped, what):
        """Buffers allocated here are released once with the matching operator, unless they leave through the result."""
        live, stop = {}, [e["pc"] for e in events if e["kind"] in ("raise", "exit")]
        for e in events:
            if e["kind"] == "alloc":
                live[e["target"].id] = (e, [])
            if e["kind"] == "free":
                t = e["target"]
                if isinstance(t, ai.IteV):
                    raise Giveup("release of one of several buffers")
                r = t.ref if isinstance(t, Ptr) else t
                if isinstance(t, Ptr) and t.off != 0:
                    raise Wrong("%s releases the inside of a buffer at line %s" % (what, e["line"]))
                if not isinstance(r, Ref) or r.id not in live:
                    if isinstance(r, Ref) and r.id in self.sizes:
                        raise Wrong("%s releases %s, which it does not own, at line %s" % (what, self.sizes[r.id][1], e["line"]))
                    continue
                a = live[r.id][0]
                if {"malloc": "free", "new[]": "delete[]"}.get(a["how"]) != e["how"]:
                    raise Wrong("%s releases memory from %s with %s at line %s" % (what, a["how"], e["how"], e["line"]))
                if (e.get("loops") or []) != (a.get("loops") or []):
                    raise Giveup("release in a loop")
                live[r.id][1].append(e)
        for k, (a, fr) in live.items():
            if k in escaped:
                if fr:
                    raise Wrong("%s hands out the buffer of line %s after releasing it" % (what, a["line"]))
                continue
            if len(fr) == 1 and fr[0]["pc"] == a["pc"]:
                continue
            for where, n in self.counted_releases(a, fr, stop):
                if n == 0:
                    raise Wrong("%s never releases the buffer allocated at line %s%s" % (what, a["line"], where))
                if n > 1:
                    raise Wrong("%s releases the buffer of line %s %d times%s" % (what, a["line"], n, where))

    def counted_releases(self, a, fr, stop):
        """How often the buffer is released, for each small choice of the sizes that allocates it."""
        if not fr and not a["pc"] and not stop:
            yield "", 0
            return
        syms = sorted(self.least, key=str)
        for pick in itertools.product(*[LIMIT.get(s, (1, 2, 3)) for s in syms]):
            base = dict(zip(syms, pick))
            if any(v < self.least[s] for s, v in base.items()) or nc in base and base[nc] > base.get(M, 9) or nd.DD in base and base[nd.DD] > base.get(nd.DIM, 9):
                continue
            val = {s: terms.mp.mpf(v) for s, v in base.items()}
            fun = nc_vals(base)
            holds = lambda pc: all(terms.evc(c, val, fun) for c in pc if not isinstance(c, bool)) and all(c for c in pc if isinstance(c, bool))
            try:
                if not holds(a["pc"]) or any(holds(q) for q in stop):
                    continue
                n = sum(1 for e in fr if holds(e["pc"]))
            except (terms.Unknown, KeyError, TypeError, ValueError):
                raise Giveup("release under a condition")
            yield " with " + ", ".join("%s=%d" % q for q in base.items()), n


def runs(loops, val, fun):
    """Valuations of the loop variables."""
    if not loops:
        yield val
        return
    t, a, b = loops[0]
    try:
        lo, hi = int(terms.ev(a, val, fun)), int(terms.ev(b, val, fun))
    except (terms.Unknown, TypeError, ValueError):
        return
    for k in range(lo, min(hi, lo + 40)):
        v = dict(val)
        v[t] = terms.mp.mpf(k)
        yield from runs(loops[1:], v, fun)


def branches(i):
    """The values of an index that depends on conditions."""
    a = [f for f in sp.sympify(i).atoms(sp.Function) if f.func == alg.ITE]
    if not a:
        return [i]
    f = a[0]
    return branches(i.xreplace({f: f.args[1]})) + branches(i.xreplace({f: f.args[2]}))


def ranked(i, loops):
    """The position of a kept function among the kept ones lies in [0, m - numC)."""
    for t, a, b in loops:
        c = [f for f in i.atoms(sp.Function) if f.func == alg.COUNT]
        if len(c) == 1 and i.has(t) and a == 0 and sp.expand(b - M) == 0:
            r = domain.rank(t)
            e = sp.expand(i - r)
            if not e.atoms(sp.Function) or e.coeff(t, 1) == 0 and not any(f.func == alg.COUNT for f in e.atoms(sp.Function)):
                if not e.has(t):
                    q = Symbol("rank_%s" % t, integer=True)
                    return sp.expand(e + q), loops + [(q, S.Zero, M - nc)]
    return i, loops


def interp(least):
    u = unit()
    p = alg.Prover()
    for s, v in least.items():
        p.declare(s, v)
    p.declare(domain.ROW, 0, N - 1)
    p.declare(domain.COL, 0, M - 1)
    ip = ai.Interp(modules(), u, p)
    ip.modstack = []
    ip.track = True
    return ip, State()


def arrin(ip, st, name):
    return ip.arr(st, None, lambda i: Function("i_" + name if name in ("nC",) else name)(i[0]), name)


def do(rep, con, where, f):
    try:
        n = f()
    except Wrong as e:
        rep.violation("memory", con, where, str(e))
    except (Giveup, AnchorLost) as e:
        rep.undecided("memory", con, e)
    else:
        c = n
        rep.analysed["accesses"] = rep.analysed.get("accesses", 0) + c.n
        if c.open:
            rep.undecided("memory", con, "not bounded: %s" % "; ".join(c.open[:3]))
        else:
            rep.hold("memory", con)


def hint(cls, dd, elm):
    least = {N: 1, M: 1}
    ip, st = interp(least)
    c = Check(ip, least)
    u = unit()
    if cls not in u.classes:
        raise AnchorLost(cls)
    z = ip.arr(st, None, lambda i: Z(i[0]), "z")
    F = ip.arr(st, None, lambda i: Function("uninit_dark")(i[0]), "dark")
    at = {"BasisFunc.m": M}
    if elm:
        w = ip.arr(st, None, lambda i: W(i[0]), "w")
        b = ip.arr(st, None, lambda i: B(i[0]), "b")
        at["ELM.w"], at["ELM.b"] = Ptr(w, S.Zero), Ptr(b, S.Zero)
        c.given(w, M, "w")
        c.given(b, M, "b")
    o = ip.obj(st, ai.CxxCls(cls), at)
    fv = ip.cxx_method(o, "Hint", None, 4, st)
    if fv is None:
        raise Giveup("no Hint with 4 parameters")
    c.given(z, N, "the points")
    c.given(F, N * M, "the result")
    ip.call(fv, [Integer(dd), z, N, F], {}, st)
    c.bounds(ip.events)
    c.lifetime(ip.events, set(), "Hint")
    return c


REMS = ([], [0], [1], [1, 0], [2, 0])


def nc_vals(base):
    """A list of distinct removed indices of the given length below m."""
    r = [q for q in (1, 0, 2, 3) if q < base.get(M, 4)][: base.get(nc, 0)]
    return {"i_nC": lambda *i: terms.mp.mpf(r[int(i[-1])]) if 0 <= int(i[-1]) < len(r) else terms.mp.mpf(-7)}


def attrs_owned(ip, st, o):
    """Heap buffers the object points to."""
    out = {}
    for n, v in st.heap[o.id].attrs.items():
        if isinstance(v, Ptr) and isinstance(v.ref, Ref):
            out.setdefault(v.ref.id, n)
    return out


def destroy(ip, st, o, cls):
    """Run the destructors, most derived first; the events they produce."""
    u = unit()
    n0 = len(ip.events)
    seen = []

    def go(c):
        seen.append(c)
        for f in u.classes[c].methods.get("~" + c, []):
            fv = ip.cxx_fnv(f, o)
            ip.call(fv, [], {}, st)
        virt = u.virtual_bases(c) if hasattr(u, "virtual_bases") else set()
        for b in reversed([b for b in u.classes[c].bases if b in u.classes and b not in virt]):
            if b not in seen:
                go(b)

    go(cls)
    for b in [b for b in u.mro(cls) if b not in seen]:
        go(b)
    return ip.events[n0:]


def entry_hook(c, sizes=True):
    """Hint reads n points and writes n*m values: its own obligations are checked separately."""
    base = domain.cxx_hint_hook([])

    def hook(ip, fv, args, kw, st, node, env):
        if isinstance(fv, ai.FnV) and fv.name == "Hint" and getattr(fv, "cxxfn", None) is not None:
            dd, zz, n, dark = args[:4]
            for v, size, kind in ((zz, n, "load"), (dark, n * M, "store")):
                r, off = (v.ref, v.off) if isinstance(v, Ptr) else (v, S.Zero)
                t = alg.fresh("h")
                ip.event(kind, st, target=r, idx=(sp.expand(off + t),), loops=[(t, S.Zero, sp.expand(size))], value=None)
        return base(ip, fv, args, kw, st, node, env)

    return hook


def built(cls, least, elm):
    ip, st = interp(least)
    c = Check(ip, least)
    if cls not in unit().classes:
        raise AnchorLost(cls)
    ip.call_hook = entry_hook(c)
    nC = ip.arr(st, None, lambda i: domain.NC(i[0]), "nC")
    c.given(nC, nc, "the removal list")
    o = ip.cxx_new(cls, [domain.x0, domain.xf, nC, nc, M], st)
    return ip, st, c, o


def object_life(cls, elm):
    """Construction and destruction."""
    ip, st, c, o = built(cls, {N: 1, M: 1, nc: 0}, elm)
    return life(ip, st, c, o, cls)


def life(ip, st, c, o, cls):
    c.bounds(ip.events, nc_vals)
    own = attrs_owned(ip, st, o)
    c.lifetime(ip.events, set(own), "the constructor of %s" % cls)
    allocs = {e["target"].id: e for e in ip.events if e["kind"] == "alloc"}
    n0 = len(ip.events)
    evs = destroy(ip, st, o, cls)
    freed = {}
    for e in evs:
        if e["kind"] != "free":
            continue
        t = e["target"]
        r = t.ref if isinstance(t, Ptr) else t
        if not isinstance(r, Ref):
            raise Giveup("release of %r" % (t,))
        if e["pc"]:
            raise Giveup("release under a condition")
        if r.id in freed:
            raise Wrong("destroying a %s releases %s twice (lines %s and %s)" % (cls, own.get(r.id, "a buffer"), freed[r.id], e["line"]))
        if r.id not in allocs:
            raise Wrong("destroying a %s releases memory it did not allocate, at line %s" % (cls, e["line"]))
        if {"malloc": "free", "new[]": "delete[]"}.get(allocs[r.id]["how"]) != e["how"]:
            raise Wrong("destroying a %s releases memory from %s with %s at line %s" % (cls, allocs[r.id]["how"], e["how"], e["line"]))
        freed[r.id] = e["line"]
    for k, n in own.items():
        if k in allocs and k not in freed:
            raise Wrong("destroying a %s never releases %s, allocated at line %s" % (cls, n.split(".")[-1], allocs[k]["line"]))
    c.n += len(own)
    return c


def operands(ip, st, c, ops, n):
    inp = ip.arr(st, None, lambda i: Function("in_unset")(i[0]), "in")
    c.given(inp, Integer(n), "the operand list")
    cells = st.envs.setdefault("__cells__", {})
    for q, (fn, size) in enumerate(ops):
        a = fn if isinstance(fn, Ref) else ip.arr(st, None, lambda i, fn=fn: fn, "in%d" % q)
        c.given(a, size, "operand %d" % q)
        cells[(inp.id, Integer(q))] = Ptr(a, S.Zero)
    return inp


def entry(cls, which, full, elm):
    least = {N: 1, M: 1, nc: 0}
    ip, st, c, o = built(cls, least, elm)
    own = {e["target"].id: c.elements(e) for e in ip.events if e["kind"] == "alloc"}
    for k, v in own.items():
        c.sizes[k] = (v, "member %s" % attrs_owned(ip, st, o).get(k, "?").split(".")[-1])
    n0 = len(ip.events)
    x = ip.arr(st, None, lambda i: domain.X(i[0]), "x")
    c.given(x, N, "the points")
    wd = M if full else M - nc
    if which == "H":
        env = ip.newenv(st, {"nOut": S.Zero, "mOut": S.Zero, "F": None})
        fv = ip.cxx_method(o, "H", None, 7, st)
        if fv is None:
            raise Giveup("no H with 7 parameters")
        ip.call(fv, [x, N, d, VarRef(env, "nOut"), VarRef(env, "mOut"), VarRef(env, "F"), full], {}, st)
        F = bf.pick(ip, st, st.envs[env]["F"])
        if not isinstance(F, Ptr):
            raise Giveup("result %r" % (F,))
        esc = {F.ref.id}
        no, mo = st.envs[env]["nOut"], st.envs[env]["mOut"]
        al = [e for e in ip.events[n0:] if e["kind"] == "alloc" and e["target"].id == F.ref.id]
        if not al or not alg.isexpr(no) or not alg.isexpr(mo):
            raise Giveup("result buffer")
        if al[0]["how"] != "malloc":
            raise Wrong("%s::H returns memory from %s, which its caller releases with free" % (cls, al[0]["how"]))
        sz = c.elements(al[0])
        if sp.expand(sz - no * mo) != 0:
            w = differs(sz, no * mo, least)
            if w:
                raise Wrong("%s::H allocates %s elements for a result of %s x %s (%s)" % (cls, sz, no, mo, w))
            raise Giveup("result of %s elements" % sz)
    else:
        fv = ip.cxx_method(o, "xla", None, 2, st)
        if fv is None:
            raise Giveup("no xla with 2 parameters")
        inp = operands(ip, st, c, [(Symbol("ident", integer=True), 1), (x, N), (d, 1), (full, 1), (N, 1), (wd, 1)], 6)
        out = ip.arr(st, None, lambda i: Function("uninit_out")(i[0]), "out")
        c.given(out, N * wd, "the output")
        ip.call(fv, [out, inp], {}, st)
        esc = set()
    evs = ip.events[n0:]
    c.bounds(evs, nc_vals)
    c.lifetime(evs, esc, "%s::%s" % (cls, which))
    return c


def differs(a, b, least):
    syms = sorted(least, key=str)
    for pick in itertools.product(*[LIMIT.get(s, (1, 2, 3)) for s in syms]):
        v = {s: Integer(q) for s, q in zip(syms, pick) if q >= least[s]}
        x, y = sp.sympify(a).xreplace(v), sp.sympify(b).xreplace(v)
        if x.is_number and y.is_number and y > 0 and x < y:
            return ", ".join("%s=%s" % q for q in v.items())
    return None


NPROD = ["nCP", "nLeP", "nFS"]
NELM = ["nELM" + q for q in ("Tanh", "Sigmoid", "Sin", "Swish", "ReLU")]
MULTI = {N: 1, M: 1, nc: 0, nd.DIM: 1, nd.DD: 0, nd.NBF: 1, nd.NBR: 1}


def values(i, loops):
    """The enumerated exponents lie in [0, m)."""
    for f in [f for f in sp.sympify(i).atoms(sp.Function) if f.func == nd.V]:
        q = Symbol("exp_%s" % f.args[0], integer=True)
        i = i.xreplace({f: q})
        loops = loops + [(q, S.Zero, M)]
    return sp.expand(i), loops


def listed(q):
    """A removal list with entries is not the empty list (-1)."""
    if isinstance(q, bool):
        return q
    q = sp.sympify(q)
    rep = {}
    for f in q.atoms(sp.Function):
        if f.func == alg.ITE and f.args[0].func == alg.EXISTS and "i_nC" in {g.func.__name__ for g in f.args[0].atoms(sp.Function)}:
            if sp.expand(f.args[1] - nc) == 0 and f.args[2] == 0:
                rep[f] = nc
    return sp.expand(q.xreplace(rep)) if rep else q


class Multi(Check):
    listed = False

    def bounds(self, events, vals=None):
        keep = []
        for e in events:
            if e["kind"] == "alloc" and self.listed:
                e = dict(e, size=listed(e["size"]))
            if e["kind"] in ("store", "load", "copy-read") and len(e["idx"]) == 1:
                if self.listed:
                    e = dict(e, idx=(listed(e["idx"][0]),), pc=tuple(listed(q) for q in e["pc"]), loops=[(t, listed(a), listed(b)) for t, a, b in e.get("loops") or []])
                    if e["target"].id in self.sizes:
                        z = self.sizes[e["target"].id]
                        self.sizes[e["target"].id] = (listed(z[0]), z[1])
                i = sp.sympify(e["idx"][0])
                if nd.C0 in i.free_symbols or any(f.func.__name__ in ("i_cnt", "KCOUNT") or f.func == alg.COUNT and e["target"].id in self.counted for f in i.atoms(sp.Function)):
                    self.counted_n += 1
                    continue  # position of a kept product: its range is the count of the products (decided with the products)
                loops = list(e.get("loops") or [])
                if nd.DS in i.free_symbols:
                    loops = [(nd.DS, S.One, nd.DIM)] + loops
                i, loops = values(i, loops)
                e = dict(e, idx=(i,), loops=loops)
            keep.append(e)
        super().bounds(keep, vals)


def multi(cls, elm, which, full, rem=True):
    import nelm

    if cls not in unit().classes:
        raise AnchorLost(cls)
    if elm:
        ip, st = interp(MULTI)
        ip.p.declare(nelm.LL, 0, nd.DIM - 1)
        if rem:
            ip.p.declare(nc, 1, M)
        c = Multi(ip, {**MULTI, nc: 1} if rem else {k: v for k, v in MULTI.items() if k != nc})
        c.listed = rem

        def hook(ip_, fv, args, kw, st_, node, env):
            if isinstance(fv, ai.FnV) and fv.name == "nElmHint" and getattr(fv, "cxxfn", None) is not None:
                dd, ddim, zz, n, out = args[:5]
                for v, size, kind in ((dd, ddim, "load"), (zz, n * nd.DIM, "load"), (out, n * M, "store")):
                    r, off = (v.ref, v.off) if isinstance(v, Ptr) else (v, S.Zero)
                    t = alg.fresh("h")
                    ip_.event(kind, st_, target=r, idx=(sp.expand(off + t),), loops=[(t, S.Zero, sp.expand(size))], value=None)
                r, off = (out.ref, out.off) if isinstance(out, Ptr) else (out, S.Zero)
                st_.heap[r.id] = st_.heap[r.id].with_ver(arr.Init(lambda i: Function("HN")(i[0]), "HN"))
                return None
            return NotImplemented

        ip.call_hook = hook
    else:
        R = nd.Rule("c++", cls, None)
        ip, st = R.ip, R.st
        c = Multi(ip, MULTI)
        old = R.hh
        eh = entry_hook(c)
        R.hh = eh
    c.counted, c.counted_n = set(), 0
    F1 = lambda nm: ip.arr(st, None, lambda i: Function(nm)(i[0]), nm)
    ax0, axf = F1("x0"), F1("xf")
    anc = ip.arr(st, None, (lambda i: domain.NC(i[0])) if rem else (lambda i: -S.One), "nC")
    c.given(ax0, nd.DIM, "x0")
    c.given(axf, nd.DIM, "xf")
    k = nc if rem else S.One
    c.given(anc, k if elm else nd.DIM * nc, "the removal list")
    o = ip.cxx_new(cls, [ax0, nd.DIM, axf, nd.DIM, anc, k, M] if elm else [ax0, nd.DIM, axf, nd.DIM, anc, nd.DIM, nc, M], st)
    if which == "life":
        return life(ip, st, c, o, cls)
    if not elm:
        R.found.clear()
    own = attrs_owned(ip, st, o)
    for e in ip.events:
        if e["kind"] == "alloc":
            c.sizes[e["target"].id] = (c.elements(e), "member %s" % own.get(e["target"].id, "?").split(".")[-1])
    n0 = len(ip.events)
    x, da = ip.arr(st, None, lambda i: domain.X(i[0]), "x"), ip.arr(st, None, lambda i: nd.D(i[0]), "d")
    c.given(x, N * nd.DIM, "the points")
    c.given(da, nd.DD, "the derivative orders")
    if elm:
        wd = M if full or not rem else M - nc
    else:
        wd = nd.NBF if full else nd.NBR
    if which == "H":
        env = ip.newenv(st, {"nOut": S.Zero, "mOut": S.Zero, "F": None})
        fv = ip.cxx_method(o, "H", None, 9, st)
        if fv is None:
            raise Giveup("no H with 9 parameters")
        ip.call(fv, [x, nd.DIM, N, da, nd.DD, VarRef(env, "nOut"), VarRef(env, "mOut"), VarRef(env, "F"), full], {}, st)
        F = bf.pick(ip, st, st.envs[env]["F"])
        if not isinstance(F, Ptr):
            raise Giveup("result %r" % (F,))
        esc = {F.ref.id}
        no, mo = st.envs[env]["nOut"], st.envs[env]["mOut"]
        al = [e for e in ip.events[n0:] if e["kind"] == "alloc" and e["target"].id == F.ref.id]
        if not al or not alg.isexpr(no) or not alg.isexpr(mo):
            raise Giveup("result buffer")
        if al[0]["how"] != "malloc":
            raise Wrong("%s::H returns memory from %s, which its caller releases with free" % (cls, al[0]["how"]))
        sz = c.elements(al[0])
        if c.listed:
            sz, mo = listed(sz), listed(mo)
        if sp.expand(sz - no * mo) != 0:
            w = differs(sz, no * mo, c.least)
            if w:
                raise Wrong("%s::H allocates %s elements for a result of %s x %s (%s)" % (cls, sz, no, mo, w))
            raise Giveup("result of %s elements" % sz)
    else:
        fv = ip.cxx_method(o, "xla", None, 2, st)
        if fv is None:
            raise Giveup("no xla with 2 parameters")
        inp = operands(ip, st, c, [(Symbol("ident", integer=True), 1), (x, N * nd.DIM), (da, nd.DD), (nd.DD, 1), (full, 1), (N, 1), (wd, 1)], 7)
        out = ip.arr(st, None, lambda i: Function("uninit_out")(i[0]), "out")
        c.given(out, N * wd, "the output")
        ip.call(fv, [out, inp], {}, st)
        esc = set()
    evs = ip.events[n0:]
    c.bounds(evs, nc_vals)
    c.lifetime(evs, esc, "%s::%s" % (cls, which))
    return c


def nhint(cls):
    """The evaluation routine of the random features in several dimensions."""
    import nelm

    if cls not in unit().classes:
        raise AnchorLost(cls)
    least = {N: 1, M: 1, nd.DIM: 1, nd.DD: 0}
    ip, st = interp(least)
    c = Check(ip, least)

    def a(nm, size, lab):
        r = ip.arr(st, None, lambda i: Function(nm)(i[0]), nm)
        c.given(r, size, lab)
        return Ptr(r, S.Zero)

    o = ip.obj(st, ai.CxxCls(cls), {})
    fv = ip.cxx_method(o, "nElmHint", None, 5, st)
    if fv is None:
        raise Giveup("no nElmHint with 5 parameters")
    nelm.setm(ip, st, o, cls, {"m": M, "dim": nd.DIM, "c": a("c", nd.DIM, "member c"), "w": a("w", nd.DIM * M, "member w"), "b": a("b", M, "member b")})
    F = a("uninit_F", N * M, "the result")
    ip.call(fv, [a("i_d", nd.DD, "the derivative orders"), nd.DD, a("z", N * nd.DIM, "the points"), N, F.ref], {}, st)
    c.bounds(ip.events)
    c.lifetime(ip.events, set(), "%s::nElmHint" % cls)
    return c


def accessor(cls, name):
    """Reading and setting weights, biases and slopes."""
    import nelm

    u = unit()
    if cls not in u.classes:
        raise AnchorLost(cls)
    many = cls in NELM + NPROD
    least = {M: 1, **({nd.DIM: 1} if many else {})}
    ip, st = interp(least)
    c = Check(ip, least)
    sz = {"W": M * nd.DIM if many else M, "B": M, "C": nd.DIM}[name[-1]]
    attrs = {}
    for nm, q in (("w", sz if name[-1] == "W" else M), ("b", M), ("c", nd.DIM)):
        r = ip.arr(st, None, lambda i, nm=nm: Function("v_" + nm)(i[0]), nm)
        c.given(r, M * nd.DIM if nm == "w" and many else q, "member " + nm)
        attrs[nm] = Ptr(r, S.Zero)
    o = ip.obj(st, ai.CxxCls(cls), {})
    nelm.setm(ip, st, o, cls, {"m": M, **({"dim": nd.DIM} if many else {}), **{k: v for k, v in attrs.items() if k != "c" or many}})
    nargs = 3 if many and name[-1] == "W" else 2
    fv = ip.cxx_method(o, name, None, nargs, st)
    if fv is None:
        raise AnchorLost("%s::%s" % (cls, name))
    esc = set()
    if name.startswith("set"):
        a = ip.arr(st, None, lambda i: Function("v_in")(i[0]), "in")
        c.given(a, sz, "the argument")
        ip.call(fv, [a, nd.DIM, M] if nargs == 3 else [a, M], {}, st)
    else:
        env = ip.newenv(st, {"dimOut": S.Zero, "nOut": S.Zero, "F": None})
        V = lambda q: VarRef(env, q)
        ip.call(fv, [V("dimOut"), V("nOut"), V("F")] if nargs == 3 else [V("F"), V("nOut")], {}, st)
        F = bf.pick(ip, st, st.envs[env]["F"])
        if not isinstance(F, Ptr):
            raise Giveup("result %r" % (F,))
        al = [e for e in ip.events if e["kind"] == "alloc" and e["target"].id == F.ref.id]
        no = st.envs[env]["nOut"] * (st.envs[env]["dimOut"] if nargs == 3 else 1)
        if not al or not alg.isexpr(no):
            if F.ref.id in c.sizes:
                raise Wrong("%s::%s hands out %s itself, which its caller releases" % (cls, name, c.sizes[F.ref.id][1]))
            raise Giveup("result buffer")
        if al[0]["how"] != "malloc":
            raise Wrong("%s::%s returns memory from %s, which its caller releases with free" % (cls, name, al[0]["how"]))
        size = c.elements(al[0])
        if sp.expand(size - no) != 0:
            w = differs(size, no, least)
            if w:
                raise Wrong("%s::%s allocates %s elements for %s values (%s)" % (cls, name, size, no, w))
            raise Giveup("result of %s elements" % size)
        esc.add(F.ref.id)
    c.bounds(ip.events)
    c.lifetime(ip.events, esc, "%s::%s" % (cls, name))
    return c


def one(rep, con, f, args):
    do(rep, con, PATH, lambda: f(*args))


def check(rep):
    jobs = []

    def job(con, f, *args):
        jobs.append((one, (con, f, args)))

    for cls in NPROD:
        for which in ("H", "xla"):
            for full in (False, True):
                job("%s c++ %s, full=%s: bounds and lifetimes" % (cls, which, full), multi, cls, False, which, full)
        job("%s c++: construction and destruction" % cls, multi, cls, False, "life", True)
    for cls in UNI:
        for dd in (0, 1, 2, 3):
            job("%s c++ evaluation, order %d: bounds and lifetimes" % (cls, dd), hint, cls, dd, False)
    for cls in NELM:
        job("%s c++ evaluation: bounds and lifetimes" % cls, nhint, cls)
        for rem in (True, False):
            r = "" if rem else ", nothing removed"
            job("%s c++%s: construction and destruction" % (cls, r), multi, cls, True, "life", True, rem)
            for which in ("H", "xla"):
                for full in (True, False):
                    job("%s c++ %s, full=%s%s: bounds and lifetimes" % (cls, which, full, r), multi, cls, True, which, full, rem)
    for cls in ELM:
        for dd in (0, 1, 2, 3):
            job("%s c++ evaluation, order %d: bounds and lifetimes" % (cls, dd), hint, cls, dd, True)
    for cls in UNI + ELM:
        job("%s c++: construction and destruction" % cls, object_life, cls, cls in ELM)
        for which in ("H", "xla"):
            for full in (True, False):
                job("%s c++ %s, full=%s: bounds and lifetimes" % (cls, which, full), entry, cls, which, full, cls in ELM)
    for cls, names in [(q, ("getW", "getB", "setW", "setB")) for q in (ELM[0], NELM[0])] + [("nCP", ("getC",))]:
        for name in names:
            job("%s c++ %s: bounds and lifetimes" % (cls, name), accessor, cls, name)
    parallel(rep, jobs)
