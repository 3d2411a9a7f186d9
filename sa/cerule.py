"""Constrained expressions (CeSolver): the formula, and coherence of its cached quantities over every history.

The class is interpreted with constraint operators as uninterpreted functions C(c_i, .) and support functions, kappa
values and the free function as symbols. From the state after construction, all reads and assignments are explored to a
fixed point; whatever depends on a superseded input is abstracted to one value "old", so the set of abstract states is finite and covers every history.
In each state every read must give the value the current inputs define:

    S_ij = C_i(s_j),  alpha = S^-1,  phi = s^T alpha,  rho_i = kappa_i - C_i(g),  ce = g + phi rho,

where phi or ce assigned by the user stands until something it depends on is assigned."""
import ast
import itertools
import os
import sympy as sp
from sympy import S, Symbol, Function, Integer
import ai
import alg
import terms
from ai import Giveup, ModV, Ref, State, Ext, Bound, Opq
from core import module, modules, AnchorLost
from solver import Wrong

mp = terms.mp
MOD = "tfc.utils.CeSolver"
C = Function("C")
SIMPL = Function("SIMPL")
G, CE = Symbol("g"), Symbol("CEuser")
OLD = Symbol("old")  # anything that depends on a superseded input


def sym(name, k):
    return Symbol("%s%d" % (name, k))


class MatV(Ext):
    def __init__(self, m):
        self.m = sp.ImmutableMatrix(m)

    def __eq__(self, o):
        return isinstance(o, MatV) and o.m == self.m

    def __hash__(self):
        return hash(self.m)

    def __repr__(self):
        return "<matrix %s>" % (self.m.shape,)

    def binop(self, ip, op, o, refl, st):
        if isinstance(op, (ast.Mult, ast.MatMult)):
            if isinstance(o, MatV):
                a, b = (o.m, self.m) if refl else (self.m, o.m)
                if a.shape[1] != b.shape[0]:
                    raise Wrong("matrices of shapes %s and %s are multiplied" % (a.shape, b.shape))
                return MatV(a * b)
            if alg.isexpr(o) and isinstance(op, ast.Mult):
                return MatV(self.m * o)
        if isinstance(op, (ast.Add, ast.Sub)) and isinstance(o, MatV):
            if self.m.shape != o.m.shape:
                raise Wrong("matrices of shapes %s and %s are added" % (self.m.shape, o.m.shape))
            a, b = (o.m, self.m) if refl else (self.m, o.m)
            return MatV(a + b if isinstance(op, ast.Add) else a - b)
        if isinstance(op, ast.Pow) and not refl and o == -1:
            return MatV(inverse(self.m))
        if isinstance(op, ast.Div) and alg.isexpr(o) and not refl:
            return MatV(self.m / o)
        return NotImplemented

    def unary(self, ip, op, st):
        return MatV(-self.m) if isinstance(op, ast.USub) else NotImplemented

    def attr(self, ip, name, st):
        if name == "T":
            return MatV(self.m.T)
        if name == "shape":
            return tuple(Integer(q) for q in self.m.shape)
        if name in ("rows", "cols"):
            return Integer(self.m.shape[0 if name == "rows" else 1])
        return NotImplemented

    def method(self, ip, name, args, kw, st):
        if name in ("inv", "pinv") and not args:
            return MatV(inverse(self.m))
        if name == "transpose" and not args:
            return MatV(self.m.T)
        if name in ("LUsolve", "QRsolve", "solve", "LDLsolve") and len(args) == 1 and isinstance(args[0], MatV):
            return MatV(inverse(self.m) * args[0].m)
        if name == "dot" and len(args) == 1 and isinstance(args[0], MatV):
            return sp.Add(*[a * b for a, b in zip(list(self.m), list(args[0].m))])
        if name == "copy" and not args:
            return self
        if name in ("row", "col") and len(args) == 1 and args[0].is_Integer:
            return MatV(getattr(self.m, name)(int(args[0])))
        if name == "multiply" and len(args) == 1 and isinstance(args[0], MatV):
            return self.binop(ip, ast.Mult(), args[0], False, st)
        return NotImplemented

    def item(self, ip, k, st):
        if alg.isexpr(k) and k.is_Integer:
            if int(k) >= len(list(self.m)):
                raise Wrong("entry %s of a matrix of shape %s" % (k, self.m.shape))
            return list(self.m)[int(k)]
        if isinstance(k, tuple) and len(k) == 2 and all(alg.isexpr(q) and q.is_Integer for q in k):
            return self.m[int(k[0]), int(k[1])]
        return NotImplemented


class OpV(Ext):
    """Constraint operator."""

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, OpV) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return "<operator %s>" % self.tag

    def call(self, ip, args, kw, st):
        if len(args) == 1 and not kw and alg.isexpr(args[0]):
            return C(self.tag, args[0])
        return NotImplemented


def inverse(m):
    if m.shape[0] != m.shape[1]:
        raise Wrong("a matrix of shape %s is inverted" % (m.shape,))
    n = m.shape[0]
    d = sp.ImmutableMatrix(n, n, lambda i, j: Symbol("inv_%d_%d" % (i, j)))
    adj = d.adjugate() / d.det()
    return adj.xreplace({d[i, j]: m[i, j] for i in range(n) for j in range(n)})


def vector(ip, v, st):
    """Entries of a list or tuple of expressions, matrices included."""
    vs = ip.items(v, st)
    if vs is None:
        raise Giveup("matrix from %r" % (v,))
    return vs


def hook(ip, fv, args, kw, st, node, env):
    if isinstance(fv, ModV):
        n = fv.name.split(".")
        if n[0] == "sympy":
            f = n[-1]
            if f in ("Matrix", "ImmutableMatrix", "MutableDenseMatrix") and len(args) == 1:
                if isinstance(args[0], MatV):
                    return args[0]
                rows = vector(ip, args[0], st)
                out = []
                for r in rows:
                    if alg.isexpr(r):
                        out.append([r])
                    elif isinstance(r, MatV):
                        out += [list(r.m.row(i)) for i in range(r.m.shape[0])]
                    else:
                        out.append(list(vector(ip, r, st)))
                if not all(alg.isexpr(x) for r in out for x in r) or len({len(r) for r in out}) > 1:
                    raise Giveup("matrix entries")
                return MatV(out)
            if f == "Matrix" and len(args) == 3 and all(alg.isexpr(a) and a.is_Integer for a in args[:2]):
                r, c = int(args[0]), int(args[1])
                if isinstance(args[2], (ai.FnV,)):
                    return MatV([[ip.call(args[2], [Integer(i), Integer(j)], {}, st) for j in range(c)] for i in range(r)])
                vs = vector(ip, args[2], st)
                if all(alg.isexpr(x) for x in vs):
                    return MatV(sp.Matrix(r, c, list(vs)))
                raise Giveup("matrix entries")
            if f in ("zeros", "ones", "eye") and 1 <= len(args) <= 2 and all(alg.isexpr(a) and a.is_Integer for a in args):
                return MatV(getattr(sp, f)(*[int(a) for a in args]))
            if f in ("Add", "Mul") and all(alg.isexpr(a) for a in args):
                return getattr(sp, f)(*args)
            if f == "simplify" and len(args) == 1:
                if alg.isexpr(args[0]):
                    return SIMPL(args[0]) if not args[0].is_number else args[0]
                if isinstance(args[0], MatV):
                    return args[0]
            if f in ("sympify", "S") and len(args) == 1 and alg.isexpr(args[0]):
                return args[0]
            if f == "nc_simplify":
                raise Giveup("nc_simplify of a scalar")
            raise Giveup("call of %s" % fv.name)
        if fv.name == "builtins.isinstance" and len(args) == 2 and (alg.isexpr(args[0]) or isinstance(args[0], Ext)):
            cs = ip.items(args[1], st) if not isinstance(args[1], (ModV, ai.ClsV)) else [args[1]]
            if cs is not None and all(isinstance(c, ModV) and c.name.startswith("sympy.") for c in cs):
                last = [c.name.split(".")[-1] for c in cs]
                mats = {"Matrix", "MatrixBase", "ImmutableMatrix", "MutableDenseMatrix"}
                if isinstance(args[0], MatV):
                    return any(x in mats for x in last)
                if all(x in mats | {"MatMul", "MatAdd", "MatrixExpr"} for x in last):
                    return False
    if isinstance(fv, Bound) and alg.isexpr(fv.v):
        if fv.name == "simplify" and not args:
            return SIMPL(fv.v)
        raise Giveup("%s of an expression" % fv.name)
    return NotImplemented


class Hist:
    """One abstract state: interpreter state, object, ghost overrides."""

    def __init__(self, st, o, phi, ce):
        self.st, self.o, self.phi, self.ce = st, o, phi, ce


INPUTS = ("C", "kappa", "s", "g")


class Run:
    def __init__(self, n, lists):
        self.n, self.lists = n, lists
        self.Mo = module(MOD)
        if "CeSolver" not in self.Mo.classes:
            raise AnchorLost("CeSolver")
        self.ip = ai.Interp(modules(), None, alg.Prover())
        self.ip.modstack = []
        self.ip.call_hook = hook
        st = State()
        o = self.ip.construct(ai.ClsV("CeSolver", self.Mo), [self.given(x, st) for x in INPUTS], {}, st, None)
        if not isinstance(o, Ref):
            raise Giveup("construction gives %r" % (o,))
        self.start = Hist(st, o, False, False)
        self.states = self.steps = 0

    def given(self, what, st):
        n = self.n
        if what == "g":
            return G
        vs = [OpV(sym("c", k)) if what == "C" else sym("kappa" if what == "kappa" else "s", k) for k in range(n)]
        return self.ip.list(st, vs) if self.lists else tuple(vs)

    def names(self, what):
        if what == "g":
            return [G]
        if what == "ce":
            return [CE]
        return [sym({"C": "c", "kappa": "kappa", "s": "s", "phi": "phiuser"}[what], k) for k in range(self.n)]

    # ------------------------------------------------------------ renaming
    def rename(self, h, what):
        gone = set(self.names(what))

        def f(v):
            if alg.isexpr(v):
                return OLD if v.free_symbols & gone else v
            if isinstance(v, MatV):
                return MatV(sp.ones(*v.m.shape) * OLD) if v.m.free_symbols & gone else v
            if isinstance(v, OpV):
                return OpV(OLD) if v.tag in gone else v
            if isinstance(v, tuple):
                return tuple(f(x) for x in v)
            return v

        st = h.st
        for k, c in list(st.heap.items()):
            if isinstance(c, ai.ListC):
                x = ai.ListC([f(y) for y in c.items])
                x.tail = c.tail
                st.heap[k] = x
            elif isinstance(c, ai.DictC):
                st.heap[k] = ai.DictC({a: f(b) for a, b in c.items.items()}, c.cls)
            elif isinstance(c, ai.ObjC):
                st.heap[k] = ai.ObjC(c.cls, {a: f(b) for a, b in c.attrs.items()}, c.open)

    def key(self, h):
        def f(v):
            if isinstance(v, Ref):
                c = h.st.heap[v.id]
                if isinstance(c, ai.ListC):
                    return ("list",) + tuple(f(x) for x in c.items)
                if isinstance(c, ai.DictC):
                    return ("dict",) + tuple((str(a), f(b)) for a, b in c.items.items())
                if isinstance(c, ai.ObjC):
                    return ("obj",) + tuple((a, f(b)) for a, b in sorted(c.attrs.items()))
                raise Giveup("state")
            if isinstance(v, tuple):
                return tuple(f(x) for x in v)
            if isinstance(v, MatV):
                return ("mat", v.m)
            if isinstance(v, OpV):
                return ("op", v.tag)
            if isinstance(v, (ai.IteV, Opq)):
                raise Giveup("state %r" % (v,))
            return v

        return (f(h.o), h.phi, h.ce)

    # ------------------------------------------------------------ what the inputs define
    def want(self, h, what):
        n = self.n
        c, k, s = self.names("C"), self.names("kappa"), self.names("s")
        if what == "g":
            return [[G]]
        if what in ("s", "kappa", "C"):
            return [{"s": s, "kappa": k, "C": c}[what]]
        Sm = sp.ImmutableMatrix(n, n, lambda i, j: C(c[i], s[j]))
        if what == "S":
            return Sm.tolist()
        al = inverse(Sm)
        if what == "alpha":
            return al.tolist()
        phi = sp.ImmutableMatrix([self.names("phi")]) if h.phi else sp.ImmutableMatrix([s]) * al
        if what == "phi":
            return phi.tolist()
        rho = sp.ImmutableMatrix([[k[i] - C(c[i], G)] for i in range(n)])
        if what == "rho":
            return rho.tolist()
        return [[CE if h.ce else G + (phi * rho)[0, 0]]]

    def got(self, h, what, v):
        if what in ("s", "kappa", "C"):
            vs = self.ip.items(v, h.st)
            if vs is None:
                raise Giveup("%s is %r" % (what, v))
            return [[x.tag if isinstance(x, OpV) else x for x in vs]]
        if isinstance(v, MatV):
            return v.m.tolist()
        if alg.isexpr(v):
            return [[v]]
        raise Giveup("%s is %r" % (what, v))

    def compare(self, h, what, v, story):
        a, b = self.got(h, what, v), self.want(h, what)
        if [len(r) for r in a] != [len(r) for r in b]:
            raise Wrong("%s: %s has shape %d x %d" % (story, what, len(a), len(a[0]) if a else 0))
        for r, (x, y) in enumerate(zip(a, b)):
            for q, (e, w) in enumerate(zip(x, y)):
                if not alg.isexpr(e):
                    raise Giveup("%s[%d, %d] is %r" % (what, r, q, e))
                if e == w:
                    continue
                old = OLD in e.free_symbols
                vals, fun = valuations(e.free_symbols | w.free_symbols)
                res = terms.equal(e, w, vals, fun, simplify=False)
                if isinstance(res, tuple):
                    raise Wrong("%s: %s is not what the current inputs define%s" % (story, what, " (it still depends on replaced ones)" if old else ""))
                if res is not True and not agrees(e, w, vals, fun):
                    raise Giveup("%s: %s" % (what, e))

    # ------------------------------------------------------------ exploration
    def get(self, h, what):
        h2 = Hist(h.st.fork(), h.o, h.phi, h.ce)
        self.steps += 1
        v = self.ip.getattr(h2.o, what, h2.st)
        return h2, v

    def put(self, h, what):
        h2 = Hist(h.st.fork(), h.o, h.phi, h.ce)
        self.rename(h2, what)
        if what == "phi":
            v = MatV([self.names("phi")])
        elif what == "ce":
            v = CE
        else:
            v = self.given(what, h2.st)
        self.steps += 1
        self.ip.setattr(h2.o, what, v, h2.st)
        h2.ce = what == "ce"
        h2.phi = what == "phi" or (h2.phi and what in ("kappa", "g", "ce"))
        return h2

    def explore(self, limit=4000):
        todo = [(self.start, "after construction")]
        seen = {self.key(self.start)}
        while todo:
            h, story = todo.pop(0)
            self.states += 1
            if limit == 1 and self.states > 1:
                return
            if self.states > limit:
                raise Giveup("more than %d states" % limit)
            for what in INPUTS + ("S", "alpha", "phi", "rho", "ce"):
                h2, v = self.get(h, what)
                if isinstance(v, Opq) and v.op == "attr" and v.args[0] == h2.o:
                    raise Wrong("%s: reading %s fails, %s was never assigned" % (story, what, v.args[1]))
                self.compare(h2, what, v, story)
                k = self.key(h2)
                if k not in seen:
                    seen.add(k)
                    todo.append((h2, story + ", read %s" % what))
            for what in INPUTS + ("phi", "ce"):
                h2 = self.put(h, what)
                k = self.key(h2)
                if k not in seen:
                    seen.add(k)
                    todo.append((h2, story + ", assign %s" % what))

    def check_ce(self):
        """checkCe: true exactly when every constraint holds of the stored expression."""
        h = self.put(self.start, "ce")
        base = h.st
        n = self.n
        for wrong in itertools.product((0, 1), repeat=n):
            st = base.fork()
            f = self.ip.getattr(h.o, "checkCe", st)
            v = self.ip.call(f, [], {}, st)
            c = self.ip.cond(v, st)
            tags = {mp.mpf(3 + 2 * i): i for i in range(n)}
            val = {CE: mp.mpf("0.37"), G: mp.mpf("1.9")}
            for i in range(n):
                val[sym("c", i)], val[sym("kappa", i)], val[sym("s", i)] = mp.mpf(3 + 2 * i), mp.mpf("0.5") + i, mp.mpf("1.7") * (i + 2)
            fun = {"C": lambda t, e: mp.mpf("0.5") + tags[t] + wrong[tags[t]] if e == val[CE] else mp.mpf("77") + t + e * e, "SIMPL": lambda e: e}
            bare = [a for a in (c.atoms(sp.Function) if alg.isexpr(c) else ()) if a.func == alg.EQ0 and any(q.func == C for q in a.args[0].xreplace({z: Symbol("simplified_%d" % i) for i, z in enumerate(a.args[0].atoms(SIMPL))}).atoms(sp.Function))]
            if bare:
                raise Wrong("a constraint is compared without simplifying it")
            try:
                r = c if isinstance(c, bool) else terms.evc(c, val, fun)
            except terms.Unknown as e:
                raise Giveup("checkCe gives %s" % e)
            if bool(r) != (not any(wrong)):
                bad = [i + 1 for i in range(n) if wrong[i]]
                raise Wrong("checkCe is %s when %s" % (bool(r), "constraints %s of %d fail" % (bad, n) if bad else "every constraint holds"))


def valuations(symbols):
    out = []
    for k in range(3):
        d = {}
        for q in sorted(symbols, key=lambda x: x.name):
            d[q] = mp.mpf("0.3") + (sum(ord(ch) * (i + 3 + k) for i, ch in enumerate(q.name)) % 97) / mp.mpf(31)
        out.append(d)
    return out, {"C": lambda t, e: mp.sin(3 * t + 1) + mp.cos(e * (t + 2)) * 2 + e * t, "SIMPL": lambda e: e}


def agrees(e, w, vals, fun):
    try:
        return all(terms.close(terms.ev(e, v, fun), terms.ev(w, v, fun)) for v in vals)
    except terms.Unknown:
        return False


def check(rep):
    where = module(MOD).path
    for n in (1, 2, 3):
        for lists in (True, False):
            for kind in ("history", "check"):
                con = "CeSolver %s, %d constraint%s given as %s" % ({"history": "values over every history" if n < 3 else "values after construction", "check": "checkCe"}[kind], n, "s" if n > 1 else "", "lists" if lists else "tuples")
                try:
                    r = Run(n, lists)
                    if kind == "history":
                        r.explore(4000 if n < 3 else 1)
                        rep.analysed["calls"] += r.steps
                        if os.environ.get("SA_DEBUG"):
                            print(con, r.states, "states")
                    else:
                        r.check_ce()
                    rep.stats(r.ip)
                except Wrong as e:
                    rep.violation("constrained-expression", con, where, str(e))
                except (Giveup, AnchorLost) as e:
                    rep.undecided("constrained-expression", con, e)
                else:
                    rep.hold("constrained-expression", con)
