"""pe and pejit: fixing some arguments of a function gives that function of the remaining ones.

JAX's tracing is summarised by what it promises: a traced function called with values for the unknown leaves gives
what the function gives for the known leaves and those; outputs that need no unknown are left out unless asked for."""
import itertools
import mpmath as mp
import sympy as sp
from sympy import S, Symbol, Integer
import ai
import alg
import terms
import glue
from ai import Opq, Ref, ClsV, FnV, Giveup, DEAD
from core import module, parallel, AnchorLost
from glue import Glue, Num, Undefined, same, show
from solver import Wrong, Funs, MOD


class Tree:
    """Structure of a nest of tuples, lists and dictionaries with leaves."""

    def __init__(self, kind, subs=(), keys=(), cls=None):
        self.kind, self.subs, self.keys, self.cls = kind, list(subs), list(keys), cls

    @property
    def leaves(self):
        return 1 if self.kind == "*" else 0 if self.kind == "none" else sum(s.leaves for s in self.subs)

    @property
    def nodes(self):
        return 1 + sum(s.nodes for s in self.subs)

    def __eq__(self, o):
        return isinstance(o, Tree) and (self.kind, self.keys, self.subs) == (o.kind, o.keys, o.subs) and (self.cls and self.cls.name) == (o.cls and o.cls.name)

    def __hash__(self):
        return hash((self.kind, len(self.subs)))

    def __repr__(self):
        return "*" if self.kind == "*" else "%s%s" % (self.kind, self.subs)


def flatten(ip, v, st):
    if isinstance(v, tuple) or (isinstance(v, Ref) and v.kind == "list"):
        xs = ip.items(v, st)
        if xs is None:
            raise Giveup("tree %r" % (v,))
        parts = [flatten(ip, x, st) for x in xs]
        return [l for ls, _ in parts for l in ls], Tree("tuple" if isinstance(v, tuple) else "list", [t for _, t in parts])
    if isinstance(v, Ref) and v.kind == "dict":
        D = st.heap[v.id]
        ks = [k for k in D.items if not isinstance(k, tuple)]
        if D.cls is None:
            ks = sorted(ks, key=str)
        parts = [flatten(ip, D.items[k], st) for k in ks]
        return [l for ls, _ in parts for l in ls], Tree("dict", [t for _, t in parts], ks, D.cls)
    if v is None:
        return [], Tree("none")
    return [v], Tree("*")


def unflatten(ip, t, leaves, st):
    it = iter(leaves)

    def go(t):
        if t.kind == "*":
            return next(it)
        if t.kind == "none":
            return None
        xs = [go(s) for s in t.subs]
        if t.kind == "tuple":
            return tuple(xs)
        if t.kind == "list":
            return ip.list(st, xs)
        its = list(zip(t.keys, xs))
        return ip.construct(t.cls, [tuple(its)], {}, st, None) if t.cls is not None else ip.dict(st, dict(its))

    if len(leaves) != t.leaves:
        raise Wrong("a structure with %d leaves is rebuilt from %d" % (t.leaves, len(leaves)))
    return go(t)


def treedef(g, t):
    """The structure as a value of the program."""
    o = Opq("treedef", (t,))
    o.notnone = True
    return o


def world():
    g = Glue()
    ip = g.ip

    def tree_flatten(ip, args, kw, st, node):
        ls, t = flatten(ip, args[0], st)
        return (ip.list(st, ls), treedef(g, t))

    def tree_map(ip, args, kw, st, node):
        f, rest = args[0], args[1:]
        ls, t = flatten(ip, rest[0], st)
        other = [flatten(ip, x, st) for x in rest[1:]]
        if any(t2 != t for _, t2 in other):
            raise Wrong("tree_map over different structures")
        return unflatten(ip, t, [ip.call(f, [x] + [o[0][i] for o in other], {}, st, node) for i, x in enumerate(ls)], st)

    def known(ip, args, kw, st, node):
        o = Opq("pval", (True, args[0]))
        o.notnone = True
        return o

    def unknown(ip, args, kw, st, node):
        o = Opq("pval", (False, args[0]))
        o.notnone = True
        return o

    def typeof(ip, args, kw, st, node):
        return Opq("aval", (args[0],))

    def wrap_init(ip, args, kw, st, node):
        f = args[0]
        o = g.closure("wrap", lambda ip, a, k, st, n: ip.call(f, a, k, st, n))
        o.wrapped = f
        return o

    def flatten_fun(ip, args, kw, st, node):
        f, t = args[0], args[1]
        if not (isinstance(t, Opq) and t.op == "treedef"):
            raise Giveup("input structure %r" % (t,))
        t = t.args[0]
        box = {}

        def flat(ip, a, k, st, n):
            v = unflatten(ip, t, list(a), st)
            if not (isinstance(v, tuple) and len(v) == 2):
                raise Giveup("input structure is not (arguments, keywords)")
            kws = v[1]
            if not (isinstance(kws, Ref) and kws.kind == "dict"):
                raise Wrong("the keywords of the traced function are %r" % (kws,))
            r = ip.call(f, list(ip.items(v[0], st)), dict(st.heap[kws.id].items), st, n)
            ls, ot = flatten(ip, r, st)
            box["t"] = ot
            return ip.list(st, ls)

        def thunk(ip, a, k, st, n):
            if "t" not in box:
                raise Wrong("the output structure is asked for before tracing")
            return treedef(g, box["t"])

        fl = g.closure("flat", flat)
        fl.ntree = t
        return (fl, g.closure("out_tree", thunk))

    def trace(ip, args, kw, st, node):
        f, pv = args[0], ip.items(args[1], st)
        inst = args[2] if len(args) > 2 else kw.get("instantiate", False)
        if pv is None or not all(isinstance(p, Opq) and p.op == "pval" for p in pv):
            raise Wrong("a value that is neither known nor unknown is traced")
        unk = []
        vals = []
        for p in pv:
            if p.args[0]:
                vals.append(p.args[1])
                if isinstance(p.args[1], (tuple, Ref)) and not ip.isarr(p.args[1]):
                    raise Wrong("a nest is traced as one leaf")
            else:
                a = p.args[1]
                while isinstance(a, Opq) and a.op in ("aval", "callret", "attr", "method"):
                    a = a.args[0]
                if not ip.isarr(a):
                    raise Giveup("shape of an unknown: %r" % (p.args[1],))
                unk.append(tuple(ip.dims(st, a)))
                r = g.array("tracer%d_%d" % (ip.new(), len(unk)), ip.dims(st, a))
                vals.append(r)
        out = ip.items(ip.call(f, vals, {}, st, node), st)
        marks = {st.heap[v.id].name for v, p in zip(vals, pv) if not p.args[0] and ip.isarr(v)}
        keepout = [bool(inst) or depends(g, g.freeze(o, st), marks) for o in out]
        j = Opq("jaxpr", (ip.new(),))
        j.notnone = True
        j.f, j.pv, j.keep = f, list(pv), keepout
        return (j, ip.list(st, [Opq("outpval", ()) for _ in out]), Opq("consts", (j,)))

    def eval_jaxpr(ip, args, kw, st, node):
        j, c, rest = args[0], args[1], list(args[2:])
        if not hasattr(j, "pv"):
            raise Giveup("jaxpr %r" % (j,))
        if c != Opq("consts", (j,)):
            raise Wrong("the constants of another trace are used")
        n = sum(1 for p in j.pv if not p.args[0])
        if len(rest) != n:
            raise Wrong("a traced function with %d unknown leaves is evaluated with %d" % (n, len(rest)))
        it = iter(rest)
        out = ip.items(ip.call(j.f, [p.args[1] if p.args[0] else next(it) for p in j.pv], {}, st, node), st)
        return ip.list(st, [o for o, k in zip(out, j.keep) if k])

    def jit(ip, args, kw, st, node):
        f = args[0]
        o = g.closure("jitted", lambda ip, a, k, st, n: ip.call(f, a, k, st, n))
        o.jitkw = kw
        return o

    m = {}
    for pre in ("jax._src.tree_util.", "jax.tree_util.", "jax.tree."):
        m[pre + "tree_flatten"] = m[pre + "flatten"] = tree_flatten
        m[pre + "tree_map"] = m[pre + "map"] = tree_map
    for pre in ("jax.interpreters.partial_eval.", "jax._src.interpreters.partial_eval."):
        m[pre + "PartialVal.known"] = known
        m[pre + "PartialVal.unknown"] = unknown
        m[pre + "trace_to_jaxpr_nounits"] = trace
    for pre in ("jax.extend.linear_util.", "jax._src.linear_util.", "jax.linear_util."):
        m[pre + "wrap_init"] = wrap_init
    for pre in ("jax.api_util.", "jax._src.api_util."):
        m[pre + "flatten_fun"] = flatten_fun
        m[pre + "debug_info"] = lambda ip, a, k, st, n: Opq("debug_info", ())
    for pre in ("jax.core.", "jax._src.core.", "jax.extend.core."):
        m[pre + "eval_jaxpr"] = eval_jaxpr
    m["jax.typeof"] = m["jax.core.get_aval"] = typeof
    m["jax.jit"] = jit
    g.models.update(m)

    def attr(ip, o, name, st):
        if isinstance(o, Opq) and o.op == "treedef":
            t = o.args[0]
            if name == "num_leaves":
                return Integer(t.leaves)
            if name == "num_nodes":
                return Integer(t.nodes)
            if name == "unflatten":
                return g.closure("unflatten", lambda ip, a, k, st, n: unflatten(ip, t, list(ip.items(a[0], st)), st))
        if isinstance(o, Opq) and o.op == "aval":
            return g.closure(name, lambda ip, a, k, st, n: o)
        return NotImplemented

    ip.attr_hook = attr
    return g


def depends(g, fz, marks, seen=None):
    """Whether a frozen value refers to one of the named arrays, directly or through an operator."""
    seen = set() if seen is None else seen
    k = fz[0]
    if k == "arr":
        idx = [Symbol("dep%d" % i, integer=True, nonnegative=True) for i in range(len(fz[1]))]
        e = g.ip.r.elem(fz[2], tuple(idx), fz[3])
        return depends(g, ("val", e), marks, seen)
    if k == "seq":
        return any(depends(g, x, marks, seen) for x in fz[1])
    if k == "dict":
        return any(depends(g, x, marks, seen) for _, x in fz[1])
    if k == "ite":
        return depends(g, fz[2], marks, seen) or depends(g, fz[3], marks, seen)
    v = fz[1]
    if not alg.isexpr(v):
        return False
    for f in v.atoms(sp.Function):
        n = f.func.__name__
        if n in marks:
            return True
        if n.startswith("uf_") and f.args[0].is_Integer and int(f.args[0]) not in seen:
            seen.add(int(f.args[0]))
            if any(depends(g, a, marks, seen) for a in g.tags[int(f.args[0])][1]):
                return True
    return False


def value(g, name, kind):
    ip, st = g.ip, g.st
    n = lambda k: g.size("n_%s%d" % (name.split("#")[0], k))
    if kind == "a":
        return g.array("arg_%s" % name, (n(0),))
    if kind == "m":
        return g.array("arg_%s" % name, (n(0), n(1)))
    if kind == "t":
        return (g.array("arg_%s_0" % name, (n(0),)), g.array("arg_%s_1" % name, (n(1),)))
    its = tuple((k, g.array("arg_%s_%s" % (name, k), (n(i),))) for i, k in enumerate(("q", "b") if kind == "D" else ("b", "q")))
    if kind == "D":
        return ip.construct(ClsV("TFCDict", module(MOD)), [its], {}, st, None)
    return ip.dict(st, dict(its))


def fixed(rep, which, kinds, const, out):
    con = "%s(%s), constant %s, output %s" % (which, ",".join({"a": "vector", "m": "matrix", "t": "tuple", "D": "TFCDict", "d": "dict"}[k] for k in kinds), list(const), out)
    M = module(MOD)
    node = M.funcs.get(which)
    if node is None:
        raise AnchorLost(which)
    where = "%s:%d %s" % (M.path, node.lineno, which)
    g = world()
    ip, st = g.ip, g.st
    rule = "partial-evaluation"
    try:
        n = len(kinds)
        R = g.size("R")

        def f(ip, a, kw, st, nd):
            if len(a) != n or kw:
                raise Wrong("the function is called with %d arguments instead of %d" % (len(a), n))
            one = g.uf("F", list(a), (R,), st)
            if out == "array":
                return one
            if out == "pair":
                return (one, g.uf("G", [a[i] for i in sorted(const)][:1] or [S.Zero], (R,), st))
            if out == "tuple1":
                return (one,)
            its = (("z", one), ("c", g.uf("G", list(a), (R, R), st)))
            return ip.construct(ClsV("TFCDict", M), [its], {}, st, None)

        fv = g.fn("f", f)
        given = [value(g, "x%d" % i, k) for i, k in enumerate(kinds)]
        later = [value(g, "x%d#2" % i, k) if i not in const else given[i] for i, k in enumerate(kinds)]
        lst = ip.list(st, [Integer(k) for k in const])
        fl = g.freeze(lst, st)
        kw = {"constant_arg_nums": lst}
        if which == "pejit":
            kw["donate_argnums"] = (Integer(0),)
        w = ip.call(ip.mod_lookup(M, which, st), list(given), kw, st)
        h = ip.call(w, [fv], {}, st)
        if which == "pejit":
            if not hasattr(h, "jitkw"):
                raise Giveup("pejit gives %r" % (h,))
            if set(h.jitkw) != {"donate_argnums"}:
                raise Wrong("the keyword arguments reach jit as %s" % sorted(h.jitkw))
        r = ip.call(h, [x for i, x in enumerate(later) if i not in const], {}, st)
        rep.stats(ip)
        want = f(ip, later, {}, st, None)
        fr, fw = g.freeze(r, st), g.freeze(want, st)
        if isinstance(want, Ref) and want.kind == "dict" and not (isinstance(r, Ref) and r.kind == "dict" and st.heap[r.id].cls is not None and st.heap[r.id].cls.name == "TFCDict"):
            raise Wrong("the output is no TFCDict any more")
        for seed in (0, 1):
            sym = {s: mp.mpf(1 + (i + seed) % 3) for i, s in enumerate(sorted((s for s in g.p.bounds if isinstance(s, Symbol)), key=str))}
            N = Num(g, sym)
            N.fun = Funs(N.fun)
            a, b = N.val(fr), N.val(fw)
            if not same(a, b):
                raise Wrong("the function of the remaining arguments gives %s where the original gives %s" % (show(a), show(b)))
            if not same(N.val(fl), N.val(g.freeze(lst, st))):
                raise Wrong("the caller's list of constant arguments is changed")
    except Wrong as e:
        rep.violation(rule, con, where, str(e))
    except Undefined as e:
        rep.violation(rule, con, where, "%s has no value there" % e)
    except (Giveup, terms.Unknown) as e:
        rep.undecided(rule, con, e)
    else:
        rep.hold(rule, con)


def check(rep):
    jobs = []
    for n in (1, 2, 3, 4):
        for k in range(0, n + 1):
            for const in itertools.permutations(range(n), k):
                jobs.append((fixed, ("pe", "a" * n, const, "array")))
    for kinds in ("Da", "aD", "at", "ta", "dm", "Dtm", "mDa", "aDtd"):
        for k in (1, 2):
            for const in itertools.permutations(range(len(kinds)), k):
                if k < len(kinds):
                    jobs.append((fixed, ("pe", kinds, const, "pair")))
                    if k == 1:
                        jobs.append((fixed, ("pe", kinds, const, "TFCDict")))
                        jobs.append((fixed, ("pe", kinds, const, "tuple1")))
    for const in ((), (0,), (1,), (0, 2), (2, 1)):
        jobs.append((fixed, ("pejit", "aDm", const, "array")))
        jobs.append((fixed, ("pejit", "aDm", const, "TFCDict")))
    parallel(rep, jobs, native=False)
