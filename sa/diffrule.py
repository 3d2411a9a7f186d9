"""egrad, egradRobust and step: derivative with respect to one argument, element by element."""
import mpmath as mp
import sympy as sp
from sympy import S, Symbol, Integer
import ai
import alg
import terms
import glue
from ai import Opq, Ref, ClsV, FnV, Giveup, DEAD
from core import module, parallel, AnchorLost
from glue import Glue, Num, Undefined, same, show, cells
from solver import Wrong, Funs, MOD
import perule
from perule import flatten, unflatten, value


def numleaves(v):
    if v[0] == "seq":
        return [l for x in v[1] for l in numleaves(x)]
    if v[0] == "dict":
        return [l for _, x in v[1] for l in numleaves(x)]
    return [v]


def struct(v):
    if v[0] == "seq":
        return ("seq", tuple(struct(x) for x in v[1]))
    if v[0] == "dict":
        return ("dict", tuple((k, struct(x)) for k, x in v[1]))
    return v[1] if v[0] == "arr" else ()


def derivative(rep, which, kinds, j, out, wrapped):
    con = "%s(g%s)(%s)%s%s" % (which, ", %d" % j if j is not None else "", ",".join({"a": "vector", "m": "matrix", "t": "tuple", "D": "TFCDict", "d": "dict", "s": "scalar"}[k] for k in kinds), ", output %s" % out if out != "array" else "", ", g compiled" if wrapped else "")
    M = module(MOD)
    node = M.funcs.get(which)
    if node is None:
        raise AnchorLost(which)
    where = "%s:%d %s" % (M.path, node.lineno, which)
    g = perule.world()
    ip, st = g.ip, g.st
    rule = "element-derivative"
    n = len(kinds)
    try:
        R = g.size("R")

        def f(ip, a, kw, st, nd):
            if len(a) != n or kw:
                raise Wrong("the function is called with %d arguments instead of %d" % (len(a), n))
            return g.uf("F", list(a), (R,), st)

        fv = g.fn("f", f)
        qual = {}
        if wrapped:
            fj = g.fn("fjit", f)
            qual[fj] = fv
        top = fj if wrapped else fv
        old = ip.attr_hook

        def attr(ip, o, name, st):
            if isinstance(o, Opq) and o in (fv, top):
                if name == "__qualname__":
                    return "jit.<locals>.f_jitted" if o != fv else "user_function"
                if name == "__name__":
                    return "f"
                if name == "__wrapped__":
                    if o == fv:
                        raise Giveup("__wrapped__ of a plain function")
                    return fv
            return old(ip, o, name, st)

        ip.attr_hook = attr
        asked = []

        def jvp(ip, args, kw, st, nd):
            fun, prim, tan = args[0], args[1], args[2]
            if fun not in (fv, top):
                raise Giveup("derivative of %r" % (fun,))
            p, t = ip.items(prim, st), ip.items(tan, st)
            if p is None or t is None:
                raise Giveup("primals %r" % (prim,))
            if len(p) != len(t):
                raise Wrong("%d primals and %d tangents" % (len(p), len(t)))
            if len(p) != n:
                raise Wrong("the function of %d arguments is differentiated with %d" % (n, len(p)))
            if which == "egradRobust":
                for a, b in zip(flatten(ip, tuple(p), st)[0], flatten(ip, tuple(t), st)[0]):
                    if ip.isarr(a) and ip.isarr(b) and st.heap[a.id].dtype is None:
                        # jax accepts a tangent only in the number type of its value
                        if isinstance(st.heap[b.id].dtype, str):
                            raise Wrong("the tangent is an array of %s whatever the number type of its argument" % st.heap[b.id].dtype)
            asked.append((g.freeze(tuple(p), st), g.freeze(tuple(t), st)))
            return (f(ip, p, {}, st, nd), g.uf("JVP", [tuple(p), tuple(t)], (R,), st))

        g.models["jax.jvp"] = jvp
        args = [Symbol("sc%d" % i, real=True) if k == "s" else value(g, "x%d" % i, k) for i, k in enumerate(kinds)]
        call = [top] + ([Integer(j)] if j is not None else [])
        w = ip.call(ip.mod_lookup(M, which, st), call, {}, st)
        r = ip.call(w, list(args), {}, st)
        rep.stats(ip)
        fa, fr = g.freeze(tuple(args), st), g.freeze(r, st)
        jj = 0 if j is None else j

        def JVP(vals, shape, meta):
            pr, ta = numleaves(vals[0]), numleaves(vals[1])
            key = tuple(glue.canon(p) for p in pr)
            out = {}
            for i in cells(shape):
                s = mp.mpf(0)
                for q, t in enumerate(ta):
                    for c in t[2] if t[0] == "arr" else [()]:
                        s += glue.h01("dF", key, q, c, i) * (t[2][c] if t[0] == "arr" else t[1])
                out[i] = s
            return out

        for seed in (0, 1):
            sym = {s: mp.mpf(1 + (i + seed) % 3) for i, s in enumerate(sorted((s for s in g.p.bounds if isinstance(s, Symbol)), key=str))}
            for i in range(n):
                sym[Symbol("sc%d" % i, real=True)] = mp.mpf("0.37") + i
            N = Num(g, sym, {"JVP": JVP})
            N.fun = Funs(N.fun)
            m = g.shape_error(sym)
            if m:
                raise Wrong(m)
            for p, t in asked:
                vp, vt = N.val(p), N.val(t)
                if struct(vp) != struct(vt):
                    raise Wrong("a tangent of shape %s is given for a value of shape %s" % (struct(vt), struct(vp)))
            va = N.val(fa)
            got = N.val(fr)
            leaves = [(k, l) for k, a in enumerate(va[1]) for l in numleaves(a)]
            key = tuple(glue.canon(l) for _, l in leaves)
            if got[0] != "arr":
                raise Giveup("result %s" % show(got))
            for i in got[2]:
                want = mp.mpf(0)
                for q, (k, l) in enumerate(leaves):
                    if k == jj:
                        for c in l[2] if l[0] == "arr" else [()]:
                            want += glue.h01("dF", key, q, c, i)
                if not terms.close(got[2][i], want):
                    raise Wrong("the result is not the derivative with respect to argument %d (%s instead of %s)" % (jj, mp.nstr(got[2][i], 6), mp.nstr(want, 6)))
    except Wrong as e:
        rep.violation(rule, con, where, str(e))
    except Undefined as e:
        rep.violation(rule, con, where, "%s has no value there" % e)
    except (Giveup, terms.Unknown) as e:
        rep.undecided(rule, con, e)
    else:
        rep.hold(rule, con)


def stepfn(rep):
    con = "step"
    M = module(MOD)
    node = M.funcs.get("step")
    if node is None:
        raise AnchorLost("step")
    where = "%s:%d step" % (M.path, node.lineno)
    g = Glue()
    ip, st = g.ip, g.st
    try:
        x = g.array("arg_x", (g.size("n"), g.size("m")))
        r = ip.call(ip.mod_lookup(M, "step", st), [x], {}, st)
        rep.stats(ip)
        fr = g.freeze(r, st)
        for pts in ((-1.5, 0.0, 2.0), (0.0, 3.0, -7.0), (-1e-9, 1e-9, 0.0)):
            N = Num(g, {Symbol("n", integer=True, positive=True): mp.mpf(3), Symbol("m", integer=True, positive=True): mp.mpf(1), **{s: mp.mpf(3 if s.name == "n" else 1) for s in g.p.bounds if isinstance(s, Symbol)}})
            N.fun["arg_x"] = lambda i, j, p=pts: mp.mpf(p[int(i)])
            v = N.val(fr)
            for i, p in enumerate(pts):
                if not terms.close(v[2][(i, 0)], mp.mpf(1 if p > 0 else 0)):
                    raise Wrong("step(%g) is %s" % (p, mp.nstr(v[2][(i, 0)], 5)))
    except Wrong as e:
        rep.violation("step", con, where, str(e))
    except Undefined as e:
        rep.violation("step", con, where, "%s has no value there" % e)
    except (Giveup, terms.Unknown) as e:
        rep.undecided("step", con, e)
    else:
        rep.hold("step", con)


def check(rep):
    jobs = [(stepfn, ())]
    for n in (1, 2, 3, 4):
        for j in [None] + list(range(n)):
            jobs.append((derivative, ("egrad", "amam"[:n], j, "array", False)))
            jobs.append((derivative, ("egrad", "aaaa"[:n], j, "array", True)))
            for ks in ("aDtm", "Daaa", "tdDa", "maDa"):
                jobs.append((derivative, ("egradRobust", ks[:n], j, "array", False)))
            jobs.append((derivative, ("egradRobust", "Dama"[:n], j, "array", True)))
    parallel(rep, jobs, native=False)
