"""TFCDict and TFCDictRobust: conversion to and from one vector, arithmetic, and their life as pytrees."""
import ast
import mpmath as mp
import sympy as sp
from sympy import S, Symbol
import ai
import alg
import terms
import glue
from ai import Ref, ClsV, FnV, Giveup, DEAD
from core import module, parallel, AnchorLost
from glue import Glue, Num, Undefined, same, show
from solver import Wrong, Funs, MOD

# names of the entries are not in alphabetical order on purpose: the order is that of insertion
KEYS = ("q", "b", "z")


def world(cls, nk):
    g = Glue()
    g.cls = cls
    g.M = module(MOD)
    if cls not in g.M.classes:
        raise AnchorLost(cls)
    g.keys = KEYS[:nk]
    g.shapes = {}
    for i, k in enumerate(g.keys):
        d = (g.size("n%d" % i),)
        if cls == "TFCDictRobust" and i % 3 == 0:
            d = d + (g.size("q%d" % i),)
        if cls == "TFCDictRobust" and i % 3 == 2:
            d = d + (g.size("q%d" % i), g.size("r%d" % i))
        g.shapes[k] = d
    return g


def make(g, name, lib="jax", cls=None, keys=None, shapes=None):
    ip, st = g.ip, g.st
    its = [(k, g.array("arg_%s_%s" % (name, k), (shapes or g.shapes)[k], lib)) for k in (keys or g.keys)]
    if cls == "dict":
        return ip.dict(st, dict(its))
    return ip.construct(ClsV(cls or g.cls, g.M), [tuple(its)], {}, st, None)


def total(g):
    n = S.Zero
    for d in g.shapes.values():
        q = S.One
        for x in d:
            q *= x
        n += q
    return sp.expand(n)


def valuations(g):
    for seed in (0, 1, 2):
        yield {s: mp.mpf(1 + (i + seed) % 3) for i, s in enumerate(sorted((s for s in g.p.bounds if isinstance(s, Symbol)), key=str))}


def entries(v):
    if v[0] != "dict":
        raise Wrong("the result is not a dictionary")
    return dict(v[1]), [k for k, _ in v[1]]


def flatnum(v):
    return [v[2][i] for i in sorted(v[2])]


def vector(v):
    """The one vector an ordered dictionary stands for."""
    out = []
    for _, x in v[1]:
        out += flatnum(x)
    return out


def isclass(g, v, cls):
    return isinstance(v, Ref) and v.kind == "dict" and g.st.heap[v.id].cls is not None and g.st.heap[v.id].cls.name == cls


def arith(rep, cls, nk, op, other, lib, olib):
    """op in + - += -=; other in same/dict/perm (dictionary with another order of keys)/vec/col."""
    con = "%s %s %s, %d entries, %s%s" % (cls, op, {"same": cls, "dict": "dict", "perm": "dict in another order", "vec": "vector", "col": "column"}[other], nk, lib, " with " + olib if olib != lib else "")
    g = world(cls, nk)
    ip, st = g.ip, g.st
    node = g.M.classes[cls]
    where = "%s:%d %s" % (g.M.path, node.lineno, cls)
    rule = "dictionary-arithmetic"
    try:
        a = make(g, "a", lib)
        if other == "same":
            b = make(g, "b", olib)
        elif other == "dict":
            b = make(g, "b", olib, "dict")
        elif other == "perm":
            b = make(g, "b", olib, "dict", tuple(reversed(g.keys)))
        elif other == "vec":
            b = g.array("arg_b", (total(g),), olib)
        else:
            b = g.array("arg_b", (total(g), S.One), olib)
        fa, fb = g.freeze(a, st), g.freeze(b, st)
        src = ("def go(a, b):\n    a %s b\n    return a\n" if op[1:] else "def go(a, b):\n    return a %s b\n") % op
        fn = FnV(ast.parse(src).body[0], g.M, None)
        r = ip.call(fn, [a, b], {}, st)
        rep.stats(ip)
        if r is DEAD:
            raise Wrong("the operation ends the program")
        if not isinstance(r, Ref) or r.kind != "dict":
            raise Giveup("result %r" % (r,))
        if not isclass(g, r, cls):
            raise Wrong("the result is not a %s" % cls)
        fr, fa2, fb2 = g.freeze(r, st), g.freeze(a, st), g.freeze(b, st)
        sg = 1 if op[0] == "+" else -1
        for sym in valuations(g):
            N = Num(g, sym)
            N.fun = Funs(N.fun)
            m = g.shape_error(sym)
            if m:
                raise Wrong(m)
            va, vb, vr, va2, vb2 = (N.val(q) for q in (fa, fb, fr, fa2, fb2))
            if not same(vb, vb2):
                raise Wrong("the right operand changes from %s to %s" % (show(vb), show(vb2)))
            if not op[1:] and not same(va, va2):
                raise Wrong("the left operand changes from %s to %s" % (show(va), show(va2)))
            if op[1:] and r != a:
                raise Wrong("the name is bound to another object")
            er, kr = entries(vr)
            if kr != list(g.keys):
                raise Wrong("the keys become %s" % kr)
            ea = entries(va)[0]
            off = 0
            for k in g.keys:
                x = flatnum(ea[k])
                y = flatnum(entries(vb)[0][k]) if vb[0] == "dict" else flatnum(vb)[off : off + len(x)]
                off += len(x)
                if er[k][0] != "arr" or er[k][1] != ea[k][1]:
                    raise Wrong("entry %s changes shape" % k)
                z = flatnum(er[k])
                for i in range(len(x)):
                    if not terms.close(z[i], x[i] + sg * y[i]):
                        raise Wrong("element %d of entry %s is %s instead of %s" % (i, k, mp.nstr(z[i], 6), mp.nstr(x[i] + sg * y[i], 6)))
    except Wrong as e:
        rep.violation(rule, con, where, str(e))
    except Undefined as e:
        rep.violation(rule, con, where, "%s has no value there" % e)
    except (Giveup, terms.Unknown) as e:
        fail(rep, g, rule, con, where, e)
    else:
        rep.hold(rule, con)


def fail(rep, g, rule, con, where, e):
    for sym in valuations(g):
        m = g.shape_error(sym)
        if m:
            rep.violation(rule, con, where, m)
            return
    rep.undecided(rule, con, e)


def convert(rep, cls, nk, lib, via):
    """Round trips; via in new/update (dictionary grown by update)/tree (rebuilt as a pytree)."""
    con = "%s conversion, %d entries, %s, %s" % (cls, nk, lib, {"new": "fresh", "update": "after update", "tree": "after a pytree round trip", "sum": "after +=", "assign": "after item assignment", "resize": "after update with other sizes", "both": "after update with another size and new entries"}[via])
    g = world(cls, nk)
    ip, st = g.ip, g.st
    where = "%s:%d %s" % (g.M.path, g.M.classes[cls].lineno, cls)
    rule = "dictionary-vector"
    try:
        want = make(g, "w", lib)
        if via == "new":
            d = make(g, "w", lib)
        elif via == "update":
            d = make(g, "w", lib, keys=g.keys[:1])
            ip.call(ip.getattr(d, "update", st), [make(g, "w", lib, "dict", g.keys[1:])], {}, st)
        elif via in ("resize", "both"):
            # entries of other sizes before the update
            old = {k: tuple(g.size("o%d_%d" % (i, j)) for j in range(len(g.shapes[k]))) for i, k in enumerate(g.keys)}
            d = make(g, "o", lib, keys=g.keys if via == "resize" else g.keys[:1], shapes=old)
            ip.call(ip.getattr(d, "update", st), [make(g, "w", lib, "dict")], {}, st)
        elif via == "tree":
            d = rebuild(g, make(g, "w", lib))
        elif via == "assign":
            d = make(g, "x", lib)
            src = "def go(a, k, v):\n    a[k] = v\n    return a\n"
            fn = FnV(ast.parse(src).body[0], g.M, None)
            for k in g.keys:
                ip.call(fn, [d, k, g.array("arg_w_%s" % k, g.shapes[k], lib)], {}, st)
        else:
            d = make(g, "w", lib)
            z = ip.arr(st, (total(g),), lambda i: S.Zero)
            st.heap[z.id].lib = "jax"
            fn = FnV(ast.parse("def go(a, b):\n    a += b\n    return a\n").body[0], g.M, None)
            d = ip.call(fn, [d, z], {}, st)
        vec = ip.call(ip.getattr(d, "toArray", st), [], {}, st)
        back = ip.call(ip.getattr(d, "toDict", st), [vec], {}, st)
        x = g.array("arg_v", (total(g),), "jax")
        e = ip.call(ip.getattr(d, "toDict", st), [x], {}, st)
        x2 = ip.call(ip.getattr(e, "toArray", st), [], {}, st)
        xc = g.array("arg_v", (total(g), S.One), "jax")
        rep.stats(ip)
        for o in (back, e):
            if not isclass(g, o, cls):
                raise (Giveup if not isinstance(o, Ref) else Wrong)("toDict gives %r" % (o,))
        fz = [g.freeze(q, st) for q in (want, vec, back, x, e, x2, d)]
        for sym in valuations(g):
            N = Num(g, sym)
            N.fun = Funs(N.fun)
            m = g.shape_error(sym)
            if m:
                raise Wrong(m)
            vw, vv, vb, vx, ve, vx2, vd = (N.val(q) for q in fz)
            if not same(vw, vd):
                raise Wrong("the dictionary holds %s instead of %s" % (show(vd), show(vw)))
            exp = vector(vw)
            if vv[1] != (len(exp),) or any(not terms.close(p, q) for p, q in zip(flatnum(vv), exp)):
                raise Wrong("toArray gives %s instead of the entries one after the other" % show(vv))
            if not same(vb, vw):
                raise Wrong("toDict(toArray()) gives %s instead of %s" % (show(vb), show(vw)))
            if not same(vx, vx2):
                raise Wrong("toDict followed by toArray turns %s into %s" % (show(vx), show(vx2)))
    except Wrong as e:
        rep.violation(rule, con, where, str(e))
    except Undefined as e:
        rep.violation(rule, con, where, "%s has no value there" % e)
    except (Giveup, terms.Unknown) as e:
        fail(rep, g, rule, con, where, e)
    else:
        rep.hold(rule, con)


def registered(g, cls):
    """Arguments of the call that registers the class with JAX."""
    for n in ast.walk(g.M.tree):
        if isinstance(n, ast.Call) and len(n.args) >= 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == cls:
            f = n.func
            if (isinstance(f, ast.Name) and f.id == "register_pytree_node") or (isinstance(f, ast.Attribute) and f.attr == "register_pytree_node"):
                return n
    raise Giveup("no registration of %s as a pytree found" % cls)


def rebuild(g, d, vals=None):
    ip, st = g.ip, g.st
    n = registered(g, g.cls)
    # anything bound at module level, or a lambda in place
    ip.modstack.append(g.M)
    try:
        env = ip.newenv(st, {}, None)
        flat, unflat = (ip.ev(a, st, env) for a in n.args[1:3])
    finally:
        ip.modstack.pop()
    r = ip.call(flat, [d], {}, st)
    rr = ip.items(r, st)
    if rr is None or len(rr) != 2:
        raise Giveup("flattening gives %r" % (r,))
    ch = ip.items(rr[0], st)
    if ch is None:
        raise Giveup("children %r" % (rr[0],))
    g.children = ch
    return ip.call(unflat, [rr[1], tuple(ch if vals is None else vals(ch))], {}, st)


def tree(rep, cls, nk, what):
    con = "%s as a pytree, %d entries: %s" % (cls, nk, what)
    g = world(cls, nk)
    ip, st = g.ip, g.st
    where = "%s:%d %s" % (g.M.path, g.M.classes[cls].lineno, cls)
    rule = "dictionary-pytree"
    try:
        d = make(g, "w")
        if what in ("ones", "zeros"):
            # tree_map over the registered children
            def tmap(ip, args, kw, st, node):
                f, t = args[0], args[1]
                if ip.isarr(t):
                    return ip.call(f, [t], {}, st)
                return rebuild(g, t, lambda ch: [ip.call(f, [c], {}, st) for c in ch])

            g.models["jax.tree_util.tree_map"] = g.models["jax.tree.map"] = tmap
            f = ip.mod_lookup(g.M, what + "Robust", st)
            if f is None:
                raise AnchorLost(what + "Robust")
            r = ip.call(f, [d], {}, st)
            ra = ip.call(f, [g.array("arg_v", (total(g),), "jax")], {}, st)
            fz, fa, fw = g.freeze(r, st), g.freeze(ra, st), g.freeze(d, st)
            if not isclass(g, r, cls):
                raise Giveup("%sRobust gives %r" % (what, r))
            c = mp.mpf(1 if what == "ones" else 0)
            for sym in valuations(g):
                N = Num(g, sym)
                N.fun = Funs(N.fun)
                vr, va, vw = N.val(fz), N.val(fa), N.val(fw)
                if [k for k, _ in vr[1]] != list(g.keys) or any(x[1] != y[1] for (_, x), (_, y) in zip(vr[1], vw[1])):
                    raise Wrong("the result %s does not have the structure of its argument" % show(vr))
                if any(not terms.close(x, c) for x in vector(vr)) or any(not terms.close(x, c) for x in flatnum(va)):
                    raise Wrong("not all elements are %d: %s" % (int(c), show(vr)))
        else:
            r = rebuild(g, d)
            fz, fw = g.freeze(r, st), g.freeze(d, st)
            fc = [g.freeze(x, st) for x in g.children]
            if not isclass(g, r, cls):
                raise (Giveup if not isinstance(r, Ref) else Wrong)("unflattening gives %r" % (r,))
            r2 = rebuild(g, d, lambda ch: [g.array("arg_u%d" % i, ip.dims(st, c)) for i, c in enumerate(ch)])
            f2 = g.freeze(r2, st)
            for sym in valuations(g):
                N = Num(g, sym)
                N.fun = Funs(N.fun)
                vr, vw, v2 = N.val(fz), N.val(fw), N.val(f2)
                ch = [N.val(x) for x in fc]
                if not same(vr, vw):
                    raise Wrong("flattening and unflattening turns %s into %s" % (show(vw), show(vr)))
                if len(ch) != nk or any(not same(c, x) for c, (_, x) in zip(ch, vw[1])):
                    raise Wrong("the children are not the values in the order of the keys")
                for i, (k, x) in enumerate(v2[1]):
                    if k != g.keys[i] or flatnum(x) != [N.fun["arg_u%d" % i](*q) for q in sorted(x[2])]:
                        raise Wrong("unflattening puts child %d under another key" % i)
    except Wrong as e:
        rep.violation(rule, con, where, str(e))
    except Undefined as e:
        rep.violation(rule, con, where, "%s has no value there" % e)
    except (Giveup, terms.Unknown) as e:
        fail(rep, g, rule, con, where, e)
    else:
        rep.hold(rule, con)


def check(rep):
    jobs = []
    for cls in ("TFCDict", "TFCDictRobust"):
        for nk in (1, 2, 3):
            for op in ("+", "-", "+=", "-="):
                for lib in ("jax", "numpy"):
                    for other, olib in (("same", "jax"), ("dict", "jax"), ("vec", "jax"), ("vec", "numpy"), ("same", "numpy"), ("perm", "numpy"), ("col", "jax")):
                        if nk == 3 or other in ("same", "vec"):
                            jobs.append((arith, (cls, nk, op, other, lib, olib)))
            for lib in ("jax", "numpy"):
                for via in ("new", "update", "tree", "sum", "assign", "resize", "both"):
                    jobs.append((convert, (cls, nk, lib, via)))
            for what in ("round trip", "ones", "zeros"):
                jobs.append((tree, (cls, nk, what)))
    parallel(rep, jobs, native=False)


def check_tree(rep):
    parallel(rep, [(tree, (cls, nk, what)) for cls in ("TFCDict", "TFCDictRobust") for nk in (1, 2, 3) for what in ("round trip", "ones", "zeros")], native=False)
