"""Abstract models of the library calls the analysed code makes (numpy / jax.numpy / C math /
builtins).  A call without a model becomes an uninterpreted term, never a guess."""
import sympy as sp
from sympy import S, Function, Symbol
import alg
from alg import conj, disj, neg, ite, iscond, condexpr, isexpr, tocond
import arr
from arr import Init
import ai
from ai import Opq, Ref, Ptr, Bound, ModV, ClsV, FnV, IteV, Undef, Star, Giveup, ListC, DictC, ArrC, ObjC, DEAD, VarRef

MAX = Function("MAX")
MIN = Function("MIN")


def opq(name, args, kw):
    return Opq(name, tuple(args) + tuple(("kw", k, v) for k, v in sorted(kw.items())))


def mx(a, b):
    if a == b:
        return a
    if a.is_number and b.is_number:
        return sp.Max(a, b)
    return MAX(*sorted([a, b], key=sp.default_sort_key))


def mn(a, b):
    if a == b:
        return a
    if a.is_number and b.is_number:
        return sp.Min(a, b)
    return MIN(*sorted([a, b], key=sp.default_sort_key))


def trunc(x):
    return x if alg.is_int(x) else Function("i_TRUNC")(x)


def ceil(x):
    r = sp.ceiling(sp.expand(x))
    return r


EW1 = {
    "cos": sp.cos,
    "sin": sp.sin,
    "tan": sp.tan,
    "exp": sp.exp,
    "tanh": sp.tanh,
    "cosh": sp.cosh,
    "sinh": sp.sinh,
    "log": sp.log,
    "sqrt": sp.sqrt,
    "ceil": ceil,
    "floor": lambda x: sp.floor(sp.expand(x)),
    "negative": lambda x: -x,
    "square": lambda x: x**2,
    "reciprocal": lambda x: 1 / x,
    "logical_not": lambda x: condexpr(neg(tocond(x))),
    "sign": sp.sign,
    "conj": sp.conjugate,
}


def nabs(x):
    if x.is_number:
        return sp.Abs(x)
    return Function("ABS")(sp.expand(-x) if sp.expand(x).could_extract_minus_sign() else sp.expand(x))


EW1["abs"] = EW1["absolute"] = EW1["fabs"] = nabs
EW2 = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b,
    "power": lambda a, b: a**b,
    "mod": alg.mod,
    "remainder": alg.mod,
    "floor_divide": alg.floordiv,
    "maximum": mx,
    "minimum": mn,
    "heaviside": lambda a, b: Function("HEAVISIDE")(a, b),
    "logical_and": lambda a, b: condexpr(conj(tocond(a), tocond(b))),
    "logical_or": lambda a, b: condexpr(disj(tocond(a), tocond(b))),
    "equal": lambda a, b: condexpr(alg.cmp("==", a, b)),
    "not_equal": lambda a, b: condexpr(alg.cmp("!=", a, b)),
    "greater": lambda a, b: condexpr(alg.cmp(">", a, b)),
    "greater_equal": lambda a, b: condexpr(alg.cmp(">=", a, b)),
    "less": lambda a, b: condexpr(alg.cmp("<", a, b)),
    "less_equal": lambda a, b: condexpr(alg.cmp("<=", a, b)),
}


def shape_arg(ip, v, st):
    """dims tuple from a shape argument"""
    if isexpr(v):
        return (v,)
    vs = ip.items(v, st)
    if vs is None:
        return None
    out = []
    for x in vs:
        x = ip.scal(x)
        if x is None:
            return None
        out.append(sp.expand(x))
    return tuple(out)


def toarr(ip, v, st, dtype=None):
    """array value for nested lists / scalars / arrays, or None"""
    if ip.isarr(v):
        return v
    vs = ip.items(v, st)
    if vs is None:
        # only what is known to be a number is a 0-d array: an unknown value may have any shape
        s = v if alg.isexpr(v) and not alg.iscond(v) else (ip.scal(v) if isinstance(v, (int, float, complex)) else None)
        if s is None:
            return None
        return ip.arr(st, (), lambda idx, s=s: s, "scalar", dtype)
    if len(vs) > 40:
        return None
    sub = []
    for x in vs:
        if ip.isarr(x) or ip.items(x, st) is not None:
            a = toarr(ip, x, st)
            if a is None or ip.dims(st, a) is None:
                return None
            sub.append(a)
        else:
            s = x if iscond(x) and not isinstance(x, bool) else ip.scal(x)
            if s is None:
                return None
            sub.append(s)
    if not sub:
        return ip.arr(st, (S.Zero,), lambda idx: Symbol("empty"), "array", dtype)
    d0 = ip.dims(st, sub[0])
    for x in sub:
        if len(ip.dims(st, x)) != len(d0):
            return None
    cells = [(st.heap[x.id].ver if ip.isarr(x) else None, x) for x in sub]
    pc = st.pc

    def fn(idx):
        i = idx[0]
        g = lambda k: ip.r.elem(cells[k][0], idx[1:], pc) if cells[k][0] is not None else cells[k][1]
        if i.is_Integer and 0 <= int(i) < len(cells):
            return g(int(i))
        r = g(len(cells) - 1)
        for k in range(len(cells) - 2, -1, -1):
            c = alg.cmp("==", i, sp.Integer(k), ip.p, pc)
            r = ite(c, g(k), r)
        return r

    return ip.arr(st, (sp.Integer(len(sub)),) + tuple(d0), fn, "array", dtype)


def concat(ip, parts, axis, st):
    dl = [ip.dims(st, p) for p in parts]
    if any(d is None for d in dl):
        raise Giveup("concatenate unknown shapes")
    nd = len(dl[0])
    if any(len(d) != nd for d in dl):
        ip.event("shape-mismatch", st, a=dl[0], b=dl[-1], must=((S.Zero, S.One, False),))
        return Opq("bad-shape", tuple(parts))
    if axis < 0:
        axis += nd
    offs = [S.Zero]
    for d in dl:
        offs.append(sp.expand(offs[-1] + d[axis]))
    for d in dl[1:]:
        for k in range(nd):
            if k != axis and sp.expand(d[k] - dl[0][k]) != 0:
                dd = sp.expand(d[k] - dl[0][k])
                if dd.is_number:
                    ip.event("shape-mismatch", st, a=dl[0], b=d, must=((d[k], dl[0][k], False),))
                    return Opq("bad-shape", tuple(parts))
                ip.event("shape-assume", st, a=dl[0], b=d, must=((d[k], dl[0][k], False),))
    dims = list(dl[0])
    dims[axis] = offs[-1]
    vers = [st.heap[p.id].ver for p in parts]
    pc = st.pc

    def fn(idx):
        j = idx[axis]

        def g(i):
            ii = list(idx)
            ii[axis] = sp.expand(j - offs[i])
            return ip.r.elem(vers[i], tuple(ii), pc)

        # decided pieces first
        cands = []
        for i in range(len(parts)):
            c = alg.cmp("<", j, offs[i + 1], ip.p, pc)
            lo = alg.cmp(">=", j, offs[i], ip.p, pc)
            if c is False or lo is False:
                continue
            cands.append((i, c))
            if c is True:
                break
        if not cands:
            return g(len(parts) - 1)
        r = g(cands[-1][0])
        for i, c in reversed(cands[:-1]):
            r = ite(c, g(i), r)
        return r

    dt = None
    for p in parts:
        dt = dt or st.heap[p.id].dtype
    return ip.arr(st, tuple(dims), fn, "cat", dt)


def reduce_(ip, a, axis, st, F):
    """F in sum/prod/any/all over axis (None = all axes)."""
    A = st.heap[a.id]
    if A.dims is None:
        raise Giveup("reduce")
    nd = len(A.dims)
    if axis is None:
        axes = list(range(nd))
    else:
        k = int(axis)
        axes = [k if k >= 0 else nd + k]
    ver, pc = A.ver, st.pc
    kept = [k for k in range(nd) if k not in axes]

    def fold(vals):
        if F == "sum":
            r = S.Zero
            for v in vals:
                r = r + (v if not iscond(v) else ite(v, S.One, S.Zero))
            return r
        if F == "prod":
            r = S.One
            for v in vals:
                r = r * v
            return r
        if F == "any":
            return condexpr(disj(*[tocond(v) for v in vals]))
        return condexpr(conj(*[tocond(v) for v in vals]))

    def fn(idx):
        full = [None] * nd
        for q, k in enumerate(kept):
            full[k] = idx[q]

        def rec(ax):
            if not ax:
                return ip.r.elem(ver, tuple(full), pc)
            k = ax[0]
            d = A.dims[k]
            if d.is_Integer and int(d) <= 8:
                vals = []
                for i in range(int(d)):
                    full[k] = sp.Integer(i)
                    vals.append(rec(ax[1:]))
                full[k] = None
                return fold(vals)
            t = alg.fresh("r")
            ip.p.declare(t, 0, sp.expand(d - 1))
            full[k] = t
            b = rec(ax[1:])
            full[k] = None
            if F == "sum":
                if iscond(b):
                    return alg.binder(alg.COUNT, t, 0, d, b)
                return alg.binder(alg.SUM, t, 0, d, b)
            if F == "prod":
                return alg.binder(alg.PROD, t, 0, d, b)
            c = tocond(b)
            if F == "any":
                return condexpr(alg.binder(alg.EXISTS, t, 0, d, condexpr(c)))
            return condexpr(neg(alg.binder(alg.EXISTS, t, 0, d, condexpr(neg(c)))))

        return rec(axes)

    if not kept:
        v = fn(())
        if F in ("any", "all"):
            v = tocond(v)
            r = ip.p.decide(v, pc) if not isinstance(v, bool) else v
            return v if r is None else r
        return v
    return ip.arr(st, tuple(A.dims[k] for k in kept), fn, F)


def dot(ip, a, b, st):
    if not (ip.isarr(a) and ip.isarr(b)):
        if ip.isarr(a) or ip.isarr(b):
            if ip.scal(a) is not None or ip.scal(b) is not None:
                return ip.ewise(lambda x, y: x * y, [a, b], st, "dot")
        return Opq("dot", (a, b))
    A, B = st.heap[a.id], st.heap[b.id]
    if A.dims is None or B.dims is None or len(A.dims) > 2 or len(B.dims) > 2:
        return Opq("dot", (a, b))
    ka = A.dims[-1]
    kb = B.dims[-2] if len(B.dims) == 2 else B.dims[0]
    if sp.expand(ka - kb) != 0:
        ip.event("shape-mismatch", st, a=A.dims, b=B.dims, must=((ka, kb, False),))
        return Opq("bad-shape", (a, b))
    va, vb, pc = A.ver, B.ver, st.pc
    na, nb = len(A.dims) - 1, len(B.dims) - 1

    def fn(idx):
        i, j = idx[:na], idx[na:]
        f = lambda t: ip.r.elem(va, tuple(i) + (t,), pc) * ip.r.elem(vb, (t,) + tuple(j), pc)
        if ka.is_Integer and int(ka) <= 8:
            return sum((f(sp.Integer(q)) for q in range(int(ka))), S.Zero)
        t = alg.fresh("r")
        ip.p.declare(t, 0, sp.expand(ka - 1))
        return alg.binder(alg.SUM, t, 0, ka, f(t))

    dims = A.dims[:-1] + (B.dims[1:] if len(B.dims) == 2 else ())
    if not dims:
        return fn(())
    return ip.arr(st, dims, fn, "dot")


def reshape(ip, a, shp, st):
    A = st.heap[a.id]
    if A.dims is None:
        raise Giveup("reshape")
    dims = list(shape_arg(ip, shp, st) or [])
    if not dims:
        raise Giveup("reshape")
    size = S.One
    for d in A.dims:
        size *= d
    if any(d == -1 for d in dims):
        rest = S.One
        for d in dims:
            if d != -1:
                rest *= d
        dims = [sp.cancel(size / rest) if d == -1 else d for d in dims]
    new = S.One
    for d in dims:
        new *= d
    if sp.expand(new - size) != 0:
        ip.event("shape-mismatch", st, a=A.dims, b=tuple(dims), must=((size, new, False),))
    ver, pc, od = A.ver, st.pc, A.dims
    # only shapes that differ by unit axes, or flattening
    a1 = [d for d in od if d != 1]
    b1 = [d for d in dims if d != 1]
    if len(a1) == len(b1) and all(sp.expand(x - y) == 0 for x, y in zip(a1, b1)):

        def fn(idx):
            it = iter([i for i, d in zip(idx, dims) if d != 1])
            return ip.r.elem(ver, tuple(S.Zero if d == 1 else next(it) for d in od), pc)

        return ip.arr(st, tuple(dims), fn, "reshape", A.dtype)


    def fn(idx):
        f = S.Zero
        for i, d in zip(idx, dims):
            f = f * d + i
        f = sp.expand(f)
        out = []
        for q in range(len(od) - 1, 0, -1):
            s_ = sp.sympify(od[q])
            if s_ == 1:
                out.append(S.Zero)
                continue
            if f.is_Integer and s_.is_Integer:
                q_, r_ = divmod(int(f), int(s_))
                f, r_ = sp.Integer(q_), sp.Integer(r_)
            else:
                q_, r_ = arr.split_stride(f, s_)
                if not (ip.p.nonneg(r_) and ip.p.nonneg(sp.expand(s_ - 1 - r_))):
                    q_, r_ = Function("i_DIV")(f, s_), Function("i_MOD")(f, s_)
                f = q_
            out.append(r_)
        out.append(f)
        return ip.r.elem(ver, tuple(out[::-1]), pc)

    return ip.arr(st, tuple(dims), fn, "reshape", A.dtype)


def expand_dims(ip, a, axis, st):
    A = st.heap[a.id]
    if A.dims is None:
        raise Giveup("expand_dims")
    nd = len(A.dims) + 1
    ax = int(axis)
    ax = ax + nd if ax < 0 else ax
    dims = A.dims[:ax] + (S.One,) + A.dims[ax:]
    ver, pc = A.ver, st.pc
    return ip.arr(st, dims, lambda idx: ip.r.elem(ver, tuple(idx[:ax]) + tuple(idx[ax + 1 :]), pc), "ed", A.dtype)


def copy_(ip, a, st, dtype=None, name="copy"):
    A = st.heap[a.id]
    ver, pc = A.ver, st.pc
    r = ip.arr(st, A.dims, lambda idx: None, A.name, dtype or A.dtype)
    st.heap[r.id] = ArrC(A.dims, A.ver, A.name, dtype or A.dtype, lib=A.lib)
    return r


def const(ip, dims, v, st, name, dtype=None):
    return ip.arr(st, dims, lambda idx: v, name, dtype)


def axis_of(args, kw, pos):
    if "axis" in kw:
        return kw["axis"]
    if len(args) > pos:
        return args[pos]
    return None


def call(ip, name, args, kw, st, node):
    if name.startswith("np."):
        r = np_(ip, name[3:], args, kw, st, node)
        return opq(name, args, kw) if r is NotImplemented else r
    if name.startswith("math."):
        r = np_(ip, name[5:], args, kw, st, node)
        return opq(name, args, kw) if r is NotImplemented else r
    if name.startswith("builtins."):
        if ip.cxx is not None and ip.curmod() is None and any(isinstance(a, (Ptr, ai_VarRef())) or ip.isarr(a) for a in args):
            r = algo(ip, name[9:], args, st)
            if r is not NotImplemented:
                return r
        r = bi(ip, name[9:], args, kw, st, node)
        if r is NotImplemented and ip.cxx is not None and ip.curmod() is None and any(isinstance(a, (Ptr, ai_VarRef())) or ip.isarr(a) for a in args):
            raise Giveup("call of %s, which is not modelled" % name[9:])
        return opq(name, args, kw) if r is NotImplemented else r
    if name == "typing.cast":
        return args[1]
    if name in ("copy.copy", "copy.deepcopy"):
        a = args[0]
        if ip.isarr(a):
            return copy_(ip, a, st)
        if isinstance(a, Ref) and a.kind == "list":
            return ip.list(st, list(st.heap[a.id].items))
        if isinstance(a, tuple):
            return a
    if name == "sys.exit":
        ip.event("exit", st)
        return DEAD
    if name == "functools.partial" and args:
        return Opq("partial", (args[0], tuple(args[1:]), tuple(sorted(kw.items()))))
    if name == "jax.jit" and args:
        return args[0]
    if name in ("jax.tree_util.tree_map", "jax.tree.map", "jax.tree_map") and len(args) == 2 and not kw:
        return tree_map(ip, args[0], args[1], st, node)
    return opq(name, args, kw)


def tree_map(ip, f, v, st, node=None):
    """Apply f to the leaves; tuples, lists, dictionaries and the registered dictionary classes are inner nodes."""
    if isinstance(v, tuple):
        return tuple(tree_map(ip, f, x, st, node) for x in v)
    if isinstance(v, Ref) and v.kind == "list" and st.heap[v.id].tail is None:
        return ip.list(st, [tree_map(ip, f, x, st, node) for x in list(st.heap[v.id].items)])
    if isinstance(v, Ref) and v.kind == "dict":
        D = st.heap[v.id]
        it = [(k, x) for k, x in D.items.items() if not isinstance(k, tuple)]
        if D.cls is None:
            it = sorted(it, key=lambda kx: str(kx[0]))
        new = [(k, tree_map(ip, f, x, st, node)) for k, x in it]
        if D.cls is None:
            return ip.dict(st, dict(new))
        return ip.construct(D.cls, [tuple(new)], {}, st, node)
    if v is None:
        return None
    if ip.isarr(v) or isexpr(v):
        return ip.call(f, [v], {}, st, node)
    raise Giveup("tree_map over %r" % (v,))


def np_(ip, n, args, kw, st, node):
    if n in EW1 and len(args) == 1:
        return ip.ewise(EW1[n], [args[0]], st, n)
    if n in EW2 and len(args) == 2:
        return ip.ewise(EW2[n], list(args), st, n)
    if n == "size":
        return ip.getattr(args[0], "size", st) if ip.isarr(args[0]) and len(args) == 1 else (ip.dims(st, args[0])[int(args[1])] if ip.isarr(args[0]) else Opq("size", tuple(args)))
    if n == "shape":
        return ip.getattr(args[0], "shape", st)
    if n == "ndim":
        a, k = args[0], 0
        while isinstance(a, tuple) or (isinstance(a, Ref) and a.kind == "list"):
            vs = ip.items(a, st)
            if vs is None:
                return NotImplemented
            k += 1
            if not vs:
                return sp.Integer(k)
            a = vs[0]
        if isexpr(a) or isinstance(a, (bool, int, float)):
            return sp.Integer(k)
        if ip.isarr(a) and st.heap[a.id].dims is not None:
            return sp.Integer(k + len(st.heap[a.id].dims))
        return NotImplemented
    if n in ("ones_like", "zeros_like", "empty_like", "full_like"):
        if not ip.isarr(args[0]):
            if isexpr(args[0]):
                return S.One if n[0] == "o" else S.Zero
            return NotImplemented
        A = st.heap[args[0].id]
        dt = kw.get("dtype") or A.dtype or Opq("dtype", (A.name,))
        v = {"o": S.One, "z": S.Zero}.get(n[0])
        if n == "full_like":
            v = ip.scal(args[1])
        if n == "empty_like":
            nm = "uninit%d" % ip.new()
            return ip.arr(st, A.dims, lambda idx: Function(nm)(*idx), nm, dt)
        return const(ip, A.dims, v, st, n, dt)
    if n in ("zeros", "ones", "empty", "full"):
        shp = args[0] if args else kw.get("shape")
        d = shape_arg(ip, shp, st)
        if d is None:
            return NotImplemented
        pos = 2 if n == "full" else 1
        dt = kw.get("dtype") or (args[pos] if len(args) > pos else None) or "float64"
        if n == "empty":
            nm = "uninit%d" % ip.new()
            return ip.arr(st, d, lambda idx: Function(nm)(*idx), nm, dt)
        v = S.One if n == "ones" else S.Zero
        if n == "full":
            v = ip.scal(args[1] if len(args) > 1 else kw.get("fill_value"))
        return const(ip, d, v, st, n, dt)
    if n == "eye" and len(args) == 1:
        return ip.arr(st, (args[0], args[0]), lambda idx: ite(alg.cmp("==", idx[0], idx[1], ip.p), S.One, S.Zero), "eye")
    if n in ("hstack", "vstack", "concatenate", "column_stack", "concat"):
        vs = ip.items(args[0], st)
        if vs is None:
            return NotImplemented
        parts = [toarr(ip, v, st) for v in vs]
        if any(p is None or ip.dims(st, p) is None for p in parts):
            return NotImplemented
        if n == "column_stack":
            parts = [expand_dims(ip, p, 1, st) if len(ip.dims(st, p)) == 1 else p for p in parts]
            return concat(ip, parts, 1, st)
        if n == "hstack":
            parts = [expand_dims(ip, p, 0, st) if len(ip.dims(st, p)) == 0 else p for p in parts]
            return concat(ip, parts, 0 if len(ip.dims(st, parts[0])) == 1 else 1, st)
        if n == "vstack":
            parts = [expand_dims(ip, p, 0, st) if len(ip.dims(st, p)) == 1 else p for p in parts]
            return concat(ip, parts, 0, st)
        ax = axis_of(args, kw, 1)
        return concat(ip, parts, int(ax) if ax is not None else 0, st)
    if n == "stack":
        vs = ip.items(args[0], st)
        parts = None if vs is None else [toarr(ip, v, st) for v in vs]
        ax = axis_of(args, kw, 1)
        ax = S.Zero if ax is None else ax
        if not parts or any(p is None or ip.dims(st, p) is None for p in parts) or not (isexpr(ax) and ax.is_Integer):
            return NotImplemented
        k = int(ax)
        k = k if k >= 0 else k + len(ip.dims(st, parts[0])) + 1
        return concat(ip, [expand_dims(ip, p, k, st) for p in parts], k, st)
    if n in ("repeat", "tile") and len(args) == 2 and (n == "tile" or axis_of(args, kw, 2) is None):
        a, k = toarr(ip, args[0], st), args[1]
        if isinstance(k, tuple) and len(k) == 1:
            (k,) = k
        if a is None or ip.dims(st, a) is None or not (isexpr(k) and is_int(k)):
            return NotImplemented
        dm = ip.dims(st, a)
        if len(dm) != 1:
            if n == "tile":
                return NotImplemented
            a = reshape(ip, a, (sp.Integer(-1),), st)
            dm = ip.dims(st, a)
        ver, pc, m = st.heap[a.id].ver, st.pc, dm[0]

        def fn(idx):
            i, q = idx[0], (k if n == "repeat" else m)
            if i.is_Integer and q.is_Integer:
                d_, r_ = (sp.Integer(v) for v in divmod(int(i), int(q)))
            elif q == 1:
                d_, r_ = i, S.Zero
            else:
                d_, r_ = Function("i_DIV")(i, q), Function("i_MOD")(i, q)
            return ip.r.elem(ver, (d_ if n == "repeat" else r_,), pc)

        return ip.arr(st, (sp.expand(m * k),), fn, n, st.heap[a.id].dtype)
    if n == "meshgrid" and set(kw) <= {"indexing"}:
        parts = [toarr(ip, a, st) for a in args]
        if parts and all(p is not None and ip.dims(st, p) is not None and len(ip.dims(st, p)) == 1 for p in parts) and kw.get("indexing", "xy") in ("xy", "ij"):
            perm = list(range(len(parts)))
            if kw.get("indexing", "xy") == "xy" and len(parts) > 1:
                perm[0], perm[1] = 1, 0
            dm = tuple(ip.dims(st, parts[q])[0] for q in perm)
            out = []
            for q, p in enumerate(parts):
                out.append(ip.arr(st, dm, lambda idx, q=perm.index(q), ver=st.heap[p.id].ver, pc=st.pc: ip.r.elem(ver, (idx[q],), pc), "grid", st.heap[p.id].dtype))
            return ip.list(st, out)
    if n == "expand_dims" and ip.isarr(args[0]):
        ax = axis_of(args, kw, 1)
        if isexpr(ax) and ax.is_Integer:
            return expand_dims(ip, args[0], ax, st)
        return NotImplemented
    if n == "reshape" and ip.isarr(args[0]) and len(args) == 2 and not kw:
        return reshape(ip, args[0], args[1], st)
    if n == "transpose" and ip.isarr(args[0]) and len(args) == 1:
        return ip.transpose(args[0], st)
    if n == "squeeze" and ip.isarr(args[0]) and len(args) == 1:
        return reshape(ip, args[0], tuple(d for d in ip.dims(st, args[0]) if d != 1), st)
    if n == "delete":
        a, obj = args[0], args[1]
        ax = axis_of(args, kw, 2)
        if not ip.isarr(a):
            return NotImplemented
        A = st.heap[a.id]
        ip.event("np.delete", st, target=a, obj=obj, axis=ax)
        if ax is None or A.dims is None:
            return NotImplemented
        k = int(ax)
        k = k if k >= 0 else k + len(A.dims)
        L = ip.length(obj, st)
        dims = list(A.dims)
        dims[k] = sp.expand(dims[k] - L)
        ver, pc = A.ver, st.pc
        keep = Function("i_keep")
        tag = Symbol("removed%d" % ip.new(), integer=True)
        if not hasattr(ip, "keeps"):
            ip.keeps = {}
        ip.keeps[tag] = (obj, st.heap.get(obj.id) if isinstance(obj, Ref) else None, L, A.dims[k])

        def fn(idx):
            ii = list(idx)
            ii[k] = keep(tag, idx[k])
            return ip.r.elem(ver, tuple(ii), pc)

        return ip.arr(st, tuple(dims), fn, "deleted", A.dtype)
    if n in ("sum", "prod", "any", "all", "amax", "max", "amin", "min"):
        a = args[0]
        if n in ("any", "all") and isinstance(a, bool):
            return a
        if n in ("any", "all") and not ip.isarr(a) and iscond(a):
            return a
        ax = axis_of(args, kw, 1)
        if n in ("amax", "max", "amin", "min"):
            return NotImplemented
        if kw.get("keepdims"):
            return NotImplemented
        a2 = toarr(ip, a, st)
        if a2 is None or ip.dims(st, a2) is None:
            return NotImplemented
        if ip.dims(st, a2) == ():
            return ip.elem(st, a2, ())
        return reduce_(ip, a2, ax, st, n)
    if n in ("array", "asarray", "ascontiguousarray", "asfortranarray"):
        dt = kw.get("dtype") or (args[1] if len(args) > 1 else None)
        a = args[0]
        if ip.isarr(a):
            if n != "array":
                return a if dt is None else copy_(ip, a, st, dt)
            return copy_(ip, a, st, dt)
        r = toarr(ip, a, st, dt)
        return NotImplemented if r is None else r
    if n == "copy" and ip.isarr(args[0]):
        return copy_(ip, args[0], st)
    if n in ("dot", "matmul"):
        return dot(ip, args[0], args[1], st)
    if n == "where" and len(args) == 3:
        return ip.ewise(lambda c, a, b: ite(tocond(c), a, b), list(args), st, "where")
    if n == "where" and len(args) == 1 and ip.isarr(args[0]):
        dm = ip.dims(st, args[0])
        if dm is None or not all(q.is_Integer for q in dm) or len(dm) != 1:
            return NotImplemented
        hit = []
        for q in range(int(dm[0])):
            c = tocond(ip.r.elem(st.heap[args[0].id].ver, (sp.Integer(q),), st.pc))
            c = c if isinstance(c, bool) else ip.p.decide(c, st.pc)
            if c is None:
                return NotImplemented
            if c:
                hit.append(sp.Integer(q))
        return (toarr(ip, ip.list(st, hit), st),) if hit else NotImplemented
    if n in ("argsort", "sort") and len(args) == 1 and not kw:
        vs = ip.items(args[0], st)
        if vs is not None and all(alg.isexpr(v) and v.is_Integer for v in vs):
            o = sorted(range(len(vs)), key=lambda i: int(vs[i]))
            return toarr(ip, tuple(sp.Integer(i) if n == "argsort" else vs[i] for i in o), st)
    if n == "arange":
        a = [ip.scal(x) for x in args]
        if any(x is None for x in a):
            return NotImplemented
        lo, hi, sp_ = (S.Zero, a[0], S.One) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else S.One)
        if sp_ == 1:
            return ip.arr(st, (sp.expand(hi - lo),), lambda idx: sp.expand(lo + idx[0]), "arange", kw.get("dtype"))
        if sp_ == -1:
            return ip.arr(st, (sp.expand(lo - hi),), lambda idx: sp.expand(lo - idx[0]), "arange", kw.get("dtype"))
        return NotImplemented
    if n == "linspace":
        lo, hi = ip.scal(args[0]), ip.scal(args[1])
        k = kw.get("num", args[2] if len(args) > 2 else sp.Integer(50))
        ep = kw.get("endpoint", True)
        if lo is None or hi is None or not isexpr(k):
            return NotImplemented
        den = k - 1 if ep is True else k
        return ip.arr(st, (k,), lambda idx: lo + (hi - lo) * idx[0] / den, "linspace", kw.get("dtype"))
    if n == "split" and ip.isarr(args[0]) and len(args) >= 2:
        ax = axis_of(args, kw, 2)
        dm = ip.dims(st, args[0])
        k = ip.scal(args[1])
        a_ = int(ax) if isexpr(ax) and ax.is_Integer else (0 if ax is None else None)
        if dm is None or a_ is None or not isexpr(k) or not k.is_Integer or not dm[a_].is_Integer or int(dm[a_]) % int(k):
            return NotImplemented
        a_ = a_ if a_ >= 0 else a_ + len(dm)
        w_ = int(dm[a_]) // int(k)
        ver_, pc_ = st.heap[args[0].id].ver, st.pc
        out = []
        for q in range(int(k)):
            d2 = dm[:a_] + (sp.Integer(w_),) + dm[a_ + 1 :]
            out.append(ip.arr(st, d2, lambda idx, q=q: ip.r.elem(ver_, tuple(idx[:a_]) + (idx[a_] + q * w_,) + tuple(idx[a_ + 1 :]), pc_), "split"))
        return ip.list(st, out)
    if n == "meshgrid" or n == "split":
        return NotImplemented
    if n.startswith("random."):
        shp = kw.get("size", kw.get("shape"))
        if shp is None and n.endswith("uniform") and len(args) > 2:
            shp = args[2]
        d = shape_arg(ip, shp, st) if shp is not None else None
        ip.event("random", st, name=n, args=tuple(args), kw=dict(kw))
        if d is None:
            return Opq("np." + n, tuple(args))
        nm = "rand%d" % ip.new()
        return ip.arr(st, d, lambda idx: Function(nm)(*idx), nm)
    if n == "atleast_2d" or n == "broadcast_to":
        return NotImplemented
    if n in ("float64", "float32", "complex128", "int32", "int64", "intp") and len(args) == 1:
        return args[0]
    return NotImplemented


def bi(ip, n, args, kw, st, node):
    if n == "float" and args and isinstance(args[0], str):
        t = args[0].strip().lower()
        if t in ("inf", "infinity", "+inf"):
            return sp.oo
        if t == "-inf":
            return -sp.oo
        try:
            return alg.num(float(t))
        except ValueError:
            return NotImplemented
    if n in ("float", "double") and args:
        a = args[0]
        if isexpr(a) and not iscond(a):
            return a
        if ip.isarr(a) and all(d == 1 for d in (ip.dims(st, a) or ())):
            return ip.elem(st, a, (S.Zero,) * len(ip.dims(st, a)))
        return NotImplemented
    if n == "int" and args:
        a = args[0]
        if isexpr(a) and not iscond(a):
            if alg.is_int(a):
                return a
            if a.is_number and a.is_real:
                q = sp.nsimplify(a)
                return sp.floor(q) if q >= 0 else sp.ceiling(q)
            return Function("i_TRUNC")(a)
        return NotImplemented
    if n == "bool" and args:
        return ip.cond(args[0], st)
    if n == "len":
        return ip.length(args[0], st)
    if n == "range":
        a = [ip.scal(x) for x in args]
        if any(x is None for x in a):
            return NotImplemented
        if len(a) == 1:
            return Opq("range", (S.Zero, a[0], S.One))
        return Opq("range", (a[0], a[1], a[2] if len(a) > 2 else S.One))
    if n == "abs":
        return ip.ewise(nabs, [args[0]], st, "abs")
    if n in ("pow",) and len(args) == 2:
        return ip.ewise(lambda a, b: a**b, list(args), st, "pow")
    if n in ("max", "fmax", "min", "fmin"):
        f = mx if n.endswith("max") else mn
        vs = args if len(args) > 1 else ip.items(args[0], st)
        if vs is None:
            return NotImplemented
        vs = [ip.scal(v) for v in vs]
        if any(v is None for v in vs) or not vs:
            return NotImplemented
        r = vs[0]
        for v in vs[1:]:
            r = f(r, v)
        return r
    if n in ("ceil", "floor", "sin", "cos", "exp", "tanh", "sqrt", "cosh", "sinh", "log", "fabs", "tan") and len(args) == 1:
        return ip.ewise(EW1[n], [args[0]], st, n)
    if n == "sum":
        vs = ip.items(args[0], st)
        if vs is not None:
            r = args[1] if len(args) > 1 else S.Zero
            import ast as _a

            for v in vs:
                r = ip.binop(_a.Add(), r, v, st)
            return r
        o = args[0]
        if isinstance(o, Opq) and hasattr(o, "comp"):
            t, lo, hi, c, v = o.comp
            v = ip.scal(v)
            if v is not None:
                if c is not True:
                    v = ite(c, v, S.Zero)
                return alg.binder(alg.SUM, t, lo, hi, v)
        if ip.isarr(o) and ip.dims(st, o) is not None and len(ip.dims(st, o)) == 1:
            return reduce_(ip, o, None, st, "sum")
        return NotImplemented
    if n in ("all", "any"):
        vs = ip.items(args[0], st)
        if vs is not None:
            cs = [ip.cond(v, st) for v in vs]
            return conj(*cs) if n == "all" else disj(*cs)
        o = args[0]
        if isinstance(o, Opq) and hasattr(o, "comp"):
            t, lo, hi, c, v = o.comp
            b = ip.cond(v, st)
            if n == "any":
                return ip.exi(t, lo, hi, conj(c, b))
            return neg(ip.exi(t, lo, hi, conj(c, neg(b))))
        if ip.isarr(o) and ip.dims(st, o) is not None and len(ip.dims(st, o)) == 1:
            return reduce_(ip, o, None, st, n)
        return NotImplemented
    if n == "enumerate":
        vs = ip.items(args[0], st)
        if vs is not None:
            s0 = args[1] if len(args) > 1 else kw.get("start", S.Zero)
            return tuple((s0 + i, v) for i, v in enumerate(vs))
        return Opq("enumerate", (args[0],))
    if n == "zip":
        vss = [ip.items(a, st) for a in args]
        if all(v is not None for v in vss):
            return tuple(tuple(x) for x in zip(*vss))
        return Opq("zip", tuple(args))
    if n == "reversed":
        vs = ip.items(args[0], st)
        if vs is not None:
            return tuple(reversed(vs))
        return Opq("reversed", (args[0],))
    if n in ("tuple", "list"):
        if not args:
            return () if n == "tuple" else ip.list(st, [])
        a = args[0]
        if isinstance(a, Opq) and a.op == "range":
            k = sp.expand(a.args[1] - a.args[0])
            if all(isexpr(q) and q.is_Integer for q in a.args) and a.args[2] != 0:
                vs = [sp.Integer(i) for i in range(*[int(q) for q in a.args])]
                return tuple(vs) if n == "tuple" else ip.list(st, vs)
            if k.is_Integer and a.args[2] == 1:
                vs = [a.args[0] + i for i in range(max(0, int(k)))]
                return tuple(vs) if n == "tuple" else ip.list(st, vs)
            return Opq(n, (a,))
        vs = ip.items(a, st)
        if vs is not None:
            return tuple(vs) if n == "tuple" else ip.list(st, vs)
        return Opq(n, (a,))
    if n == "dict":
        d = {}
        if args and isinstance(args[0], Ref) and args[0].kind == "dict":
            d.update(st.heap[args[0].id].items)
        elif args:
            vs = ip.items(args[0], st)
            if vs is None:
                return NotImplemented
            for v in vs:
                k, x = ip.items(v, st)
                d[ip.dkey(k)] = x
        d.update(kw)
        return ip.dict(st, d)
    if n == "str" and len(args) == 1 and not kw:
        if isinstance(args[0], str):
            return args[0]
        if isexpr(args[0]) and args[0].is_Integer and ip.curmod() is not None:
            return str(args[0])
    if n == "isinstance":
        return isinst(ip, args[0], args[1], st)
    if n == "print" or n == "printf":
        ip.event("print", st)
        return None
    if n == "exit" or n == "abort":
        ip.event("exit", st)
        return DEAD
    if n == "malloc":
        uid = ip.new()
        nm = "malloc%d" % uid
        ref = ip.arr(st, None, lambda idx, nm=nm: Function("uninit_" + nm)(*idx), nm, alloc=("malloc", args[0], ip.line))
        ip.event("alloc", st, target=ref, size=args[0], how="malloc")
        return Ptr(ref, S.Zero)
    if n == "free":
        ip.event("free", st, target=args[0], how="free")
        return None
    if n in ("memcpy", "memmove", "memset"):
        return mem(ip, n, args, st)
    if n == "setattr" and isinstance(args[1], str):
        ip.setattr(args[0], args[1], args[2], st)
        return None
    if n == "getattr" and isinstance(args[1], str):
        return ip.getattr(args[0], args[1], st)
    if n == "type":
        if isinstance(args[0], Ref) and args[0].kind in ("obj", "dict") and st.heap[args[0].id].cls is not None:
            return st.heap[args[0].id].cls
        if ip.isarr(args[0]):
            return ModV("np.ndarray", st.heap[args[0].id].lib)
        if isinstance(args[0], str):
            return ModV("builtins.str")
        if isinstance(args[0], tuple):
            return ModV("builtins.tuple")
        if isinstance(args[0], Ref) and args[0].kind in ("list", "dict"):
            return ModV("builtins." + args[0].kind)
        return NotImplemented
    if n == "slice":
        a = list(args)
        a = [None] + a if len(a) == 1 else a
        return Opq("slice", tuple(a + [None] * (3 - len(a))))
    if n == "sorted" and args and set(kw) <= {"reverse"}:
        vs = ip.items(args[0], st)
        if vs is not None and all(isexpr(x) and x.is_number for x in vs) and kw.get("reverse", False) in (True, False):
            return ip.list(st, sorted(vs, reverse=bool(kw.get("reverse", False))))
        if vs is not None and all(isinstance(x, str) for x in vs) and kw.get("reverse", False) in (True, False):
            return ip.list(st, sorted(vs, reverse=bool(kw.get("reverse", False))))
        return NotImplemented
    if n == "callable":
        return True if isinstance(args[0], (FnV, ClsV)) else NotImplemented
    if n in ("ValueError", "TypeError", "RuntimeError", "Exception", "KeyError", "IndexError"):
        return Opq(n, tuple(args))
    return NotImplemented


def ai_VarRef():
    from ai import VarRef

    return VarRef


def algo(ip, n, args, st):
    """<algorithm> over pointers."""
    from arr import St

    def ptr(v):
        if isinstance(v, Ptr):
            return v.ref, v.off
        if ip.isarr(v):
            return v, S.Zero
        raise Giveup("%s over %r" % (n, v))

    if n in ("copy", "fill") and len(args) == 3:
        (a, ao), (b, bo) = ptr(args[0]), ptr(args[1])
        if a != b:
            raise Giveup("%s over two arrays" % n)
        cnt = sp.expand(bo - ao)
    elif n in ("copy_n", "fill_n") and len(args) == 3:
        a, ao = ptr(args[0])
        cnt = ip.scal(args[1])
    else:
        return NotImplemented
    if cnt is None:
        raise Giveup("%s of an unknown number of values" % n)
    if n.startswith("copy"):
        dst, doff = ptr(args[2])
        src, soff = a, ao
    else:
        dst, doff = a, ao
    t = alg.fresh("w")
    D = st.heap[dst.id]
    ip.p.declare(t, 0, sp.expand(cnt - 1))
    if n.startswith("copy"):
        ver = st.heap[src.id].ver
        ip.event("copy-read", st, target=src, idx=(sp.expand(soff + t),), loops=[(t, S.Zero, cnt)])
        val = ip.r.elem(ver, (sp.expand(soff + t),), st.pc)
    else:
        val = ip.scal(args[2] if n == "fill_n" or n == "fill" else None)
        if val is None:
            raise Giveup("fill with %r" % (args[2],))
    st.heap[dst.id] = D.with_ver(St(D.ver, [(t, S.Zero, cnt)], True, (sp.expand(doff + t),), val, ip.line))
    ip.event("store", st, target=dst, idx=(sp.expand(doff + t),), value=val, loops=[(t, S.Zero, cnt)], elem=None)
    return Ptr(dst, sp.expand(doff + cnt))


def mem(ip, n, args, st):
    def ptr(v):
        if isinstance(v, Ptr):
            return v.ref, v.off
        if ip.isarr(v):
            return v, S.Zero
        return None, None

    dst, doff = ptr(args[0])
    if dst is None:
        raise Giveup("memcpy target")
    D = st.heap[dst.id]
    size = ip.scal(args[2])
    # bytes -> elements
    szs = [s for s in size.free_symbols if s.name.startswith("sizeof_")]
    if len(szs) == 1:
        cnt = sp.cancel(size / szs[0])
        if cnt.has(szs[0]):
            raise Giveup("memcpy size")
        et = szs[0].name
        if et == "sizeof_double" and D.alloc and len(D.alloc) > 3 and D.alloc[3] == "int":
            cnt = 2 * cnt
    else:
        raise Giveup("memcpy size")
    t = alg.fresh("w")
    from arr import St

    if n == "memset":
        v = ip.scal(args[1])
        if v != 0:
            raise Giveup("memset")
        val = S.Zero
    else:
        src, soff = ptr(args[1])
        if src is None:
            raise Giveup("memcpy source")
        ver = st.heap[src.id].ver
        ip.p.declare(t, 0, sp.expand(cnt - 1))
        ip.event("copy-read", st, target=src, idx=(sp.expand(soff + t),), loops=[(t, S.Zero, cnt)])
        val = ip.r.elem(ver, (sp.expand(soff + t),), st.pc)
        # content of a recurrence stays symbolic through its read function
    st.heap[dst.id] = D.with_ver(St(D.ver, [(t, S.Zero, cnt)], True, (sp.expand(doff + t),), val, ip.line))
    ip.event("store", st, target=dst, idx=(sp.expand(doff + t),), value=val, loops=[(t, S.Zero, cnt)], elem=et)
    return args[0]


def isinst(ip, v, c, st):
    cs = ip.items(c, st) if not isinstance(c, (ModV, ClsV)) else [c]
    if cs is None:
        cs = [c]
    res = False
    for k in cs:
        nm = k.name if isinstance(k, (ModV, ClsV)) else None
        r = None
        if nm in ("builtins.int", "np.integer"):
            if isexpr(v) and not iscond(v):
                r = bool(alg.is_int(v)) if getattr(v, "is_integer", None) is not None else None
            elif isinstance(v, bool):
                r = True
            elif isinstance(v, (str, tuple, Ref)) or v is None:
                r = False
        elif nm == "builtins.float":
            if isinstance(v, (str, tuple, Ref, bool)) or v is None:
                r = False
            elif isexpr(v) and v.is_integer:
                r = False
        elif nm == "builtins.str":
            if isinstance(v, str):
                r = True
            elif isexpr(v) or isinstance(v, (tuple, Ref, bool, FnV)) or v is None:
                r = False
        elif nm == "builtins.tuple":
            if isinstance(v, tuple):
                r = True
            elif isexpr(v) or isinstance(v, (str, Ref, bool, FnV)) or v is None:
                r = False
        elif nm == "builtins.list":
            if isinstance(v, Ref) and v.kind == "list":
                r = True
            elif isexpr(v) or isinstance(v, (str, tuple, Ref, bool, FnV)) or v is None:
                r = False
        elif nm == "builtins.dict":
            if isinstance(v, Ref) and v.kind == "dict":
                r = True
            elif isexpr(v) or isinstance(v, (str, tuple, Ref, bool, FnV)) or v is None:
                r = False
        elif nm == "np.ndarray":
            if ip.isarr(v):
                lib = st.heap[v.id].lib
                r = None if lib is None or k.lib is None else lib == k.lib
            elif isexpr(v) or isinstance(v, (str, tuple, Ref, bool, FnV)) or v is None:
                r = False
        elif isinstance(k, ClsV) and isinstance(v, Ref) and v.kind in ("obj", "dict"):
            oc = st.heap[v.id].cls
            if isinstance(oc, ClsV):
                r = any(nn.name == k.name for nn, _ in ip.mro(oc)) or oc.name == k.name
            else:
                r = False
        elif isinstance(k, ClsV) and (isinstance(v, (str, tuple, bool, FnV)) or v is None or isexpr(v) or (isinstance(v, Ref) and v.kind in ("arr", "list"))):
            r = False
        if r is None:
            r = alg.TRUTH(ip.scal(Opq("isinstance", (v, k))))
        res = disj(res, r)
    return res


def method(ip, b, args, kw, st, node):
    v, n = b.v, b.name
    if ip.isarr(v):
        A = st.heap[v.id]
        if n == "reshape":
            if kw:
                raise Giveup("reshape order")
            return reshape(ip, v, args[0] if len(args) == 1 else tuple(args), st)
        if n in ("sum", "prod", "any", "all"):
            return np_(ip, n, [v] + list(args), kw, st, node)
        if n == "copy":
            return copy_(ip, v, st)
        if n == "block_until_ready":
            return v
        if n == "astype":
            return copy_(ip, v, st, args[0])
        if n in ("transpose",) and not args:
            return ip.transpose(v, st)
        if n == "flatten" or n == "ravel":
            if A.dims is not None and len(A.dims) == 1:
                return copy_(ip, v, st)
            if A.dims is not None and len([d for d in A.dims if d != 1]) == 1:
                return reshape(ip, v, ([d for d in A.dims if d != 1][0],), st)
            if A.dims is not None and not [d for d in A.dims if d != 1]:
                return reshape(ip, v, (S.One,), st)
            if A.dims is not None and not args and not kw:
                sz = S.One
                for d in A.dims:
                    sz = sz * d
                return reshape(ip, v, (sp.expand(sz),), st)
        if n == "dot":
            return dot(ip, v, args[0], st)
        if n == "tolist":
            vs = ip.items(v, st)
            if vs is not None:
                return ip.list(st, vs)
        if n == "item" and not args:
            return ip.elem(st, v, (S.Zero,) * len(A.dims))
        if n in ("fill", "sort", "resize"):
            ip.event("inplace", st, target=v, value=None, op=n)
        return opq("meth." + n, (v,) + tuple(args), kw)
    if isinstance(v, Ref) and v.kind == "list":
        L = st.heap[v.id]
        if n == "append":
            ip.event("inplace", st, target=v, value=args[0], op="append")
            L.items = L.items + [args[0]]
            return None
        if n == "pop":
            ip.event("inplace", st, target=v, value=None, op="pop")
            if L.tail is None and L.items:
                k = args[0] if args else sp.Integer(-1)
                if isexpr(k) and k.is_Integer and -len(L.items) <= int(k) < len(L.items):
                    it = list(L.items)
                    r = it.pop(int(k))
                    L.items = it
                    return r
            return opq("meth.pop", (v,) + tuple(args), kw)
        if n in ("insert", "extend", "remove", "reverse", "sort", "clear"):
            ip.event("inplace", st, target=v, value=args[-1] if args else None, op=n)
            if L.tail is None:
                it = list(L.items)
                if n == "insert" and isexpr(args[0]) and args[0].is_Integer:
                    it.insert(int(args[0]), args[1])
                    L.items = it
                    return None
                if n == "extend":
                    vs = ip.items(args[0], st)
                    if vs is not None:
                        L.items = it + vs
                        return None
                if n == "reverse":
                    L.items = it[::-1]
                    return None
                if n == "clear":
                    L.items = []
                    return None
                if n == "sort" and not kw and all(isexpr(x) and x.is_number for x in it):
                    L.items = sorted(it)
                    return None
            L.tail = Opq("mut", (n, L.tail) + tuple(args))
            return None
        if n == "copy":
            r = ip.list(st, list(L.items))
            st.heap[r.id].tail = L.tail
            return r
        if n == "index" and L.tail is None:
            for i, x in enumerate(L.items):
                if ai.veq(x, args[0]):
                    return sp.Integer(i)
        return opq("meth." + n, (v,) + tuple(args), kw)
    if isinstance(v, Ref) and v.kind == "dict":
        D = st.heap[v.id]
        ks = [k for k in D.items if not isinstance(k, tuple)]
        un = lambda k: sp.Integer(k) if isinstance(k, int) else k
        if n == "keys":
            return tuple(un(k) for k in ks)
        if n == "values":
            return tuple(D.items[k] for k in ks)
        if n == "items":
            return tuple((un(k), D.items[k]) for k in ks)
        if n == "get":
            kk = ip.dkey(args[0])
            if kk in D.items:
                return D.items[kk]
            return args[1] if len(args) > 1 else None
        if n == "pop":
            kk = ip.dkey(args[0])
            ip.event("inplace", st, target=v, value=None, op="pop")
            if kk in D.items:
                return D.items.pop(kk)
            if len(args) > 1:
                return args[1]
        if n in ("update", "__init__"):
            if n == "update":
                ip.event("inplace", st, target=v, value=None, op="update")
            for a in args:
                if isinstance(a, Ref) and a.kind == "dict":
                    D.items.update({k: x for k, x in st.heap[a.id].items.items() if not isinstance(k, tuple)})
                    continue
                vs = ip.items(a, st)
                prs = [ip.items(x, st) for x in vs] if vs is not None else [None]
                if any(x is None or len(x) != 2 for x in prs):
                    raise Giveup("dictionary content")
                for k, x in prs:
                    D.items[ip.dkey(k)] = x
            D.items.update(kw)
            return None
        if n == "__setitem__":
            D.items[ip.dkey(args[0])] = args[1]
            ip.event("setitem", st, target=v, key=args[0], value=args[1])
            return None
        if n == "__getitem__":
            return D.items[ip.dkey(args[0])] if ip.dkey(args[0]) in D.items else Opq("item", (v, args[0]))
        if n == "copy":
            return ip.dict(st, D.items, D.cls)
        return opq("meth." + n, (v,) + tuple(args), kw)
    if isinstance(v, str) and n in ("lower", "upper", "strip", "format", "replace", "split", "join", "startswith", "endswith"):
        if all(isinstance(a, str) for a in args) and not kw and n != "format":
            r = getattr(v, n)(*args)
            return ip.list(st, r) if isinstance(r, list) else r
        if n == "join" and len(args) == 1:
            vs = ip.items(args[0], st)
            if vs is not None and all(isinstance(x, str) for x in vs):
                return v.join(vs)
        return opq("str." + n, (v,) + tuple(args), kw)
    if isinstance(v, tuple) and n == "index":
        for i, x in enumerate(v):
            if ai.veq(x, args[0]):
                return sp.Integer(i)
    ip.event("call-opaque", st, callee=b, args=args, kw=kw)
    return opq("meth." + n, (v,) + tuple(args), kw)
