"""Abstract interpreter over the Python-`ast` IR (Python sources and lowered C++).

Domain: sympy normal forms for numbers, quantified store chains for arrays, gated values (ITE) at
joins, closed forms (induction, sums, products, counts, first-match searches) or recurrences for
loops.  Nothing is executed and no solver is called; conditions that the interval domain cannot
decide make both sides flow into a gated value.
"""
import ast
import builtins
import copy
import os
import sympy as sp
from sympy import S, Function, Symbol
import alg
from alg import ite, conj, disj, neg, iscond, tocond, condexpr, isexpr, num, is_int
from arr import Init, St, Lp, IteVer, Phi, Hav, Reader, solve, simp, subst, Sys, REG


class Ref:
    __slots__ = ("kind", "id")

    def __init__(self, kind, id):
        self.kind, self.id = kind, id

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.id)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(self.id)


class Ptr:
    def __init__(self, ref, off, ctype=None):
        self.ref, self.off, self.ctype = ref, off, ctype

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.ref == self.ref and sp.expand(o.off - self.off) == 0

    def __hash__(self):
        return hash(self.ref)

    def __repr__(self):
        return "Ptr(%r,%s)" % (self.ref, self.off)


class VarRef:
    """Address of a variable."""

    def __init__(self, envid, name):
        self.envid, self.name = envid, name


class FnV:
    def __init__(self, node, envid, mod, selfv=None, name=None, cls=None):
        self.node, self.envid, self.mod, self.selfv, self.name, self.cls = node, envid, mod, selfv, name, cls

    def __repr__(self):
        return "<fn %s>" % (self.name,)


class ClsV:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.name == self.name and o.mod is self.mod

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<class %s>" % self.name


class CxxCls:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, CxxCls) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<cxx %s>" % self.name


class ModV:
    def __init__(self, name, lib=None):
        self.name = name
        self.lib = lib

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<mod %s>" % self.name


class Opq:
    """Uninterpreted structured value."""

    def __init__(self, op, args=()):
        self.op, self.args = op, tuple(args)
        self._k = None

    def key(self):
        if self._k is None:
            self._k = "%s(%s)" % (self.op, ",".join(vkey(a) for a in self.args))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Opq) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.key()


class IteV:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "IteV(%s,%r,%r)" % (self.c, self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, IteV) and vkey(o) == vkey(self)

    def __hash__(self):
        return hash(vkey(self))


class Undef:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Undef(%s)" % self.name

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7


class Bound:
    """Attribute of a value that is looked up by name only (method of an array, str, ...)."""

    def __init__(self, v, name):
        self.v, self.name = v, name

    def __repr__(self):
        return "%r.%s" % (self.v, self.name)


class Ext:
    """Value of a domain supplied by a rule. Each method returns NotImplemented where it has no answer."""

    def binop(self, ip, op, other, refl, st):
        return NotImplemented

    def unary(self, ip, op, st):
        return NotImplemented

    def attr(self, ip, name, st):
        return NotImplemented

    def method(self, ip, name, args, kw, st):
        return NotImplemented

    def item(self, ip, k, st):
        return NotImplemented

    def call(self, ip, args, kw, st):
        return NotImplemented

    def iter(self):
        return None

    def compare(self, ip, op, other, refl, st):
        return NotImplemented

    def size(self, ip, st):
        return None

    def has(self, ip, v, st):
        return None

    def truth(self, ip, st):
        return None


class Star:
    def __init__(self, v):
        self.v = v


def vkey(v):
    if isinstance(v, Opq):
        return v.key()
    if isinstance(v, (tuple, list)):
        return "(" + ",".join(vkey(x) for x in v) + ")"
    if isinstance(v, IteV):
        return "ite[%s,%s,%s]" % (v.c, vkey(v.a), vkey(v.b))
    if isinstance(v, FnV):
        return "fn:%s:%s" % (v.name, getattr(v.node, "lineno", 0))
    if isinstance(v, Bound):
        return vkey(v.v) + "." + v.name
    if isexpr(v):
        return sp.srepr(v) if False else str(v)
    return repr(v)


def veq(a, b):
    if a is b:
        return True
    if isexpr(a) and isexpr(b) and not iscond(a) and not iscond(b):
        return sp.expand(a - b) == 0
    if type(a) != type(b) and not (isexpr(a) and isexpr(b)):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


class ArrC:
    __slots__ = ("dims", "ver", "name", "dtype", "alloc", "lib")

    def __init__(self, dims, ver, name, dtype=None, alloc=None, lib=None):
        self.dims, self.ver, self.name, self.dtype, self.alloc, self.lib = dims, ver, name, dtype, alloc, lib

    def with_ver(self, v):
        return ArrC(self.dims, v, self.name, self.dtype, self.alloc, self.lib)


class ListC:
    __slots__ = ("items", "tail")

    def __init__(self, items):
        self.items = list(items)
        self.tail = None


class DictC:
    __slots__ = ("items", "cls")

    def __init__(self, items, cls=None):
        self.items = dict(items)
        self.cls = cls


class ObjC:
    __slots__ = ("cls", "attrs", "open")

    def __init__(self, cls, attrs, open=None):
        self.cls, self.attrs, self.open = cls, dict(attrs), open


class State:
    __slots__ = ("envs", "heap", "pc")

    def __init__(self):
        self.envs, self.heap, self.pc = {}, {}, ()

    def fork(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        for k, v in s.heap.items():
            if isinstance(v, ListC):
                n = ListC(v.items)
                n.tail = v.tail
                s.heap[k] = n
            elif isinstance(v, DictC):
                s.heap[k] = DictC(v.items, v.cls)
            elif isinstance(v, ObjC):
                s.heap[k] = ObjC(v.cls, v.attrs, v.open)
        s.pc = self.pc
        return s


class Flow:
    def __init__(self, normal=None):
        self.normal = normal
        self.rets = []  # (pc, value, state)
        self.brk = []  # (pc, state)
        self.cont = []


class Giveup(Exception):
    """The construct is outside the analysed fragment."""


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self._scan(tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = self.name.split(".")
                    pk = pk[: len(pk) - s.level] if not self.path.endswith("__init__.py") else pk[: len(pk) - s.level + 1]
                    base = ".".join(pk + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)
                self._scan(s.orelse)


NPALIAS = ("jax.numpy", "numpy", "autograd.numpy")


class Interp:
    serial = 0

    def __init__(self, modules=None, cxx=None, prover=None):
        self.modules = modules or {}
        self.cxx = cxx
        self.p = prover or alg.Prover()
        self.r = Reader(self.p)
        self.events = []
        self.track = False  # record reads through pointers
        self.unroll_limit = 4  # loops over at most this many known values are unrolled
        self.filtered = False  # comprehensions over known values with symbolic conditions keep (condition, value) pairs
        self.uid = 0
        self.depth = 0
        self.stack = []
        self.call_hook = None  # (interp, fv/dotted, args, kwargs, state, node) -> NotImplemented or value
        self.loop_hook = None
        self.undef_hook = None
        self.rec_hook = None
        self.line = 0
        self.notes = []
        self.maxdepth = 60
        self.stats = {"functions": set(), "loops": 0, "stores": 0, "calls": 0}
        self.clsattr_cache = {}

    # ------------------------------------------------------------------ small helpers
    def new(self):
        Interp.serial += 1
        return Interp.serial

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def event(self, kind, st, **kw):
        self.events.append(dict(kind=kind, pc=st.pc, line=self.line, fn=self.stack[-1] if self.stack else None, **kw))

    def newenv(self, st, d=None, parent=None):
        i = self.new()
        st.envs[i] = dict(d or {})
        st.envs[i]["__parent__"] = parent
        return i

    def arr(self, st, dims, fn, name="t", dtype=None, alloc=None):
        i = self.new()
        st.heap[i] = ArrC(None if dims is None else tuple(sp.sympify(d) for d in dims), Init(fn, name), name, dtype, alloc)
        return Ref("arr", i)

    def list(self, st, items):
        i = self.new()
        st.heap[i] = ListC(items)
        return Ref("list", i)

    def dict(self, st, items, cls=None):
        i = self.new()
        st.heap[i] = DictC(items, cls)
        return Ref("dict", i)

    def obj(self, st, cls, attrs=None, open=None):
        i = self.new()
        st.heap[i] = ObjC(cls, attrs or {}, open)
        return Ref("obj", i)

    def isarr(self, v):
        return isinstance(v, Ref) and v.kind == "arr"

    def dims(self, st, v):
        if self.isarr(v):
            return st.heap[v.id].dims
        return ()

    def elem(self, st, v, idx):
        """Element of an array value at a full index tuple, or the scalar itself."""
        if self.isarr(v):
            return self.r.elem(st.heap[v.id].ver, idx, st.pc)
        return v

    # symbolic scalar for an opaque value
    _opqsym = {}
    _symopq = {}

    def scal(self, v):
        """Value as a sympy expression if it can act as a number."""
        if v is True:
            return S.One
        if v is False:
            return S.Zero
        if isinstance(v, bool):
            return sp.Integer(int(v))
        if isinstance(v, (int, float, complex)):
            return num(v)
        if isexpr(v):
            return v
        if isinstance(v, Opq):
            k = v.key()
            if k not in Interp._opqsym:
                s = Symbol("opq:" + k)
                Interp._opqsym[k] = s
                Interp._symopq[s] = v
            return Interp._opqsym[k]
        if isinstance(v, IteV):
            a, b = self.scal(v.a), self.scal(v.b)
            if a is not None and b is not None:
                return ite(v.c, a, b)
        return None

    def unscal(self, e):
        if isinstance(e, Symbol) and e in Interp._symopq:
            return Interp._symopq[e]
        return e

    # ------------------------------------------------------------------ conditions
    def cond(self, v, st):
        """Truth of a value: True / False / condition expression."""
        if v is True or v is False or v is None:
            return bool(v)
        if isinstance(v, (str, tuple)):
            return bool(v)
        if isexpr(v):
            c = tocond(v)
            r = self.p.decide(c, st.pc) if not isinstance(c, bool) else c
            return c if r is None else r
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ListC):
                if o.tail is None:
                    return bool(o.items)
                return alg.TRUTH(self.scal(Opq("nonempty", (v.id,))))
            if isinstance(o, DictC):
                return bool(o.items)
            if isinstance(o, ArrC):
                return alg.TRUTH(Symbol("truth_arr_%d" % v.id))
            return True
        if isinstance(v, (FnV, ClsV, ModV, Bound)):
            return True
        if isinstance(v, Ext):
            r = v.truth(self, st)
            if r is not None:
                return r
        if isinstance(v, IteV):
            a, b = self.cond(v.a, st), self.cond(v.b, st)
            return disj(conj(v.c, a), conj(neg(v.c), b))
        if isinstance(v, Opq):
            c = alg.TRUTH(self.scal(v))
            r = self.p.decide(c, st.pc)
            return c if r is None else r
        if isinstance(v, Undef):
            self.event("use-undef", st, name=v.name)
            return alg.TRUTH(Symbol("undef_" + v.name))
        return alg.TRUTH(Symbol("cond_%d" % self.new()))

    def gate(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if veq(a, b):
            return a
        r = None
        if (isexpr(a) or isinstance(a, bool)) and (isexpr(b) or isinstance(b, bool)):
            if isinstance(a, bool) and isinstance(b, bool) or (iscond(a) and iscond(b)):
                return disj(conj(c, a), conj(neg(c), b))
            a2 = self.scal(a) if isinstance(a, bool) else a
            b2 = self.scal(b) if isinstance(b, bool) else b
            r = ite(c, a2, b2)
        if r is not None:
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.gate(c, x, y) for x, y in zip(a, b))
        return IteV(c, a, b)

    # ------------------------------------------------------------------ state merge
    def merge(self, c, s1, s2, pc):
        """State equal to s1 where c, else s2."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        s = State()
        s.pc = pc
        for eid in set(s1.envs) | set(s2.envs):
            e1, e2 = s1.envs.get(eid), s2.envs.get(eid)
            if e1 is None or e2 is None:
                s.envs[eid] = dict(e1 or e2)
                continue
            d = {}
            for n in set(e1) | set(e2):
                if n == "__parent__":
                    d[n] = e1.get(n)
                    continue
                a = e1.get(n, Undef(n))
                b = e2.get(n, Undef(n))
                d[n] = a if a is b else self.gate(c, a, b)
            s.envs[eid] = d
        for hid in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(hid), s2.heap.get(hid)
            if a is None or b is None:
                s.heap[hid] = a or b
                continue
            if a is b:
                s.heap[hid] = a
            elif isinstance(a, ArrC):
                v = a.ver if a.ver is b.ver else IteVer(c, a.ver, b.ver)
                s.heap[hid] = a.with_ver(v)
            elif isinstance(a, ObjC):
                at = {}
                for n in set(a.attrs) | set(b.attrs):
                    x, y = a.attrs.get(n, Undef(n)), b.attrs.get(n, Undef(n))
                    at[n] = x if x is y else self.gate(c, x, y)
                s.heap[hid] = ObjC(a.cls, at, a.open)
            elif isinstance(a, ListC):
                if len(a.items) == len(b.items) and a.tail is b.tail:
                    n = ListC([self.gate(c, x, y) for x, y in zip(a.items, b.items)])
                    n.tail = a.tail
                    s.heap[hid] = n
                else:
                    n = ListC(a.items)
                    n.tail = Opq("gated-list", (c, tuple(a.items), tuple(b.items), a.tail, b.tail))
                    s.heap[hid] = n
            elif isinstance(a, DictC):
                it = {}
                for k in list(a.items) + [k for k in b.items if k not in a.items]:
                    x, y = a.items.get(k, Undef(str(k))), b.items.get(k, Undef(str(k)))
                    it[k] = x if x is y else self.gate(c, x, y)
                s.heap[hid] = DictC(it, a.cls)
            else:
                s.heap[hid] = a
        return s

    def guard(self, pc, base):
        """Conjunction of the literals of pc beyond the prefix base."""
        n = 0
        while n < len(base) and n < len(pc) and base[n] == pc[n]:
            n += 1
        return conj(*pc[n:]) if pc[n:] else True

    def merge_all(self, items, base):
        """items: list of (pc, state); returns one merged state with pc base."""
        items = [i for i in items if i[1] is not None]
        if not items:
            return None
        s = items[-1][1]
        for pc, st in reversed(items[:-1]):
            s = self.merge(self.guard(pc, base), st, s, base)
        s.pc = base
        return s

    def merge_vals(self, items, base):
        """items: (pc, value, state)."""
        v, s = items[-1][1], items[-1][2]
        for pc, val, st in reversed(items[:-1]):
            g = self.guard(pc, base)
            v = self.gate(g, val, v)
            s = self.merge(g, st, s, base)
        s.pc = base
        return v, s

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, env):
        f = Flow(st)
        for s in stmts:
            if f.normal is None:
                break
            g = self.stmt(s, f.normal, env)
            f.normal = g.normal
            f.rets += g.rets
            f.brk += g.brk
            f.cont += g.cont
        return f

    def stmt(self, s, st, env):
        self.line = getattr(s, "lineno", self.line)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Giveup("statement %s at line %s" % (type(s).__name__, self.line))
        return m(s, st, env)

    def s_Pass(self, s, st, env):
        return Flow(st)

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, s, st, env):
        for a in s.names:
            if a.asname:
                st.envs[env][a.asname] = self.module_value(a.name)
            else:
                st.envs[env][a.name.split(".")[0]] = self.module_value(a.name.split(".")[0])
        return Flow(st)

    def s_ImportFrom(self, s, st, env):
        base = s.module or ""
        m = self.curmod()
        if s.level and m is not None:
            pk = m.name.split(".")
            pk = pk[: len(pk) - s.level] if not m.path.endswith("__init__.py") else pk[: len(pk) - s.level + 1]
            base = ".".join(pk + ([s.module] if s.module else []))
        for a in s.names:
            st.envs[env][a.asname or a.name] = self.module_value(base + "." + a.name)
        return Flow(st)

    def s_Expr(self, s, st, env):
        if isinstance(s.value, ast.Constant):
            return Flow(st)
        v = self.ev(s.value, st, env)
        if isinstance(v, _Dead):
            return Flow(None)
        return Flow(st)

    def s_Assert(self, s, st, env):
        return Flow(st)

    def s_Delete(self, s, st, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.envs[env].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, env)
                k = self.ev(t.slice, st, env)
                if isinstance(o, Ref) and o.kind == "dict":
                    st.heap[o.id].items.pop(k, None)
                self.event("del", st, target=o, key=k)
        return Flow(st)

    def s_Return(self, s, st, env):
        v = self.ev(s.value, st, env) if s.value is not None else None
        f = Flow(None)
        if not isinstance(v, _Dead):
            f.rets.append((st.pc, v, st))
        return f

    def s_Raise(self, s, st, env):
        name = None
        if s.exc is not None:
            try:
                e = s.exc
                name = ast.unparse(e.func if isinstance(e, ast.Call) else e)
                if isinstance(e, ast.Call):
                    for a in e.args:
                        self.ev(a, st, env)
            except Giveup:
                pass
        self.event("raise", st, name=name)
        return Flow(None)

    def s_Break(self, s, st, env):
        f = Flow(None)
        f.brk.append((st.pc, st))
        return f

    def s_Continue(self, s, st, env):
        f = Flow(None)
        f.cont.append((st.pc, st))
        return f

    def s_FunctionDef(self, s, st, env):
        fv = FnV(s, env, self.curmod(), name=s.name)
        fv.defaults = [self.ev(d, st, env) for d in s.args.defaults]
        fv.kwdefaults = [self.ev(d, st, env) if d is not None else None for d in s.args.kw_defaults]
        v = fv
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, env)
            v = self.call(dv, [v], {}, st, d)
        st.envs[env][s.name] = v
        return Flow(st)

    def s_ClassDef(self, s, st, env):
        c = ClsV(s.name, self.curmod())
        c.local = s
        c.envid = env
        st.envs[env][s.name] = c
        return Flow(st)

    def s_AnnAssign(self, s, st, env):
        if s.value is None:
            return Flow(st)
        v = self.ev(s.value, st, env)
        if isinstance(v, _Dead):
            return Flow(None)
        self.assign(s.target, v, st, env)
        return Flow(st)

    def s_Assign(self, s, st, env):
        v = self.ev(s.value, st, env)
        if isinstance(v, _Dead):
            return Flow(None)
        for t in s.targets:
            self.assign(t, v, st, env)
        return Flow(st)

    def s_AugAssign(self, s, st, env):
        t = s.target
        load = copy.copy(t)
        load.ctx = ast.Load()
        cur = self.ev(load, st, env)
        v = self.ev(s.value, st, env)
        if isinstance(v, _Dead) or isinstance(cur, _Dead):
            return Flow(None)
        if isinstance(t, ast.Subscript) and self.isarr(cur) and st.heap[cur.id].lib == "numpy":
            box = self.ev(t.value, st, env)
            whole = isinstance(box, tuple) or (isinstance(box, Ref) and box.kind in ("list", "dict"))
        else:
            whole = isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and self.isarr(cur) and st.heap[cur.id].lib == "numpy")
        if whole and isinstance(cur, Ref) and cur.kind == "arr":
            r = self.binop(s.op, cur, v, st)
            # NumPy's in-place operators leave the work to a JAX operand, which gives a new array
            if self.isarr(r) and st.heap[cur.id].lib != "jax" and not (self.isarr(v) and st.heap[v.id].lib == "jax"):
                self.event("inplace", st, target=cur, value=v, op=type(s.op).__name__)
                st.heap[cur.id] = st.heap[cur.id].with_ver(st.heap[r.id].ver)
                return Flow(st)
            self.assign(t, r, st, env)
            return Flow(st)
        if isinstance(cur, Ref) and cur.kind == "list" and isinstance(s.op, ast.Add):
            o = st.heap[cur.id]
            self.event("inplace", st, target=cur, value=v, op="Add")
            vs = self.items(v, st)
            if vs is not None:
                o.items = o.items + list(vs)
            else:
                o.tail = Opq("ext", (o.tail, v))
            return Flow(st)
        if not isexpr(cur) and not isinstance(cur, (bool, str, tuple)):
            self.event("inplace", st, target=cur, value=v, op=type(s.op).__name__)
        r = self.binop(s.op, cur, v, st, inplace=True)
        self.assign(t, r, st, env)
        return Flow(st)

    def s_If(self, s, st, env):
        tv = self.ev(s.test, st, env)
        if isinstance(tv, _Dead):
            return Flow(None)
        c = self.cond(tv, st)
        d = c if isinstance(c, bool) else self.p.decide(c, st.pc)
        if d is True:
            return self.block(s.body, st, env)
        if d is False:
            return self.block(s.orelse, st, env)
        base = st.pc
        s1, s2 = st.fork(), st.fork()
        s1.pc = base + (c,)
        s2.pc = base + (neg(c),)
        f1 = self.block(s.body, s1, env)
        f2 = self.block(s.orelse, s2, env)
        f = Flow()
        f.rets = f1.rets + f2.rets
        f.brk = f1.brk + f2.brk
        f.cont = f1.cont + f2.cont
        if f1.normal is not None and f2.normal is not None:
            p1, p2 = f1.normal.pc, f2.normal.pc
            f.normal = self.merge(self.guard(p1, base), f1.normal, f2.normal, base)
            if len(p1) > len(base) + 1 or len(p2) > len(base) + 1:
                # part of a branch was left by break, continue, return or raise
                f.normal.pc = base + (disj(self.guard(p1, base), self.guard(p2, base)),)
        else:
            f.normal = f1.normal or f2.normal
        return f

    def s_With(self, s, st, env):
        for it in s.items:
            v = self.ev(it.context_expr, st, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, env)
        return self.block(s.body, st, env)

    def s_Try(self, s, st, env):
        base = st.pc
        s0 = st.fork()
        f = self.block(s.body, st, env)
        if f.normal is not None and s.orelse:
            g = self.block(s.orelse, f.normal, env)
            f.normal = g.normal
            f.rets += g.rets
            f.brk += g.brk
            f.cont += g.cont
        for h in s.handlers:
            c = alg.TRUTH(Symbol("exc_%s_%d" % (self.stack[-1] if self.stack else "", getattr(h, "lineno", 0))))
            s2 = s0.fork()
            s2.pc = base + (c,)
            if h.name:
                s2.envs[env][h.name] = Opq("exc", (h.lineno,))
            g = self.block(h.body, s2, env)
            f.rets += g.rets
            f.brk += g.brk
            f.cont += g.cont
            if g.normal is not None:
                f.normal = self.merge(c, g.normal, f.normal, base) if f.normal is not None else g.normal
        if s.finalbody and f.normal is not None:
            g = self.block(s.finalbody, f.normal, env)
            f.normal = g.normal
            f.rets += g.rets
        return f

    # ------------------------------------------------------------------ assignment
    def setvar(self, st, env, name, v):
        st.envs[env][name] = v

    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            # C++ references / python nonlocal are rare here; plain local binding
            e = st.envs[env]
            br = e.get("__byref__")
            if br and t.id in br:
                pass
            e[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v, st)
            if vs is None:
                for i, x in enumerate(t.elts):
                    self.assign(x, self.getitem(v, sp.Integer(i), st), st, env)
                return
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                n = len(t.elts) - 1
                k = len(vs) - n
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, st, env)
                self.assign(t.elts[i].value, self.list(st, vs[i : i + k]), st, env)
                for x, y in zip(t.elts[i + 1 :], vs[i + k :]):
                    self.assign(x, y, st, env)
                return
            for x, y in zip(t.elts, vs):
                self.assign(x, y, st, env)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, env)
            self.setattr(o, t.attr, v, st)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, env)
            self.setitem(o, t.slice, v, st, env)
            return
        raise Giveup("assign to %s" % type(t).__name__)

    def setattr(self, o, name, v, st):
        if isinstance(o, Ref) and o.kind == "obj":
            ob = st.heap[o.id]
            m = self.find_member(ob.cls, name, "setter")
            if m is not None:
                self.call_fn(m, [o, v], {}, st, None)
                return
            self.event("setattr", st, target=o, name=name, value=v)
            ob.attrs[name] = v
            return
        if isinstance(o, Ref) and o.kind == "dict":
            ob = st.heap[o.id]
            if ob.cls is not None:
                ob.items[("attr", name)] = v
                self.event("setattr", st, target=o, name=name, value=v)
                return
        self.event("setattr", st, target=o, name=name, value=v)

    def setitem(self, o, sl, v, st, env):
        if isinstance(o, VarRef):
            st.envs[o.envid][o.name] = v
            return
        if isinstance(o, Ptr) or (self.isarr(o)):
            self.store(o, sl, v, st, env)
            return
        k = self.ev(sl, st, env) if not isinstance(sl, tuple) else sl
        if isinstance(o, Ref) and o.kind == "dict":
            ob = st.heap[o.id]
            if ob.cls is not None:
                m = self.find_member(ob.cls, "__setitem__")
                if m is not None:
                    self.call_fn(m, [o, k, v], {}, st, None)
                    return
            kk = self.dkey(k)
            ob.items[kk] = v
            self.event("setitem", st, target=o, key=k, value=v)
            return
        if isinstance(o, Ref) and o.kind == "list" and isexpr(k) and k.is_Integer:
            it = st.heap[o.id].items
            if -len(it) <= int(k) < len(it):
                it[int(k)] = v
                self.event("setitem", st, target=o, key=k, value=v)
                return
        self.event("setitem", st, target=o, key=k, value=v)

    def dkey(self, k):
        if isexpr(k) and k.is_Integer:
            return int(k)
        return k

    def index_parts(self, sl, st, env):
        """List of per-dimension parts: ('i',expr) | ('s',lo,hi) | ('all',) | ('new',)"""
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        out = []
        for e in elts:
            if isinstance(e, ast.Slice):
                if e.step is not None:
                    raise Giveup("strided slice")
                if e.lower is None and e.upper is None:
                    out.append(("all",))
                else:
                    lo = self.ev(e.lower, st, env) if e.lower is not None else S.Zero
                    hi = self.ev(e.upper, st, env) if e.upper is not None else None
                    out.append(("s", self.scal(lo), None if hi is None else self.scal(hi)))
                continue
            v = self.ev(e, st, env)
            if v is None:
                out.append(("new",))
            elif isexpr(v) or isinstance(v, (int, bool)):
                out.append(("i", self.scal(v)))
            elif isinstance(v, Opq) and v.op == "slice":
                out.append(("s", v.args[0], v.args[1]))
            elif self.isarr(v) and self.dims(st, v) in ((S.One,), ()):
                out.append(("i", self.elem(st, v, (S.Zero,) * len(self.dims(st, v)))))
            elif isinstance(v, Ref):
                raise Giveup("index by array")
            else:
                sc = self.scal(v)
                if sc is None:
                    raise Giveup("index by %r" % (v,))
                out.append(("i", sc))
        return out

    def view(self, st, o, parts):
        """(kept dims, map idx-of-view -> idx-of-array)."""
        dims = st.heap[o.id].dims
        k = 0
        kept = []
        fns = []
        for p in parts:
            if p[0] == "new":
                kept.append(S.One)
                fns.append(("drop",))
                continue
            if dims is None or k >= len(dims):
                raise Giveup("too many indices")
            D = dims[k]
            if p[0] == "all":
                kept.append(D)
                fns.append(("off", S.Zero))
            elif p[0] == "s":
                lo = p[1]
                hi = D if p[2] is None else p[2]
                if self.p.nonneg(-lo - 1):
                    lo = D + lo
                if hi is not D and self.p.nonneg(-hi - 1):
                    hi = D + hi
                # clip to the dimension as numpy does
                if hi is not D and not self.p.nonneg(D - hi):
                    if self.p.nonneg(hi - D):
                        hi = D
                kept.append(sp.expand(hi - lo))
                fns.append(("off", lo))
            else:
                i = p[1]
                if self.p.nonneg(-i - 1):
                    i = D + i
                fns.append(("fix", i))
            k += 1
        for D in dims[k:]:
            kept.append(D)
            fns.append(("off", S.Zero))

        def mp(idx):
            out = []
            q = 0
            for f in fns:
                if f[0] == "drop":
                    q += 1
                elif f[0] == "off":
                    out.append(sp.expand(idx[q] + f[1]))
                    q += 1
                else:
                    out.append(f[1])
            return tuple(out)

        return tuple(kept), mp

    def store(self, o, sl, v, st, env):
        self.stats["stores"] += 1
        if isinstance(o, Ptr):
            i = self.ev(sl, st, env) if isinstance(sl, ast.AST) else sl
            i = self.scal(i)
            if i is None:
                raise Giveup("pointer index")
            a = st.heap[o.ref.id]
            val = self.scal(v) if not iscond(v) or isinstance(v, bool) else v
            if val is None:
                # storing a non-number (e.g. a pointer into an out parameter)
                st.heap[o.ref.id] = a
                self.event("store-opaque", st, target=o, key=i, value=v)
                ob = st.envs.setdefault("__cells__", {})
                ob[(o.ref.id, sp.expand(o.off + i))] = v
                return
            st.heap[o.ref.id] = a.with_ver(St(a.ver, (), True, (sp.expand(o.off + i),), val, self.line))
            self.event("store", st, target=o.ref, idx=(sp.expand(o.off + i),), value=val)
            return
        a = st.heap[o.id]
        if a.dims is None:
            i = self.scal(self.ev(sl, st, env) if isinstance(sl, ast.AST) else sl)
            val = self.scal(v)
            if i is None or val is None:
                st.envs.setdefault("__cells__", {})[(o.id, i)] = v
                return
            st.heap[o.id] = a.with_ver(St(a.ver, (), True, (sp.expand(i),), val, self.line))
            self.event("store", st, target=o, idx=(sp.expand(i),), value=val)
            return
        parts = self.index_parts(sl, st, env)
        kept, mp = self.view(st, o, parts)
        vs = [alg.fresh("r") for _ in kept]
        vd = self.dims(st, v)
        if vd is None:
            raise Giveup("store of unknown shape")
        sub = self.bidx(kept, vd, vs, st)
        pr = self.p
        val = self.elem(st, v, sub) if self.isarr(v) else (self.scal(v) if not iscond(v) else condexpr(v))
        if val is None:
            raise Giveup("store of non-number")
        loops = [(x, S.Zero, d) for x, d in zip(vs, kept) if d != 1]
        idx = mp(tuple(S.Zero if d == 1 else x for x, d in zip(vs, kept)))
        val = val.xreplace({x: S.Zero for x, d in zip(vs, kept) if d == 1}) if isexpr(val) else val
        st.heap[o.id] = a.with_ver(St(a.ver, loops, True, idx, val, self.line))
        self.event("store", st, target=o, idx=idx, value=val)

    def bidx(self, dims, od, idx, st):
        """Index tuple into an operand of dims od, for position idx in the broadcast shape dims."""
        out = []
        off = len(dims) - len(od)
        if off < 0:
            # operand has more dims; allow leading ones
            od2 = list(od)
            while len(od2) > len(dims) and od2[0] == 1:
                od2.pop(0)
            if len(od2) > len(dims):
                raise Giveup("broadcast")
            return (S.Zero,) * (len(od) - len(od2)) + self.bidx(dims, tuple(od2), idx, st)
        for k, d in enumerate(od):
            if d == 1:
                out.append(S.Zero)
            else:
                out.append(idx[off + k])
        return tuple(out)

    def bcast(self, d1, d2, st):
        n = max(len(d1), len(d2))
        a = (S.One,) * (n - len(d1)) + tuple(d1)
        b = (S.One,) * (n - len(d2)) + tuple(d2)
        out = []
        for x, y in zip(a, b):
            if x == 1:
                out.append(y)
            elif y == 1 or sp.expand(x - y) == 0:
                out.append(x)
            else:
                self.event("shape-mismatch", st, a=d1, b=d2, must=((x, y, True),))
                return None
        return tuple(out)

    def ewise(self, f, args, st, name="ew"):
        """Elementwise application."""
        if not any(self.isarr(a) for a in args):
            ss = [self.scal(a) if not (iscond(a) and not isinstance(a, bool)) else a for a in args]
            if any(x is None for x in ss):
                return Opq(name, args)
            return f(*ss)
        d = ()
        for a in args:
            da = self.dims(st, a)
            if da is None:
                raise Giveup("elementwise on array of unknown shape")
            d = self.bcast(d, da, st)
            if d is None:
                return Opq("bad-shape", args)
        vers = []
        for a in args:
            if self.isarr(a):
                vers.append((st.heap[a.id].ver, st.heap[a.id].dims, None))
            else:
                s = self.scal(a) if not (iscond(a) and not isinstance(a, bool)) else a
                if s is None:
                    return Opq(name, args)
                vers.append((None, None, s))
        pc = st.pc

        def fn(idx):
            xs = []
            for ver, dm, s in vers:
                if ver is None:
                    xs.append(s)
                else:
                    xs.append(self.r.elem(ver, self.bidx(d, dm, idx, st), pc))
            xs = [condexpr(x) if isinstance(x, bool) else x for x in xs]
            return f(*xs)

        r = self.arr(st, d, fn, name)
        libs = {st.heap[a.id].lib for a in args if self.isarr(a)}
        st.heap[r.id].lib = "jax" if "jax" in libs else ("numpy" if libs == {"numpy"} else None)
        return r

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st, env):
        it = self.ev(s.iter, st, env)
        if isinstance(it, _Dead):
            return Flow(None)
        if isinstance(it, Opq) and it.op == "range":
            lo, hi, step = it.args
            n = sp.expand(hi - lo)
            if n.is_Integer and step == 1 and int(n) <= self.unroll_limit:
                return self.unroll(s, [lo + i for i in range(max(0, int(n)))], st, env)
            return self.loop_for(s, lo, hi, step, lambda v, st2: v, st, env)
        vs = self.items(it, st)
        if vs is not None:
            return self.unroll(s, vs, st, env)
        # unknown collection
        L = self.length(it, st)
        return self.loop_for(s, S.Zero, L, S.One, lambda v, st2: self.getitem(it, v, st2), st, env)

    def unroll(self, s, vs, st, env):
        f = Flow(st)
        base = st.pc
        brk = []
        for v in vs:
            if f.normal is None:
                break
            self.assign(s.target, v, f.normal, env)
            g = self.block(s.body, f.normal, env)
            f.rets += g.rets
            brk += g.brk
            items = ([(g.normal.pc, g.normal)] if g.normal is not None else []) + g.cont
            f.normal = self.merge_all(items, self.common(items)) if items else None
        if s.orelse and f.normal is not None:
            g = self.block(s.orelse, f.normal, env)
            f.normal = g.normal
            f.rets += g.rets
        if brk:
            items = ([(f.normal.pc, f.normal)] if f.normal is not None else []) + brk
            f.normal = self.merge_all(items, base)
        return f

    def common(self, items):
        pcs = [i[0] for i in items]
        n = min(len(p) for p in pcs)
        k = 0
        while k < n and all(p[k] == pcs[0][k] for p in pcs):
            k += 1
        return pcs[0][:k]

    def assigned(self, stmts):
        out = set()

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, ast.Store):
                    out.add(n.id)

            def visit_FunctionDef(s, n):
                out.add(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass

            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

            def visit_AugAssign(s, n):
                if isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                s.generic_visit(n)

            def visit_Call(s, n):
                # &x handed to a callee, or by-reference parameters
                br = byref_names(self.cxx, n)
                for i in br:
                    if i < len(n.args) and isinstance(n.args[i], ast.Name):
                        out.add(n.args[i].id)
                for a in n.args:
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "__ref" and isinstance(a.args[0], ast.Name):
                        out.add(a.args[0].id)
                s.generic_visit(n)

        for x in stmts:
            V().visit(x)
        return out

    def phi_for(self, name, init):
        if isinstance(init, bool) or iscond(init):
            return alg.TRUTH(Symbol("phi_%s#%d" % (name, self.new())))
        integer = isexpr(init) and is_int(init)
        if isexpr(init) or isinstance(init, Undef):
            return Symbol("phi_%s#%d" % (name, self.new()), integer=True) if integer else Symbol("phi_%s#%d" % (name, self.new()), real=True)
        return None

    def loop_for(self, s, lo, hi, step, elt, st, env):
        """for target in <indexable with index in [lo,hi) by step>"""
        if step == S.NegativeOne:
            # descending: t in [0, lo-hi), v = lo - t
            return self.loop(s, s.body, [], st, env, S.Zero, sp.expand(lo - hi), lambda t, st2: self.assign(s.target, elt(sp.expand(lo - t), st2), st2, env), s.orelse, desc=True)
        if step != 1:
            if step.is_Integer and step > 1:
                return self.loop(s, s.body, [], st, env, S.Zero, sp.ceiling((hi - lo) / step), lambda t, st2: self.assign(s.target, elt(sp.expand(lo + step * t), st2), st2, env), s.orelse)
            raise Giveup("loop step %s" % step)
        return self.loop(s, s.body, [], st, env, lo, hi, lambda t, st2: self.assign(s.target, elt(t, st2), st2, env), s.orelse)

    def s_While(self, s, st, env):
        inc = getattr(s, "cxx_inc", [])
        W = self.assigned(s.body) | self.assigned(inc)
        # concrete small loops are not special-cased: find the induction variable
        s1 = st.fork()
        phis = {}
        e = s1.envs[env]
        for w in sorted(W):
            if w in e:
                ph = self.phi_for(w, e[w])
                if ph is not None:
                    phis[w] = ph
                    e[w] = ph
        nev, nnotes = len(self.events), len(self.notes)
        tv = self.ev(s.test, s1, env)
        c = self.cond(tv, s1)
        if c is False:
            del self.events[nev:]
            return Flow(st)
        if c is True:
            raise Giveup("unbounded while loop at line %s" % getattr(s, "lineno", 0))
        atoms = list(c.args) if c.func == alg.AND else [c]
        s1.pc = s1.pc + tuple(atoms)
        try:
            fl = self.block(s.body, s1, env)
            items = ([(fl.normal.pc, fl.normal)] if fl.normal is not None else []) + fl.cont
            end = self.merge_all(items, s1.pc) if items else None
            if end is not None and inc:
                g = self.block(inc, end, env)
                end = g.normal
        finally:
            pass
        del self.events[nev:]
        if end is None:
            # at most one iteration: an `if`
            t = ast.If(test=s.test, body=[x for x in s.body], orelse=[])
            t.lineno = s.lineno
            fl = self.s_If(t, st, env)
            items = ([(fl.normal.pc, fl.normal)] if fl.normal is not None else []) + fl.brk
            fl.normal = self.merge_all(items, st.pc) if items else None
            fl.brk = []
            return fl
        ind = {}
        for w, ph in phis.items():
            nx = end.envs[env].get(w)
            if isexpr(nx) and isexpr(ph) and not iscond(ph):
                d = sp.expand(nx - ph)
                if d.is_Integer and d != 0:
                    ind[w] = (ph, d)
        # pick the atom of the test that bounds an induction variable
        for a in atoms:
            for w, (ph, d) in ind.items():
                if not a.has(ph):
                    continue
                others = [x for ww, x in phis.items() if ww != w and a.has(x)]
                if others:
                    continue
                init = st.envs[env][w]
                rng_ = None
                if a.func == alg.GE0:
                    co = sp.expand(sp.diff(a.args[0], ph))
                    if co == -1 and d == 1:
                        rng_ = (init, sp.expand(a.args[0] + ph) + 1)
                    elif co == 1 and d == -1:
                        low = sp.expand(ph - a.args[0])
                        rng_ = ("desc", init, low)
                    elif co == -1 and d > 1:
                        rng_ = ("step", init, sp.expand(a.args[0] + ph) + 1, d)
                elif a.func == alg.NOT and a.args[0].func == alg.EQ0:
                    z = a.args[0].args[0]
                    co = sp.expand(sp.diff(z, ph))
                    if co in (1, -1):
                        tgt = sp.expand(ph - z * co)
                        if d == 1:
                            rng_ = (init, tgt)
                        elif d == -1:
                            rng_ = ("desc", init, tgt + 1)
                if rng_ is None:
                    continue
                rest = [x for x in atoms if x is not a]
                body = s.body
                if rest:
                    # remaining conjuncts of the test act as a break at the top of the body
                    if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                        keep = []
                        for tv_ in s.test.values:
                            names = {n.id for n in ast.walk(tv_) if isinstance(n, ast.Name)}
                            if w in names and len(keep) == 0 and not getattr(s, "_dropped", False):
                                continue
                            keep.append(tv_)
                        if not keep:
                            raise Giveup("while test")
                        tst = keep[0] if len(keep) == 1 else ast.BoolOp(op=ast.And(), values=keep)
                        iff = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=tst), body=[ast.Break()], orelse=[])
                        iff.lineno = s.lineno
                        body = [iff] + list(s.body)
                    else:
                        raise Giveup("while test with several bounds")
                if rng_[0] == "desc":
                    _, init, low = rng_
                    return self.loop(s, body, inc, st, env, S.Zero, sp.expand(init - low + 1), lambda t, st2, w=w, init=init: st2.envs[env].__setitem__(w, sp.expand(init - t)), s.orelse, ivar=w, desc=True)
                if rng_[0] == "step":
                    _, init, hi, d = rng_
                    return self.loop(s, body, inc, st, env, S.Zero, sp.ceiling((hi - init) / d), lambda t, st2, w=w, init=init, d=d: st2.envs[env].__setitem__(w, sp.expand(init + d * t)), s.orelse, ivar=w, final=None)
                lo, hi = rng_
                return self.loop(s, body, inc, st, env, lo, hi, lambda t, st2, w=w: st2.envs[env].__setitem__(w, t), s.orelse, ivar=w, final=hi)
        if inc:
            raise Giveup("while loop without a recognised induction variable at line %s" % getattr(s, "lineno", 0))
        iff = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Break()], orelse=[])
        iff.lineno = s.lineno
        return self.loop(s, [iff] + list(s.body), inc, st, env, S.Zero, sp.Integer(10**6), lambda t, st2: None, s.orelse)

    small = 0  # loops with at most this many iterations, known exactly, are expanded

    def expand_loop(self, body, inc, st, env, lo, hi, bind, orelse):
        f = Flow(st)
        base = st.pc
        brk = []
        for v in range(lo, hi):
            if f.normal is None:
                break
            bind(sp.Integer(v), f.normal)
            g = self.block(body, f.normal, env)
            f.rets += g.rets
            brk += g.brk
            items = ([(g.normal.pc, g.normal)] if g.normal is not None else []) + g.cont
            f.normal = self.merge_all(items, self.common(items)) if items else None
            if f.normal is not None and inc:
                f.normal = self.block(inc, f.normal, env).normal
        if orelse and f.normal is not None:
            g = self.block(orelse, f.normal, env)
            f.normal = g.normal
            f.rets += g.rets
        if brk:
            items = ([(f.normal.pc, f.normal)] if f.normal is not None else []) + brk
            f.normal = self.merge_all(items, base)
        return f

    def loop(self, node, body, inc, st, env, lo, hi, bind, orelse=(), ivar=None, final=None, desc=False):
        """Summarise a counted loop."""
        self.stats["loops"] += 1
        lo, hi = sp.sympify(lo), sp.expand(sp.sympify(hi))
        if self.p.nonneg(lo - hi):
            if ivar is not None:
                pass
            return Flow(st)
        base = st.pc
        if self.small and lo.is_Integer and hi.is_Integer and hi - lo <= self.small:
            return self.expand_loop(body, inc, st, env, int(lo), int(hi), bind, orelse)
        t = alg.fresh(ivar or "k")
        self.p.declare(t, lo, sp.expand(hi - 1))
        W = self.assigned(body) | self.assigned(inc)
        if isinstance(node, ast.For):
            W |= self.assigned([ast.Assign(targets=[node.target], value=ast.Constant(value=0))])
        info = dict(node=node, body=body, inc=inc, st=st, env=env, lo=lo, hi=hi, bind=bind, t=t, W=W, ivar=ivar, desc=desc)
        if self.loop_hook is not None:
            r = self.loop_hook(self, info)
            if r is not None:
                return r
        init = {w: st.envs[env][w] for w in W if w in st.envs[env]}

        def run(binds, phiarrs):
            s1 = st.fork()
            s1.pc = base
            for w, v in binds.items():
                s1.envs[env][w] = v
            for hid, ver in phiarrs.items():
                s1.heap[hid] = s1.heap[hid].with_ver(ver)
            for (hid, nm), v in objphi.items():
                s1.heap[hid].attrs[nm] = v
            bind(t, s1)
            entry = s1.fork()
            fl = self.block(body, s1, env)
            items = ([(fl.normal.pc, fl.normal)] if fl.normal is not None else []) + fl.cont
            end = self.merge_all(items, base) if items else None
            if end is not None and inc:
                g = self.block(inc, end, env)
                end = g.normal
            return entry, end, fl

        nev = len(self.events)
        nst = len(self.notes)
        objphi = {}
        phis = {}
        for w, v in init.items():
            if w == ivar:
                continue
            ph = self.phi_for(w, v)
            if ph is not None:
                phis[w] = ph
        # pass 1: what changes
        entry, end, fl = run(phis, {})
        states = [x for x in [end] + [b[1] for b in fl.brk] + [r[2] for r in fl.rets] if x is not None]
        chg = set()
        chgattr = set()
        for z in states:
            for hid, o in entry.heap.items():
                o2 = z.heap.get(hid)
                if isinstance(o, ArrC) and o2 is not None and o2.ver is not o.ver:
                    chg.add(hid)
                if isinstance(o, ObjC) and o2 is not None:
                    for n_ in o2.attrs:
                        if n_ not in o.attrs or not veq(o.attrs[n_], o2.attrs[n_]):
                            chgattr.add((hid, n_))
                if isinstance(o, (ListC,)) and o2 is not None and (len(o2.items) != len(o.items) or not all(veq(a, b) for a, b in zip(o.items, o2.items))):
                    o2.tail = Opq("loop-list", (hid,))
        del self.events[nev:]
        uid = self.new()
        phiarrs = {h: Phi(st.heap[h].ver, uid, "phi%d_%d" % (uid, h)) for h in chg}
        for h, n_ in chgattr:
            v0 = st.heap[h].attrs.get(n_, Undef(n_))
            ph = self.phi_for(n_, v0)
            if ph is not None:
                objphi[(h, n_)] = ph
        # values that are opaque and change
        opq_phi = {}
        if end is not None:
            for w, v in init.items():
                if w in phis or w == ivar:
                    continue
                nv = end.envs[env].get(w)
                if not veq(nv, v):
                    opq_phi[w] = Opq("phi", (w, uid))
        # pass 2
        binds = dict(phis)
        binds.update(opq_phi)
        entry, end, fl = run(binds, phiarrs)
        if phiarrs and end is not None and self.reads_phi(end, env, W, phiarrs):
            # a scalar depends on array content carried round the loop: separate the cells never written
            again = False
            for h_, ph_ in phiarrs.items():
                ph_.writes = self.phi_writes(end.heap[h_].ver, ph_, t, lo)
                again = again or ph_.writes is not None
            if again:
                del self.events[nev:]
                entry, end, fl = run(binds, phiarrs)
        # closed forms for scalars
        closed = {}
        post = {}
        brkc = disj(*[self.guard(b[0], base) for b in fl.brk]) if fl.brk else False
        allphi = list(phis.values()) + list(objphi.values())

        def clean(e):
            return not isinstance(e, sp.Basic) or not any(e.has(x) for x in allphi)

        def kept(e, ph):
            """Every branch is the old value or does not depend on it."""
            if e == ph or clean(e):
                return True
            return isinstance(e, sp.Function) and e.func == alg.ITE and clean(e.args[0]) and all(kept(x, ph) for x in e.args[1:])

        def vfree_phi(e):
            return {f.func.__name__ for f in e.atoms(sp.Function)}

        def classify(w, ph, nx, v0):
            """(entry closed form, post value) or None"""
            if nx is None:
                return None
            if veq(nx, ph):
                return v0, v0
            if iscond(ph) or (isinstance(v0, bool)):
                # boolean flag
                nb = nx
                if isinstance(nb, bool):
                    return ("unused", nb)
                if iscond(nb):
                    f1 = self.subst_cond(nb, ph, True)
                    f0 = self.subst_cond(nb, ph, False)
                    if clean(f1) and clean(f0):
                        if f1 is True:  # sticky: phi or c
                            ex = lambda h: alg.binder(alg.EXISTS, t, lo, h, condexpr(f0)) if f0 is not True else True
                            return disj(v0, ex(t)), disj(v0, ex(hi))
                        if f0 is False:  # phi and c
                            g = neg(f1)
                            ex = lambda h: alg.binder(alg.EXISTS, t, lo, h, condexpr(g))
                            return conj(v0, neg(ex(t))), conj(v0, neg(ex(hi)))
                        if veq(f1, f0):
                            return ("unused", f1)
                return None
            if isexpr(nx) and isexpr(ph):
                d = sp.expand(nx - ph)
                if clean(d) and d.is_Integer:
                    return sp.expand(v0 + d * (t - lo)), sp.expand(v0 + d * (hi - lo))
                if clean(d):
                    return v0 + alg.binder(alg.SUM, t, lo, t, d) if lo == t else self.sumto(alg.SUM, t, lo, d, v0), v0 + alg.binder(alg.SUM, t, lo, hi, d)
                # conditional increment
                nx = flat_ite(nx)
                if os.environ.get("SA_TRACE"):
                    print("classify", w, ph, nx)
                if isinstance(nx, sp.Function) and nx.func == alg.ITE:
                    c, a, b = nx.args
                    if clean(c):
                        da, db = sp.expand(a - ph), sp.expand(b - ph)
                        if da.is_number and db.is_number:
                            ent = v0 + db * (t - lo) + (da - db) * self.cnt(t, lo, t, c)
                            pst = v0 + db * (hi - lo) + (da - db) * self.cnt(t, lo, hi, c)
                            return sp.expand(ent), sp.expand(pst)
                q = sp.cancel(nx / ph) if ph != 0 else None
                if q is not None and clean(q):
                    return v0 * self.prodto(t, lo, t, q), v0 * alg.binder(alg.PROD, t, lo, hi, q)
                if isinstance(nx, sp.Function) and nx.func == alg.ITE:
                    c, a, b = nx.args
                    if clean(c) and clean(a) and not a.has(t) and sp.expand(b - ph) == 0:
                        f = lambda h: ite(self.exi(t, lo, h, c), a, v0)
                        return f(t), f(hi)
                    if clean(c) and clean(b) and not b.has(t) and sp.expand(a - ph) == 0:
                        f = lambda h: ite(self.exi(t, lo, h, neg(c)), b, v0)
                        return f(t), f(hi)
                if clean(nx):
                    # overwritten every iteration
                    return ("unused", nx)
                if isexpr(v0) and isinstance(ph, Symbol) and kept(nx, ph):
                    # overwritten in some iterations, kept in others: the value of the last that writes it
                    t2, p2 = alg.fresh("t"), Symbol("last_%s#%d" % (w, self.new()), integer=ph.is_integer, real=True)
                    nx2 = nx.xreplace({t: t2, ph: p2})
                    if not (vfree_phi(nx2) & {p_.fname for p_ in phiarrs.values()}):
                        out_ = []
                        for h in (t, hi):
                            sy = Sys(t2, lo, h, [(p2, v0, nx2)], [], [])
                            nm = ("i_" if is_int_sym(ph) else "") + "lastval_%s_%d" % (w, self.new())
                            REG[nm] = ("scalar", sy, p2)
                            out_.append(Function(nm)(*(sy.formals or (S.Zero,))))
                        return tuple(out_)
            return None

        def do(w, ph, nx, v0):
            r = classify(w, ph, nx, v0)
            if r is None:
                return None
            if isinstance(r[0], str) and r[0] == "unused":
                last = r[1]
                if isexpr(last) and not isinstance(last, bool):
                    last = last.xreplace({t: sp.expand(hi - 1)})
                if self.p.nonneg(hi - 1 - lo):
                    pv = last
                else:
                    pv = self.gate(alg.cmp("<", lo, hi, self.p, base), last, v0)
                ent = r[1].xreplace({t: t - 1}) if isexpr(r[1]) and not isinstance(r[1], bool) else r[1]
                ev_ = self.gate(alg.cmp(">", t, lo, self.p, base), ent, v0)
                return ev_, pv
            return r

        nobreak = not fl.brk
        for w, ph in phis.items():
            nx = end.envs[env].get(w) if end is not None else ph
            if nobreak:
                r = do(w, ph, nx, init[w])
                if r is not None:
                    closed[w], post[w] = r
            else:
                # values along break edges
                r = do(w, ph, nx, init[w]) if nx is not None else None
                vb = [b[1].envs[env].get(w) for b in fl.brk]
                if all(veq(x, ph) for x in vb) and nx is not None and veq(nx, ph):
                    closed[w], post[w] = init[w], init[w]
                elif nx is not None and veq(nx, ph) and clean(brkc) and all((not isexpr(x)) or (clean(x) and not x.has(t)) for x in vb) and len({vkey(x) for x in vb}) == 1:
                    closed[w] = init[w]
                    post[w] = self.gate(self.exi(t, lo, hi, brkc), vb[0], init[w])
        # induction variable itself
        if ivar is not None:
            if nobreak and final is not None:
                post[ivar] = final
            else:
                post[ivar] = Opq("after-loop", (ivar, uid))
        for w, o in opq_phi.items():
            nv = end.envs[env].get(w) if end is not None else None
            r = self.iterate(w, o, nv, init[w], t, lo, hi, clean) if nobreak else None
            if r is not None:
                closed[w], post[w] = r
            else:
                if nv is not None and o.key() not in vkey(nv) and nobreak:
                    post[w] = Opq("last", (nv,))
                else:
                    post[w] = Opq("loopval", (w, uid))
        oclosed, opost = {}, {}
        for (h, n_), ph in objphi.items():
            nx = end.heap[h].attrs.get(n_) if end is not None else ph
            v0 = st.heap[h].attrs.get(n_, Undef(n_))
            r = do(n_, ph, nx, v0) if nobreak else None
            if r is not None:
                oclosed[(h, n_)], opost[(h, n_)] = r
        # pass 3 with closed forms
        del self.events[nev:]
        objphi.update(oclosed)
        b3 = dict(binds)
        b3.update(closed)
        entry, end, fl = run(b3, phiarrs)
        brkc = disj(*[self.guard(b[0], base) for b in fl.brk]) if fl.brk else False
        for e in self.events[nev:]:
            e.setdefault("loops", [])
            e["loops"] = [(t, lo, hi)] + e["loops"]
        out = st.fork()
        out.pc = base
        # anything new on the heap created inside is kept (only reachable through overwritten names)
        src = end or (fl.brk[0][1] if fl.brk else None) or (fl.rets[0][2] if fl.rets else None)
        if src is not None:
            for hid, o in src.heap.items():
                if hid not in out.heap:
                    out.heap[hid] = o
            for eid, e in src.envs.items():
                if eid not in out.envs:
                    out.envs[eid] = dict(e)
            for w in W:
                if w not in init and w in src.envs[env]:
                    v = src.envs[env][w]
                    if isexpr(v) and not isinstance(v, bool):
                        v = v.xreplace({t: sp.expand(hi - 1)}) if clean(v) else Opq("loopval", (w, uid))
                    out.envs[env][w] = v
        sysrec = []

        def system():
            """The equations of this loop, for what has no closed form."""
            if not sysrec:
                scal = []
                for w_, ph_ in phis.items():
                    if w_ not in closed:
                        scal.append((ph_, init[w_], end.envs[env].get(w_) if end is not None else None))
                arrs = [(h_, phiarrs[h_], st.heap[h_].ver, end.heap[h_].ver if end is not None else None) for h_ in chg]
                brks = [(self.guard(b[0], base), {phis[w_]: b[1].envs[env].get(w_) for w_ in phis if w_ not in closed}, {h_: b[1].heap[h_].ver for h_ in chg}) for b in fl.brk]
                sysrec.append(Sys(t, lo, hi, scal, arrs, brks))
            return sysrec[0]

        for w in W:
            if w in post:
                out.envs[env][w] = post[w]
            elif w in init and (w in phis or w in opq_phi):
                if end is not None and veq(end.envs[env].get(w), b3.get(w)) and not fl.brk:
                    out.envs[env][w] = init[w]
                else:
                    v0 = init[w]
                    nm = "loopval_%s_%d" % (w, uid)
                    if is_int_sym(phis.get(w)):
                        nm = "i_" + nm
                    if w in phis and w not in closed:
                        sy = system()
                        REG[nm] = ("scalar", sy, phis[w])
                        fm = sy.formals or (S.Zero,)
                    else:
                        fm = (S.Zero,)
                    if isinstance(v0, bool) or iscond(v0):
                        out.envs[env][w] = alg.TRUTH(Function(nm)(*fm))
                    else:
                        out.envs[env][w] = Function(nm)(*fm) if isexpr(v0) or isinstance(v0, Undef) else Opq("loopval", (w, uid))
                    self.note("loop value of %s not summarised (line %s)" % (w, getattr(node, "lineno", 0)))
        for (h, n_), v in opost.items():
            out.heap[h].attrs[n_] = v
        for (h, n_) in set(objphi) - set(opost):
            out.heap[h].attrs[n_] = Opq("loopval", (n_, uid))
        # arrays
        for h in chg:
            wv = self.wrap(h, phiarrs[h], end, fl, t, lo, hi, st, uid, node, desc)
            if isinstance(wv, Hav) and wv.sys is None and not fl.rets:
                wv.sys, wv.key = system(), h
                REG[wv.name] = ("array", wv.sys, h)
            out.heap[h] = st.heap[h].with_ver(wv)
        # lists/dicts mutated
        if src is not None:
            for hid, o in src.heap.items():
                if isinstance(o, ListC) and hid in st.heap and (len(o.items) != len(st.heap[hid].items)):
                    n = ListC(st.heap[hid].items)
                    ap = o.items[len(st.heap[hid].items) :]
                    n.tail = Opq("appended", (t, lo, hi, tuple(ap)))
                    n.tail.loop = (t, lo, hi, ap, src)
                    out.heap[hid] = n
        F = Flow(out)
        if fl.rets:
            rc = disj(*[self.guard(r[0], base) for r in fl.rets])
            ex = self.exi(t, lo, hi, rc) if clean(rc) else alg.TRUTH(Symbol("ret_%d" % uid))
            vals = {vkey(r[1]) for r in fl.rets}
            v = fl.rets[0][1]
            if len(vals) > 1 or (isexpr(v) and not isinstance(v, bool) and v.has(t)):
                v = Opq("first", (t, rc, tuple(r[1] for r in fl.rets)))
            s2 = st.fork()
            s2.pc = base + (ex,) if not isinstance(ex, bool) else base
            F.rets.append((s2.pc, v, s2))
            if isinstance(ex, bool):
                if ex is True:
                    F.normal = None
            else:
                out.pc = base + (neg(ex),)
        if orelse and F.normal is not None:
            g = self.block(orelse, F.normal, env)
            F.normal = g.normal
            F.rets += g.rets
        return F

    def reads_phi(self, end, env, W, phiarrs):
        names = {p_.fname for p_ in phiarrs.values()}
        for w in W:
            v = end.envs[env].get(w)
            if isinstance(v, sp.Basic) and any(f.func.__name__ in names for f in v.atoms(sp.Function)):
                return True
        for h_ in phiarrs:
            ver = end.heap[h_].ver
            n = 0
            while isinstance(ver, (St, IteVer)) and n < 50:
                n += 1
                if isinstance(ver, IteVer):
                    ver = ver.a
                    continue
                for v in (ver.guard, ver.val) + tuple(ver.idx):
                    if isinstance(v, sp.Basic) and any(f.func.__name__ in names and f.func.__name__ != phiarrs[h_].fname for f in v.atoms(sp.Function)):
                        return True
                ver = ver.prev
        return False

    def phi_writes(self, ver, phi, t, lo):
        """Index sets written by the earlier iterations, or None."""
        out = []

        def go(v):
            if v is phi:
                return True
            if isinstance(v, St):
                if any(isinstance(i, sp.Basic) and any(f.func.__name__ == phi.fname for f in i.atoms(sp.Function)) for i in v.idx):
                    return False
                t2 = alg.fresh("tp")
                idx = tuple(sp.sympify(i).xreplace({t: t2}) for i in v.idx)
                loops = [(a, sp.sympify(b).xreplace({t: t2}), sp.sympify(c).xreplace({t: t2})) for a, b, c in v.loops]
                if any(i.has(t2) for i in idx):
                    loops = [(t2, lo, t)] + loops
                out.append((tuple(loops), idx))
                return go(v.prev)
            if isinstance(v, IteVer):
                return go(v.a) and go(v.b)
            return False

        return out if go(ver) else None

    def cnt(self, t, lo, hi, c):
        if hi == t:
            u = alg.fresh("u")
            return alg.binder(alg.COUNT, u, lo, t, condexpr(c.xreplace({t: u}) if not isinstance(c, bool) else c))
        return alg.binder(alg.COUNT, t, lo, hi, condexpr(c))

    def exi(self, t, lo, hi, c):
        if isinstance(c, bool):
            if c is False:
                return False
            return alg.cmp("<", lo, hi, self.p)
        if hi == t:
            u = alg.fresh("u")
            return alg.binder(alg.EXISTS, u, lo, t, c.xreplace({t: u}))
        return alg.binder(alg.EXISTS, t, lo, hi, c)

    def sumto(self, F, t, lo, d, v0):
        u = alg.fresh("u")
        return v0 + alg.binder(alg.SUM, u, lo, t, d.xreplace({t: u}))

    def prodto(self, t, lo, hi, q):
        u = alg.fresh("u")
        return alg.binder(alg.PROD, u, lo, hi, q.xreplace({t: u}))

    def subst_cond(self, c, ph, val):
        if isinstance(c, bool):
            return c
        if c == ph:
            return val
        if c.func == alg.AND:
            return conj(*[self.subst_cond(a, ph, val) for a in c.args])
        if c.func == alg.OR:
            return disj(*[self.subst_cond(a, ph, val) for a in c.args])
        if c.func == alg.NOT:
            return neg(self.subst_cond(c.args[0], ph, val))
        return c

    def iterate(self, w, phi, nv, v0, t, lo, hi, clean):
        """x <- f(x) applied hi-lo times."""
        if isinstance(nv, Opq) and nv.args and nv.args[0] == phi and all(phi.key() not in vkey(a) for a in nv.args[1:]):
            rest = tuple(nv.args[1:])
            if not any(isexpr(a) and a.has(t) for a in rest):
                mk = lambda n: Opq("iter", (nv.op, v0, sp.expand(n)) + rest)
                return mk(t - lo), mk(hi - lo)
        return None

    def wrap(self, h, phi, end, fl, t, lo, hi, st, uid, node, desc=False):
        prev = st.heap[h].ver
        name = phi.fname
        if fl.brk or end is None or fl.rets:
            self.note("array modified in a loop with an early exit (line %s)" % getattr(node, "lineno", 0))
            return Hav("hav%d_%d" % (uid, h), "early exit")
        stores = []

        def collect(ver, guard):
            """stores of the body in program order, or None"""
            if ver is phi:
                return []
            if isinstance(ver, St):
                p = collect(ver.prev, guard)
                if p is None:
                    return None
                return p + [St(None, ver.loops, conj(guard, ver.guard), ver.idx, ver.val, ver.line)]
            if isinstance(ver, IteVer):
                a = collect_to(ver.a, conj(guard, ver.c), ver)
                b = collect_to(ver.b, conj(guard, neg(ver.c)), ver)
                if a is None or b is None:
                    return None
                # common prefix appears in both; share it
                return merge_lists(a, b, ver.c)
            if isinstance(ver, Lp):
                p = collect(ver.prev, guard)
                if p is None:
                    return None
                return p + [("lp", ver, guard)]
            if isinstance(ver, Init) and st.heap[h].dims:
                # the whole array is replaced by a function of its old content
                dm = st.heap[h].dims
                vs = [S.Zero if n_ == 1 else alg.fresh("r") for n_ in dm]
                for v_, n_ in zip(vs, dm):
                    if n_ != 1:
                        self.p.declare(v_, S.Zero, sp.expand(n_ - 1))
                try:
                    val = ver.fn(tuple(vs))
                except Giveup:
                    return None
                if not isexpr(val) or isinstance(val, bool):
                    return None
                return [St(None, tuple((v_, S.Zero, n_) for v_, n_ in zip(vs, dm) if n_ != 1), guard, tuple(vs), val, getattr(node, "lineno", 0))]
            return None

        def collect_to(ver, guard, top):
            return collect(ver, guard)

        def merge_lists(a, b, c):
            n = 0
            while n < len(a) and n < len(b) and isinstance(a[n], St) and isinstance(b[n], St) and a[n].line == b[n].line and a[n].idx == b[n].idx and a[n].val == b[n].val:
                n += 1
            pre = []
            for x, y in zip(a[:n], b[:n]):
                g = disj(x.guard, y.guard)
                pre.append(St(None, x.loops, g, x.idx, x.val, x.line))
            return pre + a[n:] + b[n:]

        stores = collect(end.heap[h].ver, True)
        if stores is None:
            self.note("array content not summarised (line %s)" % getattr(node, "lineno", 0))
            return Hav("hav%d_%d" % (uid, h), "collect")
        # guards may repeat the loop-entry facts; substitute later
        if any(isinstance(x, tuple) for x in stores):
            lps = [x for x in stores if isinstance(x, tuple)]
            if len(lps) == 1 and stores[-1] is lps[0] and lps[0][2] is True:
                lp = lps[0][1]
                # rows are independent: outer loop variable must separate the stores
                ok = all(any(sp.sympify(i).has(t) for i in s_.idx) for s_ in lp.stores)
                prever = prev
                pre = stores[:-1]
                if pre:
                    prever = self.wrap_stores(h, phi, pre, prev, t, lo, hi, uid, st, node)
                if ok and prever is not None:
                    sts = []
                    for s_ in lp.stores:
                        v = s_.val
                        sts.append(St(None, s_.loops, s_.guard, s_.idx, v, s_.line))
                    n = Lp(prever, ((t, lo, hi),) + lp.outer, lp.var, lp.lo, lp.hi, sts, lp.uid, lp.line)
                    return n
            return Hav("hav%d_%d" % (uid, h), "nested recurrence")
        r = self.wrap_stores(h, phi, stores, prev, t, lo, hi, uid, st, node, desc)
        if r is None:
            self.note("array stores not summarised (line %s)" % getattr(node, "lineno", 0))
            return Hav("hav%d_%d" % (uid, h), "stores")
        return r

    def counted(self, s, t, lo):
        """Is some index of the store base + COUNT(u < t: guard(u)), so that no two iterations share a cell?"""
        for i in s.idx:
            for f in sp.sympify(i).atoms(sp.Function):
                if f.func == alg.COUNT and f.args[2].has(t) and s.guard is not True and s.guard is not False:
                    b, l_, h_, body = f.args
                    n = sp.expand(h_ - (t - lo))
                    if n != 0:
                        continue
                    g = s.guard.xreplace({t: b + lo})
                    g2 = alg.binder(alg.COUNT, t, lo, sp.Symbol("_end", integer=True), s.guard)
                    f2 = alg.COUNT(b, l_, sp.Symbol("_end", integer=True) - lo, body)
                    if g2 == f2 or g == body or alg.neg(g) == body:
                        return True
        return False

    def wrap_stores(self, h, phi, stores, prev, t, lo, hi, uid, st, node, desc=False):
        name = phi.fname

        def phireads(e):
            if not isinstance(e, sp.Basic):
                return []
            return [f for f in e.atoms(sp.Function) if f.func.__name__ == name]

        tl = (t, lo, hi)
        # accumulation into a cell that does not move with the loop
        if len(stores) == 1:
            s = stores[0]
            if not any(sp.sympify(i).has(t) for i in s.idx):
                rd = phireads(s.val)
                if rd and all(all(sp.expand(a - b) == 0 for a, b in zip(f.args, s.idx)) for f in rd) and s.guard is True:
                    f = rd[0]
                    d = sp.expand(s.val - f)
                    pv = None
                    if not d.has(*rd):
                        pv = lambda old: old + alg.binder(alg.SUM, t, lo, hi, d)
                    else:
                        q = sp.cancel(s.val / f)
                        if not q.has(*rd):
                            pv = lambda old: old * alg.binder(alg.PROD, t, lo, hi, q)
                    if pv is not None:
                        pr = self.p
                        old = self.r.elem(prev, s.idx, st.pc)
                        return St(prev, s.loops, True, s.idx, pv(old), s.line)
                if not rd and s.guard is True and self.p.nonneg(hi - 1 - lo):
                    l = sp.expand(hi - 1)
                    return St(prev, s.loops, True, s.idx, s.val.xreplace({t: l}) if isexpr(s.val) else s.val, s.line)
                return None
        if any(not any(sp.sympify(i).has(t) for i in s.idx) for s in stores):
            # some cell does not move with the loop
            return None
        # does an earlier iteration write what this one reads?
        t2 = alg.fresh("tprev")
        rec = False
        for s in stores:
            for f in phireads(s.val) + phireads(s.guard):
                for w in stores:
                    if w is s and all(sp.expand(a_ - b_) == 0 for a_, b_ in zip(f.args, s.idx)) and self.counted(s, t, lo):
                        continue  # the cell is indexed by a counter that advances with every store
                    ren = {t: t2}
                    loops2 = []
                    for (v_, l_, h_) in w.loops:
                        nv = alg.fresh("w")
                        ren[v_] = nv
                        loops2.append((nv, sp.sympify(l_).xreplace(ren), sp.sympify(h_).xreplace(ren)))
                    idx2 = tuple(sp.sympify(i).xreplace(ren) for i in w.idx)
                    pr = self.p.clone()
                    for (v_, l_, h_) in s.loops:
                        pr.declare(v_, l_, sp.expand(sp.sympify(h_) - 1))
                    stt, sol, cond = solve(idx2, [(t2, lo, t)] + loops2, f.args, pr, st.pc)
                    if stt != "no":
                        rec = True
        # self collisions between different stores of the body in different iterations
        if len(stores) > 1:
            for i, a in enumerate(stores):
                for b in stores[i + 1 :]:
                    if conj(a.guard, b.guard) is False:
                        continue
                    ren = {t: t2}
                    loops2 = []
                    for (v_, l_, h_) in b.loops:
                        nv = alg.fresh("w")
                        ren[v_] = nv
                        loops2.append((nv, sp.sympify(l_).xreplace(ren), sp.sympify(h_).xreplace(ren)))
                    idx2 = tuple(sp.sympify(x).xreplace(ren) for x in b.idx)
                    pr = self.p.clone()
                    for (v_, l_, h_) in a.loops:
                        pr.declare(v_, l_, sp.expand(sp.sympify(h_) - 1))
                    # b in an earlier iteration hits what a writes later
                    stt, sol, cond = solve(idx2, [(t2, lo, t)] + loops2, a.idx, pr, st.pc)
                    if stt != "no" and not rec:
                        return None
        if rec:
            # name reads so that the recurrence can be recognised
            ren = "phi%d" % uid
            sts = []
            for s in stores:
                fx = lambda e: e.replace(lambda f: isinstance(f, sp.Function) and f.func.__name__ == name, lambda f: Function(ren)(*f.args)) if isinstance(e, sp.Basic) else e
                sts.append(St(None, s.loops, fx(s.guard), s.idx, fx(s.val), s.line))
            if desc:
                return None
            return Lp(prev, (), t, lo, hi, sts, uid, getattr(node, "lineno", 0))
        ver = prev
        for s in stores:

            def fx(e):
                if not isinstance(e, sp.Basic):
                    return e
                rs = phireads(e)
                if not rs:
                    return e
                return e.replace(lambda f: isinstance(f, sp.Function) and f.func.__name__ == name, lambda f: self.r.elem(prev, f.args, st.pc))

            ver = St(ver, (tl,) + s.loops, fx(s.guard), s.idx, fx(s.val), s.line)
        return ver

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Giveup("expression %s" % type(e).__name__)
        return m(e, st, env)

    def e_Constant(self, e, st, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        r = num(v)
        return r

    def curmod(self):
        return self.modstack[-1] if getattr(self, "modstack", None) else None

    def lookup(self, name, st, env):
        e = env
        while e is not None:
            d = st.envs.get(e)
            if d is None:
                break
            if name in d:
                return d[name]
            e = d.get("__parent__")
        m = self.curmod()
        if m is not None:
            r = self.mod_lookup(m, name, st)
            if r is not None:
                return r
        return self.builtin(name)

    def mod_lookup(self, m, name, st):
        if name in m.funcs:
            f = FnV(m.funcs[name], None, m, name=name)
            return self.decorated(f, m, st)
        if name in m.classes:
            return ClsV(name, m)
        if name in m.imports:
            return self.module_value(m.imports[name])
        if name in m.consts:
            key = (m.name, name)
            if not hasattr(self, "_constcache"):
                self._constcache = {}
            if key in self._constcache and isinstance(self._constcache[key], Ref) is False:
                return self._constcache[key]
            self.modstack.append(m)
            env = self.newenv(st)
            try:
                v = self.ev(m.consts[name], st, env)
            except Giveup:
                v = Opq("const", (m.name + "." + name,))
            self.modstack.pop()
            self._constcache[key] = v
            return v
        return None

    def decorated(self, f, m, st):
        """A module-level function as its decorators leave it."""
        ds = [d for d in f.node.decorator_list if not (isinstance(d, ast.Name) and d.id in ("overload", "staticmethod", "classmethod", "property"))]
        v = f
        for d in reversed(ds):
            s2 = st or State()
            self.modstack.append(m)
            try:
                dv = self.ev(d, s2, self.newenv(s2))
            finally:
                self.modstack.pop()
            v = self.call(dv, [v], {}, s2, d)
        return v

    def module_value(self, dotted):
        if dotted in self.modules:
            return ModV(dotted)
        # member of a known module
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.modules:
                m = self.modules[mn]
                nm = parts[k]
                if k == len(parts) - 1:
                    if nm in m.funcs:
                        return self.decorated(FnV(m.funcs[nm], None, m, name=nm), m, None)
                    if nm in m.classes:
                        return ClsV(nm, m)
                    if nm in m.imports and m.imports[nm] != dotted:
                        return self.module_value(m.imports[nm])
                    if nm in m.consts:
                        return Opq("const", (dotted,))
                break
        return ModV(canon(dotted), lib_of(dotted))

    def builtin(self, name):
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if self.curmod() is not None and not hasattr(builtins, name) and name not in ("__file__", "__name__", "__path__", "__doc__"):
            return Undef(name)
        return ModV("builtins." + name)

    def e_Name(self, e, st, env):
        v = self.lookup(e.id, st, env)
        return v

    def e_Attribute(self, e, st, env):
        o = self.ev(e.value, st, env)
        return self.getattr(o, e.attr, st, e)

    attr_hook = None

    def getattr(self, o, name, st, node=None):
        if self.attr_hook is not None:
            r = self.attr_hook(self, o, name, st)
            if r is not NotImplemented:
                return r
        if isinstance(o, Ext):
            r = o.attr(self, name, st)
            return Bound(o, name) if r is NotImplemented else r
        if isinstance(o, ModV):
            return self.mod_attr(o, name, st)
        if isinstance(o, Ref) and o.kind == "obj":
            ob = st.heap[o.id]
            if name in ob.attrs:
                return ob.attrs[name]
            if name == "__class__":
                return ob.cls
            m = self.find_member(ob.cls, name, "getter")
            if m is not None and m.prop:
                return self.call_fn(m, [o], {}, st, node)
            if m is not None:
                return FnV(m.node, m.envid, m.mod, selfv=o, name=name, cls=m.cls)
            if ob.open is not None:
                v = ob.open(name)
                if v is not None:
                    ob.attrs[name] = v
                    return v
            c = self.find_classvar(ob.cls, name, st)
            if c is not None:
                return c
            return Opq("attr", (o, name))
        if isinstance(o, Ref) and o.kind == "arr":
            a = st.heap[o.id]
            if name == "shape":
                if a.dims is None:
                    return Opq("shape", (o,))
                return tuple(a.dims)
            if name == "size":
                if a.dims is None:
                    return Opq("size", (o,))
                r = S.One
                for d in a.dims:
                    r = r * d
                return r
            if name == "ndim":
                return sp.Integer(len(a.dims))
            if name == "dtype":
                return a.dtype if a.dtype is not None else Opq("dtype", (a.name,))
            if name == "T":
                return self.transpose(o, st)
            return Bound(o, name)
        if isinstance(o, Ref) and o.kind == "dict":
            ob = st.heap[o.id]
            if ("attr", name) in ob.items:
                return ob.items[("attr", name)]
            if ob.cls is not None:
                m = self.find_member(ob.cls, name, "getter")
                if m is not None and m.prop:
                    return self.call_fn(m, [o], {}, st, node)
                if m is not None:
                    return FnV(m.node, m.envid, m.mod, selfv=o, name=name, cls=m.cls)
            return Bound(o, name)
        if isinstance(o, ClsV):
            m = self.find_member(o, name)
            if m is not None:
                return FnV(m.node, m.envid, m.mod, name=name, cls=m.cls)
            c = self.find_classvar(o, name, st)
            if c is not None:
                return c
            return Opq("clsattr", (o.name, name))
        if isinstance(o, _Super):
            m = self.find_member(o.cls, name, after=o.after)
            if m is None:
                if isinstance(o.selfv, Ref) and o.selfv.kind == "dict":
                    return Bound(o.selfv, name)
                return Opq("super-attr", (name,))
            return FnV(m.node, m.envid, m.mod, selfv=o.selfv, name=name, cls=m.cls)
        if isinstance(o, IteV):
            return self.gate(o.c, self.getattr(o.a, name, st, node), self.getattr(o.b, name, st, node))
        if isinstance(o, Undef):
            self.event("use-undef", st, name=o.name)
            return Opq("undef", (o.name,))
        return Bound(o, name)

    def mod_attr(self, o, name, st):
        if o.name in self.modules:
            m = self.modules[o.name]
            r = self.mod_lookup(m, name, st)
            if r is not None:
                return r
            d = o.name + "." + name
            if d in self.modules:
                return ModV(d)
        d = canon(o.name + "." + name)
        if d in ("np.pi", "math.pi"):
            return sp.pi
        if d in ("np.inf", "math.inf"):
            return sp.oo
        if d == "np.newaxis":
            return None
        return ModV(d, o.lib or lib_of(o.name + "." + name))

    # ---- classes
    def mro(self, c):
        """list of (ClassDef, Module)"""
        key = (c.name, id(c.mod))
        if key in self.clsattr_cache:
            return self.clsattr_cache[key]
        out = []

        def get(c):
            node = getattr(c, "local", None) or (c.mod.classes.get(c.name) if c.mod else None)
            if node is None:
                return
            if any(n is node for n, _ in out):
                return
            out.append((node, c.mod))
            for b in node.bases:
                bc = self.resolve_class(b, c.mod)
                if bc is not None:
                    get(bc)

        # C3-like for the simple diamonds in this repository: depth-first, a base shared by two parents last
        seq = []

        def lin(c):
            node = getattr(c, "local", None) or (c.mod.classes.get(c.name) if c.mod else None)
            if node is None:
                return []
            parents = [self.resolve_class(b, c.mod) for b in node.bases]
            parents = [p for p in parents if p is not None]
            seqs = [lin(p) for p in parents] + [[self.clsnode(p) for p in parents]]
            return [(node, c.mod)] + c3(seqs)

        out = lin(c)
        self.clsattr_cache[key] = out
        return out

    def clsnode(self, c):
        return (getattr(c, "local", None) or c.mod.classes.get(c.name), c.mod)

    def resolve_class(self, b, mod):
        if isinstance(b, ast.Name):
            if b.id in mod.classes:
                return ClsV(b.id, mod)
            if b.id in mod.imports:
                v = self.module_value(mod.imports[b.id])
                return v if isinstance(v, ClsV) else None
        if isinstance(b, ast.Attribute):
            try:
                d = ast.unparse(b).split(".")
            except Exception:
                return None
            if d[0] in mod.imports:
                v = self.module_value(".".join([mod.imports[d[0]]] + d[1:]))
                return v if isinstance(v, ClsV) else None
        return None

    def find_member(self, cls, name, what=None, after=None):
        if not isinstance(cls, ClsV):
            return None
        seq = self.mro(cls)
        started = after is None
        for node, mod in seq:
            if not started:
                if node.name == after:
                    started = True
                continue
            cand = None
            for s in node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    decs = [ast.unparse(d) for d in s.decorator_list]
                    is_setter = any(d.endswith(".setter") for d in decs)
                    if what == "setter":
                        if is_setter:
                            cand = s
                    else:
                        if is_setter:
                            continue
                        cand = s
            if cand is not None:
                decs = [ast.unparse(d) for d in cand.decorator_list]
                f = FnV(cand, getattr(cls, "envid", None) if node is getattr(cls, "local", None) else None, mod, name=name, cls=ClsV(node.name, mod))
                if getattr(cls, "local", None) is node:
                    f.cls = cls
                f.prop = any(d in ("property", "cached_property") or d.endswith(".getter") for d in decs)
                f.static = "staticmethod" in decs
                f.classmethod = "classmethod" in decs
                return f
        return None

    def find_classvar(self, cls, name, st):
        if not isinstance(cls, ClsV):
            return None
        for node, mod in self.mro(cls):
            for s in node.body:
                if isinstance(s, (ast.Assign,)) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return self.ev_in(mod, s.value, st)
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                    return self.ev_in(mod, s.value, st)
        return None

    def ev_in(self, mod, e, st):
        if not hasattr(self, "modstack"):
            self.modstack = []
        self.modstack.append(mod)
        env = self.newenv(st)
        try:
            return self.ev(e, st, env)
        finally:
            self.modstack.pop()

    # ---- operators
    def e_BinOp(self, e, st, env):
        a = self.ev(e.left, st, env)
        b = self.ev(e.right, st, env)
        if isinstance(a, _Dead) or isinstance(b, _Dead):
            return DEAD
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st, inplace=False):
        if isinstance(a, Undef) or isinstance(b, Undef):
            u = a if isinstance(a, Undef) else b
            self.event("use-undef", st, name=u.name)
            if self.undef_hook is not None:
                self.undef_hook(u.name, st)
            return Opq("undef", (u.name,))
        if isinstance(a, Ext) or isinstance(b, Ext):
            r = a.binop(self, op, b, False, st) if isinstance(a, Ext) else NotImplemented
            if r is NotImplemented and isinstance(b, Ext):
                r = b.binop(self, op, a, True, st)
            if r is NotImplemented:
                raise Giveup("%s of %r and %r" % (type(op).__name__, a, b))
            return r
        if isinstance(a, (Ptr,)) and isinstance(op, (ast.Add, ast.Sub)):
            o = self.scal(b)
            return Ptr(a.ref, sp.expand(a.off + (o if isinstance(op, ast.Add) else -o)), a.ctype)
        if self.isarr(a) and st.heap[a.id].dims is None and isinstance(op, (ast.Add, ast.Sub)):
            o = self.scal(b)
            return Ptr(a, o if isinstance(op, ast.Add) else -o)
        if isinstance(a, VarRef) and b == 0:
            return a
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            return Opq("str" + type(op).__name__, (a, b))
        if isinstance(op, ast.Add):
            la, lb = self.seq(a, st), self.seq(b, st)
            if la is not None and lb is not None:
                if isinstance(a, tuple):
                    return tuple(la) + tuple(lb)
                return self.list(st, list(la) + list(lb))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                l = self.seq(x, st)
                if l is not None and isexpr(y) and y.is_Integer:
                    return tuple(l) * int(y) if isinstance(x, tuple) else self.list(st, list(l) * int(y))
        if isinstance(a, IteV) or isinstance(b, IteV):
            c, x = (a.c, a) if isinstance(a, IteV) else (b.c, b)
            if isinstance(a, IteV):
                return self.gate(c, self.binop(op, a.a, b, st), self.binop(op, a.b, b, st))
            return self.gate(c, self.binop(op, a, b.a, st), self.binop(op, a, b.b, st))
        # user-defined operators
        names = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.MatMult: "__matmul__"}
        iname = {ast.Add: "__iadd__", ast.Sub: "__isub__"}
        if isinstance(a, Ref) and a.kind in ("obj", "dict"):
            cls = st.heap[a.id].cls
            if cls is not None:
                if inplace and type(op) in iname:
                    m = self.find_member(cls, iname[type(op)])
                    if m is not None:
                        return self.call_fn(m, [a, b], {}, st, None)
                if type(op) in names:
                    m = self.find_member(cls, names[type(op)])
                    if m is not None:
                        return self.call_fn(m, [a, b], {}, st, None)
        f = {
            ast.Add: lambda x, y: x + y,
            ast.Sub: lambda x, y: x - y,
            ast.Mult: lambda x, y: x * y,
            ast.Div: lambda x, y: x / y,
            ast.Pow: lambda x, y: x**y,
            ast.Mod: lambda x, y: alg.mod(x, y),
            ast.FloorDiv: lambda x, y: alg.floordiv(x, y),
        }.get(type(op))
        if f is None:
            if isinstance(op, ast.MatMult):
                return self.call(ModV("np.matmul"), [a, b], {}, st)
            if isinstance(op, (ast.BitAnd, ast.BitOr)) and iscond(a) and iscond(b):
                return conj(a, b) if isinstance(op, ast.BitAnd) else disj(a, b)
            return Opq(type(op).__name__, (a, b))
        return self.ewise(f, [a, b], st, type(op).__name__)

    def e_UnaryOp(self, e, st, env):
        v = self.ev(e.operand, st, env)
        if isinstance(v, _Dead):
            return v
        if isinstance(v, Ext) and not isinstance(e.op, ast.Not):
            r = v.unary(self, e.op, st)
            if r is NotImplemented:
                raise Giveup("%s of %r" % (type(e.op).__name__, v))
            return r
        if isinstance(e.op, ast.Not):
            c = self.cond(v, st)
            return neg(c) if not isinstance(c, bool) else (not c)
        if isinstance(e.op, ast.USub):
            return self.ewise(lambda x: -x, [v], st, "USub")
        if isinstance(e.op, ast.UAdd):
            return v
        return Opq(type(e.op).__name__, (v,))

    def e_BoolOp(self, e, st, env):
        isand = isinstance(e.op, ast.And)
        vals = []
        base = st.pc
        acc = isand
        try:
            last = None
            for i, x in enumerate(e.values):
                v = self.ev(x, st, env)
                c = self.cond(v, st)
                if isinstance(c, bool):
                    if c is not isand:
                        # short circuit decided
                        if acc is isand:
                            return v if not isinstance(v, (sp.Basic,)) or iscond(v) else (c if i == 0 else c)
                        return conj(acc, c) if isand else disj(acc, c)
                    last = v
                    continue
                acc = conj(acc, c) if isand else disj(acc, c)
                if isinstance(acc, bool) and acc is not isand:
                    return acc
                st.pc = st.pc + ((c,) if isand else (neg(c),))
                last = v
            if acc is isand:
                return last if last is not None else isand
            return acc
        finally:
            st.pc = base

    def e_Compare(self, e, st, env):
        left = self.ev(e.left, st, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, env)
            c = self.compare(op, left, right, st)
            if self.isarr(c) or isinstance(c, (Opq, IteV, Ext)):
                return c
            res = conj(res, c)
            left = right
        return res

    def compare(self, op, a, b, st):
        if isinstance(a, Undef) or isinstance(b, Undef):
            u = a if isinstance(a, Undef) else b
            self.event("use-undef", st, name=u.name)
            if self.undef_hook is not None:
                self.undef_hook(u.name, st)
            return alg.TRUTH(Symbol("undefcmp_%s" % u.name))
        if isinstance(a, Ext) or isinstance(b, Ext):
            r = a.compare(self, op, b, False, st) if isinstance(a, Ext) else b.compare(self, op, a, True, st)
            if r is not NotImplemented:
                return r
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            r = self.same(a, b, st, isinstance(op, (ast.Is, ast.IsNot)))
            if isinstance(r, bool) or iscond(r):
                return r if isinstance(op, (ast.Is, ast.Eq)) else neg(r)
            if r is not None:
                return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            if r is None:
                r = alg.TRUTH(self.scal(Opq("in", (a, b))))
            return r if isinstance(op, ast.In) else neg(r)
        o = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}.get(type(op))
        if o is None:
            return alg.TRUTH(self.scal(Opq(type(op).__name__, (a, b))))
        if self.isarr(a) or self.isarr(b):
            return self.ewise(lambda x, y: condexpr(alg.cmp(o, x, y, self.p, st.pc)), [a, b], st, "cmp" + o)
        x, y = self.scal(a), self.scal(b)
        if x is None or y is None:
            return alg.TRUTH(self.scal(Opq("cmp" + o, (a, b))))
        return alg.cmp(o, x, y, self.p, st.pc)

    def same(self, a, b, st, identity=False):
        """Equality: True/False/cond or None when it must go through arithmetic."""
        if isinstance(a, IteV):
            x, y = self.same(a.a, b, st, identity), self.same(a.b, b, st, identity)
            if (isinstance(x, bool) or iscond(x)) and (isinstance(y, bool) or iscond(y)):
                return disj(conj(a.c, x), conj(neg(a.c), y))
            return alg.TRUTH(self.scal(Opq("eq", (a, b))))
        if isinstance(b, IteV):
            return self.same(b, a, st, identity)
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Opq):
                if getattr(o, "notnone", False) or o.op in ("fn", "pyfn", "partial"):
                    return False
                return alg.TRUTH(self.scal(Opq("isnone", (o,))))
            return False
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            o = b if isinstance(a, str) else a
            if isinstance(o, Opq):
                return alg.TRUTH(self.scal(Opq("eqs", (o, a if isinstance(a, str) else b))))
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if iscond(a) or iscond(b):
                c, k = (a, b) if isinstance(b, bool) else (b, a)
                return c if k else neg(c)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                z = self.compare(ast.Eq(), x, y, st)
                r = conj(r, z)
            return r
        if isinstance(a, Ref) and isinstance(b, Ref) and not identity and a.kind == b.kind == "list":
            x, y = self.items(a, st), self.items(b, st)
            if x is not None and y is not None:
                return self.same(tuple(x), tuple(y), st)
        if isinstance(a, (ModV, ClsV)) and isinstance(b, (ModV, ClsV)):
            return a == b
        if isinstance(a, FnV) or isinstance(b, FnV):
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref) and identity:
            return a == b
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a == b:
                return True
            x, y = self.scal(a), self.scal(b)
            if x is None or y is None:
                return alg.TRUTH(self.scal(Opq("eq", (a, b))))
            if identity or not (isexpr(a) or isexpr(b)):
                ka, kb = sorted([vkey(a), vkey(b)])
                return alg.TRUTH(Symbol("eq(%s,%s)" % (ka, kb)))
        return None

    def contains(self, a, b, st):
        if isinstance(b, Ext):
            r = b.has(self, a, st)
            if r is not None:
                return r
        vs = self.seq(b, st)
        if vs is None and isinstance(b, Ref) and b.kind == "dict":
            vs = [k for k in st.heap[b.id].items if not isinstance(k, tuple)]
        if vs is not None:
            r = False
            for x in vs:
                z = self.compare(ast.Eq(), a, x, st)
                r = disj(r, z)
            return r
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        return None

    def e_IfExp(self, e, st, env):
        c = self.cond(self.ev(e.test, st, env), st)
        d = c if isinstance(c, bool) else self.p.decide(c, st.pc)
        if d is True:
            return self.ev(e.body, st, env)
        if d is False:
            return self.ev(e.orelse, st, env)
        base = st.pc
        st.pc = base + (c,)
        a = self.ev(e.body, st, env)
        st.pc = base + (neg(c),)
        b = self.ev(e.orelse, st, env)
        st.pc = base
        if isinstance(a, _Dead):
            return b
        if isinstance(b, _Dead):
            return a
        return self.gate(c, a, b)

    def e_Tuple(self, e, st, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, env)
                vs = self.items(v, st)
                if vs is None:
                    out.append(Star(v))
                else:
                    out.extend(vs)
            else:
                out.append(self.ev(x, st, env))
        return tuple(out)

    def e_List(self, e, st, env):
        return self.list(st, list(self.e_Tuple(e, st, env)))

    def e_Set(self, e, st, env):
        return Opq("set", self.e_Tuple(e, st, env))

    def e_Dict(self, e, st, env):
        d = {}
        extra = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, env)
            if k is None:
                if isinstance(vv, Ref) and vv.kind == "dict":
                    d.update(st.heap[vv.id].items)
                else:
                    extra.append(vv)
                continue
            d[self.dkey(self.ev(k, st, env))] = vv
        return self.dict(st, d)

    def e_JoinedStr(self, e, st, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, st, env)
                if isinstance(x, Undef):
                    self.event("use-undef", st, name=x.name)
                parts.append(x)
        plain = all(isinstance(v, ast.Constant) or (v.conversion in (-1, 115) and v.format_spec is None) for v in e.values)
        if plain and all(isinstance(p, str) or (isexpr(p) and p.is_Integer) for p in parts):
            return "".join(str(p) for p in parts)
        return Opq("fstr", tuple(parts))

    def e_Lambda(self, e, st, env):
        fv = FnV(e, env, self.curmod(), name="<lambda>")
        fv.defaults = [self.ev(d, st, env) for d in e.args.defaults]
        fv.kwdefaults = [self.ev(d, st, env) if d is not None else None for d in e.args.kw_defaults]
        return fv

    def e_Starred(self, e, st, env):
        return Star(self.ev(e.value, st, env))

    def e_NamedExpr(self, e, st, env):
        v = self.ev(e.value, st, env)
        st.envs[env][e.target.id] = v
        return v

    def e_Slice(self, e, st, env):
        return Opq("slice", (self.ev(e.lower, st, env) if e.lower else None, self.ev(e.upper, st, env) if e.upper else None, self.ev(e.step, st, env) if e.step else None))

    def e_Await(self, e, st, env):
        raise Giveup("await")

    def e_Yield(self, e, st, env):
        raise Giveup("yield")

    def comp(self, e, st, env, kind):
        g = e.generators[0]
        it = self.ev(g.iter, st, env)
        vs = self.items(it, st)
        sub = self.newenv(st, {}, env)

        def elt():
            if kind == "dict":
                return (self.ev(e.key, st, sub), self.ev(e.value, st, sub))
            return self.ev(e.elt, st, sub)

        if vs is None and isinstance(it, Opq) and it.op == "range" and it.args[2] != 1:
            if not all(isexpr(q) and q.is_Integer for q in it.args) or it.args[2] == 0:
                raise Giveup("range with a step")
            vs = [sp.Integer(i) for i in range(*[int(q) for q in it.args])]
        if vs is None and isinstance(it, Opq) and it.op == "range" and sp.expand(it.args[1] - it.args[0]).is_Integer:
            n = int(sp.expand(it.args[1] - it.args[0]))
            if n <= max(8, self.unroll_limit):
                vs = [it.args[0] + i for i in range(n)]
        if vs is not None and len(e.generators) == 1:
            out = []
            ok = True
            for v in vs:
                self.assign(g.target, v, st, sub)
                keep = True
                for c in g.ifs:
                    cc = self.cond(self.ev(c, st, sub), st)
                    if cc is not True and cc is not False and not self.filtered:
                        ok = False
                        break
                    keep = conj(keep, cc)
                if not ok:
                    break
                if keep is not False:
                    out.append((keep, elt()))
            if ok and all(k is True for k, _ in out):
                return [v for _, v in out]
            if ok:
                return Opq("filtered", tuple(out))
        if len(e.generators) == 1:
            lo, hi = S.Zero, None
            if isinstance(it, Opq) and it.op == "range":
                lo, hi, stp = it.args
            else:
                hi = self.length(it, st)
            t = alg.fresh("c")
            self.p.declare(t, lo, sp.expand(hi - 1))
            self.assign(g.target, t if isinstance(it, Opq) and it.op == "range" else self.getitem(it, t, st), st, sub)
            cond = True
            base = st.pc
            for c in g.ifs:
                cc = self.cond(self.ev(c, st, sub), st)
                cond = conj(cond, cc)
                if not isinstance(cc, bool):
                    st.pc = st.pc + (cc,)
            v = elt()
            st.pc = base
            o = Opq("comp", (t, lo, hi, cond, v))
            o.comp = (t, lo, hi, cond, v)
            o.src = it
            return o
        return Opq("comp", (ast.unparse(e),))

    def e_ListComp(self, e, st, env):
        r = self.comp(e, st, env, "list")
        return self.list(st, r) if isinstance(r, list) else r

    def e_GeneratorExp(self, e, st, env):
        r = self.comp(e, st, env, "gen")
        return tuple(r) if isinstance(r, list) else r

    def e_SetComp(self, e, st, env):
        r = self.comp(e, st, env, "set")
        return Opq("set", tuple(r)) if isinstance(r, list) else r

    def e_DictComp(self, e, st, env):
        r = self.comp(e, st, env, "dict")
        if isinstance(r, list):
            return self.dict(st, {self.dkey(k): v for k, v in r})
        return r

    def e_Subscript(self, e, st, env):
        o = self.ev(e.value, st, env)
        if isinstance(o, _Dead):
            return o
        if isinstance(o, (Ptr, VarRef)):
            return self.load(o, e.slice, st, env)
        if self.isarr(o):
            a = st.heap[o.id]
            if a.dims is None:
                return self.load(Ptr(o, S.Zero), e.slice, st, env)
            parts = self.index_parts(e.slice, st, env)
            kept, mp = self.view(st, o, parts)
            if not kept:
                return self.r.elem(a.ver, mp(()), st.pc)
            ver = a.ver
            pc = st.pc
            r = self.arr(st, kept, lambda idx: self.r.elem(ver, mp(idx), pc), "view", a.dtype)
            st.heap[r.id].lib = a.lib
            return r
        k = self.ev(e.slice, st, env)
        return self.getitem(o, k, st)

    def load(self, o, sl, st, env):
        if isinstance(o, VarRef):
            return st.envs[o.envid].get(o.name, Undef(o.name))
        i = self.ev(sl, st, env)
        i = self.scal(i)
        if i is None:
            raise Giveup("pointer index")
        off = sp.expand(o.off + i)
        if self.track:
            self.event("load", st, target=o.ref, idx=(off,))
        cells = st.envs.get("__cells__", {})
        if (o.ref.id, off) in cells:
            return cells[(o.ref.id, off)]
        a = st.heap[o.ref.id]
        v = self.r.elem(a.ver, (off,), st.pc)
        if isinstance(v, Symbol):
            v = self.unscal(v)
        return v

    def items(self, v, st):
        """Python list of the elements if the value is a known finite sequence."""
        if isinstance(v, Ext):
            r = v.iter()
            return None if r is None else list(r)
        if isinstance(v, tuple):
            if any(isinstance(x, Star) for x in v):
                return None
            return list(v)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ListC) and o.tail is None:
                if any(isinstance(x, Star) for x in o.items):
                    return None
                return list(o.items)
            if isinstance(o, DictC) and (o.cls is None or True):
                return [k if not isinstance(k, int) else sp.Integer(k) for k in o.items if not isinstance(k, tuple)]
            if isinstance(o, ArrC) and o.dims and o.dims[0].is_Integer and int(o.dims[0]) <= 16:
                return [self.getitem(v, sp.Integer(i), st) for i in range(int(o.dims[0]))]
        if isinstance(v, Opq) and v.op in ("zip", "enumerate", "reversed", "dict_keys", "dict_values", "dict_items"):
            return None
        return None

    def seq(self, v, st):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ListC) and o.tail is None:
                return list(o.items)
        return None

    def length(self, v, st):
        if isinstance(v, Ext):
            r = v.size(self, st)
            if r is not None:
                return r
        vs = self.seq(v, st)
        if vs is not None and not any(isinstance(x, Star) for x in vs):
            return sp.Integer(len(vs))
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, ArrC) and o.dims:
                return o.dims[0]
            if isinstance(o, DictC):
                return sp.Integer(len([k for k in o.items if not isinstance(k, tuple)]))
            if isinstance(o, ListC) and isinstance(o.tail, Opq) and o.tail.op == "gated-list":
                r = self.listlen(o.items, o.tail)
                if r is not None:
                    return r
        if isinstance(v, str):
            return sp.Integer(len(v))
        if isinstance(v, Opq) and v.op == "range":
            if v.args[2] != 1:
                if all(isexpr(q) and q.is_Integer for q in v.args) and v.args[2] != 0:
                    return sp.Integer(len(range(*[int(q) for q in v.args])))
                if v.args[2] != -1:
                    raise Giveup("range with a step")
                return sp.expand(v.args[0] - v.args[1])
            return sp.expand(v.args[1] - v.args[0])
        if isinstance(v, Opq) and v.op in ("enumerate", "reversed"):
            return self.length(v.args[0], st)
        if isinstance(v, Opq) and v.op == "zip":
            return self.length(v.args[0], st)
        s = Symbol("len(%s)" % vkey(v), integer=True, nonnegative=True)
        if s not in self.p.bounds:
            self.p.declare(s, 0, None)
        return s

    def listlen(self, items, tail):
        if tail is None:
            return sp.Integer(len(items))
        if not (isinstance(tail, Opq) and tail.op == "gated-list"):
            return None
        c, ai_, bi, at, bt = tail.args
        x, y = self.listlen(ai_, at), self.listlen(bi, bt)
        if x is None or y is None:
            return None
        return ite(c, x, y) + len(items) - len(ai_)

    def getitem(self, o, k, st):
        if isinstance(o, Ext):
            r = o.item(self, k, st)
            if r is NotImplemented:
                raise Giveup("item %r of %r" % (k, o))
            return r
        if isinstance(o, IteV):
            return self.gate(o.c, self.getitem(o.a, k, st), self.getitem(o.b, k, st))
        if isinstance(o, tuple) or (isinstance(o, Ref) and isinstance(st.heap.get(o.id), ListC)):
            vs = self.items(o, st)
            if vs is not None and isexpr(k) and k.is_Integer:
                i = int(k)
                if -len(vs) <= i < len(vs):
                    return vs[i]
                self.event("index-error", st, obj=o, key=k)
                return Opq("index-error", ())
            if vs is not None and isinstance(k, Opq) and k.op == "slice":
                lo, hi, stp = k.args
                ok = all(x is None or (isexpr(x) and x.is_Integer) for x in (lo, hi, stp))
                if ok:
                    sl = slice(*[None if x is None else int(x) for x in (lo, hi, stp)])
                    r = vs[sl]
                    return tuple(r) if isinstance(o, tuple) else self.list(st, r)
            if isinstance(o, Ref):
                o2 = st.heap[o.id]
                return Opq("item", (Opq("list", tuple(o2.items) + ((o2.tail,) if o2.tail is not None else ())), k))
            return Opq("item", (o, k))
        if isinstance(o, Ref):
            ob = st.heap.get(o.id)
            if isinstance(ob, DictC):
                if ob.cls is not None:
                    m = self.find_member(ob.cls, "__getitem__")
                    if m is not None:
                        return self.call_fn(m, [o, k], {}, st, None)
                kk = self.dkey(k)
                if kk in ob.items:
                    return ob.items[kk]
                return Opq("item", (o, k))
            if isinstance(ob, ArrC) and ob.dims and k is None:
                import npmodel

                return npmodel.expand_dims(self, o, 0, st)
            if isinstance(ob, ArrC) and ob.dims:
                if isexpr(k) or isinstance(k, bool):
                    parts = [("i", self.scal(k))]
                elif isinstance(k, Opq) and k.op == "slice":
                    parts = [("s", self.scal(k.args[0]) if k.args[0] is not None else S.Zero, self.scal(k.args[1]) if k.args[1] is not None else None)]
                else:
                    return Opq("item", (o, k))
                kept, mp = self.view(st, o, parts)
                if not kept:
                    return self.r.elem(ob.ver, mp(()), st.pc)
                ver, pc = ob.ver, st.pc
                r = self.arr(st, kept, lambda idx: self.r.elem(ver, mp(idx), pc), "view", ob.dtype)
                st.heap[r.id].lib = ob.lib
                return r
            if isinstance(ob, ObjC) and ob.cls is not None:
                m = self.find_member(ob.cls, "__getitem__")
                if m is not None:
                    return self.call_fn(m, [o, k], {}, st, None)
        if isinstance(o, Opq):
            if o.op == "enumerate" and isexpr(k):
                return (k, self.getitem(o.args[0], k, st))
            if o.op == "zip" and isexpr(k):
                return tuple(self.getitem(a, k, st) for a in o.args)
            if o.op == "range" and isexpr(k):
                return sp.expand(o.args[0] + k * o.args[2])
            if o.op == "list" and isexpr(k) and k.is_Integer and 0 <= int(k) < len(o.args):
                return o.args[int(k)]
            if hasattr(o, "comp") and isexpr(k) and o.comp[3] is True and isexpr(o.comp[4]):
                return o.comp[4].xreplace({o.comp[0]: sp.expand(k + o.comp[1])})
        return Opq("item", (o, k))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, env):
        if isinstance(e.func, ast.Name) and e.func.id.startswith("__"):
            r = self.cxx_builtin(e, st, env)
            if r is not NotImplemented:
                return r
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            sv = st.envs[env].get("self")
            frame = env
            while sv is None and frame is not None:
                frame = st.envs[frame].get("__parent__")
                sv = st.envs[frame].get("self") if frame is not None else None
            cls = st.envs[env].get("__class__")
            obcls = st.heap[sv.id].cls if isinstance(sv, Ref) else None
            return _Super(obcls, cls.name if cls else None, sv)
        cxxobj = None
        if isinstance(e.func, ast.Attribute) and self.cxx is not None:
            ov = self.ev(e.func.value, st, env)
            if isinstance(ov, Ref) and ov.kind == "obj" and isinstance(st.heap[ov.id].cls, CxxCls) and e.func.attr not in st.heap[ov.id].attrs:
                cxxobj = ov
        if cxxobj is not None:
            fv = None
        elif self.cxx is not None and isinstance(e.func, ast.Name) and self.curmod() is None and e.func.id in self.cxx.functions and not self.bound(e.func.id, st, env):
            fv = self.cxx_fnv(self.cxx.functions[e.func.id] if not isinstance(self.cxx.functions[e.func.id], list) else self.cxx.functions[e.func.id][0], None)
        else:
            fv = self.ev(e.func, st, env)
        if isinstance(fv, _Dead):
            return fv
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, env)
                vs = self.items(v, st)
                if vs is None:
                    args.append(Star(v))
                else:
                    args.extend(vs)
            else:
                args.append(self.ev(a, st, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, env)
            if k.arg is None:
                if isinstance(v, Ref) and v.kind == "dict":
                    kw.update({a: b for a, b in st.heap[v.id].items.items() if isinstance(a, str)})
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        if any(isinstance(a, _Dead) for a in args):
            return DEAD
        self.line = getattr(e, "lineno", self.line)
        if cxxobj is not None:
            fv = self.cxx_method(cxxobj, e.func.attr, getattr(e.func, "member_cls", None), len(args), st)
            if fv is None:
                fv = Bound(cxxobj, e.func.attr)
        return self.call(fv, args, kw, st, e, env)

    def bound(self, name, st, env):
        while env is not None:
            d = st.envs.get(env)
            if d is None:
                return False
            if name in d:
                return True
            env = d.get("__parent__")
        return False

    def cxx_fnv(self, fn, obj):
        if not hasattr(fn, "_ast"):
            fn._ast = fn.as_ast()
        fv = FnV(fn._ast, None, None, selfv=obj, name=fn.name, cls=CxxCls(fn.cls) if fn.cls else None)
        fv.defaults, fv.kwdefaults = [], []
        fv.cxxfn = fn
        return fv

    def cxx_method(self, obj, name, member_cls, nargs, st):
        u = self.cxx
        oc = st.heap[obj.id].cls.name
        fns = u.resolve(oc, name)
        caller = getattr(self, "_cxxcls", None) and self._cxxcls[-1]
        if member_cls and caller and member_cls in u.classes:
            look = None
            for c in u.mro(caller):
                if name in u.classes[c].methods or name in u.classes[c].decl_methods:
                    look = c
                    break
            if look is not None and look != member_cls and caller in u.classes:
                fns = u.resolve(member_cls, name) or fns
        if not fns:
            return None
        for f in fns:
            if len(f.params) == nargs:
                return self.cxx_fnv(f, obj)
        for f in fns:
            if len(f.params) - len(f.defaults) <= nargs <= len(f.params):
                return self.cxx_fnv(f, obj)
        return None

    def cxx_new(self, clsname, args, st, open=None):
        """Object built by the constructor of clsname that takes these arguments."""
        o = self.obj(st, CxxCls(clsname), open=open)
        r = self.cxx_ctor(o, clsname, args, st, True, set())
        return o if not isinstance(r, _Dead) else DEAD

    def cxx_ctor(self, o, clsname, args, st, most, done):
        u = self.cxx
        c = u.classes[clsname]
        done.add(clsname)
        cands = [f for f in c.methods.get(clsname, []) if len(f.params) == len(args)]
        if not cands and args:
            cands = [f for f in c.methods.get(clsname, []) if len(f.params) > len(args) and all(isinstance(f.defaults.get(p_), ast.AST) for p_ in f.params[len(args) :])]
        if not cands:
            if args:
                raise Giveup("no constructor %s/%d" % (clsname, len(args)))
            for b in c.bases:
                if b in u.classes and b not in done:
                    self.cxx_ctor(o, b, [], st, False, done)
            return None
        f = cands[0]
        fv = self.cxx_fnv(f, o)
        envid = self.newenv(st, dict(zip(["self"] + f.params, [o] + list(args))), None)
        self.push(fv, f.qual)
        try:
            for p_ in f.params[len(args) :]:
                st.envs[envid][p_] = self.ev(f.defaults[p_], st, envid)
            named = {x[1]: x[2] for x in f.inits if x[0] == "base"}
            virt = getattr(u, "virtual_bases", lambda n: set())(clsname)
            order = [b for b in virt if most] + [b for b in c.bases if b not in virt]
            for b in order:
                if b in done or b not in u.classes:
                    continue
                av = [self.ev(x, st, envid) for x in named.get(b, [])]
                r = self.cxx_ctor(o, b, av, st, False, done)
                if isinstance(r, _Dead):
                    return r
            for kind, nm, av in f.inits:
                if kind == "field" and av:
                    own = nm if "." in nm else clsname + "." + nm
                    st.heap[o.id].attrs[own] = self.ev(av[0], st, envid)
            fl = self.block(f.body or [], st, envid)
        finally:
            self.pop()
        outs = [(pc, s) for pc, v, s in fl.rets]
        if fl.normal is not None:
            outs.append((fl.normal.pc, fl.normal))
        if not outs:
            return DEAD
        base = st.pc
        m = self.merge_all(outs, base)
        self.replace(st, m)
        st.pc = base
        return None

    def call(self, fv, args, kw, st, node=None, env=None):
        self.stats["calls"] += 1
        if self.call_hook is not None:
            r = self.call_hook(self, fv, args, kw, st, node, env)
            if r is not NotImplemented:
                return r
        if isinstance(fv, Ext) or (isinstance(fv, Bound) and isinstance(fv.v, Ext)):
            r = fv.call(self, args, kw, st) if isinstance(fv, Ext) else fv.v.method(self, fv.name, args, kw, st)
            if r is NotImplemented:
                raise Giveup("call of %r" % (fv,))
            return r
        if isinstance(fv, FnV):
            a = list(args)
            if fv.selfv is not None and not getattr(fv, "static", False):
                a = [fv.selfv] + a
            return self.call_fn(fv, a, kw, st, node, env)
        if isinstance(fv, ModV):
            top = Interp.serial
            r = self.np_call(fv.name, args, kw, st, node)
            if fv.lib is not None and self.isarr(r) and r.id > top and st.heap[r.id].lib is None:
                st.heap[r.id].lib = fv.lib
            return r
        if isinstance(fv, Opq) and fv.op == "partial":
            return self.call(fv.args[0], list(fv.args[1]) + list(args), dict(dict(fv.args[2]), **kw), st, node, env)
        if isinstance(fv, ClsV):
            return self.construct(fv, args, kw, st, node)
        if isinstance(fv, Bound):
            return self.bound_call(fv, args, kw, st, node)
        if isinstance(fv, IteV):
            base = st.pc
            s1, s2 = st.fork(), st.fork()
            s1.pc = base + (fv.c,)
            s2.pc = base + (neg(fv.c),)
            a = self.call(fv.a, args, kw, s1, node, env)
            b = self.call(fv.b, args, kw, s2, node, env)
            if isinstance(a, _Dead):
                self.replace(st, s2)
                return b
            if isinstance(b, _Dead):
                self.replace(st, s1)
                return a
            m = self.merge(fv.c, s1, s2, base)
            self.replace(st, m)
            return self.gate(fv.c, a, b)
        if isinstance(fv, Ref) and fv.kind == "obj":
            m = self.find_member(st.heap[fv.id].cls, "__call__")
            if m is not None:
                return self.call_fn(m, [fv] + list(args), kw, st, node)
        if isinstance(fv, Undef):
            self.event("use-undef", st, name=fv.name)
            if self.undef_hook is not None:
                self.undef_hook(fv.name, st)
        self.event("call-opaque", st, callee=fv, args=args, kw=kw)
        return Opq("call", (fv,) + tuple(args) + tuple(("kw", k, v) for k, v in sorted(kw.items())))

    def replace(self, st, new):
        st.envs, st.heap, st.pc = new.envs, new.heap, new.pc

    def construct(self, cls, args, kw, st, node):
        dictlike = any(n.name == "TFCDict" or any(isinstance(b, ast.Name) and b.id in ("dict", "OrderedDict") for b in n.bases) for n, _ in self.mro(cls))
        if not self.mro(cls):
            return Opq("new", (cls.name,) + tuple(args) + tuple(("kw", k, v) for k, v in sorted(kw.items())))
        if dictlike:
            o = self.dict(st, {}, cls)
        else:
            o = self.obj(st, cls)
        m = self.find_member(cls, "__init__")
        if m is not None:
            r = self.call_fn(m, [o] + list(args), kw, st, node)
            if isinstance(r, _Dead):
                return r
        return o

    def bind_args(self, fv, args, kw, st):
        node = fv.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        defaults = getattr(fv, "defaults", None)
        if defaults is None:
            self.modstack.append(fv.mod)
            try:
                ne = self.newenv(st, {}, fv.envid)
                defaults = [self.ev(x, st, ne) for x in a.defaults]
                kwd = [self.ev(x, st, ne) if x is not None else None for x in a.kw_defaults]
            finally:
                self.modstack.pop()
        else:
            kwd = fv.kwdefaults
        rest = []
        args = list(args)
        # a starred unknown only ever lands in *args
        for i, v in enumerate(args):
            if isinstance(v, Star) and i < len(names):
                # spread unknown over remaining positionals
                for j, n in enumerate(names[i:]):
                    if n not in kw:
                        d[n] = self.getitem(v.v, sp.Integer(j), st)
                args = args[:i]
                rest = [Star(v.v)]
                break
        for n, v in zip(names, args):
            d[n] = v
        extra = args[len(names) :]
        if a.vararg:
            d[a.vararg.arg] = tuple(extra)
        elif extra:
            self.event("arity", st, callee=fv.name, extra=len(extra))
        off = len(names) - len(defaults)
        for i, n in enumerate(names):
            if n in kw:
                d[n] = kw[n]
            elif n not in d and i >= off:
                d[n] = defaults[i - off]
            elif n not in d:
                d[n] = Undef(n)
                self.event("arity", st, callee=fv.name, missing=n)
        for x, v in zip(a.kwonlyargs, kwd):
            d[x.arg] = kw.get(x.arg, v)
        if a.kwarg:
            known = set(names) | {x.arg for x in a.kwonlyargs}
            d[a.kwarg.arg] = self.dict(st, {k: v for k, v in kw.items() if k not in known})
        return d

    def call_fn(self, fv, args, kw, st, node=None, callenv=None):
        if not hasattr(self, "modstack"):
            self.modstack = []
        name = fv.name or "<fn>"
        if self.depth > self.maxdepth or sum(1 for n in self.nodestack() if n is fv.node) > 2:
            if self.rec_hook is not None:
                r = self.rec_hook(self, fv, args, kw, st, node)
                if r is not NotImplemented:
                    return r
            self.note("recursion cut at %s" % name)
            return Opq("rec", (name,) + tuple(args))
        fnode = fv.node
        q = (fv.cls.name + "." if isinstance(fv.cls, (ClsV, CxxCls)) else "") + name
        self.stats["functions"].add((fv.mod.name if fv.mod else "cxx", q))
        d = self.bind_args(fv, args, kw, st)
        envid = self.newenv(st, d, fv.envid)
        if isinstance(fv.cls, ClsV):
            st.envs[envid]["__class__"] = fv.cls
        if isinstance(fnode, ast.Lambda) and not hasattr(fnode, "cxx_body"):
            self.push(fv, q)
            try:
                return self.ev(fnode.body, st, envid)
            finally:
                self.pop()
        body = getattr(fnode, "cxx_body", None) or fnode.body
        cf = getattr(fv, "cxxfn", None)
        if cf is not None:
            for p_, dflt in cf.defaults.items():
                if isinstance(d.get(p_), Undef) and isinstance(dflt, ast.AST):
                    st.envs[envid][p_] = self.ev(dflt, st, envid)
        tl = tail_loop(fnode, fv) if not isinstance(fnode, ast.Lambda) else None
        if tl is not None:
            body = tl
        base = st.pc
        self.push(fv, q)
        try:
            fl = self.block(body, st, envid)
        finally:
            self.pop()
        outs = list(fl.rets)
        if fl.normal is not None:
            outs.append((fl.normal.pc, None, fl.normal))
        if not outs:
            return DEAD
        v, s = self.merge_vals(outs, base)
        self.replace(st, s)
        st.pc = base
        if cf is not None and cf.byref and node is not None and callenv is not None:
            for p_, an in zip(cf.params, node.args):
                if p_ in cf.byref and isinstance(an, (ast.Name, ast.Attribute, ast.Subscript)):
                    nv = st.envs[envid].get(p_)
                    t_ = copy.copy(an)
                    t_.ctx = ast.Store()
                    if isinstance(t_, ast.Name):
                        st.envs[callenv][t_.id] = nv
                    elif not veq(self.ev(an, st, callenv), nv):
                        self.assign(t_, nv, st, callenv)
        return v

    def nodestack(self):
        return getattr(self, "_nodes", [])

    def push(self, fv, q):
        if not hasattr(self, "_nodes"):
            self._nodes = []
        if not hasattr(self, "modstack"):
            self.modstack = []
        if not hasattr(self, "_cxxcls"):
            self._cxxcls = []
        self._cxxcls.append(fv.cls.name if isinstance(fv.cls, CxxCls) else None)
        self._nodes.append(fv.node)
        self.modstack.append(fv.mod)
        self.stack.append(q)
        self.depth += 1

    def pop(self):
        self._nodes.pop()
        self._cxxcls.pop()
        self.modstack.pop()
        self.stack.pop()
        self.depth -= 1

    # ---- C++ pseudo builtins
    def cxx_builtin(self, e, st, env):
        n = e.func.id
        if n == "__undef":
            return Undef(e.args[0].value)
        if n == "__toint":
            v = self.scal(self.ev(e.args[0], st, env))
            if v is None:
                raise Giveup("int conversion")
            if is_int(v):
                return v
            return Function("i_TRUNC")(v)
        if n == "__tobool":
            return self.cond(self.ev(e.args[0], st, env), st)
        if n == "__cast":
            v = self.ev(e.args[1], st, env)
            t = e.args[0].value
            if isinstance(v, Opq):
                return Opq("cast", (t, v)) if not hasattr(v, "as_ptr") else v.as_ptr(t)
            if isinstance(v, Ptr):
                return Ptr(v.ref, v.off, t)
            if self.call_hook is not None:
                r = self.call_hook(self, "__cast", [t, v], {}, st, e, env)
                if r is not NotImplemented:
                    return r
            return v
        if n == "__new":
            sz = self.scal(self.ev(e.args[0], st, env))
            uid = self.new()
            nm = "new%d" % uid
            ref = self.arr(st, None, lambda idx, nm=nm: Function("uninit_" + nm)(*idx), nm, alloc=("new[]", sz, self.line, str(e.args[1].value).split()[0].rstrip("*") if len(e.args) > 1 else None))
            self.event("alloc", st, target=ref, size=sz, how="new[]")
            return Ptr(ref, S.Zero)
        if n == "__delete":
            v = self.ev(e.args[0], st, env)
            self.event("free", st, target=v, how="delete[]" if e.args[1].value else "delete")
            return None
        if n == "__sizeof":
            return Symbol("sizeof_%s" % e.args[0].value.replace(" ", ""), positive=True, integer=True)
        if n == "__ref":
            a = e.args[0]
            if isinstance(a, ast.Name):
                return VarRef(env, a.id)
            return Opq("addr", (ast.unparse(a),))
        if n == "__throw":
            self.event("raise", st, name="throw")
            return _Dead()
        if n in ("__construct", "__newobj") or n.startswith("__op"):
            args = [self.ev(a, st, env) for a in e.args]
            return Opq(n, tuple(args))
        return NotImplemented

    # ---- library models are attached in npmodel.py
    def np_call(self, name, args, kw, st, node):
        import npmodel

        return npmodel.call(self, name, args, kw, st, node)

    def bound_call(self, b, args, kw, st, node):
        import npmodel

        top = Interp.serial
        r = npmodel.method(self, b, args, kw, st, node)
        if self.isarr(b.v) and self.isarr(r) and r.id > top and st.heap[r.id].lib is None:
            st.heap[r.id].lib = st.heap[b.v.id].lib
        return r

    def transpose(self, o, st):
        a = st.heap[o.id]
        if a.dims is None:
            raise Giveup("transpose")
        ver, pc = a.ver, st.pc
        return self.arr(st, tuple(reversed(a.dims)), lambda idx: self.r.elem(ver, tuple(reversed(idx)), pc), "T", a.dtype)


class _Dead:
    def __repr__(self):
        return "DEAD"


DEAD = _Dead()


class _Super:
    def __init__(self, cls, after, selfv):
        self.cls, self.after, self.selfv = cls, after, selfv


def is_int_sym(ph):
    return isinstance(ph, Symbol) and bool(ph.is_integer)


def flat_ite(e):
    """ITE(c, ITE(d, x, y), y) -> ITE(c and d, x, y) and the like."""
    while isinstance(e, sp.Function) and e.func == alg.ITE:
        c, a, b = e.args
        a, b = flat_ite(a), flat_ite(b)
        if isinstance(a, sp.Function) and a.func == alg.ITE:
            if sp.expand(a.args[2] - b) == 0:
                e = ite(conj(c, a.args[0]), a.args[1], b)
                continue
            if sp.expand(a.args[1] - b) == 0:
                e = ite(conj(c, neg(a.args[0])), a.args[2], b)
                continue
        if isinstance(b, sp.Function) and b.func == alg.ITE:
            if sp.expand(b.args[2] - a) == 0:
                e = ite(conj(neg(c), b.args[0]), b.args[1], a)
                continue
            if sp.expand(b.args[1] - a) == 0:
                e = ite(conj(neg(c), neg(b.args[0])), b.args[2], a)
                continue
        return ite(c, a, b)
    return e


def lib_of(d):
    """Which array library a dotted name belongs to: jax arrays never change in place."""
    if d == "jax" or d.startswith("jax."):
        return "jax"
    if d == "numpy" or d.startswith("numpy."):
        return "numpy"
    return None


def canon(d):
    for a in ("jax.numpy", "numpy"):
        if d == a:
            return "np"
        if d.startswith(a + "."):
            return "np." + d[len(a) + 1 :]
    return d


def c3(seqs):
    out = []
    seqs = [list(s) for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(any(x[0] is h[0] for x in t[1:]) for t in seqs):
                break
        else:
            return out
        out.append(h)
        ns = []
        for s in seqs:
            if s[0][0] is h[0]:
                s = s[1:]
            if s:
                ns.append(s)
        seqs = ns
    return out


def byref_names(u, n):
    """positions of arguments that some overload of the called C++ function takes by reference"""
    if u is None:
        return ()
    nm = n.func.attr if isinstance(n.func, ast.Attribute) else (n.func.id if isinstance(n.func, ast.Name) else None)
    out = set()
    for c in u.classes.values():
        for f in c.methods.get(nm, []):
            for i, p in enumerate(f.params):
                if p in f.byref:
                    out.add(i)
    return out


# ------------------------------------------------------------------ tail recursion -> loop
def is_self_call(e, fname, method):
    if not isinstance(e, ast.Call):
        return False
    f = e.func
    if isinstance(f, ast.Name) and not method:
        return f.id == fname
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and method:
        return f.attr == fname
    return False


def count_self(stmts, fname, method):
    n = 0
    for s in stmts:
        for x in ast.walk(s):
            if is_self_call(x, fname, method):
                n += 1
    return n


def tail_loop(fnode, fv):
    """Rewrite a function whose only self calls are tail calls into `while not exit: step; exit`."""
    if hasattr(fnode, "_tail"):
        return fnode._tail
    fnode._tail = None
    fname = fnode.name
    params = [a.arg for a in fnode.args.args]
    method = bool(params) and params[0] == "self"
    total = count_self(fnode.body, fname, method)
    if total == 0:
        return None

    def ends(stmts):
        """list of statements ends the function?"""
        if not stmts:
            return False
        l = stmts[-1]
        if isinstance(l, (ast.Return, ast.Raise)):
            return True
        if isinstance(l, ast.If):
            return ends(l.body) and bool(l.orelse) and ends(l.orelse)
        return False

    def flatten(stmts):
        """push trailing statements into the branches of a top-level if that contains self calls"""
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and count_self([s], fname, method):
                rest = stmts[i + 1 :]
                b = list(s.body) + ([] if ends(s.body) else rest)
                o = list(s.orelse) + ([] if ends(s.orelse) else rest)
                return stmts[:i], s, b, o
            if isinstance(s, ast.If) and not count_self([s], fname, method) and ends(s.body) and not s.orelse and count_self(stmts[i + 1 :], fname, method):
                return stmts[:i], s, list(s.body), stmts[i + 1 :]
            if isinstance(s, ast.If) and not count_self([s], fname, method) and s.orelse and ends(s.orelse) and count_self(stmts[i + 1 :], fname, method):
                return stmts[:i], s, list(s.body) + stmts[i + 1 :], list(s.orelse)
        return None

    f = flatten(list(fnode.body))
    if f is None:
        return None
    pre, iff, b, o = f
    pre = [p for p in pre if not (isinstance(p, ast.Expr) and isinstance(p.value, ast.Constant))]
    if count_self(pre, fname, method):
        return None
    nb, no = count_self(b, fname, method), count_self(o, fname, method)
    if (nb > 0) == (no > 0):
        return None
    step, exit_, test = (b, o, iff.test) if nb else (o, b, ast.UnaryOp(op=ast.Not(), operand=iff.test))
    # the tail call must be the last statement of step
    while step and isinstance(step[-1], ast.Return) and step[-1].value is None:
        step = step[:-1]
    if not step:
        return None
    last = step[-1]
    call = last.value if isinstance(last, (ast.Return, ast.Expr)) else None
    if call is None or not is_self_call(call, fname, method):
        return None
    if count_self(step, fname, method) != 1:
        return None
    ps = params[1:] if method else params
    new = []
    vals = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred) or i >= len(ps):
            return None
        vals[ps[i]] = a
    for k in call.keywords:
        if k.arg is None:
            return None
        vals[k.arg] = k.value
    ndef = len(fnode.args.defaults)
    names, exprs = [], []
    for i, p in enumerate(ps):
        if p not in vals:
            # default value
            k = i - (len(ps) - ndef)
            if k < 0:
                return None
            vals[p] = fnode.args.defaults[k]
        if isinstance(vals[p], ast.Name) and vals[p].id == p:
            continue
        names.append(p)
        exprs.append(vals[p])
    ln = getattr(last, "lineno", 0)
    body = list(step[:-1])
    if names:
        tmp = ["__t_%s" % p for p in names]
        for t, x in zip(tmp, exprs):
            a = ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=x)
            a.lineno = ln
            body.append(a)
        for p, t in zip(names, tmp):
            a = ast.Assign(targets=[ast.Name(id=p, ctx=ast.Store())], value=ast.Name(id=t, ctx=ast.Load()))
            a.lineno = ln
            body.append(a)
    body = body + [copy.deepcopy(x) for x in pre]
    w = ast.While(test=test, body=body or [ast.Pass()], orelse=[])
    w.lineno = iff.lineno
    w.tail_of = fname
    for x in ast.walk(w):
        if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"):
            x.lineno = ln
    res = pre + [w] + list(exit_)
    fnode._tail = res
    return res
