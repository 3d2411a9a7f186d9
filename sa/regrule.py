"""The table that leads from a compiled call back to the basis object.

Representation invariant: the table holds the objects in the order of their identifiers. Every constructor is
interpreted from a state that satisfies it (n objects, next identifier n) and must leave object n at position n with
identifier n and the next identifier n + 1; nothing else may shrink or reorder the table; the wrapper must use the
entry whose position is its first operand."""
import ast
import sympy as sp
from sympy import S, Symbol, Integer, Function
import ai
import alg
from ai import Opq, Ref, Bound, Giveup, CxxCls, Ptr, State
from core import modules, AnchorLost, parallel
from bf import unit
from solver import Wrong
import domain
import nd
import nelm

BASE = "BasisFunc"
ONE = ("CP", "LeP", "LaP", "HoPpro", "HoPphy", "FS", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish", "ELMReLU")
PROD = ("nCP", "nLeP", "nFS")
NELM = ("nELMSigmoid", "nELMTanh", "nELMSin", "nELMSwish", "nELMReLU")
S0 = Symbol("registered", integer=True, nonnegative=True)


def table(u):
    """Names of the object table and of the counter."""
    c = u.classes.get(BASE)
    if c is None:
        raise AnchorLost("class BasisFunc")
    tab = [n for n, t in c.static.items() if t.replace(" ", "").startswith("std::vector<BasisFunc*")]
    cnt = [n for n, t in c.static.items() if t in ("int", "unsigned int", "long", "size_t", "std::size_t", "unsigned long")]
    return tab, cnt


class Reg:
    def __init__(self, u, cnt, tab):
        p = alg.Prover()
        for s, lo in ((domain.N, 1), (domain.M, 1), (domain.nc, 0), (S0, 0)):
            p.declare(s, lo)
        self.ip = ai.Interp(modules(), u, p)
        self.ip.modstack = []
        self.st = State()
        self.pushed = []
        self.hint = domain.cxx_hint_hook([])
        self.ip.call_hook = self.hook
        self.pre = {"%s.%s" % (BASE, tab): Opq("table", ())}
        if cnt:
            self.pre["%s.%s" % (BASE, cnt)] = S0

    def hook(self, ip, fv, args, kw, st, node, env):
        if isinstance(fv, Bound) and isinstance(fv.v, Opq) and fv.v.op == "table":
            if fv.name in ("push_back", "emplace_back"):
                self.pushed.append((args[0], st.pc, ip.line))
                return None
            if fv.name == "size":
                return S0 + len(self.pushed)
            if fv.name == "at":
                return Opq("item", (fv.v, args[0]))
            if fv.name == "reserve":
                return None
            raise Giveup("%s of the object table" % fv.name)
        nm = getattr(fv, "name", None)
        if nm in ("NumBasisFunc", "RecurseBasis", "Hint", "nHint"):
            return None
        return self.hint(ip, fv, args, kw, st, node, env)


def args_of(R, cls):
    ip, st = R.ip, R.st
    if cls in ONE:
        nC = ip.arr(st, None, lambda i: domain.NC(i[0]), "nC")
        return [domain.x0, domain.xf, nC, domain.nc, domain.M]
    a = [ip.arr(st, None, lambda i, n=n: Function(n)(i[0]), n) for n in ("x0", "xf", "i_nC")]
    D, n, m = (Symbol(q, integer=True, positive=True) for q in ("DIM", "ncn", "mm"))
    for s in (D, n, m):
        ip.p.declare(s, 1)
    if cls in PROD:
        return [a[0], D, a[1], D, a[2], D, n, m]
    return [a[0], D, a[1], D, a[2], n, m]


def construct(rep, cls):
    u = unit()
    con = "constructor of %s" % cls
    if cls not in u.classes:
        rep.undecided("object-table", con, "no class %s" % cls)
        return
    tab, cnt = table(u)
    where = "src/tfc/utils/BF.cc " + cls
    try:
        if len(tab) != 1:
            raise Giveup("object table")
        R = Reg(u, cnt[0] if len(cnt) == 1 else None, tab[0])
        ip, st = R.ip, R.st
        o = ip.obj(st, CxxCls(cls))
        st.heap[o.id].attrs.update(R.pre)
        r = ip.cxx_ctor(o, cls, args_of(R, cls), st, True, set())
        rep.stats(ip)
        if isinstance(r, ai._Dead):
            raise Giveup("the constructor does not complete")
        A = st.heap[o.id].attrs
        if any(pc for _, pc, _ in R.pushed):
            bad = [ln for _, pc, ln in R.pushed if pc]
            raise Giveup("entered conditionally (line %s)" % bad[0])
        if len(R.pushed) != 1:
            raise Wrong("the object is entered %d times" % len(R.pushed))
        if not ai.veq(R.pushed[0][0], o):
            raise Wrong("line %s enters something else than the new object" % R.pushed[0][2])
        ident = A.get(BASE + ".identifier")
        if not alg.isexpr(ident):
            raise Giveup("identifier %r" % (ident,)) if ident is not None else Wrong("the object gets no identifier")
        if sp.expand(ident - S0) != 0:
            raise Wrong("the object at position %s gets identifier %s" % (S0, ident))
        if len(cnt) == 1:
            n = A.get("%s.%s" % (BASE, cnt[0]))
            uses = any(cnt[0] in reads(f) for c in u.classes.values() for fs in c.methods.values() for f in fs)
            if uses:
                if not alg.isexpr(n):
                    raise Giveup("counter %r" % (n,))
                if sp.expand(n - S0 - 1) != 0 and R.pre.get("%s.%s" % (BASE, cnt[0])) in (ident,) and fromcounter(u, cnt[0]):
                    raise Wrong("the next identifier becomes %s with %s objects entered" % (n, S0 + 1))
        cap = A.get(BASE + ".xlaCapsule")
        txt = repr(cap)
        if cap is None:
            raise Wrong("the object has no routine for compiled calls")
        if "xlaWrapper" not in txt:
            if isinstance(cap, Opq) and "PyCapsule_New" in txt:
                raise Giveup("capsule %s" % txt[:80])
            raise Giveup("capsule %s" % txt[:80])
        if "xla._CUSTOM_CALL_TARGET" not in txt:
            raise Wrong("the capsule is not named xla._CUSTOM_CALL_TARGET, as its reader requires")
    except Wrong as e:
        rep.violation("object-table", con, where, str(e))
    except Giveup as e:
        rep.undecided("object-table", con, e)
    else:
        rep.hold("object-table", con)


def reads(f):
    out = set()
    for s in f.body or []:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute):
                out.add(n.attr.split(".")[-1])
            elif isinstance(n, ast.Name):
                out.add(n.id)
    return out


def fromcounter(u, cnt):
    """Some identifier is read from the counter."""
    for c in u.classes.values():
        for fs in c.methods.values():
            for f in fs:
                for s in f.body or []:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr.split(".")[-1] == "identifier" for t in n.targets):
                            if any(isinstance(q, ast.Attribute) and q.attr.split('.')[-1] == cnt for q in ast.walk(n.value)):
                                return True
                            if any(isinstance(q, ast.Name) for q in ast.walk(n.value)):
                                return True
    return False


SHRINK = {"erase", "pop_back", "clear", "insert", "swap", "assign", "shrink", "emplace"}


def discipline(rep):
    """Nothing removes or moves entries of the table, or turns the counter back."""
    u = unit()
    con = "entries stay where they are"
    tab, cnt = table(u)
    if len(tab) != 1:
        rep.undecided("object-table", con, "object table")
        return
    tab = tab[0]
    n = 0
    for f in [f for c in u.classes.values() for fs in c.methods.values() for f in fs] + list(u.functions.values()):
        n += 1
        body = f.body or []
        if getattr(f, "unsupported", False):
            continue
        for s in body:
            for q in ast.walk(s):
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in SHRINK and hastab(q.func.value, tab):
                    rep.violation("object-table", con, "src/tfc/utils/BF.cc:%s %s" % (getattr(q, "lineno", f.line), f.qual), "%s of the object table: the entries behind it no longer stand at the position given by their identifier" % q.func.attr)
                    return
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == "resize" and hastab(q.func.value, tab):
                    rep.undecided("object-table", con, "resize in %s" % f.qual)
                    return
    u_ = u.statics.get((BASE, cnt[0])) if len(cnt) == 1 else 0
    if len(cnt) == 1 and (BASE, cnt[0]) in u.statics and fromcounter(u, cnt[0]):
        if u_ is None:
            rep.undecided("object-table", con, "initial value of the counter")
            return
        if u_ != 0:
            rep.violation("object-table", con, "src/tfc/utils/BF.cc " + cnt[0], "the first identifier is %s while the first object stands at position 0" % u_)
            return
    rep.hold("object-table", con)


def hastab(e, tab):
    return isinstance(e, ast.Attribute) and e.attr.split(".")[-1] == tab


def counter(rep):
    """Only constructors change the counter, and only upwards."""
    u = unit()
    con = "identifiers are not given twice"
    tab, cnt = table(u)
    if len(cnt) != 1:
        rep.hold("object-table", con)
        return
    for c in u.classes.values():
        for fs in c.methods.values():
            for f in fs:
                if f.kind == "CXXConstructorDecl":
                    continue
                for s in f.body or []:
                    for q in ast.walk(s):
                        if isinstance(q, (ast.Assign, ast.AugAssign)):
                            ts = q.targets if isinstance(q, ast.Assign) else [q.target]
                            if any(isinstance(t, ast.Attribute) and t.attr.split('.')[-1] == cnt[0] for t in ts):
                                if f.kind == "CXXDestructorDecl":
                                    rep.violation("object-table", con, "src/tfc/utils/BF.cc:%s %s" % (getattr(q, "lineno", f.line), f.qual), "destroying an object changes the next identifier; the next object shares one with a living object")
                                    return
    rep.hold("object-table", con)


def wrapper(rep):
    u = unit()
    con = "compiled call finds its object"
    tab, cnt = table(u)
    f = u.functions.get("xlaWrapper")
    if f is None or len(tab) != 1:
        rep.undecided("object-table", con, "xlaWrapper")
        return
    where = "src/tfc/utils/BF.cc:%s xlaWrapper" % f.line
    calls = []
    try:
        R = Reg(u, cnt[0] if len(cnt) == 1 else None, tab[0])
        ip, st = R.ip, R.st
        I = Function("i_ident")
        inp = ip.arr(st, None, lambda i: Function("in_unset")(i[0]), "in")
        cells = st.envs.setdefault("__cells__", {})
        for q in range(7):
            cells[(inp.id, Integer(q))] = Ptr(ip.arr(st, None, lambda i, q=q: Function("i_op%d" % q)(i[0]), "in%d" % q), S.Zero)
        out = ip.arr(st, None, lambda i: Function("uninit_out")(i[0]), "out")
        o = ip.obj(st, CxxCls(BASE))
        st.heap[o.id].attrs.update(R.pre)

        def hook(ip_, fv, args, kw, st_, node, env):
            if isinstance(fv, Bound) and fv.name == "xla":
                calls.append((fv.v, list(args), st_.pc))
                return None
            return R.hook(ip_, fv, args, kw, st_, node, env)

        ip.call_hook = hook
        env = ip.newenv(st, {"self": o, f.params[0]: out, f.params[1]: inp}, None)
        fv = ip.cxx_fnv(f, None)
        ip.push(fv, f.qual)
        try:
            ip.block(fv.node.body, st, env)
        finally:
            ip.pop()
        rep.stats(ip)
        if len(calls) != 1 or calls[0][2]:
            raise Giveup("%d calls of xla" % len(calls))
        v, a, _ = calls[0]
        want = Function("i_op0")(S.Zero)
        if isinstance(v, Opq) and len(v.args) == 2 and isinstance(v.args[0], Opq) and v.args[0].op == "table":
            k = v.args[1]
        else:
            raise Giveup("object %r" % (v,))
        if not alg.isexpr(k):
            raise Giveup("position %r" % (k,))
        if sp.expand(k - want) != 0:
            raise Wrong("the entry at position %s is used instead of the one named by the first operand" % k)
        if len(a) != 2 or not same(a[0], out) or not same(a[1], inp):
            raise Wrong("the buffers are not handed on unchanged")
    except Wrong as e:
        rep.violation("object-table", con, where, str(e))
    except Giveup as e:
        rep.undecided("object-table", con, e)
    else:
        rep.hold("object-table", con)


def same(a, b):
    if isinstance(a, Ptr):
        return a.off == 0 and a.ref == b
    return a == b


def check(rep):
    unit()
    jobs = [(construct, (c,)) for c in ONE + PROD + NELM] + [(discipline, ()), (counter, ()), (wrapper, ())]
    parallel(rep, jobs)


def check_entries(rep):
    """The native entry used by compiled calls computes what the direct one does."""
    from core import Report

    sub = Report(rep.prop, rep.tier)
    for m in (domain, nd, nelm):
        m.check(sub)
    rep.ok += [o for o in sub.ok if "xla" in o[1]]
    rep.und += [o for o in sub.und if "xla" in o[1] or "xla" in o[2]]
    rep.viol += [v for v in sub.viol if "xla" in v[0]]
    rep.analysed["functions"] |= sub.analysed["functions"]
    for k in ("loops", "stores", "calls"):
        rep.analysed[k] += sub.analysed[k]
