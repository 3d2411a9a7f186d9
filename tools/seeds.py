SEEDS = []


def seed(id, property, file, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))


CC = "utils/BF.cc"
PY = "utils/BF_Py.py"

seed(
    "s01-cp-second-derivative-small-m",
    "P01",
    CC,
    [["        if (d > 1) {\n            for (k = 0; k < m * nOut; k++)\n                dark[k] = 0.;", "        if (d > 2) {\n            for (k = 0; k < m * nOut; k++)\n                dark[k] = 0.;"]],
    """
import numpy as np
from tfc.utils.BF import CP
b = CP(0.0, 2.0, np.array([], dtype=np.int32), 2)
F = b.H(np.linspace(0.0, 2.0, 4), 2, True)
assert np.all(F == 0.0), F
""",
    "two functions and a second derivative",
    "the second derivative of the linear Chebyshev polynomial comes out as a constant",
)
seed(
    "s02-sigmoid-order-eight-table",
    "P02",
    CC,
    [["181440. * pow(sig[m * j + k], 8) + 40320. * pow(sig[m * j + k], 9)", "181440. * pow(sig[m * j + k], 8) + 40230. * pow(sig[m * j + k], 9)"]],
    """
import numpy as np
from tfc.utils.BF import ELMSwish
from tfc.utils.BF_Py import ELMSwish as pSwish
nC = np.array([], dtype=np.int32)
a, b = ELMSwish(0.0, 1.0, nC, 3), pSwish(0.0, 1.0, nC, 3)
w, c = np.array([0.7, -1.1, 2.0]), np.array([0.2, 0.4, -0.3])
a.w, a.b, b.w, b.b = w, c, w, c
x = np.linspace(0.0, 1.0, 5)
F, G = np.asarray(a.H(x, 8, True)), np.asarray(b.H(x, 8, True))
assert np.allclose(F, G, rtol=1e-9, atol=1e-9), np.abs(F - G).max()
""",
    "derivative order eight of the swish basis",
    "one coefficient of the eighth derivative table is transposed",
)
seed(
    "s03-removal-list-break-early",
    "P03",
    CC,
    [["                if (j == nC[k]) {\n                    flag = true;\n                    break;\n                }", "                if (nC[k] >= j) {\n                    flag = j == nC[k];\n                    break;\n                }"]],
    """
import numpy as np
from tfc.utils.BF import CP
x = np.linspace(0.0, 2.0, 4)
full = np.asarray(CP(0.0, 2.0, np.array([], dtype=np.int32), 6).H(x, 0, True))
for rem in ([0], [1, 0], [3, 1, 4]):
    got = np.asarray(CP(0.0, 2.0, np.array(rem, dtype=np.int32), 6).H(x, 0, False))
    keep = [j for j in range(6) if j not in rem]
    assert got.shape == (4, 6 - len(rem)) and np.array_equal(got, full[:, keep]), (rem, got)
""",
    "a removal list that is not in ascending order",
    "columns listed after a larger one are not removed and the rows of the result overlap",
)
TU = "utils/TFCUtils.py"
seed(
    "s04-stale-factor-for-missing-orders",
    "P04",
    CC,
    [["    double dMult;\n\n    // Calculate the basis function domain points\n    for (j = 0; j < dim; j++) {", "    double dMult = 1.;\n\n    // Calculate the basis function domain points\n    for (j = 0; j < dim; j++) {"], ["            Hint(0, z + k * n, n, dark);\n            dMult = 1.;\n", "            Hint(0, z + k * n, n, dark);\n"]],
    """
import numpy as np
from tfc.utils.BF import nCP, nLeP, nFS
nC = -np.ones((2, 1), dtype=np.int32)
x = np.array([[0.1, 0.5, 0.9, 0.3], [0.2, 1.5, 0.7, 1.1]])
for cls in (nCP, nLeP, nFS):
    b = cls(np.zeros(2), np.array([1.0, 2.0]), nC, 4)
    for d in (1, 2):
        F = np.asarray(b.H(x, np.array([d], dtype=np.int32), True))
        G = np.asarray(b.H(x, np.array([d, 0], dtype=np.int32), True))
        assert np.allclose(F, G), (cls, d)
""",
    "fewer derivative orders than dimensions, the last of them positive, and a domain that is not the unit one",
    "the chain-rule factor of the last given dimension is applied again to every dimension without an order",
)
seed(
    "s05-weights-transposed-at-order-four",
    "P05",
    CC,
    [["                    dark *= pow(w[i * m + k], d[i]);\n                F[m * j + k] =\n                    dark2 * dark * (16. * F", "                    dark *= pow(w[i + k * dim], d[i]);\n                F[m * j + k] =\n                    dark2 * dark * (16. * F"]],
    """
import numpy as np
from tfc.utils.BF import nELMTanh
from tfc.utils.BF_Py import nELMTanh as pTanh
nC = np.array([], dtype=np.int32)
x0, xf = np.zeros(2), np.array([1.0, 2.0])
a, b = nELMTanh(x0, xf, nC, 4), pTanh(x0, xf, nC, 4)
w, c = np.array([[0.7, -1.1, 2.0, 0.4], [0.3, 0.9, -0.5, 1.2]]), np.array([0.2, 0.4, -0.3, 0.1])
a.w, a.b, b.w, b.b = w, c, w, c
x = np.array([[0.1, 0.5, 0.9], [0.2, 1.5, 0.7]])
for d in ([1, 0], [2, 2], [3, 2], [1, 4], [3, 3]):
    d = np.array(d, dtype=np.int32)
    F, G = np.asarray(a.H(x, d, True)), np.asarray(b.H(x, d, True))
    assert np.allclose(F, G, rtol=1e-9, atol=1e-9), (d, np.abs(F - G).max())
""",
    "total derivative order four of the hyperbolic-tangent features with more than one input",
    "the weights are read column by column",
)
seed(
    "s06-update-keeps-old-slices",
    "P06",
    TU,
    [["        super().update(*args)\n        self._keys = list(self.keys())\n        self._nKeys = len(self._keys)\n        self.getSlices()\n\n    def toArray(self) -> np.ndarray:\n        \"\"\"\n        Send dictionary to a flat JAX array.\n\n        Returns\n        -------\n        np.ndarray\n            This dictionary as a flat JAX array.\n        \"\"\"\n        return cast(np.ndarray, np.hstack([k.flatten()", "        super().update(*args)\n        keys = list(self.keys())\n        if keys != self._keys:\n            self._keys = keys\n            self._nKeys = len(self._keys)\n            self.getSlices()\n\n    def toArray(self) -> np.ndarray:\n        \"\"\"\n        Send dictionary to a flat JAX array.\n\n        Returns\n        -------\n        np.ndarray\n            This dictionary as a flat JAX array.\n        \"\"\"\n        return cast(np.ndarray, np.hstack([k.flatten()"]],
    """
import numpy as np
import jax.numpy as jnp
from tfc.utils import TFCDictRobust
d = TFCDictRobust({"a": jnp.ones((2, 2)), "b": jnp.zeros(3)})
d.update({"c": jnp.ones(2)})
assert d.toArray().shape == (9,)
d.update({"a": jnp.ones((3, 2))})
v = np.arange(11.0)
e = d.toDict(jnp.array(v))
assert np.array_equal(np.asarray(e.toArray()), v) and e["a"].shape == (3, 2), e
assert np.array_equal(np.asarray((d + jnp.array(v)).toArray()), np.asarray(d.toArray()) + v)
""",
    "an existing entry updated with an array of another size",
    "the positions of the entries in the flat vector are those of the old sizes",
)
seed(
    "s07-jacobian-columns-in-fortran-order",
    "P07",
    TU,
    [["                            jacob[k].reshape(jacob[k].shape[0], onp.prod(onp.array(xi[k].shape)))\n", "                            jacob[k].T.reshape(-1, jacob[k].shape[0]).T\n"]],
    """
import numpy as np
import jax.numpy as jnp
from tfc.utils import LS, TFCDictRobust
rng = np.random.default_rng(0)
A, B = jnp.array(rng.normal(size=(9, 3))), jnp.array(rng.normal(size=(9, 2, 2)))
y = jnp.array(rng.normal(size=9))
res = lambda xi: jnp.dot(A, xi["a"].flatten()) + jnp.einsum("ijk,jk->i", B, xi["b"]) - y
M = np.hstack([np.asarray(A), np.asarray(B).reshape(9, 4)])
ref = np.linalg.lstsq(M, np.asarray(y), rcond=None)[0]
for meth in ("pinv", "lstsq"):
    xi = LS(TFCDictRobust({"a": jnp.zeros((3, 1)), "b": jnp.zeros((2, 2))}), res, method=meth)
    assert np.allclose(np.asarray(xi.toArray()), ref), (xi, ref)
""",
    "an unknown with two or more axes longer than one",
    "its components are returned in the wrong places",
)
seed(
    "s08-step-size-by-signed-maximum",
    "P08",
    TU,
    [["                        np.max(np.abs(val[\"dxi\"])) > tol,", "                        np.abs(np.max(val[\"dxi\"])) > tol,"]],
    """
import numpy as np
import jax.numpy as jnp
from tfc.utils import NLLS
# the second unknown never changes and the first only decreases
res = lambda xi: jnp.array([xi[0] ** 2 - 4.0, xi[1] * 1.0])
xi, it = NLLS(jnp.array([9.0, 0.0]), res)
assert abs(float(xi[0]) - 2.0) < 1e-9 and abs(float(xi[1])) < 1e-9, (xi, it)
xi, it = NLLS(jnp.array([1.0, 0.0]), res)
assert abs(float(xi[0]) - 2.0) < 1e-9, (xi, it)
""",
    "an iteration whose largest signed step is (near) zero while another unknown moves by a negative step",
    "the iteration stops before it converges",
)
seed(
    "s09-single-leaf-results-lose-their-structure",
    "P09",
    TU,
    [["if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:", "if out_tree().num_leaves == 1:"]],
    """
import numpy as np
import jax.numpy as jnp
from tfc.utils.TFCUtils import pe, pejit
x, y = jnp.array([1.0, 2.0]), jnp.array([3.0, 4.0])
for dec in (pe, pejit):
    assert np.allclose(np.asarray(dec(x, y, constant_arg_nums=[0])(lambda a, b: a * b)(y)), [3.0, 8.0])
    f = dec(x, y, constant_arg_nums=[0])(lambda a, b: {"p": a * b})
    r = f(y)
    assert isinstance(r, dict) and np.allclose(np.asarray(r["p"]), [3.0, 8.0]), r
    r = dec(x, y, constant_arg_nums=[1])(lambda a, b: (a - b,))(x)
    assert isinstance(r, tuple) and len(r) == 1, r
""",
    "a function that returns a container with a single array",
    "the partially evaluated function returns the bare array instead of the container",
)
seed(
    "s10-tangents-in-double-precision",
    "P10",
    TU,
    [["    return onp.zeros(val.shape, dtype=val.dtype)", "    return onp.zeros(val.shape)"]],
    """
import numpy as np
import jax.numpy as jnp
from tfc.utils.TFCUtils import egradRobust
f = lambda a, b: a * a * b["k"]
a = jnp.array([1.0, 2.0])
b = {"k": jnp.array([3.0, 4.0])}
assert np.allclose(np.asarray(egradRobust(f, 0)(a, b)), [6.0, 16.0])
b = {"k": jnp.array([3.0, 4.0], dtype=jnp.float32)}
assert np.allclose(np.asarray(egradRobust(f, 0)(a, b)), [6.0, 16.0])
c = {"k": jnp.array([3.0 + 1j, 4.0])}
assert np.allclose(np.asarray(egradRobust(f, 0)(a, c)), [2 * (3.0 + 1j), 16.0])
""",
    "another argument in single precision or complex numbers",
    "the derivative cannot be taken",
)
seed(
    "s11-tangent-with-a-zero-entry",
    "P11",
    "utfc.py",
    [["onp.any(dx != 0)", "onp.all(dx != 0)"]],
    """
import numpy as np
import jax.numpy as jnp
from jax import jvp
from tfc import utfc
t = utfc(5, 2, 4, x0=0.0, xf=2.0)
x = t.x
for dx in (np.ones(5), np.array([1.0, 0.0, 2.0, 0.0, -1.0])):
    for f, g in ((t.H, t.dH), (t.dH, t.d2H)):
        _, d = jvp(lambda x: f(x), (x,), (jnp.array(dx),))
        assert np.allclose(np.asarray(d), np.asarray(g(x)) * dx[:, None]), dx
""",
    "a concrete tangent in which some but not all entries are zero",
    "the directional derivative comes out as zero",
)
seed(
    "s12-second-tangent-overwrites-the-first",
    "P12",
    "mtfc.py",
    [["                        if flat:\n                            out_tans += Hjax", "                        if flat:\n                            out_tans = Hjax"]],
    """
import numpy as np
import jax.numpy as jnp
from jax import jvp
from tfc import mtfc
t = mtfc([4, 3], [[-1.0], [-1.0]], 3, dim=2, x0=[0.0, 0.0], xf=[1.0, 2.0])
x = t.x
one = jnp.ones(12)
zero = jnp.zeros(12)
F = lambda a, b: t.H(a, b)
hx, hy = np.asarray(t.Hx(*x)), np.asarray(t.Hy(*x))
for u, v in ((1.0, 0.0), (0.0, 1.0), (2.0, 3.0)):
    _, d = jvp(F, tuple(x), (u * one, v * one))
    assert np.allclose(np.asarray(d), u * hx + v * hy), (u, v)
""",
    "a tangent in more than one variable at once",
    "only the last variable contributes to the derivative",
)
seed(
    "s13-compiled-full-evaluation-with-reduced-stride",
    "P13",
    CC,
    [["    int nOut = (reinterpret_cast<int *>(in[5]))[0];\n    int mOut = (reinterpret_cast<int *>(in[6]))[0];\n\n    nHint(x, nOut, d, dDim0, mOut, out_buf, full);", "    int nOut = (reinterpret_cast<int *>(in[5]))[0];\n\n    nHint(x, nOut, d, dDim0, numBasisFunc, out_buf, full);"]],
    """
import numpy as np
from jax import jit
from tfc import mtfc
t = mtfc([3, 4], [2, 1], 3, dim=2, x0=[0.0, 0.0], xf=[1.0, 2.0], basis="LeP")
x = tuple(np.asarray(q) for q in t.x)
X = np.stack(x)
d = np.zeros(2, dtype=np.int32)
for full in (False, True):
    want = np.asarray(t.basisClass.H(X, d, full))
    got = np.asarray(jit(lambda *q: t.H(*q, full=full))(*x))
    assert got.shape == want.shape and np.allclose(got, want), (full, np.abs(got - want).max())
""",
    "a compiled evaluation of a multi-input basis with all its functions, none removed",
    "the rows of the result are written with the number of columns left after removal",
)
seed(
    "s14-one-removed-function-too-many",
    "P14",
    "utfc.py",
    [["if self.nC.shape[0] > self.deg:", "if self.nC.shape[0] > self.deg + 1:"]],
    """
from tfc import utfc
assert utfc(5, 4, 4, xf=1.0).H(utfc(5, 4, 4, xf=1.0).x).shape == (5, 1)
for n in (5, 6, [0, 1, 2, 3, 4]):
    try:
        utfc(5, n, 4, xf=1.0)
    except SystemExit:
        continue
    raise AssertionError("%r functions removed of 5" % (n,))
""",
    "as many removed functions as there are functions",
    "a basis without functions is accepted",
)
seed(
    "s15-shorter-removal-rows-padded-with-zero",
    "P15",
    "mtfc.py",
    [["-1 * np.ones(nCmax - j)", "np.zeros(nCmax - j)"]],
    """
import numpy as np
from tfc import mtfc
for nC in ([[0, 1], [0]], [[1, 2], [2]], [[3], [1, 2]]):
    t = mtfc([5, 5], nC, 4, dim=2, x0=[0.0, 0.0], xf=[1.0, 1.0])
    full, got = np.asarray(t.H(*t.x, full=True)), np.asarray(t.H(*t.x))
    keep = []
    k = 0
    for j in range(5):
        for i in range(5):
            if i + j <= 4:
                if not (i in nC[0] and j in nC[1]):
                    keep.append(k)
                k += 1
    assert got.shape == (25, len(keep)) and np.array_equal(got, full[:, keep]), (nC, got.shape, len(keep))
""",
    "removal lists of different lengths of which the shorter does not contain function zero",
    "function zero is removed from a dimension that keeps it",
)
seed(
    "s16-points-with-strides",
    "P16",
    "utils/BF_Py.cc",
    [["            [](BasisFunc &self, py::array_t<double, py::array::c_style | py::array::forcecast> x, int d, bool full) {", "            [](BasisFunc &self, py::array_t<double, py::array::forcecast> x, int d, bool full) {"]],
    """
import numpy as np
from tfc.utils.BF import CP, LeP, FS
x = np.linspace(0.0, 1.0, 12)
nC = np.array([1], dtype=np.int32)
for cls in (CP, LeP, FS):
    b = cls(0.0, 1.0, nC, 5)
    for v in (x[::2], x[::-1], np.array([x, x + 1.0]).T[:, 0], x.astype(np.float32)):
        assert np.array_equal(np.asarray(b.H(v, 1, False)), np.asarray(b.H(np.array(v, dtype=np.float64), 1, False)))
""",
    "points given as a strided or reversed view of an array",
    "other elements of the underlying array are used as points",
)
seed(
    "s17-inverse-kept-after-new-constraints",
    "P17",
    "utils/CeSolver.py",
    [["        self._C = C\n        self._S_stale = True\n        self._alpha_stale = True\n", "        self._C = C\n        self._S_stale = True\n"]],
    """
import sympy as sp
from tfc.utils import CeSolver
x, a = sp.symbols("x a")
g = sp.Function("g")
C = [lambda u: u.subs(x, 0), lambda u: sp.diff(u, x).subs(x, 1)]
D = [lambda u: u.subs(x, 2), lambda u: sp.diff(u, x).subs(x, 0)]
s, k = [sp.re(1), x], [sp.re(3), sp.re(4)]
for read in (lambda c: None, lambda c: c.ce, lambda c: c.phi, lambda c: c.alpha):
    c = CeSolver(C, k, s, g(x))
    read(c)
    c.C = D
    want = CeSolver(D, k, s, g(x)).ce
    assert sp.simplify(c.ce - want) == 0, (c.ce, want)
""",
    "new constraint operators after the old expression (or alpha) was read",
    "the constrained expression uses the inverse of the old support matrix",
)
seed(
    "s19-only-two-cycles-are-noticed",
    "P19",
    TU,
    [["if np.all(np.linalg.eigvals(adj) == 0.0):", "if np.trace(np.dot(adj, adj)) == 0.0:"]],
    """
import itertools
from tfc.utils import ComponentConstraintGraph
def cyclic(edges, nodes):
    left = list(nodes)
    while True:
        free = [q for q in left if not any(a in left and b == q for a, b in edges)]
        if not free:
            return bool(left)
        left = [q for q in left if q not in free]
for ends in ([("x", "y"), ("x", "y")], [("x", "y"), ("y", "z"), ("z", "x")], [("x", "y"), ("y", "z")]):
    E = [{"name": "e%d" % k, "node0": a, "node1": b} for k, (a, b) in enumerate(ends)]
    c = ComponentConstraintGraph(["x", "y", "z"], E)
    want = [k for k, t in enumerate(c.targets) if not cyclic([(b, a) if q else (a, b) for (a, b), q in zip(ends, t)], "xyz")]
    assert [int(k) for k in c.goodTargets] == want, (ends, c.goodTargets, want)
""",
    "constraints that form a cycle over three nodes",
    "orientations around the cycle are kept as valid embeddings",
)
seed(
    "s20-product-table-not-released",
    "P20",
    CC,
    [["    delete[] vec;\n    delete[] dark;\n    delete[] T;\n    delete[] z;\n", "    delete[] vec;\n    delete[] dark;\n    if (!full)\n        delete[] T;\n    delete[] z;\n"]],
    """
import numpy as np
from tfc.utils.BF import nCP
def rss():
    for l in open("/proc/self/status"):
        if l.startswith("VmRSS"):
            return int(l.split()[1])
b = nCP(np.zeros(2), np.ones(2), -np.ones((2, 1), dtype=np.int32), 6)
x = np.random.default_rng(0).uniform(size=(2, 4000))
d = np.zeros(2, dtype=np.int32)
for full in (False, True):
    for _ in range(20):
        b.H(x, d, full)
    r0 = rss()
    for _ in range(300):
        b.H(x, d, full)
    assert rss() - r0 < 50000, (full, rss() - r0)
""",
    "many evaluations with all functions kept",
    "every evaluation leaks its table of univariate values",
)
