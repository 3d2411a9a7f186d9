"""Fourier series: column 0 constant, column 2p-1 = sin(p z), column 2p = cos(p z), d-th derivative
p^d sin/cos(p z + d pi/2), for every d (split by residue mod 4) and every m."""
import sympy as sp
from sympy import S, Symbol, Integer
import bf
from bf import Run, judge, N, M, ROW, Z
from ai import Giveup


def check(rep):
    q = Symbol("q", integer=True, nonnegative=True)
    p = Symbol("p", integer=True, positive=True)
    cases = [("0", S.Zero, [], [{}])]
    for r in range(4):
        cases.append(("4q+%d" % r, 4 * q + r, [(q, 1 if r == 0 else 0, None)], [{q: 1 if r == 0 else 0}, {q: 2}]))
    for be in ("python", "c++"):
        for name, d, decl, qv in cases:
            for col, lo, val in ((S.Zero, 1, "const"), (2 * p - 1, 2 * p, "sin"), (2 * p, 2 * p + 1, "cos")):
                con = "FS %s: column %s, d = %s" % (be, col, name)
                try:
                    # m >= column + 1
                    run = Run(be, "FS", M, d, decl + ([(p, 1, None)] if col != 0 else []) + [(M, lo, None)])
                    rep.stats(run.ip)
                    where = "%s:%s" % (run.file, run.line)
                    if not run.shape_ok():
                        rep.violation("shape", con, where, "result has shape %s instead of (N, m)" % (run.dims,))
                        continue
                    v = run.at(ROW, col)
                except Giveup as e:
                    rep.undecided("fourier", con, e)
                    continue
                r = int(d.subs(q, 0)) % 4 if col != 0 else 0
                zz = Z(ROW)
                if val == "const":
                    e = S.One if d == 0 else S.Zero
                elif val == "sin":
                    e = p**d * [sp.sin(p * zz), sp.cos(p * zz), -sp.sin(p * zz), -sp.cos(p * zz)][r]
                else:
                    e = p**d * [sp.cos(p * zz), -sp.sin(p * zz), -sp.cos(p * zz), sp.sin(p * zz)][r]
                vals = []
                for x in qv:
                    for pp in (1, 2, 3):
                        for row in (0, 1):
                            v2 = dict(x)
                            v2.update({p: pp, ROW: row, N: 3, M: 9})
                            vals.append(v2)
                judge(rep, "fourier", con, where, v, e, vals, "column %s, derivative order %s" % (col, name))
