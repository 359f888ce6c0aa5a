"""C16 - principal values and directions."""
import numpy as np
from hypothesis import strategies as st

import solidspy.postprocesor as pos

from .. import gen
from ..core import arr, call, check, close, fail, hash_unit, num, tup

V = st.one_of(st.integers(-5, 5).map(float), st.sampled_from([0.0, 1.0, -1.0]),
              st.integers(-1000, 1000).map(lambda i: i/100))
SMALL = st.sampled_from([0.0, 1e-3, -1e-4, 1e-5, 3e-6, 1.5e-6, -1e-6, 0.9e-6,
                         -1e-7, 1e-9, 1e-12, -1e-15])


@st.composite
def tensor(draw):
    kind = draw(st.sampled_from(["any", "any", "diag", "near", "iso", "shear",
                                 "zero", "polar", "nearpolar"]))
    sc = draw(gen.logf(-12, 12))
    a, b, c = draw(V), draw(V), draw(V)
    if kind == "diag":
        c = 0.0
    elif kind == "near":
        c = draw(SMALL)*max(abs(a), abs(b), 1e-3)
    elif kind == "iso":
        b, c = a, draw(SMALL)
    elif kind == "shear":
        a = b = 0.0
    elif kind == "zero":
        a = b = c = 0.0
    elif kind in ("polar", "nearpolar"):
        th = np.deg2rad(draw(gen.ANGLE))
        e1, e2 = a, (b if kind == "polar" else -a*(1 + draw(SMALL)))
        cs, sn = np.cos(th), np.sin(th)
        a, b, c = (e1*cs**2 + e2*sn**2, e1*sn**2 + e2*cs**2,
                   (e1 - e2)*cs*sn)
    return {"t": [a*sc, b*sc, c*sc], "kind": kind}


def verify(t, res, what):
    e1, e2, v1, v2 = res
    A = np.array([[t[0], t[2]], [t[2], t[1]]])
    norm = np.abs(A).max()
    e1, e2 = num(e1, what), num(e2, what)
    v1, v2 = arr(v1, (2,), what), arr(v2, (2,), what)
    w = np.linalg.eigvalsh(A)
    if abs(e2) > abs(e1)*(1 + 1e-12):
        fail("{}: |{}| > |{}|: not ordered by absolute value", what, e2, e1)
    close(sorted([e1, e2]), w, what + ": eigenvalues of %s" % (t,),
          rtol=2e-6, scale=norm)
    if norm == 0:
        if e1 != 0 or e2 != 0:
            fail("{}: eigenvalues {} of the zero tensor", what, (e1, e2))
        return
    Q = np.array([v1, v2])
    close(Q @ Q.T, np.eye(2), what + ": orthonormal directions of %s" % (t,),
          atol=1e-9)
    for lam, v in ((e1, v1), (e2, v2)):
        close(A @ v, lam*v, what + ": direction of %g of %s" % (lam, t),
              rtol=2e-6, scale=norm)


def accurate(t, res, what):
    """Away from the near-diagonal shortcut results are fully accurate."""
    norm = max(abs(q) for q in t)
    if norm == 0 or not abs(t[2]) > 1e-5*norm:
        return False
    A = np.array([[t[0], t[2]], [t[2], t[1]]])
    w = np.linalg.eigvalsh(A)
    close(sorted([num(res[0], what), num(res[1], what)]), w,
          what + ": eigenvalues", rtol=1e-10, scale=norm)
    for lam, v in ((res[0], res[2]), (res[1], res[3])):
        close(A @ v, lam*v, what + ": direction", rtol=1e-9, scale=norm)
    return True


@check("C16", tensor(), quick=3000,
       rule="symmetric tensor; non-trivial: off-diagonal component")
def single(case, ctx):
    t = case["t"]
    A = np.array([[t[0], t[2]], [t[2], t[1]]])
    res = tup(call(pos.eigvals, A), 4, "eigvals")
    ctx.label(case["kind"])
    ctx.nontriv(t[2] != 0)
    verify(t, res, "eigvals")
    if accurate(t, res, "eigvals"):
        ctx.label("off-diagonal")
    if np.any(A != np.array([[t[0], t[2]], [t[2], t[1]]])):
        fail("eigvals modified its argument")


@check("C16", tensor(), quick=800,
       rule="scaled tensor; non-trivial: off-diagonal component")
def scaled(case, ctx):
    t = np.array(case["t"])
    A = np.array([[t[0], t[2]], [t[2], t[1]]])
    ctx.nontriv(t[2] != 0)
    ctx.label(case["kind"])
    if not np.any(A):
        return
    r1 = tup(call(pos.eigvals, A), 4, "eigvals")
    for f in (2.0**-20, 2.0**17, 1e-5, 7.0):
        r2 = tup(call(pos.eigvals, f*A), 4, "eigvals")
        norm = np.abs(A).max()
        close([num(r2[0], ""), num(r2[1], "")],
              [f*num(r1[0], ""), f*num(r1[1], "")], "scaled values %s" % (t,),
              rtol=4e-6, scale=f*norm)
        # directions: still those of the tensor
        for lam, v in ((r2[0], r2[2]), (r2[1], r2[3])):
            close(A @ v, lam/f*np.asarray(v), "scaled direction %s" % (t,),
                  rtol=4e-6, scale=norm)


@check("C16", st.tuples(st.lists(tensor(), min_size=0, max_size=8),
                        st.booleans(), st.tuples(
                            st.integers(0, 5), st.integers(0, 10)).map(list)
                        ).map(list), quick=500,
       rule="tensor field, row by row; non-trivial: at least two different "
            "rows")
def fields(case, ctx):
    rows, ints = case[:2]
    f = np.array([r["t"] for r in rows]).reshape(-1, 3)
    if ints and len(f):
        f = np.rint(np.clip(f, -1e6, 1e6))
        f = f.astype(int)
    hole = len(f) > 1 and not ints and sum(case[2]) > 3
    if hole:            # nodes without a value do not disturb the others
        f[case[2][0] % len(f), case[2][1] % 3] = np.nan
    ctx.nontriv(len(np.unique(f, axis=0)) > 1)
    ctx.label("rows %d" % len(f), "int" if ints else "float")
    n = len(f)
    e1, e2, v1, v2 = tup(call(pos.principal_dirs, gen.store(
        f, case[2][1])), 4, "principal_dirs")
    e1, e2 = arr(e1, (n,), "values"), arr(e2, (n,), "values")
    v1, v2 = arr(v1, (n, 2), "directions"), arr(v2, (n, 2), "directions")
    for k in range(n):
        t = f[k].astype(float).tolist()
        if k and n <= 8 and k == n - 1 and case[2][0] == 5:
            # the same rows at the end of a very long field
            rep = 1 + (700, 5000)[case[2][1] % 2]//n
            ctx.label("long field")
            long = tup(call(pos.principal_dirs, np.tile(f, (rep, 1))), 4,
                       "principal_dirs")
            for a, b, name in zip(long, (e1, e2, v1, v2), (
                    "first values", "second values", "first directions",
                    "second directions")):
                b = np.concatenate([b]*rep)
                fin = np.tile(np.isfinite(f).all(axis=1), rep)
                close(np.nan_to_num(arr(a, b.shape, name)[fin]),
                      np.nan_to_num(b[fin]), name + " of a long field",
                      rtol=1e-14)
        if not np.all(np.isfinite(t)):
            continue
        verify(t, (e1[k], e2[k], v1[k], v2[k]), "row %d" % k)
        accurate(t, (e1[k], e2[k], v1[k], v2[k]), "row %d" % k)
