"""C09 - constitutive matrices."""
import numpy as np
from hypothesis import strategies as st

import solidspy.femutil as fem

from .. import gen, ref
from ..core import arr, call, check, close, fail
from .c04 import PTYPE, pack

NU9 = st.one_of(gen.NU, st.sampled_from([-0.99, -0.5, 0.499, 0.4999, 0.49999, 1e-3,
                                         0, 1e-9]))


@st.composite
def mat(draw):
    return {"E": draw(st.one_of(gen.YOUNG, st.integers(1, 10**6),
                                gen.logf(-30, 30))),
            "nu": draw(NU9), "pt": draw(PTYPE), "rot": draw(gen.ANGLE),
            "rot2": draw(gen.ANGLE), "fac": draw(gen.logf(-3, 3))}


def bond(R):
    """Strain transformation (engineering shear), Voigt xx yy zz yz xz xy."""
    V = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    T = np.zeros((6, 6))
    for c, (k, l) in enumerate(V):
        e = np.zeros((3, 3))
        e[k, l] = e[l, k] = 1.0 if k == l else 0.5
        f = R @ e @ R.T
        for r, (i, j) in enumerate(V):
            T[r, c] = f[i, j]*(1 if i == j else 2)
    return T


def basic(C, what):
    close(C, C.T, what + " symmetry", rtol=1e-14)
    w = np.linalg.eigvalsh(C)
    if not w[0] > 0:
        fail("{}: not positive definite: {}", what, w)


@check("C09", mat(), quick=1500,
       rule="admissible (E, nu); non-trivial: nu not 0")
def hooke(case, ctx):
    E, nu = case["E"], case["nu"]
    p = pack([E, nu], case["pt"])
    ctx.label("nu<0" if nu < 0 else "nu>=0", "near 0.5" if nu > .48 else "mid")
    ctx.nontriv(nu)
    S3 = np.zeros((6, 6))
    S3[:3, :3] = -nu/E
    S3[range(3), range(3)] = 1/E
    S3[range(3, 6), range(3, 6)] = 2*(1 + nu)/E
    C3 = arr(call(fem.elast_mat, p), (6, 6), "elast_mat")
    C2 = arr(call(fem.umat, p), (3, 3), "umat")
    Ca = arr(call(fem.elast_mat_axi, p), (4, 4), "elast_mat_axi")
    Cs = arr(call(fem.elast_mat_2d, p), (4, 4), "elast_mat_2d")
    for C, w in ((C3, "3D"), (C2, "plane stress"), (Ca, "axisymmetric"),
                 (Cs[:3, :3], "plane strain")):
        basic(C, w)
    tol = 1e-9 if 0.495 > nu > -0.98 else 1e-7
    for C, idx, w in ((C3, range(6), "3D"), (C2, (0, 1, 5), "plane stress"),
                      (Ca, (0, 1, 5, 2), "axisymmetric")):
        S = S3[np.ix_(idx, idx)]
        close(C @ S, np.eye(len(S)), w + " inverse compliance", rtol=tol,
              scale=np.abs(C).max()*np.abs(S).max())
    # plane strain: the 3D law with no out-of-plane strain
    close(Cs[:3, :3], C3[np.ix_((0, 1, 5), (0, 1, 5))], "plane strain",
          rtol=1e-12)
    # plane stress: the 3D law with no out-of-plane stress
    e = C3[2, [0, 1]]/C3[2, 2]
    red = C3[np.ix_((0, 1), (0, 1))] - np.outer(C3[[0, 1], 2], e)
    close(C2[:2, :2], red, "plane stress as condensed 3D", rtol=1e-9,
          scale=np.abs(C3).max())
    # proportional to E
    q = pack([E*case["fac"], nu], case["pt"])
    for f, C in ((fem.elast_mat, C3), (fem.umat, C2),
                 (fem.elast_mat_axi, Ca), (fem.elast_mat_2d, Cs)):
        close(arr(call(f, q), C.shape, f.__name__), case["fac"]*C,
              f.__name__ + " proportional to E", rtol=1e-12)


@check("C09", mat(), quick=500,
       rule="rotated stress and strain; non-trivial: angle not multiple of "
            "90")
def isotropy(case, ctx):
    p = pack([case["E"], case["nu"]], case["pt"])
    C3 = arr(call(fem.elast_mat, p), (6, 6), "elast_mat")
    C2 = arr(call(fem.umat, p), (3, 3), "umat")
    Cs = arr(call(fem.elast_mat_2d, p), (4, 4), "elast_mat_2d")[:3, :3]
    Ca = arr(call(fem.elast_mat_axi, p), (4, 4), "elast_mat_axi")
    T = bond(gen.rot3(case["rot"], case["rot2"]))
    ctx.nontriv(case["rot"] % 90 and case["rot2"] % 90)
    close(T.T @ C3 @ T, C3, "3D isotropy", rtol=1e-12)
    T = bond(gen.rot3(case["rot"], 0))[np.ix_((0, 1, 5), (0, 1, 5))]
    close(T.T @ C2 @ T, C2, "plane stress isotropy", rtol=1e-12)
    close(T.T @ Cs @ T, Cs, "plane strain isotropy", rtol=1e-12)
    T4 = np.eye(4)
    T4[:3, :3] = T
    close(T4.T @ Ca @ T4, Ca, "axisymmetric isotropy", rtol=1e-12)
