"""C08 - interpolation matrices."""
import numpy as np
from hypothesis import strategies as st

import solidspy.femutil as fem

from .. import gen, ref
from ..core import arr, call, check, close, fail, hash_unit, num, tup
from .c07 import FUN

P01 = st.one_of(
    st.integers(0, 100).map(lambda i: i/100),
    st.builds(lambda a, e: abs(a - 10.0**-e),
              st.sampled_from([0, 1, 0.5, 1/3]), st.integers(3, 12)))


@st.composite
def el_pt(draw, kinds=tuple(FUN)):
    el = draw(gen.elem_st(kinds))
    return {"el": el, "p": [draw(P01) for _ in range(ref.DIM[el["k"]])],
            "u": draw(gen.KEY1), "far": draw(st.sampled_from([0, 0, 0, 1e4])),
            "um": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-5, 1e-8, 1e3]))}


def parent(k, p):
    """map the unit cube into the parent domain"""
    p = np.array(p, dtype=float)
    if ref.DOMAIN[k] == "tri":
        return np.array([p[0], p[1]*(1 - p[0])])
    if ref.DOMAIN[k] == "tet":
        return np.array([p[0], p[1]*(1 - p[0]),
                         p[2]*(1 - p[0])*(1 - p[1])])
    return 2*p - 1


def diff(k, pt, x):
    """elast_diff_2d / elast_diff_3d"""
    if len(pt) == 2:
        res = call(fem.elast_diff_2d, *pt, x, FUN[k])
    elif k == "hex8" and pt[0] > 0:
        res = call(fem.elast_diff_3d, *pt, x)        # default interpolation
    else:
        res = call(fem.elast_diff_3d, *pt, x, FUN[k])
    H, B, det = tup(res, 3, "elast_diff")
    nd, dim = x.size, x.shape[1]
    return (arr(H, (dim, nd), "H"), arr(B, ({2: 3, 3: 6}[dim], nd), "B"),
            num(det, "det"))


@check("C08", el_pt(), quick=1500,
       rule="valid element and point; non-trivial: distorted element")
def kinematics(case, ctx):
    k = case["el"]["k"]
    x = gen.build_elem(case["el"])
    size = np.ptp(x, axis=0).max()
    x = x + case["far"]*size
    tol = 1e-10 if not case["far"] else 1e-7
    pt = parent(k, case["p"])
    H, B, det = diff(k, pt, x)
    dim = x.shape[1]
    N, Br, dr = ref.kin(k, x, pt)
    ctx.label(k, "L=1e%d" % round(np.log10(size)), "far" if case["far"] else
              "near")
    ctx.nontriv(case["el"]["jit"] or case["el"]["mid"])
    close(H, ref.interp_mat(N, dim), k + " H", rtol=tol)
    u = hash_unit(case["u"], x.size, 1)
    close(H @ u, N @ u.reshape(-1, dim), k + " displacement", rtol=tol,
          scale=np.abs(u).max())
    close(det, dr, k + " determinant", rtol=tol)
    close(B, Br, k + " strain matrix", rtol=tol)
    # linear fields yield their gradient
    G = hash_unit(case["u"], dim*dim, 2).reshape(dim, dim)
    ul = ((x - x.mean(axis=0)) @ G.T).ravel()
    e = 0.5*(G + G.T)
    if dim == 2:
        eps = [e[0, 0], e[1, 1], 2*e[0, 1]]
    else:
        eps = [e[0, 0], e[1, 1], e[2, 2], 2*e[1, 2], 2*e[0, 2], 2*e[0, 1]]
    close(B @ ul, np.array(eps), k + " strain of a linear field",
          rtol=tol, scale=np.abs(B).max()*np.abs(ul).max())
    pos = H @ x.ravel()
    close(pos, N @ x, k + " position", rtol=tol, scale=size,
          atol=1e-14*np.abs(x).max())


@check("C08", el_pt(), quick=500,
       rule="jacoper on valid elements; non-trivial: distorted element")
def jacobian(case, ctx):
    k = case["el"]["k"]
    x = gen.build_elem(case["el"])
    pt = parent(k, case["p"])
    _, dN = ref.shape(k, pt)
    det, inv = tup(call(fem.jacoper, dN, x), 2, "jacoper")
    dim = x.shape[1]
    J = dN @ x
    ctx.label(k)
    ctx.nontriv(case["el"]["jit"] or case["el"]["mid"])
    close(num(det, "det"), np.linalg.det(J), k + " det", rtol=1e-11)
    close(arr(inv, (dim, dim), "inverse") @ J, np.eye(dim), k + " inverse",
          rtol=1e-10)


STR = {"tri3": (fem.str_el3, 3), "quad4": (fem.str_el4, 4),
       "tri6": (fem.str_el6, 7)}


@check("C08", el_pt(tuple(STR)), quick=500,
       rule="element strains with their points; non-trivial: distorted")
def element_strains(case, ctx):
    k = case["el"]["k"]
    fun, npt = STR[k]
    x = gen.build_elem(case["el"])
    size = np.ptp(x, axis=0).max()
    u = hash_unit(case["u"], x.size, 3)*size*case["um"]
    eps, pts = tup(call(fun, x, u), 2, fun.__name__)
    eps = arr(eps, (npt, 3), "strains")
    pts = arr(pts, (npt, 2), "points")
    ctx.label(k)
    ctx.nontriv(case["el"]["jit"] or case["el"]["mid"])
    want = np.array([ref.shape(k, g)[0] @ x for g in ref.GP[k]])
    d = np.abs(pts[:, None, :] - want[None, :, :]).max(axis=2)
    which = d.argmin(axis=1)
    if d.min(axis=1).max() > 1e-8*(size + np.abs(x).max()*1e-6) \
            or len(set(which)) != npt:
        fail("{}: the points {} are not the integration points {}", k, pts,
             want)
    for e, g in zip(eps, which):
        _, B, _ = ref.kin(k, x, ref.GP[k][g])
        close(e, B @ u, k + " strain at its point", rtol=1e-8,
              scale=np.abs(B).max()*np.abs(u).max())
