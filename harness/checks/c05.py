"""C05 - the stiffness measures the elastic strain energy."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, call, check, close, hash_unit, tup
from .c04 import (UEL, bar, bar_call, bar_coord, bar_section, params_of,
                  ref_bar, solid)


def law(k, E, nu):
    return ref.plane_stress(E, nu) if ref.DIM[k] == 2 else ref.hooke_3d(E, nu)


def affine(case):
    """straight edges, and a parallelogram/parallelepiped where the map of a
    distorted one would not be affine"""
    el = dict(case["el"], mid=0)
    if ref.DOMAIN[el["k"]] in ("quad", "hex"):
        el["jit"] = 0
    return gen.build_elem(el, straight=True)


@check("C05", solid(), quick=500,
       rule="affine element: the whole stiffness equals the exact energy "
            "form; non-trivial: not the parent shape")
def affine_exact(case, ctx):
    k = case["el"]["k"]
    x = affine(case)
    K = arr(tup(call(UEL[k], x, params_of(case)), 2, k)[0],
            (x.size, x.size), k + " stiffness")
    ctx.label(k)
    ctx.nontriv(case["el"]["aff"] or case["el"]["jit"])
    close(K, ref.stiff(k, x, law(k, case["E"], case["nu"]), 4),
          k + " energy form", rtol=1e-9)


@check("C05", st.tuples(solid(), gen.KEY1).map(list), quick=500,
       rule="distorted (curved) element with a linear field: virtual work "
            "against every field; non-trivial: distorted")
def linear_field(case, ctx):
    c, key = case
    k = c["el"]["k"]
    x = gen.build_elem(c["el"])
    n, dim = x.shape
    G = hash_unit(key, dim*dim, 31).reshape(dim, dim)
    size = np.ptp(x, axis=0).max()
    u = ((x - x.mean(axis=0)) @ G.T)/size
    K = arr(tup(call(UEL[k], x, params_of(c)), 2, k)[0],
            (x.size, x.size), k + " stiffness")
    C = law(k, c["E"], c["nu"])
    e = 0.5*(G + G.T)/size
    if dim == 2:
        eps = np.array([e[0, 0], e[1, 1], 2*e[0, 1]])
    else:
        eps = np.array([e[0, 0], e[1, 1], e[2, 2], 2*e[1, 2], 2*e[0, 2],
                        2*e[0, 1]])
    f = np.zeros(x.size)
    for pt, w in zip(*ref.quad(ref.DOMAIN[k], 4)):
        _, B, det = ref.kin(k, x, pt)
        f += w*det*(B.T @ C @ eps)
    ctx.label(k)
    ctx.nontriv(c["el"]["jit"] or c["el"]["mid"])
    u = u.ravel()
    sc = np.abs(K).max()*np.abs(u).max()
    close(K @ u, f, k + " nodal forces of a linear field", rtol=1e-9,
          scale=sc)
    vol = ref.measure(k, x)
    close(0.5*u @ K @ u, 0.5*vol*eps @ C @ eps, k + " energy of a linear "
          "field", rtol=1e-9, scale=sc*np.abs(u).max())


@check("C05", solid(curved=False, kinds=("quad4", "quad8", "quad9", "hex8")),
       quick=200,
       rule="mildly distorted straight-sided element: within 5 % of the exact "
            "energy form; non-trivial: distorted")
def mild_distortion(case, ctx):
    k = case["el"]["k"]
    x0 = affine(case)
    x1 = gen.build_elem(dict(case["el"], mid=0), straight=True)
    x = x0 + 0.25*(x1 - x0)
    K = arr(tup(call(UEL[k], x, params_of(case)), 2, k)[0],
            (x.size, x.size), k + " stiffness")
    ctx.label(k)
    ctx.nontriv(case["el"]["jit"])
    close(K, ref.stiff(k, x, law(k, case["E"], case["nu"]), 6),
          k + " energy form", rtol=0.05)


@check("C05", st.tuples(bar(wide=True), gen.KEY1).map(list), quick=400,
       rule="spring/truss/beam: textbook energies; non-trivial: inclined")
def members(case, ctx):
    c, key = case
    x = bar_coord(c)
    nd = 4 if c["k"] in ("spring", "truss") else 6
    K = arr(tup(bar_call(c, x), 2, c["k"])[0], (nd, nd), c["k"])
    R = ref_bar(c, x)
    if nd == 6:
        D = np.diag([1, 1, 1/c["L"]]*2)
        K, R = D @ K @ D, D @ R @ D
    ctx.label(c["k"])
    ctx.nontriv(c["rot"] % 90)
    close(K, R, c["k"] + " energy form", rtol=1e-11)
    # energies of single modes, that a normwise comparison would hide
    E, I, A = bar_section(c)
    x = np.asarray(x, dtype=float)
    t = (x[1] - x[0])/c["L"]
    if nd == 6 and c["rot"] % 90 == 0:
        # axial and bending parts do not mix at all in a member along x or y
        ax = np.flatnonzero(np.abs(np.concatenate([t, [0], t, [0]])) > 0.5)
        be = np.setdiff1d(np.arange(6), ax)
        close(K[np.ix_(be, be)], R[np.ix_(be, be)], "bending part",
              rtol=1e-11)
        if c["k"] == "beam":
            close(K[np.ix_(ax, ax)], R[np.ix_(ax, ax)], "axial part",
                  rtol=1e-11)
    if c["k"] == "beam":
        u = np.concatenate([-t, [0], t, [0]])
        close(u @ K @ u, 4*E*A/c["L"], "axial energy", rtol=1e-9,
              scale=np.abs(K).max())
    if nd == 6:
        u = np.array([0, 0, -1.0, 0, 0, 1.0])      # pure bending
        close(u @ K @ u, 4*E*I/c["L"]**3, "pure bending energy", rtol=1e-9,
              scale=np.abs(K).max())
