"""C06 - mass matrices."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, call, check, close, fail, finite, tup
from .c04 import (NEEDS_RHO, UEL, bar, bar_call, bar_coord, bar_section, pack,
                  params_of, solid)


def mass_of(case, x, rho):
    k = case["el"]["k"]
    p = [case["E"], case["nu"]] + ([] if rho is None else [rho])
    res = tup(call(UEL[k], x, pack(p, case["pt"])), 2, k)
    return (arr(res[0], (x.size, x.size), k + " stiffness"),
            arr(res[1], (x.size, x.size), k + " mass"))


@check("C06", solid(), quick=500,
       rule="2D/3D element, possibly curved; non-trivial: distorted")
def mass_and_density(case, ctx):
    k = case["el"]["k"]
    x = gen.build_elem(case["el"])
    dim = x.shape[1]
    rho = case["rho"] if case["rho"] is not None else 3.5
    K, M = mass_of(case, x, rho)
    K1, M1 = mass_of(case, x, 1.0)
    vol = ref.measure(k, x)
    finite(M, k)
    sc = rho*vol
    close(M, M.T, k + " mass symmetry", rtol=1e-10, scale=sc)
    for a in range(dim):
        u = np.zeros(x.size)
        u[a::dim] = 1
        close(u @ M @ u, sc, k + " mass in direction %d" % a, rtol=1e-9)
        for b in range(dim):
            if b != a:
                v = np.zeros(x.size)
                v[b::dim] = 1
                close(u @ M @ v, 0.0, k + " cross inertia", rtol=1e-9,
                      scale=sc)
    w = np.linalg.eigvalsh(0.5*(M + M.T))
    if w[0] < -1e-10*w[-1]:
        fail("{}: negative kinetic energy {:.3e} of {:.3e}", k, w[0], w[-1])
    Kz, Mz = mass_of(case, x, 0.0)
    if np.any(Mz != 0):
        fail("{}: mass of a body without density", k)
    close(Kz, K1, k + " density changes stiffness", rtol=1e-13)
    close(M, rho*M1, k + " proportionality to density", rtol=1e-12)
    close(K, K1, k + " density changes stiffness", rtol=1e-13)
    if k not in NEEDS_RHO:
        K0, M0 = mass_of(case, x, None)
        close(M0, M1, k + " mass without density", rtol=1e-13)
        close(K0, K1, k + " stiffness without density", rtol=1e-13)
    ctx.label(k)
    ctx.nontriv(case["el"]["jit"] or case["el"]["mid"])


@check("C06", solid(curved=False), quick=400,
       rule="straight-sided element (affine hexahedron): whole mass matrix is "
            "the exact kinetic energy form; non-trivial: distorted")
def straight_exact(case, ctx):
    k = case["el"]["k"]
    el = dict(case["el"], mid=0)
    if k == "hex8":
        el["jit"] = 0
    x = gen.build_elem(el, straight=True)
    rho = case["rho"] if case["rho"] is not None else 1.0
    _, M = mass_of(case, x, rho)
    ctx.label(k)
    ctx.nontriv(el["jit"] or el["aff"])
    close(M, ref.mass(k, x, rho, 5), k + " kinetic energy form", rtol=1e-9)


@check("C06", st.tuples(solid(), gen.ANGLE, gen.ANGLE).map(list), quick=200,
       rule="element and rotated copy; non-trivial: angle not multiple of 360")
def rotated(case, ctx):
    c, a, b = case
    k = c["el"]["k"]
    x = gen.build_elem(c["el"])
    n, dim = x.shape
    R = gen.rotm(a) if dim == 2 else gen.rot3(a, b)
    M1 = mass_of(c, x, 2.0)[1]
    M2 = mass_of(c, x @ R.T, 2.0)[1]
    T = np.kron(np.eye(n), R)
    ctx.label(k)
    ctx.nontriv(a % 360)
    close(M2, T @ M1 @ T.T, k + " mass of the rotated element", rtol=1e-9)


def ref_bar_mass(c, x, rho):
    x = np.asarray(x, dtype=float)
    d = x[1] - x[0]
    L = np.hypot(*d)
    t = d/L
    nrm = np.array([-t[1], t[0]])
    A = bar_section(c)[2]
    k = c["k"]
    nd = 4 if k == "truss" else 6
    M = np.zeros((nd, nd))
    xs, ws = ref.quad("line", 5)
    for xi, w in zip(xs[:, 0], ws):
        s = 0.5*(xi + 1)
        f = rho*A*0.5*L*w
        if k == "truss":
            H = np.hstack([(1 - s)*np.eye(2), s*np.eye(2)])
            M += f*(H.T @ H)
            continue
        h = [1 - 3*s**2 + 2*s**3, L*(s - 2*s**2 + s**3),
             3*s**2 - 2*s**3, L*(s**3 - s**2)]
        g = np.concatenate([h[0]*nrm, [h[1]], h[2]*nrm, [h[3]]])
        M += f*np.outer(g, g)
        if k == "beam":
            g = np.concatenate([(1 - s)*t, [0], s*t, [0]])
            M += f*np.outer(g, g)
    return M


@check("C06", bar(("truss", "beamU", "beam", "truss", "beamU", "beam",
                   "spring"), wide=True), quick=400,
       rule="members: exact kinetic energy of the element interpolation; "
            "non-trivial: inclined")
def members(case, ctx):
    k = case["k"]
    x = bar_coord(case)
    nd = 4 if k in ("truss", "spring") else 6
    K, M = (arr(q, (nd, nd), k) for q in tup(bar_call(case, x), 2, k))
    ctx.label(k)
    ctx.nontriv(case["rot"] % 90)
    finite(M, k + " mass")
    if k == "spring":
        if np.abs(M).max() != 0:
            fail("spring: mass {} instead of zero", M)
        return
    rho = 1.0 if case["rho"] is None else case["rho"]
    cc = dict(case)
    if k == "beamU" and (case["rho"] is None or case.get("noarea")):
        cc.update(AX=0, A=1.0/case["L"]**2)  # omitted area means one
    D = np.diag([1, 1, 1/case["L"]]*2) if nd == 6 else np.eye(4)
    close(D @ M @ D, D @ ref_bar_mass(cc, x, rho) @ D, k + " mass",
          rtol=1e-11)
    K2 = arr(tup(bar_call(case, x, rho=2*rho), 2, k)[0], (nd, nd), k)
    close(D @ K @ D, D @ K2 @ D, k + " density changes stiffness", rtol=1e-13)
