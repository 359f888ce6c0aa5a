"""C04 - stiffness matrices: symmetry, semidefiniteness, null space,
objectivity."""
import numpy as np
from hypothesis import strategies as st

import solidspy.uelutil as ue

from .. import gen, ref
from ..core import arr, call, check, close, fail, finite, hash_unit, tup

UEL = {"tri3": ue.elast_tri3, "tri6": ue.elast_tri6, "quad4": ue.elast_quad4,
       "quad8": ue.elast_quad8, "quad9": ue.elast_quad9,
       "tet4": ue.elast_tet4, "hex8": ue.elast_hex8}
NEEDS_RHO = ("quad8", "tet4", "hex8")
PTYPE = st.sampled_from(["tuple", "list", "array", "tuple", "list", "array",
                         "whole", "whole array"])


def pack(vals, ptype):
    """Parameters in some container; whole numbers may be integers."""
    if ptype.startswith("whole"):
        vals = [int(v) if v == int(v) and abs(v) < 1e6 else v for v in vals]
        ptype = "array" if ptype.endswith("array") else "tuple"
    return {"tuple": tuple, "list": list, "array": np.array}[ptype](vals)


def params_of(case):
    p = [case["E"], case["nu"]]
    if case["rho"] is not None or case["el"]["k"] in NEEDS_RHO:
        p.append(1.0 if case["rho"] is None else case["rho"])
    return pack(p, case["pt"])


@st.composite
def solid(draw, curved=True, kinds=tuple(UEL)):
    return {"el": draw(gen.elem_st(kinds, curved=curved)),
            "E": draw(gen.YOUNG), "nu": draw(gen.NU),
            "rho": draw(st.one_of(st.none(), gen.DENS)),
            "pt": draw(PTYPE)}


def rigid(coord):
    """Orthogonal-ish rigid modes about the centroid, scaled by size."""
    n, dim = coord.shape
    x = coord - coord.mean(axis=0)
    x = x/np.abs(x).max()
    modes = []
    for d in range(dim):
        v = np.zeros((n, dim))
        v[:, d] = 1
        modes.append(v.ravel())
    for a in range(dim):
        for b in range(a + 1, dim):
            v = np.zeros((n, dim))
            v[:, a] = -x[:, b]
            v[:, b] = x[:, a]
            modes.append(v.ravel())
    return np.array(modes).T


def check_stiff(K, modes, what, tol=1e-9, null=1e-8):
    """symmetric, PSD, null space exactly the span of the columns of modes"""
    n = len(K)
    finite(K, what)
    sc = np.abs(K).max()
    if not sc > 0:
        fail("{}: zero stiffness", what)
    close(K, K.T, what + " symmetry", rtol=tol, scale=sc)
    close(K @ modes, np.zeros((n, modes.shape[1])),
          what + " forces in strain-free motions", rtol=tol*np.abs(modes).max(),
          scale=sc)
    w = np.linalg.eigvalsh(0.5*(K + K.T)/sc)
    if w[0] < -tol:
        fail("{}: negative eigenvalue {:.3e} (largest {:.3e})", what, w[0],
             w[-1])
    if null is None:           # rounding hides the bending of slim elements
        return
    nul = int((w < null*w[-1]).sum())
    if nul != modes.shape[1]:
        fail("{}: {} zero-energy motions instead of {} (eigenvalues {})",
             what, nul, modes.shape[1], np.array2string(w, precision=3))


@check("C04", solid(), quick=700,
       rule="2D/3D element; non-trivial: distorted or rotated geometry")
def continuum(case, ctx):
    k = case["el"]["k"]
    x = gen.build_elem(case["el"])
    nd = x.size
    K = arr(tup(call(UEL[k], x, params_of(case)), 2, k)[0], (nd, nd),
            k + " stiffness")
    ctx.label(k, "nu<0" if case["nu"] < 0 else "nu>=0")
    ctx.nontriv(case["el"]["jit"] or case["el"]["aff"] or case["el"]["rot"])
    slim = not 0.1 < case["el"]["asp"] < 10
    ctx.label("slim" if slim else "stout")
    check_stiff(K, rigid(x), k, null=None if slim else 1e-8)


@check("C04", st.tuples(solid(), gen.ANGLE, gen.ANGLE, gen.KEY).map(list),
       quick=300,
       rule="element and its rotated/translated copy; non-trivial: angle not "
            "a multiple of 360")
def objectivity(case, ctx):
    c, a, b, off = case
    k = c["el"]["k"]
    x = gen.build_elem(c["el"])
    n, dim = x.shape
    R = gen.rotm(a) if dim == 2 else gen.rot3(a, b)
    size = np.ptp(x, axis=0).max()
    y = x @ R.T + 5*size*hash_unit(off, dim, 1)
    p = params_of(c)
    K1 = arr(tup(call(UEL[k], x, p), 2, k)[0], (n*dim, n*dim), k)
    K2 = arr(tup(call(UEL[k], y, p), 2, k)[0], (n*dim, n*dim), k)
    T = np.kron(np.eye(n), R)
    ctx.label(k)
    ctx.nontriv(a % 360)
    close(K2, T @ K1 @ T.T, k + " stiffness of the rotated element",
          rtol=1e-9)


# ------------------------------------------------------------ two-node ones
@st.composite
def bar(draw, kinds=("spring", "truss", "beamU", "beam"), wide=False):
    more = {}
    if wide:                 # sections of any proportions
        more = {"AX": draw(st.sampled_from([0, 0, 0, -9, -5, 4, 7])),
                "IX": draw(st.sampled_from([0, 0, 0, -8, -4, 3, 6])),
                "noarea": draw(st.integers(0, 3)) == 1}
    return {**more, "k": draw(st.sampled_from(list(kinds))),
            "L": draw(gen.LENGTH), "rot": draw(gen.ANGLE),
            "ox": draw(st.sampled_from([0, 0, 1, -20])),
            "oy": draw(st.sampled_from([0, 0, -3, 9])),
            "E": draw(gen.YOUNG),
            # slenderness and section relative to the length
            "I": draw(st.sampled_from([1.0, 0.01, 1e-3, 1e-5, 1.0, 7.0])),
            "A": draw(st.sampled_from([1.0, 0.1, 0.01, 0.5, 3.0])),
            "rho": draw(st.one_of(st.none(), gen.DENS)),
            "arr": draw(PTYPE), "int": draw(st.booleans()),
            "rev": draw(st.booleans())}


def bar_coord(c):
    x = np.array([[0.0, 0.0], [1.0, 0.0]]) @ gen.rotm(c["rot"]).T
    x = c["L"]*(x + np.array([c["ox"], c["oy"]], dtype=float))
    if c["rev"]:
        x = x[::-1].copy()
    if c["int"] and c["rot"] % 90 == 0 and c["L"] == int(c["L"]):
        x = np.round(x).astype(int)
    return x


def bar_section(c):
    """E, I, A with physical dimensions following the length."""
    return (c["E"], c["I"]*c["L"]**4*10.0**c.get("IX", 0),
            c["A"]*c["L"]**2*10.0**c.get("AX", 0))


def bar_call(c, x, with_rho=True, rho=None):
    E, I, A = bar_section(c)
    rho = c["rho"] if rho is None else rho
    k = c["k"]
    if k == "spring":
        s = E*c["L"]
        return call(ue.spring, x, s if c["arr"] == "tuple" else
                    pack([s], c["arr"]))
    if k == "truss":
        p = [E, A] + ([rho] if with_rho and rho is not None else [])
        return call(ue.truss2D, x, pack(p, c["arr"]))
    if k == "beamU":
        # young, inertia, dens, area
        p = [E, I]
        if rho is not None and with_rho:
            p += [rho] if c.get("noarea") else [rho, A]
        return call(ue.beam2DU, x, pack(p, c["arr"]))
    p = [E, I, A] + ([rho] if with_rho and rho is not None else [])
    return call(ue.beam2D, x, pack(p, c["arr"]))


def ref_bar(c, x):
    """Reference stiffness from axial/bending energies."""
    x = np.asarray(x, dtype=float)
    E, I, A = bar_section(c)
    d = x[1] - x[0]
    L = np.hypot(*d)
    t = d/L
    nrm = np.array([-t[1], t[0]])
    k = c["k"]
    if k in ("spring", "truss"):
        g = np.concatenate([-t, t])
        ea = E*c["L"] if k == "spring" else E*A/L
        return ea*np.outer(g, g)
    K = np.zeros((6, 6))
    # curvature of the cubic with end deflections v and rotations
    xs, ws = ref.quad("line", 4)
    for xi, w in zip(xs[:, 0], ws):
        s = 0.5*(xi + 1)
        h = np.array([(-6 + 12*s)/L**2, (-4 + 6*s)/L,
                      (6 - 12*s)/L**2, (-2 + 6*s)/L])
        g = np.concatenate([h[0]*nrm, [h[1]], h[2]*nrm, [h[3]]])
        K += 0.5*L*w*E*I*np.outer(g, g)
    if k == "beam":
        g = np.concatenate([-t, [0], t, [0]])
        K += E*A/L*np.outer(g, g)
    return K


@check("C04", bar(), quick=400,
       rule="spring/truss/beam; non-trivial: inclined or reversed member")
def structural(case, ctx):
    x = bar_coord(case)
    k = case["k"]
    nd = 4 if k in ("spring", "truss") else 6
    res = tup(bar_call(case, x), 2, k)
    K = arr(res[0], (nd, nd), k + " stiffness")
    arr(res[1], (nd, nd), k + " mass")
    ctx.label(k, "int" if x.dtype.kind == "i" else "float")
    ctx.nontriv(case["rot"] % 360 or case["rev"])
    x = x.astype(float)
    d = x[1] - x[0]
    L = np.hypot(*d)
    t = d/L
    nv = np.array([-t[1], t[0]])
    if nd == 4:
        z = np.zeros(2)
        modes = np.array([np.concatenate([t, t]), np.concatenate([nv, z]),
                          np.concatenate([z, nv])]).T
    else:
        # rotation about the centre; rotations scaled by the length
        modes = [np.concatenate([t, [0], t, [0]]),
                 np.concatenate([nv, [0], nv, [0]]),
                 np.concatenate([-0.5*nv, [1.0], 0.5*nv, [1.0]])]
        if k == "beamU":
            modes.append(np.concatenate([t, [0], -t, [0]]))
        modes = np.array(modes).T
        D = np.diag([1, 1, 1/L, 1, 1, 1/L])
        K = D @ K @ D
    check_stiff(K, modes, k, null=1e-11 if nd == 6 else 1e-8, tol=1e-12)


@check("C04", st.tuples(bar(), gen.ANGLE).map(list), quick=200,
       rule="member and its rotated copy; non-trivial: angle not a multiple "
            "of 360")
def structural_rotation(case, ctx):
    c, a = case
    c = dict(c, int=False)
    x = bar_coord(c)
    R = gen.rotm(a)
    nd = 4 if c["k"] in ("spring", "truss") else 6
    K1 = arr(tup(bar_call(c, x), 2, c["k"])[0], (nd, nd), c["k"])
    K2 = arr(tup(bar_call(c, x @ R.T), 2, c["k"])[0], (nd, nd), c["k"])
    if nd == 4:
        T = np.kron(np.eye(2), R)
    else:
        T = np.zeros((6, 6))
        T[:2, :2] = T[3:5, 3:5] = R
        T[2, 2] = T[5, 5] = 1
        D = np.diag([1, 1, 1/c["L"]]*2)
        K1, K2 = D @ K1 @ D, D @ K2 @ D
    ctx.label(c["k"])
    ctx.nontriv(a % 360)
    close(K2, T @ K1 @ T.T, c["k"] + " stiffness of the rotated member",
          rtol=1e-11)
