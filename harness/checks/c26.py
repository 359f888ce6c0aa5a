"""C26 - axisymmetric 9-node element."""
import numpy as np
from hypothesis import strategies as st

import solidspy.assemutil as ass
import solidspy.femutil as fem
import solidspy.postprocesor as pos
import solidspy.solutil as sol
import solidspy.uelutil as ue

from .. import gen, ref
from ..core import arr, call, check, close, fail, hash_perm, hash_unit
from ..core import raises, tup
from .c04 import check_stiff, pack


@st.composite
def axi(draw, affine=False):
    """Element in r >= 0; gap: distance from the axis in element sizes
    (0: it touches the axis)."""
    el = draw(gen.elem_st(("quad9",), curved=not affine, big_offset=False))
    el["int"] = 0
    el["off"] = [0, el["off"][1]]
    el["asp"] = min(max(el["asp"], 0.2), 5)
    if affine:
        el["jit"] = 0
    return {"el": el, "gap": draw(st.sampled_from([0, 0, 0.1, 1, 10, 100, 3000])),
            "E": draw(gen.YOUNG), "nu": draw(gen.NU),
            "rho": draw(gen.DENS), "u": draw(gen.KEY1),
            "pt": draw(st.sampled_from(["tuple", "list", "array"]))}


def build(c):
    x = gen.build_elem(c["el"])
    h = np.ptp(x, axis=0).max()
    g = np.linspace(-1, 1, 5)
    rmin = min((ref.shape("quad9", (a, b))[0] @ x)[0] for a in g for b in g)
    x[:, 0] += c["gap"]*h - rmin
    if c["gap"] == 0:
        x[:, 0] = np.maximum(x[:, 0], 0)
    return x, h


def hooke_axi(E, nu):
    """rr, zz, rz, hoop"""
    C = ref.hooke_3d(E, nu)
    ix = [0, 1, 5, 2]
    return C[np.ix_(ix, ix)]


def ring(x, C, rho, n=7):
    """Reference stiffness and mass of the ring."""
    K, M = np.zeros((18, 18)), np.zeros((18, 18))
    for pt, w in zip(*ref.quad("quad", n)):
        N, dN = ref.shape("quad9", pt)
        J = dN @ x
        d = np.linalg.solve(J, dN)
        r = N @ x[:, 0]
        B = np.zeros((4, 18))
        B[0, 0::2], B[1, 1::2] = d[0], d[1]
        B[2, 0::2], B[2, 1::2] = d[1], d[0]
        B[3, 0::2] = N/r
        f = 2*np.pi*r*np.linalg.det(J)*w
        H = ref.interp_mat(N, 2)
        K += f*B.T @ C @ B
        M += f*rho*H.T @ H
    return K, M


def element(c, x, rho=None):
    p = pack([c["E"], c["nu"], c["rho"] if rho is None else rho], c["pt"])
    K, M = tup(call(ue.elast_axi_quad9, x.copy(), p), 2, "elast_axi_quad9")
    return arr(K, (18, 18), "K"), arr(M, (18, 18), "M")


@check("C26", axi(), quick=500,
       rule="ring element of any shape: symmetry, definiteness, null space, "
            "mass; non-trivial: distorted or rotated section")
def definite(c, ctx):
    x, h = build(c)
    K, M = element(c, x)
    axial = np.zeros((18, 1))
    axial[1::2] = 1
    ctx.label("gap %g" % c["gap"], "curved" if c["el"]["mid"] else "straight")
    ctx.nontriv(c["el"]["jit"] or c["el"]["rot"] or c["el"]["mid"])
    check_stiff(K, axial, "ring stiffness", tol=1e-9,
                null=None if c["gap"] > (9 if c["nu"] > 0.49 else 1e3) else
                1e-12 if c["gap"] >= 10 or c["nu"] > 0.49 else 1e-10)
    sc = np.abs(M).max()
    close(M, M.T, "mass symmetry", rtol=1e-12)
    w = np.linalg.eigvalsh(M/sc)
    if w[0] < -1e-10:
        fail("mass has a negative eigenvalue {}", w[0])
    # proportional to density; stiffness does not depend on it
    K2, M2 = element(c, x, 3.5*c["rho"])
    close(M2, 3.5*M, "mass at another density", rtol=1e-12)
    close(K2, K, "stiffness at another density", rtol=1e-12)
    # density times volume (exact integrals of polynomials of the section)
    V = 2*np.pi*sum(w*np.linalg.det(ref.shape("quad9", p)[1] @ x)
                    * (ref.shape("quad9", p)[0] @ x[:, 0])
                    for p, w in zip(*ref.quad("quad", 6)))
    tol = 1e-9 if not c["el"]["mid"] else 1e-2
    for d in (0, 1):
        u = np.zeros(18)
        u[d::2] = 1
        close(u @ M @ u, c["rho"]*V, "mass of the ring", rtol=tol)


@check("C26", axi(affine=True), quick=400,
       rule="energies of displacement and velocity fields, parallelogram "
            "sections; non-trivial: rotated or sheared section")
def energies(c, ctx):
    x, h = build(c)
    K, M = element(c, x)
    C = hooke_axi(c["E"], c["nu"])
    L = x[:, 0].max()
    r, z = x[:, 0]/L, (x[:, 1] - x[:, 1].mean())/h
    a = hash_unit(c["u"], 12, 1)
    # hoop strain polynomial: u_r = r (a + b r + c z); u_z any quadratic
    ur = r*(a[0] + a[1]*r + a[2]*z)
    uz = a[3] + a[4]*r + a[5]*z + a[6]*r*r + a[7]*r*z + a[8]*z*z
    u = np.column_stack([ur, uz]).ravel()
    Kr, Mr = ring(x, C, c["rho"])
    ctx.label("gap %g" % c["gap"])
    ctx.nontriv(c["el"]["aff"] or c["el"]["rot"])
    sk = np.abs(u) @ np.abs(Kr) @ np.abs(u)
    close(u @ K @ u, u @ Kr @ u, "strain energy", rtol=1e-9, scale=sk)
    rnd = hash_unit(c["u"], 36, 2).reshape(2, 18)
    v = rnd[0]
    close(v @ M @ v, v @ Mr @ v, "kinetic energy", rtol=1e-9,
          scale=np.abs(v) @ np.abs(Mr) @ np.abs(v))
    close(M, Mr, "mass matrix", rtol=1e-9)
    if c["gap"] >= 10:
        # far from the axis the integrands are polynomials to accuracy
        close(K, Kr, "stiffness matrix", rtol=1e-5)


@check("C26", st.tuples(axi(), st.sampled_from(["all", "most", "mirror", "just"])
                        ).map(list), quick=200,
       rule="section at negative radius is rejected; non-trivial: all")
def negative_radius(case, ctx):
    c, how = case
    c = dict(c, gap=0.1)
    x, h = build(c)
    top = x[:, 0].max()
    if how == "all":
        x[:, 0] -= top + 0.01*h
    elif how == "just":              # a little, at an integration point
        g = np.sqrt(0.6)*np.array([(a, b) for a in (-1, 0, 1)
                                   for b in (-1, 0, 1)])
        low = min((ref.shape("quad9", p)[0] @ x)[0] for p in g)
        x[:, 0] -= low + h*0.1**(1 + c["u"] % 8)
    elif how == "most":
        x[:, 0] -= 0.9*top
    else:
        x[:, 0] *= -1
        x = x[[0, 3, 2, 1, 7, 6, 5, 4, 8]]
    ctx.label(how)
    ctx.nontriv()
    raises(ValueError, ue.elast_axi_quad9, x, (c["E"], c["nu"], c["rho"]))


@check("C26", axi(), quick=300,
       rule="axisymmetric strain matrix at any point; non-trivial: distorted")
def strain_matrix(c, ctx):
    c = dict(c, gap=max(c["gap"], (0.1, 1e-3, 1e-5)[c["u"] % 3]))
    x, h = build(c)
    p = hash_unit(c["u"], 2, 3)
    side = c["u"]//3 % 8                  # (almost) on a side
    if side < 4:
        p[side % 2] = (2*(side//2) - 1)*(1 - 10.0**(-2 - c["u"] % 5))
    low = (ref.shape("quad9", p)[0] @ x)[0]
    if low < 0.5e-5*h:              # curved sides dip below the sampled points
        x[:, 0] += c["gap"]*h - low
    H, B, det = tup(call(fem.elast_diff_axi, p[0], p[1], x,
                         fem.shape_quad9), 3, "elast_diff_axi")
    H, B = arr(H, (2, 18), "H"), arr(B, (4, 18), "B")
    N, dN = ref.shape("quad9", p)
    J = dN @ x
    d = np.linalg.solve(J, dN)
    W = np.zeros((4, 18))
    W[0, 0::2], W[1, 1::2] = d[0], d[1]
    W[2, 0::2], W[2, 1::2] = d[1], d[0]
    W[3, 0::2] = N/(N @ x[:, 0])
    close(H, ref.interp_mat(N, 2), "interpolation matrix", rtol=1e-10)
    close(B[:3], W[:3], "in-plane rows of the strain matrix", rtol=1e-8)
    close(B[3], W[3], "hoop row of the strain matrix", rtol=1e-8)
    close(float(det), np.linalg.det(J), "volume ratio", rtol=1e-8,
          scale=np.linalg.norm(J)**2)
    ctx.nontriv(c["el"]["jit"] or c["el"]["mid"])


@check("C26", st.tuples(st.integers(1, 8), gen.logf(-3, 3), gen.YOUNG,
                        st.sampled_from([0.25, 0.0, 0.3, 0.4, -0.3]),
                        st.sampled_from([1.5, 1.2, 2.0, 4.0]),
                        st.booleans(), gen.KEY, gen.KEY).map(list), quick=150,
       rule="thick-walled cylinder under internal pressure, or solid one "
            "under external pressure; non-trivial: several elements")
def cylinder(case, ctx):
    n, L, E, nu, ratio, solid, grade, pk = case
    a, b = (0.0 if solid else L), L*ratio
    h = 1 + 0.3*hash_unit(grade, n, 1)
    s = np.concatenate([[0], np.cumsum(h)])
    rr = a + (b - a)*s/s[-1]
    rr[-1] = b
    rr = np.sort(np.concatenate([rr, 0.5*(rr[1:] + rr[:-1])]))
    H = 0.7*(b - a)/n
    zz = np.array([0, H/2, H])
    gr, gz = np.meshgrid(rr, zz)
    xy = np.column_stack([gr.ravel(), gz.ravel()])
    nn, m = len(xy), len(rr)
    con = []
    for e in range(n):
        i = 2*e
        con.append([i, i + 2, i + 2 + 2*m, i + 2*m, i + 1, i + 2 + m,
                    i + 1 + 2*m, i + m, i + 1 + m])
    cons = np.zeros((nn, 2), dtype=int)
    cons[:, 1] = -1                                   # plane strain
    if solid:
        cons[xy[:, 0] == 0, 0] = -1
    f = np.zeros(nn)
    edge = np.flatnonzero(xy[:, 0] == (b if solid else a))
    edge = edge[np.argsort(xy[edge, 1])]
    # pressure E/1000: traction towards the axis on b, outwards on a
    R, sg, p = (b, -1, 1e-3*E) if solid else (a, 1, 1e-3*E)
    f[edge] = sg*p*2*np.pi*R*H*np.array([1, 4, 1])/6
    q = hash_perm(pk, nn, 3)
    inv = np.argsort(q)
    els = np.column_stack([np.arange(n), np.full(n, 4), np.zeros(n, int),
                           inv[np.array(con)]])
    op, bc, neq = tup(call(ass.DME, cons[q], els), 3, "DME")
    nodes = np.column_stack([np.arange(nn), xy[q]])
    K, _ = tup(call(ass.assembler, els, np.array([[E, nu, 1.0]]), nodes, neq,
                    op, uel=ue.elast_axi_quad9), 2, "assembler")
    loads = np.column_stack([np.arange(nn), f[q], np.zeros(nn)])
    u = call(sol.static_sol, K, call(ass.loadasem, loads, bc, neq))
    u = arr(call(pos.complete_disp, bc, nodes, u), (nn, 2), "u")[inv]
    mu, r = E/2/(1 + nu), xy[:, 0]
    lam = E*nu/(1 + nu)/(1 - 2*nu)
    if solid:
        w = -p*r/(2*(lam + mu))
        tol = 1e-6
    else:
        A = p*a*a/(b*b - a*a)
        w = A*r/(2*(lam + mu)) + A*b*b/(2*mu*r)
        k = np.log(rr[2::2]/rr[:-2:2]).max()      # relative element size
        tol = 1e-6 + 0.3*k**3
    ctx.label("solid" if solid else "hollow", "n %d" % n)
    ctx.nontriv(n > 1)
    close(u[:, 0], w, "radial displacement", rtol=tol)
    close(u[:, 1], 0*w, "axial displacement", rtol=1e-9,
          scale=np.abs(w).max())
