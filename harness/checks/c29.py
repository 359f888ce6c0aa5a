"""C29 - exact solutions of assembled models beyond uniform plane stress."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import qr

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
import solidspy.uelutil as ue

from .. import gen, ref
from .. import sut as sg
from ..core import arr, call, check, close, hash_perm, hash_unit, tup

TETS = [(0, 1, 3, 4), (1, 2, 3, 6), (1, 3, 4, 6), (1, 4, 5, 6),
        (3, 4, 6, 7)]
UEL = {"quad8": (ue.elast_quad8, 8, 2), "quad9": (ue.elast_quad9, 9, 2),
       "tri6": (ue.elast_tri6, 6, 2), "hex8": (ue.elast_hex8, 8, 3),
       "tet4": (ue.elast_tet4, 4, 3), "axi9": (ue.elast_axi_quad9, 9, 2)}


def rigid_basis(xyz):
    """Columns: displacements (n*dim) of the rigid motions."""
    n, dim = xyz.shape
    z = (xyz - xyz.mean(axis=0))/np.ptp(xyz, axis=0).max()
    cols = []
    for d in range(dim):
        u = np.zeros((n, dim))
        u[:, d] = 1
        cols.append(u.ravel())
    for a, b in ((0, 1), (1, 2), (2, 0))[:1 if dim == 2 else 3]:
        u = np.zeros((n, dim))
        u[:, a], u[:, b] = -z[:, b], z[:, a]
        cols.append(u.ravel())
    return np.column_stack(cols)


def determinate(xyz, key, basis=None):
    """Statically determinate supports (n, dim) and the projection of a
    field onto them."""
    n, dim = xyz.shape
    R = rigid_basis(xyz) if basis is None else basis
    cand = np.arange(n*dim)
    if key:
        pick = np.flatnonzero(hash_unit(key, n*dim, 41) > 0)
        if len(pick) >= R.shape[1] and np.linalg.cond(R[pick]) < 30:
            cand = pick
    _, _, p = qr(R[cand].T, pivoting=True, mode="economic")
    fix = cand[p[:R.shape[1]]]
    cons = np.zeros((n, dim), dtype=int)
    cons.ravel()[fix] = -1

    def settle(u):
        c = np.linalg.solve(R[fix], u.ravel()[fix])
        return u - (R @ c).reshape(u.shape)
    return cons, settle


def nodal_forces(kind, xyz, conn, stress):
    """Sum over elements of the integral of B.T stress (own quadrature);
    stress: function of the position."""
    dim = xyz.shape[1]
    f = np.zeros_like(xyz)
    pts, wts = ref.quad(ref.DOMAIN[kind], 4 if kind != "tet4" else 2)
    for c in conn:
        for p, w in zip(pts, wts):
            N, B, det = ref.kin(kind, xyz[c], p)
            f[c] += w*det*(B.T @ stress(N @ xyz[c])).reshape(-1, dim)
    return f


def solve(kind, xyz, conn, cons, f, params, case):
    """Displacements through the user-element interface."""
    fn, nn, dim = UEL[kind]
    n, nel = len(xyz), len(conn)
    nodes = np.column_stack([np.arange(n), xyz])
    elements = np.column_stack([gen.elem_ids(nel, case["ep"]),
                                np.full(nel, 1 if case["ep"] % 2 else 12),
                                np.zeros(nel, int), conn])
    mats = np.array([params])
    kw = {} if dim == 2 else {"ndof_node": dim}
    op, bc, neq = tup(call(ass.DME, cons, elements, ndof_el_max=nn*dim,
                           ndof_el=lambda iet: nn*dim, **kw), 3, "DME")
    K, _ = tup(call(ass.assembler, elements, mats, nodes, neq, op,
                    sparse=bool(case["sparse"]), uel=fn), 2, "assembler")
    rhs = call(ass.loadasem, gen.load_rows(f, case["rows"], ndof=dim), bc,
               neq, **kw)
    u = call(sol.static_sol, K, rhs)
    return arr(call(pos.complete_disp, bc, nodes, u, **kw), (n, dim),
               "displacements")


def clean(f):
    f[np.abs(f) < 1e-13*np.abs(f).max()] = 0
    return f


# ---------------------------------------------------------------- bending
def linear_state(xy, h, E, nu):
    """Stress (n, 3) and displacement (n, 2) of an equilibrated plane state
    with linear stresses, coefficients h (7,)."""
    x, y = xy.T
    a0, a1, a2, b0, b1, b2, c0 = h
    s = np.column_stack([a0 + a1*x + a2*y, b0 + b1*x + b2*y,
                         c0 - b2*x - a1*y])
    e0, e1, e2 = np.array([a0 - nu*b0, a1 - nu*b1, a2 - nu*b2])/E
    f0, f1, f2 = np.array([b0 - nu*a0, b1 - nu*a1, b2 - nu*a2])/E
    g0, g1, g2 = 2*(1 + nu)/E*np.array([c0, -b2, -a1])
    u = e0*x + e1*x**2/2 + e2*x*y + (g2 - f1)*y**2/2 + g0*y/2
    v = f0*y + f1*x*y + f2*y**2/2 + (g1 - e2)*x**2/2 + g0*x/2
    return s, np.column_stack([u, v])


@st.composite
def bending_st(draw):
    kind = draw(st.sampled_from(["tri6", "quad9", "tri6", "quad9", "quad8"]))
    mesh = draw(gen.mesh_st(kinds=("tri6" if kind == "tri6" else "quad9",),
                            nmax=4, curved=False,
                            distort=kind != "quad8"))
    return {"kind": kind, "mesh": mesh,
            "mat": draw(gen.mats_st(nmax=1, dens=kind == "quad8" or None)),
            "state": draw(gen.KEY), "mag": draw(gen.logf(-6, 3)),
            "sup": draw(gen.KEY), "rows": draw(gen.KEY),
            "ep": draw(gen.KEY), "sparse": draw(st.booleans()),
            "uel": draw(st.sampled_from([0, 0, 1]))}


def edge_forces(m, xy, stress):
    """Consistent nodal forces of linear tractions on straight edges."""
    f = np.zeros_like(xy)
    for e in m.edges:
        d = xy[e[1]] - xy[e[0]]
        nrm = np.array([d[1], -d[0]])
        for node, w in zip(e, (1/6, 1/6, 4/6)):
            s = stress[node]
            f[node] += w*np.array([s[0]*nrm[0] + s[2]*nrm[1],
                                   s[2]*nrm[0] + s[1]*nrm[1]])
    return f


@check("C29", bending_st(), quick=300,
       rule="straight-sided meshes of quadratic elements under linear "
            "stresses (bending, shear); non-trivial: distorted or several "
            "elements, stress not uniform")
def bending(case, ctx):
    m = gen.build_mesh(case["mesh"])
    kind = case["kind"]
    xy, conn = m.xy, m.conn
    row = case["mat"][0]
    E, nu = row[:2]
    h = hash_unit(case["state"], 7, 51) if case["state"] else \
        np.array([0, 0, 1.0, 0, 0, 0, 0])
    z = (xy - xy.mean(axis=0))/m.size
    s, u = linear_state(z, E*1e-3*case["mag"]*h, E, nu)
    u = u*m.size
    f = clean(edge_forces(m, xy, s))
    if kind == "quad8":
        keep = np.unique(conn[:, :8])
        new = np.zeros(len(xy), dtype=int)
        new[keep] = np.arange(len(keep))
        xy, conn, f, u = xy[keep], new[conn[:, :8]], f[keep], u[keep]
    cons, settle = determinate(xy, case["sup"])
    ctx.label(kind, "uel" if case["uel"] or kind == "quad8" else "workflow")
    ctx.nontriv(len(conn) > 1 or case["mesh"]["jit"])
    if kind == "quad8" or case["uel"]:
        got = solve(kind, xy, conn, cons, f, row, case)
    else:
        data = {"nodes": m.nodes(), "cons": cons, "elements": m.elements(),
                "mats": np.array([row]),
                "loads": gen.load_rows(f, case["rows"])}
        got = arr(call(sg.solids_auto, data, plot_contours=False), u.shape,
                  "displacements")
    close(got, settle(u), "displacements", rtol=1e-7)


# ---------------------------------------------------------------- solids
@st.composite
def solid_st(draw):
    return {"k": draw(st.sampled_from(["hex8", "tet4"])),
            "n": [draw(st.integers(1, 3)) for _ in range(3)],
            "jit": draw(gen.KEY), "L": draw(gen.LENGTH),
            "rot": draw(gen.ANGLE), "rot2": draw(gen.ANGLE),
            "off": draw(st.sampled_from([0, 0, 1, -5])),
            "st": draw(st.sampled_from([1, 1, 2, 0.4, 0.01, 60])),
            "np": draw(gen.KEY), "ep": draw(gen.KEY), "cs": draw(gen.KEY),
            "mat": [draw(gen.YOUNG), draw(gen.NU), draw(gen.DENS)],
            "sig": draw(gen.KEY1), "mag": draw(gen.logf(-6, 3)),
            "sup": draw(gen.KEY), "rows": draw(gen.KEY),
            "sparse": draw(st.booleans())}


# rotations of the local numbering that keep the element
HEX_ROT = [(0, 1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 0, 5, 6, 7, 4),
           (4, 7, 6, 5, 0, 3, 2, 1), (3, 2, 6, 7, 0, 1, 5, 4)]
TET_ROT = [(0, 1, 2, 3), (1, 2, 0, 3), (3, 2, 1, 0), (1, 0, 3, 2)]


def block(c):
    """Block of hexahedra or tetrahedra: positions, connectivity."""
    nx, ny, nz = c["n"]
    if c["k"] == "hex8" and nx*ny*nz > 12:
        nz = 1
    g = np.array([(i, j, k) for k in range(nz + 1) for j in range(ny + 1)
                  for i in range(nx + 1)], dtype=float)
    xyz = g + 0.12*gen.jitter(c["jit"], len(g), 3, 1)
    nid = lambda i, j, k: (k*(ny + 1) + j)*(nx + 1) + i     # noqa: E731
    conn = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                h = [nid(i + a, j + b, k + d) for d in (0, 1)
                     for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
                if c["k"] == "hex8":
                    conn.append(h)
                elif (i + j + k) % 2 == 0:
                    conn += [[h[q] for q in t] for t in TETS]
                else:            # mirrored, so that faces match
                    m = [1, 0, 3, 2, 5, 4, 7, 6]
                    conn += [[h[m[t[q]]] for q in (0, 2, 1, 3)]
                             for t in TETS]
    conn = np.array(conn)
    xyz[:, 0] *= c["st"]
    xyz = c["L"]*(xyz @ gen.rot3(c["rot"], c["rot2"]).T + c["off"])
    p = hash_perm(c["np"], len(xyz), 6)
    inv = np.argsort(p)
    xyz, conn = xyz[p], inv[conn]
    conn = conn[hash_perm(c["ep"], len(conn), 7)]
    if c["cs"]:
        rots = HEX_ROT if c["k"] == "hex8" else TET_ROT
        w = ((hash_unit(c["cs"], len(conn), 8) + 1)/2*4).astype(int) % 4
        conn = np.array([r[list(rots[q])] for r, q in zip(conn, w)])
    return xyz, conn


@check("C29", solid_st(), quick=150,
       rule="distorted blocks of hexahedra or tetrahedra under uniform "
            "stress; non-trivial: several distorted elements")
def solids(case, ctx):
    xyz, conn = block(case)
    E, nu, _ = case["mat"]
    s = E*1e-3*case["mag"]*hash_unit(case["sig"], 6, 52)
    eps = np.linalg.inv(ref.hooke_3d(E, nu)) @ s
    G = np.array([[eps[0], eps[5]/2, eps[4]/2],
                  [eps[5]/2, eps[1], eps[3]/2],
                  [eps[4]/2, eps[3]/2, eps[2]]])
    u = (xyz - xyz.mean(axis=0)) @ G
    f = clean(nodal_forces(case["k"], xyz, conn, lambda x: s))
    cons, settle = determinate(xyz, case["sup"])
    ctx.label(case["k"], "sparse" if case["sparse"] else "dense")
    ctx.nontriv(len(conn) > 1 and case["jit"])
    got = solve(case["k"], xyz, conn, cons, f, case["mat"], case)
    slim = 30 if case["st"] in (0.01, 60) else 1
    close(got, settle(u), "displacements",
          rtol=slim*(1e-7 + 1e-9/(1 - 2*case["mat"][1])))


# ---------------------------------------------------------------- rings
@st.composite
def ring_st(draw):
    mesh = draw(gen.mesh_st(kinds=("quad9",), nmax=3, curved=False))
    return {"mesh": mesh, "gap": draw(st.sampled_from([0, 0.1, 1, 20])),
            "mat": [draw(gen.YOUNG), draw(gen.NU), draw(gen.DENS)],
            "a": draw(gen.UNIT), "b": draw(gen.UNIT),
            "mag": draw(gen.logf(-6, 3)), "sup": draw(gen.KEY),
            "rows": draw(gen.KEY), "ep": draw(gen.KEY),
            "sparse": draw(st.booleans())}


@check("C29", ring_st(), quick=150,
       rule="axisymmetric bodies (solid or hollow) under uniform radial and "
            "axial stress; non-trivial: several elements")
def rings(case, ctx):
    m = gen.build_mesh(case["mesh"])
    xy = m.xy.copy()
    xy[:, 0] += (case["gap"]*m.size - xy[:, 0].min())
    xy[np.abs(xy[:, 0]) < 1e-12*m.size, 0] = 0
    E, nu, _ = case["mat"]
    k = E*1e-3*case["mag"]
    a, b = k*case["a"], k*case["b"]
    u = np.column_stack([xy[:, 0]*(a - nu*a - nu*b)/E,
                         (xy[:, 1] - xy[:, 1].mean())*(b - 2*nu*a)/E])
    # nodal forces of the uniform state: rr, zz, hoop (order of own strains)
    f = np.zeros_like(xy)
    pts, wts = ref.quad("quad", 4)
    for c in m.conn:
        for p, w in zip(pts, wts):
            N, dN = ref.shape("quad9", p)
            J = dN @ xy[c]
            d = np.linalg.solve(J, dN)
            r = N @ xy[c, 0]
            v = 2*np.pi*w*np.linalg.det(J)
            f[c, 0] += v*(r*d[0]*a + N*a)
            f[c, 1] += v*r*d[1]*b
    f = clean(f)
    basis = np.zeros((2*len(xy), 1))
    basis[1::2] = 1
    cons, settle = determinate(xy, case["sup"], basis)
    # points on the axis do not move radially
    u0 = settle(u)
    ctx.label("gap %g" % case["gap"])
    ctx.nontriv(len(m.conn) > 1)
    got = solve("axi9", xy, m.conn, cons, f, case["mat"], case)
    close(got, u0, "displacements", rtol=1e-7 + 1e-9/(1 - 2*nu),
          scale=max(np.abs(u0).max(), 1e-9*k*m.size/E))
