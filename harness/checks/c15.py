"""C15 - beams and frames."""
import numpy as np
from hypothesis import strategies as st

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol

from .. import gen
from ..core import arr, call, check, close, hash_perm, hash_unit, tup


def solve(xy, cons, mem, types, mats, mid, loads, ids=0):
    n, nel = len(xy), len(mem)
    nodes = np.column_stack([np.arange(n), xy])
    elements = np.column_stack([gen.elem_ids(nel, ids),
                                types*np.ones(nel, int), mid, mem])
    op, bc, neq = tup(call(ass.DME, cons, elements, ndof_node=3), 3, "DME")
    K, _ = tup(call(ass.assembler, elements, mats, nodes, neq, op), 2,
               "assembler")
    rhs = call(ass.loadasem, loads, bc, neq, ndof_node=3)
    u = call(sol.static_sol, K, rhs)
    return arr(call(pos.complete_disp, bc, nodes, u, ndof_node=3), (n, 3),
               "displacements")


@st.composite
def beam(draw):
    return {"t": draw(st.sampled_from([7, 8])),
            "nel": draw(st.integers(1, 7)), "grade": draw(gen.KEY),
            "L": draw(gen.logf(-3, 3)), "rot": draw(st.one_of(gen.ANGLE, st.sampled_from(
                [90.03, 269.98, 0.02]))),
            "E": draw(gen.YOUNG), "slend": draw(st.sampled_from(
                [1.0, 0.1, 0.01, 1e-3])),
            "I": draw(st.sampled_from([1.0, 0.5, 0.1, 3.0])),
            "load": draw(gen.KEY1), "mag": draw(gen.logf(-3, 5)),
            "rev": draw(gen.KEY), "np": draw(gen.KEY), "ep": draw(gen.KEY),
            "dens": draw(st.booleans())}


def section(c):
    """A ~ (slend L)^2, I ~ (slend L)^4."""
    A = (c["slend"]*c["L"])**2
    return A, c["I"]*A**2


def mat_row(c):
    A, I = section(c)
    if c["t"] == 7:
        return [c["E"], I] + ([2.0, A] if c["dens"] else [])
    return [c["E"], I, A] + ([2.0] if c["dens"] else [])


@check("C15", beam(), quick=400,
       rule="clamped straight beam at any angle under forces and moments at "
            "its nodes; non-trivial: inclined")
def cantilever(case, ctx):
    c = case
    nel = c["nel"]
    h = 1 + 0.6*hash_unit(c["grade"], nel, 1)
    s = np.concatenate([[0], np.cumsum(h)])
    s *= c["L"]/s[-1]
    tv = gen.rotm(c["rot"]) @ np.array([1.0, 0.0])
    nv = np.array([-tv[1], tv[0]])
    xy = np.outer(s, tv)
    n = nel + 1
    A, I = section(c)
    EI, EA = c["E"]*I, c["E"]*A
    F = np.round(hash_unit(c["load"], 3*n, 2).reshape(n, 3), 3)*c["mag"]
    F[hash_unit(c["load"], n, 3) > 0.4] = 0
    F[-1, 1] = c["mag"]
    F[:, 2] *= c["L"]
    cons = np.zeros((n, 3), dtype=int)
    cons[0] = -1
    free_dir = None
    if c["t"] == 7:
        # the axial freedom needs guides: restrain the coordinate best
        # aligned with the axis, the beam deflects along the other one
        g = 0 if abs(tv[0]) >= abs(tv[1]) else 1
        cons[:, g] = -1
        free_dir = 1 - g
    # exact solution, transverse load q, moment m, axial p at each node
    if free_dir is None:
        q, p = F[:, :2] @ nv, F[:, :2] @ tv
    else:
        q, p = F[:, free_dir]/nv[free_dir], np.zeros(n)
    w, th, ax = np.zeros(n), np.zeros(n), np.zeros(n)
    for a, Q, M, P in zip(s, q, F[:, 2], p):
        x = np.minimum(s, a)
        w += Q*(x**2*(3*a - x)/6 + (s - x)*a**2/2)/EI
        th += Q*x*(2*a - x)/(2*EI)
        w += M*(x**2/2 + (s - x)*x)/EI
        th += M*x/EI
        ax += P*x/EA
    if free_dir is None:
        want = np.outer(w, nv) + np.outer(ax, tv)
    else:
        want = np.zeros((n, 2))
        want[:, free_dir] = w/nv[free_dir]
    # numbering
    pm = hash_perm(c["np"], n, 4)
    inv = np.argsort(pm)
    mem = np.column_stack([inv[:-1], inv[1:]])
    if c["rev"]:
        rv = hash_unit(c["rev"], nel, 5) < 0
        mem[rv] = mem[rv][:, ::-1]
    mem = mem[hash_perm(c["ep"], nel, 6)]
    loads = gen.load_rows(F[pm], c["load"] % 3, ndof=3)
    u = solve(xy[pm], cons[pm], mem, c["t"], np.array([mat_row(c)]),
              np.zeros(nel, int), loads, c["ep"])
    ctx.label("type %d" % c["t"], "nel %d" % nel)
    ctx.nontriv(c["rot"] % 90)
    tol = 1e-9/min(1.0, c["slend"])**2 if c["t"] == 8 else 1e-8
    close(u[inv][:, :2], want, "deflections", rtol=max(tol, 1e-8))
    close(u[inv][:, 2], th, "rotations", rtol=max(tol, 1e-8))


@st.composite
def frame(draw):
    return {"t": draw(st.sampled_from([8, 8, 8, 7])),
            "cols": draw(st.integers(1, 3)), "floors": draw(st.integers(1, 3)),
            "geo": draw(gen.KEY), "L": draw(gen.logf(-3, 3)),
            "brace": draw(gen.KEY), "E": draw(gen.YOUNG),
            "slend": draw(st.sampled_from([0.3, 0.1, 0.05])),
            "rows": draw(st.integers(1, 3)), "mat": draw(gen.KEY),
            "hinge": draw(st.booleans()),
            "load": draw(gen.KEY1), "mag": draw(gen.logf(-3, 5)),
            "rot": draw(gen.ANGLE), "sub": draw(gen.KEY1),
            "np": draw(gen.KEY), "ep": draw(gen.KEY)}


def build_frame(c):
    nc, nf = c["cols"] + 1, c["floors"]
    xy = np.array([(i, j) for j in range(nf + 1) for i in range(nc)],
                  dtype=float)
    xy = xy + 0.25*hash_unit(c["geo"], xy.size, 11).reshape(-1, 2)
    mem = []
    for j in range(1, nf + 1):
        for i in range(nc):
            mem.append((j*nc + i - nc, j*nc + i))
            if i:
                mem.append((j*nc + i - 1, j*nc + i))
    br = hash_unit(c["brace"], nf*nc, 12)
    for j in range(nf):
        for i in range(nc - 1):
            if br[j*nc + i] > 0.4 or (c["t"] == 7):
                mem.append((j*nc + i, (j + 1)*nc + i + 1))
    mem = np.array(mem)
    n = len(xy)
    xy = c["L"]*xy
    cons = np.zeros((n, 3), dtype=int)
    cons[:nc] = -1
    if c["hinge"]:
        cons[1, 2] = 0
    h = hash_unit(c["mat"], 3*c["rows"], 13).reshape(-1, 3)
    A = (c["slend"]*c["L"])**2*2.0**h[:, 0]
    I = (c["slend"]*c["L"])**4*2.0**h[:, 1]
    E = c["E"]*2.0**h[:, 2]
    mats = np.column_stack([E, I, A, np.ones(len(E))] if c["t"] == 8
                           else [E, I, np.ones(len(E)), A])
    mid = ((hash_unit(c["mat"], len(mem), 14) + 1)/2*c["rows"]).astype(int)
    F = np.round(hash_unit(c["load"], 3*n, 15).reshape(n, 3), 3)*c["mag"]
    F[:, 2] *= c["L"]
    F[hash_unit(c["load"], n, 16) > 0.5] = 0
    F[-1, 0] = c["mag"]
    return xy, cons, mem, mats, mid, F


@check("C15", frame(), quick=300,
       rule="multi-storey frame: rotated, with reversed members, renumbered "
            "and with subdivided members; non-trivial: angle not a multiple "
            "of 90")
def frames(case, ctx):
    c = case
    xy, cons, mem, mats, mid, F = build_frame(c)
    n, nel = len(xy), len(mem)
    rows = gen.load_rows(F, 0, ndof=3)
    if c["t"] == 7:
        # without axial stiffness a frame may be a mechanism: guide it
        cons[:, 0] = -1
    u = solve(xy, cons, mem, c["t"], mats, mid, rows)
    L = c["L"]

    def same(got, want, what):
        sc = max(np.abs(want[:, :2]).max(), np.abs(want[:, 2]).max()*L)
        close(got[:, :2], want[:, :2], what + ": displacements", rtol=1e-7,
              scale=sc)
        close(got[:, 2]*L, want[:, 2]*L, what + ": rotations", rtol=1e-7,
              scale=sc)
    ctx.label("type %d" % c["t"], "members %d" % (nel//4*4))
    ctx.nontriv(c["rot"] % 90)
    # direction of the members and numbering
    rv = hash_unit(c["sub"], nel, 17) < 0
    m2 = mem.copy()
    m2[rv] = m2[rv][:, ::-1]
    same(solve(xy, cons, m2, c["t"], mats, mid, rows), u, "reversed members")
    p = hash_perm(c["np"], n, 18)
    inv = np.argsort(p)
    pe = hash_perm(c["ep"], nel, 19)
    r2 = rows.copy()
    r2[:, 0] = inv[rows[:, 0].astype(int)]
    got = solve(xy[p], cons[p], inv[mem][pe], c["t"], mats, mid[pe], r2,
                c["ep"])
    same(got[inv], u, "renumbered frame")
    # subdivision (guided frames of type 7 need guides at the new nodes)
    k = int((hash_unit(c["sub"], 1, 20)[0] + 1)/2*nel) % nel
    f = 0.5 + 0.3*hash_unit(c["sub"], 1, 21)[0]
    a, b = mem[k]
    if c["t"] == 8:
        xs = np.vstack([xy, xy[a] + f*(xy[b] - xy[a])])
        cs = np.vstack([cons, [0, 0, 0]])
        ms = np.vstack([mem, [n, b]])
        ms[k] = [a, n]
        got = solve(xs, cs, ms, 8, mats, np.append(mid, mid[k]), rows)
        same(got[:n], u, "subdivided member")
        # rotation of everything
        R = gen.rotm(c["rot"])
        r3 = rows.copy()
        r3[:, 1:3] = rows[:, 1:3] @ R.T
        got = solve(xy @ R.T, cons, mem, 8, mats, mid, r3)
        want = u.copy()
        want[:, :2] = u[:, :2] @ R.T
        same(got, want, "rotated frame")
        # equilibrium of the whole: reactions from the member end forces of
        # the reference element
        from .c04 import ref_bar
        r = -F.copy()
        for e, (i, j) in enumerate(mem):
            E, I, A = mats[mid[e]][:3]
            cc = {"k": "beam", "E": E, "L": 1.0, "I": I, "A": A}
            ke = ref_bar(cc, xy[[i, j]])
            q = ke @ np.concatenate([u[i], u[j]])
            r[i] += q[:3]
            r[j] += q[3:]
        sc = max(np.abs(F[:, :2]).max(), np.abs(F[:, 2]).max()/L)
        r[:, 2] /= L
        close(r[cons == 0], 0*r[cons == 0], "joint equilibrium", rtol=1e-6,
              scale=sc)
