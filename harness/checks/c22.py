"""C22 - variational bounds under refinement, supports and stiffening."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st
from scipy.optimize import brentq

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol

from .. import gen
from ..core import arr, call, check, close, fail, hash_perm, hash_unit, num
from ..core import tup

NC = {"tri3": 3, "tri6": 3, "quad4": 4, "quad9": 4}


@st.composite
def coarse(draw, nmax=2):
    """Meshes whose refinements are nested and integrated exactly: straight
    triangles of any shape, parallelograms."""
    kind = draw(st.sampled_from(list(NC)))
    tri = kind in ("tri3", "tri6")
    if not tri:
        nmax = min(nmax, 2 if kind == "quad9" else 3)
    m = gen.plain_mesh(kind, draw(st.integers(1, nmax)),
                       draw(st.integers(1, nmax)),
                       grade=draw(gen.KEY), jit=draw(gen.KEY) if tri else 0,
                       diag=draw(gen.KEY) if tri else 0,
                       place=draw(gen.placement_st(gen.logf(-3, 3))),
                       np=draw(gen.KEY), ep=draw(gen.KEY), cs=draw(gen.KEY))
    return {"mesh": m, "mats": draw(gen.mats_st(dens=True)),
            "matkey": draw(gen.KEY), "sup": draw(gen.KEY),
            "supkind": draw(st.sampled_from(["pair", "side", "many",
                                             "corner"])),
            "load": draw(gen.KEY1), "nload": draw(st.integers(1, 5)),
            "lmag": draw(gen.logf(-3, 6)), "rows": 0,
            "levels": draw(st.sampled_from([1, 1, 2])),
            "extra": draw(gen.KEY1), "fac": draw(st.sampled_from(
                [1.5, 2.0, 10.0, 1.01]))}


def clip(mats):
    mats = np.array(mats, dtype=float)
    mats[:, 2] = np.clip(mats[:, 2], 0.1*mats[0, 2], 10*mats[0, 2])
    return mats.tolist()


def refine(m, mat_of, shuffle=0):
    """Split every element in four; returns mesh, materials and the new
    number of every old node."""
    kind, nc = m.kind, NC[m.kind]
    size = m.size

    def node(p):
        d = np.abs(pts[:len_[0]] - p).max(axis=1)
        k = int(d.argmin()) if len_[0] else 0
        if len_[0] and d[k] < 1e-9*size:
            return k
        pts[len_[0]] = p
        len_[0] += 1
        return len_[0] - 1

    pts = np.zeros((len(m.conn)*30 + 10, 2))
    len_ = [0]
    cells, mats = [], []
    for c, mt in zip(m.conn, mat_of):
        x = m.xy[c[:nc]]
        e = [0.5*(x[a] + x[(a + 1) % nc]) for a in range(nc)]
        if nc == 3:
            sub = [[x[0], e[0], e[2]], [e[0], x[1], e[1]],
                   [e[2], e[1], x[2]], [e[0], e[1], e[2]]]
        else:
            g = x.mean(axis=0)
            sub = [[x[0], e[0], g, e[3]], [e[0], x[1], e[1], g],
                   [g, e[1], x[2], e[2]], [e[3], g, e[2], x[3]]]
        for s in sub:
            s = np.array(s)
            row = [node(p) for p in s]
            if kind in ("tri6", "quad9"):
                row += [node(0.5*(s[a] + s[(a + 1) % nc]))
                        for a in range(nc)]
            if kind == "quad9":
                row.append(node(s.mean(axis=0)))
            cells.append(row)
            mats.append(mt)
    r = gen.Mesh()
    r.kind, r.xy, r.conn = kind, pts[:len_[0]].copy(), np.array(cells)
    p = hash_perm(shuffle, len(r.xy), 5)
    r.xy, r.conn = r.xy[p], np.argsort(p)[r.conn]
    old = np.array([int(np.abs(r.xy - q).max(axis=1).argmin())
                    for q in m.xy])
    return r, np.array(mats), old


def system(m, mats, mat_of, cons):
    els = m.elements(mat_of)
    op, bc, neq = tup(call(ass.DME, cons, els), 3, "DME")
    K, M = tup(call(ass.assembler, els, mats, m.nodes(), neq, op), 2,
               "assembler")
    return K, M, bc, int(neq)


def work(m, mats, mat_of, cons, f):
    """Work of the loads, through the energy of the solution."""
    K, _, bc, neq = system(m, mats, mat_of, cons)
    loads = np.column_stack([np.arange(len(f)), f])[np.any(f != 0, axis=1)]
    rhs = call(ass.loadasem, loads, bc, neq)
    u = call(sol.static_sol, K, rhs)
    full = arr(call(pos.complete_disp, bc, m.nodes(), u), (len(m.xy), 2),
               "displacements")
    w = float((f*full).sum())
    e = num(call(pos.energy, u, K), "energy")
    close(-2*e, w, "energy against work", rtol=1e-6)
    return w


def freqs(m, mats, mat_of, cons):
    """Squared frequencies."""
    K, M, _, neq = system(m, mats, mat_of, cons)
    K, M = arr(K, (neq, neq), "K"), arr(M, (neq, neq), "M")
    k, s = np.abs(K).max(), np.abs(M).max()
    try:
        w = sl.eigh(0.5*(K + K.T)/k, 0.5*(M + M.T)/s, eigvals_only=True)
    except np.linalg.LinAlgError:
        fail("the mass matrix is not positive definite")
    return w*k/s


def setup(c):
    c = dict(c, mats=clip(c["mats"]))
    mo = gen.build_model(c)
    f = mo.f*(mo.cons == 0)
    if not np.any(f):
        i, j = np.argwhere(mo.cons == 0)[-1]
        f[i, j] = c["lmag"]
    return mo, f


def geq(fine, crse, what, rtol=1e-8, tol=0.0):
    if not fine >= crse*(1 - rtol) - tol:
        fail("{}: {!r} after, {!r} before", what, float(fine), float(crse))


@check("C22", coarse(), quick=250,
       rule="nested refinement: work of the loads; non-trivial: the work "
            "grows by more than 0.1 %")
def refinement_work(c, ctx):
    mo, f = setup(c)
    m, mat_of, cons = mo.mesh, mo.mat_of, mo.cons
    w0 = work(m, mo.mats, mat_of, cons, f)
    if not w0 > 0:
        fail("the loads do no work: {}", w0)
    for lev in range(c["levels"]):
        r, mat2, old = refine(m, mat_of, c["extra"])
        cons2 = np.zeros((len(r.xy), 2), dtype=int)
        f2 = np.zeros((len(r.xy), 2))
        cons2[old], f2[old] = cons, f
        w1 = work(r, mo.mats, mat2, cons2, f2)
        geq(w1, w0, "work under refinement of " + m.kind)
        ctx.nontriv(w1 > 1.001*w0)
        m, mat_of, cons, f, w0 = r, mat2, cons2, f2, w1
    ctx.label(m.kind, c["supkind"])


@check("C22", coarse(nmax=2), quick=150,
       rule="nested refinement: natural frequencies; non-trivial: some "
            "frequency drops by more than 0.1 %")
def refinement_frequencies(c, ctx):
    mo, _ = setup(c)
    m, mat_of, cons = mo.mesh, mo.mat_of, mo.cons
    if c["sup"] == 0:
        cons = np.zeros_like(cons)                     # free body
    w0 = freqs(m, mo.mats, mat_of, cons)
    r, mat2, old = refine(m, mat_of, c["extra"])
    cons2 = np.zeros((len(r.xy), 2), dtype=int)
    cons2[old] = cons
    w1 = freqs(r, mo.mats, mat2, cons2)[:len(w0)]
    bad = w1 > w0*(1 + 1e-7) + 1e-9*w0[-1]
    if np.any(bad):
        k = int(np.flatnonzero(bad)[0])
        fail("squared frequency {} of {} grows from {!r} to {!r}", k, m.kind,
             float(w0[k]), float(w1[k]))
    if w1[0] < -1e-8*w0[-1]:
        fail("negative squared frequency {!r}", float(w1[0]))
    ctx.nontriv(np.any(w1 < 0.998*w0))
    ctx.label(m.kind, "free" if c["sup"] == 0 else c["supkind"])


@check("C22", coarse(nmax=3), quick=300,
       rule="added support or stiffer element; non-trivial: the work or a "
            "frequency changes by more than 0.1 %")
def supports_and_stiffening(c, ctx):
    mo, f = setup(c)
    m, mats, mat_of = mo.mesh, mo.mats, mo.mat_of
    w0 = work(m, mats, mat_of, mo.cons, f)
    q0 = freqs(m, mats, mat_of, mo.cons)
    # stiffen one element
    e = int(c["extra"]) % len(m.conn)
    mats2 = np.vstack([mats, mats[mat_of[e]]*[c["fac"], 1, 1]])
    mat2 = mat_of.copy()
    mat2[e] = len(mats)
    w1 = work(m, mats2, mat2, mo.cons, f)
    q1 = freqs(m, mats2, mat2, mo.cons)
    geq(w0, w1, "work when an element of %s is stiffened" % m.kind)
    geq(w1, w0/c["fac"], "work when an element of %s is stiffened" % m.kind)
    if np.any(q1 < q0*(1 - 1e-7) - 1e-9*q0[-1]):
        fail("stiffening lowers a frequency")
    ctx.nontriv(w1 < 0.999*w0)
    ctx.label(m.kind, "element stiffened")
    # add a support
    free = np.argwhere(mo.cons == 0)
    if len(free) < 3:
        return
    i, j = free[int(c["extra"]) % len(free)]
    cons2 = mo.cons.copy()
    cons2[i, j] = -1
    f2 = f.copy()
    f2[i, j] = 0
    if not np.any(f2):
        return
    w2 = work(m, mats, mat_of, mo.cons, f2)
    w3 = work(m, mats, mat_of, cons2, f2)
    # relative to the terms of the sum f.u
    geq(w2, w3, "work when a support is added to " + m.kind, tol=1e-9*w0)
    q3 = freqs(m, mats, mat_of, cons2)
    if np.any(q3 < q0[:-1]*(1 - 1e-7) - 1e-9*q0[-1]):
        fail("a support lowers a frequency")
    if np.any(q3 > q0[1:]*(1 + 1e-7) + 1e-9*q0[-1]):
        fail("a support raises a frequency above the next one")
    ctx.nontriv(w3 < 0.999*w2)
    ctx.label("support added")


@check("C22", st.tuples(st.integers(1, 12), gen.logf(-3, 3), gen.YOUNG,
                        gen.DENS, gen.KEY, st.sampled_from(
                            ["fixed-free", "fixed-fixed", "free-free"]),
                        st.booleans()).map(list), quick=300,
       rule="bar along an axis: frequencies against the analytic ones; "
            "non-trivial: at least two elements")
def bar(case, ctx):
    nel, L, E, rho, grade, ends, vert = case
    if ends == "fixed-fixed":
        nel += 1
    h = 1 + 0.6*hash_unit(grade, nel, 1)
    s = np.concatenate([[0], np.cumsum(h)])*L/h.sum()
    xy = np.zeros((nel + 1, 2))
    a = 1 if vert else 0
    xy[:, a] = s
    cons = np.zeros((nel + 1, 2), dtype=int)
    cons[:, 1 - a] = -1
    if ends != "free-free":
        cons[0, a] = -1
    if ends == "fixed-fixed":
        cons[-1, a] = -1
    A = 0.01*L**2
    els = np.column_stack([np.arange(nel), np.full(nel, 6),
                           np.zeros(nel, int), np.arange(nel),
                           np.arange(1, nel + 1)])
    op, bc, neq = tup(call(ass.DME, cons, els), 3, "DME")
    K, M = tup(call(ass.assembler, els, np.array([[E, A, rho]]),
                    np.column_stack([np.arange(nel + 1), xy]), neq, op), 2,
               "assembler")
    w = sl.eigh(arr(K, (neq, neq), "K")/(E*A/L),
                arr(M, (neq, neq), "M")/(rho*A*L), eigvals_only=True)
    k = np.arange(neq)
    ex = {"fixed-free": k + 0.5, "fixed-fixed": k + 1.0,
          "free-free": k*1.0}[ends]
    ex = (np.pi*ex)**2
    ctx.label(ends, "nel %d" % min(nel, 6))
    ctx.nontriv(nel > 1)
    if np.any(w < ex*(1 - 1e-9) - 1e-9*w[-1]*1e-3):
        fail("bar frequencies below the analytic ones: {} < {}", w, ex)
    hm = h.max()/h.sum()
    bound = ex*(1 + ex*hm**2/6) + 1e-9*w[-1]
    low = np.sqrt(ex)*hm < 0.8
    if np.any((w > bound)[low]):
        fail("bar frequencies do not approach the analytic ones: {} > {}",
             w[low], bound[low])


def cantilever_roots(n):
    f = lambda x: np.cos(x) + 1/np.cosh(x)                 # noqa: E731
    return np.array([brentq(f, k*np.pi, (k + 1)*np.pi) for k in range(n)])


@check("C22", st.tuples(st.integers(1, 8), gen.logf(-3, 3), gen.YOUNG,
                        gen.DENS, gen.KEY, gen.ANGLE,
                        st.sampled_from([7, 8]),
                        st.sampled_from([1, 0.1, 0.01])).map(list), quick=300,
       rule="cantilever beam: frequencies against the analytic ones; "
            "non-trivial: at least two elements")
def cantilever(case, ctx):
    nel, L, E, rho, grade, rot, t, slend = case
    h = 1 + 0.5*hash_unit(grade, nel, 1)
    s = np.concatenate([[0], np.cumsum(h)])*L/h.sum()
    if t == 7:               # no axial stiffness: along an axis, with guides
        rot = 90*(int(rot) % 4)
    xy = np.outer(s, gen.rotm(rot) @ np.array([1.0, 0.0]))
    A = (slend*L)**2
    I = 0.5*A**2
    cons = np.zeros((nel + 1, 3), dtype=int)
    cons[0] = -1
    if t == 7:
        cons[:, (rot//90) % 2] = -1
    els = np.column_stack([np.arange(nel), np.full(nel, t),
                           np.zeros(nel, int), np.arange(nel),
                           np.arange(1, nel + 1)])
    mat = [E, I, rho, A] if t == 7 else [E, I, A, rho]
    op, bc, neq = tup(call(ass.DME, cons, els, ndof_node=3), 3, "DME")
    K, M = tup(call(ass.assembler, els, np.array([mat]),
                    np.column_stack([np.arange(nel + 1), xy]), neq, op), 2,
               "assembler")
    # rotations in units of 1/L
    d = np.ones(neq)
    rd = arr(bc, (nel + 1, 3), "bc", "i")[:, 2]
    d[rd[rd >= 0]] = 1/L
    K = arr(K, (neq, neq), "K")*np.outer(d, d)/(E*I/L**3)
    M = arr(M, (neq, neq), "M")*np.outer(d, d)/(rho*A*L)
    w = sl.eigh(K, M, eigvals_only=True)
    nb = min(len(w), 14)
    bend = cantilever_roots(nb)**4
    ex = bend
    if t == 8:
        ax = (np.pi*(np.arange(nb) + 0.5))**2*(A*L**2/I)
        ex = np.sort(np.concatenate([bend, ax]))
    ex = ex[:nb]
    ctx.label("type %d" % t, "nel %d" % nel)
    ctx.nontriv(nel > 1)
    if np.any(w[:nb] < ex*(1 - 1e-7) - 1e-10*w[-1]):
        fail("cantilever frequencies below the analytic ones: {} < {}",
             w[:nb], ex)
    # the first bending frequency converges
    hm = h.max()/h.sum()
    near = w[np.abs(w - bend[0]).argmin()]
    if near > bend[0]*(1 + 0.03*hm**4) + 1e-10*w[-1]:
        fail("first bending frequency {!r} instead of {!r}", float(near),
             float(bend[0]))
