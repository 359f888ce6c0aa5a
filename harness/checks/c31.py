"""C31 - inertia and free vibration of assembled models."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

import solidspy.assemutil as ass

from .. import gen, ref
from ..core import arr, call, check, close, fail, hash_perm, hash_unit, tup

from .c29 import UEL, block, rigid_basis, solid_st


def matrices(nodes, cons, els, mats, sparse, uel=None, nd=None):
    """Assembled stiffness and mass as dense arrays."""
    ndof = cons.shape[1]
    kw = {} if ndof == 2 else {"ndof_node": ndof}
    if nd is not None:
        kw.update(ndof_el_max=max(nd, 18), ndof_el=lambda iet: nd)
    op, bc, neq = tup(call(ass.DME, cons, els, **kw), 3, "DME")
    K, M = tup(call(ass.assembler, els, mats, nodes, neq, op,
                    sparse=bool(sparse), uel=uel), 2, "assembler")
    free = np.argsort(np.asarray(bc).ravel())[(cons != 0).sum():]
    return (arr(K, (neq, neq), "stiffness"), arr(M, (neq, neq), "mass"),
            free)


def on_nodes(A, free, n):
    """Square matrix of all the dofs (restrained ones: zero)."""
    out = np.zeros((n, n))
    out[np.ix_(free, free)] = A
    return out


def spectrum(K, M):
    k, s = np.abs(K).max(), np.abs(M).max()
    try:
        w = sl.eigh(0.5*(K + K.T)/k, 0.5*(M + M.T)/s, eigvals_only=True)
    except np.linalg.LinAlgError:
        fail("the mass matrix is not positive definite")
    return w*k/s


def zero_modes(K, n, what):
    """The stiffness has exactly n strain-free motions."""
    w = np.abs(np.linalg.eigvalsh(0.5*(K + K.T)))
    w.sort()
    if not w[n - 1] <= 1e-11*w[-1]:
        fail("{}: {} rigid motions, eigenvalues {}", what, n, w[:n + 1]/w[-1])
    if len(w) > n and not w[n] > 30*max(w[n - 1], 1e-15*w[-1]):
        fail("{}: more than {} strain-free motions, eigenvalues {}", what, n,
             w[:n + 1]/w[-1])


def inertia(M, xyz, conn, kind, rho, what):
    """Kinetic energies of all rigid motions against own integration."""
    n, dim = xyz.shape
    R = rigid_basis(xyz)
    want = np.zeros((R.shape[1],)*2)
    pts, wts = ref.quad(ref.DOMAIN[kind], 4)
    for c, r in zip(conn, rho):
        for p, w in zip(pts, wts):
            N, dN = ref.shape(kind, p)
            v = np.einsum("i,idk->dk", N, R.reshape(n, dim, -1)[c])
            want += r*w*np.linalg.det(dN @ xyz[c])*(v.T @ v)
    close(R.T @ M @ R, want, what + ": inertia of rigid motions", rtol=1e-9,
          scale=want[0, 0])


@st.composite
def plane(draw):
    c = draw(gen.model_st(nmax=3, curved=False))
    c["sparse"] = draw(st.booleans())
    return c


@check("C31", plane(), quick=300,
       rule="free straight-sided plane bodies of several materials: inertia "
            "and strain-free motions; non-trivial: several elements")
def free_body(c, ctx):
    mo = gen.build_model(c)
    m = mo.mesh
    n = len(m.xy)
    K, M, free = matrices(mo.nodes, np.zeros((n, 2), int), mo.elements,
                          mo.mats, c["sparse"])
    K, M = on_nodes(K, free, 2*n), on_nodes(M, free, 2*n)
    rho = mo.mats[mo.mat_of, 2] if mo.mats.shape[1] > 2 else \
        np.ones(len(m.conn))
    ctx.label(m.kind, "rho" if mo.mats.shape[1] > 2 else "no rho",
              "sparse" if c["sparse"] else "dense")
    ctx.nontriv(len(m.conn) > 1)
    inertia(M, m.xy, m.conn, m.kind, rho, m.kind)
    R = rigid_basis(m.xy)
    close(K @ R, np.zeros_like(R), m.kind + ": forces of rigid motions",
          rtol=1e-9, scale=np.abs(K).max())
    zero_modes(K, 3, m.kind)


@check("C31", solid_st(), quick=60,
       rule="free blocks of hexahedra or tetrahedra: inertia and strain-free "
            "motions; non-trivial: several elements")
def free_solid(c, ctx):
    c = dict(c, n=[min(q, 2) for q in c["n"]])
    xyz, conn = block(c)
    n, nel = len(xyz), len(conn)
    fn, nn, _ = UEL[c["k"]]
    mats = np.array([c["mat"], [2*c["mat"][0], 0.2, 1.5*c["mat"][2]]])
    mid = np.arange(nel) % 2
    els = np.column_stack([gen.elem_ids(nel, c["ep"]), np.ones(nel, int),
                           mid, conn])
    K, M, free = matrices(np.column_stack([np.arange(n), xyz]),
                          np.zeros((n, 3), int), els, mats, c["sparse"],
                          uel=fn, nd=3*nn)
    K, M = on_nodes(K, free, 3*n), on_nodes(M, free, 3*n)
    ctx.label(c["k"])
    ctx.nontriv(nel > 1)
    if c["k"] == "tet4" or not c["jit"]:
        inertia(M, xyz, conn, c["k"], mats[mid, 2], c["k"])
    else:
        # the rule of hexahedra gives the mass and the static moments
        u = np.kron(np.ones(n), [1.0, 0, 0])
        vol = sum(r*ref.measure(c["k"], xyz[q])
                  for q, r in zip(conn, mats[mid, 2]))
        close(u @ M @ u, vol, "mass", rtol=1e-9)
    R = rigid_basis(xyz)
    close(K @ R, np.zeros_like(R), c["k"] + ": forces of rigid motions",
          rtol=1e-9, scale=np.abs(K).max())
    zero_modes(K, 6, c["k"])


@st.composite
def moved(draw):
    c = draw(gen.model_st(nmax=3))
    c.update(free=draw(st.booleans()), kn=draw(gen.KEY1), ke=draw(gen.KEY1),
             ang=draw(gen.ANGLE), tx=draw(st.sampled_from([0, 1, -30])),
             fl=draw(gen.logf(-4, 4)), fe=draw(gen.logf(-6, 6)),
             fr=draw(gen.logf(-6, 6)), sparse=draw(st.booleans()),
             rho=[draw(gen.DENS), draw(st.sampled_from([0.5, 1, 3])),
                  draw(st.sampled_from([0.2, 1, 2]))])
    return c


@check("C31", moved(), quick=250,
       rule="squared frequencies of a model and of the same model renumbered, "
            "turned, moved and in other units; non-trivial: several elements")
def frequencies(c, ctx):
    mo = gen.build_model(c)
    m = mo.mesh
    n, nel = len(m.xy), len(m.conn)
    mats = mo.mats[:, :2]
    r = c["rho"][0]*np.resize([1, c["rho"][1], c["rho"][2]], len(mats))
    mats = np.column_stack([mats, r])
    cons = np.zeros((n, 2), int) if c["free"] else mo.cons.copy()
    if c["ang"] % 90 and not c["free"]:
        cons[(cons == -1).any(axis=1)] = -1
    if (cons == 0).sum() == 0:
        cons[0] = 0
    K, M, _ = matrices(mo.nodes, cons, mo.elements, mats, c["sparse"])
    w0 = spectrum(K, M)
    if w0[0] < -1e-9*w0[-1]:
        fail("negative squared frequency {!r}", float(w0[0]))
    p = hash_perm(c["kn"], n, 61)
    inv = np.argsort(p)
    q = hash_perm(c["ke"], nel, 62)
    els = mo.elements.copy()
    els[:, 3:] = inv[els[:, 3:]]
    els = els[q]
    R = gen.rotm(c["ang"])
    nod = mo.nodes[p].astype(float)
    nod[:, 0] = np.arange(n)
    nod[:, 1:] = c["fl"]*(nod[:, 1:] @ R.T + m.size*np.array([c["tx"], 1]))
    con2 = cons[p]
    if c["ang"] % 180 == 90:
        con2 = con2[:, ::-1].copy()
    mat2 = mats*[c["fe"], 1, c["fr"]]
    K, M, _ = matrices(nod, con2, els, mat2, not c["sparse"])
    w1 = spectrum(K, M)/(c["fe"]/c["fr"]/c["fl"]**2)
    ctx.label(m.kind, "free" if c["free"] else "supported")
    ctx.nontriv(nel > 1)
    close(w1, w0, "squared frequencies of " + m.kind, rtol=1e-8)
    if c["free"] and np.abs(w0[:3]).max() > 1e-9*w0[-1]:
        fail("rigid motions with squared frequencies {}", w0[:3])


@st.composite
def members(draw):
    return {"k": draw(st.sampled_from(["truss", "beam"])),
            "n": draw(st.integers(2, 8)), "nel": draw(st.integers(1, 10)),
            "key": draw(gen.KEY1), "L": draw(gen.LENGTH),
            "rot": draw(st.one_of(st.just(0), gen.ANGLE)),
            "E": draw(gen.YOUNG),
            "rho": draw(gen.DENS), "sparse": draw(st.booleans()),
            "ep": draw(gen.KEY)}


def skeleton_model(c):
    """Positions, members, profiles of a random truss or frame (or None)."""
    n, key = c["n"], c["key"]
    xy = hash_unit(key, 2*n, 1).reshape(n, 2)
    if key % 3 == 0:                     # upright and level members
        xy = np.rint(2*xy)/2
    pairs = np.array([(i, j) for i in range(n) for j in range(n) if i != j
                      and np.linalg.norm(xy[i] - xy[j]) > 0.05])
    if not len(pairs):
        return None
    pick = ((hash_unit(key, c["nel"], 2) + 1)/2*len(pairs)).astype(int)
    mem = pairs[pick % len(pairs)]
    xy = c["L"]*xy @ gen.rotm(c["rot"]).T
    h = 2.0**hash_unit(key, 9, 3).reshape(3, 3)
    E, A, rho = c["E"]*h[:, 0], 1e-2*c["L"]**2*h[:, 1], c["rho"]*h[:, 2]
    mid = ((hash_unit(key, len(mem), 4) + 1)/2*3).astype(int) % 3
    if c["k"] == "truss":
        mats = np.column_stack([E, A, rho])
    else:
        mats = np.column_stack([E, A*A, A, rho])
    used = np.unique(mem)
    new = np.zeros(n, int)
    new[used] = np.arange(len(used))
    return xy[used], new[mem], mats, mid, E, A, rho


def member_reference(c, xy, mem, mats, mid):
    """Own consistent stiffness and mass of a truss or frame."""
    ndof = 2 if c["k"] == "truss" else 3
    n = len(xy)
    K, M = np.zeros((2, n*ndof, n*ndof))
    for (i, j), p in zip(mem, mats[mid]):
        d = xy[j] - xy[i]
        L = np.hypot(*d)
        cs, sn = d/L
        dofs = np.r_[ndof*i:ndof*i + ndof, ndof*j:ndof*j + ndof]
        if ndof == 2:
            E, A, rho = p
            b = np.array([-cs, -sn, cs, sn])
            k = E*A/L*np.outer(b, b)
            m = rho*A*L/6*np.kron([[2, 1], [1, 2]], np.eye(2))
        else:
            E, I, A, rho = p
            R = np.array([[cs, sn, 0], [-sn, cs, 0], [0, 0, 1]])
            T = np.kron(np.eye(2), R)
            k, m = np.zeros((2, 6, 6))
            k[np.ix_([0, 3], [0, 3])] = E*A/L*np.array([[1, -1], [-1, 1]])
            m[np.ix_([0, 3], [0, 3])] = rho*A*L/6*np.array([[2, 1], [1, 2]])
            # cubic shapes, integrated with four Gauss points
            t, w = np.polynomial.legendre.leggauss(4)
            b = [1, 2, 4, 5]
            for s, q in zip((t + 1)/2, w/2):
                N = np.array([1 - 3*s*s + 2*s**3, L*(s - 2*s*s + s**3),
                              3*s*s - 2*s**3, L*(s**3 - s*s)])
                B = np.array([-6 + 12*s, L*(-4 + 6*s), 6 - 12*s,
                              L*(6*s - 2)])/L**2
                k[np.ix_(b, b)] += q*L*E*I*np.outer(B, B)
                m[np.ix_(b, b)] += q*L*rho*A*np.outer(N, N)
            k, m = T.T @ k @ T, T.T @ m @ T
        K[np.ix_(dofs, dofs)] += k
        M[np.ix_(dofs, dofs)] += m
    return K, M


@check("C31", st.tuples(members(), st.sampled_from([0, 90, 180, 270, 45]),
                        gen.ANGLE, gen.KEY, gen.logf(-6, 6),
                        gen.logf(-6, 6)).map(list), quick=250,
       rule="squared frequencies of supported trusses and frames and of the "
            "same ones turned and in other units, against own matrices; "
            "non-trivial: several members")
def member_frequencies(case, ctx):
    c, quarter, ang, sup, fe, fr = case
    mo = skeleton_model(c)
    if mo is None:
        return
    xy, mem, mats, mid = mo[:4]
    n, nel = len(xy), len(mem)
    ndof = 2 if c["k"] == "truss" else 3
    els = np.column_stack([gen.elem_ids(nel, c["ep"]),
                           np.full(nel, 6 if ndof == 2 else 8), mid, mem])
    cons = np.zeros((n, ndof), int)
    if sup:
        cons[hash_unit(sup, n, 5) > 0.3] = -1
    cons[0] = 0
    free = np.flatnonzero(cons.ravel() == 0)
    size = np.ptp(xy, axis=0).max()
    out = []
    for what in (0, 1):
        R = gen.rotm(0 if not what else quarter if c["key"] % 2 else ang)
        m2 = mats.copy()
        pos = xy @ R.T
        if what:
            m2[:, 0] *= fe
            m2[:, -1] *= fr
        K, M, _ = matrices(np.column_stack([np.arange(n), pos]), cons.copy(),
                           els, m2, c["sparse"])
        Kr, Mr = member_reference(c, pos, mem, m2, mid)
        d = np.tile([1, 1, 1/size][:ndof], n)[free]
        D = np.outer(d, d)
        # order of the equations: by node, then direction
        close(K*D, Kr[np.ix_(free, free)]*D, "stiffness", rtol=1e-9)
        close(M*D, Mr[np.ix_(free, free)]*D, "mass", rtol=1e-9)
        w = spectrum(K*D, M*D)
        out.append(w if not what else w/(fe/fr))
    ctx.label(c["k"], "supported" if sup else "free")
    ctx.nontriv(nel > 1)
    close(out[1], out[0], "squared frequencies of a " + c["k"], rtol=1e-8)


@check("C31", members(), quick=200,
       rule="free trusses and frames of several profiles: mass in every "
            "direction, inertia of rotation of trusses; non-trivial: several "
            "members")
def skeleton(c, ctx):
    mo = skeleton_model(c)
    if mo is None:
        return
    xy, mem, mats, mid, E, A, rho = mo
    n, nel = len(xy), len(mem)
    t, ndof = (6, 2) if c["k"] == "truss" else (8, 3)
    els = np.column_stack([gen.elem_ids(nel, c["ep"]), np.full(nel, t), mid,
                           mem])
    K, M, free = matrices(np.column_stack([np.arange(n), xy]),
                          np.zeros((n, ndof), int), els, mats, c["sparse"],
                          nd=None)
    K, M = on_nodes(K, free, ndof*n), on_nodes(M, free, ndof*n)
    d = xy[mem[:, 1]] - xy[mem[:, 0]]
    mass = rho[mid]*A[mid]*np.linalg.norm(d, axis=1)
    ctx.label(c["k"])
    ctx.nontriv(nel > 1)
    tot = mass.sum()
    size = np.ptp(xy, axis=0).max()
    z = (xy - xy.mean(axis=0))/size
    cols = np.zeros((n, ndof, 3))
    cols[:, 0, 0] = cols[:, 1, 1] = 1
    cols[:, 0, 2], cols[:, 1, 2] = -z[:, 1], z[:, 0]
    if ndof == 3:
        cols[:, 2, 2] = 1/size
    R = cols.reshape(n*ndof, 3)
    a, b = z[mem[:, 0]], z[mem[:, 1]]
    mean = 0.5*(a + b)
    sq = ((a*a + a*b + b*b)/3).sum(axis=1)
    s = (mass[:, None]*mean).sum(axis=0)
    want = np.array([[tot, 0, -s[1]], [0, tot, s[0]],
                     [-s[1], s[0], (mass*sq).sum()]])
    close(R.T @ M @ R, want, "inertia of rigid motions", rtol=1e-9,
          scale=tot)
    sc = np.abs(K).max() if ndof == 2 else np.abs(
        K*np.tile([1, 1, 1/size], n)[:, None]*np.tile([1, 1, 1/size], n)
    ).max()
    F = K @ R
    if ndof == 3:
        F = F*np.tile([1, 1, 1/size], n)[:, None]
    close(F, np.zeros_like(F), "forces of rigid motions", rtol=1e-9, scale=sc)
