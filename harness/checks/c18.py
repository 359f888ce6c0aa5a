"""C18 - spectra of Bloch-reduced periodic models."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

import solidspy.assemutil as ass
import solidspy.blochutil as bl

from .. import gen
from ..core import arr, call, check, close, fail, hash_unit, tup


def assembled(m, mats, mat_of):
    cons = np.zeros((len(m.xy), 2), dtype=int)
    els = m.elements(mat_of)
    op, bc, neq = tup(call(ass.DME, cons, els), 3, "DME")
    K, M = tup(call(ass.assembler, els, mats, m.nodes(), neq, op), 2,
               "assembler")
    bc = arr(bc, cons.shape, "bc", "i")
    return K, M, bc


def periodic_pairs(m, lx, ly, choice, tol, strip=False):
    """(image, reference) nodes of a rectangular cell; ``choice`` tells which
    member of each class is the reference."""
    x0 = m.rect.min(axis=0)
    z = m.rect - x0
    cls = {}
    for i, (a, b) in enumerate(z):
        a = 0.0 if abs(a - lx) < tol else a
        b = 0.0 if abs(b - ly) < tol and not strip else b
        cls.setdefault((round(a/tol/10), round(b/tol/10)), []).append(i)
    ima, ref = [], []
    h = hash_unit(choice, len(cls), 3)
    for q, (key, mem) in enumerate(sorted(cls.items())):
        if len(mem) == 1:
            continue
        r = mem[int((h[q] + 1)/2*len(mem)) % len(mem)] if choice else mem[0]
        for i in mem:
            if i != r:
                ima.append(i)
                ref.append(r)
    return ima, ref


def reduce(m, K, M, bc, k, ima, ref):
    nd = bc.size
    dofs_ima = [int(d) for i in ima for d in bc[i]]
    dofs_ref = [int(d) for i in ref for d in bc[i]]
    new = call(bl.reassign_dof_bloch, nd, dofs_ima, dofs_ref)
    T = call(bl.bloch_transform_mat, k, m.xy, nd, ref, ima, dofs_ref,
             dofs_ima, {r: [int(d) for d in bc[r]] for r in ref},
             {i: [int(d) for d in bc[i]] for i in ima}, new)
    T = arr(T, (nd, nd - len(dofs_ima)), "transformation", "c")
    Kr = T.conj().T @ (K @ T)
    Mr = T.conj().T @ (M @ T)
    return Kr, Mr


def spectrum(Kr, Mr, sk, sm, what):
    """Squared frequencies in units of ``sk/sm``, the magnitudes of the
    entries of the matrices before reduction."""
    close(Kr, Kr.conj().T, what + ": Hermitian stiffness", rtol=1e-11,
          scale=sk)
    close(Mr, Mr.conj().T, what + ": Hermitian mass", rtol=1e-11, scale=sm)
    Kr, Mr = Kr/sk, Mr/sm
    wm = np.linalg.eigvalsh(0.5*(Mr + Mr.conj().T))
    if not wm[0] > 1e-9*wm[-1]:
        fail("{}: reduced mass is not positive definite: {}", what, wm[:3])
    w = sl.eigh(0.5*(Kr + Kr.conj().T), 0.5*(Mr + Mr.conj().T),
                eigvals_only=True)
    if w[0] < -1e-9*max(1.0, w[-1]):
        fail("{}: negative squared frequency {:.3e} (largest {:.3e})", what,
             w[0], w[-1])
    return w


def top(M):
    return float(abs(M).max())


ZONE = st.one_of(st.integers(-2, 2), st.sampled_from([1000, -10**6, 10**6]))


@st.composite
def cell(draw, kinds=("quad4", "tri3", "tri6", "quad9"), nmax=3):
    kind = draw(st.sampled_from(list(kinds)))
    return {"mesh": gen.plain_mesh(
        kind, draw(st.integers(1, nmax)), draw(st.integers(1, nmax)),
        box=1, jit=draw(gen.KEY), grade=draw(gen.KEY),
        mid=draw(gen.KEY) if kind in ("tri6", "quad9") else 0,
        np=draw(gen.KEY), ep=draw(gen.KEY), cs=draw(gen.KEY),
        diag=draw(gen.KEY) if kind in ("tri3", "tri6") else 0,
        place=dict(gen.PLAIN, L=draw(gen.logf(-4, 3)),
                   sx=draw(st.sampled_from([1, 2, 0.5])),
                   ox=draw(st.sampled_from([0, 0, -3])))),
        "mats": draw(gen.mats_st(dens=True)), "matkey": draw(gen.KEY),
        "sh": draw(st.sampled_from([0, 0, 0.5, -0.7])),
        "rot": draw(gen.ANGLE),
        "k": [draw(gen.UNIT), draw(gen.UNIT)], "choice": draw(gen.KEY),
        "g": [draw(ZONE), draw(ZONE)]}


def build(case):
    m = gen.build_mesh(case["mesh"])
    mats = np.array(case["mats"])
    mats[:, 2] = np.clip(mats[:, 2], 0.1*mats[0, 2], 10*mats[0, 2])
    nel = len(m.conn)
    mid = ((hash_unit(case["matkey"], nel, 5) + 1)/2*len(mats)).astype(int)
    m.rect = m.xy
    lx, ly = np.ptp(m.rect, axis=0)
    A, _ = lattice(case)
    m.xy = m.rect @ A.T
    return m, mats, mid, lx, ly


def lattice(case):
    """Affine map of the rectangular cell and of its wavevectors."""
    A = gen.rotm(case["rot"]) @ np.array([[1.0, case["sh"]], [0.0, 1.0]])
    return A, np.linalg.inv(A).T


@check("C18", cell(), quick=300,
       rule="periodic cell of any lattice, or strip, and wavevector; non-trivial: nonzero "
            "wavevector and several elements or materials")
def cell_spectrum(case, ctx):
    m, mats, mid, lx, ly = build(case)
    K, M, bc = assembled(m, mats, mid)
    sk, sm = top(K), top(M)
    tol = 1e-8*max(lx, ly)
    strip = case["choice"] % 5 == 1
    B = lattice(case)[1]
    per = np.array([1, 0 if strip else 1])
    k = B @ (per*np.pi*np.array(case["k"])/np.array([lx, ly]))
    ima, ref = periodic_pairs(m, lx, ly, 0, tol, strip)
    w = spectrum(*reduce(m, K, M, bc, k, ima, ref), sk, sm,
             "cell")
    ctx.label(case["mesh"]["k"], "strip" if strip else "cell",
              "oblique" if case["sh"] else "rectangular")
    ctx.nontriv(np.any(k) and len(m.conn) > 1)
    s = max(1.0, np.abs(w).max())
    rev = spectrum(*reduce(m, K, M, bc, -k, ima, ref), sk, sm,
             "reversed")
    close(rev, w, "reversed wavevector", rtol=1e-8, scale=s)
    G = B @ (per*2*np.pi*np.array(case["g"])/np.array([lx, ly]))
    close(spectrum(*reduce(m, K, M, bc, k + G, ima, ref), sk, sm,
             "shifted"), w,
          "reciprocal lattice vector",
          rtol=1e-8 + 3e-14*max(map(abs, case["g"])), scale=s)
    ima2, ref2 = periodic_pairs(m, lx, ly, case["choice"], tol, strip)
    close(spectrum(*reduce(m, K, M, bc, k, ima2, ref2), sk, sm,
             "references"), w,
          "choice of references", rtol=1e-8, scale=s)
    # at zero wavevector: two rigid translations
    w0 = spectrum(*reduce(m, K, M, bc, 0*k, ima, ref), sk, sm,
             "zero wavevector")
    nz = int((np.abs(w0) < 1e-8*s).sum())
    if nz != 2:
        fail("{} zero frequencies at zero wavevector", nz)
    if np.any(k) and not strip:        # strips bend: frequencies like k^4
        nz = int((np.abs(w) < 1e-10*s).sum())
        if nz:
            fail("{} zero frequencies at a nonzero wavevector", nz)


def repeat(m, rx, ry, lx, ly, mid):
    """repeat the cell, merging nodes"""
    tol = 1e-7*max(lx, ly)
    pts, ids, conn, mats = [], {}, [], []
    for a in range(rx):
        for b in range(ry):
            loc = []
            for p in m.rect + np.array([a*lx, b*ly]):
                key = (round(p[0]/tol), round(p[1]/tol))
                hit = None
                for da in (-1, 0, 1):
                    for db in (-1, 0, 1):
                        hit = ids.get((key[0] + da, key[1] + db), hit)
                if hit is None:
                    hit = len(pts)
                    ids[key] = hit
                    pts.append(p)
                loc.append(hit)
            conn.append(np.array(loc)[m.conn])
            mats.append(mid)
    r = gen.Mesh()
    r.kind, r.rect, r.conn = m.kind, np.array(pts), np.vstack(conn)
    return r, np.concatenate(mats)


@check("C18", st.tuples(cell(nmax=2), st.sampled_from(
    [[2, 1], [1, 2], [2, 2], [3, 1], [3, 2], [1, 1]])).map(list), quick=150,
       rule="repeated cell: folded spectrum; non-trivial: more than one "
            "repetition")
def folding(case, ctx):
    c, (rx, ry) = case
    if c["mesh"]["k"] in ("quad9", "tri6"):
        rx, ry = (min(rx, 2), 1) if rx > 1 else (1, min(ry, 2))
    m, mats, mid, lx, ly = build(c)
    tol = 1e-8*max(lx, ly)
    A, B = lattice(c)
    k = B @ (np.pi*np.array(c["k"])/np.array([rx*lx, ry*ly]))
    big, mid2 = repeat(m, rx, ry, lx, ly, mid)
    big.xy = big.rect @ A.T
    Kb, Mb, bcb = assembled(big, mats, mid2)
    sk, sm = top(Kb), top(Mb)
    ib, rb = periodic_pairs(big, rx*lx, ry*ly, c["choice"], tol)
    wb = spectrum(*reduce(big, Kb, Mb, bcb, k, ib, rb), sk, sm,
             "supercell")
    K, M, bc = assembled(m, mats, mid)
    ima, ref = periodic_pairs(m, lx, ly, 0, tol)
    ws = []
    for a in range(rx):
        for b in range(ry):
            kk = k + 2*np.pi*B @ np.array([a/(rx*lx), b/(ry*ly)])
            ws.append(spectrum(*reduce(m, K, M, bc, kk, ima, ref), sk, sm,
             "cell"))
    ws = np.sort(np.concatenate(ws))
    ctx.label(c["mesh"]["k"], "%dx%d" % (rx, ry))
    ctx.nontriv(rx*ry > 1)
    close(wb, ws, "folded spectrum", rtol=1e-7, scale=max(1.0, np.abs(ws).max()))


@check("C18", st.tuples(st.integers(1, 5), gen.logf(-3, 3), gen.YOUNG,
                        gen.DENS, st.one_of(gen.UNIT, gen.logf(-7, -1)),
                        st.one_of(st.sampled_from([0, 90]), gen.ANGLE),
                        gen.KEY).map(list),
       quick=300,
       rule="uniform chain of bars against its dispersion relation; "
            "non-trivial: nonzero wavenumber")
def chain(case, ctx):
    nel, L, E, rho, kx, ang, pk = case
    from ..core import hash_perm
    t = gen.rotm(ang) @ np.array([1.0, 0.0])
    xy = np.outer(np.arange(nel + 1)*L, t)
    p = hash_perm(pk, nel + 1, 1)
    inv = np.argsort(p)
    A = 0.3*L**2
    els = np.column_stack([np.arange(nel), np.full(nel, 6),
                           np.zeros(nel, int), inv[:-1], inv[1:]])
    cons = np.zeros((nel + 1, 2), dtype=int)
    op, bc, neq = tup(call(ass.DME, cons, els), 3, "DME")
    nodes = np.column_stack([np.arange(nel + 1), xy[p]])
    K, M = tup(call(ass.assembler, els, np.array([[E, A, rho]]), nodes, neq,
                    op), 2, "assembler")
    bc = arr(bc, cons.shape, "bc", "i")
    sk, sm = top(K), top(M)
    m = gen.Mesh()
    m.xy = xy[p]
    kv = kx*np.pi/(nel*L)*t
    w = spectrum(*reduce(m, K, M, bc, kv, [int(inv[-1])], [int(inv[0])]), sk, sm,
                 "chain")
    q = (kx*np.pi + 2*np.pi*np.arange(nel))/nel
    ex = E*A/L*(2 - 2*np.cos(q))/(rho*A*L*(4 + 2*np.cos(q))/6)
    ex = np.sort(np.concatenate([ex, np.zeros(nel)]))
    ctx.nontriv(kx)
    ctx.label("nel %d" % nel)
    ex = ex*sm/sk
    close(w, ex, "dispersion relation", rtol=1e-9, scale=12.0)
    # long waves: bars carry nothing across, so nel + 1 small values
    long = np.abs(ex) < 1e-3
    close(w[long], ex[long], "dispersion relation of long waves", rtol=1e-9,
          scale=1e-5 + np.abs(ex[long]))
