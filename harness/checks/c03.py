"""C03 - numbering, frame and unit invariance (metamorphic)."""
import numpy as np
from hypothesis import strategies as st


from .. import gen
from .. import sut as sg
from ..core import arr, call, check, close, fail, hash_perm, hash_unit, tup
from .c13 import unattached

STRAINS = ("quad4", "tri3", "tri6")


def run(d, kind, key=0):
    n = len(d["nodes"])
    s = kind in STRAINS
    d = {k: gen.store(v, key//11**i) for i, (k, v) in enumerate(d.items())}
    res = call(sg.solids_auto, d, plot_contours=False, compute_strains=s)
    if not s:
        return arr(res, (n, 2), "displacements"), None, None
    u, e, t = tup(res, 3, "solids_auto")
    return (arr(u, (n, 2), "displacements"), arr(e, (n, 3), "strains"),
            arr(t, (n, 3), "stresses"))


def same(got, want, what, size, E, tol=1e-6):
    """size: to scale strains with rigid parts of the displacement"""
    close(got[0], want[0], what + ": displacements", rtol=tol)
    if want[1] is not None:
        sc = np.abs(want[1]).max()
        close(got[1], want[1], what + ": strains", rtol=tol, scale=sc)
        close(got[2], want[2], what + ": stresses", rtol=tol,
              scale=np.abs(want[2]).max())


@check("C03", st.tuples(gen.model_st(ints=True), gen.KEY1, gen.KEY1, gen.KEY,
                        gen.KEY,
                        gen.KEY).map(list), quick=200,
       rule="renumbered nodes, permuted elements/materials/loads, shifted "
            "connectivities; non-trivial: at least two elements")
def numbering(case, ctx):
    c, kn, ke, km, kl, kc = case
    mo = gen.build_model(c)
    d = mo.data()
    kind = c["mesh"]["k"]
    base = run(d, kind)
    n, nel = len(d["nodes"]), len(d["elements"])
    p = hash_perm(kn, n, 51)               # new -> old
    inv = np.argsort(p)
    pe = hash_perm(ke, nel, 52)
    pm = hash_perm(km, len(d["mats"]), 53)
    imv = np.argsort(pm)
    e = d["elements"].copy()
    e[:, 3:] = inv[e[:, 3:]]
    e[:, 2] = imv[e[:, 2]]
    sh = np.floor(2*(hash_unit(kc, nel, 54) + 1)).astype(int) if kc else \
        np.zeros(nel, dtype=int)
    for r in range(nel):
        e[r, 3:] = gen.cyc(kind, e[r, 3:], sh[r])
    e = e[pe]
    e[:, 0] = gen.elem_ids(nel, ke)
    nod = d["nodes"][p]
    nod[:, 0] = np.arange(n)
    ld = d["loads"].copy()
    ld[:, 0] = inv[ld[:, 0].astype(int)]
    ld = ld[hash_perm(kl, len(ld), 55)]
    d2 = {"nodes": nod, "cons": d["cons"][p], "elements": e,
          "mats": d["mats"][pm], "loads": ld}
    ctx.label(kind, "elements>=2" if nel > 1 else "one element")
    ctx.nontriv(nel > 1)
    got = run(d2, kind, mo.store)
    want = tuple(None if b is None else b[p] for b in base)
    same(got, want, "renumbered", mo.mesh.size, 1)


def volt(R, s):
    """Rotate strain-like rows; engineering=True handled by the caller."""
    out = np.empty_like(s)
    for i, (a, b, c) in enumerate(s):
        m = R @ np.array([[a, c], [c, b]]) @ R.T
        out[i] = m[0, 0], m[1, 1], m[0, 1]
    return out


@check("C03", st.tuples(gen.model_st(), gen.ANGLE, st.booleans(),
                        st.sampled_from([0, 0, 1, -13, 200]),
                        st.sampled_from([0, 1, 5, -77])).map(list), quick=200,
       rule="moved, rotated and reflected model; non-trivial: rotation or "
            "reflection")
def frame(case, ctx):
    c, ang, refl, tx, ty = case
    mo = gen.build_model(c)
    d = mo.data()
    kind = c["mesh"]["k"]
    if ang % 90 != 0:
        # supports must be the same in every frame
        both = (d["cons"] == -1).any(axis=1)
        d["cons"][both] = -1
    if (d["cons"] == 0).sum() == 0:
        ctx.label("no free dof")
        return
    base = run(d, kind)
    R = gen.rotm(ang)
    if refl:
        R = R @ np.diag([-1.0, 1.0])
    d2 = {k: v.copy() for k, v in d.items()}
    size = mo.mesh.size
    d2["nodes"][:, 1:] = d["nodes"][:, 1:] @ R.T + size*np.array([tx, ty])
    d2["loads"][:, 1:] = d["loads"][:, 1:] @ R.T
    if ang % 180 == 90:
        d2["cons"] = d["cons"][:, ::-1].copy()
    if refl:
        nc = gen.CORNERS[kind]
        idx = [0] + list(range(nc - 1, 0, -1))
        if kind in ("tri6", "quad9"):
            idx += list(range(2*nc - 1, nc - 1, -1))
        if kind == "quad9":
            idx.append(8)
        d2["elements"][:, 3:] = d["elements"][:, 3:][:, idx]
    got = run(d2, kind, mo.store)
    ctx.label(kind, "reflected" if refl else "rotated")
    ctx.nontriv(ang % 360 or refl)
    half = np.array([1, 1, 0.5])
    want = (base[0] @ R.T,
            None if base[1] is None else volt(R, base[1]*half)/half,
            None if base[2] is None else volt(R, base[2]))
    same(got, want, "moved model", size, 1)


@check("C03", st.tuples(gen.model_st(), gen.logf(-6, 6), gen.logf(-5, 5),
                        gen.logf(-6, 6)).map(list), quick=200,
       rule="change of units (stiffness, length, force); non-trivial: some "
            "factor differs from one")
def units(case, ctx):
    c, fe, fl, ff = case
    mo = gen.build_model(c)
    d = mo.data()
    kind = c["mesh"]["k"]
    base = run(d, kind)
    d2 = {k: v.copy() for k, v in d.items()}
    d2["mats"][:, 0] *= fe
    d2["nodes"][:, 1:] *= fl
    d2["loads"][:, 1:] *= ff
    ctx.label(kind)
    ctx.nontriv(fe != 1 or fl != 1 or ff != 1)
    got = run(d2, kind, mo.store)
    want = (base[0]*ff/fe, None if base[1] is None else base[1]*ff/fe/fl,
            None if base[2] is None else base[2]*ff/fl)
    same(got, want, "changed units", 1, 1)


@st.composite
def two_models(draw):
    kind = draw(st.sampled_from(sorted(gen.TYPE)))
    dens = draw(st.booleans())
    a, b = (draw(gen.model_st(kinds=(kind,), nmax=3, dens=dens))
            for _ in range(2))
    return [a, b, draw(gen.KEY), draw(gen.KEY)]


@check("C03", two_models(), quick=120,
       rule="two bodies analysed in one model, rows interleaved, against "
            "each alone; non-trivial: interleaved")
def union(case, ctx):
    ca, cb, kn, ke = case
    kind = ca["mesh"]["k"]
    mo = [gen.build_model(q) for q in (ca, cb)]
    base = [run(q.data(), kind) for q in mo]
    na, nb = (len(q.nodes) for q in mo)
    ea, eb = mo[0].elements.copy(), mo[1].elements.copy()
    eb[:, 2] += len(mo[0].mats)
    eb[:, 3:] += na
    n, nel = na + nb, len(ea) + len(eb)
    p = hash_perm(kn, n, 56)
    inv = np.argsort(p)
    e = np.vstack([ea, eb])[hash_perm(ke, nel, 57)]
    e[:, 3:] = inv[e[:, 3:]]
    e[:, 0] = gen.elem_ids(nel, ke)
    xy = np.vstack([q.nodes[:, 1:] for q in mo])
    la, lb = mo[0].loads.copy(), mo[1].loads.copy()
    lb[:, 0] += na
    ld = np.vstack([la, lb])
    ld[:, 0] = inv[ld[:, 0].astype(int)]
    ld = ld[hash_perm(kn, len(ld), 58)]
    d = {"nodes": np.column_stack([np.arange(n), xy[p]]),
         "cons": np.vstack([q.cons for q in mo])[p], "elements": e,
         "mats": np.vstack([q.mats for q in mo]), "loads": ld}
    got = run(d, kind, mo[0].store)
    ctx.label(kind)
    ctx.nontriv(kn and ke)
    for k, (who, q, b) in enumerate(zip(
            (inv[:na], inv[na:]), mo, base)):
        same(tuple(None if g is None else g[who] for g in got), b,
             "body %d of two" % k, q.mesh.size, 1)


@check("C03", st.tuples(gen.model_st(ints=True), st.integers(1, 4), gen.KEY1,
                        st.integers(0, 2)).map(list), quick=120,
       rule="the same model with restrained nodes that belong to no element, "
            "loads on them and materials nobody uses; non-trivial: every case")
def spare(case, ctx):
    c, k, key, extra = case
    mo = gen.build_model(c)
    kind = c["mesh"]["k"]
    ctx.label(kind)
    ctx.nontriv()
    base = run(mo.data(), kind)
    at = unattached(mo, k, key)
    if extra:
        row = mo.mats[:1].copy()
        row[0, 0] *= 1e3
        mo.mats = np.vstack([mo.mats, row, row])
        if extra == 2:                   # at the beginning of the table
            mo.mats = np.roll(mo.mats, 2, axis=0)
            mo.elements[:, 2] += 2
    off = np.setdiff1d(np.arange(len(mo.nodes)), at)
    big = np.abs(mo.loads[:, 1:]).max() or 1
    mo.loads = np.vstack([mo.loads, [[i, big, -big] for i in off[:2]]])
    got = run(mo.data(), kind, mo.store)
    if np.any(got[0][off] != 0):
        fail("restrained nodes without elements move")
    same(tuple(g if g is None else g[at] for g in got), base,
         "model with spare nodes and materials", mo.mesh.size, 1)


MIRROR = {"tri3": [0, 2, 1], "tri6": [0, 2, 1, 5, 4, 3],
          "quad4": [0, 3, 2, 1], "quad9": [0, 3, 2, 1, 7, 6, 5, 4, 8]}


@st.composite
def symmetric(draw):
    c = draw(gen.model_st(nmax=3))
    c["mesh"].update(box=1, hole=-1, cs=0)
    c["mesh"]["place"].update(rot=0, sh=0, ox=0)
    return [c, draw(st.booleans()), draw(gen.KEY), draw(gen.KEY)]


@check("C03", symmetric(), quick=120,
       rule="symmetric body under symmetric or antisymmetric loads against "
            "its half on rollers; non-trivial: distorted or renumbered")
def half(case, ctx):
    c, anti, kn, ke = case
    kind = c["mesh"]["k"]
    mo = gen.build_model(c)
    h = mo.data()
    xy = h["nodes"][:, 1:].astype(float)
    xy[:, 0] -= xy[:, 0].min()
    h["nodes"] = np.column_stack([np.arange(len(xy)), xy])
    on = xy[:, 0] < 1e-9*mo.mesh.size
    xy[on, 0] = 0
    h["nodes"][:, 1:] = xy
    f, cons = mo.f, mo.cons
    hc = cons.copy()
    hc[on, 1 if anti else 0] = -1
    if not (hc == 0).any():
        return
    h["cons"] = hc
    # mirrored copy; nodes of the axis are shared
    n = len(xy)
    off = np.flatnonzero(~on)
    image = np.arange(n)
    image[off] = n + np.arange(len(off))
    s = np.array([1.0, -1.0]) if anti else np.array([-1.0, 1.0])
    fx = f.copy()
    fx[on, 1 if anti else 0] = 0
    fx[on] *= 2
    X = np.vstack([xy, xy[off]*[-1, 1]])
    F = np.vstack([fx, f[off]*s])
    C = np.vstack([cons, cons[off]])
    e2 = mo.elements.copy()
    e2[:, 3:] = image[e2[:, 3:]][:, MIRROR[kind]]
    E = np.vstack([mo.elements, e2])
    p = hash_perm(kn, len(X), 59)
    inv = np.argsort(p)
    E[:, 3:] = inv[E[:, 3:]]
    E = E[hash_perm(ke, len(E), 60)]
    E[:, 0] = gen.elem_ids(len(E), ke)
    h["loads"] = np.column_stack([np.arange(n), f])
    d = {"nodes": np.column_stack([np.arange(len(X)), X[p]]), "cons": C[p],
         "elements": E, "mats": mo.mats,
         "loads": np.column_stack([np.arange(len(X)), F[p]])}
    want, got = run(h, kind), run(d, kind)
    ctx.label(kind, "antisymmetric" if anti else "symmetric")
    ctx.nontriv(kn or c["mesh"]["jit"])
    t = np.array([1, 1, -1.0])*(-1 if anti else 1)
    u = np.vstack([want[0], want[0][off]*s])
    close(got[0][inv], u, "whole body: displacements", rtol=1e-6)
    if want[1] is None or not len(off):
        return
    away = np.concatenate([off, image[off]])
    for k, name in ((1, "strains"), (2, "stresses")):
        w = np.vstack([want[k][off], want[k][off]*t])
        close(got[k][inv][away], w, "whole body: " + name, rtol=1e-6,
              scale=np.abs(want[k]).max())
