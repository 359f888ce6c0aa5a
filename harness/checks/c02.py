"""C02 - equilibrium, supports, superposition, energy."""
import numpy as np
from hypothesis import strategies as st

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.uelutil as ue

from .. import gen
from .. import sut as sg
from ..core import arr, call, check, close, fail, hash_unit, num, tup

UEL = {1: ue.elast_quad4, 2: ue.elast_tri6, 3: ue.elast_tri3,
       4: ue.elast_quad9}


def scatter(mo):
    """Full stiffness over all degrees of freedom (2 per node)."""
    n = len(mo.nodes)
    K = np.zeros((2*n, 2*n))
    for el in mo.elements:
        x = mo.nodes[el[3:], 1:3]
        ke = arr(tup(call(UEL[el[1]], x, mo.mats[el[2]]), 2, "uel")[0],
                 None, "K")
        ix = np.ravel(np.column_stack([2*el[3:], 2*el[3:] + 1]))
        K[np.ix_(ix, ix)] += ke
    return K


def run(mo, loads=None):
    d = mo.tables()
    if loads is not None:
        d["loads"] = loads
    return arr(call(sg.solids_auto, d, plot_contours=False),
               (len(mo.nodes), 2), "displacements")


@check("C02", gen.model_st(ints=True), quick=250,
       fixed=[{"mesh": gen.plain_mesh("quad4", 36, 29, jit=3, np=9),
               "mats": [[1e5, 0.3], [2e5, 0.2]], "matkey": 4, "sup": 0,
               "supkind": "side", "load": 12, "nload": 60, "lmag": 10.0,
               "rows": 3},
              {"mesh": gen.plain_mesh("quad4", 3, 2, jit=3, np=9),
               "mats": [[1e5, 0.3]], "matkey": 4, "sup": 0,
               "supkind": "side", "load": 12, "nload": 9, "lmag": 10.0,
               "rows": 3, "many": 2048}],
       rule="supported model under nodal loads; non-trivial: at least two "
            "loaded nodes")
def equilibrium(case, ctx):
    mo = gen.build_model(case)
    if case.get("many"):                 # every load in many small parts
        mo.loads = np.repeat(mo.loads/[1.0, case["many"], case["many"]],
                             case["many"], axis=0)
    u = run(mo)
    K = scatter(mo)
    free = (mo.cons == 0).ravel()
    ctx.label(case["mesh"]["k"], case["supkind"],
              "several mats" if len(set(mo.mat_of)) > 1 else "one mat")
    ctx.nontriv((np.abs(mo.f).max(axis=1) > 0).sum() >= 2)
    if np.any(u.ravel()[~free] != 0):
        fail("a restrained degree of freedom moves: {}",
             np.abs(u.ravel()[~free]).max())
    f = mo.f.ravel()
    r = K @ u.ravel()
    close(r[free], f[free], "internal forces at free dofs", rtol=1e-9,
          scale=max(np.abs(K).max()*np.abs(u).max(), np.abs(f).max()))
    close(r[free], f[free], "internal forces at free dofs", rtol=1e-6,
          scale=np.abs(f).max())


@check("C02", st.tuples(gen.model_st(ints=True), gen.KEY1, gen.KEY1,
                        st.sampled_from([2.0, -1.0, 0.5, 1e3, -3.0])
                        ).map(list), quick=150,
       rule="two load cases on one model; non-trivial: both move the body")
def superposition(case, ctx):
    c, k1, k2, fac = case
    mo = gen.build_model(c)
    n = len(mo.nodes)
    free = mo.cons == 0
    g = np.round(hash_unit(k1, 2*n, 41).reshape(n, 2), 3)*c["lmag"]
    rows1 = gen.load_rows(mo.f, c["rows"])
    rows2 = gen.load_rows(g, k2)
    u1, u2 = run(mo, rows1), run(mo, rows2)
    both = np.vstack([rows1, rows2])
    u12 = run(mo, both)
    sc = max(np.abs(u1).max(), np.abs(u2).max())
    ctx.nontriv(np.abs(u1).max() > 0 and np.abs(u2).max() > 0)
    ctx.label(c["mesh"]["k"])
    close(u12, u1 + u2, "superposition", rtol=1e-7, scale=sc)
    rows3 = rows1.copy()
    rows3[:, 1:] *= fac
    close(run(mo, rows3), fac*u1, "proportionality", rtol=1e-7,
          scale=abs(fac)*np.abs(u1).max())
    # only the loads on free dofs do work
    w12, w21 = (mo.f*free*u2).sum(), (g*free*u1).sum()
    close(w12, w21, "Maxwell-Betti reciprocity", rtol=1e-7,
          scale=np.abs(mo.f).sum()*np.abs(u2).max()
          + np.abs(g).sum()*np.abs(u1).max())
    # loads on supports change nothing
    s = g.copy()
    s[free] = 0
    rows4 = np.vstack([gen.load_rows(s, k2), rows1])
    close(run(mo, rows4), u1, "loads on restrained dofs", rtol=1e-12,
          scale=np.abs(u1).max())
    # zero load
    z = run(mo, np.array([[0, 0.0, 0.0]]))
    if np.any(z != 0):
        fail("displacements without load")


@check("C02", st.tuples(gen.model_st(ints=True), gen.KEY1, gen.KEY1).map(list),
       quick=150,
       rule="same loads in another table (rows split, merged, permuted, zero "
            "rows); non-trivial: tables differ")
def load_tables(case, ctx):
    c, k1, k2 = case
    mo = gen.build_model(c)
    t0 = gen.load_rows(mo.f, 0)
    t1 = gen.load_rows(mo.f, k1)
    # dof by dof
    rows = [[i, 0.0, 0.0] for i in range(len(mo.f)) for _ in range(2)]
    t2 = np.array(rows)
    t2[0::2, 1] = mo.f[:, 0]
    t2[1::2, 2] = mo.f[:, 1]
    t2 = t2[np.argsort(hash_unit(k2, len(t2), 2))]
    ctx.nontriv(len(t1) > len(t0))
    ctx.label(c["mesh"]["k"])
    u = run(mo, t0)
    close(run(mo, t1), u, "split load table", rtol=1e-8)
    close(run(mo, t2), u, "load table by components", rtol=1e-8)


@check("C02", st.tuples(gen.model_st(ints=True), st.booleans(), gen.KEY1).map(list),
       quick=150,
       rule="right-hand side and potential energy from the pieces; "
            "non-trivial: nonzero load on free dofs")
def energy(case, ctx):
    c, sparse, key = case
    mo = gen.build_model(c)
    if key % 4 == 1 and mo.loads.dtype == float:   # some loads very small
        mo.f = mo.f*np.where(hash_unit(key, len(mo.f), 43) > 0, 1e-14,
                             1.0)[:, None]
        mo.loads = gen.load_rows(mo.f, c["rows"])
        ctx.label("tiny loads")
    op, bc, neq = tup(call(ass.DME, mo.cons, mo.elements), 3, "DME")
    stiff = tup(call(ass.assembler, mo.elements, mo.mats, mo.nodes, neq, op,
                     sparse=sparse), 2, "assembler")[0]
    rhs = arr(call(ass.loadasem, mo.loads, bc, neq), (neq,), "rhs")
    bc = arr(bc, mo.cons.shape, "bc_array", "i")
    want = np.zeros(neq)
    np.add.at(want, bc[bc >= 0], mo.f[bc >= 0])
    size = np.zeros(neq)
    for row in mo.loads:
        on = bc[int(row[0])]
        size[on[on >= 0]] += np.abs(row[1:])[on >= 0]
    close(rhs, want, "right-hand side", rtol=1e-12, scale=size)
    u = run(mo)
    sol = np.zeros(neq)
    sol[bc[bc >= 0]] = u[bc >= 0]
    e = num(call(pos.energy, sol, stiff), "energy")
    work = (mo.f*u).sum()
    ctx.label(c["mesh"]["k"], "sparse" if sparse else "dense")
    ctx.nontriv(work != 0)
    close(e, -0.5*work, "potential energy", rtol=1e-8,
          scale=np.abs(mo.f).sum()*np.abs(u).max())
    # energy of any displacement is minus the strain energy
    v = hash_unit(key, neq, 5)
    K = arr(stiff, (neq, neq), "stiffness")
    close(num(call(pos.energy, v, stiff), "energy"), -0.5*v @ K @ v,
          "energy of a displacement", rtol=1e-10,
          scale=np.abs(K).max()*neq)
