"""C01 - patch test through the whole workflow."""
import numpy as np
from hypothesis import strategies as st


from .. import gen
from .. import sut as sg
from ..core import arr, call, check, close, hash_unit, tup

STRAINS = ("quad4", "tri3", "tri6")


@st.composite
def patch(draw, nmax=4, box=False):
    mesh = draw(gen.mesh_st(nmax=nmax))
    if box:
        mesh["box"] = 1
        mesh["hole"] = -1
        mesh["place"] = dict(mesh["place"], sh=0,
                             rot=draw(st.sampled_from([0, 90, 180, 270])))
    return {"mesh": mesh,
            "mats": draw(gen.mats_st(nmax=1)),
            "sig": [draw(gen.UNIT), draw(gen.UNIT), draw(gen.UNIT)],
            "mag": draw(gen.logf(-6, 3)), "sup": draw(gen.KEY),
            "rows": draw(gen.KEY), "strains": draw(st.booleans()),
            "mint": draw(st.booleans())}


def solve_and_compare(case, ctx, m, cons, exact, sig, f):
    E, nu = case["mats"][0][:2]
    mats = np.array(case["mats"])
    if case["mint"] and np.all(mats == np.rint(mats)):
        mats = mats.astype(int)
        ctx.label("integer materials")
    data = {"nodes": m.nodes(), "cons": cons, "elements": m.elements(),
            "mats": mats, "loads": gen.load_rows(f, case["rows"])}
    strains = case["strains"] and m.kind in STRAINS
    res = call(sg.solids_auto, data, plot_contours=False,
               compute_strains=strains)
    n = len(m.xy)
    if strains:
        u, eps_n, sig_n = tup(res, 3, "solids_auto")
    else:
        u = res
    u = arr(u, (n, 2), "displacements")
    ctx.label(m.kind, "rho" if len(case["mats"][0]) > 2 else "no rho",
              "curved" if case["mesh"]["mid"] else "straight",
              "strains" if strains else "no strains")
    ctx.nontriv((case["mesh"]["jit"] or case["mesh"]["mid"])
                and max(abs(s) for s in sig) > 0)
    close(u, exact, "displacements", rtol=1e-7)
    if strains:
        e = np.array([(sig[0] - nu*sig[1])/E, (sig[1] - nu*sig[0])/E,
                      2*(1 + nu)*sig[2]/E])
        close(arr(eps_n, (n, 3), "strains"), np.tile(e, (n, 1)),
              "nodal strains", rtol=1e-7,
              scale=max(np.abs(e).max(), np.abs(exact).max()/m.size))
        close(arr(sig_n, (n, 3), "stresses"), np.tile(sig, (n, 1)),
              "nodal stresses", rtol=1e-7,
              scale=max(np.abs(sig).max(),
                        E/(1 - nu**2)*np.abs(exact).max()/m.size))


def gradient(sig, E, nu):
    return np.array([[(sig[0] - nu*sig[1])/E, (1 + nu)*sig[2]/E],
                     [(1 + nu)*sig[2]/E, (sig[1] - nu*sig[0])/E]])


BIG = {"mats": [[2.0e5, 0.3]], "sig": [1.0, -0.4, 0.3], "mag": 1.0,
       "sup": 0, "rows": 5, "strains": True, "mint": False}


@check("C01", patch(), quick=450,
       fixed=[dict(BIG, mesh=gen.plain_mesh(k, n, n - 2, jit=7, np=3, ep=5))
              for k, n in (("quad4", 36), ("tri3", 26), ("tri6", 17),
                           ("quad9", 16), ("quad4", 9))],
       rule="statically supported body of any shape; non-trivial: distorted "
            "mesh and nonzero stress")
def patch_test(case, ctx):
    m = gen.build_mesh(case["mesh"])
    E, nu = case["mats"][0][:2]
    sig = E*1e-3*case["mag"]*np.array(case["sig"])
    f = gen.traction_loads(m, sig)
    f[np.abs(f) < 1e-14*np.abs(f).max()] = 0
    cons, settle = gen.determinate_supports(m.xy, case["sup"])
    u = (m.xy - m.xy.mean(axis=0)) @ gradient(sig, E, nu).T
    solve_and_compare(case, ctx, m, cons, settle(u), sig, f)


@check("C01", patch(box=True), quick=150,
       rule="rectangle on rollers along two sides under biaxial stress; "
            "non-trivial: distorted mesh and nonzero stress")
def rollers(case, ctx):
    m = gen.build_mesh(case["mesh"])
    E, nu = case["mats"][0][:2]
    sig = E*1e-3*case["mag"]*np.array(case["sig"])
    sig[2] = 0
    f = gen.traction_loads(m, sig)
    f[np.abs(f) < 1e-12*np.abs(f).max()] = 0
    lo = m.xy.min(axis=0)
    tol = 1e-9*m.size
    cons = np.zeros((len(m.xy), 2), dtype=int)
    for d in range(2):
        cons[m.xy[:, d] < lo[d] + tol, d] = -1
    u = (m.xy - lo) @ gradient(sig, E, nu).T
    solve_and_compare(case, ctx, m, cons, u, sig, f)
