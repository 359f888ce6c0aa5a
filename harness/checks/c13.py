"""C13 - nodal strains and stresses."""
import numpy as np
from hypothesis import strategies as st

import solidspy.postprocesor as pos

from .. import gen, ref
from ..core import arr, call, check, close, hash_perm, hash_unit, tup


@st.composite
def field(draw):
    c = draw(gen.model_st(kinds=("quad4", "tri3", "tri6"), nmax=4,
                          ints=True))
    c["u"] = draw(gen.KEY1)
    c["kind"] = draw(st.sampled_from(["random", "random", "random",
                                      "rigid", "linear", "quadratic",
                                      "local", "local", "decay"]))
    c["cols"] = draw(st.sampled_from([3, 5]))
    c["um"] = draw(st.sampled_from([1.0]*4 + [1e-5, 1e-9, 1e-14, 1e-20,
                                              1e4]))
    c["spare"] = draw(st.sampled_from([0]*4 + [1, 2, 5]))
    return c


@check("C13", field(), quick=400,
       fixed=[{"mesh": gen.plain_mesh(k, 14, 11, jit=3, np=2, ep=4),
               "mats": [[1.0, .3], [3.0, .2]], "matkey": 9, "sup": 3,
               "supkind": "pair", "load": 3, "nload": 2, "lmag": 1.0,
               "rows": 0, "u": 5, "kind": "random", "cols": 3}
              for k in ("quad4", "tri3", "tri6")]
       + [{"mesh": gen.plain_mesh("quad4", 40, 27, jit=3, np=2, ep=4),
           "mats": [[1.0, .3], [3.0, .2]], "matkey": 9, "sup": 3,
           "supkind": "pair", "load": 3, "nload": 2, "lmag": 1.0,
           "rows": 0, "u": 5, "kind": "local", "cols": 3}],
       rule="mesh and displacement field; non-trivial: several elements and a "
            "non-uniform field")
def recovery(case, ctx):
    mo = gen.build_model(case)
    if case.get("spare"):
        unattached(mo, case["spare"], case["u"])
        ctx.label("nodes without elements")
    if case["u"] % 6 == 1:           # elements on top of each other
        k = 1 + case["u"]//6 % len(mo.elements)
        twin = mo.elements[:k].copy()
        twin[:, 2] = (twin[:, 2] + 1) % len(mo.mats)
        mo.elements = np.repeat(mo.elements, 1 + (np.arange(
            len(mo.elements)) < k), axis=0) if case["u"] % 12 == 1 else \
            np.vstack([mo.elements, twin])
        ctx.label("layers")
    judge(case, mo, case["mesh"]["k"], ctx)


def unattached(mo, k, key):
    """Give the model k (restrained) nodes that belong to no element, at the
    end of the table and in between."""
    n = len(mo.nodes)
    xy = np.vstack([mo.nodes[:, 1:], mo.nodes[-1, 1:]
                    + np.rint(9*hash_unit(key, 2*k, 74)).reshape(k, 2)])
    p = hash_perm(key if key % 2 else 0, n + k, 73)
    inv = np.argsort(p)
    cons = np.vstack([mo.cons, -np.ones((k, 2), dtype=mo.cons.dtype)])
    mo.nodes = np.column_stack([np.arange(n + k), xy[p]])
    mo.cons = cons[p]
    mo.elements[:, 3:] = inv[mo.elements[:, 3:]]
    mo.loads = mo.loads.copy()
    mo.loads[:, 0] = inv[mo.loads[:, 0].astype(int)]
    return inv[:n]


def judge(case, mo, kind, ctx):
    n = len(mo.nodes)
    xy = mo.nodes[:, 1:]
    on = np.unique(mo.elements[:, 3:])
    z = (xy - xy.mean(axis=0))/mo.mesh.size
    h = hash_unit(case["u"], 2*max(n, 12), 71)
    if case["kind"] == "random":
        u = h[:2*n].reshape(n, 2)
    elif case["kind"] == "local":        # most of the body is at rest
        u = h[:2*n].reshape(n, 2)
        u[hash_unit(case["u"], n, 72) > -0.5] = 0
        if not np.any(u):
            u[case["u"] % n, case["u"] % 2] = 1.0
    elif case["kind"] == "decay":        # from large to very small
        u = h[:2*n].reshape(n, 2)*10.0**np.clip(np.rint(-16*hash_unit(
            case["u"] + 3, 2, 76) @ z.T), -15, 3)[:, None]
    elif case["kind"] == "rigid":
        u = h[:2] + h[2]*np.column_stack([-z[:, 1], z[:, 0]])
    elif case["kind"] == "linear":
        u = h[:2] + z @ h[2:6].reshape(2, 2)
    else:
        q = np.column_stack([z[:, 0]**2, z[:, 0]*z[:, 1], z[:, 1]**2])
        u = q @ h[:6].reshape(3, 2)
    u = u*case.get("um", 1.0)
    mats = mo.mats
    nodes = mo.nodes
    ctx.label("nodes " + str(nodes.dtype))
    if case["cols"] == 5:
        nodes = np.hstack([nodes, mo.cons])
    key = mo.store
    E, S = tup(call(pos.strain_nodes, gen.store(nodes, key),
                    gen.store(mo.elements, key//11),
                    gen.store(mats, key//121), gen.store(u, key//1331)), 2,
               "strain_nodes")
    E, S = arr(E, (n, 3), "strains"), arr(S, (n, 3), "stresses")
    We, Ws = np.zeros((n, 3)), np.zeros((n, 3))
    cnt = np.zeros(n)
    near = ref.nearest_gp(kind)
    sce, scs = np.zeros(n), np.zeros(n)
    for el in mo.elements:
        C = ref.plane_stress(*mats[el[2], :2])
        x = xy[el[3:]]
        B = [ref.kin(kind, x, g)[1] for g in ref.GP[kind]]
        ue = u[el[3:]].ravel()
        size = np.abs(B).max()*np.abs(ue).max()
        sce[el[3:]] += size
        scs[el[3:]] += size*np.abs(C).max()
        for a, node in enumerate(el[3:]):
            e = B[near[a]] @ ue
            We[node] += e
            Ws[node] += C @ e
            cnt[node] += 1
    E, S = E[on], S[on]
    We, Ws, sce, scs = (w[on]/cnt[on, None] for w in (
        We, Ws, sce[:, None], scs[:, None]))
    ctx.label(kind, case["kind"], "mats %d" % len(mats),
              "rho" if mats.shape[1] > 2 else "no rho")
    ctx.nontriv(len(mo.elements) > 1 and case["kind"] in ("random", "local",
                                                         "decay", "quadratic"))
    close(E, We, "nodal strains", rtol=1e-9, scale=sce)
    close(S, Ws, "nodal stresses", rtol=1e-9, scale=scs)


@check("C13", st.tuples(st.integers(3, 60), st.sampled_from(
    ["tri3", "tri6"]), gen.LENGTH, gen.KEY1, gen.KEY).map(list), quick=100,
       fixed=[[140, "tri3", 1.0, 3, 5], [300, "tri3", 1e-3, 4, 6],
              [270, "tri6", 2.0, 5, 0]],
       rule="fans: many elements (up to 300) around one node; non-trivial: "
            "more than ten")
def fans(case, ctx):
    ns, kind, L, key, ep = case
    t = 2*np.pi*(np.arange(ns) + 0.2*hash_unit(key, ns, 1))/ns
    rim = np.column_stack([np.cos(t), np.sin(t)])*(
        1 + 0.1*hash_unit(key, ns, 2))[:, None]
    nxt = (np.arange(ns) + 1) % ns
    conn = np.column_stack([np.full(ns, 0), 1 + np.arange(ns), 1 + nxt])
    xy = np.vstack([[[0.0, 0.0]], rim])
    if kind == "tri6":
        conn = np.column_stack([conn, 1 + ns + np.arange(ns),
                                1 + 2*ns + np.arange(ns), 1 + ns + nxt])
        xy = np.vstack([xy, rim/2, (rim + rim[nxt])/2])
    m = gen.Mesh()
    m.kind, m.idkey = kind, ep
    m.xy = L*(xy + [2.0, -1.0])
    e = hash_perm(ep, ns, 3)
    m.conn = conn[e]
    mo = gen.Model()
    mo.mesh = m
    mo.mats = np.array([[1.0, 0.3], [3.0, 0.2]])
    mo.elements = m.elements((hash_unit(key, ns, 4) > 0)*1)
    mo.nodes = m.nodes()
    mo.cons = np.zeros((len(xy), 2), dtype=int)
    ctx.label("around %d" % (ns//20*20))
    judge({"u": key, "kind": "random", "cols": 3}, mo, kind, ctx)
