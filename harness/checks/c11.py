"""C11 - assembly is the scatter-sum over free degrees of freedom."""
import numpy as np
from hypothesis import strategies as st
from scipy.sparse import issparse

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.uelutil as ue

from .. import gen
from ..core import arr, call, check, close, fail, hash_unit, tup

BUILTIN = {1: (ue.elast_quad4, 4), 2: (ue.elast_tri6, 6),
           3: (ue.elast_tri3, 3), 4: (ue.elast_quad9, 9), 5: (ue.spring, 2),
           6: (ue.truss2D, 2), 7: (ue.beam2DU, 2), 8: (ue.beam2D, 2)}


def as_int(x, what):
    if isinstance(x, (bool,)) or int(x) != x:
        fail("{}: {} is not an integer", what, x)
    return int(x)


def numbering(cons, res, ndof):
    neq, bc = tup(res, 2, "eqcounter")
    neq = as_int(neq, "number of equations")
    bc = arr(bc, cons.shape, "bc_array", "i")
    free = cons == 0
    if neq != free.sum():
        fail("{} equations for {} free dofs", neq, free.sum())
    if np.any(bc[~free] != -1):
        fail("restrained dofs are not marked -1: {}", bc[~free])
    if sorted(bc[free].tolist()) != list(range(neq)):
        fail("equation numbers are not 0..neq-1: {}", bc[free])
    return neq, bc


def expand(mats_of_elements, conn, bc, neq):
    """scatter-sum of element matrices at the equation numbers"""
    K = np.zeros((neq, neq))
    for k, c in zip(mats_of_elements, conn):
        d = bc[c].ravel()
        on = np.flatnonzero(d >= 0)
        K[np.ix_(d[on], d[on])] += 0       # shape check
        for i in on:
            for j in on:
                K[d[i], d[j]] += k[i, j]
    return K


def agree(got, want, size, what):
    """got is want: normwise and entry by entry."""
    close(got, want, what, rtol=1e-12)
    close(got, want, what + " (entry)", rtol=1e-11, scale=size)


def verify(nodes, cons, elements, mats, uel_of, ndof, ctx, uel=None,
           ndof_el=None, ndof_el_max=None, solkey=1):
    kw = {}
    if ndof != 2 or solkey % 2:
        kw["ndof_node"] = ndof
    nodes, cons, elements, mats = (
        gen.store(t, solkey//11**i) for i, t in enumerate(
            (nodes, cons, elements, mats)))
    if ndof_el_max is not None:
        kw["ndof_el_max"] = ndof_el_max
    if ndof_el is not None:
        kw["ndof_el"] = ndof_el
    op, bc, neq = tup(call(ass.DME, cons, elements, **kw), 3, "DME")
    neq, bc = numbering(cons, (neq, bc), ndof)
    was = cons.copy()
    numbering(cons, call(ass.eqcounter, cons, **{
        k: v for k, v in kw.items() if k == "ndof_node"}), ndof)
    if not np.array_equal(cons, was):
        fail("the numbering of equations changed the restraints")
    op = arr(op, (len(elements), None), "assem_op", "i")
    conn = elements[:, 3:]
    nd = conn.shape[1]*ndof
    if op.shape[1] < nd:
        fail("assembly operator with {} columns for {} dofs", op.shape[1], nd)
    for e in range(len(elements)):
        if not np.array_equal(op[e, :nd], bc[conn[e]].ravel()):
            fail("assembly operator of element {}: {} instead of {}", e,
                 op[e, :nd], bc[conn[e]].ravel())
    loc = [uel_of(e) for e in range(len(elements))]
    Kr = expand([k for k, _ in loc], conn, bc, neq)
    Mr = expand([m for _, m in loc], conn, bc, neq)
    # round-off in the entries of an element is that of its largest ones
    Ks, Ms = (expand([np.abs(m) + 1e-2*np.abs(m).max() for m in ms], conn, bc,
                     neq) for ms in zip(*loc))
    out = {}
    for name, args in (("sparse", {"sparse": True}), ("default", {}),
                       ("dense", {"sparse": False})):
        K, M = tup(call(ass.assembler, elements, mats, nodes, neq, op,
                        uel=uel, **args), 2, "assembler")
        if {issparse(K), issparse(M)} != {name != "dense"}:
            fail("{} assembly gives {} and {}", name, type(K), type(M))
        out[name] = (arr(K, (neq, neq), name + " stiffness"),
                     arr(M, (neq, neq), name + " mass"))
        agree(out[name][0], Kr, Ks, name + " stiffness")
        agree(out[name][1], Mr, Ms, name + " mass")
    for f, args in ((ass.sparse_assem, ()), (ass.dense_assem, ())):
        K, M = tup(call(f, elements, mats, nodes, neq, op, uel=uel), 2,
                   f.__name__)
        agree(arr(K, (neq, neq), "K"), Kr, Ks, f.__name__ + " stiffness")
        agree(arr(M, (neq, neq), "M"), Mr, Ms, f.__name__ + " mass")
    # expansion of a solution
    sol = hash_unit(solkey, neq, 61)
    if solkey % 2:                   # of very different magnitudes
        sol *= 10.0**np.rint(30*hash_unit(solkey, neq, 64))
    kw = {"ndof_node": ndof} if (ndof != 2 or solkey % 2) else {}
    full = arr(call(pos.complete_disp, bc, nodes, sol, **kw),
               (len(nodes), ndof), "complete_disp")
    if np.any(full[bc < 0] != 0):
        fail("restrained dofs are not zero after expansion")
    if np.any(full[bc >= 0] != sol[bc[bc >= 0]]):
        fail("expanded solution differs from the solution")
    # loads
    nl = 1 + solkey % 7
    idx = ((hash_unit(solkey, nl, 62) + 1)/2*len(nodes)).astype(int)
    loads = np.column_stack([idx, np.round(
        hash_unit(solkey, nl*ndof, 63).reshape(nl, ndof), 3)])
    if solkey % 3 == 1:              # of very different magnitudes
        loads[:, 1:] *= 10.0**np.rint(30*hash_unit(solkey, nl, 65))[:, None]
    rhs = arr(call(ass.loadasem, loads, bc, neq, **kw), (neq,), "rhs")
    want, size = np.zeros(neq), np.zeros(neq)
    for row in loads:
        for d in range(ndof):
            if bc[int(row[0]), d] >= 0:
                want[bc[int(row[0]), d]] += row[1 + d]
                size[bc[int(row[0]), d]] += abs(row[1 + d])
    close(rhs, want, "right-hand side", rtol=1e-14, scale=size)


@st.composite
def builtin(draw):
    c = draw(gen.model_st(ints=True))
    c["cdt"] = draw(st.sampled_from(["int", "float"]))
    c["key"] = draw(gen.KEY1)
    c["fold"] = draw(st.integers(0, 5)) == 4
    if draw(st.integers(0, 5)) == 3:      # parts of very different stiffness
        f = draw(gen.logf(-16, 16))
        c["mats"] = [[q[0]*(f if i % 2 else 1.0)] + q[1:]
                     for i, q in enumerate(c["mats"])]
    return c


@check("C11", builtin(), quick=120,
       fixed=[{"mesh": gen.plain_mesh(k, n, n, jit=3, np=2, ep=4),
               "mats": [[1.0, .3], [3.0, .2]], "matkey": 9, "sup": 3,
               "supkind": "many", "load": 3, "nload": 2, "lmag": 1.0,
               "rows": 0, "cdt": "int", "key": 5}
              for k, n in (("quad4", 24), ("tri3", 17), ("quad9", 12))],
       rule="plane meshes with supports and several materials; non-trivial: "
            "at least two elements and a restrained dof")
def plane(case, ctx):
    mo = gen.build_model(case)
    cons = mo.cons.astype(float) if case["cdt"] == "float" else mo.cons
    fn, _ = BUILTIN[gen.TYPE[case["mesh"]["k"]]]
    if case.get("fold") and case["mesh"]["k"] == "tri3":
        # triangles as quadrilaterals with two equal nodes
        fn = ue.elast_quad4
        mo.elements = np.column_stack([mo.elements, mo.elements[:, 5]])
        mo.elements[:, 1] = 1
        ctx.label("folded")

    def uel_of(e):
        el = mo.elements[e]
        return tuple(arr(q, None, "uel") for q in tup(
            call(fn, mo.nodes[el[3:], 1:], mo.mats[el[2]]), 2, "uel"))
    ctx.label(case["mesh"]["k"], case["supkind"])
    ctx.nontriv(len(mo.elements) > 1 and (cons != 0).any())
    verify(mo.nodes, cons, mo.elements, mo.mats, uel_of, 2, ctx,
           solkey=case["key"])


@st.composite
def network(draw, types=None):
    fam = draw(st.sampled_from([(5, 6), (7, 8), (6,), (8,), (5, 6), (7, 8)]))
    n = draw(st.integers(2, 9))
    nel = draw(st.one_of(st.integers(1, 14), st.integers(1, 14),
                         st.integers(50, 300)))
    return {"fam": list(fam), "n": n, "nel": nel, "key": draw(gen.KEY1),
            "types": draw(gen.KEY1), "conn": draw(gen.KEY1),
            "mats": draw(st.integers(1, 4)),
            "cols": draw(st.sampled_from([2, 3, 4])), "cons": draw(gen.KEY),
            "fac": draw(st.one_of(st.just(1.0), gen.logf(-16, 16),
                                  gen.logf(-25, 25)))}


@check("C11", network(), quick=200,
       rule="bars, springs and beams of several types and profiles in one "
            "model; non-trivial: mixed types")
def mixed_members(case, ctx):
    n, nel, key = case["n"], case["nel"], case["key"]
    ndof = 3 if case["fam"][0] >= 7 else 2
    nodes = np.column_stack([np.arange(n), np.arange(n),
                             hash_unit(key, n, 1)*3])
    types = np.array(case["fam"])[((hash_unit(case["types"], nel, 2) + 1)/2
                                   * len(case["fam"])).astype(int)]
    i = ((hash_unit(case["conn"], nel, 3) + 1)/2*n).astype(int)
    step = 1 + ((hash_unit(case["conn"], nel, 4) + 1)/2*(n - 1)).astype(int)
    j = (i + step) % n
    cols = case["cols"] if ndof == 2 else max(3, case["cols"])
    mats = 1 + np.round(np.abs(hash_unit(key, case["mats"]*cols, 5)), 2
                        ).reshape(-1, cols)
    mats[1::2, 0] *= case["fac"]
    mid = ((hash_unit(key, nel, 6) + 1)/2*case["mats"]).astype(int)
    elements = np.column_stack([gen.elem_ids(nel, key), types, mid, i, j])
    cons = np.where(hash_unit(case["cons"], n*ndof, 7) > 0.3, -1, 0
                    ).reshape(n, ndof)
    if key % 7 == 3:                 # a single free degree of freedom
        cons[:] = -1
        cons[-(key % 2), -1] = 0
    if (cons == 0).sum() == 0:
        cons[0, 0] = 0

    def uel_of(e):
        fn = BUILTIN[int(elements[e, 1])][0]
        return tuple(arr(q, None, "uel") for q in tup(
            call(fn, nodes[elements[e, 3:], 1:], mats[elements[e, 2]]), 2,
            "uel"))
    ctx.label("types %s" % sorted(set(types.tolist())))
    ctx.nontriv(len(set(types.tolist())) > 1)
    verify(nodes, cons, elements, mats, uel_of, ndof, ctx, solkey=key,
           ndof_el_max=None if key % 3 else 18)


def user_element(ndof):
    """Arbitrary unsymmetric element matrices that depend on coordinates and
    parameters (the third one is a factor)."""
    def uel(coord, params):
        x = np.concatenate([np.ravel(coord), np.ravel(params)[:2]])
        f = params[2] if len(params) > 2 else 1.0
        n = coord.shape[0]*ndof
        a = np.arange(n)
        k = np.cos(np.outer(a + 1, 2*a + 1)*0.7 + x.sum()) + x[0]
        m = np.sin(np.outer(a + 2, a + 1)*0.3 - x @ np.arange(len(x)))
        return f*k, m/f
    return uel


@st.composite
def user(draw):
    return {"ndof": draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 6, 7, 8])),
            "nn": draw(st.integers(1, 10)),
            "fac": draw(st.sampled_from([1.0, 1.0, 1.0, 1e14, 1e-19, 1e25])),
            "n": draw(st.integers(1, 14)), "nel": draw(st.integers(1, 9)),
            "rep": draw(st.integers(0, 2)), "dim": draw(st.integers(1, 3)), "key": draw(gen.KEY1),
            "cons": draw(gen.KEY), "type": draw(st.sampled_from(
                [1, 1, 9, 20, 0])), "mats": draw(st.integers(1, 3))}


@check("C11", user(), quick=200,
       rule="user elements with 1..4 dofs per node in 1D..3D; non-trivial: "
            "more than one element")
def user_elements(case, ctx):
    nn = min(case["nn"], case["n"], 40//case["ndof"])
    n, nel, ndof, key = case["n"], case["nel"], case["ndof"], case["key"]
    nodes = np.column_stack([np.arange(n), hash_unit(
        key, n*case["dim"], 1).reshape(n, -1)])
    conn = np.array([np.argsort(hash_unit(key, n, 10 + e))[:nn]
                     for e in range(nel)])
    if case.get("rep") == 2 and nn > 1:       # some nodes appear twice
        e = key % nel
        conn[e, -1] = conn[e, 0]
        conn[-1, nn//2] = conn[-1, nn//2 - 1]
        ctx.label("repeated nodes")
    mats = hash_unit(key, case["mats"]*2, 5).reshape(-1, 2)
    mats = np.column_stack([mats, np.ones(len(mats))])
    mats[1::2, 2] = case.get("fac", 1.0)
    mid = ((hash_unit(key, nel, 6) + 1)/2*case["mats"]).astype(int)
    elements = np.column_stack([gen.elem_ids(nel, key),
                                np.full(nel, case["type"]),
                                mid, conn])
    cons = np.where(hash_unit(case["cons"], n*ndof, 7) > 0.3, -1, 0
                    ).reshape(n, ndof)
    if key % 7 == 3:                 # a single free degree of freedom
        cons[:] = -1
        cons[-(key % 2), -1] = 0
    if (cons == 0).sum() == 0:
        cons[0, 0] = 0
    fn = user_element(ndof)
    ctx.label("ndof %d" % ndof, "dim %d" % case["dim"])
    ctx.nontriv(nel > 1)
    verify(nodes, cons, elements, mats,
           lambda e: fn(nodes[elements[e, 3:], 1:], mats[elements[e, 2]]),
           ndof, ctx, uel=fn, ndof_el=lambda iet: nn*ndof,
           ndof_el_max=max(18, nn*ndof) + key % 3, solkey=key)


@st.composite
def solid3d(draw):
    return {"k": draw(st.sampled_from(["hex8", "tet4"])),
            "n": [draw(st.integers(1, 2)) for _ in range(3)],
            "key": draw(gen.KEY), "cons": draw(gen.KEY),
            "L": draw(gen.LENGTH)}


TETS = [(0, 1, 3, 4), (1, 2, 3, 6), (1, 3, 4, 6), (1, 4, 5, 6),
        (3, 4, 6, 7)]


@check("C11", solid3d(), quick=40,
       rule="blocks of hexahedra or tetrahedra through the user-element "
            "interface; non-trivial: several elements")
def three_dimensional(case, ctx):
    nx, ny, nz = case["n"]
    g = np.array([(i, j, k) for k in range(nz + 1) for j in range(ny + 1)
                  for i in range(nx + 1)], dtype=float)
    xyz = case["L"]*(g + 0.12*gen.jitter(case["key"], len(g), 3, 1))
    nid = lambda i, j, k: (k*(ny + 1) + j)*(nx + 1) + i     # noqa: E731
    conn = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                h = [nid(i + a, j + b, k + c) for c in (0, 1)
                     for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
                if case["k"] == "hex8":
                    conn.append(h)
                else:
                    conn += [[h[q] for q in t] for t in TETS]
    conn = np.array(conn)
    n, nel = len(xyz), len(conn)
    nodes = np.column_stack([np.arange(n), xyz])
    elements = np.column_stack([gen.elem_ids(nel, case["key"]),
                                np.ones(nel, dtype=int),
                                np.arange(nel) % 2, conn])
    mats = np.array([[1.0, 0.3, 2.0], [5.0, 0.1, 1.0]])
    cons = np.where(hash_unit(case["cons"], n*3, 7) > 0.4, -1, 0
                    ).reshape(n, 3)
    fn = ue.elast_hex8 if case["k"] == "hex8" else ue.elast_tet4
    nd = 24 if case["k"] == "hex8" else 12
    ctx.label(case["k"])
    ctx.nontriv(nel > 1)
    if (cons == 0).sum() == 0:
        cons[0, 0] = 0
    verify(nodes, cons, elements, mats,
           lambda e: tuple(arr(q, None, "uel") for q in call(
               fn, xyz[conn[e]], mats[e % 2])), 3, ctx, uel=fn,
           ndof_el=lambda iet: nd, ndof_el_max=24, solkey=3)


@check("C11", st.tuples(st.integers(2, 400), st.integers(1, 3),
                        gen.KEY1).map(list), quick=40,
       fixed=[[17500, 2, 5], [12000, 3, 7], [33500, 1, 9], [800, 1, 11, 3600],
              [300, 2, 13, 18000], [70000, 1, 15, 36000]],
       rule="long strips of nodes (up to 70000) with two-node user elements: "
            "equation numbers, assembly operator, matrices and loads; "
            "non-trivial: more than 1000 nodes")
def large(case, ctx):
    n, ndof, key = case[:3]
    more = case[3] if len(case) > 3 else 60
    ctx.label("n %d" % (n//1000*1000), "ndof %d" % ndof)
    ctx.nontriv(n > 1000)
    x = np.sort(hash_unit(key, n, 1))
    nodes = np.column_stack([np.arange(n), np.arange(n) + 0.3*x, x])
    cons = np.where(hash_unit(key, n*ndof, 2) > 0.9, -1, 0).reshape(n, ndof)
    cons[-1] = 0
    ends = ((hash_unit(key, more, 3) + 1)/2*n).astype(int).clip(0, n - 1)
    ends = np.concatenate([ends, [0, n - 2, n - 1, n//2]])
    pairs = np.column_stack([ends[:-1], ends[1:]])
    pairs = pairs[pairs[:, 0] != pairs[:, 1]]
    nel = len(pairs)
    nm = (2, 300, 40000)[key % 3]        # number of profiles
    mats = 2 + hash_unit(key, nm, 6)[:, None]
    mid = np.arange(nel)*(nm//7 + 1) % nm
    els = np.column_stack([gen.elem_ids(nel, key), np.ones(nel, int), mid,
                           pairs])
    fn = user_element(ndof)
    nd = 2*ndof
    op, bc, neq = tup(call(ass.DME, cons, els, ndof_node=ndof,
                           ndof_el_max=nd, ndof_el=lambda iet: nd), 3, "DME")
    free = cons == 0
    neq, bc = as_int(neq, "equations"), arr(bc, cons.shape, "bc_array", "i")
    if neq != free.sum() or np.any(bc[~free] != -1) or not np.array_equal(
            np.sort(bc[free]), np.arange(neq)):
        fail("equations are not numbered 0..{} over the free dofs",
             free.sum() - 1)
    op = arr(op, (nel, nd), "assem_op", "i")
    if not np.array_equal(op, bc[pairs].reshape(nel, nd)):
        fail("assembly operator differs from the numbers of the dofs")
    K, M = tup(call(ass.assembler, els, mats, nodes, neq, op, uel=fn), 2,
               "assembler")
    y = hash_unit(key, neq, 4)
    want = [np.zeros(neq), np.zeros(neq)]
    for e in range(nel):
        d = bc[pairs[e]].ravel()
        on = d >= 0
        for w, k in zip(want, fn(nodes[pairs[e], 1:], mats[mid[e]])):
            np.add.at(w, d[on], k[np.ix_(on, on)] @ y[d[on]])
    for A, w, name in zip((K, M), want, ("stiffness", "mass")):
        if getattr(A, "shape", None) != (neq, neq):
            fail("{} of shape {}", name, getattr(A, "shape", None))
        close(arr(A @ y, (neq,), name), w, name + " times a vector",
              rtol=1e-11)
    q = np.concatenate([ends, [n - 1]])
    val = hash_unit(key, len(q)*ndof, 5).reshape(-1, ndof)
    rhs = arr(call(ass.loadasem, np.column_stack([q, val]), bc, neq,
                   ndof_node=ndof), (neq,), "rhs")
    w = np.zeros(neq)
    b = bc[q]
    np.add.at(w, b[b >= 0], val[b >= 0])
    close(rhs, w, "right-hand side", atol=1e-13, rtol=0)
    full = arr(call(pos.complete_disp, bc, nodes, y, ndof_node=ndof),
               (n, ndof), "complete_disp")
    if np.any(full[~free] != 0) or np.any(full[free] != y[bc[free]]):
        fail("expanded solution differs from the solution")
