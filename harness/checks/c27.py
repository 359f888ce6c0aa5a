"""C27 - invalid elements are rejected, valid ones are not."""
import numpy as np
from hypothesis import strategies as st

import solidspy.assemutil as ass
import solidspy.femutil as fem
import solidspy.uelutil as ue

from .. import gen, ref
from .. import sut as sg
from ..core import arr, call, check, close, fail, finite, hash_unit, raises
from ..core import tup
from .c04 import NEEDS_RHO, UEL

FLIP = {"tri3": [0, 2, 1], "tri6": [0, 2, 1, 5, 4, 3], "quad4": [0, 3, 2, 1],
        "quad8": [0, 3, 2, 1, 7, 6, 5, 4],
        "quad9": [0, 3, 2, 1, 7, 6, 5, 4, 8], "tet4": [0, 2, 1, 3],
        "hex8": [4, 5, 6, 7, 0, 1, 2, 3]}
STR = {"tri3": fem.str_el3, "tri6": fem.str_el6, "quad4": fem.str_el4}
BAD = ["clockwise", "collinear", "straight", "coincident", "repeated",
       "type"]


def flat(kind, x, key, how):
    """Coordinates of an element of zero measure near the element x."""
    n, dim = x.shape
    size = np.ptp(x, axis=0).max()
    h = hash_unit(key, 4*n + 4, 1)
    c = x.mean(axis=0)
    if how == "coincident":
        return np.tile(x[0], (n, 1))
    if how == "straight":
        # collapse along one direction, keeping the order of the nodes
        d = h[:dim] + 1e-3
        d = d/np.linalg.norm(d)
        return x - np.outer((x - c) @ d, d)
    # collinear (coplanar) nodes in any order
    y = np.zeros((n, dim))
    y[:, :dim - 1] = h[4:4 + n*(dim - 1)].reshape(n, dim - 1)
    d = h[:dim] + 1e-3
    d = d/np.linalg.norm(d)
    q, _ = np.linalg.qr(np.column_stack([d, np.eye(dim)[:, :dim - 1]]))
    return c + size*(y @ np.roll(q, -1, axis=1).T)


@st.composite
def broken(draw):
    return {"m": draw(gen.model_st(nmax=4)), "bad": draw(st.sampled_from(BAD)),
            "el": draw(st.integers(0, 40)), "key": draw(gen.KEY1),
            "type": draw(st.sampled_from([0, -1, 9, 10, 11, 50, 99])),
            "strains": draw(st.booleans())}


@check("C27", broken(), quick=600,
       rule="mesh with one invalid element at any place; non-trivial: among "
            "other, valid, elements")
def invalid_mesh(case, ctx):
    mo = gen.build_model(case["m"])
    kind = case["m"]["mesh"]["k"]
    d = mo.data()
    els, nodes = d["elements"], d["nodes"]
    e = case["el"] % len(els)
    con = els[e, 3:].copy()
    bad = case["bad"]
    if bad == "clockwise":
        sh = case["key"] % 4
        els[e, 3:] = gen.cyc(kind, con[FLIP[kind]], sh)
    elif bad == "type":
        els[e, 1] = case["type"]
    elif bad == "repeated":
        h = np.floor((hash_unit(case["key"], len(con), 2) + 1)).astype(int)
        a, b = con[case["key"] % len(con)], con[(case["key"] + 1) % len(con)]
        els[e, 3:] = np.where(h > 0, a, b)
    else:
        x = flat(kind, nodes[con, 1:], case["key"], bad)
        n = len(nodes)
        new = np.column_stack([n + np.arange(len(con)), x])
        d["nodes"] = np.vstack([nodes, new])
        d["cons"] = np.vstack([d["cons"], np.full((len(con), 2), -1)
                               if case["key"] % 2 else
                               np.zeros((len(con), 2), int)])
        els[e, 3:] = n + np.arange(len(con))
    ctx.label(kind, bad)
    ctx.nontriv(len(els) > 1)
    raises(ValueError, sg.solids_auto, d, plot_contours=False,
           compute_strains=case["strains"] and kind != "quad9")


@st.composite
def bad_elem(draw):
    return {"el": draw(gen.elem_st()), "bad": draw(st.sampled_from(BAD[:4])),
            "key": draw(gen.KEY1), "E": draw(gen.YOUNG), "nu": draw(gen.NU)}


@check("C27", bad_elem(), quick=800,
       rule="one invalid element of any kind, in 2D and 3D; non-trivial: all")
def invalid_element(c, ctx):
    k = c["el"]["k"]
    x = gen.build_elem(c["el"])
    if c["bad"] == "clockwise":
        x = x[FLIP[k]]
    else:
        x = flat(k, x.astype(float), c["key"], c["bad"])
    p = (c["E"], c["nu"]) + ((1.0,) if k in NEEDS_RHO else ())
    ctx.label(k, c["bad"])
    ctx.nontriv()
    raises(ValueError, UEL[k], x, p)
    if k in STR:
        u = hash_unit(c["key"], x.size, 3)
        raises(ValueError, STR[k], x, u)
        els = np.concatenate([[0, gen.TYPE[k], 0], np.arange(len(x))])[None]
        nodes = np.column_stack([np.arange(len(x)), x])
        op, _, neq = tup(call(ass.DME, np.zeros((len(x), 2), int), els), 3,
                         "DME")
        raises(ValueError, ass.assembler, els, np.array([[c["E"], c["nu"]]]),
               nodes, neq, op, sparse=bool(c["key"] % 2))


@check("C27", st.tuples(st.sampled_from(sorted(UEL)), gen.KEY1,
                        st.sampled_from([0, 0, 1, 3, -3, 6, -6, 9])
                        ).map(list), quick=250,
       rule="elements without extent at twenty random places each; "
            "non-trivial: all")
def no_extent(case, ctx):
    k, key, ex = case
    n, dim = ref.NODES[k].shape
    p = (1.0, 0.25) + ((1.0,) if k in NEEDS_RHO else ())
    ctx.label(k)
    ctx.nontriv()
    for pt in hash_unit(key, 20*dim, 5).reshape(20, dim)*10.0**ex:
        x = np.tile(pt, (n, 1))
        raises(ValueError, UEL[k], x, p)
        if dim == 2:
            raises(ValueError, fem.elast_diff_2d, 0.2, 0.2, x,
                   getattr(fem, "shape_" + k))
        else:
            raises(ValueError, fem.elast_diff_3d, 0.2, 0.2, 0.2, x,
                   getattr(fem, "shape_" + k))


@check("C27", st.tuples(st.lists(st.integers(-40, 90), min_size=1,
                                 max_size=3), gen.KEY1).map(list), quick=200,
       rule="unknown element types; non-trivial: type not in the package")
def unknown_type(case, ctx):
    for t in case[0]:
        known = 1 <= t <= 8
        ctx.nontriv(not known)
        for fn in (ass.ele_fun, fem.eletype):
            if known:
                call(fn, t)
                call(fn, np.int64(t))
            else:
                raises(ValueError, fn, t)
                raises(ValueError, fn, np.int64(t))


@st.composite
def good(draw):
    return {"el": draw(gen.elem_st(scale=gen.LENGTH)),
            "E": draw(gen.YOUNG), "nu": draw(gen.NU),
            "asp": draw(st.sampled_from([1, 1, 10, 1e-1, 1e3, 1e-3])),
            "rot": draw(gen.ANGLE), "key": draw(gen.KEY1)}


@check("C27", good(), quick=800,
       rule="valid element of any size, position and slenderness; "
            "non-trivial: not of unit size or slender")
def valid_element(c, ctx):
    k = c["el"]["k"]
    x = gen.build_elem(c["el"]).astype(float)
    dim = x.shape[1]
    m = x.mean(axis=0)
    x = x - m
    x[:, 0] *= c["asp"]
    R = gen.rotm(c["rot"]) if dim == 2 else gen.rot3(c["rot"], 33)
    x = x @ R.T + m
    p = (c["E"], c["nu"]) + ((1.0,) if k in NEEDS_RHO else ())
    J = [ref.shape(k, q)[1] @ (x - x[0]) for q in ref.quad(
        ref.DOMAIN[k], 3)[0]]
    if min(np.linalg.det(j)/np.linalg.norm(j)**dim for j in J) < 1e-7:
        ctx.label("too slender to be told from a flat one")
        return
    ctx.label(k, "aspect %g" % c["asp"])
    ctx.nontriv(c["asp"] != 1 or c["el"]["L"] != 1)
    K, M = tup(call(UEL[k], x, p), 2, k)
    K = finite(arr(K, (x.size, x.size), "K"), "K")
    finite(arr(M, (x.size, x.size), "M"), "M")
    if not np.trace(K) > 0:
        fail("{}: stiffness of a valid element has trace {}", k, np.trace(K))
    if k in STR:
        e, _ = tup(call(STR[k], x, hash_unit(c["key"], x.size, 3)), 2, "str")
        finite(arr(e, (None, 3), "strains"), "strains")
    # the area in the determinant, at any point
    pt = np.full(dim, 0.2)
    if dim == 2:
        det = tup(call(fem.elast_diff_2d, *pt, x, getattr(
            fem, "shape_" + k)), 3, "elast_diff_2d")[2]
    else:
        det = tup(call(fem.elast_diff_3d, *pt, x, getattr(
            fem, "shape_" + k)), 3, "elast_diff_3d")[2]
    J = ref.shape(k, pt)[1] @ x
    close(float(det), np.linalg.det(J), "volume ratio", rtol=1e-6,
          scale=max(abs(np.linalg.det(J)), 1e-9*np.linalg.norm(J)**dim))


@check("C27", st.tuples(gen.model_st(nmax=4),
                        st.booleans()).map(list), quick=250,
       rule="valid model of any size; non-trivial: not of unit size")
def valid_model(case, ctx):
    c, strains = case
    mo = gen.build_model(c)
    kind = c["mesh"]["k"]
    strains = strains and kind != "quad9"
    res = call(sg.solids_auto, mo.tables(), plot_contours=False,
               compute_strains=strains)
    n = len(mo.nodes)
    u = tup(res, 3, "solids_auto")[0] if strains else res
    finite(arr(u, (n, 2), "displacements"), "displacements")
    ctx.label(kind)
    ctx.nontriv(c["mesh"]["place"]["L"] != 1)
