"""C19 - structured meshes of a rectangle."""
import numpy as np
from hypothesis import strategies as st

import solidspy.preprocesor as pre

from .. import gen
from .. import sut as sg
from ..core import arr, call, check, close, fail, tup

SIZE = st.one_of(st.sampled_from([1, 2, 3, 10, 1.0, 0.1, 1/3]),
                 gen.logf(-8, 8), gen.logf(-30, 12))
COUNT = st.one_of(st.integers(1, 6), st.integers(1, 25),
                  st.sampled_from([1, 2, 29, 49]))


@st.composite
def grid_st(draw, big=True):
    n = COUNT if big else st.integers(1, 5)
    return {"length": draw(SIZE), "height": draw(SIZE), "nx": draw(n),
            "ny": draw(n)}


def run(c):
    nx, ny = c["nx"], c["ny"]
    x, y, els = tup(call(pre.rect_grid, c["length"], c["height"], nx, ny), 3,
                    "rect_grid")
    n = (nx + 1)*(ny + 1)
    return (arr(x, (n,), "x"), arr(y, (n,), "y"),
            arr(els, (nx*ny, 7), "elements", "i"))


@check("C19", grid_st(), quick=1500,
       fixed=[{"length": 3.3, "height": 7, "nx": a, "ny": b}
              for a, b in ((120, 3), (2, 150), (64, 64), (2, 16000),
                            (190, 185), (67000, 1), (70, 480))],
       rule="rectangle and element counts; non-trivial: nx != ny and "
            "length != height, both counts above one")
def tiling(c, ctx):
    x, y, els = run(c)
    nx, ny = c["nx"], c["ny"]
    L, H = float(c["length"]), float(c["height"])
    ctx.nontriv(nx != ny and L != H and min(nx, ny) > 1)
    ctx.label("nx>ny" if nx > ny else "nx<ny" if nx < ny else "nx=ny",
              "single row/column" if min(nx, ny) == 1 else "grid",
              "int" if isinstance(c["length"], int) else "float")
    i, j = np.meshgrid(np.arange(nx + 1), np.arange(ny + 1))
    close(x, (-L/2 + L*i/nx).ravel(), "x", rtol=1e-13, scale=L)
    close(y, (-H/2 + H*j/ny).ravel(), "y", rtol=1e-13, scale=H)
    if not np.array_equal(els[:, 0], np.arange(nx*ny)):
        fail("elements are not numbered consecutively: {}", els[:, 0][:20])
    if np.any(els[:, 1] != 1):
        fail("element type {}", np.unique(els[:, 1]))
    if np.any(els[:, 2] != els[0, 2]) or els[0, 2] != 0:
        fail("material {}", np.unique(els[:, 2]))
    con = els[:, 3:]
    if con.min() < 0 or con.max() >= len(x):
        fail("nodes out of range: {} .. {}", con.min(), con.max())
    # congruent and counter-clockwise: every element is a hx by hy rectangle
    p = np.stack([x[con], y[con]], axis=-1)
    d = np.roll(p, -1, axis=1) - p
    area = 0.5*np.sum(p[:, :, 0]*np.roll(p[:, :, 1], -1, axis=1)
                      - np.roll(p[:, :, 0], -1, axis=1)*p[:, :, 1], axis=1)
    hx, hy = L/nx, H/ny
    close(area, np.full(nx*ny, hx*hy), "element areas", rtol=1e-9,
          scale=hx*hy*max(nx, ny))
    ex, ey = np.abs(d[:, :, 0])/hx, np.abs(d[:, :, 1])/hy
    ok = np.abs(np.sort(ex, axis=1) - [0, 0, 1, 1]).max() < 1e-9*max(nx, 1)
    ok &= np.abs(np.sort(ey, axis=1) - [0, 0, 1, 1]).max() < 1e-9*max(ny, 1)
    if not ok:
        fail("elements are not hx by hy rectangles")
    # edges: interior ones shared by exactly two elements, in opposite senses
    cnt = {}
    for e in con:
        for a in range(4):
            k = (int(e[a]), int(e[(a + 1) % 4]))
            cnt[k] = cnt.get(k, 0) + 1
    if max(cnt.values()) > 1:
        fail("an edge is used twice in the same sense (overlap)")
    bnd = [k for k in cnt if (k[1], k[0]) not in cnt]
    if len(bnd) != 2*(nx + ny):
        fail("{} boundary edges instead of {}", len(bnd), 2*(nx + ny))
    for a, b in bnd:
        on = (abs(abs(x[a]) - L/2) < 1e-9*L and abs(x[a] - x[b]) < 1e-9*L
              or abs(abs(y[a]) - H/2) < 1e-9*H
              and abs(y[a] - y[b]) < 1e-9*H)
        if not on:
            fail("boundary edge {}-{} is not on the rectangle", a, b)
    # centroids are distinct: no element is repeated
    cen = {(round(float(q[0])/hx*2), round(float(q[1])/hy*2))
           for q in (p.mean(axis=1) + [L/2, H/2])}
    if len(cen) != nx*ny:
        fail("{} distinct elements instead of {}", len(cen), nx*ny)


@check("C19", st.tuples(grid_st(big=False), gen.YOUNG, gen.NU,
                        st.sampled_from([0, 1]), gen.UNIT).map(list),
       quick=250, rule="analysis of a generated mesh under uniform tension; "
       "non-trivial: more than one element and a load")
def analysis(case, ctx):
    c, E, nu, side, load = case
    c["height"] = c["length"]*max(min(c["height"]/c["length"], 20), 0.05)
    x, y, els = run(c)
    xy = np.column_stack([x, y])
    L = [float(c["length"]), float(c["height"])]
    n = len(x)
    t = load*E*1e-3
    cons = np.zeros((n, 2), dtype=int)
    low = xy[:, side] < -L[side]/2*(1 - 1e-6)
    cons[low, side] = -1
    cons[np.argmin(x + y/3), 1 - side] = -1
    top = np.flatnonzero(xy[:, side] > L[side]/2*(1 - 1e-6))
    other = 1 - side
    m = c["ny"] if side == 0 else c["nx"]
    loads = np.zeros((len(top), 3))
    loads[:, 0] = top
    ends = np.abs(np.abs(xy[top, other]) - L[other]/2) < 1e-6*L[other]
    loads[:, 1 + side] = t*L[other]/m*np.where(ends, 0.5, 1.0)
    nodes = np.column_stack([np.arange(n), x, y])
    data = {"nodes": nodes, "cons": cons, "elements": els,
            "mats": np.array([[E, nu]]), "loads": loads}
    u, e, s = tup(call(sg.solids_auto, data, plot_contours=False,
                       compute_strains=True), 3, "solids_auto")
    u = arr(u, (n, 2), "u")
    s = arr(s, (n, 3), "s")
    w = np.zeros((n, 2))
    a = np.argmin(x + y/3)
    w[:, side] = t/E*(xy[:, side] + L[side]/2)
    w[:, other] = -nu*t/E*(xy[:, other] - xy[a, other])
    ctx.nontriv(len(els) > 1 and load)
    ctx.label("x" if side == 0 else "y")
    close(u, w, "displacements", rtol=1e-6, scale=abs(t)/E*max(L))
    S = np.zeros((n, 3))
    S[:, side] = t
    close(s, S, "stresses", rtol=1e-6, scale=abs(t)*max(
        L[0]/L[1], L[1]/L[0], 1))
