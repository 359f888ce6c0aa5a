"""C20 - models imported from meshio meshes (as read from Gmsh files)."""
import os

import meshio
import numpy as np
from hypothesis import strategies as st

import solidspy.preprocesor as pre

from .. import gen
from .. import sut as sg
from ..core import arr, call, check, close, fail, hash_perm, hash_unit, tup

TAG = {"tri3": "triangle", "tri6": "triangle6", "quad4": "quad"}
GMSH = {"line": 1, "triangle": 2, "quad": 3, "triangle6": 9, "vertex": 15}
SCRATCH = os.environ["VERIF_SCRATCH"]


TAGS = st.one_of(st.integers(1, 400), st.integers(1, 400),
                 st.sampled_from([0, 0, 257, 32769, 32770, 65537, 65538, 99999,
                                  100000, 2**31 - 1]))


@st.composite
def mesh_case(draw, kinds=("quad4", "tri3", "tri6")):
    mesh = draw(gen.mesh_st(kinds, 4, big_offset=False))
    if draw(st.integers(0, 7)) == 5:     # long lines
        mesh.update(nx=draw(st.sampled_from([40, 130, 400, 1100])), ny=1,
                    hole=-1)
    return {"mesh": mesh,
            "surf": draw(gen.KEY1), "nsurf": draw(st.sampled_from([2, 3, 4, 1])),
            "tags": draw(st.lists(TAGS, min_size=9, max_size=9, unique=True)),
            "line": draw(gen.KEY1), "inner": draw(st.booleans()),
            "lperm": draw(gen.KEY), "z": draw(st.sampled_from([0, 0, 2.5])),
            "dtype": draw(st.sampled_from(["int64", "int32", "uint64"])),
            "start": draw(st.sampled_from([0, 0, 1, 7, 100])),
            "pad": draw(st.sampled_from([0]*15 + [33000, 66000]))}


def build(c, solved=False):
    """points, cells, cell_data as meshio 3 gives them."""
    m = gen.build_mesh(c["mesh"])
    if c.get("pad") and not solved:      # after very many other nodes
        m.conn = m.conn + c["pad"]
        m.edges = np.asarray(m.edges) + c["pad"]
        m.xy = np.vstack([np.ones((c["pad"], 2))*m.xy[0], m.xy])
    nel = len(m.conn)
    pts = np.column_stack([m.xy, np.full(len(m.xy), float(c["z"]))])
    ns = c["nsurf"]
    surf = np.array(c["tags"])[np.floor(
        (hash_unit(c["surf"], nel, 101) + 1)/2*ns).astype(int) % ns]
    # lines: the boundary, as four groups by position, some reversed and
    # shuffled; optionally an interior line that forms its own group
    lines, ltag = [], []
    xc = m.xy.mean(axis=0)
    for e in m.edges:
        d = 0.5*(m.xy[e[0]] + m.xy[e[1]]) - xc
        q = int(np.floor(np.arctan2(d[1], d[0])/(np.pi/2))) % 4
        lines.append([e[0], e[1]])
        ltag.append(c["tags"][4 + q])
    if c["inner"]:
        e = m.conn[0]
        lines.append([int(e[0]), int(e[2])])
        ltag.append(c["tags"][8])
    lines, ltag = np.array(lines), np.array(ltag)
    p = hash_perm(c["lperm"], len(lines), 102)
    lines, ltag = lines[p], ltag[p]
    rev = hash_unit(c["lperm"], len(lines), 103) > 0
    lines[rev] = lines[rev][:, ::-1]
    kind = TAG[c["mesh"]["k"]]
    cells = {"line": lines.astype(c["dtype"]),
             kind: m.conn.astype(c["dtype"])}
    data = {"line": {"gmsh:physical": ltag, "gmsh:geometrical": ltag*0 + 1},
            kind: {"gmsh:physical": surf, "gmsh:geometrical": surf*0 + 3}}
    return m, pts, cells, data, kind


def clone(d):
    if isinstance(d, dict):
        return {k: clone(v) for k, v in d.items()}
    return d.copy()


def same_input(a, b, what):
    for k in a:
        if isinstance(a[k], dict):
            same_input(a[k], b[k], what)
        elif not (np.array_equal(a[k], b[k]) and a[k].dtype == b[k].dtype):
            fail("{}: input modified", what)


@check("C20", mesh_case(), quick=500,
       rule="imported mesh: element sets of the physical surfaces, chained, "
            "and nodes; non-trivial: at least two surfaces present")
def elements(c, ctx):
    m, pts, cells, data, kind = build(c)
    if c["surf"] % 4 == 3:               # an upright sheet
        pts = pts[:, [0, 2, 1]]
    c0, d0 = clone(cells), clone(data)
    surf = d0[kind]["gmsh:physical"]
    nini = c["start"]
    nn = m.conn.shape[1]
    ids = []
    for k, tag in enumerate(c["tags"][:c["nsurf"]] + [9999]):
        nf, els = tup(call(pre.ele_writer, cells, data, kind, tag,
                           10 + k, k, nini), 2, "ele_writer")
        rows = np.flatnonzero(surf == tag)
        els = arr(els, (len(rows), 3 + nn), "elements", "i")
        want = np.column_stack([nini + np.arange(len(rows)),
                                np.full(len(rows), 10 + k),
                                np.full(len(rows), k), m.conn[rows]])
        if not np.array_equal(els, want):
            fail("elements of surface {}: got {} want {}", tag,
                 els.tolist(), want.tolist())
        ids += list(els[:, 0])
        nini = int(nf)
    if ids != list(range(c["start"], c["start"] + len(m.conn))):
        fail("chained sets are numbered {}", ids)
    p0 = pts.copy()
    nodes = arr(call(pre.node_writer, pts, {}), (len(pts), 5), "nodes")
    want = np.column_stack([np.arange(len(pts)), p0[:, :2],
                            np.zeros((len(pts), 2))])
    if not np.array_equal(nodes, want):
        fail("node table differs from the points")
    same_input(c0, cells, "cells")
    same_input(d0, data, "cell data")
    if not np.array_equal(p0, pts):
        fail("points modified")
    ctx.label(kind, "surfaces %d" % len(set(surf)))
    ctx.nontriv(len(set(surf)) > 1)


@check("C20", st.tuples(mesh_case(), st.lists(st.tuples(
    st.integers(0, 4), st.sampled_from([0, -1]), st.sampled_from([0, -1])),
    min_size=2, max_size=5), st.lists(st.one_of(
        st.integers(-50, 50), gen.num(), gen.logf(-3, 9)),
        min_size=2, max_size=2)).map(list), quick=500,
       rule="imported mesh: flags and loads of the physical lines; "
            "non-trivial: several lines with an open boundary left")
def lines(case, ctx):
    c, ops, P = case
    m, pts, cells, data, kind = build(c)
    c0, d0 = clone(cells), clone(data)
    present = sorted(set(d0["line"]["gmsh:physical"].tolist()))
    model = np.column_stack([np.arange(len(pts)), m.xy,
                             np.zeros((len(pts), 2))])
    nodes = model.copy()
    used = set()
    for q, bx, by in ops:
        tag = present[q % len(present)]
        on = sorted({int(i) for e, t in zip(c0["line"],
                                            d0["line"]["gmsh:physical"])
                     if t == tag for i in e})
        nodes = arr(call(pre.boundary_conditions, cells, data, tag, nodes,
                         bx, by), model.shape, "nodes")
        model[on, 3] = bx
        model[on, 4] = by
        used.add(tag)
        if not np.array_equal(nodes, model):
            fail("boundary flags of line {}: got {} want {}", tag,
                 nodes[:, 3:].tolist(), model[:, 3:].tolist())
        ld = arr(call(pre.loading, cells, data, tag, P[0], P[1]),
                 (len(on), 3), "loads")
        if sorted(ld[:, 0].tolist()) != on:
            fail("loaded nodes {} instead of {}", ld[:, 0], on)
        close(ld[:, 1:], np.tile(np.array(P, dtype=float)/len(on),
                                 (len(on), 1)), "nodal loads", rtol=1e-12)
    same_input(c0, cells, "cells")
    same_input(d0, data, "cell data")
    ctx.label(kind, "lines %d" % len(used), c["dtype"])
    ctx.nontriv(len(used) > 1)


def write_msh(path, pts, cells, data):
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$Nodes",
           str(len(pts))]
    out += ["%d %r %r %r" % (i + 1, *map(float, p))
            for i, p in enumerate(pts)]
    out += ["$EndNodes", "$Elements", str(sum(map(len, cells.values())))]
    n = 1
    for kind, con in cells.items():
        for e, t in zip(con, data[kind]["gmsh:physical"]):
            out.append(" ".join(map(str, [n, GMSH[kind], 2, int(t), 1]
                                    + [int(i) + 1 for i in e])))
            n += 1
    out.append("$EndElements")
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


@check("C20", st.tuples(mesh_case(("quad4", "tri3")), gen.mats_st(),
                        st.integers(0, 3), gen.UNIT, gen.UNIT).map(list),
       quick=300, rule="Gmsh file read with meshio, imported and analysed, "
       "against the model built by hand; non-trivial: several elements")
def imported_run(case, ctx):
    c, mats, side, px, py = case
    m, pts, cells, data, kind = build(c, True)
    path = os.path.join(SCRATCH, "mesh-%d.msh" % os.getpid())
    write_msh(path, pts, cells, data)
    try:
        mesh = meshio.read(path)
    finally:
        os.remove(path)
    mats = np.array(mats)
    etype = gen.TYPE[c["mesh"]["k"]]
    nini, sets = 0, []
    rows = []
    surf = data[kind]["gmsh:physical"]
    for k, tag in enumerate(c["tags"][:c["nsurf"]]):
        nini, els = tup(call(pre.ele_writer, mesh.cells, mesh.cell_data, kind,
                             tag, etype, k % len(mats), nini), 2,
                        "ele_writer")
        sets.append(np.asarray(els))
        rows += [(r, k % len(mats)) for r in np.flatnonzero(surf == tag)]
    els = np.vstack(sets)
    nodes = call(pre.node_writer, mesh.points, mesh.point_data)
    present = sorted(set(data["line"]["gmsh:physical"].tolist()))
    fix = present[side % len(present)]
    top = present[(side + 1) % len(present)]
    fixed = np.unique(cells["line"][data["line"]["gmsh:physical"] == fix])
    if len(fixed) == len(m.xy):
        ctx.label("skipped: nothing left free")
        return
    nodes = call(pre.boundary_conditions, mesh.cells, mesh.cell_data, fix,
                 nodes, -1, -1)
    E = float(mats[0, 0])
    ld = call(pre.loading, mesh.cells, mesh.cell_data, top, px*E, py*E)
    got = call(sg.solids_auto, {
        "nodes": nodes[:, :3], "cons": nodes[:, 3:].astype(int),
        "elements": els, "mats": mats, "loads": ld}, plot_contours=False)
    # the same model by hand
    n = len(m.xy)
    e2 = m.elements()[[r for r, _ in rows]]
    e2[:, 0] = np.arange(len(e2))
    e2[:, 2] = [k for _, k in rows]
    cons = np.zeros((n, 2), dtype=int)
    lt = data["line"]["gmsh:physical"]
    cons[np.unique(cells["line"][lt == fix].astype(int))] = -1
    on = np.unique(cells["line"][lt == top].astype(int))
    l2 = np.column_stack([on, np.full(len(on), px*E/len(on)),
                          np.full(len(on), py*E/len(on))])
    want = call(sg.solids_auto, {
        "nodes": m.nodes(), "cons": cons, "elements": e2, "mats": mats,
        "loads": l2}, plot_contours=False)
    ctx.label(kind)
    ctx.nontriv(len(e2) > 1 and (px or py))
    close(arr(got, (n, 2), "u"), arr(want, (n, 2), "u"),
          "displacements of the imported model", rtol=1e-7)
