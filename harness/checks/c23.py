"""C23 - contour triangulations and plots of nodal fields."""
import os
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.collections import TriMesh
from matplotlib.tri import TriContourSet

import solidspy.postprocesor as pos

from .. import gen
from .. import sut as sg
from ..core import arr, call, check, close, fail, hash_unit, tup
from . import c14

SCRATCH = os.environ["VERIF_SCRATCH"]
PER = {"quad4": 2, "tri6": 4, "tri3": 1, "quad9": 8}


def area2(p):
    """Twice the signed area of polygons (..., n, 2)."""
    p = p - p[..., :1, :]
    q = np.roll(p, -1, axis=-2)
    return np.sum(p[..., 0]*q[..., 1] - p[..., 1]*q[..., 0], axis=-1)


def outline(kind, c):
    """Boundary nodes of an element, counter-clockwise."""
    if kind == "tri6":
        return [c[i] for i in (0, 3, 1, 4, 2, 5)]
    if kind == "quad9":
        return [c[i] for i in (0, 4, 1, 5, 2, 6, 3, 7)]
    return list(c)


@st.composite
def tri_case(draw):
    return {"mesh": draw(gen.mesh_st(nmax=5, big_offset=False)),
            "cols": draw(st.sampled_from([3, 5])),
            "crack": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
            "mat": draw(gen.KEY)}


def check_tri(tri, m, curved):
    """Triangulation tiles every element of the mesh."""
    n = len(m.xy)
    close(arr(tri.x, (n,), "x"), m.xy[:, 0], "x of the triangulation",
          rtol=1e-14)
    close(arr(tri.y, (n,), "y"), m.xy[:, 1], "y of the triangulation",
          rtol=1e-14)
    per = PER[m.kind]
    t = arr(tri.triangles, (per*len(m.conn), 3), "triangles", "i")
    if getattr(tri, "mask", None) is not None and np.any(tri.mask):
        fail("masked triangles")
    a = area2(m.xy[t])
    size = area2(m.xy[m.conn[:, :{"tri3": 3, "tri6": 3}.get(m.kind, 4)]])
    own = {}
    for e, c in enumerate(m.conn):
        for i in c:
            own.setdefault(int(i), set()).add(e)
    of = [[] for _ in m.conn]
    for k, row in enumerate(t):
        es = set.intersection(*[own.get(int(i), set()) for i in row])
        if len(es) != 1 or len(set(row.tolist())) != 3:
            fail("triangle {} does not lie in one element", row.tolist())
        of[es.pop()].append(k)
    for e, c in enumerate(m.conn):
        ks = of[e]
        if len(ks) != per:
            fail("{} triangles in element {} instead of {}", len(ks), e, per)
        if not curved and not np.all(a[ks] > 1e-3*size[e]/per):
            fail("triangles of element {} are not counter-clockwise: areas "
                 "{} of {}", e, a[ks]/2, size[e]/2)
        close(a[ks].sum(), area2(m.xy[outline(m.kind, c)]),
              "area of the triangles of an element", rtol=1e-9)
        if set(t[ks].ravel().tolist()) != set(c.tolist()):
            fail("nodes {} of element {} are not used",
                 sorted(set(c.tolist()) - set(t[ks].ravel().tolist())), e)
        # topology: the outline once, interior edges in both senses
        ed = [(int(t[k][q]), int(t[k][(q + 1) % 3])) for k in ks
              for q in range(3)]
        if len(set(ed)) != len(ed):
            fail("triangles of element {} overlap: {}", e, t[ks].tolist())
        out = {x for x in ed if x[::-1] not in ed}
        b = outline(m.kind, c)
        want = {(int(b[q]), int(b[(q + 1) % len(b)])) for q in range(len(b))}
        if out != want:
            fail("triangles of element {} do not cover it: outline {} instead "
                 "of {}", e, sorted(out), sorted(want))


@check("C23", tri_case(), quick=700,
       fixed=[{"mesh": gen.plain_mesh(k, n, n - 2, np=3, ep=5, **(
           {"diag": 4} if k[0] == "t" else {})), "cols": 3, "crack": 0,
               "mat": 3} for k, n in (("tri3", 39), ("quad4", 37),
                                      ("tri6", 20), ("quad9", 16))]
       + [{"mesh": gen.plain_mesh("quad4", 33000, 1, np=3), "cols": 3,
           "crack": 0, "mat": 3}],
       rule="plotting triangulation of a mesh; non-trivial: several elements")
def triangulation(c, ctx):
    m = gen.build_mesh(c["mesh"])
    if c["crack"]:
        m = gen.cracked(m, c["crack"])
        ctx.label("coincident nodes")
    if c["mat"] % 4 == 2 and not m.int:  # beside a tiny copy of itself
        m.conn = np.vstack([m.conn, m.conn + len(m.xy)])
        m.xy = np.vstack([m.xy, 1e-4*m.xy + 3*m.size])
        ctx.label("tiny part")
    nodes = m.nodes()
    if c["cols"] == 5:
        nodes = np.hstack([nodes, hash_unit(7, 2*len(nodes), 1).reshape(-1, 2)
                           > 0.4])
    els = m.elements((hash_unit(c["mat"], len(m.conn), 2) > 0)*1)
    tri = call(pos.mesh2tri, nodes, els)
    ctx.label(m.kind, "curved" if c["mesh"]["mid"] else "straight")
    ctx.nontriv(len(m.conn) > 1)
    check_tri(tri, m, bool(c["mesh"]["mid"]))


# ---------------------------------------------------------------- figures
@st.composite
def field_case(draw):
    c = {"mesh": draw(gen.mesh_st(nmax=3, big_offset=False)),
         "n": draw(st.sampled_from([0, 1, 2, 3, 1, 2, 3, 8, 11])),
         "field": draw(gen.KEY1),
         "kind": draw(st.sampled_from(["random", "random", "linear",
                                       "constant", "ints"])),
         "mag": draw(gen.logf(-9, 9)), "off": draw(st.sampled_from(
             [0, 0, 1, -5])),
         "type": draw(st.sampled_from(["contourf", "pcolor", None])),
         "levels": draw(st.sampled_from([12, None, 4, 25, 70])),
         "titles": draw(st.booleans()), "figtitles": draw(st.booleans()),
         "prior": draw(st.sampled_from([[], [], [1], [3], [1, 2, 5]])),
         "again": draw(st.sampled_from([0, 0, 1])),
         "crack": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
         "far": draw(st.sampled_from([0]*9 + [1e4, 3e5])),
         "slim": draw(st.sampled_from([0]*9 + [3e3, 2e-4, 7])),
         "part": draw(st.sampled_from([0, 0, 0, 1]))}
    return c


def make_field(c, m):
    n, k = len(m.xy), max(c["n"], 1)
    z = (m.xy - m.xy.mean(axis=0))/m.size
    h = hash_unit(c["field"], (n + 3)*k, 1)
    if c["kind"] == "linear":
        f = z @ h[:2*k].reshape(2, k) + h[2*k:3*k]
    elif c["kind"] == "constant":
        f = np.tile(np.round(h[:k], 3), (n, 1))
    else:
        f = h[:n*k].reshape(n, k)
    if c["kind"] == "ints":
        f = np.rint(7*f).astype(int)
    else:
        f = c["mag"]*(f + c["off"])
    return f[:, 0] if c["n"] == 0 else f


def drawn(ax):
    return [x for x in ax.get_children()
            if isinstance(x, (TriMesh, TriContourSet))]


def poly_area(path):
    """Signed area of a (compound) path made of straight segments."""
    v, codes = path.vertices, path.codes
    if codes is None:
        return abs(area2(v))/2 if len(v) else 0.0
    tot = 0.0
    start = np.flatnonzero(codes == 1).tolist() + [len(codes)]
    for a, b in zip(start[:-1], start[1:]):
        tot += area2(v[a:b])/2
    return tot


def eval_at(m, tri, f, pts):
    """Range of the values of the piecewise linear interpolant at points
    (over the triangles that contain the point, with tolerance)."""
    t = tri.triangles
    x = m.xy[t]
    d = np.linalg.inv(np.stack([x[:, 1] - x[:, 0], x[:, 2] - x[:, 0]],
                               axis=-1))
    l12 = np.einsum("tij,ptj->pti", d, pts[:, None, :] - x[None, :, 0])
    lam = np.concatenate([1 - l12.sum(axis=2, keepdims=True), l12], axis=2)
    inside = lam.min(axis=2)
    return np.einsum("ptk,tk->pt", lam, f[t]), inside


def check_axes(ax, m, tri, f, ptype, levels, what):
    if ax.get_aspect() not in (1, 1.0, "equal"):
        fail("{}: distorted (aspect {})", what, ax.get_aspect())
    if "<colorbar>" not in [a.get_label() for a in ax.figure.axes]:
        fail("{}: no colour scale", what)
    used = m.xy[np.unique(tri.triangles)]
    for q, lim in enumerate((ax.get_xlim(), ax.get_ylim())):
        tol = 1e-6*m.size
        if used[:, q].min() < min(lim) - tol \
                or used[:, q].max() > max(lim) + tol:
            fail("{}: part of the mesh is out of view", what)
    arts = drawn(ax)
    if len(arts) != 1:
        fail("{}: {} plots in one figure", what, len(arts))
    art = arts[0]
    sc = np.abs(f).max()
    if ptype == "pcolor":
        if not isinstance(art, TriMesh):
            fail("{}: colours requested, {} drawn", what, type(art).__name__)
        got = arr(art.get_array(), (len(f),), what)
        close(got, f, what + ": plotted values", rtol=1e-12)
        lo, hi = art.get_clim()
        if f.min() < f.max():
            close([lo, hi], [f.min(), f.max()], what + ": colour limits",
                  rtol=1e-9, scale=sc)
        p = np.array([q.vertices[:3] for q in art.get_paths()])
        close(np.abs(area2(p)).sum(), np.abs(area2(m.xy[tri.triangles])
                                             ).sum(),
              what + ": coloured area", rtol=1e-9)
        return
    if not isinstance(art, TriContourSet):
        fail("{}: contours requested, {} drawn", what, type(art).__name__)
    # contours know the values of the nodes that carry triangles
    whole, f = f, f[np.unique(tri.triangles)]
    close([art.zmin, art.zmax], [f.min(), f.max()], what + ": range of the "
          "contoured field", rtol=1e-12, scale=sc)
    lev = np.asarray(art.levels, dtype=float)
    if f.max() - f.min() <= 1e-9*sc:
        return
    if lev[0] > f.min() + 1e-9*sc or lev[-1] < f.max() - 1e-9*sc:
        fail("{}: levels {}..{} do not cover the field {}..{}", what, lev[0],
             lev[-1], f.min(), f.max())
    if len(lev) > levels + 4:
        fail("{}: {} levels instead of about {}", what, len(lev), levels)
    if len(lev) < 0.62*levels:
        fail("{}: only {} levels for {}", what, len(lev), levels)
    # every contour band lies where the field has values in the band
    tol = 1e-6*(f.max() - f.min()) + 1e-9*sc
    total = 0.0
    paths = art.get_paths()
    if len(paths) != len(lev) - 1:
        fail("{}: {} bands for {} levels", what, len(paths), len(lev))
    for lo, hi, path in zip(lev[:-1], lev[1:], paths):
        v = path.vertices
        if not len(v):
            continue
        total += poly_area(path)
        if len(v) > 40:
            v = v[::len(v)//40 + 1]
        val, inside = eval_at(m, tri, whole, v)
        ok = ((inside > -1e-6) & (val >= lo - tol) & (val <= hi + tol)
              ).any(axis=1)
        if not ok.all():
            k = int(np.flatnonzero(~ok)[0])
            fail("{}: band {}..{} drawn at {}, where the field is {}", what,
                 lo, hi, v[k], val[k, inside[k].argmax()])
    if np.ptp(whole[tri.triangles], axis=1).min() < tol:
        return         # matplotlib leaves flat triangles at a level empty
    want = area2(m.xy[tri.triangles]).sum()/2
    close(total, want, what + ": area covered by the contours", rtol=1e-6)


@check("C23", field_case(), quick=120,
       rule="figures of a nodal field; non-trivial: non-constant field")
def figures(c, ctx):
    m = gen.build_mesh(c["mesh"])
    if c["crack"]:
        m = gen.cracked(m, c["crack"])
        ctx.label("coincident nodes")
    if c.get("far") and not m.int:
        m.xy = m.xy + c["far"]*m.size
        ctx.label("far away")
    if c.get("slim") == 7:           # very thin layers at one side
        m = gen.build_mesh(gen.plain_mesh(
            "tri3" if m.kind[0] == "t" else "quad4", 3, 2, np=3))
        w = np.ptp(m.xy[:, 0])
        m.xy[:, 0] = w*((m.xy[:, 0] - m.xy[:, 0].min())/w)**7
        ctx.label("thin layers")
    elif c.get("slim") and not (m.int or c.get("far")):
        m.xy = m.xy*[c["slim"], 1.0]
        ctx.label("slim elements")
    f = make_field(c, m)
    f0 = f.copy()
    k = 1 if c["n"] == 0 else c["n"]
    kw = {}
    if c["type"] is not None:
        kw["plt_type"] = c["type"]
    if c["levels"] is not None:
        kw["levels"] = c["levels"]
    if c["titles"]:
        kw["title"] = ["field %d" % q for q in range(k)]
    if c["figtitles"]:
        kw["figtitle"] = ["window %d" % q for q in range(k)]
    ctx.label(m.kind, str(c["type"]), c["kind"], "%d columns" % c["n"])
    ctx.nontriv(c["kind"] != "constant")
    els = m.elements()
    if c["part"] and len(els) > 1:          # some of the elements only
        els = els[::2]
        ctx.label("part of the mesh")
    plt.close("all")
    try:
        for p in c["prior"]:
            plt.figure(p)
        rounds = 2 if c["again"] and not c["figtitles"] else 1
        for r in range(rounds):
            old = set(plt.get_fignums())
            call(pos.plot_node_field, f, m.nodes(), els, **kw)
            new = sorted(set(plt.get_fignums()) - old)
            if len(new) != k:
                fail("{} new figures for {} components", len(new), k)
            tri = call(pos.mesh2tri, m.nodes(), els)
            for q, num in enumerate(new):
                fig = plt.figure(num)
                axes = [a for a in fig.axes if drawn(a)]
                if not axes:
                    fail("component {}: nothing was drawn", q)
                axes = [a for a in axes if a.get_label() != "<colorbar>"]
                if len(axes) != 1:
                    fail("component {}: {} plots", q, len(axes))
                col = (f0 if f0.ndim == 1 else f0[:, q]).astype(float)
                check_axes(axes[0], m, tri, col, c["type"] or "contourf",
                           c["levels"] or 12, "component %d" % q)
                if c["titles"] and axes[0].get_title() != "field %d" % q:
                    fail("title {!r} instead of {!r}", axes[0].get_title(),
                         "field %d" % q)
                if c["figtitles"] and fig.get_label() != "window %d" % q:
                    fail("window {!r} instead of {!r}", fig.get_label(),
                         "window %d" % q)
        for p in c["prior"]:
            if plt.figure(p).axes:
                fail("an unrelated open figure was drawn on")
    finally:
        plt.close("all")
    if not np.array_equal(f, f0):
        fail("the plotted field was modified")


@check("C23", st.tuples(field_case(), st.booleans()).map(list), quick=25,
       rule="figures saved to files; non-trivial: several components")
def saved(case, ctx):
    c, names = case
    m = gen.build_mesh(c["mesh"])
    f = make_field(c, m)
    k = 1 if c["n"] == 0 else c["n"]
    root = tempfile.mkdtemp(prefix="fig-", dir=SCRATCH)
    old = os.getcwd()
    plt.close("all")
    try:
        os.chdir(root)
        kw = {"filename": ["f%d.png" % q for q in range(k)]} if names else {}
        call(pos.plot_node_field, f, m.nodes(), m.elements(), savefigs=True,
             **kw)
        got = sorted(os.listdir(root))
        want = ["f%d.png" % q for q in range(k)] if names else \
            ["output%d.pdf" % q for q in range(k)]
        if got != sorted(want):
            fail("files {} instead of {}", got, want)
        if any(os.path.getsize(os.path.join(root, g)) == 0 for g in got):
            fail("empty figure file")
    finally:
        os.chdir(old)
        plt.close("all")
        shutil.rmtree(root)
    ctx.nontriv(k > 1)


TITLES = [r"$u_x$", r"$u_y$", r"$\epsilon_{xx}$", r"$\epsilon_{yy}$",
          r"$\gamma_{xy}$", r"$\sigma_{xx}$", r"$\sigma_{yy}$",
          r"$\tau_{xy}$"]
WINDOWS = ["Horizontal displacement", "Vertical displacement",
           "Strain epsilon-xx", "Strain epsilon-yy", "Strain gamma-xy",
           "Stress sigma-xx", "Stress sigma-yy", "Stress tau-xy"]


def named(fig, ax, q):
    """The figure says which of the eight fields it shows."""
    if ax.get_title() != TITLES[q] or fig.get_label() != WINDOWS[q]:
        fail("the figure of {} is titled {!r} in the window {!r}", WINDOWS[q],
             ax.get_title(), fig.get_label())


@check("C23", st.tuples(field_case(), st.booleans(), st.booleans()).map(list),
       quick=60,
       rule="one plot of a triangulation in the current figure, and the "
            "fields of a workflow given separately; non-trivial: non-constant "
            "field")
def single(case, ctx):
    c, se, ss = case
    m = gen.build_mesh(c["mesh"])
    f = make_field(dict(c, n=8), m).astype(float)
    f *= np.power(10.0, (np.arange(8)*(1 + c["field"])) % 7 - 3)
    els, nodes = m.elements(), m.nodes()
    tri = call(pos.mesh2tri, nodes, els)
    ctx.label(m.kind, str(c["type"]), "strains" if se else "",
              "stresses" if ss else "")
    ctx.nontriv(c["kind"] != "constant")
    kw = {}
    if c["type"] is not None:
        kw["plt_type"] = c["type"]
    if c["levels"] is not None:
        kw["levels"] = c["levels"]
    if c["titles"]:
        kw["title"] = "one field"
    plt.close("all")
    root = tempfile.mkdtemp(prefix="plot-", dir=SCRATCH)
    cwd = os.getcwd()
    try:
        os.chdir(root)
        fig = plt.figure()
        f0 = f.copy()
        call(pos.tri_plot, tri, f[:, 0], **kw)
        if plt.get_fignums() != [fig.number]:
            fail("a plot in the current figure leaves figures {}",
                 plt.get_fignums())
        axes = [a for a in fig.axes if drawn(a)
                and a.get_label() != "<colorbar>"]
        if len(axes) != 1:
            fail("{} plots in the figure", len(axes))
        check_axes(axes[0], m, tri, f[:, 0], c["type"] or "contourf",
                   c["levels"] or 12, "plot of a triangulation")
        if axes[0].get_title() != kw.get("title", ""):
            fail("title {!r}", axes[0].get_title())
        plt.close("all")
        if os.listdir(root):
            fail("files written without a request: {}", os.listdir(root))
        if c["again"] and c["part"]:
            plt.figure()
            call(pos.tri_plot, tri, f[:, 0], savefigs=True,
                 filename="one.png")
            plt.close("all")
            if os.listdir(root) != ["one.png"] \
                    or not os.path.getsize("one.png"):
                fail("files {} instead of one.png", os.listdir(root))
            os.unlink("one.png")
        kw, col = {}, [0, 1]
        if se:
            kw["E_nodes"] = f[:, 2:5]
            col += [2, 3, 4]
        if ss:
            kw["S_nodes"] = f[:, 5:8]
            col += [5, 6, 7]
        call(pos.fields_plot, els, nodes, f[:, :2], **kw)
        figs = sorted(plt.get_fignums())
        if len(figs) != len(col):
            fail("{} figures for {} components", len(figs), len(col))
        for q, num in zip(col, figs):
            axes = [a for a in plt.figure(num).axes if drawn(a)
                    and a.get_label() != "<colorbar>"]
            if len(axes) != 1:
                fail("{} plots in a figure", len(axes))
            check_axes(axes[0], m, tri, f[:, q], "contourf", 12, WINDOWS[q])
            named(plt.figure(num), axes[0], q)
        if not np.array_equal(f, f0):
            fail("the plotted fields were modified")
        if os.listdir(root):
            fail("files written without a request: {}", os.listdir(root))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root)
        plt.close("all")


@check("C23", st.tuples(c14.truss(), st.sampled_from([5, 6, 6])).map(list),
       quick=60,
       rule="workflow on trusses and springs with plots enabled; "
            "non-trivial: every case")
def members(case, ctx):
    t = c14.build(case[0])
    els = t.elements.copy()
    if case[1] == 5:
        els[1::2, 1] = 5
        ctx.label("springs")
    ctx.nontriv()
    d = {"nodes": t.nodes, "cons": t.cons, "elements": els, "mats": t.mats,
         "loads": t.loads}
    want = arr(call(sg.solids_auto, d, plot_contours=False), t.xy.shape,
               "displacements")
    plt.close("all")
    try:
        got = arr(call(sg.solids_auto, d, plot_contours=True), t.xy.shape,
                  "displacements with plots")
        close(got, want, "displacements with plots", rtol=1e-12)
        beams = els.copy()
        beams[:, 1] = 7 + case[0]["load"] % 2
        disp = np.column_stack([want, want[:, :1]])
        was = disp.copy()
        call(pos.fields_plot, beams, t.nodes, disp)
        if not np.array_equal(disp, was):
            fail("the displacements were modified by the plot")
    finally:
        plt.close("all")


def from_files(mo, strains):
    """The workflow on the model in four files, with plots."""
    root = tempfile.mkdtemp(prefix="plots-", dir=SCRATCH)
    try:
        for name, a, fmt in (
                ("nodes", np.hstack([mo.nodes, mo.cons]), "%.17g"),
                ("mater", mo.mats, "%.17g"), ("eles", mo.elements, "%d"),
                ("loads", mo.loads, "%.17g")):
            np.savetxt(os.path.join(root, name + ".txt"), a, fmt=fmt)
        return call(sg.solids_GUI, plot_contours=True,
                    compute_strains=strains, folder=root)
    finally:
        shutil.rmtree(root)


@check("C23", st.tuples(gen.model_st(nmax=3), st.booleans(),
                        st.booleans()).map(list),
       quick=80, rule="workflow with and without plots; non-trivial: "
       "several elements")
def workflow(case, ctx):
    c, strains, files = case
    mo = gen.build_model(c)
    if c["load"] % 7 == 3:               # nothing happens
        mo.loads = np.zeros_like(mo.loads)
        ctx.label("no loads")
    kind = c["mesh"]["k"]
    strains = strains or kind == "tri6"
    strains = strains and kind != "quad9"
    n = len(mo.nodes)
    want = call(sg.solids_auto, mo.data(), plot_contours=False,
                compute_strains=strains)
    plt.close("all")
    try:
        if files:
            ctx.label("from files")
            got = from_files(mo, strains)
        else:
            got = call(sg.solids_auto, mo.tables(), plot_contours=True,
                       compute_strains=strains)
        if not strains:
            got, want = [got], [want]
        else:
            tup(got, 3, "workflow with plots")
        figs = plt.get_fignums()
        if len(figs) != (8 if strains else 2):
            fail("{} figures", len(figs))
        cols = np.hstack([arr(w, (n, q), "result")
                          for w, q in zip(want, (2, 3, 3))])
        tri = call(pos.mesh2tri, mo.nodes, mo.elements)
        for q, num in enumerate(sorted(figs)):
            ax = [a for a in plt.figure(num).axes if drawn(a)
                  and a.get_label() != "<colorbar>"]
            if len(ax) != 1:
                fail("figure {}: {} plots", num, len(ax))
            check_axes(ax[0], mo.mesh, tri, cols[:, q], "contourf", 12,
                       "figure %d of the workflow" % num)
            named(plt.figure(num), ax[0], q)
    finally:
        plt.close("all")
    for g, w, q, name in zip(got, want, (2, 3, 3),
                             ("displacements", "strains", "stresses")):
        close(arr(g, (n, q), name), arr(w, (n, q), name),
              name + " with plots", rtol=1e-9)
    ctx.label(kind, "strains" if strains else "displacements")
    ctx.nontriv(len(mo.elements) > 1)
