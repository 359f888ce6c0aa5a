"""C24 - purity and independence of the history."""
import copy
import os
import sys

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import solidspy.assemutil as ass
import solidspy.blochutil as bl
import solidspy.femutil as fem
import solidspy.gaussutil as gau
import solidspy.postprocesor as pos
import solidspy.preprocesor as pre
import solidspy.solutil as sol
import solidspy.uelutil as ue

from .. import gen, ref
from .. import sut as sg
from ..core import arr, call, check, close, fail, hash_unit, raises, tup
from . import c14
from .c04 import NEEDS_RHO, UEL


# ------------------------------------------------------------ single calls
def arrays_in(x, out=None):
    """Every numpy array inside a result or an argument."""
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays_in(v, out)
    elif isinstance(x, dict):
        for v in x.values():
            arrays_in(v, out)
    elif hasattr(x, "toarray") and hasattr(x, "data"):
        for name in ("data", "indices", "indptr", "row", "col"):
            v = getattr(x, name, None)
            if isinstance(v, np.ndarray):
                out.append(v)
    return out


def same(a, b):
    if hasattr(a, "toarray"):
        return hasattr(b, "toarray") and same(a.toarray(), b.toarray())
    if isinstance(a, np.ndarray):
        b = np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fc":
            sc = np.abs(a[np.isfinite(a)]).max(initial=0.0)
            return bool(np.all((np.abs(a - b) <= 1e-12*sc)
                               | (np.isnan(a) & np.isnan(b)) | (a == b)))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(a, complex):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12*abs(a)
    return a == b


def kept(a, b):
    """Bit for bit the same inputs."""
    if hasattr(a, "toarray"):
        return kept(a.toarray(), b.toarray())
    if isinstance(a, np.ndarray):
        return (a.dtype == b.dtype and a.shape == b.shape and np.array_equal(
            a, b, equal_nan=a.dtype.kind in "fc"))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(kept(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(kept(a[k], b[k]) for k in a)
    return a is b or a == b


def locked(x):
    """A copy of the arguments that cannot be written to."""
    x = copy.deepcopy(x)
    for a in arrays_in(x):
        a.flags.writeable = False
    return x


def settings():
    """What an analysis leaves alone in the process."""
    g = np.random.get_state()
    return {"floating-point errors": np.geterr(),
            "print options": np.get_printoptions(),
            "plot defaults": dict(dict.items(plt.rcParams)),
            "working folder": os.getcwd(),
            "random numbers": (g[0], g[1].tobytes(), g[2]),
            "recursion limit": sys.getrecursionlimit(),
            "environment": dict(os.environ)}


def settled(was, what):
    now = settings()
    for k in was:
        if was[k] != now[k]:
            a, b = was[k], now[k]
            if isinstance(a, dict):
                a, b = [{q: x[q] for q in x if a.get(q) != b.get(q)}
                        for x in (a, b)]
            restore(was)
            fail("{} changed the {} of the process: {} -> {}", what, k,
                 str(a)[:200], str(b)[:200])


def restore(was):
    """So that the next case starts from the same settings."""
    np.seterr(**was["floating-point errors"])
    os.chdir(was["working folder"])
    dict.update(plt.rcParams, was["plot defaults"])
    sys.setrecursionlimit(was["recursion limit"])


def scribble(x):
    for a in arrays_in(x):
        if a.flags.writeable and a.size:
            a[...] = -7
    if isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (int, float)):
                x[i] = -7


def probe(what, fn, args, share=True, kw=None, lock=True):
    """fn is pure: inputs kept, fresh memory, repeatable even after the
    caller overwrites an earlier result."""
    kw = kw or {}
    before = copy.deepcopy(args)
    r1 = call(fn, *args, **kw)
    if not kept(before, args):
        fail("{} modified its arguments", what)
    if share:
        ins = arrays_in(list(args)) + arrays_in(kw)
        for o in arrays_in(r1):
            if any(o.size and np.shares_memory(o, i) for i in ins):
                fail("{} returns memory of its arguments", what)
    keep = copy.deepcopy(r1)
    r2 = call(fn, *copy.deepcopy(before), **kw)
    if not same(keep, r2):
        fail("{} gives another result when called again", what)
    o2 = arrays_in(r2)
    for o in arrays_in(r1):
        if any(o.size and np.shares_memory(o, i) for i in o2):
            fail("{} returns the same memory twice", what)
    if not same(keep, r1):
        fail("{}: an earlier result changed", what)
    scribble(r1)
    if not kept(before, args):
        fail("{}: the result is tied to the arguments", what)
    r3 = call(fn, *args, **kw)
    if not same(keep, r3):
        fail("{} depends on what is done to an earlier result", what)
    if lock:
        r4 = call(fn, *locked(args), **kw)
        if not same(keep, r4):
            fail("{} gives another result for read-only arguments", what)
    return keep


LARGE = [{"mesh": gen.plain_mesh(k, nx, ny, jit=3, np=2, ep=4),
          "mats": [[1.0, .3], [3.0, .2]], "matkey": 9, "sup": 3,
          "supkind": "side", "load": 3, "nload": 9, "lmag": 1.0,
          "rows": 5} for k, nx, ny in (
              ("quad4", 13, 11), ("tri3", 9, 15), ("tri6", 8, 6),
              ("quad9", 7, 8), ("quad4", 33, 31))]


@check("C24", gen.model_st(nmax=3, dens=None, ints=True), quick=120,
       fixed=LARGE,
       rule="every step of an analysis called alone; non-trivial: several "
            "elements")
def analysis_steps(c, ctx):
    mo = gen.build_model(c)
    d = mo.data()
    kind = c["mesh"]["k"]
    els, nodes, mats = d["elements"], d["nodes"], d["mats"]
    ctx.label(kind)
    ctx.nontriv(len(els) > 1)
    probe("eqcounter", ass.eqcounter, (d["cons"],))
    op, bc, neq = probe("DME", ass.DME, (d["cons"], els))
    K, M = probe("assembler", ass.assembler, (els, mats, nodes, neq, op))
    Kd, Md = probe("dense assembler", ass.assembler,
                   (els, mats, nodes, neq, op), kw={"sparse": False})
    probe("sparse_assem", ass.sparse_assem, (els, mats, nodes, neq, op))
    probe("dense_assem", ass.dense_assem, (els, mats, nodes, neq, op))
    probe("retriever", ass.retriever, (els, mats, nodes, len(els) - 1))
    rhs = probe("loadasem", ass.loadasem, (d["loads"], bc, neq))
    u = probe("static_sol", sol.static_sol, (K, rhs))
    probe("dense static_sol", sol.static_sol, (Kd, rhs))
    full = probe("complete_disp", pos.complete_disp, (bc, nodes, u))
    probe("energy", pos.energy, (u, K))
    # the same body without supports
    free = 0*d["cons"]
    op2, bc2, neq2 = probe("DME of a free body", ass.DME, (free, els))
    K2, _ = probe("assembler of a free body", ass.assembler,
                  (els, mats, nodes, neq2, op2))
    x = hash_unit(11, neq2, 1)
    probe("complete_disp of a free body", pos.complete_disp, (bc2, nodes, x))
    probe("energy of a free body", pos.energy, (x, K2))
    probe("loadasem of a free body", ass.loadasem, (d["loads"], bc2, neq2))
    if kind != "quad9":
        E, S = probe("strain_nodes", pos.strain_nodes,
                     (nodes, els, mats, full))
        probe("principal_dirs", pos.principal_dirs, (S,))
        v = hash_unit(12, full.size, 1).reshape(full.shape)
        probe("strain_nodes", pos.strain_nodes, (nodes, els, mats, v))
    probe("solids_auto", sg.solids_auto, (d,),
          kw={"plot_contours": False, "compute_strains": kind != "quad9"})
    tri = call(pos.mesh2tri, nodes, els)
    for a, b in ((d["nodes"], mo.nodes), (d["elements"], mo.elements),
                 (d["mats"], mo.mats), (d["cons"], mo.cons),
                 (d["loads"], mo.loads)):
        if not np.array_equal(a, b):
            fail("the model was modified by the plotting triangulation")
    del tri


@check("C24", st.tuples(gen.elem_st(), gen.YOUNG, gen.NU, gen.KEY1,
                        st.booleans()).map(list), quick=300,
       rule="every element, interpolation, material and quadrature routine; "
            "non-trivial: not the parent element")
def element_routines(case, ctx):
    el, E, nu, key, rho = case
    k = el["k"]
    x = gen.build_elem(el)
    ctx.label(k)
    ctx.nontriv(el["jit"] or el["aff"] or el["rot"])
    p = [E, nu] + ([2.0] if rho or k in NEEDS_RHO else [])
    u = hash_unit(key, x.size, 1)
    probe("elast_" + k, UEL[k], (x, np.array(p)))
    probe("elast_" + k, UEL[k], (x, p))
    sh = getattr(fem, "shape_" + k)
    dim = x.shape[1]
    pt = tuple(np.full(dim, 0.3))
    N, dN = probe("shape_" + k, sh, pt)
    probe("jacoper", fem.jacoper, (dN, x))
    probe("elast_diff", fem.elast_diff_2d if dim == 2 else fem.elast_diff_3d,
          pt + (x, sh), kw={})
    if k in ("tri3", "tri6", "quad4"):
        probe("str_el", {"tri3": fem.str_el3, "tri6": fem.str_el6,
                         "quad4": fem.str_el4}[k], (x, u))
    if k == "quad9":
        y = x - [[x[:, 0].min() - 1.0, 0]]
        probe("elast_axi_quad9", ue.elast_axi_quad9, (y, [E, nu, 2.0]))
        probe("elast_diff_axi", fem.elast_diff_axi, pt + (y, sh))
    for fn in (fem.umat, fem.elast_mat_2d, fem.elast_mat_axi, fem.elast_mat):
        probe(fn.__name__, fn, (np.array([E, nu]),))
        probe(fn.__name__, fn, ((E, nu),))
    n = 2 + key % 9
    probe("gauss_1d", gau.gauss_1d, (n,))
    probe("gauss_nd", gau.gauss_nd, (2 + key % 3,), kw={"ndim": 1 + key % 3})
    probe("gauss_tri", gau.gauss_tri, (1 + key % 7,))
    probe("gauss_tet", gau.gauss_tet, (1 + key % 10,))
    z = np.array([[0.0, 0.0], [3.0, 4.0]]) + hash_unit(key, 4, 2
                                                       ).reshape(2, 2)
    probe("spring", ue.spring, (z, np.array([E])))
    probe("truss2D", ue.truss2D, (z, np.array([E, 2.0, 3.0])))
    probe("beam2DU", ue.beam2DU, (z, np.array([E, 2.0, 3.0, 0.5])))
    probe("beam2D", ue.beam2D, (z, np.array([E, 2.0, 3.0, 0.5])))
    T = hash_unit(key, 4, 3).reshape(2, 2)
    T = T + T.T
    probe("eigvals", pos.eigvals, (T,))
    probe("rect_grid", pre.rect_grid, (2.0, 1.0, 1 + key % 4, 2))
    probe("reassign_dof_bloch", bl.reassign_dof_bloch,
          (8, [4, 5, 7], [0, 1, 2]))


@check("C24", st.tuples(gen.model_st(nmax=2), c14.truss(nmax=6),
                        gen.KEY1).map(list), quick=50,
       rule="plotting routines do not modify what they draw; non-trivial: "
            "several elements")
def plots(case, ctx):
    c, tc, key = case
    mo = gen.build_model(c)
    d = mo.data()
    n = len(mo.nodes)
    u = hash_unit(key, 2*n, 1).reshape(n, 2)
    E, S = hash_unit(key, 6*n, 2).reshape(2, n, 3)
    t = c14.build(tc)
    s = hash_unit(key, len(t.elements), 3)*10.0**(key % 9 - 4)
    shape = key % 5                  # values of very different sizes
    if shape == 1:
        u, E, S, s = [x*10.0**(14*hash_unit(key, x.size, 4).reshape(x.shape)
                               - 7) for x in (u, E, S, s)]
    elif shape == 2:
        u, E, S, s = [1e5 + 1e-6*x for x in (u, E, S, s)]
    elif shape == 3:
        u[:, key % 2] *= 1e-12
        S[:, key % 3] *= 1e-13
    if key % 3 == 1:
        t.mats[:, :2] *= 10.0**(5*hash_unit(key, 2*len(t.mats), 5
                                            ).reshape(-1, 2))
    ctx.label("values %d" % shape)
    ctx.label(c["mesh"]["k"])
    ctx.nontriv(len(mo.elements) > 1)
    jobs = [(pos.plot_truss, (t.nodes, t.elements, t.mats, s), {}),
            (pos.plot_truss, (t.nodes, t.elements, t.mats), {}),
            (pos.plot_node_field, (u, d["nodes"], d["elements"]),
             {"plt_type": "pcolor" if key % 2 else "contourf"}),
            (pos.plot_node_field, (u[:, 0], d["nodes"], d["elements"]), {}),
            (pos.fields_plot, (d["elements"], d["nodes"], u), {}),
            (pos.fields_plot, (t.elements, t.nodes, u), {})]
    if key % 4 == 0:
        jobs.append((pos.fields_plot, (d["elements"], d["nodes"], u),
                     {"E_nodes": E, "S_nodes": S}))
    for fn, args, kw in jobs:
        before, bkw = copy.deepcopy(args), copy.deepcopy(kw)
        was = settings()
        try:
            call(fn, *args, **kw)
        finally:
            plt.close("all")
        settled(was, fn.__name__)
        for a, b in zip(arrays_in(list(args)) + arrays_in(kw),
                        arrays_in(list(before)) + arrays_in(bkw)):
            if a.dtype != b.dtype or not np.array_equal(a, b):
                fail("{} modified its arguments", fn.__name__)


# --------------------------------------------------------------- histories
NQ = {"tri3": 1, "tri6": 3, "quad4": 2, "quad9": 3}
KIND = {1: "quad4", 2: "tri6", 3: "tri3", 4: "quad9"}


def expected(d):
    """Displacements, strains and stresses from the reference elements."""
    xy, els, mats = d["nodes"][:, 1:3], d["elements"], d["mats"]
    n = len(xy)
    if els[0, 1] == 6:
        K = np.zeros((2*n, 2*n))
        for _, _, m, a, b in els:
            v = xy[b] - xy[a]
            L = np.linalg.norm(v)
            g = np.concatenate([-v, v])/L
            ix = [2*a, 2*a + 1, 2*b, 2*b + 1]
            K[np.ix_(ix, ix)] += mats[m, 0]*mats[m, 1]/L*np.outer(g, g)
    else:
        kind = KIND[els[0, 1]]
        K = np.zeros((2*n, 2*n))
        for e in els:
            c = e[3:]
            ke = ref.stiff(kind, xy[c], ref.plane_stress(*mats[e[2], :2]),
                           NQ[kind])
            ix = np.ravel([(2*i, 2*i + 1) for i in c])
            K[np.ix_(ix, ix)] += ke
    f = np.zeros((n, 2))
    for r in d["loads"]:
        f[int(r[0])] += r[1:3]
    free = (d["cons"] == 0).ravel()
    u = np.zeros(2*n)
    u[free] = np.linalg.solve(K[np.ix_(free, free)], f.ravel()[free])
    u = u.reshape(n, 2)
    if els[0, 1] == 6:
        s = []
        for _, _, m, a, b in els:
            v = xy[b] - xy[a]
            s.append(mats[m, 0]*(u[b] - u[a]) @ v/(v @ v))
        return u, np.array(s), None
    if kind == "quad9":
        return u, None, None
    E, S, cnt = np.zeros((n, 3)), np.zeros((n, 3)), np.zeros((n, 1))
    near = ref.nearest_gp(kind)
    for e in els:
        C = ref.plane_stress(*mats[e[2], :2])
        c = e[3:]
        B = [ref.kin(kind, xy[c], g)[1] for g in ref.GP[kind]]
        for a, i in enumerate(c):
            eps = B[near[a]] @ u[c].ravel()
            E[i] += eps
            S[i] += C @ eps
            cnt[i] += 1
    return u, E/cnt, S/cnt


def affine_model(draw):
    """Plane model whose elements are integrated exactly."""
    kind = draw(st.sampled_from(["quad4", "tri3", "tri6", "quad9"]))
    tri = kind.startswith("tri")
    m = gen.plain_mesh(kind, draw(st.integers(1, 3)),
                       draw(st.integers(1, 2)), grade=draw(gen.KEY),
                       jit=draw(gen.KEY) if tri else 0,
                       diag=draw(gen.KEY) if tri else 0,
                       place=draw(gen.placement_st(gen.logf(-2, 2), False)),
                       np=draw(gen.KEY), ep=draw(gen.KEY), cs=draw(gen.KEY))
    return {"mesh": m, "mats": draw(gen.mats_st(young=gen.logf(-2, 6))),
            "matkey": draw(gen.KEY), "sup": draw(gen.KEY),
            "supkind": draw(st.sampled_from(["pair", "side", "corner"])),
            "load": draw(gen.KEY1), "nload": draw(st.integers(1, 5)),
            "lmag": draw(gen.logf(-2, 3)), "rows": draw(gen.KEY)}


EDITS = ["stiffness", "poisson", "material", "geometry", "shear", "loads",
         "swap loads", "support", "order", "swap mats", "scale loads",
         "renumber"]


@st.composite
def history(draw):
    models = [affine_model(draw) for _ in range(draw(st.integers(1, 2)))]
    if draw(st.booleans()):
        models.append(dict(draw(c14.truss(nmax=6)), truss=True))
    ops = [["tri", i, 0, 0] for i in range(len(models))
           if draw(st.integers(0, 3)) == 2]
    for _ in range(draw(st.integers(2, 7))):
        i = draw(st.integers(0, len(models) - 1))
        k = draw(st.sampled_from(["run"]*5 + ["edit"]*5 + [
            "fail", "fail", "scribble", "twin", "plot", "file", "file",
            "tri", "user", "user", "dense", "dense"]))
        if k == "edit":
            what = draw(st.sampled_from(EDITS))
            again = what == "renumber" and draw(st.booleans())
            if again:
                ops.append(["tri", i, 0, 0])
            ops.append(["edit", i, what, draw(gen.KEY1)])
            if again:
                ops.append(["tri", i, 0, 0])
            ops.append([draw(st.sampled_from(
                ["run", "run", "run", "tri", "dense", "file"])), i,
                draw(st.booleans()), 0])
        elif k == "fail":
            ops.append(["fail", i, draw(st.sampled_from(
                ["clockwise", "type", "flat", "node"])), draw(gen.KEY1)])
        elif k == "plot":
            ops.append(["plot", i, 0, 0])
        else:
            ops.append([k, i, draw(st.booleans()), 0])
    ops.append(["run", 0, True, 0])
    return {"models": models, "ops": ops}


def edit(d, what, key):
    """Change a model in place, keeping it valid."""
    h = hash_unit(key, 8, 7)
    free = np.argwhere(d["cons"] == 0)
    if what == "stiffness":
        d["mats"][key % len(d["mats"]), 0] *= 1.5 + h[0]
    elif what == "poisson":
        if d["elements"][0, 1] == 6:
            d["mats"][:, 1] *= 1.7
        else:
            d["mats"][key % len(d["mats"]), 1] = 0.35*abs(h[0])
    elif what == "material":
        d["elements"][key % len(d["elements"]), 2] = key % len(d["mats"])
    elif what == "geometry":
        d["nodes"][:, 1:3] *= 1.5 + h[:2]*0.5
    elif what == "shear":
        d["nodes"][:, 1] += 0.5*h[0]*d["nodes"][:, 2]
    elif what == "loads":
        d["loads"][key % len(d["loads"]), 1:] += h[1:3]*np.abs(
            d["loads"][:, 1:]).max()
    elif what == "scale loads":
        d["loads"][:, 1:] *= 2 + h[0]
    elif what == "swap loads":
        d["loads"][:, 0] = np.roll(d["loads"][:, 0], 1)
    elif what == "support":
        if len(free) > 3:
            i, j = free[key % len(free)]
            d["cons"][i, j] = -1
    elif what == "order":
        q = np.arange(len(d["elements"]))[::-1]
        d["elements"][:, 2:] = d["elements"][q, 2:]
    elif what == "renumber":         # two nodes exchange their numbers
        n = len(d["nodes"])
        i, j = key % n, (key//n) % n
        p = np.arange(n)
        p[[i, j]] = j, i
        d["nodes"][[i, j], 1:] = d["nodes"][[j, i], 1:]
        d["cons"][[i, j]] = d["cons"][[j, i]]
        d["elements"][:, 3:] = p[d["elements"][:, 3:]]
        d["loads"][:, 0] = p[d["loads"][:, 0].astype(int)]
    elif what == "swap mats":
        d["mats"][...] = d["mats"][::-1].copy()


def compare(got, want, what):
    for g, w, name in zip(got, want, ("displacements", "strains",
                                      "stresses")):
        if w is None:
            continue
        g = arr(g, w.shape, name)
        close(g, w, "{}: {}".format(what, name), rtol=1e-6)


def run_model(d, strains, plots=False):
    """(arguments are the live arrays of the user)"""
    if d["elements"][0, 1] == 6:
        u = call(sg.solids_auto, d, plot_contours=plots)
        s = call(pos.stress_truss, d["nodes"], d["elements"], d["mats"],
                 u)
        return [u, s]
    strains = strains and d["elements"][0, 1] != 4
    r = call(sg.solids_auto, d, plot_contours=plots, compute_strains=strains)
    return list(tup(r, 3, "solids_auto")) if strains else [r]


def run_dense(d, first=None):
    """The steps of an analysis, with the dense assembly."""
    op, bc, neq = tup(call(ass.DME, d["cons"], d["elements"]), 3, "DME")
    K, _ = tup(call(ass.assembler, d["elements"], d["mats"], d["nodes"], neq,
                    op, sparse=False), 2, "assembler")
    rhs = call(ass.loadasem, d["loads"], bc, neq)
    u = call(sol.static_sol, K, rhs)
    return [call(pos.complete_disp, bc, d["nodes"], u)]


def run_files(d, strains):
    """The model goes through the files of one folder, always the same."""
    root = os.path.join(os.environ["VERIF_SCRATCH"], "hist%d" % os.getpid())
    os.makedirs(root, exist_ok=True)
    for name, t in (("nodes", np.column_stack([d["nodes"], d["cons"]])),
                    ("mater", d["mats"]), ("eles", d["elements"]),
                    ("loads", d["loads"])):
        np.savetxt(os.path.join(root, name + ".txt"), t,
                   fmt="%d" if name == "eles" else "%.17g")
    strains = strains and d["elements"][0, 1] not in (4, 6)
    r = call(sg.solids_GUI, plot_contours=False, compute_strains=strains,
             folder=root + "/")
    return list(tup(r, 3, "solids_GUI")) if strains else [r]


def own_element(d, dense, what):
    """Assembly of the same mesh with an element of the user."""
    nodes, els, mats = d["nodes"], d["elements"], d["mats"]
    n2 = 2*(els.shape[1] - 3)

    def uel(coord, par):
        K = 3.0*np.eye(n2) + 0.5
        return K, 2*K
    op, _, neq = tup(call(ass.DME, d["cons"], els), 3, "DME")
    K, M = tup(call(ass.assembler, els, mats, nodes, neq, op,
                    sparse=not dense, uel=uel), 2, "assembler")
    want = np.zeros((neq, neq))
    free = -np.ones(d["cons"].size, dtype=int)
    free[(d["cons"] == 0).ravel()] = np.arange(neq)
    for e in els:
        ix = free[np.ravel([(2*i, 2*i + 1) for i in e[3:]])]
        on = ix >= 0
        want[np.ix_(ix[on], ix[on])] += uel(0, 0)[0][np.ix_(on, on)]
    close(arr(K, (neq, neq), "K"), want, what + ": stiffness", rtol=1e-12)
    close(arr(M, (neq, neq), "M"), 2*want, what + ": mass", rtol=1e-12)


def drawn_mesh(tri, d, what):
    """The triangles lie in the elements and cover them."""
    xy = d["nodes"][:, 1:3]
    els = [set(e) for e in d["elements"][:, 3:].tolist()]
    n = {3: 3, 6: 3, 4: 4, 9: 4}[len(d["elements"][0]) - 3]
    area = 0.0
    for e in d["elements"]:
        p = xy[e[3:3 + n]]
        area += 0.5*sum(
            p[k - 1, 0]*p[k, 1] - p[k - 1, 1]*p[k, 0] for k in range(n))
    got = 0.0
    for t in np.asarray(tri).tolist():
        if not any(set(t) <= e for e in els):
            fail("{}: triangle {} is in no element", what, t)
        (ax, ay), (bx, by), (cx, cy) = xy[t]
        got += 0.5*((bx - ax)*(cy - ay) - (by - ay)*(cx - ax))
    close(np.array([got]), np.array([area]), what + ": triangulated area",
          rtol=1e-9, scale=np.ptp(xy, axis=0).prod()
          + np.abs(xy).max()**2*1e-3)


@check("C24", history(), quick=250,
       rule="sequence of runs, in-place edits, failures and plots in one "
            "process, each result against an independent solution; "
            "non-trivial: at least one edit and two runs of different models "
            "or states")
def sequence(case, ctx):
    live = []
    for c in case["models"]:
        if c.get("truss"):
            t = c14.build(c)
            live.append({"nodes": t.nodes, "cons": t.cons,
                         "elements": t.elements, "mats": t.mats,
                         "loads": t.loads})
        else:
            live.append(gen.build_model(c).data())
    results, states = [], set()
    plots = 0
    try:
        for k, (op, i, a, b) in enumerate(case["ops"]):
            d = live[i]
            what = "operation %d (%s)" % (k, op)
            ctx.label(op if op != "edit" else "edit " + a)
            if op == "edit":
                edit(d, a, b)
                continue
            if op == "scribble":
                for g, _ in results:
                    scribble(g)
                results = []
                continue
            shadow = copy.deepcopy(d)
            env = settings()
            if op == "fail":
                bad = copy.deepcopy(d)
                e = b % len(bad["elements"])
                plane = d["elements"][0, 1] != 6
                if a == "clockwise" and plane:
                    kind = KIND[d["elements"][0, 1]]
                    from .c27 import FLIP
                    bad["elements"][e, 3:] = bad["elements"][e, 3:][
                        FLIP[kind]]
                elif a == "flat" and plane:
                    bad["nodes"][:, 1] = bad["nodes"][:, 2]
                elif a == "node":
                    bad["elements"][e, 3] = len(bad["nodes"]) + 5
                else:
                    bad["elements"][e, 1] = 77
                was = copy.deepcopy(bad)
                if b % 3 == 1:
                    bop, _, neq = tup(call(ass.DME, d["cons"],
                                           d["elements"]), 3, "DME")
                    raises((ValueError, IndexError), ass.assembler,
                           bad["elements"], bad["mats"], bad["nodes"], neq,
                           bop, sparse=False)
                else:
                    raises((ValueError, IndexError), sg.solids_auto, bad,
                           plot_contours=False)
                if not kept(was, bad):
                    fail("{} modified the model before it was refused", what)
                got = None
            elif op == "twin":
                got = run_model(copy.deepcopy(d), a)
            elif op == "tri":
                got = None
                if d["elements"][0, 1] != 6:
                    t = call(pos.mesh2tri, d["nodes"], d["elements"])
                    close(t.x, shadow["nodes"][:, 1], what + ": x of the "
                          "triangulation", rtol=1e-12)
                    close(t.y, shadow["nodes"][:, 2], what + ": y of the "
                          "triangulation", rtol=1e-12)
                    drawn_mesh(t.triangles, d, what)
            elif op == "user":
                own_element(d, a, what)
                got = None
            elif op == "dense":
                got = run_dense(d)
            elif op == "file":
                got = run_files(d, a)
            else:
                if op == "plot":
                    plots += 1
                got = run_model(d, a, plots=op == "plot" and plots < 2)
            if not kept(shadow, d):
                fail("{} modified the model", what)
            settled(env, what)
            for g, keep in results:
                if not same(keep, g):
                    fail("{} changed an earlier result", what)
            if got is None:
                continue
            for o in arrays_in(got):
                if any(np.shares_memory(o, x) for x in arrays_in(d)):
                    fail("{}: result shares memory with the model", what)
                if any(np.shares_memory(o, x)
                       for g, _ in results for x in arrays_in(g)):
                    fail("{}: result shares memory with an earlier one",
                         what)
            states.add((i, repr([shadow[q].tolist() for q in sorted(shadow)])))
            compare(got, expected(shadow), what)
            results.append((got, copy.deepcopy(got)))
    finally:
        if plots:
            plt.close("all")
    ctx.nontriv(len(states) > 1)
