"""C25 - unstable models are reported, sound ones are not."""
import os
import tempfile
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import gen
from .. import sut as sg
from ..core import call_out, check, fail, hash_unit, hash_perm
from . import c14
from .c21 import write_model

SCRATCH = os.environ["VERIF_SCRATCH"]
MSG = "not in equilibrium"
FORCE = gen.logf(-16, 12)
# Bars at a vanishing but non-zero angle to the axes give a matrix that is
# only nearly singular and whose mechanism the solver can follow with a small
# residual; the property is about exact mechanisms, so the angles are either
# multiples of 45 degrees or clearly inclined.
PLAIN_ANGLE = st.one_of(st.sampled_from([0, 45, 90, 135, 180, 270, -45]),
                        st.integers(5, 85).map(float),
                        st.tuples(st.integers(0, 3), st.integers(50, 850)).map(
                            lambda t: 90.0*t[0] + t[1]/10))


def output(d, files):
    """Standard output of the workflow; a numerical failure of the singular
    system is not expected to be an exception."""
    if not files:
        return call_out(sg.solids_auto, d, plot_contours=False)[1]
    root = tempfile.mkdtemp(prefix="eq-", dir=SCRATCH)
    try:
        class M:
            nodes, cons, mats = d["nodes"], d["cons"], d["mats"]
            elements, loads = d["elements"], d["loads"]
        f = {"num": "%r", "ints": "%d", "sep": " ", "head": "", "tail": "",
             "lead": "", "gap": "", "eol": "\n", "last": True}
        write_model(root, M, [f]*4)
        return call_out(sg.solids_GUI, plot_contours=False, folder=root)[1]
    finally:
        shutil.rmtree(root)


@st.composite
def unstable(draw):
    c = draw(gen.model_st(nmax=3))
    c["mode"] = draw(st.sampled_from(["free", "pin", "slide", "piece"]))
    c["lmag"] = draw(FORCE)
    c["dir"] = draw(gen.ANGLE)
    c["files"] = draw(st.sampled_from([False, False, True]))
    if draw(st.integers(0, 5)) == 3:             # a single element
        c["mesh"].update(nx=1, ny=1, hole=-1, k="quad4", mid=0)
    return c


@check("C25", unstable(), quick=400,
       rule="plane model with rigid motions left free and excited; "
            "non-trivial: several elements")
def mechanism(c, ctx):
    mo = gen.build_model(c)
    d = mo.data()
    xy = d["nodes"][:, 1:3].copy()
    n = len(xy)
    cons = np.zeros((n, 2), dtype=int)
    mode = c["mode"]
    size = mo.mesh.size
    cen = xy.mean(axis=0)
    f = np.zeros((n, 2))
    ang = gen.rotm(c["dir"]) @ np.array([1.0, 0.0])
    if mode == "free":
        f[:] = ang*(1 + 0.5*hash_unit(c["load"], n, 1)[:, None])/n
    elif mode == "pin":
        a = int(np.argmin(np.abs(xy - cen).sum(axis=1)))
        cons[a] = -1
        z = xy - xy[a]
        f = np.column_stack([-z[:, 1], z[:, 0]])/size
    elif mode == "slide":
        k = c["load"] % 2
        cons[:, k] = mo.cons[:, k]
        cons[0, k] = cons[-1, k] = -1
        f[:, 1 - k] = (1 + 0.5*hash_unit(c["load"], n, 1))/n
        f[:, k] = 0.3*hash_unit(c["load"], n, 2)
    else:
        # a second, loose, copy of the body beside the supported one
        d["nodes"] = np.vstack([d["nodes"], d["nodes"] + [n, 0, 0]])
        d["nodes"][n:, 1] += 2*size
        e2 = d["elements"].copy()
        e2[:, 0] += len(e2)
        e2[:, 3:] += n
        d["elements"] = np.vstack([d["elements"], e2])
        f = np.vstack([hash_unit(c["load"], 2*n, 3).reshape(n, 2),
                       np.tile(ang/n, (n, 1))])
        cons = np.vstack([mo.cons, np.zeros((n, 2), int)])
    d["cons"] = cons
    f = c["lmag"]*f
    d["loads"] = np.column_stack([np.arange(len(f)), f])
    ctx.label(c["mesh"]["k"], mode, "files" if c["files"] else "arrays")
    ctx.nontriv(len(mo.elements) > 1)
    out = output(d, c["files"])
    if MSG not in out:
        fail("a mechanism ({}) excited by the loads is not reported: {}",
             mode, out[-300:])


@st.composite
def loose_truss(draw):
    return {"kind": draw(st.sampled_from(["collinear", "square", "free",
                                          "spring"])),
            "n": draw(st.integers(2, 6)), "L": draw(gen.LENGTH),
            "rot": draw(PLAIN_ANGLE), "E": draw(gen.YOUNG),
            "A": draw(gen.logf(-4, 0)), "F": draw(FORCE),
            "np": draw(gen.KEY), "key": draw(gen.KEY1)}


@check("C25", loose_truss(), quick=400,
       rule="truss mechanisms; non-trivial: not aligned with the axes")
def loose(c, ctx):
    kind, n = c["kind"], c["n"]
    if kind in ("collinear", "free", "spring"):
        s = np.arange(n + 1) + 0.3*hash_unit(c["key"], n + 1, 1)
        xy = np.column_stack([s, 0*s])
        mem = np.column_stack([np.arange(n), np.arange(1, n + 1)])
        cons = np.zeros((n + 1, 2), dtype=int)
        f = np.zeros((n + 1, 2))
        if kind == "free":
            f[:, 0] = 1.0
            f[n//2, 1] = 0.5
        else:
            cons[0] = cons[-1] = -1
            f[1:-1, 1] = 1.0
    else:
        # n square bays without diagonals, clamped at the base
        xy = np.array([[i, j] for j in range(n) for i in range(2)], float)
        mem = [[2*j, 2*j + 2] for j in range(n - 1)]
        mem += [[2*j + 1, 2*j + 3] for j in range(n - 1)]
        mem += [[2*j, 2*j + 1] for j in range(1, n)]
        mem = np.array(mem)
        cons = np.zeros((2*n, 2), dtype=int)
        cons[:2] = -1
        f = np.zeros((2*n, 2))
        f[-1, 0] = 1.0
        f[2:, 1] = 0.3*hash_unit(c["key"], 2*n - 2, 2)
    R = gen.rotm(c["rot"])
    xy, f = c["L"]*xy @ R.T, c["F"]*f @ R.T
    p = hash_perm(c["np"], len(xy), 3)
    inv = np.argsort(p)
    t = 5 if kind == "spring" else 6
    els = np.column_stack([gen.elem_ids(len(mem), c["np"]),
                           np.full(len(mem), t),
                           np.zeros(len(mem), int), inv[mem]])
    mats = np.array([[c["E"]]]) if t == 5 else \
        np.array([[c["E"], c["A"]*c["L"]**2]])
    d = {"nodes": np.column_stack([np.arange(len(xy)), xy[p]]),
         "cons": cons[p], "elements": els, "mats": mats,
         "loads": np.column_stack([np.arange(len(xy)), f[p]])}
    ctx.label(kind)
    ctx.nontriv(c["rot"] % 90)
    out = output(d, False)
    if MSG not in out:
        fail("a truss mechanism ({}) is not reported: {}", kind, out[-300:])


@check("C25", st.tuples(gen.model_st(nmax=4), FORCE, st.booleans()
                        ).map(list), quick=400,
       rule="sound plane model in any units; non-trivial: not in unit units")
def sound(case, ctx):
    c, F, files = case
    c["lmag"] = F
    mo = gen.build_model(c)
    ctx.label(c["mesh"]["k"], c["supkind"], "files" if files else "arrays")
    ctx.nontriv(F != 1 or c["mats"][0][0] != 1)
    out = output(mo.tables(), files)
    if MSG in out:
        fail("a sound model is reported as unstable")


@check("C25", st.tuples(c14.truss(), FORCE).map(list), quick=300,
       rule="sound truss in any units; non-trivial: several members")
def sound_truss(case, ctx):
    c, F = case
    t = c14.build(c)
    d = {"nodes": t.nodes, "cons": t.cons, "elements": t.elements,
         "mats": t.mats, "loads": t.loads.copy()}
    m = np.abs(d["loads"][:, 1:]).max()
    if m > 0:
        d["loads"][:, 1:] *= F/m
    ctx.nontriv(len(d["elements"]) > 1)
    ctx.label("%d members" % min(len(d["elements"]), 12))
    out = output(d, False)
    if MSG in out:
        fail("a sound truss is reported as unstable")


@check("C25", gen.model_st(nmax=2), quick=60,
       rule="sound model without loads; non-trivial: all")
def unloaded(c, ctx):
    mo = gen.build_model(c)
    d = mo.data()
    d["loads"][:, 1:] = 0
    ctx.nontriv()
    if MSG in output(d, False):
        fail("an unloaded sound model is reported as unstable")
