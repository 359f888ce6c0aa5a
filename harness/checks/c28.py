"""C28 - drawings of trusses."""
import os
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.collections import LineCollection
from matplotlib.colors import to_rgba

import solidspy.postprocesor as pos

from .. import gen
from ..core import arr, call, check, close, fail, hash_perm, hash_unit
from . import c14

SCRATCH = os.environ.get("VERIF_SCRATCH")
SEISMIC = plt.cm.seismic(np.linspace(0, 1, 256))


@st.composite
def drawing(draw):
    return {"truss": draw(st.sampled_from([8, 8, 8, 9]).flatmap(
                lambda n: c14.truss(nmax=n))),
            "stress": draw(st.sampled_from(
                ["none", "any", "any", "solved", "solved", "zero", "tension",
                 "compression", "equal", "int", "one"])),
            "skey": draw(gen.KEY1), "mag": draw(st.one_of(gen.logf(-25, 15), gen.logf(-25, 15),
                                  gen.logf(-200, 200))),
            "areas": draw(st.sampled_from(["any", "any", "equal", "near",
                                           "spare"])),
            "unit": draw(gen.logf(-12, 4)), "cols": draw(st.booleans()),
            "title": draw(st.sampled_from([None, "A truss", "$E_1$"])),
            "window": draw(st.sampled_from([None, None, "members"])),
            "widths": draw(st.sampled_from([None, None, [1, 6], [0.25, 2.5],
                                       [0.05, 0.5], [0.02, 8],
                                       [1, 40]]
                                           )),
            "prior": draw(st.sampled_from([[], [], [1], [3, 7]])),
            "double": draw(gen.KEY) if draw(st.integers(0, 3)) == 2 else 0,
            "twice": draw(st.booleans()), "names": draw(gen.KEY),
            "save": draw(st.sampled_from([False]*7 + [True]))}


def segments(ax):
    """(points, colour, width) of everything drawn in the axes, in order."""
    out = []
    for ln in ax.get_lines():
        if ln.get_linestyle() != "-":
            fail("line style {!r}", ln.get_linestyle())
        xy = np.asarray(ln.get_xydata(), dtype=float)
        out.append((xy, to_rgba(ln.get_color(), ln.get_alpha()),
                    float(ln.get_linewidth())))
    for col in ax.collections:
        if isinstance(col, LineCollection):
            col.update_scalarmappable()
            seg = col.get_segments()
            rgb, lw = col.get_edgecolors(), col.get_linewidths()
            for k, s in enumerate(seg):
                out.append((np.asarray(s), tuple(rgb[k % len(rgb)]),
                            float(lw[k % len(lw)])))
    return out


def shade(rgba):
    """Place of a colour in the blue-white-red scale, 0 to 1."""
    d = np.abs(SEISMIC - np.asarray(rgba)).max(axis=1)
    if d.min() > 0.02:
        return None
    k = np.flatnonzero(d < d.min() + 1e-9)
    return float(k.mean()/255)


def build(c):
    t = c14.build(c["truss"])
    t.nodes[:, 0] = gen.elem_ids(len(t.nodes), c["names"])
    nel = len(t.elements)
    if c.get("double"):      # some members side by side
        on = np.flatnonzero(hash_unit(c["double"], nel, 3) > 0.3)
        p = hash_perm(c["double"], nel + len(on), 4)
        t.mem = np.vstack([t.mem, t.mem[on]])[p]
        e = np.vstack([t.elements, t.elements[on]])[p]
        e[:, 0] = gen.elem_ids(len(e), c["double"])
        e[:, 2] = (e[:, 2] + np.arange(len(e))) % len(t.mats)
        t.elements, t.mid, nel = e, e[:, 2], len(e)
    mats = t.mats.astype(float)
    h = np.abs(hash_unit(c["skey"], len(mats), 1))
    if c["areas"] == "equal":
        mats[:, 1] = 0.3*c["unit"]
    elif c["areas"] == "near":
        mats[:, 1] = c["unit"]*(1 + (0.05, 1e-3, 1e-5)[c["skey"] % 3]*h)
    elif c["areas"] == "spare":          # a profile nobody uses
        mats = np.vstack([mats, 3*mats[:1]])
        mats[:, 1] *= c["unit"]
    else:
        mats[:, 1] = c["unit"]*(0.1 + h)
    if c["skey"] % 4 == 2:           # many profiles
        more = len(mats) + 2*c["truss"]["rows"] + 3
        h = np.abs(hash_unit(c["skey"], more, 1))
        mats = np.column_stack([np.resize(mats[:, 0], more),
                                mats[0, 1]*(1 + h)]
                               + [np.resize(q, more) for q in mats.T[2:]])
        if c["areas"] == "equal":
            mats[:, 1] = mats[0, 1]
        t.elements[:, 2] = (hash_unit(c["skey"], nel, 6) + 1)/2*more
        t.mid = t.elements[:, 2]
    if c["cols"] and mats.shape[1] == 2:
        mats = np.column_stack([mats, 1 + h if len(h) == len(mats)
                                else np.ones(len(mats))])
    s = c["mag"]*hash_unit(c["skey"], nel, 2)
    kind = c["stress"]
    if kind == "none":
        s = None
    elif kind == "zero":
        s = np.zeros(nel)
    elif kind == "tension":
        s = np.abs(s)
    elif kind == "compression":
        s = -np.abs(s)
    elif kind == "equal":
        s = np.full(nel, s[0] or 1.0)
    elif kind == "one":
        s = np.where(np.arange(nel) == c["skey"] % nel, c["mag"], 0.0)
    elif kind == "int":
        s = np.round(300*hash_unit(c["skey"], nel, 2)).astype(int)
    elif kind == "solved":
        u = c14.solve(t, mats=mats)
        s = arr(call(pos.stress_truss, t.nodes, t.elements, mats, u), (nel,),
                "stress_truss")
    return t, mats, s


def judge(fig, t, mats, s, kw, what):
    axes = [a for a in fig.axes if segments(a)]
    if len(axes) != 1:
        fail("{}: {} drawings in the figure", what, len(axes))
    ax = axes[0]
    seg = segments(ax)
    nel = len(t.mem)
    if len(seg) != nel:
        fail("{}: {} lines for {} members", what, len(seg), nel)
    # match each member with its line
    size = float(np.ptp(t.xy, axis=0).max())
    left = list(range(nel))
    of = []
    A = mats[:, 1].astype(float)
    a = A[t.elements[:, 2]]
    lo, hi = kw.get("min_val", 0.5), kw.get("max_val", 4)
    wide = lo + (hi - lo)*(a - A.min())/(np.ptp(A) or 1.0)

    def misfit(e, k):
        q = shade(seg[k][1])
        d = 0 if s is None or q is None else abs(
            q - 0.5 - 0.5*s[e]/(np.abs(s).max() or 1.0))
        return d + abs(seg[k][2] - wide[e])
    for e, (i, j) in enumerate(t.mem):
        want = t.xy[[i, j]]
        for k in sorted(left, key=lambda k: misfit(e, k)) if len(
                {frozenset(m) for m in t.mem}) < nel else left:
            g = seg[k][0]
            if g.shape == (2, 2) and min(
                    np.abs(g - want).max(),
                    np.abs(g[::-1] - want).max()) <= 1e-9*size \
                    + 1e-12*np.abs(want).max():
                of.append(k)
                left.remove(k)
                break
        else:
            fail("{}: no line joins the ends {} of member {}", what,
                 want.tolist(), e)
    col = np.array([seg[k][1] for k in of], dtype=float)
    lw = np.array([seg[k][2] for k in of])
    if not np.all(col[:, 3] == 1):
        fail("{}: members are transparent: {}", what, col)
    if s is None:
        if np.abs(col - col[0]).max() > 0:
            fail("{}: several colours without stresses", what)
    else:
        m = np.abs(s).max()
        for e in range(nel):
            want = 0.5 if m == 0 else 0.5 + 0.5*s[e]/m
            got = shade(col[e])
            if got is None or abs(got - want) > 0.006:
                fail("{}: member {} with stress {} (largest {}) drawn in "
                     "colour {}, place {} of the scale instead of {}", what,
                     e, s[e], m, col[e], got, want)
    if 0 < A.max() - A.min() < 3e-6*A.max():
        pass                              # equal, or not
    elif A.max() > A.min():
        close(lw, lo + (hi - lo)*(a - A.min())/(A.max() - A.min()),
              what + ": line widths", rtol=1e-6)
    elif not (np.ptp(lw) <= 1e-9*lw[0] and lw[0] > 0):
        fail("{}: widths {} for equal members", what, lw)
    if ax.get_aspect() not in (1, 1.0, "equal"):
        fail("{}: distorted drawing (aspect {})", what, ax.get_aspect())
    x0, x1 = sorted(ax.get_xlim())
    y0, y1 = sorted(ax.get_ylim())
    tol = 1e-6*size
    if t.xy[:, 0].min() < x0 - tol or t.xy[:, 0].max() > x1 + tol \
            or t.xy[:, 1].min() < y0 - tol or t.xy[:, 1].max() > y1 + tol:
        fail("{}: part of the truss is out of view", what)
    if ax.get_title() != (kw.get("title") or ""):
        fail("{}: title {!r}", what, ax.get_title())
    if "figtitle" in kw and fig.get_label() != kw["figtitle"]:
        fail("{}: window {!r}", what, fig.get_label())


@check("C28", drawing(), quick=250,
       rule="drawing of a generated truss with its stresses and profiles; "
            "non-trivial: stresses of both signs and different areas")
def draw_truss(c, ctx):
    t, mats, s = build(c)
    kw = {}
    if c["title"]:
        kw["title"] = c["title"]
    if c["window"]:
        kw["figtitle"] = c["window"]
    if c["widths"]:
        kw["min_val"], kw["max_val"] = c["widths"]
    ctx.label("stress " + c["stress"], "areas " + c["areas"])
    ctx.nontriv(s is not None and np.ptp(np.sign(s)) == 2
                and np.ptp(mats[:, 1]) > 0)
    inputs = [t.nodes.copy(), t.elements.copy(), mats.copy(),
              None if s is None else s.copy()]
    live = [x if x is None else x.copy() for x in inputs]
    plt.close("all")
    root = tempfile.mkdtemp(prefix="truss-", dir=SCRATCH)
    cwd = os.getcwd()
    try:
        os.chdir(root)
        for p in c["prior"]:
            plt.figure(p)
        if c["save"]:
            kw.update(savefigs=True)
            name = None                        # a name of its choice
            if c["skey"] % 2:
                kw["filename"] = name = "members.png"
        for r in range(2 if c["twice"] and not c["window"] else 1):
            old = set(plt.get_fignums())
            if s is None:
                call(pos.plot_truss, *live[:3], **kw)
            else:
                call(pos.plot_truss, *live[:3], stresses=live[3], **kw)
            new = sorted(set(plt.get_fignums()) - old)
            if len(new) != 1:
                fail("{} new figures for one drawing", len(new))
            judge(plt.figure(new[0]), t, mats, s, kw, "drawing %d" % r)
        for p in c["prior"]:
            if segments_of(plt.figure(p)):
                fail("an unrelated open figure was drawn on")
        got = sorted(os.listdir(root))
        if c["save"] and name is None and len(got) == 1:
            name = got[0]
        if got != ([name] if c["save"] else []):
            fail("files written: {}", got)
        if c["save"] and os.path.getsize(name) == 0:
            fail("empty figure file")
    finally:
        os.chdir(cwd)
        plt.close("all")
        shutil.rmtree(root)
    for a, b, name in zip(live, inputs, ("nodes", "elements", "profiles",
                                         "stresses")):
        if a is not None and not np.array_equal(a, b):
            fail("the {} were modified by the drawing", name)


def segments_of(fig):
    return [x for a in fig.axes for x in segments(a)]
