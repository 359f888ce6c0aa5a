"""C21 - the file-driven workflow equals the in-memory one."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import solidspy.preprocesor as pre

from .. import gen
from .. import sut as sg
from ..core import arr, call, check, close, fail, hash_perm, hash_unit, tup
from . import c14

SCRATCH = os.environ["VERIF_SCRATCH"]
NAMES = ["nodes.txt", "mater.txt", "eles.txt", "loads.txt"]
FMT = ["%r", "%.17g", "%.17e", "%+.17E", "% .20g"]


@st.composite
def fmt_st(draw):
    return {"num": draw(st.sampled_from(FMT)),
            "ints": draw(st.sampled_from(["%d", "%d", "%.1f", "%e"])),
            "sep": draw(st.sampled_from([" ", " ", "\t", "    ", " \t "])),
            "head": draw(st.sampled_from(["", "# id x y\n", "\n", "#\n\n",
                                          "   # id\n  \n", "\t#\n",
                                          "# presión (ñandú) – µm\n"])),
            "tail": draw(st.sampled_from(["", " # comment", "   ", "#c",
                                          " # Ω é"])),
            "lead": draw(st.sampled_from(["", " ", "\t"])),
            "gap": draw(st.sampled_from(["", "\n", "# next\n", "  # next\n",
                                         "  \n"])),
            "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "last": draw(st.booleans())}


def write_table(path, a, f, ints=False, icols=()):
    rows = []
    for k, r in enumerate(a):
        cells = []
        for j, v in enumerate(r):
            if ints:
                cells.append("%d" % v)
            elif j in icols:
                cells.append(f["ints"] % v)
            elif f["num"] == "%r":
                cells.append(repr(float(v)))
            else:
                cells.append(f["num"] % v)
        rows.append(f["lead"] + f["sep"].join(cells) + f["tail"])
        if f["gap"] and k % 3 == 1:
            rows[-1] += "\n" + f["gap"].rstrip("\n")
    text = f["head"] + "\n".join(rows) + ("\n" if f["last"] else "")
    with open(path, "w", newline="", encoding="utf-8") as h:
        h.write(text.replace("\n", f["eol"]))


SPELL = ["abs", "abs/", "rel", "rel/", "dot", "empty", "./rel", "up", "parent"]
DIRS = ["job", "my job", "a.b", "trabajo-ñ", "deep/er/job", "x" * 40,
        "run.", "~job", "$HOME", "50%", "a#b", " odd ", "back\\slash"]


def spelled(root, sub, how):
    """(working directory, folder argument)"""
    full = os.path.join(root, sub)
    if how == "parent":
        inner = os.path.join(full, "inner")
        os.makedirs(inner, exist_ok=True)
        return inner, ".."
    return {"abs": (root, full), "abs/": (root, full + "/"),
            "rel": (root, sub), "rel/": (root, sub + "/"),
            "dot": (full, "."), "empty": (full, ""),
            "./rel": (root, "./" + sub), "up": (
                full, os.path.relpath(root, full) + "/" + sub + "//")}[how]


class Inside:
    def __init__(self, sub):
        self.sub = sub

    def __enter__(self):
        self.old = os.getcwd()
        self.root = tempfile.mkdtemp(prefix="job-", dir=SCRATCH)
        os.makedirs(os.path.join(self.root, self.sub))
        return self.root

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.root)


def snapshot(d):
    out = {}
    for name in sorted(os.listdir(d)):
        p = os.path.join(d, name)
        if os.path.isfile(p):
            with open(p, "rb") as h:
                out[name] = h.read()
    return out


def write_model(d, mo, fm):
    tab = np.hstack([mo.nodes, mo.cons])
    write_table(os.path.join(d, "nodes.txt"), tab, fm[0], icols=(0, 3, 4))
    write_table(os.path.join(d, "mater.txt"), mo.mats, fm[1])
    write_table(os.path.join(d, "eles.txt"), mo.elements, fm[2], ints=True)
    write_table(os.path.join(d, "loads.txt"), mo.loads, fm[3], icols=(0,))
    return tab


@check("C21", st.tuples(gen.model_st(nmax=3), st.lists(
    fmt_st(), min_size=4, max_size=4), st.sampled_from(SPELL),
    st.sampled_from(DIRS), st.booleans()).map(list), quick=500,
       rule="model written to files, run from them and from arrays; "
            "non-trivial: unusual format or folder spelling")
def files(case, ctx):
    c, fm, how, sub, strains = case
    mo = gen.build_model(c)
    kind = c["mesh"]["k"]
    strains = strains and kind != "quad9"
    if fm[0]["lead"] and c["rows"] % 2:
        # labels of the nodes: any numbers, the rows keep their order
        n = len(mo.nodes)
        mo.nodes[:, 0] = c["rows"] % 3 + hash_perm(c["rows"], n, 71)
        ctx.label("node labels")
    if fm[1]["lead"] and c["rows"] % 3 == 1:     # very many rows
        k = (50, 300, 1700)[c["rows"] % 7 % 3]
        mo.loads = np.repeat(mo.loads, k, axis=0)
        mo.loads[:, 1:] /= k
        ctx.label("many rows")
    want = call(sg.solids_auto, mo.data(), plot_contours=False,
                compute_strains=strains)
    with Inside(sub) as root:
        full = os.path.join(root, sub)
        tab = write_model(full, mo, fm)
        before = snapshot(full)
        cwd, folder = spelled(root, sub, how)
        os.chdir(cwd)
        rn, rm, re_, rl = tup(call(pre.readin, folder), 4, "readin")
        got = call(sg.solids_GUI, plot_contours=False,
                   compute_strains=strains, folder=folder)
        after = snapshot(full)
        rest = [f for f in os.listdir(root) if f != sub.split("/")[0]]
    if after != before:
        fail("files of the folder changed: {} -> {}", sorted(before),
             sorted(after))
    if rest:
        fail("files left beside the folder: {}", rest)
    for g, w, name in ((rn, tab, "nodes"), (rm, mo.mats, "mats"),
                       (re_, mo.elements, "elements"),
                       (rl, mo.loads, "loads")):
        g = arr(g, w.shape, name, "i" if name == "elements" else "f")
        if not np.array_equal(g, w):
            close(g, w, name + " read", rtol=1e-15)
    n = len(mo.nodes)
    ctx.label(kind, how, "1 element" if len(mo.elements) == 1 else
              "elements", "1 load" if len(mo.loads) == 1 else "loads",
              "strains" if strains else "no strains")
    ctx.nontriv(how != "abs" or any(f["tail"] or f["head"] for f in fm))
    if strains:
        got, want = tup(got, 3, "solids_GUI"), tup(want, 3, "solids_auto")
    else:
        got, want = [got], [want]
    for g, w, k, name in zip(got, want, (2, 3, 3),
                             ("displacements", "strains", "stresses")):
        w = arr(w, (n, k), name)
        close(arr(g, (n, k), name), w, name + " from files", rtol=1e-9)


@check("C21", st.tuples(c14.truss(nmax=6), st.lists(
    fmt_st(), min_size=4, max_size=4), st.sampled_from(SPELL),
    st.sampled_from(DIRS), st.sampled_from(["bars", "bars", "springs", "both",
                                            "one"])).map(list), quick=200,
       rule="trusses and springs, with tables of one and of several columns, "
            "written to files and run from them and from arrays; non-trivial: "
            "several profiles")
def members(case, ctx):
    c, fm, how, sub, what = case
    t = c14.build(c)
    k = t.mats[t.mid, 0]*t.mats[t.mid, 1]/c14.elongation(t, 0*t.xy)[1]
    which = np.arange(len(k)) % 2 == 0
    if what == "springs":
        t.mats, t.elements[:, 2] = k[:, None], np.arange(len(k))
        t.elements[:, 1] = 5
    elif what == "one":
        t.mats, t.elements[:, 2] = k[:1, None], 0
        t.elements[:, 1] = 5
    elif what == "both":
        own = np.ones((len(k), t.mats.shape[1]))
        own[:, 0] = k
        t.elements[which, 1] = 5
        t.elements[which, 2] = len(t.mats) + np.flatnonzero(which)
        t.mats = np.vstack([t.mats, own])
    ctx.label(what, how)
    ctx.nontriv(len(t.mats) > 1)
    want = call(sg.solids_auto, {
        "nodes": t.nodes, "cons": t.cons, "elements": t.elements,
        "mats": t.mats, "loads": t.loads}, plot_contours=False)
    with Inside(sub) as root:
        full = os.path.join(root, sub)
        tab = write_model(full, t, fm)
        before = snapshot(full)
        cwd, folder = spelled(root, sub, how)
        os.chdir(cwd)
        read = tup(call(pre.readin, folder), 4, "readin")
        got = call(sg.solids_GUI, plot_contours=False, folder=folder)
        if snapshot(full) != before:
            fail("the files of the folder changed")
    for g, w, name in zip(read, (tab, t.mats, t.elements, t.loads),
                          ("nodes", "mats", "elements", "loads")):
        g = arr(g, w.shape, name, "i" if name == "elements" else "f")
        close(g, w, name + " read", rtol=1e-15, scale=np.abs(w))
    close(arr(got, t.xy.shape, "displacements"),
          arr(want, t.xy.shape, "displacements"), "displacements from files",
          rtol=1e-9)


@check("C21", st.tuples(gen.model_st(nmax=3, scale=gen.logf(-3, 4),
                                     young=gen.logf(-2, 9)),
                        st.sampled_from(SPELL), st.sampled_from(DIRS),
                        st.sampled_from([1.0, 0.01, 123.456])).map(list),
       quick=300,
       rule="echo files of a model; non-trivial: several rows per table")
def echo(case, ctx):
    c, how, sub, mag = case
    mo = gen.build_model(c)
    tab = np.hstack([mo.nodes, mo.cons])
    tabs = [tab, mo.mats, mo.elements, mo.loads]
    copies = [t.copy() for t in tabs]
    with Inside(sub) as root:
        full = os.path.join(root, sub)
        f = {"num": "%r", "ints": "%d", "sep": " ", "head": "", "tail": "",
             "lead": "", "gap": "", "eol": "\n", "last": True}
        write_model(full, mo, [f]*4)
        before = snapshot(full)
        cwd, folder = spelled(root, sub, how)
        os.chdir(cwd)
        call(pre.echomod, *tabs, folder=folder)
        after = snapshot(full)
        read = []
        for name in ("KNODES.txt", "KMATES.txt", "KELEMS.txt", "KLOADS.txt"):
            if name not in after:
                fail("{} was not written in the folder: {}", name,
                     sorted(after))
            rows = after[name].decode().split("\n")
            read.append([[float(v) for v in r.split()] for r in rows
                         if r.strip()])
    for name in before:
        if after[name] != before[name]:
            fail("input file {} changed", name)
    ctx.nontriv(len(mo.elements) > 1 and len(mo.loads) > 1)
    ctx.label(how)
    for g, w, w0, name in zip(read, tabs, copies,
                              ("nodes", "mats", "elements", "loads")):
        if not np.array_equal(w, w0):
            fail("echo modified the {}", name)
        if len({len(r) for r in g}) != 1 or np.shape(g) != w.shape:
            fail("echo of {}: {} rows instead of shape {}", name, len(g),
                 w.shape)
        d = np.abs(np.array(g) - w)
        if np.any(d > 0.005*(1 + 1e-9) + 1e-12*np.abs(w)):
            fail("echo of {} differs by {}", name, d.max())


@check("C21", st.tuples(st.integers(1, 400), gen.KEY1, fmt_st()).map(list),
       quick=40, fixed=[[20000, 5, {
           "num": "%r", "ints": "%d", "sep": " ", "head": "", "tail": "",
           "lead": "", "gap": "", "eol": "\n", "last": True}], [70000, 6, {
               "num": "%.17g", "ints": "%d", "sep": "\t", "head": "# a\n",
               "tail": "", "lead": "", "gap": "", "eol": "\n",
               "last": True}]],
       rule="tables of many rows read back; non-trivial: more than 100 rows")
def long_tables(case, ctx):
    n, key, f = case
    ctx.nontriv(n > 100)
    h = hash_unit(key, 4*n, 31).reshape(n, 4)
    ids = np.arange(n)
    nodes = np.column_stack([ids, h[:, :2], -1.0*(h[:, 2:] > 0.3)])
    mats = h[:max(1, n//10), 1:] + 2
    els = np.column_stack([ids, np.full(n, 3), ids % 3, ids, (ids + 1) % n,
                           (ids + 2) % n])
    loads = np.column_stack([ids[::-1], h[:, 2:]*1e6])
    with Inside("job") as root:
        d = os.path.join(root, "job")
        write_table(os.path.join(d, "nodes.txt"), nodes, f, icols=(0, 3, 4))
        write_table(os.path.join(d, "mater.txt"), mats, f)
        write_table(os.path.join(d, "eles.txt"), els, f, ints=True)
        write_table(os.path.join(d, "loads.txt"), loads, f, icols=(0,))
        got = tup(call(pre.readin, d), 4, "readin")
    for g, w, name in zip(got, (nodes, mats, els, loads),
                          ("nodes", "mats", "elements", "loads")):
        g = arr(g, w.shape, name, "i" if name == "elements" else "f")
        if not np.array_equal(g, w):
            close(g, w, name + " read", rtol=1e-15)
