"""C30 - ways of starting the workflow and its report."""
import contextlib
import io
import os
import re
import subprocess
import sys
import types

import matplotlib.pyplot as plt
from hypothesis import strategies as st

import solidspy.preprocesor as pre

from .. import gen
from .. import sut as sg
from ..core import arr, call, call_out, check, close, fail, tup
from .c13 import unattached
from .c21 import DIRS, SPELL, Inside, fmt_st, snapshot, spelled, write_model

REPO = os.environ.get("SOLIDSPY_UNDER_TEST", "/repo")
MSG = "not in equilibrium"


def reported(out, mo):
    """The report states the size of the model and that it ended well."""
    want = {"nodes": len(mo.nodes), "elements": len(mo.elements),
            "equations": int((mo.cons == 0).sum())}
    for name, n in want.items():
        got = re.findall(r"umber of %s\D*?(-?\d+)" % name, out)
        if got != [str(n)]:
            fail("the run reports {} {} instead of {}: {}", got, name, n,
                 out[:400])
    if MSG in out:
        fail("a sound model is reported as unstable")
    if "terminated successfully" not in out:
        fail("the run does not report its end: {}", out[-400:])


@contextlib.contextmanager
def answers(text, dialog):
    """Standard input with an answer; a stand-in for easygui whose dialog
    returns ``dialog[0]`` (no easygui for an empty list)."""
    old, was = sys.stdin, sys.modules.get("easygui")
    sys.stdin = io.StringIO(text)
    if dialog:
        mod = types.ModuleType("easygui")
        mod.diropenbox = lambda *a, **k: dialog[0]
        sys.modules["easygui"] = mod
    else:
        sys.modules["easygui"] = None        # import fails
    try:
        yield
    finally:
        sys.stdin = old
        if was is None:
            del sys.modules["easygui"]
        else:
            sys.modules["easygui"] = was


def compare(got, want, n, strains):
    got, want = (tup(got, 3, "solids_GUI"), want) if strains else \
        ([got], [want])
    for g, w, k, name in zip(got, want, (2, 3, 3),
                             ("displacements", "strains", "stresses")):
        close(arr(g, (n, k), name), arr(w, (n, k), name), name, rtol=1e-9)


PLAIN = {"num": "%r", "ints": "%d", "sep": " ", "head": "", "tail": "",
         "lead": "", "gap": "", "eol": "\n", "last": True}
FIXED = [[{"mesh": gen.plain_mesh("quad4", 2, 2, jit=3), "supkind": "many",
           "mats": [[1.0, .3]], "matkey": False, "sup": 3, "load": load,
           "nload": 2, "lmag": 1.0, "rows": 0}, PLAIN, "abs", "run",
          strains, True, way]
         for way in ("prompt", "dialog", "argument", "arrays")
         for strains in (False, True) for load in (3, 4)]


@check("C30", st.tuples(gen.model_st(nmax=3), fmt_st(),
                        st.sampled_from(SPELL), st.sampled_from(DIRS),
                        st.booleans(), st.booleans(),
                        st.sampled_from(["prompt", "dialog", "cancelled",
                                         "argument", "arrays"])).map(list),
       quick=250, fixed=FIXED,
       rule="model run from the folder asked for (prompt, dialog, cancelled "
            "dialog), given or from arrays, and its report; non-trivial: "
            "folder asked for")
def asked(case, ctx):
    c, fm, how, sub, strains, plots, way = case
    mo = gen.build_model(c)
    kind = c["mesh"]["k"]
    strains = strains and kind != "quad9"
    if c["rows"] % 4 == 1 and not strains:
        unattached(mo, 1 + c["rows"] % 3, c["rows"])
        ctx.label("spare nodes")
    plots = plots and len(mo.nodes) < 30 and c["sup"] % 3 == 0
    kw = {"compute_strains": strains, "plot_contours": plots}
    want = call(sg.solids_auto, mo.data(), plot_contours=False,
                compute_strains=strains)
    if c["load"] % 2:                      # the documented default values
        kw = {k: v for k, v in kw.items()
              if v is not (k == "plot_contours")}
        ctx.label("defaults")
    ctx.label(way, how, "plots" if plots else "no plots")
    ctx.nontriv(way in ("prompt", "dialog", "cancelled"))
    plt.close("all")
    try:
        if way == "arrays":
            got, out = call_out(sg.solids_auto, mo.tables(), **kw)
        else:
            with Inside(sub) as root:
                full = os.path.join(root, sub)
                write_model(full, mo, [fm]*4)
                before = snapshot(full)
                cwd, folder = spelled(root, sub, how)
                os.chdir(cwd)
                if way == "argument":
                    got, out = call_out(sg.solids_GUI, folder=folder, **kw)
                else:
                    dialog = {"prompt": [], "cancelled": [None],
                              "dialog": [os.path.abspath(folder or ".")]}[way]
                    text = "" if way == "dialog" else folder + "\n"
                    with answers(text, dialog):
                        got, out = call_out(sg.solids_GUI, **kw)
                if os.getcwd() != os.path.realpath(cwd):
                    fail("the run left the process in {}", os.getcwd())
                if snapshot(full) != before:
                    fail("the files of the folder changed")
        figs = len(plt.get_fignums())
    finally:
        plt.close("all")
    if figs != (8 if strains else 2)*bool(plots):
        fail("{} figures with plot_contours={}", figs, plots)
    reported(out, mo)
    compare(got, want, len(mo.nodes), strains)


@check("C30", st.tuples(st.sampled_from(SPELL), st.sampled_from(DIRS),
                        st.sampled_from(["prompt", "dialog", "cancelled"])
                        ).map(list), quick=100,
       rule="folder returned by the questions; non-trivial: every case")
def folder_of(case, ctx):
    how, sub, way = case
    ctx.label(way, how)
    ctx.nontriv()
    with Inside(sub) as root:
        cwd, folder = spelled(root, sub, how)
        os.chdir(cwd)
        dialog = {"prompt": [], "cancelled": [None],
                  "dialog": [os.path.abspath(folder or ".")]}[way]
        with answers("" if way == "dialog" else folder + "\n", dialog):
            got = call(pre.initial_params)
        if os.getcwd() != os.path.realpath(cwd):
            fail("the process is left in {}", os.getcwd())
        if not isinstance(got, (str, os.PathLike)):
            fail("folder {!r} is not a path", got)
        a, b = (os.path.realpath(q or ".") for q in (got, folder))
        if a != b:
            fail("folder {!r} instead of {!r}", got, folder)


@check("C30", st.tuples(gen.model_st(nmax=3), st.sampled_from(SPELL),
                        st.sampled_from(DIRS)).map(list), quick=7,
       rule="python -m solidspy in a process of its own, the folder typed at "
            "the prompt; non-trivial: every case")
def command(case, ctx):
    c, how, sub = case
    mo = gen.build_model(c)
    f = {"num": "%r", "ints": "%d", "sep": " ", "head": "", "tail": "",
         "lead": "", "gap": "", "eol": "\n", "last": True}
    ctx.label(how)
    ctx.nontriv()
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING="utf-8",
               MPLBACKEND="Agg")
    with Inside(sub) as root:
        full = os.path.join(root, sub)
        write_model(full, mo, [f]*4)
        before = snapshot(full)
        cwd, folder = spelled(root, sub, how)
        p = subprocess.run(
            [sys.executable, "-X", "utf8", "-X", "pycache_prefix="
             + str(sys.pycache_prefix), "-m", "solidspy"], cwd=cwd, env=env,
            input=folder + "\n", capture_output=True, text=True,
            encoding="utf-8", timeout=200)
        after = snapshot(full)
    if p.returncode:
        fail("python -m solidspy ends with code {}: {}", p.returncode,
             p.stderr[-600:])
    if after != before:
        fail("the files of the folder changed: {}", sorted(after))
    reported(p.stdout, mo)
