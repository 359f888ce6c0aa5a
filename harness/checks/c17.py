"""C17 - Bloch conditions."""
import numpy as np
from hypothesis import strategies as st

import solidspy.blochutil as bl

from .. import gen
from ..core import arr, call, check, close, fail, hash_perm, hash_unit


@st.composite
def pairing(draw):
    n = draw(st.integers(1, 14))
    nim = draw(st.integers(0, n - 1))
    return {"n": n, "nim": nim, "ndof": draw(st.sampled_from([1, 2, 3, 1, 2, 3, 6, 7, 12])),
            "key": draw(gen.KEY1), "pk": draw(gen.KEY),
            "dofs": draw(st.sampled_from(["natural", "shuffled",
                                          "blocks"])),
            "order": draw(gen.KEY), "dim": draw(st.integers(1, 3)),
            "wave": draw(st.sampled_from(["zero", "any", "any", "real",
                                          "axis", "far"])),
            "L": draw(gen.logf(-12, 6)), "mag": draw(gen.logf(-9, 0)),
            "int": draw(st.sampled_from([False, False, True]))}


def build(c):
    n, nim, ndof = c["n"], c["nim"], c["ndof"]
    p = hash_perm(c["pk"], n, 1)
    ima = p[n - nim:]
    ref = p[:n - nim]
    pick = ((hash_unit(c["key"], nim, 2) + 1)/2*len(ref)).astype(int)
    nodes_ima = [int(i) for i in ima]
    nodes_ref = [int(ref[i]) for i in pick]
    o = hash_perm(c["order"], nim, 3)
    nodes_ima = [nodes_ima[i] for i in o]
    nodes_ref = [nodes_ref[i] for i in o]
    nd = n*ndof
    if c["dofs"] == "natural":
        dof = np.arange(nd).reshape(n, ndof)
    elif c["dofs"] == "blocks":
        dof = np.arange(nd).reshape(ndof, n).T
    else:
        dof = hash_perm(c["key"], nd, 4).reshape(n, ndof)
    dofs_ref = [int(d) for r in nodes_ref for d in dof[r]]
    dofs_ima = [int(d) for r in nodes_ima for d in dof[r]]
    return nodes_ref, nodes_ima, dof, dofs_ref, dofs_ima


@check("C17", pairing(), quick=1500,
       rule="arbitrary pairing of images and references; non-trivial: at "
            "least one image with a number below its reference")
def conditions(case, ctx):
    nodes_ref, nodes_ima, dof, dofs_ref, dofs_ima = build(case)
    nd = dof.size
    dim = case["dim"]
    ctx.label(case["dofs"], "images %d" % min(case["nim"], 5), case["wave"])
    ctx.nontriv(any(i < r for i, r in zip(dofs_ima, dofs_ref)))
    if len(set(nodes_ref)) < len(nodes_ref):
        ctx.label("shared references")
    new = call(bl.reassign_dof_bloch, nd, list(dofs_ima), list(dofs_ref))
    new = arr(new, (nd,), "new numbering", "i")
    # expected numbering
    isima = np.zeros(nd, dtype=bool)
    isima[dofs_ima] = True
    want = np.zeros(nd, dtype=int)
    want[~isima] = np.arange((~isima).sum())
    for i, r in zip(dofs_ima, dofs_ref):
        want[i] = want[r]
    if np.any(new != want):
        fail("new numbering {} instead of {} (images {}, references {})",
             new.tolist(), want.tolist(), dofs_ima, dofs_ref)
    coords = case["L"]*hash_unit(case["key"], len(dof)*dim, 5).reshape(-1, dim)
    if case["int"]:                     # whole-number coordinates
        coords = np.round(20*coords/case["L"]).astype(int)
        case = dict(case, L=10.0)
    if case["wave"] == "zero":
        k = np.zeros(dim)
    else:
        k = 4*hash_unit(case["key"], dim, 6)/case["L"]
        if case["wave"] == "axis":       # along an axis, of any length
            k = k*case["mag"]*(np.arange(dim) == case["key"] % dim)
        elif case["wave"] == "far":      # many zones away
            k = k/case["mag"]**0.6
    T = call(bl.bloch_transform_mat, k, coords, nd, list(nodes_ref),
             list(nodes_ima), list(dofs_ref), list(dofs_ima),
             {r: [int(d) for d in dof[r]] for r in nodes_ref},
             {i: [int(d) for d in dof[i]] for i in nodes_ima},
             [int(v) for v in new])
    T = arr(T, (nd, nd - len(dofs_ima)), "transformation", "c")
    x = hash_unit(case["key"], T.shape[1], 7) \
        + 1j*hash_unit(case["key"], T.shape[1], 8)
    full = T @ x
    close(full[~isima], x, "values of the remaining dofs", atol=1e-13,
          rtol=0)
    for im, r in zip(nodes_ima, nodes_ref):
        ph = np.exp(1j*(k @ (coords[im] - coords[r])))
        close(full[dof[im]], ph*full[dof[r]],
              "image node %d of %d" % (im, r), rtol=0,
              atol=1e-13 + 2e-15*float(np.abs(k) @ (
                  np.abs(coords[im]) + np.abs(coords[r]))))
    if case["wave"] == "zero":
        if np.abs(T.imag).max(initial=0) > 0 or not np.all(
                np.isin(T.real, (0, 1))):
            fail("periodic tie is not real 0/1")
    # unit modulus and one entry per row
    if np.any((np.abs(T) > 1e-12).sum(axis=1) != 1):
        fail("a dof depends on several reduced ones")


