"""C14 - trusses and springs."""
import numpy as np
from hypothesis import strategies as st

import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol

from .. import gen
from .. import sut
from ..core import arr, call, check, close, hash_perm, hash_unit, tup


@st.composite
def truss(draw, nmax=9):
    few = st.integers(3, nmax)
    return {"n": draw(few if nmax < 9 else st.one_of(
        few, few, few, st.integers(20, 45))), "geo": draw(gen.KEY1),
            "grow": draw(gen.KEY), "extra": draw(st.integers(0, 4)),
            "rev": draw(gen.KEY), "mat": draw(gen.KEY),
            "E": draw(gen.YOUNG), "rows": draw(st.integers(1, 4)),
            "dens": draw(st.booleans()),
            "sup": draw(st.sampled_from(["simple", "simple", "pinned",
                                         "more"])),
            "L": draw(gen.LENGTH), "rot": draw(gen.ANGLE),
            "np": draw(gen.KEY), "ep": draw(gen.KEY),
            "um": draw(st.sampled_from([0, 0, 0, -7, -12, 2])),
            "con": draw(st.sampled_from([0]*6 + [4, 9])),
            "par": draw(st.sampled_from([0]*6 + [1, 2, 3])) if nmax > 8
            else 0,
            "whole": nmax > 8 and draw(st.integers(0, 9)) == 7,
            "load": draw(gen.KEY1), "lmag": draw(gen.logf(-12, 9))}


class Truss:
    pass


def build(c):
    """A simple truss: every joint after the first two is attached to the
    ends of an existing member (never collinear)."""
    n = c["n"]
    xy = [np.array([0.0, 0.0]), np.array([1.0, 0.0])]
    mem = [(0, 1)]
    # direction outside of each member: joints on a triangulated strip
    pick = hash_unit(c["grow"], n, 81)
    for k in range(2, n):
        if c["grow"] == 0:
            a, b = k - 2, k - 1
        else:
            a, b = mem[int((pick[k] + 1)/2*len(mem)) % len(mem)]
        d = xy[b] - xy[a]
        nrm = np.array([-d[1], d[0]])*(1 if k % 2 else -1)
        h = hash_unit(c["geo"], 2, 100 + k)
        xy.append(xy[a] + d*(0.5 + 0.3*h[0]) + nrm*(0.9 + 0.25*h[1]))
        mem += [(a, k), (b, k)]
    xy = np.array(xy)
    has = {frozenset(m) for m in mem}
    pairs = [(i, j) for i in range(n) for j in range(i) if
             frozenset((i, j)) not in has
             and np.linalg.norm(xy[i] - xy[j]) > 0.2]
    pr = hash_perm(c["geo"], len(pairs), 83)
    extra = [pairs[i] for i in pr[:c["extra"]]]
    t = Truss()
    t.determinate = not extra and c["sup"] == "simple"
    mem = mem + extra
    if c.get("par"):                 # members side by side
        mem = mem + mem[-c["par"]:]
        t.determinate = False
    mem = np.array(mem)
    rev = hash_unit(c["rev"], len(mem), 84) < 0
    if c["rev"]:
        mem[rev] = mem[rev][:, ::-1]
    xy = c["L"]*(xy @ gen.rotm(c["rot"]).T)
    cons = np.zeros((n, 2), dtype=int)
    a, b = 0, int(np.linalg.norm(xy - xy[0], axis=1).argmax())
    cons[a] = -1
    d = xy[b] - xy[a]
    cons[b, 1 if abs(d[0]) >= abs(d[1]) else 0] = -1
    if c["sup"] == "pinned":
        cons[b] = -1
    elif c["sup"] == "more":
        cons[1:][hash_unit(c["geo"], 2*(n - 1), 85).reshape(-1, 2) > 0.6] = -1
        if (cons == 0).sum() == 0:
            cons[2, 0] = 0
    p = hash_perm(c["np"], n, 86)
    inv = np.argsort(p)
    xy, cons, mem = xy[p], cons[p], inv[mem]
    mem = mem[hash_perm(c["ep"], len(mem), 87)]
    nel = len(mem)
    r = c["rows"]
    h = hash_unit(c["mat"], 3*r, 88).reshape(r, 3)
    mats = np.column_stack([c["E"]*2.0**h[:, 0],
                            c["L"]**2*1e-2*4.0**h[:, 1]])
    if c["dens"]:
        mats = np.column_stack([mats, 1 + h[:, 2]**2])
    t.mid = ((hash_unit(c["mat"], nel, 89) + 1)/2*r).astype(int) % r
    t.xy, t.cons, t.mem, t.mats = xy, cons, mem, mats
    t.nodes = np.column_stack([np.arange(n), xy])
    t.elements = np.column_stack([gen.elem_ids(nel, c["ep"]),
                                  np.full(nel, 6), t.mid, mem])
    f = np.round(hash_unit(c["load"], 2*n, 90).reshape(n, 2), 3)*c["lmag"]
    f[hash_unit(c["load"], n, 91) > 0.3] = 0
    if not np.any(f):
        f[n - 1] = c["lmag"]
    t.f = f
    t.loads = gen.load_rows(f, c["load"] % 5)
    if c.get("whole"):               # tables of whole numbers
        t.mats = np.maximum(1, np.rint(9*t.mats/t.mats.max(axis=0))
                            ).astype(int)
        t.xy = np.rint(20*t.xy/c["L"]).astype(int)
        t.nodes = np.column_stack([np.arange(n), t.xy])
    return t


def solve(t, elements=None, mats=None):
    elements = t.elements if elements is None else elements
    mats = t.mats if mats is None else mats
    op, bc, neq = tup(call(ass.DME, t.cons, elements), 3, "DME")
    K, _ = tup(call(ass.assembler, elements, mats, t.nodes, neq, op), 2,
               "assembler")
    rhs = call(ass.loadasem, t.loads, bc, neq)
    u = call(sol.static_sol, K, rhs)
    return arr(call(pos.complete_disp, bc, t.nodes, u), t.xy.shape,
               "displacements")


def elongation(t, u):
    d = t.xy[t.mem[:, 1]] - t.xy[t.mem[:, 0]]
    L = np.linalg.norm(d, axis=1)
    d = d/L[:, None]
    return ((u[t.mem[:, 1]] - u[t.mem[:, 0]])*d).sum(axis=1), L, d


@check("C14", truss(), quick=500,
       rule="simple truss plus extra members; non-trivial: a joint with free "
            "dofs is loaded")
def joints(case, ctx):
    t = build(case)
    u = solve(t)
    nel = len(t.mem)
    s = arr(call(pos.stress_truss, t.nodes, t.elements, t.mats, u), (nel,),
            "stress")
    el, L, d = elongation(t, u)
    E, A = t.mats[t.mid, 0], t.mats[t.mid, 1]
    ctx.label("determinate" if t.determinate else "indeterminate",
              case["sup"], "rho" if case["dens"] else "no rho")
    ctx.nontriv(np.any(t.f[t.cons == 0]))
    close(s, E*el/L, "stress is E times relative elongation", rtol=1e-8,
          scale=(E/L).max()*np.abs(u).max())
    # joint equilibrium
    N = s*A
    r = t.f.copy()
    for k, (i, j) in enumerate(t.mem):
        r[i] += N[k]*d[k]
        r[j] -= N[k]*d[k]
    close(r[t.cons == 0], 0*r[t.cons == 0], "joint equilibrium", rtol=1e-7,
          scale=max(np.abs(N).max(), np.abs(t.f).max()))
    # the same through the workflow
    w = arr(call(sut.solids_auto, {"nodes": t.nodes, "cons": t.cons,
                                   "elements": t.elements, "mats": t.mats,
                                   "loads": t.loads},
                 plot_contours=case["load"] % 3 == 0), u.shape, "workflow")
    close(w, u, "workflow displacements", rtol=1e-7)
    # nodes with support columns
    s2 = arr(call(pos.stress_truss, np.hstack([t.nodes, t.cons]), t.elements,
                  t.mats, u), (nel,), "stress")
    close(s2, s, "stress with support columns", rtol=1e-12)
    if t.determinate:
        h = hash_unit(case["geo"], 2*len(t.mats), 92).reshape(-1, 2)
        m2 = t.mats.astype(float)
        m2[:, :2] *= 3.0**h
        u2 = solve(t, mats=m2)
        s2 = arr(call(pos.stress_truss, t.nodes, t.elements, m2, u2), (nel,),
                 "stress")
        close(s2*m2[t.mid, 1], N, "determinate forces for another stiffness",
              rtol=1e-7)


@check("C14", truss(), quick=200,
       rule="stress of an arbitrary displacement field; non-trivial: not a "
            "rigid motion")
def stress_of_any_field(case, ctx):
    t = build(case)
    u = hash_unit(case["load"], t.xy.size, 95).reshape(-1, 2)*case["L"]
    u = u*10.0**case.get("um", 0)
    # profiles of very different stiffness, joints nearly at rest
    if case.get("con"):
        t.mats = t.mats.astype(float)
        t.mats[1::2, 0] *= 10.0**case["con"]
        u[hash_unit(case["load"], len(u), 96) > 0.3] *= 1e-9
    rigid = case["load"] % 4 == 0
    if rigid:
        u = np.column_stack([-t.xy[:, 1], t.xy[:, 0]])*1e-3 + u[0]
    s = arr(call(pos.stress_truss, t.nodes, t.elements, t.mats, u),
            (len(t.mem),), "stress")
    el, L, d = elongation(t, u)
    E = t.mats[t.mid, 0]
    ctx.label("rigid" if rigid else "any")
    ctx.nontriv(not rigid)
    um = np.abs(u).max(axis=1)
    close(s, E*el/L, "stress is E times relative elongation", rtol=1e-11,
          scale=E/L*(um[t.mem[:, 0]] + um[t.mem[:, 1]]))


@check("C14", st.tuples(st.integers(1, 9), gen.KEY1, gen.YOUNG,
                        st.integers(0, 14)).map(list), quick=200,
       rule="members of very different lengths around one joint; "
            "non-trivial: several members")
def lengths(case, ctx):
    n, key, E, span = case
    h = hash_unit(key, 5*n, 97).reshape(n, 5)
    L = 10.0**(span*h[:, 0]/2)
    d = np.column_stack([np.cos(np.pi*h[:, 1]), np.sin(np.pi*h[:, 1])])
    e = h[:, 2:4]*1e-3
    xy = np.vstack([[0, 0], L[:, None]*d])
    u = np.vstack([[0, 0], L[:, None]*e])
    swap = h[:, 4] > 0
    mem = np.column_stack([np.zeros(n, int), np.arange(1, n + 1)])
    mem[swap] = mem[swap][:, ::-1]
    els = np.column_stack([gen.elem_ids(n, key), np.full(n, 6),
                           np.arange(n) % 2, mem])
    mats = np.array([[E, 1.0], [3*E, 0.2]])
    s = arr(call(pos.stress_truss, np.column_stack([np.arange(n + 1), xy]),
                 els, mats, u), (n,), "stress")
    Em = mats[els[:, 2], 0]
    ctx.nontriv(n > 1)
    ctx.label("span 1e%d" % (span//5*5))
    close(s, Em*(e*d).sum(axis=1), "stress is E times relative elongation",
          rtol=1e-9, scale=Em*1e-3)


@check("C14", truss(), quick=200,
       rule="some members replaced by springs of the same axial stiffness; "
            "non-trivial: both kinds present")
def springs(case, ctx):
    t = build(case)
    u = solve(t)
    nel = len(t.mem)
    _, L, _ = elongation(t, u)
    k = t.mats[t.mid, 0]*t.mats[t.mid, 1]/L
    which = hash_unit(case["geo"], nel, 93) > -0.2
    cols = t.mats.shape[1]
    add = np.ones((nel, cols))
    add[:, 0] = k
    mats = np.vstack([t.mats, add])
    e = t.elements.copy()
    e[which, 1] = 5
    e[which, 2] = len(t.mats) + np.flatnonzero(which)
    ctx.label("mixed" if which.any() and not which.all() else "one kind")
    ctx.nontriv(which.any() and not which.all())
    close(solve(t, e, mats), u, "displacements with springs", rtol=1e-7)
    d = {k: gen.store(v, case["load"]//11**i) for i, (k, v) in enumerate(
        {"nodes": t.nodes, "cons": t.cons, "elements": e, "mats": mats,
         "loads": t.loads}.items())}
    close(arr(call(sut.solids_auto, d, plot_contours=False), u.shape,
              "workflow"), u, "workflow with springs", rtol=1e-7)
    e[:, 1] = 5
    e[:, 2] = len(t.mats) + np.arange(nel)
    close(solve(t, e, mats), u, "displacements with springs only", rtol=1e-7)
    # table of springs alone: one column
    e[:, 2] = np.arange(nel)
    close(solve(t, e, k[:, None]), u, "springs with a one-column table",
          rtol=1e-7)
