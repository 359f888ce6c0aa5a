"""C07 - shape functions."""
import numpy as np
from hypothesis import strategies as st

import solidspy.femutil as fem

from .. import ref
from ..core import arr, call, check, close, hash_unit, tup
from ..gen import KEY1

FUN = {"tri3": fem.shape_tri3, "tri6": fem.shape_tri6,
       "quad4": fem.shape_quad4, "quad8": fem.shape_quad8,
       "quad9": fem.shape_quad9, "tet4": fem.shape_tet4,
       "hex8": fem.shape_hex8}
COORD = st.one_of(st.integers(-3, 3), st.integers(-300, 300).map(
    lambda i: i/100), st.sampled_from([0.5, -0.5, 1/3, 0.1, 1e-3, -1e-9]),
    # right beside a node, a side or the centre
    st.builds(lambda a, s, e: a + s*10.0**-e,
              st.sampled_from([0, 1, -1, 0.5, -0.5, 1/3, 0.2]),
              st.sampled_from([1, -1, 3.7, -5]), st.integers(3, 14)))


@st.composite
def point(draw):
    k = draw(st.sampled_from(sorted(FUN)))
    d = ref.DIM[k]
    return {"k": k, "p": [draw(COORD) for _ in range(d)],
            "np": draw(st.booleans()), "poly": draw(KEY1)}


def evaluate(k, p, npf=False):
    args = [np.float64(v) for v in p] if npf else list(p)
    N, dN = tup(call(FUN[k], *args), 2, "shape_" + k)
    n = ref.NN[k]
    return (arr(N, (n,), k + " functions"),
            arr(dN, (ref.DIM[k], n), k + " derivatives"))


@check("C07", point(), quick=2500,
       rule="point in or around the parent element; non-trivial: not a node")
def values_and_derivatives(case, ctx):
    k, p = case["k"], case["p"]
    N, dN = evaluate(k, p, case["np"])
    x = np.array(p, dtype=float)
    sc = max(1.0, np.abs(x).max())**4
    ctx.label(k, "int" if all(isinstance(v, int) for v in p) else "float")
    ctx.nontriv(np.abs(ref.NODES[k] - x).max(axis=1).min() > 1e-6)
    Nr, dNr = ref.shape(k, x)
    close(N.sum(), 1.0, k + " partition of unity", atol=1e-13*sc)
    close(dN.sum(axis=1), np.zeros(len(x)), k + " sum of derivatives",
          atol=1e-12*sc)
    close(N, Nr, k + " functions", atol=1e-12*sc)
    close(dN, dNr, k + " derivatives", atol=1e-12*sc)
    # polynomial reproduction and its gradient
    c = hash_unit(case["poly"], len(ref.MONO[k]), 1)
    nod = np.array([ref.monomials(ref.MONO[k], q) @ c for q in ref.NODES[k]])
    close(N @ nod, ref.monomials(ref.MONO[k], x) @ c, k + " reproduction",
          atol=1e-11*sc)
    close(dN @ nod, ref.dmonomials(ref.MONO[k], x) @ c,
          k + " gradient reproduction", atol=1e-11*sc)
    # derivatives match the returned functions (complex-free: central
    # differences are exact enough for quadratics)
    h = 1e-3
    for d in range(len(x)):
        e = np.zeros(len(x))
        e[d] = h
        fd = (evaluate(k, x + e)[0] - evaluate(k, x - e)[0])/(2*h)
        close(dN[d], fd, k + " derivative against differences",
              atol=1e-5*sc)


@check("C07", st.sampled_from(sorted(FUN)), quick=30,
       rule="all nodes of one family, ints and floats")
def nodes(case, ctx):
    k = case
    ctx.label(k)
    ctx.nontriv()
    for i, q in enumerate(ref.NODES[k]):
        for conv in (float, np.float64):
            N, _ = evaluate(k, [conv(v) for v in q])
            want = np.zeros(len(N))
            want[i] = 1
            close(N, want, k + " at node %d" % i, atol=1e-14)
