"""C10 - quadrature rules."""
import itertools
from math import factorial

import numpy as np
from hypothesis import strategies as st

import solidspy.gaussutil as gau

from ..core import arr, call, check, close, fail, hash_unit, raises, tup
from ..gen import KEY1

ALL = ([("nd", n, d) for n in range(2, 11) for d in (1, 2, 3, 4)
        if n**d <= 4096]
       + [("1d", n, 1) for n in range(2, 11)]
       + [("tri", n, 2) for n in range(1, 8)]
       + [("tet", n, 3) for n in range(1, 11)])


def rule(kind, n, d):
    if kind == "1d":
        p, w = tup(call(gau.gauss_1d, n), 2, "gauss_1d")
        p = arr(p, (n,), "points")[:, None]
    elif kind == "nd":
        if d == 2:
            p, w = tup(call(gau.gauss_nd, n), 2, "gauss_nd")
        else:
            p, w = tup(call(gau.gauss_nd, n, ndim=d), 2, "gauss_nd")
        p = arr(p, (n**d, d), "points")
    else:
        f = gau.gauss_tri if kind == "tri" else gau.gauss_tet
        p, w = tup(call(f, order=n), 2, f.__name__)
        p = arr(p, (None, d), "points")
    w = arr(w, (len(p),), "weights")
    return p, w


def exact(kind, ex):
    if kind in ("1d", "nd"):
        return np.prod([0.0 if e % 2 else 2/(e + 1) for e in ex])
    d = len(ex)
    # mean value over the simplex: d! prod(e!)/(d + sum e)!
    return (factorial(d)*np.prod([float(factorial(e)) for e in ex])
            / factorial(d + sum(ex)))


@check("C10", st.sampled_from(range(len(ALL))), quick=150,
       fixed=list(range(len(ALL))),
       rule="every rule (enumerated completely) with every monomial of its "
            "degree (sampled when more than 400); non-trivial: all")
def monomials(case, ctx):
    kind, n, d = ALL[case]
    p, w = rule(kind, n, d)
    ctx.label(kind)
    ctx.nontriv()
    if kind in ("1d", "nd"):
        if np.abs(p).max() > 1:
            fail("{}: points out of the domain", ALL[case])
        expos = list(itertools.product(range(2*n), repeat=d))
        if (w <= 0).any():
            fail("{}: weights are not positive", ALL[case])
        total = 2.0**d
        tol = 1e-12
    else:
        if p.min() < 0 or (p.sum(axis=1) > 1 + 1e-12).any():
            fail("{}: points out of the domain", ALL[case])
        expos = [e for e in itertools.product(range(n + 1), repeat=d)
                 if sum(e) <= n]
        total = 1.0
        tol = 3e-12
    close(w.sum(), total, "%s sum of weights" % (ALL[case],), rtol=1e-11)
    if len(expos) > 400:
        sel = np.unique(((hash_unit(case + 1, 400, 5) + 1)/2*len(expos)
                         ).astype(int))
        expos = [expos[i] for i in sel] + [expos[-1]]
    got = np.array([w @ np.prod(p**np.array(e), axis=1) for e in expos])
    want = np.array([exact(kind, e) for e in expos])
    close(got, want, "%s monomials" % (ALL[case],), atol=tol*total, rtol=0)


@check("C10", st.tuples(st.sampled_from(range(len(ALL))), KEY1).map(list),
       quick=300,
       rule="random polynomial of the stated degree under a random affine "
            "change of variables; non-trivial: all")
def polynomials(case, ctx):
    kind, n, d = ALL[case[0]]
    p, w = rule(kind, n, d)
    ctx.label(kind)
    ctx.nontriv()
    # ridge polynomial (a.x)**deg: total degree deg <= n (simplex) or
    # deg <= 2n-1 (per variable)
    a = hash_unit(case[1], d, 1)
    deg = n if kind in ("tri", "tet") else 2*n - 1
    got = w @ (p @ a)**deg
    want = 0.0
    for e in itertools.product(range(deg + 1), repeat=d):
        if sum(e) != deg:
            continue
        m = factorial(deg)
        for q in e:
            m //= factorial(q)
        want += m*np.prod(a**np.array(e))*exact(kind, e)
    sc = np.abs(a).sum()**deg*(2.0**d if kind in ("1d", "nd") else 1.0)
    close(got, want, "%s ridge polynomial" % (ALL[case[0]],), rtol=1e-11,
          scale=sc)


@check("C10", st.tuples(st.sampled_from(["1d", "nd", "tri", "tet"]),
                        st.one_of(st.integers(-3, 30),
                                  st.integers(31, 10**6))).map(list),
       quick=200,
       rule="orders out of range must be rejected, the others accepted; "
            "non-trivial: out of range")
def range_of_orders(case, ctx):
    kind, n = case
    lo, hi, f = {"1d": (2, 10, gau.gauss_1d), "nd": (2, 10, gau.gauss_nd),
                 "tri": (1, 7, gau.gauss_tri), "tet": (1, 10, gau.gauss_tet)
                 }[kind]
    ctx.label(kind)
    if lo <= n <= hi:
        call(f, n)
        return
    ctx.nontriv()
    raises(ValueError, f, n)
