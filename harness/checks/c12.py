"""C12 - linear solver."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import solidspy.solutil as sol

from .. import gen
from ..core import arr, call, check, close, fail, hash_perm, hash_unit, raises


@st.composite
def system(draw):
    return {"n": draw(st.one_of(st.integers(1, 8), st.integers(1, 60))),
            "key": draw(gen.KEY1), "sym": draw(st.booleans()),
            "fill": draw(st.sampled_from([1.0, 0.5, 0.2, 0.05])),
            "perm": draw(gen.KEY), "scale": draw(gen.logf(-16, 14)),
            "bscale": draw(gen.logf(-14, 12)),
            "dt": draw(st.sampled_from(["float", "float", "float", "int",
                                        "complex"])),
            "rhs": draw(st.sampled_from(["full", "full", "unit", "zero",
                                         "int"])),
            "shift": draw(st.sampled_from([1.0, 1.0, 0.3, 0.05]))}


def matrix(c):
    n = c["n"]
    A = hash_unit(c["key"], n*n, 1).reshape(n, n)
    A[hash_unit(c["key"], n*n, 2).reshape(n, n) > 2*c["fill"] - 1] = 0
    if c["sym"]:
        A = 0.5*(A + A.T)
    A = A + np.diag(c["shift"]*(np.abs(A).sum(axis=1) + 0.5))
    if not c["sym"]:
        A = A[hash_perm(c["perm"], n, 3)]
    if c["dt"] == "complex":        # damped or Bloch-periodic structures
        ph = np.pi*hash_unit(c["key"], n, 6)
        A = np.exp(1j*ph)[:, None]*A*np.exp(-1j*ph)*c["scale"]
        if c["sym"]:
            A = A*(1 + 0.3j)
    elif c["dt"] == "int":
        A = np.rint(100*A).astype(int)
    else:
        A = A*c["scale"]
    return A


BIG = {"n": 640, "key": 5, "sym": True, "fill": 0.02, "perm": 3, "scale": 1.0,
       "bscale": 1.0, "dt": "float", "rhs": "full", "shift": 0.05}


@check("C12", system(), quick=1200,
       fixed=[BIG, dict(BIG, sym=False), dict(BIG, n=1100, fill=0.01,
                                              scale=1e9),
              dict(BIG, sym=False, perm=0, scale=1e-11, n=300)],
       rule="nonsingular systems, dense and CSR; non-trivial: order >= 2 and "
            "nonzero right-hand side")
def solve(case, ctx):
    A = matrix(case)
    n = case["n"]
    cond = np.linalg.cond(A)
    if not cond < 1e7:
        ctx.label("ill conditioned: skipped")
        return
    b = {"full": hash_unit(case["key"], n, 4)*case["bscale"],
         "unit": np.eye(n)[case["key"] % n]*case["bscale"],
         "zero": np.zeros(n),
         "int": np.rint(9*10.0**(0, 0, 0, 8, 14)[case["key"] % 5]
                       *hash_unit(case["key"], n, 4)).astype(int)
         }[case["rhs"]]
    kind = None
    if case["dt"] == "float" and case["rhs"] == "full" \
            and case["key"] % 5 == 2:      # damped loads on elastic models
        kind = "c"
        b = b*np.exp(2j*hash_unit(case["key"], n, 7))
        ctx.label("complex loads")
    if case["dt"] == "complex":
        kind = "c"
        if case["rhs"] == "full":
            b = b*np.exp(2j*hash_unit(case["key"], n, 7))
    ctx.label(case["dt"], "symmetric" if case["sym"] else "unsymmetric", case["rhs"],
              "n=1" if n == 1 else "n<10" if n < 10 else "n>=10")
    ctx.nontriv(n >= 2 and np.any(b))
    x = {}
    shape = (n,)
    if n > 1 and case["key"] % 7 == 3:         # several load cases at once
        b = np.column_stack([b, b[::-1], 0*b])[:, :2 + case["key"] % 2]
        shape = b.shape
        ctx.label("%d right-hand sides" % b.shape[1])
    for name, mat in (("dense", A.copy()),
                      ("fortran", np.asfortranarray(A)),
                      ("sparse", sp.csr_matrix(A)),
                      ("sparse with zeros", sp.csr_matrix(
                          (A.ravel(), np.tile(np.arange(n), n),
                           np.arange(n + 1)*n), shape=(n, n))),
                      ("sparse with duplicates", None)):
        if mat is None:
            coo = sp.coo_matrix(A)
            mat = sp.coo_matrix(
                (np.concatenate([coo.data*0.25, coo.data*0.75]),
                 (np.concatenate([coo.row, coo.row]),
                  np.concatenate([coo.col, coo.col]))), shape=A.shape).tocsr()
        keep = mat.copy()
        rhs = b.copy()
        x[name] = arr(call(sol.static_sol, mat, rhs), shape, name, kind)
        r = A @ x[name] - b
        close(r, 0*r, name + " residual", rtol=1e-12*max(n, 10),
              scale=np.abs(A).sum(axis=1).max()*np.abs(x[name]).max()
              + np.abs(b).max())
        if np.any(rhs != b):
            fail("{}: the right-hand side was modified", name)
        d = keep - mat
        if abs(d).max() != 0 or name == "sparse with zeros" \
                and mat.data.tobytes() != keep.data.tobytes():
            fail("{}: the matrix was modified", name)
    for name in ("fortran", "sparse", "sparse with duplicates"):
        close(x[name], x["dense"], name + " against dense",
              rtol=1e-14*max(n, 10)*max(cond, 10))


@check("C12", st.tuples(st.integers(2, 30), gen.KEY1, st.integers(1, 12),
                        gen.logf(-12, 12), st.booleans()).map(list),
       quick=300,
       rule="ill-conditioned dense and CSR systems (condition up to 1e12) "
            "whose solution is moderate: the residual is that of round-off; "
            "non-trivial: condition above 1e6")
def ill_conditioned(case, ctx):
    n, key, dec, scale, sym = case
    q = [np.linalg.qr(hash_unit(key, n*n, 51 + k).reshape(n, n))[0]
         for k in (0, 1)]
    s = 10.0**(-dec*np.arange(n)/(n - 1))
    A = scale*(q[0]*s) @ (q[0] if sym else q[1]).T
    if sym:
        A = 0.5*(A + A.T)
    b = A @ hash_unit(key, n, 53)
    ctx.label("condition 1e%d" % dec)
    ctx.nontriv(dec > 6)
    for name, mat in (("dense", A.copy()), ("sparse", sp.csr_matrix(A))):
        x = arr(call(sol.static_sol, mat, b.copy()), (n,), name)
        close(A @ x, b, name + " residual", rtol=1e-13*n,
              scale=np.abs(A).sum(axis=1).max()*np.abs(x).max()
              + np.abs(b).max())


@check("C12", st.tuples(system(), st.integers(2, 5), gen.KEY).map(list),
       quick=300,
       rule="several uncoupled systems of very different magnitudes in one "
            "matrix; non-trivial: three decades apart or more")
def blocks(case, ctx):
    c, nb, pk = case
    A, x, mags = [], [], []
    for k in range(nb):
        q = dict(c, key=c["key"] + k, n=1 + (c["n"] + k) % 9, dt="float")
        q["scale"] = 10.0**np.rint(12*hash_unit(c["key"], nb, 30)[k])
        B = matrix(q)
        if not np.linalg.cond(B) < 1e6:
            ctx.label("ill conditioned: skipped")
            return
        A.append(B)
        mags.append(q["scale"])
        x.append(hash_unit(c["key"], len(B), 40 + k)*10.0**np.rint(
            9*hash_unit(c["key"], nb, 31)[k]))
    n = sum(map(len, x))
    M = np.zeros((n, n))
    i = 0
    own = []
    for k, B in enumerate(A):
        M[i:i + len(B), i:i + len(B)] = B
        own += [k]*len(B)
        i += len(B)
    p = hash_perm(pk, n, 5)
    M, own = M[np.ix_(p, p)], np.array(own)[p]
    z = np.concatenate(x)[p]
    # exact products: each row only has entries of one block
    b = M @ z
    ctx.nontriv(max(mags) >= 1e3*min(mags))
    ctx.label("%d blocks" % nb)
    for name, mat in (("dense", M), ("sparse", sp.csr_matrix(M))):
        u = arr(call(sol.static_sol, mat, b), (n,), name)
        for k in range(nb):
            on = own == k
            close(u[on], z[on], "%s: block %d" % (name, k), rtol=1e-8)


@check("C12", st.tuples(st.integers(50, 400), gen.KEY1, st.booleans(),
                        gen.logf(-9, 9)).map(list), quick=40,
       fixed=[[4500, 5, True, 1.0], [20000, 6, True, 1e-3],
              [35000, 7, False, 1e6]],
       rule="large sparse systems (chains with some distant links) with a "
            "known solution; non-trivial: symmetric or not, over 100 unknowns")
def large(case, ctx):
    n, key, sym, scale = case
    i = np.arange(n - 1)
    k = 1.5 + hash_unit(key, n - 1, 1)
    far = np.arange(0, n - 40, 997)
    r = np.concatenate([i, i + 1, far, far + 37])
    c = np.concatenate([i + 1, i, far + 37, far])
    v = -np.concatenate([k, k if sym else 0.5*k, 0*far - 0.3, 0*far - 0.3])
    A = sp.coo_matrix((v, (r, c)), shape=(n, n)).tocsr()
    A = scale*(A + sp.diags(np.asarray(abs(A).sum(axis=1)).ravel() + 1e-2)
               ).tocsr()
    x = hash_unit(key, n, 2)
    ctx.nontriv(n > 100)
    ctx.label("symmetric" if sym else "unsymmetric")
    got = arr(call(sol.static_sol, A, A @ x), (n,), "solution")
    close(got, x, "solution of a large system", rtol=1e-10)


RELATED = ["again", "load", "transpose", "rows", "columns", "signs",
           "in place", "reverse", "negative", "one entry"]


@check("C12", st.tuples(st.integers(2, 30), gen.KEY1, st.booleans(),
                        gen.logf(-9, 9), st.lists(st.sampled_from(RELATED),
                                                  min_size=2, max_size=7)
                        ).map(list), quick=300,
       rule="a sequence of systems each made from the one before (transposed, "
            "reordered, other signs, changed in place, another load) with "
            "known solutions; non-trivial: the matrix changes")
def related(case, ctx):
    n, key, sym, scale, ops = case
    A = hash_unit(key, n*n, 1).reshape(n, n)
    A[hash_unit(key, n*n, 2).reshape(n, n) > 0.2] = 0
    if sym:
        A = A + A.T
    A = scale*(A + np.diag(np.abs(A).sum(axis=1)
                           + np.abs(A).sum(axis=0) + 0.5))
    x = hash_unit(key, n, 3)
    D, S = A.copy(), sp.csr_matrix(A)
    rev = np.arange(n)[::-1]
    ctx.nontriv(set(ops) - {"again", "load"})
    done = []
    for k, op in enumerate(["first"] + ops):
        ctx.label(op)
        if op == "load":
            x = x[::-1] + 1
        elif op == "transpose":
            D, S = D.T, S.T.tocsr()
        elif op in ("rows", "columns"):
            p = hash_perm(key, n, 4 + k)
            D, S = (D[p], S[p]) if op == "rows" else (D[:, p], S[:, p])
        elif op == "signs":
            s = np.where(hash_unit(key, n, 60 + k) < 0, -1.0, 1.0)
            D = s[:, None]*D*s
            S = sp.csr_matrix(D)
        elif op == "in place":
            if not (D.flags.writeable and D.flags.owndata):
                D = D.copy()
            f = 2 + hash_unit(key, n, 90 + k)
            D *= f[:, None]
            S.data *= np.repeat(f, np.diff(S.indptr))
        elif op == "reverse":
            D, S = D[np.ix_(rev, rev)], S[rev][:, rev]
        elif op == "negative":
            D, S = -D, -S
        elif op == "one entry":
            i, j = np.argwhere(D)[key % np.count_nonzero(D)]
            D = D.copy()
            D[i, j] *= 1.25
            S = S.copy()
            S[i, j] *= 1.25
        b = D @ x
        for name, mat in (("dense", D), ("sparse", S)):
            u = arr(call(sol.static_sol, mat, b.copy()), (n,), name)
            close(u, x, "%s, system %d (%s)" % (name, k, op), rtol=1e-9)
            done.append((u, u.copy()))
    for u, keep in done:
        if not np.array_equal(u, keep):
            fail("an earlier solution changed")


def others(A):
    out = {"list": A.tolist(), "tuple": tuple(map(tuple, A.tolist())),
           "csc": sp.csc_matrix(A), "coo": sp.coo_matrix(A),
           "lil": sp.lil_matrix(A), "bsr": sp.bsr_matrix(A),
           "dok": sp.dok_matrix(A), "none": None, "scalar": 3.0,
           "dia": sp.dia_matrix(A)}
    return out


@check("C12", st.tuples(st.sampled_from(sorted(others(np.eye(1)))),
                        st.integers(1, 6), gen.KEY1).map(list), quick=100,
       rule="any other type must be rejected")
def types(case, ctx):
    kind, n, key = case
    A = np.eye(n)*2 + 0.1*hash_unit(key, n*n, 1).reshape(n, n)
    ctx.label(kind)
    ctx.nontriv()
    raises(TypeError, sol.static_sol, others(A)[kind], np.ones(n))
