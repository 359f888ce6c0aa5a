"""Strategies of plain-JSON cases and their expansion into meshes/models."""
import numpy as np
from hypothesis import strategies as st

from . import ref
from .core import hash_perm, hash_unit

TYPE = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4}
KEY1 = st.integers(1, 10**6)
KEY = st.integers(0, 13).flatmap(lambda i: st.just(0) if i < 4 else KEY1)


# ------------------------------------------------------------ scalars
def logf(lo, hi):
    """mantissa * 10**e with e in [lo, hi]; shrinks to 1."""
    return st.builds(
        lambda m, e: float("%ge%d" % (m, e)),
        st.one_of(st.just(1), st.integers(1, 99).map(lambda i: i/10)),
        st.one_of(st.just(0), st.integers(lo, hi)))


def num(n=20, den=4):
    return st.integers(-n*den, n*den).map(lambda i: i/den)


ANGLE = st.one_of(st.sampled_from([0, 90, 180, 270, 45, 30, 135, -60,
                                   90 + 1e-13, 90 - 1e-9, 1e-7, 180 - 1e-11,
                                   2e-4, 90 - 3e-4]),
                  st.integers(-3600, 3600).map(lambda i: i/10))
NU = st.one_of(
    st.sampled_from([0.25, 0.3, 0.0, 1/3, 0.2, 0.3003, -0.3, 0.45, 0.49, 0.1, 0.4]),
    st.integers(-90, 49).map(lambda i: i/100),
    st.sampled_from([0.495, 0.499, 0.4999, -0.97]))
YOUNG = st.one_of(
    st.sampled_from([1.0, 2.1e11, 1e6, 8/3, 200.0, 70e9, 1e-3, 1e-8]),
    logf(-8, 13))
DENS = st.one_of(st.sampled_from([1.0, 7850.0, 2.0, 0.5, 7.85e-9]),
                 logf(-12, 5))
LENGTH = st.one_of(st.just(1.0), logf(-9, 6),
                   st.sampled_from([1e-3, 1e-6, 1e-8, 2e-9, 1e-7, 1e5]))
UNIT = st.integers(-100, 100).map(lambda i: i/100)


def jitter(key, n, dim, stream):
    """Perturbations (n, dim) in [-1, 1) of ``n`` nodes: of all of them, or
    along one axis only, of a few nodes, or of a single one."""
    j = hash_unit(key, n*dim, stream).reshape(n, dim)
    if key == 0:
        return j
    h = (hash_unit(key, 3, stream + 500) + 1)/2
    if h[2] > 0.75:                  # hardly noticeable
        j *= 0.1**(1 + int(24*(h[2] - 0.75)))
    mode = int(8*h[0])
    if mode < 2:
        keep = int(dim*h[1])
        j[:, [d for d in range(dim) if d != keep]] = 0
    elif mode == 2:
        few = hash_unit(key, n, stream + 501) > 0.5
        j[~few] = 0
    elif mode == 3:
        one = int(n*h[1])
        j[[k for k in range(n) if k != one]] = 0
    return j


@st.composite
def mats_st(draw, nmax=3, dens=None, young=YOUNG, contrast=True):
    """Table of (E, nu[, rho]) rows with moderate contrast."""
    n = draw(st.integers(1, nmax))
    if nmax > 1 and draw(st.integers(0, 15)) == 13:
        n = draw(st.integers(nmax + 1, 12))
    E0 = draw(young)
    withd = draw(st.booleans()) if dens is None else dens
    rows = []
    for k in range(n):
        E = E0 if k == 0 or not contrast else E0*draw(
            st.sampled_from([1.0, 2.0, 0.5, 10.0, 0.1, 1.0002]))
        row = [E, draw(NU)]
        if withd:
            row.append(draw(DENS))
        rows.append(row)
    if n > nmax and contrast and n % 2:            # a long table
        h = hash_unit(n, 10*n, 3)
        rows = [[q*(1.0 if i == 1 else 1 + 0.5*h[k])
                 for i, q in enumerate(rows[k % n])] for k in range(10*n)]
    return rows


def elem_ids(n, key):
    """Element numbers: 0.. (key 0), or any labels (shuffled, starting
    somewhere else, repeated).  Nothing refers to an element by its label."""
    if key % 3 == 0:
        return np.arange(n)
    if key % 8 == 7:                 # repeated numbers, as in joined meshes
        return np.arange(n) % max(1, n//2)
    start = (0, 1, 7, 100, 5000, 70000)[key//3 % 6]
    return start + hash_perm(key if key % 3 == 2 else 0, n, 17)


# ------------------------------------------------------------ affine maps
@st.composite
def placement_st(draw, scale=LENGTH, big_offset=True):
    """Stretch/shear, rotation (deg), length scale and offset (in lengths)."""
    return {"sx": draw(st.sampled_from([1, 1, 2, 0.5, 3, 0.3])),
            "sh": draw(st.sampled_from([0, 0, 0.5, -0.7])),
            "rot": draw(st.one_of(st.just(0), ANGLE, ANGLE)),
            "L": draw(scale),
            "ox": draw(st.sampled_from([0, 0, 1, -3, 50, 0, 1, 3e5]
                                       if big_offset
                                       else [0, 0, 1, -3])),
            "oy": draw(st.sampled_from([0, 0, -1, 7, -80] if big_offset
                                       else [0, 0, -1, 7]))}


PLAIN = {"sx": 1, "sh": 0, "rot": 0, "L": 1.0, "ox": 0, "oy": 0}


def rotm(deg):
    q = (deg/90.0) % 4
    if q == int(q):
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(q)]
    else:
        c, s = np.cos(np.deg2rad(deg)), np.sin(np.deg2rad(deg))
    return np.array([[c, -s], [s, c]], dtype=float)


def place(xy, p):
    A = rotm(p["rot"]) @ np.array([[p["sx"], p["sh"]], [0.0, 1.0]])
    return p["L"]*(xy @ A.T + np.array([p["ox"], p["oy"]], dtype=float))


# ------------------------------------------------------------ plane meshes
@st.composite
def mesh_st(draw, kinds=("quad4", "tri3", "tri6", "quad9"), nmax=4,
            curved=True, scale=LENGTH, hole=True, distort=True,
            big_offset=True):
    kind = draw(st.sampled_from(list(kinds)))
    nx = draw(st.integers(1, nmax))
    ny = draw(st.integers(1, nmax))
    case = {"k": kind, "nx": nx, "ny": ny, "grade": draw(KEY),
            "jit": draw(KEY) if distort else 0,
            "mid": (draw(KEY) if curved and kind in ("tri6", "quad9") else 0),
            "diag": draw(KEY) if kind in ("tri3", "tri6") else 0,
            "hole": (draw(st.integers(-2, nx*ny - 1))
                     if hole and min(nx, ny) > 1 else -1),
            "place": draw(placement_st(scale, big_offset)),
            "np": draw(KEY), "ep": draw(KEY), "cs": draw(KEY)}
    return case


def plain_mesh(kind="quad4", nx=1, ny=1, **kw):
    c = {"k": kind, "nx": nx, "ny": ny, "grade": 0, "jit": 0, "mid": 0,
         "diag": 0, "hole": -1, "place": dict(PLAIN), "np": 0, "ep": 0,
         "cs": 0}
    c.update(kw)
    return c


def cracked(m, key):
    """Mesh with the same elements, in parts that meet at distinct nodes
    (one part per element if key is even)."""
    nel = len(m.conn)
    part = np.arange(nel) if key % 2 == 0 else \
        (hash_unit(key, nel, 16) > 0)*1
    ids, xy, conn = {}, list(m.xy), []
    for p, c in zip(part, m.conn):
        row = []
        for i in map(int, c):
            if i not in ids:             # the first part keeps the node
                ids[i] = {p: i}
            if p not in ids[i]:
                ids[i][p] = len(xy)
                xy.append(m.xy[i])
            row.append(ids[i][p])
        conn.append(row)
    out = Mesh()
    out.kind, out.idkey, out.int = m.kind, m.idkey, m.int
    out.xy, out.conn = np.array(xy), np.array(conn)
    return out


class Mesh:
    int = False
    idkey = 0

    """xy, conn (nel, nnode), kind, edges (boundary edges, counter-clockwise;
    rows of 2 or 3 nodes: first, last[, middle]), grid corner positions."""

    def elements(self, mat_of=None):
        nel = len(self.conn)
        els = np.zeros((nel, 3 + self.conn.shape[1]), dtype=int)
        els[:, 0] = elem_ids(nel, self.idkey)
        els[:, 1] = TYPE[self.kind]
        if mat_of is not None:
            els[:, 2] = mat_of
        els[:, 3:] = self.conn
        return els

    def nodes(self):
        out = np.zeros((len(self.xy), 3))
        out[:, 0] = np.arange(len(self.xy))
        out[:, 1:] = self.xy
        return out.astype(int) if self.int else out

    @property
    def size(self):
        return float(np.ptp(self.xy, axis=0).max())


EDGES = {"tri3": [(0, 1), (1, 2), (2, 0)],
         "quad4": [(0, 1), (1, 2), (2, 3), (3, 0)],
         "tri6": [(0, 1, 3), (1, 2, 4), (2, 0, 5)],
         "quad9": [(0, 1, 4), (1, 2, 5), (2, 3, 6), (3, 0, 7)]}
CORNERS = {"tri3": 3, "tri6": 3, "quad4": 4, "quad9": 4}


def cyc(kind, conn, s):
    """Cyclic shift of the local numbering (same element)."""
    nc = CORNERS[kind]
    s = s % nc
    idx = [(i + s) % nc for i in range(nc)]
    if kind in ("tri6", "quad9"):
        idx += [nc + (i + s) % nc for i in range(nc)]
    if kind == "quad9":
        idx.append(8)
    return conn[idx]


def build_mesh(case):
    kind, nx, ny = case["k"], case["nx"], case["ny"]
    # corner grid, graded and jittered
    hx = 1 + 0.5*hash_unit(case["grade"], nx, 1)
    hy = 1 + 0.5*hash_unit(case["grade"], ny, 2)
    X = np.concatenate([[0], np.cumsum(hx)])
    Y = np.concatenate([[0], np.cumsum(hy)])
    gx, gy = np.meshgrid(X, Y)
    xy = np.column_stack([gx.ravel(), gy.ravel()])
    amp = case.get("jamp", 0.2)*min(hx.min(), hy.min())
    jit = jitter(case["jit"], len(xy), 2, 3)
    if case.get("box"):                  # keep the boundary where it is
        bnd = ((xy[:, 0] == X[0]) | (xy[:, 0] == X[-1])
               | (xy[:, 1] == Y[0]) | (xy[:, 1] == Y[-1]))
        jit[bnd] = 0
    xy = xy + amp*jit
    nid = lambda i, j: j*(nx + 1) + i                       # noqa: E731
    cells = []
    dg = hash_unit(case["diag"], nx*ny, 4)
    for j in range(ny):
        for i in range(nx):
            c = j*nx + i
            if c == case["hole"]:
                continue
            q = [nid(i, j), nid(i+1, j), nid(i+1, j+1), nid(i, j+1)]
            if kind in ("quad4", "quad9"):
                cells.append(q)
            elif dg[c] >= 0:
                cells += [[q[0], q[1], q[2]], [q[2], q[3], q[0]]]
            else:
                cells += [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
    cells = np.array(cells)
    used = np.unique(cells)
    remap = -np.ones(len(xy), dtype=int)
    remap[used] = np.arange(len(used))
    cells = remap[cells]
    corner_grid = used           # original grid ids of the corners
    xy = xy[used]
    ncorner = len(xy)
    if kind in ("tri6", "quad9"):
        nc = cells.shape[1]
        mids = {}
        pts = list(xy)
        rows = []
        for cell in cells:
            row = list(cell)
            for a in range(nc):
                e = (cell[a], cell[(a + 1) % nc])
                key = (min(e), max(e))
                if key not in mids:
                    mids[key] = len(pts)
                    pts.append(0.5*(xy[e[0]] + xy[e[1]]))
                row.append(mids[key])
            if kind == "quad9":
                row.append(len(pts))
                pts.append(xy[cell].mean(axis=0))
            rows.append(row)
        conn = np.array(rows)
        base = np.array(pts)
        amp = 0.12*min(hx.min(), hy.min())
        bump = jitter(case["mid"], len(base), 2, 5)
        bump[:ncorner] = 0
        if case.get("box"):
            bump[(base[:, 0] <= X[0] + 1e-9) | (base[:, 0] >= X[-1] - 1e-9)
                 | (base[:, 1] <= Y[0] + 1e-9)
                 | (base[:, 1] >= Y[-1] - 1e-9)] = 0
        xy = base
        while case["mid"]:
            cand = base + amp*bump
            if min(ref.min_jac(kind, cand[c], 4) for c in conn) > 0.15:
                xy = cand
                break
            amp *= 0.5
            if amp < 1e-3:
                break
    else:
        conn = cells
    xy = place(xy, case["place"])
    if case.get("int"):                  # whole-number coordinates
        edge = np.linalg.norm(xy[conn] - xy[np.roll(conn, 1, axis=1)],
                              axis=2)
        xy = np.rint(1000*xy/edge[edge > 0].min())
    # numbering
    p = hash_perm(case["np"], len(xy), 6)        # new index -> old index
    inv = np.empty(len(p), dtype=int)
    inv[p] = np.arange(len(p))
    xy = xy[p]
    conn = inv[conn]
    e = hash_perm(case["ep"], len(conn), 7)
    conn = conn[e]
    sh = np.floor(2*(hash_unit(case["cs"], len(conn), 8) + 1)).astype(int)
    if case["cs"]:
        conn = np.array([cyc(kind, c, s) for c, s in zip(conn, sh)])
    m = Mesh()
    m.kind, m.xy, m.conn = kind, xy, conn
    m.eperm = e
    m.int = bool(case.get("int"))
    m.idkey = case["ep"]
    # grid id of corner nodes: m.corner_of[grid id] = node number
    m.corner_of = {int(g): int(inv[k]) for k, g in enumerate(corner_grid)}
    m.shape = (nx, ny)
    cnt = {}
    for el, c in enumerate(conn):
        for loc in EDGES[kind]:
            cnt.setdefault(frozenset((c[loc[0]], c[loc[1]])), []).append(
                tuple(int(c[q]) for q in loc))
    m.edges = [v[0] for v in cnt.values() if len(v) == 1]
    return m


def traction_loads(m, sigma):
    """Consistent nodal forces (n, 2) of a uniform stress (sxx, syy, sxy)."""
    S = np.array([[sigma[0], sigma[2]], [sigma[2], sigma[1]]])
    f = np.zeros_like(m.xy)
    g, w = np.polynomial.legendre.leggauss(3)
    for e in m.edges:
        if len(e) == 2:
            d = m.xy[e[1]] - m.xy[e[0]]
            t = S @ np.array([d[1], -d[0]])
            f[e[0]] += t/2
            f[e[1]] += t/2
        else:
            x = m.xy[list(e)]
            for xi, wi in zip(g, w):
                N = np.array([xi*(xi - 1)/2, xi*(xi + 1)/2, 1 - xi*xi])
                dN = np.array([xi - .5, xi + .5, -2*xi])
                d = dN @ x
                f[list(e)] += wi*np.outer(N, S @ np.array([d[1], -d[0]]))
    return f


def far_pair(xy, key):
    """Two well separated nodes (statically determinate supports)."""
    n = len(xy)
    a = int((hash_unit(key, 1, 9)[0] + 1)/2*n) % n if key else 0
    d = np.linalg.norm(xy - xy[a], axis=1)
    return a, int(d.argmax())


def determinate_supports(xy, key):
    """cons (n, 2) with a pin and a roller, and a function that removes from
    a displacement field the rigid motion that violates them."""
    cons = np.zeros((len(xy), 2), dtype=int)
    a, b = far_pair(xy, key)
    cons[a] = -1
    d = xy[b] - xy[a]
    axis = 1 if abs(d[0]) >= abs(d[1]) else 0
    cons[b, axis] = -1

    def settle(u):
        u = u - u[a]
        r = np.column_stack([-(xy[:, 1] - xy[a, 1]), xy[:, 0] - xy[a, 0]])
        return u - r*(u[b, axis]/r[b, axis])
    return cons, settle


def load_rows(f, key, split=True, ndof=2):
    """Turn nodal forces (n, ndof) into a load table with unsorted, split and
    zero rows (depending on key); key 0: plain table."""
    nz = np.flatnonzero(np.abs(f).max(axis=1) > 0)
    rows = [np.concatenate([[i], f[i]]) for i in nz]
    if key and split:
        h = hash_unit(key, len(rows) + 1, 10)
        extra, twice = [], False
        for k, i in enumerate(nz):
            if h[k] > 0.3:          # split in two rows
                part = f[i]*np.round(h[k], 2)
                rows[k][1:] = f[i] - part
                extra.append(np.concatenate([[i], part]))
        rows += extra
        if h[-1] < -0.6:            # the same row twice, one after the other
            rows = [r*np.where(np.arange(ndof + 1) == 0, 1, 0.5)
                    for r in rows for _ in (0, 1)]
            twice = True
        if h[-1] > 0.5:             # one component in each row
            rows = [np.concatenate([[r[0]], np.eye(ndof)[d]*r[1 + d]])
                    for r in rows for d in range(ndof) if r[1 + d] != 0]
        rows.append(np.concatenate([[int(abs(h[-1])*1000) % len(f)],
                                    np.zeros(ndof)]))
    if not rows:
        rows = [np.zeros(ndof + 1)]
    rows = np.array(rows)
    if key and split and twice:
        return rows
    return rows[hash_perm(key, len(rows), 11)]


# ------------------------------------------------------------ general models
@st.composite
def model_st(draw, kinds=("quad4", "tri3", "tri6", "quad9"), nmax=3,
             scale=LENGTH, dens=None, curved=True, young=YOUNG, ints=False):
    """ints: now and then tables of whole numbers (1: nodes, 2: loads)"""
    case = draw(model_base(kinds, nmax, scale, dens, curved, young))
    case["matkey"] = case["matkey"] or len(case["mats"]) > 3
    if ints:
        k = draw(st.sampled_from([0]*7 + [1, 2, 3]))
        case["mesh"]["int"] = k % 2
        case["lint"] = k//2
        if k//2:
            case["lmag"] = 1.0
    return case


@st.composite
def model_base(draw, kinds, nmax, scale, dens, curved, young):
    return {"mesh": draw(mesh_st(kinds, nmax, scale=scale, curved=curved)),
            "mats": draw(mats_st(dens=dens, young=young)),
            "matkey": draw(KEY),
            "sup": draw(KEY), "supkind": draw(st.sampled_from(
                ["pair", "side", "many", "corner", "pair", "side", "many",
                 "corner", "few"])),
            "load": draw(KEY1), "nload": draw(st.integers(1, 8)),
            "lmag": draw(logf(-12, 9)), "rows": draw(KEY),
            "lkind": draw(st.sampled_from(["any"]*6 + ["couple", "axis",
                                                       "down"]))}


def store(a, key):
    """The same table stored another way (most often as it is): column-major,
    a view of something larger, backwards, read-only."""
    a = np.array(a)
    k = key % 11
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        out = np.full((2*len(a) + 1,) + a.shape[1:], -7, dtype=a.dtype)
        out[1::2] = a
        return out[1::2]
    if k == 3:
        return a[::-1].copy()[::-1]
    if k == 4 and a.ndim == 2:
        out = np.full((len(a), a.shape[1] + 2), 3, dtype=a.dtype)
        out[:, 1:-1] = a
        return out[:, 1:-1]
    if k == 5:
        a.flags.writeable = False
    if k == 6 and a.dtype.kind == "i":
        return a.astype(np.int32)
    return a


class Model:
    store = 0

    def data(self):
        """Private writable copies of the tables."""
        return {"nodes": self.nodes.copy(), "cons": self.cons.copy(),
                "elements": self.elements.copy(), "mats": self.mats.copy(),
                "loads": self.loads.copy()}

    def tables(self, more=0):
        """The tables as some caller might keep them."""
        k = self.store + more
        return {name: store(t, k//11**i)
                for i, (name, t) in enumerate(self.data().items())}


def supports(m, key, kind):
    """A support pattern that always removes the rigid motions."""
    cons, _ = determinate_supports(m.xy, key)
    nx, ny = m.shape
    n = len(m.xy)
    if kind == "side":
        for j in range(ny + 1):
            if j*(nx + 1) in m.corner_of:
                cons[m.corner_of[j*(nx + 1)]] = -1
    elif kind == "many":
        h = hash_unit(key or 1, 2*n, 12).reshape(n, 2)
        cons[h > 0.6] = -1
    elif kind == "corner":
        cons[:2] = -1
        cons[-1] = -1
    elif kind == "few":              # hardly anything can move
        cons[:] = -1
        for i in hash_perm(key or 1, 2*n, 18)[:1 + key % 3]:
            cons[i//2, i % 2] = 0
    if (cons == 0).sum() == 0:
        cons[n//2] = 0
    return cons


def build_model(case):
    m = build_mesh(case["mesh"])
    mo = Model()
    mo.mesh = m
    nel = len(m.conn)
    mats = np.array(case["mats"], dtype=float)
    mat_of = np.floor((hash_unit(case["matkey"], nel, 13) + 1)/2*len(mats)
                      ).astype(int) % len(mats)
    mo.mat_of = mat_of
    mo.elements = m.elements(mat_of)
    mo.nodes = m.nodes()
    mo.mats = mats
    mo.cons = supports(m, case["sup"], case["supkind"])
    n = len(m.xy)
    f = np.zeros((n, 2))
    nl = case["nload"]
    idx = np.floor((hash_unit(case["load"], nl, 14) + 1)/2*n).astype(int) % n
    val = np.round(hash_unit(case["load"], 2*nl, 15).reshape(nl, 2), 3)
    val[val == 0] = 0.5
    lkind = case.get("lkind", "any")
    if lkind == "axis":                  # all along one axis
        val[:, case["load"] % 2] = 0
    elif lkind == "down":                # all in one direction, downwards
        val[:, case["load"] % 2] = 0
        val = -np.abs(val)
    for i, v in zip(idx, val):
        f[i] += case["lmag"]*v
        if lkind == "couple":            # no resultant
            f[(i + 1 + case["load"] % (n - 1)) % n] -= case["lmag"]*v
    if case.get("lint"):
        f = np.rint(500*f)
    mo.f = f
    mo.store = case["load"] if case["matkey"] else 0
    mo.loads = load_rows(f, case["rows"], split=not case.get("lint"))
    if case.get("lint"):
        mo.loads = mo.loads.astype(int)
    return mo


# ------------------------------------------------------------ single elements
@st.composite
def elem_st(draw, kinds=tuple(ref.NODES), curved=True, scale=LENGTH,
            big_offset=True):
    kind = draw(st.sampled_from(list(kinds)))
    c = {"k": kind, "jit": draw(KEY),
         "mid": draw(KEY) if curved and kind in ("tri6", "quad8", "quad9")
         else 0,
         "L": draw(scale),
         "off": draw(st.lists(st.sampled_from([0, 0, 1, -3, 40]),
                              min_size=ref.DIM[kind],
                              max_size=ref.DIM[kind])),
         "aff": draw(KEY), "rot": draw(ANGLE),
         "int": draw(st.sampled_from([0, 0, 0, 0, 2, 20])),
         "asp": draw(st.sampled_from([1]*8 + [5, 0.2, 40, 0.02]))}
    if not big_offset:
        c["off"] = [min(o, 1) for o in c["off"]]
    if ref.DIM[kind] == 3:
        c["rot2"] = draw(ANGLE)
    return c


def rot3(a, b):
    r = np.eye(3)
    r[:2, :2] = rotm(a)
    q = np.eye(3)
    q[1:, 1:] = rotm(b)
    return r @ q


def build_elem(c, straight=False):
    """Coordinates of a valid (positively oriented) element."""
    kind = c["k"]
    dim = ref.DIM[kind]
    base = ref.NODES[kind].copy()
    ncor = {"tri3": 3, "tri6": 3, "quad4": 4, "quad8": 4, "quad9": 4,
            "tet4": 4, "hex8": 8}[kind]
    simplex = ref.DOMAIN[kind] in ("tri", "tet")
    amp = 0.15 if simplex else {2: 0.4, 3: 0.25}[dim]
    cor = base[:ncor] + amp*jitter(c["jit"], ncor, dim, 21)
    # affine part with positive determinant: product of triangular matrices
    h = hash_unit(c["aff"], 6, 22)
    A = np.eye(dim) + np.triu(0.8*h[:1][0]*np.ones((dim, dim)), 1)
    A = A @ np.diag(2.0**(1.5*h[1:1 + dim]))
    A[:, 0] *= c.get("asp", 1)
    R = rotm(c["rot"]) if dim == 2 else rot3(c["rot"], c["rot2"])
    if kind in ("tri6", "quad8", "quad9"):
        lin = "tri3" if kind == "tri6" else "quad4"
        mids = np.array([ref.shape(lin, p)[0] @ cor for p in base[ncor:]])
        x = np.vstack([cor, mids])
        if c.get("mid") and not straight:
            a = 0.3 if ncor == 4 else 0.15
            bump = jitter(c["mid"], len(mids), 2, 23)
            while a > 1e-3:
                y = x.copy()
                y[ncor:] += a*bump
                if ref.min_jac(kind, y, 5) > 0.15:
                    x = y
                    break
                a *= 0.6
    else:
        x = cor
    if kind == "hex8":
        a = 1.0
        while ref.min_jac(kind, x, 4) < 0.15 and a > 1e-3:
            a *= 0.6
            x = base + a*(cor - base)
    x = x @ (R @ A).T
    if c.get("int"):
        # integer coordinates, as in the documentation of the elements
        y = np.rint(c["int"]*(x + np.array(c["off"][:dim]))).astype(int)
        if straight and simplex:
            y = 2*y
            for a, (i, j) in enumerate(((0, 1), (1, 2), (2, 0))):
                if len(y) == 6:
                    y[3 + a] = (y[i] + y[j])//2
        if (simplex or not straight) and ref.min_jac(kind, y, 5) > 0.15:
            return y
    return c["L"]*(x + np.array(c["off"][:dim], dtype=float))
