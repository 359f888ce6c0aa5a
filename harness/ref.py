"""Independent reference: shape functions by Vandermonde inversion, quadrature
from numpy.polynomial / Duffy, reference element matrices.  Nothing here is
imported from the package under test."""
import functools
import itertools

import numpy as np

# ---------------------------------------------------------------- families
_Q4 = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
_Q8 = _Q4 + [(0, -1), (1, 0), (0, 1), (-1, 0)]
_T3 = [(0, 0), (1, 0), (0, 1)]
NODES = {
    "tri3": _T3,
    "tri6": _T3 + [(.5, 0), (.5, .5), (0, .5)],
    "quad4": _Q4,
    "quad8": _Q8,
    "quad9": _Q8 + [(0, 0)],
    "tet4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "hex8": [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1),
             (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)],
}
NODES = {k: np.array(v, dtype=float) for k, v in NODES.items()}
MONO = {
    "tri3": [(0, 0), (1, 0), (0, 1)],
    "tri6": [(i, j) for i in range(3) for j in range(3) if i + j <= 2],
    "quad4": [(i, j) for i in range(2) for j in range(2)],
    "quad8": [(i, j) for i in range(3) for j in range(3) if i + j <= 3],
    "quad9": [(i, j) for i in range(3) for j in range(3)],
    "tet4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "hex8": list(itertools.product(range(2), repeat=3)),
}
DOMAIN = {"tri3": "tri", "tri6": "tri", "quad4": "quad", "quad8": "quad",
          "quad9": "quad", "tet4": "tet", "hex8": "hex"}
DIM = {k: v.shape[1] for k, v in NODES.items()}
NN = {k: v.shape[0] for k, v in NODES.items()}


def monomials(expo, pt):
    pt = np.asarray(pt, dtype=float)
    return np.array([np.prod([p**e for p, e in zip(pt, ex)]) for ex in expo])


def dmonomials(expo, pt):
    out = np.zeros((len(pt), len(expo)))
    for d in range(len(pt)):
        for m, ex in enumerate(expo):
            if ex[d] == 0:
                continue
            v = ex[d]
            for k, (p, e) in enumerate(zip(pt, ex)):
                v = v*p**(e - 1 if k == d else e)
            out[d, m] = v
    return out


@functools.lru_cache(None)
def _coef(kind):
    van = np.array([monomials(MONO[kind], p) for p in NODES[kind]])
    return np.linalg.inv(van)          # columns: shape functions


def shape(kind, pt):
    c = _coef(kind)
    return monomials(MONO[kind], pt) @ c, dmonomials(MONO[kind], pt) @ c


# ---------------------------------------------------------------- quadrature
@functools.lru_cache(None)
def quad(domain, n):
    """Points and weights on the parent domain; weights sum to its measure."""
    x, w = np.polynomial.legendre.leggauss(n)
    if domain == "line":
        return x[:, None], w
    if domain in ("quad", "hex"):
        d = 2 if domain == "quad" else 3
        pts = np.array(list(itertools.product(x, repeat=d)))
        wts = np.array([np.prod(p) for p in itertools.product(w, repeat=d)])
        return pts, wts
    u, wu = 0.5*(x + 1), 0.5*w
    if domain == "tri":
        pts, wts = [], []
        for a, wa in zip(u, wu):
            for b, wb in zip(u, wu):
                pts.append((a, b*(1 - a)))
                wts.append(wa*wb*(1 - a))
        return np.array(pts), np.array(wts)
    if domain == "tet":
        pts, wts = [], []
        for a, wa in zip(u, wu):
            for b, wb in zip(u, wu):
                for c, wc in zip(u, wu):
                    pts.append((a, b*(1 - a), c*(1 - a)*(1 - b)))
                    wts.append(wa*wb*wc*(1 - a)**2*(1 - b))
        return np.array(pts), np.array(wts)
    raise KeyError(domain)


# ---------------------------------------------------------------- elasticity
def hooke_3d(E, nu):
    """From the compliance, Voigt order xx yy zz yz xz xy."""
    S = np.zeros((6, 6))
    S[:3, :3] = -nu/E
    S[range(3), range(3)] = 1/E
    S[range(3, 6), range(3, 6)] = 2*(1 + nu)/E
    return np.linalg.inv(S)


def plane_stress(E, nu):
    S = np.array([[1/E, -nu/E, 0], [-nu/E, 1/E, 0], [0, 0, 2*(1 + nu)/E]])
    return np.linalg.inv(S)


def strain_mat(dNdx):
    """Strain-displacement matrix, engineering shear."""
    dim, n = dNdx.shape
    if dim == 2:
        B = np.zeros((3, 2*n))
        B[0, 0::2] = dNdx[0]
        B[1, 1::2] = dNdx[1]
        B[2, 0::2] = dNdx[1]
        B[2, 1::2] = dNdx[0]
        return B
    B = np.zeros((6, 3*n))
    for d in range(3):
        B[d, d::3] = dNdx[d]
    for row, (a, b) in zip((3, 4, 5), ((1, 2), (0, 2), (0, 1))):
        B[row, a::3] = dNdx[b]
        B[row, b::3] = dNdx[a]
    return B


def interp_mat(N, dim):
    H = np.zeros((dim, dim*len(N)))
    for d in range(dim):
        H[d, d::dim] = N
    return H


def kin(kind, coord, pt):
    """N, B, det at a parent point."""
    N, dN = shape(kind, pt)
    J = dN @ coord
    return N, strain_mat(np.linalg.solve(J, dN)), np.linalg.det(J)


def stiff(kind, coord, C, n=5):
    coord = np.asarray(coord, dtype=float)
    nd = coord.size
    K = np.zeros((nd, nd))
    for pt, w in zip(*quad(DOMAIN[kind], n)):
        _, B, det = kin(kind, coord, pt)
        K += w*det*(B.T @ C @ B)
    return K


def mass(kind, coord, rho, n=5):
    coord = np.asarray(coord, dtype=float)
    nd = coord.size
    M = np.zeros((nd, nd))
    for pt, w in zip(*quad(DOMAIN[kind], n)):
        N, dN = shape(kind, pt)
        H = interp_mat(N, DIM[kind])
        M += rho*w*np.linalg.det(dN @ coord)*(H.T @ H)
    return M


def measure(kind, coord, n=4):
    return sum(w*np.linalg.det(shape(kind, pt)[1] @ coord)
               for pt, w in zip(*quad(DOMAIN[kind], n)))


def min_jac(kind, coord, m=5):
    """Smallest Jacobian over a lattice of the closed parent domain,
    relative to the mean one."""
    g = np.linspace(0, 1, m)
    dim = DIM[kind]
    pts = np.array(list(itertools.product(g, repeat=dim)))
    if DOMAIN[kind] in ("tri", "tet"):
        pts = pts[pts.sum(axis=1) <= 1 + 1e-12]
    else:
        pts = 2*pts - 1
    dets = np.array([np.linalg.det(shape(kind, p)[1] @ coord) for p in pts])
    return dets.min()/max(abs(dets).mean(), 1e-300)


def inverse_map(kind, coord, x, tol=1e-13):
    """Parent coordinates of physical point x (Newton)."""
    pt = np.zeros(DIM[kind]) if DOMAIN[kind] in ("quad", "hex") \
        else np.full(DIM[kind], 1/(DIM[kind] + 1))
    size = np.ptp(coord, axis=0).max()
    for _ in range(50):
        N, dN = shape(kind, pt)
        r = x - N @ coord
        pt = pt + np.linalg.solve((dN @ coord).T, r)
        if np.abs(r).max() < tol*size:
            return pt
    return None


# Gauss points of the elements used in strain recovery
_g = 1/np.sqrt(3)
_s15 = np.sqrt(15)
_a = (6 - _s15)/21
_b = (6 + _s15)/21
GP = {"quad4": np.array([(-_g, -_g), (-_g, _g), (_g, -_g), (_g, _g)]),
      "tri3": np.array([(1/6, 1/6), (2/3, 1/6), (1/6, 2/3)]),
      "tri6": np.array([(_a, _a), (1 - 2*_a, _a), (_a, 1 - 2*_a),
                        (_b, 1 - 2*_b), (_b, _b), (1 - 2*_b, _b),
                        (1/3, 1/3)])}


def nearest_gp(kind):
    """Index of the Gauss point nearest to each node (parent domain)."""
    d = np.linalg.norm(NODES[kind][:, None, :] - GP[kind][None, :, :], axis=2)
    return d.argmin(axis=1)


# ---------------------------------------------------------------- global FEM
def assemble(nodes_xy, conn_kinds, mats_of, ndof=2, rho=None):
    """Dense reference stiffness of plane elements. conn_kinds is a list of
    (kind, connectivity, (E, nu))."""
    n = nodes_xy.shape[0]
    K = np.zeros((2*n, 2*n))
    for (kind, conn), (E, nu) in zip(conn_kinds, mats_of):
        ke = stiff(kind, nodes_xy[conn], plane_stress(E, nu))
        ix = np.ravel([(2*c, 2*c + 1) for c in conn])
        K[np.ix_(ix, ix)] += ke
    return K
