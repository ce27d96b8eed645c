"""Reference elements of the stand-in: monomial bases with Lagrange nodes."""
from __future__ import annotations

import itertools
from functools import lru_cache

import numpy as np

TDIM = {"interval": 1, "triangle": 2, "tetrahedron": 3, "quadrilateral": 2, "hexahedron": 3}
SIMPLEX = {"interval": True, "triangle": True, "tetrahedron": True, "quadrilateral": False, "hexahedron": False}


@lru_cache(maxsize=None)
def exponents(cell, k):
    d = TDIM[cell]
    if SIMPLEX[cell]:
        return [e for e in itertools.product(range(k + 1), repeat=d) if sum(e) <= k]
    return list(itertools.product(range(k + 1), repeat=d))


@lru_cache(maxsize=None)
def nodes(cell, k):
    d = TDIM[cell]
    if k == 0:
        mid = 1.0 / (d + 1) if SIMPLEX[cell] else 0.5
        return np.full((1, d), mid)
    return np.array([[i / k for i in e] for e in exponents(cell, k)], dtype=float).reshape(-1, d)


def monomials(cell, k, X, deriv=()):
    """Values of the reference derivatives of all monomials; X has shape (..., tdim)."""
    d = TDIM[cell]
    out = []
    for e in exponents(cell, k):
        e = list(e)
        c = 1.0
        for a in deriv:
            c *= e[a]
            e[a] -= 1
            if c == 0:
                break
        if c == 0:
            out.append(np.zeros(X.shape[:-1]))
            continue
        v = np.full(X.shape[:-1], c)
        for a in range(d):
            if e[a]:
                v = v * X[..., a] ** e[a]
        out.append(v)
    return np.stack(out, axis=-1)


@lru_cache(maxsize=None)
def coefficients(cell, k):
    V = monomials(cell, k, nodes(cell, k))
    return np.linalg.inv(V)


def tabulate(cell, k, X, deriv=()):
    """Reference derivative of all nodal basis functions, shape (..., ndofs)."""
    return monomials(cell, k, X, deriv) @ coefficients(cell, k)


@lru_cache(maxsize=None)
def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (x + 1), 0.5 * w


@lru_cache(maxsize=None)
def quadrature(cell, degree):
    """Points and weights on the reference cell, exact for the given degree."""
    d = TDIM[cell]
    if d == 0:
        return np.zeros((1, 0)), np.ones(1)
    if not SIMPLEX[cell] or d == 1:
        x, w = gauss(degree // 2 + 1)
        pts = np.array(list(itertools.product(x, repeat=d)))
        wts = np.array([np.prod(c) for c in itertools.product(w, repeat=d)])
        return pts, wts
    x, w = gauss((degree + d) // 2 + 1)
    pts, wts = [], []
    for idx in itertools.product(range(len(x)), repeat=d):
        if d == 2:
            a, b = x[idx[0]], x[idx[1]]
            pts.append((a, b * (1 - a)))
            wts.append(w[idx[0]] * w[idx[1]] * (1 - a))
        else:
            a, b, c = x[idx[0]], x[idx[1]], x[idx[2]]
            pts.append((a, b * (1 - a), c * (1 - a) * (1 - b)))
            wts.append(w[idx[0]] * w[idx[1]] * w[idx[2]] * (1 - a) ** 2 * (1 - b))
    return np.array(pts), np.array(wts)


def facet_vertices(cell):
    """Local vertices of each facet."""
    return {
        "interval": [(0,), (1,)],
        "triangle": [(1, 2), (0, 2), (0, 1)],
        "tetrahedron": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
        "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
        "hexahedron": [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)],
    }[cell]


FACET_CELL = {"interval": None, "triangle": "interval", "tetrahedron": "triangle", "quadrilateral": "interval",
              "hexahedron": "quadrilateral"}


def map_vertices(cell):
    """Local vertices v such that J's columns are x[v] - x[0]."""
    return {"interval": [1], "triangle": [1, 2], "tetrahedron": [1, 2, 3], "quadrilateral": [1, 2],
            "hexahedron": [1, 2, 4]}[cell]
