"""Independent reference implementations (no code of /repo is used here)."""
import numpy as np


def find_span(knots, deg, x):
    """left-continuous span: k[i] < x <= k[i+1]; first non-empty interval for x == k[0]"""
    n = len(knots) - deg - 1
    if x <= knots[0]:
        i = deg
        while i < n - 1 and knots[i + 1] <= knots[0]:
            i += 1
        return i
    i = deg
    for j in range(deg, n):
        if knots[j] < x <= knots[j + 1]:
            i = j
            break
    else:
        for j in range(n - 1, deg - 1, -1):
            if knots[j] < knots[j + 1]:
                i = j
                break
    return i


def deboor(knots, deg, coeffs, x, span=None):
    """de Boor's algorithm; coeffs may be (n,) or (n, m)"""
    c = np.asarray(coeffs, dtype=float)
    i = find_span(knots, deg, x) if span is None else span
    d = [c[j + i - deg].copy() for j in range(deg + 1)]
    for r in range(1, deg + 1):
        for j in range(deg, r - 1, -1):
            lo, hi = knots[j + i - deg], knots[j + 1 + i - r]
            a = (x - lo)/(hi - lo)
            d[j] = (1. - a)*d[j - 1] + a*d[j]
    return d[deg]


def evals(knots, deg, coeffs, xs):
    return np.array([deboor(knots, deg, coeffs, float(x)) for x in xs])


def basis_matrix(knots, deg, xs):
    n = len(knots) - deg - 1
    return evals(knots, deg, np.eye(n), xs)


def piece_poly(knots, deg, coeffs, i):
    """polynomial (np.poly1d in s = x - mid, mid) of span i, by interpolation in Chebyshev points"""
    a, b = knots[i], knots[i + 1]
    mid, h = 0.5*(a + b), 0.5*(b - a)
    s = np.cos((2*np.arange(deg + 1) + 1)*np.pi/(2*(deg + 1)))
    v = np.array([deboor(knots, deg, coeffs, mid + h*q, span=i) for q in s])
    p = np.polynomial.chebyshev.chebfit(s, v, deg)
    return p, mid, h


def deriv_eval(knots, deg, coeffs, x, o, span=None):
    """o-th derivative at x through the polynomial piece"""
    i = find_span(knots, deg, x) if span is None else span
    p, mid, h = piece_poly(knots, deg, coeffs, i)
    dp = np.polynomial.chebyshev.chebder(p, o) if o > 0 else p
    return np.polynomial.chebyshev.chebval((x - mid)/h, dp)/h**o


def integral(knots, deg, coeffs, a, b):
    """exact integral over [a, b] (Gauss-Legendre per polynomial piece)"""
    sign = 1.
    if b < a:
        a, b, sign = b, a, -1.
    brk = sorted(set([a, b] + [k for k in knots if a < k < b]))
    xg, wg = np.polynomial.legendre.leggauss(deg//2 + 1)
    tot = 0.
    for lo, hi in zip(brk[:-1], brk[1:]):
        m, h = 0.5*(lo + hi), 0.5*(hi - lo)
        for x, w in zip(xg, wg):
            tot = tot + w*h*deboor(knots, deg, coeffs, m + h*x)
    return sign*tot


def sample_points(knots, extra=()):
    """knots, points near knots, interior points of each interval"""
    u = sorted(set(float(k) for k in knots))
    xs = list(u)
    for a, b in zip(u[:-1], u[1:]):
        for f in (0.01, 0.2113, 0.5, 0.777, 0.99):
            xs.append(a + f*(b - a))
    for e in extra:
        xs.append(u[0] + e*(u[-1] - u[0]))
    return sorted(set(min(max(x, u[0]), u[-1]) for x in xs))
