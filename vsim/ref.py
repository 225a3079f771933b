"""Reference model of Kerr geodesics, written independently of the library.

Constants of motion from a state through the metric, states from constants through the radial
and polar potentials, and a step-by-step integration of the geodesic equation in Mino time (the
second-order form, so turning points are ordinary points).
"""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.optimize import brentq


def radial_poly(a, E, L, Q):
    return np.array(
        [
            E**2 - 1,
            2.0,
            a**2 * (E**2 - 1) - L**2 - Q,
            2 * ((a * E - L) ** 2 + Q),
            -(a**2) * Q,
        ]
    )


def roots(a, E, L, Q):
    return np.roots(radial_poly(a, E, L, Q))


def real_roots(a, E, L, Q):
    r = roots(a, E, L, Q)
    return np.sort(r[np.abs(r.imag) < 1e-9].real)


def zminus(a, E, L, Q):
    """Smaller root of the polar polynomial in z = cos^2 theta, in cancellation-free form."""
    b = a * a * (1 - E * E)
    s = Q + L * L + b
    return 2 * Q / (s + np.sqrt(s * s - 4 * b * Q))


def R(a, E, L, Q, r):
    D = r * r - 2 * r + a * a
    return (E * (r * r + a * a) - a * L) ** 2 - D * (r * r + (L - a * E) ** 2 + Q)


def Theta(a, E, L, Q, th):
    c2 = np.cos(th) ** 2
    return Q - c2 * (a * a * (1 - E * E) + L * L / (1 - c2))


def state(a, E, L, Q, r, th, sr, sth, t=0.0, phi=0.0):
    """Position and four-velocity at (r, theta) with the given signs of motion."""
    S = r * r + a * a * np.cos(th) ** 2
    D = r * r - 2 * r + a * a
    P = E * (r * r + a * a) - a * L
    ut = ((r * r + a * a) / D * P + a * (L - a * E * np.sin(th) ** 2)) / S
    ur = sr * np.sqrt(max(R(a, E, L, Q, r), 0.0)) / S
    uth = sth * np.sqrt(max(Theta(a, E, L, Q, th), 0.0)) / S
    uph = (a / D * P - a * E + L / np.sin(th) ** 2) / S
    return [float(t), float(r), float(th), float(phi)], [float(ut), float(ur), float(uth), float(uph)]


def covariant(a, x, u):
    """E, L, Q and the norm of u from position and four-velocity alone."""
    t, r, th, ph = [float(v) for v in x]
    ut, ur, uth, uph = [float(v) for v in u]
    s2 = np.sin(th) ** 2
    c2 = np.cos(th) ** 2
    S = r * r + a * a * c2
    D = r * r - 2 * r + a * a
    gtt = -(1 - 2 * r / S)
    gtp = -2 * a * r * s2 / S
    gpp = s2 * (r * r + a * a + 2 * a * a * r * s2 / S)
    E = -(gtt * ut + gtp * uph)
    L = gtp * ut + gpp * uph
    Q = (S * uth) ** 2 + c2 * (a * a * (1 - E * E) + L * L / s2)
    terms = [gtt * ut * ut, 2 * gtp * ut * uph, gpp * uph * uph, S / D * ur * ur, S * uth * uth]
    return E, L, Q, sum(terms), max(abs(v) for v in terms)


def rhs(a, E, L, Q):
    K = (L - a * E) ** 2 + Q

    def f(l, y):
        t, r, th, ph, v, w = y
        D = r * r - 2 * r + a * a
        s, c = np.sin(th), np.cos(th)
        P = E * (r * r + a * a) - a * L
        dR = 4 * E * r * P - (2 * r - 2) * (r * r + K) - 2 * r * D
        dT = 2 * c * s * a * a * (1 - E * E) + 2 * c * L * L / s**3
        return [(r * r + a * a) / D * P + a * (L - a * E * s * s), v, w, a / D * P - a * E + L / s**2, dR / 2, dT / 2]

    return f


def rhs_rth(a, E, L, Q):
    """r and theta only: regular through both horizons."""
    full = rhs(a, E, L, Q)
    K = (L - a * E) ** 2 + Q

    def f(l, y):
        r, th, v, w = y
        D = r * r - 2 * r + a * a
        s, c = np.sin(th), np.cos(th)
        P = E * (r * r + a * a) - a * L
        dR = 4 * E * r * P - (2 * r - 2) * (r * r + K) - 2 * r * D
        dT = 2 * c * s * a * a * (1 - E * E) + 2 * c * L * L / s**3
        return [v, w, dR / 2, dT / 2]

    return f


def integrate(a, consts, x, rdot, thdot, lams, rth_only=False):
    """Positions at Mino times lams (relative, all of one sign, any order)."""
    lams = np.asarray(lams, float)
    end = lams[np.argmax(np.abs(lams))]
    order = np.argsort(np.abs(lams))
    if rth_only:
        y0 = [x[1], x[2], rdot, thdot]
        f = rhs_rth(a, *consts)
    else:
        y0 = [x[0], x[1], x[2], x[3], rdot, thdot]
        f = rhs(a, *consts)
    sol = solve_ivp(f, (0, end), y0, method="DOP853", rtol=1e-11, atol=1e-11, t_eval=lams[order])
    if sol.status != 0 or sol.y.shape[1] != len(lams):
        return None
    out = np.empty((sol.y.shape[0], len(lams)))
    out[:, order] = sol.y
    return out


def constants(a, p, e, x):
    """E, L, Q of a bound orbit (a, p, e, x) from R(r1) = R(r2) = 0 (R = R' = 0 if e = 0)."""
    r1, r2 = p / (1 - e), p / (1 + e)
    zm = 1 - x * x

    def coef(r):
        D = r * r - 2 * r + a * a
        f = r**4 + a * a * (r * (r + 2) + zm * D)
        g = 2 * a * r
        h = r * (r - 2) + zm / (1 - zm) * D
        d = (r * r + a * a * zm) * D
        return f, g, h, d

    def dcoef(r):
        f = 4 * r**3 + 2 * a * a * ((1 + zm) * r + (1 - zm))
        g = 2 * a
        h = 2 * (r - 1) / (1 - zm)
        d = 2 * (2 * r - 3) * r * r + 2 * a * a * ((1 + zm) * r - zm)
        return f, g, h, d

    f1, g1, h1, d1 = coef(r2)
    f2, g2, h2, d2 = coef(r1) if e > 0 else dcoef(r2)
    k = d1 * h2 - d2 * h1
    ep = d1 * g2 - d2 * g1
    rho = f1 * h2 - f2 * h1
    eta = f1 * g2 - f2 * g1
    sig = g1 * h2 - g2 * h1
    D = np.sign(x)
    E2 = (k * rho + 2 * ep * sig - D * 2 * np.sqrt(sig * (sig * ep**2 + rho * ep * k - eta * k**2))) / (rho**2 + 4 * eta * sig)
    E = np.sqrt(E2)
    L = -g1 * E / h1 + D / h1 * np.sqrt(g1 * g1 * E2 + (f1 * E2 - d1) * h1)
    Q = zm * (a * a * (1 - E2) + L * L / (1 - zm))
    return float(E), float(L), float(Q)


def separatrix(a, e, x):
    """p at which the two inner turning points of a bound orbit merge (r3 = r2), 0 <= a < 1."""
    if a == 0:
        return 6 + 2 * e
    e = max(e, 1e-9)

    def gap(p):
        with np.errstate(all="ignore"):
            E, L, Q = constants(a, p, e, x)
            r1, r2 = p / (1 - e), p / (1 + e)
            s = 2 / (1 - E * E) - r1 - r2
            m = a * a * Q / (r1 * r2 * (1 - E * E))
            return r2 - (s + np.sqrt(s * s - 4 * m)) / 2

    hi = 14.0
    lo = hi
    while lo > 1.01 + e:
        lo -= 0.05
        g = gap(lo)
        if not g > 0:
            return float(brentq(gap, lo, lo + 0.05, xtol=1e-14)) if g == g else lo + 0.05
    return lo
