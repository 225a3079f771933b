"""What a restart can be expected to preserve: the reference side of the restart checks.

Noise bounds for an orbit rebuilt from a saved state.  They follow the rounding of the saved
numbers through the definitions (state -> constants -> radial/polar roots -> phases and
frequencies -> coordinates), so a well-conditioned orbit is judged tightly and a nearly circular
or nearly marginal one as loosely as double precision makes unavoidable.
"""
from . import ref
import numpy as np
from scipy.special import ellipk, ellipkinc

EPS = 1.2e-16
SNAP = 1e-4  # documented tolerance of the library's turning-point test


def root_noise(a, E, L, Q, d):
    """Roots of R (descending, real parts) and their uncertainty for constants known to d."""
    c = ref.radial_poly(a, E, L, Q)
    z = np.roots(c)
    z = z[np.argsort(-z.real)]
    dc = np.array([2 * E * d[0], 0, 2 * a * a * E * d[0] + 2 * abs(L) * d[1] + d[2], 4 * abs(a * E - L) * (a * d[0] + d[1]) + 2 * d[2], a * a * d[2]])
    dc = np.abs(dc) + 8 * EPS * np.abs(c)
    out = []
    for i in range(4):
        m = abs(z[i])
        n = np.polyval(dc, m)
        others = [abs(z[i] - z[j]) for j in range(4) if j != i]
        near = min(others)
        r1 = n / (abs(c[0]) * np.prod(others)) if near > 0 else np.inf
        far = np.prod(sorted(others)[1:])
        r2 = np.sqrt(n / (abs(c[0]) * far))
        out.append(min(r1, r2) if r1 < near / 4 else max(min(r1, r2), r2))
    return z, np.array(out)


def constant_noise(a, consts, x=None, u=None):
    """Uncertainty of E, L, Q recomputed from a state (or just rounded, if no state is given)."""
    E, L, Q = consts
    if x is None:
        return [4 * EPS * max(1, abs(E)), 4 * EPS * max(1, abs(L)), 8 * EPS * max(1, abs(Q))]
    r, th = x[1], x[2]
    S = r * r + a * a * np.cos(th) ** 2
    D = r * r - 2 * r + a * a
    s2 = np.sin(th) ** 2
    A = np.array([[(r * r + a * a) ** 2 / D - a * a * s2, a - a * (r * r + a * a) / D], [a * (r * r + a * a) / D - a, 1 / s2 - a * a / D]])
    b = np.array([S * u[0], S * u[3]])
    if not abs(np.linalg.det(A)) > 1e-290:  # on a horizon to the last digit
        return [np.inf] * 3
    Ai = np.linalg.inv(A)
    dA = np.abs(A) * (1 + (r * r + a * a) / abs(D))
    EL = np.abs(Ai) @ (dA @ np.abs([E, L]) + np.abs(b)) * 4 * EPS
    Qt = (S * u[2]) ** 2 + np.cos(th) ** 2 * (a * a * (1 + E * E) + L * L / s2)
    dQ = 8 * EPS * (Qt + abs(Q)) / s2 + np.cos(th) ** 2 * (2 * a * a * EL[0] + 2 * abs(L) * EL[1] / s2)
    return [EL[0] + EPS, EL[1] + EPS, dQ + EPS]


class Noise:
    """Expected uncertainty of a bound orbit rebuilt from a state (or from constants/parameters)."""

    def __init__(self, a, consts, x=None, u=None, extra=(0.0, 0.0, 0.0)):
        E, L, Q = consts
        self.a, self.c = a, consts
        d = [v + k * max(abs(c), 1e-3) for v, k, c in zip(constant_noise(a, consts, x, u), extra, consts)]
        self.d = d
        z, dz = root_noise(a, E, L, Q, d)
        self.z, self.dz = z.real, dz
        r1, r2, r3, r4 = self.z
        d1, d2, d3, d4 = dz
        self.k2 = min(max((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)), 0.0), 1 - 1e-12)
        K = ellipk(self.k2)
        self.ups_r = np.pi * np.sqrt((1 - E * E) * (r1 - r3) * (r2 - r4)) / (2 * K)
        self.rel = (d1 + d3) / (r1 - r3) + (d2 + d3) / (r2 - r3) + (d2 + d4) / max(r2 - r4, 1e-9) + d[0] / (1 - E * E) + 1e-15
        # polar
        self.zm = ref.zminus(a, E, L, Q) if Q > 0 else 0.0
        b = a * a * (1 - E * E)
        s = Q + L * L + b
        disc = np.sqrt(max(s * s - 4 * b * Q, 1e-300))
        self.dzm = (d[2] * (1 + b / disc * 2) + 2 * abs(L) * d[1] + a * a * 2 * d[0]) / max(L * L, 1e-6) + 4 * EPS
        if b > 1e-14 and Q > 0:
            # z- is found to the last digits; E, L, Q are then remade from it
            cut = 8 * EPS
            self.dzm += cut
            tot = L * L + Q
            self.d = [d[0] + cut * min(1.0, a), d[1] + cut * np.sqrt(tot) / np.sqrt(max(1 - self.zm, 1e-9)), d[2] + cut * tot]
            z2, self.dz = root_noise(a, E, L, Q, self.d)
            d1, d2, d3, d4 = self.dz
            self.rel += cut / max(1 - self.zm, 1e-6)
        self.dq_r = self.dq_th = 0.0
        self.snapped = False
        if x is not None:
            self._phases(x, r1, r2, r3, K, d1, d2, d3)

    def _phases(self, x, r1, r2, r3, K, d1, d2, d3):
        r, th = x[1], x[2]
        self._polar_phase(th)
        w = r1 - r2
        if w < 2.5 * SNAP:
            self.dq_r = np.inf  # everywhere at a turning point: the radial phase is arbitrary
            return
        Y = min(max((r1 - r3) * (r - r2) / (w * (r - r3)), 0.0), 1.0)
        dY = (d1 + d2 + 4 * EPS * r) / w + (d3 + d1) / (r1 - r3) + (d3 + d2) / (r2 - r3) * (1 - Y)
        qf = np.pi / K
        self.dq_r = qf * min(dY / np.sqrt(max(Y * (1 - Y), 1e-300) * (1 - self.k2 * Y)), 2 * np.sqrt(dY / max(1 - self.k2, 1e-9)))
        q = qf * ellipkinc(np.arcsin(np.sqrt(Y)), self.k2)
        if abs(r - r2) < 1.1 * SNAP:
            self.dq_r += q
            self.snapped = True
        elif abs(r - r1) < 1.1 * SNAP:
            self.dq_r += np.pi - q
            self.snapped = True

    def _polar_phase(self, th, snap=True):
        z = self.zm
        if z < 1e-7:
            self.dq_th = np.inf  # likewise the polar phase of an equatorial one
            return
        y = min(abs(np.cos(th)) / np.sqrt(z), 1.0)
        dy = self.dzm / z + 2 * EPS / np.sqrt(z)
        self.dq_th = min(dy / np.sqrt(max(1 - y * y, 1e-300)), 2 * np.sqrt(dy))
        tmin = np.arccos(np.sqrt(z))
        if snap and min(abs(th - tmin), abs(th - (np.pi - tmin))) < 1.1 * SNAP:
            self.dq_th += np.arccos(y)
            self.snapped = True

    def tol(self, lam, rt):
        """Rounding-level error of (t, r, theta, phi) to expect after Mino time lam."""
        total, by_r, by_th = rt
        uth = np.sqrt(self.c[2] + self.c[1] ** 2)
        sr = 2 * min(self.dq_r, np.pi) / self.ups_r
        sth = 2 * min(self.dq_th, np.pi) / uth
        out = total * abs(lam) * self.rel + by_r * sr + by_th * sth
        out[1] += abs(self.dz[0]) + abs(self.dz[1])
        out[2] += min(np.sqrt(self.dzm), self.dzm / max(np.sqrt(self.zm), 1e-12))
        return out + 1e-12


def rates(a, consts, r, th):
    """Size of d(t, r, theta, phi)/dlambda over the given points, and how much of it varies with
    the radial and with the polar phase."""
    E, L, Q = consts
    D = r * r - 2 * r + a * a
    s2 = np.sin(th) ** 2
    P = E * (r * r + a * a) - a * L
    tr, tth = (r * r + a * a) / D * P, -a * a * E * s2
    pr, pth = a / D * P, L / s2
    rd = np.sqrt(np.abs(ref.R(a, E, L, Q, r))).max()
    hd = np.sqrt(np.abs(ref.Theta(a, E, L, Q, th))).max()
    total = np.array([np.abs(tr).max() + a * abs(L), rd, hd, np.abs(pr).max() + np.abs(pth).max()])
    return total, np.array([np.ptp(tr), rd, 0, np.ptp(pr)]), np.array([np.ptp(tth), 0, hd, np.ptp(pth)])


class PlungeNoise(Noise):
    """The same for a plunging orbit."""

    def __init__(self, a, consts, x=None, u=None, extra=0.0):
        E, L, Q = consts
        self.a, self.c = a, consts
        self.d = d = constant_noise(a, consts, x, u)
        z, dz = root_noise(a, E, L, Q, d)
        cplx = [i for i in range(4) if abs(z[i].imag) > 1e-9]
        self.dq_r = self.dq_th = 0.0
        self.snapped = False
        self.zm = ref.zminus(a, E, L, Q) if Q > 0 else 0.0
        b = a * a * (1 - E * E)
        s = Q + L * L + b
        disc = np.sqrt(max(s * s - 4 * b * Q, 1e-300))
        # the closed form the solution uses subtracts two numbers of size (L^2+Q)/(a^2(1-E^2))
        big = 1 + (L * L + Q) / b
        self.dzm = (d[2] * (1 + b / disc * 2) + 2 * abs(L) * d[1] + a * a * 2 * d[0]) / max(L * L, 1e-6) + 4 * EPS * big
        # a state read off next to a polar turning point carries that into Q
        self.d = d = [d[0], d[1], d[2] + 4 * EPS * big * (L * L + Q) if Q > 0 else d[2]]
        self.complex = bool(cplx)
        if cplx:
            real = [i for i in range(4) if i not in cplx]
            r2, r1 = z[real[0]].real, z[real[1]].real
            d2, d1 = dz[real[0]], dz[real[1]]
            pr, pi_, dp = z[cplx[0]].real, abs(z[cplx[0]].imag), max(dz[c] for c in cplx)
            A, B = np.hypot(r2 - pr, pi_), np.hypot(r1 - pr, pi_)
            self.k2 = min(max(((r2 - r1) ** 2 - (A - B) ** 2) / (4 * A * B), 0.0), 1 - 1e-12)
            K = ellipk(self.k2)
            self.ups_r = np.pi * np.sqrt(A * B * (1 - E * E)) / (2 * K)
            self.rel = (d1 + d2 + dp) * (1 / A + 1 / B) * (1 + 1 / (1 - self.k2)) + d[0] / (1 - E * E) + 1e-15
            self.rel += self.dzm / max(self.zm, 1e-3)
            self.z, self.dz = np.array([r2, r1]), np.array([d2, d1])
            self._saved(x)
            if x is not None:
                r = x[1]
                den = B * (r2 - r) + A * (r - r1)
                w = (B * (r2 - r) - A * (r - r1)) / den
                dw = ((d1 + d2 + 4 * EPS * r) * (A + B) + dp * (r2 - r1)) / den + 4 * EPS
                self.dq_r = np.pi / (2 * K) * min(dw / np.sqrt(max((1 - w * w), 1e-300) * (1 - self.k2)), 2 * np.sqrt(dw / (1 - self.k2)))
                self._polar_phase(x[2], snap=False)
        else:
            zr = z.real
            rm = 1 - np.sqrt(1 - a * a)
            if zr[2] > rm:  # motion between the two smallest roots
                r1, r2, r3, r4 = zr[2], zr[3], zr[0], zr[1]
                d1, d2, d3, d4 = dz[2], dz[3], dz[0], dz[1]
            else:
                r1, r2, r3, r4 = zr
                d1, d2, d3, d4 = dz
            self.k2 = min(max((r1 - r2) * (r3 - r4) / ((r1 - r3) * (r2 - r4)), 0.0), 1 - 1e-12)
            K = ellipk(self.k2)
            self.ups_r = np.pi * np.sqrt((1 - E * E) * (r1 - r3) * (r2 - r4)) / (2 * K)
            g = min(abs(r1 - r3), abs(r2 - r3), abs(r2 - r4), abs(r1 - r4))
            self.rel = 2 * (d1 + d2 + d3 + d4) / g + d[0] / (1 - E * E) + 1e-15
            self.z, self.dz = np.array([r1, r2]), np.array([d1, d2])
            self._saved(x)
            if x is not None:
                self._polar_phase(x[2])
                r = x[1]
                w = r1 - r2
                Y = min(max((r1 - r3) * (r - r2) / (w * (r - r3)), 0.0), 1.0)
                dY = (d1 + d2 + 4 * EPS * r) / w + (d3 + d1) / abs(r1 - r3) + (d3 + d2) / abs(r2 - r3)
                self.dq_r = np.pi / K * min(dY / np.sqrt(max(Y * (1 - Y), 1e-300) * (1 - self.k2 * Y)), 2 * np.sqrt(dY / max(1 - self.k2, 1e-9)))
                q = np.pi / K * ellipkinc(np.arcsin(np.sqrt(Y)), self.k2)
                if abs(r - r2) < 1.1 * SNAP:
                    self.dq_r += q
                    self.snapped = True
                elif abs(r - r1) < 1.1 * SNAP:
                    self.dq_r += np.pi - q
                    self.snapped = True

    def _saved(self, x):
        """t and phi are counted from the saved instant: their rates there matter too."""
        self.r0t = self.r0p = 0.0
        if x is not None:
            a, (E, L, Q), r = self.a, self.c, x[1]
            D = abs(r * r - 2 * r + a * a)
            P = abs(E * (r * r + a * a) - a * L) + 1e-9
            self.r0t, self.r0p = (r * r + a * a) / D * P, a / D * P + abs(L) / np.sin(x[2]) ** 2

    def tol(self, lam, r, th):
        """Pointwise: the rates of t and phi blow up at the horizons."""
        a = self.a
        E, L, Q = self.c
        D = np.abs(r * r - 2 * r + a * a)
        P = np.abs(E * (r * r + a * a) - a * L) + 1e-9
        sr = 2 * min(self.dq_r, np.pi) / self.ups_r + np.abs(lam) * self.rel
        sth = 2 * min(self.dq_th, np.pi) / np.sqrt(Q + L * L) + np.abs(lam) * self.rel
        rd = np.sqrt(np.abs(ref.R(a, E, L, Q, r))) + 1e-6
        hd = np.sqrt(np.abs(ref.Theta(a, E, L, Q, th))) + 1e-6
        s2 = np.sin(th) ** 2
        out = np.array(
            [
                ((r * r + a * a) / D * P + self.r0t + a * abs(L)) * sr + a * a * E * sth,
                rd * sr + self.dz.sum(),
                hd * sth + min(np.sqrt(self.dzm), self.dzm / max(np.sqrt(self.zm), 1e-12)) + 0 * r,
                (a / D * P + self.r0p) * sr + abs(L) / s2 * sth + abs(L) * self.d[1],
            ]
        )
        return out + 1e-12
