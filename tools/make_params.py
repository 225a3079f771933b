"""Generates /verif/vsim/data/params.json: inputs (never expected outputs) for the workloads.
Bound orbits as (a, p, e, x, p - p_sep); plunges as (a, E, L, Q), classified by the roots of R."""
import json, os, random, sys, warnings
warnings.filterwarnings("ignore")
import numpy as np
sys.path.insert(0, "/repo")
from kerrgeopy.constants import separatrix
rng = random.Random(20240501)
bound = []
while len(bound) < 600:
    a = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99, 0.998, rng.random(), rng.random(), rng.random()])
    e = rng.choice([0.0, 0.001, 0.01, 0.05] + [round(rng.random() * 0.9, 6) for _ in range(6)])
    x = rng.choice([1.0, -1.0, 0.999, -0.999] + [rng.choice([-1, 1]) * round(rng.uniform(0.05, 1), 6) for _ in range(6)])
    a = round(a, 6)
    s = float(separatrix(a, e, x))
    d = rng.choice([0.05, 0.2, 1, 3, 10, 40]) * rng.uniform(0.5, 1.5)
    bound.append([a, round(s + d, 6), e, x, round(d, 6)])
def roots(a, E, L, Q):
    return np.roots([E**2 - 1, 2, a**2 * E**2 - L**2 - Q - a**2, 2 * L**2 + 2 * Q + 2 * a**2 * E**2 - 4 * a * E * L, -(a**2) * Q])
cplx, real_in, real_out = [], [], []
n = 0
while min(len(cplx) - 200, len(real_in) - 100, len(real_out) - 100) < 0 and n < 4000000:
    n += 1
    a = rng.choice([0.1, 0.5, 0.9, 0.99, rng.uniform(0.05, 0.995), rng.uniform(0.05, 0.995)])
    E = rng.uniform(0.3, 0.99); L = rng.choice([-1, 1]) * rng.uniform(0.05, 5); Q = rng.choice([rng.uniform(0.01, 1), rng.uniform(0.1, 12)])
    a, E, L, Q = [round(v, 6) for v in (a, E, L, Q)]
    rt = roots(a, E, L, Q)
    re = np.sort(rt[abs(rt.imag) < 1e-9].real)
    rm, rp = 1 - np.sqrt(1 - a * a), 1 + np.sqrt(1 - a * a)
    if len(re) == 2 and re[0] < rm and re[1] > rp:
        if len(cplx) < 200: cplx.append([a, E, L, Q])
    elif len(re) == 4:
        g = np.min(np.diff(re))
        if g < 0.02: continue
        if re[1] > rm:   # bound motion outside and a plunge inside
            if len(real_out) < 100 and re[1] > rp: real_out.append([a, E, L, Q])
        elif re[2] < rm and re[3] > rp:
            if len(real_in) < 100: real_in.append([a, E, L, Q])
print(n, len(cplx), len(real_in), len(real_out))
eq = []
while len(eq) < 30:
    a = round(rng.uniform(0.05, 0.995), 6); E = round(rng.uniform(0.5, 0.99), 6); L = round(rng.choice([-1, 1]) * rng.uniform(0.2, 4), 6)
    rt = roots(a, E, L, 0.0); re = np.sort(rt[abs(rt.imag) < 1e-9].real)
    if len(re) == 2: eq.append([a, E, L, 0.0])
json.dump({"bound": bound, "complex": cplx, "real_in": real_in, "real_out": real_out, "equatorial": eq},
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vsim/data/params.json"), "w"))
