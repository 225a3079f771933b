"""C05: a plunging orbit restarted from saved state continues the same geodesic, or is refused."""
from . import c04_restart as c04
from .c04_restart import RULE, TIME_UNIT, STATE_MEASURE, REAL, STUBS, lists, simplify  # noqa: F401
from . import mission

RUNS = {"quick": 6000, "thorough": 60000}
BUDGET = {"quick": 150, "thorough": 1500}
ASSUMPTIONS = [
    "rounding bound as for bound orbits (vsim/restart.py), pointwise, because t and phi diverge at the horizons",
    "coordinates within 1e-3 (in Delta) of a horizon or within r < 0.02 of the ring are not compared",
    "t and phi are integrated step by step only up to the first horizon on either side; r and theta through both",
    "a saved state whose norm, computed independently, is off by more than 1e-7 may be refused",
    "plunges with L = 0, and equatorial plunges with four real radial roots, are outside the workload (see DESIGN.md)",
]


def gen(rng, i, tier):
    start = mission.gen_start_plunge(rng)
    n = rng.choice([1, 1, 2, 2, 3, 5]) if tier == "quick" else rng.choice([1, 2, 3, 5, 8])
    return {"start": start, "legs": mission.gen_legs(rng, n, "M" in start["kw"], False), "ode": rng.random() < 0.4, "deltas": rng.random() < 0.5}


def run(plan):
    return c04.run(plan, bound=False)
