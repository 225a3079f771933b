"""C04: a bound orbit restarted from saved state continues the same geodesic."""
from . import mission, ops
from .runner import Result
import random

RUNS = {"quick": 3600, "thorough": 60000}
BUDGET = {"quick": 150, "thorough": 1500}
BOUND = True
RULE = (
    "each run is one mission: a client follows one orbit for 1-8 legs, logging coordinates (natural "
    "or physical units), saving checkpoints (state / constants and phases / parameters and phases) "
    "to a simulated disk and crashing between legs; every logged coordinate is compared with the "
    "uninterrupted orbit and with a step-by-step integration from the saved numbers, and every "
    "restored orbit's own report with the orbit it replaced.  Non-trivial: at least one restart."
)
TIME_UNIT = "Mino time followed"
STATE_MEASURE = "distinct (orbit family, checkpoint form, region and direction of motion at the saved instant, turning point / equator or not)"
REAL = ["every kerrgeopy module (executed from /repo)", "numpy", "scipy"]
STUBS = ["disk holding the checkpoints", "process crash and restart (universe)", "clock read by library code"]
ASSUMPTIONS = [
    "rounding bound: 25 times the first-order propagation of double rounding through state, constants, roots, phases and frequencies (vsim/restart.py), plus 2e-7",
    "a state saved within 1e-4 of a turning point in r or theta may be snapped to it (documented tolerance)",
    "coordinates whose rounding bound exceeds 5% are not compared (counted)",
    "0 <= a < 1 at every restart (a negative spin is only used to construct the first orbit)",
]
lists, simplify = mission.lists, mission.simplify


def gen(rng, i, tier):
    start = mission.gen_start_bound(rng) if BOUND else mission.gen_start_plunge(rng)
    n = rng.choice([1, 1, 2, 2, 3, 5]) if tier == "quick" else rng.choice([1, 2, 3, 5, 8])
    return {"start": start, "legs": mission.gen_legs(rng, n, "M" in start["kw"], BOUND), "ode": rng.random() < 0.4, "deltas": rng.random() < 0.5}


def run(plan, bound=True):
    res = Result()
    try:
        m = mission.Mission(plan, res, bound, ode=plan.get("ode", False))
    except Exception as e:
        res.bad("refused", "the first orbit cannot be built or followed: %r" % e)
        return res
    try:
        for i, leg in enumerate(plan["legs"]):
            dl = m.advance(leg["go"])
            res.sim_time += abs(dl)
            m.log_leg(i, leg, dl / 2)
            if leg["crash"] is None:
                continue
            m.checkpoint(i, leg, dl)
            rec = m.rebuild(i, leg)
            m.log_leg(i, leg, 0.0)
            if plan.get("deltas") and i == len(plan["legs"]) - 1:
                m.check_deltas(i, rec)
            if plan.get("ode") and i == len(plan["legs"]) - 1 and rec["form"] != "start":
                m.check_ode(i, rec, [1.0, -2.0, 3.5])
            res.steps += 1
    except mission.Stop:
        pass
    res.nontrivial = m.restarts > 0
    res.sample = {"start": plan["start"], "legs": plan["legs"][:2]}
    return res
