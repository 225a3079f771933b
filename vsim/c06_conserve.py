"""C06: conserved quantities and orbit class survive every chain of restarts."""
from . import mission
from .c04_restart import REAL, STUBS, lists, simplify  # noqa: F401
from .runner import Result

RUNS = {"quick": 700, "thorough": 30000}
BUDGET = {"quick": 150, "thorough": 1500}
RULE = (
    "each run is one mission of 5-40 restarts (bound or plunging, every checkpoint form, disk faults, "
    "stale checkpoints); between restarts the state read from the orbit is reduced to norm, energy, "
    "angular momentum and Carter constant by an independent metric, and every restored orbit's "
    "constants (also in physical units), parameters, frequencies and class are compared with those "
    "the run started with.  Non-trivial: at least 3 restarts."
)
TIME_UNIT = "Mino time followed"
STATE_MEASURE = "distinct (orbit family, checkpoint form, region and direction of motion at the saved instant, turning point / equator or not)"
ASSUMPTIONS = [
    "rounding bounds as in vsim/restart.py, growing linearly with the number of restarts",
    "states within 0.01 (in Delta) of a horizon are not measured",
]


def gen(rng, i, tier):
    bound = rng.random() < 0.55
    start = mission.gen_start_bound(rng) if bound else mission.gen_start_plunge(rng)
    n = rng.choice([5, 8, 12, 20]) if tier == "quick" else rng.choice([8, 20, 40])
    legs = mission.gen_legs(rng, n, "M" in start["kw"], bound)
    for leg in legs:
        leg["units"] = rng.choice([None, None, "natural", "mks", "cgs", "furlongs"])
    return {"bound": bound, "start": start, "legs": legs}


def run(plan):
    res = Result()
    try:
        m = mission.Mission(plan, res, plan["bound"])
    except Exception as e:
        res.bad("refused", "the first orbit cannot be built or followed: %r" % e)
        return res
    try:
        for i, leg in enumerate(plan["legs"]):
            dl = m.advance(leg["go"])
            res.sim_time += abs(dl)
            for l in leg["log"]["at"][:2]:
                m.check_state(i, l)
            m.check_state(i, dl)
            if leg["crash"] is None:
                continue
            m.checkpoint(i, leg, dl)
            m.rebuild(i, leg)
            if leg["units"]:
                m.units_match(i, leg["units"])
            m.check_state(i, 0.0)
            res.steps += 1
    except mission.Stop:
        pass
    res.nontrivial = m.restarts >= 3
    res.sample = {"start": plan["start"], "legs": plan["legs"][:2]}
    return res
