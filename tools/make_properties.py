#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
F = "kerrgeopy/"
ORB, STA, PLU = F + "orbit.py", F + "stable.py", F + "plunge.py"
CON, FRE, INI = F + "constants.py", F + "frequencies.py", F + "initial_conditions.py"
SPA, UNI = F + "spacetime.py", F + "units.py"


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


P = []
P.append(prop(
    "C01", "Concurrent callers of shared orbits get the single-caller answer",
    "When several threads use the same orbits, the same returned coordinate/velocity functions and the library's "
    "functions at the same time, every value, error and attribute any of them observes is the one a lone caller making that "
    "single request in a fresh process would observe. This holds for every interleaving of the callers, however a caller is delayed or stalled.",
    ["schedules"], "every interleaving (down to a single bytecode) of every set of concurrent callers over shared orbits, returned functions and module functions",
    "The tests run one thread and one call at a time; no schedule other than the sequential one is ever executed.",
    [ORB, STA, PLU, CON, FRE, INI, SPA, UNI],
    [("results are computed from arguments and read-only attributes into locals; no shared scratch state", ORB + ": Orbit.trajectory / four_velocity"),
     ("closures capture their own roots, frequencies and phases", STA + ": stable_trajectory, radial_solutions, polar_solutions; " + PLU + ": plunging_trajectory")],
    ["return values of Orbit/StableOrbit/PlungingOrbit methods, returned functions and module functions"],
    [("orbit attributes", "a,p,e,x,E,L,Q,initial_phases,frequencies: written once at construction", ORB + ": Orbit.__init__")]))
P.append(prop(
    "C02", "Answers do not depend on what was computed before",
    "The answer to a request depends only on that request: whatever sequence of orbits, parameters, units, masses, phases and functions was used "
    "earlier in the process - including near-identical parameters, other signs of spin or inclination, other masses and rejected requests - "
    "the same request returns the value (or the same error) it returns as the first request of a fresh process.",
    ["histories"], "every finite history of construction and evaluation requests, at every position in it",
    "Each test uses fresh objects once in a fixed order; a wrong answer that needs a particular earlier request cannot show.",
    [ORB, STA, PLU, CON, FRE, INI, SPA, UNI],
    [("no module-level mutable state; conversion tables and root finders are rebuilt per call", CON + ": separatrix, constants_of_motion; " + FRE + ": mino_frequencies; " + STA + ": stable_trajectory"),
     ("spin/inclination signs are standardised per call", CON + ": _standardize_params")],
    ["return values and exceptions of every public function and method"]))
P.append(prop(
    "C03", "An interrupted, failed or rejected call leaves no trace",
    "If a call is cut short at an arbitrary instant - keyboard interrupt, out-of-memory error, cancellation of the calling thread - or is rejected because its "
    "arguments are invalid, then the orbits it was using, functions obtained earlier and the library as a whole answer every later request, including the "
    "repeated call, exactly as if the failed call had never been made, and the interruption itself reaches the caller.",
    ["crash_points", "fault_sequences"], "every instant (bytecode boundary) inside every public call, every kind of asynchronous error, every later request",
    "No test interrupts anything; the tests of rejected arguments stop at the exception and never use the library afterwards.",
    [ORB, STA, PLU, CON, FRE, INI, SPA],
    [("methods never write to the orbit after construction", ORB + ": Orbit methods"), ("constructors publish nothing before they return", ORB + ": Orbit.__init__; " + STA + ": StableOrbit.__init__; " + PLU + ": PlungingOrbit.__init__")],
    ["orbit attributes and later return values after an injected error"]))
P.append(prop(
    "C04", "A bound orbit restarted from saved state continues the same geodesic",
    "A bound orbit stopped at any instant and rebuilt from only what was saved - position and four-velocity, or spin, constants of motion and phases, or orbital "
    "parameters and phases - continues the same geodesic: t, r, theta and phi (in whatever units the client logs) agree with the uninterrupted orbit and with a step-by-step "
    "integration of the geodesic equation from the saved state, through any number of restarts; a saved state damaged so that its velocity is no longer of unit norm is refused with ValueError. The agreement is within rounding amplified by the orbit's conditioning, and a state saved within "
    "the documented tolerance of a turning point may be snapped to that turning point.",
    ["crash_points", "histories"], "every supported bound orbit (0 <= a < 1, 0 <= e < 1, not polar, outside the separatrix), every stop instant, every chain of restarts, every saved form",
    "The initial-condition tests are empty (pass); no test constructs an orbit from a position and velocity, resumes from phases, or continues past a stop.",
    [ORB, STA, INI, CON, FRE, SPA],
    [("inversion of position and velocity to phases", INI + ": stable_orbit_initial_phases"), ("classification from initial conditions", INI + ": is_stable"),
     ("parameters from constants", CON + ": apex_from_constants"), ("phase-shifted trajectory with normalisation constants", STA + ": stable_trajectory")],
    ["trajectory() functions, initial_position/initial_velocity, four_velocity() at the stop and after the restart"]))
P.append(prop(
    "C05", "A plunging orbit restarted from saved state continues the same geodesic",
    "A plunging orbit stopped at any instant away from the horizons and rebuilt from only what was saved - position and four-velocity, or spin, constants of motion and phases - is either refused with an "
    "error because the saved state is not numerically normalised, or continues the same geodesic: t, r, theta and phi agree with the uninterrupted orbit and with a step-by-step integration from the saved state. "
    "A state damaged in storage so that its velocity is no longer of unit norm is refused with ValueError; none is silently resumed as a different motion, through any number of restarts and for ingoing and outgoing, outside-horizon and inside-horizon states.",
    ["crash_points", "histories"], "every supported plunge (0 < a < 1, E < 1, L and Q nonzero, two-complex-root and four-real-root families; equatorial plunges with two complex roots), every stop instant, every chain of restarts",
    "Plunge tests compare fixed-phase trajectories with tables for 200 orbits at ten times; the initial-condition path for plunges is never executed.",
    [ORB, PLU, INI, CON, FRE, SPA],
    [("inversion of position and velocity to phases", INI + ": plunging_orbit_initial_phases"), ("root ordering and family selection", CON + ": plunging_radial_roots"),
     ("phase-shifted trajectory", PLU + ": _complex_plunge_trajectory, _real_plunge_trajectory")],
    ["trajectory() functions, initial_position/initial_velocity, four_velocity() at the stop and after the restart"]))
P.append(prop(
    "C06", "Conserved quantities and orbit class survive every chain of restarts",
    "At every point of a run with restarts the state read from the orbit is a unit-norm timelike state whose energy, angular momentum and Carter constant (recomputed from position and velocity alone) equal "
    "those the run started with, and each restart reports the same constants, orbital parameters, frequencies and bound/plunging class as the orbit it replaces. The drift after any number of restarts stays at the rounding level, it does not accumulate beyond it.",
    ["histories", "crash_points"], "every chain of stops and restarts of every supported orbit, at every instant read in between",
    "Tests check the norm of fixed orbits at ten instants; nothing recomputes constants from a state, reclassifies it, or chains more than one construction.",
    [ORB, INI, CON, SPA, FRE],
    [("constants from a state", INI + ": constants_from_initial_conditions"), ("four-velocity from constants", SPA + ": KerrSpacetime.four_velocity"),
     ("rejection of non-timelike or non-normalised states", ORB + ": Orbit.__init__"), ("parameters and frequencies from constants", CON + ": apex_from_constants; " + FRE + ": mino_frequencies, fundamental_frequencies, plunging_mino_frequencies")],
    ["E, L, Q, p, e, x, stable, upsilon_*, omega_*, initial_position, initial_velocity"]))
P.append(prop(
    "C07", "Orbits survive transport, and sharded evaluation is exact",
    "An orbit sent to another process (pickled, copied or deep-copied at any point of its use) is self-contained and answers every request there as the original does, whatever either process did before and however often the copy is lost, "
    "resent, duplicated or outlives the sender. A time series evaluated in shards - split anywhere, down to single instants, evaluated in any order, repeated and on any such copies - reassembles to the series one call on the whole array returns.",
    ["fault_sequences", "schedules", "histories"], "every sequence of message loss, duplication, delay, reordering, worker crash and restart; every partition and order of the evaluation times; every moment of serialisation",
    "No test serialises an orbit, evaluates an array against its scalars, or evaluates in more than one order or process.",
    [ORB, STA, PLU, FRE],
    [("orbits hold only plain numbers and tuples; functions are rebuilt on demand", ORB + ": Orbit.trajectory"), ("array/scalar-generic elliptic integrals with per-element cycle counting", FRE + ": _ellipeinc, _ellippiinc")],
    ["pickle/copy round trips, assembled arrays, attributes of received copies"]))
P.append(prop(
    "C08", "An animation delivers every frame once, in order and in step",
    "An animation that completes has handed the encoder exactly (duration / playback speed) x 30 frames, each once, in order, at constant spacing in Mino time and all of one size. In every frame the body is at the orbit's position for "
    "that frame's Mino time, the tail is the stretch of trajectory that precedes it within the tail length with the parts hidden by the black hole left out, and camera, roll and axis limits are those the caller's functions give for that same Mino time; component plots, when asked for, show the coordinates from the start up to that frame's time.",
    ["histories", "configurations"], "every animation request (interval, speed, tail length, camera/limit callbacks, options, orbit) and every frame of the stream it produces",
    "Animation and plotting have no tests at all (and need ffmpeg, which is not installed).",
    [ORB], [("frame function driven once per encoder frame", ORB + ": Orbit.animate / draw_frame"), ("visibility mask", ORB + ": Orbit.is_visible")],
    ["the figure as it is at each frame write, the encoder's input and arguments, the arguments of caller callbacks"]))
P.append(prop(
    "C09", "A failed animation is reported and leaves nothing behind",
    "If anything fails while an animation is being made - the encoder is missing, dies, rejects input, or reports failure at the end, the disk fills up, a caller's callback raises, memory runs out or the user interrupts, at any frame - the call raises "
    "that failure instead of returning, and it returns normally only when the encoder has received every frame and ended successfully. Either way its figure is closed, its encoder is shut down and waited for, all other figures and settings are as before, and the orbit can be animated again.",
    ["fault_sequences", "crash_points"], "every fault kind at every step (set-up, each frame, finalisation) of every animation",
    "Animation has no tests; no failure is injected anywhere in the suite.",
    [ORB], [("figure closed and encoder finished on every path", ORB + ": Orbit.animate (plt.close, writer context)")],
    ["outcome of the call, open pyplot figures, encoder process state, rcParams"]))
P.append(prop(
    "C10", "Plots are faithful and isolated from other figures and callers",
    "Each plot request returns a new figure showing exactly the requested stretch of that orbit - the curve sampled over the requested Mino-time interval, the parts behind the black hole left out, the body at the end, the requested view - and changes no other figure, "
    "whatever other figures exist, are current, are closed, or are being drawn by other callers between any two of its steps.",
    ["schedules", "histories"], "every interleaving of plot requests with other plotting callers and every prior figure history",
    "Plotting has no tests.",
    [ORB], [("drawing goes through the new figure and axes, never through the current figure", ORB + ": Orbit.plot"), ("visibility mask", ORB + ": Orbit.is_visible")],
    ["returned figure and axes content; every other open figure"]))
P.append(prop(
    "C11", "Process-wide state is left as it was found",
    "Computing with the library - normally, with rejected arguments or interrupted at any instant - leaves the process as it found it: floating-point error handling, warning filters, random-number state, plotting settings, signal handlers, environment, working directory, "
    "threads and open files are unchanged, nothing is printed or written to disk (an animation writes only its own file and progress bar), and a caller's own settings of these neither change results nor are overridden.",
    ["histories", "fault_sequences"], "every history of calls, each cut short at any instant or not, under every caller-chosen ambient setting",
    "Tests look only at return values; none inspects ambient state or varies it.",
    [ORB, STA, PLU, CON, FRE, INI, SPA, UNI], [("no global switches are touched", "all modules"), ("progress bar and writer are context-managed", ORB + ": Orbit.animate")],
    ["numpy error state, RNGs, warnings, rcParams, signals, environment, threads, descriptors, stdout/stderr, file opens"]))
P.append(prop(
    "C12", "What was handed out stays what it was",
    "A function, tuple or array the library has returned never changes meaning or content afterwards: a coordinate, velocity, norm or delta function stays bound to the orbit, phases, units and mass it was requested with and gives the same value for the same time whenever and in whatever order it is called, "
    "and a returned array is not modified by, nor shared with, later calls. An orbit keeps the state and phases it was built from even when the caller reuses the lists or arrays it passed. Arrays and tuples passed in are never modified.",
    ["histories", "schedules"], "every history of requests and evaluations on every set of simultaneously held functions and arrays",
    "Tests use each returned function once, immediately, in increasing time order, and never look at an argument or an earlier result again.",
    [ORB, STA, PLU, SPA, FRE], [("closures over call-local values; fresh output arrays", STA + ": stable_trajectory; " + PLU + ": plunging_trajectory; " + SPA + ": KerrSpacetime.four_velocity")],
    ["held functions re-evaluated later, held arrays and caller arrays re-read later"]))

# pure functions of their input: recorded, not claimed
PURE = "the tests compare with tabulated values for about a hundred random parameter sets; regions between, the edges of the domain and degenerate cases are not reached"
def pure(id, title, statement, files, mech, observe, text):
    P.append(prop(id, title, statement, ["inputs"], text, PURE, files, mech, observe))
pure("N01", "Constants of motion put the turning points where the parameters say",
     "For every supported (a,p,e,x) the returned energy, angular momentum and Carter constant make the radial potential vanish at p/(1-e) and p/(1+e) (doubly for e=0) and the polar potential vanish at the inclination given by x, with the sign of L given by the direction of the orbit.",
     [CON], [("Schmidt's determinants", CON + ": energy, angular_momentum, carter_constant")], ["constants_of_motion"], "all supported (a,p,e,x)")
pure("N02", "Trajectories solve the geodesic equation",
     "For every supported orbit and Mino time, the returned coordinates satisfy the Kerr geodesic equations with the orbit's constants, start at the requested phases, and have the stated radial and polar periods.",
     [STA, PLU], [("closed-form solutions", STA + ": radial_solutions, polar_solutions; " + PLU + ": plunging_radial_solutions_complex, plunging_polar_solutions")], ["trajectory"], "all supported orbits, all Mino times")
pure("N03", "Four-velocities are unit-norm and tangent to the trajectory",
     "At every Mino time the analytic four-velocity has norm -1 and equals the derivative of the trajectory with respect to proper time.",
     [SPA, ORB], [("geodesic equation", SPA + ": KerrSpacetime.four_velocity")], ["four_velocity", "numerical_four_velocity"], "all supported orbits, all Mino times")
pure("N04", "Frequencies are the long-run averages of the motion",
     "Mino-time frequencies equal 2 pi over the coordinate periods and the average rates of phi and t; Boyer-Lindquist frequencies are their ratios with Gamma.",
     [FRE], [("complete elliptic integrals", FRE + ": r_frequency, theta_frequency, phi_frequency, gamma")], ["mino_frequencies", "fundamental_frequencies"], "all supported (a,p,e,x)")
pure("N05", "The separatrix separates bound from plunging",
     "For every (a,e,x) the separatrix value of p is where the two inner turning points merge; larger p are accepted as stable, smaller are rejected, and the interpolated fast version agrees within its grid accuracy.",
     [CON], [("bracketed roots of the separatrix polynomial", CON + ": separatrix, fast_separatrix, is_stable")], ["separatrix", "fast_separatrix", "is_stable"], "all (a,e,x)")
pure("N06", "Parameters and constants convert back and forth",
     "Converting supported (a,p,e,x) to constants of motion and back returns the same parameters.",
     [CON], [("roots of the radial and polar polynomials", CON + ": apex_from_constants")], ["apex_from_constants", "StableOrbit.from_constants"], "all supported (a,p,e,x)")
pure("N07", "Unsupported requests are rejected with ValueError",
     "Extreme spin, polar or marginally bound orbits, out-of-range parameters, parameters inside the separatrix, Schwarzschild plunges, non-timelike or unnormalised states, missing masses and unknown units are rejected with ValueError, and nothing supported is.",
     [CON, FRE, ORB, STA, PLU], [("argument checks", CON + ": valid_params; " + FRE + ": *_frequency; " + ORB + ": Orbit.__init__")], ["exceptions"], "all inputs in and around the domain")
pure("N08", "Unit conversions are consistent",
     "Physical-unit results are the dimensionless ones times the factor fixed by G, c, the solar mass and the primary's mass, with mks, cgs, km, au, days, Hz and mHz mutually consistent.",
     [UNI, ORB, STA, PLU], [("conversion functions", UNI)], ["units functions and units= arguments"], "all values, masses and unit names")
pure("N09", "The metric is the Kerr metric",
     "At every regular point the returned matrix is symmetric, has Lorentzian signature and the Kerr determinant, and reduces to Schwarzschild for zero spin.",
     [SPA], [("Boyer-Lindquist components", SPA + ": KerrSpacetime.metric")], ["metric", "norm", "horizons"], "all regular points, all spins")
pure("N10", "Reversing spin and inclination together changes nothing",
     "(a,p,e,x) and (-a,p,e,-x) describe the same orbit: constants, frequencies, separatrix class and trajectories agree.",
     [CON, FRE, STA], [("sign standardisation", CON + ": _standardize_params")], ["all parameter-taking functions"], "all supported parameters of either sign of spin")
pure("N11", "Incomplete elliptic integrals are correct for every amplitude",
     "The incomplete second- and third-kind integrals are odd, quasi-periodic and continuous in the amplitude, for scalars and arrays, over any number of cycles and for negative amplitudes.",
     [FRE], [("Carlson forms with cycle counting", FRE + ": _ellipeinc, _ellippiinc, _ellippi")], ["trajectory functions at large and negative times"], "all amplitudes, characteristics and parameters in range")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
