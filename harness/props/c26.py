"""C26: a reported trim point is a trim point within bounds."""

import logging
import math

import numpy as np
from hypothesis import strategies as st

import build
import gen
import runs
from core import facet
from props import conv

PROP = "C26"
WARM = ("mesh", "horseshoe", "unsteady")

STEADY = ("v", "alpha", "beta", "thrust")
UNSTEADY = ("v", "alpha", "beta")
LIMITS = {"v": (2.0, 40.0), "alpha": (-15.0, 15.0), "beta": (-10.0, 10.0), "thrust": (-5.0, 30.0)}
STEP = {"v": 0.5, "alpha": 0.5, "beta": 0.25, "thrust": 0.25}


def quiet():
    logging.getLogger("trim").setLevel(60)


@st.composite
def searches(draw, names, unsteady=False):
    """The balanced state, how far the start and the bounds are from it, and the model."""
    beta = draw(st.sampled_from([0.0, 0.0, 0.0, 2.0]))
    if unsteady:
        model = draw(
            gen.unsteady(max_airplanes=1, num_steps=(2, 3), small=True, max_wings=1, max_nc=1, max_ns=1, max_sections=2, tilt=False,
                         deflection=False, custom=False, final_only=False, velocity_moves=False,
                         op=gen.operating_points(alpha=6.0, beta=0.0, velocity=(6, 15))))
        model["steps"] = model["dt"] = None
    else:
        model = draw(
            gen.problems(max_airplanes=1, max_wings=2, max_nc=2, max_ns=2, max_sections=2, tilt=False, deflection=False,
                         op=gen.operating_points(alpha=6.0, beta=0.0, velocity=(6, 15))))
    for wing in model["airplanes"][0]["wings"]:
        if draw(st.integers(0, 3)):
            wing["sym"], wing["y"] = True, 0.0
    model["airplanes"][0]["ref"][1] = 0.0
    model["op"]["beta"] = beta
    away = {n: draw(st.sampled_from([0.0, 0.0, 0.02, -0.02, 1.0, -1.0, 2.5, -4.0])) for n in names}
    return {
        "model": model,
        "names": list(names),
        "balanced": draw(st.sampled_from([True, True, True, False])),
        "weight": draw(gen.grid(-20, 60, 2.5)),
        # Start away from the balanced state, in steps of half a unit or less.
        "away": away,
        # Distance of the bounds from the start: zero is on the bound.
        "below": {n: draw(st.sampled_from([0.0, 0.004, 0.5, 1.0, 3.0, 6.0])) for n in names},
        "above": {n: draw(st.sampled_from([0.003, 0.5, 1.0, 3.0, 6.0])) for n in names},
        "cut_off": draw(st.sampled_from([0.01, 0.01, 0.03, 0.1])),
        "calls": draw(st.sampled_from([1, 4, 12, 25])),
        "seed": draw(st.integers(0, 1000)),
        # Put the start just outside of one bound.
        "outside": draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(list(names)), st.booleans()).map(list))),
    }


def coefficients_steady(model, state):
    model = dict(model, op=dict(model["op"], v=state["v"], alpha=state["alpha"], beta=state["beta"]))
    result = runs.run("horseshoe", model)
    _, _, cf, cm = result.loads[0][0]
    return cf, cm, result.airplanes[0][0].s_ref, 0.5 * model["op"]["rho"] * state["v"] ** 2


def unsteady_parts(model, state):
    import pterasoftware as ps

    point = build.operating_point(dict(model["op"], v=state["v"], alpha=state["alpha"], beta=state["beta"]))
    base = build.airplane(model["airplanes"][0])
    airplane_movement = build.airplane_movement(base, model["moves"][0])
    return ps, point, base, airplane_movement


def coefficients_unsteady(model, state):
    ps, point, base, airplane_movement = unsteady_parts(model, state)
    movement = ps.movement.Movement(
        airplane_movements=[airplane_movement],
        operating_point_movement=ps.movement.OperatingPointMovement(base_operating_point=point))
    problem = ps.problems.UnsteadyProblem(movement=movement)
    if problem.num_steps > 120:
        return None
    solver = build.unsteady_solver(problem)
    solver.run(logging_level=build.QUIET, prescribed_wake=True, calculate_streamlines=False)
    result = runs.Result("unsteady", solver)
    if gen.max_period_of(model) == 0:
        cf, cm = result.loads[-1][0][2:]
    else:
        first = problem.first_averaging_step
        series = result.loads[first:]
        cf = np.mean([r[0][2] for r in series], axis=0)
        cm = np.mean([r[0][3] for r in series], axis=0)
    return cf, cm, base.s_ref, 0.5 * model["op"]["rho"] * state["v"] ** 2


def imbalance(found, thrust, weight):
    cf, cm, s, q = found
    net = np.linalg.norm(cf - np.array([thrust, 0.0, weight]) / (q * s))
    return float((net + np.linalg.norm(cm)) / 2)


def balance(spec, coefficients):
    """Weight, thrust and moment reference point that put the state into trim."""
    model = spec["model"]
    state = {n: model["op"][n] for n in STEADY}
    plane = model["airplanes"][0]
    found = coefficients(model, state)
    if found is None or not np.all(np.isfinite(np.concatenate(found[:2]))):
        return None
    if spec["balanced"]:
        # The pitching moment is linear in the reference point's position.
        moved = dict(model, airplanes=[dict(plane, ref=[plane["ref"][0] + 0.5] + plane["ref"][1:])])
        other = coefficients(moved, state)
        slope = (other[1][1] - found[1][1]) / 0.5
        if abs(slope) > 1e-6:
            plane["ref"] = [plane["ref"][0] + float(np.clip(-found[1][1] / slope, -20, 20))] + plane["ref"][1:]
            found = coefficients(model, state)
        cf, _, s, q = found
        plane["weight"], state["thrust"] = float(cf[2] * q * s), float(cf[0] * q * s)
    else:
        plane["weight"], state["thrust"] = spec["weight"], 1.0
    return state


def run_search(spec, ctx, coefficients, analyze, names):
    quiet()
    spec = dict(spec, model=dict(spec["model"], airplanes=[dict(spec["model"]["airplanes"][0])]))
    model = spec["model"]
    state = balance(spec, coefficients)
    if state is None:
        ctx.skip("not analysed")
    start = dict(state)
    for n in names:
        start[n] = state[n] + spec["away"][n] * STEP[n]
    start["v"] = max(start["v"], 1.0)
    bounds = {n: (start[n] - spec["below"][n], start[n] + spec["above"][n]) for n in names}
    bounds["v"] = (max(bounds["v"][0], 0.5), bounds["v"][1])
    outside = spec["outside"]
    if outside is not None:
        n, low = outside
        lo, hi = bounds[n]
        gap = 0.2
        bounds[n] = (start[n] + gap, hi + 1 + gap) if low else (min(lo, start[n] - 1) - gap, start[n] - gap)
    weight = model["airplanes"][0]["weight"]
    cut_off = spec["cut_off"]
    np.random.seed(spec["seed"])
    try:
        values = analyze(model, start, bounds, cut_off, spec["calls"])
    except Exception:
        if outside is None:
            raise
        ctx.label("start outside of the bounds refused")
        ctx.nontrivial(True)
        return
    ctx.require(outside is None, "a start outside of the bounds was accepted")
    ctx.require(len(values) == len(names), "%d values returned" % len(values))
    values = [float(v) for v in values]
    finite = [math.isfinite(v) for v in values]
    ctx.require(all(finite) or all(math.isnan(v) for v in values), "partly not-a-number: %r" % (values,))
    at_start = imbalance(coefficients(model, start), start["thrust"] if "thrust" in names else 0.0, weight)
    if not all(finite):
        # The search looks at its start first.
        ctx.require(not at_start < cut_off * (1 - 1e-6), "the start is a trim point, but none was found")
        ctx.label("no trim point")
        ctx.nontrivial(True)
        return
    for n, v in zip(names, values):
        lo, hi = bounds[n]
        ctx.require(lo - 1e-9 <= v <= hi + 1e-9, "%s = %r outside of %r" % (n, v, bounds[n]))
    found = dict(start, **dict(zip(names, values)))
    value = imbalance(coefficients(model, found), found["thrust"] if "thrust" in names else 0.0, weight)
    ctx.require(value <= cut_off * (1 + 1e-6), "imbalance %r at the reported trim point, cut-off %r" % (value, cut_off))
    ctx.label("trim point at the start" if at_start < cut_off else "trim point found")
    ctx.nontrivial(True)


def analyze_steady(model, start, bounds, cut_off, calls):
    import pterasoftware as ps

    problem = build.steady_problem(dict(model, op=dict(model["op"], **{n: start[n] for n in STEADY})))
    return ps.trim.analyze_steady_trim(
        problem=problem, velocity_bounds=bounds["v"], alpha_bounds=bounds["alpha"], beta_bounds=bounds["beta"],
        external_thrust_bounds=bounds["thrust"], objective_cut_off=cut_off, num_calls=calls)


def analyze_unsteady(model, start, bounds, cut_off, calls):
    ps, point, _, airplane_movement = unsteady_parts(model, start)
    return ps.trim.analyze_unsteady_trim(
        airplane_movement=airplane_movement, operating_point=point, velocity_bounds=bounds["v"], alpha_bounds=bounds["alpha"],
        beta_bounds=bounds["beta"], objective_cut_off=cut_off, num_calls=calls)


# ------------------------------------------------------------------- solvers replaced by tables
@st.composite
def tables(draw, names):
    """A search whose solver is replaced by loads that are linear in the state."""
    unsteady = "thrust" not in names
    spec = draw(searches(names, unsteady))
    steep = draw(st.sampled_from([1.0, 0.3, 0.05]))
    spec["slopes"] = [round(v * steep, 10) for v in draw(st.lists(gen.grid(-3, 3, 0.1), min_size=18, max_size=18))]
    spec["other"] = draw(st.lists(gen.grid(0.5, 3, 0.1), min_size=6, max_size=6))
    spec["model"]["op"]["beta"] = draw(gen.grid(-8, 8, 0.5))
    spec["thrust"] = draw(gen.grid(-4, 20, 0.5))
    spec["offset"] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.005, 0.05]))
    spec["calls"] = draw(st.sampled_from([1, 4, 12] if unsteady else [1, 4, 12, 40]))
    return spec


def run_table(spec, ctx, cls, analyze, names):
    quiet()
    model = spec["model"]
    plane = model["airplanes"][0]
    plane["weight"] = spec["weight"]
    rho = model["op"]["rho"]
    area = build.airplane(plane).s_ref
    steady = "thrust" in names
    static = steady or gen.max_period_of(model) == 0
    trim = {n: model["op"][n] for n in ("v", "alpha", "beta")}
    trim["thrust"] = spec["thrust"] if steady else 0.0
    slopes = np.array(spec["slopes"]).reshape(6, 3)

    def external(v, thrust):
        return np.array([thrust, 0.0, spec["weight"]]) / (0.5 * rho * v**2) / area

    constant = np.concatenate([external(trim["v"], trim["thrust"]), np.zeros(3)]) + spec["offset"] * np.array([1, -1, 0.5, 1, 1, -1])

    def loads(v, alpha, beta):
        return constant + slopes @ np.array([(v - trim["v"]) / 10, (alpha - trim["alpha"]) / 10, (beta - trim["beta"]) / 10])

    def unbalanced(state):
        row = loads(state["v"], state["alpha"], state["beta"])
        return float((np.linalg.norm(row[:3] - external(state["v"], state["thrust"])) + np.linalg.norm(row[3:])) / 2)

    start = {n: trim[n] + spec["away"].get(n, 0.0) * STEP[n] for n in trim}
    start["v"] = max(start["v"], 1.0)
    bounds = {n: (start[n] - spec["below"][n], start[n] + spec["above"][n]) for n in names}
    bounds["v"] = (max(bounds["v"][0], 0.5), bounds["v"][1])

    def answer(solver, airplanes, prescribed):
        problem = solver.steady_problem if steady else solver.unsteady_problem.steady_problems[0]
        point = problem.operating_point
        row = loads(point.velocity, point.alpha, point.beta)
        wrong = np.array(spec["other"])
        key = {"v": float(point.velocity), "alpha": float(point.alpha), "beta": float(point.beta)}
        if static:
            return key, [np.array([row, wrong, wrong])]
        return key, [np.array([wrong, row, np.abs(row) + wrong])]

    np.random.seed(spec["seed"])
    with conv.answering(cls, answer) as seen:
        values = [float(v) for v in analyze(model, start, bounds, spec["cut_off"], spec["calls"])]
    ctx.require(len(values) == len(names), "%d values returned" % len(values))
    finite = [math.isfinite(v) for v in values]
    ctx.require(all(finite) or all(math.isnan(v) for v in values), "partly not-a-number: %r" % (values,))
    for state in seen:
        for n, v in state.items():
            lo, hi = bounds[n]
            ctx.require(lo - 1e-9 <= v <= hi + 1e-9, "%s = %r was tried, outside of %r" % (n, v, bounds[n]))
    if not all(finite):
        ctx.require(not unbalanced(start) < spec["cut_off"] * (1 - 1e-6), "the start is a trim point, but none was found")
        ctx.label("no trim point")
    else:
        found = dict(start, **dict(zip(names, values)))
        for n, v in zip(names, values):
            lo, hi = bounds[n]
            ctx.require(lo - 1e-9 <= v <= hi + 1e-9, "%s = %r outside of %r" % (n, v, bounds[n]))
        value = unbalanced(found)
        ctx.require(value <= spec["cut_off"] * (1 + 1e-6), "imbalance %r at the reported trim point, cut-off %r" % (value, spec["cut_off"]))
        ctx.label("trim point at the start" if unbalanced(start) < spec["cut_off"] else "trim point found")
    ctx.nontrivial(True)


@facet(PROP, "steady tables", lambda: tables(STEADY), 1500, 20000, "every finished search")
def steady_tables(spec, ctx):
    import pterasoftware as ps

    run_table(spec, ctx, ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver, analyze_steady, STEADY)


@facet(PROP, "unsteady tables", lambda: tables(UNSTEADY), 400, 6000, "every finished search")
def unsteady_tables(spec, ctx):
    import pterasoftware as ps

    run_table(spec, ctx, ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver, analyze_unsteady, UNSTEADY)


@facet(PROP, "steady", lambda: searches(STEADY), 1000, 20000, "every finished search")
def steady(spec, ctx):
    run_search(spec, ctx, coefficients_steady, analyze_steady, STEADY)


@facet(PROP, "unsteady", lambda: searches(UNSTEADY, True), 400, 6000, "every finished search")
def unsteady(spec, ctx):
    # No thrust is balanced here: the least imbalance is half the drag coefficient.
    spec = dict(spec, cut_off=spec["cut_off"] * 2 + 0.02, calls=min(spec["calls"], 6))
    run_search(spec, ctx, coefficients_unsteady, analyze_unsteady, UNSTEADY)
