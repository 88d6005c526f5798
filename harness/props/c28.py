"""C28: the unsteady convergence study."""

import copy
import functools

import numpy as np
from hypothesis import strategies as st

import build
import gen
import runs
from core import facet
from props import c23, conv

PROP = "C28"
WARM = ("mesh", "unsteady")

LIMIT = 40
STEPS = 60
AIRPLANE_MOVEMENT = tuple(a + "_ref_" + n for a in "xyz" for n in ("amplitude", "period", "spacing"))
WING_MOVEMENT = tuple(a + "_le_" + n for a in "xyz" for n in ("amplitude", "period", "spacing"))
SECTION_MOVEMENT = tuple(a + "ing_" + n for a in ("sweep", "pitch", "heav") for n in ("amplitude", "period", "spacing")) + (
    "custom_sweep_function", "custom_pitch_function", "custom_heave_function")
OPERATING_POINT_MOVEMENT = ("velocity_amplitude", "velocity_period", "velocity_spacing")


@st.composite
def studies(draw):
    model = draw(
        gen.unsteady(max_airplanes=2, max_wings=2, max_nc=1, max_ns=1, max_sections=2, airfoil=conv.smooth_airfoils(), max_step=0.8,
                     custom=False, deflection=draw(st.booleans()), op=gen.operating_points(alpha=8.0, beta=8.0, velocity=(5, 20)),
                     static=draw(st.booleans()), overrides=draw(st.booleans())))
    # Periods of a few default time steps.
    period = draw(st.sampled_from([0.2, 0.3, 0.45]))

    def slow(move):
        for osc in move.values():
            if isinstance(osc, dict) and osc["period"]:
                osc["period"] = period * draw(st.sampled_from([1.0, 0.5]))

    for m in model["moves"]:
        slow(m)
        for w in m["wings"]:
            slow(w)
            for s in w["sections"]:
                slow(s)
    slow({"v": model["v"]})
    model["steps"] = model["dt"] = None
    first = draw(st.integers(1, 3))
    mask = draw(st.sampled_from([None, [1, 1, 1, 1, 1, 1], [1, 0, 1, 0, 0, 0], [1, 0, 1, 0, 1, 0], [0, 0, 1, 0, 0, 0], [0, 1, 0, 1, 0, 1],
                                 [0, 0, 0, 0, 1, 0], [1, 0, 0, 0, 0, 0]]))
    return {
        "model": model,
        "shift": draw(st.integers(1, 5)),
        "bounds": draw(conv.bounds(ar=3, ar_count=2, chord=2, chord_count=2)),
        "wakes": draw(st.sampled_from([[True, True], [True, False], [False, True], [True, True]])),
        "lengths": [first, first + draw(st.integers(0, 2))],
        "other_lengths": draw(st.sampled_from([[1, 1], [2, 4], [5, 7]])),
        "mask": mask,
    }


def compare_movement(ctx, what, got, want, names):
    for n in names:
        ctx.require(getattr(got, n) == getattr(want, n), "%s %s is %r, not %r" % (what, n, getattr(got, n), getattr(want, n)))


def describe(movement):
    """Everything that defines a movement."""
    out = [{n: getattr(movement.operating_point_movement, n) for n in OPERATING_POINT_MOVEMENT}
           | copy.deepcopy(vars(movement.operating_point_movement.base_operating_point))]
    for a in movement.airplane_movements:
        out.append(copy.deepcopy(c23.describe(a.base_airplane)))
        out.append({n: getattr(a, n) for n in AIRPLANE_MOVEMENT})
        for w in a.wing_movements:
            out.append({n: getattr(w, n) for n in WING_MOVEMENT})
            for s in w.wing_cross_section_movements:
                out.append({n: getattr(s, n) for n in SECTION_MOVEMENT})
    return out


def steps_of(model, wake_length, static):
    """About how many time steps an analysis takes."""
    v = model["op"]["v"]
    worst = 0
    for a in model["airplanes"]:
        for w in a["wings"]:
            chord = max(s["chord"] for s in w["sections"])
            dt = 0.4 * chord / w["nc"] / v
            worst = max(worst, (wake_length * chord / v if static else wake_length * gen.max_period_of(model)) / dt)
    return worst


@facet(PROP, "unsteady study", studies, 500, 9000, "a study of more than one setting")
def unsteady_study(spec, ctx):
    import pterasoftware as ps

    conv.quiet()
    model, b = conv.detail(spec["model"], spec["shift"]), spec["bounds"]
    static = gen.max_period_of(model) == 0
    ars = list(range(b["ar"][0], b["ar"][1] - 1, -1))
    chords = list(range(b["chord"][0], b["chord"][1] + 1))
    lengths = list(range(spec["lengths"][0], spec["lengths"][1] + 1))
    wakes = [w for w, on in zip([True, False], spec["wakes"]) if on]
    models = {}
    for ar in ars:
        for nc in chords:
            made, total = conv.meshed(model, nc, ar)
            if made is None or total > LIMIT:
                ctx.skip("too large" if made else "panel count is a tie")
            models[ar, nc] = made
            if steps_of(made, lengths[-1], static) > STEPS:
                ctx.skip("too many steps")
    mask = np.array([True] * 6 if spec["mask"] is None else spec["mask"], dtype=bool)

    @functools.lru_cache(None)
    def evaluate(wake, length, ar, nc):
        made = dict(models[ar, nc], prescribed=wake, final_only=False)
        made["num_chords" if static else "num_cycles"] = length
        problem = build.unsteady_problem(made)
        solver = build.solve_unsteady(problem, wake, streamlines=False)
        result = runs.Result("unsteady", solver)
        if runs.degenerate(result):
            raise conv.Close
        if static:
            rows = [np.concatenate(loads[2:]) for loads in result.loads[-1]]
        else:
            # Root mean square over the last cycle.
            rows = []
            for k in range(len(model["airplanes"])):
                series = np.array([np.concatenate(step[k][2:]) for step in result.loads[problem.first_averaging_step:]])
                rows.append(np.sqrt(np.mean(series**2, axis=0)))
        picked = np.array(rows)[:, mask]
        if np.min(np.abs(picked)) < 1e-7:
            raise conv.Close
        return picked

    ranges = [wakes, lengths, ars, chords]
    try:
        criterion = conv.criterion_of(b, ranges, evaluate)
        expected, visited = conv.search(ranges, [False, None, 1, None], evaluate, criterion)
    except conv.Close:
        ctx.skip("a change is close to the criterion, or noise")
    problem = build.unsteady_problem(model)
    before = describe(problem.movement)
    options = {"num_chords_bounds" if static else "num_cycles_bounds": tuple(spec["lengths"]),
               "num_cycles_bounds" if static else "num_chords_bounds": tuple(spec["other_lengths"])}
    if spec["mask"] is not None:
        options["coefficient_mask"] = [bool(m) for m in spec["mask"]]
    cls = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
    with conv.recorded(cls) as seen:
        got = ps.convergence.analyze_unsteady_convergence(
            ref_problem=problem, prescribed_wake=spec["wakes"][0], free_wake=spec["wakes"][1], panel_aspect_ratio_bounds=tuple(b["ar"]),
            num_chordwise_panels_bounds=tuple(b["chord"]), convergence_criteria=criterion, **options)
    want = [None] * 4 if expected is None else expected
    ctx.require(list(got) == want, "returned %r, expected %r (visited %r)" % (list(got), want, visited))
    c23.compare_all(ctx, "reference movement ", describe(problem.movement), before)
    for solver in seen:
        tried = solver.unsteady_problem.movement
        ref = problem.movement
        compare_movement(ctx, "tried operating point", tried.operating_point_movement, ref.operating_point_movement, OPERATING_POINT_MOVEMENT)
        ctx.require(vars(tried.operating_point_movement.base_operating_point) == vars(ref.operating_point_movement.base_operating_point),
                    "a tried operating point differs")
        ctx.require(len(tried.airplane_movements) == len(ref.airplane_movements), "a tried movement lost airplanes")
        for k, (a, r) in enumerate(zip(tried.airplane_movements, ref.airplane_movements)):
            conv.check_plane(ctx, a.base_airplane, r.base_airplane, {conv.counts_of(m["airplanes"][k]) for m in models.values()})
            compare_movement(ctx, "tried airplane movement", a, r, AIRPLANE_MOVEMENT)
            for w, v in zip(a.wing_movements, r.wing_movements):
                compare_movement(ctx, "tried wing movement", w, v, WING_MOVEMENT)
                for s, t in zip(w.wing_cross_section_movements, v.wing_cross_section_movements):
                    compare_movement(ctx, "tried cross section movement", s, t, SECTION_MOVEMENT)
    ctx.label("static" if static else "periodic")
    ctx.label("not converged" if expected is None else "converged after %d" % min(len(visited), 8))
    ctx.nontrivial(len(visited) > 1)


@st.composite
def answers(draw):
    case = dict(draw(studies()))
    case["model"] = conv.stretch(case["model"], draw(st.sampled_from([1, 3, 6])))
    case["bounds"] = draw(conv.bounds(ar=4, ar_count=4, chord=2, chord_count=3))
    first = draw(st.integers(1, 3))
    case["lengths"] = [first, first + draw(st.integers(0, 3))]
    focus = draw(st.sampled_from([None, None, None, "ar", "ar", "chord", "lengths"]))
    if focus is not None:
        # Little but one parameter is studied.
        case["bounds"] = dict(case["bounds"])
        if focus == "ar":
            low = draw(st.integers(1, 3))
            case["bounds"]["ar"] = [low + 3, low]
        for name, at in (("ar", 1), ("chord", 0)):
            if focus != name and draw(st.sampled_from([True, True, False])):
                case["bounds"][name] = [case["bounds"][name][at]] * 2
        if focus != "lengths" and draw(st.sampled_from([True, True, False])):
            case["lengths"] = [first, first]
    case["seed"] = draw(st.integers(0, 10**6))
    case["spread"] = draw(st.sampled_from([1e-3, 0.02, 0.2, 0.6]))
    return case


@facet(PROP, "any answers", answers, 900, 14000, "a study of more than two settings")
def any_answers(spec, ctx):
    """The solver is replaced by a table of arbitrary coefficients, so that the search meets every pattern of changes."""
    import pterasoftware as ps

    conv.quiet()
    model, b = conv.detail(spec["model"], spec["shift"]), spec["bounds"]
    static = gen.max_period_of(model) == 0
    ars = list(range(b["ar"][0], b["ar"][1] - 1, -1))
    chords = list(range(b["chord"][0], b["chord"][1] + 1))
    lengths = list(range(spec["lengths"][0], spec["lengths"][1] + 1))
    wakes = [w for w, on in zip([True, False], spec["wakes"]) if on]
    meshes, steps = {}, 0
    for ar in ars:
        for nc in chords:
            made, total = conv.meshed(model, nc, ar)
            if made is None or total > 4 * LIMIT:
                ctx.skip("too large" if made else "panel count is a tie")
            meshes[ar, nc] = tuple(conv.counts_of(a) for a in made["airplanes"])
            steps += sum(steps_of(made, n, static) for n in lengths) * len(wakes)
    if steps > 1000:
        ctx.skip("too many steps")
    mask = np.array([True] * 6 if spec["mask"] is None else spec["mask"], dtype=bool)
    planes = len(model["airplanes"])

    def evaluate(wake, length, ar, nc):
        rows = conv.invented(spec["seed"], (meshes[ar, nc], length, wake), planes, spec["spread"])
        return np.array([row[0 if static else 2] for row in rows])[:, mask]

    def answer(solver, airplanes, prescribed):
        movement = solver.unsteady_problem.movement
        key = (conv.mesh_of(airplanes), movement.num_chords if static else movement.num_cycles, bool(prescribed))
        return key, conv.invented(spec["seed"], key, planes, spec["spread"])

    ranges = [wakes, lengths, ars, chords]
    try:
        criterion = conv.criterion_of(b, ranges, evaluate)
        expected, visited = conv.search(ranges, [False, None, 1, None], evaluate, criterion)
    except conv.Close:
        ctx.skip("a change is close to the criterion")
    options = {"num_chords_bounds" if static else "num_cycles_bounds": tuple(spec["lengths"]),
               "num_cycles_bounds" if static else "num_chords_bounds": tuple(spec["other_lengths"])}
    if spec["mask"] is not None:
        options["coefficient_mask"] = [bool(m) for m in spec["mask"]]
    cls = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
    with conv.answering(cls, answer) as seen:
        got = ps.convergence.analyze_unsteady_convergence(
            ref_problem=build.unsteady_problem(model), prescribed_wake=spec["wakes"][0], free_wake=spec["wakes"][1],
            panel_aspect_ratio_bounds=tuple(b["ar"]), num_chordwise_panels_bounds=tuple(b["chord"]), convergence_criteria=criterion, **options)
    want = [None] * 4 if expected is None else expected
    ctx.require(list(got) == want, "returned %r, expected %r (visited %r)" % (list(got), want, visited))
    tried = [(meshes[ar, nc], length, wake) for wake, length, ar, nc in visited]
    ctx.require(list(dict.fromkeys(seen)) == list(dict.fromkeys(tried)), "tried the settings %r, expected %r" % (seen, tried))
    ctx.label("static" if static else "periodic")
    ctx.label("not converged" if expected is None else "converged after %d" % (len(visited) // 4 * 4))
    ctx.nontrivial(len(visited) > 2)
