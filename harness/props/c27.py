"""C27: the steady convergence study."""

import copy
import functools

import numpy as np
from hypothesis import strategies as st

import build
import gen
import runs
from core import facet
from props import c23, conv

PROP = "C27"
WARM = ("mesh", "horseshoe", "ring")

NAMES = {"horseshoe": "steady horseshoe vortex lattice method", "ring": "steady ring vortex lattice method"}
LIMIT = 260


@st.composite
def studies(draw):
    model = draw(
        gen.problems(max_airplanes=2, max_wings=2, max_nc=2, max_ns=2, max_sections=3, airfoil=conv.smooth_airfoils(), max_step=1.4,
                     op=gen.operating_points(alpha=8.0, beta=8.0, velocity=(5, 20))))
    return {"model": model, "shift": draw(st.integers(1, 5)), "solver": draw(st.sampled_from(["horseshoe", "ring"])),
            "bounds": draw(conv.bounds())}


@facet(PROP, "steady study", studies, 1500, 20000, "a study of more than one mesh")
def steady_study(spec, ctx):
    import pterasoftware as ps

    conv.quiet()
    model, kind, b = conv.detail(spec["model"], spec["shift"]), spec["solver"], spec["bounds"]
    ars = list(range(b["ar"][0], b["ar"][1] - 1, -1))
    chords = list(range(b["chord"][0], b["chord"][1] + 1))
    models = {}
    for ar in ars:
        for nc in chords:
            made, total = conv.meshed(model, nc, ar)
            if made is None or total > LIMIT:
                ctx.skip("too large" if made else "panel count is a tie")
            models[ar, nc] = made

    @functools.lru_cache(None)
    def evaluate(ar, nc):
        result = runs.run(kind, models[ar, nc])
        if runs.degenerate(result):
            raise conv.Close
        return np.array([np.linalg.norm(x) for loads in result.loads[0] for x in loads[2:]])

    try:
        criterion = conv.criterion_of(b, [ars, chords], evaluate)
        expected, visited = conv.search([ars, chords], [1, None], evaluate, criterion)
    except conv.Close:
        ctx.skip("a change is close to the criterion")
    problem = build.steady_problem(model)
    before = [copy.deepcopy(c23.describe(a)) for a in problem.airplanes]
    point = copy.deepcopy(vars(problem.operating_point))
    module = (ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver if kind == "horseshoe"
              else ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver)
    with conv.recorded(module) as seen:
        got = ps.convergence.analyze_steady_convergence(
            ref_problem=problem, solver_type=NAMES[kind], panel_aspect_ratio_bounds=tuple(b["ar"]),
            num_chordwise_panels_bounds=tuple(b["chord"]), convergence_criteria=criterion)
    want = [None, None] if expected is None else expected
    ctx.require(list(got) == want, "returned %r, expected %r (visited %r)" % (list(got), want, visited))
    for k, (a, d) in enumerate(zip(problem.airplanes, before)):
        c23.compare_all(ctx, "reference airplane %d" % k, c23.describe(a), d)
    ctx.require(vars(problem.operating_point) == point, "the reference operating point changed")
    for solver in seen:
        tried = solver.steady_problem
        ctx.require(vars(tried.operating_point) == point, "a tried operating point differs")
        ctx.require(len(tried.airplanes) == len(problem.airplanes), "a tried problem has %d airplanes" % len(tried.airplanes))
        for k, (a, r) in enumerate(zip(tried.airplanes, problem.airplanes)):
            conv.check_plane(ctx, a, r, {conv.counts_of(m["airplanes"][k]) for m in models.values()})
    ctx.label("not converged" if expected is None else "converged after %d" % min(len(visited), 5))
    if expected is not None and len(ars) > 1 and expected[0] == 1 and 1 in ars:
        ctx.label("finest panel aspect ratio")
    ctx.nontrivial(len(visited) > 1)


@st.composite
def answers(draw):
    model = draw(
        gen.problems(max_airplanes=3, max_wings=2, max_nc=2, max_ns=2, max_sections=3, airfoil=conv.smooth_airfoils(), max_step=1.4,
                     op=gen.operating_points(alpha=8.0, beta=8.0, velocity=(5, 20))))
    model = conv.stretch(model, draw(st.sampled_from([1, 2, 4])))
    return {"model": model, "shift": draw(st.integers(1, 5)), "solver": draw(st.sampled_from(["horseshoe", "ring"])),
            "bounds": draw(conv.bounds(ar_count=5, chord=6, chord_count=7)), "seed": draw(st.integers(0, 10**6)),
            "spread": draw(st.sampled_from([1e-3, 0.02, 0.2, 0.6]))}


@facet(PROP, "any answers", answers, 900, 14000, "a study of more than two meshes")
def any_answers(spec, ctx):
    """The solver is replaced by a table of arbitrary coefficients, so that the search meets every pattern of changes."""
    import pterasoftware as ps

    conv.quiet()
    model, kind, b = conv.detail(spec["model"], spec["shift"]), spec["solver"], spec["bounds"]
    ars = list(range(b["ar"][0], b["ar"][1] - 1, -1))
    chords = list(range(b["chord"][0], b["chord"][1] + 1))
    meshes = {}
    for ar in ars:
        for nc in chords:
            made, total = conv.meshed(model, nc, ar)
            if made is None or total > 6 * LIMIT:
                ctx.skip("too large" if made else "panel count is a tie")
            meshes[ar, nc] = tuple(conv.counts_of(a) for a in made["airplanes"])
    planes = len(model["airplanes"])

    def evaluate(ar, nc):
        rows = conv.invented(spec["seed"], meshes[ar, nc], planes, spec["spread"])
        return np.array([np.linalg.norm(x) for row in rows for x in (row[0][:3], row[0][3:])])

    def answer(solver, airplanes, prescribed):
        key = conv.mesh_of(airplanes)
        return key, conv.invented(spec["seed"], key, planes, spec["spread"])

    try:
        criterion = conv.criterion_of(b, [ars, chords], evaluate)
        expected, visited = conv.search([ars, chords], [1, None], evaluate, criterion)
    except conv.Close:
        ctx.skip("a change is close to the criterion")
    cls = (ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver if kind == "horseshoe"
           else ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver)
    with conv.answering(cls, answer) as seen:
        got = ps.convergence.analyze_steady_convergence(
            ref_problem=build.steady_problem(model), solver_type=NAMES[kind], panel_aspect_ratio_bounds=tuple(b["ar"]),
            num_chordwise_panels_bounds=tuple(b["chord"]), convergence_criteria=criterion)
    want = [None, None] if expected is None else expected
    ctx.require(list(got) == want, "returned %r, expected %r (visited %r)" % (list(got), want, visited))
    tried = [meshes[v] for v in visited]
    ctx.require(list(dict.fromkeys(seen)) == list(dict.fromkeys(tried)), "tried the meshes %r, expected %r" % (seen, tried))
    ctx.label("not converged" if expected is None else "converged after %d" % (len(visited) // 4 * 4))
    ctx.nontrivial(len(visited) > 2)


@facet(PROP, "refusals", lambda: st.fixed_dictionaries({"name": st.sampled_from(
    ["", "ring", "steady", "unsteady ring vortex lattice method", "steady horseshoe vortex lattice method ", "Steady ring vortex lattice method"])}),
    12, 12, "every wrong name")
def refusals(spec, ctx):
    import pterasoftware as ps

    conv.quiet()
    problem = build.steady_problem({"airplanes": [build.SIMPLE_PLANE], "op": build.SIMPLE_OP})
    try:
        got = ps.convergence.analyze_steady_convergence(
            ref_problem=problem, solver_type=spec["name"], panel_aspect_ratio_bounds=(2, 2), num_chordwise_panels_bounds=(1, 2))
    except Exception:
        ctx.nontrivial(True)
        return
    ctx.require(False, "solver %r was accepted: %r" % (spec["name"], got))
