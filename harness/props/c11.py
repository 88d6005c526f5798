"""C11: the steady horseshoe solution satisfies its boundary condition and loads."""

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
import steadyref
from core import facet, numbers

PROP = "C11"
KIND = "horseshoe"
WARM = ("mesh", "horseshoe", "ring")


@st.composite
def cases(draw):
    wide = draw(st.booleans())
    op = gen.operating_points(alpha=40.0 if wide else 12.0, beta=40.0 if wide else 12.0)
    return {
        "model": draw(gen.problems(max_airplanes=3, op=op, max_nc=4, max_ns=3)),
        "points": [draw(st.lists(st.integers(-60, 60).map(lambda i: i / 8.0 + 0.03), min_size=3, max_size=3)) for _ in range(3)],
        # Solve this problem again afterwards, at another operating point.
        "again": draw(st.one_of(st.none(), gen.operating_points())),
    }


def check_solution(kind, solver, model, points, ctx, what=""):
    op = model["op"]
    r = steadyref.SteadyReference(kind, solver, op, ctx)
    lat = r.lattice
    if not r.condition < 1e6:
        ctx.skip("ill-conditioned")
    if r.ambiguous:
        ctx.skip("collocation point next to the axis of a filament")
    vortex = "horseshoe_vortex" if kind == "horseshoe" else "ring_vortex"
    g = np.array([getattr(p, vortex).strength for _, p in lat.objects()], dtype=float)
    numbers("strengths", g)
    expected = r.solve()
    # Tangency of the total velocity, from the reported strengths.
    sizes = np.abs(r.matrix) @ np.abs(g) + op["v"]
    residual = np.einsum("ij,ij->i", r.velocity(lat.cps, g), lat.normals)
    ctx.near("normal velocity" + what, residual / sizes, np.zeros(r.n), atol=1e-8)
    ctx.near("strengths" + what, g, expected, rtol=1e-9 * max(10.0, r.condition))
    ctx.near("solver strengths" + what, solver.vortex_strengths, g, rtol=1e-12)
    if kind == "ring":
        for k, panel in lat.objects():
            if lat.te[k]:
                ctx.near("trailing strength", panel.horseshoe_vortex.strength, g[k], atol=1e-12 * max(1.0, abs(g[k])))
    # The field.
    pts = np.array(points)
    if not np.any(r.field.unclear(pts)):
        want = r.velocity(pts, g)
        scale = float(np.max(r.field.size(pts, g))) + op["v"]
        ctx.near("field velocity" + what, solver.calculate_solution_velocity(points=pts), want, rtol=1e-8, scale=scale)
    # Loads.
    centre, force, plane, panel = r.lines(g)
    if np.any(r.field.unclear(centre)):
        ctx.label("loads not compared")
        return r, g, False
    total_scale = float(np.max(np.abs(force))) + 1e-12 * r.q
    # Velocities next to kinks of the lattice dominate the rounding.
    spread = float(np.max(r.field.size(centre, g))) / op["v"]
    rtol = 1e-9 * max(10.0, spread)
    n = lat.n_airplanes
    refs = [np.asarray(a["ref"], float) for a in model["airplanes"]]
    f, m = ref.sum_loads(centre, force, plane, refs, n)
    wind = ref.wind_axes(op["alpha"], op["beta"]).T
    arm = max(float(np.max(np.linalg.norm(centre - refs[p], axis=1))) for p in range(n)) + 1.0
    count = np.sqrt(len(force)) * 10
    for a in range(n):
        airplane = solver.airplanes[a]
        ctx.near("total force" + what, airplane.total_near_field_force_wind_axes, wind @ f[a], rtol=rtol, scale=total_scale * count)
        ctx.near("total moment" + what, airplane.total_near_field_moment_wind_axes, wind @ m[a], rtol=rtol, scale=total_scale * arm * count)
    if kind == "horseshoe":
        for k, p in lat.objects():
            ctx.near("panel force" + what, p.near_field_force_geometry_axes, force[k], rtol=rtol, scale=total_scale * 10)
            moment = np.cross(centre[k] - refs[lat.plane_of[k]], force[k])
            ctx.near("panel moment" + what, p.near_field_moment_geometry_axes, moment, rtol=rtol, scale=total_scale * arm * 10)
    return r, g, True


def run(kind, spec, ctx):
    model = spec["model"]
    problem = build.steady_problem(model)
    solver = build.STEADY[kind](problem)
    r, g, loads = check_solution(kind, solver, model, spec["points"], ctx)
    if spec["again"] is not None:
        # The same airplanes analysed at another operating point.
        second = build.ps.problems.SteadyProblem(airplanes=problem.airplanes, operating_point=build.operating_point(spec["again"]))
        check_solution(kind, build.STEADY[kind](second), dict(model, op=spec["again"]), spec["points"], ctx, "|second run")
        ctx.label("second operating point")
    ctx.label("%d airplanes" % len(model["airplanes"]), "%d wings" % sum(len(a["wings"]) for a in model["airplanes"]))
    ctx.label("%d panels" % (8 * (r.n // 8)))
    ctx.nontrivial(loads and r.n >= 2 and np.max(np.abs(g)) > 1e-6 * model["op"]["v"])


@facet(PROP, "solution", cases, 400, 15000, "at least two panels, loads compared and strengths not all zero")
def solution(spec, ctx):
    run(KIND, spec, ctx)
