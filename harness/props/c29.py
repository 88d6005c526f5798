"""C29: streamlines start at the trailing edge and follow the solved flow."""

import numpy as np
from hypothesis import strategies as st

import build
import gen
import marchref
import runs
import steadyref
from core import facet, numbers

PROP = "C29"
WARM = ("mesh", "horseshoe", "ring", "unsteady")


@st.composite
def cases(draw, kinds=("horseshoe", "ring", "unsteady")):
    kind = draw(st.sampled_from(list(kinds)))
    if kind == "unsteady":
        model = draw(gen.unsteady(max_airplanes=3, num_steps=(1, 4), small=draw(st.booleans()), final_only=None, max_nc=3, max_ns=3))
    else:
        model = draw(gen.problems(max_airplanes=3, max_nc=3, max_ns=3))
    return {
        "kind": kind,
        "model": model,
        # Steps and step length asked for after the run; None: those of the run.
        "steps": draw(st.one_of(st.none(), st.sampled_from([0, 1, 2, 5, 13, 40]))),
        "dt": draw(st.one_of(st.none(), st.sampled_from([0.001, 0.02, 0.07, 0.2]))),
        # Some other call in between must make no difference.
        "again": draw(st.booleans()),
        "off": draw(st.sampled_from([False, False, False, True])),
    }


def reference_velocity(kind, solver, model, ctx):
    """Velocity field and the points at which it is not well defined."""
    if kind == "unsteady":
        step = marchref.Step(solver, model["steps"] - 1, model, ctx)

        def velocity(points):
            return step.velocity(points)

        return step.lattice, velocity, step.unclear
    r = steadyref.SteadyReference(kind, solver, model["op"], ctx)
    vortex = "horseshoe_vortex" if kind == "horseshoe" else "ring_vortex"
    g = np.array([getattr(p, vortex).strength for _, p in r.lattice.objects()], dtype=float)

    def velocity(points):
        return r.velocity(points, g), r.field.size(points, g) + model["op"]["v"]

    return r.lattice, velocity, lambda points: np.any(r.field.unclear(points), axis=1)


def check_lines(ctx, lines, starts, velocity, unclear, steps, dt):
    lines = numbers("streamlines", lines, (steps + 1, len(starts), 3))
    scale = float(np.max(np.abs(starts))) + 1.0
    # In whatever order, once each.
    left = list(range(len(starts)))
    for p in lines[0]:
        d = [float(np.linalg.norm(p - starts[i])) for i in left]
        k = int(np.argmin(d)) if d else 0
        ctx.require(d and d[k] <= 1e-9 * scale, "no trailing edge midpoint at streamline start %r" % (p.tolist(),))
        left.pop(k)
    points = lines[:-1].reshape(-1, 3)
    if not steps:
        return 0
    moved = (lines[1:] - lines[:-1]).reshape(-1, 3)
    v, size = velocity(points)
    sharp = unclear(points)
    # Next to a vortex the velocity amplifies rounding of the point itself.
    near, _ = velocity(points + 1e-8)
    slack = np.linalg.norm(near - v, axis=1)[:, None] * np.ones(3)
    ok = ~sharp & (slack[:, 0] < 1e-3 * size)
    reach = np.maximum(1.0, np.max(np.abs(points), axis=1))
    allowed = (1e-8 * size[:, None] + 1e-5 * slack) * dt + 1e-14 * reach[:, None]
    error = np.abs(moved - v * dt) / allowed
    ctx.near("steps along the streamlines", np.where(ok[:, None], error, 0.0), np.zeros(error.shape), atol=1.0)
    return int(np.count_nonzero(ok))


@facet(PROP, "paths", cases, 2000, 60000, "at least two streamlines, followed for at least two steps away from vortices")
def paths(spec, ctx):
    kind, model = spec["kind"], spec["model"]
    if kind == "unsteady":
        solver = build.solve_unsteady(model, streamlines=not spec["off"])
    else:
        solver = build.STEADY[kind](model)
    if runs.degenerate(runs.Result(kind, solver)):
        ctx.skip("degenerate")
    lattice, velocity, unclear = reference_velocity(kind, solver, model, ctx)
    te = lattice.corners[lattice.te]
    # Corners: front left, front right, back left, back right, as the lattice orders them.
    starts = back_midpoints(solver, kind)
    ctx.require(len(starts) == len(te), "%d trailing edge panels, expected %d" % (len(starts), len(te)))
    if kind == "unsteady" and spec["off"]:
        ctx.label("not asked for during the run")
    else:
        check_lines(ctx, solver.streamline_points, starts, velocity, unclear, 25, 0.02)
    import pterasoftware as ps

    kwargs = {}
    if spec["steps"] is not None:
        kwargs["num_steps"] = spec["steps"]
    if spec["dt"] is not None:
        kwargs["delta_time"] = spec["dt"]
    for _ in range(2 if spec["again"] else 1):
        ps.functions.calculate_streamlines(solver, **kwargs)
    steps = kwargs.get("num_steps", 25)
    count = check_lines(ctx, solver.streamline_points, starts, velocity, unclear, steps, kwargs.get("delta_time", 0.02))
    ctx.label(kind)
    ctx.nontrivial(len(starts) >= 2 and count >= 2 * len(starts))


def back_midpoints(solver, kind):
    """From the wings' meshes: the last row's back edges."""
    airplanes = solver.unsteady_problem.steady_problems[-1].airplanes if kind == "unsteady" else solver.steady_problem.airplanes
    out = []
    for plane in airplanes:
        for wing in plane.wings:
            for panel in wing.panels[-1]:
                out.append(0.5 * (np.asarray(panel.back_left_vertex) + np.asarray(panel.back_right_vertex)))
    return np.array(out)
