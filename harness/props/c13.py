"""C13: reported loads are the sums of panel loads, consistently normalised."""

import copy

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from core import facet, numbers

PROP = "C13"
WARM = ("mesh", "horseshoe", "ring", "unsteady")


@st.composite
def cases(draw):
    solver = draw(st.sampled_from(["horseshoe", "ring", "unsteady"]))
    op = gen.operating_points(alpha=60.0, beta=60.0, velocity=(2, 30)) if draw(st.booleans()) else gen.operating_points(velocity=(2, 30))
    if solver == "unsteady":
        model = draw(gen.unsteady(max_airplanes=3, num_steps=(1, 4), op=op, final_only=None))
    else:
        model = draw(gen.problems(max_airplanes=3, op=op, max_nc=3, max_ns=3))
    return {
        "solver": solver,
        "model": model,
        # Moves each airplane's moment reference and overrides its reference dimensions.
        "shift": [draw(st.lists(gen.grid(-3, 3, 0.25), min_size=3, max_size=3)) for _ in model["airplanes"]],
        "dims": [draw(st.lists(gen.grid(0.3, 5, 0.1), min_size=3, max_size=3)) for _ in model["airplanes"]],
    }


def solve(kind, model):
    """[(airplanes, operating point spec)] of every step that has results, and the
    unsteady problem."""
    if kind != "unsteady":
        solver = build.STEADY[kind](model)
        return [(solver.airplanes, solver.operating_point)], None
    solver = build.solve_unsteady(model)
    problem = solver.unsteady_problem
    steps = [(p.airplanes, p.operating_point) for p in problem.steady_problems]
    return steps[problem.first_results_step :], problem


def loads(airplane):
    return {
        "force": numbers("force", airplane.total_near_field_force_wind_axes, (3,)),
        "moment": numbers("moment", airplane.total_near_field_moment_wind_axes, (3,)),
        "CF": numbers("force coefficients", airplane.total_near_field_force_coefficients_wind_axes, (3,)),
        "CM": numbers("moment coefficients", airplane.total_near_field_moment_coefficients_wind_axes, (3,)),
    }


@facet(PROP, "sums", cases, 250, 10000, "at least two panels with a load, each airplane having its own reference dimensions")
def sums(spec, ctx):
    model = spec["model"]
    kind = spec["solver"]
    runs, problem = solve(kind, model)
    ctx.label(kind, "%d airplanes" % len(model["airplanes"]))
    everything = []
    for step, (airplanes, op) in enumerate(runs):
        alpha, beta = model["op"]["alpha"], model["op"]["beta"]
        wind = ref.wind_axes(alpha, beta).T
        v = op.velocity
        if problem is None:
            ctx.require(v == model["op"]["v"], "the operating point changed")
        q = 0.5 * model["op"]["rho"] * v**2
        row = []
        for airplane, plane in zip(airplanes, model["airplanes"]):
            force, moment = np.zeros(3), np.zeros(3)
            size = msize = 1e-300
            for wing in airplane.wings:
                for panel in np.ravel(wing.panels):
                    f = numbers("panel force", panel.near_field_force_geometry_axes, (3,))
                    m = numbers("panel moment", panel.near_field_moment_geometry_axes, (3,))
                    ctx.near("panel wind force", panel.near_field_force_wind_axes, wind @ f, rtol=1e-12, scale=np.linalg.norm(f))
                    ctx.near("panel wind moment", panel.near_field_moment_wind_axes, wind @ m, rtol=1e-12, scale=np.linalg.norm(m))
                    fw = wind @ f
                    for name, value in (("induced_drag", -fw[0]), ("side_force", fw[1]), ("lift", -fw[2])):
                        ctx.near("panel " + name, getattr(panel, name + "_coefficient"), value / q / panel.area,
                                 rtol=1e-11, scale=np.linalg.norm(f) / q / panel.area)
                    force += f
                    moment += m
                    size += np.linalg.norm(f)
                    msize += np.linalg.norm(m)
            got = loads(airplane)
            fw, mw = wind @ force, wind @ moment
            ctx.near("total force", got["force"], fw, rtol=1e-12, scale=size)
            ctx.near("total moment", got["moment"], mw, rtol=1e-12, scale=msize)
            s, c, b = airplane.s_ref, airplane.c_ref, airplane.b_ref
            for name, value in (("s_ref", s), ("c_ref", c), ("b_ref", b)):
                if plane[name] is not None:
                    ctx.require(value == plane[name], name + " is not what was given")
            ctx.near("force coefficients", got["CF"], np.array([-fw[0], fw[1], -fw[2]]) / q / s, rtol=1e-11, scale=size / q / s)
            ctx.near("moment coefficients", got["CM"], mw / q / s / np.array([b, c, b]), rtol=1e-11, scale=msize / q / s / min(b, c))
            row.append((got, size, msize, (s, c, b), q, wind))
        everything.append(row)
    # The same with other moment references and reference dimensions.
    other = copy.deepcopy(model)
    for plane, shift, dims in zip(other["airplanes"], spec["shift"], spec["dims"]):
        plane["ref"] = [a + b for a, b in zip(plane["ref"], shift)]
        plane["s_ref"], plane["c_ref"], plane["b_ref"] = dims
    if kind == "unsteady":
        # The time step does not follow the reference dimensions: it is given.
        ctx.require(other["dt"] is not None, "no time step")
    again, _ = solve(kind, other)
    for row, (airplanes, op) in zip(everything, again):
        for (got, size, msize, dims, q, wind), airplane, shift, new in zip(row, airplanes, spec["shift"], spec["dims"]):
            moved = loads(airplane)
            d = np.array(shift)
            scale = size * 1e-9
            ctx.near("force, reference moved", moved["force"], got["force"], atol=scale + 1e-300)
            want = got["moment"] - wind @ np.cross(d, wind.T @ got["force"])
            ctx.near("moment, reference moved", moved["moment"], want, atol=1e-9 * (msize + size * (1 + np.linalg.norm(d))) + 1e-300)
            ctx.near("force coefficients, new dimensions", moved["CF"], got["CF"] * dims[0] / new[0], atol=1e-9 * size / q / new[0] + 1e-300)
            lengths = np.array([new[2], new[1], new[2]])
            ctx.near("moment coefficients, new dimensions", moved["CM"], want / q / new[0] / lengths,
                     atol=1e-9 * (msize + size * (1 + np.linalg.norm(d))) / q / new[0] / min(new[1:]) + 1e-300)
    panels = sum(a.num_panels for a in runs[0][0])
    ctx.nontrivial(panels >= 2 and max(r[1] for row in everything for r in row) > 1e-9)


@facet(PROP, "final", lambda: gen.unsteady(max_airplanes=3, num_steps=(1, 4), final_only=None), 60, 2000,
       "final results of a moving or static problem with a load")
def final(spec, ctx):
    """The final loads and coefficients are in the same relation."""
    problem = build.solve_unsteady(spec).unsteady_problem
    static = gen.max_period_of(spec) == 0
    steps = problem.steady_problems[problem.first_averaging_step :]
    kinds = [""] if static else ["mean_"]
    for kind in kinds:
        F = getattr(problem, "final_%snear_field_forces_wind_axes" % kind)
        CF = getattr(problem, "final_%snear_field_force_coefficients_wind_axes" % kind)
        M = getattr(problem, "final_%snear_field_moments_wind_axes" % kind)
        CM = getattr(problem, "final_%snear_field_moment_coefficients_wind_axes" % kind)
        for values in (F, CF, M, CM):
            ctx.require(len(values) == len(spec["airplanes"]), "%d final results for %d airplanes" % (len(values), len(spec["airplanes"])))
        for k in range(len(spec["airplanes"])):
            airplane = steps[-1].airplanes[k]
            s, c, b = airplane.s_ref, airplane.c_ref, airplane.b_ref
            if spec["v"]["period"] == 0 or spec["v"]["amp"] == 0:
                q = 0.5 * spec["op"]["rho"] * spec["op"]["v"] ** 2
                f, m = np.array(F[k]), np.array(M[k])
                ctx.near("final force coefficients", CF[k], f * [-1, 1, -1] / q / s, rtol=1e-10, scale=np.max(np.abs(f)) / q / s + 1e-12)
                ctx.near("final moment coefficients", CM[k], m / q / s / np.array([b, c, b]), rtol=1e-10,
                         scale=np.max(np.abs(m)) / q / s / min(b, c) + 1e-12)
                ctx.nontrivial(np.max(np.abs(f)) > 1e-9)
