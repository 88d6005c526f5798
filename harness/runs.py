"""Run any solver on a model spec and collect what it reports, step by step."""

import numpy as np

import build
import gen
from core import numbers

LOADS = ("total_near_field_force_wind_axes", "total_near_field_moment_wind_axes",
         "total_near_field_force_coefficients_wind_axes", "total_near_field_moment_coefficients_wind_axes")


class Result:
    """loads[step][airplane] = (force, moment, force coefficients, moment coefficients);
    strengths[step] = all bound strengths; None for steps without results."""

    def __init__(self, kind, solver):
        self.kind, self.solver = kind, solver
        if kind == "unsteady":
            self.problem = solver.unsteady_problem
            problems = self.problem.steady_problems
            first = self.problem.first_results_step
        else:
            self.problem = solver.steady_problem
            problems = [solver.steady_problem]
            first = 0
        self.loads, self.strengths, self.airplanes = [], [], []
        vortex = "horseshoe_vortex" if kind == "horseshoe" else "ring_vortex"
        for step, p in enumerate(problems):
            self.airplanes.append(p.airplanes)
            self.strengths.append(
                [
                    [numbers("strengths", [[getattr(q, vortex).strength for q in row] for row in w.panels]) for w in a.wings]
                    for a in p.airplanes
                ]
            )
            if step < first:
                self.loads.append(None)
            else:
                self.loads.append([tuple(numbers(n, getattr(a, n), (3,)) for n in LOADS) for a in p.airplanes])

    def load_scale(self, airplane):
        """Sizes of the panels' loads: what sums of them can be accurate to."""
        size = 0.0
        for step, planes in enumerate(self.airplanes):
            if self.loads[step] is None:
                continue
            for wing in planes[airplane].wings:
                size = max(size, float(sum(np.linalg.norm(p.near_field_force_geometry_axes) for p in np.ravel(wing.panels))))
        return size

    def rounding(self, airplane, q):
        """Loads of this size are compared as if they were zero: they are what is left of larger ones."""
        return 1e-4 * q * max(
            sum(float(p.area) for w in planes[airplane].wings for p in np.ravel(w.panels)) for planes in self.airplanes)

    def arm(self, airplane):
        out = 0.0
        for planes in self.airplanes:
            a = planes[airplane]
            for wing in a.wings:
                for p in (wing.panels[0, 0], wing.panels[-1, -1]):
                    out = max(out, float(np.linalg.norm(p.collocation_point - a.xyz_ref)))
        return out + 0.1


def run(kind, model):
    if kind == "unsteady":
        return Result(kind, build.solve_unsteady(model, streamlines=False) if not isinstance(model, dict)
                      else build.solve_unsteady(model))
    return Result(kind, build.STEADY[kind](model))


def degenerate(result, limit=1e3):
    """Strengths far beyond what the airspeed and size of the model explain: a
    collocation point sits next to a filament and nothing can be compared."""
    worst = 0.0
    for planes, strengths in zip(result.airplanes, result.strengths):
        for a, per_wing in zip(planes, strengths):
            for w, g in zip(a.wings, per_wing):
                size = max(np.linalg.norm(p.front_left_vertex - p.back_right_vertex) for p in np.ravel(w.panels))
                size = max(size, max(s.chord for s in w.wing_cross_sections))
                worst = max(worst, float(np.max(np.abs(g))) / size)
    return worst > limit


def compare_loads(ctx, what, got, want, scale, arm, dims, q, rtol, force=1.0, moment=1.0):
    """got, want: (force, moment, CF, CM). force and moment: expected ratios got/want."""
    s, c, b = dims
    ctx.near("force|" + what, got[0], np.asarray(want[0]) * force, atol=rtol * scale * abs(force) + 1e-300)
    ctx.near("moment|" + what, got[1], np.asarray(want[1]) * moment, atol=rtol * scale * arm * abs(moment) + 1e-300)
    ctx.near("force coefficients|" + what, got[2], want[2], atol=rtol * scale / q / s + 1e-300)
    ctx.near("moment coefficients|" + what, got[3], want[3], atol=rtol * scale * arm / q / s / min(b, c) + 1e-300)
