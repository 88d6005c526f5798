"""C18: every unsteady step satisfies flow tangency on the moving surface."""

import numpy as np
from hypothesis import strategies as st

import build
import gen
import marchref
import ref
import runs
from core import facet

PROP = "C18"
WARM = ("mesh", "unsteady")


@st.composite
def cases(draw, custom=True):
    small = draw(st.booleans())
    model = draw(gen.unsteady(max_airplanes=3, num_steps=(2, 7), small=small, final_only=None, max_nc=3, max_ns=3, custom=custom))
    # Insects' and airships' time steps.
    pace = draw(st.sampled_from([1.0] * 7 + [1e-3, 40.0, 1e3]))
    return model if pace == 1.0 else gen.similar(model, pace, 1.0, 1.0)


def moving(model):
    return gen.max_period_of(model) > 0


@facet(PROP, "tangency", cases, 1200, 40000, "at least three steps of a moving model, all of them compared")
def tangency(model, ctx):
    solver = build.solve_unsteady(model, streamlines=False)
    ctx.require(solver.unsteady_problem.num_steps == model["steps"], "the number of steps changed")
    last, checked = None, 0
    for k in range(model["steps"]):
        step = marchref.Step(solver, k, model, ctx)
        lat = step.lattice
        # The vortices the solver placed on the panels.
        for i, panel in lat.objects():
            ring = panel.ring_vortex
            got = [ring.front_right_vertex, ring.front_left_vertex, ring.back_left_vertex, ring.back_right_vertex]
            ctx.near("ring vertices", got, lat.rings[i], rtol=1e-11, scale=float(np.max(np.abs(lat.rings[i]))) + step.speed * step.dt)
        if step.unclear(lat.cps).any():
            ctx.label("step not judged: next to an axis")
            last = step
            continue
        a, b, size = step.system(last)
        diagonal = np.abs(np.diag(a))
        condition = np.linalg.cond(a / diagonal[:, None]) if diagonal.min() > 0 else np.inf
        if not condition < 1e6:
            ctx.label("step not judged: ill-conditioned")
            last = step
            continue
        terms = np.abs(a) @ np.abs(step.g) + size
        ctx.near("normal velocity at step %d" % k, (a @ step.g - b) / terms, np.zeros(step.n), atol=1e-8)
        want = np.linalg.solve(a, b)
        ctx.near(
            "strengths at step %d" % k, step.g, want,
            atol=1e-9 * condition * (float(np.max(size / diagonal)) + float(np.max(np.abs(want)))))
        checked += 1
        last = step
    ctx.near("final strengths of the solver", solver.current_vortex_strengths, last.g, rtol=1e-12)
    ctx.label("moving" if moving(model) else "static", "%d steps" % model["steps"], "free wake" if not model["prescribed"] else "prescribed wake")
    ctx.nontrivial(checked == model["steps"] and checked >= 3 and moving(model))
