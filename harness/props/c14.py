"""C14: solutions obey dimensional similarity."""


import numpy as np
from hypothesis import strategies as st

import gen
import runs
from core import facet

PROP = "C14"
WARM = ("mesh", "horseshoe", "ring", "unsteady")

FACTORS = [1.0, 2.0, 0.5, 4.0, 0.25, 1.7, 0.6, 3.0, 0.3]
# There is no natural speed or density, so any constants in the code show up at their extremes. The induced
# velocity functions' cutoffs near the filaments are absolute, so very small models are left out.
SPEED_FACTORS = FACTORS + [1e-7, 2.0**-20, 1e-3, 1e3, 2.0**20, 1e7]
LENGTH_FACTORS = FACTORS + [0.1, 10.0, 128.0, 1e3]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["horseshoe", "ring", "unsteady", "unsteady"]))
    op = gen.operating_points(velocity=(4, 20))
    if kind == "unsteady":
        model = draw(gen.unsteady(max_airplanes=3, num_steps=(2, 5), op=op, custom=False, final_only=None))
    else:
        model = draw(gen.problems(max_airplanes=3, op=op, max_nc=3, max_ns=3))
    factors = draw(
        st.tuples(*map(st.sampled_from, (SPEED_FACTORS, SPEED_FACTORS, LENGTH_FACTORS))).filter(
            lambda f: f != (1.0, 1.0, 1.0)
        )
    )
    return {"kind": kind, "model": model, "speed": factors[0], "density": factors[1], "length": factors[2]}


@facet(PROP, "similarity", cases, 500, 20000, "at least two panels with loads and at least two factors differ from one")
def similarity(spec, ctx):
    kv, kr, kl = spec["speed"], spec["density"], spec["length"]
    kind, model = spec["kind"], spec["model"]
    other = gen.similar(model, kv, kr, kl)
    a, b = runs.run(kind, model), runs.run(kind, other)
    if runs.degenerate(a):
        ctx.skip("degenerate")
    kf = kr * kv**2 * kl**2
    ctx.require(len(a.loads) == len(b.loads), "the number of steps changed")
    if kind == "unsteady":
        edge = gen.max_period_of(model) / model["dt"]
        if abs(edge - round(edge)) > 1e-9 or edge == 0:
            for name in ("first_averaging_step", "first_results_step"):
                ctx.require(getattr(a.problem, name) == getattr(b.problem, name), name + " changed")
    q = 0.5 * model["op"]["rho"] * model["op"]["v"] ** 2
    gmax = max(float(np.max(np.abs(w))) for step in a.strengths for p in step for w in p) + 1e-300
    gmax += 1e-4 * model["op"]["v"] * np.sqrt(max(a.rounding(k, 1e4) for k in range(len(model["airplanes"]))))
    for step, (x, y) in enumerate(zip(a.strengths, b.strengths)):
        for px, py in zip(x, y):
            for wx, wy in zip(px, py):
                ctx.near("strengths", wy, wx * (kv * kl), atol=1e-7 * gmax * kv * kl)
    active = False
    for plane in range(len(model["airplanes"])):
        scale, arm = a.load_scale(plane) + a.rounding(plane, q), a.arm(plane)
        for step, (x, y) in enumerate(zip(a.loads, b.loads)):
            if x is None or y is None:
                continue
            airplane = a.airplanes[step][plane]
            dims = (airplane.s_ref, airplane.c_ref, airplane.b_ref)
            runs.compare_loads(ctx, "step %d" % step, y[plane], x[plane], scale, arm, dims, q / 4, 1e-7, kf, kf * kl)
            active = active or a.load_scale(plane) > 1e-6 * q
    ctx.label("extreme scaling" if max(max(k, 1 / k) for k in (kv, kr, kl)) > 9 else "moderate scaling")
    ctx.label(kind, "%d factors" % sum(k != 1 for k in (kv, kr, kl)))
    ctx.nontrivial(active and sum(k != 1 for k in (kv, kr, kl)) >= 2)
