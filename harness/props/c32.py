"""C32: what happens at a time step does not depend on later ones."""

import copy

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
import runs
from core import facet, numbers

PROP = "C32"
WARM = ("mesh", "unsteady")

# A jump may fall on either side of a step, depending on rounding.
SMOOTH = ["cos", "sin3", "tanh", "slow", "linear", "decaying"]


@st.composite
def cases(draw):
    model = draw(gen.unsteady(max_airplanes=3, num_steps=(1, 5), small=draw(st.booleans()), max_nc=2, max_ns=2, max_sections=3, final_only=None,
                              dt=draw(st.sampled_from([(0.02, 0.1), (0.01, 0.03), (0.1, 0.4)]))))
    for m in model["moves"]:
        for w in m["wings"]:
            for s in w["sections"]:
                for osc in s.values():
                    if osc["fn"] not in SMOOTH:
                        osc["fn"] = draw(st.sampled_from(SMOOTH))
    # Fewer or more steps than a cycle.
    stretch = draw(st.sampled_from([1.0, 1.0, 0.5, 2.5, 40.0]))
    for osc in all_waves(model):
        osc["period"] = round(osc["period"] * stretch, 10)
    return {"model": model, "more": draw(st.sampled_from([1, 1, 2, 3, 5])), "late": draw(st.booleans()), "other_final": draw(st.booleans())}


def all_waves(model):
    yield model["v"]
    for m in model["moves"]:
        for part in [m] + m["wings"] + [s for w in m["wings"] for s in w["sections"]]:
            for osc in part.values():
                if isinstance(osc, dict) and "period" in osc:
                    yield osc


def recorded(solver, step):
    """What the solver keeps of one step: name -> numbers."""
    problem = solver.steady_problems[step]
    out = {"operating point": np.array([getattr(problem.operating_point, n) for n in ("velocity", "alpha", "beta", "density", "nu", "external_thrust")])}
    for a, plane in enumerate(problem.airplanes):
        out["reference point %d" % a] = np.array(plane.xyz_ref, dtype=float)
        for w, wing in enumerate(plane.wings):
            here = "airplane %d, wing %d: " % (a, w)
            panels = np.ravel(wing.panels)
            out[here + "corners"] = ref.panel_corners(wing)
            out[here + "strengths"] = numbers("strengths", [p.ring_vortex.strength for p in panels])
            out[here + "bound vertices"] = np.array([[p.ring_vortex.front_left_vertex, p.ring_vortex.back_right_vertex] for p in panels], dtype=float)
            wake = list(np.ravel(wing.wake_ring_vortices))
            out[here + "wake strengths"] = numbers("wake strengths", [r.strength for r in wake])
            out[here + "wake ages"] = numbers("wake ages", [r.age for r in wake])
            out[here + "wake vertices"] = np.array([[r.front_left_vertex, r.front_right_vertex, r.back_left_vertex, r.back_right_vertex] for r in wake],
                                                   dtype=float)
    return out


@facet(PROP, "longer runs", cases, 2000, 30000, "something moves, and the shorter run has at least two steps")
def longer_runs(spec, ctx):
    short = spec["model"]
    long = copy.deepcopy(short)
    long["steps"] += spec["more"]
    if spec["other_final"]:
        long["final_only"] = not short["final_only"]
    keep = dict(build.CUSTOM_FUNCTIONS)
    changed = False
    try:
        one = build.solve_unsteady(short)
        if spec["late"]:
            # The custom motions change after the shorter run's last step.
            end = (short["steps"] - 0.5) * short["dt"]
            for k, osc in enumerate(all_waves(long)):
                if osc["spacing"] == "custom" and osc["amp"] and osc["period"]:
                    name = "late %d" % k
                    build.CUSTOM_FUNCTIONS[name] = late(keep[osc["fn"]], 2 * np.pi * end / osc["period"])
                    osc["fn"] = name
                    changed = True
        two = build.solve_unsteady(long)
    finally:
        build.CUSTOM_FUNCTIONS.clear()
        build.CUSTOM_FUNCTIONS.update(keep)
    ctx.require(len(two.steady_problems) == len(one.steady_problems) + spec["more"], "%d steps and %d" % (len(one.steady_problems), len(two.steady_problems)))
    a, b = runs.Result("unsteady", one), runs.Result("unsteady", two)
    if runs.degenerate(a) or runs.degenerate(b):
        ctx.skip("degenerate")
    for step in range(short["steps"]):
        first, second = recorded(one, step), recorded(two, step)
        ctx.require(set(first) == set(second), "step %d: other parts exist" % step)
        for n in first:
            scale = float(np.max(np.abs(first[n]))) if first[n].size else 0.0
            if "strengths" in n:
                scale = max(scale, float(max(np.max(np.abs(v)) for k, v in first.items() if k.endswith("strengths") and v.size)))
            ctx.near("%s|step %d" % (n, step), second[n], first[n], atol=1e-7 * (scale + 1e-3))
        if a.loads[step] is None or b.loads[step] is None:
            continue
        for k, (x, y) in enumerate(zip(a.loads[step], b.loads[step])):
            size = a.load_scale(k)
            plane = a.airplanes[step][k]
            q = 0.5 * short["op"]["rho"] * one.steady_problems[step].operating_point.velocity ** 2
            if q <= 0:
                continue
            size += a.rounding(k, q)
            runs.compare_loads(ctx, "airplane %d, step %d" % (k, step), y, x, size, a.arm(k), (plane.s_ref, plane.c_ref, plane.b_ref), q, 1e-7)
        ctx.label("loads compared")
    moves = gen.max_period_of(short) > 0
    ctx.label("moving" if moves else "static", "changed later" if changed else "same motion")
    ctx.nontrivial(moves and short["steps"] >= 2)


def late(function, end):
    def shifted(t):
        t = np.asarray(t, dtype=float)
        return np.where(t <= end, function(t), function(t) + 0.3 * (t - end))

    return shifted
