"""C20: unsteady loads are Kutta-Joukowski loads plus the correctly signed rate term."""

import numpy as np
from hypothesis import strategies as st

import build
import gen
import marchref
import props.c18 as c18
import ref
from core import facet, numbers

PROP = "C20"
WARM = ("mesh", "unsteady")


@facet(PROP, "loads", c18.cases, 800, 30000, "at least two steps with loads of a moving model, all of them compared")
def loads(model, ctx):
    solver = build.solve_unsteady(model, streamlines=False)
    problem = solver.unsteady_problem
    last, compared = None, 0
    for k in range(model["steps"]):
        step = marchref.Step(solver, k, model, ctx)
        if k >= problem.first_results_step:
            points, forces, planes, sizes = step.loads(last)
            bad = step.unclear(step.load_points)
            wind = ref.wind_axes(model["op"]["alpha"], model["op"]["beta"]).T
            for a, airplane in enumerate(step.airplanes):
                mine = planes == a
                if bad[planes[: len(bad)] == a].any():
                    ctx.label("loads not compared: next to an axis")
                    continue
                arm = points[mine] - np.asarray(airplane.xyz_ref, float)
                f = forces[mine].sum(axis=0)
                m = np.cross(arm, forces[mine]).sum(axis=0)
                scale = float(sizes[mine].sum()) + 1e-12 * step.q
                reach = float(np.max(np.linalg.norm(arm, axis=1)))
                ctx.near("force|step %d" % k, airplane.total_near_field_force_wind_axes, wind @ f, rtol=1e-8, scale=scale)
                ctx.near("moment|step %d" % k, airplane.total_near_field_moment_wind_axes, wind @ m, rtol=1e-8, scale=scale * reach)
                compared += 1
        last = step
    ctx.label("final only" if model["final_only"] else "all results", "free wake" if not model["prescribed"] else "prescribed wake")
    ctx.nontrivial(compared >= 2 and c18.moving(model))


# ------------------------------------------------------------------ physics of the sign
@st.composite
def starts(draw):
    """A flat wing started impulsively at an incidence of either sign."""
    model = draw(
        gen.unsteady(
            static=True, num_steps=(2, 4), op=gen.operating_points(alpha=0, beta=0, velocity=(4, 20)), dihedral=0.0, twist=0.0, tilt=False,
            deflection=False, airfoil=gen.airfoils(thin=True), max_wings=1, max_sections=2, overrides=False))
    model["op"]["alpha"] = draw(st.sampled_from([1, -1])) * draw(gen.grid(1.0, 10.0, 0.5))
    return model


@facet(PROP, "impulsive start", starts, 200, 5000, "every case")
def impulsive_start(model, ctx):
    solver = build.solve_unsteady(model, streamlines=False)
    problem = solver.unsteady_problem
    sign = np.sign(model["op"]["alpha"])
    lift = [-sign * numbers("force", p.airplanes[0].total_near_field_force_wind_axes, (3,))[2] for p in problem.steady_problems]
    for k, value in enumerate(lift):
        ctx.require(value > 0, "step %d lifts to the wrong side: %r" % (k, lift))
    # Building up the whole circulation within the first step adds lift.
    first = marchref.Step(solver, 0, model, ctx)
    points, forces, planes, sizes = first.loads(None)
    area = float(first.lattice.areas.sum())
    steady_part = -sign * float((ref.wind_axes(model["op"]["alpha"], 0.0).T @ forces[: len(first.load_points)].sum(axis=0))[2])
    ctx.require(lift[0] > steady_part, "building up circulation lowers the lift: %r, without it %r" % (lift[0], steady_part))
    ctx.nontrivial(area > 0)


@st.composite
def plunges(draw):
    """A flat wing in fast heave at no incidence."""
    model = draw(
        gen.unsteady(
            static=True, num_steps=(10, 14), op=gen.operating_points(alpha=0, beta=0, velocity=(1, 3)), dihedral=0.0, twist=0.0, tilt=False,
            deflection=False, airfoil=gen.airfoils(thin=True), max_wings=1, max_sections=2, overrides=False, sweep=0.0, free=False))
    model["dt"] = draw(st.sampled_from([0.01, 0.02, 0.025]))
    period = round(model["dt"] * draw(st.sampled_from([8, 9, 10])), 10)
    chord = model["airplanes"][0]["wings"][0]["sections"][0]["chord"]
    # Fast: the heave's frequency times the chord is far above the airspeed.
    model["op"]["v"] = round(chord / period * draw(st.sampled_from([0.2, 0.4])), 6)
    move = {"amp": draw(st.sampled_from([0.05, -0.05, 0.1])), "period": period, "spacing": "sine", "fn": "cos"}
    model["moves"][0]["wings"][0]["z"] = move
    return model


@facet(PROP, "added mass", plunges, 160, 4000, "every case")
def added_mass(model, ctx):
    solver = build.solve_unsteady(model, streamlines=False)
    steps = solver.unsteady_problem.steady_problems
    z = np.array([p.airplanes[0].wings[0].z_le for p in steps])
    # No incidence: the wind's z axis points down. Backward differences, as the solver's.
    force = -np.array([p.airplanes[0].total_near_field_force_wind_axes[2] for p in steps])[2:]
    acceleration = (z[2:] - 2 * z[1:-1] + z[:-2]) / model["dt"] ** 2
    force = force[1:]
    acceleration = acceleration[1:]
    correlation = float(np.dot(force, acceleration) / (np.linalg.norm(force) * np.linalg.norm(acceleration)))
    ctx.require(correlation < -0.5, "an accelerating wing is not pushed back: correlation %r" % correlation)
    ctx.label("correlation %.1f" % correlation)
    ctx.nontrivial()
