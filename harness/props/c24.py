"""C24: time step, step count and period defaults."""

import math

from hypothesis import strategies as st

import build
import gen
from core import facet

PROP = "C24"
WARM = ("mesh",)


@st.composite
def cases(draw):
    count = draw(st.sampled_from([1, 1, 2, 3]))
    planes = [
        draw(gen.airplanes(index=k, max_wings=3, max_sections=2, max_nc=4, max_ns=1, deflection=False, tilt=False))
        for k in range(count)
    ]
    static = draw(st.booleans())
    periods = [0.2, 0.35, 0.5, 0.9]
    still = draw(st.sampled_from([0.5, 0.97]))
    moves = [
        gen.still_movement(p) if static else draw(gen.airplane_movements(p, periods, still=still, section_still=still, small=True))
        for p in planes
    ]
    v = dict(gen.IDLE) if static else draw(gen.oscillation(gen.grid(-2, 2, 0.5), [0.15, 0.6, 1.1], False, 0.6))
    return {
        "airplanes": planes,
        "op": draw(gen.operating_points(velocity=(10, 40))),
        "moves": moves,
        "v": v,
        "dt": draw(st.one_of(st.none(), gen.grid(0.05, 0.2, 0.01), st.just(1 / 13.0))),
        "steps": draw(st.one_of(st.none(), st.none(), st.integers(1, 12))),
        "num_cycles": draw(st.one_of(st.none(), st.none(), st.integers(1, 5))),
        "num_chords": draw(st.one_of(st.none(), st.none(), st.integers(1, 15))),
    }


@facet(PROP, "defaults", cases, 400, 15000, "a valid combination in which the step count or the time step is a default")
def defaults(spec, ctx):
    static = gen.max_period_of(spec) == 0
    period = gen.max_period_of(spec)
    bad = (spec["num_cycles"] is not None and (spec["steps"] is not None or static)) or (
        spec["num_chords"] is not None and (spec["steps"] is not None or not static)
    )
    bases = [build.airplane(a) for a in spec["airplanes"]]
    if bad:
        try:
            build.movement(spec, bases=bases)
        except Exception:
            ctx.label("contradictory arguments refused")
            return
        ctx.require(False, "contradictory arguments were accepted")
    v = spec["op"]["v"]
    c_refs = []
    for plane, base in zip(spec["airplanes"], bases):
        c = plane["c_ref"] if plane["c_ref"] is not None else base.wings[0].mean_aerodynamic_chord
        ctx.near("reference chord", base.c_ref, c, rtol=1e-12)
        c_refs.append(c)
    # The default step of a movement.
    dt = spec["dt"]
    if dt is None:
        dt = sum(c / p["wings"][0]["nc"] / v for c, p in zip(c_refs, spec["airplanes"])) / len(c_refs)
    if spec["steps"] is not None:
        steps = {spec["steps"]}
    else:
        if static:
            ratio = (spec["num_chords"] or 10) * max(c_refs) / (dt * v)
        else:
            ratio = (spec["num_cycles"] or 3) * period / dt
        steps = {math.ceil(ratio)}
        near = round(ratio)
        if abs(ratio - near) < 1e-9 * ratio:
            # Whole up to rounding.
            steps = {near, near + 1}
            ctx.label("whole number of steps")
        if ratio > 400:
            ctx.skip("very many steps")
    movement = build.movement(spec, bases=bases)
    if spec["dt"] is not None:
        ctx.require(movement.delta_time == spec["dt"], "the given time step was changed to %r" % movement.delta_time)
    ctx.near("time step", movement.delta_time, dt, rtol=1e-12)
    ctx.require(movement.num_steps in steps, "%r steps, expected %r" % (movement.num_steps, sorted(steps)))
    ctx.require(int(movement.num_steps) == movement.num_steps, "the number of steps is not whole")
    ctx.near("longest period", movement.get_max_period(), period, rtol=0)
    for a, (m, spec_m) in enumerate(zip(movement.airplane_movements, spec["moves"])):
        ctx.near("longest period of an airplane", m.get_max_period(), gen.max_period([spec_m], gen.IDLE), rtol=0)
    ctx.near("period of the operating point", movement.operating_point_movement.get_max_period(), spec["v"]["period"], rtol=0)
    import pterasoftware as ps

    problem = ps.problems.UnsteadyProblem(movement=movement)
    ctx.require(problem.num_steps == movement.num_steps and problem.delta_time == movement.delta_time, "the problem has other steps")
    ctx.near("period of the problem", problem.max_period, period, rtol=0)
    ctx.require(len(problem.steady_problems) == movement.num_steps, "%d steady problems" % len(problem.steady_problems))
    for k, steady in enumerate(problem.steady_problems):
        ctx.require(steady.operating_point is movement.operating_points[k], "operating point of step %d" % k)
        ctx.require(
            len(steady.airplanes) == len(bases)
            and all(steady.airplanes[a] is movement.airplanes[a][k] for a in range(len(bases))),
            "airplanes of step %d" % k,
        )
    ctx.label("static" if static else "periodic", "%d airplanes" % len(bases))
    for key in ("dt", "steps", "num_cycles", "num_chords"):
        ctx.label("%s %s" % (key, "default" if spec[key] is None else "given"))
    ctx.nontrivial(spec["steps"] is None or spec["dt"] is None)
