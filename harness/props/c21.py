"""C21: final, mean and RMS results summarise exactly the right steps."""

import math

import numpy as np
from hypothesis import strategies as st

import build
import gen
import runs
from core import Violation, facet, numbers

PROP = "C21"
WARM = ("mesh", "unsteady")

SUFFIXES = ("forces_wind_axes", "moments_wind_axes", "force_coefficients_wind_axes", "moment_coefficients_wind_axes")


@st.composite
def cases(draw, final_only=None):
    small = draw(st.booleans())
    model = draw(
        gen.unsteady(max_airplanes=3, num_steps=draw(st.sampled_from([(1, 12), (1, 12), (13, 22)])), small=small, final_only=final_only, max_nc=2, max_ns=2, max_sections=2,
                     custom=False))
    # Periods that are and are not whole numbers of steps, longer and shorter than the run.
    factors = draw(st.lists(st.sampled_from([1.0, 2.0, 2.5, 3.0, 4.0, 4.4, 6.0, 7.3, 9.0, 15.0, 1 / 3.0, 0.7, 1.04, 3.02, 4.97, 8.004]), min_size=1, max_size=3))
    count = 0
    for osc in oscillations(model):
        if osc["period"]:
            osc["period"] = model["dt"] * factors[count % len(factors)]
            count += 1
    return model


def oscillations(model):
    yield model["v"]
    for m in model["moves"]:
        for a in "xyz":
            yield m[a]
        for w in m["wings"]:
            for a in "xyz":
                yield w[a]
            for s in w["sections"]:
                for key in ("sweep", "pitch", "heave"):
                    yield s[key]


def windows(model):
    """The admissible numbers of steps that make up the last full period."""
    period = gen.max_period_of(model)
    if period == 0:
        return {1}
    ratio = period / model["dt"]
    out = {math.ceil(ratio)}
    if abs(ratio - round(ratio)) < 1e-9 * ratio:
        # Whole, perhaps only up to rounding.
        out = {round(ratio)} if ratio == round(ratio) else {round(ratio), round(ratio) + 1}
    return {min(max(1, n), model["steps"]) for n in out}


def reported(problem, statistic, ctx, planes):
    out = []
    for suffix in SUFFIXES:
        values = getattr(problem, "final_" + statistic + "near_field_" + suffix)
        ctx.require(len(values) == planes, "%d entries of %s%s for %d airplanes" % (len(values), statistic, suffix, planes))
        out.append([numbers(statistic + suffix, v, (3,)) for v in values])
    return out


def check(ctx, model, result, problem):
    planes = len(model["airplanes"])
    static = gen.max_period_of(model) == 0
    fits = []
    options = sorted(windows(model))
    for n in options:
        steps = range(model["steps"] - n, model["steps"])
        ok = True
        for k in steps:
            if result.loads[k] is None:
                ok = False
        if ok:
            fits.append(n)
    ctx.require(fits, "loads are missing in the averaged steps")
    errors = []
    for n in fits:
        try:
            for p in range(planes):
                for i, suffix in enumerate(SUFFIXES):
                    series = np.array([result.loads[k][p][i] for k in range(model["steps"] - n, model["steps"])])
                    scale = float(np.max(np.abs(series))) + 1e-300
                    if static:
                        got = reported(problem, "", ctx, planes)
                        ctx.near("final " + suffix, got[i][p], series[-1], atol=1e-13 * scale)
                    else:
                        got = reported(problem, "mean_", ctx, planes)
                        ctx.near("mean " + suffix, got[i][p], np.sum(series, axis=0) / n, atol=1e-12 * scale)
                        got = reported(problem, "rms_", ctx, planes)
                        ctx.near("RMS " + suffix, got[i][p], np.sqrt(np.sum(series * series, axis=0) / n), atol=1e-12 * scale)
        except Violation as error:
            errors.append(error)
            continue
        return n
    raise errors[0]


@facet(PROP, "statistics", cases, 700, 25000, "a periodic run longer than its longest period, or a static run of several steps")
def statistics(model, ctx):
    result = runs.run("unsteady", model)
    n = check(ctx, model, result, result.problem)
    static = gen.max_period_of(model) == 0
    ctx.label("static" if static else ("whole run" if n == model["steps"] else "last period"))
    ctx.label("final only" if model["final_only"] else "all results")
    ctx.nontrivial(model["steps"] > n)


@facet(PROP, "final only", lambda: cases(final_only=False), 400, 12000, "steps whose loads were skipped")
def final_only(model, ctx):
    full = runs.run("unsteady", model)
    part = runs.run("unsteady", dict(model, final_only=True))
    skipped = 0
    for k in range(model["steps"]):
        for p, per_wing in enumerate(full.strengths[k]):
            for w, g in enumerate(per_wing):
                ctx.near("strengths at step %d" % k, part.strengths[k][p][w], g, rtol=1e-12, scale=float(np.max(np.abs(g))))
        for a, b in zip(full.airplanes[k], part.airplanes[k]):
            for x, y in zip(a.wings, b.wings):
                if k:
                    ctx.near("wake at step %d" % k, y.wake_ring_vortex_vertices, x.wake_ring_vortex_vertices, rtol=1e-12, atol=1e-12)
        if part.loads[k] is None:
            skipped += 1
            continue
        for p, loads in enumerate(full.loads[k]):
            for name, got, want in zip(SUFFIXES, part.loads[k][p], loads):
                ctx.near("%s at step %d" % (name, k), got, want, rtol=1e-11, scale=float(np.max(np.abs(want))))
    planes = len(model["airplanes"])
    for statistic in [""] if gen.max_period_of(model) == 0 else ["mean_", "rms_"]:
        a, b = reported(full.problem, statistic, ctx, planes), reported(part.problem, statistic, ctx, planes)
        for suffix, xs, ys in zip(SUFFIXES, a, b):
            for x, y in zip(xs, ys):
                ctx.near("reported " + statistic + suffix, y, x, rtol=1e-11, scale=float(np.max(np.abs(x))))
    ctx.label("%d steps skipped" % skipped)
    ctx.nontrivial(skipped > 0)


@facet(PROP, "default lengths", lambda: lengths(), 150, 4000, "more than one cycle or chord length")
def default_lengths(model, ctx):
    """Runs whose lengths are given in periods or chord lengths."""
    problem = build.unsteady_problem(model)
    if problem.num_steps > 40:
        ctx.skip("long")
    solver = build.unsteady_solver(problem)
    solver.run(logging_level=build.QUIET, prescribed_wake=True, calculate_streamlines=False)
    result = runs.Result("unsteady", solver)
    n = check(ctx, dict(model, steps=problem.num_steps, dt=problem.delta_time), result, problem)
    ctx.label("static" if gen.max_period_of(model) == 0 else "periodic")
    ctx.nontrivial(problem.num_steps > n)


@st.composite
def lengths(draw):
    model = draw(
        gen.unsteady(max_airplanes=1, num_steps=(1, 2), small=True, final_only=None, max_nc=2, max_ns=1, max_sections=2, max_wings=1,
                     custom=False))
    model["steps"] = None
    if gen.max_period_of(model) == 0:
        model["num_chords"] = draw(st.sampled_from([1, 2, 3]))
        model["num_cycles"] = None
        model["dt"] = None
    else:
        model["num_cycles"] = draw(st.sampled_from([1, 2, 3, 4]))
        model["num_chords"] = None
    return model
