"""Shared by C27 and C28: convergence studies against independent solves."""

import contextlib
import copy
import inspect
import logging
import math
import zlib

import numpy as np
from hypothesis import strategies as st

import gen

# The mean camber line of an airfoil that is repanelled once more.
CAMBER = 1e-3


def quiet():
    logging.getLogger("convergence").setLevel(60)


def smooth_airfoils():
    return st.fixed_dictionaries(
        {"name": st.sampled_from(["naca" + n for n in gen.NACA]), "n": st.sampled_from([80, 120, 200])})


@st.composite
def bounds(draw, ar=5, ar_count=3, chord=3, chord_count=3):
    low = draw(st.sampled_from([1] + list(range(1, ar + 1))))
    first = draw(st.integers(1, chord))
    return {
        "ar": [min(low + draw(st.integers(0, ar_count - 1)), 6), low],
        "chord": [first, first + draw(st.integers(0, chord_count - 1))],
        # Either fixed, or between the changes that occur, at this fraction of them.
        "criterion": draw(st.sampled_from([0.05, 1.0, 5.0, 20.0, 60.0])),
        "fraction": draw(st.sampled_from([None, 2, 5, 7, 8, 9, 10])),
    }


def changes(ranges, evaluate):
    """Every change between neighbouring settings, sorted."""
    order = [()]
    for values in ranges:
        order = [o + (i,) for o in order for i in range(len(values))]
    results = {o: evaluate(*[r[i] for r, i in zip(ranges, o)]) for o in order}
    out = []
    for o in order:
        for p in range(len(ranges)):
            if o[p]:
                out.append(change(results[o], results[o[:p] + (o[p] - 1,) + o[p + 1:]]))
    return sorted(v for v in out if math.isfinite(v))


def criterion_of(b, ranges, evaluate):
    if b["fraction"] is None:
        return b["criterion"]
    values = changes(ranges, evaluate)
    if not values:
        return b["criterion"]
    values = [values[0] / 2] + values + [values[-1] * 2]
    k = round(b["fraction"] / 10 * (len(values) - 2))
    return float("%.4g" % max(math.sqrt(values[k] * values[k + 1]), 0.02))


def detail(model, draw_shift):
    """Chords off the grid: section lengths over chords are never halfway between two
    panel counts."""
    out = copy.deepcopy(model)
    for a in out["airplanes"]:
        for w in a["wings"]:
            for s in w["sections"]:
                s["chord"] = round(s["chord"] * (1 + 0.0137 * draw_shift), 10)
    return out


def stretch(model, factor):
    """Slender wings, whose panel counts differ from setting to setting."""
    out = copy.deepcopy(model)
    for a in out["airplanes"]:
        for w in a["wings"]:
            for s in w["sections"]:
                s["y"], s["z"] = round(s["y"] * factor, 10), round(s["z"] * factor, 10)
    return out


def spanwise(wing, k, nc, ar):
    """(panel count, distance from a tie) of the section after cross section k."""
    a, b = wing["sections"][k], wing["sections"][k + 1]
    length = abs(sum((b[i] - a[i]) * n for i, n in zip("xyz", wing["normal"])))
    value = length * nc / ((a["chord"] + b["chord"]) / 2 * ar)
    return max(1, math.floor(value + 0.5)), abs(value - math.floor(value) - 0.5)


def meshed(model, nc, ar):
    """The same model at another panel count; None if a count is a matter of rounding."""
    out = copy.deepcopy(model)
    total = 0
    for a in out["airplanes"]:
        a["s_ref"] = a["c_ref"] = a["b_ref"] = None
        for w in a["wings"]:
            w["nc"] = nc
            for k in range(len(w["sections"]) - 1):
                w["sections"][k]["ns"], tie = spanwise(w, k, nc, ar)
                if tie < 1e-6:
                    return None, 0
                total += nc * w["sections"][k]["ns"] * (2 if w["sym"] else 1)
            w["sections"][-1]["ns"] = 0
    return out, total


def change(now, before):
    """Largest change in percent."""
    return float(np.max(100 * np.abs((now - before) / before)))


class Close(Exception):
    """A change is too close to the criterion, or a coefficient is noise."""


def search(ranges, finest, evaluate, criterion):
    """First setting, in nested order with the last parameter varying fastest, at which
    every parameter has converged, is single, or is at its finest. Returns the setting
    (as values), or None, and all settings visited. ranges: list of lists of values;
    finest: per parameter the value that needs no refinement, or None."""
    results, visited = {}, []
    order = [[]]
    for values in ranges:
        order = [o + [i] for o in order for i in range(len(values))]
    for index in order:
        index = tuple(index)
        visited.append(tuple(r[i] for r, i in zip(ranges, index)))
        results[index] = evaluate(*visited[-1])
        answer, passed = [], True
        for p, values in enumerate(ranges):
            i = index[p]
            converged = False
            if i > 0:
                before = results[index[:p] + (i - 1,) + index[p + 1:]]
                pc = change(results[index], before)
                if not math.isfinite(pc) or abs(pc - criterion) < 1e-3 * criterion + 1e-4:
                    raise Close
                converged = pc < criterion
            if len(values) == 1:
                answer.append(values[i])
            elif converged:
                answer.append(values[i - 1])
            elif values[i] == finest[p] and finest[p] is not None:
                answer.append(values[i])
            else:
                passed = False
        if passed:
            return answer, visited
    return None, visited


@contextlib.contextmanager
def recorded(cls):
    """Solvers run while inside."""
    seen = []
    run = cls.run

    def wrapper(self, *args, **kwargs):
        out = run(self, *args, **kwargs)
        seen.append(self)
        return out

    cls.run = wrapper
    try:
        yield seen
    finally:
        cls.run = run


def invented(seed, key, planes, spread):
    """Coefficients that depend on nothing but the setting: per airplane six for the final
    load, mean and root mean square each."""
    first = np.random.default_rng(zlib.crc32(repr(seed).encode()))
    base = first.uniform(0.05, 2.0, (planes, 3, 6)) * first.choice([-1.0, 1.0], (planes, 3, 6))
    here = np.random.default_rng(zlib.crc32(repr((seed, key)).encode()))
    return base * (1 + spread * here.uniform(-1, 1, (planes, 3, 6)))


def mesh_of(planes):
    """The panel counts of airplanes."""
    return tuple(tuple((w.num_chordwise_panels, tuple(s.num_spanwise_panels for s in w.wing_cross_sections[:-1])) for w in a.wings) for a in planes)


@contextlib.contextmanager
def answering(cls, answer):
    """Solvers are not run but given answer(solver, prescribed wake)'s coefficients; the
    settings asked for are recorded."""
    seen = []
    run = cls.run

    def stand_in(self, *args, **kwargs):
        bound = inspect.signature(run).bind(self, *args, **kwargs)
        bound.apply_defaults()
        steady = hasattr(self, "steady_problem")
        problem = self.steady_problem if steady else self.unsteady_problem
        planes = problem.airplanes if steady else problem.steady_problems[-1].airplanes
        key, rows = answer(self, planes, bound.arguments.get("prescribed_wake"))
        seen.append(key)
        for k, (plane, row) in enumerate(zip(planes, rows)):
            plane.total_near_field_force_coefficients_wind_axes = row[0][:3].copy()
            plane.total_near_field_moment_coefficients_wind_axes = row[0][3:].copy()
            if not steady:
                for kind, values in zip(["final_", "final_mean_", "final_rms_"], row):
                    getattr(problem, kind + "near_field_force_coefficients_wind_axes").append(values[:3].copy())
                    getattr(problem, kind + "near_field_moment_coefficients_wind_axes").append(values[3:].copy())

    cls.run = stand_in
    try:
        yield seen
    finally:
        cls.run = run


WING = ("name", "symmetric", "chordwise_spacing", "x_le", "y_le", "z_le")
SECTION = ("chord", "control_surface_type", "control_surface_hinge_point", "control_surface_deflection", "spanwise_spacing",
           "x_le", "y_le", "z_le", "twist")
PLANE = ("name", "weight", "x_ref", "y_ref", "z_ref")


def check_plane(ctx, got, want, allowed):
    """A tried airplane against the reference: same but for its panel counts."""
    for n in PLANE:
        ctx.require(getattr(got, n) == getattr(want, n), "%s of a tried airplane is %r, not %r" % (n, getattr(got, n), getattr(want, n)))
    ctx.require(len(got.wings) == len(want.wings), "a tried airplane has %d wings" % len(got.wings))
    counts = []
    for w, v in zip(got.wings, want.wings):
        for n in WING:
            ctx.require(getattr(w, n) == getattr(v, n), "%s of a tried wing is %r, not %r" % (n, getattr(w, n), getattr(v, n)))
        for n in ("unit_normal_vector", "unit_chordwise_vector"):
            ctx.near("%s of a tried wing" % n, getattr(w, n), getattr(v, n), atol=1e-12)
        ctx.require(len(w.wing_cross_sections) == len(v.wing_cross_sections), "a tried wing lost cross sections")
        for s, t in zip(w.wing_cross_sections, v.wing_cross_sections):
            for n in SECTION:
                ctx.require(getattr(s, n) == getattr(t, n), "%s of a tried cross section is %r, not %r" % (n, getattr(s, n), getattr(t, n)))
            ctx.near("unit_normal_vector of a tried cross section", s.unit_normal_vector, t.unit_normal_vector, atol=1e-12)
            ctx.require(s.airfoil.name == t.airfoil.name, "the airfoil of a tried cross section is %r" % s.airfoil.name)
            a, b = s.airfoil.mcl_coordinates, t.airfoil.mcl_coordinates
            x = np.linspace(0.02, 0.98, 20)
            ctx.near("camber line of a tried cross section", np.interp(x, a[:, 0], a[:, 1]), np.interp(x, b[:, 0], b[:, 1]), atol=CAMBER)
        counts.append((w.num_chordwise_panels, tuple(s.num_spanwise_panels for s in w.wing_cross_sections[:-1])))
    ctx.require(tuple(counts) in allowed, "a tried airplane has panel counts %r, expected one of %r" % (counts, sorted(allowed)))


def counts_of(plane):
    return tuple((w["nc"], tuple(s["ns"] for s in w["sections"][:-1])) for w in plane["wings"])
