"""C10: ill-formed models are rejected and well-formed ones accepted."""

import math

import numpy as np
from hypothesis import strategies as st

import build
import gen
from core import facet

PROP = "C10"
WARM = ("mesh", "horseshoe", "ring", "unsteady")


def refused(ctx, what, action):
    try:
        action()
    except Exception as error:
        if type(error).__module__.startswith("hypothesis"):
            raise
        return
    ctx.require(False, what + " was accepted")


# --------------------------------------------------------------------------- geometry
BAD_SPACING = ["cosin", "Cosine", "", "linear", "sine", None]
BAD_TYPE = ["sym", "antisymmetric", "", "Symmetric", None]
BAD_AIRFOIL = ["nosuchfoil", "naca99999", "", "naca", "naca24", "naca00a2", "2412", "clark-q9", "../naca0012.txt"]

GEOMETRY = [
    "no wings", "one section", "no sections", "chord", "chordwise spacing", "spanwise spacing", "control surface type",
    "root offset", "wing normal", "root normal", "chordwise vector", "section plane", "airfoil", "deflection",
]


@st.composite
def geometry_cases(draw):
    plane = draw(gen.airplanes(max_wings=2, max_sections=4, max_nc=2, max_ns=2))
    wing = draw(st.integers(0, len(plane["wings"]) - 1))
    sections = len(plane["wings"][wing]["sections"])
    return {
        "plane": plane,
        "wing": wing,
        "fault": draw(st.sampled_from(GEOMETRY)),
        "section": draw(st.integers(0, sections - 1)),
        "inner": draw(st.integers(0, sections - 2)),
        "axis": draw(st.sampled_from("xyz")),
        "size": draw(st.sampled_from([1e-6, 0.01, 0.5, -0.25])),
        "chord": draw(st.sampled_from([0.0, -0.5, -1e-9])),
        "angle": draw(st.sampled_from([90.5, 91.0, 120.0, -90.01, -135.0, 720.0])),
        "tilt": draw(st.sampled_from([5.0, 20.0, 45.0, -10.0])),
        "name": draw(st.sampled_from(BAD_AIRFOIL)),
        "spacing": draw(st.sampled_from(BAD_SPACING)),
        "type": draw(st.sampled_from(BAD_TYPE)),
    }


def broken(spec):
    """The model with one requirement broken."""
    import copy

    plane = copy.deepcopy(spec["plane"])
    wing = plane["wings"][spec["wing"]]
    sections = wing["sections"]
    some = sections[spec["section"]]
    t = math.radians(spec["tilt"])
    fault = spec["fault"]
    if fault == "no wings":
        plane["wings"] = []
    elif fault == "one section":
        wing["sections"] = [sections[0]]
    elif fault == "no sections":
        wing["sections"] = []
    elif fault == "chord":
        some["chord"] = spec["chord"]
    elif fault == "chordwise spacing":
        wing["cs"] = spec["spacing"]
    elif fault == "spanwise spacing":
        some["sp"] = spec["spacing"]
    elif fault == "control surface type":
        some["cst"] = spec["type"]
    elif fault == "root offset":
        sections[0][spec["axis"]] = spec["size"]
    elif fault == "wing normal":
        n = wing["normal"]
        # Turned about the chordwise direction, away from the root's plane.
        wing["normal"] = [0.0, math.cos(t) * n[1] - math.sin(t) * n[2], math.sin(t) * n[1] + math.cos(t) * n[2]]
    elif fault == "root normal":
        n = sections[0]["normal"]
        sections[0]["normal"] = [0.0, math.cos(t) * n[1] - math.sin(t) * n[2], math.sin(t) * n[1] + math.cos(t) * n[2]]
    elif fault == "chordwise vector":
        n = wing["normal"]
        wing["chordwise"] = [math.cos(t), math.sin(t) * n[1], math.sin(t) * n[2]]
    elif fault == "section plane":
        n = sections[-1]["normal"]
        # A plane the chordwise direction does not lie in.
        sections[-1]["normal"] = [math.sin(t), math.cos(t) * n[1], math.cos(t) * n[2]]
    elif fault == "airfoil":
        some["af"] = {"name": spec["name"], "n": 20}
    elif fault == "deflection":
        sections[spec["inner"]]["defl"] = spec["angle"]
    return plane


@facet(PROP, "geometry", geometry_cases, 400, 15000, "every case: one requirement of a valid airplane is broken")
def geometry(spec, ctx):
    airplane = build.airplane(spec["plane"])
    ctx.require(airplane.num_panels > 0, "a valid airplane has no panels")
    refused(ctx, "an airplane with a bad %s" % spec["fault"], lambda: build.airplane(broken(spec)))
    ctx.label(spec["fault"])
    ctx.nontrivial()


# --------------------------------------------------------------------------- movement
BAD_WAVE = ["sin", "", "Sine", "cosine", "linear", None]


@st.composite
def movement_cases(draw):
    spec = draw(gen.unsteady(static=False, num_steps=(1, 3), max_wings=2, max_sections=3, max_nc=1, max_ns=1))
    wings = spec["airplanes"][0]["wings"]
    wing = draw(st.integers(0, len(wings) - 1))
    level = draw(st.sampled_from(["plane", "wing", "section", "section", "root", "velocity"]))
    return {
        "model": spec,
        "level": level,
        "wing": wing,
        "section": draw(st.integers(1, len(wings[wing]["sections"]) - 1)),
        "axis": draw(st.sampled_from("xyz")),
        "angle": draw(st.sampled_from(["sweep", "pitch", "heave"])),
        "wave": draw(st.sampled_from(BAD_WAVE + ["custom", "custom", "custom"])),
        "root": draw(st.sampled_from([("sweep", "amp"), ("sweep", "period"), ("heave", "amp"), ("heave", "period")])),
        "size": draw(st.sampled_from([1e-3, 0.5, 5.0])),
        "moving": draw(st.booleans()),
    }


@facet(PROP, "movement", movement_cases, 150, 6000, "every case: one requirement of a valid movement is broken")
def movement(spec, ctx):
    import copy

    model = spec["model"]
    build.movement(model)
    bad = copy.deepcopy(model)
    move = bad["moves"][0]
    on = {"amp": 0.1, "period": 0.5} if spec["moving"] else {"amp": 0.0, "period": 0.0}
    what = "the spacing %r of " % spec["wave"]
    dropped = None
    if spec["level"] == "plane":
        move[spec["axis"]].update(on, spacing=spec["wave"])
        what += "an airplane's reference point"
    elif spec["level"] == "wing":
        move["wings"][spec["wing"]][spec["axis"]].update(on, spacing=spec["wave"])
        what += "a wing's leading edge"
    elif spec["level"] == "velocity":
        bad["v"].update(on, spacing=spec["wave"])
        what += "the velocity"
    elif spec["level"] == "section":
        move["wings"][spec["wing"]]["sections"][spec["section"]][spec["angle"]].update(on, spacing=spec["wave"])
        what += "a section's " + spec["angle"]
        if spec["wave"] == "custom":
            dropped = "a custom %s without a function" % spec["angle"]
    else:
        angle, key = spec["root"]
        root = move["wings"][spec["wing"]]["sections"][0][angle]
        root.update({"amp": 0.0, "period": 0.0})
        root[key] = spec["size"]
        what = "a root section with a %s %s" % (angle, key)

    original = build._osc

    def without_function(prefix, osc, custom=None):
        return original(prefix, osc, None)

    def attempt():
        if dropped is None:
            build.movement(bad)
            return
        # All other custom motions keep their functions.
        import pterasoftware as ps

        planes = [build.airplane(a) for a in bad["airplanes"]]
        moves = []
        for k, (base, m) in enumerate(zip(planes, bad["moves"])):
            wing_moves = []
            for w, (b, wm) in enumerate(zip(base.wings, m["wings"])):
                sections = []
                for s, (bs, sm) in enumerate(zip(b.wing_cross_sections, wm["sections"])):
                    here = k == 0 and w == spec["wing"] and s == spec["section"]
                    kwargs = {}
                    for key, name in (("sweep", "sweeping"), ("pitch", "pitching"), ("heave", "heaving")):
                        custom = "custom_%s_function" % key
                        kwargs.update(original(name, sm[key], None if here and key == spec["angle"] else custom))
                    sections.append(ps.movement.WingCrossSectionMovement(base_wing_cross_section=bs, **kwargs))
                extra = {}
                for axis in "xyz":
                    extra.update(original(axis + "_le", wm[axis]))
                wing_moves.append(ps.movement.WingMovement(base_wing=b, wing_cross_sections_movements=sections, **extra))
            extra = {}
            for axis in "xyz":
                extra.update(original(axis + "_ref", m[axis]))
            moves.append(ps.movement.AirplaneMovement(base_airplane=base, wing_movements=wing_moves, **extra))
        ps.movement.Movement(
            airplane_movements=moves,
            operating_point_movement=build.operating_point_movement(build.operating_point(bad["op"]), bad["v"]),
            num_steps=bad["steps"], delta_time=bad["dt"])

    refused(ctx, dropped or what, attempt)
    ctx.label(spec["level"] + (", no function" if dropped else ""))
    ctx.nontrivial()


# --------------------------------------------------------------------------- analyses
LEVELS = ["Debug", "Info", "Warning", "Error", "Critical"]
BAD_LEVELS = ["debug", "", "WARNING", "Verbose", "Fatal", None, 10]
BAD_SOLVERS = ["", "steady", "Steady Ring Vortex Lattice Method", "steady horseshoe", "unsteady ring vortex lattice method", None]


@st.composite
def analysis_cases(draw):
    model = draw(gen.unsteady(static=draw(st.booleans()), num_steps=(1, 2), max_wings=1, max_sections=2, max_nc=1, max_ns=1, max_airplanes=1))
    return {
        "model": model,
        "kind": draw(st.sampled_from(["logging", "logging", "solver", "steady trim", "steady trim", "unsteady trim", "unsteady trim"])),
        "solver": draw(st.sampled_from(["horseshoe", "ring", "unsteady"])),
        "level": draw(st.sampled_from(LEVELS)),
        "bad level": draw(st.sampled_from(BAD_LEVELS)),
        "bad solver": draw(st.sampled_from(BAD_SOLVERS)),
        "which": draw(st.integers(0, 3)),
        "side": draw(st.sampled_from([0, 1])),
        "gap": draw(st.sampled_from([1e-9, 0.01, 1.0, 1000.0])),
        "on bound": draw(st.lists(st.sampled_from([0, 1, None]), min_size=4, max_size=4)),
        "width": draw(gen.grid(0.1, 2, 0.1)),
    }


def silence(name):
    import logging

    logging.getLogger(name).setLevel(logging.CRITICAL + 1)


@facet(PROP, "analyses", analysis_cases, 150, 5000, "every case: one argument of a valid analysis is bad")
def analyses(spec, ctx):
    import logging

    import pterasoftware as ps

    model = spec["model"]
    silence("trim")
    silence("convergence")
    kind = spec["kind"]
    ctx.label(kind)
    ctx.nontrivial()
    if kind == "logging":
        def run(level):
            if spec["solver"] == "unsteady":
                build.unsteady_solver(build.unsteady_problem(model)).run(logging_level=level)
            else:
                problem = build.steady_problem(model)
                (build.ring_solver if spec["solver"] == "ring" else build.horseshoe_solver)(problem).run(logging_level=level)

        run(spec["level"])
        logging.getLogger().setLevel(logging.WARNING)
        refused(ctx, "the logging level %r of the %s solver" % (spec["bad level"], spec["solver"]), lambda: run(spec["bad level"]))
        return
    if kind == "solver":
        kwargs = dict(panel_aspect_ratio_bounds=(2, 1), num_chordwise_panels_bounds=(1, 2), convergence_criteria=1.0)
        bad = spec["bad solver"]
        plain = dict(model["airplanes"][0])
        for name in ("steady horseshoe vortex lattice method", "steady ring vortex lattice method"):
            ps.convergence.analyze_steady_convergence(
                ref_problem=build.steady_problem({"airplanes": [build.SIMPLE_PLANE], "op": model["op"]}), solver_type=name, **kwargs)
        refused(ctx, "the solver type %r" % (bad,), lambda: ps.convergence.analyze_steady_convergence(
            ref_problem=build.steady_problem({"airplanes": [plain], "op": model["op"]}), solver_type=bad, **kwargs))
        return
    steady = kind == "steady trim"
    op = model["op"]
    start = [op["v"], op["alpha"], op["beta"]] + ([op["thrust"]] if steady else [])
    names = ["velocity_bounds", "alpha_bounds", "beta_bounds", "external_thrust_bounds"]

    def bounds(k):
        w = spec["width"]
        lo, hi = start[k] - w, start[k] + w
        if spec["on bound"][k] == 0:
            lo = start[k]
        if spec["on bound"][k] == 1:
            hi = start[k]
        return lo, hi

    def run(limits):
        # Any trim objective is below this cut-off: the start itself is returned.
        kwargs = dict(zip(names, limits), objective_cut_off=1e30, num_calls=1)
        if steady:
            return ps.trim.analyze_steady_trim(problem=build.steady_problem({"airplanes": model["airplanes"][:1], "op": op}), **kwargs)
        plane = build.airplane(model["airplanes"][0])
        moves = build.airplane_movement(plane, model["moves"][0])
        return ps.trim.analyze_unsteady_trim(airplane_movement=moves, operating_point=build.operating_point(op), **kwargs)

    limits = [bounds(k) for k in range(len(start))]
    k = spec["which"] % len(start)
    lo, hi = limits[k]
    gap = spec["gap"] * max(1.0, abs(start[k]))
    outside = list(limits)
    outside[k] = (start[k] + gap, max(hi, start[k] + gap) + 1.0) if spec["side"] == 0 else (min(lo, start[k] - gap) - 1.0, start[k] - gap)
    refused(ctx, "a start whose %s lies outside of its bounds" % names[k], lambda: run(outside))
    ctx.label("outside " + names[k])
    if steady:
        result = run(limits)
        ctx.near("trim at the start", result, start, rtol=0, atol=1e-12 * max(1, np.max(np.abs(start))))


