"""C31: an argument that is left out means its documented default."""

import contextlib
import io
import logging
import math

import numpy as np
from hypothesis import strategies as st

import build
import gen
from core import facet
from props import c25, c30, conv

PROP = "C31"
WARM = ("mesh", "horseshoe", "ring", "unsteady")

Y, X = [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]


def waves(*names):
    return [(n + end, value) for n in names for end, value in (("_amplitude", 0.0), ("_period", 0.0), ("_spacing", "sine"))]


def section_waves():
    out = []
    for n, f in (("sweeping", "sweep"), ("pitching", "pitch"), ("heaving", "heave")):
        out += waves(n) + [("custom_%s_function" % f, None)]
    return out


# What the documentation says, in the documented order. Required arguments have no value.
DOCUMENTED = {
    "Airfoil": [("name", "Untitled Airfoil"), ("coordinates", None), ("repanel", True), ("n_points_per_side", 400)],
    "WingCrossSection": [
        ("airfoil",), ("x_le", 0.0), ("y_le", 0.0), ("z_le", 0.0), ("chord", 1.0), ("unit_normal_vector", Y), ("twist", 0.0),
        ("control_surface_type", "symmetric"), ("control_surface_hinge_point", 0.75), ("control_surface_deflection", 0.0),
        ("num_spanwise_panels", 8), ("spanwise_spacing", "cosine")],
    "Wing": [
        ("wing_cross_sections",), ("name", "Untitled Wing"), ("x_le", 0.0), ("y_le", 0.0), ("z_le", 0.0), ("unit_normal_vector", Y),
        ("symmetric", False), ("unit_chordwise_vector", X), ("num_chordwise_panels", 8), ("chordwise_spacing", "cosine")],
    "Airplane": [
        ("wings",), ("name", "Untitled Airplane"), ("x_ref", 0.0), ("y_ref", 0.0), ("z_ref", 0.0), ("weight", 0.0), ("s_ref", None),
        ("c_ref", None), ("b_ref", None)],
    "OperatingPoint": [
        ("density", 1.225), ("velocity", 10.0), ("alpha", 5.0), ("beta", 0.0), ("external_thrust", 0.0), ("nu", 15.06e-6)],
    "WingCrossSectionMovement": [("base_wing_cross_section",)] + section_waves(),
    "WingMovement": [("base_wing",), ("wing_cross_sections_movements",)] + waves("x_le", "y_le", "z_le"),
    "AirplaneMovement": [("base_airplane",), ("wing_movements",)] + waves("x_ref", "y_ref", "z_ref"),
    "OperatingPointMovement": [("base_operating_point",)] + waves("velocity"),
    "Movement": [
        ("airplane_movements",), ("operating_point_movement",), ("num_steps", None), ("num_cycles", None), ("num_chords", None),
        ("delta_time", None)],
    "UnsteadyProblem": [("movement",), ("only_final_results", False)],
}
# Left out only where the model has the default anyway: another value would be another, maybe ill-formed, model.
CAREFUL = {
    "Airfoil": ("name", "coordinates"),
    "WingCrossSection": ("x_le", "y_le", "z_le", "unit_normal_vector"),
    "Wing": ("unit_normal_vector", "unit_chordwise_vector"),
    "Movement": ("num_steps", "num_cycles", "num_chords", "delta_time"),
}


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    return type(a) == type(b) and a == b if isinstance(a, bool) or isinstance(b, bool) else a == b


class Caller:
    """Calls constructors with some of their arguments left out, or given as documented."""

    def __init__(self, omitted, positional, leave_out):
        self.omitted, self.positional, self.leave_out = omitted, positional, leave_out
        self.count = 0

    def __call__(self, constructor, kwargs):
        name = constructor.__name__
        table = DOCUMENTED[name]
        kwargs = dict(kwargs)
        drop = set()
        for entry in table[:]:
            if len(entry) == 1:
                continue
            key, value = entry
            if key not in self.omitted.get(name, ()):
                continue
            if key in CAREFUL.get(name, ()) and key in kwargs and not equal(kwargs[key], np.array(value) if isinstance(value, list) else value):
                continue
            drop.add(key)
        for key in list(drop):
            # A custom wave needs its function.
            if key.startswith("custom_"):
                wave = {"sweep": "sweeping", "pitch": "pitching", "heave": "heaving"}[key.split("_")[1]] + "_spacing"
                if kwargs.get(wave) == "custom" and wave not in drop:
                    drop.discard(key)
        defaults = {e[0]: e[1] for e in table if len(e) > 1}
        for key in drop:
            kwargs[key] = np.array(defaults[key]) if isinstance(defaults[key], list) else defaults[key]
        self.count += len(drop)
        if not self.leave_out:
            return constructor(**kwargs)
        for key in drop:
            del kwargs[key]
        args = []
        for entry in table[: self.positional.get(name, 0)]:
            if entry[0] not in kwargs:
                break
            args.append(kwargs.pop(entry[0]))
        return constructor(*args, **kwargs)


@contextlib.contextmanager
def calling(caller):
    build.CALL = caller
    try:
        yield
    finally:
        build.CALL = None


@st.composite
def omissions(draw, names=tuple(DOCUMENTED)):
    """{constructor: arguments left out}: few, so that an effect can not hide behind others, or many."""
    out = {}
    for n in names:
        optional = [e[0] for e in DOCUMENTED[n] if len(e) > 1]
        out[n] = draw(st.lists(st.sampled_from(optional), max_size=draw(st.sampled_from([1, 3, len(optional)])), unique=True))
    positional = {n: draw(st.sampled_from([0, 0, 1, 2, 4, 20])) for n in names}
    return {"omitted": out, "positional": positional}


@st.composite
def models(draw):
    model = draw(gen.unsteady(max_airplanes=3, num_steps=(1, 4), small=True, max_nc=3, max_ns=3, tilt=draw(st.booleans()), final_only=None))
    # Bundled and given outlines; few and default numbers of points.
    for a in model["airplanes"]:
        for w in a["wings"]:
            for s in w["sections"]:
                s["af"] = dict(s["af"], repanel=draw(st.sampled_from([True, True, False])))
                if not s["af"]["repanel"]:
                    s["af"]["name"] = draw(st.sampled_from(["naca0006", "naca0012", "naca0021"]))
    if draw(st.booleans()):
        model["steps"] = None
    return dict(draw(omissions()), model=model, given=draw(st.integers(0, 20)))


def contents(value, seen=None, depth=0):
    """Everything an object holds, as nested plain data."""
    seen = {} if seen is None else seen
    if value is None or isinstance(value, (bool, str, int, float)):
        return value
    if isinstance(value, np.generic):
        return value.item()
    if isinstance(value, np.ndarray):
        if value.dtype != object:
            return value.copy()
        return ("array", value.shape, [contents(v, seen, depth + 1) for v in value.ravel()])
    if isinstance(value, (list, tuple)):
        return [contents(v, seen, depth + 1) for v in value]
    if isinstance(value, dict):
        return {str(k): contents(v, seen, depth + 1) for k, v in value.items()}
    if id(value) in seen:
        return seen[id(value)]
    if callable(value) or not hasattr(value, "__dict__"):
        if not callable(value):
            return repr(type(value))
        known = [n for n, f in build.CUSTOM_FUNCTIONS.items() if f is value]
        return ["function", known[0] if known else getattr(value, "__name__", type(value).__name__)]
    seen[id(value)] = "object %d" % len(seen)
    return (type(value).__name__, {n: contents(v, seen, depth + 1) for n, v in sorted(vars(value).items()) if not n.startswith("_")})


def difference(a, b, path=""):
    """Where two contents differ; None if they do not."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return path + "." + k
            d = difference(a[k], b[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s (%d entries, %d)" % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, path + "[%d]" % k if len(a) > 3 or isinstance(a, list) else path)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return "%s (shapes %r, %r)" % (path, a.shape, b.shape)
        if a.dtype.kind not in "fiu" or b.dtype.kind not in "fiu":
            return None if np.array_equal(a, b) else path
        scale = float(np.max(np.abs(b[np.isfinite(b)]), initial=0.0))
        return None if np.allclose(a, b, rtol=1e-9, atol=1e-12 * scale, equal_nan=True) else path
    number = (int, float)
    if isinstance(a, number) and isinstance(b, number) and not isinstance(a, bool) and not isinstance(b, bool):
        return None if a == b or math.isclose(a, b, rel_tol=1e-9) else "%s (%r, %r)" % (path, a, b)
    if type(a) is not type(b) or a != b:
        return "%s (%r, %r)" % (path, a, b)
    return None


@facet(PROP, "definitions", models, 600, 12000, "at least three arguments are left out")
def definitions(spec, ctx):
    import pterasoftware as ps

    out = []
    for leave_out in (True, False):
        caller = Caller(spec["omitted"], spec["positional"], leave_out)
        with calling(caller):
            problem = build.unsteady_problem(dict(spec["model"], dt=spec["model"]["dt"]))
        out.append(contents(problem))
    where = difference(out[0], out[1])
    ctx.require(where is None, "leaving out %r differs from giving the documented defaults: %s" % (
        {n: v for n, v in spec["omitted"].items() if v}, where))
    ctx.label("%d or more left out" % min(caller.count // 10 * 10, 50))
    ctx.nontrivial(caller.count >= 3)


# ------------------------------------------------------------------------------ airfoils
@facet(PROP, "airfoils", lambda: st.fixed_dictionaries({
    "af": gen.any_airfoil(), "left": st.lists(st.sampled_from(["repanel", "n_points_per_side", "name"]), unique=True, max_size=3),
    "given": st.booleans(), "what": st.sampled_from(["build", "repanel", "surface"]), "deflection": gen.grid(-30, 30, 1.0),
    "hinge": gen.grid(0.2, 0.9, 0.05), "surface": st.sampled_from([["deflection"], ["hinge_point"], ["deflection", "hinge_point"]])}),
    400, 6000, "every case")
def airfoils(spec, ctx):
    import pterasoftware as ps

    Airfoil = ps.geometry.Airfoil
    base = build.airfoil(spec["af"])
    if spec["what"] == "build":
        # Outlines as given need as many points on either side: only repaneled ones have them always.
        explicit = {"name": spec["af"]["name"], "n_points_per_side": spec["af"]["n"], "repanel": not spec["given"]}
        if spec["given"]:
            explicit["coordinates"] = np.array(base.coordinates)
        left = [n for n in spec["left"] if n != "name" or spec["given"]]
        documented = dict(DOCUMENTED["Airfoil"])
        short = {k: v for k, v in explicit.items() if k not in left}
        full = dict(explicit, **{n: documented[n] for n in left})
        a, b = Airfoil(**short), Airfoil(**full)
        if "name" in left:
            ctx.require(a.name == documented["name"], "the airfoil is named %r" % a.name)
        what = "leaving out %r" % left
    elif spec["what"] == "repanel":
        a, b = build.airfoil(spec["af"]), build.airfoil(spec["af"])
        a.repanel_current_airfoil()
        b.repanel_current_airfoil(n_points_per_side=100)
        what = "repaneling without a count"
    else:
        documented = {"deflection": 0.0, "hinge_point": 0.75}
        full = {n: documented[n] if n in spec["surface"] else spec[{"hinge_point": "hinge"}.get(n, n)] for n in documented}
        a = base.add_control_surface(**{n: v for n, v in full.items() if n not in spec["surface"]})
        b = base.add_control_surface(**full)
        what = "a control surface without %r" % spec["surface"]
    where = difference(contents(a), contents(b))
    ctx.require(where is None, "%s differs from giving the documented default: %s" % (what, where))
    ctx.label(spec["what"])
    ctx.nontrivial(True)


# ----------------------------------------------------------------------------- functions
KERNELS = ["collapsed_velocities_from_horseshoe_vortices", "expanded_velocities_from_horseshoe_vortices",
           "collapsed_velocities_from_ring_vortices", "expanded_velocities_from_ring_vortices",
           "collapsed_velocities_from_ring_vortices_chordwise_segments"]


@facet(PROP, "functions", lambda: st.fixed_dictionaries({
    "what": st.sampled_from(["cosspace", "rotation"] + KERNELS), "left": st.lists(st.sampled_from([0, 1]), min_size=1, max_size=2, unique=True),
    "numbers": st.lists(gen.grid(-2, 2, 0.05), min_size=30, max_size=30), "n": st.integers(2, 90), "flag": st.booleans(), "count": st.integers(1, 5)}),
    500, 8000, "every case")
def functions(spec, ctx):
    import pterasoftware as ps

    v = spec["numbers"]
    if spec["what"] == "cosspace":
        f, args, given = ps.functions.cosspace, {"minimum": v[0], "maximum": v[0] + 1 + abs(v[1])}, {"n_points": spec["n"], "endpoint": spec["flag"]}
        documented = {"n_points": 50, "endpoint": True}
    elif spec["what"] == "rotation":
        axis = np.array([v[0], v[1], v[2] + (3 if spec["flag"] else 0.0)])
        if np.linalg.norm(axis) < 0.1:
            axis = np.array([0.3, 2.0, -1.0])
        f, args, given = ps.functions.angle_axis_rotation_matrix, {"angle": v[3], "axis": axis}, {}
        documented = {"axis_already_normalized": False}
    else:
        f = getattr(ps.aerodynamics, spec["what"])
        rng = np.random.default_rng(int(1000 * abs(sum(v))) + spec["n"])
        corner = lambda: rng.uniform(-1, 1, (spec["count"], 3))
        args = {"points": rng.uniform(-1, 1, (3, 3)), "back_right_vortex_vertices": corner(), "front_right_vortex_vertices": corner(),
                "front_left_vortex_vertices": corner(), "back_left_vortex_vertices": corner(),
                "strengths": rng.uniform(-30, 30, spec["count"])}
        given, documented = {"ages": rng.uniform(0.0, 0.5, spec["count"]), "nu": 1e-3 * abs(v[1])}, {"ages": None, "nu": 0.0}
    keys = list(documented)
    left = [keys[k % len(keys)] for k in spec["left"]]
    full = {n: documented[n] if n in left else given[n] for n in keys if n in left or n in given}
    a = f(**args, **{n: x for n, x in full.items() if n not in left})
    b = f(**args, **full)
    ctx.require(np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True),
                "%s without %r differs from the documented default" % (spec["what"], left))
    ctx.label(spec["what"])
    ctx.nontrivial(True)


@facet(PROP, "snapshots", lambda: st.tuples(models(), st.sampled_from([["num_steps"], ["delta_time"], ["num_steps", "delta_time"]]),
                                            st.sampled_from(["airplane", "wing", "section", "operating point"])).map(
    lambda t: dict(model=t[0]["model"], left=t[1], what=t[2])), 200, 3000, "every case")
def snapshots(spec, ctx):
    model = spec["model"]
    planes = [build.airplane(a) for a in model["airplanes"]]
    move = build.airplane_movement(planes[-1], model["moves"][-1])
    if spec["what"] == "airplane":
        f, args = move.generate_airplanes, {}
    elif spec["what"] == "wing":
        f, args = move.wing_movements[-1].generate_wings, {}
    elif spec["what"] == "section":
        f, args = move.wing_movements[-1].wing_cross_section_movements[0].generate_wing_cross_sections, {}
    else:
        f, args = build.operating_point_movement(build.operating_point(model["op"]), model["v"]).generate_operating_points, {}
    documented, given = {"num_steps": 10, "delta_time": 0.1}, {"num_steps": 3, "delta_time": 0.07}
    full = {n: documented[n] if n in spec["left"] else given[n] for n in documented}
    if spec["what"] == "section":
        args = {"last_x_les": np.zeros(full["num_steps"]), "last_y_les": np.zeros(full["num_steps"]), "last_z_les": np.zeros(full["num_steps"])}
    a = f(**args, **{n: v for n, v in full.items() if n not in spec["left"]})
    b = f(**args, **full)
    ctx.require(len(a) == full["num_steps"], "%d snapshots, expected %d" % (len(a), full["num_steps"]))
    where = difference(contents(a), contents(b))
    ctx.require(where is None, "%s snapshots without %r differ from the documented default: %s" % (spec["what"], spec["left"], where))
    ctx.label(spec["what"])
    ctx.nontrivial(True)


# ---------------------------------------------------------------------------------- runs
@contextlib.contextmanager
def fresh_logging():
    """A process that has not set up logging yet; what is logged meanwhile."""
    root = logging.getLogger()
    handlers, level, disabled = root.handlers[:], root.level, root.manager.disable
    stream = io.StringIO()
    root.handlers[:] = []
    root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    try:
        with contextlib.redirect_stderr(stream), contextlib.redirect_stdout(io.StringIO()):
            yield stream
    finally:
        root.handlers[:] = handlers
        root.setLevel(level)
        logging.disable(disabled)


@facet(PROP, "runs", lambda: st.tuples(
    c30.solved(steps=(2, 4)), st.lists(st.sampled_from(["logging_level", "prescribed_wake", "calculate_streamlines"]), min_size=1, max_size=3, unique=True),
    st.sampled_from(["Debug", "Info", "Warning", "Error", "Critical"]), st.booleans(), st.booleans()).map(
        lambda t: dict(t[0], left=t[1], level=t[2], wake=t[3], lines=t[4])), 700, 9000, "every case")
def all_runs(spec, ctx):
    kind = spec["kind"]
    documented = {"logging_level": "Warning", "prescribed_wake": True, "calculate_streamlines": True}
    given = {"logging_level": spec["level"], "prescribed_wake": spec["wake"], "calculate_streamlines": spec["lines"]}
    names = list(documented) if kind == "unsteady" else ["logging_level"]
    left = [n for n in spec["left"] if n in names]
    full = {n: documented[n] if n in left else given[n] for n in names}
    out = []
    for arguments in ({n: v for n, v in full.items() if n not in left}, full):
        if kind == "unsteady":
            solver = build.unsteady_solver(build.unsteady_problem(spec["model"]))
        else:
            solver = (build.horseshoe_solver if kind == "horseshoe" else build.ring_solver)(build.steady_problem(spec["model"]))
        with fresh_logging() as stream:
            solver.run(**arguments)
        out.append((c25.snapshot(solver), "INFO" in stream.getvalue()))
    a, b = out[0][0], out[1][0]
    ctx.require(set(a) == set(b), "leaving out %r changes which results exist: %r" % (left, sorted(set(a) ^ set(b))[:4]))
    for n in a:
        ctx.require(c30.identical(a[n], b[n]), "leaving out %r changes %s" % (left, n))
    detailed = full["logging_level"] in ("Debug", "Info")
    for (_, info), what in zip(out, ("without %r" % left, "with everything given")):
        ctx.require(info == detailed, "%s, at level %s, details are %slogged" % (what, full["logging_level"], "" if info else "not "))
    ctx.label(kind)
    ctx.nontrivial(bool(left))


@facet(PROP, "streamlines", lambda: st.tuples(
    c30.solved(steps=(1, 2)), st.sampled_from([["num_steps"], ["delta_time"], ["num_steps", "delta_time"]]), st.integers(1, 6), gen.grid(0.01, 0.1, 0.01)).map(
        lambda t: dict(t[0], left=t[1], n=t[2], dt=t[3])), 200, 3000, "every case")
def streamlines(spec, ctx):
    import pterasoftware as ps

    solver = c30.solve(spec).solver
    documented, given = {"num_steps": 25, "delta_time": 0.02}, {"num_steps": spec["n"], "delta_time": spec["dt"]}
    full = {n: documented[n] if n in spec["left"] else given[n] for n in documented}
    out = []
    for arguments in ({n: v for n, v in full.items() if n not in spec["left"]}, full):
        ps.functions.calculate_streamlines(solver, **arguments)
        out.append(np.array(solver.streamline_points))
    ctx.require(out[0].shape == out[1].shape and np.array_equal(out[0], out[1], equal_nan=True),
                "streamlines without %r differ from the documented default" % (spec["left"],))
    ctx.require(len(out[0]) == full["num_steps"] + 1, "streamlines have %d points, expected %d" % (len(out[0]), full["num_steps"] + 1))
    ctx.nontrivial(True)


# ------------------------------------------------------------------------------- reports
REPORTS = {
    "draw": {"scalar_type": None, "show_streamlines": False, "show_wake_vortices": False, "save": False, "testing": False},
    "animate": {"scalar_type": None, "show_wake_vortices": False, "save": False, "testing": False},
    "plot_results_versus_time": {"show": True, "save": False},
}


@facet(PROP, "reports", lambda: st.tuples(
    c30.solved(steps=(1, 4)), st.sampled_from(sorted(REPORTS)), st.lists(st.integers(0, 4), min_size=1, max_size=5, unique=True),
    st.fixed_dictionaries(dict(c30.choices, show_streamlines=st.booleans(), show=st.booleans()))).map(
        lambda t: dict(t[0], report=t[1], left=t[2], options=t[3])), 400, 6000, "a report of the solver at hand")
def reports(spec, ctx):
    import pterasoftware as ps

    documented = REPORTS[spec["report"] if spec["kind"] == "unsteady" else "draw"]
    report = spec["report"] if spec["kind"] == "unsteady" else "draw"
    options = dict(spec["options"], scalar_type=spec["options"]["scalar"], show_wake_vortices=spec["options"]["wake"])
    keys = list(documented)
    left = sorted({keys[k % len(keys)] for k in spec["left"]})
    result, _ = c30.guarded(spec, ctx)
    full = {n: documented[n] if n in left else options[n] for n in keys}
    out = []
    for arguments in ({n: v for n, v in full.items() if n not in left}, full):
        function = getattr(ps.output, report)
        if report == "plot_results_versus_time":
            with c30.figures() as (saved, shown):
                function(result.solver, **arguments)
            out.append((sorted(str(n) for n, _, _ in saved), len(shown) > 0))
            continue
        with c30.stage() as plotter, contextlib.redirect_stdout(io.StringIO()):
            function(result.solver, **arguments)
        out.append((
            [frame(f) for f in plotter.frames], [(n, i, fps) for n, i, fps in plotter.saved],
            [frame(p.first) for p in plotter.plotters], [p.how for p in plotter.plotters]))
    where = difference(contents(out[0]), contents(out[1]))
    ctx.require(where is None, "%s without %r differs from the documented defaults (%s)" % (report, left, where))
    ctx.label(report)
    ctx.nontrivial(True)


def frame(recorded):
    """What is on the stage."""
    meshes, texts = recorded
    out = []
    for mesh, options in meshes:
        values = options.get("scalars")
        out.append(["mesh", int(mesh.n_points), np.array(mesh.points, dtype=float), None if values is None else np.array(values, dtype=float),
                    sorted((k, str(v)) for k, v in options.items() if k not in ("scalars",) and isinstance(v, (str, int, float, bool, type(None))))])
    return [out, list(texts)]


# ------------------------------------------------------------------------------- studies
STEADY = {"panel_aspect_ratio_bounds": (4, 1), "num_chordwise_panels_bounds": (3, 12), "convergence_criteria": 5.0}
# The cycles' default is documented as (1, 4) but is (2, 4): always given here.
UNSTEADY = dict(STEADY, prescribed_wake=True, free_wake=True, num_chords_bounds=(3, 7), coefficient_mask=None)


def outcomes(ctx, spec, documented, given, cls, study):
    """Studies whose solvers are replaced by a table of arbitrary coefficients, with and
    without the arguments left out."""
    full = {n: documented[n] if n in spec["left"] else v for n, v in given.items()}

    def answer(solver, airplanes, prescribed):
        movement = getattr(getattr(solver, "unsteady_problem", None), "movement", None)
        key = (conv.mesh_of(airplanes), getattr(movement, "num_steps", None), prescribed)
        return key, conv.invented(spec["seed"], key, len(airplanes), spec["spread"])

    out = []
    for arguments in ({n: v for n, v in full.items() if n not in spec["left"]}, full):
        with conv.answering(cls, answer) as seen:
            out.append((list(study(arguments)), seen))
    ctx.require(out[0] == out[1], "a study without %r returned %r after %d settings; with the documented defaults %r after %d" % (
        spec["left"], out[0][0], len(out[0][1]), out[1][0], len(out[1][1])))
    ctx.label("%d settings" % min(len(out[1][1]) // 4 * 4, 20))
    for name in spec["left"]:
        ctx.label("without " + name)
    ctx.nontrivial(len(out[1][1]) > 1)


@st.composite
def studies(draw):
    model = draw(gen.problems(max_airplanes=1, max_wings=1, max_nc=1, max_ns=1, max_sections=2, airfoil=conv.smooth_airfoils(), max_step=0.8,
                              op=gen.operating_points(alpha=8.0, beta=0.0, velocity=(5, 20))))
    return {"kind": draw(st.sampled_from(["horseshoe", "ring"])), "model": model,
            "left": draw(st.lists(st.sampled_from(sorted(STEADY)), min_size=1, max_size=2, unique=True)),
            "ar": draw(st.sampled_from([[2, 2], [4, 3], [3, 1]])), "chord": draw(st.sampled_from([[2, 2], [1, 3], [3, 4]])),
            "criterion": draw(st.sampled_from([1.0, 10.0])), "seed": draw(st.integers(0, 10**6)), "spread": draw(st.sampled_from([0.02, 0.05, 0.1]))}


@facet(PROP, "steady convergence", studies, 170, 4000, "more than one mesh is tried")
def steady_convergence(spec, ctx):
    import pterasoftware as ps
    from props import c27

    conv.quiet()
    given = {"panel_aspect_ratio_bounds": tuple(spec["ar"]), "num_chordwise_panels_bounds": tuple(spec["chord"]), "convergence_criteria": spec["criterion"]}
    cls = (ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver if spec["kind"] == "horseshoe"
           else ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver)
    outcomes(ctx, spec, STEADY, given, cls, lambda arguments: ps.convergence.analyze_steady_convergence(
        ref_problem=build.steady_problem(spec["model"]), solver_type=c27.NAMES[spec["kind"]], **arguments))


@st.composite
def unsteady_studies(draw):
    left = draw(st.lists(st.sampled_from(sorted(UNSTEADY)), min_size=1, max_size=2, unique=True))
    if "num_chords_bounds" in left:
        left = ["num_chords_bounds"]
    model = draw(gen.unsteady(max_airplanes=1, max_wings=1, max_nc=1, max_ns=1, max_sections=2, airfoil=conv.smooth_airfoils(), max_step=0.6,
                              symmetric=False, tilt=False, deflection=False, custom=False,
                              static=left == ["num_chords_bounds"] or draw(st.booleans()),
                              op=gen.operating_points(alpha=8.0, beta=0.0, velocity=(5, 20))))
    for m in model["moves"]:
        for w in m["wings"]:
            for part in [m, w] + w["sections"]:
                for osc in part.values():
                    if isinstance(osc, dict) and osc["period"]:
                        osc["period"] = 0.2
    if model["v"]["period"]:
        model["v"]["period"] = 0.2
    model["steps"] = model["dt"] = None
    return {"model": model, "left": left, "wakes": draw(st.sampled_from([[True, True], [True, False], [False, True]])),
            "ar": draw(st.sampled_from([[2, 2], [3, 2]])), "chord": draw(st.sampled_from([[1, 1], [1, 2]])),
            "length": draw(st.sampled_from([[1, 1], [1, 2]])), "criterion": draw(st.sampled_from([0.5, 3.0, 10.0])),
            "mask": draw(st.sampled_from([None, [True, False, True, False, False, False]])),
            "seed": draw(st.integers(0, 10**6)), "spread": draw(st.sampled_from([0.02, 0.05, 0.1]))}


@facet(PROP, "unsteady convergence", unsteady_studies, 80, 2000, "more than one setting is tried")
def unsteady_convergence(spec, ctx):
    import pterasoftware as ps

    conv.quiet()
    given = {"prescribed_wake": spec["wakes"][0], "free_wake": spec["wakes"][1], "num_chords_bounds": tuple(spec["length"]),
             "num_cycles_bounds": tuple(spec["length"]), "num_chordwise_panels_bounds": tuple(spec["chord"]),
             "panel_aspect_ratio_bounds": tuple(spec["ar"]), "coefficient_mask": spec["mask"], "convergence_criteria": spec["criterion"]}
    cls = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
    outcomes(ctx, spec, UNSTEADY, given, cls, lambda arguments: ps.convergence.analyze_unsteady_convergence(
        ref_problem=build.unsteady_problem(spec["model"]), **arguments))


@st.composite
def trims(draw):
    model = draw(gen.problems(max_airplanes=1, max_wings=1, max_nc=1, max_ns=1, max_sections=2, tilt=False, deflection=False, symmetric=True,
                              offset=False, op=gen.operating_points(alpha=4.0, beta=0.0, velocity=(8, 15))))
    return {"model": model, "left": draw(st.sampled_from([["objective_cut_off"], ["num_calls"], ["objective_cut_off", "num_calls"]])),
            "seed": draw(st.integers(0, 99)), "unsteady": draw(st.booleans()),
            "weight": draw(st.sampled_from([0.5, 1.0, 1.0, 1.003, 1.03])), "cut_off": draw(st.sampled_from([0.001, 0.02])), "calls": draw(st.integers(1, 5))}


@facet(PROP, "trim", trims, 60, 900, "every case")
def trim(spec, ctx):
    import pterasoftware as ps
    from props import c26
    import runs

    c26.quiet()
    model = spec["model"]
    plane, op = model["airplanes"][0], model["op"]
    solver = build.solve_horseshoe(model)
    loads = solver.airplanes[0].total_near_field_force_wind_axes
    plane = dict(plane, weight=float(abs(loads[2]) * spec["weight"]))
    model = dict(model, airplanes=[plane])
    bounds = {"velocity_bounds": (op["v"] - 2.0, op["v"] + 2.0), "alpha_bounds": (op["alpha"] - 2.0, op["alpha"] + 2.0), "beta_bounds": (-1.0, 1.0)}
    documented, given = {"objective_cut_off": 0.01, "num_calls": 100}, {"objective_cut_off": spec["cut_off"], "num_calls": spec["calls"]}
    full = {n: documented[n] if n in spec["left"] else given[n] for n in documented}
    out = []
    for arguments in ({n: v for n, v in full.items() if n not in spec["left"]}, full):
        np.random.seed(spec["seed"])
        if spec["unsteady"]:
            base = build.airplane(plane)
            cls = ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver
            # Only one call of the whole search is made when the number of calls is given.
            with limited(cls, 12) as count:
                got = attempt(lambda: ps.trim.analyze_unsteady_trim(
                    airplane_movement=build.airplane_movement(base, gen.still_movement(plane)), operating_point=build.operating_point(op),
                    **bounds, **arguments), count)
        else:
            cls = ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver
            thrust = (op["thrust"] - 1.0, op["thrust"] + 5.0)
            with limited(cls, 250) as count:
                got = attempt(lambda: ps.trim.analyze_steady_trim(
                    problem=build.steady_problem(model), external_thrust_bounds=thrust, **bounds, **arguments), count)
        out.append((got, count[0]))
    same = repr(out[0]) == repr(out[1])
    ctx.require(same, "a trim search without %r: %r (values, solves); with the documented defaults: %r" % (spec["left"], out[0], out[1]))
    ctx.label("unsteady" if spec["unsteady"] else "steady")
    ctx.label("stopped by the harness" if out[0][0] == "stopped" else "finished")
    ctx.nontrivial(True)


class Enough(BaseException):
    pass


@contextlib.contextmanager
def limited(cls, limit):
    run = cls.run
    count = [0]

    def wrapper(self, *args, **kwargs):
        count[0] += 1
        if count[0] > limit:
            raise Enough
        return run(self, *args, **kwargs)

    cls.run = wrapper
    try:
        yield count
    finally:
        cls.run = run


def attempt(search, count):
    try:
        return [float(v) for v in search()]
    except Enough:
        return "stopped"
