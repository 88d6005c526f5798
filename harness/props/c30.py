"""C30: reports and plots show the solver's actual results."""

import collections
import contextlib
import io
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

import build
import gen
import runs
from core import facet
from props import c25

PROP = "C30"
WARM = ("mesh", "horseshoe", "ring", "unsteady")

SCALARS = {"induced drag": "induced_drag_coefficient", "side force": "side_force_coefficient", "lift": "lift_coefficient"}
LABELS = (("Induced Drag", "Side Force", "Lift"), ("Rolling Moment", "Pitching Moment", "Yawing Moment"), ("CDi", "CY", "CL"), ("Cl", "Cm", "Cn"))


@st.composite
def solved(draw, kinds=("horseshoe", "ring", "unsteady"), steps=(1, 5), streamlines=True):
    kind = draw(st.sampled_from(list(kinds)))
    small = {"max_nc": 2, "max_ns": 2, "max_sections": 3}
    if kind == "unsteady":
        # Time steps from very short to seconds long: the flow is slow when they are long.
        dt = draw(st.sampled_from([(0.01, 0.03), (0.02, 0.2), (0.5, 2.0)]))
        op = gen.operating_points(velocity=(4, 20) if dt[1] < 1 else (2, 3))
        model = draw(gen.unsteady(max_airplanes=draw(st.sampled_from([1, 2, 2, 3])), num_steps=steps, final_only=None, dt=dt, op=op, **small))
        if draw(st.sampled_from([True, False, False])):
            # Small, fast, and hundreds of time steps per second.
            model = gen.similar(model, draw(st.sampled_from([2.5, 7.0])), 1.0, draw(st.sampled_from([0.25, 0.02])))
    else:
        model = draw(gen.problems(max_airplanes=draw(st.sampled_from([1, 2, 2, 3])), **small))
    # Loads from tiny to huge.
    model["op"]["rho"] = round(model["op"]["rho"] * draw(st.sampled_from([1.0, 1.0, 1e-3, 300.0])), 6)
    names = draw(st.sampled_from([["A", "B", "C"], ["Untitled", "Other", "Last"], ["Plane: 1", "Plane: 2", "Plane"], ["Zed Long Name", "a", "Zed"]]))
    for a, n in zip(model["airplanes"], names):
        a["name"] = n
    return {"kind": kind, "model": model}


def solve(spec):
    return runs.run(spec["kind"], spec["model"])


def unchanged(ctx, before, solver):
    after = c25.snapshot(solver)
    ctx.require(set(before) == set(after), "a report changed which results exist: %r" % sorted(set(before) ^ set(after))[:4])
    for name in before:
        ctx.require(identical(before[name], after[name]), "a report changed %s" % name)


def identical(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == "f")


def guarded(spec, ctx):
    """(result, snapshot of it)"""
    result = solve(spec)
    for planes in result.loads:
        for loads in planes or []:
            if not np.all(np.isfinite(np.concatenate(loads))):
                ctx.skip("no finite results")
    return result, c25.snapshot(result.solver)


# ---------------------------------------------------------------------------- printing
def reported(text, names):
    """{name: {label: (text of the value, unit, heading above it)}} of a printed report."""
    out, current, heading = {}, None, ""
    for line in text.splitlines():
        stripped = line.strip()
        for n in names:
            if stripped in (n + ":", "Airplane " + n + ":"):
                current, heading = out.setdefault(n, collections.OrderedDict()), ""
                break
        else:
            if stripped.endswith(":") and current is not None:
                heading = stripped
            m = re.match(r"^([A-Za-z ]+):\s*(\S+)( \S+)?$", stripped)
            if m and current is not None:
                current.setdefault(m.group(1), []).append((m.group(2), (m.group(3) or "").strip(), heading))
    return out


@facet(PROP, "printed results", lambda: st.tuples(solved(), st.booleans()).map(lambda t: dict(t[0], twice=t[1])), 750, 12000,
       "every printed report")
def printed(spec, ctx):
    import pterasoftware as ps

    result, before = guarded(spec, ctx)
    function = ps.output.print_unsteady_results if spec["kind"] == "unsteady" else ps.output.print_steady_results
    for _ in range(2 if spec["twice"] else 1):
        stream = io.StringIO()
        with contextlib.redirect_stdout(stream):
            function(result.solver)
    text = stream.getvalue()
    names = [a["name"] for a in spec["model"]["airplanes"]]
    report = reported(text, names)
    ctx.require(list(report) == names, "reported airplanes %r, expected %r" % (list(report), names))
    for k, name in enumerate(names):
        if spec["kind"] != "unsteady":
            expected = result.loads[0][k]
        elif gen.max_period_of(spec["model"]) == 0:
            expected = result.loads[-1][k]
        else:
            rows = [step[k] for step in result.loads[result.problem.first_averaging_step:]]
            expected = [np.mean([r[i] for r in rows], axis=0) for i in range(4)]
        for group, labels in enumerate(LABELS):
            for i, label in enumerate(labels):
                found = report[name].get(label, [])
                ctx.require(len(found) == 1, "%r of %r is reported %d times" % (label, name, len(found)))
                value, unit, heading = found[0]
                words = heading.lower()
                ctx.require((("force" if group % 2 == 0 else "moment") in words) and (("coefficient" in words) == (group > 1)),
                            "%r of %r is under the heading %r" % (label, name, heading))
                want = float(expected[group][i])
                ctx.require(unit == ("N", "Nm", "", "")[group], "%r of %r has unit %r" % (label, name, unit))
                shown = float(value)
                ctx.require(abs(shown - want) <= 0.0005 + 1e-9 * abs(want),
                            "%r of %r is reported as %s, computed: %r" % (label, name, value, want))
                if "e" not in value and abs(want) < 1e9:
                    ctx.require(len(value.partition(".")[2]) <= 3, "%r of %r is reported as %s, not rounded" % (label, name, value))
    unchanged(ctx, before, result.solver)
    ctx.label(spec["kind"])
    ctx.nontrivial(True)


# ---------------------------------------------------------------------------- plotting
@contextlib.contextmanager
def figures():
    """Figures as saved and shown; nothing is written."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt

    saved, shown = [], []
    save, show = matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.show
    pyplot_show = plt.show

    def fake_save(self, fname, *args, **kwargs):
        kwargs["dpi"] = 20
        save(self, io.BytesIO(), format="png", dpi=20)
        saved.append((str(fname), self, read(self)))

    def fake_show(self, *args, **kwargs):
        shown.append((None, self, read(self)))

    matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.show = fake_save, fake_show
    plt.show = lambda *args, **kwargs: shown.extend((None, plt.figure(n), read(plt.figure(n))) for n in plt.get_fignums())
    plt.close("all")
    try:
        yield saved, shown
    finally:
        matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.show = save, show
        plt.show = pyplot_show
        plt.close("all")


def read(figure):
    """What one figure shows."""
    axes = figure.axes
    return [
        {
            "title": a.get_title(), "x": a.get_xlabel(), "y": a.get_ylabel(),
            "lines": {line.get_label(): (np.array(line.get_xdata(), float), np.array(line.get_ydata(), float)) for line in a.lines},
            "count": len(a.lines),
            "legend": [t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() else [],
            "shown": [(h.get_color(), t.get_text()) for h, t in zip(a.get_legend().get_lines(), a.get_legend().get_texts())]
            if a.get_legend() else [],
            "colors": {line.get_label(): line.get_color() for line in a.lines},
        }
        for a in axes
    ]


PLOTS = (("Forces", 0, ("Induced Drag", "Side Force", "Lift"), "N)"), ("Force Coefficients", 2, ("Induced Drag", "Side Force", "Lift"), "Coefficient"),
         ("Moments", 1, ("Roll", "Pitch", "Yaw"), "N m)"), ("Moment Coefficients", 3, ("Roll", "Pitch", "Yaw"), "Coefficient"))


def check_plots(ctx, plots, result, spec, dt):
    """plots: what was read from the figures, in whatever order."""
    model = spec["model"]
    first = next(k for k, loads in enumerate(result.loads) if loads is not None)
    times = dt * np.arange(first, len(result.loads))
    titles = {}
    for axes in plots:
        ctx.require(len(axes) == 1, "a figure has %d plots" % len(axes))
        titles.setdefault(axes[0]["title"], []).append(axes[0])
    expected = {a["name"] + " " + p[0] + " vs. Time": (k, p) for k, a in enumerate(model["airplanes"]) for p in PLOTS}
    ctx.require(set(titles) == set(expected), "figures %r, expected %r" % (sorted(titles), sorted(expected)))
    for title, (k, (_, group, labels, unit)) in expected.items():
        ctx.require(len(titles[title]) == 1, "%d figures are named %r" % (len(titles[title]), title))
        plot = titles[title][0]
        ctx.require(unit in plot["y"], "%r has y label %r" % (title, plot["y"]))
        ctx.require("(s)" in plot["x"], "%r has x label %r" % (title, plot["x"]))
        ctx.require(plot["count"] == 3 and set(plot["lines"]) == set(labels), "%r shows %r" % (title, list(plot["lines"])))
        ctx.require(sorted(plot["legend"]) == sorted(labels), "the legend of %r is %r" % (title, plot["legend"]))
        ctx.require({t: c for c, t in plot["shown"]} == plot["colors"], "the legend of %r mixes up its lines" % title)
        ctx.require(len(set(plot["colors"].values())) == 3, "%r uses the same colour twice" % title)
        for i, label in enumerate(labels):
            x, y = plot["lines"][label]
            ctx.require(x.shape == times.shape and y.shape == times.shape, "%r shows %d points, expected %d" % (title, len(x), len(times)))
            ctx.near("times|" + title, x, times, atol=1e-9 * (times[-1] + dt))
            want = np.array([loads[k][group][i] for loads in result.loads[first:]])
            ctx.near("%s|%s" % (label, title), y, want, atol=1e-12 * (1e-300 + float(np.max(np.abs(want)))))


@facet(PROP, "plotted results",
       lambda: st.tuples(st.sampled_from([(1, 8), (1, 8), (9, 25)]).flatmap(lambda n: solved(kinds=("unsteady",), steps=n)), st.booleans(), st.sampled_from([True, True, True, False])).map(
           lambda t: dict(t[0], show=t[1], save=t[2])), 400, 6000, "a plot of at least two points")
def plotted(spec, ctx):
    import matplotlib.pyplot as plt
    import pterasoftware as ps

    result, before = guarded(spec, ctx)
    with figures() as (saved, shown):
        ps.output.plot_results_versus_time(result.solver, show=spec["show"], save=spec["save"])
        left = len(plt.get_fignums())
    model = spec["model"]
    count = 4 * len(model["airplanes"])
    ctx.require(len(saved) == (count if spec["save"] else 0), "%d figures saved, expected %d" % (len(saved), count if spec["save"] else 0))
    if spec["save"]:
        names = sorted(a["name"] + " " + p[0] + ".png" for a in model["airplanes"] for p in PLOTS)
        ctx.require(sorted(os.path.basename(n) for n, _, _ in saved) == names, "saved %r" % sorted(n for n, _, _ in saved))
        for name, _, axes in saved:
            ctx.require(axes[0]["title"] == os.path.basename(name)[: -len(".png")] + " vs. Time", "%r shows %r" % (name, axes[0]["title"]))
        check_plots(ctx, [axes for _, _, axes in saved], result, spec, model["dt"])
    if spec["show"]:
        ctx.require(len(shown) >= count, "%d figures shown, expected %d" % (len(shown), count))
        latest = {id(f): axes for _, f, axes in shown}
        check_plots(ctx, list(latest.values()), result, spec, model["dt"])
    else:
        ctx.require(not shown, "figures were shown without being asked for")
        ctx.require(left == 0, "%d figures were left open" % left)
    unchanged(ctx, before, result.solver)
    ctx.label("final only" if model["final_only"] else "all steps")
    ctx.label("%d airplanes" % len(model["airplanes"]))
    ctx.nontrivial((spec["save"] or spec["show"]) and sum(loads is not None for loads in result.loads) > 1)


@facet(PROP, "airfoil drawing", lambda: gen.any_airfoil(), 120, 2000, "every airfoil")
def airfoil_drawing(spec, ctx):
    airfoil = build.airfoil(spec)
    before = np.array(airfoil.coordinates)
    with figures() as (saved, shown):
        airfoil.draw()
    ctx.require(not saved and len(shown) == 1, "%d figures shown" % len(shown))
    axes = shown[0][2]
    ctx.require(len(axes) == 1 and axes[0]["count"] >= 1, "nothing is drawn")
    x, y = list(axes[0]["lines"].values())[0]
    ctx.require(x.shape == before[:, 0].shape, "%d of %d points are drawn" % (len(x), len(before)))
    ctx.near("drawn outline", np.column_stack([x, y]), before, atol=1e-12)
    ctx.require(np.array_equal(before, airfoil.coordinates), "drawing changed the airfoil")
    ctx.nontrivial(True)


# ---------------------------------------------------------------------- draw and animate
class Plotter:
    """Records what would be drawn. Refuses empty meshes, as the real one does."""

    frames, saved, plotters = [], [], []

    def __init__(self, *args, **kwargs):
        self.meshes, self.texts, self.shown = [], [], 0
        Plotter.plotters.append(self)

    def add_mesh(self, mesh, *args, **kwargs):
        if mesh.n_points == 0:
            raise ValueError("Empty meshes cannot be plotted. Input mesh has zero points.")
        self.meshes.append((mesh, dict(kwargs)))

    def add_text(self, text, *args, **kwargs):
        self.texts.append(text)

    def clear(self, *args, **kwargs):
        self.meshes, self.texts = [], []

    clear_actors = clear

    def show(self, *args, **kwargs):
        self.shown += 1
        self.first = (list(self.meshes), list(self.texts))
        self.how = sorted((k, str(v)) for k, v in kwargs.items())

    def screenshot(self, *args, **kwargs):
        Plotter.frames.append((list(self.meshes), list(self.texts)))
        return np.full((2, 2, 4), len(Plotter.frames), dtype=np.uint8)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


@contextlib.contextmanager
def stage():
    import time

    import pyvista
    import webp

    Plotter.frames, Plotter.saved, Plotter.plotters = [], [], []

    class Image:
        @staticmethod
        def fromarray(array, *args, **kwargs):
            return int(array.flat[0]) - 1 if array.size else None

    def save_image(img, file_path, *args, **kwargs):
        Plotter.saved.append((os.path.basename(str(file_path)), [img], None))

    def save_images(imgs, file_path, *args, **kwargs):
        Plotter.saved.append((os.path.basename(str(file_path)), list(imgs), kwargs.get("fps")))

    patches = [(pyvista, "Plotter", Plotter), (pyvista, "close_all", lambda *a, **k: None), (time, "sleep", lambda *a: None),
               (webp, "Image", Image), (webp, "save_image", save_image), (webp, "save_images", save_images)]
    old = [(m, n, getattr(m, n)) for m, n, _ in patches]
    for m, n, v in patches:
        setattr(m, n, v)
    try:
        yield Plotter
    finally:
        for m, n, v in old:
            setattr(m, n, v)


def ring(corners):
    """A quadrilateral, however it is listed: its sides."""
    points = [tuple(float(v) + 0.0 for v in c) for c in corners]
    return frozenset(frozenset((points[k - 1], points[k])) for k in range(len(points)))


def faces(mesh):
    points, flat, out, k = np.asarray(mesh.points, dtype=float), np.asarray(mesh.faces), [], 0
    while k < len(flat):
        n = int(flat[k])
        out.append(ring(points[flat[k + 1:k + 1 + n]]))
        k += n + 1
    return out


def segments(mesh):
    points, flat, out, k = np.asarray(mesh.points, dtype=float), np.asarray(mesh.lines), [], 0
    while k < len(flat):
        n = int(flat[k])
        ends = [tuple(p) for p in points[flat[k + 1:k + 1 + n]]]
        out += [frozenset(pair) for pair in zip(ends[:-1], ends[1:])]
        k += n + 1
    return out


def panel_rings(airplanes):
    return [(ring((p.front_left_vertex, p.front_right_vertex, p.back_right_vertex, p.back_left_vertex)), p)
            for a in airplanes for w in a.wings for p in np.ravel(w.panels)]


def wake_rings(airplanes):
    return [ring((v.front_left_vertex, v.front_right_vertex, v.back_right_vertex, v.back_left_vertex))
            for a in airplanes for w in a.wings for v in np.ravel(w.wake_ring_vortices)]


def precise(rings):
    """Meshes are kept in single precision."""
    return collections.Counter(frozenset(frozenset(tuple(np.float32(v) for v in p) for p in side) for side in r) for r in rings)


def check_frame(ctx, what, frame, airplanes, scalar, wake, lines, limits, map_name, extremes):
    meshes, texts = frame
    panels = panel_rings(airplanes)
    seen, colored, line_sides = [], [], []
    surfaces = 0
    for mesh, options in meshes:
        found = faces(mesh)
        line_sides += segments(mesh)
        seen += found
        surfaces += bool(found)
        values = options.get("scalars")
        if values is not None:
            values = np.asarray(values, dtype=float)
            ctx.require(len(values) == len(found), "%s: %d colouring values for %d panels" % (what, len(values), len(found)))
            colored += list(zip(found, values))
            ctx.near("colour limits|" + what, np.array(options.get("clim")), np.array(limits), atol=1e-9 * (1 + np.max(np.abs(limits))))
            ctx.require(options.get("cmap") == map_name, "%s: colour map %r, expected %r" % (what, options.get("cmap"), map_name))
            title = (options.get("scalar_bar_args") or {}).get("title", "")
            ctx.require(title.lower() == scalar + " coefficient", "%s: the scalar bar is named %r" % (what, title))
    want = [r for r, _ in panels] + (wake_rings(airplanes) if wake else [])
    ctx.require(precise(seen) == precise(want), "%s: %d faces are drawn, not the %d panels and %d wake rings of this step" % (
        what, len(seen), len(panels), len(want) - len(panels)))
    if scalar:
        expected = collections.Counter((list(precise([r]))[0], float(getattr(p, SCALARS[scalar]))) for r, p in panels)
        got = collections.Counter((list(precise([r]))[0], float(v)) for r, v in colored)
        ctx.require(got == expected, "%s: panels are not coloured by their %s coefficients" % (what, scalar))
        for word, value in zip(("Min", "Max"), extremes):
            text = [t for t in texts if t.startswith(word)]
            ctx.require(len(text) == 1, "%s: %d texts show the %s" % (what, len(text), word))
            shown = float(text[0].partition(":")[2])
            ctx.require(abs(shown - value) <= 0.005 + 1e-9 * abs(value), "%s: %r is shown, but it is %r" % (what, text[0], value))
    else:
        ctx.require(not colored, "%s: panels are coloured by values" % what)
    count = lambda sides: collections.Counter(frozenset(tuple(np.float32(v) for v in p) for p in s) for s in sides)
    ctx.require(count(line_sides) == count(lines), "%s: %d line segments are drawn, not the %d of the streamlines" % (what, len(line_sides), len(lines)))


def coloring(values):
    """(limits, colour map, extremes) documented for these values."""
    values = np.asarray(values, dtype=float)
    low, high = float(np.min(values)), float(np.max(values))
    mean, spread = float(np.mean(values)), 3 * float(np.std(values))
    if np.sign(low) == np.sign(high):
        return (max(mean - spread, low), min(mean + spread, high)), "speed", (low, high)
    return (-spread, spread), "delta", (low, high)


def scalars_of(airplanes, scalar):
    return [float(getattr(p, SCALARS[scalar])) for _, p in panel_rings(airplanes)]


choices = {"scalar": st.one_of(st.none(), st.sampled_from(sorted(SCALARS))), "wake": st.booleans(), "save": st.booleans(), "testing": st.booleans()}


@facet(PROP, "drawing", lambda: st.tuples(solved(), st.fixed_dictionaries(dict(choices, lines=st.booleans()))).map(lambda t: dict(t[0], **t[1])),
       480, 9000, "every drawing")
def drawing(spec, ctx):
    import pterasoftware as ps

    result, before = guarded(spec, ctx)
    airplanes = result.airplanes[-1]
    with stage() as plotter:
        ps.output.draw(result.solver, scalar_type=spec["scalar"], show_streamlines=spec["lines"], show_wake_vortices=spec["wake"],
                       save=spec["save"], testing=spec["testing"])
    ctx.require(len(plotter.plotters) == 1 and plotter.plotters[0].shown == 1, "not shown once")
    lines = []
    if spec["lines"]:
        points = np.asarray(result.solver.streamline_points, dtype=float)
        for k in range(points.shape[1]):
            lines += [frozenset((tuple(a), tuple(b))) for a, b in zip(points[:-1, k], points[1:, k])]
    limits, map_name, extremes = coloring(scalars_of(airplanes, spec["scalar"])) if spec["scalar"] else (None, None, None)
    wake = spec["wake"] and spec["kind"] == "unsteady"
    check_frame(ctx, "drawing", plotter.plotters[0].first, airplanes, spec["scalar"], wake, lines, limits, map_name, extremes)
    if spec["save"]:
        ctx.require([(n, len(i)) for n, i, _ in plotter.saved] == [("Draw.webp", 1)], "saved %r" % plotter.saved)
        check_frame(ctx, "saved drawing", plotter.frames[plotter.saved[0][1][0]], airplanes, spec["scalar"], wake, lines, limits, map_name, extremes)
    else:
        ctx.require(not plotter.saved, "saved without being asked for")
    unchanged(ctx, before, result.solver)
    ctx.label(spec["kind"])
    ctx.nontrivial(True)


@facet(PROP, "animation", lambda: st.tuples(st.sampled_from([(1, 6), (1, 6), (7, 15)]).flatmap(lambda n: solved(kinds=("unsteady",), steps=n)), st.fixed_dictionaries(choices)).map(lambda t: dict(t[0], **t[1])),
       430, 7000, "a saved animation")
def animation(spec, ctx):
    import pterasoftware as ps

    result, before = guarded(spec, ctx)
    scalar, dt = spec["scalar"], spec["model"]["dt"]
    first = next(k for k, loads in enumerate(result.loads) if loads is not None)
    with stage() as plotter, contextlib.redirect_stdout(io.StringIO()):
        ps.output.animate(result.solver, scalar_type=scalar, show_wake_vortices=spec["wake"], save=spec["save"], testing=spec["testing"])
    ctx.require(len(plotter.plotters) == 1 and plotter.plotters[0].shown == 1, "not shown once")
    limits, map_name, extremes = None, None, None
    if scalar:
        limits, map_name, extremes = coloring(np.concatenate([scalars_of(a, scalar) for a in result.airplanes[first:]]))
    if spec["save"]:
        ctx.require(len(plotter.saved) == 1 and plotter.saved[0][0] == "Animate.webp", "saved %r" % [s[0] for s in plotter.saved])
        _, images, fps = plotter.saved[0]
        ctx.require(len(images) == len(result.airplanes), "%d frames for %d steps" % (len(images), len(result.airplanes)))
        ctx.require(fps <= 50 + 1e-9, "%r frames per second" % fps)
        speed = min(1 / dt, 50)
        ctx.require(fps == speed if speed < 1 else speed - 1 - 1e-9 <= fps <= speed + 1e-9, "%r frames per second, steps of %r s" % (fps, dt))
        for k, image in enumerate(images):
            frame = plotter.frames[image]
            what = "frame of step %d" % k
            check_frame(ctx, what, frame, result.airplanes[k], scalar if scalar and k >= first else None, spec["wake"] and k > 0, [],
                        limits, map_name, extremes)
            shown = [t for t in frame[1] if t.startswith("Speed")]
            ctx.require(shown == ["Speed: %d%%" % round(100 * min(1, 50 * dt))], "%s: speed shown as %r" % (what, shown))
    else:
        ctx.require(not plotter.saved, "saved without being asked for")
    unchanged(ctx, before, result.solver)
    ctx.label("saved" if spec["save"] else "not saved")
    ctx.nontrivial(spec["save"])


@facet(PROP, "surfaces", lambda: solved(), 300, 6000, "every solved problem")
def surfaces(spec, ctx):
    import pterasoftware as ps

    result, before = guarded(spec, ctx)
    for k, airplanes in enumerate(result.airplanes):
        got = ps.output.get_panel_surfaces(airplanes)
        want = panel_rings(airplanes)
        found = faces(got)
        ctx.require(precise(found) == precise(r for r, _ in want), "panel surfaces of step %d" % k)
        if spec["kind"] == "unsteady":
            got = ps.output.get_wake_ring_vortex_surfaces(result.solver, k)
            ctx.require(precise(faces(got)) == precise(wake_rings(airplanes)), "wake surfaces of step %d" % k)
        if result.loads[k] is not None:
            for scalar in SCALARS:
                values = np.asarray(ps.output.get_scalars(airplanes, scalar), dtype=float)
                ctx.require(values.shape == (len(want),), "%d values for %d panels" % (values.size, len(want)))
                pairs = collections.Counter(zip([list(precise([r]))[0] for r in found], values))
                expected = collections.Counter((list(precise([r]))[0], float(getattr(p, SCALARS[scalar]))) for r, p in want)
                ctx.require(pairs == expected, "%s coefficients of step %d" % (scalar, k))
    unchanged(ctx, before, result.solver)
    ctx.label(spec["kind"])
    ctx.nontrivial(True)
