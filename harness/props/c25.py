"""C25: runs are repeatable and isolated from each other."""

import copy

import numpy as np
from hypothesis import strategies as st

import build
import gen
import props.c23 as c23
from core import facet

PROP = "C25"
WARM = ("mesh", "horseshoe", "ring", "unsteady")

VARIED = ("nothing", "panels", "place", "symmetry", "operating point", "hinge", "deflection", "twist")


@st.composite
def histories(draw):
    specs = []
    count = draw(st.integers(1, 3))
    for k in range(count):
        share = draw(st.sampled_from(["none", "airfoils", "sections", "operating point", "all"])) if k else "none"
        if share == "none":
            spec = draw(gen.unsteady(max_airplanes=2, num_steps=(2, 4), small=True, final_only=None, max_nc=2, max_ns=2, max_sections=2))
            owner = None
        else:
            owner = draw(st.integers(0, k - 1))
            spec = copy.deepcopy(specs[owner]["model"])
            for change in draw(st.lists(st.sampled_from(VARIED), min_size=1, max_size=3, unique=True)):
                for plane in spec["airplanes"]:
                    for wing in plane["wings"]:
                        if change == "panels":
                            wing["nc"] = wing["nc"] % 3 + 1
                        elif change == "place":
                            wing["x"], wing["z"] = wing["x"] + 0.3, wing["z"] - 0.2
                        elif change == "symmetry":
                            # Airplanes sit well apart, and the other half does not reach as far.
                            wing["sym"] = not wing["sym"]
                        for section in wing["sections"] if share not in ("sections", "all") else ():
                            if change == "hinge":
                                section["hinge"] = round(1.15 - section["hinge"], 2)
                            elif change == "deflection":
                                section["defl"] = section["defl"] + 7.0 if section["defl"] < 10 else -section["defl"]
                            elif change == "twist":
                                section["twist"] += 1.25
                if change == "operating point" and share not in ("operating point", "all"):
                    spec["op"]["v"] += 3.0
                    spec["op"]["alpha"] += 1.5
        specs.append({"model": spec, "share": share, "owner": owner})
    which = st.integers(0, count - 1)
    kind = st.sampled_from(["horseshoe", "ring"])
    steps = st.lists(
        st.one_of(
            st.tuples(st.just("steady"), which, kind),
            st.tuples(st.just("steady again"), which),
            st.tuples(st.just("unsteady"), which, st.booleans()),
            st.tuples(st.just("unsteady again"), which, st.booleans()),
            st.tuples(st.just("one step"), which, st.integers(0, 3), kind),
            st.tuples(st.just("build"), which),
        ).map(list),
        min_size=2,
        max_size=7,
    )
    return {"models": specs, "ops": draw(steps)}


def shared_airplane(spec, owner):
    """An airplane of the spec built from the owner's very cross sections."""
    import pterasoftware as ps

    kwargs = {k: spec[k] for k in ("s_ref", "c_ref", "b_ref") if spec.get(k) is not None}
    wings = []
    for w, other in zip(spec["wings"], owner.wings):
        wings.append(
            ps.geometry.Wing(
                wing_cross_sections=list(other.wing_cross_sections), name=w["name"], x_le=w["x"], y_le=w["y"], z_le=w["z"],
                unit_normal_vector=other.unit_normal_vector, symmetric=w["sym"],
                unit_chordwise_vector=other.unit_chordwise_vector, num_chordwise_panels=w["nc"], chordwise_spacing=w["cs"]))
    return ps.geometry.Airplane(wings=wings, name=spec["name"], x_ref=spec["ref"][0], y_ref=spec["ref"][1], z_ref=spec["ref"][2],
                                weight=spec["weight"], **kwargs)


class Live:
    """The objects of one model."""

    def __init__(self, entry, others, airfoils):
        import pterasoftware as ps

        self.spec = spec = entry["model"]
        owner = others[entry["owner"]] if entry["owner"] is not None else None
        share = entry["share"]
        if owner is not None and share in ("sections", "all"):
            self.planes = [shared_airplane(a, b) for a, b in zip(spec["airplanes"], owner.planes)]
        else:
            self.planes = [build.airplane(a, airfoils if share == "airfoils" or owner is None else None) for a in spec["airplanes"]]
        self.point = owner.point if owner is not None and share in ("operating point", "all") else build.operating_point(spec["op"])
        self.steady_problem = ps.problems.SteadyProblem(airplanes=self.planes, operating_point=self.point)
        movement = ps.movement.Movement(
            airplane_movements=[build.airplane_movement(b, m) for b, m in zip(self.planes, spec["moves"])],
            operating_point_movement=build.operating_point_movement(self.point, spec["v"]),
            num_steps=spec["steps"], delta_time=spec["dt"])
        self.unsteady_problem = ps.problems.UnsteadyProblem(movement=movement, only_final_results=spec["final_only"])
        self.steady = self.unsteady = None
        self.steady_kind = None
        self.results = {}

    def steady_run(self, kind):
        self.steady = (build.horseshoe_solver if kind == "horseshoe" else build.ring_solver)(self.steady_problem)
        self.steady_kind = kind
        self.steady.run(logging_level=build.QUIET)
        return snapshot(self.steady)

    def unsteady_run(self, prescribed):
        self.unsteady = build.unsteady_solver(self.unsteady_problem)
        return self.unsteady_again(prescribed)

    def unsteady_again(self, prescribed):
        self.unsteady.run(logging_level=build.QUIET, prescribed_wake=prescribed)
        return snapshot(self.unsteady)

    def definition(self):
        return [c23.describe(p) for p in self.planes] + [dict(vars(self.point))]


def plain(value):
    """A copy of numbers in arrays and lists; None for anything else."""
    if isinstance(value, bool) or value is None:
        return None
    if isinstance(value, (int, float, np.number)):
        return np.array(value, dtype=float)
    if isinstance(value, np.ndarray):
        return np.array(value, dtype=float) if value.dtype.kind in "fiub" else None
    if isinstance(value, (list, tuple)):
        out = [plain(v) for v in value]
        return None if any(v is None for v in out) else out
    return None


def vortex_of(panel):
    out = []
    for v in (panel.ring_vortex, panel.horseshoe_vortex):
        if v is not None and v.strength is not None:
            out.append(np.array(v.strength, dtype=float))
    return out


def snapshot(solver):
    """Every number a run leaves behind."""
    out = {"solver." + n: plain(v) for n, v in vars(solver).items() if plain(v) is not None}
    problem = getattr(solver, "unsteady_problem", None) or solver.steady_problem
    for n, v in vars(problem).items():
        if plain(v) is not None:
            out["problem." + n] = plain(v)
    for k, p in enumerate(getattr(problem, "steady_problems", [problem])):
        for a, plane in enumerate(p.airplanes):
            here = "step %d, airplane %d, " % (k, a)
            for n, v in vars(plane).items():
                if plain(v) is not None:
                    out[here + n] = plain(v)
            for w, wing in enumerate(plane.wings):
                there = here + "wing %d, " % w
                panels = np.ravel(wing.panels)
                out[there + "strengths"] = [v for q in panels for v in vortex_of(q)]
                for n in ("near_field_force_geometry_axes", "near_field_moment_geometry_axes"):
                    values = [plain(getattr(q, n)) for q in panels]
                    out[there + n] = [v for v in values if v is not None]
                out[there + "wake vertices"] = np.array(wing.wake_ring_vortex_vertices, dtype=float)
                wake = [r for r in np.ravel(wing.wake_ring_vortices)]
                out[there + "wake strengths"] = [np.array(r.strength, dtype=float) for r in wake]
                out[there + "wake ages"] = [np.array(r.age, dtype=float) for r in wake]
                out[there + "wake corners"] = [np.array(r.front_left_vertex, dtype=float) for r in wake]
    return out


def largest(value):
    if isinstance(value, list):
        return max([largest(v) for v in value] + [0.0])
    return float(np.max(np.abs(value))) if value.size else 0.0


def compare(ctx, what, got, want):
    ctx.require(set(got) == set(want), "%s: different results exist: %r" % (what, sorted(set(got) ^ set(want))[:4]))
    for name in want:
        one(ctx, what, name, got[name], want[name], largest(want[name]))


def one(ctx, what, name, got, want, scale):
    if isinstance(want, list):
        ctx.require(isinstance(got, list) and len(got) == len(want), "%s: %s has another length" % (what, name))
        for a, b in zip(got, want):
            one(ctx, what, name, a, b, scale)
        return
    ctx.require(np.shape(got) == np.shape(want), "%s: %s has shape %r, fresh run %r" % (what, name, np.shape(got), np.shape(want)))
    if np.array_equal(got, want):
        return
    if scale > 1e5:
        return
    ctx.near(name + "|" + what, got, want, atol=1e-7 * (scale + 1e-6))


@facet(PROP, "histories", histories, 1800, 40000, "at least two runs, and a solver run again, a second solver on a problem, or two models")
def run_histories(spec, ctx):
    airfoils = {}
    live = []
    for entry in spec["models"]:
        live.append(Live(entry, live, airfoils))
    start = [m.definition() for m in live]
    fresh = {}

    def baseline(m, what, *args):
        key = (m, what, args)
        if key not in fresh:
            entry = {"model": spec["models"][m]["model"], "share": "none", "owner": None}
            # Nothing at all is shared here.
            model = Live(entry, [], None)
            if what == "steady":
                fresh[key] = model.steady_run(*args)
            elif what == "unsteady":
                fresh[key] = model.unsteady_run(*args)
            else:
                k, kind = args
                fresh[key] = one_step(model, k, kind)
        return fresh[key]

    def one_step(model, k, kind):
        problem = model.unsteady_problem.steady_problems[k]
        solver = (build.horseshoe_solver if kind == "horseshoe" else build.ring_solver)(problem)
        solver.run(logging_level=build.QUIET)
        return {n: v for n, v in snapshot(solver).items() if "wake" not in n}

    runs, touched, kept = 0, set(), {}
    special = False
    for op in spec["ops"]:
        m = op[1]
        model = live[m]
        what = " ".join(str(x) for x in op)
        if op[0] == "steady":
            special = special or model.steady is not None
            compare(ctx, what, model.steady_run(op[2]), baseline(m, "steady", op[2]))
            kept[m, "steady"] = (model.steady, "steady", op[2])
        elif op[0] == "steady again":
            if model.steady is None:
                continue
            model.steady.run(logging_level=build.QUIET)
            special = True
            compare(ctx, what, snapshot(model.steady), baseline(m, "steady", model.steady_kind))
            kept[m, "steady"] = (model.steady, "steady", model.steady_kind)
        elif op[0] == "unsteady":
            special = special or model.unsteady is not None
            compare(ctx, what, model.unsteady_run(op[2]), baseline(m, "unsteady", op[2]))
            kept[m, "unsteady"] = (model.unsteady, "unsteady", op[2])
        elif op[0] == "unsteady again":
            if model.unsteady is None:
                continue
            special = True
            compare(ctx, what, model.unsteady_again(op[2]), baseline(m, "unsteady", op[2]))
            kept[m, "unsteady"] = (model.unsteady, "unsteady", op[2])
        elif op[0] == "one step":
            # One whose loads an unsteady run reports as well.
            first = model.unsteady_problem.first_results_step
            k = first + op[2] % (model.spec["steps"] - first)
            special = True
            got = one_step(model, k, op[3])
            want = baseline(m, "step", k, op[3])
            compare(ctx, what, got, want)
            # The run's results at that step are gone.
            kept.pop((m, "unsteady"), None)
        else:
            entry = spec["models"][m]
            Live(entry, live, airfoils)
            ctx.label("built another model from shared parts")
            continue
        runs += 1
        touched.add(m)
    for (m, _), (solver, what, arg) in kept.items():
        compare(ctx, "results left in place", snapshot(solver), baseline(m, what, arg))
    for m, want in enumerate(start):
        c23.compare_all(ctx, "definition of model %d: " % m, live[m].definition(), want)
    for op in spec["ops"]:
        ctx.label(op[0])
    ctx.nontrivial(runs >= 2 and (special or len(touched) > 1))

