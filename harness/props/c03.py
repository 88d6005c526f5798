"""C03: panel geometry and the velocity a panel reports inducing."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import facet

PROP = "C03"
WARM = ("mesh", "vortex", "horseshoe", "ring")

coordinate = st.integers(-32, 32).map(lambda i: i / 16.0)
position = st.lists(coordinate, min_size=3, max_size=3)


@st.composite
def quads(draw):
    """A convex-ish quadrilateral, perturbed out of its plane and moved anywhere."""
    chord = draw(gen.grid(0.1, 3, 0.05))
    span = draw(gen.grid(0.1, 3, 0.05))
    bump = st.integers(-6, 6).map(lambda i: i / 20.0)
    jitter = [[round(draw(bump) * s, 10) for s in (chord, span, span)] for _ in range(4)]
    return {
        "chord": chord, "span": span, "jitter": jitter,
        "axis": draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 2, 3], [-2, 1, 0.5]])),
        "turn": draw(gen.grid(-180, 180, 15)),
        "move": draw(position),
        "size": draw(st.sampled_from([1.0, 1.0, 0.01, 30.0])),
    }


def corners_of(spec):
    """front right, front left, back left, back right"""
    c, s = spec["chord"], spec["span"]
    p = np.array([[0, s, 0], [0, 0, 0], [c, 0, 0], [c, s, 0]], float) + np.array(spec["jitter"])
    r = ref.rotation(np.array(spec["axis"], float), np.radians(spec["turn"]))
    return (p @ r.T) * spec["size"] + np.array(spec["move"])


NAMES = ("front_right_vertex", "front_left_vertex", "back_left_vertex", "back_right_vertex")


def panel_of(corners, le=False, te=False):
    import pterasoftware as ps

    return ps.panel.Panel(
        **{n: np.array(c, dtype=float) for n, c in zip(NAMES, corners)}, is_leading_edge=le, is_trailing_edge=te)


def expected_geometry(c):
    fr, fl, bl, br = c
    unit = lambda v: v / np.linalg.norm(v)
    cross = np.cross(fr - bl, fl - br)
    return {
        "right_leg": fr - br, "front_leg": fl - fr, "left_leg": bl - fl, "back_leg": br - bl,
        "front_right_vortex_vertex": fr + 0.25 * (br - fr),
        "front_left_vortex_vertex": fl + 0.25 * (bl - fl),
        "collocation_point": 0.5 * (fr + 0.75 * (br - fr)) + 0.5 * (fl + 0.75 * (bl - fl)),
        "area": np.linalg.norm(cross) / 2,
        "unit_normal": unit(cross),
        "unit_spanwise": unit((fr - fl) + (br - bl)),
        "unit_chordwise": unit((bl - fl) + (br - fr)),
        "average_span": (np.linalg.norm(fr - fl) + np.linalg.norm(br - bl)) / 2,
        "average_chord": (np.linalg.norm(fr - br) + np.linalg.norm(fl - bl)) / 2,
    }


@st.composite
def geometry_cases(draw):
    direction = draw(position)
    return {"quad": draw(quads()), "n": direction if any(direction) else [0.0, 0.0, 1.0],
            "flags": [draw(st.booleans()), draw(st.booleans())],
            "moved": draw(quads()), "scale": draw(st.sampled_from([0.5, 2.0, 7.0])),
            "load": draw(position), "q": draw(gen.grid(0.5, 500, 0.5))}


@facet(PROP, "geometry", geometry_cases, 1500, 60000, "a quadrilateral whose corners are not in one plane")
def geometry(spec, ctx):
    c = corners_of(spec["quad"])
    size = np.max(np.abs(c)) + np.linalg.norm(c[0] - c[2])
    cross = np.cross(c[0] - c[2], c[1] - c[3])
    diagonal = np.linalg.norm(c[0] - c[2]) * np.linalg.norm(c[1] - c[3])
    panel = panel_of(c, *spec["flags"])
    want = expected_geometry(c)
    conditioned = np.linalg.norm(cross) / size**2
    lengths = [np.linalg.norm(want[k]) for k in ("right_leg", "front_leg", "left_leg", "back_leg")]
    means = [np.linalg.norm((c[0] - c[1]) + (c[3] - c[2])) / 2, np.linalg.norm((c[2] - c[1]) + (c[3] - c[0])) / 2]
    if np.linalg.norm(cross) < 1e-6 * diagonal or min(lengths + means) < 1e-5 * size or conditioned < 1e-8:
        ctx.skip("degenerate quadrilateral")

    def compare(panel, want, scale, what):
        for name, value in want.items():
            power = 2 if name == "area" else 0 if name.startswith("unit_") else 1
            slack = 1e-10 / conditioned**0.5 if power != 1 else 1e-11
            ctx.near("%s|%s" % (name, what), getattr(panel, name), value, rtol=0, atol=slack * scale**power)

    compare(panel, want, size, "")
    ctx.require(panel.is_leading_edge == spec["flags"][0] and panel.is_trailing_edge == spec["flags"][1], "edge flags lost")
    for name, corner in zip(NAMES, c):
        ctx.require(np.array_equal(getattr(panel, name), corner), name + " changed")
    # Projected area: the area of the quadrilateral's shadow along n.
    n = np.array(spec["n"], float)
    n /= np.linalg.norm(n)
    ctx.near("projected area", panel.calculate_projected_area(n_hat=n), abs(cross @ n) / 2, atol=1e-11 * size**2)
    ctx.near("projected area along the normal", panel.calculate_projected_area(n_hat=panel.unit_normal), panel.area, rtol=1e-8, atol=1e-11 * size**2)
    # Rigid motion and scaling.
    move = spec["moved"]
    r = ref.rotation(np.array(move["axis"], float), np.radians(move["turn"]))
    shift = np.array(move["move"])
    other = panel_of(c @ r.T + shift)
    new_size = size + np.max(np.abs(shift))
    turned = {}
    for name, value in want.items():
        if name.endswith("_vertex") or name == "collocation_point":
            turned[name] = r @ value + shift
        elif np.ndim(value):
            turned[name] = r @ value
        else:
            turned[name] = value
    if np.linalg.norm(cross) / new_size**2 > 1e-8:
        conditioned = np.linalg.norm(cross) / new_size**2
        compare(other, turned, new_size, "after a rigid motion")
        conditioned = np.linalg.norm(cross) / size**2
    k = spec["scale"]
    compare(panel_of(c * k), expected_geometry(c * k), size * k, "after scaling")
    # A mirror image, with left and right exchanged, has the mirrored normal.
    m = c * np.array([1, -1, 1])
    mirrored = panel_of(m[[1, 0, 3, 2]])
    for name, flip in (("unit_normal", 1), ("collocation_point", 1), ("unit_chordwise", 1), ("unit_spanwise", -1)):
        ctx.near(name + "|mirrored", getattr(mirrored, name), flip * want[name] * np.array([1, -1, 1]),
                 rtol=0, atol=1e-10 / conditioned**0.5 * (size if name == "collocation_point" else 1))
    # Coefficients of the panel's own load.
    force = np.array(spec["load"])
    panel.near_field_force_wind_axes = force
    panel.update_coefficients(spec["q"])
    for name, value in (("induced_drag_coefficient", -force[0]), ("side_force_coefficient", force[1]), ("lift_coefficient", -force[2])):
        ctx.near(name, getattr(panel, name), value / want["area"] / spec["q"], rtol=1e-7, atol=1e-12)
    plane = abs((c[3] - c[0]) @ np.cross(c[1] - c[0], c[2] - c[0])) / size**3
    ctx.label("warped" if plane > 1e-6 else "flat")
    ctx.nontrivial(plane > 1e-6)


# ------------------------------------------------------------------- induced velocities
@st.composite
def induced_cases(draw):
    near = st.one_of(position, st.lists(st.integers(-160, 160).map(lambda i: i / 16.0), min_size=3, max_size=3))
    return {
        "ring": draw(st.one_of(st.none(), st.lists(position, min_size=4, max_size=4))),
        "horseshoe": draw(st.one_of(st.none(), st.lists(position, min_size=3, max_size=3))),
        "length": draw(gen.grid(1, 100, 0.5)),
        "g": [draw(gen.grid(-20, 20, 0.25)), draw(gen.grid(-20, 20, 0.25))],
        "points": [draw(near) for _ in range(draw(st.integers(1, 4)))],
        "quad": draw(quads()),
    }


@facet(PROP, "induced", induced_cases, 1500, 40000, "a panel with at least one vortex of non-zero strength")
def induced(spec, ctx):
    import pterasoftware as ps

    panel = panel_of(corners_of(spec["quad"]))
    parts = []
    if spec["ring"]:
        fr, fl, bl, br = (np.array(p) for p in spec["ring"])
        panel.ring_vortex = ps.aerodynamics.RingVortex(
            front_left_vertex=fl, front_right_vertex=fr, back_left_vertex=bl, back_right_vertex=br, strength=spec["g"][0])
        parts.append((np.array([fr, fl, bl, br, fr]), spec["g"][0]))
    if spec["horseshoe"]:
        right, left, d = (np.array(p) for p in spec["horseshoe"])
        panel.horseshoe_vortex = ps.aerodynamics.HorseshoeVortex(
            finite_leg_origin=right, finite_leg_termination=left, strength=spec["g"][1],
            infinite_leg_direction=d, infinite_leg_length=spec["length"])
        parts.append((np.array([right + d * spec["length"], right, left, left + d * spec["length"]]), spec["g"][1]))
    points = np.array(spec["points"])
    total, unit = np.zeros_like(points), np.zeros_like(points)
    scale = np.zeros(len(points))
    unclear = np.zeros(len(points), dtype=bool)
    for line, g in parts:
        for a, b in zip(line[:-1], line[1:]):
            v = ref.segment_velocities(points, [a], [b], [1.0])[:, 0]
            total += g * v
            unit += v
            scale = np.maximum(scale, np.linalg.norm(v, axis=1))
            unclear |= ref.near_cutoff(points, [a], [b])[:, 0]
            # Rounding of points on or close to the axis of a filament.
            n = np.linalg.norm(np.cross(points - a, points - b), axis=1)
            unclear |= (n > 0) & (n < 1e-5 * np.linalg.norm(points - a, axis=1) * np.linalg.norm(points - b, axis=1))
    for k, p in enumerate(points):
        if unclear[k]:
            ctx.label("point near an axis")
            continue
        ctx.near("velocity", panel.calculate_induced_velocity(point=p), total[k], rtol=0, atol=1e-8 * (scale[k] * 20 + 1e-9))
        ctx.near("normalized velocity", panel.calculate_normalized_induced_velocity(point=p), unit[k], rtol=0, atol=1e-8 * (scale[k] + 1e-9))
    # The strengths stay.
    if spec["ring"]:
        ctx.require(panel.ring_vortex.strength == spec["g"][0], "evaluating a panel changed its strength")
    if spec["horseshoe"]:
        ctx.require(panel.horseshoe_vortex.strength == spec["g"][1], "evaluating a panel changed its strength")
    ctx.label("ring" if spec["ring"] else "no ring", "horseshoe" if spec["horseshoe"] else "no horseshoe")
    ctx.nontrivial(any(g for _, g in parts) and bool(np.any(scale > 0)))


# ------------------------------------------------------- panels of solved steady problems
def solved_cases():
    @st.composite
    def build(draw):
        return {"model": draw(gen.problems(max_airplanes=2, max_wings=2, max_nc=2, max_ns=2, overrides=False)),
                "solver": draw(st.sampled_from(["horseshoe", "ring"])),
                "points": [draw(st.lists(st.integers(-50, 50).map(lambda i: i / 8.0 + 0.03), min_size=3, max_size=3)) for _ in range(3)]}

    return build()


@facet(PROP, "solved", solved_cases, 60, 1500, "at least two panels with non-zero strengths")
def solved(spec, ctx):
    """The velocities of all panels of a solved problem add up to the solver's."""
    import build

    solver = build.STEADY[spec["solver"]](spec["model"])
    points = np.array(spec["points"])
    total = np.zeros_like(points)
    size = 0.0
    count = 0
    for airplane in solver.airplanes:
        for wing in airplane.wings:
            for panel in wing.panels.ravel():
                for k, p in enumerate(points):
                    v = panel.calculate_induced_velocity(point=p)
                    total[k] += v
                    size = max(size, np.linalg.norm(v))
                count += 1
    field = solver.calculate_solution_velocity(points=points)
    free = ref.freestream_direction(spec["model"]["op"]["alpha"], spec["model"]["op"]["beta"]) * spec["model"]["op"]["v"]
    strengths = np.abs(solver.vortex_strengths)
    if size > 1e4 * (spec["model"]["op"]["v"]):
        ctx.skip("point next to a vortex")
    ctx.near("velocity", total + free, field, rtol=1e-7, scale=size + spec["model"]["op"]["v"])
    ctx.nontrivial(count > 1 and strengths.max() > 1e-9)
