"""C06: the wing mesh against an independent mesher."""

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from core import facet

PROP = "C06"
WARM = ("mesh",)


@st.composite
def cases(draw):
    wing = draw(gen.wings(max_sections=4, max_nc=5, max_ns=4, airfoil=gen.any_airfoil(), min_step=0.3))
    return {"wing": gen.turned_wing(wing, draw(st.sampled_from(gen.ROTATIONS)))}


def camber_lines(wing):
    return [np.array(build.airfoil(s["af"]).mcl_coordinates) for s in wing["sections"]]


def size_of(wing):
    return max(1.0, max(s["chord"] for s in wing["sections"])) + max(
        abs(s[a]) for s in wing["sections"] for a in "xyz"
    ) + max(abs(wing[a]) for a in "xyz")


def check_layout(ctx, wing, spec):
    """Numbers, flags and indices."""
    ns = sum(s["ns"] for s in spec["sections"][:-1]) * (2 if spec["sym"] else 1)
    nc = spec["nc"]
    ctx.require(wing.panels.shape == (nc, ns), "panels of shape %r, expected %r" % (wing.panels.shape, (nc, ns)))
    ctx.require(
        wing.num_spanwise_panels == ns and wing.num_chordwise_panels == nc and wing.num_panels == nc * ns,
        "wrong panel counts",
    )
    for i in range(nc):
        for j in range(ns):
            p = wing.panels[i, j]
            flags = (p.is_leading_edge, p.is_trailing_edge, p.is_left_edge, p.is_right_edge)
            want = (i == 0, i == nc - 1, j == 0, j == ns - 1)
            ctx.require(
                all(a is not None and bool(a) == b for a, b in zip(flags, want)),
                "panel (%d, %d) has edge flags %r, expected %r" % (i, j, flags, want),
            )
            ctx.require(
                (p.local_chordwise_position, p.local_spanwise_position) == (i, j),
                "panel (%d, %d) has indices %r" % (i, j, (p.local_chordwise_position, p.local_spanwise_position)),
            )
    return nc, ns


@facet(PROP, "mesh", cases, 500, 20000, "at least two sections' worth of panels with twist, deflection or camber")
def mesh(spec, ctx):
    spec = spec["wing"]
    wing = build.wing(spec)
    nc, ns = check_layout(ctx, wing, spec)
    got = ref.panel_corners(wing)
    blocks = ref.wing_grid(spec, camber_lines(spec))
    want = ref.corners_from_blocks(blocks)
    size = size_of(spec)
    ctx.near("corners", got, want, rtol=0, atol=1e-10 * size)
    # Watertight: chordwise neighbours, and spanwise neighbours within a section.
    ctx.near("seams along the chord", got[1:, :, [0, 1]], got[:-1, :, [3, 2]], rtol=0)
    starts = np.cumsum([0] + [b.shape[1] - 1 for b in blocks])
    for j in range(1, ns):
        left, right = got[:, j - 1][:, [0, 3]], got[:, j][:, [1, 2]]
        if j in starts:
            # Deflections may differ on the two sides of a section.
            k = list(starts).index(j)
            if np.max(np.abs(blocks[k - 1][:, -1] - blocks[k][:, 0])) < 1e-12 * size:
                ctx.near("seams between sections", left, right, rtol=0, atol=1e-11 * size)
            else:
                ctx.label("deflection step")
        else:
            ctx.near("seams along the span", left, right, rtol=0)
    # The definition is kept.
    for name in ("name", "x_le", "y_le", "z_le", "chordwise_spacing", "symmetric"):
        key = {"x_le": "x", "y_le": "y", "z_le": "z", "chordwise_spacing": "cs", "symmetric": "sym"}.get(name, name)
        ctx.require(getattr(wing, name) == spec[key], name + " changed")
    ctx.near("leading edge", wing.leading_edge, [spec["x"], spec["y"], spec["z"]], rtol=0)
    for section, s in zip(wing.wing_cross_sections, spec["sections"]):
        cw = np.array(spec["chordwise"])
        n = np.array(s["normal"])
        direction = ref.rotation(n, np.radians(s["twist"])) @ cw
        ctx.near("section chord direction", section.unit_chordwise_vector, direction, rtol=0, atol=1e-12)
        ctx.near("section up direction", section.unit_up_vector, np.cross(direction, n), rtol=0, atol=1e-12)
        ctx.near("section leading edge", section.leading_edge, [s["x"], s["y"], s["z"]], rtol=0)
        ctx.near("section trailing edge", section.trailing_edge, np.array([s["x"], s["y"], s["z"]]) + s["chord"] * direction, rtol=0, atol=1e-12 * size)
    ctx.near("up direction", wing.unit_up_vector, np.cross(spec["chordwise"], spec["normal"]), rtol=0, atol=1e-12)
    ctx.label("symmetric" if spec["sym"] else "half", spec["cs"], "%d sections" % len(spec["sections"]))
    shaped = any(s["twist"] or s["defl"] or not s["af"]["name"].startswith("naca00") for s in spec["sections"])
    ctx.nontrivial(nc * ns >= 2 and shaped)


# -------------------------------------------------------------------------- spacings
@st.composite
def spacing_cases(draw):
    return {
        "nc": draw(st.integers(1, 12)), "ns": draw(st.integers(1, 12)),
        "cs": draw(st.sampled_from(["uniform", "cosine"])), "sp": draw(st.sampled_from(["uniform", "cosine"])),
        "chord": draw(gen.grid(0.2, 3, 0.1)), "span": draw(gen.grid(0.2, 5, 0.1)),
        "move": [draw(gen.grid(-3, 3, 0.1)) for _ in range(3)],
    }


@facet(PROP, "spacing", spacing_cases, 200, 8000, "more than two panels in some direction")
def spacing(spec, ctx):
    """A flat rectangular wing: stations are the requested distributions themselves."""
    wing = dict(build.SIMPLE_WING)
    wing["sections"] = [
        dict(s, chord=spec["chord"], y=spec["span"] * k, ns=spec["ns"], sp=spec["sp"]) for k, s in enumerate(wing["sections"])
    ]
    wing.update(nc=spec["nc"], cs=spec["cs"])
    wing["x"], wing["y"], wing["z"] = spec["move"]
    corners = ref.panel_corners(build.wing(wing))

    def stations(kind, n):
        if kind == "uniform":
            return [k / n for k in range(n + 1)]
        return [np.sin(np.pi * k / (2 * n)) ** 2 for k in range(n + 1)]

    xs = np.array(stations(spec["cs"], spec["nc"])) * spec["chord"] + spec["move"][0]
    ys = np.array(stations(spec["sp"], spec["ns"])) * spec["span"] + spec["move"][1]
    size = 10.0
    for i in range(spec["nc"]):
        for j in range(spec["ns"]):
            want = [
                [xs[i], ys[j + 1], spec["move"][2]], [xs[i], ys[j], spec["move"][2]],
                [xs[i + 1], ys[j], spec["move"][2]], [xs[i + 1], ys[j + 1], spec["move"][2]],
            ]
            ctx.near("corners", corners[i, j], want, rtol=0, atol=1e-12 * size)
    ctx.label(spec["cs"] + " x " + spec["sp"])
    ctx.nontrivial(spec["nc"] > 2 or spec["ns"] > 2)
