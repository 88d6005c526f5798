"""C07: symmetric wings are mirrored across their symmetry plane."""

import copy

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from core import facet
from props.c06 import check_layout, size_of

PROP = "C07"
WARM = ("mesh",)


@st.composite
def cases(draw):
    wing = draw(gen.wings(max_sections=4, max_nc=4, max_ns=4, symmetric=True, min_step=0.3))
    return {"wing": gen.turned_wing(wing, draw(st.sampled_from(gen.ROTATIONS)))}


def reflection(wing):
    n = np.array(wing["normal"], float)
    n = n / np.linalg.norm(n)
    p = np.array([wing["x"], wing["y"], wing["z"]])
    return lambda q: q - 2 * ((q - p) @ n)[..., None] * n


# Mirroring exchanges the left and right corners of a panel.
SWAP = [1, 0, 3, 2]


@facet(PROP, "mirror", cases, 500, 20000, "an asymmetric control surface is deflected, or the wing is offset, swept or twisted")
def mirror(spec, ctx):
    spec = spec["wing"]
    both = build.wing(spec)
    nc, ns = check_layout(ctx, both, spec)
    half = ns // 2
    corners = ref.panel_corners(both)
    size = size_of(spec)
    reflect = reflection(spec)
    tolerance = dict(rtol=0, atol=1e-10 * size)
    # The defined half, built alone.
    alone = dict(spec, sym=False)
    right = ref.panel_corners(build.wing(alone))
    ctx.near("defined half", corners[:, half:], right, **tolerance)
    # The other half, built alone with reversed asymmetric deflections, then mirrored.
    opposite = copy.deepcopy(alone)
    for s in opposite["sections"]:
        if s["cst"] == "asymmetric":
            s["defl"] = -s["defl"]
    left = reflect(ref.panel_corners(build.wing(opposite)))[:, ::-1][:, :, SWAP]
    ctx.near("mirrored half", corners[:, :half], left, **tolerance)
    # Panel by panel, with all normals on the same side.
    columns = []
    for s in spec["sections"][:-1]:
        columns += [s["cst"] == "symmetric" or s["defl"] == 0] * s["ns"]
    normals = np.array([[p.unit_normal for p in row] for row in both.panels])
    for j in range(half):
        if columns[j]:
            ctx.near("mirror images", corners[:, half - 1 - j], reflect(corners[:, half + j])[:, SWAP], **tolerance)
            mirrored = reflect(normals[:, half + j] + np.array([spec["x"], spec["y"], spec["z"]])) - np.array([spec["x"], spec["y"], spec["z"]])
            area = [min(p.area for p in both.panels[:, half + j])]
            ctx.near("normals", normals[:, half - 1 - j], mirrored, rtol=0, atol=1e-9 * size**2 / min(area))
            ctx.label("symmetric part")
        else:
            ctx.label("asymmetric part")
    swept = any(s["x"] or s["twist"] for s in spec["sections"])
    ctx.nontrivial(any(not c for c in columns) or swept or any(spec[a] for a in "xyz"))


# ------------------------------------------------------- the other half defined by hand
@st.composite
def hand_cases(draw):
    return {"wing": draw(gen.wings(max_sections=3, max_nc=4, max_ns=4, symmetric=True, min_step=0.3, tilt=False, y_offset_symmetric=False))}


@facet(PROP, "by hand", hand_cases, 250, 10000, "a control surface is deflected")
def by_hand(spec, ctx):
    """The left half defined by hand, from its tip inwards, with opposite deflections of
    asymmetric control surfaces."""
    spec = spec["wing"]
    both = build.wing(spec)
    corners = ref.panel_corners(both)
    half = corners.shape[1] // 2
    right = dict(spec, sym=False)
    flipped = copy.deepcopy(right)
    for s in flipped["sections"]:
        if s["cst"] == "asymmetric":
            s["defl"] = -s["defl"]
    left = gen.mirror_wing(flipped)
    size = size_of(spec)
    ctx.near("left half", corners[:, :half], ref.panel_corners(build.wing(left)), rtol=0, atol=1e-9 * size)
    ctx.near("right half", corners[:, half:], ref.panel_corners(build.wing(right)), rtol=0, atol=1e-10 * size)
    # Symmetric and asymmetric only differ when something is deflected.
    swapped = copy.deepcopy(spec)
    for s in swapped["sections"]:
        s["cst"] = "asymmetric" if s["cst"] == "symmetric" else "symmetric"
    other = ref.panel_corners(build.wing(swapped))
    ctx.near("right half of the other type", other[:, half:], corners[:, half:], rtol=0, atol=1e-10 * size)
    if not any(s["defl"] for s in spec["sections"][:-1]):
        ctx.near("undeflected", other, corners, rtol=0, atol=1e-10 * size)
    ctx.nontrivial(any(s["defl"] for s in spec["sections"][:-1]))
