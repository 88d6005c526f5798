"""C08: reference area, span and chord."""

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from core import facet
from props.c06 import camber_lines, size_of

PROP = "C08"
WARM = ("mesh",)


@st.composite
def cases(draw):
    wing = draw(gen.wings(max_sections=4, max_nc=4, max_ns=3, min_step=0.3))
    return {
        "wing": gen.turned_wing(wing, draw(st.sampled_from(gen.ROTATIONS))),
        "k": draw(st.sampled_from([0.125, 0.5, 3.0, 10.0])),
        "d": [draw(gen.grid(-4, 4, 0.5)) for _ in range(3)],
    }


POWERS = {"projected_area": 2, "wetted_area": 2, "span": 1, "standard_mean_chord": 1, "mean_aerodynamic_chord": 1}


def dimensions(wing):
    return {name: float(getattr(wing, name)) for name in POWERS}


def oracle(spec):
    """From the definition alone."""
    corners = ref.corners_from_blocks(ref.wing_grid(spec, camber_lines(spec)))
    up = np.cross(spec["chordwise"], spec["normal"])
    cross = np.cross(corners[..., 0, :] - corners[..., 2, :], corners[..., 1, :] - corners[..., 3, :])
    sections = spec["sections"]
    n = np.array(spec["normal"], float)
    at = np.array([[s["x"], s["y"], s["z"]] for s in sections], float)
    steps = np.abs(np.diff(at, axis=0) @ n)
    factor = 2 if spec["sym"] else 1
    area = float(np.sum(np.abs(cross @ up)) / 2)
    chords = [s["chord"] for s in sections]
    # The integral of the squared chord of straight-tapered spans.
    square = sum(h * (a * a + a * b + b * b) / 3 for h, a, b in zip(steps, chords, chords[1:]))
    span = factor * abs((at[-1] - at[0]) @ n)
    return {
        "projected_area": area,
        "wetted_area": float(np.sum(np.linalg.norm(cross, axis=-1)) / 2),
        "span": span,
        "standard_mean_chord": area / span,
        "mean_aerodynamic_chord": factor * square / area,
    }, factor * sum(h * (a + b) / 2 for h, a, b in zip(steps, chords, chords[1:]))


@facet(PROP, "wing", cases, 400, 15000, "a tapered wing with twist, dihedral or camber")
def wing_dimensions(spec, ctx):
    wing_spec = spec["wing"]
    want, planform = oracle(wing_spec)
    wing = build.wing(wing_spec)
    got = dimensions(wing)
    scale = size_of(wing_spec)

    def compare(what, got, want, size):
        for name, power in POWERS.items():
            ctx.near(name + "|" + what, got[name], want[name], rtol=1e-8, atol=1e-9 * size**power)

    compare("", got, want, scale)
    flat = all(
        s["twist"] == 0 and s["defl"] == 0 and s["normal"] == wing_spec["normal"] and s["af"]["name"].startswith("naca00")
        for s in wing_spec["sections"]
    )
    if flat:
        ctx.near("trapezoids", got["projected_area"], planform, rtol=1e-8)
        ctx.label("planform of trapezoids")
    k = spec["k"]
    compare("scaled", dimensions(build.wing(gen.scaled_wing(wing_spec, k))), {n: want[n] * k**p for n, p in POWERS.items()}, scale * k)
    compare("moved", dimensions(build.wing(gen.moved_wing(wing_spec, spec["d"]))), want, scale + 8)
    if wing_spec["sym"]:
        single = dimensions(build.wing(dict(wing_spec, sym=False)))
        ctx.near("half span", single["span"] * 2, got["span"], rtol=1e-10)
        if not any(s["cst"] == "asymmetric" and s["defl"] for s in wing_spec["sections"]):
            for name in ("projected_area", "wetted_area"):
                ctx.near("half " + name, single[name] * 2, got[name], rtol=1e-8)
    taper = len({s["chord"] for s in wing_spec["sections"]}) > 1
    ctx.nontrivial(taper and not flat)


@st.composite
def flat_cases(draw):
    wing = draw(gen.wings(max_sections=4, max_nc=3, max_ns=3, twist=0, deflection=False, section_tilts=False, airfoil=gen.airfoils(thin=True), min_step=0.3))
    return {"wing": wing, "k": draw(st.sampled_from([0.125, 3.0])), "d": [draw(gen.grid(-4, 4, 0.5)) for _ in range(3)]}


@facet(PROP, "planform", flat_cases, 150, 5000, "a tapered wing")
def planform(spec, ctx):
    """Untwisted, undeflected wings with symmetric sections: trapezoids."""
    wing_dimensions(spec, ctx)
    ctx.require("planform of trapezoids" in ctx.labels, "internal: not flat")
    ctx.is_nontrivial = len({s["chord"] for s in spec["wing"]["sections"]}) > 1


@st.composite
def airplane_cases(draw):
    return {"plane": draw(gen.airplanes(max_wings=2, max_sections=3, max_nc=3, max_ns=3)), "third": draw(st.booleans())}


@facet(PROP, "airplane", airplane_cases, 200, 8000, "two wings or an overridden reference")
def airplane(spec, ctx):
    plane = dict(spec["plane"])
    if spec["third"]:
        plane["wings"] = plane["wings"] + [gen.moved_wing(plane["wings"][0], [20.0, 0.0, 0.0])]
    thing = build.airplane(plane)
    want, _ = oracle(plane["wings"][0])
    for name, key in (("s_ref", "projected_area"), ("c_ref", "mean_aerodynamic_chord"), ("b_ref", "span")):
        if plane[name] is not None:
            ctx.require(getattr(thing, name) == plane[name], "%s is not what was given" % name)
        else:
            ctx.near(name, getattr(thing, name), want[key], rtol=1e-8)
    panels = sum(w["nc"] * sum(s["ns"] for s in w["sections"][:-1]) * (2 if w["sym"] else 1) for w in plane["wings"])
    ctx.require(thing.num_panels == panels, "%r panels, expected %d" % (thing.num_panels, panels))
    ctx.near("reference point", thing.xyz_ref, plane["ref"], rtol=0)
    ctx.require((thing.name, thing.weight) == (plane["name"], plane["weight"]), "name or weight changed")
    ctx.require(len(thing.wings) == len(plane["wings"]), "wings were lost")
    ctx.nontrivial(len(plane["wings"]) > 1 or any(plane[k] is not None for k in ("s_ref", "c_ref", "b_ref")))
