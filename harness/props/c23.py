"""C23: movement snapshots preserve everything the movement does not vary."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from core import facet

PROP = "C23"
WARM = ("mesh",)

FLUID = ("density", "alpha", "beta", "external_thrust", "nu")
REFERENCES = ("s_ref", "c_ref", "b_ref")
WING = ("symmetric", "num_chordwise_panels", "chordwise_spacing", "num_spanwise_panels")
SECTION = ("chord", "control_surface_type", "control_surface_hinge_point", "control_surface_deflection", "num_spanwise_panels",
           "spanwise_spacing")


@st.composite
def cases(draw):
    tilt = draw(st.booleans())
    count = draw(st.sampled_from([1, 1, 2]))
    planes = [
        draw(gen.airplanes(index=k, max_wings=3, max_nc=2, max_ns=2, tilt=tilt, airfoil=gen.any_airfoil())) for k in range(count)
    ]
    dt = draw(gen.grid(0.01, 0.3, 0.01))
    periods = [round(dt * m, 10) for m in (2.0, 3.0, 4.5, 7.3, 20.0)]
    still = draw(st.sampled_from([0.3, 0.7, 1.0]))
    moves = [draw(gen.airplane_movements(p, periods, still=still, section_still=draw(st.sampled_from([0.3, 0.7, 1.0])))) for p in planes]
    return {
        "airplanes": planes,
        "op": draw(gen.operating_points(velocity=(5, 30))),
        "moves": moves,
        "v": draw(gen.oscillation(gen.grid(-4, 4, 0.25), periods, False, 0.5)),
        "dt": dt,
        "steps": draw(st.integers(1, 7)),
    }


def idle(osc, k):
    """Whether the quantity must still have its base value at sample k."""
    return not (osc["amp"] and osc["period"]) or (k == 0 and osc["spacing"] != "custom")


def describe(plane):
    """Everything a user defined, and what the constructors derived from it."""
    out = {n: getattr(plane, n) for n in REFERENCES + ("name", "weight", "x_ref", "y_ref", "z_ref", "num_panels")}
    out["xyz_ref"] = np.array(plane.xyz_ref)
    out["wings"] = []
    for w in plane.wings:
        wing = {n: getattr(w, n) for n in WING + ("name", "x_le", "y_le", "z_le", "projected_area", "wetted_area", "span",
                                                   "mean_aerodynamic_chord", "standard_mean_chord")}
        for n in ("unit_normal_vector", "unit_chordwise_vector", "leading_edge"):
            wing[n] = np.array(getattr(w, n), dtype=float)
        wing["corners"] = ref.panel_corners(w)
        wing["sections"] = []
        for s in w.wing_cross_sections:
            section = {n: getattr(s, n) for n in SECTION + ("x_le", "y_le", "z_le", "twist")}
            section["unit_normal_vector"] = np.array(s.unit_normal_vector, dtype=float)
            section["airfoil"] = (s.airfoil.name, np.array(s.airfoil.coordinates), np.array(s.airfoil.mcl_coordinates))
            wing["sections"].append(section)
        out["wings"].append(wing)
    return out


def same(ctx, what, got, want, rtol=1e-12, scale=1.0):
    if isinstance(want, (np.ndarray, float, np.floating)) and not isinstance(want, bool):
        ctx.require(np.shape(got) == np.shape(want), "%s has shape %r, expected %r" % (what, np.shape(got), np.shape(want)))
        ctx.near(what, got, want, atol=rtol * (scale + float(np.max(np.abs(want)))))
    else:
        ctx.require(got == want, "%s is %r, expected %r" % (what, got, want))


def check_section(ctx, what, got, want, osc, first, k):
    for n in SECTION + ("unit_normal_vector",):
        same(ctx, what + n, got[n], want[n])
    ctx.require(got["airfoil"][0] == want["airfoil"][0], what + "airfoil's name")
    same(ctx, what + "airfoil's outline", got["airfoil"][1], want["airfoil"][1])
    same(ctx, what + "airfoil's camber line", got["airfoil"][2], want["airfoil"][2])
    if idle(osc["pitch"], k):
        same(ctx, what + "twist", got["twist"], want["twist"])
    if first:
        for n in ("x_le", "y_le", "z_le"):
            same(ctx, what + n, got[n], want[n], scale=10.0)


@facet(PROP, "snapshots", cases, 600, 20000, "something moves, over at least two samples")
def snapshots(spec, ctx):
    bases = [build.airplane(a) for a in spec["airplanes"]]
    wants = [describe(b) for b in bases]
    movement = build.movement(spec, bases=bases)
    for b, want in zip(bases, wants):
        compare_all(ctx, "base airplane afterwards: ", describe(b), want)
    for k, point in enumerate(movement.operating_points):
        for n, key in zip(FLUID, ("rho", "alpha", "beta", "thrust", "nu")):
            ctx.require(getattr(point, n) == spec["op"][key], "%s at step %d is %r" % (n, k, getattr(point, n)))
        if idle(spec["v"], k):
            ctx.near("airspeed", point.velocity, spec["op"]["v"], rtol=1e-12)
    moving = 0
    for want, shots, move in zip(wants, movement.airplanes, spec["moves"]):
        for k, plane in enumerate(shots):
            got = describe(plane)
            what = "step %d: " % k
            for n in REFERENCES + ("weight",):
                same(ctx, what + n, got[n], want[n])
            ctx.require(got["name"] == want["name"], what + "name")
            ctx.require(got["num_panels"] == want["num_panels"], what + "number of panels")
            for i, axis in enumerate("xyz"):
                if idle(move[axis], k):
                    same(ctx, what + axis + "_ref", got[axis + "_ref"], want[axis + "_ref"])
                ctx.near(what + "reference point", got["xyz_ref"][i], got[axis + "_ref"], atol=1e-12)
            ctx.require(len(got["wings"]) == len(want["wings"]), what + "number of wings")
            for g, w, m in zip(got["wings"], want["wings"], move["wings"]):
                for n in WING + ("name", "unit_normal_vector", "unit_chordwise_vector"):
                    same(ctx, what + n, g[n], w[n])
                for axis in "xyz":
                    if idle(m[axis], k):
                        same(ctx, what + axis + "_le", g[axis + "_le"], w[axis + "_le"])
                ctx.require(len(g["sections"]) == len(w["sections"]), what + "number of sections")
                fixed = shaped = True
                for a, b, osc in zip(g["sections"], w["sections"], m["sections"]):
                    fixed = fixed and idle(osc["sweep"], k) and idle(osc["heave"], k)
                    shaped = shaped and fixed and idle(osc["pitch"], k)
                    check_section(ctx, what, a, b, osc, fixed, k)
                if shaped:
                    # The panels are the base's, moved along.
                    d = np.array([g[a + "_le"] - w[a + "_le"] for a in "xyz"])
                    ctx.near(what + "panels", g["corners"] - d, w["corners"], atol=1e-9)
                    for n in ("projected_area", "wetted_area", "span", "mean_aerodynamic_chord", "standard_mean_chord"):
                        same(ctx, what + n, g[n], w[n], rtol=1e-9)
                    ctx.label("unchanged shape")
                else:
                    ctx.label("changed shape")
                    moving += 1
    ctx.label("%d airplanes" % len(bases))
    ctx.nontrivial(gen.max_period_of(spec) > 0 and spec["steps"] > 1)


def compare_all(ctx, what, got, want):
    if isinstance(want, dict):
        for key in want:
            compare_all(ctx, what + key + " ", got[key], want[key])
    elif isinstance(want, (list, tuple)):
        ctx.require(len(got) == len(want), what + "changed its length")
        for a, b in zip(got, want):
            compare_all(ctx, what, a, b)
    elif isinstance(want, np.ndarray):
        ctx.require(np.array_equal(got, want), what + "changed")
    else:
        ctx.require(got == want, "%schanged from %r to %r" % (what, want, got))


# ---------------------------------------------------------------------- rigid flapping
@st.composite
def flappers(draw):
    tilt = draw(st.booleans())
    plane = draw(gen.airplanes(max_wings=1, max_sections=4, max_nc=1, max_ns=1, deflection=False, overrides=False, tilt=tilt, dihedral=0.9))
    dt = draw(gen.grid(0.01, 0.3, 0.01))
    periods = [round(dt * m, 10) for m in (2.0, 3.0, 4.5, 7.3, 20.0)]
    return {
        "airplanes": [plane],
        "op": draw(gen.operating_points(velocity=(5, 30))),
        "moves": [draw(gen.airplane_movements(plane, periods, still=0.7, section_still=0.2, small=draw(st.booleans())))],
        "v": dict(gen.IDLE),
        "dt": dt,
        "steps": draw(st.integers(2, 7)),
    }


def alone(spec, key):
    """The same movement with only the sections' motions of one kind."""
    out = copy.deepcopy(spec)
    for m in out["moves"]:
        for axis in "xyz":
            m[axis] = dict(gen.IDLE)
        for w in m["wings"]:
            for axis in "xyz":
                w[axis] = dict(gen.IDLE)
            for s in w["sections"]:
                for other in ("sweep", "pitch", "heave"):
                    if other != key:
                        s[other] = dict(gen.IDLE)
    return out


def angles(vector):
    return (math.degrees(math.atan2(vector[2], math.hypot(vector[0], vector[1]))), math.degrees(math.atan2(vector[0], vector[1])))


def legs(plane):
    w = plane.wings[0]
    points = np.array([[s.x_le, s.y_le, s.z_le] for s in w.wing_cross_sections], dtype=float)
    return np.diff(points, axis=0)


@facet(PROP, "rigid flapping", flappers, 400, 12000, "a section that sweeps, heaves or pitches")
def rigid_flapping(spec, ctx):
    wing = spec["airplanes"][0]["wings"][0]
    base = legs(build.airplane(spec["airplanes"][0]))
    if np.any(base[:, 1] == 0):
        # Documented: vertical sections' movement is eliminated.
        ctx.skip("vertical section")
    shots = build.movement(spec).airplanes[0]
    per_kind = {key: build.movement(alone(spec, key)).airplanes[0] for key in ("sweep", "pitch", "heave")}
    moving = 0
    for k, plane in enumerate(shots):
        now = legs(plane)
        ctx.near("lengths", np.linalg.norm(now, axis=1), np.linalg.norm(base, axis=1), rtol=1e-10)
        sections = plane.wings[0].wing_cross_sections
        for i, b in enumerate(base):
            sweep0, heave0 = angles(b)
            # What each motion does when it acts alone adds up.
            d_sweep = angles(legs(per_kind["sweep"][k])[i])[0] - sweep0
            d_heave = angles(legs(per_kind["heave"][k])[i])[1] - heave0
            m = spec["moves"][0]["wings"][0]["sections"][i + 1]
            if abs(sweep0) + abs(m["sweep"]["amp"]) * 1.2 < 89 and abs(heave0) + abs(m["heave"]["amp"]) * 1.2 < 179:
                sweep, heave = angles(now[i])
                ctx.near("sweep angle", sweep, sweep0 + d_sweep, atol=1e-8)
                ctx.near("heave angle", heave, heave0 + d_heave, atol=1e-8)
                ctx.require(abs(sweep - sweep0) <= abs(m["sweep"]["amp"]) * 1.2 + 1e-8, "sweeps further than its amplitude")
                ctx.require(abs(heave - heave0) <= abs(m["heave"]["amp"]) * 1.2 + 1e-8, "heaves further than its amplitude")
            moving += bool(m["sweep"]["amp"] and m["sweep"]["period"]) + bool(m["heave"]["amp"] and m["heave"]["period"])
        for i, s in enumerate(sections):
            ctx.near("twist", s.twist, per_kind["pitch"][k].wings[0].wing_cross_sections[i].twist, atol=1e-10)
            m = spec["moves"][0]["wings"][0]["sections"][i]["pitch"]
            ctx.require(abs(s.twist - wing["sections"][i]["twist"]) <= abs(m["amp"]) * 1.2 + 1e-8, "pitches further than its amplitude")
            moving += bool(m["amp"] and m["period"])
    ctx.nontrivial(moving > 0)
