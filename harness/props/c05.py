"""C05: control surface deflection of airfoils."""

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
from core import facet, numbers

PROP = "C05"
WARM = ()


@st.composite
def cases(draw):
    return {
        "af": draw(gen.any_airfoil()),
        "hinge": draw(st.one_of(gen.grid(0.05, 0.98, 0.01), st.sampled_from([0.5, 0.75]))),
        "d": draw(st.one_of(gen.grid(-90, 90, 1.0), gen.grid(-30, 30, 0.5), st.sampled_from([90.0, -90.0, 0.0, 1e-6]))),
        "excess": draw(st.sampled_from([1e-6, 0.5, 30.0, 270.0])),
        "fractions": draw(st.lists(gen.grid(0, 1, 0.01), min_size=1, max_size=5)),
    }


def snapshot(airfoil):
    return {
        "coordinates": np.array(airfoil.coordinates), "mcl": np.array(airfoil.mcl_coordinates),
        "umm": np.array(airfoil.upper_minus_mcl), "thickness": np.array(airfoil.thickness), "name": airfoil.name,
    }


def rotate(v, degrees):
    d = np.radians(degrees)
    c, s = np.cos(d), np.sin(d)
    return np.column_stack((c * v[:, 0] + s * v[:, 1], -s * v[:, 0] + c * v[:, 1]))


@facet(PROP, "deflection", cases, 1500, 60000, "a deflection of at least one degree with camber points on both sides of the hinge")
def deflection(spec, ctx):
    airfoil = build.airfoil(spec["af"])
    before = snapshot(airfoil)
    mcl, umm = before["mcl"], before["umm"]
    hinge, d = spec["hinge"], spec["d"]
    behind = mcl[:, 0] > hinge
    # A point that is the hinge up to rounding may count either way: it does not move.
    if not behind.any():
        ctx.skip("no point behind the hinge")
    expected = ref.deflected_camber(mcl, hinge, d)
    # The hinge is a point of the flapped section.
    k, (mcl, umm) = ref.hinged(mcl, hinge, umm)
    behind = np.arange(len(mcl)) > k
    vectors = np.where(behind[:, None], rotate(umm, d), umm)
    upper, lower = expected + vectors, expected - vectors
    if min(upper[1:, 0].min(), lower[1:, 0].min()) <= mcl[0, 0] + 1e-9:
        ctx.label("surface swings in front of the nose")
    flapped = airfoil.add_control_surface(deflection=d, hinge_point=hinge)
    ctx.require(flapped is not airfoil, "the airfoil itself was returned")
    ctx.near("camber line", flapped.mcl_coordinates, expected, rtol=0, atol=1e-11)
    ctx.near("upper minus camber line", flapped.upper_minus_mcl, vectors, rtol=0, atol=1e-11)
    ctx.near("local thickness", numbers("thickness", flapped.thickness)[:, 1], 2 * np.linalg.norm(umm, axis=1), rtol=0, atol=1e-11)
    ctx.near("local thickness of the airfoil", 2 * np.linalg.norm(np.delete(umm, k, axis=0), axis=1), before["thickness"][:, 1], rtol=0, atol=1e-11)
    ctx.near("thickness stations", flapped.thickness[:, 0], expected[:, 0], rtol=0, atol=1e-11)
    ctx.near("outline", flapped.coordinates, np.vstack((upper[::-1], lower[1:])), rtol=0, atol=1e-11)
    ahead = np.flatnonzero(~behind)
    ctx.near("camber line ahead of the hinge", flapped.mcl_coordinates[ahead], mcl[ahead], rtol=0, atol=1e-13)
    ctx.near(
        "samples of the flapped camber line", flapped.get_downsampled_mcl(np.array(spec["fractions"])),
        ref.arc_fraction_points(expected, spec["fractions"]), rtol=0, atol=1e-11)
    # Rigid: distances behind the hinge stay.
    tail = np.flatnonzero(behind)
    moved = flapped.mcl_coordinates[tail]
    ctx.near("distances behind the hinge", np.linalg.norm(np.diff(moved, axis=0), axis=1),
             np.linalg.norm(np.diff(mcl[tail], axis=0), axis=1), rtol=0, atol=1e-11)
    if 0 < abs(d) and abs(mcl[-1, 1] - np.interp(hinge, mcl[:, 0], mcl[:, 1])) < 1e-9:
        ctx.require((moved[-1, 1] < mcl[-1, 1]) == (d > 0), "the trailing edge moves to the wrong side")
    after = snapshot(airfoil)
    for key in before:
        ctx.require(np.array_equal(before[key], after[key]), "the original airfoil's %s changed" % key)
    # Deflecting again starts from the original.
    again = airfoil.add_control_surface(deflection=d, hinge_point=hinge)
    ctx.near("second deflection", again.coordinates, flapped.coordinates, rtol=0, atol=0)
    zero = airfoil.add_control_surface(deflection=0.0, hinge_point=hinge)
    ctx.near("zero deflection", zero.coordinates, np.vstack(((mcl + umm)[::-1], (mcl - umm)[1:])), rtol=0, atol=1e-13)
    # ... which is the original outline: the points at the hinge add nothing.
    n = len(mcl)
    ctx.near("zero deflection's outline", np.delete(zero.coordinates, [n - 1 - k, n - 1 + k], axis=0), before["coordinates"], rtol=0, atol=1e-13)
    # The opposite deflection of a symmetric section is the mirror image.
    if np.max(np.abs(mcl[:, 1])) < 1e-12:
        other = airfoil.add_control_surface(deflection=-d, hinge_point=hinge)
        ctx.near("opposite deflection", other.mcl_coordinates, flapped.mcl_coordinates * [1, -1], rtol=0, atol=1e-11)
        ctx.label("symmetric section")
    for bad in (90.0 + spec["excess"], -90.0 - spec["excess"]):
        try:
            airfoil.add_control_surface(deflection=bad, hinge_point=hinge)
        except Exception:
            continue
        ctx.require(False, "a deflection of %r degrees was accepted" % bad)
    ctx.nontrivial(abs(d) >= 1 and behind.any() and len(ahead) > 1)
