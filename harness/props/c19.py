"""C19: the wake is shed, convected and aged correctly and its history is kept."""

import copy

import numpy as np
from hypothesis import strategies as st

import build
import gen
import marchref
import props.c18 as c18
from core import facet, numbers

PROP = "C19"
WARM = ("mesh", "unsteady")


def vertices_of(corner):
    """(rows + 1, columns + 1, 3) from the rings' corners; the left ones count."""
    rows, columns = corner.shape[:2]
    out = np.zeros((rows + 1, columns + 1, 3))
    out[:-1, :-1] = corner[:, :, 1]
    out[:-1, -1] = corner[:, -1, 0]
    out[-1, :-1] = corner[-1, :, 2]
    out[-1, -1] = corner[-1, -1, 3]
    return out


def te_vertices(rings):
    """Back vertices (columns + 1, 3) of trailing rings (columns, 4, 3): halfway between
    neighbours where unequal deflections separate them."""
    inner = 0.5 * (rings[1:, 2] + rings[:-1, 3])
    return np.concatenate((rings[:1, 2], inner, rings[-1:, 3]))


def check_rings(ctx, wing, corner):
    """The rings' own legs and the wing's vertex array tell the same."""
    for (r, c), ring in np.ndenumerate(wing.wake_ring_vortices):
        fr, fl, bl, br = corner[r, c]
        for leg, o, e in ((ring.front_leg, fr, fl), (ring.left_leg, fl, bl), (ring.back_leg, bl, br), (ring.right_leg, br, fr)):
            ctx.near("leg ends", [leg.origin, leg.termination], [o, e], rtol=0, atol=0)
            ctx.require(leg.strength == ring.strength, "a wake ring's leg has another strength")
    grid = vertices_of(corner)
    ctx.near("recorded vertices", wing.wake_ring_vortex_vertices, grid, rtol=0, atol=0)
    # Watertight.
    ctx.near("neighbouring columns", corner[:, 1:, (1, 2)], corner[:, :-1, (0, 3)], rtol=0, atol=0)
    ctx.near("neighbouring rows", corner[1:, :, (0, 1)], corner[:-1, :, (3, 2)], rtol=0, atol=0)
    return grid


@facet(PROP, "march", c18.cases, 800, 30000, "a moving model or a free wake over at least three steps, all vertices compared")
def march(model, ctx):
    solver = build.solve_unsteady(model, streamlines=False)
    dt, count = model["dt"], model["steps"]
    last, skipped, compared = None, 0, 0
    for k in range(count):
        step = marchref.Step(solver, k, model, ctx)
        lat = step.lattice
        grids = []
        for w, (ai, start, nc, ns, wing) in enumerate(lat.wings):
            corner, strength, age = step.wakes[w]
            te = slice(start + (nc - 1) * ns, start + nc * ns)
            if k == 0:
                grids.append(te_vertices(lat.rings[te])[None])
                continue
            grid = check_rings(ctx, wing, corner)
            scale = float(np.max(np.abs(grid))) + step.speed * dt
            ctx.near("the newest row's front", grid[0], te_vertices(lat.rings[te]), rtol=1e-11, scale=scale)
            ctx.near("the newest row's strengths", strength[0], last.g[te], rtol=0, atol=0)
            ctx.near("ages", age, np.repeat(dt * np.arange(k)[:, None], ns, axis=1), rtol=0, atol=1e-12 * k * dt)
            if k > 1:
                ctx.near("older rows' strengths", strength[1:], last.wakes[w][1], rtol=0, atol=0)
            # Where every vertex came from.
            source = last.grids[w] if k > 1 else grid[:1]
            flat = source.reshape(-1, 3)
            if model["prescribed"]:
                v, size, bad = np.tile(last.freestream, (len(flat), 1)), np.full(len(flat), last.speed), np.zeros(len(flat), bool)
            else:
                v, size = last.velocity(flat)
                bad = last.unclear(flat)
            got = grid[1:].reshape(-1, 3)
            error = np.linalg.norm(got - flat - v * dt, axis=1) / (size * dt + scale * 1e-4)
            ctx.near("convection at step %d" % k, error[~bad], np.zeros(np.sum(~bad)), atol=1e-7)
            skipped += int(bad.sum())
            compared += int((~bad).sum())
            grids.append(grid)
        step.grids = grids
        # What the solver recorded for this step.
        ctx.require(solver.num_wake_ring_vortices_list[k] == len(step.wake_strengths), "another number of wake rings was recorded")
        ctx.near("recorded strengths", solver.wake_ring_vortex_strengths_list[k], step.wake_strengths, rtol=0, atol=0)
        ctx.near("recorded ages", solver.wake_ring_vortex_ages_list[k], step.wake_ages, rtol=0, atol=0)
        for c, name in enumerate(("front_right", "front_left", "back_left", "back_right")):
            rec = getattr(solver, "wake_ring_vortex_%s_vertices_list" % name)[k]
            ctx.near("recorded %s vertices" % name, rec, step.wake_rings[:, c], rtol=0, atol=0)
        last = step
    ctx.label("free wake" if not model["prescribed"] else "prescribed wake", "moving" if c18.moving(model) else "static")
    ctx.label("some vertices next to an axis" if skipped else "all vertices compared")
    ctx.nontrivial(not skipped and count >= 3 and compared > 0 and (c18.moving(model) or not model["prescribed"]))


# --------------------------------------------------------------------------- history
@st.composite
def histories(draw):
    # Custom motions may jump: times that differ by rounding fall on either side.
    model = draw(c18.cases(custom=False))
    model["steps"] = draw(st.integers(3, 7))
    model["final_only"] = False
    return {"model": model, "fewer": draw(st.integers(1, 2))}


@facet(PROP, "history", histories, 300, 12000, "a moving model or a free wake")
def history(spec, ctx):
    """Stopping earlier gives the same history: later steps alter nothing recorded."""
    model = spec["model"]
    short = copy.deepcopy(model)
    short["steps"] = model["steps"] - spec["fewer"]
    a, b = build.solve_unsteady(model, streamlines=False), build.solve_unsteady(short, streamlines=False)
    for k in range(short["steps"]):
        x, y = marchref.Step(a, k, model, ctx), marchref.Step(b, k, short, ctx)
        gmax = float(np.max(np.abs(x.g))) + 1e-300
        reach = float(np.max(np.abs(x.lattice.rings))) + x.speed * model["dt"] * k
        ctx.near("strengths at step %d" % k, y.g, x.g, atol=1e-9 * gmax)
        ctx.near("wake strengths at step %d" % k, y.wake_strengths, x.wake_strengths, atol=1e-9 * gmax)
        ctx.near("wake ages at step %d" % k, y.wake_ages, x.wake_ages, rtol=1e-12)
        ctx.near("wake vertices at step %d" % k, y.wake_rings, x.wake_rings, atol=1e-9 * (reach + gmax))
        for plane, other in zip(x.airplanes, y.airplanes):
            size = sum(np.linalg.norm(p.near_field_force_geometry_axes) for w in plane.wings for p in np.ravel(w.panels)) + 1e-300
            ctx.near("forces at step %d" % k, other.total_near_field_force_wind_axes, plane.total_near_field_force_wind_axes, atol=1e-8 * size)
            ctx.near("moments at step %d" % k, other.total_near_field_moment_wind_axes, plane.total_near_field_moment_wind_axes, atol=1e-8 * size * (reach + 3))
    ctx.nontrivial(c18.moving(model) or not model["prescribed"])
