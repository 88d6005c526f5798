"""C17: the solvers agree where they model the same flow."""

import copy

import numpy as np
from hypothesis import strategies as st

import build
import gen
import ref
import runs
import steadyref
from core import facet

PROP = "C17"
WARM = ("mesh", "horseshoe", "ring", "unsteady")


def static(model, dt, steps, prescribed=True):
    return dict(copy.deepcopy(model), moves=[gen.still_movement(a) for a in model["airplanes"]], v=dict(gen.IDLE), dt=dt,
                steps=steps, prescribed=prescribed, final_only=False)


def extent(result):
    lat = ref.Lattice(result.airplanes[0])
    return max(float(np.ptp(lat.corners[s : s + nc * ns].reshape(-1, 3)[:, 1:], axis=0).max()) for _, s, nc, ns, _ in lat.wings)


def flat_strengths(step):
    return np.concatenate([np.ravel(w) for plane in step for w in plane])


def bound_solution(airplanes, freestream, dt, far=None):
    """Strengths of the rings with the unsteady solver's trailing rings; without a wake,
    or with one that trails along the freestream up to far away."""
    lat = ref.Lattice(airplanes, 0.25 * dt * freestream)
    field = steadyref.Field(len(lat.cps))
    field.add(lat.rings[:, [0, 1, 2, 3, 0]], np.arange(len(lat.cps)))
    if far is not None:
        te = np.flatnonzero(lat.te)
        d = freestream / np.linalg.norm(freestream) * far
        right, left = lat.rings[te, 3], lat.rings[te, 2]
        field.add(np.stack((right + d, right, left, left + d), axis=1), te)
    field.finish()
    matrix = np.einsum("ijk,ik->ij", field.influence(lat.cps), lat.normals)
    clear = not np.any(field.unclear(lat.cps)) and np.linalg.cond(matrix / np.abs(np.diag(matrix))[:, None]) < 1e6
    return np.linalg.solve(matrix, -lat.normals @ freestream), clear


# ------------------------------------------------------------------------ steady limit
@st.composite
def marches(draw):
    model = draw(
        gen.problems(max_airplanes=1, op=gen.operating_points(alpha=6.0, beta=4.0, velocity=(4, 20)), max_nc=2, max_ns=3, fine=False, max_wings=2,
                     max_sections=2, tilt=False, deflection=False, twist=3.0))
    for k, wing in enumerate(model["airplanes"][0]["wings"][1:]):
        # No wing in the path of another's starting vortices.
        wing["x"], wing["z"] = wing["x"] / 8, 4.0 + 4 * k
    # A developed wake: its vortices' cores stay thin.
    model["op"]["nu"] = draw(st.sampled_from([0.0, 1e-6]))
    return {"model": model, "spans": draw(st.sampled_from([6.0, 8.0, 10.0])), "step": draw(st.sampled_from([0.3, 0.4, 0.5]))}


@facet(PROP, "steady limit", marches, 150, 4000, "loads, and strengths that change by more than a hundredth while the wake grows")
def steady_limit(spec, ctx):
    model = spec["model"]
    v = model["op"]["v"]
    ring = runs.run("ring", model)
    if runs.degenerate(ring):
        ctx.skip("degenerate")
    size = max(extent(ring), 0.5)
    wing = model["airplanes"][0]["wings"][0]
    convected = spec["step"] * wing["sections"][0]["chord"] / wing["nc"]
    steps = int(min(110, max(20, spec["spans"] * size / convected)))
    dt = convected / v
    freestream = v * ref.freestream_direction(model["op"]["alpha"], model["op"]["beta"])
    limit, clear = bound_solution(ring.airplanes[0], freestream, dt, 1000 * size)
    if not clear:
        ctx.skip("ill-conditioned")
    march = runs.run("unsteady", static(model, dt, steps))
    steady = flat_strengths(ring.strengths[0])
    scale = float(np.max(np.abs(steady)))
    if scale < 1e-4 * v:
        ctx.skip("nothing to compare")
    got = [flat_strengths(s) for s in march.strengths]
    length = steps * convected / size
    # The starting vortices' influence fades with the square of their distance.
    allowed = 0.005 + 1.0 / length**2
    ctx.near("strengths, long wake", got[-1], limit, atol=allowed * scale)
    # Where sideslip carries the shed vortices past narrow panels, the two solvers' trailing
    # edges are different discretisations: there only the limit itself is a fair target.
    other, _ = bound_solution(ring.airplanes[0], freestream, 0.0, 1000 * size)
    comparable = float(np.max(np.abs(other - limit))) < 0.02 * scale
    if comparable:
        ctx.near("strengths, steady solver", got[-1], steady, atol=(0.05 + allowed) * scale)
    first, last = (float(np.max(np.abs(got[k] - limit))) / scale for k in (0, steps - 1))
    # The ageing cores leave a small rest.
    ctx.require(last <= max(first / 2, 4e-3), "the march does not approach its limit: %r" % [first, last])
    for name, x, y, unit in zip(
        ("force", "moment", "force coefficients", "moment coefficients"), march.loads[-1][0], ring.loads[0][0],
        (1.0, ring.arm(0), None, None)
    ):
        if unit is not None and comparable:
            ctx.near(name + ", steady solver", x, y, atol=(0.06 + allowed) * ring.load_scale(0) * unit)
    ctx.label("%d0 percent change" % (10 * first))
    ctx.nontrivial(first > 0.01)


# -------------------------------------------------------------------------- first step
@st.composite
def starts(draw):
    return draw(gen.unsteady(max_airplanes=3, num_steps=(1, 3), final_only=False))


@facet(PROP, "first step", starts, 200, 8000, "strengths that are not zero")
def first_step(model, ctx):
    a = runs.run("unsteady", model)
    op = a.problem.steady_problems[0].operating_point
    freestream = float(op.velocity) * ref.freestream_direction(model["op"]["alpha"], model["op"]["beta"])
    want, clear = bound_solution(a.airplanes[0], freestream, model["dt"])
    if not clear:
        ctx.skip("ill-conditioned")
    scale = float(np.max(np.abs(want))) + 1e-9 * model["op"]["v"]
    ctx.near("strengths", flat_strengths(a.strengths[0]), want, atol=1e-7 * scale)
    # Moving or not: the motion starts with the first step's end.
    still = dict(model, moves=[gen.still_movement(p) for p in model["airplanes"]], v=dict(gen.IDLE))
    if max(m["amp"] for m in [model["v"]]) == 0 and model["v"]["period"] == 0:
        b = runs.run("unsteady", still)
        same = all(
            np.allclose(ref.panel_corners(w), ref.panel_corners(x), rtol=0, atol=1e-13)
            for p, o in zip(a.airplanes[0], b.airplanes[0]) for w, x in zip(p.wings, o.wings)
        )
        if same:
            ctx.near("strengths of the model at rest", flat_strengths(b.strengths[0]), want, atol=1e-7 * scale)
            for p in range(len(a.loads[0])):
                size = a.load_scale(p) + a.rounding(p, 0.5 * model["op"]["rho"] * model["op"]["v"] ** 2)
                ctx.near("force of the model at rest", b.loads[0][p][0], a.loads[0][p][0], atol=1e-7 * size)
            ctx.label("compared with the model at rest")
    ctx.nontrivial(scale > 1e-6 * model["op"]["v"])


# -------------------------------------------------------------------------- flat wings
@st.composite
def flats(draw):
    model = draw(
        gen.problems(max_airplanes=2, op=gen.operating_points(alpha=0.0, beta=0.0, velocity=(4, 20)), max_nc=4, max_ns=3, max_wings=2, fine=False, twist=0.0,
                     deflection=False, airfoil=gen.airfoils(thin=True), section_tilts=False, tilt=False))
    model["op"]["alpha"] = draw(st.sampled_from([0.01, -0.01, 0.05]))
    return model


@facet(PROP, "flat wings", flats, 400, 16000, "at least two rows of panels")
def flat_wings(model, ctx):
    shoe, ring = runs.run("horseshoe", model), runs.run("ring", model)
    if runs.degenerate(ring):
        ctx.skip("degenerate")
    # A ring's front leg and those of the rings behind it make up the horseshoes.
    got = np.concatenate([np.ravel(np.cumsum(w, axis=0)) for plane in shoe.strengths[0] for w in plane])
    want = flat_strengths(ring.strengths[0])
    ctx.near("strengths", got, want, rtol=6e-3)
    for k in range(len(model["airplanes"])):
        x, y = shoe.loads[0][k], ring.loads[0][k]
        scale = ring.load_scale(k)
        ctx.near("force", x[0], y[0], atol=6e-3 * scale)
        ctx.near("moment", x[1], y[1], atol=6e-3 * scale * ring.arm(k))
    ctx.nontrivial(any(w["nc"] > 1 for a in model["airplanes"] for w in a["wings"]))
