"""C16: mirroring a problem left to right mirrors its results."""

import copy

import numpy as np
from hypothesis import strategies as st

import gen
import props.c15 as c15
import runs
from core import facet

PROP = "C16"
WARM = ("mesh", "horseshoe", "ring", "unsteady")

FORCE = np.array([1.0, -1.0, 1.0])
MOMENT = np.array([-1.0, 1.0, -1.0])


def flip(o):
    return dict(o, amp=-o["amp"] + 0.0)


def mirrored(model):
    out = copy.deepcopy(model)
    out["airplanes"] = [gen.mirror_airplane(a) for a in model["airplanes"]]
    out["op"]["beta"] = -model["op"]["beta"] + 0.0
    for move in out.get("moves", []):
        move["y"] = flip(move["y"])
        for wing in move["wings"]:
            wing["y"] = flip(wing["y"])
    return out


@st.composite
def cases(draw):
    """Any wings for the steady solvers. Half wings move as a whole and wings symmetric
    about an upright plane move in any way: the mirror image of a motion is then one."""
    symmetric = draw(st.booleans())
    if symmetric:
        return draw(c15.models(symmetric=True, tilt=False))
    out = draw(c15.models(symmetric=False))
    c15.still_sections(out["model"])
    for plane in out["model"]["airplanes"]:
        for wing in plane["wings"]:
            # The mirror image is listed from the tip, whose plane is then the wing's:
            # the span (and the trailing legs' length) is measured across it.
            wing["sections"][-1]["normal"] = wing["normal"]
    return out


@facet(PROP, "mirror", cases, 400, 16000, "loads at a model that is not its own mirror image")
def mirror(spec, ctx):
    kind, model = spec["kind"], spec["model"]
    a, b = runs.run(kind, model), runs.run(kind, mirrored(model))
    if runs.degenerate(a):
        ctx.skip("degenerate")
    q = 0.5 * model["op"]["rho"] * model["op"]["v"] ** 2
    active = lateral = False
    for k in range(len(model["airplanes"])):
        scale, arm = a.load_scale(k) + a.rounding(k, q), a.arm(k)
        for step, (x, y) in enumerate(zip(a.loads, b.loads)):
            ctx.require((x is None) == (y is None), "step %d has results in one of the two only" % step)
            if x is None:
                continue
            p = a.airplanes[step][k]
            want = (x[k][0] * FORCE, x[k][1] * MOMENT, x[k][2] * FORCE, x[k][3] * MOMENT)
            runs.compare_loads(ctx, "step %d" % step, y[k], want, scale, arm, (p.s_ref, p.c_ref, p.b_ref), q / 4, 1e-7)
            active = active or a.load_scale(k) > 1e-6 * q
            lateral = lateral or abs(x[k][0][1]) > 1e-6 * scale or abs(x[k][1][0]) > 1e-6 * scale * arm
    for name in ("rolls, yaws or sideslips",) if lateral else ("longitudinal only",):
        ctx.label(name)
    ctx.label(kind, "half wings" if not model["airplanes"][0]["wings"][0]["sym"] else "symmetric wings")
    ctx.nontrivial(active and lateral)


# ------------------------------------------------------------------- its own mirror image
@st.composite
def symmetric_cases(draw):
    out = draw(c15.models(symmetric=True, tilt=False, max_airplanes=1, y_offset_symmetric=False))
    model = out["model"]
    model["op"]["beta"] = 0.0
    for plane in model["airplanes"]:
        plane["ref"][1] = 0.0
        for wing in plane["wings"]:
            for section in wing["sections"]:
                section["cst"] = "symmetric"
    for move in model.get("moves", []):
        for part in [move] + move["wings"]:
            part["y"] = dict(gen.IDLE)
    return out


@facet(PROP, "symmetric", symmetric_cases, 300, 12000, "a case with loads")
def symmetric(spec, ctx):
    kind, model = spec["kind"], spec["model"]
    a = runs.run(kind, model)
    if runs.degenerate(a):
        ctx.skip("degenerate")
    q = 0.5 * model["op"]["rho"] * model["op"]["v"] ** 2
    active = False
    scale, arm = a.load_scale(0) + a.rounding(0, q), a.arm(0)
    for step, x in enumerate(a.loads):
        if x is None:
            continue
        force, moment, cf, cm = x[0]
        p = a.airplanes[step][0]
        ctx.near("side force", force[1], 0.0, atol=1e-7 * scale)
        ctx.near("rolling and yawing moment", moment[[0, 2]], [0.0, 0.0], atol=1e-7 * scale * arm)
        ctx.near("side force coefficient", cf[1], 0.0, atol=4e-7 * scale / q / p.s_ref)
        ctx.near("rolling and yawing coefficients", cm[[0, 2]], [0.0, 0.0], atol=4e-7 * scale * arm / q / p.s_ref / p.b_ref)
        active = active or a.load_scale(0) > 1e-6 * q
    for g in a.strengths:
        for wing in g[0]:
            ctx.near("strengths of the halves", wing, wing[:, ::-1], rtol=1e-7)
    ctx.label(kind)
    ctx.nontrivial(active)
