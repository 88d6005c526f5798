"""C15: results do not depend on placement, ordering or partition of the model."""

import copy

import numpy as np
from hypothesis import strategies as st

import build
import gen
import runs
from core import facet

PROP = "C15"
WARM = ("mesh", "horseshoe", "ring", "unsteady")


@st.composite
def models(draw, max_airplanes=3, unsteady_kw=None, **kw):
    kind = draw(st.sampled_from(["horseshoe", "ring", "unsteady", "unsteady"]))
    op = gen.operating_points(velocity=(4, 20))
    if kind == "unsteady":
        model = draw(
            gen.unsteady(max_airplanes=max_airplanes, num_steps=(2, 5), op=op, custom=False, final_only=None, **dict(kw, **(unsteady_kw or {}))))
    else:
        model = draw(gen.problems(max_airplanes=max_airplanes, op=op, **dict(dict(max_nc=3, max_ns=3), **kw)))
    return {"kind": kind, "model": model}


def compare(ctx, spec, other, planes, rtol, whole=True):
    """planes[k]: where the first model's airplane k is found in the other."""
    kind, model = spec["kind"], spec["model"]
    a, b = runs.run(kind, model), runs.run(kind, other)
    if runs.degenerate(a):
        ctx.skip("degenerate")
    q = 0.5 * model["op"]["rho"] * model["op"]["v"] ** 2
    ctx.require(len(a.loads) == len(b.loads), "the number of steps changed")
    active = False
    for k, m in planes.items():
        scale, arm = a.load_scale(k) + a.rounding(k, q), a.arm(k)
        for step, (x, y) in enumerate(zip(a.loads, b.loads)):
            ctx.require((x is None) == (y is None), "step %d has results in one of the two only" % step)
            if x is None:
                continue
            p = a.airplanes[step][k]
            runs.compare_loads(ctx, "step %d" % step, y[m], x[k], scale, arm, (p.s_ref, p.c_ref, p.b_ref), q / 4, rtol)
            active = active or a.load_scale(k) > 1e-6 * q
    ctx.label(kind)
    return a, b, active


def keep_references(model):
    """Reference dimensions written out, so that they do not follow the first wing."""
    out = copy.deepcopy(model)
    for plane in out["airplanes"]:
        built = build.airplane(plane)
        plane["s_ref"], plane["c_ref"], plane["b_ref"] = float(built.s_ref), float(built.c_ref), float(built.b_ref)
    return out


# -------------------------------------------------------------------------- placement
@st.composite
def placements(draw):
    out = draw(models())
    out["d"] = draw(st.lists(st.sampled_from([0.0, 3.0, -7.25, 40.0, -0.1]), min_size=3, max_size=3).filter(any))
    out["names"] = draw(st.lists(st.sampled_from(["", "Wing 0", "A\nB", "ünï", "x" * 40]), min_size=1, max_size=4))
    return out


@facet(PROP, "placement", placements, 200, 8000, "a moved or renamed model with loads")
def placement(spec, ctx):
    other = copy.deepcopy(spec["model"])
    other["airplanes"] = [gen.moved_airplane(a, spec["d"]) for a in other["airplanes"]]
    names = iter(spec["names"] * 20)
    for plane in other["airplanes"]:
        plane["name"] = next(names)
        for wing in plane["wings"]:
            wing["name"] = next(names)
    _, _, active = compare(ctx, spec, other, {k: k for k in range(len(other["airplanes"]))}, 1e-7)
    ctx.nontrivial(active)


# --------------------------------------------------------------------------- ordering
@st.composite
def orders(draw):
    out = draw(models().filter(lambda m: len(m["model"]["airplanes"]) > 1 or any(len(a["wings"]) > 1 for a in m["model"]["airplanes"])))
    count = len(out["model"]["airplanes"])
    out["planes"] = draw(st.permutations(range(count)))
    out["wings"] = [draw(st.permutations(range(len(a["wings"])))) for a in out["model"]["airplanes"]]
    return out


@facet(PROP, "ordering", orders, 240, 8000, "airplanes or wings in another order, with loads")
def ordering(spec, ctx):
    model = keep_references(spec["model"])
    other = copy.deepcopy(model)
    moves = "moves" in model
    for k, order in enumerate(spec["wings"]):
        other["airplanes"][k]["wings"] = [other["airplanes"][k]["wings"][i] for i in order]
        if moves:
            other["moves"][k]["wings"] = [other["moves"][k]["wings"][i] for i in order]
    other["airplanes"] = [other["airplanes"][i] for i in spec["planes"]]
    if moves:
        other["moves"] = [other["moves"][i] for i in spec["planes"]]
    where = {i: m for m, i in enumerate(spec["planes"])}
    _, _, active = compare(ctx, dict(spec, model=model), other, where, 1e-7)
    changed = list(spec["planes"]) != sorted(spec["planes"]) or any(list(o) != sorted(o) for o in spec["wings"])
    ctx.label("airplanes reordered" if list(spec["planes"]) != sorted(spec["planes"]) else "airplanes in order")
    ctx.nontrivial(active and changed)


# -------------------------------------------------------------------------- partition
def still_sections(model):
    for plane, move in zip(model["airplanes"], model.get("moves", [])):
        for wing, m in zip(gen.still_movement(plane)["wings"], move["wings"]):
            m["sections"] = wing["sections"]


@st.composite
def partitions(draw):
    out = draw(models(max_ns=4, same_airfoil=True, same_twist=True, section_tilts=False, spacings=("uniform",),
                      unsteady_kw={"max_ns": 4}))
    model = out["model"]
    still_sections(model)
    a = draw(st.integers(0, len(model["airplanes"]) - 1))
    w = draw(st.integers(0, len(model["airplanes"][a]["wings"]) - 1))
    wing = model["airplanes"][a]["wings"][w]
    s = draw(st.integers(0, len(wing["sections"]) - 2))
    wing["sections"][s]["ns"] = max(2, wing["sections"][s]["ns"])
    out["at"] = [a, w, s, draw(st.integers(1, wing["sections"][s]["ns"] - 1))]
    return out


@facet(PROP, "partition", partitions, 200, 8000, "a run of panels split by another cross section, with loads")
def partition(spec, ctx):
    a, w, s, j = spec["at"]
    other = copy.deepcopy(spec["model"])
    sections = other["airplanes"][a]["wings"][w]["sections"]
    left, right = sections[s], sections[s + 1]
    t = j / left["ns"]
    new = copy.deepcopy(left)
    for key in ("x", "y", "z", "chord"):
        new[key] = left[key] + t * (right[key] - left[key])
    new["ns"] = left["ns"] - j
    left["ns"] = j
    sections.insert(s + 1, new)
    still_sections(other)
    _, _, active = compare(ctx, spec, other, {k: k for k in range(len(other["airplanes"]))}, 1e-7)
    ctx.nontrivial(active)


@st.composite
def abutments(draw):
    out = draw(models(symmetric=False, deflection=False, section_tilts=False, max_sections=3, max_wings=2, max_airplanes=2))
    model = out["model"]
    still_sections(model)
    choices = [
        (a, w) for a, p in enumerate(model["airplanes"]) for w, wing in enumerate(p["wings"]) if len(wing["sections"]) > 2
    ]
    if not choices:
        wing = model["airplanes"][0]["wings"][0]
        first, second = wing["sections"]
        tip = copy.deepcopy(second)
        for key in ("x", "y", "z"):
            tip[key] = round(2 * second[key] - first[key], 12)
        wing["sections"].append(tip)
        still_sections(model)
        choices = [(0, 0)]
    out["at"] = list(draw(st.sampled_from(choices)))
    return out


@facet(PROP, "abutting wings", abutments, 200, 8000, "a wing of several cross sections split into abutting wings, with loads")
def abutting(spec, ctx):
    a, w = spec["at"]
    model = keep_references(spec["model"])
    other = copy.deepcopy(model)
    plane = other["airplanes"][a]
    wing = plane["wings"][w]
    inner, outer = copy.deepcopy(wing), copy.deepcopy(wing)
    inner["sections"] = inner["sections"][:2]
    root = outer["sections"][1]
    outer["sections"] = outer["sections"][1:]
    for axis in "xyz":
        outer[axis] = wing[axis] + root[axis]
    origin = {axis: root[axis] for axis in "xyz"}
    for section in outer["sections"]:
        for axis in "xyz":
            section[axis] = section[axis] - origin[axis]
    plane["wings"][w : w + 1] = [inner, outer]
    if "moves" in other:
        move = other["moves"][a]["wings"][w]
        pair = [copy.deepcopy(move), copy.deepcopy(move)]
        other["moves"][a]["wings"][w : w + 1] = pair
        still_sections(other)
    # The trailing legs of the steady solvers are twenty spans long: shorter ones
    # slightly change what is far behind the wing.
    rtol = 1e-7 if spec["kind"] == "unsteady" else 2e-2
    _, _, active = compare(ctx, dict(spec, model=model), other, {k: k for k in range(len(other["airplanes"]))}, rtol)
    ctx.nontrivial(active)


# ---------------------------------------------------------------------------- distance
@st.composite
def distances(draw):
    out = draw(models(max_airplanes=1))
    model = out["model"]
    far = draw(gen.airplanes(index=1, max_nc=3, max_ns=3))
    d = [draw(st.sampled_from([0.0, 50.0])), draw(st.sampled_from([-2000.0, 2000.0, 5000.0])), draw(st.sampled_from([0.0, 1500.0]))]
    far = gen.moved_airplane(far, d)
    out["far"] = far
    out["first"] = draw(st.booleans())
    return out


@facet(PROP, "far apart", distances, 160, 6000, "two airplanes with loads, far apart")
def far_apart(spec, ctx):
    model, far = spec["model"], spec["far"]
    other = copy.deepcopy(model)
    at = 0 if spec["first"] else 1
    other["airplanes"].insert(at, far)
    if "moves" in other:
        other["moves"].insert(at, gen.still_movement(far))
    _, b, active = compare(ctx, spec, other, {0: 1 - at}, 1e-5)
    alone = {k: v for k, v in model.items()}
    alone["airplanes"] = [far]
    if "moves" in alone:
        alone["moves"] = [gen.still_movement(far)]
        # Whether a step's results count depends on the motion of the whole model.
        alone["final_only"] = False
    c = runs.run(spec["kind"], alone)
    if runs.degenerate(c):
        ctx.skip("degenerate")
    q = 0.5 * model["op"]["rho"] * model["op"]["v"] ** 2
    scale, arm = c.load_scale(0) + c.rounding(0, q), c.arm(0)
    for step, (x, y) in enumerate(zip(c.loads, b.loads)):
        if y is not None:
            p = c.airplanes[step][0]
            runs.compare_loads(ctx, "far airplane", y[at], x[0], scale, arm, (p.s_ref, p.c_ref, p.b_ref), q / 4, 1e-5)
    ctx.nontrivial(active)
