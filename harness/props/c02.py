"""C02: vortex objects under histories of updates, against a record-keeping model."""

import numpy as np
from hypothesis import strategies as st

import gen
from core import facet

PROP = "C02"
WARM = ("mesh",)

coordinate = st.integers(-80, 80).map(lambda i: i / 16.0)
position = st.lists(coordinate, min_size=3, max_size=3)
strength = st.one_of(gen.grid(-50, 50, 0.5), st.sampled_from([0.0, 1e-9, -1e6]))
RING = ("front_left_vertex", "front_right_vertex", "back_left_vertex", "back_right_vertex")


@st.composite
def histories(draw):
    count = draw(st.integers(1, 4))
    objects = []
    for _ in range(count):
        kind = draw(st.sampled_from(["ring", "ring", "horseshoe", "line"]))
        n = {"ring": 4, "horseshoe": 3, "line": 2}[kind]
        objects.append(
            {"kind": kind, "v": [draw(position) for _ in range(n)], "g": draw(strength),
             "length": draw(gen.grid(0.5, 200, 0.5)), "shared": draw(st.booleans())}
        )
    steps = []
    for _ in range(draw(st.integers(1, 25))):
        steps.append(
            {
                "who": draw(st.integers(0, count - 1)),
                "op": draw(st.sampled_from(["strength", "strength", "position", "position", "age", "partial"])),
                "g": draw(strength),
                "v": [draw(position) for _ in range(4)],
                "keep": draw(st.lists(st.booleans(), min_size=4, max_size=4)),
                "age": draw(gen.grid(0, 4, 0.25)),
            }
        )
    return {"objects": objects, "steps": steps}


class Model:
    def __init__(self, spec):
        self.kind = spec["kind"]
        self.g = spec["g"]
        self.age = 0
        v = [np.array(p) for p in spec["v"]]
        if self.kind == "ring":
            self.v = dict(zip(RING, v))
        else:
            self.v = v
        self.length = spec["length"]

    def legs(self):
        """name -> (origin, end)"""
        if self.kind == "ring":
            fl, fr, bl, br = (self.v[n] for n in RING)
            return {"front_leg": (fr, fl), "left_leg": (fl, bl), "back_leg": (bl, br), "right_leg": (br, fr)}
        if self.kind == "horseshoe":
            right, left, direction = self.v
            return {
                "right_leg": (right + direction * self.length, right),
                "finite_leg": (right, left),
                "left_leg": (left, left + direction * self.length),
            }
        return {}


def build(spec, pool):
    import pterasoftware as ps

    a = ps.aerodynamics

    def vector(p):
        # Neighbouring vortices are often built from the same arrays.
        if spec["shared"]:
            return pool.setdefault(tuple(p), np.array(p, dtype=float))
        return np.array(p, dtype=float)

    v = [vector(p) for p in spec["v"]]
    if spec["kind"] == "ring":
        return a.RingVortex(**dict(zip(RING, v)), strength=spec["g"])
    if spec["kind"] == "horseshoe":
        return a.HorseshoeVortex(
            finite_leg_origin=v[0], finite_leg_termination=v[1], strength=spec["g"],
            infinite_leg_direction=v[2], infinite_leg_length=spec["length"])
    return a.LineVortex(origin=v[0], termination=v[1], strength=spec["g"])


def compare(ctx, thing, model, when):
    def near(what, actual, expected):
        ctx.near("%s|%s of the %s" % (what, when, model.kind), actual, expected, rtol=1e-12, atol=1e-12)

    def line(name, vortex, origin, end):
        near(name + " origin", vortex.origin, origin)
        near(name + " termination", vortex.termination, end)
        near(name + " vector", vortex.vector, end - origin)
        near(name + " center", vortex.center, 0.5 * (origin + end))
        near(name + " strength", vortex.strength, model.g)

    near("strength", thing.strength, model.g)
    if model.kind == "line":
        line("line", thing, *model.v)
        return
    for name, (origin, end) in model.legs().items():
        line(name, getattr(thing, name), origin, end)
    if model.kind == "ring":
        for name in RING:
            near(name, getattr(thing, name), model.v[name])
        near("center", thing.center, sum(model.v[n] for n in RING) / 4)
        near("age", thing.age, model.age)
        ring = [thing.front_leg, thing.left_leg, thing.back_leg, thing.right_leg]
        for one, following in zip(ring, ring[1:] + ring[:1]):
            ctx.require(np.array_equal(one.termination, following.origin), "the ring's legs do not run head to tail " + when)
    else:
        chain = [thing.right_leg, thing.finite_leg, thing.left_leg]
        for one, following in zip(chain, chain[1:]):
            ctx.require(np.array_equal(one.termination, following.origin), "the horseshoe's legs do not run head to tail " + when)
        near("finite_leg_origin", thing.finite_leg_origin, model.v[0])
        near("finite_leg_termination", thing.finite_leg_termination, model.v[1])


@facet(
    PROP, "history", histories, 1500, 40000,
    "a position update and a strength update of the same ring, with another object alive",
)
def history(spec, ctx):
    pool = {}
    things = [build(o, pool) for o in spec["objects"]]
    models = [Model(o) for o in spec["objects"]]
    for thing, model in zip(things, models):
        compare(ctx, thing, model, "when built")
    seen = {}
    for number, step in enumerate(spec["steps"]):
        thing, model = things[step["who"]], models[step["who"]]
        when = "after step %d (%s)" % (number, step["op"])
        if model.kind == "line":
            continue
        if step["op"] == "strength":
            thing.update_strength(strength=step["g"])
            model.g = step["g"]
        elif step["op"] == "age" and model.kind == "ring":
            thing.age += step["age"]
            model.age += step["age"]
        elif step["op"] in ("position", "partial") and model.kind == "ring":
            new = {}
            for name, p, keep in zip(RING, step["v"], step["keep"]):
                # The documented arguments are all four vertices; some may not change.
                stay = step["op"] == "partial" and keep
                new[name] = model.v[name] if stay else np.array(p)
            thing.update_position(**{k: np.array(v) for k, v in new.items()})
            model.v = new
        seen.setdefault(step["who"], set()).add("position" if step["op"] == "partial" else step["op"])
        # Every object, so that no update leaks into another one.
        for k, (t, m) in enumerate(zip(things, models)):
            compare(ctx, t, m, when + (" of another vortex" if k != step["who"] else ""))
    ctx.label(*{o["kind"] for o in spec["objects"]})
    ctx.nontrivial(
        len(things) > 1
        and any(models[k].kind == "ring" and {"position", "strength"} <= ops for k, ops in seen.items())
    )
