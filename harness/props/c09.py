"""C09: operating point axes and dynamic pressure."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import facet, numbers

PROP = "C09"
WARM = ()

angle = st.one_of(gen.grid(-180, 180, 0.25), gen.grid(-20, 20, 0.01), st.sampled_from([0.0, 90.0, -90.0, 45.0, 180.0, 1e-9]))


def cases():
    return st.fixed_dictionaries(
        {
            "rho": st.one_of(gen.grid(0.01, 5, 0.01), st.just(1000.0)),
            "v": st.one_of(gen.grid(0.5, 400, 0.5), st.just(1e-3)),
            "alpha": angle,
            "beta": angle,
            "thrust": gen.grid(0, 100, 0.5),
            "nu": st.sampled_from([0.0, 1.5e-5, 1e-3]),
            "other": st.fixed_dictionaries({"rho": gen.grid(0.01, 5, 0.01), "v": gen.grid(0.5, 100, 0.5), "alpha": angle, "beta": angle}),
            "integers": st.booleans(),
        }
    )


def build(spec):
    import pterasoftware as ps

    return ps.operating_point.OperatingPoint(
        density=spec["rho"], velocity=spec["v"], alpha=spec["alpha"], beta=spec["beta"],
        external_thrust=spec["thrust"], nu=spec["nu"])


def state(op):
    return {
        "q": op.calculate_dynamic_pressure(),
        "matrix": op.calculate_rotation_matrix_wind_to_geometry(),
        "direction": op.calculate_freestream_direction_geometry_axes(),
        "velocity": op.calculate_freestream_velocity_geometry_axes(),
    }


def oracle(spec):
    direction = ref.freestream_direction(spec["alpha"], spec["beta"])
    return {
        "q": 0.5 * spec["rho"] * spec["v"] ** 2,
        "matrix": ref.wind_axes(spec["alpha"], spec["beta"]),
        "direction": direction,
        "velocity": direction * spec["v"],
    }


@facet(PROP, "axes", cases, 2000, 100000, "both angles are not multiples of 90 degrees")
def axes(spec, ctx):
    spec = dict(spec)
    if spec.pop("integers"):
        # Whole numbers are often written as integers.
        for key in ("rho", "v", "alpha", "beta", "thrust"):
            if float(spec[key]).is_integer():
                spec[key] = int(spec[key])
    op = build(spec)
    got, want = state(op), oracle(spec)

    def compare(got, want, what):
        for key in want:
            scale = max(1e-300, np.max(np.abs(want[key])))
            ctx.near("%s|%s" % (key, what), got[key], want[key], rtol=1e-13, atol=2e-16, scale=scale)

    compare(got, want, "")
    m = numbers("rotation matrix", got["matrix"], (3, 3))
    ctx.near("orthogonality", m @ m.T, np.eye(3), atol=1e-14)
    ctx.near("handedness", np.linalg.det(m), 1.0, atol=1e-14)
    ctx.near("direction length", np.linalg.norm(got["direction"]), 1.0, atol=1e-14)
    # The freestream blows along the negative wind x axis.
    ctx.near("freestream in wind axes", m.T @ got["direction"], [-1, 0, 0], atol=1e-14)
    for key in ("density", "velocity", "alpha", "beta", "external_thrust", "nu"):
        short = {"density": "rho", "velocity": "v", "external_thrust": "thrust"}.get(key, key)
        ctx.require(getattr(op, key) == spec[short], key + " is not what was given")
    # Changing one input after another changes only what depends on it.
    depends = {"density": ("q",), "velocity": ("q", "velocity"), "alpha": ("matrix", "direction", "velocity"),
               "beta": ("matrix", "direction", "velocity"), "external_thrust": (), "nu": ()}
    current = dict(spec)
    current.pop("other")
    before = got
    for attribute, short in (("alpha", "alpha"), ("velocity", "v"), ("external_thrust", "thrust"), ("density", "rho"), ("nu", "nu"), ("beta", "beta")):
        new = spec["other"].get(short, spec[short] + 1.5)
        setattr(op, attribute, new)
        current[short] = new
        after = state(op)
        compare(after, oracle(current), "after changing " + attribute)
        for key in after:
            if key not in depends[attribute]:
                ctx.require(np.array_equal(after[key], before[key]), "%s changed with %s" % (key, attribute))
        before = after
    # Results handed out earlier are the caller's own.
    held = op.calculate_rotation_matrix_wind_to_geometry()
    held[:] = 0
    compare(state(op), oracle(current), "after the caller changed a returned matrix")
    ctx.nontrivial(spec["alpha"] % 90 != 0 and spec["beta"] % 90 != 0)
