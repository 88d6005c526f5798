"""Hypothesis strategies for JSON-able model specs. Everything generated satisfies the
documented requirements of the package and is built by construction, not by filtering."""

import copy
import math

from hypothesis import strategies as st

NACA = ["0012", "2412", "0006", "4415", "6409", "1408", "0021", "8318", "3309"]
DATABASE = ["naca0012", "ag35", "clarky", "e63", "goe417a", "s1223", "mh45", "e214", "rae2822", "dae11"]


def grid(lo, hi, step):
    """Floats on a grid, written so that they shrink towards the value nearest zero."""
    a, b = round(lo / step), round(hi / step)
    return st.integers(a, b).map(lambda i: round(i * step, 10))


def airfoils(thin=False, points=(20, 40, 80)):
    return st.fixed_dictionaries(
        {
            "name": st.sampled_from(["naca" + n for n in (["0012", "0006"] if thin else NACA)]),
            "n": st.sampled_from(list(points)),
        }
    )


def any_airfoil():
    digits = st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(1, 40)).map(
        # A camber position is needed whenever there is camber.
        lambda d: "naca%d%d%02d" % ((d[0], max(d[1], 1), d[2]) if d[0] else (0, 0, d[2]))
    )
    return st.fixed_dictionaries(
        {"name": st.one_of(digits, st.sampled_from(DATABASE)), "n": st.sampled_from([12, 20, 40, 80, 200, 400])}
    )


def normal_of(tilt):
    """Unit normal of a plane containing the x axis, tilted from y towards z."""
    if tilt == 0:
        return [0.0, 1.0, 0.0]
    if tilt == 90:
        return [0.0, 0.0, 1.0]
    return [0.0, math.cos(math.radians(tilt)), math.sin(math.radians(tilt))]


@st.composite
def wings(
    draw,
    index=0,
    max_sections=3,
    max_nc=4,
    max_ns=3,
    symmetric=None,
    tilt=True,
    deflection=True,
    twist=8.0,
    dihedral=0.35,
    sweep=0.8,
    taper=True,
    airfoil=None,
    spacings=("uniform", "cosine"),
    offset=True,
    same_airfoil=False,
    same_twist=False,
    min_nc=1,
    section_tilts=True,
    y_offset_symmetric=True,
    min_step=0.4,
    max_step=2.0,
    fine=True,
):
    airfoil = airfoils() if airfoil is None else airfoil
    n = draw(st.integers(2, max_sections))
    sym = draw(st.booleans()) if symmetric is None else symmetric
    wing_tilt = draw(st.sampled_from([0, 0, 0, 90, 30, -20])) if tilt else 0
    normal = normal_of(wing_tilt)
    span_axis = normal
    up_axis = [0.0, -normal[2], normal[1]]  # x axis cross normal
    root_chord = draw(grid(0.5, 2.0, 0.05))
    first_airfoil = draw(airfoil)
    first_twist = draw(grid(-twist, twist, 0.5)) if twist else 0.0
    position = [0.0, 0.0, 0.0]
    chord = root_chord
    sections = []
    for k in range(n):
        if k:
            step = draw(grid(min_step, max_step, 0.05))
            back = draw(grid(-0.3 * sweep, sweep, 0.05)) if sweep else 0.0
            rise = draw(grid(-dihedral, dihedral, 0.05)) if dihedral else 0.0
            position = [
                round(position[i] + (back if i == 0 else 0.0) + step * span_axis[i] + rise * up_axis[i], 12)
                for i in range(3)
            ]
            if taper:
                chord = round(root_chord * draw(grid(0.3, 1.2, 0.05)), 10)
        section_tilt = wing_tilt
        if k and section_tilts and tilt and draw(st.integers(0, 4)) == 0:
            section_tilt = wing_tilt + draw(st.sampled_from([-20, 15, 30]))
        sections.append(
            {
                "af": first_airfoil if (k == 0 or same_airfoil) else draw(airfoil),
                "x": position[0],
                "y": position[1],
                "z": position[2],
                "chord": chord,
                "normal": normal if section_tilt == wing_tilt else normal_of(section_tilt),
                "twist": first_twist if (k == 0 or same_twist) else (draw(grid(-twist, twist, 0.5)) if twist else 0.0),
                "cst": draw(st.sampled_from(["symmetric", "asymmetric"])),
                "hinge": draw(grid(0.3, 0.9, 0.05)),
                "defl": draw(st.one_of(st.just(0.0), grid(-25, 25, 1.0))) if deflection else 0.0,
                "ns": draw(st.integers(1, max_ns)) if k < n - 1 else draw(st.sampled_from([1, 8])),
                "sp": draw(st.sampled_from(list(spacings))),
            }
        )
    lateral = 0.0
    if offset and (not sym or y_offset_symmetric):
        lateral = draw(grid(-0.5, 0.5, 0.1))
    chordwise_panels = draw(st.integers(min_nc, max_nc))
    # Now and then a wing of many panels.
    many = fine and draw(st.integers(0, 11)) == 11
    if many and max_nc >= 3:
        chordwise_panels = draw(st.integers(max_nc, 9))
    if many and max_ns >= 3:
        sections[draw(st.integers(0, n - 2))]["ns"] = draw(st.integers(max_ns, 11))
    return {
        "name": "Wing %d" % index,
        "sections": sections,
        # Wings of one airplane sit well apart from each other.
        "x": round((draw(grid(-0.5, 0.5, 0.1)) if offset else 0.0) + 5.0 * index, 10),
        "y": lateral,
        "z": round((draw(grid(-0.5, 0.5, 0.1)) if offset else 0.0) + 1.3 * index, 10),
        "normal": normal,
        "chordwise": [1.0, 0.0, 0.0],
        "sym": sym,
        "nc": chordwise_panels,
        "cs": draw(st.sampled_from(list(spacings))),
    }


@st.composite
def airplanes(draw, index=0, max_wings=3, overrides=True, refs=True, **kw):
    count = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 3] if max_wings >= 3 else [1, 1, 2] if max_wings == 2 else [1]))
    spec = {
        "name": "Plane %d" % index,
        "wings": [draw(wings(index=k, **kw)) for k in range(count)],
        "ref": [draw(grid(-1, 1, 0.1)) for _ in range(3)] if refs else [0.0, 0.0, 0.0],
        "weight": draw(grid(0, 50, 2.5)),
        "s_ref": None,
        "c_ref": None,
        "b_ref": None,
    }
    if overrides:
        for key, hi in (("s_ref", 6.0), ("c_ref", 2.0), ("b_ref", 6.0)):
            spec[key] = draw(st.one_of(st.none(), st.none(), grid(0.5, hi, 0.25)))
    # Airplanes sit well apart from each other.
    if index:
        shift = [round(draw(grid(-2, 2, 0.5)), 10), 14.0 * index, round(draw(grid(-2, 2, 0.5)), 10)]
        for wing in spec["wings"]:
            wing["x"], wing["y"], wing["z"] = (
                round(wing["x"] + shift[0], 10), round(wing["y"] + shift[1], 10), round(wing["z"] + shift[2], 10))
        spec["ref"] = [round(a + b, 10) for a, b in zip(spec["ref"], shift)]
    return spec


def operating_points(alpha=12.0, beta=12.0, velocity=(1, 40)):
    return st.fixed_dictionaries(
        {
            "rho": grid(0.2, 3.0, 0.05),
            "v": grid(velocity[0], velocity[1], 0.5),
            "alpha": grid(-alpha, alpha, 0.5),
            "beta": st.one_of(st.just(0.0), grid(-beta, beta, 0.5)) if beta else st.just(0.0),
            "thrust": grid(0, 5, 0.5),
            "nu": st.sampled_from([0.0, 1.506e-5, 1e-3]),
        }
    )


@st.composite
def problems(draw, max_airplanes=2, op=None, **kw):
    count = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 3] if max_airplanes >= 3 else [1, 1, 1, 2] if max_airplanes == 2 else [1]))
    return {
        "airplanes": [draw(airplanes(index=k, **kw)) for k in range(count)],
        "op": draw(op if op is not None else operating_points()),
    }


# ------------------------------------------------------------------------- movements
WAVES = ["sine", "uniform"]
CUSTOM = ["cos", "sin3", "square", "tanh", "ramp", "slow", "linear", "decaying"]


def oscillation(amplitude, periods, custom=False, still=0.5):
    """{'amp','period','spacing','fn'}; roughly `still` of them do not move."""
    moving = st.fixed_dictionaries(
        {
            "amp": amplitude,
            "period": st.sampled_from(periods),
            "spacing": st.sampled_from(WAVES + (["custom"] if custom else [])),
            "fn": st.sampled_from(CUSTOM),
        }
    )
    idle = st.fixed_dictionaries(
        {"amp": st.just(0.0), "period": st.just(0.0), "spacing": st.sampled_from(WAVES), "fn": st.just("cos")}
    )
    choice = st.integers(0, 99)

    @st.composite
    def build(draw):
        return draw(idle if draw(choice) < 100 * still else moving)

    return build()


IDLE = {"amp": 0.0, "period": 0.0, "spacing": "sine", "fn": "cos"}


@st.composite
def wing_movements(draw, wing, periods, still=0.6, section_still=0.5, custom=True, small=False, axes="xyz"):
    pos = 0.1 if small else 0.5
    ang = 4.0 if small else 20.0
    sections = []
    for k, _ in enumerate(wing["sections"]):
        sections.append(
            {
                "sweep": dict(IDLE) if k == 0 else draw(oscillation(grid(-ang, ang, 0.5), periods, custom, section_still)),
                "pitch": draw(oscillation(grid(-ang, ang, 0.5), periods, custom, section_still)),
                "heave": dict(IDLE) if k == 0 else draw(oscillation(grid(-ang, ang, 0.5), periods, custom, section_still)),
            }
        )
    return {
        "x": draw(oscillation(grid(-pos, pos, 0.02), periods, False, still)) if "x" in axes else dict(IDLE),
        "y": draw(oscillation(grid(-pos, pos, 0.02), periods, False, still)) if "y" in axes else dict(IDLE),
        "z": draw(oscillation(grid(-pos, pos, 0.02), periods, False, still)) if "z" in axes else dict(IDLE),
        "sections": sections,
    }


@st.composite
def airplane_movements(draw, airplane, periods, still=0.6, section_still=0.5, custom=True, small=False, axes="xyz"):
    return {
        "wings": [
            draw(wing_movements(w, periods, still, section_still, custom, small, axes)) for w in airplane["wings"]
        ],
        "x": draw(oscillation(grid(-0.5, 0.5, 0.05), periods, False, 0.7)) if "x" in axes else dict(IDLE),
        "y": draw(oscillation(grid(-0.5, 0.5, 0.05), periods, False, 0.7)) if "y" in axes else dict(IDLE),
        "z": draw(oscillation(grid(-0.5, 0.5, 0.05), periods, False, 0.7)) if "z" in axes else dict(IDLE),
    }


@st.composite
def unsteady(
    draw,
    max_airplanes=1,
    static=None,
    num_steps=(3, 6),
    free=None,
    small=True,
    final_only=False,
    custom=True,
    op=None,
    axes="xyz",
    velocity_moves=True,
    dt=(0.02, 0.1),
    **kw,
):
    kw.setdefault("max_nc", 2)
    kw.setdefault("max_ns", 2)
    kw.setdefault("min_nc", 1)
    base = draw(problems(max_airplanes=max_airplanes, op=op if op is not None else operating_points(velocity=(4, 20)), **kw))
    is_static = draw(st.sampled_from([True, False, False, False])) if static is None else static
    step = draw(grid(dt[0], dt[1], 0.01))
    periods = [round(step * m, 10) for m in (3.0, 4.0, 5.5, 7.3)]
    if is_static:
        moves = [still_movement(a) for a in base["airplanes"]]
        v = dict(IDLE)
    else:
        moves = [draw(airplane_movements(a, periods, custom=custom, small=small, axes=axes)) for a in base["airplanes"]]
        v = (
            draw(oscillation(grid(-1.5, 1.5, 0.25), periods, False, 0.6)) if velocity_moves else dict(IDLE)
        )
    return {
        "airplanes": base["airplanes"],
        "op": base["op"],
        "moves": moves,
        "v": v,
        "dt": step,
        "steps": draw(st.integers(*num_steps)),
        "prescribed": (draw(st.booleans()) if free is None else not free),
        "final_only": draw(st.booleans()) if final_only is None else final_only,
    }


def similar(model, kv, kr, kl):
    """The dimensionally similar problem with other speeds, densities and lengths."""
    out = copy.deepcopy(model)
    out["airplanes"] = [scaled_airplane(a, kl) for a in model["airplanes"]]
    op = out["op"]
    op["v"] *= kv
    op["rho"] *= kr
    # Equal Reynolds numbers.
    op["nu"] *= kv * kl
    if "moves" in model:
        kt = kl / kv
        out["dt"] = model["dt"] * kt

        def osc(o, k):
            o["amp"] *= k
            o["period"] *= kt

        osc(out["v"], kv)
        for plane in out["moves"]:
            for axis in "xyz":
                osc(plane[axis], kl)
            for wing in plane["wings"]:
                for axis in "xyz":
                    osc(wing[axis], kl)
                for section in wing["sections"]:
                    for angle in ("sweep", "pitch", "heave"):
                        osc(section[angle], 1.0)
    return out


def still_movement(airplane):
    return {
        "wings": [
            {
                "x": dict(IDLE), "y": dict(IDLE), "z": dict(IDLE),
                "sections": [
                    {"sweep": dict(IDLE), "pitch": dict(IDLE), "heave": dict(IDLE)} for _ in w["sections"]
                ],
            }
            for w in airplane["wings"]
        ],
        "x": dict(IDLE), "y": dict(IDLE), "z": dict(IDLE),
    }


def max_period(moves, v):
    out = [v["period"]]
    for m in moves:
        out += [m[a]["period"] for a in "xyz"]
        for w in m["wings"]:
            out += [w[a]["period"] for a in "xyz"]
            for s in w["sections"]:
                out += [s[a]["period"] for a in ("sweep", "pitch", "heave")]
    return max(out)


def max_period_of(spec):
    return max_period(spec["moves"], spec["v"])


# -------------------------------------------------------------- changes of a definition
def rotations24():
    """All rotations that permute the axes, as matrices of whole numbers."""
    import itertools

    out = []
    for perm in itertools.permutations(range(3)):
        for signs in itertools.product((1, -1), repeat=3):
            m = [[signs[r] if perm[r] == c else 0 for c in range(3)] for r in range(3)]
            det = (
                m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
                - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
            )
            if det == 1:
                out.append(m)
    out.sort(key=lambda m: [-m[k][k] for k in range(3)])
    return out


ROTATIONS = rotations24()


def turn(m, p):
    # "+ 0.0" turns negative zeros into zeros.
    return [sum(m[r][c] * p[c] for c in range(3)) + 0.0 for r in range(3)]


def turned_wing(wing, m):
    """The same wing with all of its axes permuted."""
    out = dict(wing)
    out["x"], out["y"], out["z"] = turn(m, [wing["x"], wing["y"], wing["z"]])
    out["normal"], out["chordwise"] = turn(m, wing["normal"]), turn(m, wing["chordwise"])
    out["sections"] = []
    for s in wing["sections"]:
        t = dict(s)
        t["x"], t["y"], t["z"] = turn(m, [s["x"], s["y"], s["z"]])
        t["normal"] = turn(m, s["normal"])
        out["sections"].append(t)
    return out


def mirror_vector(p):
    return [p[0], -p[1] + 0.0, p[2]]


def mirror_wing(wing):
    """The mirror image across the x-z plane of a wing whose chordwise vector has no y
    component. Half wings are listed from the other end, so that their panels keep
    running from left to right."""
    out = dict(wing)
    if wing["sym"]:
        # The symmetry plane's normal may keep pointing right only if it is +-y.
        assert wing["normal"] == [0.0, 1.0, 0.0]
        out["y"] = -wing["y"] + 0.0
        out["sections"] = []
        for s in wing["sections"]:
            t = dict(s)
            # The defined half stays on the right: left and right halves swap roles,
            # which only matters for asymmetric control surfaces.
            if s["cst"] == "asymmetric":
                t["defl"] = -s["defl"] + 0.0
            out["sections"].append(t)
        return out
    sections = wing["sections"]
    tip = sections[-1]
    new = []
    count = len(sections)
    for k in range(count - 1, -1, -1):
        s = sections[k]
        t = dict(s)
        t["x"], t["y"], t["z"] = (
            s["x"] - tip["x"] + 0.0,
            -(s["y"] - tip["y"]) + 0.0,
            s["z"] - tip["z"] + 0.0,
        )
        n = mirror_vector(s["normal"])
        t["normal"] = [-n[0] + 0.0, -n[1] + 0.0, -n[2] + 0.0]
        # Panels and control surface of the span between sections k - 1 and k.
        owner = sections[k - 1] if k else sections[-1]
        for key in ("ns", "sp", "hinge", "defl", "cst"):
            t[key] = owner[key]
        new.append(t)
    out["sections"] = new
    out["x"], out["y"], out["z"] = wing["x"] + tip["x"], -(wing["y"] + tip["y"]) + 0.0, wing["z"] + tip["z"]
    out["normal"] = new[0]["normal"]
    return out


def mirror_airplane(plane):
    out = dict(plane)
    out["wings"] = [mirror_wing(w) for w in plane["wings"]]
    out["ref"] = mirror_vector(plane["ref"])
    return out


def scaled_wing(wing, k):
    out = dict(wing)
    for axis in "xyz":
        out[axis] = wing[axis] * k
    out["sections"] = []
    for s in wing["sections"]:
        t = dict(s)
        for key in ("x", "y", "z", "chord"):
            t[key] = s[key] * k
        out["sections"].append(t)
    return out


def scaled_airplane(plane, k):
    out = dict(plane)
    out["wings"] = [scaled_wing(w, k) for w in plane["wings"]]
    out["ref"] = [v * k for v in plane["ref"]]
    for key, power in (("s_ref", 2), ("c_ref", 1), ("b_ref", 1)):
        if plane[key] is not None:
            out[key] = plane[key] * k**power
    return out


def moved_wing(wing, d):
    out = dict(wing)
    for axis, v in zip("xyz", d):
        out[axis] = wing[axis] + v
    return out


def moved_airplane(plane, d):
    out = dict(plane)
    out["wings"] = [moved_wing(w, d) for w in plane["wings"]]
    out["ref"] = [a + b for a, b in zip(plane["ref"], d)]
    return out
