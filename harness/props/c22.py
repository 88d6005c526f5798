"""C22: waveforms of the oscillating quantities."""

import math

import numpy as np
from hypothesis import strategies as st

import build
import gen
from core import facet, numbers

PROP = "C22"
WARM = ("mesh",)


def triangle(phase):
    """Unit triangle wave that starts upwards from zero."""
    t = (phase / (2 * math.pi)) % 1.0
    return 4 * t if t < 0.25 else (2 - 4 * t if t < 0.75 else 4 * t - 4)


def wave(spacing, fn, phase):
    if spacing == "sine":
        return math.sin(phase)
    if spacing == "uniform":
        return triangle(phase)
    return float(build.CUSTOM_FUNCTIONS[fn](np.array([phase]))[0])


def jump_near(spacing, fn, phase):
    """Whether rounding of the phase may move it across a jump of the function."""
    t = phase / (2 * math.pi)
    if spacing != "custom":
        return False
    if fn == "ramp":
        return abs(t - round(t)) < 1e-9
    if fn == "square":
        s = (phase + 0.1) / math.pi
        return abs(s - round(s)) < 1e-9
    return False


amplitude = st.one_of(gen.grid(-30, 30, 0.25), st.just(0.0), st.sampled_from([1e-6, 1e4]))
period = st.one_of(gen.grid(0.05, 5, 0.05), st.just(0.0), st.sampled_from([1e-3, 1 / 3.0, 60.0]))


def wave_cases():
    return st.fixed_dictionaries(
        {
            "spacing": st.sampled_from(["sine", "uniform", "custom"]),
            "fn": st.sampled_from(gen.CUSTOM),
            "amp": amplitude,
            "period": period,
            "base": gen.grid(-40, 40, 0.5),
            "steps": st.sampled_from([1, 2, 3, 7, 20, 50, 133]),
            "dt": st.one_of(gen.grid(0.01, 1, 0.01), st.sampled_from([1e-4, 1 / 7.0, 2.5])),
            "commensurate": st.sampled_from([0, 0, 0, 3, 4, 8]),
        }
    )


def check_wave(ctx, what, got, base, amp, period, spacing, fn, steps, dt):
    got = numbers(what, got, (steps,))
    moving = amp != 0 and period != 0
    for k in range(steps):
        phase = 2 * math.pi * (k * dt) / period if moving else 0.0
        if moving and jump_near(spacing, fn, phase):
            continue
        want = base + (amp * wave(spacing, fn, phase) if moving else 0.0)
        # The phase is only known to relative rounding.
        slack = abs(amp) * (1e-13 + 1e-15 * abs(phase)) * 8 + 1e-14 * abs(base)
        ctx.near("%s|at sample %d" % (what, k), got[k], want, rtol=0, atol=slack + 1e-300)
        if spacing != "custom":
            ctx.require(abs(got[k] - base) <= abs(amp) * (1 + 1e-12) + 1e-12 * abs(base), "%s leaves its amplitude" % what)
    if spacing != "custom" or not moving:
        ctx.near(what + "|start", got[0], base, rtol=1e-15, atol=1e-15 * (1 + abs(amp)))


@facet(PROP, "samples", wave_cases, 3000, 100000, "non-zero amplitude and period, and at least three samples")
def samples(spec, ctx):
    import pterasoftware as ps

    m = ps.movement
    spec = dict(spec)
    if spec["commensurate"]:
        spec["period"] = spec["dt"] * spec["commensurate"]
    kw = dict(amplitude=spec["amp"], period=spec["period"], base_value=spec["base"], num_steps=spec["steps"], delta_time=spec["dt"])
    if spec["spacing"] == "sine":
        got = m.oscillating_sinspace(**kw)
    elif spec["spacing"] == "uniform":
        got = m.oscillating_linspace(**kw)
    else:
        got = m.oscillating_customspace(custom_function=build.CUSTOM_FUNCTIONS[spec["fn"]], **kw)
    check_wave(ctx, spec["spacing"] + " samples", got, spec["base"], spec["amp"], spec["period"], spec["spacing"], spec["fn"], spec["steps"], spec["dt"])
    n = spec["commensurate"]
    if n and spec["amp"] and not (spec["spacing"] == "custom" and spec["fn"] in ("ramp", "square", "slow", "linear", "decaying")):
        for k in range(spec["steps"] - n):
            ctx.near("repetition", got[k + n], got[k], rtol=0, atol=1e-11 * (abs(spec["amp"]) + abs(spec["base"])))
        ctx.label("repeats with the period")
    ctx.label(spec["spacing"], "idle" if not (spec["amp"] and spec["period"]) else "moving")
    ctx.nontrivial(bool(spec["amp"] and spec["period"]) and spec["steps"] >= 3)


# -------------------------------------------------------- the same, through the movements
def stand(sections, k, rise, turned):
    """Make the kth section upright: straight above or below its inner neighbour, such as a winglet's tip."""
    shift = sections[k]["y"] - sections[k - 1]["y"]
    for s in sections[k:]:
        s["y"] = round(s["y"] - shift, 12)
        s["z"] = round(s["z"] + rise, 12)
    sections[k]["y"] = sections[k - 1]["y"]
    if sections[k]["z"] == sections[k - 1]["z"]:
        for s in sections[k:]:
            s["z"] = round(s["z"] + 0.5, 12)
    if turned:
        sections[k]["normal"] = [0.0, 0.0, 1.0]


def motion_cases():
    @st.composite
    def make(draw):
        plane = draw(gen.airplanes(max_wings=3, max_sections=3, max_nc=1, max_ns=1, deflection=False, overrides=False, tilt=False))
        for wing in plane["wings"]:
            if draw(st.integers(0, 3)) == 0:
                stand(wing["sections"], draw(st.integers(1, len(wing["sections"]) - 1)), draw(st.sampled_from([-0.6, 0.4, 1.0])), draw(st.booleans()))
        dt = draw(gen.grid(0.01, 0.3, 0.01))
        periods = [round(dt * m, 10) for m in (2.0, 3.0, 4.5, 7.3, 20.0)]
        move = draw(gen.airplane_movements(plane, periods, still=0.3, section_still=0.3))
        return {
            "airplanes": [plane],
            "op": draw(gen.operating_points(velocity=(5, 30))),
            "moves": [move],
            "v": draw(gen.oscillation(st.one_of(gen.grid(-4, 4, 0.25), gen.grid(-60, 60, 5)), periods, False, 0.3)),
            "dt": dt,
            "steps": draw(st.integers(1, 9)),
        }

    return make()


@facet(PROP, "motions", motion_cases, 300, 8000, "at least three different quantities oscillate")
def motions(spec, ctx):
    """Every varying quantity of generated airplanes and operating points."""
    movement = build.movement(spec)
    n, dt = spec["steps"], spec["dt"]
    count = 0

    def one(what, values, base, osc):
        nonlocal count
        count += bool(osc["amp"] and osc["period"])
        check_wave(ctx, what, values, base, osc["amp"], osc["period"], osc["spacing"], osc["fn"], n, dt)

    points = movement.operating_points
    ctx.require(len(points) == n, "%d operating points for %d steps" % (len(points), n))
    one("airspeed", [p.velocity for p in points], spec["op"]["v"], spec["v"])
    for a, (plane, move) in enumerate(zip(spec["airplanes"], spec["moves"])):
        shots = movement.airplanes[a]
        ctx.require(len(shots) == n, "%d airplanes for %d steps" % (len(shots), n))
        for axis, name in enumerate("xyz"):
            one(name + "_ref", [getattr(s, name + "_ref") for s in shots], plane["ref"][axis], move[name])
        for w, (wing, wm) in enumerate(zip(plane["wings"], move["wings"])):
            for name in "xyz":
                one("wing %s_le" % name, [getattr(s.wings[w], name + "_le") for s in shots], wing[name], wm[name])
            for k, (section, sm) in enumerate(zip(wing["sections"], wm["sections"])):
                cs = [s.wings[w].wing_cross_sections[k] for s in shots]
                if k and section["y"] == wing["sections"][k - 1]["y"]:
                    # Documented: the motion of upright sections is eliminated.
                    for name in "xyz":
                        check_wave(ctx, "upright section's %s_le" % name, [getattr(c, name + "_le") for c in cs], section[name], 0, 0, "sine", None, n, dt)
                    check_wave(ctx, "upright section's twist", [c.twist for c in cs], section["twist"], 0, 0, "sine", None, n, dt)
                    ctx.label("upright section")
                    continue
                one("twist", [c.twist for c in cs], section["twist"], sm["pitch"])
                if k == 0:
                    continue
                last = [s.wings[w].wing_cross_sections[k - 1] for s in shots]
                d = np.array([[c.x_le - l.x_le, c.y_le - l.y_le, c.z_le - l.z_le] for c, l in zip(cs, last)])
                base = np.array([section[i] - wing["sections"][k - 1][i] for i in "xyz"])
                sweep0 = math.degrees(math.atan2(base[2], math.hypot(base[0], base[1])))
                heave0 = math.degrees(math.atan2(base[0], base[1]))
                length = np.linalg.norm(base)
                for i in range(n):
                    s_phase = 2 * math.pi * i * dt / sm["sweep"]["period"] if sm["sweep"]["period"] else 0.0
                    h_phase = 2 * math.pi * i * dt / sm["heave"]["period"] if sm["heave"]["period"] else 0.0
                    if jump_near(sm["sweep"]["spacing"], sm["sweep"]["fn"], s_phase) or jump_near(
                        sm["heave"]["spacing"], sm["heave"]["fn"], h_phase
                    ):
                        continue
                    s = sweep0 + (sm["sweep"]["amp"] * wave(sm["sweep"]["spacing"], sm["sweep"]["fn"], s_phase) if sm["sweep"]["period"] else 0)
                    h = heave0 + (sm["heave"]["amp"] * wave(sm["heave"]["spacing"], sm["heave"]["fn"], h_phase) if sm["heave"]["period"] else 0)
                    s, h = math.radians(s), math.radians(h)
                    want = length * np.array([math.cos(s) * math.sin(h), math.cos(s) * math.cos(h), math.sin(s)])
                    ctx.near("flapped leading edge", d[i], want, rtol=0, atol=1e-10 * length)
                count += bool(sm["sweep"]["amp"] and sm["sweep"]["period"]) + bool(sm["heave"]["amp"] and sm["heave"]["period"])
    ctx.nontrivial(count >= 3 and n >= 2)
