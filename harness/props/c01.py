"""C01: the induced velocity functions against the Biot-Savart field."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import facet, numbers

PROP = "C01"
WARM = ("vortex",)

# For every shape: the order of the polyline's corners, and the public functions.
CORNERS = ("back_right", "front_right", "front_left", "back_left")


def functions():
    import pterasoftware as ps

    return ps.aerodynamics


def call(kind, form, points, corners, strengths, ages, nu, chordwise=False):
    a = functions()
    kw = dict(points=points, strengths=strengths)
    if ages is not None:
        kw["ages"] = ages
        kw["nu"] = nu
    if kind == "line":
        kw["origins"], kw["terminations"] = corners[:, 0].copy(), corners[:, 1].copy()
        return getattr(a, form + "_velocities_from_line_vortices")(**kw)
    for k, name in enumerate(CORNERS):
        kw[name + "_vortex_vertices"] = corners[:, k].copy()
    if kind == "horseshoe":
        return getattr(a, form + "_velocities_from_horseshoe_vortices")(**kw)
    if chordwise:
        return a.collapsed_velocities_from_ring_vortices_chordwise_segments(**kw)
    return getattr(a, form + "_velocities_from_ring_vortices")(**kw)


LEGS = {"line": [(0, 1)], "horseshoe": [(0, 1), (1, 2), (2, 3)], "ring": [(0, 1), (1, 2), (2, 3), (3, 0)]}


def warm():
    rng = np.random.RandomState(0)
    points, strengths, ages = rng.rand(2, 3), rng.rand(2), rng.rand(2)
    for kind, n in (("line", 2), ("horseshoe", 4), ("ring", 4)):
        corners = rng.rand(2, n, 3)
        for form in ("collapsed", "expanded"):
            call(kind, form, points, corners, strengths, None, 0.0)
            call(kind, form, points, corners, strengths, ages, 1e-5)
    corners = rng.rand(2, 4, 3)
    call("ring", "collapsed", points, corners, strengths, None, 0.0, chordwise=True)
    call("ring", "collapsed", points, corners, strengths, ages, 1e-5, chordwise=True)


coordinate = st.integers(-40, 40).map(lambda i: i / 8.0)
position = st.lists(coordinate, min_size=3, max_size=3)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["line", "horseshoe", "ring"]))
    corners = 2 if kind == "line" else 4
    count = draw(st.sampled_from([1, 1, 2, 3, 5]))
    size = draw(st.sampled_from([1.0, 1.0, 1.0, 0.001, 100.0]))
    vortices = []
    for _ in range(count):
        if kind == "line" or draw(st.booleans()):
            vertices = [draw(position) for _ in range(corners)]
        else:
            # A wing-like vortex: a bound leg and two legs running back.
            p, span = draw(position), draw(st.integers(1, 16)) / 8.0
            back = draw(st.sampled_from([0.25, 1.0, 8.0, 400.0]))
            skew = draw(st.integers(-4, 4)) / 8.0
            right = [p[0], p[1] + span, p[2]]
            vertices = [
                [right[0] + back, right[1], right[2] + skew * back],
                right,
                p,
                [p[0] + back, p[1], p[2] + skew * back],
            ]
        strength = draw(st.one_of(gen.grid(-20, 20, 0.25), st.sampled_from([0.0, 1e-6, -300.0, 1e4])))
        age = draw(st.one_of(st.just(0.0), gen.grid(0, 3, 0.05), st.sampled_from([1e-4, 50.0])))
        vortices.append({"v": vertices, "g": strength, "age": age})
    points = []
    for _ in range(draw(st.integers(1, 6))):
        mode = draw(st.sampled_from(["free", "free", "vertex", "on", "extension", "near", "near extension", "far"]))
        if mode in ("free", "far"):
            p = draw(position)
            points.append({"mode": mode, "p": p})
            continue
        points.append(
            {
                "mode": mode,
                "vortex": draw(st.integers(0, count - 1)),
                "leg": draw(st.integers(0, len(LEGS[kind]) - 1)),
                "t": draw(st.integers(1, 7)) / 8.0,
                "off": draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6])),
                "dir": draw(st.integers(0, 2)),
            }
        )
    return {
        "kind": kind,
        "size": size,
        "vortices": vortices,
        "points": points,
        "aged": draw(st.booleans()),
        "nu": draw(st.sampled_from([0.0, 1.5e-5, 1e-3, 0.1])),
    }


def build(spec):
    size = spec["size"]
    corners = np.array([v["v"] for v in spec["vortices"]], dtype=float) * size
    legs = LEGS[spec["kind"]]
    points = []
    for p in spec["points"]:
        if p["mode"] == "free":
            points.append(np.array(p["p"]) * size)
        elif p["mode"] == "far":
            points.append(np.array(p["p"]) * size * 1000.0)
        else:
            a, b = (corners[p["vortex"], k] for k in legs[p["leg"]])
            if p["mode"] == "vertex":
                points.append(a.copy())
            elif p["mode"] == "on":
                points.append(a + p["t"] * (b - a))
            elif p["mode"] == "extension":
                points.append(a + (1.0 + 8 * p["t"]) * (b - a))
            else:
                q = a + (p["t"] if p["mode"] == "near" else 1.0 + 8 * p["t"]) * (b - a)
                off = np.zeros(3)
                off[p["dir"]] = p["off"] * size
                points.append(q + off)
    return np.array(points, dtype=float), corners


def reference(spec, points, corners, strengths, ages, nu, which=None):
    """Per-vortex velocities, error bounds and undecidable pairs."""
    shape = (len(points), len(corners))
    total = np.zeros(shape + (3,), dtype=np.longdouble)
    bound = np.zeros(shape)
    unclear = np.zeros(shape, dtype=bool)
    core = ref.core_radius(strengths, ages, nu) if ages is not None else np.zeros(len(strengths))
    for i, j in which or LEGS[spec["kind"]]:
        a, b = corners[:, i], corners[:, j]
        total += ref.segment_velocities(points, a, b, strengths, core, dtype=np.longdouble)
        unclear |= ref.near_cutoff(points, a, b)
        ra = np.linalg.norm(points[:, None] - a[None], axis=-1)
        rb = np.linalg.norm(points[:, None] - b[None], axis=-1)
        # An endpoint within rounding of the point.
        unclear |= ((ra > 0) & (ra < 1e-13)) | ((rb > 0) & (rb < 1e-13))
        n2 = np.sum(np.cross(points[:, None] - a[None], points[:, None] - b[None]) ** 2, axis=-1)
        c = (np.linalg.norm(b - a, axis=-1) * core)[None] ** 2
        alive = n2 >= ref.EPS / 50
        with np.errstate(all="ignore"):
            size = np.abs(strengths)[None] / (4 * np.pi) * (ra + rb) * ra * rb / (n2 + c)
        bound += np.where(alive, size, 0.0)
    return total.astype(float), 2000 * ref.EPS * bound + 1e-300, unclear


@facet(
    PROP, "field", cases, 4000, 120000,
    "several legs act on at least one point off their axes, and at least one strength is not zero",
)
def field(spec, ctx):
    points, corners = build(spec)
    strengths = np.array([v["g"] for v in spec["vortices"]], dtype=float)
    ages = np.array([v["age"] for v in spec["vortices"]], dtype=float) if spec["aged"] else None
    nu = spec["nu"] if spec["aged"] else 0.0
    expected, tolerance, unclear = reference(spec, points, corners, strengths, ages, nu)
    shape = (len(points), len(strengths))
    inputs = [x.copy() for x in (points, corners, strengths)]
    expanded = numbers("expanded velocities", call(spec["kind"], "expanded", points, corners, strengths, ages, nu), shape + (3,))
    collapsed = numbers("collapsed velocities", call(spec["kind"], "collapsed", points, corners, strengths, ages, nu), (shape[0], 3))
    error = np.max(np.abs(expanded - expected), axis=-1) / tolerance
    error[unclear] = 0.0
    worst = np.unravel_index(int(np.argmax(error)), error.shape)
    ctx.require(
        error[worst] <= 1,
        "velocity at point %d from vortex %d is %r, expected %r"
        % (worst[0], worst[1], expanded[worst].tolist(), expected[worst].tolist()),
    )
    ctx.ratios["expanded"] = float(error[worst])
    sums = np.max(np.abs(collapsed - expected.sum(axis=1)), axis=-1) / (2 * tolerance.sum(axis=1))
    sums[unclear.any(axis=1)] = 0.0
    worst = int(np.argmax(sums))
    ctx.require(
        sums[worst] <= 1,
        "summed velocity at point %d is %r, expected %r"
        % (worst, collapsed[worst].tolist(), expected.sum(axis=1)[worst].tolist()),
    )
    both = np.max(np.abs(collapsed - expanded.sum(axis=1)), axis=-1) / (2 * tolerance.sum(axis=1))
    both[unclear.any(axis=1)] = 0.0
    ctx.require(np.max(both) <= 1, "the summed form differs from the sum of the per-vortex form")
    if spec["kind"] == "ring":
        part, tol, dark = reference(spec, points, corners, strengths, ages, nu, which=[(0, 1), (2, 3)])
        chord = numbers(
            "chordwise velocities",
            call("ring", "collapsed", points, corners, strengths, ages, nu, chordwise=True), (shape[0], 3))
        error = np.max(np.abs(chord - part.sum(axis=1)), axis=-1) / (2 * tol.sum(axis=1))
        error[dark.any(axis=1)] = 0.0
        ctx.require(np.max(error) <= 1, "velocity from the chordwise legs of the rings is wrong")
    # Points on a filament or its extension see nothing of it.
    if spec["kind"] == "line":
        for k, p in enumerate(spec["points"]):
            if p["mode"] in ("vertex", "on", "extension") and not unclear[k, p["vortex"]]:
                ctx.require(
                    np.all(expanded[k, p["vortex"]] == 0.0), "a point on the line of a filament is induced a velocity by it")
                ctx.label("on the axis")
    for old, new in zip(inputs, (points, corners, strengths)):
        ctx.require(np.array_equal(old, new), "the function changed its inputs")
    ctx.label(spec["kind"], *{p["mode"] for p in spec["points"]})
    if spec["aged"]:
        ctx.label("with core")
    ctx.nontrivial(bool(np.any(np.abs(expected) > 0)) and len(expected) > 0 and np.any(strengths != 0))


# --------------------------------------------------------------- quadrature of the law
@st.composite
def integral_cases(draw):
    return {
        "a": draw(position),
        "b": draw(position),
        "g": draw(gen.grid(-20, 20, 0.25)),
        "points": [draw(position) for _ in range(draw(st.integers(1, 5)))],
    }


NODES, WEIGHTS = np.polynomial.legendre.leggauss(40)


@facet(PROP, "integral", integral_cases, 600, 20000, "a point well off a filament of non-zero strength and length")
def integral(spec, ctx):
    """The Biot-Savart law itself, integrated along the filament with Gauss quadrature."""
    a, b = np.array(spec["a"]), np.array(spec["b"])
    length = np.linalg.norm(b - a)
    points = np.array(spec["points"])
    expected = np.zeros_like(points)
    usable = np.zeros(len(points), dtype=bool)
    for k, p in enumerate(points):
        if length == 0:
            continue
        # Pieces short against the distance make the quadrature exact.
        t = np.clip((p - a) @ (b - a) / length**2, 0, 1)
        distance = np.linalg.norm(p - a - t * (b - a))
        if distance < 0.05 * length or np.linalg.norm(np.cross(p - a, b - a)) < 1e-3 * length:
            continue
        usable[k] = True
        edges = np.linspace(0, 1, int(np.ceil(2 * length / distance)) + 1)
        for lo, hi in zip(edges[:-1], edges[1:]):
            s = lo + (hi - lo) * (NODES + 1) / 2
            r = p - (a + s[:, None] * (b - a))
            f = np.cross(b - a, r) / np.linalg.norm(r, axis=1)[:, None] ** 3
            expected[k] += spec["g"] / (4 * np.pi) * (WEIGHTS * (hi - lo) / 2) @ f
    got = call("line", "collapsed", points, np.array([[a, b]]), np.array([float(spec["g"])]), None, 0.0)
    for k in np.flatnonzero(usable):
        ctx.near("velocity", got[k], expected[k], rtol=1e-9, scale=np.abs(expected[k]).max())
    ctx.nontrivial(usable.any() and spec["g"] != 0)


# -------------------------------------------------------------------- similarity of the law
@facet(PROP, "relations", cases, 600, 20000, "the field is not identically zero")
def relations(spec, ctx):
    """Superposition and closed-loop relations that need no formula."""
    points, corners = build(spec)
    kind = spec["kind"]
    g = np.array([v["g"] for v in spec["vortices"]], dtype=float)
    expected, tolerance, unclear = reference(spec, points, corners, g, None, 0.0)
    ok = ~unclear.any(axis=1)
    bound = 4 * tolerance.sum(axis=1)[:, None]
    base = call(kind, "collapsed", points, corners, g, None, 0.0)

    def same(what, got, want):
        error = (np.abs(got - want) / bound)[ok]
        ctx.require(error.size == 0 or np.max(error) <= 1, what)

    same("doubling strengths does not double the velocity", call(kind, "collapsed", points, corners, 2 * g, None, 0.0), 2 * base)
    same("reversing the vertices does not reverse the velocity",
         call(kind, "collapsed", points, corners[:, ::-1].copy(), g, None, 0.0), -base)
    order = np.arange(len(g))[::-1]
    same("the order of the vortices matters", call(kind, "collapsed", points, corners[order], g[order], None, 0.0), base)
    same("the order of the points matters", call(kind, "collapsed", points[::-1].copy(), corners, g, None, 0.0)[::-1], base)
    zero = call(kind, "collapsed", points, corners, g, np.zeros(len(g)), 0.3)
    same("new vortices have a core", zero, base)
    ctx.nontrivial(bool(np.any(np.abs(base) > 0)))
