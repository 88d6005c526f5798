"""C04: airfoil coordinates, repaneling and the mean camber line."""

import glob
import os

import numpy as np
from hypothesis import strategies as st

import build
import core
import gen
import ref
from core import facet, numbers

PROP = "C04"
WARM = ()


def cosine(n):
    return 0.5 * (1 - np.cos(np.pi * np.arange(n) / (n - 1)))


def increasing(surface):
    """A surface from the leading to the trailing edge, without the points that are not
    behind all earlier ones."""
    keep, last = [], -np.inf
    for p in surface:
        if p[0] > last:
            keep.append(p)
            last = p[0]
    return np.array(keep)


def surfaces_of(outline):
    k = int(np.argmin(outline[:, 0]))
    return outline[k::-1], outline[k:]


def judge_repaneled(ctx, what, airfoil, outline, n):
    """The repaneled outline against the original one. Between two neighbouring points of
    the original, an outline that is 'the same curve' lies between their heights (with
    slack for curves that are not monotone there)."""
    c = numbers(what + " coordinates", airfoil.coordinates, (2 * n - 1, 2))
    x = cosine(n)
    ctx.near(what + " stations", c[:, 0], np.concatenate((x[::-1], x[1:])), rtol=0, atol=1e-9)
    upper, lower = surfaces_of(outline)
    for name, surface, got in (("upper", upper, c[n - 1 :: -1]), ("lower", lower, c[n - 1 :])):
        s = increasing(surface)
        folded = len(s) < len(surface)
        for px, py in got[1:]:
            if not s[0, 0] + 1e-9 < px < s[-1, 0] - 1e-9:
                continue
            k = int(np.searchsorted(s[:, 0], px))
            lo, hi = sorted((s[k - 1, 1], s[k, 1]))
            gap = s[k, 0] - s[k - 1, 0]
            # Room for a smooth curve through neighbours with an extremum in between.
            slack = 1e-9 + 0.15 * (hi - lo) + 0.5 * gap**2
            if folded:
                slack += 2e-3
            ctx.require(
                lo - slack <= py <= hi + slack,
                "%s %s surface at x=%.6g is at %.6g, but the outline runs from %.6g to %.6g there"
                % (what, name, px, py, s[k - 1, 1], s[k, 1]),
            )
    return c


def judge_camber(ctx, what, airfoil, k, fractions, chord_fractions):
    """The camber line and thickness against the airfoil's own coordinates."""
    c = np.asarray(airfoil.coordinates, float)
    upper, lower = c[k::-1], c[k:]
    ctx.near(what + " upper", airfoil.upper_coordinates(), c[: k + 1], rtol=0)
    ctx.near(what + " lower", airfoil.lower_coordinates(), c[k:], rtol=0)
    ctx.require(int(airfoil.leading_edge_index()) == k, what + ": wrong leading edge")
    mcl = (upper + lower) / 2
    ctx.near(what + " camber line", airfoil.mcl_coordinates, mcl, rtol=0, atol=1e-13)
    ctx.near(what + " upper minus camber line", airfoil.upper_minus_mcl, upper - mcl, rtol=0, atol=1e-13)
    ctx.near(
        what + " thickness", airfoil.thickness,
        np.column_stack((mcl[:, 0], np.hypot(*(upper - lower).T))), rtol=0, atol=1e-13)
    got = numbers(what + " samples", airfoil.get_downsampled_mcl(np.array(fractions)), (len(fractions), 2))
    ctx.near(what + " camber line samples", got, ref.arc_fraction_points(mcl, fractions), rtol=0, atol=1e-12)
    for x in chord_fractions:
        if np.all(np.diff(mcl[:, 0]) > 0) and mcl[0, 0] <= x <= mcl[-1, 0]:
            ctx.near(what + " camber", float(airfoil.get_camber_at_chord_fraction(x)), np.interp(x, mcl[:, 0], mcl[:, 1]), rtol=0, atol=1e-12)


fractions = st.lists(gen.grid(0, 1, 0.01), min_size=1, max_size=6)
counts = st.sampled_from([5, 12, 20, 40, 80, 137, 200, 400])

# ----------------------------------------------------------------------------- NACA
def naca_cases():
    digits = st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(1, 40)).map(
        lambda d: "%d%d%02d" % ((d[0], max(d[1], 1), d[2]) if d[0] else d)
    )
    return st.fixed_dictionaries(
        {
            "digits": digits,
            "style": st.sampled_from(["naca%s", "NACA%s", " naca%s ", "Naca%s"]),
            "n": counts,
            "repanel": st.sampled_from([True, True, False]),
            "fractions": fractions,
            "chords": fractions,
        }
    )


def naca_outline(digits, n=100):
    upper, lower = ref.naca4(digits, cosine(n))
    return np.vstack((upper[::-1], lower[1:]))


@facet(PROP, "naca", naca_cases, 600, 30000, "a cambered section")
def naca(spec, ctx):
    dense = naca_outline(spec["digits"])
    steep = int(np.argmin(dense[:, 0])) != 99
    if steep and not spec["repanel"]:
        ctx.skip("the nose of the unrepaneled section droops past its leading edge")
    name = spec["style"] % spec["digits"]
    airfoil = build.airfoil({"name": name, "n": spec["n"], "repanel": spec["repanel"]})
    ctx.require(airfoil.name == name, "the airfoil was renamed")
    if spec["repanel"]:
        c = judge_repaneled(ctx, "NACA", airfoil, dense, spec["n"])
        # Against the analytic section itself, away from a drooping nose.
        fine = naca_outline(spec["digits"], 4000)
        upper, lower = surfaces_of(fine)
        for surface, got in ((upper, c[spec["n"] - 1 :: -1]), (lower, c[spec["n"] - 1 :])):
            s = increasing(surface)
            use = got[:, 0] > 0.1
            want = np.interp(got[use, 0], s[:, 0], s[:, 1])
            # Extreme nose cambers kink or fold the surfaces.
            mild = (int(spec["digits"][1]) >= 3 or spec["digits"][0] == "0") and int(spec["digits"][2:]) <= 30
            if use.any() and mild:
                worst = np.max(np.abs(got[use, 1] - want) * (got[use, 0] < 0.999))
                ctx.require(worst < 2.5e-3, "the surface is %.3g of the chord away from the NACA section" % worst)
                ctx.ratios["naca"] = worst / 2.5e-3
        k = spec["n"] - 1
    else:
        ctx.near("unrepaneled NACA coordinates", airfoil.coordinates, dense, rtol=0, atol=1e-9)
        k = 99
    judge_camber(ctx, "NACA", airfoil, k, spec["fractions"], spec["chords"])
    ctx.label("repaneled" if spec["repanel"] else "as given", "cambered" if spec["digits"][0] != "0" else "symmetric")
    ctx.nontrivial(spec["digits"][0] != "0")


# ------------------------------------------------------------------------- database
def stored(path):
    """The outline in a Selig style file: title lines, then pairs of numbers."""
    points = []
    with open(path, errors="replace") as handle:
        lines = handle.read().splitlines()[1:]
    for line in lines:
        try:
            pair = [float(t) for t in line.replace(",", " ").split()]
        except ValueError:
            pair = []
        if len(pair) == 2:
            points.append(pair)
        elif points and line.strip():
            break
    return np.array(points)


def database():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(core.REPO, "pterasoftware", "airfoils", "*.dat")))


def database_cases():
    return st.fixed_dictionaries(
        {"name": st.sampled_from(database()), "case": st.sampled_from(["as is", "lower", "upper", "spaces"]), "n": counts,
         "fractions": fractions, "chords": fractions}
    )


@facet(PROP, "database", database_cases, 1500, 40000, "a section with camber")
def database_sections(spec, ctx):
    outline = stored(os.path.join(core.REPO, "pterasoftware", "airfoils", spec["name"] + ".dat"))
    name = {"as is": spec["name"], "lower": spec["name"].lower(), "upper": spec["name"].upper(), "spaces": " " + spec["name"] + " "}[spec["case"]]
    clash = spec["name"].lower()
    if clash.startswith("naca") and clash[4:].isdigit() and len(clash[4:]) == 4:
        outline = naca_outline(clash[4:])
    airfoil = build.airfoil({"name": name, "n": spec["n"]})
    # The stored outline runs over the chord.
    ctx.require(
        len(outline) > 10 and abs(outline[:, 0].max() - 1) < 0.05 and -0.05 < outline[:, 0].min() < 0.1,
        "the stored outline does not run over the chord",
    )
    c = judge_repaneled(ctx, "database", airfoil, outline, spec["n"])
    judge_camber(ctx, "database", airfoil, spec["n"] - 1, spec["fractions"], spec["chords"])
    ctx.label(spec["case"])
    ctx.nontrivial(np.ptp(c[spec["n"] - 1 :: -1, 1] + c[spec["n"] - 1 :, 1]) > 1e-3)


# --------------------------------------------------------------------- given outlines
@st.composite
def custom_cases(draw):
    return {
        "thick": draw(gen.grid(0.04, 0.24, 0.01)),
        "blunt": draw(st.sampled_from([0.0, 0.0, 0.004])),
        "camber": draw(gen.grid(-0.06, 0.08, 0.01)),
        "reflex": draw(gen.grid(-0.05, 0.05, 0.01)),
        "nu": draw(st.integers(15, 120)),
        "nl": draw(st.integers(15, 120)),
        "power": draw(st.sampled_from([1.0, 1.5, 2.0])),
        "repanel": draw(st.sampled_from([True, True, False])),
        "n": draw(counts),
        "fractions": draw(fractions),
        "chords": draw(fractions),
    }


def custom_outline(spec):
    def side(n, sign):
        t = np.arange(n) / (n - 1)
        x = 0.5 * (1 - np.cos(np.pi * t)) if spec["power"] == 1.0 else t ** spec["power"]
        half = spec["thick"] * 1.3 * np.sqrt(x) * (1 - x) + spec["blunt"] * x
        camber = spec["camber"] * 4 * x * (1 - x) + spec["reflex"] * x * (1 - x) * (1 - 2 * x)
        return np.column_stack((x, camber + sign * half))

    lower_count = spec["nl"] if spec["repanel"] else spec["nu"]
    return np.vstack((side(spec["nu"], 1)[::-1], side(lower_count, -1)[1:]))


@facet(PROP, "outline", custom_cases, 600, 20000, "a cambered outline")
def custom(spec, ctx):
    outline = custom_outline(spec)
    given = outline.copy()
    import pterasoftware as ps

    airfoil = ps.geometry.Airfoil(name="mine", coordinates=given, repanel=spec["repanel"], n_points_per_side=spec["n"])
    if spec["repanel"]:
        judge_repaneled(ctx, "given", airfoil, outline, spec["n"])
        # A repaneled outline hardly changes when it is repaneled again.
        k = spec["n"] - 1
    else:
        ctx.near("given coordinates", airfoil.coordinates, outline, rtol=0, atol=0)
        k = spec["nu"] - 1
    ctx.require(np.array_equal(given, outline), "the user's coordinates were modified")
    judge_camber(ctx, "given", airfoil, k, spec["fractions"], spec["chords"])
    if spec["repanel"]:
        again = ps.geometry.Airfoil(
            name="again", coordinates=np.array(airfoil.coordinates), repanel=True, n_points_per_side=spec["n"])
        ctx.near("repaneled again", again.coordinates, airfoil.coordinates, rtol=0, atol=1e-9)
    ctx.label("repaneled" if spec["repanel"] else "as given", "blunt" if spec["blunt"] else "sharp")
    ctx.nontrivial(spec["camber"] != 0 or spec["reflex"] != 0)
