"""Independent reference models (plain numpy, written from the documented theory)."""

import numpy as np

EPS = np.finfo(float).eps
LAMB = 1.25643
SQUIRE = 1e-4


# --------------------------------------------------------------------------- vortices
def segment_velocities(points, origins, ends, strengths, core=None, dtype=float):
    """Velocity at every point induced by every straight filament: (P, S, 3).

    The Biot-Savart integral of a straight filament, with the distance to the
    filament's axis regularised by the core radius."""
    p = np.asarray(points, dtype=dtype)[:, None, :]
    a = np.asarray(origins, dtype=dtype)[None, :, :]
    b = np.asarray(ends, dtype=dtype)[None, :, :]
    g = np.asarray(strengths, dtype=dtype)[None, :]
    r0 = b - a
    l0 = np.sqrt(np.sum(r0 * r0, axis=-1))
    ra = p - a
    rb = p - b
    da = np.sqrt(np.sum(ra * ra, axis=-1))
    db = np.sqrt(np.sum(rb * rb, axis=-1))
    c = np.cross(ra, rb)
    n = np.sqrt(np.sum(c * c, axis=-1))
    rc = np.zeros(g.shape, dtype=dtype) if core is None else np.asarray(core, dtype=dtype)[None, :]
    dead = (da < EPS) | (db < EPS) | (n * n < EPS)
    with np.errstate(all="ignore"):
        dot = np.sum(ra * rb, axis=-1)
        k = g / (4 * np.pi) * (da + db) * (da * db - dot) / (da * db * (n * n + l0 * l0 * rc * rc))
    k = np.where(dead, 0, k)
    # Velocity turns right-handed about the filament's direction.
    return k[..., None] * c


def near_cutoff(points, origins, ends, factor=50.0):
    """Which (point, segment) pairs are so close to the filament's axis that the absolute
    singularity thresholds of the code, or rounding, decide whether they are on it. Pairs
    that are on the axis to rounding are clear: nothing is induced there."""
    p = np.asarray(points)[:, None, :]
    a, b = np.asarray(origins)[None], np.asarray(ends)[None]
    ra, rb = p - a, p - b
    n2 = np.sum(np.cross(ra, rb) ** 2, axis=-1)
    size = np.linalg.norm(ra, axis=-1) * np.linalg.norm(rb, axis=-1)
    noise = 1e-14 * size + 1e-15 * np.linalg.norm(p, axis=-1) * np.linalg.norm(b - a, axis=-1)
    return (n2 < EPS * factor) & ((n2 > noise**2) | (n2 > EPS / factor))


def core_radius(strengths, ages, nu):
    strengths = np.asarray(strengths, float)
    return 2 * np.sqrt(LAMB * (nu + SQUIRE * np.abs(strengths)) * np.asarray(ages, float))


def ring_legs(ring):
    """ring: (R, 4, 3) vertices front right, front left, back left, back right."""
    ring = np.asarray(ring, float)
    return [(ring[:, 0], ring[:, 1]), (ring[:, 1], ring[:, 2]), (ring[:, 2], ring[:, 3]), (ring[:, 3], ring[:, 0])]


def ring_velocities(points, rings, strengths, ages=None, nu=0.0):
    """(P, R, 3)"""
    rings = np.asarray(rings, float).reshape(-1, 4, 3)
    points = np.asarray(points, float).reshape(-1, 3)
    strengths = np.asarray(strengths, float)
    out = np.zeros((len(points), len(rings), 3))
    if len(rings) == 0:
        return out
    core = None if ages is None else core_radius(strengths, ages, nu)
    for o, e in ring_legs(rings):
        out += segment_velocities(points, o, e, strengths, core)
    return out


def polyline_velocities(points, vertices, strengths):
    """Open polylines, e.g. horseshoes: vertices (H, n, 3) -> (P, H, 3)."""
    vertices = np.asarray(vertices, float)
    out = np.zeros((len(points), len(vertices), 3))
    for k in range(vertices.shape[1] - 1):
        out += segment_velocities(points, vertices[:, k], vertices[:, k + 1], strengths)
    return out


# -------------------------------------------------------------------------- rotations
def rotation(axis, angle):
    """Rodrigues' formula."""
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    k = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * (k @ k)


def wind_axes(alpha, beta):
    """Columns: the wind axes' unit vectors in geometry axes (x back to front of the
    wind, i.e. against the freestream; y right; z down)."""
    a, b = np.radians(alpha), np.radians(beta)
    x = -freestream_direction(alpha, beta)
    # z: down, perpendicular to the freestream, in the airplane's plane of symmetry.
    z = np.array([np.sin(a), 0.0, -np.cos(a)])
    y = np.cross(z, x)
    return np.column_stack((x, y, z))


def freestream_direction(alpha, beta):
    a, b = np.radians(alpha), np.radians(beta)
    return np.array([np.cos(a) * np.cos(b), -np.sin(b), np.sin(a) * np.cos(b)])


# ---------------------------------------------------------------------------- airfoil
def naca4(name, x, n_dense=2000):
    """Exact NACA four-digit outline points (upper, lower) at camber stations x."""
    m, p, t = int(name[0]) / 100.0, int(name[1]) / 10.0, int(name[2:]) / 100.0
    x = np.asarray(x, float)
    yt = 5 * t * (0.2969 * np.sqrt(x) - 0.1260 * x - 0.3516 * x**2 + 0.2843 * x**3 - 0.1015 * x**4)
    if p == 0:
        p = 0.5
    yc = np.where(x <= p, m / p**2 * (2 * p * x - x**2), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x**2))
    dy = np.where(x <= p, 2 * m / p**2 * (p - x), 2 * m / (1 - p) ** 2 * (p - x))
    th = np.arctan(dy)
    upper = np.column_stack((x - yt * np.sin(th), yc + yt * np.cos(th)))
    lower = np.column_stack((x + yt * np.sin(th), yc - yt * np.cos(th)))
    return upper, lower


def arc_fraction_points(line, fractions):
    """Points of a polyline at fractions of its length."""
    line = np.asarray(line, float)
    s = np.concatenate(([0.0], np.cumsum(np.hypot(*np.diff(line, axis=0).T))))
    s /= s[-1]
    return np.column_stack([np.interp(fractions, s, line[:, k]) for k in (0, 1)])


def hinged(mcl, hinge_x, *values):
    """The camber line, and values given at its points, with the point at the hinge
    added. Returns the index of the hinge and the arrays."""
    mcl = np.asarray(mcl, float)
    k = int(np.sum(mcl[:, 0] <= hinge_x))
    out = []
    for v in (mcl,) + values:
        v = np.asarray(v, float)
        at = [np.interp(hinge_x, mcl[:, 0], v[:, c]) for c in range(v.shape[1])]
        out.append(np.insert(v, k, at, axis=0))
    return k, out


def deflected_camber(mcl, hinge_x, deflection):
    """The camber line with everything behind the hinge rotated about the point of the
    camber line at hinge_x, trailing edge down for positive deflections."""
    k, (out,) = hinged(mcl, hinge_x)
    hinge = out[k].copy()
    d = np.radians(deflection)
    c, s = np.cos(d), np.sin(d)
    rel = out[k + 1 :] - hinge
    out[k + 1 :] = hinge + np.column_stack((c * rel[:, 0] + s * rel[:, 1], -s * rel[:, 0] + c * rel[:, 1]))
    return out


# ------------------------------------------------------------------------------- mesh
def spacing(kind, n):
    if kind == "uniform":
        return np.arange(n + 1) / n
    return 0.5 * (1 - np.cos(np.pi * np.arange(n + 1) / n))


def section_line(wing, section, mcl, chord_stations):
    """Camber points (n, 3) of one cross section at the chordwise stations."""
    cw = np.asarray(wing["chordwise"], float)
    n = np.asarray(section["normal"], float)
    direction = rotation(n, np.radians(section["twist"])) @ cw
    up = np.cross(direction, n)
    pts = arc_fraction_points(mcl, chord_stations)
    le = np.array([wing["x"], wing["y"], wing["z"]]) + np.array([section["x"], section["y"], section["z"]])
    return le + section["chord"] * (pts[:, :1] * direction + pts[:, 1:] * up)


def wing_grid(wing, mcls):
    """Corner grids of a wing from its definition. wing: spec dict with 'sections',
    mcls: one camber line per section. Returns an (nc+1, ns+1, 3) grid ordered left to
    right for a symmetric wing, or from the first to the last section."""
    stations = spacing(wing["cs"], wing["nc"])
    sections = wing["sections"]

    def half(sign_asym):
        columns = None
        for k in range(len(sections) - 1):
            a, b = sections[k], sections[k + 1]
            d = a["defl"] * (sign_asym if a["cst"] == "asymmetric" else 1)
            la = section_line(wing, a, deflected_camber(mcls[k], a["hinge"], d), stations)
            lb = section_line(wing, b, deflected_camber(mcls[k + 1], a["hinge"], d), stations)
            t = spacing(a["sp"], a["ns"])
            block = la[:, None, :] + t[None, :, None] * (lb - la)[:, None, :]
            yield block

    def reflect(points):
        n = np.asarray(sections[0]["normal"], float)
        n = n / np.linalg.norm(n)
        p0 = np.array([wing["x"], wing["y"], wing["z"]])
        return points - 2 * ((points - p0) @ n)[..., None] * n

    blocks = list(half(1))
    if wing["sym"]:
        left = [reflect(b)[:, ::-1] for b in half(-1)][::-1]
        blocks = left + blocks
    return blocks


def corners_from_blocks(blocks):
    """(nc, ns, 4, 3): front right, front left, back left, back right of every panel."""
    out = []
    for b in blocks:
        out.append(np.stack((b[:-1, 1:], b[:-1, :-1], b[1:, :-1], b[1:, 1:]), axis=2))
    return np.concatenate(out, axis=1)


# ----------------------------------------------------------------------------- panels
def panel_corners(wing):
    """(nc, ns, 4, 3) corners of a wing object's panels (FR, FL, BL, BR)."""
    p = wing.panels
    out = np.empty(p.shape + (4, 3))
    for i in range(p.shape[0]):
        for j in range(p.shape[1]):
            q = p[i, j]
            out[i, j, 0] = q.front_right_vertex
            out[i, j, 1] = q.front_left_vertex
            out[i, j, 2] = q.back_left_vertex
            out[i, j, 3] = q.back_right_vertex
    return out


def panel_normals_areas(c):
    """c: (..., 4, 3). Normal of the diagonals; area of the quadrilateral they span."""
    cross = np.cross(c[..., 0, :] - c[..., 2, :], c[..., 1, :] - c[..., 3, :])
    size = np.linalg.norm(cross, axis=-1)
    return cross / size[..., None], size / 2


def collocation_points(c):
    fr, fl, bl, br = (c[..., k, :] for k in range(4))
    return 0.5 * ((br + 0.25 * (fr - br)) + (fl + 0.75 * (bl - fl)))


def bound_points(c):
    fr, fl, bl, br = (c[..., k, :] for k in range(4))
    return fr + 0.25 * (br - fr), fl + 0.25 * (bl - fl)


def ring_lattice(c, shift=None):
    """Vortex rings (nc, ns, 4, 3) of a wing: quarter-chord points joined to the next
    panel's; the last ring extends one panel chord plus an optional shift."""
    fr, fl = bound_points(c)
    bl = np.empty_like(fl)
    br = np.empty_like(fr)
    bl[:-1], br[:-1] = fl[1:], fr[1:]
    bl[-1] = fl[-1] + (c[-1, :, 2] - c[-1, :, 1])
    br[-1] = fr[-1] + (c[-1, :, 3] - c[-1, :, 0])
    if shift is not None:
        bl[-1] += shift
        br[-1] += shift
    return np.stack((fr, fl, bl, br), axis=2)


class Lattice:
    """All panels of a list of airplane objects, flattened in solver order."""

    def __init__(self, airplanes, shift=None):
        self.wings = []  # (airplane index, slice, nc, ns, span)
        c, rings, refs, plane_of = [], [], [], []
        start = 0
        te = []
        for ai, airplane in enumerate(airplanes):
            for wing in airplane.wings:
                k = panel_corners(wing)
                nc, ns = k.shape[:2]
                c.append(k.reshape(-1, 4, 3))
                rings.append(ring_lattice(k, shift).reshape(-1, 4, 3))
                self.wings.append((ai, start, nc, ns, wing))
                refs += [np.asarray(airplane.xyz_ref, float)] * (nc * ns)
                plane_of += [ai] * (nc * ns)
                te += [False] * ((nc - 1) * ns) + [True] * ns
                start += nc * ns
        self.corners = np.concatenate(c)
        self.rings = np.concatenate(rings)
        self.refs = np.array(refs)
        self.plane_of = np.array(plane_of)
        self.te = np.array(te)
        self.normals, self.areas = panel_normals_areas(self.corners)
        self.cps = collocation_points(self.corners)
        self.n_airplanes = len(airplanes)

    def objects(self):
        for ai, start, nc, ns, wing in self.wings:
            for i in range(nc):
                for j in range(ns):
                    yield start + i * ns + j, wing.panels[i, j]

    def filaments(self, strengths):
        """The bound filaments: (origin, end, net strength, airplane index, panel, which).
        The line between spanwise neighbours is listed from both sides with half of the
        net strength each: the sides differ where neighbouring control surfaces are
        deflected differently. The rings' back legs at the trailing edge are left out:
        the trailing horseshoe or wake carries the same line."""
        rows = []
        for ai, start, nc, ns, wing in self.wings:
            for i in range(nc):
                for j in range(ns):
                    k = start + i * ns + j
                    g = strengths[k]
                    ahead = strengths[k - ns] if i else 0.0
                    rows.append((self.rings[k, 0], self.rings[k, 1], g - ahead, ai, k, "front"))
                    # right leg runs back right -> front right, left leg front left -> back left
                    right = 0.5 * (g - strengths[k + 1]) if j + 1 < ns else g
                    left = 0.5 * (g - strengths[k - 1]) if j else g
                    rows.append((self.rings[k, 3], self.rings[k, 0], right, ai, k, "right"))
                    rows.append((self.rings[k, 1], self.rings[k, 2], left, ai, k, "left"))
        return rows


def sum_loads(points, forces, plane_of, refs_of_plane, n):
    f = np.zeros((n, 3))
    m = np.zeros((n, 3))
    for x, force, ai in zip(points, forces, plane_of):
        f[ai] += force
        m[ai] += np.cross(x - refs_of_plane[ai], force)
    return f, m
