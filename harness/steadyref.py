"""From-scratch reference of the two steady solvers, from the panels' corners alone."""

import numpy as np

import ref


class Field:
    """Straight filaments with unit-strength owners: velocity influence of each panel."""

    def __init__(self, count):
        self.count = count
        self.o, self.e, self.k = [], [], []

    def add(self, points, owners):
        """points: (n, m, 3) polylines, owners: (n,)"""
        points = np.asarray(points, float)
        for a in range(points.shape[1] - 1):
            self.o.append(points[:, a])
            self.e.append(points[:, a + 1])
            self.k.append(np.asarray(owners))

    def finish(self):
        self.o, self.e, self.k = np.concatenate(self.o), np.concatenate(self.e), np.concatenate(self.k)
        return self

    def influence(self, points):
        """(P, N, 3): velocity per unit of each panel's strength."""
        v = ref.segment_velocities(points, self.o, self.e, np.ones(len(self.k)))
        out = np.zeros((len(points), self.count, 3))
        np.add.at(out, (slice(None), self.k), v)
        return out

    def unclear(self, points):
        return ref.near_cutoff(points, self.o, self.e)

    def size(self, points, strengths):
        """Sum of the sizes of all contributions at every point."""
        v = ref.segment_velocities(points, self.o, self.e, np.ones(len(self.k)))
        return np.sum(np.linalg.norm(v, axis=-1) * np.abs(strengths)[self.k], axis=1)


class SteadyReference:
    """kind: 'horseshoe' or 'ring'."""

    def __init__(self, kind, solver, op, ctx):
        self.kind = kind
        self.lattice = lat = ref.Lattice(solver.airplanes)
        n = len(lat.cps)
        self.n = n
        self.direction = ref.freestream_direction(op["alpha"], op["beta"])
        self.freestream = self.direction * op["v"]
        self.rho = op["rho"]
        self.q = 0.5 * op["rho"] * op["v"] ** 2
        length = self.leg_lengths(solver, ctx)
        field = Field(n)
        rings = lat.rings
        tail = self.direction[None] * length[:, None]
        if kind == "horseshoe":
            right, left = rings[:, 0], rings[:, 1]
            field.add(np.stack((right + tail, right, left, left + tail), axis=1), np.arange(n))
        else:
            field.add(rings[:, [0, 1, 2, 3, 0]], np.arange(n))
            te = np.flatnonzero(lat.te)
            right, left = rings[te, 3], rings[te, 2]
            field.add(np.stack((right + tail[te], right, left, left + tail[te]), axis=1), te)
        self.field = field.finish()
        self.matrix = np.einsum("ijk,ik->ij", field.influence(lat.cps), lat.normals)
        self.rhs = -lat.normals @ self.freestream
        # Rows and columns are scaled first: panels of very different sizes are fine.
        diagonal = np.abs(np.diag(self.matrix))
        self.condition = np.linalg.cond(self.matrix / diagonal[:, None]) if diagonal.min() > 0 else np.inf
        self.ambiguous = bool(np.any(field.unclear(lat.cps)))

    def leg_lengths(self, solver, ctx):
        """The far ends of the trailing legs: along the freestream, far away."""
        lat = self.lattice
        out = np.ones(self.n)
        for ai, start, nc, ns, wing in lat.wings:
            for i in range(nc):
                for j in range(ns):
                    k = start + i * ns + j
                    panel = wing.panels[i, j]
                    shoe = panel.horseshoe_vortex
                    if self.kind == "ring" and i < nc - 1:
                        ctx.require(shoe is None, "a panel ahead of the trailing edge has a trailing horseshoe")
                        continue
                    ctx.require(shoe is not None, "a panel lacks its horseshoe")
                    front = lat.rings[k, (0, 1) if self.kind == "horseshoe" else (3, 2)]
                    far = np.array([shoe.right_leg.origin, shoe.left_leg.termination], dtype=float)
                    legs = far - front
                    length = legs @ self.direction
                    # Far: many spans.
                    extent = np.ptp(lat.corners[start : start + nc * ns].reshape(-1, 3) @ wing.unit_normal_vector)
                    ctx.require(np.all(length > 15 * extent), "the trailing legs are short")
                    ctx.near("leg direction", legs, length[:, None] * self.direction, rtol=1e-9, scale=float(length.max()))
                    ctx.near("leg lengths", length[0], length[1], rtol=1e-9)
                    out[k] = length[0]
        return out

    def solve(self):
        return np.linalg.solve(self.matrix, self.rhs)

    def velocity(self, points, strengths):
        return self.freestream + np.einsum("pnk,n->pk", self.field.influence(points), strengths)

    def lines(self, strengths):
        """Loaded filaments: (centres, forces, airplane, panel)."""
        lat = self.lattice
        if self.kind == "horseshoe":
            o, e = lat.rings[:, 0], lat.rings[:, 1]
            g, plane = strengths, lat.plane_of
            panel = np.arange(self.n)
        else:
            rows = lat.filaments(strengths)
            o, e = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
            g, plane = np.array([r[2] for r in rows]), np.array([r[3] for r in rows])
            panel = np.array([r[4] for r in rows])
        centre = 0.5 * (o + e)
        force = self.rho * g[:, None] * np.cross(self.velocity(centre, strengths), e - o)
        return centre, force, plane, panel
