"""Step-by-step reference of the unsteady solver, from the recorded panels and wakes."""

import numpy as np

import ref
from core import numbers


class Step:
    """One recorded step: lattice, wake, freestream and reported strengths."""

    def __init__(self, solver, index, model, ctx):
        problem = solver.unsteady_problem.steady_problems[index]
        op = problem.operating_point
        base = model["op"]
        ctx.near("angle of attack", op.alpha, base["alpha"], rtol=0, atol=0)
        ctx.near("sideslip", op.beta, base["beta"], rtol=0, atol=0)
        ctx.near("viscosity", op.nu, base["nu"], rtol=0, atol=0)
        ctx.near("density", op.density, base["rho"], rtol=0, atol=0)
        self.rho, self.nu = base["rho"], base["nu"]
        self.speed = float(op.velocity)
        self.q = 0.5 * self.rho * self.speed**2
        self.freestream = self.speed * ref.freestream_direction(base["alpha"], base["beta"])
        self.airplanes = problem.airplanes
        self.dt = model["dt"]
        self.lattice = ref.Lattice(self.airplanes, shift=0.25 * self.dt * self.freestream)
        self.n = len(self.lattice.cps)
        self.index = index
        self.g = np.array([p.ring_vortex.strength for _, p in self.lattice.objects()], dtype=float)
        numbers("strengths", self.g)
        # The wake, wing by wing: vertices (rows + 1, columns + 1, 3), strengths and ages.
        self.wakes = []
        rings, strengths, ages = [], [], []
        for ai, start, nc, ns, wing in self.lattice.wings:
            objects = wing.wake_ring_vortices
            ctx.require(np.shape(objects) == (index, ns), "step %d has %s wake rings of a wing with %d columns" % (index, np.shape(objects), ns))
            corner = np.zeros((index, ns, 4, 3))
            s, a = np.zeros((index, ns)), np.zeros((index, ns))
            for r in range(index):
                for c in range(ns):
                    o = objects[r, c]
                    corner[r, c] = o.front_right_vertex, o.front_left_vertex, o.back_left_vertex, o.back_right_vertex
                    s[r, c], a[r, c] = o.strength, o.age
            numbers("wake vertices", corner)
            numbers("wake strengths", s)
            numbers("wake ages", a)
            self.wakes.append((corner, s, a))
            rings.append(corner.reshape(-1, 4, 3))
            strengths.append(s.ravel())
            ages.append(a.ravel())
        self.wake_rings = np.concatenate(rings)
        self.wake_strengths = np.concatenate(strengths)
        self.wake_ages = np.concatenate(ages)

    def bound(self, points):
        """(P, N, 3) per unit strength."""
        return ref.ring_velocities(points, self.lattice.rings, np.ones(self.n))

    def wake_parts(self, points):
        """(P, W, 3), with their strengths."""
        if not len(self.wake_strengths):
            return np.zeros((len(points), 0, 3))
        return ref.ring_velocities(points, self.wake_rings, self.wake_strengths, ages=self.wake_ages, nu=self.nu)

    def velocity(self, points):
        """Freestream, bound rings and wake; and the size of what was added up."""
        points = np.asarray(points, float)
        size = np.full(len(points), self.speed)
        total = np.tile(self.freestream, (len(points), 1))
        for rings, g, core in (
            (self.lattice.rings, self.g, None),
            (self.wake_rings, self.wake_strengths, ref.core_radius(self.wake_strengths, self.wake_ages, self.nu)),
        ):
            if not len(g):
                continue
            for o, e in ref.ring_legs(rings):
                v = ref.segment_velocities(points, o, e, g, core)
                total += v.sum(axis=1)
                size += np.linalg.norm(v, axis=-1).sum(axis=1)
        return total, size

    def unclear(self, points):
        """Points next to the axis of a filament, where the code's absolute thresholds
        or rounding decide."""
        points = np.asarray(points, float)
        out = np.zeros(len(points), dtype=bool)
        for rings in (self.lattice.rings, self.wake_rings):
            if len(rings):
                for o, e in ref.ring_legs(rings):
                    out |= ref.near_cutoff(points, o, e).any(axis=1)
        return out

    def surface_velocity(self, last):
        """Velocity of the air relative to the collocation points due to their motion."""
        if last is None:
            return np.zeros((self.n, 3))
        return -(self.lattice.cps - last.lattice.cps) / self.dt

    def system(self, last):
        """Matrix, right side and the size of the terms in it."""
        normals = self.lattice.normals
        a = np.einsum("ijk,ik->ij", self.bound(self.lattice.cps), normals)
        wake = self.wake_parts(self.lattice.cps)
        onset = self.freestream + self.surface_velocity(last) + wake.sum(axis=1)
        b = -np.einsum("ij,ij->i", onset, normals)
        size = np.linalg.norm(wake, axis=-1).sum(axis=1) + self.speed + np.linalg.norm(self.surface_velocity(last), axis=1)
        return a, b, size

    def loads(self, last):
        """Per airplane force and moment in wind axes, the size of the summed terms,
        and their moment arm."""
        lat = self.lattice
        rows = lat.filaments(self.g)
        o, e = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
        g = np.array([r[2] for r in rows])
        plane = np.array([r[3] for r in rows])
        centre = 0.5 * (o + e)
        v, size = self.velocity(centre)
        self.load_points = centre
        if last is not None:
            before = last.lattice.filaments(last.g)
            old = 0.5 * np.array([r[0] + r[1] for r in before])
            v = v - (centre - old) / self.dt
            size = size + np.linalg.norm(centre - old, axis=1) / self.dt
        force = self.rho * g[:, None] * np.cross(v, e - o)
        # The pressure difference of the changing circulation pushes against the normal's
        # side when the circulation grows: rings' normals point up, positive rings lift.
        rate = (self.g - (last.g if last is not None else 0.0)) / self.dt
        push = -self.rho * (rate * lat.areas)[:, None] * lat.normals
        points = np.concatenate((centre, lat.cps))
        forces = np.concatenate((force, push))
        planes = np.concatenate((plane, lat.plane_of))
        sizes = np.concatenate((self.rho * np.abs(g) * size * np.linalg.norm(e - o, axis=1), np.linalg.norm(push, axis=1)))
        return points, forces, planes, sizes


def march(solver, model, ctx):
    steps = []
    for k in range(solver.unsteady_problem.num_steps):
        steps.append(Step(solver, k, model, ctx))
    return steps
