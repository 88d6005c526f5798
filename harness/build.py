"""Turn specs into real pterasoftware objects, and run solvers."""

import numpy as np
import pterasoftware as ps

CUSTOM_FUNCTIONS = {
    "cos": np.cos,
    "sin3": lambda t: np.sin(t) ** 3,
    "square": lambda t: np.sign(np.sin(t + 0.1)),
    "tanh": lambda t: np.tanh(np.sin(t)) + 0.1,
    "ramp": lambda t: (t % (2 * np.pi)) / (2 * np.pi),
    "slow": lambda t: np.sin(t / 3.0) + 0.2 * np.cos(t / 7.0),
    "linear": lambda t: 0.04 * t,
    "decaying": lambda t: np.exp(-t / 9.0) * np.sin(2.0 * t),
}


# How to call a constructor; C31 replaces it.
CALL = None


def make(constructor, **kwargs):
    return constructor(**kwargs) if CALL is None else CALL(constructor, kwargs)


def airfoil(spec):
    kwargs = {"name": spec["name"], "repanel": spec.get("repanel", True)}
    if "coords" in spec:
        kwargs["coordinates"] = np.array(spec["coords"], dtype=float)
    if "n" in spec:
        kwargs["n_points_per_side"] = spec["n"]
    return make(ps.geometry.Airfoil, **kwargs)


def cross_section(spec, shared=None):
    if shared is not None:
        key = repr(spec["af"])
        if key not in shared:
            shared[key] = airfoil(spec["af"])
        af = shared[key]
    else:
        af = airfoil(spec["af"])
    return make(
        ps.geometry.WingCrossSection,
        airfoil=af,
        x_le=spec["x"],
        y_le=spec["y"],
        z_le=spec["z"],
        chord=spec["chord"],
        unit_normal_vector=np.array(spec["normal"], dtype=float),
        twist=spec["twist"],
        control_surface_type=spec["cst"],
        control_surface_hinge_point=spec["hinge"],
        control_surface_deflection=spec["defl"],
        num_spanwise_panels=spec["ns"],
        spanwise_spacing=spec["sp"],
    )


def wing(spec, shared=None):
    return make(
        ps.geometry.Wing,
        wing_cross_sections=[cross_section(s, shared) for s in spec["sections"]],
        name=spec["name"],
        x_le=spec["x"],
        y_le=spec["y"],
        z_le=spec["z"],
        unit_normal_vector=np.array(spec["normal"], dtype=float),
        symmetric=spec["sym"],
        unit_chordwise_vector=np.array(spec["chordwise"], dtype=float),
        num_chordwise_panels=spec["nc"],
        chordwise_spacing=spec["cs"],
    )


def airplane(spec, shared=None):
    kwargs = {k: spec[k] for k in ("s_ref", "c_ref", "b_ref") if spec.get(k) is not None}
    return make(
        ps.geometry.Airplane,
        wings=[wing(w, shared) for w in spec["wings"]],
        name=spec["name"],
        x_ref=spec["ref"][0],
        y_ref=spec["ref"][1],
        z_ref=spec["ref"][2],
        weight=spec["weight"],
        **kwargs,
    )


def operating_point(spec):
    return make(
        ps.operating_point.OperatingPoint,
        density=spec["rho"],
        velocity=spec["v"],
        alpha=spec["alpha"],
        beta=spec["beta"],
        external_thrust=spec["thrust"],
        nu=spec["nu"],
    )


def steady_problem(spec, shared=None):
    return ps.problems.SteadyProblem(
        airplanes=[airplane(a, shared) for a in spec["airplanes"]], operating_point=operating_point(spec["op"])
    )


def horseshoe_solver(problem):
    return ps.steady_horseshoe_vortex_lattice_method.SteadyHorseshoeVortexLatticeMethodSolver(problem)


def ring_solver(problem):
    return ps.steady_ring_vortex_lattice_method.SteadyRingVortexLatticeMethodSolver(problem)


def unsteady_solver(problem):
    return ps.unsteady_ring_vortex_lattice_method.UnsteadyRingVortexLatticeMethodSolver(problem)


QUIET = "Critical"


def solve_horseshoe(spec_or_problem):
    problem = spec_or_problem if not isinstance(spec_or_problem, dict) else steady_problem(spec_or_problem)
    solver = horseshoe_solver(problem)
    solver.run(logging_level=QUIET)
    return solver


def solve_ring(spec_or_problem):
    problem = spec_or_problem if not isinstance(spec_or_problem, dict) else steady_problem(spec_or_problem)
    solver = ring_solver(problem)
    solver.run(logging_level=QUIET)
    return solver


STEADY = {"horseshoe": solve_horseshoe, "ring": solve_ring}


# -------------------------------------------------------------------------- movements
def _osc(prefix, spec, custom=None):
    out = {
        prefix + "_amplitude": spec["amp"],
        prefix + "_period": spec["period"],
        prefix + "_spacing": spec["spacing"],
    }
    if custom and spec["spacing"] == "custom":
        out[custom] = CUSTOM_FUNCTIONS[spec["fn"]]
    return out


def section_movement(base, spec):
    return make(
        ps.movement.WingCrossSectionMovement,
        base_wing_cross_section=base,
        **_osc("sweeping", spec["sweep"], "custom_sweep_function"),
        **_osc("pitching", spec["pitch"], "custom_pitch_function"),
        **_osc("heaving", spec["heave"], "custom_heave_function"),
    )


def wing_movement(base, spec):
    return make(
        ps.movement.WingMovement,
        base_wing=base,
        wing_cross_sections_movements=[
            section_movement(b, s) for b, s in zip(base.wing_cross_sections, spec["sections"])
        ],
        **_osc("x_le", spec["x"]),
        **_osc("y_le", spec["y"]),
        **_osc("z_le", spec["z"]),
    )


def airplane_movement(base, spec):
    return make(
        ps.movement.AirplaneMovement,
        base_airplane=base,
        wing_movements=[wing_movement(b, s) for b, s in zip(base.wings, spec["wings"])],
        **_osc("x_ref", spec["x"]),
        **_osc("y_ref", spec["y"]),
        **_osc("z_ref", spec["z"]),
    )


def operating_point_movement(base, spec):
    return make(ps.movement.OperatingPointMovement, base_operating_point=base, **_osc("velocity", spec))


def movement(spec, shared=None, bases=None):
    planes = bases or [airplane(a, shared) for a in spec["airplanes"]]
    kwargs = {}
    if spec.get("steps") is not None:
        kwargs["num_steps"] = spec["steps"]
    if spec.get("dt") is not None:
        kwargs["delta_time"] = spec["dt"]
    for key in ("num_cycles", "num_chords"):
        if spec.get(key) is not None:
            kwargs[key] = spec[key]
    return make(
        ps.movement.Movement,
        airplane_movements=[airplane_movement(b, m) for b, m in zip(planes, spec["moves"])],
        operating_point_movement=operating_point_movement(operating_point(spec["op"]), spec["v"]),
        **kwargs,
    )


def unsteady_problem(spec, shared=None):
    return make(ps.problems.UnsteadyProblem, movement=movement(spec, shared), only_final_results=spec.get("final_only", False))


def solve_unsteady(spec_or_problem, prescribed=None, streamlines=True):
    if isinstance(spec_or_problem, dict):
        problem = unsteady_problem(spec_or_problem)
        prescribed = spec_or_problem["prescribed"]
    else:
        problem = spec_or_problem
        prescribed = True if prescribed is None else prescribed
    solver = unsteady_solver(problem)
    solver.run(logging_level=QUIET, prescribed_wake=prescribed, calculate_streamlines=streamlines)
    return solver


# ------------------------------------------------------------------------------- warm
SIMPLE_WING = {
    "name": "w", "x": 0.0, "y": 0.0, "z": 0.0, "normal": [0.0, 1.0, 0.0], "chordwise": [1.0, 0.0, 0.0],
    "sym": False, "nc": 1, "cs": "uniform",
    "sections": [
        {"af": {"name": "naca0012", "n": 20}, "x": 0.0, "y": y, "z": 0.0, "chord": 1.0, "normal": [0.0, 1.0, 0.0],
         "twist": 0.0, "cst": "symmetric", "hinge": 0.75, "defl": 0.0, "ns": 1, "sp": "uniform"}
        for y in (0.0, 2.0)
    ],
}
SIMPLE_PLANE = {"name": "p", "wings": [SIMPLE_WING], "ref": [0.0, 0.0, 0.0], "weight": 0.0,
                "s_ref": None, "c_ref": None, "b_ref": None}
SIMPLE_OP = {"rho": 1.0, "v": 10.0, "alpha": 2.0, "beta": 0.0, "thrust": 0.0, "nu": 1e-5}


def warm(names):
    """Compile the kernels a property needs once, before the workers are forked. A
    failure here is left for the generated cases to report."""
    import gen

    spec = {"airplanes": [SIMPLE_PLANE], "op": SIMPLE_OP}
    try:
        if "mesh" in names:
            airplane(SIMPLE_PLANE)
        if "horseshoe" in names:
            solve_horseshoe(spec)
        if "ring" in names:
            solve_ring(spec)
        if "unsteady" in names:
            for prescribed in (True, False):
                solve_unsteady(
                    dict(spec, moves=[gen.still_movement(SIMPLE_PLANE)], v=dict(gen.IDLE), dt=0.05, steps=2,
                         prescribed=prescribed)
                )
        if "vortex" in names:
            import props.c01 as c01

            c01.warm()
    except Exception:
        pass
