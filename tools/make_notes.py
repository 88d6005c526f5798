import json, os
N = {
"C01": ("differential PBT against an independent Biot-Savart reference plus quadrature and metamorphic relations", "Random lines, horseshoes and rings with ages, viscosities, sizes and points on, near and off axes; extended-precision reference with derived error bounds. Points within rounding of the singularity cut-off are not judged."),
"C02": ("stateful model-based PBT over update histories", "Histories of up to 25 strength, position and age updates on up to four vortices sharing arrays, compared with a record-keeping model after every step."),
"C03": ("PBT with closed-form geometry oracle, metamorphic rigid motions, and differential induced velocities", "Random warped quadrilaterals at several sizes; near-degenerate ones are skipped. Panels of solved problems must add up to the solver's field."),
"C04": ("PBT against analytic NACA sections, database files and arc-length oracles", "All NACA digits, every bundled database file, several panel counts and custom outlines; database defects are recorded as known findings."),
"C05": ("PBT with rigid-rotation oracle over angles, hinges and airfoils", "Angles in [-90, 90], hinges in (0, 1), camber line and thickness compared behind and ahead of the hinge; rejected angles beyond."),
"C06": ("differential PBT against an independent mesher", "Random multi-section wings with dihedral, sweep, twist, tilted planes, deflections, both spacings; every corner compared, plus watertightness, flags and indices."),
"C07": ("metamorphic PBT (mirror images, hand-built other half)", "Random symmetric wings with symmetric and asymmetric control surfaces; mirror relation per panel and comparison with hand-defined halves."),
"C08": ("PBT against planform integrals and scaling relations", "Random wings and airplanes with and without overridden references."),
"C09": ("PBT against an independent wind-axes construction over all angles", "Angles over the full circle; input-by-input dependence checks."),
"C10": ("PBT with mutation of valid models into invalid ones (must raise) and acceptance of valid ones", "Each documented requirement is broken alone in an otherwise random valid model; valid models must be accepted."),
"C11": ("differential PBT against an independent horseshoe solver", "Random models with up to two airplanes and two wings each; ill-conditioned systems are skipped."),
"C12": ("differential PBT against an independent ring solver", "As C11; panel loads are only judged as airplane totals, because the split of a shared leg is free."),
"C13": ("PBT recomputing totals and coefficients, metamorphic changes of reference", "All three solvers."),
"C14": ("metamorphic PBT (similarity scaling)", "Scale factors for airspeed, density and length, viscosity scaled along; all three solvers."),
"C15": ("metamorphic PBT (translation, order, names, partition)", "All three solvers; partition relations with the tolerances of shared filaments."),
"C16": ("metamorphic PBT (mirroring)", "All three solvers; moving symmetric wings and free wakes included."),
"C17": ("differential PBT between solvers", "Marching static wings with growing wakes against the steady ring solver; flat wings in both steady solvers."),
"C18": ("PBT with per-step invariant recomputed from recorded history", "Every step of random flapping models; normal velocity recomputed from independent lattice and wake."),
"C19": ("stateful PBT replaying the wake's history step by step", "Every recorded wake row compared with a reference march."),
"C20": ("differential PBT recomputing the loads of every recorded step, plus physical sign relations", "Every step of random flapping models."),
"C21": ("PBT recomputing statistics and metamorphic only-final relation", "Static and periodic movements with several periods, one or more airplanes."),
"C22": ("PBT against closed-form waveforms", "Functions and generated snapshots over commensurate and incommensurate periods; samples on a jump are not judged."),
"C23": ("PBT comparing every attribute of generated snapshots with the base objects", "Random movements; attributes not varied must be kept."),
"C24": ("PBT against the documented default rules", "Static and periodic movements, one to three airplanes; whole numbers of steps up to rounding accept both roundings."),
"C25": ("metamorphic PBT over interleavings of runs and shared objects", "Sequences of solver runs on shared problems compared with fresh single runs."),
"C26": ("PBT re-solving reported trim points with constructed feasible and infeasible targets", "Steady and unsteady trim; the optimiser's success on feasible targets is only required where the start is the trim point."),
"C27": ("differential PBT against an independent search over rebuilt models", "Criteria placed between actual changes; random bounds and models."),
"C28": ("differential PBT against an independent search over rebuilt models", "As C27, for static and periodic movements and coefficient masks."),
"C29": ("PBT against reference velocities along streamlines", "All three solvers, random numbers of steps and step lengths."),
"C30": ("PBT with recorded plotting and printing calls compared with solver state", "Plotter, webp and figure saving are replaced by recorders; nothing is rendered."),
"C31": ("metamorphic PBT: arguments left out against documented defaults passed", "Random subsets of the optional arguments of every constructor, run, report and study; the cycles' range of the unsteady convergence study is always given, because its documentation contradicts itself."),
"C32": ("metamorphic PBT: runs of different lengths and with different later motions", "Runs of up to ten steps, prescribed and free wakes, custom motions altered after the shorter run's last step."),
}
json.dump({k: {"technique": "property-based testing: " + a, "note": b} for k, (a, b) in N.items()}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "level_notes.json"), "w"), indent=1)
