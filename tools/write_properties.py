"""Writes /verif/properties.jsonl from one table, so that ids, titles and statements stay in one place."""
import json, os
P = "pterasoftware/"
A, F, G, M, MV, OP, OUT, PN, PR, SH, SR, T, U, CV = (P + n for n in (
    "aerodynamics.py", "functions.py", "geometry.py", "meshing.py", "movement.py", "operating_point.py",
    "output.py", "panel.py", "problems.py", "steady_horseshoe_vortex_lattice_method.py",
    "steady_ring_vortex_lattice_method.py", "trim.py", "unsteady_ring_vortex_lattice_method.py", "convergence.py"))
rows = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    rows.append(d)

prop("C01", "Induced velocity is the regularised Biot-Savart field of the filaments",
 "For any set of straight vortex filaments, horseshoes or rings with any strengths, ages and viscosity, the velocity induced at any point equals the sum of the Biot-Savart contributions of the individual legs, regularised by the age- and viscosity-dependent core radius 2*sqrt(1.25643*(nu+1e-4*|strength|)*age). The per-vortex and the summed form agree, and points lying on a filament or on its extension receive zero from it; the result is always finite.",
 ["inputs"], "every finite point set, filament geometry (including degenerate and collinear ones), strength of either sign or zero, age and kinematic viscosity",
 "The unit tests construct vortex objects and compare stored attributes; none evaluates an induced velocity against a reference, and no finite sample covers sign, age, viscosity and singular placements together.",
 [A], [("line, horseshoe, ring and chordwise-segment kernels", A + ": expanded_/collapsed_velocities_from_*")],
 ["arrays returned by the induced-velocity functions"])
prop("C02", "Vortex objects stay consistent over any sequence of updates",
 "After any sequence of strength and position updates, a horseshoe or ring vortex reports one strength shared by all of its legs, legs that run head to tail through exactly the current vertices with matching vectors and midpoints, and (for a ring) a centre equal to the mean of its current vertices. Updating a position never changes strength or age, updating a strength never moves geometry, and updating one vortex never affects another.",
 ["histories", "inputs"], "every interleaving of strength and position updates on several live vortices with arbitrary vertices",
 "The tests call each update once on one fixed object; staleness appears only after particular update orders.",
 [A], [("update_strength / update_position of ring and horseshoe vortices", A + ": RingVortex, HorseshoeVortex"), ("quadrilateral centroid", F + ": numba_centroid_of_quadrilateral")],
 ["vortex, leg and centre attributes"])
prop("C03", "Panel geometry and panel induced velocity follow from its four corners",
 "For any quadrilateral panel, its legs, bound-vortex points (quarter chord), collocation point (mid-span, three-quarter chord), area, unit normal, unit span- and chordwise directions, average span and chord and projected area are the standard functions of its corners, and transform correctly under rigid motion, scaling and mirroring. The velocity a panel reports inducing at a point is the sum of the velocities induced there by the vortices placed on it.",
 ["inputs"], "every non-degenerate, possibly skewed and non-planar, quadrilateral and every query point",
 "There is no panel unit test; the integration tests only see panels of two flat example wings.",
 [PN], [("derived panel quantities", PN + ": Panel properties"), ("panel induced velocity", PN + ": calculate_(normalized_)induced_velocity")],
 ["Panel attributes and methods"])
prop("C04", "Airfoil coordinates, repaneling and mean camber line are faithful",
 "A four-digit NACA name yields the standard NACA section, a name in the bundled database yields the section stored there, and repaneling keeps the outline (same curve, cosine-spaced, requested number of points per side, trailing edge to leading edge to trailing edge). The mean camber line is midway between the surfaces, the thickness is the distance between them, and sampling the camber line at given arc-length fractions returns points on it at those fractions.",
 ["inputs"], "every four-digit NACA designation, every bundled airfoil, any user-supplied outline and any resolution",
 "The tests use naca2412 and naca0012 at the default resolution and assert nothing about the outline; there are about 1600 bundled sections.",
 [G, P + "airfoils"], [("coordinate generation and database lookup", G + ": Airfoil.populate_coordinates"), ("repaneling", G + ": Airfoil.repanel_current_airfoil"), ("camber line and sampling", G + ": Airfoil.populate_mcl_coordinates, get_downsampled_mcl, get_camber_at_chord_fraction")],
 ["Airfoil.coordinates, mcl_coordinates, thickness and sampling results"])
prop("C05", "Deflecting a control surface rotates exactly the part aft of the hinge",
 "Deflecting a control surface by any angle in [-90, 90] degrees about any hinge point leaves the airfoil ahead of the hinge unchanged and rigidly rotates the camber line and local thickness behind it about the hinge point on the camber line, trailing edge down for positive angles. The original airfoil is not modified, a zero deflection reproduces it, opposite deflections undo each other's direction, and out-of-range angles are rejected.",
 ["inputs"], "every airfoil, hinge location and deflection angle",
 "Tests deflect one elevator in a trim case and never look at the resulting section.",
 [G], [("flap rotation", G + ": Airfoil.add_control_surface")], ["the returned airfoil's coordinates and camber line"])
prop("C06", "The wing mesh is the definition's surface, panelled as requested",
 "The mesh of any wing has the requested number of chordwise panels and the sum of the sections' spanwise panels, is watertight (neighbouring panels share corners exactly), carries correct edge flags and indices, and every corner lies at the position given by the cross sections' leading edges, chords, twists, orientations and cambered (and deflected) airfoils with linear interpolation between sections. Chordwise and spanwise spacing follow the requested uniform or cosine distribution.",
 ["inputs", "configurations"], "every valid wing: any number of sections, chords, offsets, twists, section orientations, airfoils, spacings and panel counts",
 "The tests mesh a few fixed wings and compare integrated loads with loose tolerances only.",
 [M, G, F], [("wing meshing", M + ": mesh_wing and helpers"), ("spacing and interpolation", F + ": cosspace, interp_between_points, angle_axis_rotation_matrix")],
 ["Wing.panels: corners, flags and indices"])
prop("C07", "Symmetric wings are mirrored across their symmetry plane",
 "A symmetric wing has, for every panel of its defined half, the panel's mirror image across the symmetry plane through the wing's leading edge, ordered left tip to right tip with left and right corners kept consistent so that all normals point to the same side. Symmetric control surfaces mirror their deflection and asymmetric ones reverse it, exactly as if the other half had been defined by hand with the opposite deflection.",
 ["inputs", "configurations"], "every valid symmetric wing, symmetry-plane position and orientation and control-surface mixture",
 "Existing tests use symmetric wings about y=0 with symmetric controls, where sign and plane-offset errors cancel.",
 [M, F], [("mirrored half mesh", M + ": mesh_wing"), ("point reflection", F + ": reflect_point_across_plane")], ["Wing.panels"])
prop("C08", "Reference area, span and chord match the planform",
 "A wing's projected area, wetted area, span, standard mean chord and mean aerodynamic chord equal the planform integrals of its definition, doubling for symmetric wings, and are unaffected by translation and scale with the square or first power of size. An airplane takes its reference area, span and chord from its first wing unless explicitly overridden, and counts the panels of all of its wings.",
 ["inputs", "configurations"], "every valid wing and airplane, every combination of overridden reference values",
 "Tests never read these quantities; an error only shifts all coefficients consistently.",
 [G], [("wing reference dimensions", G + ": Wing properties"), ("airplane reference dimensions", G + ": Airplane.__init__")], ["Wing and Airplane reference attributes"])
prop("C09", "Operating point axes and dynamic pressure are correct",
 "The wind-to-geometry transformation is a proper rotation for every angle of attack and sideslip, the freestream direction it gives is (cos a cos b, -sin b, sin a cos b)-consistent with the documented axes and has unit length, and the freestream velocity is that direction times the airspeed. Dynamic pressure is half the density times the airspeed squared, and changing any one input changes only what depends on it.",
 ["inputs"], "every density, airspeed, angle of attack and sideslip",
 "The tests use small alpha and zero beta, where swapped signs and axis order are invisible.",
 [OP], [("rotation and freestream", OP + ": OperatingPoint methods")], ["returned matrices, vectors and dynamic pressure"])
prop("C10", "Ill-formed models are rejected and well-formed ones accepted",
 "Every model that breaks a documented requirement (no wings, fewer than two cross sections, non-positive chord, unknown spacing or control-surface type, offset root section, symmetry plane or chordwise direction inconsistent with the sections, unknown airfoil, over-deflected control surface, missing custom motion function, unknown logging level or solver name, start values outside trim bounds) is refused with an exception when it is built or analysed, and no model that satisfies them is.",
 ["inputs", "configurations"], "every single corruption of every generated valid model, and the valid model itself",
 "No test exercises a rejected input, and the accept side needs varied valid models.",
 [G, MV, F, T, CV], [("constructor validation", G + ": Airplane, Wing, WingCrossSection, Airfoil"), ("movement validation", MV + ": generate_*"), ("analysis validation", T + ", " + CV)],
 ["exceptions raised by constructors and analyses"])
prop("C11", "The steady horseshoe solution satisfies its boundary condition and loads",
 "For any airplanes and operating point, the solved horseshoe strengths make the total velocity (freestream plus all vortices, trailing legs along the freestream) tangential to every panel at its collocation point, and are the unique such strengths. Each panel's force is density times strength times the local velocity crossed with its bound leg and its moment is taken about its airplane's reference point; velocities reported anywhere in the field are freestream plus the vortices' contribution.",
 ["inputs", "configurations"], "every valid multi-wing, multi-airplane steady problem",
 "The tests compare integrated coefficients of two fixed airplanes with XFLR5 within 5-10 percent.",
 [SH, F, A], [("influence assembly, solve and loads", SH + ": run and helpers")], ["solver strengths, field velocities, panel forces and moments"])
prop("C12", "The steady ring solution satisfies its boundary condition and loads",
 "For any airplanes and operating point, the solved ring strengths (with trailing horseshoes carrying the trailing-edge strengths along the freestream) make the total velocity tangential to every panel at its collocation point, and are the unique such strengths. The net force and moment are the Kutta-Joukowski loads of the net circulation on every bound filament, each filament being counted exactly once however its load is shared between the panels it separates.",
 ["inputs", "configurations"], "every valid multi-wing, multi-airplane steady problem",
 "The single test compares integrated coefficients of one fixed airplane with XFLR5 within 10 percent.",
 [SR, F, A], [("influence assembly, solve and loads", SR + ": run and helpers")], ["solver strengths, field velocities, panel forces and moments"])
prop("C13", "Reported loads are the sums of panel loads, consistently normalised",
 "For every solver, an airplane's total force and moment are the sums over its own panels, wind-axis and geometry-axis values differ exactly by the operating point's rotation, and every coefficient is the load over dynamic pressure and the airplane's own reference dimensions (induced drag and lift positive against the wind x and z axes; span for roll and yaw, chord for pitch). Moving the moment reference point changes only moments, by the moment of the total force, and changing reference dimensions changes only coefficients.",
 ["inputs", "configurations"], "every steady and unsteady solution, every reference point and dimension, several airplanes at once",
 "Tests use one airplane per case and reference points near the origin; mixing between airplanes or axes is invisible.",
 [F, PN], [("load processing", F + ": process_steady_solver_forces, process_unsteady_solver_forces"), ("panel coefficients", PN + ": update_coefficients")], ["airplane and panel load attributes"])
prop("C14", "Solutions obey dimensional similarity",
 "Scaling airspeed, density or all lengths of a problem (and time correspondingly when unsteady) leaves every force and moment coefficient unchanged, and scales forces and moments by dynamic pressure times the matching power of length. Strengths scale linearly with airspeed and length.",
 ["inputs"], "every problem and every scale factor, for all solvers (unsteady with the viscosity scaled to match)",
 "No test relates two runs to each other.",
 [SH, SR, U, F, A], [("dimensional homogeneity of the whole pipeline", "solver run methods, " + A)], ["coefficients and loads of paired runs"])
prop("C15", "Results do not depend on placement, ordering or partition of the model",
 "Translating every airplane with its reference point, reordering airplanes or wings (with reference dimensions kept), renaming things, or splitting a spanwise run of panels into abutting cross sections or wings leaves each airplane's loads unchanged. Airplanes placed very far apart obtain the loads they would have alone.",
 ["inputs", "configurations"], "every problem and every such rearrangement, for all solvers",
 "No test relates two runs to each other; index mix-ups only show with several different airplanes and wings.",
 [SH, SR, U, F], [("flattening of airplanes, wings and panels", SH + ", " + SR + ", " + U + ": collapse_geometry")], ["airplane loads of paired runs"])
prop("C16", "Mirroring a problem left to right mirrors its results",
 "Reflecting the geometry across the x-z plane and reversing the sideslip reverses side force, rolling and yawing moments and leaves drag, lift and pitching moment unchanged, for all solvers including moving wings with free wakes. In particular a left-right symmetric case has zero side force, roll and yaw.",
 ["inputs", "configurations"], "every geometry, symmetric or not, operating point and motion",
 "Tests use symmetric cases only and do not check lateral loads.",
 [SH, SR, U, M], [("left/right treatment of legs and edges", SH + ", " + SR + ", " + U)], ["airplane loads of mirrored runs"])
prop("C17", "The solvers agree where they model the same flow",
 "A static geometry marched in time with a prescribed wake approaches the steady ring solution as the wake grows, the first time step equals an impulsive start with no wake, and for a flat thin wing at small incidence the steady horseshoe and steady ring strengths and lift agree. Starting values and stepping never make equivalent steady problems disagree between solvers.",
 ["inputs", "configurations"], "every static problem (long wake) and every flat-wing problem",
 "Each solver is tested alone against XFLR5 numbers within ten percent.",
 [SH, SR, U], [("steady limit of the marching", U + ": run"), ("equivalence of ring lattice and horseshoe lattice", SR + ", " + SH)], ["strengths and coefficients of paired runs"])
prop("C18", "Every unsteady step satisfies flow tangency on the moving surface",
 "At every recorded time step the bound strengths make the velocity relative to the moving panel (freestream of that step, bound rings, current wake and the apparent velocity from the surface's own motion since the previous step) tangential at every collocation point. The trailing-edge rings extend a quarter of a step's convection behind the wing, and the strengths are those of that step's geometry, operating point and wake.",
 ["inputs", "histories"], "every movement, time step, number of airplanes and wake model",
 "The unsteady tests check loosely the final coefficients of static cases or merely that moving cases do not throw.",
 [U, F], [("step set-up, influences and solve", U + ": run, calculate_*_influences, calculate_vortex_strengths, calculate_current_flapping_velocities_*")],
 ["per-step panels' ring strengths and recorded wake"], [("per-step airplanes", "panels with ring vortices as solved at that step", U + ": steady_problems")])
prop("C19", "The wake is shed, convected and aged correctly and its history is kept",
 "At each step one new row of wake rings per wing leaves the trailing edge carrying the previous step's trailing-edge strengths; every older ring keeps its strength and grows older by one time step, and its vertices move with the freestream (prescribed wake) or the full local velocity (free wake) times the time step. Adjacent rings share vertices, the newest row stays attached to the trailing-edge rings, and what was recorded for an earlier step is never altered later.",
 ["histories", "inputs"], "every movement, number of steps, airplanes and wings, prescribed and free wakes",
 "No test inspects the wake.",
 [U], [("wake vertex convection", U + ": populate_next_airplanes_wake_vortex_vertices"), ("wake ring bookkeeping", U + ": populate_next_airplanes_wake_vortices")],
 ["per-step wake strengths, ages and vertices; wings' wake objects"], [("wake histories", "per-step recorded wake arrays", U + ": wake_ring_vortex_*_list")])
prop("C20", "Unsteady loads are Kutta-Joukowski plus the correctly signed rate term",
 "At each step the airplane loads equal the Kutta-Joukowski loads of the net circulation on every bound filament (counted once) in the relative flow including the filament's own motion, plus the rate-of-change-of-circulation pressure load on every panel, with its moment taken about the airplane's reference point. The rate term has the physically correct sign: impulsively started wings get positive initial lift and accelerating wings feel added mass against their acceleration.",
 ["inputs", "histories"], "every movement, step, reference point and wake model",
 "Static tests only see the rate term after it has decayed, and moving tests check nothing but absence of exceptions.",
 [U, F], [("near-field loads", U + ": calculate_near_field_forces_and_moments")], ["per-step airplane and panel loads"])
prop("C21", "Final, mean and RMS results summarise exactly the right steps",
 "For a static movement the reported final loads are those of the last step for each airplane; for a periodic one the reported mean and RMS loads are those statistics over the steps of the last full period. Asking for only the final results changes nothing that is reported, it only skips earlier steps' loads.",
 ["inputs", "configurations", "histories"], "every movement, number of steps and airplanes, with and without the final-only option",
 "Tests read final values of single-airplane static cases only.",
 [U, PR], [("averaging window", PR + ": UnsteadyProblem.__init__"), ("final, mean and RMS loads", U + ": finalize_near_field_forces_and_moments")], ["unsteady problem's final_* lists, per-step loads"])
prop("C22", "Oscillating motions follow their prescribed waveform",
 "Each time-varying quantity equals its base value plus its amplitude times the chosen unit wave (sine, triangle starting upwards from zero, or the user's function of phase) at phase 2*pi*t/period sampled at t = 0, dt, 2dt, ...; with zero amplitude or period it stays at its base value. The samples start at the base value, stay within the amplitude, and repeat with the period. A wing cross section straight above or below its inner neighbour (no lateral offset) keeps its base position and twist, as documented; its outer neighbours still move about it.",
 ["inputs"], "every amplitude, period, base value, step count, time step and wave type, for every oscillating parameter",
 "Tests run movements but never compare a sampled value with the waveform.",
 [MV], [("waveforms", MV + ": oscillating_sinspace, oscillating_linspace, oscillating_customspace"), ("per-parameter dispatch", MV + ": generate_*")], ["generated airplanes', wings', sections' and operating points' values"])
prop("C23", "Movement snapshots preserve everything the movement does not vary",
 "At the first instant (and throughout for zero amplitudes) each generated airplane equals its base airplane; at every instant all attributes that are not being varied keep their base values, including airfoils, chords, orientations, spacings, control surfaces, names, weight, reference dimensions and fluid properties. Flapping is rigid per section: distances between consecutive sections' leading edges are preserved while sweep, heave and pitch angles change by exactly the prescribed amounts.",
 ["inputs", "histories", "configurations"], "every valid base airplane and movement",
 "Tests flap one straight rectangular-style wing and only check that nothing is thrown.",
 [MV], [("snapshot generation", MV + ": generate_airplanes, generate_wings, generate_wing_cross_sections, generate_operating_points")], ["generated airplanes and operating points against the base objects"])
prop("C24", "Time step, step count and period defaults follow the documentation",
 "When not given, the time step is the mean over airplanes of reference chord over chordwise panels over airspeed, static movements run for the requested or default ten chords of the largest reference chord and periodic ones for the requested or default three cycles of the longest period, rounded up to whole steps. Explicit values are used unchanged, contradictory combinations are rejected, and the longest period is the maximum over every component of every airplane and the operating point.",
 ["inputs", "configurations"], "every combination of given and omitted settings over every movement",
 "Tests use the defaults or one explicit setting for a single airplane.",
 [MV, PR], [("defaults and validation", MV + ": Movement.__init__"), ("periods", MV + ": get_max_period")], ["movement.delta_time, num_steps, get_max_period; exceptions"])
prop("C25", "Runs are repeatable and isolated from each other",
 "Running a solver again, running a second solver on the same problem, or interleaving analyses of other models gives the same results and the same-sized histories as a fresh model run once. Building or solving one model never alters another model that shares airfoils, cross sections or operating points with it, nor the user's base objects.",
 ["histories"], "every sequence of build, solve and re-solve operations over several models and solvers",
 "Every test builds fresh objects and runs one solver once.",
 [SH, SR, U, MV, PR], [("solver state initialisation", SH + ", " + SR + ", " + U + ": __init__, run")], ["loads, strengths, histories and input objects before and after"])
prop("C26", "A reported trim point is a trim point within bounds",
 "Whenever a trim search (steady or unsteady) returns finite values, they lie within the given bounds and re-solving at that state with the same weight and thrust gives a mean imbalance of force and moment coefficients below the stated cut-off. Otherwise every returned value is not-a-number, which never happens when the start already is such a point; a start outside the bounds is refused.",
 ["inputs", "configurations"], "every airplane, bounds, cut-off and call budget",
 "The one stable trim test uses a single airplane from one start and checks closeness to one known answer.",
 [T], [("steady trim", T + ": analyze_steady_trim"), ("unsteady trim", T + ": analyze_unsteady_trim")], ["returned state against an independent re-solve"])
prop("C27", "Steady convergence returns the first converged mesh of an unchanged model",
 "The steady convergence study walks its meshes in the documented order (panel aspect ratios from large to small, chordwise counts from few to many inside) and stops at the first one at which no airplane's force or moment coefficient magnitude changed by the criterion's percentage or more from the next coarser aspect ratio, nor from the next coarser chordwise count. It returns the coarser value of each converged parameter, the only value of a parameter that has a single one, aspect ratio 1 if that has not converged, and nothing if no mesh passes. Every mesh it tries represents the reference airplanes and operating point unchanged, except for panel counts that follow from the requested aspect ratio and for the reference dimensions, which are recomputed.",
 ["inputs", "configurations"], "every reference problem, solver, bounds and criterion",
 "The tests run one configuration per solver and compare with one stored answer.",
 [CV], [("steady convergence search", CV + ": analyze_steady_convergence")], ["returned parameters against independent solves of every mesh"])
prop("C28", "Unsteady convergence returns the first converged setting of an unchanged model",
 "The unsteady convergence study walks wake models (prescribed, then free), wake lengths, panel aspect ratios and chordwise counts in its documented nested order and stops at the first setting at which none of the selected load coefficients (final ones, or root mean squares over the last cycle if anything moves) of any airplane changed by the criterion's percentage or more from the previous value of each parameter. It returns the previous value of each converged parameter, the only value of a parameter that has a single one, the free wake or aspect ratio 1 if those have not converged, and nothing if no setting passes. Every setting it tries represents the reference movement unchanged, except for the parameters, the panel counts that follow, and the reference dimensions, which are recomputed.",
 ["inputs", "configurations"], "every reference movement, bounds and criterion",
 "One test runs one static configuration and compares with one stored answer.",
 [CV], [("unsteady convergence search", CV + ": analyze_unsteady_convergence")], ["returned parameters against independent solves of every setting"])
prop("C29", "Streamlines start at the trailing edge and follow the solved flow",
 "After a run, streamlines start at the midpoint of every trailing-edge panel's back edge, once per such panel, and each next point is the previous one displaced by the solved total velocity there times the streamline time step. The requested number of steps and step length are honoured for every solver.",
 ["inputs", "configurations"], "every solved problem, number of streamline steps and step length",
 "No test looks at streamline points.",
 [F], [("streamline integration", F + ": calculate_streamlines"), ("seeding", SH + ": collapse_geometry; " + F + ": update_ring_vortex_solvers_panel_attributes")], ["solver.streamline_points"])
prop("C30", "Reports and plots show the solver's actual results",
 "Printed results, plotted histories, panel and wake surfaces, panel colouring values and animations present exactly the loads, geometry and scalars the solver computed, for the right airplane, step and component, with the documented rounding, for static and periodic cases with and without final-only results. Producing a report never changes results and never fails on a solved problem.",
 ["inputs", "configurations"], "every solved steady or unsteady problem and every reporting option",
 "The output tests only check that three calls on one example do not throw.",
 [OUT], [("text reports", OUT + ": print_steady_results, print_unsteady_results"), ("plots", OUT + ": plot_results_versus_time"), ("surfaces, colouring, draw and animate", OUT + ": get_panel_surfaces, get_wake_ring_vortex_surfaces, get_scalars, draw, animate")],
 ["standard output, plotted line data and meshes handed to the plotting library"])

prop("C31", "Leaving an argument out means its documented default",
 "For every constructor and analysis function that documents a default (airfoils, cross sections, wings, airplanes, operating points, movements, snapshots, problems, runs, streamlines, convergence and trim searches, drawing, animating and plotting), leaving any set of optional arguments out gives exactly what passing the documented defaults gives, whatever the other arguments are. Arguments given by position are taken in the documented order.",
 ["inputs", "configurations"], "every subset of optional arguments left out, over every value of the others",
 "Tests pass nearly everything explicitly, and check no default.",
 [G, MV, OP, PR, F, A, SH, SR, U, CV, T, OUT], [("signatures", G + ", " + MV + ", " + OP + ", " + PR + ": __init__; " + SH + ", " + SR + ", " + U + ": run; " + CV + ", " + T + ", " + OUT + ": analysis and report functions")],
 ["attributes, meshes, results, recorded drawings and logged details with arguments left out and given"])
prop("C32", "What happens at a time step does not depend on later ones",
 "A longer unsteady run repeats a shorter one: for the same movement and time step, geometry, operating point, bound and wake strengths, wake shapes and ages, and reported loads of every step the shorter run has are those the longer run has, whether or not only final results were asked for. Prescribing another motion after a step changes nothing at or before it.",
 ["histories", "inputs"], "every movement, number of steps and continuation",
 "Tests run one number of steps and look at the end only.",
 [U, MV, PR], [("march", U + ": run"), ("sampling", MV + ": generate_airplanes, generate_wings, generate_wing_cross_sections, generate_operating_points, oscillating_*")],
 ["recorded history of runs of different lengths"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
print(len(rows))
