P={}
P['C01']=("Lines, horseshoes and rings with up to 5 vortices, vertices on a 1/8 grid at sizes 1e-3, 1, 100, wing-like and arbitrary; strengths 0 to 1e4, ages 0 to 50, four viscosities; points free, far, on vertices, on legs, on extensions, and 1e-1 to 1e-6 beside them.",
"*field*: extended-precision segment formula with a per-term rounding bound; expanded form = collapsed form summed; on-axis points give exactly zero; chordwise-segment variant against its two legs. *integral*: Gauss-Legendre quadrature of the Biot-Savart integral (no closed formula shared with the code). *relations*: linearity in strength, translation, reversal, permutation.",
"Points within rounding of the cut-off. A core radius is only compared through the velocity.")
P['C02']=("Histories of up to 25 operations (strength, position, age updates; arrays shared between vortices and mutated by the caller's own updates) on up to four horseshoes and rings.",
"A dictionary model of vertices, strength and age; after each operation every leg's origin, termination, vector, centre and strength, the ring's centre, for *every* vortex in the pool (isolation).","")
P['C03']=("Warped quadrilaterals at several sizes, with and without vortices; panels of solved steady problems.",
"*geometry*: closed-form corner formulas, rotated/translated/scaled/mirrored copies. *induced*: sum of reference velocities of the panel's vortices, normalised and not. *solved*: panels' velocities add up to the solver's field.","Quadrilaterals with nearly zero area or parallel diagonals.")
P['C04']=("All four-digit names, every bundled file (1,500 quick draws over about 1,550 files, names in mixed case), repanelled with 5 to 400 points per side, and custom outlines.",
"*naca*: analytic section within the polygon's chord error, and standard camber/thickness. *database*: an independent reader of the bundled file; distance of every repanelled point from the stored outline and back, cosine spacing by arc length, order, point count. *outline*: the same for random outlines; camber line midway, thickness the distance, arc-length sampling.",
"NACA sections with more than mild camber are compared with the section the code documents (thickness normal to the camber line) rather than x by x.")
P['C05']=("Angles in [-90, 90] (and beyond, which must be refused), hinges 0.05 to 0.98, NACA and bundled airfoils, several point counts.",
"Rigid rotation about the hinge on the camber line of every camber point and thickness vector behind it, identity ahead of it, orientation sign, the original untouched, zero deflection the identity, chained opposite deflections.","")
P['C06']=("Wings of up to 4 sections with everything in the generator; spacing separately.",
"An independent mesher (section frames, camber sampling, bilinear interpolation): every corner; shared corners bit-equal; flags, local positions and shapes; uniform and cosine fractions recovered from flat wings.","")
P['C07']=("Symmetric wings, all planes through the root; symmetric and asymmetric control surfaces.",
"*mirror*: panel-by-panel reflection, order, orientation of normals. *by hand*: the same wing with its other half written out as sections.","")
P['C08']=("Random wings, flat wings, airplanes with and without overrides.","Sums over panels, planform integrals, span by section positions, translation and scaling relations, first-wing defaults.","")
P['C09']=("Angles over the full circle and beyond, any speed and density.","Independent wind-axes construction (project, rotate), orthonormality, determinant, one-input-at-a-time dependence.","")
P['C10']=("A random valid airplane, movement or analysis with one documented requirement broken.","The broken one raises, its unbroken twin does not (and is built, meshed, generated).","")
P['C11']=("Up to two airplanes of two wings, up to 4 x 3 panels per section, +-40 degrees; solved twice, the second time at another operating point.",
"An independent horseshoe lattice built from the panel corners: tangency residual of the *reported* strengths, strengths within the condition number, field velocity anywhere, panel and total forces and moments. Trailing legs must follow the freestream and be more than 15 spans long, their exact length is taken from the code.","Scaled condition above 1e6; points next to filament axes.")
P['C12']=("As C11.","As C11 with rings, trailing horseshoes, net circulation per filament counted once; shared legs' loads are judged as airplane totals.","As C11.")
P['C13']=("All three solvers, up to two airplanes with their own references and reference points.","*sums*: totals re-added from panels, axes rotated independently, every coefficient renormalised; the same model with another reference point or other dimensions. *final*: the unsteady problem's lists.","")
P['C14']=("Airspeed, density and length factors 1e-9 to 1e6 (lengths narrower), all solvers, one to four steps, viscosity scaled with speed times length.","Coefficients unchanged, loads times rho v^2 l^2 (l^3), strengths times v l.","Vortex cores contain an absolute 1e-4 |strength| term that scales along; very small models (length factor below 0.02) meet the kernels' absolute cut-offs and are left out.")
P['C15']=("Translations, permutations of airplanes and wings, renamings, extra cross sections, wings split into abutting wings, airplanes thousands of chords apart; all solvers.","Loads of both runs; tolerance from the condition and, for far-apart cases, the decay of the field.","Abutting wings share filaments exactly only if their edges coincide bit by bit; others get the tolerance of the kernels' cut-off.")
P['C16']=("As C13, mirrored; symmetric models of every kind, moving, with both wake models.","Signs of the six components for every airplane and step; zero side force, roll and yaw.","Tip sections tilted so far that trailing legs' finite lengths differ.")
P['C17']=("Static wings marched until the wake is long; starts; flat wings.","*steady limit*: ring solver's strengths and loads, error bound from the wake length. *first step*: the strengths of a bare ring lattice with the documented quarter-step trailing rings. *flat wings*: horseshoe strengths = differences of ring strengths, equal lift.","Wakes passing within a chord of another wing.")
P['C18']=("Random flapping models, every oscillating quantity, 1 to 5 steps, free and prescribed wakes, two airplanes.","At every step: independent lattice from the recorded corners, recorded wake, apparent velocity from the previous recorded positions; residual and strengths.","Ill-conditioned steps, points on filament axes.")
P['C19']=("As C18; histories looked at while marching.","*march*: wake rows, strengths, ages and each vertex moved by the reference velocity. *history*: step k of a long run equals step k of a run of k steps.","Jumping custom waves in *history* (times differ by rounding).")
P['C20']=("As C18; impulsive starts; accelerating plunges.","*loads*: Kutta-Joukowski on every filament once plus rate term per step. *impulsive start*: sign. *added mass*: sign against acceleration.","")
P['C21']=("Static and periodic movements with several periods, only-final or not, one to three cycles; chord-length counts.","Last step's loads; mean and RMS over ceil/floor-independent window of the last longest period; only-final equals full; defaults.","")
P['C22']=("Amplitudes, periods, steps and time steps incl. commensurate ones; 8 custom functions, some with jumps, some not periodic.","Closed-form waves for functions and for every quantity of generated airplanes.","Samples on a jump.")
P['C23']=("Random movements of random airplanes; single flapping sections.","Deep comparison of every attribute of each snapshot with the base object or, if varied, the prescribed value; rigid-section kinematics.","Sections level with their neighbour (dy = 0) are documented as frozen.")
P['C24']=("Movements of one to three airplanes, all combinations of given and default arguments.","The documented rules; contradictory combinations refused; longest period over every component.","A number of steps that is whole up to rounding may be either.")
P['C25']=("Histories of up to 7 operations over up to 3 models that share airfoils, sections or operating points and differ in panels, places, symmetry, hinges, deflections, twist: steady and unsteady runs, running again, another solver on one step of an unsteady problem, building more models.","Every number left behind (solver, problem, airplanes, panels, wakes) equals that of a fresh model that shares nothing; earlier results stay; definitions stay.","")
P['C26']=("Models whose weight, thrust and reference point are constructed so that a chosen state is (or is not) trim, starts a little or far away, bounds that touch the start, small call budgets. *tables*: stand-in solvers answer with generated smooth load tables, so the search's own arithmetic is explored on thousands of arbitrary models.","Re-solve of every reported state; within bounds; all-NaN otherwise; start at trim is found; start outside refused.","The optimiser's success away from trim is not required. Equal bounds are not generated.")
P['C27']=("Models of one or two airplanes, bounds of both parameters, criteria placed between the changes that occur. *any answers*: a stand-in solver answers with generated coefficient tables, so the search runs over arbitrary histories of changes.","Independent re-meshing, solves and search; every tried mesh compared with the reference model; reference unchanged; wrong solver names refused.","Changes within rounding of the criterion, panel counts that are ties.")
P['C28']=("As C27 with both wakes, wake lengths, masks, static and periodic movements. *any answers*: stand-in solvers with generated coefficient tables.","As C27, over the four nested parameters.","As C27; coefficients that are noise.")
P['C29']=("All three solvers, numbers of steps and step lengths.","Seeds at back-edge midpoints, once each; every displacement against the reference velocity there.","Points near vortex cores or axes (velocity ill-conditioned).")
P['C30']=("Solved problems of all kinds; options of draw/animate/plots; airfoils.","Recording stand-ins for PyVista's plotter, webp and figure saving: numbers, titles, meshes, scalars, colours' limits, frames against the solver's state; text parsed back; results unchanged afterwards. *surfaces*: panel and wake meshes.","Actual rendering (stand-ins). Airplanes with equal names, which overwrite each other's figure files.")
P['C31']=("Random subsets of optional arguments left out of every constructor of a random two-airplane movement, of runs, streamlines, snapshots, kernels, control surfaces, drawings, animations, plots, convergence and trim searches; some arguments by position.","The same call with the documented defaults (a table in `c31.py`) passed: identical attributes, meshes, results, recorded drawings, meshes tried, solves made; the default logging level logs no details.","The cycles' range of the unsteady convergence study: its documentation says (1, 4), the code (2, 4), and nothing tells which is meant. Outlines that are not repaneled and have more points on one side.")
P['C32']=("Movements of up to two airplanes, 1 to 5 steps and 1 to 5 more, cycles from a fraction of the run to many; custom motions altered after the shorter run's end; final-only in one, both or neither.","Everything recorded for every step of the shorter run, in the longer one.","Custom waves that jump (a step may fall on either side by rounding).")
