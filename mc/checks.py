"""Which harnesses decide which property."""
CHECKS = {}
def check(pid, parts, rule, level="model_checking", assumptions=()):
    CHECKS[pid] = dict(parts=parts, rule=rule, level=level, assumptions=list(assumptions))
def P(h, **k):
    return dict(harness=h, **k)

check("C01", [P("c01_steps")],
      "every sequence of requested timesteps (menu of four, free for the first 4-7 requests, then a fixed pseudo-random continuation) x SPH kick-drift-kick / drift-kick-drift / MUSCL / Runge-Kutta meshless main loop x level counts x level difference x limiter x stars, through the real main loops with scripted neighbours; the schedule is judged from outside after every step",
      assumptions=["neighbour search, forces and requested steps are scripted (their own checks: C02-C07)", "a request between one and two times the longest step may get half the longest step", "the sm2012sph simulation type crashes at set-up on the original tree and is not explored"])

check("C02", [P("c02_trees")],
      "every (dimension, tree type, leaf size, particle number, geometry, type/opening-criterion configuration, index offset) x every sequence of up to two (thorough: three) tree operations of nine; after each operation every cell is recomputed from the live particles",
      assumptions=["dead particles leave the arrays before a rebuild, as HydroTree::BuildTree does", "more coincident particles than a leaf holds are an explicit error of the oct-tree and not explored for it", "empty cells are exempt from box and centre checks"])

check("C03", [P("c03_neib")],
      "every subset of places x smoothing length pattern x boundary combination x tree x leaf size x activity/level/type/death pattern; every particle's list is compared with all images; point and cell searches over every buffer size",
      assumptions=["kernel ranges below half the box, the code's own limit", "one reflection per wall and dimension, as the code defines mirror images", "particles are more than 1e-9 from the edge of a range"])

check("C04", [P("c04_bounds")],
      "every boundary combination x particle placement in and around the box (cells of a grid incl. both sides of every edge) x smoothing length x velocity, 1D-3D, SPH and meshless: wrapping, reflection, images and images of images, crossing during a run, shift invariance of densities and forces",
      assumptions=["kernel ranges below half the box, the code's own limit", "particles move less than a box length per step"])

check("C08", [P("c08_riemann")],
      "every pair of left/right states of the grid x solver x zero-mass-flux flag x gas constant x face normal; one execution per combination, each evaluating every symmetry and oracle; distinct_nontrivial counts distinct flux vectors",
      assumptions=["states are taken on a finite grid", "reference exact solver: bisection in extended precision", "samples within 1e-6 of a wave front are excluded (either side is right)"])

check("C18", [P("c18_kernels")],
      "every kernel x dimension x implementation (analytic, table of each resolution, copied table) x separation of a complete grid incl. both sides of every knot and table edge",
      assumptions=["reference: B-spline/Gaussian definitions integrated by composite Gauss quadrature in extended precision", "truncated Gaussian may miss 1e-3 of its norm"])

check("C14", [P("c14_params")],
      "every parameter x value x line layout x surrounding lines x order through the real parser; record file read back; every sequence of interface calls up to the depth bound against a map model",
      assumptions=["string values contain no blanks, '#' or colons after the equals sign (the file format cannot express them)", "values are well-formed numbers"])

check("C15", [P("c15_units")],
      "every length in/out x mass in/out unit x quantity x pair of its units, with and without input units from a snapshot; all named units and unknown names",
      assumptions=["SI values of the named units are those of the project's Constants.h to 1e-6 (independent table in the harness)", "magnetic field, charge and current units carry no scaling in the code and are not claimed"])

check("C19", [P("c19_eos")],
      "every EOS class x dimension x parameters x density x energy grid incl. both sides of every break point; table EOS at and around every node of generated tables",
      assumptions=["densities and energies on finite grids", "sound speed of isothermal and barotropic models is the isothermal one (P/rho), as the code documents"])

check("C09", [P("c09_nbody")],
      "every integrator x softening x star system x active set (force sums); every admissible block-step schedule up to the depth bound, compared with an independent extended-precision implementation of the published scheme after every operation; main loop on every level structure; order, reversibility, momentum and exactness on complete grids",
      assumptions=["systems of 2 to 5 stars, 3 dimensions, M4 softening", "some factors are single precision in the code: relative tolerance 1e-8 of the largest term (1e-6 softened)", "external potential: uniform field"])

check("C10", [P("c10_systems")],
      "every subset of eight places for 0..5 (thorough 6) stars x order x masses x speeds x energy limits through tree, sub-systems, perturbers and binary search; complete grid of orbital elements for binaries and hierarchies; main loop with sub-systems for every system x integrator x sub-system integrator x perturbers x levels, checked after every step",
      assumptions=["non-periodic, unsoftened stars in 3 dimensions", "the code's approximation of a system by its centre of mass for outside forces is accepted (tolerances of that order)"])

check("C24", [P("c24_ics")],
      "every lattice size, sphere size and sequence of random draws up to the bound through the real generators; every set-up x particle distribution x particle number x box x density/velocity parameters through GenerateIC",
      assumptions=["set-ups that need FFTW (turbulence) or only make sense at large N (disc, filament, polytrope, Bondi, SILCC, isothermal sphere) are not claimed", "boxes have the aspect ratio the lattice needs, as the documentation requires", "random set-ups use one fixed low-discrepancy sequence of draws"])

check("C05", [P("c05_sph")],
      "real grad-h SPH objects (1-3D) for every combination of option set (kernels, tabulated or not, three trees, leaf sizes, viscosities, conductivities, equations of state, tolerances, initial guesses, gravity) x boundaries (open, periodic, mirror, mixed) x arrangement x velocities x states: h-rho relation, density, 1/omega, zeta, acceleration, heating, divergence, viscosity rates and neighbour levels against direct sums over all images; totals of momentum and energy; every set of active particles (1D) and each single / striped / half set (2D, 3D); two steps repeated with other orders and trees",
      assumptions=["tabulated kernels: compared within the table's resolution", "the truncated Gaussian kernel is not compared for neighbours at its very edge", "periodic smoothing lengths are small enough for the code's own restriction", "sm2012 SPH cannot be set up in this tree (crashes at start)"])
check("C06", [P("c06_gravity")],
      "real SPH and MFV gravity for every combination of tree, leaf size, opening criterion, multipole order, kernel, particle types, masses, arrangement and number: direct softened sums and third law with every cell opened; every walk's lists partition the particles, meet the opening criteria and give the expansions of their contents; accelerations against the gradient of the potential energy; walks for stars; Ewald tables for every set of periodic directions x box shape at and between all nodes; periodic boxes of particles against all pairs",
      assumptions=["lattice sums are compared within the table's interpolation error", "potentials of 1- and 3-periodic boxes are compared up to a constant", "arrangements where a smoothing length has no solution are skipped"])
check("C07", [P("c07_conserve")],
      "closed meshless boxes (both integrators, exact and HLLC, finite-volume and finite-mass, every limiter, three trees, 1-3D, all mixes of periodic / mirror / wall sides) run through the real main loop for every choice of options, initial pattern and start of the sequence of requested timesteps: totals of mass, energy and momentum (what particles hold plus exchanges in flight) after every step; each pair's exchange computed from both sides; the same run on re-ordered, reflected and differently indexed particles",
      assumptions=["the non-conservative 'simple' timestep limiter is excluded", "states are mild: runs in which a smoothing length outgrows the box are refused by the code and skipped", "no gravity or stars"])
check("C23", [P("c23_leapfrog")],
      "every sequence of requested timesteps (menu of four, free for the first 4-7 requests) x SPH kick-drift-kick / drift-kick-drift / meshless integrators x level counts x wake-ups x heating/cooling, through the real main loops with scripted forces; positions, velocities and energies compared with a reference integrator after every step; every number of global steps there and back",
      assumptions=["neighbour search, forces and requested steps are scripted", "a drift-kick-drift step cut short by a neighbour ends at its first-order predicted values, as the code defines", "meshless runs: no gravity"])
check("C11", [P("c11_sinks")],
      "every combination of sink mode (fixed / kernel / density radius), sudden or smooth accretion, dead-particle handling, 2D/3D, boundaries, SPH and both meshless schemes x arrangement of dense candidates, existing sinks and gas x masses, velocities, active sets and time-step levels through the real search and accretion, and main-loop runs: totals of mass, momentum and centre of mass, the formation criteria, single ownership of accreted gas, sink records and dead particles",
      assumptions=["conservation is judged over the formation / accretion operation on current (predicted) values", "energy is not claimed", "of the auxiliary formation criteria (Hill sphere, free fall) only that they never add a sink is judged", "runs end when too few gas particles remain for a smoothing length", "the limit on the number of sinks is judged at entry of a search"])
check("C12", [P("c12_snap")],
      "every particle content (gas, dust, other types, accreted particles, stars) x dimension x unit system x value menu (full mantissas, magnitudes 1e-120..1e108) x format: the file parsed by an independent reader of the published layout, read back by restart, as initial conditions and into the analysis buffer, headers, rewriting; every sequence of up to three (four) buffer reads into one simulation; every truncation of files of every format; foreign, missing and damaged files",
      assumptions=["a text file cut within its very last number cannot be told from a whole one", "column files carry no types and identifiers; icm particles are read back as gas, as the readers define", "the sf values have 11 digits, column files 6", "seren_lite has no reader in the code: only its file is judged"])
check("C13", [P("c13_restart")],
      "the file operations of real runs (stars, SPH, meshless, gas with a star; su and sf; output intervals shorter and longer than a step; delayed first snapshot; temporary snapshots never / always / every third step; units; block steps) are recorded, and the files left by a kill after every one of them (and in the middle of a write) are rebuilt and really restarted: state, time, numbers, schedule and earlier snapshots; the restarted run killed again everywhere; every write failing from some point on; every sequence of scripted step lengths x intervals x a restart after any step; the run driver's endings",
      assumptions=["a killed process keeps what it has handed to the operating system (no power loss, no reordering by the disk)", "column snapshots carry no numbers: a known finding", "after a restart the trajectory is judged by its restored state and its outputs, not by bitwise continuation", "freshly allocated memory reads as not-a-number in this harness"])

check("C22", [P("c22_arrays")],
      "an independent list on which every operation is repeated: every attribute byte of every live particle is compared after each operation, and whole runs with particles killed and created in mid-step are compared with the list of their identifiers, types and masses",
      assumptions=["sm2012 SPH is disabled in this tree", "every particle creation goes through the point of the step where feedback adds particles, as in the code", "arrays of processes other than this one (MPI) are not explored"])

check("C21", [P("c21_gradients")],
      "definitions: a linear field's slope is its slope, a constant field's is zero, limited face values lie in the range of the particle and its neighbours (found by brute force), signs mirror, uniform media stay uniform through whole steps, reconstructed densities and pressures stay positive across jumps",
      assumptions=["exactness is required where the moment matrix is well conditioned by the code's own criterion (with a margin); elsewhere gradients need only be finite", "the GIZMO limiter is held to its own pairwise bounds and to signs", "limits along a field's own level lines may be set by rounding"])

check("C20", [P("c20_dust")],
      "every drag calculation is recomputed: for test particles the kernel-weighted gas state at the dust and the exact solution of dv/dt = a - v/t_s averaged over the kick, gas untouched bit for bit; for two fluids every pair's exact line-of-sight impulse with kernel weight, its reaction, and the kinetic energy lost appearing as heat of the gas; whole runs: exponential decay in uniform gas at the exact rate for every stopping time, conserved momentum and energy of mixtures, gas of a run with test particles equal to that of a run without",
      assumptions=["reflecting boundaries and block timesteps for two fluids are refused by the code", "the sign of the heat is claimed where no other force acts and the kernel weights of a particle sum to at most one", "dust lies inside the gas", "compact kernels (m4, quintic, tabulated)"])

check("C17", [P("c17_runs")],
      "the same object advanced in one uninterrupted series of steps without output: after every call of Run and InteractiveRun (every composition of the steps, every output setting, every observation between calls, another simulation stepped in between) the whole state — times, counters, every attribute of particles and stars — is compared bit for bit; runs stop at the first step whose time reaches tend or at the step limit, for end times at, next to and between steps; seeds repeat and differ",
      assumptions=["states are compared within one build and machine", "the system random-number generator is one per process: repeated runs are compared one after the other, not interleaved", "a Run with a given number of steps is not bound by Nstepsmax, as in the code"])
