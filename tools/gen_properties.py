#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=None)))

add("C01", "Block timesteps keep every particle on a valid, synchronised level",
 "At every step each particle and star has a timestep that is the smallest timestep divided into a power-of-two hierarchy, is never longer than the longest step that it asked for when it was last assigned, starts and ends on a multiple of its own length in integer time, and is consistent with the step lengths of its neighbours to within the allowed level difference at the times levels are assigned. "
 "The step hierarchy can be re-sized only at times at which doing so leaves every particle synchronised, simulated time never goes backwards, and the sum of the smallest steps taken equals the elapsed time. "
 "When all particles share one level the step equals the smallest requested timestep of all particles and stars.",
 ["histories", "schedules", "configurations"],
 "every sequence of per-particle timestep requests (from a finite menu) over a bounded number of steps, for SPH, meshless and N-body runs, all level-count and level-difference settings",
 "Levels are a global state machine driven by the requests of all particles; the regression runs follow a handful of fixed request histories and check only final profiles.",
 ["src/Hydrodynamics/SphSimulation.cpp","src/MeshlessFV/MeshlessFVSimulation.cpp","src/Nbody/NbodySimulation.cpp","src/Hydrodynamics/SphLeapfrogKDK.cpp","src/Hydrodynamics/SphLeapfrogDKD.cpp","src/Hydrodynamics/SphIntegration.cpp","src/MeshlessFV/MfvIntegration.cpp","src/Headers/InlineFuncs.h"],
 [("ComputeGlobalTimestep / ComputeBlockTimesteps","src/Hydrodynamics/SphSimulation.cpp, src/MeshlessFV/MeshlessFVSimulation.cpp, src/Nbody/NbodySimulation.cpp"),("CheckTimesteps (saitoh-makino limiter)","src/Hydrodynamics/SphLeapfrogKDK.cpp"),("ComputeTimestepLevel","src/Headers/InlineFuncs.h")],
 [("n, Nsteps, nresync, level_max, timestep","integer clock of the step hierarchy","src/Headers/Simulation.h"),("level, levelneib, nstep, nlast, dt","per particle step bookkeeping","src/Headers/Particle.h")])

add("C02", "Spatial trees always describe exactly the live particles they contain",
 "After any sequence of building, re-stocking, extrapolating and updating a spatial tree over any set of particles (including dead ones, coincident ones and one-dimensional configurations), each live particle belongs to exactly one leaf, and the counts, masses, centres of mass, quadrupole moments, bounding boxes, search boxes, maximum smoothing lengths, velocity bounds and active counts held by each cell equal or bound those of its live particles. "
 "The traversal order visits every leaf exactly once and every cell's subtree is a contiguous range.",
 ["histories", "inputs"],
 "every placement of up to 8 particles on a small lattice with all alive/dead and active patterns, every tree type and leaf size, and every short sequence of tree operations",
 "The unit tests only test one random particle set and one tree configuration; a wrong cell summary silently drops a few interactions.",
 ["src/Tree/KDTree.cpp","src/Tree/OctTree.cpp","src/Tree/BruteForceTree.cpp","src/Tree/Tree.cpp","src/Tree/HydroTree.cpp","src/Headers/Tree.h"],
 [("BuildTree/StockTree/ExtrapolateCellProperties/UpdateHmaxValues/UpdateActiveParticleCounters","src/Tree/KDTree.cpp, src/Tree/OctTree.cpp, src/Tree/BruteForceTree.cpp")])

add("C03", "Neighbour searches return every interacting particle exactly once",
 "For any particle arrangement, smoothing lengths, boundary types and tree type, the neighbours found for a particle are exactly those (including periodic and mirror images) that lie within its own kernel range or, for symmetric searches, within whose kernel range it lies: none missing and none duplicated, with dead particles and non-interacting types left out. "
 "Point searches used for sinks and feedback return every live particle within the radius, whatever the size of the buffer supplied.",
 ["inputs", "configurations"],
 "all placements of small particle sets on lattices spanning the box edges, all smoothing length assignments from a menu, all boundary combinations in 1-3D, all trees, buffers of every small size",
 "Regression problems have smooth, nearly uniform particle distributions; a missed neighbour at a box edge or with a large smoothing length contrast changes results below their tolerances.",
 ["src/Tree/Tree.cpp","src/Tree/HydroTree.cpp","src/Headers/NeighbourManager.h","src/Headers/GhostNeighbours.hpp","src/Tree/BruteForceTree.cpp"],
 [("Gather and scatter-gather tree walks","src/Tree/Tree.cpp"),("NeighbourManager trimming","src/Headers/NeighbourManager.h"),("GhostNeighbourFinder","src/Headers/GhostNeighbours.hpp")])

add("C04", "Boundaries map particles and their images consistently",
 "A particle that leaves through a periodic side re-enters on the opposite side, and one that hits a mirror or wall is reflected with reversed normal velocity, with the stored start-of-step values moved in the same way. "
 "Every boundary image needed within the interaction range is generated exactly once (including edges and corners), has the position, velocity and properties of its parent transformed by the boundary, and continues to follow the parent when the parent's properties are updated.",
 ["inputs", "histories", "configurations"],
 "all particle positions on a lattice around the box faces, edges and corners, all velocities signs, all left/right boundary type combinations, 1-3D, particles and stars",
 "Tests use one or two boundary combinations in smooth flows, corner and mixed cases never occur.",
 ["src/Hydrodynamics/Ghosts.cpp","src/Hydrodynamics/SphIntegration.cpp","src/MeshlessFV/MfvIntegration.cpp","src/Nbody/Nbody.cpp","src/Tree/HydroTree.cpp","src/Hydrodynamics/Hydrodynamics.cpp","src/Headers/DomainBox.h","src/Headers/Particle.h"],
 [("CheckBoundaries","src/Hydrodynamics/SphIntegration.cpp, src/MeshlessFV/MfvIntegration.cpp, src/Nbody/Nbody.cpp"),("SearchBoundaryGhostParticles / CopyHydroDataToGhosts","src/Tree/HydroTree.cpp, src/Hydrodynamics/Ghosts.cpp")])

add("C05", "SPH sums are the defining kernel sums and conserve momentum and energy",
 "For any particle arrangement, the converged smoothing length satisfies the h-rho relation to the requested tolerance, density and the correction factors equal the kernel sums over all neighbours, and accelerations and heating rates equal the published pairwise sums over all (periodic/mirror) neighbours, independent of the tree type, leaf size or particle order used. "
 "Consequently, with global steps and no external forces, total momentum, and the rate of change of kinetic plus thermal energy, are conserved to rounding (up to the tolerance of the smoothing length).",
 ["inputs", "configurations"],
 "all small particle arrangements from a lattice with perturbation menus, all kernels, viscosities and conductivity options, all tree types, all boundary combinations",
 "Regression tests compare noisy profiles with per-cent tolerances on a few set-ups.",
 ["src/GradhSph/GradhSph.cpp","src/GradhSph/GradhSphTree.cpp","src/Hydrodynamics/Sph.cpp","src/SM2013/SM2012Sph.cpp","src/Headers/SmoothingKernel.h"],
 [("ComputeH, ComputeSphHydroForces, ComputeSphHydroGravForces","src/GradhSph/GradhSph.cpp"),("UpdateAllSphProperties / UpdateAllSphHydroForces","src/GradhSph/GradhSphTree.cpp")])

add("C06", "Gravity equals direct summation up to the requested opening accuracy",
 "For any particle arrangement, gravitational accelerations and potentials from the tree converge to the direct softened sum over all particles and stars as the opening criterion is tightened (equal to rounding when every cell is opened), and for a non-zero opening angle each accepted cell obeys the criterion and every particle's mass is counted exactly once. "
 "Multipole contributions equal the monopole/quadrupole expansion of the cell contents; forces between gas and stars, gas and gas and star and star obey Newton's third law when directly summed; periodic gravity equals the lattice sum within its documented accuracy.",
 ["inputs", "configurations"],
 "all small arrangements from lattices with mass and smoothing menus, every multipole and opening criterion, every tree, hydro scheme, and star count",
 "Existing tests use one smooth configuration with one opening criterion.",
 ["src/Tree/Tree.cpp","src/Tree/HydroTree.cpp","src/GradhSph/GradhSph.cpp","src/GradhSph/GradhSphTree.cpp","src/MeshlessFV/MeshlessFVTree.cpp","src/Headers/MultipoleMoment.h","src/Common/Ewald.cpp","src/Nbody/Nbody.cpp"],
 [("ComputeGravityInteractionAndGhostList","src/Tree/Tree.cpp"),("ComputeCell(Fast)Monopole/QuadrupoleForces","src/Headers/MultipoleMoment.h"),("Ewald correction table","src/Common/Ewald.cpp")])

add("C07", "Meshless finite-volume runs conserve mass, momentum and energy exactly",
 "For closed (periodic or mirrored) boxes, total mass and, in periodic boxes, total momentum and (without gravity) total energy held by the particles plus the fluxes in flight are conserved to rounding through any sequence of steps, whatever block-timestep levels the particles occupy, for all Riemann solvers, slope limiters, integrators and trees. "
 "Cell volumes (inverse number densities), gradients and fluxes do not depend on which of the two particles of a pair carries out the exchange.",
 ["schedules", "histories", "configurations"],
 "all assignments of timestep levels to small particle sets over complete level cycles, all solver, limiter and boundary options",
 "Conservation is a property of every pairing of active and inactive neighbours; regression runs only compare final profiles with tolerances.",
 ["src/MeshlessFV/MfvMuscl.cpp","src/MeshlessFV/MfvRungeKutta.cpp","src/MeshlessFV/MfvCommon.cpp","src/MeshlessFV/MeshlessFV.cpp","src/MeshlessFV/MfvIntegration.cpp","src/MeshlessFV/MeshlessFVTree.cpp","src/MeshlessFV/MfvMusclSimulation.cpp","src/MeshlessFV/MfvRungeKuttaSimulation.cpp"],
 [("ComputeGodunovFlux and flux bookkeeping dQ/Qcons","src/MeshlessFV/MfvMuscl.cpp, src/MeshlessFV/MeshlessFVTree.cpp"),("EndTimestep","src/MeshlessFV/MfvIntegration.cpp")])

add("C08", "Riemann solvers are consistent, symmetric and Galilean-covariant",
 "For any pair of physical left and right states every Riemann solver returns the exact physical flux when both states are equal, mirror-symmetric fluxes for mirrored states, the upwind flux for supersonic flow, zero mass flux for a stationary contact, and finite values; the exact solver's star state satisfies the jump and rarefaction relations of both waves. "
 "The result transforms correctly under rotation of the coordinate frame and under a change of frame velocity.",
 ["inputs"],
 "every pair of states from a grid of densities, pressures and velocities (including near-vacuum and strongly supersonic), every face direction from a grid, every solver and gas constant in a menu",
 "Regression tests meet only the states of one or two shock tubes.",
 ["src/Hydrodynamics/RiemannSolver.cpp","src/Headers/RiemannSolver.h"],
 [("ExactRiemannSolver, HllcRiemannSolver, HllRiemannSolver, ShearRiemannSolver","src/Hydrodynamics/RiemannSolver.cpp")])

add("C09", "N-body integrators advance stars at their designed order and stay conservative",
 "For any small stellar system and any block-step schedule, each integrator reproduces its published scheme: its error falls with its design order as the step is refined, total momentum is conserved to rounding with common steps, symmetric schemes are time-reversible, and free or uniformly accelerated motion is followed exactly. "
 "Accelerations, jerks and potentials equal the direct pairwise sums (softened or not), and inactive stars are predicted, not kicked.",
 ["inputs", "schedules", "configurations"],
 "all small systems (2-4 stars) from a lattice of positions, velocities and masses; all integrators; all level assignments",
 "The stable tests contain one Jeans-like N-body run without precise orbit checks.",
 ["src/Nbody/NbodyLeapfrogKDK.cpp","src/Nbody/NbodyLeapfrogDKD.cpp","src/Nbody/NbodyHermite4.cpp","src/Nbody/NbodyHermite4TS.cpp","src/Nbody/NbodyHermite6TS.cpp","src/Nbody/NbodySimulation.cpp","src/Nbody/Nbody.cpp"],
 [("AdvanceParticles / CorrectionTerms / EndTimestep / force loops","src/Nbody/*.cpp")])

add("C10", "Stellar system analysis partitions stars into valid hierarchies",
 "For any set of stars, building the hierarchical stellar system assigns each star to exactly one top-level object, each system's mass, centre of mass, velocity and component count equal those of its members, and reported binary elements (semi-major axis, eccentricity, energy, period) equal those of the two-body problem. "
 "Integrating with sub-systems preserves the stars, their masses, and the centre-of-mass consistency of every system.",
 ["inputs", "configurations"],
 "all placements of 2-5 stars from lattices of positions and velocities with mass menus and boundedness thresholds",
 "No stable test enables sub-systems or binary statistics.",
 ["src/Nbody/NbodySystemTree.cpp","src/Nbody/Nbody.cpp"],
 [("CreateNbodySystemTree / BuildSubSystems / FindBinarySystems / RestockTreeNodes","src/Nbody/NbodySystemTree.cpp")])

add("C11", "Sink creation and accretion conserve mass, momentum and angular momentum",
 "Over any sequence of sink formation and accretion steps the total mass, linear momentum, centre of mass and angular momentum (including the sinks' spin) of gas plus sinks are unchanged, gas is accreted only from particles inside a sink's radius, a particle never contributes more mass than it holds, and fully accreted particles are removed from all later interactions. "
 "A sink is only created from the densest eligible live particle above the threshold that is a local potential minimum at the end of its own step and whose sink would not overlap an existing sink.",
 ["histories", "inputs", "configurations"],
 "all small gas arrangements around one to three sinks, all particle levels and mass menus, instant and smooth accretion, over several consecutive accretion steps",
 "One unit test exists for sinks, with a fixed cloud; smooth accretion, several sinks and block steps are not tested.",
 ["src/Nbody/Sinks.cpp","src/Hydrodynamics/Hydrodynamics.cpp","src/Hydrodynamics/Sph.cpp","src/MeshlessFV/MeshlessFV.cpp","src/Hydrodynamics/SphSimulation.cpp"],
 [("SearchForNewSinkParticles / CreateNewSinkParticle / AccreteMassToSinks","src/Nbody/Sinks.cpp"),("DeleteDeadParticles","src/Hydrodynamics/*.cpp, src/MeshlessFV/MeshlessFV.cpp")])

add("C12", "Snapshots written to disk restore the state that was saved",
 "Writing a simulation to any full-precision snapshot format and reading it back (into a simulation or into the analysis buffer) restores particle counts, types, positions, velocities, masses, smoothing lengths, energies, densities, star data and header values, in physical units, to the precision of the format, for any particle content, dimension and unit system. "
 "Formats agree with one another, and malformed or missing files are reported as an error rather than read as data.",
 ["inputs", "configurations", "crash_points"],
 "all small particle contents (gas, dust, stars, none) and value menus including extreme magnitudes, all formats and dimensions, unit choices, and every truncation point of a file",
 "Existing tests only read back snapshots through the plotting layer with default formats.",
 ["src/Headers/SimulationIO.hpp","src/Headers/BinaryIO.h","src/Common/SphSnapshot.cpp","src/Headers/formatted_output.h"],
 [("Write/Read Column, SerenForm, SerenUnform, SerenLite snapshot","src/Headers/SimulationIO.hpp")])

add("C13", "Output and restart always leave a resumable, correctly numbered run",
 "Snapshots appear at the scheduled times with consecutive numbers and never twice for the same time, whatever the step lengths; at any instant, a run that is killed can be restarted from its restart record, which names a snapshot that was completely written. "
 "A restarted run continues from the saved time with the saved state and the next snapshot number, and does not overwrite earlier snapshots.",
 ["crash_points", "histories", "configurations"],
 "every prefix of the sequence of file operations of a short run, all step length sequences from a menu, all output interval settings",
 "No test interrupts a run or restarts one.",
 ["src/Common/Simulation.cpp","src/Common/gandalf.cpp","src/Headers/SimulationIO.hpp"],
 [("Output / RestartSnapshot","src/Common/Simulation.cpp"),("restart handling","src/Common/gandalf.cpp, src/Common/Simulation.cpp")])

add("C14", "Parameters are read, changed and recorded without loss",
 "Any parameter set through a file or the programming interface takes exactly the value given, unaffected by comments, spacing or order, leaves all other parameters unchanged, and unknown parameters never change any setting. "
 "The parameter record written by a run, when read back, reproduces every parameter value exactly, so a recorded run can be reproduced.",
 ["inputs", "histories"],
 "all parameter names with value menus (signs, exponents, full-precision decimals), every layout of a line (comment prefix, spacing, hash lines), every short sequence of set/get/record/read operations",
 "Tests set a few parameters to short decimal values.",
 ["src/Common/Parameters.cpp","src/Common/Simulation.cpp"],
 [("ParseLine / SetParameter / GetParameter / RecordParametersToFile","src/Common/Parameters.cpp"),("SetParam / GetParam","src/Common/Simulation.cpp")])

add("C15", "Unit scaling is consistent across all quantities",
 "For every choice of input and output units the internal scaling makes the gravitational constant unity, derived quantities (time, velocity, acceleration, density, pressure, energy, and so on) scale as their dimensions require, and converting a value into code units and back is the identity. "
 "Each named unit has its physical SI value, and dimensionless runs apply no scaling.",
 ["configurations", "inputs"],
 "every combination of recognised length, mass, time, temperature and derived-unit names",
 "The tests use one or two unit combinations and never compare quantities in different units.",
 ["src/Common/SimUnits.cpp","src/Headers/SimUnits.h","src/Headers/Constants.h"],
 [("SetupUnits / SIUnit / OutputScale","src/Common/SimUnits.cpp")])

add("C16", "The analysis buffer serves the right snapshot within its memory budget",
 "Whatever sequence of loading simulations, adding, requesting and stepping through snapshots is performed, a request returns the requested snapshot of the requested simulation with its data loaded, memory used by cached snapshots stays within the configured limit, and the least recently used snapshots are the ones released. "
 "Requests outside the available range are refused without changing the current position.",
 ["histories"],
 "all operation sequences to a fixed depth over two simulations with a few snapshots of differing sizes and small memory limits",
 "Tests load one simulation with a few snapshots and never reach the memory limit.",
 ["analysis/SimBuffer.py","src/Common/SphSnapshot.cpp"],
 [("SimBuffer cache","analysis/SimBuffer.py")])

add("C17", "Results do not depend on how a run is split, configured or observed",
 "Advancing a simulation by the same total number of steps yields the same particle state however the steps are split over calls and whether or not snapshots and diagnostics are written or snapshots viewed in between, and repeating a run with the same parameters and seed yields the identical state. "
 "A run stops at the requested end time or step count, not before and not more than one step after.",
 ["histories", "schedules", "configurations"],
 "every composition of a small number of steps into run calls, with outputs and queries interleaved, for every simulation type",
 "Tests run each problem in one single way.",
 ["src/Common/Simulation.cpp","src/Hydrodynamics/SphSimulation.cpp","src/MeshlessFV/MfvMusclSimulation.cpp","src/MeshlessFV/MfvRungeKuttaSimulation.cpp","src/Nbody/NbodySimulation.cpp","src/Common/RandomNumber.cpp","src/Common/SphSnapshot.cpp"],
 [("Run / InteractiveRun / MainLoop","src/Common/Simulation.cpp"),("random number generators","src/Headers/RandomNumber.h")])

add("C18", "Smoothing kernels are normalised, compact and mutually consistent",
 "For every kernel, dimension and implementation (analytic or tabulated), the kernel is non-negative, vanishes beyond its range, integrates to one, its reported derivative and smoothing-length derivative are the derivatives of the kernel, and its gravitational force and potential terms are those of the kernel's mass distribution, matching a point mass outside the range. "
 "Evaluations by distance and by squared distance agree, and tabulated values agree with analytic ones to the table's resolution.",
 ["inputs", "configurations"],
 "every kernel, dimension and implementation on a complete fine grid of separations including the edges of all pieces and of the table",
 "No unit test covers the kernels.",
 ["src/Headers/SmoothingKernel.h","src/Hydrodynamics/M4Kernel.cpp","src/Hydrodynamics/QuinticKernel.cpp","src/Hydrodynamics/GaussianKernel.cpp","src/Hydrodynamics/TabulatedKernel.cpp"],
 [("kernel classes and tables","src/Headers/SmoothingKernel.h")])

add("C19", "Equations of state are thermodynamically consistent",
 "For any density and internal energy in range, pressure, temperature, sound speed, entropy and internal energy returned by each equation of state are positive, satisfy its defining relations, and are mutually consistent; changing from one variable to another and back is the identity. "
 "Barotropic and tabulated models are continuous and reduce to their isothermal and adiabatic limits.",
 ["inputs", "configurations"],
 "a grid of densities and energies spanning many decades (including switching points), all equations of state, gas constants and particle types",
 "Tests use ideal and isothermal gas in narrow ranges.",
 ["src/Headers/EOS.h","src/Thermal/AdiabaticEOS.cpp","src/Thermal/BarotropicEOS.cpp","src/Thermal/Barotropic2EOS.cpp","src/Thermal/IsothermalEOS.cpp","src/Thermal/PolytropicEOS.cpp","src/Thermal/LocallyIsothermal.cpp","src/Thermal/DiscLocallyIsothermal.cpp"],
 [("EOS classes","src/Headers/EOS.h, src/Thermal/*.cpp")])

add("C20", "Dust and gas exchange momentum and energy conservatively",
 "For any gas-dust arrangement, drag law, stopping time and timestep, drag never reverses or amplifies the relative velocity, conserves the total momentum of gas plus dust in two-way coupling (leaving the gas untouched for test particles), turns the lost kinetic energy into gas heat of non-negative amount, and remains finite for vanishing and infinite stopping times. "
 "Dust density and smoothing lengths follow their own kernel sums and dust feels no gas pressure.",
 ["inputs", "configurations"],
 "all small gas-dust arrangements, relative velocities and masses from menus, all drag laws, coefficients from tiny to huge, test-particle and full two-fluid modes, one- and multi-step schedules",
 "One smooth wave test runs in one drag regime.",
 ["src/Common/Dust.cpp","src/Headers/DragLaws.h","src/Headers/Dust.h"],
 [("DustSphNgbFinder / DustInterpolant / DustSemiImplictForces","src/Common/Dust.cpp")])

add("C21", "Gradients are exact for linear fields and limited states create no new extrema",
 "For any non-degenerate particle arrangement the gradient estimate reproduces a linear field exactly, and a constant field has zero gradient and, on a regular arrangement, zero net flux. "
 "Slope limiters that claim monotonicity never produce face values outside the range spanned by the particle and its neighbours, leave constants unchanged, are symmetric in sign, and reconstructed densities and pressures stay positive.",
 ["inputs", "configurations"],
 "all small arrangements from lattices, all field patterns from a menu, all limiters, 1-3D",
 "Only final profiles of shock tests with a single default limiter are checked.",
 ["src/Headers/SlopeLimiter.h","src/MeshlessFV/MfvCommon.cpp","src/MeshlessFV/MfvMuscl.cpp","src/MeshlessFV/MfvRungeKutta.cpp"],
 [("ComputeGradients","src/MeshlessFV/MfvCommon.cpp"),("SlopeLimiter classes","src/Headers/SlopeLimiter.h")])

add("C22", "Particle arrays stay consistent through creation, removal and re-ordering",
 "After any sequence of creating, killing, deleting and re-ordering particles and growing storage, the set of live particles and all their attributes equals that of a simple list on which the same operations were performed, no live particle is lost, duplicated or mixed up, and counts match. "
 "Memory growth preserves existing particles, ghosts are discarded before the arrays change, and type look-ups remain correct.",
 ["histories"],
 "all sequences of create/kill/delete/grow operations to a fixed depth on small particle sets, for each hydro method",
 "Existing tests do not remove or create particles except in one sink test.",
 ["src/Hydrodynamics/Hydrodynamics.cpp","src/Hydrodynamics/Sph.cpp","src/MeshlessFV/MeshlessFV.cpp","src/GradhSph/GradhSph.cpp","src/SM2013/SM2012Sph.cpp","src/Feedback/Supernova.cpp","src/Feedback/SupernovaDriver.cpp"],
 [("DeleteDeadParticles / CreateNewParticle / AllocateMemory","src/Hydrodynamics/*.cpp, src/MeshlessFV/MeshlessFV.cpp")])

add("C23", "SPH time integration follows the leapfrog schemes for every step schedule",
 "For any assignment of timestep levels and accelerations, particle positions and velocities at the end of their steps equal those of the chosen leapfrog scheme, predicted values in between follow the scheme's prediction, and internal energies are advanced consistently with positions. "
 "Motion under constant acceleration is exact; reversing the velocities of a global-step kick-drift-kick run retraces it; no particle is kicked twice or skipped.",
 ["schedules", "histories", "configurations"],
 "all level assignments over complete cycles on small particle sets with prescribed accelerations, each integrator and energy scheme",
 "Regression tests only look at final profiles of runs on default schedules.",
 ["src/Hydrodynamics/SphLeapfrogKDK.cpp","src/Hydrodynamics/SphLeapfrogDKD.cpp","src/Hydrodynamics/SphIntegration.cpp","src/MeshlessFV/MfvIntegration.cpp","src/Headers/EnergyEquation.h"],
 [("AdvanceParticles / SetActiveParticles / EndTimestep / CheckTimesteps","src/Hydrodynamics/SphLeapfrogKDK.cpp, src/Hydrodynamics/SphLeapfrogDKD.cpp")])

add("C24", "Initial conditions fill the requested region with the requested matter",
 "For any particle number, dimension and box, the lattice, close-packed, random, and spherical particle generators put exactly the reported number of distinct particles inside the requested region, and generated set-ups carry the requested total mass, density contrasts, and velocities. "
 "Cubic and close-packed lattices are regular and periodic when tiled.",
 ["inputs", "configurations"],
 "all particle numbers up to a small bound per dimension, box shapes from a menu, and every generator",
 "Each regression test uses only one particle number and box.",
 ["src/Ic/Ic.cpp","src/Ic/UniformIc.cpp","src/Ic/ShocktubeIc.cpp"],
 [("AddCubicLattice/AddHexagonalLattice/AddRandomBox/AddRandomSphere/CutSphere","src/Ic/Ic.cpp")])

add("C25", "Parallel loops give the same result under every work distribution",
 "With shared-memory threading enabled, the particle properties, forces, timestep levels and sink data computed by a step are independent of the number of threads and of which thread handles which chunk of work in which order.",
 ["schedules"],
 "every assignment and order of loop chunks to up to three threads, within a deviation bound, on small particle sets",
 "The test-suite is run without threading.",
 ["src/GradhSph/GradhSphTree.cpp","src/MeshlessFV/MeshlessFVTree.cpp","src/Hydrodynamics/SphSimulation.cpp","src/Tree/KDTree.cpp","src/Nbody/Sinks.cpp"],
 [("omp parallel regions","src/GradhSph/GradhSphTree.cpp, src/MeshlessFV/MeshlessFVTree.cpp, src/Nbody/Sinks.cpp")])

add("C26", "Derived plotting quantities equal their definitions in the requested units",
 "Data fetched through the analysis layer for any built-in or user-defined quantity equals the arithmetic definition applied to the stored particle data, converted to the requested unit, for each particle type. "
 "Expressions follow ordinary arithmetic precedence and invalid expressions are refused.",
 ["inputs"],
 "all expressions up to a bounded size over a small operator and quantity alphabet, all built-in quantities",
 "Tests only fetch a few primitive quantities.",
 ["analysis/formula_parser.py","analysis/data_fetcher.py","src/Common/SphSnapshot.cpp"],
 [("formula parser","analysis/formula_parser.py"),("data fetchers","analysis/data_fetcher.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
