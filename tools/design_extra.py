ORACLE = {
'C01':("outside monitor of the schedule: integer time, level, step count, start of step and step length of every particle and star after every step; a reference rule for levels (power-of-two hierarchy, smallest and longest step, limiter, level difference, synchronisation)","30-45 s"),
'C02':("every cell recomputed from the live particles below it (counts, mass, COM, quadrupole, boxes, hmax, velocities, active counts); leaves partition the particles; traversal order","35 s"),
'C03':("brute force over all particles and all images (periodic, mirror)","30 s"),
'C04':("an image generator of its own (all combinations of shifts and reflections); shift and reflection invariance of the results of real steps","35 s"),
'C05':("direct sums over all images with the same kernel; totals of momentum and energy; invariance under order, tree and leaf size","50 s"),
'C06':("direct softened sums; multipole expansion recomputed from the contents of each accepted cell; opening criteria re-evaluated; independent Ewald sum; numerical gradient of the potential energy","45 s"),
'C07':("totals after every step including exchanges in flight; pair antisymmetry; order and reflection invariance","45 s"),
'C08':("bisected exact solution in extended precision; symmetry relations; wave relations","10 s"),
'C09':("independent extended-precision implementations of leapfrog KDK/DKD and Hermite 4, 4TS, 6TS with block steps; order of convergence; reversibility","35 s"),
'C10':("partition and sums over members; Kepler elements from the two-body formulae; sub-system runs against runs of all stars","35 s"),
'C11':("totals of mass, momentum, centre of mass and angular momentum before and after; an independent list of candidates and criteria; ownership of every accreted particle","40 s"),
'C21':("definition of exactness and monotonicity, neighbours and moment matrices by brute force","50 s"),
'C20':("exact solution of the drag equation and brute-force kernel sums, conservation laws","60 s"),
'C17':("the uninterrupted run of the same code, bit for bit; its own step times as the oracle for stopping","30 s"),
'C22':("plain list of records on which the same operations are repeated, byte by byte","40 s"),
'C13':("the recorded run itself (its states after each output) and an own schedule; replayed file operations reproduce the real directory byte for byte","45 s"),
'C12':("independent parser of the three layouts; the saved state itself; refusal of every truncated file","30 s"),
'C14':("map model of the parameter set","15 s"),
'C15':("dimension vectors and an independent table of SI values","5 s"),
'C18':("kernel definitions integrated by quadrature","10 s"),
'C19':("defining relations of each equation of state","10 s"),
'C23':("independent leapfrog/MUSCL reference integrator fed with the same accelerations and the steps the code took","30 s"),
'C24':("region membership, distinctness, counts, total mass, lattice geometry, tiling","10 s"),
}
NOT = {}
LIMITS = """* Particle numbers are small (0-30 in most harnesses, up to a few hundred where a tree must be deep): the
  'small scope' bound.  Bugs that need thousands of particles are outside.
* The `sm2012sph` simulation type segfaults at set-up in the original tree (its SPH object is created
  without the members that the main loop uses); it is explored by no check.
* MPI and FFTW code is not compiled in this build and not covered.
* A smoothing length that has no solution (too few or too heavy particles) makes the SPH iteration diverge
  to huge values; such arrangements are pruned, not judged."""
FALSE = """Alarms that turned out to be wrong oracles (properties or machinery corrected, nothing recorded as finding):
level requests in (dt_max, 2 dt_max) may get level 1; the `simple` limiter of the meshless scheme does not
claim conservation; truncated Gaussian kernels miss part of their norm by design; Ewald cases are compared within the
table's interpolation error; boxes with sound-crossing states outside the positivity bound abort by assertion
and are kept out of the menus."""
CAUGHT = {}
