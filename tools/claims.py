"""Deciding method and caveats of each claimed check."""
CLAIMED.update({
 'C02': ('seeded schedules of concurrent constructions, seeded prior histories '
         '(including failed and interrupted constructions), disturbed global random '
         'generators and other hash seeds; bit-exact digests compared with '
         'construction alone in a pristine process',
         'Sampled schedules and histories in one installation; bit-for-bit equality '
         'assumes that the compiled back-ends are deterministic, which is verified by '
         'repeating the reference in a second process.'),
 'D01': ('seeded histories of derivation steps on one object (slices, rescales, '
         'augmentations, derivatives, recomputations) with interrupted and failing '
         'steps that are repeated and restarts from a saved state; each link refined '
         'against a reference model and against direct construction in a pristine '
         'process',
         'Sampled histories and parameters; rounding-level comparison (tolerance by '
         'operation).'),
 'H01': ('seeded operation sequences over a shared population of objects with aliasing '
         'attacks on every array handed in or out; each result compared with the same '
         'call in an isolated process',
         'Sampled histories of bounded length; comparison up to rounding (tolerance by '
         'operation).'),
 'F01': ('seeded interrupts at calls, lines and bytecodes, failing allocations and '
         'back-ends, faulty integrands, warnings as errors; a battery of later calls '
         'compared with isolated execution',
         'Sampled crash points and operations; interrupts are delivered at bytecode '
         'boundaries, as CPython does.'),
 'F02': ('seeded failure of each allocation and each back-end call (raise, error code, '
         'NaN) in real operations; result compared with the undisturbed one',
         'A crash of NumPy itself on a failed allocation (a known fault of the NumPy '
         'build) is counted, not judged. Sampled operations and fault positions.'),
 'F03': ('simulated allocator hands out memory with seeded contents; results compared '
         'bit for bit between contents',
         'Sampled operations and contents; covers memory obtained through NumPy\'s '
         'allocator hook, not scratch memory inside compiled back-ends.'),
 'F04': ('fingerprint of process-wide settings before and after seeded operations that '
         'succeed, fail, are interrupted at seeded points or overlap with other threads',
         'Sampled operations, crash points and schedules; the list of settings observed '
         'is fixed.'),
 'B01': ('back-end seam answers every factorisation with seeded signs, random draws '
         'and rounding-level errors; expansion checked against kernel formulas, '
         'independent quadrature and the other answers',
         'Perturbations are sampled, of the size of backward-stable rounding; '
         'tolerances have a factor of at least 8 over the largest deviation seen in '
         'calibration.'),
 'B02': ('simulated installations (extended-precision package missing, broken, '
         'failing late or disappearing; Jacobi driver missing) in one process, '
         'compared with the full installation, kernel formulas and required warnings',
         'Sampled requests with cutoffs up to 1000. Two known findings about bases '
         'with eps <= 1e-13 without extended precision.'),
 'K01': ('integrand behind a seam: seeded sequences of hostile answers (errors, NaN, '
         'infinity, noise, jumps, reused buffers, changing shape and type, re-entrant '
         'use of the library) at seeded calls; bounds on the calls and an independent '
         'reference integral',
         'Sampled behaviours; the accuracy of the result is only judged for integrands '
         'whose features are not narrower than the first evaluation points.'),
 'P01': ('seeded schedules of threads one of which copies, pickles, ships (also to a '
         'fresh interpreter) or forks at seeded moments; one side is destroyed and the '
         'other used on; each result compared with an object built from scratch in a '
         'fresh process',
         'Sampled histories and schedules. Compiled pickling code is not interrupted '
         'by other threads, the pure-Python pickler is.'),
 'R01': ('seeded histories of transforms, measurement noise and gross errors, '
         'interrupted, failing and repeated calls, lost updates, crash and restart '
         'from a saved state; each step refined against a reference model (independent '
         'matrices, exact least squares, exact propagators and fixed points)',
         'Sampled histories with cutoffs up to 1000 (thorough: 30000); tolerances have '
         'a factor of at least 4 over the largest deviation seen in calibration. One '
         'known finding about the units of the regularised kernel.'),
})
