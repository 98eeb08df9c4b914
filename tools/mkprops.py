import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe or [],hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S='src/sparse_ir/'
p('C01','Concurrent calls do not interfere',
 "When several threads use the library at the same time, on shared or on separate bases, samplings, expansions and kernels, every call returns the value (or raises the error) that the same call gives when it is the only one running, up to floating-point rounding. This holds for every interleaving of the threads. Every call also completes: no interleaving leaves threads waiting for each other.",
 ['schedules'],'every interleaving of the calls made by any number of caller threads, for every combination of operations and shared objects',
 'The tests are single-threaded; no test ever runs two calls at once, let alone chooses where one is suspended.',
 [S+'_util.py',S+'poly.py',S+'sampling.py',S+'basis.py',S+'sve.py',S+'svd.py',S+'dlr.py',S+'augment.py',S+'kernel.py',S+'_gauss.py',S+'_roots.py',S+'adapter.py'],
 [('decorator that ravels arguments of methods',S+'_util.py RavelArgumentDecorator'),('objects immutable after construction','all modules'),('per-call temporaries only',S+'sampling.py DecomposedMatrix._lstsq, '+S+'poly.py')],
 state=[('instance remembered by the argument-ravelling decorator','object on whose behalf a decorated method runs; must be private to the call',S+'_util.py')],
 observe=['return values and exceptions of all public calls'])
p('C02','Construction is reproducible bit for bit',
 "Building a singular value expansion, basis, basis set, sampling or pole representation from given parameters yields bit-for-bit the same numbers every time in a given installation. Neither other threads building or using objects at the same time, nor what the process computed (or failed to compute) before, nor the state of any global random generator, nor the interpreter's hash seed may influence it.",
 ['schedules','histories','configurations'],'every interleaving with other threads, every prior history of the process, every state of the global random generators, every hash seed',
 'The tests build each object once, in one thread, in one fixed order, with PYTHONHASHSEED=0 and untouched random generators.',
 [S+'svd.py',S+'sve.py',S+'_gauss.py',S+'basis.py',S+'basis_set.py',S+'sampling.py',S+'dlr.py',S+'adapter.py'],
 [('seeding / determinism of the truncated SVD',S+'svd.py _idsvd'),('gauge fixing',S+'sve.py _canonicalize'),('quadrature rules recomputed per call',S+'_gauss.py')],
 state=[("process-wide random stream of SciPy's interpolative decomposition",'consumed by the randomised SVD',S+'svd.py _idsvd')],
 observe=['singular values, polynomial data, sampling points and matrices of built objects'])
p('H01','Results do not depend on the history of earlier calls',
 "The numbers a call returns depend only on its arguments and on the parameters its object was built from: no sequence of earlier calls on that object, on objects it was derived from or that were derived from it (truncated, sliced, rescaled, differentiated, sampled), or on unrelated objects changes them, up to rounding. No call modifies an array passed to it. The caller may afterwards overwrite the sampling points, coefficients or data it passed in, and the arrays that evaluating, fitting and sampling-point calls returned, without changing any later result.",
 ['histories'],'every sequence of constructions, derivations, evaluations, fits, overwrites of caller-owned arrays and disposals of objects',
 'Each test performs a short fixed sequence on fresh or fixture objects and compares once; none re-checks an object after a long mixed history or after the caller reused its buffers.',
 [S+'basis.py',S+'poly.py',S+'sampling.py',S+'sve.py',S+'dlr.py',S+'augment.py',S+'basis_set.py',S+'_util.py',S+'kernel.py',S+'adapter.py'],
 [('derived objects share data with their parent and must never write to it',S+'poly.py __getitem__, '+S+'basis.py __getitem__/rescale, '+S+'sve.py SVEResult.part'),('fresh result arrays',S+'sampling.py _matop_along_axis'),('copies of caller-supplied sampling points',S+'sampling.py, '+S+'dlr.py')],
 observe=['return values of all public calls','bytes of argument arrays before and after a call'])
p('F01','A failed or interrupted call leaves no trace',
 "If a call is cut short at any point by an interrupt, a failed memory allocation, a failing linear-algebra routine, an exception raised by a user-supplied function, or a warning turned into an error, the error reaches the caller. Every object that existed before the call then still gives the results it would have given otherwise, repeating the call gives the undisturbed result, and no later call fails or blocks because of it.",
 ['crash_points','fault_sequences'],'every point within every operation at which it can be cut short, and every sequence of such failures',
 'No test makes an operation fail half-way; the tests only ever see calls that finish.',
 [S+'_util.py',S+'poly.py',S+'sampling.py',S+'basis.py',S+'sve.py',S+'svd.py',S+'dlr.py',S+'augment.py',S+'_gauss.py',S+'_roots.py',S+'kernel.py',S+'adapter.py'],
 [('state assigned once in constructors, nothing written afterwards','all modules'),('error-state context manager',S+'_gauss.py rule_from_recurrence'),('decorator that ravels arguments of methods',S+'_util.py RavelArgumentDecorator')],
 observe=['outcome of the failed call','results of all surviving objects afterwards','results of repeated call'])
p('F02','Failures never turn into silently wrong numbers',
 "If a memory allocation fails, or a linear-algebra routine raises, reports failure or returns NaN in the middle of an operation, the operation raises an exception, or issues a warning, or returns what it would have returned undisturbed (or NaN). It never returns different finite numbers without a warning.",
 ['fault_sequences'],'every allocation and every back-end call of every operation failing in every way that it can report',
 'The tests never make an allocation or LAPACK/xprec/SciPy routine fail, so every error path is dead code to them.',
 [S+'svd.py',S+'sve.py',S+'sampling.py',S+'dlr.py',S+'_gauss.py',S+'poly.py'],
 [('status of the Jacobi SVD turned into error or warning',S+'svd.py _dgejsv'),('NaN check on polynomial data',S+'poly.py PiecewiseLegendrePoly.__init__'),('shape check of SVD results',S+'_util.py check_svd_result')],
 observe=['exception, warnings and return value of the disturbed call'])
p('F03','Results do not depend on the contents of fresh memory',
 "The numbers returned by any operation, and the data of any object built, are the same whatever bytes the memory allocator hands out: no element of a result is ever computed from memory the library has not written.",
 ['fault_sequences','inputs'],'every content of every block of array memory obtained during any operation',
 'The tests get whatever the C allocator returns (mostly zero pages or recycled similar data), so a read of unwritten memory usually goes unnoticed.',
 [S+'kernel.py',S+'sampling.py',S+'poly.py',S+'_gauss.py',S+'svd.py',S+'augment.py'],
 [('masked ufunc calls whose unwritten elements are masked out again',S+'kernel.py _RegularizedBoseKernelOdd, _LogisticKernelOdd, RegularizedBoseKernel._compute'),('uninitialised array filled in two steps',S+'sampling.py _split_complex'),('masked reciprocals',S+'poly.py _PowerModel.giw, '+S+'augment.py TauLinear.hat')],
 observe=['return values of all public calls under different allocator contents'])
p('F04','Process-wide settings are left alone',
 "A call leaves process-wide state as it found it: floating-point error handling, warning filters, the global random streams of Python, NumPy and SciPy, print options, environment, working directory, signal handlers, open files and running threads. This holds whether the call succeeds, fails, is interrupted at any point, or overlaps with calls from other threads.",
 ['schedules','crash_points','histories'],'every operation, every point at which it may be interrupted, and every interleaving with other calls',
 'No test looks at process-wide settings after a call, let alone after a failed or overlapping one.',
 [S+'_gauss.py',S+'svd.py',S+'sve.py',S+'kernel.py',S+'poly.py',S+'adapter.py',S+'sampling.py'],
 [('error-state context manager',S+'_gauss.py rule_from_recurrence'),('seeding / determinism of the truncated SVD',S+'svd.py _idsvd'),('warnings only issued, filters never set','all modules')],
 state=[("process-wide random stream of SciPy's interpolative decomposition",'must not be reseeded or consumed',S+'svd.py _idsvd')],
 observe=['numpy.geterr, warnings.filters, random states, environment, threads, files before and after'])
p('B01','The computed expansion is right for every legal back-end answer',
 "The numerical back-end may legitimately return either sign for each pair of singular vectors, use any random draws, and commit rounding-level errors in any factorisation or eigenvalue. For each such answer the computed expansion reproduces the kernel to the requested accuracy, with positive non-increasing singular values, orthonormal left and right functions that are alternately even and odd and positive at the upper end of the interval. Two such answers agree with each other to the requested accuracy.",
 ['fault_sequences','configurations','inputs'],'every choice of signs, random draws and rounding-level perturbations made by the back-end, for both kernels, every cutoff, accuracy and solver strategy',
 'The tests see exactly one answer of one back-end on one machine, for three cutoffs, almost always through the extended-precision solver.',
 [S+'sve.py',S+'svd.py',S+'_gauss.py',S+'kernel.py',S+'poly.py'],
 [('gauge fixing',S+'sve.py _canonicalize'),('even/odd merge and sort',S+'sve.py CentrosymmSVE.postprocess'),('truncation',S+'sve.py _truncate, SVEResult.part'),('Newton refinement of quadrature nodes',S+'_gauss.py rule_from_recurrence')],
 observe=['SVE result: u, s, v'])
p('B02','Reduced installations warn and still deliver what they promise',
 "Without the optional extended-precision package, and without the accurate LAPACK Jacobi driver, every construction still works: the result agrees with that of a full installation on the same request to about 1e-8 (relative to the largest singular value), or to the requested accuracy if that is coarser. Whenever less is delivered than was asked for, or the documented default accuracy is not reached, a warning says so.",
 ['configurations','fault_sequences'],'every combination of missing optional components with every kernel, cutoff and requested accuracy',
 'The test environment always has every optional component installed, so no fallback path is ever executed.',
 [S+'svd.py',S+'sve.py',S+'basis.py',S+'adapter.py',S+'dlr.py'],
 [('import guards',S+'svd.py, '+S+'adapter.py'),('choice of working precision and strategy, accuracy warning',S+'sve.py _safe_eps'),('fallback to plain SVD',S+'svd.py compute')],
 observe=['objects built with and without the optional components','warnings issued'])
p('K01','Overlap integrals survive any behaviour of the integrand',
 "Computing overlaps of basis functions with a user-supplied function always ends after a bounded number of evaluations, all inside the domain, whatever the function returns. If the function raises or changes its output shape, the caller gets that error (for a shape change a ValueError); if it itself calls back into the library, both computations are unaffected. For integrands whose features are not narrower than the spacing of the first evaluation points, the result is the integral to the requested tolerance, or else a warning is issued; smooth integrands at tolerances well above rounding are integrated without a warning.",
 ['fault_sequences','histories','inputs'],'every behaviour of the integrand over the sequence of its calls: errors at any call, NaN or infinity, noise, jumps, changes of shape, re-entrant use of the library',
 'The tests integrate well-behaved functions only; the refinement limits, the non-convergence warnings and the shape check are never reached.',
 [S+'poly.py',S+'_gauss.py'],
 [('adaptive refinement with level and segment limits',S+'poly.py _compute_overlap'),('nested 15/31-point rule',S+'_gauss.py kronrod_31_15, NestedRule')],
 observe=['value, error estimate and warnings of overlap','sequence of calls to the integrand'])
p('P01','Objects survive restart, copying and forking',
 "Every kernel, expansion, basis, basis set, sampling, pole representation and augmented basis, at any accuracy setting, can at any moment, even while other threads are using it, be pickled and loaded in another process, copied, or used on in a forked child. The restored object gives the same results as the original for every operation, and whatever is done with one of the two does not affect the other.",
 ['crash_points','histories','schedules'],'every object, every moment of its history at which it is saved or the process forks, every interleaving with threads using it',
 'No test pickles, copies or forks anything.',
 [S+'basis.py',S+'sve.py',S+'poly.py',S+'sampling.py',S+'dlr.py',S+'augment.py',S+'basis_set.py',S+'kernel.py',S+'adapter.py',S+'_util.py'],
 [('plain attribute state, no handles, closures or locks in instances','all modules'),('accuracy stored with the expansion as a plain number',S+'sve.py SVEResult, _safe_eps')],
 observe=['results of restored objects in a fresh process'])
p('R01','Repeated transforms neither drift nor amplify noise',
 "Alternating evaluation and fitting any number of times, in imaginary time or frequency, with default, custom or non-negative-only sampling points, along any axis of a batch, with plain, pole-based or augmented bases, returns the coefficients put in, up to rounding times the condition number; errors injected into the sampled values show up exactly as the least-squares solution dictates and no more. Values on sampling points equal the exact propagator of the spectral function the coefficients stand for, to the accuracy of the basis. A self-consistency iteration built on these transforms still reaches its fixed point when steps are interrupted, repeated or resumed from a saved state.",
 ['histories','fault_sequences','crash_points'],'every sequence of transforms, noise injections, interruptions, retries and restarts, for all bases and array layouts',
 'The tests make at most one evaluate/fit round trip per object with one noise sample, never iterate and never interrupt.',
 [S+'sampling.py',S+'basis.py',S+'dlr.py',S+'augment.py',S+'poly.py'],
 [('SVD-based least squares',S+'sampling.py DecomposedMatrix, SplitDecomposedMatrix'),('axis handling',S+'sampling.py _matop_along_axis'),('default sampling points',S+'basis.py'),('singular-value scaling',S+'basis.py FiniteTempBasis')],
 observe=['coefficients and sampled values after each step'])
# --- not simulation targets
p('A01','Kernels equal their analytic formulas to full relative precision',
 "At every point of their domain and for every cutoff, the kernels and their symmetrised forms equal the documented analytic expressions to nearly full relative precision, without overflow or loss of digits near the interval ends or near zero frequency.",
 ['inputs'],'all x, y in the domain and all cutoffs','Tests compare single against double precision on one quadrature grid for six kernels.',
 [S+'kernel.py'],[('overflow-free rewriting and explicit odd forms',S+'kernel.py')])
p('A02','Frequency-space functions are the Fourier transforms of the time-space ones',
 "For every basis function and every allowed Matsubara frequency, small or huge, the frequency-space function equals the Fourier integral of the corresponding imaginary-time function, with no visible seam where the asymptotic expansion takes over.",
 ['inputs'],'all basis functions, all integers of the right parity','Tests count extrema and compare with irbasis at a few frequencies.',
 [S+'poly.py'],[('spherical Bessel transform, stable phases, power model',S+'poly.py PiecewiseLegendreFT')])
p('A03','Default sampling points are as many as needed and well conditioned',
 "For every basis the default sampling points in time, frequency and real frequency lie in the domain, are symmetric where they should be, number at least the basis size, and give a fitting problem whose condition number stays modest; otherwise a warning is issued.",
 ['inputs'],'all statistics, cutoffs, accuracies, truncations and requested numbers of points','Tests use default points for a handful of cutoffs.',
 [S+'basis.py',S+'_roots.py',S+'poly.py'],[('roots and extrema of the next basis function',S+'basis.py _default_sampling_points')])
p('A04','Truncating and rescaling a basis keep its defining relations',
 "Truncation keeps exactly the most significant functions; rescaling to another temperature keeps the product of inverse temperature and cutoff and only rescales arguments and norms; accuracy and significance describe what was discarded.",
 ['inputs'],'all bases, sizes and temperatures','One slice of one basis is tested.',
 [S+'basis.py',S+'sve.py'],[('part, __getitem__, rescale',S+'basis.py, '+S+'sve.py')])
p('A05','Pole representation and IR coefficients describe the same propagator',
 "Converting coefficients between the pole representation and the intermediate representation, in either direction, preserves the propagator in time and frequency to the accuracy of the basis for every set of poles inside the cutoff.",
 ['inputs'],'all pole sets, statistics and cutoffs','Tests use ten random poles at one cutoff.',
 [S+'dlr.py'],[('fit matrix with high relative accuracy SVD',S+'dlr.py')])
p('A06','Augmented bases are the augmentation followed by the basis',
 "In time, frequency, differentiation, slicing and indexing alike, the first functions of an augmented basis are the augmentations and the rest those of the underlying basis, and all basis attributes describe the combined set.",
 ['inputs'],'all augmentations, bases and indices','Only two fits of augmented bases are tested; indexing, derivatives and attributes are not.',
 [S+'augment.py'],[('concatenation of function sets',S+'augment.py _AugmentedFunction')])
p('A07','The irbasis-compatible interface reproduces irbasis',
 "For every cutoff tabulated by irbasis the compatibility layer returns the same singular values, functions, transforms and sampling points up to sign convention and precision.",
 ['inputs'],'all cutoffs, indices and arguments','Compared at two cutoffs and a few indices.',
 [S+'adapter.py'],[('wrapper over the expansion',S+'adapter.py')])
p('A08','Invalid arguments are rejected',
 "Points outside the domain, frequencies of the wrong parity, inconsistent kernels, malformed slices and mismatched shapes always raise an error and are never silently mapped to some value.",
 ['inputs'],'all invalid arguments','Two out-of-range evaluations are tested.',
 [S+'_util.py',S+'poly.py',S+'basis.py',S+'sampling.py'],[('check functions',S+'_util.py')])
p('A09','Quadrature rules and root finding are exact to working precision',
 "Gauss rules integrate polynomials up to their degree exactly, piecewise and reseated rules likewise, and root and extremum finding return all and only the sign changes and extrema of basis functions.",
 ['inputs'],'all orders, segmentations and functions','Two orders and two segmentations are tested.',
 [S+'_gauss.py',S+'_roots.py',S+'poly.py'],[('recurrence plus Newton, bisection',S+'_gauss.py, '+S+'_roots.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
