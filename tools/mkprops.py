#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
C='c++/triqs/'; Y='python/triqs/'

prop('D01','Incremental determinant agrees with the matrix built from scratch',
 'After every completed or rejected operation of any legal history of insertions, removals, row/column changes, multi-row operations, refills, direct insert/remove and explicit rolls, the determinant, the inverse matrix, the size and the stored row/column arguments of the determinant manager are those of the matrix f(x_i,y_j) built from scratch from the accepted operations. Every try operation returns the ratio of new to old determinant (permutation sign included), and rejecting it leaves all observables unchanged.',
 ['histories','inputs'],'every function f, real or complex, every legal sequence of try/complete/reject/direct operations (including ones that grow the storage, empty the matrix, or hit singular matrices), every position arguments in range',
 'The tests replay a few fixed histories on one kernel; a rank-one update that is wrong only for a specific position, order, sign, growth step or reject-then-complete pattern shows only in other histories.',
 [C+'det_manip/det_manip.hpp'],[('rank-1 / rank-k Sherman-Morrison updates with lazy row/column permutations and a work area per pending try','c++/triqs/det_manip/det_manip.hpp'),('periodic check and regeneration','c++/triqs/det_manip/det_manip.hpp')],
 ['try_*/complete_operation/reject_last_try return values','determinant(), inverse_matrix(), matrix(), size(), get_x/get_y'],
 [('row_num / col_num','logical to stored row permutation','det_manip.hpp'),('sign, det, mat_inv','current state','det_manip.hpp'),('last_try','pending operation','det_manip.hpp')])
prop('D02','A copied, swapped, moved, resized or reloaded determinant stays exact',
 'A determinant manager obtained by copy, move, swap, or by writing it to HDF5 and reading it back (into a fresh or a used object) has the same size, arguments, determinant and inverse as its source (for copy, move and swap also the same thresholds), and every further legal history on it gives the same results as on a manager built from scratch. No such history reads or writes memory out of bounds, whatever the initial capacities, and the source of a copy is unaffected by operations on the copy.',
 ['histories','configurations'],'all capacities, all interleavings of copy/move/swap/serialise/reserve/clear with single- and multi-row updates',
 'Tests construct objects once with ample capacity, and never continue to operate on a reloaded, swapped or copied one.',
 [C+'det_manip/det_manip.hpp'],[('swap / move by swap, h5_read rebuilding work areas','c++/triqs/det_manip/det_manip.hpp'),('reserve and growth on demand','c++/triqs/det_manip/det_manip.hpp')],
 ['all public observables after the transfer and during a subsequent history','ASan/UBSan reports'])
prop('M01','Each Monte Carlo step obeys the Metropolis protocol',
 'In every Monte Carlo run, a step selects one move with probability proportional to its weight, calls its attempt exactly once, then exactly one of accept or reject on that same move: acceptance happens with probability min(1,|r|) of the attempted ratio r, an infinite real ratio counts as larger than one with the sign of the infinity, and a NaN or complex non-finite ratio stops the run with an error rather than being silently accepted. The sign given to the measures is the initial sign times the product over accepted moves of the sign of r times the sign returned by accept. The reported per-move acceptance rates are exactly accepted/proposed for the moves actually made, also in nested move sets.',
 ['histories','inputs'],'every set of moves and weights (zero weights, nested move sets, negative and complex ratios), every random stream',
 'Tests run one or two toy models and compare averages; the per-step protocol, sign bookkeeping and nested statistics are never observed.',
 [C+'mc_tools/mc_move_set.hpp',C+'mc_tools/mc_generic.hpp'],[('cumulative move probabilities, attempt/accept/reject dispatch, statistics','c++/triqs/mc_tools/mc_move_set.hpp'),('metropolis decision and sign update','c++/triqs/mc_tools/mc_generic.hpp')],
 ['event log of moves and measures','get_acceptance_rates, sign'])
prop('M02','The run loop performs exactly the requested cycles and measurements',
 'A Monte Carlo run performs the requested number of cycles of exactly the requested length unless it is stopped; while accumulating, every enabled measure is called once per cycle, after the moves of that cycle and after the auxiliary measures, with the current sign, and warm-up cycles call no measure. A run stopped by its stop callback (or, under MPI, by an error on another rank) finishes its current cycle; a caught signal stops it before the next move, and an incomplete cycle is not measured. A stopped run performs no further cycles, still allows results to be collected, and returns a status telling completion (0), callback (1) or signal (2) apart. Exceptions thrown in moves or measures are reported or rethrown as configured, and never corrupt the process.',
 ['histories','fault_sequences','schedules'],'every cycle count and length, stop times, signals, exceptions at any step, enabled/disabled measures, repeated warmup/accumulate/run calls',
 'Tests run a fixed number of cycles to completion in a single process with neither signal nor exception nor early stop.',
 [C+'mc_tools/mc_generic.hpp',C+'mc_tools/mc_measure_set.hpp',C+'mc_tools/mc_measure_aux_set.hpp',C+'utility/signal_handler.cpp',C+'utility/callbacks.cpp'],
 [('cycle loop with stop flag, signal and node monitor','c++/triqs/mc_tools/mc_generic.hpp'),('measure set accumulate / collect','c++/triqs/mc_tools/mc_measure_set.hpp'),('signal handler','c++/triqs/utility/signal_handler.cpp'),('clock callback','c++/triqs/utility/callbacks.cpp')],
 ['event log of cycles, measures, aux measures','return status, counters','process exit status'])
prop('M03','Random streams are reproducible, in range and correctly distributed',
 'For every supported generator name and seed, two generators constructed alike deliver the same sequence, and different seeds deliver different ones (except that the default generator, name "", sets the lowest bit of its seed). The generator mt19937 delivers the standard Mersenne Twister stream (seed 198 when default constructed), and the default generator delivers the reference Mersenne Twister 19937 stream seeded by the 69069 congruential generator, also across reseeding. Every value drawn lies in the documented half-open interval ([0,1), [0,b), [a,b), integers 0..N-1), is not skipped or repeated by internal buffering, and is uniform over it.',
 ['inputs','histories'],'all generator names, seeds, interval bounds of any type, interleavings of draw kinds',
 'Tests print moments of a few thousand draws from one seed; they compare with no reference stream and never look at bounds, buffering boundaries or reseeding.',
 [C+'mc_tools/random_generator.cpp',C+'mc_tools/random_generator.hpp',C+'mc_tools/MersenneRNG.cpp',C+'mc_tools/MersenneRNG.hpp',C+'utility/buffered_function.hpp'],
 [('MT19937 implementation','c++/triqs/mc_tools/MersenneRNG.hpp'),('buffered generator, typed draws','c++/triqs/mc_tools/random_generator.hpp'),('buffered_function','c++/triqs/utility/buffered_function.hpp')],
 ['sequence of values drawn'])
prop('U01','The buffered function replays its generator stream without loss',
 'Calls to a buffered function return exactly the successive results of the wrapped generator, in order, with none lost, duplicated or reordered, for every positive buffer size and across copies, moves and reassignments; refills happen only when the buffer is exhausted. Calling a default-constructed (empty) one raises an error instead of reading memory.',
 ['histories','inputs'],'all buffer sizes including 1, all numbers of calls, copies and moves taken at any moment',
 'One test draws a fixed number of values from one buffer size.',
 [C+'utility/buffered_function.hpp'],[('refill / index','c++/triqs/utility/buffered_function.hpp')],['values returned','number of generator calls'])
prop('U02','Stop conditions and signals are observed, in order, and released',
 'While signal handling is active, every delivered handled signal (SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1/2 as supported) is remembered until popped, the last one received is reported first, and starting twice or stopping leaves a consistent state; before start and after stop no signal is reported as received. The clock-based stop callback reports false strictly before its deadline and true after it, and a zero or negative duration never stops.',
 ['histories','fault_sequences'],'all sequences of start/stop/raise/pop, signals arriving at arbitrary instruction boundaries, all durations',
 'No test raises a signal or lets a deadline pass at a controlled point.',
 [C+'utility/signal_handler.cpp',C+'utility/signal_handler.hpp',C+'utility/callbacks.cpp'],[('signal handler stack','c++/triqs/utility/signal_handler.cpp'),('clock_callback','c++/triqs/utility/callbacks.cpp')],['received(), last(), pop()','return value of the callback'])
prop('U03','Numeric and special-function helpers equal their mathematical definition',
 'The Legendre polynomial generator, the Legendre-to-Matsubara transformation coefficients, the modified spherical Bessel helper and the numeric predicates and conversions (zero tests, real/complex conversion, conjugation, is-complex queries) agree with their mathematical definition to rounding for all orders, positive and negative Matsubara indices and all arguments in their domain (non-negative for the Bessel function, [-1,1] for the polynomials), large and small ones included, as long as the intermediate factorials are representable. A generator restarted at a new argument gives the same values as a fresh one.',
 ['inputs','histories'],'all orders up to hundreds, all arguments in the domain, repeated resets',
 'Tests evaluate a few points or none; overflow, parity, order and restart defects appear only at other inputs.',
 [C+'utility/legendre.cpp',C+'utility/legendre.hpp',C+'utility/numeric_ops.hpp',C+'utility/real_or_complex.hpp'],[('three-term recurrence, downward/upward recurrences','c++/triqs/utility/legendre.hpp'),('numeric predicates','c++/triqs/utility/numeric_ops.hpp')],['returned values'])
prop('U04','Generic containers of the utility layer keep their element-wise meaning',
 'The tuple algorithms (map, zip, fold, for-each in either direction, filters, complement, reversal, replacement, push and pop), variant helpers, scope guard, dressed iterators, tuple (de)serialisation and report stream apply exactly once per element, in the documented order, and return the values a plain loop would give; a scope guard runs its action exactly once on every exit path unless dismissed or moved from.',
 ['inputs','histories','programs'],'all tuple sizes and element types, all exit paths (return, exception), moves of guards',
 'Tests touch a handful of instantiations.',
 [C+'utility/tuple_tools.hpp',C+'utility/scope_guard.hpp',C+'utility/tuple_serialize.hpp',C+'utility/variant_extensions.hpp',C+'utility/dressed_iterator.hpp',C+'utility/report_stream.hpp'],[('tuple algorithms','c++/triqs/utility/tuple_tools.hpp'),('scope guard','c++/triqs/utility/scope_guard.hpp')],['values, call order and call counts'])
prop('U05','Discretised imaginary times behave as exact modular arithmetic',
 'Points of the discretised time segment [0,beta] add and subtract as exact integers modulo Nmax = 2^64-1 (0 and beta being the same point for sums and differences, which stay inside [0,beta)), so that t1-t2+t2 is t1 for all t1,t2; they compare as these integers, in agreement with the ordering of their double values, which lie in [0,beta]; construction from any double of [0,beta], both ends included, is monotone and exact to double rounding. Random points generated on a segment, or between two points, always lie in it.',
 ['inputs','histories'],'all beta, all pairs of points including the boundary points 0 and beta and differences that wrap around',
 'The test prints a dozen sums.',
 [C+'utility/time_pt.hpp'],[('64-bit integer representation with wrap-around','c++/triqs/utility/time_pt.hpp')],['values and comparisons of time points'])
prop('H01','Operator algebra obeys the canonical anticommutation relations',
 'Many-body operator expressions form the associative algebra generated by fermionic c and c-dagger with {c_i, c+_j} = delta_ij, {c_i,c_j}=0, over real, complex or mixed coefficients: any two expressions equal by these relations normalise to the same normal-ordered sum, with zero terms dropped. Sum, product, scalar multiplication, in-place and self-aliasing updates, negation, dagger (an antilinear anti-automorphism) and real/imaginary parts all respect it, and writing to and reading from HDF5 returns an equal operator.',
 ['inputs','programs'],'all expressions over any index tuples (ints, strings, mixed), any depth, any coefficient type',
 'The test compares printed forms of about twenty expressions over at most three modes.',
 [C+'operators/many_body_operator.hpp',C+'operators/many_body_operator.cpp'],[('normal-ordering of monomials','c++/triqs/operators/many_body_operator.hpp'),('hdf5 table format','c++/triqs/operators/many_body_operator.cpp')],['monomials and coefficients of the result','matrix representation by an independent Jordan-Wigner oracle'])
prop('H02','Operators act on Fock states as their matrices do',
 'The action of any many-body operator on any state of the full or a partial Hilbert space equals multiplication by its Jordan-Wigner matrix in the mode order of the fundamental operator set, with the right sign for any number of modes up to 64. Linear combinations, scalar products, projections and iteration over state amplitudes agree with dense vectors, whichever of the map-based or vector-based representation is used.',
 ['inputs','configurations'],'all operators, all mode sets up to the representable maximum, all basis states, both state representations, with or without connection maps between subspaces',
 'Tests apply a few two- to four-mode operators to a few states.',
 [C+'hilbert_space/imperative_operator.hpp',C+'hilbert_space/state.hpp'],[('bit-mask and parity based action','c++/triqs/hilbert_space/imperative_operator.hpp'),('state algebra','c++/triqs/hilbert_space/state.hpp')],['amplitudes of the resulting state'])
prop('H03','Hilbert-space indices and mode indices are consistent bijections',
 'For every fundamental operator set, the position of an index tuple and the index tuple at a position are inverse to each other, positions follow the order of first insertion (inserting again changes nothing). For every full or partial Hilbert space, state number and Fock state are inverse to each other, membership is exact, dimension counts the states, copies compare equal, and an HDF5 write/read reproduces the object.',
 ['inputs','histories'],'all index sets, insertion orders, all subspaces',
 'Tests use one index set of a few modes.',
 [C+'hilbert_space/fundamental_operator_set.hpp',C+'hilbert_space/fundamental_operator_set.cpp',C+'hilbert_space/hilbert_space.hpp'],[('index map','c++/triqs/hilbert_space/fundamental_operator_set.hpp'),('sub_hilbert_space index tables','c++/triqs/hilbert_space/hilbert_space.hpp')],['indices, Fock states, sizes, equality'])
prop('H04','Automatic partition gives the finest invariant subspaces',
 'The automatic partition of a space under a Hermitian operator assigns every basis state to exactly one subspace, consecutively numbered, such that two basis states are in the same subspace if and only if they are connected by nonzero matrix elements (the connected components of its graph). After merging with a pair of operators, each of them maps every subspace into at most one subspace, the partition is the finest such coarsening, and the returned matrix elements and subspace connections are exactly the nonzero ones of the operators.',
 ['inputs','histories'],'all operators / graphs, all sequences of merges, any basis size, any state representation',
 'Tests partition one three-orbital Kanamori model.',
 [C+'hilbert_space/space_partition.hpp'],[('disjoint sets over matrix elements; two-phase merging','c++/triqs/hilbert_space/space_partition.hpp')],['lookup_basis_state, n_subspaces, find_mappings, returned matrix elements'])
prop('A01','Exact diagonalisation reproduces the spectrum however it is partitioned',
 'For every Hermitian Hamiltonian over a mode set, the atomic diagonalisation (automatic, by quantum numbers, by particle-number window, real or complex) yields invariant subspaces that tile the selected Fock space, eigenvalues (shifted so the ground state is zero, ascending inside a subspace) equal to those of the dense Hamiltonian, and unitary matrices that diagonalise it. Creation and annihilation blocks and connections, operator matrices, the vacuum state, and quantum numbers are those of the dense operators transformed to the eigenbasis, and an HDF5 round trip reproduces the object.',
 ['inputs','configurations'],'all Hermitian many-body Hamiltonians, all partition modes',
 'Tests compare two models against stored reference files.',
 [C+'atom_diag/atom_diag.hpp',C+'atom_diag/impl/atom_diag.cpp',C+'atom_diag/impl/worker.cpp'],[('partitioning, per-block diagonalisation and reordering','c++/triqs/atom_diag/impl/worker.cpp'),('operator matrices','c++/triqs/atom_diag/impl/atom_diag.cpp')],['spectrum, blocks, connections','comparison with dense brute force'])
prop('A02','Atomic thermal averages and Green functions equal the Lehmann sums',
 'Partition function, density matrix, expectation values, operator action on states and quantum numbers computed from an atomic problem equal the traces over the dense many-body space, and the atomic Green functions in imaginary time, Matsubara, real-frequency and Legendre representation equal the explicit Lehmann sums for every temperature and excluded-state set, whichever partition was used.',
 ['inputs','configurations'],'all Hamiltonians, temperatures, Green-function block structures, excluded state lists',
 'Tests compare one model at one temperature with a stored file.',
 [C+'atom_diag/functions.hpp',C+'atom_diag/gf.hpp',C+'atom_diag/impl/functions.cpp',C+'atom_diag/impl/gf.cpp'],[('Lehmann representation','c++/triqs/atom_diag/impl/gf.cpp'),('thermal averages','c++/triqs/atom_diag/impl/functions.cpp')],['returned numbers vs dense oracle'])
prop('H05','Coefficient extraction inverts Hamiltonian construction',
 'Extracting the quadratic term, the hybridisation-like terms, the density-density or the general quartic interaction coefficients from a many-body operator returns exactly the coefficients of that operator, so rebuilding an operator from them gives the original one. An operator containing anything else is rejected with an error unless ignoring irrelevant terms was asked for.',
 ['inputs'],'all operators over any index set, real and complex coefficients, with and without irrelevant terms',
 'The test extracts one Hamiltonian.',
 [C+'operators/util/extractors.hpp'],[('monomial classification','c++/triqs/operators/util/extractors.hpp')],['dictionary / matrix of coefficients','exceptions'])
prop('S01','Accumulated binning statistics equal those of the recorded stream',
 'For every stream of samples of any type, linear and logarithmic bins of an accumulator hold exactly the averages of the consecutive blocks they stand for, capacities and bin counts follow their documented rules (including automatic compression and unlimited bins), the reported error bars, sample counts and autocorrelation times are those computed directly from the stream, and merging over MPI ranks gives the statistics of the union of the streams. An HDF5 round trip gives an accumulator that continues identically.',
 ['inputs','histories','configurations'],'all stream lengths, bin numbers and capacities, scalar and array samples, any number of ranks',
 'Tests feed a few short deterministic streams and two seeds.',
 [C+'stat/accumulator.hpp'],[('log_binning, lin_binning','c++/triqs/stat/accumulator.hpp'),('mpi reductions','c++/triqs/stat/accumulator.hpp')],['linear_bins(), log_bin_errors*, auto_corr_times*, after every sample'])
prop('S02','Means, errors and jackknife estimates equal their definition',
 'Sample mean, variance, error of the mean and covariance estimators, and jackknife averages and errors of any function of several correlated observables (scalars or arrays, given as vectors or accumulators, serial or distributed over MPI ranks) equal the textbook formulas evaluated on the pooled data.',
 ['inputs','configurations'],'all data sets, functions, array shapes, rank counts',
 'Tests evaluate a couple of small data sets.',
 [C+'stat/jackknife.hpp',C+'stat/mean_error.hpp'],[('jackknife resampling','c++/triqs/stat/jackknife.hpp'),('mean_and_err','c++/triqs/stat/mean_error.hpp')],['returned estimates'])
prop('S03','Histograms conserve every data point',
 'A histogram counts each data point exactly once, in the nearest bin, or as lost when it lies outside the limits (or is not a number); total count and lost count always add up to the number of points given. Adding histograms, clearing, MPI reduction, normalisation (pdf), cumulation (cdf), copying and HDF5 round trips preserve these counts and the bin positions.',
 ['inputs','histories'],'all limits and bin numbers, all data values including the limits, infinities and NaN, all operation sequences',
 'Tests fill one histogram with a few values.',
 [C+'stat/histograms.hpp',C+'stat/histograms.cpp'],[('binning and lost-point counting','c++/triqs/stat/histograms.cpp')],['data(), n_data_pts(), n_lost_pts()'])
prop('G01','Mesh indices, data indices, points and values are consistent bijections',
 'For every mesh (imaginary/real time and frequency, Legendre, DLR, discrete, cyclic lattice, Brillouin zone, and products) iteration visits each point exactly once in data order, index to data-index to index is the identity for every valid index, validity is exact, and point values equal the defining formula and grow strictly along one-dimensional meshes. Two meshes are equal exactly when built from the same parameters, nearest-point lookup returns the closest point, Matsubara frequencies add and compare as exact integers, and adjoint meshes and HDF5 round trips reproduce what they should.',
 ['inputs','configurations'],'all mesh types and parameters (sizes, statistics, positive-only, lattice vectors and dimensions), all points',
 'Tests check a few sizes of one or two mesh types.',
 [C+'mesh/bases/linear.hpp',C+'mesh/imfreq.hpp',C+'mesh/imtime.hpp',C+'mesh/domains/matsubara.hpp',C+'mesh/prod.hpp',C+'mesh/cyclat.hpp',C+'mesh/brzone.hpp',C+'mesh/legendre.hpp',C+'mesh/discrete.hpp',C+'mesh/dlr.hpp'],[('index conversions','c++/triqs/mesh/*.hpp')],['mesh points, indices, values'])
prop('G02','Green functions evaluate correctly on and between mesh points',
 'Evaluating a Green function at a mesh point gives the stored datum, between points of a linear mesh the linear interpolation, on a lattice or Brillouin zone the periodic value or multilinear interpolation (which does not change under a reciprocal-lattice translation), on Legendre and DLR meshes the basis expansion, and at a Matsubara frequency of a positive-only mesh the conjugate of the mirror datum. For product meshes the evaluation is the same as evaluating one variable at a time, in any order, including partial evaluation.',
 ['inputs','configurations'],'all mesh types and products, all arguments in the domain, all target ranks',
 'Tests evaluate a few points.',
 [C+'mesh/evaluate.hpp',C+'mesh/bases/linear.hpp',C+'mesh/brzone.hpp',C+'mesh/imfreq.hpp',C+'gfs/evaluator.hpp'],[('generic curried evaluation','c++/triqs/mesh/evaluate.hpp')],['values returned by g(...) and g[...]'])
prop('G03','Green-function containers own, view and combine data point by point',
 'Copies of Green functions and block Green functions own independent data while views and slices alias exactly the documented part of the original, on reads and writes. Arithmetic expressions, assignment from functions, lambdas and lazy expressions, matrix and scalar targets, slicing of target and mesh variables, flattening, currying, mapping, real/imaginary parts, inversion, transposition and conjugation give point by point the result of the same operation on plain arrays; Matsubara conjugation helpers and hermiticity/realness tests agree with their definition.',
 ['inputs','programs','histories'],'all mesh and target types, expression shapes, aliasing between sides of an assignment',
 'Tests assert a few expressions on tiny functions.',
 [C+'gfs/gf/gf.hpp',C+'gfs/gf/gf_view.hpp',C+'gfs/gf/_gf_view_common.hpp',C+'gfs/gf/gf_expr.hpp',C+'gfs/block/block_gf.hpp',C+'gfs/block/map.hpp',C+'gfs/functions/functions2.hpp',C+'gfs/functions/imfreq.hpp'],[('data and mesh ownership, expression templates','c++/triqs/gfs/gf'),('block containers','c++/triqs/gfs/block')],['data arrays of source and destination'])
prop('G04','Fourier transforms are mutually inverse and match the defining sums',
 'Fourier transforming between imaginary time and Matsubara frequency (fermionic and bosonic), real time and real frequency, and lattice and momentum reproduces the analytic transform of sums of poles / plane waves to discretisation accuracy, transforming forth and back returns the original function within that accuracy, and the transform is linear. The given or fitted high-frequency moments are respected, the other mesh variables and target components are untouched, and block and multivariable versions equal the transform applied to each part.',
 ['inputs','configurations'],'all mesh sizes and parameters, targets, spectra, moment sets, transformed variable positions',
 'Tests transform one or two functions.',
 [C+'gfs/transform/fourier.hpp',C+'gfs/transform/fourier_common.cpp',C+'gfs/transform/fourier_matsubara.cpp',C+'gfs/transform/fourier_real.cpp',C+'gfs/transform/fourier_lattice.cpp'],[('FFT with tail subtraction','c++/triqs/gfs/transform/fourier_matsubara.cpp')],['transformed data vs. analytic values'])
prop('G05','Tail moments and densities match the analytic Green function',
 'For Green functions whose high-frequency expansion is known, fitted tail moments reproduce it within the reported accuracy (real and imaginary frequency, with known moments or hermiticity imposed), replacing the tail changes only points outside the fit window, and the density obtained from Matsubara, time, Legendre, DLR or real-frequency representation equals the analytic occupation matrix including off-diagonal and complex elements.',
 ['inputs','configurations'],'all pole positions, weights, matrix sizes, mesh sizes, temperatures',
 'Tests use one or two functions.',
 [C+'mesh/tail_fitter.hpp',C+'gfs/functions/imfreq.hpp',C+'gfs/functions/density.hpp',C+'gfs/functions/density.cpp'],[('least-squares tail fit','c++/triqs/mesh/tail_fitter.hpp'),('density formulas','c++/triqs/gfs/functions/density.cpp')],['moments, errors, densities'])
prop('G06','Changing representation preserves the represented function',
 'Converting a Green function between imaginary time, Matsubara and Legendre coefficients, between DLR coefficients and DLR or full meshes, continuing with Pade from exact rational data, rebinning, and enforcing moments reproduces the underlying function within the accuracy of the representation, keeps statistics and target structure, and composed with its inverse is the identity there.',
 ['inputs','configurations'],'all spectra representable, both statistics, all sizes and targets',
 'Tests convert one semicircular or single-pole function.',
 [C+'gfs/transform/legendre_matsubara.hpp',C+'gfs/functions/legendre.cpp',C+'gfs/functions/dlr.hpp',C+'gfs/transform/pade.cpp',C+'utility/pade_approximants.hpp',C+'gfs/functions/imtime.cpp'],[('basis transformations','c++/triqs/gfs/transform/legendre_matsubara.hpp')],['converted data vs. analytic values'])
prop('G07','Symmetrised Green functions are invariant under their group',
 'Grouping the data of a Green function by symmetry operations partitions all data points into classes closed under the operations, with the correct phase/conjugation relation for every member, and expanding class representatives back reproduces any function with the symmetry exactly; symmetrising an arbitrary function gives an invariant one and reports its violation.',
 ['inputs','configurations'],'all sets of index symmetries on all meshes and targets',
 'One test with one symmetry set.',
 [C+'gfs/gf_sym_grp.hpp'],[('orbit enumeration','c++/triqs/gfs/gf_sym_grp.hpp')],['classes, reconstructed data'])
prop('G08','Everything written to HDF5 is read back equal',
 'Every object with HDF5 support (meshes, Green functions, block functions, operators, Hilbert spaces, histograms, accumulators, random generator free state such as determinants, lattices, tight-binding models, time points, variants, tuples) written to a file and read back, into a fresh or a used object, compares equal and behaves identically; reading a wrong type is rejected with an error instead of being misread.',
 ['inputs','histories'],'all storable types and contents, empty containers, special characters in names',
 'Tests write and read one or two instances of some types.',
 [C+'gfs/h5.hpp',C+'mesh/prod.hpp',C+'mesh/imfreq.hpp',C+'lattice/bravais_lattice.cpp',C+'lattice/tight_binding.hpp',C+'stat/histograms.cpp',C+'utility/variant_serialize.hpp',C+'utility/tuple_serialize.hpp'],[('h5_read / h5_write pairs','c++/triqs')],['equality after reload'])
prop('P01','Parallel reductions, broadcasts and result collection lose nothing',
 'On any number of MPI ranks and any sub-communicator, reducing Green functions, block functions, histograms or statistics gives the element-wise sum (or the requested operation, or the statistics of the union) of what the ranks contributed, on the root or on all ranks as requested and without changing the contributions; broadcasting makes the data of all ranks (holding objects of equal mesh) equal to that of the root; and Monte Carlo collection combines the measures and move statistics of every rank exactly once, whatever the number of cycles each rank has run.',
 ['configurations','schedules','inputs'],'all rank counts, roots, data sizes not divisible by the number of ranks, timing skew between the ranks',
 'Tests run with the rank count of the build machine (usually 1).',
 [C+'gfs/gf/gf.hpp',C+'gfs/block/mpi.hpp',C+'stat/histograms.hpp',C+'stat/accumulator.hpp',C+'mc_tools/mc_generic.hpp'],[('mpi lazy reductions','c++/triqs/gfs/gf/gf_view.hpp')],['data on each rank after the operation'])
prop('L01','Lattice geometry and tight-binding bands match the Bloch sums',
 'Coordinates convert forth and back between lattice and Cartesian bases (direct and reciprocal, 1 to 3 dimensions), reciprocal vectors are dual to the lattice vectors, and t(k) of a tight-binding model equals the sum over hoppings of exp(2 pi i k R) t_R for single k, arrays of k, meshes and paths, being Hermitian and reciprocal-periodic with sorted real eigenvalues as dispersion. Densities of states integrate to one per orbital and vanish outside the band; non-Hermitian or inconsistent input is rejected.',
 ['inputs'],'all lattices, hoppings, k points, grid sizes',
 'One test of one square lattice.',
 [C+'lattice/bravais_lattice.hpp',C+'lattice/bravais_lattice.cpp',C+'lattice/brillouin_zone.hpp',C+'lattice/brillouin_zone.cpp',C+'lattice/tight_binding.hpp',C+'lattice/tight_binding.cpp',C+'lattice/grid_generator.hpp'],[('Bloch sums','c++/triqs/lattice/tight_binding.hpp')],['returned coordinates, matrices, energies'])
prop('Y01','Python root finders return a bracketed solution or report failure',
 'For every monotonic function (rising or falling, starting above or below the target, with steps or plateaus) the Python root finders return a pair (x, f(x)) with f(x) the value at x and |f(x)-y| within the requested precision (or x within the x tolerance of the crossing), or their documented failure result; they never return an unconverged pair as a success, and never evaluate more often than the allowed number of loops.',
 ['inputs','histories'],'all monotonic functions, starting points, steps, precisions, loop limits',
 'Tests solve one polynomial.',
 [Y+'utility/dichotomy.py',Y+'utility/bound_and_bisect.py'],[('bracketing then false position / bisection','python/triqs/utility/dichotomy.py')],['returned tuple, sequence of evaluated points'])
prop('Y02','Python interaction tensors and Hamiltonians are symmetric and equivalent',
 'Interaction matrices built from Slater radial integrals, Kanamori parameters or a spherical basis have the symmetries of a Coulomb interaction, transform covariantly under basis changes, reproduce their U/J definitions, and the Slater, Kanamori and density-density Hamiltonians assembled from them are Hermitian, conserve the documented quantum numbers and equal the direct operator sums. Total N, S, L, S^2, L^2, LS operators obey angular-momentum algebra, and operator structures and names map to indices without collision or loss.',
 ['inputs'],'all l, all U, J, F values, all rotation matrices, all orbital and spin name lists, with and without off-diagonal structure',
 'Tests compare one stored matrix per case.',
 [Y+'operators/util/U_matrix.py',Y+'operators/util/hamiltonians.py',Y+'operators/util/observables.py',Y+'operators/util/op_struct.py'],[('Clebsch/Gaunt based tensors','python/triqs/operators/util/U_matrix.py')],['tensors; operators (through an independent CAR algebra)'])
prop('Y03','Python lattice tools describe the same physical lattice',
 'A superlattice built on a tight-binding lattice has the same spectrum folded to its smaller Brillouin zone, its hoppings are the original ones re-indexed (each exactly once), folding and unfolding between lattice and cluster are inverse to each other; k-paths visit the requested points with cumulative Euclidean distances; and Wannier90 files are parsed into exactly the hoppings, degeneracies and lattice vectors they contain, any number of blocks and line lengths included.',
 ['inputs'],'all superlattice units and cluster sites, paths, input files',
 'Tests parse one file and build one superlattice.',
 [Y+'lattice/super_lattice.py',Y+'lattice/tight_binding.py',Y+'lattice/utils.py'],[('supercell index arithmetic','python/triqs/lattice/super_lattice.py'),('parsers','python/triqs/lattice/utils.py')],['hopping dictionaries, energies, paths'])
prop('Y04','Python densities of states, Hilbert transforms and k-sums are exact sums',
 'The density from a density of states is the trapezoidal integral of its curve at every tabulated energy, monotonic and continuous in between and constant outside of the band; the Hilbert transform of a density of states and the lattice sum over k equal the explicit weighted sums of resolvents for any self-energy, chemical potential, field and orbital structure, each k point counted once and the weights of the density as tabulated, independently of how the points are distributed over processes. Files of densities of states are read column by column without loss.',
 ['inputs','configurations'],'all tables, chemical potentials (inside, outside, on a mesh point), self-energies, matrix sizes, rank counts',
 'Tests use a single tabulated curve.',
 [Y+'dos/dos.py',Y+'dos/hilbert_transform.py',Y+'sumk/sumk_discrete.py',Y+'sumk/sumk_discrete_from_lattice.py'],[('quadrature weights','python/triqs/dos/hilbert_transform.py'),('k sum','python/triqs/sumk/sumk_discrete.py')],['returned densities and Green functions'])
prop('Y05','Python work distribution treats every item exactly once',
 'With any number of processes, slicing an array over ranks gives contiguous, disjoint pieces covering all items with sizes differing by at most one; distributing a list of tasks over nodes computes and delivers every task result exactly once, whatever the relative speeds; broadcast, all-reduce, send and receive of the serial fallback and of the MPI wrapper agree on one process.',
 ['configurations','schedules','inputs'],'all numbers of items (fewer than, equal to, more than ranks), any rank count, any task durations',
 'Tests run serially on one size.',
 [Y+'utility/mpi_mpi4py.py',Y+'utility/mpi_nompi.py',Y+'utility/mpi.py.in',Y+'utility/dist_on_nodes.py'],[('slice arithmetic','python/triqs/utility/mpi_mpi4py.py'),('task farm','python/triqs/utility/dist_on_nodes.py')],['slices per rank, log of computed tasks'])
prop('Y06','Python Green-function objects behave like labelled arrays',
 'Python Green functions and (double) block functions apply arithmetic, slicing, conjugation, inversion, real/imaginary parts, map, copy and assignment of lazy expressions (such as inverse(iOmega_n + mu - Delta)) point by point and block by block as numpy arrays would; slices are views on the same data while copies are independent, block names keep their order, and mismatched structures are refused with an error leaving the operands unchanged.',
 ['inputs','programs','histories'],'all expressions, block structures, target shapes, aliasing of operands',
 'Tests assert a few fixed expressions.',
 [Y+'gf/gf.py',Y+'gf/block_gf.py',Y+'gf/block2_gf.py',Y+'gf/lazy_expressions.py',Y+'gf/descriptors.py',Y+'gf/descriptor_base.py',Y+'gf/map_block.py'],[('lazy expression evaluation','python/triqs/gf/lazy_expressions.py'),('block containers','python/triqs/gf/block_gf.py')],['numpy data of the objects'])
prop('Y07','Plots and fits hand over exactly the stored data',
 'Plotting a Green function, a block function, a density of states, a callable or a list of points hands to the plotting library one curve per component (and per real or imaginary part asked for) whose abscissas and ordinates are exactly the stored mesh points and values, restricted to the requested closed window of the abscissa and nothing else, with the right name and with the caller\'s line options passed on, leaving the object unchanged; a least-squares fit uses exactly the points of its window, minimises the sum of squared differences, and returns the parameters of data that follow the fitted form.',
 ['inputs','configurations'],'all meshes, target shapes, block structures, windows (on, between, outside of mesh points), modes, names and options, initial guesses',
 'No stable test draws a plot or runs a fit.',
 [Y+'plot/mpl_interface.py',Y+'plot/protocol.py',Y+'gf/plot/one_var.py',Y+'gf/plot/plot_base.py',Y+'fit/fit.py',Y+'dos/dos.py'],[('window restriction','python/triqs/plot/protocol.py'),('curves of a Green function','python/triqs/gf/plot/one_var.py'),('fit','python/triqs/fit/fit.py')],['arguments received by a recording stand-in of the plotting library','fit parameters'])
prop('T01','Comparison tools report a difference exactly when there is one',
 'Comparing two archives (h5diff), two Green functions or (double) block functions (assert_gfs_are_close and its variants in Python, EXPECT_GF_NEAR, EXPECT_BLOCK_GF_NEAR and their operator counterpart in C++) or two arrays passes exactly when both have the same keys, types, shapes, meshes and block names and every number agrees within the given precision (numbers outside arrays within 1e-10); any difference beyond the precision in a value (including nan), a shape, a mesh, a name, a type, a string or a key makes the comparison fail and is reported at the key where it is, no other key is reported, and the result does not depend on comparisons made before.',
 ['inputs','histories'],'all trees of groups, arrays (real, complex, integer, boolean, of strings, empty), scalars, strings, Green functions, block functions, operators; all positions and sizes of a difference; any precision; any sequence of comparisons',
 'The comparison tools are what the tests decide with: a tool that passes too much hides every other defect.',
 [Y+'utility/h5diff.py',Y+'utility/comparison_tests.py','c++/triqs/gfs/gf_tests.hpp','c++/triqs/test_tools/gfs.hpp'],[('tree comparison','python/triqs/utility/h5diff.py'),('Green-function comparison','c++/triqs/gfs/gf_tests.hpp'),('array comparison','python/triqs/utility/comparison_tests.py')],['outcome and messages of a comparison'])
prop('Y08','Frequencies and mesh points compute as the numbers they stand for',
 'In Python, a Matsubara frequency is i*pi*(2n+1)/beta (fermions) or i*pi*2n/beta (bosons): sums and differences of frequencies of the same temperature are again frequencies of the right statistic and index, and every other arithmetic operation of a frequency or of a mesh point with numbers, arrays or other points gives the number that the values give; combining frequencies of different temperatures is refused. A product mesh has as many points as the product of its components, enumerates them in row-major order, and its points, indices, copies and comparisons are those of its components.',
 ['inputs','programs'],'all expressions over frequencies, mesh points, numbers and numpy arrays; all temperatures, statistics and indices; all component meshes',
 'Tests use a couple of fixed frequencies.',
 [Y+'gf/matsubara_freq.py',Y+'gf/mesh_point.py',Y+'gf/mesh_product.py'],[('arithmetic of frequencies','python/triqs/gf/matsubara_freq.py'),('product mesh','python/triqs/gf/mesh_product.py')],['values, statistics and indices of the results'])
prop('Y09','Captured and redirected output arrives completely and in order',
 'What is printed inside of a capture comes out as its lines, in order, also with nested captures, after exceptions and when the same object is used again; nothing else is captured and the previous stdout is back in place afterwards. While the output of compiled code is redirected, everything written to the file descriptor of stdout, by any library, child process or thread, arrives as text in the stdout of Python, complete and in order, however it is cut into pieces; what is written before and after reaches the original stdout; redirections can be started and stopped any number of times without leaving anything behind.',
 ['inputs','schedules','histories'],'all texts and sizes, nestings and exceptions; all orders of starts, stops and output; all moments at which the reading thread wakes up; concurrent writers',
 'No test runs either module.',
 [Y+'utility/capture_stdout.py',Y+'utility/redirect.py'],[('capturing prints','python/triqs/utility/capture_stdout.py'),('redirecting the file descriptor','python/triqs/utility/redirect.py')],['captured lines, redirected text, the file behind the original stdout, open descriptors'])
prop('X01','Objects cross the boundary between C++ and Python unchanged',
 'Calling a function, method, constructor or operator of the extension modules from Python gives the result of the C++ function on the same values: meshes, mesh points, Green functions, block functions, lattices, operators, histograms and generators arrive with the same content on either side; Green functions share the memory of their numpy data, so that in-place functions change exactly the data of their argument, whatever its strides, while returned objects are independent. Objects stay valid as long as Python refers to them or to views of them; copies, comparisons, pickles and printed forms agree with the C++ object; and arguments of a wrong type, shape or mesh are refused with an exception, without any memory access out of bounds.',
 ['inputs','histories'],'all wrapped classes and functions, overloads and keyword forms; all strides of the data; all orders of destruction; wrong types, shapes, meshes and numbers of arguments',
 'The stable tests do not build the extension modules.',
 ['c++/triqs/cpp2py_converters/gf.hpp','c++/triqs/cpp2py_converters/mesh.hpp','c++/triqs/cpp2py_converters/operators_real_complex.hpp','c++/triqs/cpp2py_converters/real_or_complex.hpp','c++/triqs/gfs/legacy_for_python_api.hpp',Y+'gf/meshes_desc.py',Y+'gf/gf_fnt_desc.py',Y+'gf/gf_factories_desc.py',Y+'gf/wrapped_aux_desc.py',Y+'operators/operators_desc.py',Y+'lattice/lattice_tools_desc.py',Y+'atom_diag/atom_diag_desc.py'],[('conversion of Green functions','c++/triqs/cpp2py_converters/gf.hpp'),('in-place operations','c++/triqs/gfs/legacy_for_python_api.hpp'),('list of wrapped functions','python/triqs/gf/gf_fnt_desc.py')],['results and exceptions of calls from Python','data of the arguments afterwards','sanitizer reports'])

prop('C01','Threads can share constant objects and use independent ones',
 'Several threads can at the same time call the const interface of one object, or use objects of their own (copies of one original included), without any data race and with the results that a single thread obtains. This holds for meshes and mesh points, Green functions (evaluation, arithmetic, slices, tail fits, densities, Fourier, Legendre, DLR and Pade transforms), many-body operators and their action on states, Hilbert spaces and partitions, atomic problems, determinants, lattices and tight-binding models, accumulators, histograms, random generators, move sets and symmetry groups. The process-wide parts of the libraries below (the planner of FFTW, the default precision of GMP) are never used by two threads at once and are left as they were found. HDF5, MPI, signal handling and complete Monte Carlo runs use resources of the whole process and are outside of this property.',
 ['schedules','inputs'],'all interleavings of two to four threads calling any of these functions on one object, on copies made before, or on copies made by the threads; objects whose lazily computed parts have not been used yet',
 'The tests use one thread.',
 ['c++/triqs/mesh/brzone.hpp','c++/triqs/mesh/tail_fitter.hpp','c++/triqs/lattice/bravais_lattice.hpp','c++/triqs/gfs/transform/fourier_common.cpp','c++/triqs/utility/pade_approximants.hpp','c++/triqs/hilbert_space/imperative_operator.hpp','c++/triqs/atom_diag/atom_diag.hpp'],[('value of a mesh point, computed once','c++/triqs/mesh/brzone.hpp'),('least-squares solvers cached by a mesh','c++/triqs/mesh/tail_fitter.hpp'),('FFTW plans','c++/triqs/gfs/transform/fourier_common.cpp')],['accesses to memory seen by ThreadSanitizer','results of every call','overlapping calls of the FFTW planner','GMP default precision'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
