"""What each check builds and runs. See DESIGN.md for what each one decides."""
CHECKS = {}
OPS = ['operators/*.cpp', 'hilbert_space/*.cpp']
CHECKS['U01'] = dict(
    rule='A case is a random history of pulls, previews, copies, moves, swaps and reassignments over a pool of buffered functions of random buffer sizes; non-trivial if it pulled more than 5 values; distinct by its operation trace.',
    drivers=[dict(name='u01', src=['u01.cpp'])])
CHECKS['H04'] = dict(
    rule='A case is a random Hermitian sparse matrix (chains, stars, random, scrambled order) or many-body Hamiltonian, optionally a hybridisation, followed by one to four merges with pairs of conjugate operators; distinct by its trace and number of subspaces.',
    drivers=[dict(name='h04', src=['h04.cpp']), dict(name='h04r', src=['h04r.cpp'], repo=OPS)])
CHECKS['H01'] = dict(
    rule='A case is a random expression tree over c, c+ of 1-4 modes with integer, string and mixed labels plus a history of in-place and self-aliasing updates, a product of up to nine operators, or an HDF5 round trip; non-trivial unless both expressions vanish; distinct by the trace of the expression.',
    drivers=[dict(name='h01', src=['h01.cpp'], repo=OPS)])
CHECKS['H02'] = dict(
    rule='A case is a random operator (up to 6 products of up to 5 c/c+) applied to random states of a full space (1-7 modes), of particle-number subspaces with a connection map, or of a partial space of 9-64 modes; non-trivial if the operator and the state do not vanish; distinct by the printed operator and sizes.',
    drivers=[dict(name='h02', src=['h02.cpp'], repo=OPS)])
CHECKS['H03'] = dict(
    rule='A case is a random operator set (labels of mixed types, repeated insertions), constructor input, or full/partial space with all its states; non-trivial if not empty; distinct by content.',
    drivers=[dict(name='h03', src=['h03.cpp'], repo=OPS)])
CHECKS['H05'] = dict(
    rule='A case is a random quadratic, density-density, quartic or block operator, with and without irrelevant terms added; non-trivial if it has coefficients; distinct by its trace.',
    drivers=[dict(name='h05', src=['h05.cpp'], repo=OPS)])
CHECKS['M03'] = dict(
    rule='A case is one generator name and seed with a random mixture of draws, previews, moves and reseedings (thousands of values compared with an independent reference stream), or one distribution test; distinct by name, seed and history.',
    drivers=[dict(name='m03', src=['m03.cpp'], repo=['mc_tools/*.cpp'])])
SIGS = ['utility/signal_handler.cpp', 'utility/callbacks.cpp']
CHECKS['U02'] = dict(
    rule='A case is a duration queried at times around its deadline under a virtual clock, a history of start/stop/raise/pop operations, or a stream of timer signals hitting arbitrary points of an allocating thread; non-trivial if more than one signal was raised; distinct by its trace.',
    drivers=[dict(name='u02', src=['u02.cpp'], repo=SIGS),
             dict(name='u02s', src=['u02.cpp'], repo=SIGS, flags=['-DU02_STRESS', '-DNDEBUG'], san='none', timeout=90)])
CHECKS['U03'] = dict(
    rule='A case is an argument history of the Legendre generator, one Matsubara index with all orders up to 150, one (l,p), one Bessel argument, one set of numbers for the predicates, or a history of 12 mixed real/complex operations; distinct by arguments.',
    drivers=[dict(name='u03', src=['u03.cpp'], repo=['utility/legendre.cpp', 'utility/exceptions.cpp', 'utility/stack_trace.cpp'])])
CHECKS['U04'] = dict(
    rule='A case is a pair of tuples of 0-8 elements (copyable and move-only, nine type lists) run through every algorithm, a list of variants, a history of guards that are created, dismissed, moved, assigned and left by return or exception, a walk of dressed iterators, or a history of reports; distinct by values.',
    drivers=[dict(name='u04', src=['u04.cpp'])])
CHECKS['U05'] = dict(
    rule='A case is a triple of time points (edges, powers of two, near-complementary, random) run through all operations, a point made from a double, or points drawn at random below or between two points; distinct by the integers.',
    drivers=[dict(name='u05', src=['u05.cpp'], repo=['mc_tools/*.cpp'])])
MC = ['mc_tools/*.cpp', 'utility/signal_handler.cpp', 'utility/callbacks.cpp', 'utility/exceptions.cpp', 'utility/stack_trace.cpp', 'utility/typeid_name.cpp']
CHECKS['M01'] = dict(
    rule='A case is a random set of moves (nested sets up to depth 2, zero weights) with random real or complex ratios run for up to 120000 steps, each call checked against the protocol; or one non-finite ratio; or a chain on 2-5 states; distinct by event counts.',
    drivers=[dict(name='m01', src=['m01.cpp'], repo=MC)])
CHECKS['M02'] = dict(
    rule='A case is a history of one to five warm-up and accumulation runs of one simulation with measures added and removed in between, each hit by a stop callback, a signal or an exception at a random event; or a run ended by an exception in a child process; or a run on three MPI ranks with exceptions and stops on some; non-trivial if more than three events were observed; distinct by its trace.',
    drivers=[dict(name='m02', src=['m02.cpp'], repo=MC), dict(name='m02m', src=['m02.cpp'], repo=MC, flags=['-DM02_MPI'], mpi=3, san='none', timeout=120)])
CHECKS['D01'] = dict(
    rule='A case is a history of 5-60 try/complete/reject/direct operations (single, k=1-4 rows, refill, roll, swap, regenerate, reserve, clear) on a random real or complex function or an antiperiodic propagator whose arguments own memory, every observable compared after each one with the matrix rebuilt in long double; or growth up to 45 rows, drift of the function under the periodic check, singular tries; distinct by function and length.',
    drivers=[dict(name='d01', src=['d01.cpp'], shards=6)],
    assumptions=['operations are completed only if the resulting matrix is well conditioned (condition number below 1e4, determinant ratio above 1e-4), so that the rounding of the incremental updates stays below the tolerance'])
CHECKS['D02'] = dict(
    rule='A case is a pool of one to five managers with 10-60 operations interleaved with copies (also during a try), moves, swaps, HDF5 round trips into fresh and used objects, reserve and clear; distinct by functions and sizes.',
    drivers=[dict(name='d02', src=['d02.cpp'], shards=6)])
AD = ['atom_diag/impl/*.cpp'] + OPS + ['utility/exceptions.cpp', 'utility/stack_trace.cpp', 'utility/typeid_name.cpp', 'utility/legendre.cpp', 'mesh/*.cpp', 'gfs/**/*.cpp']
CHECKS['A01'] = dict(
    rule='A case is a random Hermitian Hamiltonian (density-density, hopping, quartic, correlated hopping, pairing, odd, constant; integer, generic or widely scaled coefficients; real or complex) on 0-5 modes with random labels, diagonalised with one of the partition modes and compared element by element with dense matrices; or an HDF5 round trip into a fresh and a used object; distinct by Hamiltonian.',
    drivers=[dict(name='a01', src=['a01.cpp'], repo=AD, shards=6)],
    assumptions=['a particle-number window is used only with Hamiltonians that conserve the particle number, and quantum numbers are diagonal in the Fock basis'])
CHECKS['A02'] = dict(
    rule='A case is a random Hamiltonian on 1-5 modes grouped in labelled blocks, diagonalised with a random partition mode, at a random inverse temperature (0.001 to 10^5) with random excluded states: thermal averages, actions and quantum numbers of random operators, or every value of the Green functions in imaginary time, Matsubara and real frequency or the Legendre basis; distinct by Hamiltonian and temperature.',
    drivers=[dict(name='a02', src=['a02.cpp'], repo=AD, shards=6)],
    assumptions=['beta times the energy scale is kept below the point where the rounding of the energies dominates'])
ST = ['stat/*.cpp', 'utility/exceptions.cpp', 'utility/stack_trace.cpp', 'utility/typeid_name.cpp']
CHECKS['S01'] = dict(
    rule='A case is a stream of up to a few hundred samples (double, complex, arrays; independent or correlated) fed to an accumulator with random binning parameters, mixed with manual compressions, copies, assignments and HDF5 round trips, every observable compared after each step with the recorded stream; or a constant stream of more than 2^29 samples continued from a file; or streams of different lengths on three MPI ranks; distinct by its trace.',
    drivers=[dict(name='s01', src=['s01.cpp'], repo=ST, shards=6), dict(name='s01m', src=['s01.cpp'], repo=ST, flags=['-DS01_MPI'], mpi=3, san='none', timeout=120)])
CHECKS['S02'] = dict(
    rule='A case is two to three series of 2-200 correlated samples (scalars, complex numbers, arrays) put through mean, error and several jackknifed functions (vectors, arrays, accumulators), or series of different lengths on three MPI ranks; distinct by its data.',
    drivers=[dict(name='s02', src=['s02.cpp'], repo=ST, shards=4), dict(name='s02m', src=['s02.cpp'], repo=ST, flags=['-DS02_MPI'], mpi=3, san='none', timeout=120)],
    assumptions=['at least two data points over all ranks and one per rank; the result of jackknife_mpi is compared on rank 0 only, as documented'])
CHECKS['S03'] = dict(
    rule='A case is a histogram with random limits and bins given hundreds of points (edges, ends, outside, infinite, NaN) mixed with copies, sums, clearing and HDF5 round trips, every count compared after each point; or histograms reduced and broadcast over three MPI ranks; distinct by its trace.',
    drivers=[dict(name='s03', src=['s03.cpp'], repo=ST, shards=4), dict(name='s03m', src=['s03.cpp'], repo=ST, flags=['-DS03_MPI'], mpi=3, san='none', timeout=120)])
LAT = ['lattice/*.cpp']
GF = ['mesh/*.cpp', 'lattice/*.cpp', 'gfs/**/*.cpp', 'utility/exceptions.cpp', 'utility/stack_trace.cpp', 'utility/typeid_name.cpp', 'utility/legendre.cpp']
CHECKS['G01'] = dict(
    rule='A case is one mesh with random parameters (imaginary or real time or frequency, positive part, Legendre, DLR, discrete, lattice, Brillouin zone, product): every point, index, value, look-up, comparison with meshes that differ in one parameter, adjoint and HDF5 round trip; or one pair of Matsubara frequencies under all operations; distinct by its parameters.',
    drivers=[dict(name='g01', src=['g01.cpp'], repo=GF, shards=6)])
CHECKS['G02'] = dict(
    rule='A case is a function with random data on one mesh (or a product of two or three) and a random target, evaluated at every mesh point and at tens of points between, outside or translated, also through views, partial evaluation and closest points, and compared with weights computed from the mesh parameters; distinct by mesh.',
    drivers=[dict(name='g02%s' % x, src=['g02.cpp'], repo=GF, flags=['-DPART=%d' % n], shards=3) for n, x in ((1, 'a'), (2, 'b'), (3, 'c'))])
CHECKS['G03'] = dict(
    rule='A case is a set of functions with random data on one of seven kinds of meshes with a scalar, matrix or tensor target, and one operation (expression, assignment, view, slice, mapping, lazy expression, block operation); the result is compared element by element with the same operation on plain lists of numbers, and views by the addresses of all their elements; distinct by operation, destination, target and size.',
    drivers=[dict(name='g03l', src=['g03l.cpp'], repo=GF)] +
            [dict(name='g03p%d' % n, src=['g03.cpp'], repo=GF, flags=['-O0', '-DPART=%d' % n], shards=2) for n in range(1, 9)])
CHECKS['G04'] = dict(
    rule='A case is a set of meshes, a target and either a random sum of poles (compared with its analytic transform, with the error bound of the discretisation) or random data (compared with the plain discrete sums, or slice by slice with the single-variable transform), with given, fitted or no moments, through make_gf_from_fourier or the lazy assignment, from and into strided views; distinct by meshes, sizes and target.',
    drivers=[dict(name='g04p%d' % n, src=['g04.cpp'], repo=GF, flags=['-O0', '-DPART=%d' % n], shards=2) for n in range(1, 7)])
CHECKS['G05'] = dict(
    rule='A case is a Green function built from random poles (with noise or garbage outside the part that must matter), with its exact moments and occupation matrix; the fitted moments, the fitted expansion, the replaced points and the densities of all representations are compared with the analytic values; distinct by mesh, statistics, number of moments and target.',
    drivers=[dict(name='g05p%d' % n, src=['g05.cpp'], repo=GF, flags=['-O1' if n < 3 else '-O0', '-DPART=%d' % n], shards=2) for n in range(1, 5)])

CHECKS['G06'] = dict(
    rule='A case is a function built from random poles (or random coefficients) converted between two representations (Legendre, times, frequencies, DLR coefficients and nodes, Pade, coarser meshes); the result is compared with the analytic function, with an independent quadrature or mean, and with the original after the way back; distinct by mesh, statistics, accuracy and target.',
    drivers=[dict(name='g06p%d' % n, src=['g06.cpp'], repo=GF, flags=['-O1' if n in (2, 4) else '-O0', '-DPART=%d' % n], shards=2) for n in range(1, 6)])

CHECKS['G07'] = dict(
    rule='A case is a mesh (one to three variables), a target and a random list of symmetries (reflections, translations, transpositions, orbital permutations with gauge signs, conjugation) together with random data; the classes are recomputed by union-find, the relations by search, and initialisation, expansion, symmetrisation and the reported violation compared with them; distinct by sizes, rank, number of symmetries and classes.',
    drivers=[dict(name='g07p%d' % n, src=['g07.cpp'], repo=GF, flags=['-O0', '-DPART=%d' % n]) for n in range(1, 6)])

CHECKS['G08'] = dict(
    rule='A case is a random object (Green function on any mesh and target, block function, operator, histogram, accumulator, lattice object) with extreme shapes, written to a scratch HDF5 file, closed, reopened and read into a fresh or a used object of the same or of another type; it must come back equal or be refused; distinct by type, shape and target used.',
    drivers=[dict(name='g08p%d' % n, src=['g08.cpp'], repo=sorted(set(GF + OPS + ST)), flags=['-O0', '-DPART=%d' % n]) for n in range(1, 6)])

CHECKS['L01'] = dict(
    rule='A case is a random lattice (1 to 3 dimensions, scaled) with a random hermitian set of hoppings; coordinates, reciprocal vectors, t(k) for one k, arrays, stacks, meshes, paths and grids, and the densities of states are compared with sums done by the monitor; distinct by dimension, orbitals, hoppings and k.',
    drivers=[dict(name='l01', src=['l01.cpp'], repo=GF, flags=['-O0'], shards=4)])

CHECKS['P01'] = dict(
    rule='A case is one collective operation (reduce, all_reduce, broadcast, collection of Monte Carlo results or statistics) on 2, 3 or 5 processes, on the world or on a part of it with its ranks reversed, with a random root, random delays, and data which every process can compute for all others; the result on each rank is compared with the combination of what the ranks held; distinct by operation, root, rank, size of the communicator and of the data.',
    drivers=[dict(name='p01p%dn%d' % (p, n), src=['p01.cpp'], repo=sorted(set(GF + MC + ST)), flags=['-O0', '-DPART=%d' % p], mpi=n, san='none', timeout=150) for p in (1, 2, 3) for n in (2, 3, 5)],
    parallel=2)

CHECKS['C01'] = dict(
    rule='A case is an object (mesh points, Green functions on every mesh, transforms, determinants, operators, atoms, lattices, statistics) used through its const interface by two to four threads at once, either shared or in copies, under ThreadSanitizer and a monitor of the FFTW planner; every value is compared with the one computed by one thread on an equal object; a case is non-trivial if calls of different threads overlapped, distinct by the observed order of all beginnings and ends.',
    drivers=[dict(name='c01p%d' % n, src=['c01.cpp'], repo=sorted(set(GF + OPS + ST + MC + AD)) if n > 2 else GF, flags=['-O1', '-DPART=%d' % n], san='tsan', timeout=240, shards=4) for n in range(1, 5)],
    technique='ThreadSanitizer with a result oracle',
    assumptions=['libraries that are not instrumented (BLAS, FFTW, GMP) are thread-safe where they document it'])

CHECKS['Y01'] = dict(
    rule='A case is a monotonic function (smooth, kinked, with steps or plateaus, rising or falling), a starting point, a step, a target, a precision and a limit of loops; every evaluation is recorded, and the result or reported failure is judged from the record and the function; distinct by function, start, target and limit.',
    drivers=[dict(name='y01', script='y01.py', shards=4)])

CHECKS['Y05'] = dict(
    rule='A case is an array sliced for a number of processes, a collective operation of the Python mpi wrapper with random objects, or a list of tasks (with durations, results of any size, tasks added while others run, nothing to compute) distributed on 1, 2, 3 or 5 processes, with every computation logged in a file by the rank which does it; slices, received objects, the log and the delivered results are judged against the list; distinct by operation and sizes, and for task lists by the log (which rank computed what, in which order).',
    drivers=[dict(name='y05', script='y05.py', shards=2)] + [dict(name='y05n%d' % n, script='y05.py', mpi=n, san='none', timeout=150) for n in (1, 2, 3, 5)],
    parallel=3)

CHECKS['Y02'] = dict(
    rule='A case is an angular momentum coefficient, an interaction tensor (random l, radial integrals or U and J, basis or transformation), a Hamiltonian or observable (random parameters, spin and orbital names, structure) or an operator polynomial; tensors are compared with integrals over the sphere computed here, coefficients with angular momenta coupled here step by step, Hamiltonians and observables as matrices in Fock space (Jordan-Wigner) with the direct sums and with their conservation laws; the compiled operator class is a Python stand-in, itself monitored; distinct by the parameters.',
    drivers=[dict(name='y02', script='y02.py', shards=8)])

CHECKS['Y03'] = dict(
    rule='A case is a tight-binding lattice of one to three dimensions with a superlattice (any independent vectors of any sign, sites found automatically or given as lists, tuples, arrays, outside of the cell), a path in k space, a generated Wannier90 output or PythTB model, a patch of polygons or arithmetic of lattice points; judged by the definition: every hopping of the superlattice is looked up in the original one and counted, spectra are folded, files are compared with what was written, symbolic Hamiltonians are evaluated; the compiled lattice classes are Python stand-ins; distinct by the parameters.',
    drivers=[dict(name='y03', script='y03.py', shards=4), dict(name='y03s', script='y03.py', args=['sympy'], python='/opt/veriftools/pyvenv/bin/python', shards=4)])

CHECKS['Y04'] = dict(
    rule='A case is a tabulated density of states (any mesh, queried inside, on points and outside), a file of them, a Hilbert transform (matrix self energies as functions or objects, fields, dispersions, refinement of densities given as functions, several transforms of one density in any order) or a sum over k (arrays filled by hand, lattices of one to three dimensions with shifts, superlattices, patches, self energies of k and of the dispersion, fields of every kind), computed by the real Python classes on one process and on 2, 3 and 5; judged by explicit sums of resolvents written here, and the k points by being the regular mesh, each point once; the compiled classes below the Python layer are stand-ins; distinct by the parameters.',
    drivers=[dict(name='y04', script='y04.py', shards=3), dict(name='y04v', script='y04.py', python='/opt/veriftools/pyvenv/bin/python', shards=2)] + [dict(name='y04n%d' % n, script='y04.py', mpi=n, san='none', timeout=200) for n in (2, 3, 5)],
    parallel=3)

CHECKS['Y06'] = dict(
    rule='A case is a random program on several Green functions, block functions (one or two block indices) or lazy expressions which share data (views, slices of target and mesh, selected blocks) and meshes, each step - arithmetic with functions, numbers, matrices and lists, assignment of functions and expressions, copies, slices, inversion, conjugation, storage, refused operations - carried out by the real classes and on numpy arrays, and every object in reach compared after every step; or an expression printed, read back, copied, transformed and evaluated; an initializer on any mesh; a tool (Dyson, hybridisation of a bath and its fit, text files, Legendre fit) against its own formula; run on numpy 1 and numpy 2; the compiled classes below the Python layer are stand-ins; distinct by the program.',
    drivers=[dict(name='y06', script='y06.py', shards=6), dict(name='y06v', script='y06.py', python='/opt/veriftools/pyvenv/bin/python', shards=4)],
    parallel=4)

CHECKS['Y07'] = dict(
    rule='A case is a Green function, block function, density of states, callable or list of points on a random mesh with random values, a window, a mode and options, plotted through the interface (directly, through the protocol, or through figures and axes) with a stand-in of matplotlib which records every call; every recorded curve is compared with the data selected by numpy; or a fit of exact or disturbed data, whose result is compared with the known parameters and with an independent minimisation; distinct by mesh, shape, window and mode.',
    drivers=[dict(name='y07', script='y07.py', shards=4), dict(name='y07v', script='y07.py', python='/opt/veriftools/pyvenv/bin/python', shards=4)],
    parallel=4)

CHECKS['Y08'] = dict(
    rule='A case is a random program over frequencies, mesh points, numbers and arrays (sums, differences, products, quotients, powers, negation, comparisons, conversions) evaluated alongside exact index arithmetic and complex numbers; or a random product mesh (components of all types) enumerated, indexed, copied and compared against its components; or a combination which must be refused; distinct by program text, mesh or values.',
    drivers=[dict(name='y08', script='y08.py', shards=4), dict(name='y08v', script='y08.py', python='/opt/veriftools/pyvenv/bin/python', shards=3)],
    parallel=4)

CHECKS['Y09'] = dict(
    rule='A case is a program of prints inside and outside of (nested, repeated, failing) captures, or a history of starts, stops and output to the file descriptor of stdout (small, large, characters cut in two, from C, from child processes, from several threads) with random polling times; the captured lines, the redirected text, what reached the original stdout, and the open descriptors are compared with the program; distinct by program.',
    drivers=[dict(name='y09', script='y09.py', shards=4)])

CHECKS['T01'] = dict(
    rule='A case is a random archive, array, (block) Green function or operator, a copy of it, and at most one change of it (value by more or less than the precision, nan, shape, mesh, name, type, string, key added or removed); the real comparison runs on both, in process or as a script, and its outcome and the keys it names are compared with the change made; distinct by content and change.',
    drivers=[dict(name='t01c', src=['t01.cpp'], xlibs=['-lgtest'], repo=sorted(set(GF + OPS)), flags=['-O0']), dict(name='t01', script='t01.py', shards=4), dict(name='t01v', script='t01.py', python='/opt/veriftools/pyvenv/bin/python', shards=4)],
    parallel=4)

# the extension modules are generated from the *_desc.py files of the tree under test; combinations that only repeat others with another rank are left out
DROP = r'tensor_valued<[13]>|tensor_valued<4>|tensor_real|block2_gf.*(fourier|dlr|imtime|imfreq.*\(.*dlr)|prod<(dlr|imtime|refreq|retime|imfreq),|prod<(brzone|cyclat),(retime|refreq|dlr)>|prod<cyclat,imfreq>|prod<brzone,imtime>'
PYINC = ['-isystem', '/usr/include/python3.12', '-isystem', '/usr/lib/python3/dist-packages/numpy/core/include']
MODS = ['operators/operators_desc.py', 'gf/meshes_desc.py', 'lattice/lattice_tools_desc.py', 'random_generator/random_generator_desc.py', 'stat/histograms_desc.py', 'gf/gf_fnt_desc.py',
        'gf/gf_factories_desc.py', 'gf/wrapped_aux_desc.py', 'atom_diag/atom_diag_desc.py', 'operators/util/extractors_desc.py']
CHECKS['X01'] = dict(
    rule='A case builds objects on one side of the boundary between Python and C++ (random meshes, Green functions on strided numpy views, operators, lattices, histograms, generators), hands them through the extension modules generated from the *_desc.py files of the tree under test and run in an instrumented interpreter, and compares results, types, sharing of memory, in-place effects, life times, copies, pickles and refusals with formulas evaluated by numpy; distinct by the constructed objects.',
    drivers=[dict(name='x01', gen=['wrapgen.py', 'gf_fnt=2,gf_factories=5,wrapped_aux=2,meshes=2', DROP] + MODS, script='x01.py', shim=['libs', 'py'], flags=['-O0'] + PYINC, xlibs=['-lpython3.12'],
                            repo=sorted(set(AD + GF + OPS + ST + ['mc_tools/random_generator.cpp', 'mc_tools/MersenneRNG.cpp', 'operators/util/*.cpp'])), env={'PYTHONMALLOC': 'malloc'}, shards=6),
             # the in-place operations for python on strided views, and the class Gf which holds the data on the side of python
             dict(name='g03l', src=['g03l.cpp'], repo=GF), dict(name='y06g', script='y06.py', args=['--only', 'gf_program'], shards=2)],
    parallel=6,
    assumptions=['the generator and the converters of cpp2py and the Python layer of nda are stand-ins written for this check (shim/py): what is judged is what the *_desc.py files, the converters of TRIQS and the wrapped C++ make of them', 'overloads which differ from others by the rank of the target only are left out (see DROP in bin/specs.py)'])
