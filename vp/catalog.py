"""Property catalogue: mk.py turns it into properties.jsonl and MANIFEST.json."""
CAT = {}
def P(pid, title, statement, over, quant, why, files, mech, observe, note=None):
    CAT[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None), _note=note)
M, H, IO, UT, C = "src/conviqt_math.cpp", "src/conviqt.hpp", "src/conviqt_io.cpp", "src/conviqt_util.cpp", "src/cconviqt.cpp"
L = "levels/cxxsupport/"

P("C01", "Intensity convolution equals the spherical convolution",
  "For an unpolarised convolver the signal written for a sample (theta, phi, psi) equals the all-sky convolution sum over l, m, k of s_lm conj(b_lk) with the Wigner rotation of that direction, evaluated on the documented theta/phi grid and interpolated with the (order+1)-point Lagrange stencil. It holds for all sky and beam coefficients and for every convolver lmax, beam mmax and interpolation order, also when the inputs carry higher orders than the convolver uses. When calibration is requested the value is scaled by 2/(1+epsilon), unless the beam has been normalised.",
  ["inputs", "configurations"], "all sky/beam coefficients, lmax, mmax, order, pointing and polarisation efficiency",
  "the tests compare a handful of signals for one pair of input files at one (lmax, mmax, order); no other coefficients or configurations are tried",
  [M, H, L + "wigner.cc", "levels/libfftpack/ls_fft.c"], [("data cube from Wigner matrices and sky*beam products", "convolver::conviqt_hemiscm"), ("Fourier synthesis in longitude", "convolver::todAnnulus"), ("interpolation", "convolver::conviqt_tod_loop, weight_ncm"), ("calibration", "convolver::convolve")],
  ["signal column of the pointing after convolver::convolve"])
P("C02", "Polarised convolution equals the sum of the T, G and C convolutions",
  "For a polarised convolver the signal of a sample equals the sum of the spherical convolutions of the T, G and C components of sky and beam for its direction and position angle, for all coefficients, lmax, mmax and order. When calibration is requested the value is scaled by 2/(1+epsilon), unless the beam has been normalised.",
  ["inputs", "configurations"], "all T, G, C coefficients, lmax, mmax, order, pointing and epsilon",
  "the tests evaluate one pair of input files at one configuration and compare a few samples",
  [M, IO, H], [("polarised data cube", "convolver::conviqt_hemiscm_pol"), ("synthesis and interpolation", "convolver::todAnnulus, conviqt_tod_loop")], ["signal column after convolver::convolve with pol=true"])
P("C03", "Results do not depend on the number of MPI tasks",
  "The signal of a sample depends only on its direction and position angle, not on the number of MPI tasks, on how the samples are split among them, nor on tasks without samples. Every task takes part in every collective operation, so the call ends on all tasks for every distribution.",
  ["configurations", "inputs", "schedules"], "task counts, distributions of samples (empty tasks included), directions",
  "the tests run one and two tasks with one fixed, even distribution of samples",
  [M, L + "ls_mpi_support.h", L + "mpi_support.cc"], [("latitude bands per task", "convolver::distribute_colatitudes"), ("redistribution of samples", "fillingBetaSeg, todRedistribution5cm, convolve"), ("exchange of the data cube", "get_latitude_tables, alltoall_datacube")], ["pointing on every task after convolve"])
P("C04", "Results do not depend on OpenMP threads; no data races",
  "Convolution gives the same signal for every number of OpenMP threads, and no two threads access the same memory location without synchronisation where one of them writes.",
  ["schedules", "configurations"], "thread counts and all interleavings of the parallel regions",
  "a test run observes one interleaving on one thread count",
  [M], [("private Wigner generators and FFT plans", "omp parallel regions of conviqt_hemiscm(_pol), todAnnulus"), ("interpolation loop", "conviqt_tod_loop")], ["signal after convolve; memory accesses of the parallel regions"])
P("C05", "Pointing columns, row order and sample index are kept",
  "After a convolution every row of the pointing still carries its own longitude, co-latitude and position angle bit for bit in its original place; the signal of a row belongs to that row's direction, and the fifth column holds the global running index of the sample over the tasks. Former contents of the signal and index columns have no influence.",
  ["inputs", "configurations"], "number of samples, their distribution over tasks, equal and reordered directions",
  "tests use a few rows in one order and never check the other columns",
  [M, UT], [("index column", "convolver::convolve"), ("sorting by theta, task and time", "hpsort_arrTheta, hpsort_DDcm, hpsort_arrTime, todgen")], ["all five columns after convolve"])
P("C06", "Every legal co-latitude is convolved and interpolated correctly",
  "For every co-latitude in [0, pi], the poles, the equator and hemisphere or grid boundaries included, the convolution reads and writes only memory it owns and interpolates the data cube with the stencil that belongs to that latitude.",
  ["inputs"], "all real co-latitudes in [0, pi], one to three samples at once, 1-3 tasks",
  "the tests place samples at a few latitudes; array bounds depend on rounding of arbitrary latitudes",
  [M], [("latitude hit map", "distribute_colatitudes"), ("ring index", "beta_to_itheta, ithetacalc, itheta0SetUp"), ("stencil", "conviqt_tod_loop, weight_ncm")], ["signal; memory accesses"])
P("C07", "Longitude and position angle enter periodically and exactly",
  "For every longitude, negative or beyond 2 pi, and every position angle the signal is the interpolation of the data cube at that longitude modulo 2 pi, rotated by the position angle harmonics; stencils crossing the longitude seam wrap around the ring.",
  ["inputs"], "all longitudes in [-7, 7] and position angles in [-4, 4], orders up to 7",
  "the tests sample a few longitudes in one turn",
  [M], [("longitude stencil", "conviqt_tod_loop"), ("position angle recurrence", "conviqt_tod_loop")], ["signal after convolve"])
P("C34", "A convolver can be reused and leaves its inputs alone",
  "Repeated calls of one convolver, with other pointings and sample counts and after set_sky, set_beam or set_detector, give the same result as a fresh convolver on the current inputs. Sky, beam and detector are not modified by a convolution, no uninitialised value reaches a result, and all memory is released.",
  ["histories", "inputs"], "sequences of up to four convolve/set_* calls with symbolic inputs",
  "the tests call convolve on a fresh object with fixed inputs",
  [M, H], [("state kept between calls", "convolver members, base_wgt"), ("input setters", "set_sky, set_beam, set_detector")], ["signal of each call; inputs after the calls; heap"])
P("C37", "Communication stays within the communicator of the caller",
  "Reading a sky or beam and creating or using a convolver communicates only among the tasks of the MPI communicator given by the caller, with the task numbers of that communicator: other tasks need not take part, groups of tasks with different inputs do not influence each other, an error on one group does not reach another, and the signals and sample indices are those of a run with just the tasks of the group. MPI_COMM_SELF, duplicates and communicators with reordered tasks are equally valid.",
  ["configurations", "inputs"], "communicators (all tasks, single tasks, groups, reordered and partial), inputs that differ between groups", "the tests use all tasks in the usual order, and single tasks that all read the same data",
  [IO, M, C, L + "mpi_support.cc", L + "ls_mpi_support.h"], [("communicator of a read", "beam::read, sky::read"), ("communicator of a convolver", "convolver::convolver, mpiMgr"), ("wrappers", "MPI_Manager")], ["coefficients, signals and sample indices on every task; exceptions; collective calls"])
P("C38", "Verbosity never changes results",
  "Every verbosity level gives the same signal, the same collective operations on every task and no additional error; only diagnostic output differs.",
  ["configurations"], "verbosity -1..11, 1-3 tasks, empty tasks",
  "the tests use one verbosity level",
  [M, H], [("diagnostics and timing report", "convolver::convolve, report_timing, timing_line")], ["signal; collective calls"])
P("C08", "Illegal co-latitudes are rejected on every task",
  "A co-latitude outside [0, pi], NaN included, in any row of any task makes convolve fail on every task, before anything is written to the pointing; no task is left waiting. A later call with legal pointing gives the correct signal.",
  ["inputs", "histories"], "every binary64 bit pattern outside [0, pi], at every row and task",
  "the tests never pass an illegal co-latitude", [M], [("validation and agreement of the tasks", "convolver::convolve, fillingBetaSeg")], ["exception on each task, pointing, next call"])
P("C09", "Convolver configurations are validated and mean what is documented",
  "A convolver can be created exactly when 1 <= lmax <= both input lmax, mmax <= beam mmax, mmax <= lmax and order >= 0, a negative lmax or mmax standing for the largest common order; everything else fails with an exception. The orders used are those requested. set_sky and set_beam reject inputs that do not reach the configured orders and leave the former input in place.",
  ["configurations", "histories"], "all integer lmax, mmax and order; all input sizes",
  "the tests create convolvers with one set of orders", [M, H], [("validation", "convolver::convolver"), ("setters", "convolver::set_sky, set_beam, set_detector")], ["exception or signal"])
P("C10", "Sky and beam files are loaded completely and correctly on every task",
  "sky::read and beam::read deliver on every task exactly the coefficients of the file up to the requested orders (the file's own orders when not positive), zero where the file has no row, deconvolved by the given Gaussian for skies; row order, gaps, column precision, missing size keywords and differing component sizes have no influence. An order the file does not have is an error. Re-reading forgets everything of the former contents. All memory and files are released.",
  ["inputs", "configurations"], "all coefficients, file shapes, requested orders, task counts",
  "the tests read two well-formed files with one request each", [IO, L + "fitshandle.cc", "levels/Healpix_cxx/alm_fitsio.cc", "levels/Healpix_cxx/alm_powspec_tools.cc"], [("reading and broadcast", "sky::read, beam::read"), ("tables", "read_Alm_from_fits, get_almsize")], ["coefficients, lmax, mmax of the loaded objects on each task"])
P("C11", "Input errors are reported on every task and leave the library usable",
  "A missing, unreadable or malformed file, or a failure of any call of the FITS library while a sky or beam is read, either has no effect on the data or raises an exception on every task; no task hangs or terminates, memory and files are released, and a later read works.",
  ["crash_points", "inputs"], "the failing FITS call, malformed headers, tables and file names",
  "the tests only read valid files", [IO, L + "fitshandle.cc", "levels/Healpix_cxx/alm_fitsio.cc"], [("error agreement", "sky::read, beam::read"), ("error checks", "fitshandle::check_errors, open, clean_all")], ["exceptions on each task, loaded data, open files, heap"])
P("C12", "The C interface behaves exactly like the C++ classes",
  "Every function of cconviqt.h does what the corresponding C++ member function does: the same data, orders, identifiers, calibration and signals, and a failing return code (-1 or a null pointer) exactly when the C++ call throws. Every setter takes effect and objects are created and deleted without leaks.",
  ["inputs", "histories"], "sequences of calls with symbolic coefficients, epsilon, requested orders",
  "the tests exercise one success scenario and no failing call", [C], [("wrappers", "conviqt_*")], ["return codes, data arrays, signals of both interfaces"])
P("C13", "C interface calls report errors by return code and stay usable",
  "No C++ exception leaves the C interface: illegal orders, impossible sizes, missing files and failing memory requests at any point give a failing return code, leak no memory, leave all objects deletable, and the same calls succeed afterwards.",
  ["crash_points", "inputs"], "the failing memory request, all integer arguments",
  "the tests make no call fail", [C, H, L + "ls_arr.h"], [("exception barrier", "conviqt_* functions"), ("allocation", "pointing_alloc, arr::alloc")], ["return code, heap, later calls"])
P("C14", "Beam normalisation and calibration are applied exactly once",
  "beam::normalize scales every T, G and C coefficient by 1/(2 sqrt(pi) b_00) once and reports that factor (1 when already normalised). convolve applies 2/(1+epsilon) exactly when calibration is requested and the beam is not normalised at that time; a re-read beam is a raw beam.",
  ["inputs", "histories"], "coefficients, epsilon, sequences of normalize, read and convolve",
  "the tests use one beam and one epsilon", [IO, M], [("normalisation", "beam::normalize, normalized"), ("calibration", "convolver::convolve")], ["beam coefficients, return value, signal"])
P("C15", "Removing monopole or dipole removes exactly those multipoles",
  "sky::remove_monopole and remove_dipole zero the l=0 and l=1 intensity coefficients on every task and nothing else; afterwards exactly those multipoles are missing from the signal, and reading the sky again brings them back.",
  ["inputs", "histories"], "coefficients, orders, sequences of removals", "the tests do not look at the coefficients", [IO], [("removal", "sky::remove_monopole, sky::remove_dipole")], ["sky coefficients and signal"])
P("C18", "Complex FFTs equal the discrete Fourier transform for every length",
  "complex_plan_forward/backward and cfft compute sum_j x_j exp(-+2 pi i jk/n) for every length, smooth, prime or with large prime factors, and every input; backward of forward is n times the identity.",
  ["inputs"], "lengths and data", "no test calls the FFT library directly", ["levels/libfftpack/ls_fft.c", "levels/libfftpack/fftpack.c", "levels/libfftpack/bluestein.c", L + "ls_fftpack_support.h"], [("mixed radix", "cfftf, cfftb, passf*/passb*"), ("Bluestein", "bluestein")], ["transformed array"])
P("C19", "Real FFTs equal the discrete Fourier transform for every length",
  "real_plan_forward/backward in FFTPACK layout, in half-complex and in full complex layout, and rfft, compute the transform of real data for every length and input; backward of forward is n times the identity.",
  ["inputs"], "lengths and data", "no test calls the FFT library directly", ["levels/libfftpack/ls_fft.c", "levels/libfftpack/fftpack.c", "levels/libfftpack/bluestein.c", L + "ls_fftpack_support.h"], [("mixed radix", "rfftf, rfftb, radf*/radb*"), ("layouts", "real_plan_forward_fftpack, _c")], ["transformed array"])
P("C20", "FFT plans can be copied, assigned, re-set and used by several threads",
  "Copies of FFT plans are independent of their source: transforms through copies, assigned, re-set and moved-over plans give the right result whatever happened to other plans, also when several threads make and use their own plans at once, and all memory is released exactly once.",
  ["histories", "inputs", "schedules"], "sequences of plan operations, lengths, data, interleavings of threads", "no test copies a plan", ["levels/libfftpack/ls_fft.c", L + "ls_fftpack_support.h"], [("copies", "copy_complex_plan, copy_real_plan"), ("C++ wrappers", "cfft, rfft")], ["transformed arrays; heap"])
HP = "levels/Healpix_cxx/"
P("C16", "Coefficient containers store every (l, m) once and operate on all of them",
  "Alm maps every (l, m) with 0 <= m <= min(l, mmax), l <= lmax to storage of its own, m by m with consecutive l; Num_Alms, index, index_l0, mstart and the element access agree. Scale, ScaleL, ScaleM, Add, SetToZero, Set and swap change exactly the documented elements of the object they are called on; non-conformable, too short or wrongly sized arguments are refused without changing coefficients.",
  ["inputs", "histories"], "all lmax, mmax, l, m; coefficients; factors", "no test uses the container directly", [HP + "ls_alm.h", HP + "alm.cc"], [("index arithmetic", "Alm_Base::index_l0, Num_Alms"), ("element operations", "Alm<T>")], ["elements, orders, exceptions"])
P("C17", "Gaussian smoothing multiplies by the documented window",
  "smoothWithGauss multiplies a_lm by exp(-l(l+1) sigma^2/2), sigma = fwhm/sqrt(8 ln 2), and the G and C coefficients additionally by exp(2 sigma^2); a negative width deconvolves, so applying w and -w restores the input. PowSpec::smoothWithGauss applies the squared (for TG: mixed) windows and refuses six spectra.",
  ["inputs"], "beam width, coefficients, orders", "the tests use one width and look at few signals", [HP + "alm_powspec_tools.cc", HP + "powspec.cc"], [("window", "smoothWithGauss"), ("spectra", "PowSpec::smoothWithGauss")], ["coefficients, spectra"])
P("C21", "Wigner matrix generators deliver d^l_{m1 m2}(theta)",
  "wignergen::prepare/calc return, for all m1, m2 and angles, the Wigner matrix elements d^l_{m1 m2}(theta) for all l from firstl to lmax, the elements below firstl being smaller than the threshold; the scalar and the paired (SSE) versions agree. The result does not depend on which m1, m2 or angles were asked for before.",
  ["inputs", "histories"], "angles, lmax, m1, m2, thresholds, order of calls", "the tests see Wigner matrices only through a few signals", [L + "wigner.cc", L + "ls_wigner.h"], [("l recursion", "wignergen::calc"), ("tables and symmetry", "wignergen_scalar::prepare")], ["returned arrays, firstl"])
P("C22", "Risbo recursions deliver the full Wigner matrix for every l",
  "wigner_d_risbo_scalar, wigner_d_risbo_openmp and their pi/2 versions return with each recurse() the Wigner matrix d^l(theta) of the next l, for every angle, independent of the number of threads, without data races.",
  ["inputs", "schedules"], "angles, l, threads, interleavings", "no test uses the recursion", [L + "wigner.cc", L + "ls_wigner.h"], [("recursion", "recurse, do_line"), ("work sharing", "wigner_d_risbo_openmp::recurse")], ["matrix elements"])
P("C23", "rotate_alm rotates the coefficients by the given Euler angles or matrix",
  "rotate_alm replaces a_lm by sum_k D^l_mk(phi, theta, psi) a_lk (first psi about z, then theta about y, then phi about z), for T alone and for T, G and C alike, by angles or by the corresponding rotation matrix, for all coefficients, angles and thread counts; coefficients with lmax != mmax or of different sizes are refused.",
  ["inputs", "schedules"], "angles, coefficients, orders, threads", "no test rotates coefficients", [HP + "alm_powspec_tools.cc", L + "rotmatrix.cc", L + "wigner.cc"], [("rotation", "rotate_alm"), ("Euler angles", "rotmatrix::Extract_CPAC_Euler_Angles")], ["coefficients"])
P("C24", "Power spectra are the averages over m of the coefficient products",
  "extract_powspec and extract_crosspowspec return C_l = 1/(2l+1) sum_m a_lm b*_lm for every l (m > mmax counting as zero), in the order TT, GG, CC, TG, TC, GC, and refuse non-conformable coefficients. PowSpec always holds 1, 4 or 6 spectra of equal length; consistentAutoPowspec is true exactly for spectra with non-negative autos and |cross|^2 <= product of autos.",
  ["inputs", "histories"], "coefficients, orders, spectra", "no test computes spectra", [HP + "alm_powspec_tools.cc", HP + "powspec.cc"], [("averages", "extract_crosspowspec"), ("container", "PowSpec::Set, assertArraySizes, consistentAutoPowspec")], ["spectra, exceptions"])
P("C25", "Work sharing covers everything exactly once",
  "calcShareGeneral and openmp_calc_share give the shares 0..n-1 of a range consecutive sub-ranges that together are the whole range, without gap or overlap, sizes differing by at most one. chunkMaker delivers consecutive chunks of the requested size that together are the whole range, nchunks() of them, and then reports the end.",
  ["inputs", "configurations"], "all ranges, share counts, thread counts and chunk sizes", "no test calls the functions; a lost or doubled item depends on particular remainders", [L + "ls_share_utils.h", L + "ls_openmp_support.h"], [("shares", "calcShareGeneral, openmp_calc_share"), ("chunks", "chunkMaker")], ["returned limits"])
P("C26", "Numeric helpers are exact for every argument",
  "isqrt returns the integer square root, ilog2 the position of the highest bit, imodulo and fmodulo the non-negative remainder, safe_cast the same value or an exception exactly when it does not fit; ifloor, nearest, xpow, sign, multiequal, approx, safe_atan2 and interpol_helper are what their descriptions say, for every argument of every type in range.",
  ["inputs"], "all arguments", "no test calls the functions; the wrong cases are single values", [L + "ls_math_utils.h", L + "ls_safe_cast.h"], [("integer square root", "isqrt"), ("conversions", "safe_cast"), ("interpolation interval", "interpol_helper")], ["returned values, exceptions"])
P("C27", "Sorting routines sort, keep rows together and lose nothing",
  "hpsort_arrTheta, hpsort_arrTOD and hpsort_arrTime put the five-column rows in ascending order of their column, hpsort_DL and hpsort_DDcm the pairs in ascending order of the first array: the result is a permutation of the input, rows and pairs stay together, an incomplete last row is left alone and arrays of different sizes are refused unchanged.",
  ["inputs"], "keys, sizes, key patterns", "no test calls the routines; wrong order needs particular key sequences", [UT], [("row sort", "hpsort_arrTheta, hpsort_arrTOD, hpsort_arrTime"), ("pair sort", "hpsort_DL, hpsort_DDcm")], ["sorted arrays"])
P("C31", "Rotation matrices, Euler angles, axes and vectors agree",
  "The matrix and vector operations are the usual ones; Make_CPAC_Euler_Matrix is the rotation by gamma about z, beta about y, alpha about z; Make_Axis_Rotation_Transform the rotation about the axis. Extract_CPAC_Euler_Angles and toAxisAngle return, for every rotation matrix including identity, half turns and polar cases, angles (and a unit axis) that describe the same rotation.",
  ["inputs"], "angles, axes, matrices", "no test uses the classes", [L + "rotmatrix.cc", L + "ls_rotmatrix.h", L + "ls_vec3.h"], [("Euler angles", "rotmatrix::Extract_CPAC_Euler_Angles"), ("axis and angle", "rotmatrix::toAxisAngle"), ("vectors", "vec3_t")], ["matrix elements, angles, axes"])
P("C29", "Message passing wrappers deliver every task's data unchanged",
  "MPI_Manager's send, recv, sendrecv, sendrecv_replace, bcast, gather, gatherv, allgather, all2all and all2allv deliver, for every number of tasks, root, element type and count (zero and unequal counts included), exactly the data of the source in task order, size the output accordingly and leave the input alone; reduce and allreduce give sum, product, minimum or maximum over all tasks. Impossible sizes are refused.",
  ["inputs", "configurations"], "data, counts, types, roots, reductions and numbers of tasks", "no test calls the wrappers on their own; most of them are not called at all", [L + "mpi_support.cc", L + "ls_mpi_support.h"], [("raw calls", "MPI_Manager::*Raw*"), ("sizes and offsets", "gatherv, all2allv, allgather templates")], ["received data on every task"])
P("C32", "Random numbers follow the documented generator",
  "planck_rng delivers, for all seeds (zero meaning the default), the xor128 sequence after the documented scrambling, starts again after seed() and forgets a stored normal number; rand_uni is the integer over 2^32 in [0, 1), rand_exp -log of a uniform number and finite for zero, rand_gauss the two numbers of the polar method for each accepted pair.",
  ["inputs", "histories"], "all seeds, all generator words, rejections", "no test uses the generator; wrong cases (zero seeds, zero words, reseeding between the two numbers of a pair) need particular seeds", [L + "ls_rng.h"], [("generator", "planck_rng::int_rand_uni, seed"), ("distributions", "rand_uni, rand_exp, rand_gauss")], ["returned numbers"])
P("C35", "Random coefficients have the covariance of the power spectra",
  "create_alm and create_alm_pol fill all coefficients with linear combinations of independent normal numbers whose covariance is exactly that of the spectra: variance C_l for m = 0 (real) and C_l/2 for either part for m > 0, T and G correlated by TG, everything else uncorrelated, for all spectra including vanishing ones; spectra no field can have are refused.",
  ["inputs"], "all spectra, correlations, orders", "no test creates random coefficients; a statistical test cannot tell a small error", [HP + "alm_powspec_tools.cc"], [("amplitudes", "create_alm, create_alm_pol")], ["coefficients as functions of the normal numbers"])
P("C33", "FITS tables, keywords and images come back as written",
  "What write_Alm_to_fits, write_compressed_Alm_to_fits and the fitshandle functions write is what the reading functions return: a_lm tables give the same coefficients (zero where nothing was written, whatever the chunk size, row order, precision and requested orders), get_almsize(_pol) the largest orders, compressed tables only the non-zero rows; columns of binary and (numeric) ASCII tables, strings, keywords and images written piece by piece come back unchanged, and the row counts are right. A failure of any call of the FITS library, while writing too, is reported by the operation and leaks nothing. Wrong columns, sizes, HDUs and closed handles are refused.",
  ["inputs", "configurations"], "coefficients, patterns of zeros, orders, chunk sizes, column types, offsets, image sizes", "the tests only read two given files; nothing is ever written", [HP + "alm_fitsio.cc", HP + "ls_alm_fitsio.h", L + "fitshandle.cc", L + "ls_fitshandle.h"], [("a_lm tables", "write_Alm_to_fits, read_Alm_from_fits, get_almsize"), ("columns, keys, images", "fitshandle")], ["data read back; rows in the file"])
P("C30", "Texts, truth values and command lines are taken apart as documented",
  "trim removes blanks and tabs at both ends of a text and nothing else; equal_nocase and tolower ignore and lower the case of ASCII letters only; stringToData<bool> accepts exactly the documented texts (F f n N false .false. FALSE .FALSE. and their T counterparts), refuses all others and then leaves the value alone. parse_cmdline_equalsign and parse_cmdline_classic give exactly the parameters on the command line: leading arguments by position, key=value split at the first '=' with blanks removed, -key value and -key (true) with negative numbers taken as values, the last of several definitions; nothing is left from an earlier content of the dictionary; too few arguments and values without a key (classic) are refused.",
  ["inputs"], "all characters of texts up to the bound; for command lines every combination of the significant characters", "no test uses these functions",
  [L + "string_utils.cc", L + "ls_string_utils.h"], [("texts", "trim, equal_nocase, tolower"), ("truth values", "stringToData<bool>"), ("command lines", "parse_cmdline_classic, parse_cmdline_equalsign, isParam")], ["texts, values, dictionaries; exceptions; memory"])
P("C28", "Array containers own, copy and resize their elements correctly",
  "arr, arr_align, arr2, arr2b, arr2_align and arr3 store every element at its own place in C order; copies and assignments are independent of the source, resize keeps the leading elements, transfer and swap move contents, memory of the caller is used but never freed, and no memory leaks. A failing memory request leaves an empty or unchanged array that can be used again. minmax, find, contains, contentsEqual and sort are right for all contents.",
  ["inputs", "histories", "crash_points"], "sequences of operations, sizes, elements, the failing memory request", "the tests use arrays only inside successful convolutions; no allocation fails", [L + "ls_arr.h", L + "ls_alloc_utils.h"], [("storage management", "arrT::alloc, resize, transfer, swap, operator="), ("shapes", "arr2T, arr2b, arr3")], ["sizes, elements, addresses, heap"])
P("C36", "The Python wrapper is a faithful interface to the C library",
  "Beam, Sky, Detector, Pointing and Convolver of libconviqt_wrapper pass their arguments unchanged to the corresponding C function and return its results; constructors and methods raise an exception exactly when the C call fails. get_data returns copies of the T and, for polarised objects, G and C coefficients; set_data replaces all of them and refuses missing or wrongly sized arrays without changing anything; Pointing.data() is a view of all rows, also for none. Every C object is deleted exactly once, also after a failed constructor, and the inputs of a convolver live as long as the convolver.",
  ["inputs", "histories", "crash_points"], "arguments, return codes, coefficients, sizes, order of releases", "the test runs one unpolarised scenario without failures", ["python/libconviqt_wrapper/__init__.py"], [("arguments and results", "Beam, Sky, Detector, Pointing, Convolver"), ("coefficients", "get_data, set_data, num_alms"), ("lifetime", "__init__, __del__")], ["arguments of the C calls, exceptions, returned arrays, memory of the library"])
NA = {}
