NOTE = "Seeded search over inputs, options, schedules, random draws, clocks and heap contents with an independent exact reference as oracle; no exhaustiveness is claimed. All msolve code is real; OpenMP runtime, clock, rand, files and heap contents are simulated."
prop("C01", "Groebner bases over prime fields are exactly right",
 "For every system over a prime field with characteristic below 2^31, the basis printed for the degree reverse lexicographical order is the reduced Groebner basis of the ideal generated by the input, listed by increasing leading monomial, and the leading ideal printed on request lists exactly its leading monomials. This holds for every choice of thread count, linear algebra variant, hash table size, pair limit and verbosity, and for every interleaving of the worker threads.",
 ["inputs", "schedules", "configurations"], "all finite systems over GF(p), all values of the tuning options, all thread interleavings and team sizes, all random draws for primes of at least 2^30",
 TESTS + "no interleaving of two threads is ever exercised, because the suite limits OpenMP to one thread, and most option combinations are never run.",
 ["src/neogb/f4.c", "src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/update.c", "src/neogb/symbol.c", "src/neogb/hash.c", "src/neogb/convert.c", "src/neogb/basis.c", "src/neogb/io.c"],
 [("lock free publication of new pivots (compare and swap)", "src/neogb/la_ff_8.c, la_ff_16.c, la_ff_32.c"), ("pair criteria and redundancy elimination", "src/neogb/update.c"), ("symbolic preprocessing and hash table enlargement", "src/neogb/symbol.c, src/neogb/hash.c"), ("final interreduction", "src/neogb/f4.c reduce_basis")],
 [("pivs", "pivot rows shared by all threads during elimination", "src/neogb/la_ff_*.c"), ("bs", "intermediate basis with redundancy flags", "src/neogb/basis.c")], ["printed basis of msolve -g 2 and -g 1"],
 tech=T + " of the OpenMP threads; exact Buchberger reference as oracle", note=NOTE)
prop("C02", "Elimination orders give exactly the elimination ideal",
 "When the first k variables are to be eliminated, over a prime field the printed basis is the reduced Groebner basis for the block elimination order, and over the rationals it is the reduced Groebner basis of the elimination ideal in the remaining variables. This does not depend on options, thread interleaving or random draws.",
 ["inputs", "schedules", "configurations"], "all systems over prime fields and over the rationals, all k, all option values, interleavings and draws",
 TESTS + "a handful of elimination runs exist, none with several threads.",
 ["src/neogb/order.c", "src/neogb/hash.c", "src/neogb/f4.c", "src/msolve/lifting-gb.c", "src/msolve/hilbert.c", "src/msolve/msolve.c"],
 [("block order comparison", "src/neogb/order.c"), ("selection of the elements free of eliminated variables", "src/msolve/lifting-gb.c"), ("multi modular lifting", "src/msolve/lifting-gb.c")], (), ["printed basis of msolve -e k -g 2"],
 tech=T + " and draws; exact Buchberger reference as oracle", note=NOTE)
prop("C03", "Groebner bases over the rationals are exactly right",
 "For every system with rational coefficients the printed basis is the reduced Groebner basis of the ideal it generates over the rationals, with primitive integer coefficients, whatever word-size primes the run happens to draw for its modular computations and however its threads and its clock behave.",
 ["inputs", "schedules", "configurations"], "all systems over the rationals, all draws of primes for which the first prime is not unlucky, all interleavings, clock readings and option values",
 TESTS + "the primes drawn, the timing driven decisions and the thread interleavings differ from run to run and are never controlled.",
 ["src/msolve/lifting-gb.c", "src/neogb/f4.c", "src/neogb/modular.c", "src/crt", "src/msolve/primes.c"],
 [("trace learning on the first prime, trace application on the others", "src/msolve/lifting-gb.c, src/neogb/f4.c"), ("detection of bad primes", "src/msolve/lifting-gb.c gb_modular_trace_application"), ("Chinese remaindering and rational reconstruction with a verification prime", "src/msolve/lifting-gb.c, src/crt")],
 [("modgbs", "modular images of the basis and the lifted coefficients", "src/msolve/lifting-gb.c"), ("bad_primes", "per prime failure flags", "src/msolve/lifting-gb.c")], ["printed basis of msolve -g 2 and -g 1 with characteristic 0"],
 tech=T + ", clocks and prime draws; exact rational Buchberger reference as oracle", note=NOTE)
prop("C04", "Rational parametrizations describe exactly the solution set",
 "For every zero-dimensional system over the rationals the printed parametrization has the right degree, its eliminating polynomial is the square-free characteristic polynomial of the printed separating linear form on the solutions, and substituting it makes every input polynomial vanish. The result does not depend on draws, clock or interleaving.",
 ["inputs", "schedules", "configurations"], "all zero-dimensional systems over the rationals, all draws, interleavings, clock readings and options",
 TESTS + "they compare printed text and cannot follow another draw of the linear form or of the primes.",
 ["src/msolve/msolve.c", "src/msolve/hilbert.c", "src/fglm/fglm_core.c", "src/fglm/berlekamp_massey.c", "src/neogb/modular.c"],
 [("sparse FGLM: multiplication matrix, Wiedemann sequence, Berlekamp-Massey", "src/fglm"), ("staircase genericity tests and change of linear form", "src/msolve/msolve.c, src/msolve/hilbert.c"), ("lifting of the parametrization and check with one more prime", "src/msolve/msolve.c")], (), ["printed output of msolve -P 2"],
 tech=T + ", clocks and draws; independent algebraic checker as oracle", note=NOTE)
prop("C05", "Every real solution is isolated exactly once",
 "For every zero-dimensional system over the rationals the printed list of boxes contains exactly one box for each real solution, and each box encloses its solution, at every requested precision and for every number of threads.",
 ["inputs", "schedules", "configurations"], "all zero-dimensional systems over the rationals, all precisions, interleavings, draws and clock readings",
 TESTS + "they compare printed boxes of a few systems and never run the root isolation with several threads.",
 ["src/usolve/usolve.c", "src/usolve/descartes.c", "src/usolve/refine.c", "src/msolve/msolve.c"],
 [("Descartes bisection with parallel Taylor shifts", "src/usolve"), ("quadratic interval refinement", "src/usolve/refine.c"), ("interval evaluation of the parametrization", "src/msolve/msolve.c")], (), ["printed boxes of msolve, with and without -P 1"],
 tech=T + " and draws; exact real root reference as oracle", note=NOTE)
prop("C06", "Parametrizations over prime fields describe exactly the solutions",
 "For every zero-dimensional system over a prime field of admissible size the printed parametrization has the right degree, its eliminating polynomial is the square-free characteristic polynomial of the printed linear form, and it makes every input polynomial vanish, for every draw and every interleaving.",
 ["inputs", "schedules", "configurations"], "all zero-dimensional systems over GF(p) with p in the range accepted by the change of order code, all draws and interleavings",
 TESTS + "one prime and one draw per system.",
 ["src/msolve/msolve.c", "src/fglm/fglm_core.c", "src/fglm/data_fglm.c", "src/msolve/hilbert.c", "src/upolmat"],
 [("sparse FGLM with SIMD matrix vector products", "src/fglm"), ("genericity tests", "src/msolve/hilbert.c")], (), ["printed output of msolve over a prime field"],
 tech=T + " and draws; independent algebraic checker as oracle", note=NOTE)
prop("C07", "Empty, finite and infinite solution sets are told apart",
 "A run reports no solution exactly when the input generates the whole ring, positive dimension exactly when there are infinitely many solutions over the algebraic closure, and prints a finite description otherwise.",
 ["inputs", "schedules", "configurations"], "all systems over the rationals and over prime fields, all draws, interleavings and options",
 TESTS + "few empty or positive-dimensional systems are among them.",
 ["src/msolve/msolve.c", "src/msolve/hilbert.c", "src/neogb/f4.c"],
 [("dimension from the leading monomials", "src/msolve/hilbert.c"), ("return codes of the modular trace", "src/msolve/msolve.c")], (), ["first entries of the printed result"],
 tech=T + " and draws; dimension from an exact reference basis as oracle", note=NOTE)
prop("C08", "Normal forms are the unique remainders modulo the ideal",
 "For every system over a prime field and every list of polynomials to be reduced, the printed normal forms are the unique remainders of these polynomials modulo the reduced Groebner basis, in input order, for every thread interleaving and option choice.",
 ["inputs", "schedules", "configurations"], "all systems and polynomials over prime fields, all interleavings and options",
 TESTS + "normal forms of a few polynomials are compared on one thread.",
 ["src/neogb/nf.c", "src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/msolve/msolve.c"],
 [("reduction of many rows in parallel against a fixed basis", "src/neogb/nf.c, src/neogb/la_ff_*.c")], (), ["printed output of msolve -n k"],
 tech=T + "; exact division with remainder as oracle", note=NOTE)
prop("C09", "Saturation returns the saturated ideal",
 "For every ideal I and polynomial f over a prime field with 32-bit arithmetic, the basis printed by the saturation mode is the reduced Groebner basis of the saturation of I by f: it contains I, contains nothing outside the saturation, is complete, and is the same for every interleaving and draw.",
 ["inputs", "schedules", "configurations"], "all ideals and polynomials over 32-bit prime fields, all interleavings, draws and options",
 TESTS + "two saturation inputs are in the suite.",
 ["src/neogb/f4sat.c", "src/neogb/la_ff_32.c", "src/neogb/convert.c", "src/msolve/msolve.c"],
 [("kernel of the multiplication by f on a truncated quotient", "src/neogb/f4sat.c, src/neogb/la_ff_32.c"), ("critical section collecting kernel elements", "src/neogb/la_ff_32.c")],
 [("sat", "multiples of f reduced modulo the current basis", "src/neogb/f4sat.c"), ("kernel", "kernel elements found by all threads", "src/neogb/la_ff_32.c")], ["printed output of msolve -S -g 2"],
 tech=T + " and draws; exact saturation reference as oracle", note=NOTE + " Incompleteness of the unchanged tree is a recorded finding, bounded by a rate.")

F = "deterministic simulation with fault injection: "
prop("C10", "A result which could not be stored is never reported as success",
 "Whenever writing the result fails or is cut short (full disk, I/O error, failing open or close, short write), msolve either still produces the complete fault free output or ends with a nonzero exit status; no other file is touched; a crash at any point leaves the output file empty or holding a beginning of the result, and running again on what is left produces the complete result.",
 ["fault_sequences", "crash_points", "inputs", "schedules"], "all write, open and close faults and all crash points of every computation",
 "No test makes a system call fail or stops a run half way.",
 ["src/msolve/iofiles.c", "src/msolve/msolve.c", "src/msolve/lifting-gb.c", "src/msolve/main.c"],
 [("truncation at the start, appending writers", "src/msolve/main.c, src/msolve/msolve.c"), ("error check when the output is closed", "src/msolve/iofiles.c")], (), ["exit status, output file, standard output, other files"],
 tech=F + "write, open and close faults and crashes at seeded points; fault free run of the same seeds as oracle", note=NOTE)
prop("C11", "Input errors never turn into the answer to another question",
 "However the input file is delivered (short reads at any point, any size), the result is that of the complete file; when a read or an open fails, the run ends with a nonzero exit status instead of solving what was read so far.",
 ["fault_sequences", "inputs"], "all read and open faults on the input of every computation, input layouts spanning several buffers",
 "No test makes a read fail or fall short.",
 ["src/msolve/iofiles.c", "src/msolve/main.c"],
 [("the file is read several times: variables, number of generators, terms, coefficients", "src/msolve/iofiles.c")], (), ["exit status and printed output"],
 tech=F + "read and open faults at seeded points; fault free run of the same seeds as oracle", note=NOTE)
prop("C12", "Running out of memory never gives a wrong answer",
 "When any allocation of msolve fails, once or from then on, the run stops (with an error or a signal) or completes with exactly the fault free output; it never prints a wrong result with exit status 0, never runs forever and never damages another file.",
 ["fault_sequences", "inputs", "schedules"], "every single allocation and every point from which all allocations fail, in every computation",
 "No test makes an allocation fail.",
 ["src/neogb", "src/msolve", "src/fglm", "src/usolve"],
 [("growing basis, hash tables, pair sets and coefficient arrays", "src/neogb/*.c"), ("reallocation of modular images", "src/msolve/lifting-gb.c")], (), ["exit status and printed output"],
 tech=F + "failing allocations at seeded points; fault free run of the same seeds as oracle", note=NOTE + " Allocations inside GMP and FLINT do not fail in the simulation (both abort by design); shrinking a block never fails.")
prop("C13", "Library calls are independent of each other",
 "In every sequence of library calls (bases over prime fields and the rationals, normal forms, solving, releasing results) within one process, each call returns the result determined by its own input, leaves the caller's input and the results of earlier calls unchanged, and the released results do not affect later calls, for every interleaving and draw.",
 ["histories", "inputs", "schedules", "configurations"], "all finite sequences of calls with all inputs, options, draws and interleavings",
 TESTS + "every test makes one computation per process.",
 ["src/neogb/gb.c", "src/neogb/f4.c", "src/neogb/nf.c", "src/neogb/modular.c", "src/neogb/engine.c", "src/msolve/msolve.c"],
 [("function pointers set for the current field", "src/neogb/engine.c"), ("export of results into caller owned arrays", "src/neogb/io.c"), ("interface msolve_julia", "src/msolve/msolve.c")],
 [("globals", "file level function pointers and counters shared by all calls", "src/neogb/*.c")], ["arrays returned by export_f4, export_nf, export_groebner_qq, msolve_julia"],
 tech=T + ", draws and call histories; exact references per call as oracle", note=NOTE + " Lost solutions of non radical ideals are a recorded finding, bounded by a rate.")
prop("C14", "Larger computations agree with each other and with the reference",
 "Also for systems large enough to grow tables, split pair batches and use many rows per matrix, all runs on the same input print the same basis whatever the options, thread counts, interleavings and draws, this basis is the reduced Groebner basis, and printed parametrizations and boxes describe all solutions.",
 ["inputs", "schedules", "configurations"], "all systems, options, interleavings and draws; sampled with up to 10 variables and quotient dimension about 80",
 TESTS + "larger systems are run with one option set each.",
 ["src/neogb/hash.c", "src/neogb/update.c", "src/neogb/symbol.c", "src/neogb/la_ff_32.c", "src/neogb/modular.c", "src/msolve/lifting-gb.c", "src/fglm/fglm_core.c"],
 [("table and basis growth", "src/neogb/hash.c, src/neogb/basis.c"), ("pair selection limits", "src/neogb/update.c")], (), ["printed output of msolve"],
 tech=T + " and draws; agreement between runs and a modular reference basis as oracle", note=NOTE + " Over the rationals the basis is compared modulo a 61 bit prime.")
prop("C15", "The system solved is the one the input file denotes",
 "The result depends only on the polynomials the input file denotes according to the documented format, not on how they are written: line breaks and white space, order of terms and factors, signs, variable names of any length, coefficients of any size (rationals, not in lowest terms, not reduced modulo the characteristic), zero, repeated and cancelling terms, repeated variables in a product, and how the file is delivered. Text that denotes no polynomial system (undeclared variables, malformed terms, exponents too large to be represented) is refused, never answered.",
 ["inputs", "fault_sequences"], "all texts in the documented format and all deliveries with short reads",
 "The tests use files of one layout with normalised terms.",
 ["src/msolve/iofiles.c", "README.md", "src/neogb/io.c"],
 [("reader for variables, number of generators, terms and coefficients", "src/msolve/iofiles.c"), ("import of generators", "src/neogb/io.c")], (), ["printed output of msolve"],
 tech=F + "short reads and seeded spellings of seeded systems; exact references of the denoted system as oracle", note=NOTE)
