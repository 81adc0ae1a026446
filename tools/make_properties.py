#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)


I = "include/k52/"
O = "src/optimization/"
NOTEST = "No existing test touches this code at all (the tests cover DSP transforms, the scales, floating point, settings and one mutator formula). "

# ------------------------------------------------------------------ whole library
prop("C01", "No API call sequence causes memory errors or undefined behaviour",
     "Whatever sequence of public calls a program makes with arguments inside their types (empty, huge, NaN, inverted, mis-sized ones included, as far as the API validates or documents them), the library either completes or throws a C++ exception. It never reads or writes outside an object, uses freed memory, leaks memory, reads uninitialised values, divides integers by zero, overflows signed arithmetic or performs any other undefined operation.",
     ["inputs", "programs", "histories"], "all call sequences over all modules, valid and hostile arguments, both in one thread and through the worker pool",
     "Unit tests run a handful of friendly inputs without sanitizers; an out-of-bounds read that returns a plausible number passes them.",
     ["src", "include/k52"], [("argument validation at each constructor/entry point", "all modules"), ("shared_ptr ownership, deep Clone()", "all modules")],
     observe=["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer reports; valgrind memcheck for uninitialised reads"])

prop("C02", "Concurrent use through the library's own parallelism has no data race",
     "When tasks run on the thread worker pool, when several threads each use their own Fourier, convolution, wavelet, spline, parameter or deterministic optimizer objects at once, when several threads share one work queue or submit work to one pool, and when the genetic algorithm or random search evaluates a thread-safe objective in parallel, no two threads of the program access the same memory in the library without ordering, at least one of them writing.",
     ["schedules", "programs"], "all thread interleavings of pool submission, execution, shutdown, independent transform construction/use/destruction, and parallel evaluation of an objective function",
     "Races depend on interleavings the tests never produce: the only parallel tests run one small GA in an example and two independent transforms, without a race detector.",
     ["src/parallel/thread/thread_safe_queue.h", "src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/worker.h", "src/parallel/thread/thread_worker_pool.cpp", "src/dsp/transform/fast_fourier_transform.cpp"],
     [("mutex + condition variable around the queue", "src/parallel/thread/thread_safe_queue.h"), ("global lock around FFTW plan creation/destruction", "src/dsp/transform/fast_fourier_transform.cpp"), ("one task object per parameter set, results written to distinct slots", "src/parallel/thread/thread_worker_pool.cpp")],
     observe=["ThreadSanitizer reports"])

# ------------------------------------------------------------------ parallel
prop("C03", "Worker pools return task i's own result in slot i, each task run once",
     "For every worker pool kind, handing over a list of tasks returns, after all of them have finished, a list of the same length whose i-th entry is the very result object produced by the i-th task of the list; every task has been performed exactly once per occurrence in the list. This holds for any list length including zero and one, for repeated use of one pool, and when several threads use the same thread pool at once.",
     ["schedules", "inputs", "histories"], "all task lists, task durations, worker interleavings and concurrent callers",
     NOTEST + "The guarantee is about every scheduling order of workers finishing.",
     ["src/parallel/thread/thread_worker_pool.cpp", "src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/worker.h", "src/parallel/thread/thread_worker_pool_task.cpp", "src/parallel/sequential_worker_pool.cpp"],
     [("result slot pointer carried with each task", "src/parallel/thread/thread_worker_pool_task.cpp"), ("count of done tasks awaited before returning", "src/parallel/thread/thread_worker_pool_templated.h")],
     [("done_tasks_", "finished tasks not yet collected by the submitter", "src/parallel/thread/thread_worker_pool_templated.h")],
     observe=["task start/end event log with unique result ids; offline checker"])

prop("C04", "A throwing task surfaces to the caller and leaves the pool usable",
     "If a task throws, the call that submitted it does not hang or terminate the process: once the batch is over it throws to the caller an exception of the type a task of that batch threw. The other tasks of the batch on the thread pool are still each performed exactly once, no result of a failed batch leaks into a later one, and the pool keeps its ability to process later batches.",
     ["fault_sequences", "schedules"], "all subsets of failing tasks, exception kinds (std::exception types, non-std types), batch sequences and schedules",
     NOTEST + "Failure of a task needs fault injection, and a hang cannot be asserted by an ordinary unit test.",
     ["src/parallel/thread/worker.h", "src/parallel/thread/thread_worker_pool_task.cpp", "src/parallel/thread/thread_worker_pool.cpp", "src/parallel/sequential_worker_pool.cpp"],
     [("exceptions captured per task and rethrown by the submitter", "src/parallel/thread/thread_worker_pool.cpp")],
     observe=["exception type seen by the caller, task event log, watchdog"])

prop("C05", "Pool creation, validity and shutdown: correct kind, no lost thread, no hang",
     "The factory says it can create a pool kind exactly when creating it succeeds, throws for kinds that are not built in, and its best pool is valid and uses threads when more than one hardware thread exists. Destroying a pool at any time after its batches returned (idle, never used, straight after a batch, many pools at once) always finishes and leaves none of its threads behind; creating a pool for which the system refuses some thread throws, leaves no thread behind and disturbs no other pool; a pool asked for a non-positive number of workers is rejected with an exception.",
     ["histories", "schedules"], "all create/use/destroy histories and interleavings of shutdown with worker start-up",
     NOTEST + "Shutdown races (stop before a worker reached its wait, lost wake-up) need many repetitions under perturbed schedules.",
     ["src/parallel/worker_pool_factory.cpp", "src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/worker.h"],
     [("interrupt then join every worker in the destructor", "src/parallel/thread/thread_worker_pool_templated.h")],
     observe=["OS thread count before/after, watchdog, factory answers"])

prop("C06", "The blocking work queue is a linearizable FIFO without loss or duplication",
     "The queue that hands work between threads behaves as an atomic first-in first-out queue under any concurrent mix of push, blocking pop, non-blocking pop and emptiness test: every pushed element is popped at most once, elements are popped in an order consistent with the real-time order of the pushes, a blocked consumer is woken whenever elements are available, and a failed non-blocking pop or a positive emptiness answer only happens if the queue could have been empty at that moment.",
     ["schedules", "histories"], "all concurrent histories of the four queue operations by several producers and consumers",
     NOTEST + "Linearizability is a property of all interleavings.",
     ["src/parallel/thread/thread_safe_queue.h"], [("scoped lock + condition variable loop", "src/parallel/thread/thread_safe_queue.h")],
     [("queue_", "elements pushed and not yet popped", "src/parallel/thread/thread_safe_queue.h")],
     observe=["invocation/response timestamped histories, Wing-Gong style linearizability checker"])

prop("C07", "Distributing work over MPI processes gives the same results as one process",
     "With the library built for MPI and run on N>=2 processes, handing a list of tasks to the MPI pool returns each task's own result in its slot, each task is performed exactly once and by a non-server rank, the per-worker statistics add up to the number of tasks, and all worker processes end when the pool is destroyed. Parameters, optimizers and optimization results sent to another process arrive equal to what was sent, so random search with an inner optimizer or objective evaluation over MPI equals local computation.",
     ["inputs", "schedules", "configurations"], "all task lists, process counts, task durations and transferable objects",
     "MPI support is not built by the tests at all.",
     ["src/parallel/mpi/mpi_worker_pool.cpp", "src/parallel/mpi/async_call_chain.cpp", "src/parallel/mpi/identifyable_objects_manager.cpp", O + "count_objective_function_task.cpp", O + "optimization_task.cpp", O + "optimization_task_result.cpp", O + "params/continuous_parameters_array.cpp", O + "params/discrete_parameters.cpp"],
     [("expectation list matched to worker ranks", "src/parallel/mpi/mpi_worker_pool.cpp"), ("symmetric Send/Receive of every transferable", O)],
     observe=["per-rank task event logs, results compared with local recomputation under mpirun"])

prop("C08", "Work statistics and the registry of transferable objects answer faithfully",
     "Worker statistics report for each worker id exactly the number of completed and failed work items registered for it, each id once, and a sequential pool's counter equals the number of tasks it has completed so far. The registry of transferable objects returns, for the identifier of a registered type, an independent copy of the object registered last for that type, rejects unknown identifiers with an exception every time they are asked for, and gives equal identifiers exactly to objects of equal dynamic type.",
     ["histories", "inputs"], "all histories of registrations and queries",
     NOTEST + "Histories of interleaved registration and lookup are unbounded.",
     ["src/parallel/statistics_aggregator.cpp", "src/parallel/worker_statistics.cpp", "src/parallel/sequential_worker_pool.cpp", "src/parallel/mpi/identifyable_objects_manager.cpp"],
     [("map from id to statistics/object", "src/parallel/statistics_aggregator.cpp")],
     observe=["model comparison over random histories"])

# ------------------------------------------------------------------ DSP
prop("C09", "The Fourier transforms compute the discrete Fourier transform",
     "For every sequence length n>=1 and every finite input, the fast and the plain forward transform equal the defining sum X[k] = sum_j x[j] exp(-2 pi i jk/n) up to rounding, whatever was transformed with the same object before, do not modify their input, and agree with each other. Zero length at construction and an input of another length are rejected with an exception, also after successful calls.",
     ["inputs", "histories"], "all lengths (prime, power of two, 1, large), all inputs, all sequences of calls on one or many coexisting objects",
     "Tests check a few fixed 1..6-point vectors; errors that depend on length (radix paths), on reuse of the object or on coexisting objects stay invisible.",
     ["src/dsp/transform/fast_fourier_transform.cpp", "src/dsp/transform/fourier_transform.cpp"], [("FFTW plan over private buffers copied in and out", "src/dsp/transform/fast_fourier_transform.cpp")],
     observe=["outputs compared with a long-double reference DFT, linearity, shift and Parseval relations"])

prop("C10", "The inverse transform undoes the forward transform in both directions",
     "For every length n>=1 and every input, the inverse transform equals the defining sum x[j] = (1/n) sum_k X[k] exp(+2 pi i jk/n) up to rounding, so inverse(forward(x)) = x and forward(inverse(x)) = x, for the fast and the plain implementation and when a forward and an inverse object are used alternately. Inputs of the wrong length are rejected.",
     ["inputs", "histories"], "all lengths and inputs, all alternations of forward and inverse use",
     "Tests check three fixed vectors.", ["src/dsp/transform/inverse_fourier_transform.cpp", "src/common/helpers.cpp"],
     [("conjugate - forward - conjugate - divide by n", "src/dsp/transform/inverse_fourier_transform.cpp")],
     observe=["round-trip and definition residuals"])

prop("C11", "Circular convolution: direct and Fourier-based agree with the definition",
     "For any two sequences of equal length n>=1 both convolution implementations return c[k] = sum_j a[j] b[(k-j) mod n] up to rounding, hence they are commutative, associative, bilinear and have the unit impulse as identity. Sequences of unequal length, or of a length other than the one the Fourier-based object was built for, are rejected with an exception.",
     ["inputs"], "all lengths and sequences, repeated and alternating use of the objects",
     "Tests use a few fixed vectors of length 3..10.", ["src/dsp/transform/circular_convolution.cpp", "src/dsp/transform/fourier_based_circular_convolution.cpp"],
     [("product of spectra", "src/dsp/transform/fourier_based_circular_convolution.cpp")],
     observe=["outputs compared with a long-double reference convolution and algebraic relations"])

prop("C12", "The fast wavelet transform equals the direct correlation, cached or not",
     "For every signal of the length N the transform was built for, every wavelet and every list of positive scales, row s of the fast wavelet transform equals the circular correlation of the signal with the wavelet sampled at (n - N/2)/s, divided by the square root of s, its positions counted from N/2, as computed directly. The result does not depend on whether a cache is used, on the cache's memory limit, or on which signals, scales and wavelets were transformed with the same object before. Signals of another length and scales that are not positive are rejected with an exception.",
     ["inputs", "histories", "configurations"], "all signals, lengths, wavelets, scales, cache limits and histories of calls",
     NOTEST + "Cache effects only appear over histories of repeated calls with limits that force eviction.",
     ["src/dsp/transform/wavelet/fast_wavelet_transform.cpp", I + "dsp/transform/wavelet/fast_wavelet_transform.h", I + "common/cache.h"],
     [("cache of wavelet spectra keyed by scale", "src/dsp/transform/wavelet/fast_wavelet_transform.cpp")],
     observe=["every coefficient compared with a directly computed correlation; cached vs uncached runs"])

prop("C13", "Scale sequences match their documented linear or logarithmic law",
     "A logarithmic (octave) scale from exponent a to exponent b yields exactly the powers of two 2^a, 2^(a+1), ..., 2^b; a linear scale yields the requested number of equidistant values, the first being its minimum and the last its maximum. Values are strictly increasing, and repeated queries give the same sequence. Non-positive minima or maxima of a linear scale, bounds that are not increasing, exponents whose powers of two are not representable, and fewer than two values are rejected with an exception.",
     ["inputs"], "all scale bounds, numbers of octaves/voices and steps",
     "Tests check three fixed scales.", ["src/dsp/transform/wavelet/linear_scale.cpp", "src/dsp/transform/wavelet/logarithmic_scale.cpp"],
     [("loop filling the scales", "src/dsp/transform/wavelet/logarithmic_scale.cpp")],
     observe=["sequence compared with the law evaluated in long double"])

prop("C14", "The Akima spline interpolates its knots smoothly, locally and within range",
     "For any strictly increasing knots (at least the documented minimum) the spline passes through every knot, is continuous with a continuous first derivative, is exact on straight-line data, depends in each interval only on the nearest knots Akima's method uses, and equals Akima's 1970 construction. Scaling or shifting the data scales or shifts the spline; arguments outside the knot range or not a number, mismatched or too few knots, and evaluation before initialisation are rejected with an exception, and re-initialising forgets earlier data completely.",
     ["inputs", "histories"], "all knot sets, evaluation points (knots, interval ends, ulps next to them) and re-initialisation histories",
     "Tests evaluate a few fixed data sets at a few points.", ["src/dsp/akima_spline.cpp"],
     [("interval search and cubic Hermite evaluation", "src/dsp/akima_spline.cpp")],
     observe=["values compared with an independent long-double Akima implementation and metamorphic relations"])

prop("C15", "Wavelets and the continuous wavelet transform follow their definitions",
     "The Haar, Mexican-hat, Morlet and spline-based wavelet functions return their defining value at every real argument (unit-energy normalisation for the Mexican hat; zero outside the support of Haar and spline-based ones, and the latter interpolate the supplied samples spread evenly over their support). The continuous wavelet transform returns, for every position from the start of the signal in the given step and for each requested scale of its linear or logarithmic law, the magnitude of the sum of the signal window centred there times the wavelet stretched by that scale. It returns positions and scales in order and reports rising progress through its callback once per position. The result depends only on the settings the wavelet was last created with; steps that are not positive, lengths that are negative or (the shortest) not positive, and wavelets whose dimensions were changed but not created again are rejected.",
     ["inputs"], "all arguments, signals, scales, sample vectors and steps",
     NOTEST, ["src/dsp/haar_wavelet_function.cpp", "src/dsp/mhat_wavelet_function.cpp", "src/dsp/morlet_wavelet_function.cpp", "src/dsp/spline_based_wavelet_function.cpp", "src/dsp/akima_wavelet_function.cpp", "src/dsp/cwt.cpp", "src/dsp/wavelet.cpp"],
     [("closed formulas", "src/dsp/mhat_wavelet_function.cpp")],
     observe=["values compared with independent reference formulas; callback event log"])

# ------------------------------------------------------------------ parameters
prop("C16", "Discrete parameter encodings are faithful in both directions",
     "Every value an integer parameter may take has a chromosome that decodes to exactly that value, different in-range values have different chromosomes, and encoding a decoded chromosome gives the chromosome back. A real-valued parameter (alone or as an array element) covers its whole interval including both ends: any in-range value survives encode/decode with an error of at most the reported actual precision, which is no coarser than the requested one; every chromosome decodes into the interval and re-encodes to itself; chromosomes of the wrong length, inverted bounds and unattainable precisions are rejected.",
     ["inputs"], "all bounds (negative, spanning zero, extreme), precisions, values and chromosomes",
     NOTEST + "The failing values are single points (upper bound, powers of two, rounding ties) that sampling by hand misses.",
     [O + "params/int_parameter.cpp", O + "params/double_parameter.cpp", O + "params/double_parameters_array.cpp"],
     [("offset binary code with the minimal number of bits", O + "params/int_parameter.cpp"), ("uniform grid over the interval", O + "params/double_parameter.cpp")],
     observe=["round trips over enumerated and random values and chromosomes"])

prop("C17", "Parameter objects are independent, atomic and compose by concatenation",
     "A clone equals its original (values, bounds, chromosome, constraint answer) and afterwards neither ever changes the other; querying (encoding, constraint check, getters) never changes a parameter. A rejected assignment leaves the values as they were; assignments of wrong size or outside the bounds are rejected where documented. A composite parameter's chromosome is the concatenation of its parts' chromosomes in order, decoding it sets every part from its own segment, it satisfies its constraints exactly when all parts do, and its parts are copies of the ones supplied; two non-composite parameters of one kind report the same meta-parameters exactly when their bounds, precisions and counts are equal.",
     ["histories", "inputs"], "all nestings and histories of set, encode, decode, clone and query",
     NOTEST, [O + "params/composite_discrete_parameters.cpp", O + "params/double_parameters_array.cpp", O + "params/const_chromosome_size_paremeters.cpp", O + "params/continuous_parameters_array.cpp", O + "params/int_parameter.cpp"],
     [("deep Clone", O + "params"), ("fixed chromosome size check", O + "params/const_chromosome_size_paremeters.cpp")],
     observe=["model-based comparison over random histories"])

# ------------------------------------------------------------------ GA
prop("C18", "The genetic algorithm returns the best valid individual it ever evaluated",
     "When optimisation ends, the caller's parameters hold a constraint-satisfying point at which the objective was evaluated in this run and whose value is the maximum over all evaluations of the run. The best fitness reported for the run so far never decreases from generation to generation and always equals the objective at the best parameters reported with it. Points violating the constraints that the algorithm generates are never evaluated, minimisation is refused, and an objective that throws makes the optimisation throw.",
     ["inputs", "schedules", "histories"], "all objective functions with non-negative values, parameter spaces with arbitrary constraints, population sizes, elitism, mutators, cache limits and random streams",
     "The tests only check that the example program exits with code 0; the GA's result is never compared with what was evaluated.",
     [O + "genetic_algorithm/genetic_algorithm.cpp", O + "objective_function_counter.cpp"], [("best individual updated from each sorted population", O + "genetic_algorithm/genetic_algorithm.cpp")],
     [("best_individ_", "best individual over all generations", O + "genetic_algorithm/genetic_algorithm.cpp")],
     observe=["log of every objective evaluation, callback statistics, final parameters"])

prop("C19", "Fitness caching never changes the outcome of evolution",
     "With the same random stream, a run with a fitness cache of any memory limit goes through the same generations, best values and result as a run without cache; it only evaluates the objective less often: never again in a later generation for one chromosome while nothing was evicted, with cache hits plus evaluations accounting for every individual of each generation. Values cached for one objective are never used for another one, however often the same algorithm object is reused.",
     ["histories", "configurations"], "all objectives, cache limits (none, tiny, ample), reuse histories of one algorithm object",
     NOTEST + "Stale or evicted entries only show over reuse histories.",
     [O + "objective_function_counter.cpp", I + "common/cache.h", O + "genetic_algorithm/genetic_algorithm.cpp"], [("cache keyed by chromosome, reset per optimisation", O + "objective_function_counter.cpp")],
     observe=["paired runs with identical seeds: generation statistics, evaluations and result compared"])

prop("C20", "Individuals keep chromosome, parameters and fitness in step",
     "After initialisation, randomisation, crossover, mutation, copying or reading from a stream, an individual's parameters are exactly the decoding of its chromosome, and it reports a fitness only if that fitness was set for this very state. Crossover makes two children that at each position carry the two parents' genes, split at one uniformly drawn cut point; randomisation and mutation leave a valid individual and report how many invalid tries were made; writing an individual (with at least one gene) and reading it back restores chromosome and fitness as printed, while input with a wrong length, strange genes or a negative fitness is rejected and leaves it unchanged; copies are independent of the original.",
     ["histories", "inputs"], "all histories of individual operations over all parameter types and constraints",
     NOTEST, [O + "genetic_algorithm/individual.cpp"], [("SetParametersAccordingToChromosome after each change", O + "genetic_algorithm/individual.cpp")],
     observe=["shadow model of each individual over random operation histories"])

prop("C21", "Mutation operators flip genes at their configured rate and nothing else",
     "The linear mutator flips every gene independently with the probability interpolated linearly between its start and end value over the run's generations (none at 0 beyond rounding, all at 1); the flip-bit mutator flips genes whose distances never exceed the reciprocal of its probability and whose long-run density corresponds to uniformly drawn distances, across chromosome boundaries. Every gene is considered exactly once and the chromosome's length never changes. Probabilities outside the admissible range are rejected at construction, for the flip-bit mutator also not-a-number and those above one half.",
     ["inputs", "histories"], "all probabilities, generations, chromosome lengths and random streams",
     "One test checks the linear formula at three generations with a mock; gene selection itself is not tested.",
     [O + "genetic_algorithm/flip_bit_mutator.cpp", O + "genetic_algorithm/linear_mutator.cpp", O + "genetic_algorithm/gen_mutator_base.cpp"],
     [("gap counter", O + "genetic_algorithm/flip_bit_mutator.cpp"), ("linear interpolation", O + "genetic_algorithm/linear_mutator.cpp")],
     observe=["flip positions over long runs, gap and binomial statistics"])

prop("C22", "GA generations, statistics, stop rules and population files are consistent",
     "A run reports generations numbered consecutively from zero, stops at the first one whose best fitness reaches the stop criterion and otherwise after exactly the configured maximum, evaluates at most population-size objectives per generation, and reports the true average fitness, number of invalid chromosomes and population of each. The initial parameters supplied by the user are the first generation, a population saved to a file (with at least one gene) and loaded by a new run is its first generation, and reusing the same optimiser object for another run, even after a failed one, changes nothing in its course. Inconsistent settings are refused: a non-positive or odd population, no generations or no mutator give no optimiser, and an initial set of the wrong size, type or meta-parameters or holding a constraint-violating member, or a missing, malformed or constraint-violating population file makes the run throw.",
     ["inputs", "histories", "configurations"], "all settings, objectives and random streams",
     NOTEST, [O + "genetic_algorithm/genetic_algorithm.cpp", O + "genetic_algorithm/generation_statistics.cpp"],
     [("main loop and statistics", O + "genetic_algorithm/genetic_algorithm.cpp")],
     observe=["per-generation callback log joined with the evaluation log and saved files"])

prop("C35", "Each GA generation descends from the last by elitism, roulette and crossover",
     "Before mutation the next generation begins with unchanged copies of the configured number of best pairs of the current one, and every further pair is a constraint-satisfying pair of children of two members of the current generation, split at one cut point. Members are chosen for crossover with probability proportional to their fitness, never with zero fitness while others have more, and the individual statistics list the fitness of all members of that generation and how often each was chosen, most chosen first. Then the mutator, told the generation's number and the maximum, is applied to each individual in turn until it is valid, and the result is the next generation.",
     ["inputs", "histories"], "all objectives with non-negative values, spaces with constraints, population sizes, elitism, mutators and random streams",
     NOTEST + "The rule is about every transition of every run; tests look at none.",
     [O + "genetic_algorithm/genetic_algorithm.cpp", O + "genetic_algorithm/individual.cpp"],
     [("elitism and crossover loop", O + "genetic_algorithm/genetic_algorithm.cpp"), ("roulette selection", O + "genetic_algorithm/genetic_algorithm.cpp")],
     observe=["saved populations of successive generations joined with a logging mutator and the statistics"])

# ------------------------------------------------------------------ continuous optimizers
prop("C23", "Optimizers are reproducible, and minimising mirrors maximising",
     "After any continuous optimizer finishes, the caller's parameters hold its result, of the same dimension as the start. Maximising a function visits the same points in the same order and ends at the same point as minimising its negative (for random search and simulated annealing, given the same random stream). The deterministic methods, run again, on an object used for another problem (also one that failed) before, or on a clone taken at any time, take the same course as a fresh object. Parameters or objectives of the wrong kind are refused with an exception before anything is evaluated; a point violating the parameters' constraints is never evaluated but reported by an exception, and constraints that hold everywhere change nothing; an exception of the objective reaches the caller.",
     ["inputs", "histories"], "all objectives, start points, dimensions and reuse histories",
     "The examples run each optimizer once and only the exit code is checked.",
     [O + "continuous_optimizer.cpp", O + "hooke_jeeves_method.cpp", O + "bounded_nelder_mead.cpp", O + "hleborodov_rosenbrock_method.cpp", O + "conjugate_gradient_method.cpp", O + "steepest_descent_method.cpp", O + "random_search.cpp", O + "simulated_annealing.cpp"],
     [("sign flip in one place", O + "continuous_optimizer.cpp")],
     observe=["log of every objective call and the final parameters; paired runs"])

prop("C24", "Local optimizers reach the minimum of smooth convex problems",
     "Started anywhere within a moderate distance of the optimum of a convex quadratic of moderate condition (in any dimension up to a dozen, any rotation, translation and either direction of optimisation), each local method - Hooke-Jeeves, conjugate gradient, steepest descent, bounded Nelder-Mead with bounds that stay out of the way, and Rosenbrock's method on nearly spherical ones - stops, within its iteration limit, with an objective value within a tolerance of the true optimum that its configured precision implies: the gradient is no longer than it (conjugate gradient, steepest descent), no neighbour within the last step is better (Hooke-Jeeves), the values of the simplex are no further apart (Nelder-Mead).",
     ["inputs"], "all positive definite quadratics of bounded condition number, start points, dimensions, maximise/minimise",
     "Examples print results on fixed functions; nothing asserts them.",
     [O + "hooke_jeeves_method.cpp", O + "hleborodov_rosenbrock_method.cpp", O + "conjugate_gradient_method.cpp", O + "steepest_descent_method.cpp", O + "bounded_nelder_mead.cpp"],
     [("descent steps", O)], observe=["gap to the analytically known optimum"])

prop("C25", "Descent methods never end worse than they start and always stop",
     "For any finite-valued objective (smooth, non-smooth, discontinuous, plateau, multi-modal) that is bounded in the direction of optimisation, Hooke-Jeeves and bounded Nelder-Mead return a point whose value is at least as good as that of the start point and of every point they evaluated on the way. Every local optimizer stops: conjugate gradient, steepest descent, Rosenbrock, Nelder-Mead and simulated annealing after an amount of work bounded by their iteration limit times a modest factor in the dimension, Hooke-Jeeves once its steps are refined to its precision, also when started exactly at the optimum or on a plateau; and they return finite coordinates.",
     ["inputs"], "all bounded objectives and start points, iteration limits",
     NOTEST, [O + "hooke_jeeves_method.cpp", O + "bounded_nelder_mead.cpp", O + "conjugate_gradient_method.cpp"],
     [("accept only improvements", O + "hooke_jeeves_method.cpp"), ("iteration limits", O)],
     observe=["evaluation log: start value, returned value, number of calls, watchdog"])

prop("C26", "Bounded methods never evaluate or return a point outside their bounds",
     "Bounded Nelder-Mead, random search, simulated annealing and grid search evaluate the objective only at points whose every coordinate lies within the configured bounds whenever the start lies within them, and their results lie within the bounds; bounded Nelder-Mead does so even when started outside.",
     ["inputs"], "all bounds, start points (interior, on a face, in a corner) and objectives",
     NOTEST, [O + "bounded_nelder_mead.cpp", O + "random_search.cpp", O + "simulated_annealing.cpp", O + "grid_search.cpp"],
     [("correction by bounds", O + "bounded_nelder_mead.cpp")], observe=["every objective call checked online by a monitor"])

prop("C27", "Random search returns the best of exactly the points it drew",
     "Random search evaluates exactly the configured number of points, each coordinate uniformly distributed over the bounds and independent, and returns one of them with the best objective value (largest when maximising, smallest when minimising). With an inner optimizer it starts that optimizer once from each of that many random points and returns the best of the optimizer's results; the outcome does not depend on how evaluations were spread over threads.",
     ["inputs", "schedules"], "all objectives, bounds, point counts, inner optimizers and worker interleavings",
     NOTEST, [O + "random_search.cpp", O + "simple_parameters_processor.cpp", O + "optimization_parameters_processor.cpp", O + "optimization_task.cpp"],
     [("parallel evaluation then arg-best", O + "simple_parameters_processor.cpp")], observe=["evaluation log vs returned point"])

prop("C28", "Grid search evaluates the whole lattice and returns its best point",
     "Grid search evaluates every point of the lattice that starts at the lower bound and proceeds by the precision up to the upper bound in every dimension, each exactly once, and sets the parameters to a lattice point with the best objective value - the largest when maximising, the smallest when minimising; no lattice point is skipped for any dimension, bound or precision, and settings that span no lattice are refused.",
     ["inputs"], "all bounds, precisions, dimensions and objectives",
     NOTEST, [O + "grid_search.cpp"], [("mixed-radix enumeration of the lattice", O + "grid_search.cpp")], observe=["evaluation log vs enumerated lattice"])

prop("C29", "Simulated annealing accepts moves by the annealing rule and stays in bounds",
     "Each step of simulated annealing proposes a neighbour differing from the current point in one coordinate (every coordinate equally often), drawn uniformly within the bounds; a better proposal is always accepted, another one with probability exp(-difference/temperature), where the temperature falls linearly from one to zero over the configured number of iterations. The number of proposals equals that number, each proposal starts from the point the previous step ended on, and the result is the point the walk ends on.",
     ["inputs", "histories"], "all objectives, bounds, iteration counts and random streams",
     NOTEST, [O + "simulated_annealing.cpp"], [("temperature schedule and acceptance test", O + "simulated_annealing.cpp")],
     observe=["walk reconstructed from the evaluation log; acceptance statistics per temperature band"])

prop("C30", "Parallel evaluation gives exactly the sequential outcome",
     "With the same random stream, genetic algorithm and random search runs that evaluate the objective on the thread pool produce the same generation statistics, the same evaluated points and the same final result in every run, equal to evaluating the same points one by one, regardless of how long individual evaluations take or in which order they finish.",
     ["schedules"], "all orders of completion of parallel evaluations",
     NOTEST + "Completion orders vary with the machine; no test perturbs them.",
     [O + "objective_function_counter.cpp", O + "simple_parameters_processor.cpp", O + "optimization_parameters_processor.cpp", "src/parallel/thread/thread_worker_pool.cpp"],
     [("results indexed by task", O + "objective_function_counter.cpp")], observe=["paired runs with and without injected evaluation delays"])

# ------------------------------------------------------------------ common
prop("C31", "Random quantities stay in range and follow their documented distributions",
     "Base quantities lie in [0,1], continuous ones between the given bounds, discrete ones are integers between the given bounds with every value possible and equally likely for any range including the full integer range, vectors have the requested size with every entry in range, booleans are fair without bias between successive draws, and an event of probability p happens with frequency p (never beyond rounding at 0, always at 1). Probabilities outside [0,1] and inverted integer ranges are rejected.",
     ["inputs", "histories"], "all bounds, probabilities and long histories of mixed draws",
     "One test compares a rough histogram of one range.", ["src/common/random.cpp"], [("rand() based draws, bit buffer for booleans", "src/common/random.cpp")],
     observe=["range monitor on each draw; chi-square and serial statistics"])

prop("C32", "The cache returns only what was stored under the key, whatever was evicted",
     "A lookup of a key answers that it is cached only if a value was added for that key, and then returns the value added last for it; asking for a key that was never added throws and does not make it look cached. A key just added is present until a later addition, and additions never fail because the memory limit is reached. Older entries are only dropped when the limit is exceeded, and then so that what is held exceeds the limit by no more than the latest addition; a non-positive limit means no cache object.",
     ["histories", "configurations"], "all histories of add, bulk add, test and get over all limits",
     NOTEST, [I + "common/cache.h", I + "common/stored_value.h"], [("eviction before each addition", I + "common/cache.h")],
     observe=["model comparison over random histories with eviction pressure"])

prop("C33", "Settings return exactly what was last put, from code, command line or file",
     "A property read back as a type gives the value last put under that name by the program, by a --name=value command line argument (the last occurrence wins, the value may contain any characters including '=' or be empty, arguments without the prefix are ignored) or by the XML file. Reading with a default returns the default exactly when the property is missing or cannot be read as that type, and reading a mandatory missing property, or a malformed or missing file, throws. Merging two trees keeps every property of both and prefers the left value where both have one.",
     ["inputs", "histories"], "all names, values, types and argument vectors",
     "Tests cover a handful of fixed names and values.", [I + "common/settings_manager.h", I + "common/settings_manager.inl"],
     [("property tree", I + "common/settings_manager.h")], observe=["model comparison over generated command lines and put/get histories"])

prop("C34", "Tolerance comparison and sequence helpers follow their definitions",
     "Two numbers compare equal exactly when they differ by less than the library's absolute tolerance; the comparison is symmetric and false for not-a-number; vectors compare equal exactly when sizes match and all entries do; zero test equals comparison with zero. Conjugation negates exactly the imaginary part of every element, keeps order and length, and leaves its input untouched; printing a vector shows every entry once in order and leaves the stream's formatting as it was.",
     ["inputs"], "all doubles, vectors and complex sequences including signed zero, infinities and not-a-number",
     "Tests check a few pairs around the tolerance.", ["src/common/floating_point.cpp", "src/common/helpers.cpp", "src/common/constants.cpp"],
     [("absolute difference against the tolerance", "src/common/floating_point.cpp")], observe=["reference predicates over boundary-biased inputs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
