"""Which workloads decide which property."""
DEF = "-DBUILD_WITH_FFTW3 -DBUILD_WITH_BOOST_THREAD -D_USE_MATH_DEFINES"
WRAP = " ".join("-Wl,--wrap=" + f for f in ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "_ZN5boost6thread20hardware_concurrencyEv", "_ZN5boost6thread21start_thread_noexceptEv"])
FFTW = " " + " ".join("-Wl,--wrap=" + f for f in ["fftw_plan_dft_1d", "fftw_plan_dft", "fftw_plan_many_dft", "fftw_plan_dft_r2c_1d", "fftw_plan_dft_c2r_1d", "fftw_destroy_plan", "fftw_cleanup", "fftw_forget_wisdom"])
CONFIGS = {
    "asan": {"cxx": "g++", "flags": "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS " + DEF},
    "asan-sched": {"cxx": "g++", "flags": "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS " + DEF,
                   "extra": ["perturb.cpp"], "ldflags": WRAP},
    "tsan-sched": {"cxx": "g++", "flags": "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread " + DEF, "extra": ["perturb.cpp", "fftw_guard.cpp"], "ldflags": WRAP + FFTW},
    "tsan": {"cxx": "g++", "flags": "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread " + DEF},
    "mpi": {"cxx": "mpicxx", "flags": "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=null -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DBUILD_WITH_MPI " + DEF,
            "ldflags": "-lboost_mpi -lboost_serialization", "env": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=98:allocator_may_return_null=1:abort_on_error=0:handle_abort=1", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1"}},
}
CONFIGS["memcheck"] = {"cxx": "g++", "flags": "-std=c++17 -O1 -g -fno-omit-frame-pointer " + DEF,
                       "runner": "valgrind -q --error-exitcode=94 --exit-on-first-error=yes --num-callers=16 --leak-check=no --fair-sched=try"}
MPIRUN = "mpirun --allow-run-as-root --oversubscribe --bind-to none --mca plm isolated --mca btl self,vader --mca btl_vader_single_copy_mechanism none --mca mpi_yield_when_idle 1 -np "
for _n in (1, 2, 3, 5):
    CONFIGS["mpi%d" % _n] = dict(CONFIGS["mpi"], runner=MPIRUN + str(_n))
# module: (root, path fragments left out)
NOMPI = ["/mpi/", "unit_tests"]
MODULES = {
    "common": ("src/common", []),
    "dsp": ("src/dsp", []),
    "parallel": ("src/parallel", ["/mpi/"]),
    "registry": ("src/parallel/mpi/identifyable_objects_manager.cpp", []),
    "parallel_mpi": ("src/parallel", []),
    "optimization": ("src/optimization", []),
    "params": ("src/optimization/params", []),
}


def task(driver, name, quick, thorough, modules, cfg="asan", **kw):
    d = dict(driver=driver, task=name, quick=quick, thorough=thorough, modules=modules, cfg=cfg)
    d.update(kw)
    return d


CHECKS = {}


def check(prop, technique, rule, note, tasks, **kw):
    CHECKS[prop] = dict(technique=technique, rule=rule, note=note, tasks=tasks, **kw)


TRUST = "Trusts the compiler's sanitizers, the reference oracles in /verif/src and that the generated workloads exercise the mechanism; "

check("C31", "online range monitor and statistical monitors over long draw histories, ASan+UBSan build",
      "A case is one history of draws with generated bounds/probabilities (mixed histories of 300 operations, or 20-60 thousand draws of one kind for the statistics); distinct by bounds and drawn values.",
      TRUST + "statistics use thresholds of about 7.5 sigma, so small biases below that at 20-60 thousand draws stay unseen.",
      [task("c31", "mixed", 2000, 60000, ["common"]), task("c31", "discrete", 400, 8000, ["common"]),
       task("c31", "continuous", 200, 4000, ["common"]), task("c31", "boolean", 48, 1000, ["common"]),
       task("c31", "event", 400, 8000, ["common"])], need={"bool draws": 1000})
check("C32", "shadow-model monitor over random histories with eviction pressure, ASan+UBSan build",
      "A case is one random history of additions, bulk additions, tests and gets over a key universe and a memory limit; non-trivial if at least one lookup hit; distinct by the operations and hits.",
      TRUST + "the size of one entry is taken from the cache's own map type.",
      [task("c32", "history", 8000, 200000, ["common"]), task("c32", "large", 16, 200, ["common"])],
      need={"evictions seen": 1000, "hits": 10000})
check("C33", "shadow-model monitor over generated command lines, XML files, put/get histories and tree merges, ASan+UBSan build",
      "A case is one generated command line or XML file with a following history of puts and gets, or one pair of trees to merge; distinct by its text.",
      TRUST + "whitespace handling of XML text and names with empty path parts are left to boost.",
      [task("c33", "cmdline", 3000, 60000, ["common"]), task("c33", "xmlfile", 2000, 40000, ["common"]), task("c33", "merge", 4000, 100000, ["common"])],
      need={"files read": 100, "malformed files": 100})
check("C34", "reference predicates checked online over boundary-biased inputs, ASan+UBSan build",
      "A case is a batch of number pairs, vector pairs or one complex sequence and printed vector, drawn around the tolerance, signed zeros, infinities and NaN; distinct by the values.",
      TRUST + "pairs whose difference is within rounding of the tolerance are not judged.",
      [task("c34", "compare", 3000, 60000, ["common"]), task("c34", "vectors", 3000, 60000, ["common"]), task("c34", "sequence", 3000, 60000, ["common"])],
      need={"decided comparisons": 100000})

P = ["common", "parallel"]
P8 = ["common", "parallel", "registry"]
check("C06", "linearizability checker (Wing-Gong) over recorded concurrent histories with injected delays, spurious wake-ups and multi-wake signals; ASan and TSan builds; deadlock watchdog",
      "A case is 200 recorded histories of 2-4 threads with 4-20 operations each (distinct by the order of invocations/responses and their results, non-trivial if operations overlapped), or one long history of up to 3200 elements.",
      TRUST + "linearizability is searched exactly on histories up to 60 operations; long histories are checked for loss, duplication and real-time order of each pair.",
      [task("c06", "linear", 240, 8000, P, "asan-sched", shards=8), task("c06", "stress", 400, 8000, P, "asan-sched", shards=8),
       task("c06", "linear", 40, 1000, P, "tsan-sched"), task("c06", "stress", 80, 2000, P, "tsan-sched")],
      need={"histories checked": 1000, "overlapping operations": 1000, "ordered pairs checked": 1000})

ALL = ["common", "dsp", "parallel", "optimization"]
check("C02", "ThreadSanitizer over perturbed schedules (injected delays, spurious and extra wake-ups), with a race detector variable standing in for FFTW's uninstrumented planner state",
      "A case is a set of concurrent users of one work queue, of concurrent callers of one or two pools, 2-6 threads that create, use and destroy their own objects, or a genetic-algorithm or random-search run with parallel evaluation; distinct by task order or configuration and random stream.",
      TRUST + "races inside uninstrumented libraries (boost_thread, FFTW's execution) are not seen; tasks do not throw in this configuration.",
      [task("c02", "pool", 320, 6000, ALL, "tsan-sched"), task("c02", "objects", 480, 6000, ALL, "tsan-sched"),
       task("c02", "ga", 240, 4000, ALL, "tsan-sched"), task("c02", "search", 160, 4000, ALL, "tsan-sched"),
       task("c06", "linear", 40, 1000, P, "tsan-sched"), task("c06", "stress", 80, 2000, P, "tsan-sched")],
      need={"batches": 200, "objects used": 500, "objective evaluations": 1000})
SCHED = "; schedules perturbed by injected delays, spurious and extra wake-ups and varied worker counts; ASan+UBSan build; deadlock watchdog"
check("C03", "task event log with unique result objects checked offline" + SCHED,
      "A case is a history of batches on one pool (sequential, best, thread, templated) or of 2-4 concurrent callers of one thread pool; distinct by the observed order of task starts and ends.",
      TRUST + "batches up to 300 (600) tasks, a few of about 100000, up to 16 workers; schedules are sampled, not enumerated.",
      [task("c03", "slots", 640, 20000, P, "asan-sched"), task("c03", "callers", 320, 10000, P, "asan-sched"), task("c03", "templated", 320, 10000, P, "asan-sched"), task("c03", "huge", 8, 160, P, "asan-sched")],
      need={"batches": 1000, "overlapping tasks": 1000, "spurious wake-ups injected": 100})
check("C04", "fault injection (tasks throwing eight kinds of exceptions) with exception, event-log, live-object and OS-thread monitors" + SCHED,
      "A case is a history of batches with a random subset of throwing tasks on one pool, or of 2-4 concurrent callers some of whose tasks throw; distinct by observed order of task events, failures and exception seen.",
      TRUST + "tasks fail by throwing only.",
      [task("c03", "throwing", 2000, 20000, P, "asan-sched"), task("c03", "throwing-callers", 600, 8000, P, "asan-sched")],
      need={"batches with failures": 500, "clean batches after failures": 100})
check("C05", "lifecycle monitor: OS thread accounting, rendezvous tasks, factory answers" + SCHED,
      "A case is a history of creating, using and destroying 1-10 pools (some of them concurrently), creations during which the n-th thread start is refused, or all factory answers at one number of hardware threads; distinct by the history.",
      TRUST + "the MPI kind is not built in this configuration (C07 decides it).",
      [task("c03", "factory", 400, 4000, P, "asan-sched"), task("c03", "lifecycle", 4000, 100000, P, "asan-sched"), task("c03", "slow-shutdown", 8, 160, P, "asan-sched"), task("c03", "shortage", 400, 10000, P, "asan-sched")],
      need={"pools created": 500, "two tasks met": 50, "refusals": 50})

check("C08", "shadow-model monitor over histories of registrations and queries, ASan+UBSan build",
      "A case is one history of up to 300 registrations/queries on an aggregator, batches on a sequential pool, or registrations and lookups in the process-wide registry; distinct by the history.",
      TRUST + "the registry is exercised from one thread.",
      [task("c08", "aggregator", 4000, 200000, P8, "asan-sched"), task("c08", "sequential", 2000, 100000, P8, "asan-sched"), task("c08", "registry", 4000, 200000, P8, "asan-sched")],
      need={"statistics compared": 1000, "lookups": 1000, "unknown identifiers": 500})

D = ["common", "dsp"]
check("C09", "reference-DFT oracle over call histories on coexisting objects, ASan+UBSan build",
      "A case is a history of transforms on 1-5 coexisting objects of generated lengths (with rejected wrong-length calls and destructions in between), or a set of linearity/shift relations on one longer length; distinct by the inputs.",
      TRUST + "lengths up to about 400 (2048 for powers of two); outputs are compared at every bin up to length 400, at 150 sampled bins plus Parseval above.",
      [task("c09", "history", 400, 20000, D), task("c09", "relations", 16, 400, D)], need={"bins compared": 10000, "plain transforms": 100})
check("C10", "reference inverse-DFT oracle and round-trip monitor over alternating use, ASan+UBSan build",
      "A case is one length, implementation (fast/plain, shared or separate objects) and a sequence of inputs, each inverted, compared with the definition and round-tripped both ways; distinct by inputs.",
      TRUST + "lengths up to about 400 (1500 thorough).",
      [task("c10", "roundtrip", 960, 50000, D)], need={"round trips": 1000})
check("C11", "reference-convolution oracle and algebraic relation monitor, ASan+UBSan build",
      "A case is one length with 1-3 triples of sequences; each implementation is compared with the definition and with commutativity, associativity, linearity and identity; distinct by sequences.",
      TRUST + "lengths up to 300.",
      [task("c11", "conv", 800, 50000, D)], need={"elements compared": 10000})
check("C12", "direct-correlation oracle over cache histories, ASan+UBSan build",
      "A case is a history of calls on 1-3 transform objects with different cache limits, several wavelets (replaced in between) and scale lists; every coefficient is recomputed directly; distinct by signals and configuration.",
      TRUST + "the wavelets' own values are taken from the library (C15 decides them); samples lying on a jump of a wavelet up to rounding are not judged; N up to 130.",
      [task("c12", "fwt", 4000, 80000, D)], need={"coefficients compared": 10000, "wavelets replaced": 100})
check("C13", "law-of-the-sequence oracle, ASan+UBSan build",
      "A case is one set of bounds and count (linear) or exponents (logarithmic) with its rejected variants; distinct by these.",
      TRUST + "linear scales whose step is below 1e-9 of the maximum are not generated.",
      [task("c13", "linear", 8000, 200000, D), task("c13", "logarithmic", 8000, 200000, D)], need={"scale values": 10000})
check("C14", "independent long-double Akima oracle and metamorphic relations over re-initialisation histories, ASan+UBSan build",
      "A case is a history of 1-4 initialisations of one spline with generated knots (random, integer, step, straight, smooth, constant data), evaluated at knots, their neighbours in floating point, midpoints and random points; distinct by data.",
      TRUST + "points where Akima's weights are ill-conditioned (sum below 1e-4 of the largest slope, not exactly zero) are only checked for knots and continuity.",
      [task("c14", "spline", 4000, 80000, D), task("c14", "relations", 3000, 60000, D)], need={"values compared": 50000, "locality checked": 1000})
check("C15", "independent-formula oracle for wavelets and the continuous transform, callback log monitor, ASan+UBSan build",
      "A case is a batch of 200 arguments, one sampled wavelet, or one continuous transform (signal, wavelet, lengths, count, law, step); distinct by these.",
      TRUST + "maximal lengths divisible by the minimal one for the linear law; for odd lengths either rounding of the centre is accepted; samples lying on a jump of a wavelet up to rounding are not judged.",
      [task("c15", "functions", 800, 20000, D), task("c15", "splines", 3000, 60000, D), task("c15", "cwt", 2000, 40000, D)],
      need={"wavelet values compared": 10000, "cwt coefficients compared": 10000, "callbacks": 100})
O = ["common", "parallel", "optimization"]
check("C16", "round-trip and range monitor over enumerated and boundary-biased values and chromosomes, ASan+UBSan build",
      "A case is one set of bounds (and precision) with every value and chromosome for small ranges and a few dozen boundary and random ones for large ranges; distinct by bounds and precision.",
      TRUST + "precisions below 1e-11 of the largest bound are not generated.",
      [task("c16", "integer", 4000, 200000, O), task("c16", "real", 4000, 200000, O)], need={"values round-tripped": 50000, "chromosomes round-tripped": 50000})
check("C17", "shadow-model monitor over histories of set, encode, decode, clone, reject and destroy on nested parameter trees, ASan+UBSan build; ThreadSanitizer over concurrently used clones",
      "A case is one random tree of parameters (depth up to 3) with a history of up to 20 operations on it and its clones, 20 pairs of settings compared, a history on continuous arrays, or an object and its clones used by concurrent threads; distinct by operations and values.",
      TRUST + "leaves are modelled by leaf objects of their own (C16 decides their encoding).",
      [task("c16", "tree", 6000, 300000, O), task("c16", "meta", 400, 20000, O), task("c16", "continuous", 1000, 50000, O), task("c16", "clones", 1600, 40000, O, "tsan")],
      need={"parameters compared": 50000, "clones": 1000, "rejected assignments": 500, "equal meta-parameters": 300, "concurrent clones": 1000})

S = ["common", "parallel", "optimization"]
GA = "; runs in child processes with controlled random streams; ASan+UBSan build"
check("C18", "offline checker over the log of every objective evaluation, generation report and final result" + GA,
      "A case is 1-3 runs of one algorithm object on generated parameter spaces (integers, real arrays, composites, constrained composites), objectives, settings and failing evaluations; distinct by course of the run.",
      TRUST + "populations up to 440, up to 160 generations.",
      [task("c18", "best", 1600, 60000, S, "asan-sched")], need={"generations": 3000, "evaluations": 10000, "failing objectives": 30})
check("C19", "paired runs with identical random streams and no, tiny and ample cache, compared report by report" + GA,
      "A case is 1-3 runs with changing objective and space on one algorithm object, executed with three cache limits; non-trivial if the cache saved evaluations; distinct by course.",
      TRUST + "after an objective failure the pairs are no longer compared.",
      [task("c18", "cache", 800, 30000, S, "asan-sched")], need={"cached courses compared": 500, "cache hits": 5000})
check("C22", "offline checker joining generation reports, evaluation log and saved population files; paired runs for reuse; fault injection into population files" + GA,
      "A case is one run (free, from an initial set, or resumed from a saved file), a history of runs on one object compared with fresh ones, or a set of refused settings and damaged files; distinct by course or settings.",
      TRUST + "fitness in files is compared to the printed six digits.",
      [task("c18", "generations", 1000, 40000, S, "asan-sched"), task("c18", "refusals", 400, 20000, S, "asan-sched")],
      need={"generations": 2000, "populations reloaded": 50, "reused runs compared": 100, "initial sets compared": 50, "files refused": 500, "invalid counts compared": 300})
check("C30", "paired runs with one worker and with many workers under injected delays and perturbed schedules, compared report by report" + GA,
      "A case is one or two genetic algorithm runs or one random search, executed with one worker and twice with 2-12 workers; non-trivial if evaluations happened in another order; distinct by evaluation order.",
      TRUST + "schedules are sampled.",
      [task("c18", "parallel-ga", 320, 12000, S, "asan-sched"), task("c18", "parallel-search", 320, 12000, S, "asan-sched")],
      need={"parallel runs compared": 500, "generations evaluated in another order": 200, "searches evaluated in another order": 100})
check("C35", "offline checker reconstructing each generation from its predecessor: elites, parents, cut points, selection counts and statistics, mutation calls" + GA,
      "A case is one run whose every transition is explained from the saved populations and the logged mutation calls, or a 60-generation run whose selection counts are tested against fitness; distinct by course.",
      TRUST + "selection pressure is tested at 7.5 sigma over a few thousand choices.",
      [task("c18", "descent", 1000, 40000, S, "asan-sched"), task("c18", "roulette", 160, 6000, S, "asan-sched")],
      need={"transitions": 1500, "children explained": 5000, "elites compared": 1000, "selection statistics": 100})
check("C20", "shadow-model monitor over histories of individuals with scripted mutators and damaged streams; uniformity monitor of cut points; ASan+UBSan build",
      "A case is one history of up to 40 operations on up to 8 individuals over one generated parameter space, or a batch of several thousand cut points; distinct by space, operations and final chromosomes.",
      TRUST + "fitness written with fewer digits is compared to those digits; chromosomes have at least one gene.",
      [task("c20", "individuals", 8000, 200000, S, "asan-sched"), task("c20", "cut", 80, 2000, S, "asan-sched")],
      need={"individuals compared": 100000, "crossovers": 2000, "mutations": 1000, "individuals read back": 1000})
check("C21", "flip-position monitor with rate, position, distance and dependence statistics, ASan+UBSan build",
      "A case is one pair of probabilities at 1-5 generations (about 8000 genes each), or one flip-bit probability over at least 3000 flips across chromosomes of changing lengths; distinct by the counts.",
      TRUST + "rates are tested at 7.5 sigma over some thousand genes.",
      [task("c20", "linear", 2400, 20000, S, "asan-sched"), task("c20", "flipbit", 1200, 10000, S, "asan-sched")],
      need={"genes considered": 1000000, "genes flipped": 100000})

W = "; the real optimizer runs on logged objectives; ASan+UBSan build"
check("C23", "paired runs compared evaluation by evaluation (negated objective, used object, clones, constraint that holds); constraint and exception monitors" + W,
      "A case is one deterministic method with generated settings, objective (smooth to discontinuous) and start, run fresh, mirrored, on a used object, on clones and under a constraint; or one random method in child processes with equal random streams; distinct by course.",
      TRUST + "runs are cut after 60000 evaluations.",
      [task("c23", "symmetry", 6000, 100000, S, "asan-sched"), task("c23", "random-methods", 400, 12000, S, "asan-sched")],
      need={"mirrored runs": 1000, "repeated runs": 3000, "constraints violated": 100, "objective failures": 100, "random runs mirrored": 200})
check("C24", "analytic-optimum oracle over generated convex quadratics" + W,
      "A case is one quadratic (rotation, condition, centre, offset), start, direction and method; distinct by start and result.",
      TRUST + "conditions up to 50 (2 for the Rosenbrock method, which often stops early beyond, and a loose tolerance in dimensions 3 and 4); Nelder-Mead with bounds far from start and optimum; tolerances about a hundred times the largest gap seen.",
      [task("c23", "convex", 12000, 400000, S, "asan-sched"), task("c23", "precision", 8000, 300000, S, "asan-sched")],
      need={"optima reached": 2000, "precisions reached by HookeJeeves": 500, "precisions reached by ConjugateGradient": 500,
            "precisions reached by SteepestDescent": 500, "precisions reached by NelderMead": 2000})
check("C25", "offline checker over the log of evaluations: value at start, best value seen, returned value, amount of work" + W,
      "A case is one method, settings, bounded objective (quadratic, absolute, steps, multimodal, flat, constant, Rosenbrock, arctan, maximum, unrelated cells), start and direction; distinct by result and amount of work.",
      TRUST + "work limits are the method's iteration limit times a factor in the dimension.",
      [task("c23", "descent", 20000, 400000, S, "asan-sched")], need={"runs within their work": 3000, "descents compared": 1000, "descents that improved": 500})
check("C26", "online monitor of every evaluated point" + W,
      "A case is one bounded method with generated bounds, start (inside, on a face, in a corner; outside for Nelder-Mead), objective and direction; distinct by result and amount of work.",
      TRUST + "grids have exactly representable steps.",
      [task("c23", "bounds", 8000, 200000, S, "asan-sched")], need={"evaluations within bounds": 100000, "evaluations on a face": 1000, "NelderMead runs": 500})
check("C27", "offline checker over the log of evaluations and of inner optimizer starts; uniformity and independence monitors" + W,
      "A case is up to three random searches on one object, a search whose inner optimizer is recorded (or fails), or several thousand drawn points; distinct by result.",
      TRUST + "uniformity is tested at 7.5 sigma.",
      [task("c23", "search", 3000, 40000, S, "asan-sched"), task("c23", "search-law", 80, 2000, S, "asan-sched"), task("c23", "search-inner", 1000, 40000, S, "asan-sched")],
      need={"searches": 500, "inner searches": 300, "coordinates tested": 100, "inner failures": 30})
check("C28", "reference lattice enumeration compared with the log of evaluations" + W,
      "A case is one lattice (step, bounds, dimension 0 to 9, up to 27000 points) and objective, maximised and minimised, or refused settings; distinct by lattice and result.",
      TRUST + "points of lattices with rounded steps are compared up to rounding.",
      [task("c23", "grid", 4000, 60000, S, "asan-sched")], need={"lattices": 1000, "lattice points": 100000, "rejections observed": 100})
check("C29", "walk reconstructed from the log of evaluations; acceptance statistics per temperature band and probability class" + W,
      "A case is up to three walks of one object on one objective scaled to the temperature; distinct by start and result.",
      TRUST + "acceptance is tested at 7.5 sigma over up to 9000 proposals.",
      [task("c23", "annealing", 1600, 30000, S, "asan-sched")], need={"worsening proposals": 15000, "acceptance rates tested": 1000, "proposal laws tested": 200})

M = ["common", "parallel_mpi", "optimization"]
check("C07", "per-rank event logs joined with results under mpirun; transferred objects compared with the originals; distributed runs compared with local ones; ASan+UBSan build",
      "A case is up to three batches of tasks (1-5 part results, varied durations and sizes), a batch of transferred parameters and optimizers, one random search or one genetic algorithm run repeated locally from the same random stream; distinct by the ranks that performed the tasks or by the results.",
      TRUST + "1, 2, 3 and 5 processes on one machine (Open MPI, shared memory); leaks are not checked under MPI; objects travel between registered prototypes of the same settings.",
      [task("c07", "tasks", 3, 3, M, "mpi1", shards=1)] +
      [task("c07", "tasks", 12, 400, M, "mpi%d" % n, shards=4, thorough_rounds=4) for n in (2, 3, 5)] +
      [task("c07", "transfer", 60, 1600, M, "mpi%d" % n, shards=2, thorough_rounds=4) for n in (2, 4 - 1)] +
      [task("c07", "search", 32, 1200, M, "mpi%d" % n, shards=8, thorough_rounds=8) for n in (2, 3)] +
      [task("c07", "genetic", 16, 400, M, "mpi%d" % n, shards=2, thorough_rounds=6) for n in (3, 5)],
      need={"batches": 50, "tasks": 500, "parameters transferred": 100, "optimizers transferred": 100, "searches compared": 40, "runs compared": 10}, width=8)

ALL = ["common", "dsp", "parallel", "registry", "optimization"]
check("C01", "ASan, LSan, UBSan (with float-cast-overflow and libstdc++ assertions) and valgrind memcheck watch random programs of public calls with hostile arguments; every returned value is branched on",
      "A case is a program of 10-160 public calls over live objects of one module with a drawn share of hostile arguments; distinct by the calls and whether each threw.",
      TRUST + "arguments the API leaves to the caller (null pointers, a window shorter than the wavelet, sizes that exhaust memory) are not generated.",
      [task("c01", n, q, 40 * q, ALL) for n, q in (("common", 1600), ("dsp", 2400), ("genetic", 3200), ("optimizers", 2400), ("parallel", 400))] +
      [task("c01", n, q, 40 * q, ALL, "memcheck") for n, q in (("common", 48), ("dsp", 96), ("genetic", 96), ("optimizers", 64), ("parallel", 16))],
      need={"calls completed": 100000, "calls that threw": 10000, "optimizations completed": 1000})
