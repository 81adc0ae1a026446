#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, checks.py, known_findings.json, seeded/ and tools/caught.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, CONFIGS

HEAD = """# k52: runtime monitoring and sanitizers

This file is written by `tools/make_design.py`; edit that.

## How a property is decided

Every property of `properties.jsonl` is decided by running the real code of `/repo` (compiled from its current
working tree by `run.py`, into content-hashed objects under the git-ignored `build/`) under generated workloads
while an oracle watches. None is left to another technique, and none is listed as not applicable.

* **Functional monitors.** Drivers in `src/` link the library's own sources, built with AddressSanitizer,
  LeakSanitizer, UndefinedBehaviorSanitizer (with float-cast-overflow) and libstdc++'s assertions. They generate
  cases from `VERIF_SEED`, log every objective call, task, draw, file and returned value, and compare these with
  independent reference implementations (long double where rounding matters), shadow models, offline checkers
  over the log, paired runs and metamorphic relations. A sanitizer report during such a run is a violation too.
* **Schedules.** `src/perturb.cpp` interposes (by the linker's `--wrap`) pthread mutex and condition calls and
  `boost::thread::hardware_concurrency`: delays before and after every lock, wait and signal, spurious wake-ups,
  and any number of hardware threads. Builds: ASan+UBSan and ThreadSanitizer. The oracles are event logs with a
  global order, a Wing-Gong linearizability checker, live-object and OS-thread accounts and a watchdog.
* **Deadlocks and hangs.** `src/watch.h` reports a deadlock when all threads of the program have been asleep
  without any context switch for 12 s. A workload that does not end within 150 s (1500 s thorough) is repeated,
  alone and as a whole, before it counts; a single slow run is discarded and noted in the evidence.
* **MPI.** The sources built with `-DBUILD_WITH_MPI` run under `mpirun` with 1, 2, 3 and 5 processes on the
  loopback; every rank keeps its own event log, rank 0 joins them.
* **valgrind memcheck** over a plain build for uninitialised values (C01), which ASan cannot see.
* **Controlled randomness.** `Random` draws from `rand()`, so `srand` in a child process gives two runs the same
  stream; paired runs (cache on/off, one worker/many, fresh/used object, f/-f) must then agree step by step.

A *case* is one generated history or input; cases are numbered and depend on the seed and number alone, so a
replay file (`replays/`, git-ignored) names seed, task and case. Cases are sharded over 8 processes; half of the
ASan shards run without quarantine, so that a new object takes the address of one just destroyed (stale keys and
dangling references then show as wrong values). Each case yields a hash of what was *observed* (order of task
events, operations and results, course of the run); the evidence counts the distinct non-trivial ones, and gives
the counters of what the monitors saw. A check whose counters stay below the minimum stated in `checks.py` ends
with an error, not with a pass: a workload that ran without anything to observe proves nothing.

After a certain violation the rest of the check is cut short (20 s), so that a tree on which everything hangs is
still answered within the time limit. Quick checks take 3 to 45 s after the build (a cold build about 10 to 30 s,
`setup_cmd` builds everything once in about 90 s); thorough ones run the numbers of cases in the table below,
minutes to an hour, and with larger sizes.

What this family cannot give: proofs. Schedules and inputs are sampled; statistical properties are tested with
thresholds of about 7.5 sigma, so biases smaller than that at the given sample sizes remain unseen. Bounds are
given per property.

## Properties

"""

P = {}
P["C01"] = """*Monitored:* programs of 10-160 public calls over live objects of a module (common, dsp, genetic, optimizers,
parallel), a drawn share of the arguments hostile (0, -0, denormal, huge, infinite, NaN, INT_MIN/MAX, empty and
mismatched vectors, throwing callbacks, larger sizes now and then). *Oracle:* ASan, LSan, UBSan, libstdc++
assertions; memcheck, for which every returned value is branched on. *Why beyond tests:* memory errors show in
combinations of calls on used objects with arguments nobody writes tests for. *Left to the caller:* null pointers,
sizes that exhaust memory, a Hooke-Jeeves precision that is not positive or a divider of at most 1 (never ends)."""
P["C02"] = """*Monitored:* ThreadSanitizer over every way the library itself runs things in parallel (pools, evaluation of
populations, random search with inner optimizers, coexisting transforms and splines in several threads), perturbed
schedules. FFTW's planner is not thread-safe and not instrumented: `src/fftw_guard.cpp` wraps it and announces its
calls to ThreadSanitizer as writes to one variable, so unprotected planning is a race. *Bound:* sharing one stateful
object between threads is not promised and not done."""
P["C03"] = """*Monitored:* tasks log start, end, thread and the result object they return. *Oracle:* the result in slot i
is the very object task i produced, each task ran once per occurrence and before the call returned; no result
object survives. Repeated tasks, null results, 0/1/many tasks, several callers on one pool, the templated pool under
it with any number of workers, and a few batches of about 100000 tasks."""
P["C04"] = """*Monitored:* as C03 with tasks that throw eight kinds of things. *Oracle:* the caller gets an exception
of a kind (and identity, where it carries one) that a task of this batch threw, other tasks ran once, no stale
exception or result in later batches, thread count unchanged, and as many tasks as workers can still meet."""
P["C05"] = """*Monitored:* histories of creation, use and destruction, many pools at once, concurrent destruction,
destruction while a worker is still busy with the end of its last task. *Oracle:* the kernel's list of threads
before/after, factory answers against outcomes, rendezvous tasks that need two threads, the watchdog."""
P["C06"] = """*Monitored:* 200 short concurrent histories per case with invocation/response stamps, and long
producer/consumer runs. *Oracle:* Wing-Gong search for a linearization to a FIFO queue (with the final drain), a
real-time FIFO sweep and exactly-once on the long ones; elements carry a checksum; ThreadSanitizer."""
P["C07"] = """*Monitored:* all ranks' logs. *Oracle:* result slots, exactly-once, no task on the server rank,
statistics, ends of workers, equality of everything transferred with the original, distributed optimizations against
local ones."""
P["C08"] = """*Oracle:* a shadow map over histories of registrations and queries; copies must be independent."""
P["C09"] = """*Oracle:* the defining sum in long double, at every bin up to length 400; linearity, shift and
Parseval above; coexisting objects, rejected calls in between, inputs related to earlier ones."""
P["C10"] = """*Oracle:* the defining inverse sum and both round trips, alternating use of shared and separate objects."""
P["C11"] = """*Oracle:* the definition in long double plus commutativity, associativity, linearity, identity;
sequences with much in common (equal, shifted, real, sparse)."""
P["C12"] = """*Oracle:* direct correlation with the wavelet's own samples in long double, for every coefficient;
cache limits from none to ample, wavelets dropped and replaced (at the same address), scales equal or next to earlier
ones. *Not judged:* samples on a jump of the wavelet up to rounding."""
P["C13"] = """*Oracle:* the law in long double."""
P["C14"] = """*Oracle:* an independent long double Akima construction that also reports its conditioning; knots,
neighbouring doubles, midpoints; numeric continuity of the derivative; scaling, shift, locality, straight lines.
Objects are initialised up to six times, half of the time with data that share much with the last ones."""
P["C15"] = """*Oracle:* closed formulas in long double, spline wavelets against the reference spline, and every
coefficient of the continuous transform against the sum it is defined by; callback log."""
P["C16"] = """*Oracle:* round trips over all values and chromosomes of small ranges and over ends, powers of two,
rounding ties and random ones of large ranges; distances against the reported precision."""
P["C17"] = """*Oracle:* a shadow tree of leaf objects over histories of operations on originals and clones; every
getter is compared after every operation; ThreadSanitizer over clones used concurrently."""
P["C18"] = """*Monitored:* every evaluation of the objective (chromosome, value, validity) and every generation
report. *Oracle:* result and best individual against the maximum of the log; runs that fail in the middle."""
P["C19"] = """*Oracle:* equal courses for no, tiny and ample cache with equal random streams, report by report;
histories with another objective or space on the same object."""
P["C20"] = """*Oracle:* shadow model of chromosome, parameters and fitness over histories of crossover, mutation,
assignment, stream input (also damaged); chi-square of cut points."""
P["C21"] = """*Oracle:* flips against the configured, interpolated rate: count, position, distance and dependence."""
P["C22"] = """*Oracle:* joins generation reports, evaluation log and population files; saved populations are
loaded again; refused settings must leave no trace; reused objects against fresh ones."""
P["C35"] = """*Oracle:* rebuilds each generation from its predecessor (saved populations, logged mutator calls):
elites, parents, cut points, counts. Selection counts are tested against fitness shares (first and second moment of
the chosen fitness, and how often two choices coincide, for which small populations run 500 generations)."""
P["C23"] = """*Oracle:* equality of courses, evaluation by evaluation: -f in the other direction, a used object,
early and late clones, a constraint that holds; exceptions of objective and constraint."""
P["C24"] = """*Oracle:* the analytic optimum of generated quadratics. Tolerances are about a hundred times the
largest gap measured for the method on the unchanged tree. Workload precision draws precision (over six decades) and
steepness (over eight) and compares the gap with what the stopping rule implies for a quadratic of known eigenvalues
(p^2/4s for a gradient of length p, the trace bound for a failed pattern step): the largest seen is 0.99 of the bound.
A simplex can meet Nelder-Mead's rule by coincidence, so there the majority of nine runs decides."""
P["C25"] = """*Oracle:* best value of the log against the returned one, number of evaluations against the method's
limit. *Bound:* 'never worse' is stated for the methods that promise it (Hooke-Jeeves, Nelder-Mead)."""
P["C26"] = """*Oracle:* every evaluated and returned point lies within the bounds."""
P["C27"] = """*Oracle:* returned point against the log; inner optimizer starts recorded; uniformity and independence
of coordinates (dimensions up to 14) and of successive draws."""
P["C28"] = """*Oracle:* the lattice enumerated anew; exact for representable steps, up to rounding for others."""
P["C29"] = """*Oracle:* the walk is rebuilt from the log; acceptance per temperature band and probability class,
proposal law."""
P["C30"] = """*Oracle:* equality with the run on one worker, under injected delays."""
P["C31"] = """*Oracle:* ranges for every draw; chi-square, serial correlation and rates."""
P["C32"] = """*Oracle:* a shadow map: whatever is answered is what was stored last under the key; size accounting."""
P["C33"] = """*Oracle:* a shadow map over command lines, XML files, puts, gets and merges."""
P["C34"] = """*Oracle:* the definitions, near the tolerance, at infinities and NaN; stream formats left as found."""

TAIL = """
## False alarms met on the way, and what became of them

* Nelder-Mead: the clause that it finds optima on faces and corners was dropped; projection onto the bounds
  collapses the simplex there, which the method as published does too.
* Rosenbrock: convergence is judged up to condition 2, with a tolerance of 3 in dimension 3 and 0.1 in dimension 4:
  its stopping rule ends early by design.
* Threads of a destroyed pool can stay in the process table for a moment: counts are taken with patience.
* A pool created at the address of a destroyed one kept LeakSanitizer from seeing it: recycled memory is scanned.
* MPI runs compared random states of different ranks: only what is promised equal is compared now.
* ThreadSanitizer's helper thread starts with the first thread of the program and kept the watchdog from seeing
  a blocked program: one thread is started before the account.
* C01: programs whose arguments are documented as the caller's duty (see there) are not generated; FFTW's planner
  takes seconds for large sizes under valgrind, so sizes stay small there.

* C24: Hooke-Jeeves with an acceleration just beside 2 (1.9999) crawls to its iteration limit in tiny pattern
  moves, and conjugate gradient differentiates rounding errors of a large constant: neither is generated.

Some seventy refactorings of the library that keep its behaviour (helpers extracted, loops rewritten, statements
reordered, formulas rearranged) were applied together to a scratch copy and all checks run on it. Two spoke up:
C22 counted the invalid chromosomes exactly, where checking the second child after the first failed is a choice of
the implementation (the count now lies between the tries and the calls that failed), and C01 asked the Morlet
wavelet for its value at NaN, which std::polar, a fair way to write it, does not allow.

## Known limits left out of the properties

Not promised by the library, or outside what it documents, and therefore not judged: NaN objectives in processors; simulated annealing at
temperature 0 with equal values; elites are mutated like everyone; grid search over more points than size_t holds,
and cloning it; conjugate gradient and Rosenbrock are not descent methods; unsorted spline knots; sharing one
transform object between threads; nested DoTasks; names and closing tags boost's XML parser accepts; individuals
without genes in files; fitness in files has the stream's precision; a roulette draw of exactly 0 takes member 0
even with fitness 0 (probability 2^-31); the MPI pool's polling delay; tasks of the templated pool that throw.
"""


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    o = [HEAD]
    for p in sorted(props, key=lambda p: p["id"]):
        c = CHECKS[p["id"]]
        o.append("### %s %s\n\n" % (p["id"], p["title"]))
        o.append(P[p["id"]] + "\n\n")
        o.append("Technique: %s. %s\n\n" % (c["technique"], c["rule"]))
        o.append("Trust and bounds: %s\n\n" % c["note"])
        o.append("Workloads: " + "; ".join("%s (%s, %d cases quick, %d thorough)" % (t["task"], t["cfg"], t["quick"], t["thorough"]) for t in c["tasks"]) + ".\n\n")
    o.append("## Defects found and repaired in /repo\n\nEach is one `fix:` commit; the check named reports it again if it returns. No finding was left unrepaired.\n\n")
    k = json.load(open(os.path.join(V, "known_findings.json")))
    for f in k["fixed"]:
        o.append("* %s\n" % f)
    for f in k.get("known", []):
        o.append("* KNOWN: %s\n" % f)
    o.append("\n## Planted bugs\n\nMade with `tools/plant.py` from the text of the property and the code; each has a demonstration. 'Missed at first' names those that led to stronger checks.\n\n| bug | property | needs | check |\n|---|---|---|---|\n")
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
    for b in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
        o.append("| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], caught.get(b, "not run")))
    o.append("\nBesides these, `tools/mutate.py` applies small mutations (operators, constants, conditions, dropped statements) to random lines of the library in scratch copies and runs the checks that concern the file; survivors were read one by one and either are equivalent or led to stronger workloads.\n")
    o.append(TAIL)
    open(os.path.join(V, "DESIGN.md"), "w").write("".join(o))


if __name__ == "__main__":
    main()
