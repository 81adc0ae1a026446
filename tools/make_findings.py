#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects (what failed before the fix), and known ones (none)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """C16 42bdc3a IntParameter lost the top values of ranges that are powers of two wide, overflowed on wide ranges and accepted inverted bounds
C16 3eb1cef DoubleParameter could not represent the upper bound, encoded to the node below instead of the nearest and overflowed on tiny precisions
C17 10cff1f DoubleParametersArray kept part of a rejected assignment
C31 043e63c Random drew biased booleans and overflowed on int ranges wider than INT_MAX
C21 67e0dba FlipBitMutator accepted NaN and flipped far too often at tiny probabilities
C06 798a9b9 ThreadSafeQueue::IsEmpty did not compile
C15 a3a2825 the Mexican hat was not normalised (multiplied by pi^(1/4))
C14 2ee05a4 AkimaSpline::Value(NaN) read out of bounds
C15 4a74b4f spline based wavelets threw at the right end of their support and crashed without samples
C04 504cc2d a task that threw in the thread pool ended its worker: DoTasks hung or the process aborted
C03 3aa78ce concurrent callers of one thread pool returned before their own tasks were done
C32 b2b02fe Cache threw when its limit was reached by used values only
C22 2c5c44e the GA read past initial parameters of the wrong number
C20 ed11cd6 crossover of empty chromosomes divided by zero
C21 52aceaa LinearMutator with one generation used 0/0 as probability
C19 f68dd63 a reused GA took fitness cached for another objective function
C25 c21b698 bounded Nelder-Mead returned the worst vertex
C25 d622c71 bounded Nelder-Mead used stale values after a reduction
C23 e8d45d5 bounded Nelder-Mead kept the polygons of earlier runs
C26 3046ca8 the initial simplex of bounded Nelder-Mead left the bounds
C24 4a836bf steepest descent searched its step outside of the localised interval
C25 31d2b7f steepest descent did not end on plateaus and returned a point it had not reached
C25 75d310f conjugate gradient threw when started at the optimum and ignored small iteration limits
C25 9406aa9 conjugate gradient's one-dimensional search ran to infinity
C24 965f0fe steepest descent compared absolute values truncated to int with its precision
C27 5a3b2e5 random search with an inner optimizer and no points read out of bounds
C07 87b9d1d chromosomes could not be sent over MPI with current boost versions
C17 9e2c7d6 a refused second Initialize of a composite had already replaced its parts
C17 0ebf3b7 CompositeDiscreteParameters::GetParameter((size_t)-1) passed its range check
C20 6756a2d reading an individual with a negative fitness failed after replacing its chromosome
C22 132ee97 statistics of a second run contained leftovers of the first
C21 61eb272 LinearMutator's interpolated probability exceeded 1 by rounding and threw
C28 a211f24 grid search could not minimise nor be used as an optimizer
C28 8537ad6 grid search converted infinite step counts (precision 0 or NaN) to integers
C24 0f36b48 Hooke-Jeeves followed patterns made of rounding errors until its iteration limit
C26 7e616aa Nelder-Mead contraction left the bounds by rounding
C07 cffc18a the MPI pool threw on a task of foreign type after sending the ones before it
C33 23721bc a setting whose name ends in a dot aborted the process in boost's assertion
C21 93e8411 LinearMutator read an uninitialised context before the first ApplyNewMutationContext
C01 9855e6a a default constructed DoubleParameter dereferenced null
C22 4d93b7b initial parameters violating their constraints made the GA loop forever
C25 afca7b9 Hooke-Jeeves took moves shorter than 1e-10 for none and returned a worse point than it had seen
C05 a6ce262 a thread pool whose threads could not all be started left running threads on destroyed queues and leaked
C13 3c50093 a logarithmic scale of exponents more than 2^31 apart overflowed an int, one beyond double's range held zeros or infinities
C01 c74060e a wavelet whose count or length was changed after its creation was read out of bounds by the transform
C01 a532366 a wavelet of minimal length 0 with linear scales divided an integer by zero
C15 a35f80a the continuous wavelet transform with step 0 never ended
C01 57a6bd0 a wavelet of negative length made the continuous wavelet transform write out of bounds
C31 09340b5 continuous random quantities could exceed the upper bound by rounding
C26 42f67ed the last grid node could exceed the upper bound by rounding
C33 366b8cc merging settings lost properties whose key is empty or contains dots
C24 92de641 steepest descent ran away uphill when its precision was coarse for a steep quadratic
C13 f2addcd the last linear scale was infinite when its maximum is close to the largest double"""
fixed = []
for l in F.splitlines():
    p, c, w = l.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, w))
json.dump({"known": [], "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
