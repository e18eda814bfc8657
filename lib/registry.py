"""Writes properties.jsonl and MANIFEST.json from one description of each property: python lib/registry.py."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/vp/venv/bin/python"
HOOK_COMMITS = ["a3bf980"]

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note, observe=None, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  level=level, note=note, observe=observe, hook=hook, state=state))


QIS = ["src/QIS.cpp", "src/Microsynthesis.h", "src/NDArrayUtils.h", "src/Index.cpp"]
SOB = ["src/Sobol.cpp", "src/SobolImpl.cpp", "src/SobolData.h"]

prop("C01", "qis: the population is integral, complete, and conv tells whether it fits",
     "For every valid problem, qis returns an array of non-negative integers whose shape is the one the marginals imply and which adds up to the population, "
     "and conv is true exactly when every given marginal is reproduced exactly. "
     "When the marginals come from one joint population, and for each marginal the dimensions it shares with earlier ones all belong to a single earlier marginal, conv is always true, whatever the quasirandom points are. "
     "If the quasirandom sequence runs out, or the draws so far leave nothing to draw from, the call raises an error and returns no population.",
     ["inputs", "histories", "fault_sequences"],
     "every choice of marginals, every sequence of quasirandom points the generator could deliver, and its exhaustion at every draw",
     "The tests call qis on about a dozen problems, always with the one real Sobol sequence from its start: each of them follows one path through the sampler's choices, nearly all with disjoint marginals.",
     QIS + SOB,
     [("sampling without replacement from the remaining marginals", "src/QIS.cpp: sample, QIS::solve_m"), ("residuals decide conv", "src/QIS.cpp: QIS::solve_m; src/NDArrayUtils.h: diff"),
      ("validation that marginals agree", "src/Microsynthesis.h: constructor")],
     "exhaustive exploration of the sampler's choice tree on the real code (points injected), plus exhaustive families of index structures",
     "exploration",
     "Every branch of every draw, for every marginal structure over 2-3 dimensions with populations up to 4 (thorough: 5), each run on the real extension at both edges of the interval of coordinates that selects the branch; "
     "every list of 2-3 ordered marginal indices over up to 4 dimensions on the real sequence; exhaustion injected at every draw. Larger populations are covered on ladders, not exhaustively.",
     ["humanleague.qis"], "HUMANLEAGUE_VERIFY: supplies the quasirandom points",
     [("remaining marginals", "what is still to be drawn; all zero at the end iff the marginals are met", "src/QIS.cpp: solve_m")])

prop("C02", "qisi: integral, complete, the seed's zeros respected, conv tells whether it fits",
     "For every valid problem and every non-negative seed, qisi returns non-negative integers of the seed's shape which add up to the population, places nobody in a state the seed excludes, and reports conv true exactly when every given marginal is reproduced exactly. "
     "With a seed whose values are positive and within a factor of a hundred of each other, and marginals that share no dimension, conv is always true, whatever the quasirandom points are. "
     "When no exact population can be reached from the draws made so far, the call returns an approximate population with conv false instead of failing; it raises only if the quasirandom sequence runs out or there is nothing left to draw from at all.",
     ["inputs", "histories", "fault_sequences"],
     "every choice of marginals and seed, every sequence of quasirandom points, exhaustion at every draw",
     "The tests use a handful of seeds and the one real sequence; whether the recomputation of the expectation keeps the population feasible depends on the order in which states are drawn, of which they see one per problem.",
     ["src/QISI.cpp", "src/IPF.h", "src/Microsynthesis.h"] + SOB,
     [("draw, decrement the expectation, recompute it when a state is overdrawn", "src/QISI.cpp: QISI::solve, recomputeIPF"), ("zero weight is never picked", "src/QISI.cpp: pick, getIndex")],
     "exhaustive exploration of the sampler's choice tree on the real code (points injected), over every small seed and structure",
     "exploration",
     "Every branch with more than 1e-7 of the weight, for populations up to 3 (thorough: 5) and every 0/1 seed of small shapes plus irregular ones, each run on the real extension; exhaustion at every draw; every structure over up to 3 dimensions on the real sequence.",
     ["humanleague.qisi"], "HUMANLEAGUE_VERIFY: supplies the quasirandom points",
     [("expectation", "IPF solution of what remains to be drawn", "src/QISI.cpp: m_ipfSolution")])

prop("C03", "ipf: what it reports about its result is true, and it converges when it must",
     "ipf returns a non-negative, finite array of the seed's shape together with the largest absolute difference between any marginal of that array and the requested one (maxError), and conv is true exactly when this is below 1e-8. "
     "The number of iterations is between 1 and 1000, is 1000 if it did not converge, and is the first at which the error was small enough if it did; pop is the requested total. "
     "With a seed whose values are positive and within a factor of a hundred of each other, marginals that share no dimension, and totals up to a million it always converges.",
     ["inputs"],
     "every seed, every structure of marginals (disjoint, overlapping, nested, repeated, ordered in any way), consistent or not",
     "The tests compare a few results with a tolerance and check conv on six solvable problems: none has overlapping indices in permuted order, none fails to converge, none checks maxError or iterations.",
     ["src/IPF.h", "src/NDArrayUtils.h", "src/Microsynthesis.h"],
     [("scale by each marginal in turn until the error is small", "src/IPF.h: IPF::solve, rScale, rDiff, computeErrors"), ("reduction of an array to a marginal", "src/NDArrayUtils.h: reduce")],
     "exhaustive enumeration of marginal structures, small seeds and marginals, each execution checked against an independent reduction and a lockstep reference iteration",
     "exploration",
     "All ordered structures of up to 3 marginals over up to 3 dimensions, families over 4 and more, every seed and marginal over small alphabets; comparisons within rounding error.",
     ["humanleague.ipf"])

prop("C04", "ipf: the result is the seed times one factor per marginal cell, and nothing else",
     "Every converged ipf result equals the seed multiplied, cell by cell, by one factor per cell of each marginal; cells that are zero in the seed are zero in the result. "
     "The result does not change when the seed is scaled or multiplied by any such factors, it is the seed itself if that already fits, and it is permuted accordingly when dimensions, categories, or the axes of a marginal are permuted. "
     "When it converges, the order in which the marginals are listed does not matter.",
     ["inputs"],
     "every seed and every structure of marginals; every permutation of dimensions, marginals and categories",
     "The tests compare marginal sums and a few cells against constants; a result with the right marginals but the wrong association structure passes nearly all of them.",
     ["src/IPF.h", "src/NDArrayUtils.h", "src/Index.cpp"],
     [("multiplicative scaling of the slice each marginal cell selects", "src/IPF.h: rScale; src/Index.cpp: MappedIndex")],
     "exhaustive enumeration of structures and small seeds; log-linear factorisation checked by projection, invariances by re-execution of every permuted problem",
     "exploration",
     "The log-ratio of result to seed is projected on the space of marginal factors (rank and residual computed independently of the implementation). Exhaustive over structures up to 3 dimensions and 3 marginals, small alphabets of seeds.",
     ["humanleague.ipf"])

prop("C05", "qis, qisi: expectation, chi-squared, p-value and population size are right",
     "The expectation returned by qis is the IPF solution of a uniform seed with the given marginals, that of qisi is the ipf result for the given seed, and pop is the number of individuals. "
     "chiSq is the sum over states of (sampled - expected)^2 / expected, a state neither expected nor sampled contributing nothing. "
     "pValue is the upper tail probability of chiSq under a chi-squared distribution with the product of (size - 1) over the dimensions as degrees of freedom.",
     ["inputs"],
     "every problem: shapes, structures, populations and seeds",
     "The tests check that pValue exceeds a threshold, and the expectation of one 2-d and one 3-d problem; a wrong number of degrees of freedom, or an expectation wrong for overlapping marginals, goes unnoticed.",
     ["src/QIS.cpp", "src/QISI.cpp", "src/StatFuncs.cpp", "src/Microsynthesis.h", "src/module.cpp"],
     [("expectation", "src/QIS.cpp: computeStateValues, expectation; src/QISI.cpp: expectation"), ("statistic", "src/Microsynthesis.h: chiSquared"), ("incomplete gamma function, degrees of freedom", "src/StatFuncs.cpp: gamain, pValue, dof")],
     "exhaustive enumeration of small problems and a grid of degrees of freedom and statistics, against independent implementations (continued fraction and series)",
     "exploration",
     "Assumes the reference IPF, and a chi-squared tail evaluated by series/continued fraction in double precision. Far upper tails where the implementation's own factor underflows are one known finding and are otherwise left out.",
     ["humanleague.qis", "humanleague.qisi"])

prop("C06", "qis: the law by which individuals are drawn",
     "qis draws individual after individual; each uses the next point of the Sobol sequence that has as many dimensions as the population, starting after the skipped points (the largest power of two below the skip argument, none for 0). "
     "Going through the marginals in the given order, the dimensions of a marginal not yet fixed are picked last one first, each by inverting the cumulative distribution of the marginal's remaining individuals, conditional on what is already fixed, at that dimension's coordinate. "
     "The individual is then removed from every marginal, so the draw is without replacement.",
     ["inputs", "histories"],
     "every marginal structure, every sequence of points, every history of previous draws",
     "The tests never look at which population is sampled, only that it fits; sampling with replacement of the last individual, a coordinate used for the wrong dimension or a skipped point all give populations that fit.",
     QIS + SOB,
     [("conditional inversion along free dimensions", "src/QIS.cpp: recursive_sample, sample"), ("removal from the marginals", "src/QIS.cpp: solve_m"), ("skipping", "src/SobolImpl.cpp: nlopt_sobol_skip")],
     "explicit-state model of the draw (states: remaining marginals); every model trace replayed against the real code through injected points, and lockstep on the real sequence",
     "model_checking",
     "The whole choice tree for populations up to 4 (thorough: 5), both edge coordinates of every branch; lockstep on the real sequence for all structures over up to 3 dimensions and ladders to 60000 individuals, 24 skips.",
     ["humanleague.qis"], "HUMANLEAGUE_VERIFY: supplies the quasirandom points")

prop("C07", "qisi: the law by which individuals are drawn",
     "qisi draws individual after individual, each using the next point of the Sobol sequence with as many dimensions as the population, starting after the skipped points. "
     "The last dimension is picked first, then the one before it and so on, each by inverting the cumulative distribution, conditional on what is already picked, of the expected number of individuals still to be drawn. "
     "This expectation is the IPF solution of the seed less the individuals drawn since it was computed, and is recomputed from the seed and the remaining marginals whenever a state would become negative.",
     ["inputs", "histories"],
     "every seed, structure, sequence of points and history of draws (up to ties decided by rounding)",
     "The tests look only at whether the result fits and at a loose p-value.",
     ["src/QISI.cpp", "src/IPF.h"] + SOB,
     [("conditional inversion", "src/QISI.cpp: pick, getIndex"), ("decrement and recompute", "src/QISI.cpp: solve, recomputeIPF")],
     "explicit-state model of the draw (states: remaining expectation and marginals, branching where rounding decides); every model trace replayed against the real code",
     "model_checking",
     "Whole choice trees for populations up to 3 (thorough: 5), lockstep beyond. Where an expectation reaches zero within 1e-7 the model admits both continuations, so that reordered floating point arithmetic is not an alarm.",
     ["humanleague.qisi"], "HUMANLEAGUE_VERIFY: supplies the quasirandom points")

prop("C08", "SobolSequence: exactly the Sobol points with Joe and Kuo's direction numbers",
     "In every dimension from 1 to 1111, the n-th value of a SobolSequence is the n-th point of the Sobol sequence with Joe and Kuo's direction numbers in Gray code order (the origin left out), exactly, as multiples of 2^-32 strictly between 0 and 1. "
     "The first 2^k - 1 points together with the origin have exactly one point in every interval of width 2^-k in each coordinate. "
     "The sequence holds 2^32 - 1 points.",
     ["inputs", "histories"],
     "every dimension and every position in the sequence",
     "The tests compare a few points in up to four dimensions; a corrupted direction number in dimension 700, or of bit 20, is out of their reach.",
     SOB + ["src/module.cpp"],
     [("direction number recurrence", "src/SobolImpl.cpp: sobol_init"), ("Gray code step", "src/SobolImpl.cpp: sobol_gen, rightzero32"), ("scaling", "src/module.cpp: SobolSequence")],
     "exhaustive enumeration of dimensions and direction bits, point by point against the definition; the second half of the sequence (2^31 points) run to its end",
     "exploration",
     "All 1111 dimensions over their first points, every direction bit up to 2^24 in all dimensions reachable in the time and up to 2^31 in the leading ones; the C++ generator is run from point 2^31 to exhaustion. Trusts data/joe_kuo.json.",
     ["humanleague.SobolSequence"], None)

prop("C09", "SobolSequence: independent iterators with the documented skip that end properly",
     "A SobolSequence is an iterator: it yields one fresh point per step, is not affected by any other generator or call, and raises StopIteration at its end and ever after. "
     "A skip of n leaves out the largest power of two less than n points (one for n = 1, none for n = 0), for every n below 2^32. "
     "Dimensions outside 1..1111 and skips that are negative or 2^32 and more are refused.",
     ["histories", "inputs", "fault_sequences"],
     "every interleaving of operations on several generators, every skip, exhaustion at any point",
     "The tests create three generators, read a few values and one skip; the end of a sequence of 2^32 - 1 points is out of reach for any test.",
     ["src/module.cpp", "src/Sobol.cpp", "src/SobolImpl.cpp"],
     [("iterator protocol", "src/module.cpp: SobolSequence binding"), ("skip", "src/SobolImpl.cpp: nlopt_sobol_skip"), ("exhaustion", "src/Sobol.cpp: buf")],
     "explicit-state model of a set of generators; every operation sequence up to depth 7 (thorough: 8) replayed on real generators; exhaustion injected",
     "model_checking",
     "Up to three live generators, four kinds of construction, interleaved with a sampler call and a refused construction; skips 0..2099 and around every power of two up to 2^32 - 1.",
     ["humanleague.SobolSequence"], "HUMANLEAGUE_VERIFY: ends the sequence early")

prop("C10", "integerise of a vector: whole numbers, the right total, as close as possible",
     "integerise of a vector of non-negative weights with a population, or of a vector of counts with a whole total, returns non-negative integers that add up exactly to the population, each less than 1 from its exact share, with nobody in a category of weight zero. "
     "No other such vector is closer to the exact shares in the least squares sense, and the reported rmse is its root mean square error. "
     "Empty, negative, non-finite or all-zero weights, negative populations and totals that are not whole are refused.",
     ["inputs"],
     "every vector of weights and every population",
     "The tests round four or five vectors.",
     ["src/Integerise.cpp", "src/module.cpp"],
     [("round down, then hand out what is left by largest remainder", "src/Integerise.cpp: integeriseMarginalDistribution"), ("validation", "src/module.cpp: integerise1d; src/Integerise.cpp")],
     "exhaustive enumeration of small vectors and populations against the optimality condition, then ladders",
     "exploration",
     "Exhaustive up to 6 categories with small weights and populations up to 19; optimality is checked by exchange argument, so ties are free.",
     ["humanleague.integerise"])

prop("C11", "integerise n-d: same total, same zeros, conv exactly if marginals are kept",
     "integerise of an n-dimensional array of fractional counts whose one-dimensional marginals are whole returns non-negative integers of the same shape and total, with nobody in a state whose fractional count is zero. "
     "conv is true exactly when every one-dimensional marginal is kept, which it always is if all fractional counts are positive, and rmse is the root mean square difference. "
     "Arrays with negative or non-finite counts or marginals that are not whole are refused.",
     ["inputs"],
     "every array of fractional counts, of every shape",
     "The tests integerise two arrays.",
     ["src/Integerise.cpp", "src/QISI.cpp", "src/module.cpp"],
     [("marginals rounded with a tolerance, then qisi with the array as seed", "src/Integerise.cpp: Integeriser")],
     "exhaustive enumeration of small arrays over fractions with whole marginals, then ladders",
     "exploration",
     "Every array of small fractions over small shapes with whole marginals; sparse arrays included, where no exact result may exist and conv must say so.",
     ["humanleague.integerise"])

prop("C12", "flatten: every individual once, with its category in each dimension",
     "flatten returns one list per dimension, all as long as the population, and the i-th entries of these lists together are the state of the i-th individual: counting the states gives back the array exactly. "
     "Arrays with negative counts, more individuals than fit in memory, no cells or no dimensions are refused.",
     ["inputs"],
     "every array of counts, of every shape",
     "The tests flatten two arrays and look at column sums or a few entries.",
     ["src/NDArrayUtils.h", "src/module.cpp", "src/rcpp_api.cpp"],
     [("listify", "src/NDArrayUtils.h: listify")],
     "exhaustive enumeration of small arrays, inverse applied and compared", "exploration",
     "Every array over small alphabets of 16 shapes up to 5 dimensions; ladders to millions of individuals and 12 dimensions.",
     ["humanleague.flatten"])

prop("C13", "malformed problems are refused with an exception, and the process survives",
     "Whatever is wrong with the arguments of a function (missing, extra, empty or repeated indices or marginals, indices out of range, marginals of the wrong shape, with negative or non-finite values, with different totals or that contradict each other on a shared dimension, seeds of the wrong shape or with negative or non-finite values, skips out of range, arguments of the wrong type) and wherever it is, the call raises an exception. "
     "It never returns a population, crashes, or fails to return. "
     "Later calls are not affected.",
     ["inputs", "fault_sequences"],
     "every defect at every position of a problem, in every function that takes it",
     "The tests try about ten defects, each in one place of one problem; the 12 crashes and endless loops repaired in this repository were all behind them.",
     ["src/Microsynthesis.h", "src/module.cpp", "src/IPF.h", "src/NDArrayUtils.h", "src/Integerise.cpp"],
     [("validation on construction", "src/Microsynthesis.h: constructor"), ("conversion", "src/module.cpp: asNDArray, toNDArray")],
     "exhaustive fault enumeration: every defect of a catalogue at every position of sixteen problems, one forked worker per core so that a crash or hang is a verdict",
     "exploration",
     "Single defects (thorough: all pairs on five problems), and every argument replaced by 30 values of wrong types.",
     ["humanleague.ipf", "humanleague.qis", "humanleague.qisi"])

prop("C14", "how an input is represented does not change the answer",
     "Two arrays with equal elements give identical answers from every function, whether they are C or Fortran ordered, strided, reversed, broadcast, byte-swapped, unaligned, read-only, views, lists, tuples, subclasses, or of any numeric type that holds the values exactly. "
     "Types whose values would be changed by the conversion are refused, or give the answer for the values so obtained, consistently.",
     ["inputs", "configurations"],
     "every function, every argument, every memory layout and type",
     "All test inputs are C ordered contiguous arrays of the native type.",
     ["src/module.cpp", "src/NDArray.h"],
     [("conversion to contiguous arrays of the right type", "src/module.cpp: toNDArray, asNDArray")],
     "exhaustive product of functions, arguments and representations, answers compared bit by bit", "exploration",
     "All representations in a catalogue of about 60 for every array argument of every function, one at a time and in pairs.",
     ["humanleague.*"])

prop("C15", "each call depends on its arguments alone; results belong to the caller",
     "No function changes its arguments, keeps them, or returns an array that shares memory with them, with another result or with internal state. "
     "The same call gives the same answer, bit by bit, whatever calls, successful or refused, came before it in the process, whichever thread makes it, and whatever uninitialised memory happens to contain.",
     ["histories", "inputs", "configurations"],
     "every history of calls, including refused ones, up to a depth; every order of freeing and overwriting arguments and results; every thread; every content of fresh memory",
     "Each test makes a few calls in one fixed order with fresh arguments and looks at the results at once.",
     ["src/module.cpp", "src/NDArray.h", "src/Sobol.cpp", "src/SobolImpl.cpp", "src/QISI.cpp"],
     [("results copied out", "src/module.cpp: fromNDArray"), ("generator state owned by the object", "src/Sobol.h")],
     "exhaustive enumeration of call histories over shared arguments, each answer compared with that of a fresh process, the contents of fresh memory chosen by the check", "exploration",
     "All histories of length 4 (thorough: 5) over an alphabet of successful and refused calls; all ordered pairs of 262 look-alike calls; ownership checked by overwriting and freeing in every order; generators handed between threads.",
     ["humanleague.*"])

prop("C16", "R and Python give the same answers",
     "The R functions give, with R's 1-based dimensions and column-major arrays, the populations, statistics, integers, tables and Sobol points that the Python functions give for the mirrored problem (dimensions reversed). "
     "What one refuses the other refuses, with an R error that leaves the session usable. "
     "flatten in R names columns as asked and numbers categories from 1.",
     ["inputs", "configurations"],
     "every function and problem, in both languages",
     "The R tests and the Python tests are two separate sets of examples; nothing compares them.",
     ["src/rcpp_api.cpp", "src/RcppExports.cpp", "R/RcppExports.R", "R/humanleague.R", "src/module.cpp"],
     [("conversion of R arrays", "src/rcpp_api.cpp: convertArray, getDimension, checkSeed")],
     "exhaustive enumeration of structures and small problems, run in both front ends built from the same tree and compared", "exploration",
     "All structures over 2-3 dimensions with 2-3 marginals (ladders of larger ones beyond), results compared cell by cell.",
     ["R package humanleague"])

prop("C17", "no call reads or writes memory that is not its own, or is otherwise undefined",
     "No call, with valid or malformed arguments, reads or writes outside the arrays involved, uses memory that has been freed, overflows a signed integer, accesses an object through a misaligned pointer, or does anything else that C++ leaves undefined. "
     "The same holds when the quasirandom sequence ends in the middle of a call.",
     ["inputs", "histories", "fault_sequences"],
     "every input, valid or malformed, of every function",
     "An out-of-bounds access or an overflow rarely changes the outcome of a test; several were found here behind passing tests.",
     ["src/NDArray.h", "src/NDArrayUtils.h", "src/Index.cpp", "src/QIS.cpp", "src/QISI.cpp", "src/module.cpp", "src/rcpp_api.cpp"],
     [("bounds are implied by index iteration", "src/Index.cpp; src/NDArray.h: operator[]")],
     "the enumerations of the other checks executed on an instrumented build (AddressSanitizer, UndefinedBehaviorSanitizer, checked containers)", "exploration",
     "Detects what AddressSanitizer, -fsanitize=undefined and _GLIBCXX_ASSERTIONS detect on the executions enumerated; in the R front end also accesses to elements of R vectors that do not exist.",
     ["humanleague.*", "R package humanleague"], "HUMANLEAGUE_VERIFY: supplies the quasirandom points")

prop("C18", "what a call takes it gives back",
     "Once the result of a call has been dropped, the process holds as much memory, and as many references to the call's arguments, as before it: repeating a call does not make the process grow. "
     "This holds for calls that succeed, calls that are refused, whatever the defect, and calls that fail half way because the quasirandom sequence ends, and for generators that are abandoned before their end.",
     ["inputs", "histories", "fault_sequences"],
     "every function and input, valid or malformed, repeated",
     "No test repeats a call, and none looks at the memory of the process; an exception that skips a release is invisible to an assertion that the exception is raised.",
     ["src/NDArray.h", "src/module.cpp", "src/Sobol.cpp", "src/QIS.cpp", "src/QISI.cpp", "src/Microsynthesis.h"],
     [("arrays free the storage they own", "src/NDArray.h: ~NDArray, resize, move"), ("generator state is owned by the object", "src/Sobol.h"), ("references released by pybind11 wrappers", "src/module.cpp")],
     "exhaustive enumeration of calls (every operation, every defect of the catalogue, exhaustion at every draw), each repeated under exact counters of C++ and Python allocations", "exploration",
     "Every defect of the catalogue of C13 at every position, every other malformed call, the look-alike calls of C15, large results, abandoned generators; a leak is growth in each of 60 rounds of 8 calls. Python front end.",
     ["humanleague.*"], "HUMANLEAGUE_VERIFY: ends the quasirandom sequence early")

prop("C19", "the array primitives agree with arithmetic on positions",
     "An index visits every position of a shape once, last dimension fastest (TransposedIndex: first), ends after the last, and can be reset or continued from any position. "
     "A mapped index is a view of the chosen dimensions of another, and iterates over these while the others stay; a fixed one iterates over the dimensions that are not fixed. "
     "reduce sums over the dimensions not named, in the order of those named; slice takes the cells at the given positions and refuses positions that do not exist; sum, min, max, product, diff and listify mean what they say. "
     "An array holds what was last written to each position, owns the storage it allocated and never that which it was given: copies are independent, moves transfer it, resizing or copying into storage that is not its own is refused.",
     ["inputs", "histories"],
     "every shape and choice of dimensions; every sequence of constructions, assignments, copies, moves and resizes of several arrays",
     "The unit tests iterate over two or three shapes; none has a permuted mapping in four dimensions, and none makes a sequence of operations on the storage of an array.",
     ["src/Index.h", "src/Index.cpp", "src/NDArray.h", "src/NDArrayUtils.h"],
     [("iteration with a carry from the last dimension", "src/Index.cpp: Index::operator++, MappedIndex::operator++"), ("offsets from positions", "src/NDArray.h: operator[], offset"), ("ownership of storage", "src/NDArray.h: m_owned")],
     "exhaustive enumeration of shapes and dimension choices, and explicit-state exploration of all operation sequences on two arrays against a model, on the real classes", "exploration",
     "All shapes of up to 4 (iteration: 5) dimensions of up to 3 categories, all ordered choices of dimensions, all positions; all sequences of 4 (thorough: 5) of 34 storage operations, under sanitizers. A group whose C++ interface has changed is left out and reported so.",
     ["src/Index.h", "src/NDArray.h"], None,
     [("storage", "allocated or wrapped; shape; what was last written to each position", "src/NDArray.h")])

NOT_APPLICABLE = []


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = p["hook"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], stdout=subprocess.PIPE, text=True).stdout.strip() for h in HOOK_COMMITS]
    m = dict(version=1, setup_cmd=PY + " lib/build.py std r asan r-checked",
             hooks=dict(guard="HUMANLEAGUE_VERIFY", enable="-DHUMANLEAGUE_VERIFY, added by lib/build.py when it compiles the extension from /repo/src", source_commits=full),
             checks=[dict(property=p["id"], quick_cmd="%s check.py %s" % (PY, p["id"]), thorough_cmd="VERIF_TIER=thorough %s check.py %s" % (PY, p["id"]),
                          evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"])
                     for p in P if p["id"] not in na],
             not_applicable=NOT_APPLICABLE,
             notes="DESIGN.md describes the methods, bounds and findings. lib/registry.py writes this file and properties.jsonl.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
