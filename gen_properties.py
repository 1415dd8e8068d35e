#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both results are committed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
C = "curves/include/curves/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(prop={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                        "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                                    "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": list(observe), "hook_needed": None}},
                  technique=technique, note=note))


prop("C01", "A spline meets the boundary conditions it was computed from",
     "For every duration and every set of boundary values, a polynomial spline of order 1 to 5 computed from them starts and ends at the "
     "prescribed positions and meets as many of initial velocity, final velocity, initial acceleration and final acceleration (in that order) as its "
     "order has coefficients for; in between it is the unique polynomial with these conditions. This does not depend on how the spline object was "
     "constructed or what it held before.",
     ["inputs"], "all durations in [1e-6, 1e6] s, all finite boundary values, orders 1..5, fresh and reused spline objects",
     "The tests try one cubic and one quintic with round numbers; orders 1, 2 and 4 and other durations are not tested at all.",
     [C + "polynomial_splines_traits.hpp", "curves/src/polynomial_splines_traits.cpp", C + "PolynomialSpline.hpp"],
     [("spline_rep<double,N>::compute", "curves/src/polynomial_splines_traits.cpp, " + C + "polynomial_splines_traits.hpp"), ("computeCoefficients and the options constructors", C + "PolynomialSpline.hpp")],
     "property-based testing: boundary values and closed-form Hermite polynomial as oracle",
     "Millions of generated boundary problems per run, plain and ASAN/UBSAN builds. Trusts the closed-form solution in props/C01.cpp (long double).")

prop("C02", "Evaluation is the stored polynomial, frozen outside its duration",
     "Position, velocity and acceleration of a spline at any time are the value and the first two derivatives of the polynomial with its "
     "coefficients, taken at that time clamped to the interval from 0 to its duration, also for infinite times; a default-constructed spline is the zero polynomial of zero duration. The time vectors offered for building "
     "fits (value, first and second derivative, at any time and at zero, set and added, dense and block targets) are the rows that produce exactly these "
     "quantities, and they touch nothing but the target block.",
     ["inputs"], "all coefficients, durations >= 0, all times including infinities, orders 1..5, all time-vector helpers",
     "The tests evaluate a few points inside two splines; clamping, the second derivative and the time-vector helpers of orders 1, 2, 4 are untested.",
     [C + "PolynomialSpline.hpp", C + "polynomial_splines_traits.hpp", "curves/src/polynomial_splines_traits.cpp"],
     [("getPositionAtTime/getVelocityAtTime/getAccelerationAtTime", C + "PolynomialSpline.hpp"), ("tau/dtau/ddtau and their constants at zero", C + "polynomial_splines_traits.hpp")],
     "property-based testing: long-double polynomial evaluation as reference",
     "Sampled; tolerance 1e-13 of the sum of absolute terms. Trusts the reference evaluation in props/C02.cpp.")

prop("C03", "A fit passes through every knot, meets its end conditions and is smooth",
     "Fitting a container of cubic, quartic or quintic splines to strictly increasing knot times succeeds, and the result takes the given value at "
     "every knot, has the requested velocity (and acceleration, where the order leaves room for it) at both ends, and has continuous velocity and "
     "acceleration at every inner knot. It has one spline per interval with that interval's duration, its total duration is the knot span, and playback "
     "restarts at time 0 whatever the container held before.",
     ["inputs", "histories"], "any number of knots (2..40 generated), any values, spacing 0.01..5 s, any start time, fresh and reused containers",
     "The tests fit two or three fixed knot lists with quintic splines; which constraint row belongs to which spline only matters for other counts and spacings.",
     [C + "PolynomialSplineContainer.tpp", C + "PolynomialSplineContainer.hpp"],
     [("setData: assembly of the constraint system and its solution", C + "PolynomialSplineContainer.tpp"), ("addInitial/Final/JunctionConditions", C + "PolynomialSplineContainer.tpp")],
     "property-based testing: interpolation, boundary and continuity residuals of the fitted curve",
     "Sampled; residual tolerance 1e-7 (1e-5 for wide spacing) of the trajectory size. Spacings under about 1 ms are a recorded known finding.",
     state=[("splines_", "the fitted pieces", C + "PolynomialSplineContainer.hpp")])

prop("C04", "Fits without derivative data are the piecewise linear interpolant",
     "When only knots are given, or when the spline order is too low to carry the requested end conditions, fitting still succeeds for strictly "
     "increasing knot times and yields exactly the piecewise linear interpolant of the knots: it passes through every knot, its velocity is the slope of the "
     "interval and its acceleration is zero. Earlier contents of the container leave no trace.",
     ["inputs", "histories"], "orders 1..5, all fit overloads that fall back, 2..300 knots, fresh and reused containers, any query time",
     "No test calls the plain overload or fits a low-order container.",
     [C + "PolynomialSplineContainer.tpp"],
     [("setData(times, positions) and the fallback chain of the other overloads", C + "PolynomialSplineContainer.tpp")],
     "property-based testing: linear interpolation as reference model",
     "Sampled; compared with an independent linear interpolant at knots and random times.")

prop("C05", "Invalid knots are rejected and leave an empty trajectory",
     "Fitting fails, and says so, when there are fewer than two knots, when there are not as many values as times, or when knot times are not strictly increasing (or not numbers), wherever in the list the fault is and "
     "whichever fit overload is used. After a failed fit (and after a reset) the container is empty: zero duration, zero values, no active spline, "
     "and a later valid fit gives the same result as on a fresh container.",
     ["inputs", "histories"], "all fit overloads and orders, 0 or 1 knots, equal or decreasing neighbours at any index, fresh and used containers, followed by valid fits",
     "One test passes one invalid list; faults at other positions, other overloads and the state left behind are not looked at.",
     [C + "PolynomialSplineContainer.tpp"],
     [("validity tests in setData; reset()", C + "PolynomialSplineContainer.tpp")],
     "property-based testing: rejection and empty-state invariants over fault positions",
     "Sampled over fault kind, fault index, overload, order and container history.")

prop("C06", "Looking a container up by time finds the right spline",
     "For every container and time, position, velocity and acceleration at that time are those of the spline whose time interval contains it (the later "
     "one at a shared boundary, the last one at and after the end, the first one before the start), evaluated at the time since that spline began, whatever the playback position and the earlier contents. The reported "
     "active spline, its time offset, the total duration and the end values agree with this.",
     ["inputs"], "0..60 splines of order 1..5 with arbitrary coefficients and positive durations; any query time, in particular on and next to the boundaries",
     "Tests query fits whose neighbouring splines agree at the boundary, so choosing the wrong neighbour or offset is invisible.",
     [C + "PolynomialSplineContainer.tpp"],
     [("getActiveSplineIndexAtTime", C + "PolynomialSplineContainer.tpp"), ("addSpline duration bookkeeping", C + "PolynomialSplineContainer.tpp")],
     "model-based property testing: independent piecewise polynomial model",
     "Sampled; half of the cases use dyadic durations so that boundary decisions are exact and compared without tolerance.")

prop("C07", "Playback always reports the trajectory at the current time",
     "After any history of appending splines of positive duration, advancing, jumping, restarting, clearing, refitting and copying, the current position, velocity and acceleration "
     "of a container are those of its trajectory at its current time, and the time is what the history says: advancing adds the step while the trajectory lasts "
     "and reports failure once its end was reached or the container is empty. A step may span any number of splines, and may be negative.",
     ["histories"], "all sequences of the container's mutating operations, with steps of either sign, up to many splines long",
     "Tests advance a single fitted curve in small equal steps; large steps, appends during playback and jumps are not combined.",
     [C + "PolynomialSplineContainer.tpp"],
     [("advance/setContainerTime/addSpline/resetTime", C + "PolynomialSplineContainer.tpp")],
     "stateful model-based testing: generated histories against an independent playback model",
     "Sampled histories of up to 60 (now and then 400) operations, orders 1 to 5.",
     state=[("containerTime_, timeOffset_, activeSplineIdx_", "playback position", C + "PolynomialSplineContainer.hpp")])

prop("C08", "A scalar curve lives in the time frame of its knots",
     "A scalar curve fitted to knots starts at its first knot time and ends at its last one, takes the knot values at the knot times, has the requested end "
     "derivatives, keeps its end values before and after, and reports derivatives that are the derivatives of its values, wherever on the time axis the knots lie. "
     "Fitting replaces earlier contents, a fit to invalid knots (none at all, for one) leaves an empty curve whose value is 0, clearing returns it to an empty curve at time 0, and derivative orders other than 1 and 2 are refused.",
     ["inputs", "histories"], "all knot lists with spacing 0.01..5 s and any start time, both fit overloads, fresh, refitted and cleared curves, all query times",
     "The tests use curves that start at 0 or one fixed offset and check values at a handful of times.",
     [C + "PolynomialSplineScalarCurve.hpp"],
     [("fitCurve/evaluate/evaluateDerivative/clear and minTime_", C + "PolynomialSplineScalarCurve.hpp")],
     "property-based testing: knot residuals, end freezing and exact difference stencils",
     "Sampled; same tolerances as C03.", state=[("minTime_", "time of the first knot", C + "PolynomialSplineScalarCurve.hpp")])

prop("C09", "A curve fitted to a list of spline options chains them from time 0",
     "Fitting a scalar curve to a list of boundary-condition sets places one quintic per set, end to end, starting at time 0 in list order; within each piece "
     "the curve is the quintic with these boundary conditions, and it ends after the sum of the durations. Earlier contents are replaced, and an empty list gives an empty curve.",
     ["inputs", "histories"], "all lists of 0..12 option sets, continuous or not, on fresh, fitted and cleared curves",
     "One test fits one list into a fresh curve.",
     [C + "PolynomialSplineScalarCurve.hpp", C + "PolynomialSplineContainer.tpp"],
     [("fitCurve(options)", C + "PolynomialSplineScalarCurve.hpp")],
     "property-based testing: closed-form quintic per piece as reference",
     "Sampled; every piece is compared near both ends and inside, with both derivatives.")

prop("C10", "A vector curve is one scalar curve per axis",
     "Every component of a fitted vector-space curve, and of its first two derivatives, is at every time what a scalar curve fitted to that component alone "
     "gives, for each of the three ways to fit it; components do not mix and the curve covers the time range of its knots. A fit to invalid knots (none at all, for one) leaves an empty curve. Unsupported requests (other derivative orders, "
     "extending, fitting to options) report failure instead of succeeding silently.",
     ["inputs", "histories"], "dimensions 1, 2, 3, 6; all three fit overloads; any start time; fresh, refitted and cleared curves",
     "Tests fit one three-dimensional curve starting at time 0 and look at few components.",
     [C + "PolynomialSplineVectorSpaceCurve.hpp", C + "VectorSpaceCurve.hpp"],
     [("fitCurve overloads, evaluate, evaluateDerivative", C + "PolynomialSplineVectorSpaceCurve.hpp")],
     "differential property-based testing: vector curve against per-axis scalar curves and the knots",
     "Sampled; the scalar curve used as reference is itself decided by C08, and knots are checked directly too.")

prop("C11", "Fits commute with time shifts and linear combinations of the data",
     "Fitting the same knots shifted in time gives the same trajectory shifted in time, and fitting a linear combination of two data sets over the same knot times "
     "gives that linear combination of the two trajectories, in value, velocity and acceleration at every time. Fits are therefore reproducible and free of hidden state.",
     ["inputs"], "all knot times, pairs of data sets, factors and shifts; scalar curves and containers of order 3, 4, 5",
     "Relations between several fits are not tested anywhere; a test with fixed expected numbers cannot express them.",
     [C + "PolynomialSplineContainer.tpp", C + "PolynomialSplineScalarCurve.hpp"],
     [("linear constraint system built from time differences", C + "PolynomialSplineContainer.tpp")],
     "metamorphic property-based testing",
     "Sampled with dyadic knot times and shifts, so that shifted time differences are exact.")

prop("C12", "The coefficient manager is a time-sorted map with stable keys",
     "After any history of inserting, overwriting, adding at the end, moving, modifying, updating, removing and clearing, the coefficient manager holds exactly the coefficients a "
     "sorted map from time to (key, value) would hold, and all its accessors agree on them. A coefficient keeps its key while its value or time changes, and a new coefficient never gets "
     "a key that was issued before. Referring to a missing key or time, or adding at the end before the last time, fails instead of being ignored.",
     ["histories"], "all operation sequences (up to 60 generated) over numbers and heap-allocated coefficients, with colliding and distinct times",
     "All five existing manager tests fail in their fixture, so nothing about it is tested.",
     [C + "LocalSupport2CoefficientManager.hpp", C + "LocalSupport2CoefficientManager-inl.hpp"],
     [("insertCoefficient, modifyCoefficient, removeCoefficient*, updateCoefficient*", C + "LocalSupport2CoefficientManager-inl.hpp")],
     "stateful model-based testing against a std::map model, plain and ASAN/UBSAN",
     "Sampled histories; every accessor is compared after every step; documented errors run in a forked child.",
     state=[("timeToCoefficient_, keyToCoefficient_", "the two synchronised indexes", C + "LocalSupport2CoefficientManager.hpp")])

prop("C13", "Time queries of the manager return the active coefficients",
     "For every set of coefficients and every time, the bracket query returns the two neighbouring coefficients around that time (the last pair at the final time) and fails "
     "exactly when the time lies outside or there are fewer than two. The range query returns every coefficient from the last one at or before the range to the first one at or after it, and none "
     "for an empty or disjoint range; the window query returns exactly the coefficient times from its start to the end.",
     ["inputs"], "0..40 coefficients at arbitrary times, all query times including exact coefficient times, one ulp around them, and outside",
     "No working test covers the queries; boundary times are where an off-by-one shows.",
     [C + "LocalSupport2CoefficientManager-inl.hpp"],
     [("getCoefficientsAt, getCoefficientsInRange, getTimesInWindow", C + "LocalSupport2CoefficientManager-inl.hpp")],
     "property-based testing: linear scan as reference",
     "Sampled; plain and ASAN/UBSAN builds.")

prop("C14", "Copies of a coefficient manager are equal and independent",
     "A copied or assigned coefficient manager compares equal to its source at that moment, and afterwards no operation on either, including its destruction, changes anything "
     "observable of the other. Comparison is true exactly when times, keys and coefficients agree.",
     ["histories"], "all sequences of copy construction, assignment, self-assignment, container reallocation, modification and destruction over a family of managers",
     "No test copies or compares managers.",
     [C + "LocalSupport2CoefficientManager.hpp", C + "LocalSupport2CoefficientManager-inl.hpp"],
     [("copy operations, equals", C + "LocalSupport2CoefficientManager-inl.hpp")],
     "stateful model-based testing of object families, plain and ASAN/UBSAN",
     "Sampled histories of up to 30 operations on up to 6 managers.")

prop("C15", "Keys are unique in the process",
     "No two draws from the key generator return the same key, however many keys were drawn before and from however many threads at once. In particular coefficients of "
     "different managers never share a key.",
     ["schedules", "histories"], "1..8 concurrent threads drawing directly or through managers, after up to millions of earlier draws",
     "The tests draw a few keys in one thread.",
     ["curves/src/KeyGenerator.cpp", C + "KeyGenerator.hpp"],
     [("mutex around the static counter", "curves/src/KeyGenerator.cpp")],
     "randomised concurrent stress with a uniqueness oracle, plain and ThreadSanitizer builds",
     "Schedules are those the operating system produces, not enumerated; ThreadSanitizer flags an unsynchronised counter without needing the unlucky schedule.",
     state=[("key", "last key issued", "curves/src/KeyGenerator.cpp")])

prop("C16", "CSV files round trip",
     "Tables (of fields without commas and line breaks) and time series written to CSV and read back are the same: same rows and fields, and every time and value bit for bit, whatever the numbers (a NaN comes back as a NaN). Reading replaces the "
     "caller's previous contents, writing replaces the previous file, and mismatched lengths or dimensions, a missing file and an output file that cannot be opened fail.",
     ["inputs"], "tables of 1..40 rows and 1..9 columns; any doubles; reused output containers and files",
     "There is no test of the CSV helpers.",
     ["curves/src/helpers.cpp", C + "helpers.hpp"],
     [("writeCSV/loadCSV, writeTimeVectorCSV/loadTimeVectorCSV, loadTimeTimeVectorCSV", "curves/src/helpers.cpp")],
     "property-based testing: write/read round trip in a scratch directory",
     "Sampled; string fields contain no comma or newline (the format has no quoting).")

exec(open(V + "/gen_properties_kindr.py").read()) if os.path.exists(V + "/gen_properties_kindr.py") else None

prop("C24", "The self-check of a container passes exactly for sound containers",
     "For every non-empty spline container, its self-check reports failure when the current time is negative or beyond the duration, when any spline has a negative duration, or "
     "when any coefficient of any spline is NaN, wherever in the container the fault is and however it got there; it reports success for every other container.",
     ["inputs", "histories"], "orders 1..5, 1..200 splines, faults at any position, times reached by jumping or advancing",
     "No test calls the self-check.",
     [C + "PolynomialSplineContainer.tpp", C + "PolynomialSplineContainer.hpp"],
     [("checkContainer", C + "PolynomialSplineContainer.tpp")],
     "property-based testing with injected faults: the generator knows whether and where it placed a fault",
     "Sampled; plain and ASAN/UBSAN builds.")

prop("C25", "Separate objects and concurrent readers never disturb each other",
     "Threads that each work on splines, containers, curves, coefficient managers and CSV files of their own get exactly the results the same work gives in one thread, and threads that only read "
     "one and the same container, curve or manager through its const methods read exactly what a single reader reads. Nothing the threads do in this way is an unsynchronised access to shared memory.",
     ["schedules", "inputs", "histories"], "2..4 threads, every kind of object, any data, any interleaving (a data race is reported whatever the schedule)",
     "The tests are single-threaded; a scratch buffer made static or a cache filled by a const method passes them all.",
     [C + "PolynomialSplineContainer.tpp", C + "PolynomialSpline.hpp", C + "polynomial_splines_traits.hpp", "curves/src/polynomial_splines_traits.cpp", "curves/src/KeyGenerator.cpp", "curves/src/helpers.cpp",
      C + "LocalSupport2CoefficientManager-inl.hpp", "curves/src/CubicHermiteE3Curve.cpp", "curves/src/CubicHermiteSE3Curve.cpp"],
     [("setData, addFinalConditions, getPositionAtTime", C + "PolynomialSplineContainer.tpp"), ("KeyGenerator::getNextKey", "curves/src/KeyGenerator.cpp")],
     "property-based testing over generated jobs and schedules: bit-for-bit differential against the same work in one thread, plus ThreadSanitizer builds of the same cases",
     "Sampled jobs; schedules sampled, with happens-before race detection on every sampled execution. " + "Hermite curves use the stand-in for kindr in stubs/.")

prop("C26", "A copied or moved curve behaves like one that was never copied",
     "Splines, containers, scalar, vector and Hermite curves and sampling policies are values: after copying, assigning (also to itself), moving, swapping, storing in a growing vector or destroying a "
     "copy, each object keeps behaving exactly like a fresh object that went through the same history of fits, clears, playback and extensions alone; changing or destroying one never shows in another, "
     "and reading an object never changes what it says.",
     ["histories", "inputs"], "families of up to 6 objects, histories of up to 25 steps, every kind of object",
     "The tests never copy a container or curve, let alone use the copies after the original changed.",
     [C + "PolynomialSplineContainer.hpp", C + "PolynomialSpline.hpp", C + "PolynomialSplineScalarCurve.hpp", C + "PolynomialSplineVectorSpaceCurve.hpp", C + "LocalSupport2CoefficientManager-inl.hpp",
      C + "CubicHermiteE3Curve.hpp", C + "CubicHermiteSE3Curve.hpp", C + "SamplingPolicy.hpp", C + "SlerpSE3Curve.hpp"],
     [("copy and move of the members", C + "PolynomialSplineContainer.hpp"), ("LocalSupport2CoefficientManager::operator=", C + "LocalSupport2CoefficientManager-inl.hpp")],
     "stateful property-based testing: every member of a family is compared bit for bit with a fresh object on which its history is replayed",
     "Sampled; plain and ASAN/UBSAN builds. " + "Hermite curves use the stand-in for kindr in stubs/.")

open(V + "/properties.jsonl", "w").write("".join(json.dumps(p["prop"], ensure_ascii=False) + "\n" for p in P))
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["prop"]["id"], "quick_cmd": "./check %s quick" % p["prop"]["id"], "thorough_cmd": "./check %s thorough" % p["prop"]["id"],
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
       "not_applicable": NA,
       "notes": "No hooks in /repo: every harness uses the public API only. See DESIGN.md."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
