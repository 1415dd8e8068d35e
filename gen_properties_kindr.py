# Properties of the kindr- and ROS-dependent part (executed by gen_properties.py).
S = "curves/src/"
R = "curves_ros/src/"
prop("C17", "A position Hermite curve is the cubic through its knots, and only there",
     "A CubicHermiteE3Curve fitted to strictly increasing knots takes the knot positions at the knot times, has the requested derivative at both ends (zero if none is given) and the slope between the two "
     "neighbouring knots at every inner knot, and is the cubic Hermite interpolant in between; its velocity and acceleration are the derivatives of that curve. Outside its knots, and when it is empty, evaluation "
     "reports failure; a single knot is defined at its own time only. Fitting replaces the earlier curve, clearing empties it.",
     ["inputs", "histories"], "0..20 knots with spacing 0.01..5 s and any start time, all fit overloads, fresh, refitted and cleared curves, all query times",
     "The class has no test at all.",
     [S + "CubicHermiteE3Curve.cpp", C + "CubicHermiteE3Curve.hpp"],
     [("fitCurveWithDerivatives, calculateSlope", S + "CubicHermiteE3Curve.cpp"), ("evaluate, evaluateDerivative, evaluateLinearAcceleration", S + "CubicHermiteE3Curve.cpp")],
     "property-based testing: independent long-double Hermite cubic as reference model",
     "Sampled; at an inner knot the acceleration of either side is accepted.")

prop("C18", "A pose Hermite curve meets its poses and twists and is their smooth interpolant",
     "A CubicHermiteSE3Curve fitted to poses at strictly increasing times has these poses at these times (a quaternion and its negative being the same rotation), the requested twist at both ends (zero if none is given) "
     "and at every inner knot the twist that leads from the previous to the next pose; in between the position is the cubic Hermite interpolant and the rotation the documented product of three exponentials. "
     "Quaternions stay normalised; the reported linear and global angular velocity and the linear acceleration are the derivatives of the reported poses. Outside its knots, and when empty, evaluation reports failure. "
     "Fitting replaces the earlier curve, clearing empties it.",
     ["inputs", "histories"], "0..16 poses with any rotations (except relative rotations of exactly 180 degrees, where two answers are right), spacing 0.01..5 s, any start time, all fit overloads, fresh, refitted and cleared curves, all query times",
     "The repository's test of this class is not built here, and it checks finite differences of two fixed curves.",
     [S + "CubicHermiteSE3Curve.cpp", C + "CubicHermiteSE3Curve.hpp"],
     [("fitCurveWithDerivatives, calculateSlope", S + "CubicHermiteSE3Curve.cpp"), ("evaluate, evaluateDerivative, evaluateLinearAcceleration", S + "CubicHermiteSE3Curve.cpp")],
     "property-based testing: independent long-double model, angular velocity by high-order differences of the model",
     "Sampled; built against a stand-in for kindr (stubs/kindr/Core), which is not installed.")

prop("C19", "Hermite curves do not depend on frame, quaternion sign or time axis",
     "Expressing the same poses and end twists in another coordinate frame, replacing any input quaternion by its negative, or shifting and scaling the time axis gives the same motion: poses and twists of the two curves correspond at "
     "corresponding times. The position of an SE3 curve is the E3 curve through the positions.",
     ["inputs"], "all rigid frame changes, sign patterns, time shifts and scalings, 2..10 poses, all query times",
     "The repository's invariance tests use four fixed cases, compare to 1e-3, and are not built here.",
     [S + "CubicHermiteSE3Curve.cpp", S + "CubicHermiteE3Curve.cpp"],
     [("calculateSlope (global angular velocity), inverseRotate in evaluate", S + "CubicHermiteSE3Curve.cpp")],
     "metamorphic property-based testing",
     "Sampled; relations between pairs of curves of the real code, with tolerances from the rounding of the transformed times.")

prop("C20", "A periodic Hermite fit is one smooth loop",
     "Fitting a periodic curve to points whose last repeats the first gives a curve through these points that has the same twist at its start and at its end, namely the slope between the neighbours across the seam, so that repeating it with its period "
     "is smooth. Cutting the loop open at another of its points gives the same loop. Holds for position and pose curves.",
     ["inputs"], "loops of 2..10 points with any spacing 0.01..5 s and start time, cut open at any point, fresh and used curves",
     "Nothing tests periodic fits.",
     [S + "CubicHermiteE3Curve.cpp", S + "CubicHermiteSE3Curve.cpp"],
     [("fitPeriodicCurve", S + "CubicHermiteE3Curve.cpp, " + S + "CubicHermiteSE3Curve.cpp")],
     "metamorphic property-based testing: rotation of the loop, seam continuity",
     "Sampled; built against the kindr stand-in.")

prop("C21", "Curve files contain the curve",
     "Saving an SE3 Hermite curve at its knots or at given times inside it writes one row per time, and reading the file with the CSV loader returns these times and, bit for bit, the evaluated positions and quaternions. A sampled table of an SE3 or E3 Hermite curve has "
     "one entry per column named in its header in every row, and its rows are the evaluated curve at evenly spaced times from its start (the end point itself may be left out), to the precision of the format. A file that cannot be opened is reported.",
     ["inputs"], "curves with 2..8 knots, 1..12 saved times, tables of 2..60 samples, new and existing files",
     "No test writes a curve to a file.",
     [S + "CubicHermiteSE3Curve.cpp", S + "CubicHermiteE3Curve.cpp", S + "helpers.cpp"],
     [("saveCurveTimesAndValues, saveCurveAtTimes, writeEvalToFile", S + "CubicHermiteSE3Curve.cpp"), ("writeEvalToFile", S + "CubicHermiteE3Curve.cpp")],
     "property-based testing: file contents against evaluation, in a scratch directory",
     "Sampled; columns are identified by the header, not by position. Built against the kindr stand-in.")

prop("C22", "Extending a curve measurement by measurement obeys the sampling policy",
     "Under any history of extensions at increasing times, single or in batches, with clears, and for Slerp curves refits, in between, an extended curve ends at the newest measurement. Hermite curves keep a measurement as a knot when at least the set number of measurements and more than the set "
     "period passed since the last kept one; otherwise it is a provisional end that the next measurement replaces; kept knots have their measured poses and the slope between their neighbours. A Slerp curve keeps its first two single measurements and then one knot per group of 'ratio' "
     "measurements, placed at the newest of the group, and all measurements of a batch, after which a new group starts; number and period may be changed at any time, and a group that is complete under a lowered number is closed by its next measurement. A cleared curve starts over as a new one. Extending a Hermite curve to a time it already covers fails.",
     ["histories"], "1..40 measurements, ratios 1..5, periods 0..4 s, clears, batches and refits",
     "No test extends a curve.",
     [C + "SamplingPolicy.hpp", C + "CubicHermiteSE3Curve.hpp", C + "SlerpSE3Curve.hpp", S + "SlerpSE3Curve.cpp"],
     [("SamplingPolicy::extend/defaultExtend/interpolationExtend for CubicHermiteSE3Curve", C + "CubicHermiteSE3Curve.hpp"), ("SamplingPolicy::extend for SlerpSE3Curve", C + "SlerpSE3Curve.hpp")],
     "stateful model-based testing of extension histories",
     "Sampled. SlerpSE3Curve is abstract, so the harness derives from it and supplies only the two evaluation functions of the interface it does not implement. Built against the kindr stand-in.",
     state=[("measurementsSinceLastExtend_, lastExtend_", "progress of the policy", C + "SamplingPolicy.hpp")])

prop("C23", "A trajectory message becomes the curve of the named joint",
     "For every joint or multi-DOF trajectory message and every joint named in it, reading the message gives a curve that covers the message's times from start and takes the values of that joint at them, independently of the message's other joints and their order. A name that is not in the "
     "message, including a message that names no joints, is refused and leaves the curve as it was.",
     ["inputs"], "messages with 0..6 joints and 2..12 points at increasing times, present and absent names, fresh and used curves",
     "curves_ros has no tests.",
     [R + "RosJointTrajectoryInterface.cpp", R + "RosMultiDOFJointTrajectoryInterface.cpp", R + "RosMultiDOFJointTrajectoryTranslationInterface.cpp"],
     [("fromMessage", R + "RosJointTrajectoryInterface.cpp and its two siblings")],
     "property-based testing: message values at message times",
     "Sampled; ROS and kindr are not installed, the harness supplies stand-ins for their types (stubs/).")

NA = []
