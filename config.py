"""Per-property harness configuration: sources of /repo, workers (variant, processes, cases each), budgets."""
CORE = ["curves/src/KeyGenerator.cpp", "curves/src/polynomial_splines_traits.cpp", "curves/src/helpers.cpp"]
HERMITE = CORE + ["curves/src/SE3Curve.cpp", "curves/src/CubicHermiteE3Curve.cpp", "curves/src/CubicHermiteSE3Curve.cpp", "curves/src/SlerpSE3Curve.cpp"]
ROS = ["curves_ros/src/RosJointTrajectoryInterface.cpp", "curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp", "curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp"]
KNOWN_SOURCES = HERMITE + ROS + ["curves/src/" + f + ".cpp" for f in ("DiscreteSE3Curve", "SE2Curve", "SE3CurveFactory", "SemiDiscreteSE3Curve", "SlerpSE2Curve")]
DEFAULT = {
    "sources": CORE,
    "workers": [("plain", 5, 200000), ("asan", 3, 20000)],
    "shrink_s": 25,
    "racy": False,              # failures depend on thread timing: one failing replay out of 20 confirms
    "thorough_factor": 5,
    "thorough_rounds": 3,
    "fuzz_s": 90,
    "fuzz_jobs": 8,
    "assumptions": ["IEEE double arithmetic, g++ 13 / clang 18, Eigen 3.4, Boost 1.83, glog 0.6 as installed",
                    "sampled, not exhaustive: a violation confined to inputs the generator does not produce stays unseen"],
}
def W(plain, asan, n=5, m=3):
    return [("plain", n, plain), ("asan", m, asan)]


# cases per worker: about 12 s of search on the 8-core reference sandbox
PROPS = {
    "C01": {"workers": W(5000000, 900000)},
    "C02": {"workers": W(5000000, 1200000)},
    "C03": {"workers": W(300000, 18000), "marathon": ("one cubic fit of 300 knots and one quintic fit of 260", "1073741823")},
    "C04": {"workers": W(3000000, 800000)},
    "C05": {"workers": W(1600000, 350000)},
    "C06": {"workers": W(900000, 150000)},
    "C07": {"workers": W(1200000, 180000)},
    "C08": {"workers": W(600000, 45000)},
    "C09": {"workers": W(1000000, 100000)},
    "C10": {"workers": W(150000, 10000)},
    "C11": {"workers": W(200000, 13000)},
    "C12": {"workers": W(90000, 14000, 4, 4)},
    "C13": {"workers": W(170000, 33000, 4, 4)},
    "C14": {"workers": W(900000, 90000, 4, 4)},
    "C15": {"workers": [("plain", 2, 4000), ("tsan", 1, 600)], "racy": True, "fuzz_s": 0,
            "marathon": ("2^32 + 2^22 draws in one process", "1073741823")},
    "C16": {"workers": W(55000, 22000)},
    "C17": {"workers": W(260000, 100000), "sources": CORE + ["curves/src/CubicHermiteE3Curve.cpp"]},
    "C18": {"workers": W(220000, 36000), "sources": HERMITE},
    "C19": {"workers": W(300000, 40000), "sources": HERMITE},
    "C20": {"workers": W(450000, 34000), "sources": HERMITE},
    "C21": {"workers": W(100000, 32000), "sources": HERMITE},
    "C22": {"workers": W(100000, 17000), "sources": HERMITE},
    "C23": {"workers": W(450000, 45000), "sources": HERMITE + ROS},
    "C24": {"workers": W(1000000, 100000)},
    "C25": {"workers": [("plain", 2, 2000), ("tsan", 3, 1000)], "racy": True, "fuzz_s": 0, "sources": HERMITE},
    "C26": {"workers": W(55000, 2800), "sources": HERMITE},
}
KINDR = "kindr is not installed: the harness uses the stand-in in stubs/kindr/Core (same conventions; it passes the repository's own CubicHermiteSE3CurveTest.cpp)"
for p in ("C18", "C19", "C20", "C21", "C22", "C23", "C25", "C26"):
    PROPS[p]["assumptions"] = DEFAULT["assumptions"] + [KINDR]
PROPS["C23"]["assumptions"] = PROPS["C23"]["assumptions"] + ["ROS is not installed: message and duration types come from stubs/"]
