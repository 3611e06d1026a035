"""Which contracts decide which property, and what is compiled for the replay."""
COMMON_ASSUMPTIONS = [
    "double arithmetic is treated as exact real arithmetic (rounding, overflow, NaN not modelled); the replay evaluates in IEEE double with a tolerance",
    "unsigned/int indices are mathematical integers; no 32-bit wrap-around (at most 2^31 states)",
    "Eigen, libstdc++, libm and OpenCV behave as the assumed contracts in vc/lib.py say",
    "no aliasing between distinct container elements; no concurrent use of one filter object",
]
EKF_AST = ["ekf/ekf", "ekf/types"]
PROPS = {
    "P01": dict(specs=[("spec_ekf", "P01")], ast=EKF_AST, harness="P01.cpp", link=["ekf"], iters=150,
                bound="random histories of up to 25 registrations, frames and predictions"),
    "P02": dict(specs=[("spec_ekf", "P02")], ast=EKF_AST, harness="P02.cpp", link=["ekf"], iters=400,
                bound="random filters with up to 7 sensors and 3 clones, one registration", assumptions=["camera rate is positive", "the given covariance is at least as large as the sensor state"]),
    "P04": dict(specs=[("spec_state", "P04")], ast=["types"], harness="P04.cpp", link=["ekf"], iters=400,
                bound="random states with 0-3 sensors of each kind and 0-3 clone lists"),
    "P07": dict(specs=[("spec_ekf", "P07")], ast=EKF_AST, harness="P07.cpp", link=["ekf"], iters=400,
                bound="random histories of up to 18 frames and predictions, every augmentation type", assumptions=["the maximum track length is at least one", "frame times do not decrease"]),
    "P09": dict(specs=[("spec_ekf", "P09")], ast=EKF_AST, harness="P09.cpp", link=["ekf"], iters=400,
                bound="random filters and times"),
    "P10": dict(specs=[("spec_ekf", "P10")], ast=EKF_AST, harness="P10.cpp", link=["ekf"], iters=300, t_limit=200,
                bound="random filters of up to 60 states", assumptions=["process noise is diagonal"]),
    "P12": dict(specs=[("spec_rot", "P12")], ast=["utility/math_helper", "utility/type_helper"], harness="P12.cpp", link=["math", "types"], iters=3000,
                bound="random rotations, angles up to 12 rad, OpenCV conversions included"),
    "P13": dict(specs=[("spec_gps", "P13")], ast=["utility/gps_helper"], harness="P13.cpp", link=["gps"], iters=4000,
                bound="random points below 400 km, poles and antimeridian included"),
    "P14": dict(specs=[("spec_gps", "P14"), ("spec_gps", "P14h")], ast=EKF_AST + ["utility/math_helper", "utility/type_helper"], harness="P14.cpp", link=["ekf"], iters=250,
                bound="random trajectories of 14 samples, both initialisation modes", assumptions=["the stored sample lists have equal length (kept by the proved contract)"]),
    "P15": dict(specs=[("spec_gps", "P15")], ast=EKF_AST + ["ekf/update/gps_updater", "ekf/update/updater", "utility/math_helper", "utility/gps_helper"], harness="P15.cpp", link=["ekf", "upd", "gpsu"], iters=250,
                bound="random filters, up to 12 samples before the reference is found", assumptions=["first-estimate Jacobians are off", "the updater's calibration flag is that of its registered sensor"]),
    "P16": dict(specs=[("spec_upd", "P16")], ast=EKF_AST + ["ekf/update/imu_updater", "ekf/update/updater", "utility/math_helper"], harness="P16.cpp", link=["ekf", "upd", "imuu"], iters=150, t_limit=300,
                bound="random filters, one to five IMUs, up to 3 measurements", assumptions=["first-estimate Jacobians are off", "the updater's calibration flags are those of its registered IMU", "the innovation covariance is invertible"]),
    "P17": dict(specs=[("spec_upd", "P17")], ast=EKF_AST + ["ekf/update/fiducial_updater", "ekf/update/updater", "utility/math_helper", "utility/type_helper"], harness="P17.cpp", link=["ekf", "upd", "fidu", "math", "types"], iters=150, t_limit=300,
                bound="random filters, up to 3 detections", assumptions=["first-estimate Jacobians are off", "the updater's calibration flags are those of its registered camera and marker"]),
    "P18": dict(specs=[("spec_msckf", "P18")], ast=EKF_AST + ["ekf/update/msckf_updater", "ekf/update/updater"], harness="P18.cpp", link=["ekf", "upd", "msckf", "math", "types"], iters=1500,
                bound="random points and lenses"),
    "P19": dict(specs=[("spec_msckf", "P19")], ast=EKF_AST + ["ekf/update/msckf_updater", "ekf/update/updater", "utility/math_helper", "utility/type_helper"], harness="P19.cpp", link=["ekf", "upd", "msckf", "math", "types"], iters=500,
                bound="random filters, cameras and tracks of 2-6 frames", assumptions=["the linear solver returns the solution of the normal equations (Eigen)", "the pose for a frame is the filter's answer (property on clone lookup)"]),
    "P21": dict(specs=[("spec_msckf", "P21")], ast=EKF_AST + ["ekf/update/msckf_updater", "ekf/update/updater", "utility/math_helper", "utility/type_helper"], harness="P21.cpp", link=["ekf", "upd", "msckf", "math", "types"], iters=500, t_limit=400,
                bound="random filters and up to 6 tracks of 2-6 frames", assumptions=["first-estimate Jacobians are off", "a track has at least two frames", "the updater's calibration flag is that of its registered camera", "the pose for a frame is the filter's answer (property on clone lookup)"]),
    "P20": dict(specs=[("spec_aug", "P20")], ast=EKF_AST, harness="P20.cpp", link=["ekf", "msckf", "upd", "math", "types"], iters=1500,
                bound="random filters with 1-6 clones and lookups before, between, at and after them", assumptions=["the requested clone list is not empty and its times increase", "frame numbers of one camera are distinct"]),
    "P03": dict(specs=[("spec_state", "P03")], ast=["types"], harness="P03.cpp", link=["types", "math"], iters=400,
                bound="random states with 0-3 sensors of each kind and 0-3 clone lists"),
    "P05": dict(specs=[("spec_matrix", "P05")], ast=["utility/math_helper"], harness="P05.cpp", link=["math"], iters=1500,
                bound="random matrices up to 9x9 and blocks up to 6x6 at every kind of position"),
    "P06": dict(specs=[("spec_matrix", "P06"), ("spec_matrix", "P07m")], ast=["ekf/ekf"], harness="P06.cpp", link=["ekf"], iters=300,
                bound="random covariances and roots of size 18-40, random filters"),
    "P08": dict(specs=[("spec_kalman", "P08")], ast=["upd", "ekf/ekf", "ekf/types"], harness="P08.cpp", link=["ekf", "upd"], iters=300,
                bound="random filters with up to 4 sensors and 3 clones, 1-30 measurement rows", assumptions=["in square-root form the measurement noise is diagonal (component-wise square root)", "the innovation covariance is invertible"]),
    "P11": dict(specs=[("spec_matrix", "P11")], ast=["utility/math_helper"], harness="P11.cpp", link=["math"], iters=800,
                bound="random and rank-deficient matrices up to 14x12"),
    "P22": dict(specs=[("spec_sim", "P22")], ast=["truth", "types"], harness="P22.cpp", link=["truth", "types", "log", "rng"], iters=2000,
                bound="random motions and times", assumptions=["the spline has at least the poses its degree needs; its duration is positive"]),
    "P23": dict(specs=[("spec_sim", "P23")], ast=["simsens", "sensors", "simtrk", "trackers", "truth", "gps", "rng", "infrastructure/data_logger", "types"], harness="P23.cpp", link=["truth", "simsens", "simtrk", "trackers", "sensors", "ekf", "upd", "gpsu", "imuu", "fidu", "msckf", "gps", "rng", "log", "math", "types"], iters=150,
                bound="random motions, sensors, reference points and cameras; error-free mode", assumptions=["the truth engine's answers are arbitrary functions of the time (property on the simulated truth)", "features and their image points come in equal number (OpenCV)"]),
    "P26": dict(specs=[("spec_sens", "P26")], ast=["sensors", "camera", "trackers", "simsens", "simcam", "simtrk", "truth", "log", "upd", "imuu", "gpsu", "fidu", "msckf", "rng", "ekf"], harness="P26.cpp",
                link=["truth", "simsens", "simcam", "simtrk", "trackers", "sensors", "camera", "ekf", "upd", "gpsu", "imuu", "fidu", "msckf", "gps", "rng", "log", "math", "types"], iters=400,
                bound="random configurations of every sensor and tracker, plain and simulated; two messages each", assumptions=["sensors are built through their own constructors", "at most 2^32 sensors and trackers are made"]),
    "P24": dict(specs=[("spec_cam", "P24")], ast=["sensors", "camera", "trackers", "simsens", "simcam", "simtrk", "truth", "log", "upd", "imuu", "gpsu", "fidu", "msckf", "rng", "ekf"], harness="P24.cpp",
                link=["truth", "simsens", "simcam", "simtrk", "trackers", "sensors", "camera", "ekf", "upd", "gpsu", "imuu", "fidu", "msckf", "gps", "rng", "log", "math", "types"], iters=150,
                bound="two simulated cameras with up to two trackers and markers each; real cameras on synthetic pictures of a moving texture and of a board",
                assumptions=["OpenCV by contract: the detector gives features without identifier, match indices are in range, marker detection and pose estimation are arbitrary functions of their inputs", "feature identifiers do not overflow", "tracks are handed a truth engine whose answers are arbitrary"]),
    "P27": dict(specs=[("spec_err", "P27")], ast=["sensors", "camera", "trackers", "simsens", "simcam", "simtrk", "truth", "log", "upd", "imuu", "gpsu", "fidu", "msckf", "rng", "ekf"], harness="P27.cpp",
                link=["truth", "simsens", "simcam", "simtrk", "trackers", "sensors", "camera", "ekf", "upd", "gpsu", "imuu", "fidu", "msckf", "gps", "rng", "log", "math", "types"], iters=250,
                bound="random sensors with random deviations; mean, variance, distribution and correlation of the normalised errors over all runs, to 6.5 standard deviations",
                assumptions=["draws at different places of a seeded std::mt19937_64 are independent; std::normal_distribution and std::uniform_real_distribution have their distribution", "the truth engine's answers are arbitrary functions of the time"]),
    "P25": dict(specs=[("spec_log", "P25")], ast=["sensors", "camera", "trackers", "simsens", "simcam", "simtrk", "truth", "log", "upd", "imuu", "gpsu", "fidu", "msckf", "rng", "ekf"], harness="P25.cpp",
                link=["truth", "ekf", "upd", "gpsu", "imuu", "fidu", "msckf", "gps", "rng", "log", "math", "types"], iters=800,
                bound="random request sequences to one logger; filters with up to 4 further sensors and 4 updates, log files read back; cyclic truth with up to 2 sensors of each kind (TruthEngine::WriteTruthData is decided only by these runs)",
                assumptions=["std::ofstream writes what it is given and can open the file", "number formatting (6 digits by default) keeps the number", "row contents beyond the named quantities (score, duration) are not specified"]),
}
import json
import os
for _l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")):
    _p = json.loads(_l)
    if _p["id"] in PROPS:
        PROPS[_p["id"]]["title"] = _p["title"]
