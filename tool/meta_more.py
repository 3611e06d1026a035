prop("P01", "Indices, sizes and covariance agree with the stacked-state layout at all times",
     "After any sequence of sensor registrations, frames and predictions, each sub-state's index is its place in the documented layout (body, IMU, GPS, camera, fiducial, clones; identifier order). Size counters, starts and the vector length report that layout, covariance and process noise are square of its size, and each stability sits on its own diagonal entries. A sensor's size follows its calibration flags.",
     ["inputs", "histories", "configurations"], "for every number of sensors of each kind, every identifier and flag, any history and both covariance forms",
     "ekf_test.cpp registers one or two sensors in one order and looks at a few sizes.",
     ["src/ekf/ekf.cpp", "src/ekf/ekf.hpp", "src/ekf/types.cpp"], [{"name": "RefreshIndices, Register*, AugmentStateIfNeeded", "where": "src/ekf/ekf.cpp"}], COMMON,
     state=[{"name":"State (members, indices, sizes)","where":"src/ekf/types.hpp"},{"name":"EKF::m_cov, m_process_noise","where":"src/ekf/ekf.hpp"}], observe=["indices, sizes and matrix dimensions after each operation"])
prop("P02", "Registering a sensor adds exactly that sensor and leaves the rest alone",
     "Registering a sensor with a new identifier stores it as given, puts its covariance (its root in square-root form) at the sensor's own place with zero cross terms, and keeps every other state and covariance entry. A known identifier changes nothing. Only cameras update the frame periods, and the first camera becomes the primary one.",
     ["inputs", "configurations"], "for every filter, kind of sensor, identifier, flags and covariance, in both covariance forms",
     "ekf_test.cpp registers fixed sensors in ascending order and checks counts.",
     ["src/ekf/ekf.cpp"], [{"name": "RegisterIMU, RegisterGPS, RegisterCamera, RegisterFiducial", "where": "src/ekf/ekf.cpp"}], COMMON,
     observe=["state and covariance after the registration"])
prop("P04", "State vectors list each estimated quantity once; reading back restores it",
     "The stacked vector of a state holds each estimated quantity at its own index in the documented order (orientations as rotation vectors) and has the reported size. Setting a state from a vector takes each quantity from its own entries, leaves quantities that are not estimated alone, and so restores the state the vector came from.",
     ["inputs", "configurations"], "for every set of sensors, flags and clones and every value",
     "types_test.cpp reads back one fixed state per type.",
     ["src/ekf/types.cpp"], [{"name": "ToVector, SetState, GetStateSize", "where": "src/ekf/types.cpp"}], COMMON,
     observe=["vector and restored state"])
prop("P07", "The sliding window keeps the latest clones and drops only the oldest",
     "Frames are cloned as the augmentation setting says: all, only the primary camera's, or, by time or error, one per need after a frame arrived. A clone holds the current pose, time and frame. A camera's list never exceeds the maximum track length; when it would, exactly the oldest clone goes, and by time or error only clones older than the track duration go. Other clones, sensors and their covariance stay as they were.",
     ["inputs", "histories", "configurations"], "for every history of frames and predictions, every augmentation setting and both covariance forms",
     "ekf_test.cpp augments a fixed number of times with one camera and checks sizes.",
     ["src/ekf/ekf.cpp"], [{"name": "AugmentStateIfNeeded (both)", "where": "src/ekf/ekf.cpp"}],
     COMMON + " The time- and error-based maintenance is decided by the bounded evaluation where its loop is not discharged.",
     state=[{"name":"m_state.aug_states","where":"src/ekf/types.hpp"}], observe=["clones and covariance after each frame or prediction"])
prop("P09", "Prediction moves the mean by the motion model, and never back in time",
     "Predicting to a later time adds elapsed time times acceleration (minus gravity; none while stationary) to the velocity, then elapsed time times velocity to the position, and rotates the orientation by angular rate times elapsed time. All else in the state is kept. Before gravity is known only the clock moves. A time in the past changes nothing. Local time counts from the first time seen.",
     ["inputs", "histories", "configurations"], "for every state, time, flags and both covariance forms",
     "ekf_test.cpp predicts once or twice from fixed states.",
     ["src/ekf/ekf.cpp"], [{"name": "PredictModel, CalculateLocalTime", "where": "src/ekf/ekf.cpp"}], COMMON, observe=["state and time after the prediction"])
prop("P10", "Prediction propagates the covariance by the transition and the process noise",
     "Predicting by dt turns the covariance P into F P F' plus the process noise over dt, where F adds dt times velocity to position: F(P+Q dt)F' in covariance form, F P F'+Q dt as the product of the new upper triangular root in square-root form, cross terms with sensors and clones included. It stays symmetric, of the same size and positive semi-definite; before gravity is known it is kept.",
     ["inputs", "configurations"], "for every covariance or root of any size, process noise and elapsed time",
     "No test compares a predicted covariance with the propagation equations.",
     ["src/ekf/ekf.cpp"], [{"name": "PredictModel, GetStateTransition", "where": "src/ekf/ekf.cpp"}], COMMON, observe=["covariance after the prediction"])
prop("P12", "Rotation vectors, quaternions and yaw-pitch-roll convert consistently",
     "Rotation vectors become unit quaternions turning by their length about their direction; a quaternion becomes the vector of the same rotation with angle at most pi. Yaw-pitch-roll is yaw about z, then pitch, then roll. The rotation Jacobian is the right Jacobian of the rotation vector; the cross-product matrix of a vector multiplies as the cross product. Container and OpenCV conversions keep values and order.",
     ["inputs"], "for every rotation, quaternion sign and vector, zero and half turns included",
     "type_helper_test.cpp checks one rotation per function.",
     ["src/utility/type_helper.cpp", "src/utility/math_helper.cpp"], [{"name": "RotVecToQuat, QuatToRotVec, StdToEig*, EigVecToQuat", "where": "src/utility/type_helper.cpp"}, {"name": "SkewSymmetric, QuaternionJacobian", "where": "src/utility/math_helper.cpp"}],
     COMMON + " OpenCV conversions and the composed round trip are decided by the bounded evaluation.", observe=["returned vector, quaternion or matrix"])
prop("P13", "Geodetic, ECEF, ENU and local coordinates convert by the WGS-84 model",
     "Latitude, longitude and height become the WGS-84 ECEF point; the ECEF point goes back to the same latitude, longitude and height. ENU coordinates of a point are its ECEF offset from the reference rotated to east, north and up at the reference, and both directions undo each other. The local frame is ENU turned by the heading about the vertical, undone by the opposite conversion.",
     ["inputs"], "for every point, reference and heading, poles and the antimeridian included",
     "gps_helper_test.cpp checks a few points near one reference.",
     ["src/utility/gps_helper.cpp"], [{"name": "lla_to_ecef, ecef_to_lla, ecef_to_enu, enu_to_ecef, *_to_local, local_to_*", "where": "src/utility/gps_helper.cpp"}],
     COMMON + " Latitude and height of the ECEF inverse are decided by the bounded evaluation (closed-form quartic).", observe=["converted coordinates"])
prop("P14", "The GPS reference is the best fit of the fixes to the track, set once",
     "Before the reference is known each fix is stored with the local position at its time. With enough samples the reference and heading are the planar least-squares fit of the fixes to those positions, accepted only when the error bounds of the chosen mode are met; heading and reference never change afterwards. Means, deviations and fit are the exact formulas for any number of samples.",
     ["inputs", "histories", "configurations"], "for every sequence of fixes and positions and every setting of the bounds",
     "math_helper_test.cpp and gps_updater_test.cpp fit one fixed point set.",
     ["src/ekf/ekf.cpp", "src/utility/math_helper.cpp"], [{"name": "AttemptGpsInitialization", "where": "src/ekf/ekf.cpp"}, {"name": "kabsch_2d, average_vectors, mean_standard_deviation", "where": "src/utility/math_helper.cpp"}],
     COMMON + " The largest pairwise distance is decided by the bounded evaluation.", state=[{"name": "GPS sample lists, reference, heading", "where": "src/ekf/ekf.hpp"}], observe=["reference, heading and flag after each fix"])
prop("P15", "A GPS fix corrects the filter with its antenna's residual and Jacobian",
     "A fix after the reference is known predicts to its time and makes one Kalman update with residual fix (in local frame) minus antenna position, Jacobian identity for body position, the lever arm's rotation block for orientation and the body rotation for a calibrated antenna, zero elsewhere. Before, it only stores the sample; the fix that finds the reference applies all stored samples at once. Other sensors' Jacobian columns are zero.",
     ["inputs", "histories", "configurations"], "for every filter state, antenna, flags, fix and number of stored samples",
     "gps_updater_test.cpp makes a few fixed updates and checks nothing about the Jacobian.",
     ["src/ekf/update/gps_updater.cpp"], [{"name": "PredictMeasurement, GetMeasurementJacobian, UpdateEKF, MultiUpdateEKF", "where": "src/ekf/update/gps_updater.cpp"}],
     COMMON + " First-estimate mode is not claimed.", observe=["residual, Jacobian, state and covariance after a fix"])

prop("P16", "An IMU measurement corrects or drives the filter by the documented model",
     "Until motion is detected a measurement matching gravity and biases within the chi-squared bound predicts to its time, makes one Kalman update with the gravity and bias residual and Jacobian, and sets the body at rest; motion once detected stays detected. Afterwards a single IMU drives the prediction with its bias-free rotated measurement; several make a Kalman update with the model's prediction and Jacobian, then predict.",
     ["inputs", "histories", "configurations"], "for every filter state, IMU pose and biases, flags, measurement and noise, in both covariance forms",
     "imu_updater_test.cpp feeds a few fixed measurements and one Jacobian without lever arm motion.",
     ["src/ekf/update/imu_updater.cpp"], [{"name": "PredictMeasurement, GetMeasurementJacobian, GetZeroAccelerationJacobian, ZeroAccelerationUpdate, UpdateEKF", "where": "src/ekf/update/imu_updater.cpp"}],
     COMMON + " First-estimate mode is not claimed.", state=[{"name": "m_initial_motion_detected", "where": "src/ekf/update/imu_updater.hpp"}], observe=["state and covariance after a measurement", "predicted measurement and Jacobians"])
prop("P17", "A marker detection corrects the filter with the marker's relative pose",
     "A fiducial detection predicts to its time and makes one Kalman update: residual measured minus predicted position of the marker in the camera, and the rotation vector from predicted to measured orientation. The Jacobian is the derivative of that pose by body pose, calibrated camera pose and estimated marker pose, zero in all other columns. The noise is the detection's reported error per axis.",
     ["inputs", "configurations"], "for every filter state, camera and marker pose, flags and detection, in both covariance forms",
     "fiducial_updater_test.cpp makes one fixed update.",
     ["src/ekf/update/fiducial_updater.cpp"], [{"name": "PredictMeasurement, GetMeasurementJacobian, UpdateEKF", "where": "src/ekf/update/fiducial_updater.cpp"}],
     COMMON + " First-estimate mode is not claimed.", observe=["state and covariance after a detection", "predicted pose and Jacobian"])

prop("P18", "The lens model and its derivatives agree for every image point",
     "A point in front of the camera is projected to its horizontal and vertical offset over its depth, and distorted by the radial and tangential terms of the lens. The two Jacobians used in the camera update are the exact derivatives of projection and of distortion, at every point and for every lens.",
     ["inputs", "configurations"], "for every point off the image plane and every set of lens coefficients",
     "msckf_updater_test.cpp compares the derivatives at two points with finite differences.",
     ["src/ekf/update/msckf_updater.cpp"], [{"name": "Project, Distort, ProjectionJacobian, DistortionJacobian", "where": "src/ekf/update/msckf_updater.cpp"}],
     COMMON, observe=["image points", "Jacobian entries"])
prop("P19", "Triangulation finds the point closest to every viewing ray of a track",
     "A feature is located from its whole track: the solved point is the least-squares intersection of the viewing rays of all frames, each taken from the camera's pose in that frame and the camera's intrinsics, expressed in the local frame. It is accepted exactly when its depth in the first frame is within the distance limits. With simulated positions switched on the simulated position is returned. The filter is not changed.",
     ["inputs", "configurations"], "for every track length, camera pose, mounting and intrinsics",
     "msckf_updater_test.cpp has no triangulation test with checked output.",
     ["src/ekf/update/msckf_updater.cpp"], [{"name": "TriangulateFeature", "where": "src/ekf/update/msckf_updater.cpp"}],
     COMMON + " Viewing rays are those of the measured image point without undoing lens distortion, as the code documents.", observe=["returned position and acceptance"])
prop("P21", "Feature tracks correct the filter with every frame's reprojection error",
     "An update with feature tracks predicts to their time. Every triangulated feature adds, for each frame of its track, the measured minus the predicted image point with its derivative by the clones, the body, the calibrated camera and the feature; the feature is projected out and the rows of all features are stacked, nothing else. One Kalman update with pixel noise of at least half a pixel follows; without usable feature the filter is only predicted.",
     ["inputs", "configurations", "histories"], "for every filter, number and length of tracks, clone interpolation and flags, in both covariance forms",
     "msckf_updater_test.cpp runs one update and checks little of its result.",
     ["src/ekf/update/msckf_updater.cpp"], [{"name": "UpdateEKF", "where": "src/ekf/update/msckf_updater.cpp"}],
     COMMON + " First-estimate mode is not claimed.", observe=["state and covariance after an update with tracks"])

prop("P20", "Looking up a past pose returns the right clone or interpolation",
     "With own clones, a camera's frame returns exactly the clone stored for that frame. With shared clones, a time between two neighbouring clones returns the pose interpolated between just those two, linearly in position and by slerp in orientation, with the fraction of elapsed time and the first clone's place in the state; before the oldest clone the oldest is returned, after the newest the pose between it and the current body. The filter is not changed.",
     ["inputs", "configurations"], "for every number of clones, times, frame numbers and augmentation type",
     "ekf_test.cpp looks up a handful of frames.",
     ["src/ekf/ekf.cpp"], [{"name": "GetAugState", "where": "src/ekf/ekf.cpp"}],
     COMMON, observe=["returned pose, fraction and state place"])

prop("P22", "The simulated truth is one consistent motion",
     "At every time the simulated truth engines report one motion: velocity and acceleration are the exact derivatives of the position; for the cyclic engine orientation is yaw-pitch-roll of its angles, and body rate and angular acceleration are that orientation's body-frame rate and its derivative. Cyclic position and angles start at their offsets and follow raised cosines. Before the start the body rests: no rates, orientation and position of the start.",
     ["inputs", "configurations"], "for every frequency, amplitude, offset, start, duration and time",
     "truth_engine_*_test.cpp compare a few values at a few fixed times.",
     ["src/infrastructure/sim/truth_engine_cyclic.cpp", "src/infrastructure/sim/truth_engine_spline.cpp"],
     [{"name": "GetBody*", "where": "src/infrastructure/sim/truth_engine_cyclic.cpp"}, {"name": "GetBodyPosition, GetBodyVelocity, GetBodyAcceleration", "where": "src/infrastructure/sim/truth_engine_spline.cpp"}],
     COMMON + " For the spline engine only the position, velocity and acceleration inside its duration are claimed (its angular rates are Euler-angle derivatives; it rests at the origin before the start).", observe=["returned pose, rates and accelerations"])
prop("P23", "Simulated sensors report exactly what the truth implies",
     "Without simulated errors a sensor gives one measurement per period from time zero, as many as fit into the duration, with its own identifier. The IMU reports the specific force and rate at its mounting point and in its axes, GPS the geodetic place of its antenna, a marker its pose in the camera, the feature tracker exactly the features in front of the camera and inside the image, each once, at their image point. Covariances are the configured errors squared.",
     ["inputs", "configurations"], "for every true motion, mounting, rate, duration, heading and feature set",
     "sim_*_test.cpp generate one set of messages and look at a few numbers.",
     ["src/sensors/sim/sim_imu.cpp", "src/sensors/sim/sim_gps.cpp", "src/sensors/sim/sim_sensor.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp", "src/trackers/sim/sim_feature_tracker.cpp"],
     [{"name": "GenerateMessages, GenerateMeasurementTimes, GenerateMessage, FilterInvisiblePoints", "where": "src/sensors/sim, src/trackers/sim"}],
     COMMON + " Projection of the features to the image is OpenCV's; which of them are reported is proved, their image points are evaluated. Simulated errors are P27's.", observe=["generated messages"])

prop("P26", "Sensors and markers start in the filter exactly as configured",
     "A new IMU, GPS, camera or marker registers once with the filter, under its own identifier, with the configured flags, poses, biases, stabilities and intrinsics, and its variances as diagonal covariance of what is calibrated (IMU and camera at least 1e-6); its updater has the same identifiers and flags. Every IMU and GPS message makes one update with the message's values. Identifiers are never given twice. Without errors a simulated sensor's truth is its configuration, and the truth reports what was set last.",
     ["inputs", "configurations", "histories"], "for every configuration of every sensor and every message",
     "The tests construct a few sensors and check little of what reaches the filter.",
     ["src/sensors/imu.cpp", "src/sensors/gps.cpp", "src/sensors/camera.cpp", "src/trackers/fiducial_tracker.cpp", "src/trackers/feature_tracker.cpp", "src/sensors/sensor.cpp", "src/trackers/tracker.cpp", "src/sensors/sim/sim_imu.cpp", "src/infrastructure/sim/truth_engine.cpp"],
     [{"name": "constructors of IMU, GPS, Camera, FiducialTracker, FeatureTracker and their simulated kinds; IMU::Callback, GPS::Callback; TruthEngine setters and getters", "where": "src/sensors, src/trackers, src/infrastructure/sim/truth_engine.cpp"}],
     COMMON + " The marker's pose covariance and the antenna's are taken as given, not bounded.", observe=["registered state and covariance", "state after a message", "reported truth"])

prop("P24", "Camera frames reach the filter once, and feature tracks end once",
     "A frame with a picture moves the filter to its time, adds a clone under the camera's identifier and the frame's number, then goes once to every tracker, then once to every marker; frame numbers are never reused. A marker makes one update exactly when it is seen with a valid pose. A track gains one point per frame its feature is found in; it ends when the feature is not in the latest frame or it has the maximum length. Ended tracks of at least the minimum length are handed over once, whole; shorter ones are dropped, others kept.",
     ["inputs", "histories", "configurations"], "for every sequence of frames, every set of detected and matched features, every track length limit",
     "The tests feed a few blank or identical pictures; simulated messages are only counted.",
     ["src/sensors/camera.cpp", "src/sensors/sim/sim_camera.cpp", "src/trackers/feature_tracker.cpp", "src/trackers/fiducial_tracker.cpp", "src/trackers/sim/sim_feature_tracker.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp"],
     [{"name": "Callback, GenerateMessages, Track, GenerateMessage, AddTracker, AddFiducial", "where": "src/sensors, src/trackers"}],
     COMMON + " What OpenCV detects and matches is assumed arbitrary. When two consecutive pictures do not both have features, the real tracker ends no tracks until the next pair that has.", observe=["filter state after a frame", "tracker messages", "kept tracks"])

prop("P25", "Log files hold what their header names, in every row",
     "A log file exists only when logging is enabled and a row was due. It starts with one header naming its columns; every row has one field per column, and the field under a name is that quantity: time, pose, biases, state variances, measurement, residual, reference, counts of the update that wrote it. Rows are written in order. With a log rate the first row is written, then a row only while fewer than rate times the elapsed time were; rate zero is unlimited. The simulated truth's files follow the same rule.",
     ["inputs", "histories", "configurations"], "for every filter, sensor set, calibration flags, log rate and sequence of rows",
     "data_logger_test.cpp writes a row or two and asserts nothing; no test reads a log file back.",
     ["src/infrastructure/data_logger.cpp", "src/utility/string_helper.cpp", "src/ekf/ekf.cpp", "src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp", "src/infrastructure/sim/truth_engine.cpp"],
     [{"name": "DataLogger::Log, RateLimitedLog; headers in the constructors of EKF and the updaters; rows in their updates; TruthEngine::WriteTruthData", "where": "src/infrastructure, src/ekf"}],
     COMMON + " WriteTruthData is evaluated on the compiled code only (bounded). Number formatting, the motion score and the durations are not specified; marker rows are not rate limited.", observe=["contents of the log files"])

prop("P27", "Simulated errors are exactly the configured ones, and independent",
     "With simulated errors every measurement is what the truth implies, plus the true bias, plus the configured deviation times a new standard normal draw for each axis. Measurements follow at one period from a random start within the first period, each shifted by the time error; image points are rounded to the pixel. A sensor's true mounting and biases are the configured ones plus configured deviation times a draw, orientations turned by a random rotation vector; the same seed gives the same sequence.",
     ["inputs", "configurations", "histories"], "for every sensor, deviation, seed, and number of measurements",
     "sim_rng_test.cpp looks at mean and deviation of one sequence; the sensor tests ignore the errors.",
     ["src/utility/sim/sim_rng.cpp", "src/sensors/sim/sim_sensor.cpp", "src/sensors/sim/sim_imu.cpp", "src/sensors/sim/sim_gps.cpp", "src/sensors/sim/sim_camera.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp", "src/trackers/sim/sim_feature_tracker.cpp"],
     [{"name": "NormRand, UniRand, VecNormRand, QuatNormRand, SetSeed; GenerateMeasurementTimes, GenerateMessages, GenerateMessage; constructors", "where": "src/utility/sim, src/sensors/sim, src/trackers/sim"}],
     COMMON + " The standard library's generator and distributions are assumed; random rotations are claimed for components below a right angle (larger ones are cut).", observe=["generated messages", "true mounting and biases", "random numbers"])

prop("P31", "The filter converges and its covariance matches its actual error",
     "In simulation and in the field the estimate approaches the true pose and calibration, and the reported covariance bounds the actual error statistically.",
     ["inputs", "histories", "configurations"], "for every motion that makes the calibration observable, and every noise of the assumed distribution",
     "The tests never compare an estimate with the truth over a run.", ["src/ekf/ekf.cpp", "src/ekf/update/updater.cpp"], [{"name": "whole filter", "where": "src/ekf"}], COMMON)
NA.append(("P31", "Statistical: it quantifies over probability distributions of noise and over the error of linearising, and depends on observability of the motion; it is not a postcondition, an invariant or a lemma over the functions. The exactness of each step it rests on (prediction, Jacobians as derivatives, Kalman update) is claimed by P08-P10 and P15-P21."))
prop("P32", "Features and markers in pictures are found where they are",
     "Key points, descriptors, matches and marker corners taken from a picture belong to the same physical points, and a marker's pose is that of the marker seen.",
     ["inputs", "configurations"], "for every picture, detector, descriptor and matcher", "The tests use blank or identical pictures.",
     ["src/trackers/feature_tracker.cpp", "src/trackers/fiducial_tracker.cpp"], [{"name": "OpenCV detectors", "where": "src/trackers"}], COMMON)
NA.append(("P32", "Decided by OpenCV's algorithms on pixels, which no contract on this project's functions can state (what a picture shows is not formal); the project's own bookkeeping of whatever OpenCV reports is claimed by P24."))
prop("P33", "The ROS nodes hand every received message to the right sensor once",
     "Each message on a subscribed topic makes one callback of the sensor configured for that topic, with its time and values, whatever the interleaving of callbacks; published poses are the filter's.",
     ["schedules", "histories", "configurations"], "for every interleaving of messages", "There is no test of the nodes in the build.", ["src/application"], [{"name": "nodes", "where": "src/application"}], COMMON)
NA.append(("P33", "The nodes need ROS 2 headers and an executor that are not installed here, so they can be neither parsed, compiled nor run; what they call (sensor callbacks) is claimed by P24 and P26."))
prop("P34", "Evaluation reports and plots show the logged runs",
     "The reports, plots and statistics made from log files show each run's errors computed from the logged truth and estimate.",
     ["inputs"], "for every set of log files", "The reports have no tests.", ["eval"], [{"name": "report scripts", "where": "eval"}], COMMON)
NA.append(("P34", "Python with numpy, bokeh and spline libraries; there is no deductive verifier for it here, and the plots' content is not formal. The format of the log files they read is claimed by P25."))
