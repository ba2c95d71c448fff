NOT_APPLICABLE = []
GENERIC = "Generated-case search with shrinking; a pass is evidence over the cases counted in the evidence file, not a proof. Trusts the long-double / double reference in harness/ and Eigen's basic matrix arithmetic."

prop("C01", "Every estimated quantity has its own place in the state and covariance",
  "After any sequence of sensor registrations, predictions and camera frames, the estimated quantities (body, calibrated sensor parameters, pose clones) occupy disjoint, contiguous index ranges that exactly fill the reported state size and the covariance matrix. A newly registered sensor starts with exactly the covariance the caller gave, uncorrelated with everything else, and the covariance between all quantities that were there before is unchanged. Registering an ID that is already registered changes nothing.",
  ["histories", "configurations"], "all registration orders, IDs, calibration flags, interleavings with frames and predictions, both covariance forms",
  "ekf_test registers a fixed handful of sensors in one order and reads indices; it never looks at the covariance of quantities that were already there.",
  [EKF, TYPES], [("sensor registration", "EKF::RegisterIMU/RegisterGPS/RegisterCamera/RegisterFiducial"), ("index assignment", "EKF::RefreshIndices"), ("block insertion", "InsertInMatrix")],
  "stateful property-based testing against a by-quantity covariance model", GENERIC + " In square-root form only diagonal initial covariances are used, as the sensors provide.",
  ["EKF::m_cov", "EKF::GetStateSize", "sensor index fields"])

prop("C02", "The estimate stays finite, symmetric, positive semi-definite and normalised",
  "Through any history of registrations, predictions, camera frames and IMU, GPS, fiducial and feature-track measurements with finite values, every state value stays finite, every orientation stays a unit quaternion, and the covariance stays finite, symmetric and positive semi-definite with non-negative variances.",
  ["histories", "inputs"], "all finite measurement histories on all sensor sets and configurations, both covariance forms",
  "The unit tests run one or two updates from the default state; degradation needs correlated states, clones and many mixed updates.",
  [EKF, UPD, "src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp"],
  [("measurement update", "Updater::KalmanUpdate"), ("prediction", "EKF::PredictModel"), ("sensor updaters", "*Updater::UpdateEKF")],
  "stateful property-based testing, invariant checked after every operation", GENERIC + " Measurements are drawn around the filter's own estimate; features lie in front of the camera.")

prop("C03", "A measurement update is the optimal linear (Kalman) update",
  "For any state, covariance, measurement Jacobian, residual and noise, an update adds gain times residual to the state, where the gain is the Kalman gain, and leaves the covariance of the optimally updated estimate. An update never increases uncertainty, a zero residual leaves the estimate alone, the new covariance does not depend on the residual, and the order of the measurements does not matter.",
  ["inputs", "configurations"], "all states, covariances, Jacobians, residuals, noise levels and measurement sizes, both covariance forms",
  "updater_test checks one small example.",
  [UPD, MATH], [("gain, state and covariance update", "Updater::KalmanUpdate"), ("root update", "QR_r")],
  "property-based testing against a long-double reference (information form) and metamorphic relations", GENERIC + " Conditioning is bounded so that the reference is decisive.")

prop("C04", "Square-root and standard covariance forms give the same estimates",
  "For the same history of registrations, predictions, frames and measurements, a filter configured to keep the square root of its covariance gives the same states and the same covariance as a filter keeping the covariance itself.",
  ["histories", "configurations"], "all histories and sensor sets, diagonal initial covariances",
  "No test runs both forms on the same history.",
  [EKF, UPD, "src/ekf/update/imu_updater.cpp"], [("root prediction", "EKF::PredictModel"), ("root update", "Updater::KalmanUpdate"), ("root cloning and marginalisation", "EKF::AugmentCovariance, EKF::MarginalizeCovariance")],
  "differential stateful property-based testing (two filters in lock-step)", GENERIC)

prop("C05", "Prediction moves state and covariance by the motion model, and only then",
  "A prediction to a later time moves velocity by the acceleration without gravity (none while the body is held to be stationary), position by the new velocity and orientation by the angular rate, and the covariance by the matching transition plus each quantity's process noise in proportion to the time step; everything else is unchanged. A prediction to the past changes nothing, a prediction before gravity is known only advances time, a filter that has not predicted yet holds the pose and local frame it was configured with, and local time starts at the first measurement unless the filter was initialised with a time.",
  ["histories", "inputs"], "all states, covariances, rates, time steps (zero, negative, tiny, long), sensor sets, both covariance forms",
  "imu and ekf tests predict a few steps from rest and look at single values.",
  [EKF], [("motion model and covariance", "EKF::PredictModel"), ("process noise", "EKF::RefreshIndices"), ("time base", "EKF::CalculateLocalTime, EKF::Initialize")],
  "stateful property-based testing against a long-double reference model", GENERIC)

prop("C06", "Pose clones are exact copies, kept and dropped by the chosen policy",
  "A clone equals the body pose when it is made and its covariance with itself and everything else is that of the body pose; dropping a clone leaves the joint covariance of all the others unchanged. Per-frame policies clone each frame of their cameras and keep the newest clones up to the track length, oldest dropped first; the time and error policies clone at the first prediction and then only when the interval or the motion error is exceeded and a frame has arrived since, and drop only clones whose successor is older than a track can be.",
  ["histories", "configurations"], "all interleavings of predictions, frames of several cameras and corrections, all policies, track lengths and both covariance forms",
  "Tests clone a couple of frames and check sizes; they never check covariances or dropping in a correlated filter.",
  [EKF, MATH], [("cloning", "EKF::AugmentStateIfNeeded"), ("covariance of a clone", "EKF::AugmentCovariance"), ("dropping", "RemoveFromMatrix / EKF::MarginalizeCovariance")],
  "stateful property-based testing against a reference model of the clones", GENERIC + " The age limit of the time and error policies is accepted between track length and track length + 1 frame periods.")

prop("C07", "The pose at a frame's time is its clone or the interpolation around it",
  "Asking for the body pose of a frame of a per-frame cloned camera returns that frame's clone. Otherwise the pose is interpolated, linearly in position and along the shortest rotation in orientation, between the two clones around the requested time (between the newest clone and the current pose after it, the oldest clone before all of them), together with the matching interpolation weight and the index of the earlier clone.",
  ["histories", "inputs"], "all clone histories, policies, cameras and times",
  "One test looks up frames by ID; interpolation is never tested.",
  [EKF], [("look-up and interpolation", "EKF::GetAugState")],
  "stateful property-based testing against a reference interpolation", GENERIC)

prop("C08", "The state vector is complete, ordered, and corrections go where they belong",
  "Converting a state to a vector and setting a state from that vector restores every estimated quantity, in the order body, IMUs, GPS antennas, cameras, fiducials, clones. Adding a correction vector adds each part to exactly its own quantity, rotations being composed on the right by the rotation of their part, and leaves everything that is not estimated unchanged; the number of elements always equals the reported state size.",
  ["inputs", "configurations"], "all states with any sensors, IDs, calibration flags and clones, all correction vectors",
  "types_test uses one fixed state with every flag set.",
  [TYPES], [("vector form", "State::ToVector, State::SetState, State::GetStateSize"), ("correction", "operator+= on State and the sensor maps")],
  "property-based testing: round trips and a by-quantity reference", GENERIC)

prop("C09", "Rotation and configuration-vector conversions are exact inverses",
  "Rotation vector, quaternion, roll-pitch-yaw and Rodrigues conversions describe the same rotation for every input, including zero, tiny and half-turn rotations and either quaternion sign, and convert back to the same rotation with a rotation vector of at most half a turn. The rotation Jacobian is the derivative of the rotation with respect to its rotation vector, the cross-product matrix is skew and multiplies like a cross product, and configuration lists of any length become vectors with the same elements.",
  ["inputs"], "all rotations (all angles and axes, both quaternion signs) and all lists",
  "Tests sample a few well-conditioned angles.",
  [TYPEH, MATH], [("conversions", "RotVecToQuat, QuatToRotVec, RodriguesToQuat, EulerToQuat ..."), ("Jacobian", "QuaternionJacobian")],
  "property-based testing: round trips and a long-double reference", GENERIC)

prop("C10", "Geodetic, Earth-fixed, east-north-up and local coordinates agree",
  "Conversions between latitude-longitude-altitude, Earth-centred, east-north-up and heading-rotated local coordinates follow the WGS-84 ellipsoid, are inverses of each other to within a millimetre over the whole globe (poles and antimeridian included), and preserve distances. A reference point maps to the origin, and coordinates outside the valid range give a defined result.",
  ["inputs"], "all points within 70 km of the ellipsoid, all references, offsets and headings",
  "gps_helper_test checks a handful of points.",
  [GPSH], [("conversions", "lla_to_ecef, ecef_to_lla, lla_to_enu, enu_to_lla, enu_to_local, local_to_enu ...")],
  "property-based testing: round trips, isometry and an independent reference", GENERIC)

prop("C15", "Camera projection, distortion and their Jacobians agree with the camera model",
  "Projecting a point in front of a camera and distorting it follows the radial-tangential pinhole model with the configured coefficients, identical to the one the simulator and OpenCV use for the same intrinsics, and the projection and distortion Jacobians are the derivatives of those mappings at every point.",
  ["inputs", "configurations"], "all points, depths, intrinsics and distortion coefficients",
  "msckf_updater_test checks one point without tangential distortion.",
  ["src/ekf/update/msckf_updater.cpp", TYPES], [("mappings", "MsckfUpdater::Project, MsckfUpdater::Distort"), ("Jacobians", "MsckfUpdater::ProjectionJacobian, MsckfUpdater::DistortionJacobian"), ("OpenCV form", "Intrinsics::ToCameraMatrix, Intrinsics::ToDistortionVector")],
  "property-based testing: numeric differentiation and differential testing against OpenCV", GENERIC)

prop("C16", "Linear-algebra helpers keep what the filter's correctness rests on",
  "Projecting out a feature leaves exactly the information that does not depend on it, compressing measurements leaves the normal equations (and so the update) unchanged, the triangular sum of two roots is the root of the sum, inserting and removing blocks keeps all other entries in place, and planar alignment recovers the rotation and translation between two point sets.",
  ["inputs"], "all matrix shapes, ranks, scales and zero patterns; all planar motions and point sets",
  "math_helper_test checks tiny full-rank examples.",
  [MATH], [("nullspace projection", "ApplyLeftNullspace"), ("compression", "CompressMeasurements"), ("root sum", "QR_r"), ("blocks", "InsertInMatrix, RemoveFromMatrix"), ("alignment", "kabsch_2d, affine_angle")],
  "property-based testing: algebraic invariants and metamorphic relations", GENERIC)

prop("C12", "A GPS fix corrects the state as the optimal update for the antenna position",
  "Once the local frame is known, a GPS fix is compared with the predicted local position of the antenna (body position plus the rotated antenna offset), and every estimated quantity it is correlated with is corrected by the optimal linear update of that measurement, with the measurement sensitivity taken at the estimate and with the reported noise. The result does not depend on which other sensors are registered, and the antenna offset is corrected only when it is calibrated.",
  ["inputs", "configurations", "histories"], "all body states, antenna offsets, local frames, fixes, noise levels, sensor sets and both covariance forms",
  "gps_updater_test runs one update at the identity orientation, where frame and sign errors cancel.",
  ["src/ekf/update/gps_updater.cpp", UPD, GPSH], [("predicted antenna position and Jacobian", "GpsUpdater::PredictMeasurement, GpsUpdater::GetMeasurementJacobian"), ("update", "GpsUpdater::UpdateEKF")],
  "property-based testing against a reference update with a numerically differentiated measurement model", GENERIC)

prop("C13", "A board detection corrects the state as the optimal update for the seen pose",
  "A fiducial board detection is compared with the board pose predicted from body pose, camera extrinsics and board pose, and every estimated quantity is corrected by the optimal linear update of that relative position and orientation with the reported noise. The pose of the body at the time of the frame is the one that is corrected, and camera and board extrinsics are corrected only when they are calibrated.",
  ["inputs", "configurations", "histories"], "all body, camera and board poses, detections, noise levels, clone policies, sensor sets and both covariance forms",
  "fiducial_updater_test runs one update near the identity and looks at single values.",
  ["src/ekf/update/fiducial_updater.cpp", UPD], [("predicted board pose and Jacobian", "FiducialUpdater::PredictMeasurement, FiducialUpdater::GetMeasurementJacobian"), ("update", "FiducialUpdater::UpdateEKF")],
  "property-based testing against a reference update with a numerically differentiated measurement model", GENERIC + " The first-order (small residual) meaning of the orientation residual is used, residual rotations stay below half a turn.")

prop("C14", "An IMU sample corrects the state as the optimal update for rate and force",
  "An IMU sample taken in motion is compared with the specific force and angular rate predicted at the IMU for the sample's own time (body acceleration with gravity, lever-arm terms, mounting rotation, biases); with several IMUs every estimated quantity is corrected by the optimal linear update, with a single one the body acceleration and rate follow the sample exactly. While the body is held to be stationary, the sample corrects attitude and biases through the measured direction of gravity and the zero rate, and motion is declared exactly when the sample is statistically inconsistent with standing still.",
  ["inputs", "configurations", "histories"], "all states, mountings, biases, samples, noise levels, sensor sets, calibration flags and both covariance forms",
  "imu_updater_test samples a few axis-aligned states.",
  ["src/ekf/update/imu_updater.cpp", UPD], [("prediction and Jacobian", "ImuUpdater::PredictMeasurement, ImuUpdater::GetMeasurementJacobian"), ("stationary update", "ImuUpdater::ZeroAccelerationUpdate"), ("update", "ImuUpdater::UpdateEKF")],
  "property-based testing against a reference update with a numerically differentiated measurement model", GENERIC + " Stationary scores within 10 % of the threshold are not judged.")

prop("C17", "Feature tracks correct the state as the optimal update free of the feature",
  "A feature track corrects body pose clones and calibrated camera extrinsics by the optimal linear update of all its observed image points, after everything that depends on the unknown feature position has been removed. The predicted points follow the camera model including lens distortion; a track seen only once, behind the camera or without usable parallax changes nothing, and a track without a known true position uses the position triangulated from its observations.",
  ["inputs", "configurations", "histories"], "all clone histories, camera poses and intrinsics, features, tracks, noise levels, sensor sets and both covariance forms",
  "msckf_updater_test runs one update on one track and checks that it does not crash.",
  ["src/ekf/update/msckf_updater.cpp", UPD, MATH], [("triangulation", "MsckfUpdater::TriangulateFeature"), ("stacked prediction and Jacobians", "MsckfUpdater::UpdateEKF, MsckfUpdater::ProjectionJacobian"), ("feature removal and compression", "ApplyLeftNullspace, CompressMeasurements")],
  "property-based testing against a reference update with a numerically differentiated measurement model", GENERIC + " Triangulated cases use no lens distortion, which triangulation ignores; the pixel noise is applied as the code applies it.")

prop("C11", "The first GPS fixes give the local frame that fits them best",
  "When the local frame is not given, it is found from at least four fixes as the heading and origin that best map the fixes onto the antenna positions the filter predicted, and with exact fixes it is the true frame. It is fixed exactly when the configured criterion is met (fixes far enough apart, or position and heading deviations of the fit below their thresholds), never from fixes that do not determine the heading; until then the estimate is untouched by GPS, and then all collected fixes correct it in one update with one metre of noise.",
  ["inputs", "histories", "configurations"], "all frames (origins and headings), trajectories, antenna offsets, noise levels, thresholds, sensor sets and both covariance forms",
  "gps_updater_test initialises once from axis-aligned exact fixes.",
  [EKF, "src/ekf/update/gps_updater.cpp", MATH, GPSH], [("collecting fixes and deciding", "EKF::AttemptGpsInitialization"), ("planar alignment and deviations", "kabsch_2d, affine_angle, maximum_distance, mean_standard_deviation"), ("combined update", "GpsUpdater::MultiUpdateEKF")],
  "stateful property-based testing against a reference planar least-squares alignment", GENERIC + " Criteria are not judged within 3 m (distances are taken in whole metres) or 2 % of their thresholds.")

prop("C21", "Data logs are complete tables of the estimate, at no more than the set rate",
  "Every data log has one header naming its columns and rows with exactly one number per column. A row holds the estimate, the variances, the measurement and the time of the update it belongs to, whichever covariance form the filter keeps. A log gets its first message and then every message that does not exceed its rate counted from the first, wherever time starts.",
  ["histories", "configurations"], "all update histories, sensor sets, calibration flags, log rates and start times, both covariance forms",
  "data_logger_test only calls the logger; no test reads a log back.",
  ["src/infrastructure/data_logger.cpp", EKF, "src/ekf/update/imu_updater.cpp", "src/ekf/update/gps_updater.cpp", "src/ekf/update/fiducial_updater.cpp", "src/ekf/update/msckf_updater.cpp", "src/utility/string_helper.cpp"],
  [("writing and rate limit", "DataLogger::RateLimitedLog"), ("rows", "*Updater::UpdateEKF, EKF::LogBodyStateIfNeeded, EKF::GetVariance"), ("cells", "VectorToCommaString, EnumerateHeader")],
  "stateful property-based testing: logs read back and compared with the filter, and a reference model of the rate limit", GENERIC + " Numbers are compared to the six digits written; one board per camera.")

SIMI = "src/infrastructure/sim/"
prop("C18", "The simulated true motion is consistent with itself and with its configuration",
  "The true body motion used by simulations passes its configured poses at their times, holds its starting pose while stationary, and its velocity, acceleration and angular rate are the derivatives of its position and orientation at every time. What is set for a sensor or board is what is answered and written to the truth files for it, and generated features lie in view of the camera they are generated for.",
  ["inputs", "configurations"], "all cyclic, spline and recorded (smoothed) motions, stationary times, durations, sensor sets and times within the motion",
  "The truth engine tests compare a handful of values, most at rest or along one axis.",
  [SIMI + "truth_engine.cpp", SIMI + "truth_engine_cyclic.cpp", SIMI + "truth_engine_spline.cpp", SIMI + "truth_engine_smoother.cpp"],
  [("motions", "TruthEngineCyclic, TruthEngineSpline, TruthEngineSmoother: GetBodyPosition ... GetBodyAngularAcceleration"), ("registry and files", "TruthEngine::Set*, TruthEngine::Get*, TruthEngine::WriteTruthData"), ("features", "TruthEngine::GenerateVisibleFeatures, TruthEngine::GetFeature")],
  "property-based testing: numeric differentiation, interpolation conditions and a reference registry", GENERIC + " Known finding: the angular rate of spline motions is that of the Euler angles (existing tests fix it).")

prop("C19", "Simulated IMU and GPS measurements are the true motion seen by the sensor",
  "Without errors, simulated IMU samples are the specific force and angular rate along the path of the sensor itself plus its true biases, and simulated GPS fixes are the geodetic position of the antenna, at every period of the configured rate up to the end of the motion. With errors, the measurements scatter around these with the configured deviations, the true mounting and biases are drawn around the configured ones, and the same seed gives the same measurements.",
  ["inputs", "configurations"], "all motions, mountings, biases, rates, error levels, local frames and seeds",
  "The simulated sensor tests generate one message and compare nothing with the path of the sensor.",
  ["src/sensors/sim/sim_imu.cpp", "src/sensors/sim/sim_gps.cpp", "src/sensors/sim/sim_sensor.cpp", "src/utility/sim/sim_rng.cpp"],
  [("IMU samples", "SimIMU::GenerateMessages"), ("GPS fixes", "SimGPS::GenerateMessages"), ("times", "SimSensor::GenerateMeasurementTimes, SimSensor::ApplyTimeError"), ("errors", "SimRNG")],
  "property-based testing: differential against numeric differentiation of the sensor path and an independent geodetic reference; statistical tests of the noise", GENERIC + " Noise is judged with bounds of at least six standard errors.")

prop("C20", "Simulated camera frames show features and boards exactly as the camera sees them",
  "Without errors, each simulated image point is the projection (with lens distortion) of a true feature from the true camera pose, and exactly the features in front of the camera and inside the image are seen; each board detection is the true pose of the board relative to the true camera. Every frame up to the end of the motion has one message per tracker and board, and each feature is reported once, as a gap-free track of all its image points, when it leaves the view or reaches the maximum length, provided it reached the minimum length. With errors, points, poses, mountings and boards scatter as configured.",
  ["inputs", "configurations", "histories"], "all motions, mountings, intrinsics, rates, track lengths, features, boards, error levels and numbers of cameras",
  "The simulated tracker tests generate one message and look at its size or nothing.",
  ["src/sensors/sim/sim_camera.cpp", "src/trackers/sim/sim_feature_tracker.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp", SIMI + "truth_engine.cpp"],
  [("frames", "SimCamera::GenerateMessages"), ("image points and tracks", "SimFeatureTracker::VisibleKeypoints, SimFeatureTracker::GenerateMessage"), ("board detections", "SimFiducialTracker::GenerateMessage")],
  "stateful property-based testing: differential against an independent camera model and a reference track keeper; statistical tests of the noise", GENERIC + " Points within the numerical tolerance of the image border or camera plane are not judged.")

prop("C22", "Sensors configure the filter and feed it as their parameters and messages say",
  "Creating sensors and trackers registers exactly their configured offsets, orientations, biases, intrinsics, process noise and variances with the filter, whatever other sensors exist. Passing measurement messages to sensors has exactly the effect of predicting to the message time, cloning as configured and applying the measurement with its own noise; detections that are not visible only advance time; logs of the sensors hold those updates at the configured rate.",
  ["histories", "configurations"], "all sensor sets, parameters, calibration flags, message histories (also across sensors), clone policies, both covariance forms",
  "Sensor tests create one sensor and send it one message; they check that nothing crashes or one value.",
  ["src/sensors/imu.cpp", "src/sensors/gps.cpp", "src/sensors/camera.cpp", "src/trackers/tracker.cpp", "src/trackers/feature_tracker.cpp", "src/trackers/fiducial_tracker.cpp", "src/sensors/sim/sim_camera.cpp", "src/trackers/sim/sim_feature_tracker.cpp", "src/trackers/sim/sim_fiducial_tracker.cpp"],
  [("registration", "IMU, GPS, Camera, Tracker and FiducialTracker constructors"), ("messages", "IMU::Callback, GPS::Callback, SimCamera::Callback, SimFeatureTracker::Callback, SimFiducialTracker::Callback")],
  "differential stateful property-based testing: sensor objects against direct registrations and updates in lock-step", GENERIC + " The direct updates are judged by the other properties.")

prop("C23", "Camera images become correct board poses and feature tracks",
  "An image of a fiducial board in which its markers can be made out corrects the filter as the true pose of the board would (to some percent of its distance), and an image from which no pose can be determined changes nothing but the time. Feature points followed through images of a static scene are found where they are in the scene, also when images are down-sampled. Any sequence of images is survived with a finite estimate, and matched features are mutual, distinctive nearest neighbours, at most one per grid cell.",
  ["inputs", "histories", "configurations"], "all boards (both kinds), poses, intrinsics, textures, detectors, matchers, track lengths, image sequences (blank, noise, repeated, nearly empty), matching tables",
  "Tests use a few stored images and check no pose; no test uses an ArUco grid, down-sampling or an image without features.",
  ["src/sensors/camera.cpp", "src/trackers/feature_tracker.cpp", "src/trackers/fiducial_tracker.cpp", "src/ekf/update/msckf_updater.cpp", "src/ekf/update/fiducial_updater.cpp"],
  [("board detection", "FiducialTracker::Track, FiducialTracker::InterpolateCorners, FiducialTracker::EstimatePoseBoard"), ("feature tracking", "FeatureTracker::Track, FeatureTracker::GridFeatures, FeatureTracker::RatioTest, FeatureTracker::SymmetryTest"), ("frames", "Camera::Callback")],
  "property-based testing with rendered images: differential against the rendered truth; robustness search; reference models of the match filters", GENERIC + " Image accuracy is judged with tolerances; board drawings are the library's own.")

prop("C24", "The simulation program runs what its configuration file says",
  "A run of the simulation program logs exactly what the same filter, truth and sensors put together by hand from the documented keys of the configuration would log, for every combination of sensors, trackers, boards and truths; keys left out mean no offset, no rotation, no calibration and the stated defaults, and sections that no list names are ignored. Errors asked for (initial state, frame, mountings, biases, boards) are drawn with the configured deviations, differ between seeds, and the same seed gives the same logs. Only messages up to the configured severity are printed.",
  ["configurations", "inputs"], "all configuration files within the documented keys (also with keys left out), seeds and message orders in time",
  "No test runs the simulation program or reads a configuration file.",
  ["src/application/sim/simulation.cpp", "src/infrastructure/sim/sim_debug_logger.cpp", "config/example.yaml", "docs/parameters.md"],
  [("configuration", "main, LoadSensorParams, LoadSimSensorParams, LoadProcessNoise"), ("message order", "MessageCompare"), ("severity", "DebugLogger::Log")],
  "property-based testing of the built program with generated configuration files: differential against the same objects put together in another process; statistical tests over seeds; repeated runs", GENERIC + " The order of measurements at the very same time is not judged; runs whose result depends on the last digit of the inputs are not judged.",
  "log files and printed messages")

prop("C25", "The ROS node runs what its parameters and messages say",
  "For any parameters and any order of sensor messages, the ROS node holds the same body state, logs the same rows and gives out the same images as the same filter, sensors and trackers put together by hand from its documented parameters and fed the same measurements; parameters left out mean no offset, no rotation, no calibration and the stated defaults, and messages of unknown sensors change nothing. The node starts from the example configuration and from any with the same parameter types, subscribing to each listed sensor once. It prints exactly the messages logged at or above the set severity, word for word.",
  ["configurations", "inputs", "histories"], "all parameters of the documented names and types (also left out), message streams in and out of time order, image encodings, noise covariances",
  "The ROS tests need a ROS installation, are not part of the build here, and check no values.",
  ["src/application/ros/node/ekf_cal_node.cpp", "src/application/ros/ekf_cal_main.cpp", "src/sensors/ros/ros_camera.cpp", "src/sensors/ros/ros_camera_message.cpp", "src/sensors/ros/ros_imu_message.cpp", "src/sensors/ros/ros_gps_message.cpp", "src/utility/ros_helper.cpp", "src/infrastructure/ros/ros_debug_logger.cpp", "config/example.yaml"],
  [("parameters", "EkfCalNode::Initialize, EkfCalNode::LoadSensors, EkfCalNode::Get*Parameters"), ("messages", "RosImuMessage, RosGpsMessage, RosCameraMessage, RosToEigen"), ("callbacks", "EkfCalNode::ImuCallback, EkfCalNode::CameraCallback, EkfCalNode::GpsCallback"), ("severity", "DebugLogger::Log")],
  "property-based testing of the node, compiled against stand-ins for the ROS headers: differential against the same objects put together in another process; model of the message log", GENERIC + " ROS is not installed: middleware, scheduling and quality of service are not covered, only the node's own code in one thread. The encoding label of the images given out is not judged.",
  "published states and images, log files and printed messages")

prop("C26", "A Monte-Carlo evaluation runs exactly the configured simulations",
  "Evaluating a configuration runs the simulation program once for each of its runs, with the configuration changed only in the run number, seed and the options given (time, number of runs), each with its own log directory at the place where statistics and reports look for it. Seeds of the runs differ, are the same when repeated, and the input file is not changed. Without runs to vary, the configuration itself is run once.",
  ["configurations", "inputs"], "all configurations, numbers of runs, seeds, options, numbers of jobs, input paths and sets of inputs",
  "No test runs the evaluation scripts.",
  ["eval/run.py", "eval/evaluate.py", "eval/input_parser.py", "eval/utilities.py"],
  [("configurations of the runs", "generate_mc_from_yaml, generate_mc_lists"), ("execution", "run_sim, add_jobs"), ("options", "InputParser")],
  "property-based testing (Hypothesis): reference model of the expanded runs; recorded calls of a stand-in for the simulation program", "The simulation program is replaced by a recorder of its arguments.",
  "files written and programs started")

prop("C27", "Statistics and reports state the errors of the logged estimates",
  "Statistics of a set of runs give mean and deviation over the runs of the root-mean-square error of each estimate (orientations as rotations in radians) against the truth at the time of the estimate, of durations and of state sizes, for every sensor of every run. Report figures draw, for each run, exactly the logged values, the errors in the unit of the axis, and errors squared over their variances with the bounds of their number of states; histograms count every update. Rows that are incomplete are left out.",
  ["inputs", "histories"], "all logs: numbers of runs, sensors and rows, calibrated or not, errors, signs of quaternions, rows cut off or with missing numbers; logs of simulations",
  "No test runs the evaluation scripts.",
  ["eval/stats.py", "eval/report.py", "eval/utilities.py", "eval/tab_body.py", "eval/tab_imu.py", "eval/tab_msckf.py", "eval/tab_fiducial.py", "eval/tab_gps.py"],
  [("statistics", "calc_sim_stats"), ("figures", "plot_sim_results, tab_*.get_tab"), ("errors", "interpolate_error, interpolate_quat_error"), ("logs", "find_and_read_data_frames")],
  "property-based testing (Hypothesis): logs made with chosen errors, and logs of the real simulation; differential against an independent reading of the logs", "pandas and bokeh are not installed: stand-ins read the tables and record what is drawn. Board errors are judged for one board only; angles above 0.3 rad are not judged in figures.",
  "stats.txt and drawn figures")
