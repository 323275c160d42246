#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Rotation exponential, its integrals and Jacobians equal their series",
 "For every rotation vector and every supported order, the m-th integral of the SO(3) exponential equals the defining power series to near machine precision, including vanishing and near-pi angles; the order-0 value is a proper rotation and the left/right Jacobians are its order-1 values at +w/-w. The exponential of any SE_k(3) tangent vector equals the matrix exponential of its hat matrix.",
 ["inputs"], "all rotation vectors with |w| from 0 through tiny (1e-300..1e-6) up to several turns, all orders 0..6, all tangent dimensions k=0..8",
 "There is no unit test of these functions at all beyond indirect use at a few ordinary angles; cancellation regimes and the switch between small-angle and closed forms are never sampled.",
 ["src/math/lie_group.cpp", "include/drift/math/lie_group.h"],
 [("closed forms + small-angle branch", "src/math/lie_group.cpp Gamma_SO3"), ("group exponential", "src/math/lie_group.cpp Exp_SEK3")],
 ["returned matrices of the math::lie_group functions"])

prop("C02", "SE_k(3) group laws: inverse, product, adjoint",
 "Composition, inversion and adjoint satisfy the group laws for every element and every number of vector columns: X*X^-1 = I, associativity, Ad(XY)=Ad(X)Ad(Y), and X Exp(xi) X^-1 = Exp(Ad(X) xi). The SE_k(3) container stores and returns rotation, position and velocity unchanged, and its product and inverse are the matrix product and inverse at every dimension.",
 ["inputs"], "all rotations (incl. near-pi), vectors of magnitude 0..1e4, k=1..8 columns, chains of products/inverses/setters",
 "Existing tests build one or two hand-written states; none checks an algebraic law or any dimension but the default.",
 ["src/math/lie_group.cpp", "src/math/se_k_3.cpp", "include/drift/math/se_k_3.h", "src/state/robot_state.cpp"],
 [("adjoint blocks", "src/math/lie_group.cpp Adjoint_SEK3"), ("container ops", "src/math/se_k_3.cpp"), ("state inverse", "src/state/robot_state.cpp get_Xinv")],
 ["Adjoint_SEK3", "SEK3 accessors", "RobotState::get_Xinv"])

prop("C03", "Augmented states: add/remove keeps every column, covariance and handle aligned",
 "After any sequence of adding, overwriting and removing augmented vectors in any order, each surviving vector keeps its value, its covariance and cross-covariance blocks (also with rotation, velocity, position and both biases) and its process-noise block, and the index handle registered for it designates its current column. Nothing belonging to a removed vector remains and all dimensions stay consistent.",
 ["histories"], "all interleavings of add/overwrite/remove with up to ~10 live vectors, arbitrary covariances and noise, with and without handles",
 "The tests add one vector and delete it; order-dependent index shifting, multi-vector noise blocks and handle updates need arbitrary histories.",
 ["src/state/robot_state.cpp", "include/drift/state/robot_state.h"],
 [("row/column insertion", "RobotState::add_aug_state"), ("row/column removal and handle shift", "RobotState::del_aug_state, RemoveRowAndColumn")],
 ["get_X", "get_P", "get_continuous_noise_covariance", "get_aug_state", "the registered int handle"],
 [("column_id_to_corr_map_", "per-column shared index handle", "include/drift/state/robot_state.h")])

prop("C04", "Robot state accessors round-trip; world/body views and reset agree",
 "Whatever is set on a robot state is what the matching getter returns, changing nothing else; construction from each supported argument set yields consistent dimensions, and copies are independent. For the world-centric state, world views equal the stored quantities, body views are the same quantities seen through the inverse rotation (the body matrix is the group inverse), and resetting returns exactly the freshly constructed state.",
 ["inputs", "histories"], "all states (random rotation, vectors, biases, covariances, 0..6 augmented vectors), all setter sequences including augmented biases by index and appended or removed covariance blocks",
 "Tests read back a few constants on a 5x5 state; non-interference between blocks, views and reset after augmentation are not exercised.",
 ["src/state/robot_state.cpp", "include/drift/state/robot_state.h"],
 [("block accessors", "RobotState getters/setters"), ("views", "get_world_*/get_body_*/get_Xinv"), ("reset", "RobotState::clear")],
 ["all RobotState getters"])

prop("C05", "IMU propagation integrates the strapdown equations exactly",
 "Each propagation step advances the state by the previously received IMU sample held constant over the time between the last propagated stamp and that sample's stamp, exactly solving R'=R[w], v'=R a+g, p'=v with bias, IMU-to-body rotation and lever-arm compensation applied; contact/augmented vectors and biases do not move. It consumes exactly one buffered sample per step, advances the state time to the used sample's stamp, and with no buffered sample it changes nothing and says so.",
 ["inputs", "histories"], "all IMU streams (rates 0..large, spins incl. exactly zero and tiny, non-uniform stamps), extrinsics, biases, initial states with 0..4 augmented vectors, both error conventions",
 "Tests check a handful of axis-aligned steps against hand-computed numbers with identity extrinsics and equal steps.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/math/lie_group.cpp"],
 [("closed-form mean step", "ImuPropagation::Propagate"), ("previous-sample hold", "prev_imu_measurement_")],
 ["RobotState after Propagate", "buffer size", "return value"])

prop("C06", "Covariance propagation equals the linearised error dynamics",
 "Each propagation step maps the covariance by the exact state-transition matrix of the invariant error dynamics (including gyro- and accelerometer-bias coupling when bias estimation is on) plus the discretised gyro, accelerometer, bias and contact noise, for both the left- and the right-invariant convention. With bias estimation off, biases stay decoupled from the rest of the state.",
 ["inputs", "configurations"], "all (w,a,dt), incl. zero/tiny/large spin and long steps, all prior covariances, 0..4 augmented vectors, noise settings, bias flag and both conventions",
 "No existing test looks at the covariance after a propagation with rotation; the closed-form bias terms have special cases at small spin that only generated inputs reach.",
 ["src/filter/inekf/propagation/imu_propagation.cpp"],
 [("analytic transition matrix", "ImuPropagation::StateTransitionMatrix"), ("noise discretisation", "ImuPropagation::DiscreteNoiseMatrix")],
 ["RobotState::get_P after Propagate"])

prop("C07", "Invariant update equals the reference Kalman update in every convention",
 "For any observation matrix, innovation and noise, the right- and left-invariant updates equal an independently computed Kalman update: gain, group exponential retraction on the correct side, additive bias update and covariance, with the covariance converted to and from the stored error convention. When bias estimation is disabled the biases absorb nothing through their correlation with the pose; the right-invariant update never moves the yaw gyro bias and keeps its variance fixed and decoupled.",
 ["inputs"], "all (Z,H,N) of 3..12 rows, all PSD priors with cross-correlations, 0..4 augmented vectors, bias flag, both stored conventions, both update functions",
 "Tests drive one velocity measurement through one convention and compare a few digits; cross-convention maps, the left update and bias handling are untested.",
 ["src/filter/inekf/inekf.cpp", "include/drift/filter/inekf/inekf.h"],
 [("CorrectRightInvariant", "src/filter/inekf/inekf.cpp"), ("CorrectLeftInvariant", "src/filter/inekf/inekf.cpp")],
 ["RobotState X, Theta and P after the update"])

prop("C08", "The estimate stays a valid group element with symmetric PSD covariance",
 "Along any history of propagation, velocity and contact corrections with valid sensor data, the pose part stays a proper rotation with the homogeneous structure intact, all values stay finite, covariance stays symmetric and positive semi-definite with dimensions matching the state, and nothing crashes or reads out of bounds. An information-bearing correction never increases the uncertainty of the measured quantity.",
 ["histories", "configurations"], "all interleavings of steps, contact switching patterns, sensor gaps and rates, both conventions, bias flag on/off",
 "Unit tests run one or two steps and look at the mean; loss of symmetry/definiteness and dimension drift accumulate over histories.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/inekf.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/filter/inekf/correction/velocity_correction.cpp", "src/state/robot_state.cpp"],
 [("Joseph-form update", "src/filter/inekf/inekf.cpp"), ("closed-form rotations", "src/math/lie_group.cpp")],
 ["RobotState snapshots published by the estimator"])

prop("C09", "Left- and right-invariant filters produce the same estimate",
 "Running the same sensor history through the filter configured for the left-invariant and for the right-invariant error gives the same trajectory, biases and contact positions at every step, and covariances that are each other's image under the adjoint of the state.",
 ["histories"], "all sensor histories (IMU, velocity, contacts appearing/disappearing), all configurations, compared step by step",
 "Each existing test fixes one convention; agreement is a relation between two runs that no single-run test can express.",
 ["src/filter/inekf/inekf.cpp", "src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/filter/inekf/correction/velocity_correction.cpp"],
 [("convention conversion", "Adjoint maps in CorrectRightInvariant"), ("two transition matrices", "StateTransitionMatrix"), ("two augmentation Jacobians", "LeggedKinematicsCorrection::Correct")],
 ["published states of two estimators"])

prop("C10", "Estimates are equivariant under heading and origin of the world frame",
 "Rotating the initial state about gravity and translating its origin rotates and translates every later estimate by exactly the same transform, leaves biases and body-frame quantities unchanged, and transforms the covariance correspondingly; shifting all timestamps by a constant changes nothing but the timestamps.",
 ["histories"], "all sensor histories with IMU, velocity and contact data, all yaw angles and translations, time offsets",
 "A symmetry relates two runs; tests check single runs from the origin facing forward.",
 ["src/filter/inekf/inekf.cpp", "src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/correction/velocity_correction.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp"],
 [("gravity only along z", "src/filter/base_propagation.cpp"), ("invariant innovations", "corrections")],
 ["states of two runs"])

prop("C11", "Velocity correction: frame, scale, gating and queue discipline",
 "A body-velocity correction uses exactly the oldest buffered measurement that predates the last propagated time by no more than the configured threshold: older ones are dropped, measurements not yet passed by propagation stay queued in order, and nothing else is consumed. The used measurement is scaled, rotated from sensor to body to world with configured noise, and the result equals the reference Kalman update at that stamp; otherwise the state is untouched and the call reports no correction.",
 ["histories", "configurations"], "all queue contents (too old, usable, in the future, mixed), thresholds, sensor rotation, scale, noise and prior states, both conventions",
 "Tests use one fresh measurement, identity rotation and unit scale; gating depends on the whole queue content and its relation to the state time.",
 ["src/filter/inekf/correction/velocity_correction.cpp"],
 [("gating", "VelocityCorrection::Correct"), ("initial velocity", "VelocityCorrection::initialize")],
 ["RobotState, queue content, return value"])

prop("C12", "Contact lifecycle: exactly the legs in contact are tracked, correctly",
 "After processing any leg-kinematics measurement the state carries exactly one foot position for each leg reported in contact: a new contact is placed at the forward-kinematics position with covariance from pose, encoder and kinematic noise, persisting contacts correct the state by the reference Kalman update stacked over those legs, and lifted feet are removed without disturbing the others. Measurements outside the configured time threshold are never used: too-old ones are dropped, too-new ones stay queued in order.",
 ["histories", "configurations"], "all contact on/off sequences over 1..6 legs with arbitrary kinematics and Jacobians, interleaved with propagation, stale/early stamps, both conventions",
 "The tests contain no multi-step contact sequence; alignment errors need specific touchdown/lift-off orders.",
 ["src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/state/robot_state.cpp"],
 [("contact bookkeeping", "aug_id_to_column_id_ptr_"), ("augmentation Jacobians", "LeggedKinematicsCorrection::Correct")],
 ["RobotState after Correct"])

prop("C13", "Bias and pose initialisation follow the configuration",
 "With static initialisation the initial gyro bias is the mean of the first N body-frame rates and the accelerometer bias the mean of body-frame specific force with lever-arm and gravity removed, consuming exactly those N samples; otherwise the configured priors are used and nothing is consumed. The initial pose is the IMU orientation (taken to the body frame) or identity as configured, at the origin, with velocity from each correction's latest measurement expressed in the world frame, configured covariances, and the stamp and body rate of the sample used.",
 ["inputs", "configurations"], "all IMU prefixes, N>=1, extrinsics, orientations, flags, priors and correction buffers",
 "Tests disable or zero-size the bias window with identity extrinsics.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/estimator/inekf_estimator.cpp", "src/filter/inekf/correction/velocity_correction.cpp", "src/filter/inekf/correction/legged_kinematics_correction.cpp"],
 [("bias averaging", "ImuPropagation::InitImuBias"), ("initial state", "ImuPropagation::set_initial_state, InekfEstimator::InitState, Correction::initialize")],
 ["get_estimate_gyro_bias/get_estimate_accel_bias", "estimator state after InitState", "buffers"])

prop("C14", "Estimator publishes each new estimate once, in order; reset starts afresh",
 "For every call history the estimator publishes exactly one snapshot at initialisation and one for each step in which some sensor was used, in order and equal to its state at that moment, and none otherwise; published snapshots never change afterwards. It is enabled only by initialisation, and after a reset all buffers and outputs are empty, it is disabled, and re-initialising behaves identically to a freshly built estimator (a static bias estimate already obtained is kept).",
 ["histories"], "all interleavings of feeding sensors, stepping, draining outputs, initialising and resetting, with velocity and/or legged corrections",
 "The estimator test performs one scripted run; publish-once and reset-equivalence quantify over call histories.",
 ["src/estimator/inekf_estimator.cpp", "include/drift/estimator/inekf_estimator.h"],
 [("RunOnce publish rule", "InekfEstimator::RunOnce"), ("reset", "InekfEstimator::clear")],
 ["robot state queue", "is_enabled", "get_state"])

prop("C15", "Perfect sensors yield the true trajectory",
 "If IMU, velocity and foot-kinematics data are generated without noise from a true motion starting at the initial estimate, every innovation is zero and the filter reproduces the true orientation, velocity, position and foot positions, for any noise settings and any contact schedule. From a perturbed start, velocity corrections reduce the velocity error and, combined with motion, the tilt error.",
 ["histories", "configurations"], "all piecewise-constant motions, gaits, extrinsics and noise configurations; small initial perturbations for convergence",
 "Tests contain no physically consistent synthetic trajectory; consistency across all components only shows on one.",
 ["src/filter/inekf", "src/estimator/inekf_estimator.cpp", "src/kinematics/mini_cheetah_kinematics.cpp"],
 [("whole pipeline", "InekfEstimator::RunOnce")],
 ["published states vs simulated truth"])

prop("C16", "Trajectory logs contain the published poses in order at the configured rate",
 "With logging enabled, the pose, world-velocity and body-velocity files contain, in order and exactly once, the states whose stamps are at least one logging period after the previously logged one, in TUM format (stamp, position, unit quaternion x y z w; stamp, velocity) with full double precision. With logging disabled no file is written, and after a reset logging continues in new files.",
 ["histories", "schedules"], "all estimator histories, logging rates and stamp patterns, resets at any point, any timing of the logging thread",
 "Tests disable logging; the content depends on the whole history and a concurrent thread.",
 ["src/estimator/inekf_estimator.cpp"],
 [("logger thread", "InekfEstimator::PoseLoggingThread"), ("file rotation", "InekfEstimator::clear")],
 ["log files"])

prop("C17", "Gyro filter equals the reference Kalman filter",
 "For every stream of gyro, IMU and encoder angular-velocity samples, the filtered rate output equals that of an independently computed Kalman filter on rate and bias with the configured noises, bias prior or (where IMU corrections are used) static bias initialisation, sensor rotation and planar/3-D observation mode. All other fields of an output sample are copied from the underlying IMU sample, stamped with the time of the measurement applied.",
 ["histories", "configurations"], "all sample streams, propagation by gyro or random walk, correction by one or several IMUs and/or encoder, noise settings, extrinsics, priors",
 "There is no unit test of the gyro filter at all.",
 ["src/imu_filter/imu_ang_vel_ekf.cpp", "include/drift/imu_filter/imu_ang_vel_ekf.h"],
 [("Kalman steps", "ImuAngVelEKF::AngVelFilterCorrectIMU/Encoder, GyroPropagate, RandomWalkPropagate"), ("bias init", "InitializeFilter")],
 ["filtered IMU queue"])

prop("C18", "Gyro filter processes every usable sample once, in time order, without stalling",
 "Buffered samples are each consumed exactly once and in arrival order per sensor; between an IMU and the encoder the earliest stamp goes first, and several IMUs contribute one sample each per step. Every sample recent enough for the configured threshold yields exactly one output and stale ones none (the encoder-only mode has no threshold, and in the single-IMU mode propagated by a gyro, samples the gyro has not reached yet wait); repeated stepping drains all buffers it is able to use, however samples of different sensors are interleaved or late. Encoder samples arriving before any IMU sample produce no output, and clearing empties every buffer in every sensor configuration.",
 ["histories", "fault_sequences"], "all arrival interleavings, delays and gaps over one or several IMUs and the encoder; clear at any point",
 "There is no unit test of the gyro filter at all; stalls and duplicates need specific arrival orders.",
 ["src/imu_filter/imu_ang_vel_ekf.cpp"],
 [("correction scheduling", "SingleImuCorrection/MultiImuCorrection/SingleImuAngVelCorrection/AngVelCorrection"), ("clear", "ImuAngVelEKF::clear")],
 ["input queues, filtered IMU queue"])

prop("C19", "Leg kinematics: every Jacobian is the derivative of the matching foot pose",
 "For every joint configuration and leg, the foot rotation is a proper rotation, the homogeneous transform combines that rotation and the foot position, each position, body, spatial, linear and angular Jacobian is the corresponding derivative of that transform, and only that leg's joints matter. Left/right and front/hind legs are mirror images or translates of each other, and the foot stays within the leg's reach.",
 ["inputs"], "all joint angles in [-2pi,2pi]^12, four legs",
 "The kinematics test compares positions at a few configurations with recorded numbers; derivative and symmetry laws over the joint space are not checked.",
 ["src/kinematics/robots/mini_cheetah/*.cpp"],
 [("generated closed forms", "src/kinematics/robots/mini_cheetah/{p,R,H,Jp,Jb,Js,Jvb,Jvs,Jwb,Jws}_*.cpp")],
 ["returned matrices"])

prop("C20", "Quadruped measurement maps joints and contacts to the right leg",
 "After computing kinematics, each leg's reported foot position and 3x3 Jacobian are those of that leg for the encoders given, contact flags and joint values read back as set, and recomputation after changing inputs reflects only the new inputs. The initial body velocity equals the negated foot velocity relative to the body (joint motion plus rotation) of the first leg in contact in front-right, front-left, hind-right, hind-left order, and is zero without contact.",
 ["inputs", "histories"], "all encoder/velocity/contact vectors, all 16 contact patterns, construction both by setters and by constructor, repeated reuse",
 "The existing test covers few joint vectors and contact patterns.",
 ["src/kinematics/mini_cheetah_kinematics.cpp", "src/measurement/legged_kinematics.cpp"],
 [("leg indexing", "MiniCheetahKinematics::ComputeKinematics"), ("initial velocity", "MiniCheetahKinematics::get_init_velocity")],
 ["get_kin_pos, get_J, get_contact, get_joint_state, get_init_velocity"])

prop("C21", "Measurement containers report exactly what was stored",
 "Every sensor measurement type returns its type, header, time and payload exactly as set, independently of the order of setters and of other instances, including derived magnitudes, unit vectors, rotation matrices and rigid transforms. IMU orientation input whose squared norm is not 1 within 1e-5 (including non-finite values) is rejected and leaves the stored value unchanged.",
 ["inputs", "histories"], "all payload values, setter orders, quaternions on, near and off the unit sphere incl. NaN/inf, float and double",
 "Tests set and read a few constants; two of the measurement test constructors even fail at this commit and are excluded.",
 ["include/drift/measurement/*.h", "include/drift/measurement/impl/*.cpp", "src/measurement/measurement.cpp", "src/measurement/legged_kinematics.cpp"],
 [("setters/getters", "include/drift/measurement/impl"), ("quaternion validation", "imu_impl.cpp validate_quat")],
 ["getters", "exceptions"])

prop("C22", "Wheel-odometry baseline dead-reckons the body twist",
 "The baseline pairs velocity and angular-velocity samples one to one in order, starts at the origin at the first pair's stamp, and thereafter advances orientation by the rotation increment and position by the velocity in the pre-step heading over the time between stamps. Its log lists those poses in TUM format, at most one per logging period; incomplete pairs wait without being consumed.",
 ["histories", "configurations"], "all sample streams with arbitrary stamps and unbalanced queues, logging rates",
 "The baseline has no tests.",
 ["baselines/src/wheel_odometry/wheel_odometry.cpp", "baselines/include/wheel_odometry/wheel_odometry.h"],
 [("integration", "WheelOdometry::Integrate"), ("pairing", "WheelOdometry::RunOnce")],
 ["log file", "queues"])

prop("C23", "ROS messages convert to measurements without loss or mix-up",
 "Each well-formed ROS message delivered to a subscription yields exactly one measurement in that subscription's own queue, with header, stamp (seconds plus nanoseconds) and every payload component mapped to its documented place: gyro-offset addition, differential-drive forward and yaw speeds from wheel rates, leg contacts and joints, and orientation only when present (not quite unit ones normalised; zero or non-finite ones count as absent). Odometry subscriptions output, from their second message on and once per new stamp, the translation part of the SE(3) logarithm of the motion between consecutive poses of their own source divided by the time between them. Messages whose arrays are too short for their documented layout are ignored without reading out of bounds.",
 ["inputs", "histories"], "all message contents and interleavings over several simultaneous subscriptions; stamps may repeat or go back; consecutive odometry poses further apart in time than the stamp resolution and not half a turn apart (where the logarithm is not unique)",
 "The ROS wrapper cannot even be built by the repository's test build; none of this is tested offline.",
 ["ROS/drift/src/communication/ros_subscriber.cpp", "ROS/drift/include/communication/ros_subscriber.h", "include/drift/measurement/odom.h"],
 [("callbacks", "ROSSubscriber::*Callback"), ("subscription binding", "ROSSubscriber::Add*")],
 ["measurement queues (through a stand-in ROS API)"])

prop("C24", "ROS publisher emits every published state once, faithfully and in order",
 "Each state placed in the output queue is published exactly once and in order as a pose message whose stamp, frame, position, orientation and position-then-rotation covariance are those of the state, with consecutive sequence numbers. The path message accumulates every n-th published pose, n being the integer part of the ratio of the configured pose and path rates and at least one, and carries the stamp of its last pose.",
 ["histories", "schedules", "configurations"], "all state sequences, rates and alternations of the pose and path loops",
 "The ROS wrapper is not built or tested by the repository's tests.",
 ["ROS/drift/src/communication/ros_publisher.cpp", "ROS/drift/include/communication/ros_publisher.h"],
 [("pose publishing", "ROSPublisher::PosePublish"), ("path publishing", "ROSPublisher::PathPublish")],
 ["messages captured by a stand-in ROS API"])

prop("C25", "Configuration keys mean what they say; omitted keys take their defaults",
 "For every subset of omitted optional keys in every configuration file, behaviour is identical to spelling out the documented default; each present key affects only the quantity it names, standard deviations enter as their squares, and quaternions are read as w, x, y, z. A missing or malformed file is reported by an exception, not by undefined behaviour.",
 ["configurations"], "all subsets of optional keys and values for the propagation, velocity, legged, estimator and gyro-filter configuration files",
 "Tests load two fixed files; defaults are never exercised.",
 ["src/filter/inekf/propagation/imu_propagation.cpp", "src/filter/inekf/correction/*.cpp", "src/estimator/inekf_estimator.cpp", "src/imu_filter/imu_ang_vel_ekf.cpp"],
 [("YAML loading", "constructors")],
 ["behaviour of two differently configured instances on the same data"])

prop("C26", "Concurrent sensor producers and output consumers lose and corrupt nothing",
 "While sensor threads or ROS callbacks push into the shared buffers and consumers (or the publisher) drain the outputs under the shared locks, the estimator, its logger, the gyro filter and the wheel-odometry baseline access the buffers without data races or deadlock, also across resets. Every sample is used or still queued, every published state is received once, and the result equals that of some sequential arrival order.",
 ["schedules"], "generated producer/consumer schedules with 2-6 threads, bursts and pauses, over estimator, gyro-filter and logging threads",
 "Unit tests are single threaded.",
 ["src/estimator/inekf_estimator.cpp", "src/filter/inekf/correction/*.cpp", "src/filter/inekf/propagation/imu_propagation.cpp", "src/imu_filter/imu_ang_vel_ekf.cpp"],
 [("buffer mutexes", "sensor_data_buffer_mutex_ptr_, robot_state_queue_mutex_ptr_, filtered_imu_data_buffer_mutex_ptr_")],
 ["ThreadSanitizer reports, sample accounting"])

prop("C27", "MEKF baseline: rotation conversions and update are consistent",
 "In the multiplicative-EKF baseline, converting any rotation matrix to a quaternion and back (and any non-zero quaternion to a matrix and back, up to sign) is the identity, including half-turns, without modifying the caller's data. Propagation equals the strapdown step with the exponential of the linearised error dynamics, and the velocity update an independently computed Kalman update that leaves a symmetric positive semi-definite covariance. The bias initialisation is the mean in body frame minus gravity over its window, and the readers and the trajectory writer keep every stamp, channel, position and quaternion order.",
 ["inputs"], "all rotations incl. exact half-turns about any axis, all quaternions, PSD covariances, measurement noises, IMU windows",
 "The Python baseline has no tests.",
 ["baselines/python/MEKF/MEKF.py"],
 [("conversions", "rot2quat/quat2rot"), ("update", "measurement_update"), ("bias init", "init_bias")],
 ["function results under stand-ins for rosbag/matplotlib"])

prop("C28", "Runs are deterministic and isolated; inputs are never modified",
 "Two estimators (or gyro filters, or wheel-odometry integrators) fed the same configuration and data give bit-identical outputs, whether run alone or with calls interleaved with other instances using other data. Sensor measurements handed in are not modified by filtering, except for the kinematics a leg measurement computes about itself, so the same measurement object may be shared by several consumers.",
 ["histories"], "all pairs of histories and interleavings of two or more estimator instances, shared measurement objects",
 "Tests never run two instances or re-read a consumed measurement.",
 ["src/estimator/inekf_estimator.cpp", "src/filter", "src/imu_filter/imu_ang_vel_ekf.cpp"],
 [("no global mutable state", "whole library")],
 ["published states, measurement contents before/after"])

prop("C29", "Exact sensor messages in, true poses out: the ROS programs as a whole",
 "Each shipped ROS program, with its shipped or any valid configuration, when exact in-order sensor messages of a motion that starts at rest (or, without static initialisation, at any velocity) arrive on its configured topics, publishes poses that equal the true motion since the start at their stamp, one for every IMU sample as soon as the next has arrived. Poses carry the configured frame, consecutive sequence numbers and a finite, symmetric, positive semi-definite covariance. The published path holds every n-th of these poses unchanged and in order.",
 ["histories", "configurations", "schedules"], "all motions and configurations of the six plain programs and the three with an IMU gyro filter (fetch_gyro_filter excluded; husky_gyro_filter at constant velocity), message bursts, missing velocities, contact changes",
 "No test runs a program, the subscriber and publisher with the estimator, or compares an estimate with a known motion.",
 ["ROS/drift/examples/*.cpp", "ROS/drift/src/communication/*.cpp", "src/estimator/inekf_estimator.cpp", "src/filter", "src/imu_filter", "src/kinematics", "config", "ROS/drift/config"],
 [("program", "main: subscriber, estimator loop, publisher")],
 ["published pose and path messages against the simulated truth"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
assert all(len(p["title"]) <= 80 for p in P), [p["id"] for p in P if len(p["title"])>80]
print(len(P), "properties")
