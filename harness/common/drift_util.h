// Builders for configuration files, measurements and estimators, and an independent long-double reference filter.
#pragma once
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <optional>

#include "drift/estimator/inekf_estimator.h"
#include "ref_filter.h"
#include "tape.h"

namespace vf {

inline std::string write_file(const std::string& name, const std::string& body) {
  std::string p = scratch_dir() + "/" + name;
  std::ofstream f(p, std::ios::trunc);
  f << body;
  return p;
}
inline std::array<double, 4> q4(const Eigen::Quaterniond& q) { return {q.w(), q.x(), q.y(), q.z()}; }

// times on a grid of 1/1024 s
inline double grid_round(double x) { return std::round(x * 1024) / 1024; }
inline std::string est_yaml(double rs, double vs, double ps) {
  return "logger:\n  enable_pose_logger: false\nstate:\n  rotation_std_value: " + num(rs) + "\n  velocity_std_value: " + num(vs)
         + "\n  position_std_value: " + num(ps) + "\n";
}

// A leg-kinematics measurement whose forward kinematics are given by the case.
struct FakeKin : measurement::LeggedKinematicsMeasurement {
  int n;
  Eigen::Matrix<double, 3, Eigen::Dynamic> pos, jac;
  Eigen::Vector3d vel0 = Eigen::Vector3d::Zero();
  Eigen::Matrix3d Wm = Eigen::Matrix3d::Zero();  // init velocity = vel0 + Wm*w
  int computed = 0;
  FakeKin(int n_, const Eigen::MatrixXd& p, const Eigen::MatrixXd& J, const std::vector<bool>& con) : n(n_), pos(p), jac(J) {
    positions_.setConstant(3, n, 0);
    jacobians_.setConstant(3, 3 * n, 0);
    encoders_.setConstant(3 * n, 1, 0);
    d_encoders_.setConstant(3 * n, 1, 0);
    contacts_.setConstant(n, 1, 0);
    for (int i = 0; i < n; ++i) contacts_(i) = con[i];
  }
  void ComputeKinematics() override {
    positions_ = pos;
    jacobians_ = jac;
    ++computed;
  }
  int get_num_legs() override { return n; }
  const Eigen::Vector3d get_init_velocity(const Eigen::Vector3d& w) override { return vel0 + Wm * w; }
};

inline ImuMeasurementPtr mk_imu(double t, const Eigen::Vector3d& w, const Eigen::Vector3d& a,
                                const std::array<double, 4>& q = {1, 0, 0, 0}) {
  auto m = std::make_shared<ImuMeasurement<double>>();
  m->set_time(t);
  m->set_angular_velocity(w(0), w(1), w(2));
  m->set_lin_acc(a(0), a(1), a(2));
  m->set_quaternion(q[0], q[1], q[2], q[3]);
  return m;
}
inline VelocityMeasurementPtr mk_vel(double t, const Eigen::Vector3d& v) {
  auto m = std::make_shared<VelocityMeasurement<double>>();
  m->set_time(t);
  m->set_velocity(v(0), v(1), v(2));
  return m;
}

// unit quaternion for a configuration file: identity, axis permutation, or general
inline std::array<double, 4> cfg_quat(Ctx& c) {
  if (c.s.chance(1, 3)) return {1, 0, 0, 0};
  return q4(c.s.quat());
}
inline double cfg_std(Ctx& c) { return c.s.chance(1, 6) ? 0.1 : c.s.logu(-3, 0.3); }
inline ImuCfg gen_imu_cfg(Ctx& c) {
  ImuCfg k;
  k.bias_update = c.s.chance(1, 2);
  k.q = cfg_quat(c);
  k.t = c.s.vec(0.5);
  k.gs = cfg_std(c);
  k.as = cfg_std(c);
  k.gbs = cfg_std(c);
  k.abs = cfg_std(c);
  k.bg = c.s.vec(0.2);
  k.ba = c.s.vec(0.5);
  return k;
}

// the library state as the reference sees it
inline void load_state(RefFilter& r, RobotState& s) {
  r.X = ref::up(s.get_X());
  r.th = ref::up(s.get_theta());
  r.P = ref::up(s.get_P());
  r.t = s.get_time();
  r.tp = s.get_propagate_time();
  r.bias = s.get_enable_imu_bias_update();
}
// relative comparison of mean and covariance; xt and pt are relative tolerances
inline void compare_state(Ctx& c, RobotState& s, const RefFilter& r, double xt, double pt, const std::string& when) {
  expect_near(c, s.get_X(), r.X, xt * (1 + double(ref::maxabs(r.X))), when + ": X");
  expect_near(c, s.get_theta(), r.th, xt * (1 + double(ref::maxabs(r.th))), when + ": biases");
  double sc = double(ref::maxabs(r.P));
  expect_near(c, s.get_P(), r.P, pt * (1e-3 + sc), when + ": P");
  expect_near(c, s.get_time(), double(r.t), 0, when + ": time");
  expect_near(c, s.get_propagate_time(), double(r.tp), 0, when + ": propagate time");
}
}  // namespace vf
