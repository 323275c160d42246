// Configuration records and an independent long-double reference filter (no library code).
#pragma once
#include <array>
#include <map>

#include "ref.h"
#include "tape.h"

namespace vf {
using ref::L;
inline std::string num(double x) {
  std::ostringstream o;
  o << std::setprecision(17) << x;
  std::string s = o.str();
  return s;
}
template <class V>
std::string lst(const V& v, int n) {
  std::string s = "[";
  for (int i = 0; i < n; ++i) s += (i ? ", " : "") + num(v[i]);
  return s + "]";
}
// rotation matrix of a (w,x,y,z) quaternion
ref::M3 rotq(const std::array<double, 4>& q);
struct ImuCfg {
  bool static_init = false;
  int n_init = 0;
  bool use_ori = false;
  std::array<double, 4> q = {1, 0, 0, 0};
  bool bias_update = false;
  Eigen::Vector3d t = Eigen::Vector3d::Zero();
  double gs = 0.1, as = 0.1, gbs = 0.1, abs = 0.1;
  Eigen::Vector3d bg = Eigen::Vector3d::Zero(), ba = Eigen::Vector3d::Zero();
  std::string yaml() const {
    std::ostringstream o;
    o << "settings:\n  static_bias_initialization: " << (static_init ? "true" : "false") << "\n  init_bias_size: " << n_init
      << "\n  use_imu_ori_to_init: " << (use_ori ? "true" : "false") << "\n  rotation_imu2body: " << lst(q, 4)
      << "\n  enable_imu_bias_update: " << (bias_update ? "true" : "false") << "\n  translation_imu2body: " << lst(t, 3)
      << "\nnoises:\n  gyroscope_std: " << num(gs) << "\n  accelerometer_std: " << num(as) << "\n  gyroscope_bias_std: " << num(gbs)
      << "\n  accelerometer_bias_std: " << num(abs) << "\npriors:\n  gyroscope_bias: " << lst(bg, 3)
      << "\n  accelerometer_bias: " << lst(ba, 3) << "\n";
    return o.str();
  }
};
struct VelCfg {
  double std = 0.1, thres = 0.3, scale = 1;
  std::array<double, 4> q = {1, 0, 0, 0};
  std::string yaml() const {
    return "noises:\n  velocity_std: " + num(std) + "\nsettings:\n  correction_time_threshold: " + num(thres)
           + "\n  rotation_vel2body: " + lst(q, 4) + "\n  velocity_scale: " + num(scale) + "\n";
  }
};
struct LegCfg {
  double enc = 0.01, add = 0.05, con = 0.1, thres = 0.3;
  std::string yaml() const {
    return "noises:\n  encoder_std: " + num(enc) + "\n  kinematics_additive_std: " + num(add) + "\n  contact_noise_std: "
           + num(con) + "\nsettings:\n  correction_time_threshold: " + num(thres) + "\n";
  }
};
// ---------------------------------------------------------------------------------------------------------------
// Reference filter: the same estimation problem written down independently (textbook form, long double).
struct RefFilter {
  bool left = false;   // stored covariance is that of the left-invariant error
  bool bias = false;   // bias estimation enabled
  ref::M X = ref::M::Identity(5, 5);
  ref::V th = ref::V::Zero(6);
  ref::M P = ref::M::Identity(15, 15);
  std::vector<ref::M3> augQ;  // process noise of each augmented column
  std::map<int, int> col;     // leg -> column
  L t = 0, tp = 0;
  // conditioning of the last update (for tolerances): cond(S), |K|, |P used|, |delta|
  L cond = 1, kmax = 0, pmax = 0, dmax = 0;
  ref::M3 Qg, Qa, Qbg, Qba;
  ref::M3 Ri = ref::M3::Identity();
  ref::V3 ti = ref::V3::Zero();
  static ref::V3 g() { return ref::V3(0, 0, L(-9.80)); }

  int n() const { return X.rows(); }
  int nx() const { return 3 * n() - 6; }
  void load(const ImuCfg& k) {
    bias = k.bias_update;
    auto sq = [](double s) { return ref::M3(L(s) * L(s) * ref::M3::Identity()); };
    Qg = sq(k.gs);
    Qa = sq(k.as);
    Qbg = sq(k.gbs);
    Qba = sq(k.abs);
    Ri = rotq(k.q);
    ti = ref::v3(k.t);
  }
  ref::M3 R() const { return X.block(0, 0, 3, 3); }
  ref::V3 colv(int i) const { return X.block(0, i, 3, 1); }

  // state transition of the left-invariant error over dt, biases last
  ref::M phi_left(const ref::V3& w, const ref::V3& a, L dt) const;
  void propagate(const ref::V3& gyro, const ref::V3& acc, L tm);
  // right: innovation observed as H*delta with X <- Exp(delta) X ; otherwise X <- X Exp(delta)
  void update(const ref::V& Z, const ref::M& H, const ref::M& Nn, bool right);
  void velocity(const ref::V3& vs, const VelCfg& k, L tm);
  // a processed leg measurement
  void legs(const std::vector<ref::V3>& pos, const std::vector<ref::M3>& J, const std::vector<bool>& con, const LegCfg& k, L tm);
  static void erase(ref::M& m, int at, int cnt);
  void remove(int leg);
  void add(int leg, const ref::V3& pos, const ref::M3& cov, const LegCfg& k);
};

}  // namespace vf
