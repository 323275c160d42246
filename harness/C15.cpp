#include "common/rig.h"
namespace vf {
const char* kProperty = "C15";
const char* kRule =
    "noise-free IMU, velocity and foot data of a random true motion (rates up to 3 rad/s, gaps, mounting, lever arm, biases, any noise "
    "settings and contact schedule, garbage in stale measurements), start at the truth: every estimate must equal the truth; 1 case in 6 "
    "starts from a perturbed velocity and tilt and must converge; non-trivial: >=10 corrections (or a perturbed start).";
size_t kMaxTape = 300;
int kCaseTimeout = 60;
void per_process_setup() {}

namespace {
Ev garbage_vel(double t) {
  Ev e;
  e.kind = Ev::VEL_;
  e.t = t;
  e.a = Eigen::Vector3d(7, -9, 5);
  return e;
}
// start from an imprecise velocity and tilt
void converge(Ctx& c, bool left) {
  HistCfg k;
  k.imu.q = cfg_quat(c);
  k.imu.t = c.s.vec(0.3);
  k.imu.gs = c.s.logu(-3, -1.5);
  k.imu.as = c.s.logu(-2.5, -1);
  k.imu.gbs = k.imu.abs = 1e-3;
  k.imu.bias_update = false;
  k.imu.use_ori = true;
  k.has_vel = true;
  k.vel.std = c.s.logu(-1.7, -0.7);
  k.vel.scale = c.s.uni(0.5, 2);
  k.vel.q = cfg_quat(c);
  k.rs = 0.4;
  k.vs = 0.6;
  k.ps = 0.1;
  Eigen::Matrix3d R0 = c.s.rot();
  Bulk b(c.s.next());
  Eigen::Vector3d ev(b.sym(), b.sym(), b.sym());
  ev *= 0.6;
  double yaw_err = 0.5 * b.sym();
  Eigen::Vector3d et(b.sym(), b.sym(), 0);
  et = et.norm() < 1e-3 ? Eigen::Vector3d(0.2, 0, 0) : Eigen::Vector3d(et.normalized() * (0.05 + 0.3 * b.unit()));
  ref::V3 v0(b.sym(), b.sym(), b.sym()), up(0, 0, 9.8L);
  Truth T;
  T.start(0, ref::M3(ref::up(R0)), v0, 1);
  k.imu.bg = 0.1 * Eigen::Vector3d(b.sym(), b.sym(), b.sym());
  k.imu.ba = 0.3 * Eigen::Vector3d(b.sym(), b.sym(), b.sym());
  Rig A(k, left, Rig::write_cfg(k));
  // the wrong initial orientation is what the IMU claims
  (void)yaw_err;
  ref::M3 Rw = ref::expSO3(ref::v3(et)) * T.R[0];
  Eigen::Matrix3d Rwd;
  for (int i = 0; i < 9; ++i) Rwd(i) = double(Rw(i));
  ref::M3 Rm = rotq(k.imu.q);
  Eigen::Matrix3d Rmd;
  for (int i = 0; i < 9; ++i) Rmd(i) = double(Rm(i));
  Eigen::Quaterniond qi(Eigen::Matrix3d(Rwd * Rmd));
  qi.normalize();
  Bulk none(0);
  Ev i0 = sim_imu(k.imu, 0, ref::V3::Zero(), T.R[0].transpose() * up, 0, none);
  A.iq->push(mk_imu(0, i0.a, i0.b, q4(qi)));
  ref::V3 vb = T.R[0].transpose() * v0;
  Ev vv = sim_vel(k.vel, 0, ref::V3(vb + ref::v3(ev)), 0, none);
  A.push(vv);
  A.e->InitBias();
  A.e->InitState();
  c.check(A.e->is_enabled(), "not enabled");
  auto errs = [&](size_t i, double& v, double& tilt) {
    RobotState s = A.e->get_state();
    ref::M3 R = ref::up(s.get_rotation());
    v = double((ref::v3(R.transpose().cast<double>() * s.get_velocity()) - T.R[i].transpose() * T.v[i]).norm());
    tilt = double((R.transpose() * ref::V3(0, 0, 1) - T.R[i].transpose() * ref::V3(0, 0, 1)).norm());
  };
  double ve0, te0, ve, te;
  errs(0, ve0, te0);
  ref::V3 wph(b.sym(), b.sym(), b.sym()), aph(b.sym(), b.sym(), b.sym());
  double t = 0;
  for (int i = 1; i <= 300; ++i) {
    t = i * 0.02;
    ref::V3 w(0.5L * std::sin(1.3L * t + 3 * wph(0)), 0.5L * std::sin(0.7L * t + 3 * wph(1)), 0.4L * std::sin(t + 3 * wph(2)));
    ref::V3 a = T.R.back().transpose() * (up - 0.5L * T.v.back() + ref::V3(std::sin(2 * t + 3 * aph(0)), std::sin(1.5L * t + 3 * aph(1)), 0));
    T.advance(t, w, a);
    A.push(sim_imu(k.imu, t, w, a, 0, none));
    size_t j = i - 1;
    A.push(sim_vel(k.vel, T.t[j] - 1e-3, T.R[j].transpose() * T.v[j], 0, none));
    A.e->RunOnce();
    A.take();
  }
  errs(299, ve, te);
  c.desc << "perturbed start: velocity error " << ve0 << " -> " << ve << ", tilt error " << te0 << " -> " << te;
  c.check(ve < 0.1 * ve0 + 0.03, "velocity corrections did not reduce the body velocity error: " + num(ve0) + " -> " + num(ve));
  c.check(te < 0.3 * te0, "velocity corrections with motion did not reduce the tilt error: " + num(te0) + " -> " + num(te));
  c.tag("converge");
  c.interesting();
}
}  // namespace

void property(Ctx& c) {
  bool left = c.s.chance(1, 2);
  if (c.s.chance(1, 6)) return converge(c, left);
  HistCfg k = gen_hist_cfg(c);
  k.imu.use_ori = c.s.chance(1, 2);
  k.leg.thres = std::max(k.leg.thres, 0.02);
  k.vel.thres = std::max(k.vel.thres, 0.02);
  Eigen::Matrix3d R0 = k.imu.use_ori ? c.s.rot() : Eigen::Matrix3d::Identity();
  double t0 = c.s.chance(1, 2) ? 0 : double(c.s.range(0, 1 << 20)) / 16;
  Bulk b0(c.s.next());
  bool vel0 = k.has_vel || k.has_leg;
  ref::V3 v0 = vel0 ? ref::V3(b0.sym(), b0.sym(), 0.3 * b0.sym()) : ref::V3::Zero();
  Truth T;
  ref::M3 R0l = ref::up(R0);
  // take the nearest quaternion: that is what the sensor reports
  Eigen::Matrix3d Rmd;
  ref::M3 Rm = rotq(k.imu.q);
  for (int i = 0; i < 9; ++i) Rmd(i) = double(Rm(i));
  Eigen::Quaterniond qi(Eigen::Matrix3d(R0 * Rmd));
  qi.normalize();
  if (k.imu.use_ori) R0l = rotq(q4(qi)) * Rm.transpose();
  T.start(t0, R0l, v0, k.legs);
  Bulk none(0);
  ref::V3 up(0, 0, 9.8L);
  Rig A(k, left, Rig::write_cfg(k));
  {
    ref::V3 w0(b0.sym(), b0.sym(), b0.sym());
    Ev e = sim_imu(k.imu, t0, w0, R0l.transpose() * up, 0, none);
    A.iq->push(mk_imu(t0, e.a, e.b, q4(qi)));
    if (k.has_vel) A.push(sim_vel(k.vel, t0, T.R[0].transpose() * v0, 0, none));
    if (k.has_leg) A.push(sim_leg(T, 0, t0, 0, 0, b0));
    T.con.assign(k.legs, false);
    A.e->InitBias();
    A.e->InitState();
    c.check(A.e->is_enabled(), "not enabled");
    A.take();
  }
  c.tag(left ? "left" : "right");
  c.tag(k.imu.bias_update ? "bias" : "nobias");
  c.desc << (left ? "left" : "right") << " bias" << k.imu.bias_update << " ori" << k.imu.use_ori << " vel" << k.has_vel << " leg" << k.has_leg << ": ";
  double t = t0;
  size_t prop = 0;
  int corr = 0, contacts = 0;
  uint32_t mask = c.s.next() >> 8;
  std::vector<Ev> pend;
  int step = 0;
  while (c.s.more() && step < 120) {
    ++step;
    // one or more samples arrive
    int burst = c.s.chance(1, 6) ? c.s.range(2, 3) : 1;
    for (int i = 0; i < burst; ++i) {
      t += double(c.s.chance(1, 8) ? c.s.range(0, c.s.chance(1, 8) ? 3000 : 200) : c.s.range(1, 30)) / 1024;
      Bulk b(c.s.next());
      uint64_t m = b.next() % 5;
      L ws = m == 0 ? 0 : m == 1 ? 1e-5 : 3, as = m == 2 ? 0 : 4;
      ref::V3 w(ws * b.sym(), ws * b.sym(), ws * b.sym());
      ref::V3 a = T.R.back().transpose() * (up - 0.5L * T.v.back()) + ref::V3(as * b.sym(), as * b.sym(), as * b.sym());
      T.advance(t, w, a);
      A.push(sim_imu(k.imu, t, w, a, 0, none));
    }
    for (int i = 0; i < burst; ++i) {
      size_t idx = prop;  // the truth the filter will have propagated to
      double tp = T.t[idx];
      Bulk b(c.s.next());
      if (k.has_vel && b.next() % 3) {
        if (b.next() % 6 == 0) A.push(garbage_vel(std::max(t0, tp) - k.vel.thres - 0.01));
        A.push(sim_vel(k.vel, tp - 1.0 / 1024, T.R[idx].transpose() * T.v[idx], 0, none));
        ++corr;
        c.desc << "V";
      }
      if (k.has_leg && b.next() % 3) {
        if (b.next() % 2) mask ^= 1u << (b.next() % 6);
        if (b.next() % 8 == 0) mask = uint32_t(b.next());
        if (b.next() % 6 == 0) {
          Truth T2 = T;
          Ev g = sim_leg(T2, idx, tp - k.leg.thres - 0.01, uint32_t(b.next()), 3, b);
          A.push(g);
        }
        double dt = double(int(b.next() % 21) - 10) / 1024;
        A.push(sim_leg(T, idx, tp + dt, mask, 0, b));
        ++corr;
        c.desc << "L";
      }
      A.e->RunOnce();
      ++prop;
      c.desc << "R ";
      std::string when = "step " + std::to_string(step) + "." + std::to_string(i);
      auto o = A.take();
      c.check(o.size() == 1, when + ": not exactly one state published");
      RobotState& s = *o[0];
      double tol = 1e-9 * (1 + double(T.p[idx].norm()) + double(T.v[idx].norm()));
      expect_near(c, s.get_world_rotation(), T.R[idx], tol, when + ": orientation");
      expect_near(c, s.get_world_velocity(), T.v[idx], tol, when + ": velocity");
      expect_near(c, s.get_world_position(), T.p[idx], tol * 10, when + ": position");
      expect_near(c, s.get_gyroscope_bias(), ref::v3(k.imu.bg), 1e-9, when + ": gyro bias");
      expect_near(c, s.get_accelerometer_bias(), ref::v3(k.imu.ba), 1e-8, when + ": accelerometer bias");
      c.check(s.get_propagate_time() == tp, when + ": propagate time");
      if (k.has_leg) {
        size_t nc = 0;
        for (int l = 0; l < k.legs; ++l) nc += T.con[l];
        c.check(s.dimX() == int(5 + nc), when + ": number of feet in the state");
        // each foot in contact is one of the columns
        for (int l = 0; l < k.legs; ++l) {
          if (!T.con[l]) continue;
          ++contacts;
          double best = 1e300;
          for (int j = 5; j < s.dimX(); ++j) best = std::min(best, double((ref::v3(Eigen::Vector3d(s.get_X().block(0, j, 3, 1))) - T.foot[l]).norm()));
          c.check(best < tol * 20, when + ": foot of leg " + std::to_string(l) + " is " + num(best) + " away from the truth");
        }
      }
    }
  }
  if (corr >= 10) c.interesting();
  if (contacts) c.tag("contacts");
}
}  // namespace vf
