// Shared by C05 (mean, queue discipline) and C06 (covariance): drives ImuPropagation step by step against the reference.
#pragma once
#include "drift_util.h"
namespace vf {
size_t kMaxTape = 400;
int kCaseTimeout = 20;
void per_process_setup() {}

struct Sample {
  double t;
  Eigen::Vector3d w, a;
};
// wild: outages of minutes, samples going back in time (mean only), far away and fast
static double gen_dt(Ctx& c, bool wild, bool cov) {
  if (wild && c.s.chance(1, 2)) {
    if (!cov && c.s.chance(1, 3)) return -c.s.logu(-6, 0);
    return cov ? c.s.logu(0, 1) : c.s.logu(0, 2.5);
  }
  switch (c.s.pick(8)) {
    case 0: return 0;
    case 1: return c.s.logu(-9, -3);
    case 2: return c.s.uni(0, 1);
    case 3: return 0.005;
    default: return c.s.logu(-3, -0.5);
  }
}
static Eigen::Vector3d gen_rate(Ctx& c) {
  switch (c.s.pick(6)) {
    case 0: return Eigen::Vector3d::Zero();
    case 1: return c.s.dir() * c.s.logu(-9, -2);
    case 2: return c.s.dir() * c.s.uni(0, 50);
    default: return c.s.dir() * c.s.logu(-2, 1.3);
  }
}
static bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b);
}

inline void run_imu(Ctx& c, bool cov) {
  ImuCfg k = gen_imu_cfg(c);
  bool left = c.s.chance(1, 2);
  auto q = std::make_shared<IMUQueue>();
  auto mu = std::make_shared<std::mutex>();
  ImuPropagation prop(q, mu, left ? LeftInvariant : RightInvariant, write_file("imu.yaml", k.yaml()));
  // an arbitrary state with contacts
  RobotState s;
  bool wild = c.s.chance(1, 6);
  int naug = c.s.chance(1, 2) ? c.s.range(0, wild ? 9 : 4) : 0;
  if (wild) c.tag("wild");
  std::vector<std::shared_ptr<int>> h;
  RefFilter r;
  r.left = left;
  r.load(k);
  for (int i = 0; i < naug; ++i) {
    double cs = cfg_std(c);
    Eigen::Matrix3d N = cs * cs * Eigen::Matrix3d::Identity();
    h.push_back(std::make_shared<int>(s.dimX()));
    *h.back() = s.add_aug_state(c.s.vec(3), Eigen::MatrixXd::Identity(s.dimP() + 3, s.dimP() + 3), N, h.back());
    r.augQ.push_back(ref::up(N));
  }
  double t = c.s.chance(1, 2) ? 0 : (c.s.chance(1, 2) ? 1.6e9 + c.s.u01() : c.s.uni(0, 1e4));
  int nsamp = 1 + c.s.range(0, 5);
  std::vector<Sample> in;
  auto push = [&] {
    Sample x{t, gen_rate(c), c.s.vec(30)};
    in.push_back(x);
    q->push(mk_imu(x.t, x.w, x.a));
    t += gen_dt(c, wild, cov);
  };
  push();
  c.check(prop.set_initial_state(s), "set_initial_state with a buffered sample must succeed");
  c.check(q->empty(), "set_initial_state must consume one sample");
  s.set_rotation(c.s.rot());
  double vs = c.s.chance(1, 3) ? 0 : c.s.logu(-1, wild ? 3 : 1.3), ps = c.s.chance(1, 3) ? 0 : c.s.logu(-1, wild ? 5 : 2);
  s.set_velocity(c.s.vec(vs));
  s.set_position(c.s.vec(ps));
  s.set_gyroscope_bias(c.s.vec(0.3));
  s.set_accelerometer_bias(c.s.vec(0.5));
  s.set_P(c.s.psd(s.dimP(), c.s.logu(-4, 0.5)));
  double back = c.s.chance(1, 3) ? std::fabs(gen_dt(c, wild, cov)) : 0;
  s.set_propagate_time(in[0].t - back);
  // the time field is overwritten by a step; corrections in between move it on their own
  s.set_time(in[0].t - back / 2);
  c.desc << (left ? "left" : "right") << " bias" << k.bias_update << " naug" << naug << " v" << vs << " p" << ps << " t0=" << in[0].t << " ";
  c.tag(left ? "left" : "right");
  c.tag(k.bias_update ? "bias" : "nobias");
  c.tag("naug" + std::to_string(naug));
  size_t used = 0, pushed = 1;  // next sample to integrate; how many were pushed
  for (int step = 0; step < nsamp + 3; ++step) {
    bool do_push = step < nsamp && c.s.chance(4, 5);
    if (do_push) {
      int n = c.s.chance(1, 4) ? 2 : 1;
      for (int i = 0; i < n; ++i) push(), ++pushed;
    }
    Eigen::MatrixXd X0 = s.get_X(), P0 = s.get_P(), Q0 = s.get_continuous_noise_covariance();
    Eigen::VectorXd th0 = s.get_theta();
    Eigen::Vector3d w0 = s.get_body_angular_velocity();
    double t0 = s.get_time(), tp0 = s.get_propagate_time();
    size_t qs = q->size();
    load_state(r, s);
    r.bias = k.bias_update;
    bool ok = prop.Propagate(s);
    std::string when = "step " + std::to_string(step);
    if (qs == 0) {
      c.tag("empty");
      if (cov) continue;
      c.check(!ok, when + ": Propagate with an empty buffer must report false");
      c.check(same(s.get_X(), X0) && same(s.get_P(), P0) && same(s.get_theta(), th0) && s.get_time() == t0
                  && s.get_propagate_time() == tp0 && same(s.get_continuous_noise_covariance(), Q0),
              when + ": Propagate with an empty buffer changed the state");
      continue;
    }
    const Sample& x = in[used++];
    r.propagate(ref::v3(x.w), ref::v3(x.a), x.t);
    double dt = x.t - tp0;
    double th = (ref::up(x.w) - r.th.head(3)).norm() * std::fabs(dt);
    if (dt != 0) {
      c.tag(th < 1e-6 ? "th<1e-6" : th < 1e-2 ? "th<1e-2" : th < 0.5 ? "th<0.5" : th < 3 ? "th<3" : "th>=3");
      c.interesting();
    }
    double al = x.a.norm() + x.w.squaredNorm() * k.t.norm() * 2 + 10;
    double sc = 1 + maxabs(X0) + X0.col(3).norm() * std::fabs(dt) + al * (std::fabs(dt) + dt * dt);
    if (!cov) {
      c.check(ok, when + ": Propagate with a buffered sample must report true");
      c.check(q->size() == qs - 1, when + ": exactly one sample must be consumed");
      if (!q->empty()) c.check(q->front()->get_time() == in[in.size() - q->size()].t, when + ": wrong sample consumed");
      expect_near(c, s.get_X(), r.X, 3e-14 * sc * (1 + th / 10), when + ": X");
      expect_eq(c, s.get_theta(), th0, when + ": biases must not move");
      for (int i = 5; i < s.dimX(); ++i) expect_eq(c, s.get_aug_state(i), X0.block(0, i, 3, 1), when + ": contact position moved");
      Eigen::MatrixXd Xn = s.get_X();
      expect_eq(c, Xn.bottomRows(Xn.rows() - 3), X0.bottomRows(X0.rows() - 3), when + ": lower rows of X");
      c.check(s.get_time() == x.t && s.get_propagate_time() == x.t, when + ": stamps must be that of the sample used");
      expect_eq(c, s.get_body_angular_velocity(), w0, when + ": body angular velocity");
      c.check(s.dimP() == 3 * s.dimX() - 6 + 6 && s.dimTheta() == 6, when + ": dimensions");
      for (size_t i = 0; i < h.size(); ++i) c.check(*h[i] == 5 + int(i), when + ": contact handle moved");
    } else {
      double ph = 1 + sc + dt;  // size of Phi and of the adjoint
      double tol = 1e-14 * ph * ph * ph * (maxabs(P0) + double(ref::maxabs(r.Qg + r.Qa)) * dt);
      double pm = double(ref::maxabs(r.P));
      tol = std::max(1e-13 * pm, std::min(tol, 1e-10 * (pm + 1e-6)));
      expect_near(c, s.get_P(), r.P, tol, when + ": P");
      c.check(same(s.get_continuous_noise_covariance(), Q0), when + ": the continuous noise of the state was modified");
    }
  }
}
}  // namespace vf
