#include <Eigen/Eigenvalues>

#include "common/rig.h"
namespace vf {
const char* kProperty = "C08";
const char* kRule =
    "long free-running histories (up to ~400 events, 1 in 30 with a stretch or a backlog of up to 500 samples: IMU, velocity, contact data with noise 0..0.1, stale/early stamps, gaps up to 3 s) "
    "for both conventions; after every step: rotation proper, homogeneous rows exact, everything finite, covariance symmetric and PSD, "
    "dimensions consistent; 1 in 8 cases: 1..12 updates by a velocity sensor of std 1..1e-6 on priors 1e-2..1e3, velocity covariance checked relative to its own size; a correction without propagation must not increase the covariance of the observed quantity; "
    "non-trivial: >=5 corrections, or all precise updates checked.";
size_t kMaxTape = 1500;
int kCaseTimeout = 60;
void per_process_setup() {}

// A velocity sensor far more precise than the prior, repeatedly: the covariance of the velocity must come out symmetric, positive definite and no larger
// than either the prior or the sensor noise, up to rounding relative to its own (small) size.
static void precise(Ctx& c) {
  VelCfg k;
  k.std = std::pow(10.0, -c.s.range(0, 6));
  k.thres = 1;
  k.q = cfg_quat(c);
  double ps = c.s.logu(-2, 3);
  auto q = std::make_shared<VelocityQueue>();
  VelocityCorrection corr(q, std::make_shared<std::mutex>(), RightInvariant, write_file("vel.yaml", k.yaml()));
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(5, 5);
  X.topLeftCorner(3, 3) = c.s.rot();
  X.block(0, 3, 3, 1) = c.s.vec(3);
  RobotState s(X, Eigen::VectorXd::Zero(6), c.s.psd(15, ps));
  s.set_enable_imu_bias_update(c.s.chance(1, 2));
  s.set_propagate_time(10.5);
  int n = c.s.range(1, 12);
  c.tag("precise sensor");
  c.desc << "precise: std " << num(k.std) << " prior " << num(ps) << " updates " << n;
  L N = L(k.std) * L(k.std);
  for (int i = 0; i < n; ++i) {
    std::string when = "precise update " + std::to_string(i);
    ref::M Pa = ref::up(s.get_P()).block(3, 3, 3, 3);
    ref::M Sa = 0.5L * (Pa + Pa.transpose());
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix<L, 3, 3>> ea(Sa);
    L hi = ea.eigenvalues()(2), lo = std::max(ea.eigenvalues()(0), 0.0L);
    L cond = (hi + N) / (lo + N);
    q->push(mk_vel(10, c.s.vec(3)));
    c.check(corr.Correct(s), when + ": not used");
    c.check(s.get_P().allFinite() && s.get_X().allFinite(), when + ": non-finite");
    ref::M Pb = ref::up(s.get_P()).block(3, 3, 3, 3);
    L sz = std::min(hi, N);
    // rounding: of the gain (1e-15 cond) in I - KH, squared, on the prior; and of the sum
    L g = 1e-14L * cond, tol = 1e-12L * sz + g * sz + g * g * hi;
    if (tol > 0.01L * sz) {
      c.tag("ill-conditioned");
      return;
    }
    c.check(ref::maxabs(Pb - Pb.transpose()) <= tol, when + ": velocity covariance asymmetric by " + num(double(ref::maxabs(Pb - Pb.transpose()))) + " of " + num(double(sz)));
    ref::M Sb = 0.5L * (Pb + Pb.transpose());
    c.check(ref::mineig(Sb) >= -tol, when + ": velocity covariance has eigenvalue " + num(double(ref::mineig(Sb))) + " with sensor variance " + num(double(N)));
    c.check(ref::mineig(Sa - Sb) >= -tol, when + ": a velocity correction increased the velocity uncertainty");
    c.check(ref::mineig(N * ref::M::Identity(3, 3) - Sb) >= -tol, when + ": after a velocity correction the velocity is less certain than the measurement");
  }
  c.interesting();
}

void property(Ctx& c) {
  if (c.s.chance(1, 8)) return precise(c);
  HistCfg k = gen_hist_cfg(c);
  bool left = c.s.chance(1, 2);
  bool wild = c.s.chance(1, 4);
  Eigen::Matrix3d R0 = c.s.rot();
  double ps = c.s.chance(1, 2) ? 0 : c.s.logu(0, 3);
  Eigen::Vector3d p0 = c.s.vec(ps);
  Hist h = gen_hist(c, k, 400);
  Rig::Files f = Rig::write_cfg(k);
  Rig A(k, left, f);
  A.init(c, h.imu0, h.vel0, h.leg0);
  if (wild) {
    RobotState s = A.e->get_state();
    s.set_rotation(R0);
    s.set_position(p0);
    A.e->set_state(s);
  }
  c.tag(left ? "left" : "right");
  c.tag(k.imu.bias_update ? "bias" : "nobias");
  if (wild) c.tag("wild");
  c.desc << (left ? "left" : "right") << " bias" << k.imu.bias_update << (wild ? " wild " : " ") << show_hist(h);
  int i = 0, corr = 0;
  bool lost = false;
  double nmin = 1, prun = 0, xrun = 1;
  if (k.has_vel) nmin = std::min(nmin, k.vel.std * k.vel.std);
  if (k.has_leg) nmin = std::min(nmin, k.leg.add * k.leg.add);
  A.take();
  auto chk = [&](RobotState& s, const std::string& when) {
    int n = s.dimX(), d = s.dimP();
    Eigen::MatrixXd X = s.get_X(), P = s.get_P();
    c.check(X.rows() == n && X.cols() == n && d == 3 * n && P.rows() == d && P.cols() == d && s.get_theta().size() == 6
                && s.dimQc() == d && s.get_continuous_noise_covariance().rows() == d,
            when + ": inconsistent dimensions");
    c.check(X.allFinite() && P.allFinite() && s.get_theta().allFinite() && std::isfinite(s.get_time()), when + ": non-finite estimate");
    Eigen::Matrix3d R = X.topLeftCorner(3, 3);
    c.check(maxabs(R * R.transpose() - Eigen::Matrix3d::Identity()) < 1e-9 && R.determinant() > 0,
            when + ": rotation is not a proper rotation: " + show(R));
    Eigen::MatrixXd low = Eigen::MatrixXd::Identity(n, n).bottomRows(n - 3);
    c.check(X.bottomRows(n - 3) == low, when + ": lower rows of X");
    double pm = maxabs(P);
    // rounding of gain and conversions over the history: covariance over measurement noise
    prun = std::max(prun, pm);
    xrun = std::max(xrun, 1 + maxabs(X));
    double tol = std::max(1e-9, 1e-12 * (100 + prun * (left ? xrun * xrun : 1) / nmin));
    if (tol > 0.1 || xrun > 2e4) {  // the filter has lost its target (started far from the truth): no digits left to judge
      c.tag("diverged");
      lost = true;
      return;
    }
    tol = std::min(1e-3, tol);
    c.tag(tol < 1e-8 ? "tol<1e-8" : tol < 1e-5 ? "tol<1e-5" : "tol>=1e-5");
    c.check(maxabs(P - P.transpose()) <= tol * (pm + 1e-9), when + ": covariance not symmetric: " + num(maxabs(P - P.transpose())) + " of " + num(pm));
    Eigen::MatrixXd S = 0.5 * (P + P.transpose());
    // scale-free: with D = diag(P) the smallest eigenvalue of D^-1/2 P D^-1/2 may be negative only by rounding
    Eigen::VectorXd dg = S.diagonal();
    c.check(dg.minCoeff() >= -tol * pm, when + ": negative variance");
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(S, Eigen::EigenvaluesOnly);
    c.check(es.eigenvalues().minCoeff() >= -tol * (pm + 1e-9),
            when + ": covariance not positive semi-definite, eigenvalue " + num(es.eigenvalues().minCoeff()) + " of " + num(pm));
  };
  for (auto& e : h.ev) {
    ++i;
    if (e.kind != Ev::RUN_) {
      A.push(e);
      continue;
    }
    std::string when = "after event " + std::to_string(i);
    RobotState s0 = A.e->get_state();
    bool prop = !A.iq->empty();
    size_t nv = A.vq->size(), nl = A.lq->size();
    A.e->RunOnce();
    auto o = A.take();
    for (auto& s : o) chk(*s, when);
    if (lost) break;
    if (o.empty()) continue;
    RobotState s1 = *o.back();
    bool vel_used = k.has_vel && A.vq->size() < nv && s1.get_time() != s1.get_propagate_time();
    bool leg_used = k.has_leg && A.lq->size() < nl;
    if (vel_used || leg_used) ++corr;
    // a lone velocity correction: P_vv (right-invariant) must not grow in any direction
    if (!prop && vel_used && !leg_used) {
      c.tag("info-vel");
      auto right = [&](RobotState& s) -> ref::M {
        ref::M P = ref::up(s.get_P());
        if (left) {
          ref::M Ad = ref::adExt(ref::up(s.get_X()), 6);
          P = (Ad * P * Ad.transpose()).eval();
        }
        return P;
      };
      ref::M Pa = right(s0), Pb = right(s1);
      L rt = std::min(1e-3, std::max(1e-9, 1e-12 * (100 + prun * (left ? xrun * xrun : 1) / nmin)));
      ref::M D = Pa.block(3, 3, 3, 3) - Pb.block(3, 3, 3, 3);
      c.check(ref::mineig(D) >= -rt * (ref::maxabs(Pa) + 1e-9L), when + ": a velocity correction increased the velocity uncertainty");
      // and it is no worse than the measurement itself (information adds up)
      ref::M N = ref::M::Identity(3, 3) * L(k.vel.std) * L(k.vel.std);
      c.check(ref::mineig(N - Pb.block(3, 3, 3, 3))     >= -rt * (ref::maxabs(Pa) + 1e-9L),
              when + ": after a velocity correction the velocity is less certain than the measurement");
    }
  }
  if (corr >= 5) c.interesting();
  c.tag(corr < 5 ? "corr<5" : corr < 20 ? "corr<20" : "corr>=20");
}
}  // namespace vf
