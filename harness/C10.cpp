#include "common/rig.h"
namespace vf {
const char* kProperty = "C10";
const char* kRule =
    "a sensor history of up to ~80 events fed to two estimators that differ by (a) a heading rotation and translation of the initial "
    "world frame - every step compared under the transform, then resynchronised - or (b) a constant shift of all stamps - compared bit "
    "for bit over the whole run; non-trivial: >=1 correction applied and a non-identity transform or shift.";
size_t kMaxTape = 420;
int kCaseTimeout = 40;
void per_process_setup() {}

// columns transform: rotation and all vectors by Rz, position-like columns also by tau
static ref::M transform(const ref::M& X, const ref::M3& Rz, const ref::V3& tau) {
  ref::M Y = X;
  Y.topRows(3) = Rz * X.topRows(3);
  for (int i = 4; i < X.cols(); ++i) Y.block(0, i, 3, 1) += tau;
  return Y;
}
static ref::M adT(int n, const ref::M3& Rz, const ref::V3& tau) {
  ref::M T = ref::M::Identity(n, n);
  T.topLeftCorner(3, 3) = Rz;
  for (int i = 4; i < n; ++i) T.block(0, i, 3, 1) = tau;
  return ref::adExt(T, 6);
}

static void heading(Ctx& c, HistCfg& k, bool left) {
  double psi = c.s.chance(1, 4) ? 0.5 * M_PI * c.s.range(0, 3) : M_PI * c.s.sym();
  ref::M3 Rz = ref::expSO3(ref::V3(0, 0, psi));
  double ts = c.s.chance(1, 3) ? 0 : c.s.logu(-1, 2);
  ref::V3 tau = ref::v3(c.s.vec(ts));
  Eigen::MatrixXd P0 = c.s.psd(15, c.s.logu(-4, -1));
  Hist h = gen_hist(c, k, 80);
  Rig::Files f = Rig::write_cfg(k);
  Rig A(k, left, f), B(k, left, f);
  A.init(c, h.imu0, h.vel0, h.leg0);
  B.init(c, h.imu0, h.vel0, h.leg0);
  RobotState s = A.e->get_state();
  s.set_P(P0);
  if (!k.imu.bias_update) {
    Eigen::MatrixXd P = s.get_P();
    P.rightCols(6).setZero();
    P.bottomRows(6).setZero();
    P.bottomRightCorner(6, 6).setIdentity();
    s.set_P(P);
  }
  A.e->set_state(s);
  auto sync = [&](const RobotState& a_, RobotState b) {
    RobotState a = a_;
    b.set_X(transform(ref::up(a.get_X()), Rz, tau).cast<double>());
    b.set_theta(a.get_theta());
    ref::M P = ref::up(a.get_P());
    if (!left) {
      ref::M T = adT(a.dimX(), Rz, tau);
      P = (T * P * T.transpose()).eval();
    }
    b.set_P(P.cast<double>());
    B.e->set_state(b);
  };
  sync(A.e->get_state(), B.e->get_state());
  A.take(), B.take();
  c.desc << "heading " << psi << " tau " << show(tau.cast<double>()) << (left ? " left" : " right") << " bias" << k.imu.bias_update << " "
         << show_hist(h);
  double nmin = 1;
  if (k.has_vel) nmin = std::min(nmin, k.vel.std * k.vel.std);
  if (k.has_leg) nmin = std::min(nmin, k.leg.add * k.leg.add);
  int i = 0, corr = 0;
  for (auto& e : h.ev) {
    double pmax = 0, tp0 = A.e->get_state().get_propagate_time();
    if (e.kind == Ev::RUN_) pmax = std::max(maxabs(A.e->get_state().get_P()), maxabs(B.e->get_state().get_P()));
    A.step(e);
    B.step(e);
    ++i;
    if (e.kind != Ev::RUN_) continue;
    std::string when = "after event " + std::to_string(i);
    auto oa = A.take(), ob = B.take();
    c.check(oa.size() == ob.size(), when + ": one published, the other did not");
    c.check(A.iq->size() == B.iq->size() && A.vq->size() == B.vq->size() && A.lq->size() == B.lq->size(), when + ": buffers differ");
    RobotState a = A.e->get_state(), b = B.e->get_state();
    c.check(a.get_time() == b.get_time() && a.get_propagate_time() == b.get_propagate_time(), when + ": time");
    if (a.get_time() != a.get_propagate_time()) ++corr;
    pmax = std::max(pmax, std::max(maxabs(a.get_P()), maxabs(b.get_P())));
    // rounding: positions of size |tau| enter the right-invariant covariance squared
    double sx = 1 + ts + maxabs(a.get_X());
    // and the covariance inside the step, after propagation over a long gap, exceeds the published one
    double dt = std::abs(a.get_propagate_time() - tp0);
    double grow = std::pow(1 + 10 * dt + 5 * dt * dt, 2);
    double tol = 1e-13 * (100 + grow * pmax * (left ? sx * sx : 1) / nmin);
    c.tag(tol < 1e-10 ? "tol<1e-10" : tol < 1e-8 ? "tol<1e-8" : tol < 1e-5 ? "tol<1e-5" : "diverged");
    if (tol >= 1e-5) break;  // no digits left to compare
    expect_near(c, b.get_X(), transform(ref::up(a.get_X()), Rz, tau), tol * sx, when + ": X is not equivariant");
    expect_near(c, b.get_theta(), a.get_theta(), tol * (1 + maxabs(a.get_theta())), when + ": biases changed with the frame");
    expect_near(c, b.get_body_velocity(), a.get_body_velocity(), tol * sx, when + ": body velocity changed with the frame");
    expect_eq(c, b.get_body_angular_velocity(), a.get_body_angular_velocity(), when + ": body rate");
    ref::M P = ref::up(a.get_P());
    if (!left) {
      ref::M T = adT(a.dimX(), Rz, tau);
      P = (T * P * T.transpose()).eval();
    }
    expect_near(c, b.get_P(), P, tol * sx * sx * (1e-6 + double(ref::maxabs(P))), when + ": P is not equivariant");
    sync(a, b);
  }
  if (corr && (psi != 0 || ref::maxabs(tau) != 0)) c.interesting();
}

static void shift(Ctx& c, HistCfg& k, bool left) {
  // a multiple of the stamp grid: all differences stay exact
  double d = c.s.chance(1, 2) ? double(c.s.range(-100000, 100000)) / 1024 : std::ldexp(double(c.s.range(0, 1 << 20)), 10);
  Hist h = gen_hist(c, k, 80);
  Rig::Files f = Rig::write_cfg(k);
  Rig A(k, left, f), B(k, left, f);
  auto sh = [&](Ev e) {
    e.t += d;
    return e;
  };
  A.init(c, h.imu0, h.vel0, h.leg0);
  B.init(c, sh(h.imu0), sh(h.vel0), sh(h.leg0));
  c.desc << "shift " << d << (left ? " left" : " right") << " bias" << k.imu.bias_update << " " << show_hist(h);
  int i = 0, corr = 0;
  for (auto& e : h.ev) {
    A.step(e);
    B.step(sh(e));
    ++i;
    if (e.kind != Ev::RUN_) continue;
    std::string when = "after event " + std::to_string(i);
    auto oa = A.take(), ob = B.take();
    c.check(oa.size() == ob.size(), when + ": one published, the other did not");
    c.check(A.iq->size() == B.iq->size() && A.vq->size() == B.vq->size() && A.lq->size() == B.lq->size(), when + ": buffers differ");
    for (size_t j = 0; j < oa.size(); ++j) {
      expect_eq(c, ob[j]->get_X(), oa[j]->get_X(), when + ": published X depends on absolute time");
      expect_eq(c, ob[j]->get_theta(), oa[j]->get_theta(), when + ": published biases depend on absolute time");
      expect_eq(c, ob[j]->get_P(), oa[j]->get_P(), when + ": published P depends on absolute time");
      c.check(ob[j]->get_time() == oa[j]->get_time() + d, when + ": published time is not shifted");
      c.check(ob[j]->get_propagate_time() == oa[j]->get_propagate_time() + d, when + ": propagate time is not shifted");
      if (oa[j]->get_time() != oa[j]->get_propagate_time()) ++corr;
    }
  }
  if (corr && d != 0) c.interesting();
}

void property(Ctx& c) {
  HistCfg k = gen_hist_cfg(c);
  bool left = c.s.chance(1, 2), sft = c.s.chance(1, 3);
  c.tag(left ? "left" : "right");
  c.tag(sft ? "shift" : "heading");
  if (sft) shift(c, k, left);
  else heading(c, k, left);
}
}  // namespace vf
