#include "common/rig.h"
namespace vf {
const char* kProperty = "C09";
const char* kRule =
    "random configuration (IMU mounting, noise, bias estimation on/off, velocity and/or leg correction in either order) and a sensor "
    "history of up to ~80 events fed to a left- and a right-invariant estimator started from the same distribution (covariances related "
    "by the adjoint); after every step pose, biases, contacts and mapped covariances are compared and resynchronised; non-trivial: >=1 correction applied.";
size_t kMaxTape = 420;
int kCaseTimeout = 40;
void per_process_setup() {}

void property(Ctx& c) {
  HistCfg k = gen_hist_cfg(c);
  // any heading, some tilt
  Eigen::Vector3d tilt = 0.2 * c.s.vec(1);
  Eigen::Matrix3d R0 = (Eigen::AngleAxisd(c.s.sym() * M_PI, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(tilt.norm(), tilt.norm() > 0 ? tilt.normalized().eval() : Eigen::Vector3d::UnitX().eval())).toRotationMatrix();
  Eigen::Vector3d p0 = c.s.vec(10), dv = c.s.vec(0.3);
  uint32_t pw = c.s.next();
  double pscale = c.s.logu(-4, -1);
  Hist h = gen_hist(c, k, 80);
  Rig::Files f = Rig::write_cfg(k);
  Rig A(k, true, f), B(k, false, f);
  A.init(c, h.imu0, h.vel0, h.leg0);
  B.init(c, h.imu0, h.vel0, h.leg0);
  expect_eq(c, A.e->get_state().get_X(), B.e->get_state().get_X(), "initial X");
  // a common random start: right-invariant covariance is the adjoint image of the left-invariant one
  RobotState s = A.e->get_state();
  s.set_rotation(R0);
  s.set_position(p0);
  s.set_velocity(R0 * s.get_velocity() + dv);
  A.e->set_state(s);
  if (pw % 4) {  // a dense initial covariance
    std::vector<uint32_t> one{pw};
    Eigen::MatrixXd P = Src(one).psd(15, pscale);
    if (!k.imu.bias_update) {
      P.rightCols(6).setZero();
      P.bottomRows(6).setZero();
      P.bottomRightCorner(6, 6).setIdentity();
    }
    s.set_P(P);
  }
  A.e->set_state(s);
  ref::M Ad = ref::adExt(ref::up(s.get_X()), 6);
  Eigen::MatrixXd Pr = (Ad * ref::up(s.get_P()) * Ad.transpose()).cast<double>();
  s.set_P(Pr);
  B.e->set_state(s);
  // every single step is compared and the two are then resynchronised: rounding fed back through a weakly observable
  // history would otherwise grow without bound in both filters
  double nmin = 1;
  if (k.has_vel) nmin = std::min(nmin, k.vel.std * k.vel.std);
  if (k.has_leg) nmin = std::min(nmin, k.leg.add * k.leg.add);
  c.desc << "bias" << k.imu.bias_update << " vel" << k.has_vel << " leg" << k.has_leg << " " << show_hist(h);
  A.take(), B.take();
  int i = 0, corr = 0;
  for (auto& e : h.ev) {
    double pmax = 0, tp0 = A.e->get_state().get_propagate_time();
    if (e.kind == Ev::RUN_) pmax = std::max(maxabs(B.e->get_state().get_P()), maxabs(A.e->get_state().get_P()));
    A.step(e);
    B.step(e);
    ++i;
    if (e.kind != Ev::RUN_) continue;
    std::string when = "after event " + std::to_string(i);
    auto oa = A.take(), ob = B.take();
    c.check(oa.size() == ob.size(), when + ": one convention published, the other did not");
    c.check(A.iq->size() == B.iq->size() && A.vq->size() == B.vq->size() && A.lq->size() == B.lq->size(), when + ": buffers differ");
    RobotState a = A.e->get_state(), b = B.e->get_state();
    c.check(a.get_time() == b.get_time() && a.get_propagate_time() == b.get_propagate_time(), when + ": time");
    if (a.get_time() != a.get_propagate_time()) ++corr;
    // rounding of the gain: covariance over measurement noise, the covariance being the one inside the step, after
    // propagation (gravity lever arm g dt^2 / 2) and before the correction shrinks it
    double sx = 1 + maxabs(a.get_X()), dt = std::abs(a.get_propagate_time() - tp0);
    double grow = std::pow(1 + 10 * dt + 5 * dt * dt, 2);
    double tol = 1e-13 * (100 + grow * std::max(pmax, std::max(maxabs(a.get_P()), maxabs(b.get_P()))) / nmin);
    c.tag(tol < 1e-10 ? "tol<1e-10" : tol < 1e-8 ? "tol<1e-8" : tol < 1e-5 ? "tol<1e-5" : "diverged");
    if (tol >= 1e-5) break;  // no digits left to compare
    expect_near(c, b.get_X(), a.get_X(), tol * sx, when + ": X (right vs left)");
    expect_near(c, b.get_theta(), a.get_theta(), tol * (1 + maxabs(a.get_theta())), when + ": biases (right vs left)");
    ref::M Ax = ref::adExt(ref::up(a.get_X()), 6);
    ref::M Pm = Ax * ref::up(a.get_P()) * Ax.transpose();
    expect_near(c, b.get_P(), Pm, tol * 10 * (1e-6 + double(ref::maxabs(Pm))), when + ": P (right vs mapped left)");
    {
      b.set_X(a.get_X());
      b.set_theta(a.get_theta());
      b.set_P(Pm.cast<double>());
      B.e->set_state(b);
    }
    double dim = a.dimX();
    c.tag("cols" + std::to_string(int(dim) - 5));
  }
  if (corr) c.interesting();
  c.tag(k.imu.bias_update ? "bias" : "nobias");
  c.tag(std::string(k.has_vel ? "V" : "") + (k.has_leg ? "L" : ""));
}
}  // namespace vf
