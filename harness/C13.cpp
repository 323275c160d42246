#include <deque>

#include "common/rig.h"
namespace vf {
const char* kProperty = "C13";
const char* kRule =
    "random IMU configuration (static initialisation with N=0..12 samples or priors, IMU orientation or identity, mounting rotation, lever "
    "arm), optional velocity and leg corrections in either order with several queued measurements; IMU samples trickle in between InitBias "
    "calls; then InitState; consumption, biases, pose, velocity, covariance, stamps and flags vs the definition; non-trivial: static "
    "initialisation with N>=2, or a mounting rotation together with a correction.";
size_t kMaxTape = 200;
int kCaseTimeout = 10;
void per_process_setup() {}

void property(Ctx& c) {
  HistCfg k;
  k.imu = gen_imu_cfg(c);
  k.imu.static_init = c.s.chance(2, 3);
  k.imu.n_init = c.s.chance(1, 12) ? c.s.range(13, 400) : c.s.range(0, 12);
  if (k.imu.n_init > 100) c.tag("N>100");
  uint64_t lcg = c.s.range(1, 1 << 30);
  k.imu.use_ori = c.s.chance(1, 2);
  size_t m = c.s.pick(4);
  k.has_vel = m & 1;
  k.has_leg = m & 2;
  k.leg_first = c.s.chance(1, 2);
  k.vel.q = cfg_quat(c);
  k.vel.scale = c.s.chance(1, 3) ? 1 : c.s.uni(0.2, 2);
  k.rs = c.s.logu(-3, 0.5);
  k.vs = c.s.logu(-3, 0.5);
  k.ps = c.s.logu(-3, 0.5);
  bool left = c.s.chance(1, 2);
  bool ori = k.imu.use_ori;
  double t = c.s.chance(1, 2) ? 0 : double(c.s.range(0, 1 << 20)) / 16;
  bool leg_spin = c.s.chance(1, 2);
  c.desc << "static" << k.imu.static_init << " N=" << k.imu.n_init << " ori" << ori << " vel" << k.has_vel << " leg" << k.has_leg << " legfirst"
         << k.leg_first << " q=" << lst(k.imu.q, 4) << " t=" << show(k.imu.t.transpose()) << " ";
  Rig A(k, left, Rig::write_cfg(k));
  std::deque<ImuMeasurementPtr> mine;
  ref::M3 Rm = rotq(k.imu.q);
  auto push_imu = [&] {
    t += double(c.s.range(0, 20)) / 1024;
    Eigen::Vector3d w = c.s.vec(1), a = c.s.vec(2);
    a(2) += 9.8;
    std::array<double, 4> q = {1, 0, 0, 0};
    if (c.s.chance(2, 3)) q = q4(c.s.quat());
    if (!c.s.more())  // past the recorded choices of a long initialisation: values derived from one of them
      for (int j = 0; j < 3; ++j) {
        lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL;
        w(j) = double(int64_t(lcg) >> 40) / (1 << 23);
        a(j) += double(int64_t(lcg << 20) >> 40) / (1 << 23);
      }
    auto s = mk_imu(t, w, a, q);
    A.iq->push(s);
    mine.push_back(s);
    c.desc << "I ";
  };
  c.check(!A.e->is_enabled(), "a new estimator is enabled");
  c.check(!A.e->BiasInitialized(), "bias of a new estimator is already initialised");
  int need = k.imu.static_init ? k.imu.n_init : 0, got = 0, calls = 0;
  ref::V3 sg = ref::V3::Zero(), sa = ref::V3::Zero();
  int guard = 0;
  while (!A.e->BiasInitialized()) {
    if (c.s.more() ? c.s.chance(1, 2) : mine.empty()) push_imu();
    size_t before = A.iq->size();
    A.e->InitBias();
    ++calls;
    size_t eaten = before - A.iq->size();
    c.check(eaten <= 1, "one InitBias call consumed " + std::to_string(eaten) + " samples");
    if (eaten) {
      auto s = mine.front();
      mine.pop_front();
      ++got;
      ref::V3 w = Rm * ref::v3(s->get_angular_velocity()), tt = ref::v3(k.imu.t);
      ref::V3 a = Rm * ref::v3(s->get_lin_acc()) - w.cross(w.cross(tt));
      ref::M3 R = ref::M3::Identity();
      if (ori) {
        auto q = s->get_quaternion();
        R = rotq({q.w(), q.x(), q.y(), q.z()}) * Rm.transpose();
      }
      a += R.transpose() * RefFilter::g();
      sg += w;
      sa += a;
    }
    c.check(got <= need, "bias initialisation consumed more than " + std::to_string(need) + " samples");
    c.check(got == need || !A.e->BiasInitialized(), "bias initialised after " + std::to_string(got) + " of " + std::to_string(need) + " samples");
    if (before == 0) c.check(!A.e->BiasInitialized() || got == need, "bias initialised without data");
    c.check(!mine.empty() || A.iq->empty(), "buffer out of step");
    c.check(++guard < 3000, "bias never initialised");
    if (got == need && before) c.check(calls < 3000, "");
  }
  c.check(got == need, "bias initialisation consumed " + std::to_string(got) + " samples, expected " + std::to_string(need));
  // more calls change nothing once initialised from priors
  if (!k.imu.static_init) {
    size_t n = A.iq->size();
    A.e->InitBias();
    c.check(A.iq->size() == n && A.e->BiasInitialized(), "InitBias from priors consumed data");
  }
  c.check(A.out->empty() && !A.e->is_enabled(), "published or enabled before InitState");
  ref::V3 bg = ref::v3(k.imu.bg), ba = ref::v3(k.imu.ba);
  if (need) {
    bg = sg / L(need);
    ba = sa / L(need);
  }
  if (mine.empty()) {
    RobotState s0 = A.e->get_state();
    A.e->InitState();
    c.check(!A.e->is_enabled() && A.out->empty(), "InitState without IMU data enabled the filter or published a state");
    expect_eq(c, A.e->get_state().get_X(), s0.get_X(), "InitState without IMU data: X");
    c.tag("no-imu");
  }
  int extra = c.s.range(1, 3);
  for (int i = 0; i < extra; ++i) push_imu();
  // corrections: several queued, the latest counts
  Eigen::Vector3d vel_last, leg_last;
  Eigen::Matrix3d W = Eigen::Matrix3d::Zero();
  double tv = 0, tl = 0;
  if (k.has_vel) {
    int n = c.s.range(1, 3);
    for (int i = 0; i < n; ++i) {
      vel_last = c.s.vec(2);
      tv = t + double(c.s.range(-20, 20)) / 1024;
      A.vq->push(mk_vel(tv, vel_last));
    }
  }
  if (k.has_leg) {
    int n = c.s.range(1, 3);
    for (int i = 0; i < n; ++i) {
      leg_last = c.s.vec(2);
      tl = t + double(c.s.range(-20, 20)) / 1024;
      if (leg_spin)
        for (int j = 0; j < 9; ++j) W(j) = c.s.sym();
      auto f = std::make_shared<FakeKin>(4, Eigen::MatrixXd::Zero(3, 4), Eigen::MatrixXd::Zero(3, 12), std::vector<bool>(4, false));
      f->set_time(tl);
      f->vel0 = leg_last;
      f->Wm = W;
      A.lq->push(f);
    }
  }
  auto s0 = mine.front();
  A.e->InitState();
  c.check(A.e->is_enabled(), "not enabled after InitState");
  c.check(A.iq->size() == mine.size() - 1, "InitState consumed " + std::to_string(mine.size() - A.iq->size()) + " IMU samples");
  if (A.iq->size()) c.check(A.iq->front() == mine[1], "InitState did not consume the oldest IMU sample");
  c.check(A.vq->empty() && A.lq->empty(), "InitState left superseded correction measurements in the buffer");
  auto pub = A.take();
  c.check(pub.size() == 1, "InitState published " + std::to_string(pub.size()) + " states");
  RobotState s = A.e->get_state();
  ref::M3 R0 = ref::M3::Identity();
  if (ori) {
    auto q = s0->get_quaternion();
    R0 = rotq({q.w(), q.x(), q.y(), q.z()}) * Rm.transpose();
  }
  ref::V3 bw = Rm * ref::v3(s0->get_angular_velocity());
  ref::V3 v = ref::V3::Zero();
  double ts = s0->get_time();
  auto use_vel = [&] {
    if (!k.has_vel) return;
    v = R0 * (rotq(k.vel.q) * ref::v3(vel_last) * L(k.vel.scale));
    ts = tv;
  };
  auto use_leg = [&] {
    if (!k.has_leg) return;
    v = R0 * (ref::v3(leg_last) + ref::M3(ref::up(W)) * bw);
    ts = tl;
  };
  if (k.leg_first) use_leg(), use_vel();
  else use_vel(), use_leg();
  ref::M X = ref::M::Identity(5, 5);
  X.block(0, 0, 3, 3) = R0;
  X.block(0, 3, 3, 1) = v;
  expect_near(c, s.get_rotation(), R0, 1e-9, "initial rotation");
  expect_near(c, s.get_position(), ref::V3(ref::V3::Zero()), 0, "initial position");
  expect_near(c, s.get_velocity(), v, 1e-9 * (1 + double(v.norm())), "initial velocity");
  expect_near(c, s.get_X(), X, 1e-8 * (1 + double(v.norm())), "initial X");
  expect_near(c, s.get_gyroscope_bias(), bg, 1e-10, "initial gyro bias");
  expect_near(c, s.get_accelerometer_bias(), ba, 1e-8, "initial accelerometer bias");
  expect_near(c, s.get_body_angular_velocity(), bw, 1e-10, "body angular velocity");
  expect_near(c, s.get_propagate_time(), s0->get_time(), 0, "propagate time");
  expect_near(c, s.get_time(), ts, 0, "time");
  c.check(s.get_enable_imu_bias_update() == k.imu.bias_update, "bias-update flag");
  c.check(s.dimX() == 5 && s.dimP() == 15, "initial dimensions");
  ref::V D(15);
  for (int i = 0; i < 3; ++i) {
    D(i) = L(k.rs) * k.rs;
    D(3 + i) = L(k.vs) * k.vs;
    D(6 + i) = L(k.ps) * k.ps;
    D(9 + i) = L(k.imu.gbs) * k.imu.gbs;
    D(12 + i) = L(k.imu.abs) * k.imu.abs;
  }
  ref::M P = D.asDiagonal();
  expect_near(c, s.get_P(), P, 1e-12 * (1 + double(ref::maxabs(P))), "initial covariance");
  expect_eq(c, pub[0]->get_X(), s.get_X(), "published initial X");
  expect_eq(c, pub[0]->get_P(), s.get_P(), "published initial P");
  c.check(pub[0]->get_time() == s.get_time(), "published initial time");
  bool mounted = k.imu.q != std::array<double, 4>{1, 0, 0, 0};
  if (need >= 2 || (mounted && (k.has_vel || k.has_leg))) c.interesting();
  if (need) c.tag("static");
  if (k.imu.static_init && !need) c.tag("static-N0");
  if (ori) c.tag(mounted ? "ori-mounted" : "ori");
  if (k.has_vel) c.tag("vel");
  if (k.has_leg) c.tag("leg");
}
}  // namespace vf
