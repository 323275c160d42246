// A complete estimator with its buffers, plus generated sensor histories.
#pragma once
#include "drift_util.h"

namespace vf {
struct Ev {
  enum Kind { IMU_, VEL_, LEG_, RUN_ } kind = RUN_;
  double t = 0;
  Eigen::Vector3d a = Eigen::Vector3d::Zero(), b = Eigen::Vector3d::Zero();  // imu: rate, acc; vel: a
  Eigen::MatrixXd pos, jac;
  std::vector<bool> con;
};
struct HistCfg {
  ImuCfg imu;
  VelCfg vel;
  LegCfg leg;
  bool has_vel = false, has_leg = false;
  bool leg_first = false;  // order in which the corrections are registered
  int legs = 4;
  double rs = 0.2, vs = 0.1, ps = 0.01;
};

inline LeggedKinMeasurementPtr mk_leg(const Ev& e) {
  auto m = std::make_shared<FakeKin>(int(e.con.size()), e.pos, e.jac, e.con);
  m->set_time(e.t);
  m->vel0 = e.a;
  return m;
}

struct Rig {
  HistCfg k;
  bool left;
  IMUQueuePtr iq = std::make_shared<IMUQueue>();
  VelocityQueuePtr vq = std::make_shared<VelocityQueue>();
  LeggedKinQueuePtr lq = std::make_shared<LeggedKinQueue>();
  std::shared_ptr<std::mutex> im = std::make_shared<std::mutex>(), vm = std::make_shared<std::mutex>(),
                              lm = std::make_shared<std::mutex>();
  std::unique_ptr<estimator::InekfEstimator> e;
  RobotStateQueuePtr out;
  // files are written by write_cfg() once per case and shared
  struct Files {
    std::string est, imu, vel, leg;
  };
  static Files write_cfg(const HistCfg& k, const std::string& tag = "") {
    Files f;
    f.est = write_file("est" + tag + ".yaml", est_yaml(k.rs, k.vs, k.ps));
    f.imu = write_file("imu" + tag + ".yaml", k.imu.yaml());
    if (k.has_vel) f.vel = write_file("vel" + tag + ".yaml", k.vel.yaml());
    if (k.has_leg) f.leg = write_file("leg" + tag + ".yaml", k.leg.yaml());
    return f;
  }
  Rig(const HistCfg& k_, bool left_, const Files& f) : k(k_), left(left_) {
    e = std::make_unique<estimator::InekfEstimator>(left ? LeftInvariant : RightInvariant, f.est);
    e->add_imu_propagation(iq, im, f.imu);
    if (k.has_leg && k.leg_first) e->add_legged_kinematics_correction(lq, lm, f.leg);
    if (k.has_vel) e->add_velocity_correction(vq, vm, f.vel);
    if (k.has_leg && !k.leg_first) e->add_legged_kinematics_correction(lq, lm, f.leg);
    out = e->get_robot_state_queue_ptr();
  }
  void push(const Ev& x) {
    if (x.kind == Ev::IMU_) iq->push(mk_imu(x.t, x.a, x.b));
    if (x.kind == Ev::VEL_) vq->push(mk_vel(x.t, x.a));
    if (x.kind == Ev::LEG_) lq->push(mk_leg(x));
  }
  void step(const Ev& x) {
    if (x.kind == Ev::RUN_) e->RunOnce();
    else push(x);
  }
  // priors-only initialisation from one sample of each sensor
  void init(Ctx& c, const Ev& imu, const Ev& vel, const Ev& leg) {
    push(imu);
    if (k.has_vel) push(vel);
    if (k.has_leg) push(leg);
    e->InitBias();
    c.check(e->BiasInitialized(), "bias not initialised from priors");
    e->InitState();
    c.check(e->is_enabled(), "not enabled after InitState");
  }
  // snapshots published since the last call
  std::vector<std::shared_ptr<RobotState>> take() {
    std::vector<std::shared_ptr<RobotState>> r;
    while (!out->empty()) r.push_back(out->front()), out->pop();
    return r;
  }
};

// all times on a grid of 1/1024 s
inline double grid(double x) { return std::round(x * 1024) / 1024; }

inline HistCfg gen_hist_cfg(Ctx& c) {
  HistCfg k;
  k.imu = gen_imu_cfg(c);
  k.imu.gbs = c.s.logu(-4, -1);
  k.imu.abs = c.s.logu(-4, -1);
  size_t m = c.s.pick(4);
  k.has_vel = m != 1;
  k.has_leg = m == 1 || m == 3;
  k.leg_first = c.s.chance(1, 2);
  k.legs = 1 + int(c.s.pick(4));
  if (c.s.chance(1, 2)) k.legs = 4;
  k.vel.std = c.s.logu(-2, 0);
  k.vel.thres = c.s.chance(1, 4) ? 0.3 : c.s.logu(-2, 0);
  k.vel.scale = c.s.chance(1, 3) ? 1 : c.s.uni(0.5, 1.5);
  k.vel.q = cfg_quat(c);
  k.leg.enc = c.s.logu(-3, -1);
  k.leg.add = c.s.logu(-2, -0.5);
  k.leg.con = c.s.logu(-2, 0);
  k.leg.thres = c.s.chance(1, 4) ? 0.3 : c.s.logu(-2, 0);
  k.rs = c.s.logu(-2, -0.3);
  k.vs = c.s.logu(-2, 0);
  k.ps = c.s.logu(-3, 0);
  return k;
}
// Sensor data of a simulated motion.  Sample i carries the rate and specific force of the interval that ends at its stamp.
struct Truth {
  std::vector<double> t;
  std::vector<ref::M3> R;
  std::vector<ref::V3> v, p;
  std::vector<ref::V3> foot;
  std::vector<bool> con;
  void start(double t0, const ref::M3& R0, const ref::V3& v0, int legs) {
    t = {t0};
    R = {R0};
    v = {v0};
    p = {ref::V3::Zero()};
    foot.assign(legs, ref::V3::Zero());
    con.assign(legs, false);
  }
  void advance(double tn, const ref::V3& w, const ref::V3& a) {
    L dt = L(tn) - L(t.back());
    ref::V3 f = w * dt;
    ref::M3 R0 = R.back();
    ref::V3 v0 = v.back(), p0 = p.back(), g = RefFilter::g();
    p.push_back(ref::V3(p0 + v0 * dt + (R0 * (ref::gamma(f, 2) * a) + g / 2) * dt * dt));
    v.push_back(ref::V3(v0 + (R0 * (ref::gamma(f, 1) * a) + g) * dt));
    R.push_back(ref::M3(R0 * ref::gamma(f, 0)));
    t.push_back(tn);
  }
  // the last index whose stamp is <= x
  size_t at(double x) const {
    size_t i = t.size() - 1;
    while (i > 0 && t[i] > x) --i;
    return i;
  }
};
inline Eigen::Vector3d dbl3(const ref::V3& v) { return Eigen::Vector3d(double(v(0)), double(v(1)), double(v(2))); }
// what an IMU mounted as configured reads for body rate w and specific force a (biases are those of the configuration)
inline Ev sim_imu(const ImuCfg& k, double t, const ref::V3& w, const ref::V3& a, double noise, Bulk& b) {
  Ev e;
  e.kind = Ev::IMU_;
  e.t = t;
  ref::M3 Rt = rotq(k.q).transpose();
  ref::V3 ti = ref::v3(k.t);
  auto nz = [&](double s) { return ref::V3(s * b.sym(), s * b.sym(), s * b.sym()); };
  e.a = dbl3(Rt * (w + ref::v3(k.bg))) + dbl3(nz(noise * 0.1));
  e.b = dbl3(Rt * (a + ref::v3(k.ba) + w.cross(w.cross(ti)))) + dbl3(nz(noise));
  return e;
}
inline Ev sim_vel(const VelCfg& k, double t, const ref::V3& vbody, double noise, Bulk& b) {
  Ev e;
  e.kind = Ev::VEL_;
  e.t = t;
  e.a = dbl3(rotq(k.q).transpose() * vbody / L(k.scale)) + noise * Eigen::Vector3d(b.sym(), b.sym(), b.sym());
  return e;
}
// foot poses for the truth at index i; con_mask: desired contacts
inline Ev sim_leg(Truth& T, size_t i, double t, uint32_t con_mask, double noise, Bulk& b) {
  Ev e;
  e.kind = Ev::LEG_;
  e.t = t;
  int n = T.foot.size();
  e.pos.resize(3, n);
  e.jac.resize(3, 3 * n);
  for (int j = 0; j < e.jac.size(); ++j) e.jac(j) = 0.4 * b.sym();
  for (int l = 0; l < n; ++l) {
    bool want = (con_mask >> l) & 1;
    ref::V3 pose(0.4 * b.sym(), 0.4 * b.sym(), -0.3 + 0.1 * b.sym());
    if (want && !T.con[l]) T.foot[l] = ref::V3(T.p[i] + T.R[i] * pose);
    if (want) pose = T.R[i].transpose() * (T.foot[l] - T.p[i]);
    T.con[l] = want;
    e.con.push_back(want);
    e.pos.col(l) = dbl3(pose) + noise * Eigen::Vector3d(b.sym(), b.sym(), b.sym());
  }
  e.a = dbl3(T.R[i].transpose() * T.v[i]);  // initial body velocity reported by the leg measurement
  return e;
}
struct Hist {
  double t0 = 0;
  double noise = 0;
  Ev imu0, vel0, leg0;
  std::vector<Ev> ev;
  Truth T;
};
// noisy data of a smooth-ish motion; measurements may be stale, early, bunched
inline Hist gen_hist(Ctx& c, const HistCfg& k, int max_ev) {
  Hist h;
  h.t0 = c.s.chance(1, 2) ? 0 : c.s.chance(1, 5) ? 1.6e9 + double(c.s.range(0, 1 << 20)) / 16 : double(c.s.range(0, 1 << 20)) / 16;
  // one history in 30 has a long stretch: steady running, or a backlog that is worked off afterwards
  int stretch = c.s.chance(1, 30) ? c.s.range(40, 500) : 0;
  bool backlog = c.s.chance(1, 3);
  h.noise = c.s.chance(1, 4) ? 0 : c.s.logu(-3, -1);
  double t = h.t0;
  Bulk b0(c.s.next());
  ref::V3 v0(b0.sym(), b0.sym(), 0.3 * b0.sym());
  Truth& T = h.T;
  T.start(t, ref::M3::Identity(), v0, k.legs);
  ref::V3 up(0, 0, 9.8L), zero = ref::V3::Zero();
  h.imu0 = sim_imu(k.imu, t, zero, up, h.noise, b0);
  h.vel0 = sim_vel(k.vel, t, v0, h.noise, b0);
  uint32_t mask = c.s.next() >> 8;
  h.leg0 = sim_leg(T, 0, t, mask, h.noise, b0);
  int short_ev = 0;
  while (c.s.more() && int(h.ev.size()) - short_ev < max_ev) {
    Ev e;
    if (stretch && h.ev.size() > 10) {
      c.tag(backlog ? "backlog" : "stretch");
      Bulk b(c.s.next());
      size_t before = h.ev.size();
      for (int i = 0; i < stretch; ++i) {
        t += double(1 + b.next() % 8) / 1024;
        L ws = i % 50 < 25 ? 1 : 0.1L;
        ref::V3 w(ws * b.sym(), ws * b.sym(), ws * b.sym());
        ref::V3 a = T.R.back().transpose() * (up - 0.5L * T.v.back()) + ref::V3(b.sym(), b.sym(), b.sym());
        T.advance(t, w, a);
        h.ev.push_back(sim_imu(k.imu, t, w, a, h.noise, b));
        double tm = std::max(h.t0, t - double(b.next() % 20) / 1024);
        size_t at = T.at(tm);
        if (k.has_vel && b.next() % 3 == 0) h.ev.push_back(sim_vel(k.vel, tm, T.R[at].transpose() * T.v[at], h.noise, b));
        if (k.has_leg && b.next() % 3 == 0) {
          if (b.next() % 8 == 0) mask ^= 1u << (b.next() % 6);
          h.ev.push_back(sim_leg(T, at, tm, mask, h.noise * 0.3, b));
        }
        if (!backlog) h.ev.push_back(Ev());
      }
      if (backlog)
        for (int i = 0; i < stretch; ++i) h.ev.push_back(Ev());
      short_ev += int(h.ev.size() - before);
      stretch = 0;
      continue;
    }
    switch (c.s.pick(8)) {
      case 0:
      case 1:
      case 2: {
        // the usual pattern: a sample arrives, the estimator runs
        t += double(c.s.chance(1, 8) ? c.s.range(0, c.s.chance(1, 8) ? 3000 : 200) : c.s.range(1, 30)) / 1024;
        Bulk b(c.s.next());
        uint64_t m = b.next() % 4;
        L ws = m == 0 ? 0 : m == 1 ? 1e-4 : 2;
        ref::V3 w(ws * b.sym(), ws * b.sym(), ws * b.sym());
        L as = m == 2 ? 0 : 3;
        // specific force: gravity support plus a pull towards zero speed
        ref::V3 a = T.R.back().transpose() * (up - 0.5L * T.v.back()) + ref::V3(as * b.sym(), as * b.sym(), as * b.sym());
        T.advance(t, w, a);
        h.ev.push_back(sim_imu(k.imu, t, w, a, h.noise, b));
        if (c.s.chance(3, 4)) h.ev.push_back(Ev());
        continue;
      }
      case 3:
      case 4: {
        if (!k.has_vel) continue;
        double tm = std::max(h.t0, t + double(c.s.chance(1, 6) ? c.s.range(-400, 200) : c.s.range(-60, 20)) / 1024);
        Bulk b(c.s.next());
        size_t i = T.at(tm);
        e = sim_vel(k.vel, tm, T.R[i].transpose() * T.v[i], h.noise, b);
        break;
      }
      case 5:
      case 6: {
        if (!k.has_leg) continue;
        double tm = std::max(h.t0, t + double(c.s.chance(1, 6) ? c.s.range(-400, 400) : c.s.range(-60, 30)) / 1024);
        Bulk b(c.s.next());
        if (b.next() % 3) mask ^= 1u << (b.next() % 6);
        if (b.next() % 8 == 0) mask = uint32_t(b.next());
        e = sim_leg(T, T.at(tm), tm, mask, h.noise * 0.3, b);
        break;
      }
      default: break;  // RUN
    }
    h.ev.push_back(e);
  }
  return h;
}
inline std::string show_hist(const Hist& h) {
  std::ostringstream o;
  o << std::setprecision(10);
  for (auto& e : h.ev) o << (e.kind == Ev::IMU_ ? "I" : e.kind == Ev::VEL_ ? "V" : e.kind == Ev::LEG_ ? "L" : "R") << (e.kind == Ev::RUN_ ? "" : num(e.t - h.t0).substr(0, 8)) << " ";
  return o.str();
}
}  // namespace vf
