#include <deque>

#include "common/drift_util.h"
namespace vf {
const char* kProperty = "C11";
const char* kRule =
    "random velocity configuration (noise, scale, mounting rotation, threshold), random state and error convention, and a history of "
    "pushes (stale, in window, exactly on or 2^-30 off either boundary, in the future; out of order; bursts of up to 150; speeds up to 300) interleaved with Correct calls and moves of the "
    "propagate time; queue content, return value and state vs a reference model; non-trivial: >=1 correction used and >=1 measurement "
    "dropped or kept back.";
size_t kMaxTape = 260;
int kCaseTimeout = 20;
void per_process_setup() {}

void property(Ctx& c) {
  VelCfg k;
  k.std = cfg_std(c);
  bool dyadic = c.s.chance(1, 2);  // exact boundaries
  k.thres = dyadic ? double(c.s.range(0, 512)) / 1024 : (c.s.chance(1, 2) ? 0.3 : c.s.logu(-2, 0));
  k.scale = c.s.chance(1, 3) ? 1 : c.s.uni(0.2, 2);
  k.q = cfg_quat(c);
  bool left = c.s.chance(1, 2);
  auto q = std::make_shared<VelocityQueue>();
  auto mu = std::make_shared<std::mutex>();
  VelocityCorrection corr(q, mu, left ? LeftInvariant : RightInvariant, write_file("vel.yaml", k.yaml()));
  int naug = c.s.chance(1, 3) ? c.s.range(1, 3) : 0;
  int n = 5 + naug;
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(n, n);
  X.topLeftCorner(3, 3) = c.s.rot();
  for (int i = 3; i < n; ++i) X.block(0, i, 3, 1) = c.s.vec(3);
  RobotState s(X, Eigen::VectorXd::Zero(6), c.s.psd(3 * n, c.s.logu(-3, 0)));
  s.set_gyroscope_bias(c.s.vec(0.1));
  bool en = c.s.chance(1, 2);
  s.set_enable_imu_bias_update(en);
  double tp = c.s.chance(1, 2) ? 0 : c.s.chance(1, 4) ? 1.6e9 + double(c.s.range(0, 1 << 20)) / 16 : double(c.s.range(0, 1 << 20)) / 16;
  double vmax = c.s.chance(1, 6) ? 300 : 3;
  s.set_propagate_time(tp);
  s.set_time(tp);
  RefFilter r;
  r.left = left;
  c.desc << (left ? "left" : "right") << " thres=" << k.thres << " scale=" << k.scale << " naug" << naug << " tp=" << tp << " ";
  std::deque<VelocityMeasurementPtr> mq;
  int used = 0, dropped = 0, kept = 0;
  for (int step = 0; step < 25 && c.s.more(); ++step) {
    size_t op = c.s.pick(5);
    if (op <= 1) {
      int burst = c.s.chance(1, 30) ? c.s.range(2, 150) : 1;
      for (int rep = 0; rep < burst; ++rep) {
        double d;
        bool fine = false;
        switch (c.s.pick(8)) {
          case 0: d = 0; break;                                                     // exactly at the propagate time: not passed yet
          case 1: d = dyadic ? -k.thres : -double(int(k.thres * 1024)) / 1024; break;  // on (or just inside) the old boundary
          case 2: d = -k.thres - double(c.s.range(1, 200)) / 1024; break;           // stale
          case 3: d = double(c.s.range(1, 300)) / 1024; break;                      // future
          case 4: {                                                                 // a hair off a boundary
            double e = std::ldexp(1.0, -c.s.range(11, tp > 1e9 ? 20 : 30));
            d = (dyadic && c.s.chance(1, 2) ? -k.thres : 0.0) + (c.s.chance(1, 2) ? e : -e);
            fine = true;
            c.tag("hair");
            break;
          }
          default: d = -double(c.s.range(1, 1 + int(k.thres * 1024))) / 1024; break;
        }
        // keep clear of an inexact boundary
        double tm = fine ? tp + d : grid_round(tp + d);
        if (!dyadic && std::fabs(tm - tp + k.thres) < 1e-6) tm -= 1.0 / 1024;
        auto m = mk_vel(tm, c.s.vec(vmax));
        q->push(m);
        mq.push_back(m);
        if (rep < 4) c.desc << "P" << num(tm - tp) << " ";
      }
      if (burst > 20) c.tag("burst");
      continue;
    }
    if (op == 2) {
      tp += double(c.s.range(0, 300)) / 1024;
      s.set_propagate_time(tp);
      s.set_time(tp);
      c.desc << "T" << num(tp) << " ";
      continue;
    }
    c.desc << "C ";
    std::string when = "step " + std::to_string(step);
    load_state(r, s);
    r.left = left;
    RobotState s0 = s;
    VelocityMeasurementPtr u;
    while (!mq.empty()) {
      double d = mq.front()->get_time() - tp;
      if (d >= 0) {
        ++kept;
        break;
      }
      auto m = mq.front();
      mq.pop_front();
      if (d < -k.thres) {
        ++dropped;
        continue;
      }
      u = m;
      break;
    }
    Eigen::Vector3d raw;
    if (u) raw = u->get_velocity();
    bool ok = corr.Correct(s);
    c.check(ok == bool(u), when + (u ? ": an eligible measurement was not used" : ": reported a correction though nothing was eligible"));
    c.check(q->size() == mq.size(), when + ": buffer has " + std::to_string(q->size()) + " measurements left, expected " + std::to_string(mq.size()));
    IMUQueue dummy;
    VelocityQueue copy = *q;
    for (auto& m : mq) {
      c.check(copy.front() == m, when + ": buffer order or content changed");
      copy.pop();
    }
    if (u) {
      ++used;
      expect_eq(c, u->get_velocity(), raw, when + ": the measurement was modified");
      double z = std::max(1.0, (2 * raw.norm() + s0.get_velocity().norm()) / 10);  // errors of the gain enter times the innovation
      r.velocity(ref::v3(raw), k, u->get_time());
      // rounding of P (and of its conversion between conventions) enters the gain divided by the smallest eigenvalue of S >= std^2
      double xm = 1 + double(ref::maxabs(r.X));
      double e = std::min(1e-7, 1e-15 * (100 + 10 * double(r.cond) + 3 * double(r.pmax) * xm * xm / (k.std * k.std)));
      double kg = 1 + double(r.kmax), sc = 1e-3 + double(ref::maxabs(r.P));
      compare_state(c, s, r, e * kg * z * z, std::min(1e-6 * z * z, e * z * kg * kg * xm * xm * (1 + (maxabs(s0.get_P()) + double(r.pmax)) / sc)), when);
    } else {
      expect_eq(c, s.get_X(), s0.get_X(), when + ": X changed without a correction");
      expect_eq(c, s.get_theta(), s0.get_theta(), when + ": biases changed without a correction");
      expect_eq(c, s.get_P(), s0.get_P(), when + ": P changed without a correction");
      c.check(s.get_time() == s0.get_time() && s.get_propagate_time() == s0.get_propagate_time(), when + ": time changed without a correction");
    }
    c.check(s.get_propagate_time() == tp, when + ": propagate time changed");
  }
  if (used && (dropped || kept)) c.interesting();
  c.tag(left ? "left" : "right");
  if (used) c.tag("used");
  if (dropped) c.tag("dropped");
  if (kept) c.tag("kept");
}
}  // namespace vf
