#include <deque>

#include "common/drift_util.h"
namespace vf {
const char* kProperty = "C12";
const char* kRule =
    "random leg set (1..6 legs), noises, threshold, error convention and prior state; history of leg measurements (too old, on the "
    "boundary, a hair off it, in window before/after the propagate time, too new; bursts of up to 60; any contact pattern incl. touch-down and lift-off in one measurement) "
    "interleaved with Correct calls, moves of the propagate time, state perturbations and clear(); state, noise blocks, queue and return "
    "value vs an independent reference; non-trivial: >=1 stacked update with another leg added or removed in the history.";
size_t kMaxTape = 400;
int kCaseTimeout = 30;
void per_process_setup() {}

void property(Ctx& c) {
  LegCfg k;
  k.enc = c.s.chance(1, 4) ? 0.01 : c.s.logu(-3, 0);
  k.add = c.s.chance(1, 4) ? 0.05 : c.s.logu(-3, 0);
  k.con = c.s.chance(1, 4) ? 0.1 : c.s.logu(-3, 0);
  bool dyadic = c.s.chance(1, 2);
  k.thres = dyadic ? double(c.s.range(0, 512)) / 1024 : (c.s.chance(1, 2) ? 0.3 : c.s.logu(-2, 0));
  bool left = c.s.chance(1, 2);
  int legs = c.s.range(1, 6);
  auto q = std::make_shared<LeggedKinQueue>();
  auto mu = std::make_shared<std::mutex>();
  LeggedKinematicsCorrection corr(q, mu, left ? LeftInvariant : RightInvariant, write_file("leg.yaml", k.yaml()));
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(5, 5);
  X.topLeftCorner(3, 3) = c.s.rot();
  X.block(0, 3, 3, 1) = c.s.vec(2);
  X.block(0, 4, 3, 1) = c.s.vec(c.s.chance(1, 4) ? 20 : 2);
  Eigen::MatrixXd P0 = c.s.psd(15, c.s.logu(-4, 0));
  bool en = c.s.chance(1, 2);
  double tp = c.s.chance(1, 2) ? 0 : c.s.chance(1, 4) ? 1.6e9 + double(c.s.range(0, 1 << 20)) / 16 : double(c.s.range(0, 1 << 20)) / 16;
  double noise = c.s.chance(1, 4) ? 0 : c.s.logu(-3, -0.5);
  auto fresh = [&] {
    RobotState s(X, Eigen::VectorXd::Zero(6), P0);
    s.set_continuous_noise_covariance(Eigen::VectorXd::LinSpaced(15, 0.5, 2).asDiagonal());
    s.set_gyroscope_bias(Eigen::Vector3d(0.1, -0.2, 0.3));
    s.set_enable_imu_bias_update(en);
    s.set_propagate_time(tp);
    s.set_time(tp);
    return s;
  };
  RobotState s = fresh();
  Eigen::MatrixXd Q0 = s.get_continuous_noise_covariance();
  RefFilter r;
  r.left = left;
  c.desc << (left ? "left" : "right") << " legs=" << legs << " thres=" << k.thres << " enc=" << k.enc << " add=" << k.add << " con=" << k.con
         << " tp=" << tp << " ";
  std::deque<std::shared_ptr<FakeKin>> mq;
  std::vector<ref::V3> foot(legs, ref::V3::Zero());
  uint32_t mask = c.s.next() >> 8;
  int used = 0, dropped = 0, kept = 0, stacked = 0, added = 0, removed = 0, multi = 0;
  for (int step = 0; step < 40 && c.s.more(); ++step) {
    size_t op = c.s.pick(8);
    std::string when = "step " + std::to_string(step);
    if (op <= 2) {
      int burst = c.s.chance(1, 40) ? c.s.range(2, 60) : 1;
      for (int rep = 0; rep < burst; ++rep) {
      double d;
      bool fine = false;
      switch (c.s.pick(10)) {
        case 0: d = 0; break;
        case 1: d = dyadic ? -k.thres : -double(int(k.thres * 1024)) / 1024; break;
        case 2: d = dyadic ? k.thres : double(int(k.thres * 1024)) / 1024; break;
        case 3: d = -k.thres - double(c.s.range(1, 200)) / 1024; break;
        case 4: d = k.thres + double(c.s.range(1, 200)) / 1024; break;
        case 5: {  // a hair off a boundary
          double e = std::ldexp(1.0, -c.s.range(11, tp > 1e9 ? 20 : 30));
          d = (!dyadic || k.thres == 0 ? 0.0 : c.s.chance(1, 2) ? k.thres : -k.thres) + (c.s.chance(1, 2) ? e : -e);
          fine = true;
          c.tag("hair");
          break;
        }
        default: d = (c.s.chance(1, 3) ? 1 : -1) * double(c.s.range(0, int(k.thres * 1024))) / 1024; break;
      }
      double tm = fine ? tp + d : grid_round(tp + d);
      if (!dyadic && std::fabs(std::fabs(tm - tp) - k.thres) < 1e-6) tm += 1.0 / 1024;
      Bulk b(c.s.next());
      switch (b.next() % 4) {
        case 0: break;
        case 1: mask = uint32_t(b.next()); break;
        default: mask ^= 1u << (b.next() % legs); break;
      }
      double js = b.next() % 4 ? 0.5 : 5;
      Eigen::MatrixXd pos(3, legs), jac(3, 3 * legs);
      for (int j = 0; j < jac.size(); ++j) jac(j) = js * b.sym();
      std::vector<bool> con;
      for (int l = 0; l < legs; ++l) {
        con.push_back((mask >> l) & 1);
        for (int j = 0; j < 3; ++j) pos(j, l) = 0.5 * b.sym();
      }
      auto m = std::make_shared<FakeKin>(legs, pos, jac, con);
      m->set_time(tm);
      q->push(m);
      mq.push_back(m);
      if (rep < 4) {
      c.desc << "P" << num(tm - tp) << ":";
      for (int l = 0; l < legs; ++l) c.desc << int(con[l]);
      c.desc << " ";
      }
      }
      if (burst > 20) c.tag("burst");
      continue;
    }
    if (op == 3) {
      tp += double(c.s.range(0, 300)) / 1024;
      s.set_propagate_time(tp);
      s.set_time(tp);
      c.desc << "T" << num(tp) << " ";
      continue;
    }
    if (op == 4) {
      if (c.s.chance(1, 4)) {
        corr.clear();
        c.check(q->empty(), when + ": clear() left measurements in the buffer");
        s = fresh();
        mq.clear();
        r.col.clear();
        r.augQ.clear();
        c.tag("clear");
        c.desc << "clear ";
      } else {  // the state moves on (as propagation would do), feet stay
        s.set_rotation(s.get_rotation() * Eigen::AngleAxisd(0.3 * c.s.sym(), Eigen::Vector3d::UnitZ()).toRotationMatrix());
        s.set_position(s.get_position() + c.s.vec(0.3));
        s.set_velocity(c.s.vec(1));
        c.desc << "move ";
      }
      continue;
    }
    c.desc << "C ";
    load_state(r, s);
    r.left = left;
    RobotState s0 = s;
    std::shared_ptr<FakeKin> u;
    while (!mq.empty()) {
      double d = mq.front()->get_time() - tp;
      if (d > k.thres) {
        ++kept;
        break;
      }
      auto m = mq.front();
      mq.pop_front();
      if (d < -k.thres) {
        ++dropped;
        continue;
      }
      u = m;
      break;
    }
    int nc = 0;
    if (u) {
      // persisting contacts measure (about) where the foot is; noise of either small or wild size
      for (int l = 0; l < legs; ++l)
        if (r.col.count(l) && u->get_contact(l)) {
          ref::V3 b = r.R().transpose() * (r.colv(r.col[l]) - r.colv(4));
          Eigen::Vector3d w = u->pos.col(l);
          u->pos.col(l) = Eigen::Vector3d(double(b(0)), double(b(1)), double(b(2))) + noise * w;
          ++nc;
        }
    }
    bool ok = corr.Correct(s);
    c.check(ok == bool(u), when + (u ? ": an eligible measurement was not used" : ": reported a correction though no measurement is usable"));
    c.check(q->size() == mq.size(), when + ": buffer has " + std::to_string(q->size()) + " measurements left, expected " + std::to_string(mq.size()));
    LeggedKinQueue copy = *q;
    for (auto& m : mq) {
      c.check(copy.front() == m, when + ": buffer order or content changed");
      copy.pop();
    }
    c.check(s.get_propagate_time() == tp, when + ": propagate time changed");
    if (!u) {
      expect_eq(c, s.get_X(), s0.get_X(), when + ": X changed without a correction");
      expect_eq(c, s.get_theta(), s0.get_theta(), when + ": biases changed without a correction");
      expect_eq(c, s.get_P(), s0.get_P(), when + ": P changed without a correction");
      c.check(s.get_time() == s0.get_time(), when + ": time changed without a correction");
      continue;
    }
    ++used;
    std::vector<ref::V3> pos;
    std::vector<ref::M3> J;
    std::vector<bool> con;
    for (int l = 0; l < legs; ++l) {
      pos.push_back(ref::v3(u->pos.col(l)));
      J.push_back(ref::M3(ref::up(u->jac.block(0, 3 * l, 3, 3))));
      con.push_back(u->get_contact(l));
    }
    int na = 0, nr = 0, nn = 0;
    for (int l = 0; l < legs; ++l) {
      if (con[l]) ++nn;
      if (con[l] && !r.col.count(l)) ++na;
      if (!con[l] && r.col.count(l)) ++nr;
    }
    c.check(s.dimX() == 5 + nn, when + ": " + std::to_string(s.dimX() - 5) + " foot positions in the state, " + std::to_string(nn) + " legs in contact");
    r.cond = 1;
    r.kmax = r.pmax = r.dmax = 0;
    r.legs(pos, J, con, k, u->get_time());
    added += na;
    removed += nr;
    if (nc) ++stacked;
    if (nc > 1) ++multi;
    double xm = 1 + double(ref::maxabs(r.X));
    double nmin = k.add * k.add;
    double e = std::min(1e-7, 1e-15 * (100 + 10 * double(r.cond) + 3 * double(r.pmax) * xm * xm / nmin));
    double kg = 1 + double(r.kmax), sc = 1e-3 + double(ref::maxabs(r.P));
    Eigen::MatrixXd Pf = s.get_P();
    // rounding leaves P slightly asymmetric; which half enters the block of a new foot is not specified
    double asym = 8 * xm * maxabs(Pf - Pf.transpose()) / sc;
    compare_state(c, s, r, e * kg, std::min(1e-6, asym + e * kg * kg * xm * xm * (1 + (maxabs(s0.get_P()) + double(r.pmax)) / sc)), when);
    // process noise: earlier blocks kept, one contact block per foot
    Eigen::MatrixXd Q = s.get_continuous_noise_covariance();
    int d = s.dimP();
    c.check(Q.rows() == d && Q.cols() == d, when + ": process noise has the wrong size");
    Eigen::MatrixXd want = Eigen::MatrixXd::Zero(d, d);
    want.topLeftCorner(9, 9) = Q0.topLeftCorner(9, 9);
    want.bottomRightCorner(6, 6) = Q0.bottomRightCorner(6, 6);
    for (int i = 9; i < d - 6; ++i) want(i, i) = k.con * k.con;
    expect_near(c, Q, want, 1e-15, when + ": process noise");
    // the foot columns are where the legs are
    for (auto& kv : r.col)
      c.check(kv.second >= 5 && kv.second < s.dimX(), when + ": reference column out of range");
    s.set_P(0.5 * (Pf + Pf.transpose()));
  }
  if (stacked && (added > 1 || removed)) c.interesting();
  c.tag(left ? "left" : "right");
  if (used) c.tag("used");
  if (dropped) c.tag("dropped");
  if (kept) c.tag("kept");
  if (stacked) c.tag("stacked");
  if (multi) c.tag("stacked>1");
  if (removed) c.tag("removed");
  if (stacked && removed && added > 1) c.tag("full-lifecycle");
}
}  // namespace vf
