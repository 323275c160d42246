#include <memory>
#include <unistd.h>

#include "common/drift_util.h"
#include "common/ref.h"
#include "wheel_odometry/wheel_odometry.h"
namespace vf {
using measurement::AngularVelocityMeasurement;
const char* kProperty = "C22";
const char* kRule =
    "streams of velocity and angular-velocity samples pushed in any interleaving (queues unbalanced, stamps repeated, backwards and with gaps, starting at 0 or "
    "later) with steps in between; queue lengths after every step and every logged line against a long-double dead reckoning; rates 0.5..2000 Hz incl. "
    "periods hit exactly. Non-trivial: >=3 poses integrated and >=2 lines logged.";
size_t kMaxTape = 500;
int kCaseTimeout = 20;
void per_process_setup() {}
void property(Ctx& c) {
  bool on = !c.s.chance(1, 10), def_rate = c.s.chance(1, 8), zero = c.s.chance(1, 6);
  double rate = def_rate ? 10 : zero ? 1e6 : c.s.chance(1, 2) ? double(1 << c.s.range(0, 10)) : c.s.logu(-0.3, 3.3);
  if (zero) def_rate = false;
  int naming = c.s.range(0, 2);
  double t0 = zero ? 0 : 100 + c.s.range(0, 100000);
  std::string file = scratch_dir() + "/wheel";
  unlink((file + ".txt").c_str());
  std::string y = std::string("logger:\n  enable_pose_logger: ") + (on ? "true" : "false") + "\n  pose_log_file: " + file
                  + (naming == 0 ? ".txt" : naming == 1 ? ".csv" : ".log") + "\n";
  if (!def_rate) y += "  pose_log_rate: " + num(rate) + "\n";
  c.desc << (on ? "" : "off ") << "rate " << num(rate) << " t0 " << num(t0) << ": ";

  auto vq = std::make_shared<VelocityQueue>();
  auto aq = std::make_shared<AngularVelocityQueue>();
  auto vm = std::make_shared<std::mutex>(), am = std::make_shared<std::mutex>();
  struct V {
    double t;
    Eigen::Vector3d v;
  };
  std::deque<V> mv, ma;
  struct Pose {
    double t;
    ref::V3 p;
    ref::M3 R;
  };
  std::vector<Pose> want;
  int pairs = 0, poses = 0;
  double scale = 1;
  {
    baseline::WheelOdometry odo(vq, vm, aq, am, write_file("wheel.yaml", y));
    ref::M3 R = ref::M3::Identity();
    ref::V3 p = ref::V3::Zero();
    double prev = 0, last = 0, now = t0;
    Eigen::Vector3d v0 = c.s.vec(3), w0 = c.s.vec(3);
    int n = 0;
    while (c.s.more() && n < 150) {
      ++n;
      int op = c.s.range(0, 7);
      if (op < 5) {
        bool vel = op < 3 ? c.s.chance(1, 2) : mv.size() <= ma.size();
        Bulk b(c.s.next());
        V s;
        s.v = vel ? v0 : w0;
        for (int i = 0; i < 3; ++i) s.v(i) += b.sym();
        switch (c.s.pick(8)) {
          case 0: break;
          case 1: now += double(c.s.range(0, 4096)) / 1024; break;
          case 2: now = std::max(t0, now - double(c.s.range(0, 100)) / 1024); break;
          default: now += double(c.s.range(1, 64)) / 1024;
        }
        s.t = now;
        if (zero && want.empty() && mv.empty() && vel && pairs == 0) s.t = 0;
        if (vel) {
          vq->push(mk_vel(s.t, s.v));
          mv.push_back(s);
          c.desc << "v@" << num(s.t) << " ";
        } else {
          auto m = std::make_shared<AngularVelocityMeasurement<double>>();
          m->set_time(s.t + (c.s.chance(1, 4) ? 0.01 : 0));
          m->set_angular_velocity(s.v(0), s.v(1), s.v(2));
          aq->push(m);
          ma.push_back(s);
          c.desc << "w ";
        }
      } else {
        odo.RunOnce();
        c.desc << ". ";
        if (!mv.empty() && !ma.empty()) {
          V v = mv.front(), w = ma.front();
          mv.pop_front();
          ma.pop_front();
          if (pairs++ == 0)
            prev = v.t;
          else {
            ref::L dt = ref::L(v.t) - ref::L(prev);
            prev = v.t;
            p += R * ref::v3(v.v) * dt;
            R = (R * ref::expSO3(ref::v3(w.v) * dt)).eval();
            scale = std::max({scale, double(ref::maxabs(p)), std::abs(double(dt)) * 10, double(std::abs(dt)) * w.v.norm() * 10});
            ++poses;
            if (v.t - last >= 1.0 / rate && on) {
              last = v.t;
              want.push_back({v.t, p, R});
            }
          }
        }
        c.check(vq->size() == mv.size(), "velocity queue holds " + std::to_string(vq->size()) + ", expected " + std::to_string(mv.size()));
        c.check(aq->size() == ma.size(), "angular velocity queue holds " + std::to_string(aq->size()) + ", expected " + std::to_string(ma.size()));
      }
    }
  }
  std::ifstream in(file + ".txt");
  if (!on) {
    c.check(!in, "log written although the logger is off");
    return;
  }
  c.check(bool(in), "no log file");
  size_t i = 0;
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream ss(l);
    double t, x[7];
    ss >> t;
    for (auto& v : x) ss >> v;
    std::string rest;
    c.check(bool(ss) && !(ss >> rest), "line " + std::to_string(i + 1) + " is not 't x y z qx qy qz qw': " + l);
    c.check(i < want.size(), "more lines than expected: " + l);
    auto& w = want[i++];
    std::string at = "line " + std::to_string(i);
    c.check(t == w.t, at + ": stamp " + num(t) + ", expected " + num(w.t));
    expect_near(c, Eigen::Vector3d(x[0], x[1], x[2]), w.p, 1e-12 * scale * (1 + poses), at + ": position");
    Eigen::Quaterniond q(x[6], x[3], x[4], x[5]);
    c.check(std::abs(q.norm() - 1) < 1e-10, at + ": quaternion norm");
    expect_near(c, q.toRotationMatrix(), w.R, 1e-12 * (1 + poses) * std::min(scale, 1e4), at + ": orientation");
  }
  c.check(i == want.size(), std::to_string(i) + " lines logged, expected " + std::to_string(want.size()));
  if (poses >= 3 && want.size() >= 2) c.interesting();
  if (zero) c.tag("starts at 0");
  if (size_t(poses) > want.size()) c.tag("poses between log lines");
  if (!mv.empty() || !ma.empty()) c.tag("incomplete pair left");
}
}  // namespace vf
