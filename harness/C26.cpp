#include <unistd.h>

#include <atomic>
#include <chrono>
#include <fstream>
#include <iostream>
#include <memory>
#include <thread>

#include "common/gyro.h"
#include "common/rig.h"
#include "communication/ros_publisher.h"
#include "communication/ros_subscriber.h"
#include "wheel_odometry/wheel_odometry.h"
namespace vf {
const char* kProperty = "C26";
const char* kRule =
    "3..7 threads per case with generated bursts, pauses and skews under ThreadSanitizer: sensor producers against an estimator (with or without logger, ROS "
    "publisher or gyro filter thread, resets), against a gyro filter, against wheel odometry, and ROS callbacks against consumers. What each step consumed is "
    "observed under the locks and replayed sequentially; outputs must be bit-identical. Non-trivial: >=10 samples pushed while the consumer was running.";
size_t kMaxTape = 260;
int kCaseTimeout = 90;
void per_process_setup() {
  if (chdir(scratch_dir().c_str()) != 0) _exit(3);
}
namespace {
using Lock = std::lock_guard<std::mutex>;
struct Pace {
  Bulk b;
  int mode, top;
  std::vector<int> dt;
  Pace(Ctx& c) : b(c.s.next()), mode(c.s.range(0, 4)), top(1 << c.s.range(0, 7)) {}
  void operator()() {
    uint64_t r = b.next();
    switch (mode) {
      case 0: return;
      case 1: std::this_thread::yield(); return;
      case 2:
        if (r % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds((r >> 8) % (20 * top)));
        return;
      case 3: {
        volatile unsigned x = 0;
        for (unsigned i = 0, n = (r >> 8) % (16 * top); i < n; ++i) x = x + i;
        return;
      }
      default: std::this_thread::sleep_for(std::chrono::microseconds((r >> 8) % top)); return;
    }
  }
  int burst() { return b.next() % 3 ? 1 : 1 + b.next() % 6; }
};
struct Errs {
  std::mutex m;
  std::string first;
  std::atomic<bool> any{false};
  void add(const std::string& s) {
    Lock l(m);
    if (first.empty()) first = s;
    any = true;
  }
};
struct Threads {
  std::vector<std::thread> t;
  std::function<void()> stop;
  ~Threads() {
    if (stop) stop();
    join();
  }
  void join() {
    for (auto& x : t)
      if (x.joinable()) x.join();
    t.clear();
  }
};
// counters of the harness must not order the threads (a race would stay unseen)
struct Count {
  std::atomic<int> v{0};
  Count(int x = 0) : v(x) {}
  int load() const { return v.load(std::memory_order_relaxed); }
  operator int() const { return load(); }
  void operator++() { v.fetch_add(1, std::memory_order_relaxed); }
  void operator--() { v.fetch_sub(1, std::memory_order_relaxed); }
  int operator=(int x) {
    v.store(x, std::memory_order_relaxed);
    return x;
  }
};
template <class F>
std::function<void()> guarded(Errs& e, const std::string& who, F f) {
  return [&e, who, f]() mutable {
    try {
      f();
    } catch (const std::exception& x) {
      e.add(who + ": unexpected exception: " + x.what());
    }
  };
}
void nap(int us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }

// order kept between producers: nobody runs ahead of the generated order by more than `slack` samples
struct Order {
  Count pushed;
  int slack = 1 << 30;
  void wait(int idx) {
    while (pushed.load() + slack < idx) std::this_thread::yield();
  }
};

// ------------------------------------------------------------------------------------------------ estimator
struct Pub {
  double t;
  Eigen::Vector3d p;
};
void estimator_case(Ctx& c) {
  HistCfg k = gen_hist_cfg(c);
  k.imu.use_ori = false;
  k.imu.static_init = c.s.chance(1, 3);
  k.imu.n_init = k.imu.static_init ? c.s.range(0, 5) : 0;
  bool left = c.s.chance(1, 2);
  if (c.s.chance(1, 6)) k.has_vel = k.has_leg = false;
  bool via = c.s.chance(1, 5);  // IMU samples pass through a gyro filter with its own thread
  bool logger = c.s.chance(1, 3);
  int consumer = c.s.pick(3);  // none, drain, ROS publisher
  bool observe = !via && c.s.chance(2, 3);
  int clears = c.s.chance(1, 4) ? c.s.range(1, 2) : 0;
  double rate = c.s.logu(-0.3, 3.3);
  Order order;
  order.slack = c.s.chance(1, 3) ? 1 << 30 : c.s.range(0, 10);
  Pace pe(c), pc(c);
  std::vector<Pace> pp = {Pace(c), Pace(c), Pace(c)};
  double when[2] = {c.s.u01(), c.s.u01()};
  std::sort(when, when + 2);
  Hist h = gen_hist(c, k, 120);
  // per-sensor streams, with their places in the common order
  std::vector<Ev> st[3];
  std::vector<int> ix[3];
  int n = 0;
  auto add = [&](int s, const Ev& e) {
    st[s].push_back(e);
    ix[s].push_back(n++);
  };
  auto at = [&](Ev e) {
    e.t += 100;
    return e;
  };
  for (int i = 0; i <= k.imu.n_init; ++i) add(0, at(h.imu0));
  if (k.has_vel) add(1, at(h.vel0));
  if (k.has_leg) add(2, at(h.leg0));
  for (auto& e : h.ev) {
    if (e.kind == Ev::IMU_) add(0, at(e));
    if (e.kind == Ev::VEL_) add(1, at(e));
    if (e.kind == Ev::LEG_) add(2, at(e));
  }
  c.desc << "estimator imu" << st[0].size() << " vel" << st[1].size() << " leg" << st[2].size() << (via ? " via gyro filter" : "") << (logger ? " logger" : "")
         << (consumer == 0 ? "" : consumer == 1 ? " drained" : " ROS publisher") << (observe ? " observed" : "") << " clears" << clears << " slack"
         << (order.slack > 1000 ? -1 : order.slack) << " pace" << pe.mode << pc.mode << pp[0].mode << pp[1].mode << pp[2].mode << "; ";
  Rig::Files f = Rig::write_cfg(k), f2 = f;
  std::string log = scratch_dir() + "/conc_pose";
  if (logger)
    f.est = write_file("estlog.yaml", "logger:\n  enable_pose_logger: true\n  pose_log_file: " + log + ".txt\n  vel_log_file: " + scratch_dir()
                                          + "/conc_vel.txt\n  pose_log_rate: " + num(rate) + "\nstate:\n  rotation_std_value: " + num(k.rs)
                                          + "\n  velocity_std_value: " + num(k.vs) + "\n  position_std_value: " + num(k.ps) + "\n");
  Errs err;
  struct Step {
    int kind;  // 0 bias, 1 state, 2 run, 3 clear
    size_t used[3];
  };
  std::vector<Step> steps;
  std::vector<Ev> given[3];  // in the order pushed; guarded by the sensor's lock
  std::vector<std::shared_ptr<RobotState>> got;
  std::vector<Pub> pubs;
  std::vector<double> ptimes;
  size_t cleared_out = 0;
  bool late = false;
  {
    auto A = std::make_unique<Rig>(k, left, f);
    IMUQueuePtr raw = A->iq;
    auto rawm = A->im;
    auto aq = std::make_shared<AngularVelocityQueue>();
    auto am = std::make_shared<std::mutex>();
    if (via) {
      // rebuild: the estimator reads what the filter puts out
      raw = std::make_shared<IMUQueue>();
      rawm = std::make_shared<std::mutex>();
      A->e = std::make_unique<estimator::InekfEstimator>(left ? LeftInvariant : RightInvariant, f.est);
      auto p = A->e->add_imu_ang_vel_ekf(raw, rawm, aq, am, write_file("gf.yaml", "settings:\n  flat_ground: true\n  correction_method: 1\n"));
      A->iq = p.first;
      A->im = p.second;
      A->e->add_imu_propagation(A->iq, A->im, f.imu);
      if (k.has_vel) A->e->add_velocity_correction(A->vq, A->vm, f.vel);
      if (k.has_leg) A->e->add_legged_kinematics_correction(A->lq, A->lm, f.leg);
      A->out = A->e->get_robot_state_queue_ptr();
    }
    auto outm = A->e->get_robot_state_queue_mutex_ptr();
    std::mutex* mx[3] = {rawm.get(), A->vm.get(), A->lm.get()};
    Count producing;
    Count done, need, closing;
    size_t longest[3] = {0, 0, 0};  // a driver that reports its queue length
    auto push = [&](int s, const Ev& e) {
      if (s == 0) raw->push(mk_imu(e.t, e.a, e.b));
      if (s == 1) A->vq->push(mk_vel(e.t, e.a));
      if (s == 2) A->lq->push(mk_leg(e));
      given[s].push_back(e);
      longest[s] = std::max(longest[s], s == 0 ? raw->size() : s == 1 ? A->vq->size() : A->lq->size());
    };
    Threads T;
    T.stop = [&] {
      done = true;
      closing = true;
    };
    ros_stub::bus().reset();
    auto& ctl = ros_stub::control();
    ctl.ok = true;
    ctl.rate_made = nullptr;
    ctl.rate_sleep = [](const void*) { nap(60); };
    ros::NodeHandle nh;
    std::unique_ptr<ros_wrapper::ROSPublisher> rp;
    RobotStateQueuePtr oq = A->out;
    if (consumer == 2) {
      rp = std::make_unique<ros_wrapper::ROSPublisher>(
          &nh, oq, outm, write_file("pub.yaml", "publishers:\n  pose_publish_topic: /p\n  path_publish_topic: /q\n  pose_frame: /o\n  pose_publish_rate: 100\n  path_publish_rate: 50\n"));
      rp->StartPublishingThread();
    }
    struct Off {
      ~Off() { ros_stub::control().ok = false; }
    } off;
    for (int s = 0; s < 3; ++s) {
      if (st[s].empty()) continue;
      ++producing;
      T.t.emplace_back(guarded(err, "producer", [&, s] {
        Pace p = pp[s];
        for (size_t i = 0; i < st[s].size();) {
          order.wait(ix[s][i]);
          int b = order.slack < 1000 ? 1 : p.burst();
          {
            Lock l(*mx[s]);
            for (; b-- && i < st[s].size(); ++i) {
              push(s, st[s][i]);
              ++order.pushed;
            }
          }
          p();
        }
        --producing;
        // after a reset the estimator needs new data to start again
        Ev e = st[s].back();
        while (!done) {
          if (need) {
            e.t += 1.0 / 1024;
            Lock l(*mx[s]);
            push(s, e);
          }
          nap(100);
        }
      }));
    }
    if (consumer == 1)
      T.t.emplace_back(guarded(err, "consumer", [&] {
        Pace p = pc;
        while (true) {
          bool last = closing;
          {
            Lock l(*outm);
            int b = p.burst();
            while (b-- && !oq->empty()) {
              got.push_back(oq->front());
              oq->pop();
            }
          }
          if (last) break;
          p();
          std::this_thread::yield();
        }
      }));
    std::thread est(guarded(err, "estimator", [&] {
      Pace p = pe;
      size_t used[3] = {0, 0, 0};
      auto sizes = [&](size_t* u) {
        for (int s = 0; s < 3; ++s) {
          Lock l(*mx[s]);
          size_t q = s == 0 ? A->iq->size() : s == 1 ? A->vq->size() : A->lq->size();
          u[s] = given[s].size() - q;
        }
      };
      auto rec = [&](int kind) {
        if (!observe) return;
        Step x;
        x.kind = kind;
        size_t u[3];
        sizes(u);
        bool any = kind == 3;
        for (int s = 0; s < 3; ++s) {
          x.used[s] = u[s] - used[s];
          any |= x.used[s] > 0;
          used[s] = u[s];
        }
        if (any || kind < 2) steps.push_back(x);
      };
      int idle = 0, cl = 0;
      size_t total = 0;
      for (int s = 0; s < 3; ++s) total += st[s].size();
      bool was = false;
      while (!err.any) {
        if (cl < clears && A->e->is_enabled() && size_t(order.pushed.load()) >= when[cl] * total) {
          ++cl;
          need = true;
          A->e->clear();
          rec(3);
          was = false;
          idle = 0;
          continue;
        }
        if (A->e->is_enabled()) {
          if (!was) need = false;
          was = true;
          A->e->RunOnce();
          rec(2);
        } else if (A->e->BiasInitialized()) {
          A->e->InitState();
          rec(1);
        } else {
          A->e->InitBias();
          rec(0);
          if (k.imu.static_init && producing == 0) need = true;
        }
        p();
        if (producing == 0 && A->e->is_enabled() && cl == clears) {
          bool empty;
          {
            Lock a(*rawm);
            empty = raw->empty();
          }
          {
            Lock a(*A->im);
            empty = empty && A->iq->empty();
          }
          if (empty) {
            if (via && idle == 0) nap(500);  // a sample may still be inside the filter
            if (++idle > (via ? 40 : 3)) break;
            if (via) nap(100);
          }
        } else
          idle = 0;
      }
    }));
    est.join();
    done = true;
    closing = true;
    T.join();
    if (err.any) c.fail(err.first);
    // whatever was pushed after the last step is still queued
    size_t left_over[3];
    for (int s = 0; s < 3; ++s) left_over[s] = s == 0 ? A->iq->size() + (via ? raw->size() : 0) : s == 1 ? A->vq->size() : A->lq->size();
    if (consumer == 2) {
      for (int i = 0; i < 200; ++i) {
        {
          Lock l(*outm);
          if (oq->empty()) break;
        }
        nap(100);
      }
      ctl.ok = false;
      rp.reset();
      for (auto& m : ros_stub::bus().out)
        if (m.topic == "/p") {
          auto& x = *static_cast<const geometry_msgs::PoseWithCovarianceStamped*>(m.msg.get());
          pubs.push_back({x.header.stamp.toSec(), {x.pose.pose.position.x, x.pose.pose.position.y, x.pose.pose.position.z}});
          c.check(x.header.seq == pubs.size() - 1, "pose message " + std::to_string(pubs.size() - 1) + " has sequence number " + std::to_string(x.header.seq));
        }
      size_t prev = 0;
      for (auto& m : ros_stub::bus().out)
        if (m.topic == "/q") {
          auto& x = *static_cast<const nav_msgs::Path*>(m.msg.get());
          c.check(x.poses.size() >= prev && x.poses.size() <= pubs.size() / 2 + 1, "path message has " + std::to_string(x.poses.size()) + " poses");
          prev = x.poses.size();
          for (size_t i = 0; i < x.poses.size(); ++i)
            c.check(x.poses[i].header.seq == 2 * i + 1, "path pose " + std::to_string(i) + " is pose message " + std::to_string(x.poses[i].header.seq));
        }
    }
    for (auto& s : A->take()) got.push_back(s);
    if (!observe && !clears) {
      // one state per used IMU sample, in order
      size_t i0 = k.imu.n_init;
      std::vector<double> want;
      for (size_t i = i0; i < given[0].size(); ++i) want.push_back(given[0][i].t);
      if (consumer != 2) {
        size_t j = 0;
        c.check(!got.empty(), "nothing was published");
        for (size_t i = 0; i < got.size(); ++i) {
          double t = got[i]->get_propagate_time();
          while (j < want.size() && want[j] != t) {
            if (i) c.check(j + 1 < want.size() && (want[j + 1] == t || want[j + 1] == want[j]), "published state " + std::to_string(i) + " has propagation stamp " + num(t) + ", not that of the next IMU sample");
            ++j;
          }
          c.check(j < want.size(), "published state " + std::to_string(i) + " has a propagation stamp that no IMU sample has: " + num(t));
        }
        while (j + 1 < want.size() && want[j + 1] == want[j]) ++j;
        size_t used = want.size() - left_over[0];
        c.check(j + 2 >= used, "IMU samples lost: the last propagation used sample " + std::to_string(j) + " of " + std::to_string(used));
      }
    }
    if (!k.has_vel && !k.has_leg && !observe && !via && !clears && consumer != 2) {
      // nothing but IMU samples: the schedule must not matter
      Rig B(k, left, f2);
      size_t i = 0;
      auto one = [&] {
        if (i < given[0].size() - left_over[0]) B.iq->push(mk_imu(given[0][i].t, given[0][i].a, given[0][i].b)), ++i;
      };
      for (int j = 0; j < k.imu.n_init + 3 && !B.e->BiasInitialized(); ++j) {
        if (j < k.imu.n_init) one();
        B.e->InitBias();
      }
      one();
      B.e->InitState();
      while (i < given[0].size() - left_over[0]) one(), B.e->RunOnce();
      auto w = B.take();
      c.check(w.size() == got.size(), std::to_string(got.size()) + " states published, expected " + std::to_string(w.size()));
      for (size_t j = 0; j < w.size(); ++j) {
        expect_eq(c, got[j]->get_X(), w[j]->get_X(), "IMU only, state " + std::to_string(j));
        expect_eq(c, got[j]->get_P(), w[j]->get_P(), "IMU only, covariance " + std::to_string(j));
      }
    }
    if (n > 12 + k.imu.n_init) c.interesting();
    if (logger) c.tag("logger");
    if (via) c.tag("behind a gyro filter");
    if (clears) c.tag("reset while data arrive");
    c.tag(consumer == 0 ? "outputs left queued" : consumer == 1 ? "outputs drained" : "ROS publisher");
    if (k.has_leg) c.tag("legs");
  }  // estimator and log closed
  if (!observe) return;
  // the same steps, one after the other
  Rig B(k, left, f2);
  size_t pos[3] = {0, 0, 0};
  std::vector<std::shared_ptr<RobotState>> want, logged;
  size_t sn = 0;
  for (auto& x : steps) {
    ++sn;
    for (int s = 0; s < 3; ++s)
      for (size_t i = 0; i < x.used[s]; ++i) {
        c.check(pos[s] < given[s].size(), "more samples used than were pushed");
        B.push(given[s][pos[s]++]);
      }
    std::vector<std::shared_ptr<RobotState>> w;
    switch (x.kind) {
      case 0: B.e->InitBias(); break;
      case 1:
        if (!x.used[0]) continue;
        B.e->InitState();
        break;
      case 2: B.e->RunOnce(); break;
      default: B.e->clear();
    }
    c.check(B.iq->empty() && B.vq->empty() && B.lq->empty(),
            "step " + std::to_string(sn) + ": the samples used while other threads ran are not those that a sequential run of the same arrivals uses");
    w = B.take();
    for (auto& s : w) {
      want.push_back(s);
      if (x.kind == 2) logged.push_back(s);
    }
  }
  auto same = [&](RobotState& a, RobotState& b) {
    return a.get_time() == b.get_time() && a.get_propagate_time() == b.get_propagate_time() && a.get_X().rows() == b.get_X().rows()
           && (a.get_X().array() == b.get_X().array()).all() && (a.get_P().array() == b.get_P().array()).all() && (a.get_theta().array() == b.get_theta().array()).all();
  };
  if (!clears) {
    if (consumer == 2) {
      c.check(pubs.size() + got.size() == want.size(), std::to_string(pubs.size()) + " poses sent and " + std::to_string(got.size()) + " still queued, but "
                                                           + std::to_string(want.size()) + " states were published");
      for (size_t i = 0; i < pubs.size(); ++i)
        c.check(std::abs(pubs[i].t - want[i]->get_time()) < 2e-9 && (pubs[i].p - want[i]->get_world_position()).norm() == 0, "pose message " + std::to_string(i) + " is not published state " + std::to_string(i));
      for (size_t i = 0; i < got.size(); ++i) c.check(same(*got[i], *want[pubs.size() + i]), "queued state differs from the sequential run");
    } else {
      c.check(got.size() == want.size(), std::to_string(got.size()) + " states received, the sequential run of the same arrivals publishes " + std::to_string(want.size()));
      for (size_t i = 0; i < got.size(); ++i) {
        c.check(same(*got[i], *want[i]), "state " + std::to_string(i) + " differs from the sequential run of the same arrivals");
      }
    }
    if (logger) {
      std::ifstream in(log + ".txt");
      std::vector<double> ts, wt;
      std::string l;
      while (std::getline(in, l)) ts.push_back(std::strtod(l.c_str(), nullptr));
      double last = 0;
      for (auto& s : logged)
        if (s->get_time() - last >= 1.0 / rate) wt.push_back(last = s->get_time());
      c.check(ts.size() == wt.size(), "the log has " + std::to_string(ts.size()) + " lines, expected " + std::to_string(wt.size()));
      for (size_t i = 0; i < ts.size(); ++i) c.check(ts[i] == wt[i], "log line " + std::to_string(i) + " has stamp " + num(ts[i]) + ", expected " + num(wt[i]));
    }
  } else if (consumer != 2) {
    // a reset drops what nobody had received
    size_t j = 0;
    for (size_t i = 0; i < got.size(); ++i) {
      while (j < want.size() && !same(*got[i], *want[j])) ++j;
      c.check(j < want.size(), "state " + std::to_string(i) + " received is not the next one of the sequential run");
      ++j;
    }
  }
  c.tag("linearised");
}

// ------------------------------------------------------------------------------------------------ gyro filter
void gyro_case(Ctx& c) {
  GyroCfg k = gen_gyro_cfg(c);
  bool own = c.s.chance(1, 2);  // the filter's own thread
  int clears = c.s.chance(1, 3) ? c.s.range(1, 3) : 0;
  bool est_clear = clears && own;
  Order order;
  order.slack = c.s.chance(1, 3) ? 1 << 30 : c.s.range(0, 10);
  Pace pe(c), pc(c), pk(c);
  std::vector<Pace> pp;
  for (int i = 0; i < 6; ++i) pp.push_back(Pace(c));
  double when[3] = {c.s.u01(), c.s.u01(), c.s.u01()};
  std::sort(when, when + 3);
  auto ev = gen_gyro_hist(c, k, 120, false);
  std::map<int, std::vector<std::pair<int, GSample>>> st;
  int n = 0;
  for (auto& e : ev)
    if (e.kind == 0) {
      st[e.s.sensor].push_back({n, e.s});
      ++n;
    }
  show_gyro_cfg(c.desc, k);
  c.desc << n << " samples" << (own ? " own thread" : " observed") << " clears" << clears << " slack" << (order.slack > 1000 ? -1 : order.slack) << "; ";
  if (!n) return;
  Errs err;
  auto r = std::make_unique<GyroRig>(k, "gy.yaml");
  auto mx = [&](int s) -> std::mutex& { return s == 9 ? *r->em : s == 0 ? *r->gm : *r->im[s - 1]; };
  auto qsize = [&](int s) -> size_t { return s == 9 ? r->eq->size() : s == 0 ? r->gq->size() : r->iq[s - 1]->size(); };
  std::map<int, std::vector<GSample>> given;
  for (auto& p : st) given[p.first];
  std::map<int, size_t> longest;
  for (auto& p : st) longest[p.first] = 0;
  std::vector<ImuMeasurementPtr> got;
  struct Step {
    int idle;  // runs that used nothing before this one
    bool clear;
    std::map<int, size_t> used;
  };
  std::vector<Step> steps;
  int idle = 0;
  {
    Count producing;
    Count closing;
    Threads T;
    T.stop = [&] { closing = true; };
    producing = st.size();
    size_t si = 0;
    for (auto& p : st) {
      int s = p.first;
      auto& v = p.second;
      Pace pace = pp[si++ % pp.size()];
      T.t.emplace_back(guarded(err, "producer", [&, s, pace]() mutable {
        for (size_t i = 0; i < v.size();) {
          order.wait(v[i].first);
          int b = order.slack < 1000 ? 1 : pace.burst();
          {
            Lock l(mx(s));
            for (; b-- && i < v.size(); ++i) {
              const GSample& g = v[i].second;
              if (s == 9) {
                auto m = std::make_shared<AngularVelocityMeasurement<double>>();
                m->set_header(g.seq, g.t, g.frame);
                m->set_angular_velocity(g.w(0), g.w(1), g.w(2));
                r->eq->push(m);
              } else {
                auto m = mk_imu(g.t, g.w, g.a, g.q);
                m->set_header(g.seq, g.t, g.frame);
                (s ? r->iq[s - 1] : r->gq)->push(m);
              }
              given[s].push_back(g);
              longest[s] = std::max(longest[s], qsize(s));
              ++order.pushed;
            }
          }
          pace();
        }
        --producing;
      }));
    }
    T.t.emplace_back(guarded(err, "consumer", [&, pc]() mutable {
      while (true) {
        bool last = closing;
        {
          Lock l(*r->om);
          while (!r->oq->empty()) got.push_back(r->oq->front()), r->oq->pop();
        }
        if (last) break;
        pc();
        std::this_thread::yield();
      }
    }));
    if (own) {
      r->f->StartImuFilterThread();
      int cl = 0;
      // resets come from another thread, as InekfEstimator::clear() does
      while (producing > 0) {
        if (cl < clears && order.pushed.load() >= when[cl] * n) {
          ++cl;
          r->f->clear();
        }
        pk();
        std::this_thread::yield();
      }
      // wait for the filter to use what can be used
      for (int i = 0; i < 40000; ++i) {
        bool all = true;
        for (auto& p : given) {
          Lock l(mx(p.first));
          all = all && (qsize(p.first) == 0 || (k.method == 1 && k.gyro && p.first == 1));
        }
        if (all || (k.is_static && !given.count(1))) break;
        nap(100);
      }
      nap(300);
    } else {
      std::map<int, size_t> used;
      int cl = 0, quiet = 0;
      auto rec = [&](bool clear) {
        Step x;
        x.clear = clear;
        bool any = clear;
        for (auto& p : given) {
          Lock l(mx(p.first));
          size_t u = p.second.size() - qsize(p.first);
          x.used[p.first] = u - used[p.first];
          any = any || u != used[p.first];
          used[p.first] = u;
        }
        if (!any) {
          ++idle;
          return;
        }
        x.idle = idle;
        idle = 0;
        steps.push_back(x);
        quiet = 0;
      };
      while (quiet < 4) {
        if (producing == 0) ++quiet;
        if (cl < clears && order.pushed.load() >= when[cl] * n) {
          ++cl;
          r->f->clear();
          rec(true);
        }
        r->f->RunOnce();
        rec(false);
        pe();
        if (idle > 200) nap(50);
      }
    }
    closing = true;
    T.join();
  }
  if (own) r->f.reset();  // joins its thread
  if (err.any) c.fail(err.first);
  for (; !r->oq->empty(); r->oq->pop()) got.push_back(r->oq->front());
  if (n >= 10) c.interesting();
  c.tag(own ? "gyro filter thread" : "gyro filter observed");
  if (clears) c.tag("gyro filter reset while data arrive");
  if (!own) {
    GyroRig b(k, "gy2.yaml");
    std::map<int, size_t> pos;
    std::vector<ImuMeasurementPtr> want;
    for (auto& x : steps) {
      for (int i = 0; i < x.idle; ++i) b.f->RunOnce();
      for (auto& u : x.used)
        for (size_t i = 0; i < u.second; ++i) b.push(given[u.first][pos[u.first]++]);
      if (x.clear) b.f->clear();
      else b.f->RunOnce();
      for (auto& q : b.iq) c.check(q->empty(), "the IMU samples used while other threads ran are not those a sequential run of the same arrivals uses");
      c.check(b.gq->empty() && b.eq->empty(), "the samples used while other threads ran are not those a sequential run of the same arrivals uses");
      for (auto& m : b.take()) want.push_back(m);
    }
    if (!clears) {  // a reset drops outputs not received yet
      c.check(got.size() == want.size(), std::to_string(got.size()) + " filtered samples received, the sequential run gives " + std::to_string(want.size()));
    }
    size_t j = 0;
    for (size_t i = 0; i < got.size(); ++i) {
      auto eq = [&](ImuMeasurement<double>& a, ImuMeasurement<double>& b) {
        return a.get_time() == b.get_time() && (a.get_angular_velocity().array() == b.get_angular_velocity().array()).all() && a.get_lin_acc() == b.get_lin_acc();
      };
      while (clears && j < want.size() && !eq(*got[i], *want[j])) ++j;
      c.check(j < want.size() && eq(*got[i], *want[j]), "filtered sample " + std::to_string(i) + " differs from the sequential run of the same arrivals");
      ++j;
    }
    return;
  }
  // own thread: every output is a sample that was given, in the order of its sensor, and none is missing where none may be dropped
  std::map<int, size_t> next;
  size_t imu_outs = 0;
  for (size_t i = 0; i < got.size(); ++i) {
    auto& m = *got[i];
    bool found = false;
    for (auto& p : given) {
      if (p.first == 0) continue;
      auto& v = p.second;
      size_t j = next[p.first];
      while (j < v.size() && !(v[j].t == m.get_time() && (p.first == 9 || v[j].a == m.get_lin_acc()))) ++j;
      if (j < v.size()) {
        next[p.first] = j + 1;
        found = true;
        if (p.first != 9) ++imu_outs;
        break;
      }
    }
    c.check(found, "filtered sample " + std::to_string(i) + " (stamp " + num(m.get_time()) + ") belongs to no remaining input sample");
    c.check(m.get_angular_velocity().allFinite(), "filtered sample is not finite");
  }
  if (!clears && !k.gyro && !k.is_static && k.method != 3) {
    size_t imus = 0;
    for (auto& p : given)
      if (p.first != 9 && p.first != 0) imus += p.second.size();
    c.check(k.method == 0 || got.size() == imus, std::to_string(got.size()) + " filtered samples for " + std::to_string(imus) + " IMU samples");
    if (k.method == 0) {
      c.check(got.size() >= imus && got.size() <= imus + given[9].size(), std::to_string(got.size()) + " filtered samples for " + std::to_string(imus)
                                                                               + " IMU and " + std::to_string(given[9].size()) + " encoder samples");
    }
  }
  (void)est_clear;
}

// ------------------------------------------------------------------------------------------------ wheel odometry
void wheel_case(Ctx& c) {
  Pace pv(c), pw(c), pr(c);
  int n = c.s.range(1, 80), extra = c.s.chance(1, 2) ? 0 : c.s.range(-5, 5);
  Bulk b(c.s.next());
  std::vector<VelocityMeasurementPtr> v;
  std::vector<AngularVelocityMeasurementPtr> w;
  double t = 10;
  for (int i = 0; i < n; ++i) {
    t += (1 + b.next() % 40) / 1024.0;
    v.push_back(mk_vel(t, Eigen::Vector3d(b.sym(), b.sym(), 0.1 * b.sym())));
  }
  for (int i = 0; i < std::max(0, n + extra); ++i) {
    auto m = std::make_shared<measurement::AngularVelocityMeasurement<double>>();
    m->set_time(i < n ? v[i]->get_time() : t);
    m->set_angular_velocity(0.1 * b.sym(), 0.1 * b.sym(), b.sym());
    w.push_back(m);
  }
  c.desc << "wheel odometry " << v.size() << "+" << w.size() << "; ";
  auto run = [&](bool conc, size_t& lv, size_t& lw) {
    std::string f = scratch_dir() + (conc ? "/wc" : "/ws");
    unlink((f + ".txt").c_str());
    auto vq = std::make_shared<VelocityQueue>();
    auto wq = std::make_shared<AngularVelocityQueue>();
    auto vm = std::make_shared<std::mutex>(), wm = std::make_shared<std::mutex>();
    {
      baseline::WheelOdometry o(vq, vm, wq, wm, write_file("wo.yaml", "logger:\n  enable_pose_logger: true\n  pose_log_file: " + f + "\n  pose_log_rate: 1e6\n"));
      if (!conc) {
        for (auto& x : v) vq->push(x);
        for (auto& x : w) wq->push(x);
        for (size_t i = 0; i < v.size() + w.size() + 1; ++i) o.RunOnce();
      } else {
        Errs err;
        Count producing{2};
        {
          Threads T;
          T.t.emplace_back(guarded(err, "producer", [&, p = pv]() mutable {
            for (size_t i = 0; i < v.size();) {
              {
                Lock l(*vm);
                for (int k = p.burst(); k-- && i < v.size(); ++i) vq->push(v[i]), lv = vq->size();
              }
              p();
            }
            --producing;
          }));
          T.t.emplace_back(guarded(err, "producer", [&, p = pw]() mutable {
            for (size_t i = 0; i < w.size();) {
              {
                Lock l(*wm);
                for (int k = p.burst(); k-- && i < w.size(); ++i) wq->push(w[i]), lw = wq->size();
              }
              p();
            }
            --producing;
          }));
          Pace p = pr;
          while (producing > 0) o.RunOnce(), p();
        }
        if (err.any) c.fail(err.first);
        for (size_t i = 0; i < v.size() + w.size() + 1; ++i) o.RunOnce();
      }
    }
    lv = vq->size();
    lw = wq->size();
    std::ifstream in(f + ".txt");
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
  };
  size_t a[2], s[2];
  std::string got = run(true, a[0], a[1]), want = run(false, s[0], s[1]);
  c.check(a[0] == s[0] && a[1] == s[1], "samples left: " + std::to_string(a[0]) + "+" + std::to_string(a[1]) + ", expected " + std::to_string(s[0]) + "+" + std::to_string(s[1]));
  c.check(got == want, "the trajectory differs from that of a sequential run");
  if (n >= 10) c.interesting();
  c.tag("wheel odometry");
}

// ------------------------------------------------------------------------------------------------ ROS callbacks
void ros_case(Ctx& c) {
  enum { IMU_T, FETCH_IMU, KIN, VEL, VELCOV, DIFF2, FETCH2, DIFF1, FETCH1, ODOM_T, NK };
  int n = c.s.range(2, 5);
  struct S {
    int kind;
    IMUQueuePair imu;
    LeggedKinQueuePair kin;
    VelocityQueuePair vel;
    AngularVelocityQueuePair ang;
    std::vector<std::vector<double>> got, gotw;
  };
  struct Sub {
    int kind, count;
    uint32_t seed;
    bool shared;  // another topic of the same kind shares the consumer pattern only
  };
  std::vector<Sub> subs;
  for (int i = 0; i < n; ++i) {
    Sub s;
    s.kind = i && c.s.chance(1, 3) ? subs[0].kind : int(c.s.pick(NK));
    s.count = c.s.range(1, 40);
    s.seed = c.s.next();
    subs.push_back(s);
  }
  std::vector<Pace> pd, pq;
  for (int i = 0; i < n; ++i) pd.push_back(Pace(c)), pq.push_back(Pace(c));
  size_t total = 0;
  for (auto& s : subs) total += s.count, c.desc << "ros" << s.kind << "x" << s.count << " ";
  auto run = [&](bool conc) {
    ros_stub::bus().reset();
    ros::NodeHandle nh;
    std::vector<S> R(n);
    ros_wrapper::ROSSubscriber rs(&nh);
    for (int i = 0; i < n; ++i) {
      std::string t = "/t" + std::to_string(i), t2 = t + "b";
      S& s = R[i];
      s.kind = subs[i].kind;
      Bulk b(subs[i].seed | 1);
      switch (s.kind) {
        case IMU_T: s.imu = rs.AddIMUSubscriber(t); break;
        case FETCH_IMU: s.imu = rs.AddFetchIMUSubscriber(t, t2); break;
        case KIN: s.kin = rs.AddMiniCheetahKinematicsSubscriber(t, t2); break;
        case VEL: s.vel = rs.AddVelocitySubscriber(t); break;
        case VELCOV: s.vel = rs.AddVelocityWithCovarianceSubscriber(t); break;
        case DIFF1: s.vel = rs.AddDifferentialDriveVelocitySubscriber(t, 0.2); break;
        case FETCH1: s.vel = rs.AddDifferentialDriveLinearVelocitySubscriber_Fetch(t, 0.3); break;
        case DIFF2:
        case FETCH2: {
          auto x = s.kind == DIFF2 ? rs.AddDifferentialDriveVelocitySubscriber(t, 0.2, 0.7) : rs.AddDifferentialDriveVelocitySubscriber_Fetch(t, 0.3, 0.5);
          s.vel = {std::get<0>(x), std::get<1>(x)};
          s.ang = {std::get<2>(x), std::get<3>(x)};
          break;
        }
        default: {
          Eigen::Quaterniond q(1 + std::abs(b.sym()), b.sym(), b.sym(), b.sym());
          q.normalize();
          s.vel = rs.AddOdom2VelocityCallback(t, {b.sym(), b.sym(), b.sym()}, {q.w(), q.x(), q.y(), q.z()});
        }
      }
    }
    rs.StartSubscribingThread();
    auto send = [&](int i, Pace* p) {
      Bulk b(subs[i].seed * 7 + 3);
      std::string t = "/t" + std::to_string(i), t2 = t + "b";
      auto& bus = ros_stub::bus();
      for (int j = 0; j < subs[i].count; ++j) {
        std_msgs::Header h;
        h.seq = j;
        h.stamp.sec = 1000 + j / 100;
        h.stamp.nsec = uint32_t(j % 100) * 10000000u;
        h.frame_id = "f" + std::to_string(i);
        auto fill = [&](std::vector<double>& v, int m) {
          for (int x = 0; x < m; ++x) v.push_back(b.sym());
        };
        auto v3 = [&] {
          geometry_msgs::Vector3 v;
          v.x = b.sym(), v.y = b.sym(), v.z = b.sym();
          return v;
        };
        switch (subs[i].kind) {
          case IMU_T:
          case FETCH_IMU: {
            sensor_msgs::Imu m;
            m.header = h;
            m.angular_velocity = v3();
            m.linear_acceleration = v3();
            m.orientation.w = 1;
            bus.deliver(t, m);
            if (subs[i].kind == FETCH_IMU) {
              geometry_msgs::Vector3Stamped o;
              o.header = h;
              o.vector = v3();
              bus.deliver(t2, o);
            }
            break;
          }
          case KIN: {
            custom_sensor_msgs::ContactArray ca;
            ca.header = h;
            for (int x = 0; x < 4; ++x) {
              custom_sensor_msgs::Contact ct;
              ct.id = x;
              ct.indicator = b.next() % 2;
              ca.contacts.push_back(ct);
            }
            sensor_msgs::JointState js;
            js.header = h;
            fill(js.position, 12);
            fill(js.velocity, 12);
            js.effort.assign(12, 0);
            bus.deliver(t, ca);
            bus.deliver(t2, js);
            break;
          }
          case VEL: {
            geometry_msgs::TwistStamped m;
            m.header = h;
            m.twist.linear = v3();
            bus.deliver(t, m);
            break;
          }
          case VELCOV: {
            geometry_msgs::TwistWithCovarianceStamped m;
            m.header = h;
            m.twist.twist.linear = v3();
            bus.deliver(t, m);
            break;
          }
          case DIFF1:
          case FETCH1:
          case DIFF2:
          case FETCH2: {
            sensor_msgs::JointState m;
            m.header = h;
            fill(m.velocity, 4);
            bus.deliver(t, m);
            break;
          }
          default: {
            nav_msgs::Odometry m;
            m.header = h;
            m.pose.pose.position.x = b.sym();
            m.pose.pose.position.y = b.sym();
            m.pose.pose.position.z = b.sym();
            Eigen::Quaterniond q(2 + std::abs(b.sym()), b.sym(), b.sym(), b.sym());
            q.normalize();
            m.pose.pose.orientation.w = q.w();
            m.pose.pose.orientation.x = q.x();
            m.pose.pose.orientation.y = q.y();
            m.pose.pose.orientation.z = q.z();
            bus.deliver(t, m);
          }
        }
        if (p) (*p)();
      }
    };
    auto drain = [&](S& s) {
      auto row = [](const Measurement& m, std::initializer_list<double> x) {
        std::vector<double> r = {double(m.header.seq), m.get_time()};
        r.insert(r.end(), x.begin(), x.end());
        return r;
      };
      if (s.imu.first) {
        Lock l(*s.imu.second);
        for (; !s.imu.first->empty(); s.imu.first->pop()) {
          auto& m = *s.imu.first->front();
          auto w = m.get_angular_velocity();
          auto a = m.get_lin_acc();
          s.got.push_back(row(m, {w(0), w(1), w(2), a(0), a(1), a(2)}));
        }
      }
      if (s.vel.first) {
        Lock l(*s.vel.second);
        for (; !s.vel.first->empty(); s.vel.first->pop()) {
          auto v = s.vel.first->front()->get_velocity();
          s.got.push_back(row(*s.vel.first->front(), {v(0), v(1), v(2)}));
        }
      }
      if (s.ang.first) {
        Lock l(*s.ang.second);
        for (; !s.ang.first->empty(); s.ang.first->pop()) {
          auto v = s.ang.first->front()->get_angular_velocity();
          s.gotw.push_back(row(*s.ang.first->front(), {v(0), v(1), v(2)}));
        }
      }
      if (s.kin.first) {
        LeggedKinQueue tmp;
        {
          Lock l(*s.kin.second);
          std::swap(tmp, *s.kin.first);
        }
        for (; !tmp.empty(); tmp.pop()) {
          auto& m = *tmp.front();
          m.ComputeKinematics();
          auto p = m.get_kin_pos(0);
          s.got.push_back(row(m, {p(0), p(1), p(2), double(m.get_contact(0)), double(m.get_contact(3))}));
        }
      }
    };
    if (!conc) {
      for (int i = 0; i < n; ++i) send(i, nullptr), drain(R[i]);
    } else {
      Errs err;
      Count sending{n};
      {
        Threads T;
        for (int i = 0; i < n; ++i) {
          T.t.emplace_back(guarded(err, "callback thread", [&, i] {
            struct D {
              Count& x;
              ~D() { --x; }
            } d{sending};
            Pace p = pd[i];
            send(i, &p);
          }));
        }
        // two consumers share the queues, e.g. an estimator and a filter
        for (int j = 0; j < 2; ++j)
          T.t.emplace_back(guarded(err, "consumer", [&, j] {
            Pace p = pq[j];
            while (sending > 0) {
              for (int i = j; i < n; i += 2) drain(R[i]);
              p();
              std::this_thread::yield();
            }
          }));
      }
      if (err.any) c.fail(err.first);
      for (auto& s : R) drain(s);
    }
    return R;
  };
  auto a = run(true), b = run(false);
  for (int i = 0; i < n; ++i) {
    std::string at = "subscription " + std::to_string(i) + " (kind " + std::to_string(subs[i].kind) + "): ";
    c.check(a[i].got.size() == b[i].got.size() && a[i].gotw.size() == b[i].gotw.size(), at + std::to_string(a[i].got.size()) + "+" + std::to_string(a[i].gotw.size())
                                                                                            + " measurements received, expected " + std::to_string(b[i].got.size()) + "+" + std::to_string(b[i].gotw.size()));
    c.check(a[i].got == b[i].got && a[i].gotw == b[i].gotw, at + "measurements differ from those of a sequential delivery");
  }
  ros_stub::bus().reset();
  if (total >= 10) c.interesting();
  c.tag("ROS callbacks");
}
}  // namespace

void property(Ctx& c) {
  switch (c.s.pick(8)) {
    case 0: wheel_case(c); break;
    case 1: ros_case(c); break;
    case 2:
    case 3:
    case 4: gyro_case(c); break;
    default: estimator_case(c);
  }
}
}  // namespace vf
