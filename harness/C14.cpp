#include <deque>

#include "common/rig.h"
namespace vf {
const char* kProperty = "C14";
const char* kRule =
    "histories of sensor pushes, RunOnce, partial draining of the output, up to 3 resets with re-initialisation (static bias "
    "initialisation or priors) on both conventions; publications vs a gating model and vs the estimator's state, snapshots compared with "
    "deep copies at the end, the reset estimator compared bit for bit with a freshly built one; non-trivial: >=1 reset, >=3 publications "
    "after it and >=1 RunOnce that must not publish.";
size_t kMaxTape = 400;
int kCaseTimeout = 30;
void per_process_setup() {}

namespace {
struct Snap {
  std::shared_ptr<RobotState> p;
  Eigen::MatrixXd X, P, th;
  double t, tp;
  explicit Snap(std::shared_ptr<RobotState> s)
      : p(s), X(s->get_X()), P(s->get_P()), th(s->get_theta()), t(s->get_time()), tp(s->get_propagate_time()) {}
};
void same(Ctx& c, RobotState& a, RobotState& b, const std::string& w) {
  expect_eq(c, a.get_X(), b.get_X(), w + ": X");
  expect_eq(c, a.get_theta(), b.get_theta(), w + ": biases");
  expect_eq(c, a.get_P(), b.get_P(), w + ": P");
  c.check(a.get_time() == b.get_time() && a.get_propagate_time() == b.get_propagate_time(), w + ": times");
  expect_eq(c, a.get_body_angular_velocity(), b.get_body_angular_velocity(), w + ": body rate");
  c.check(a.get_enable_imu_bias_update() == b.get_enable_imu_bias_update(), w + ": bias flag");
  c.check(a.dimX() == b.dimX() && a.dimP() == b.dimP(), w + ": dimensions");
}
}  // namespace

void property(Ctx& c) {
  if (c.s.chance(1, 8)) {  // an estimator that is never configured can be built, asked and destroyed
    alignas(16) static unsigned char raw[sizeof(estimator::InekfEstimator)];
    std::memset(raw, 0x5a, sizeof raw);
    auto* d = new (raw) estimator::InekfEstimator();
    c.check(!d->is_enabled() && d->get_robot_state_queue_ptr()->empty(), "a default constructed estimator is enabled or has output");
    d->~InekfEstimator();
  }
  HistCfg k = gen_hist_cfg(c);
  bool left = c.s.chance(1, 2);
  k.imu.static_init = c.s.chance(1, 3);
  k.imu.n_init = c.s.range(0, 4);
  k.imu.use_ori = c.s.chance(1, 3);
  int resets = c.s.range(0, 3);
  std::vector<double> at;
  for (int i = 0; i < resets; ++i) at.push_back(c.s.u01());
  int drain = c.s.range(0, 3);  // 0: keep everything until the end of the life
  bool early_run = c.s.chance(1, 3);
  Hist h = gen_hist(c, k, 200);
  c.desc << (left ? "left" : "right") << " static" << k.imu.static_init << " N" << k.imu.n_init << " resets" << resets << " ";
  std::set<size_t> clear_at;
  for (double f : at) clear_at.insert(size_t(f * h.ev.size()));
  Rig A(k, left, Rig::write_cfg(k));
  std::unique_ptr<Rig> B;
  std::vector<Snap> snaps;
  size_t npub_after = 0, nsilent = 0, nreset = 0, life = 0;
  // gating model
  std::deque<double> mi, mv, ml;
  double tp = 0, prev = 0;
  bool running = false;
  size_t queued = 0;  // publications not yet taken
  Ev vel0 = h.vel0, leg0 = h.leg0;

  auto publish_check = [&](const std::string& when) {
    ++queued;
    c.check(A.out->size() == queued, when + ": output queue holds " + std::to_string(A.out->size()) + " states, expected " + std::to_string(queued));
    RobotState s = A.e->get_state();
    same(c, *A.out->back(), s, when + ": published state differs from the estimator's");
    snaps.emplace_back(A.out->back());
  };
  auto drain_out = [&](Rig& r, size_t from) {
    size_t i = from;
    while (!r.out->empty()) {
      c.check(i < snaps.size() && r.out->front() == snaps[i].p, "output queue is out of order");
      r.out->pop();
      ++i;
    }
    queued = 0;
    return i;
  };
  size_t taken = 0;
  auto init = [&](const Ev& im) {
    std::string when = "initialisation " + std::to_string(life);
    int guard = 0;
    while (!A.e->BiasInitialized()) {
      if (k.imu.static_init && k.imu.n_init && guard < k.imu.n_init) A.push(im);
      A.e->InitBias();
      c.check(++guard < 100, when + ": bias never initialised");
    }
    c.check(A.iq->empty(), when + ": samples left after the bias initialisation");
    c.check(!A.e->is_enabled(), when + ": enabled before InitState");
    c.check(A.out->empty(), when + ": published before InitState");
    auto feed = [&](Rig& r) {
      r.push(im);
      if (k.has_vel) {
        Ev v = vel0;
        v.t = im.t;
        r.push(v);
      }
      if (k.has_leg) {
        Ev l = leg0;
        l.t = im.t;
        r.push(l);
      }
      r.e->InitState();
    };
    feed(A);
    c.check(A.e->is_enabled(), when + ": not enabled");
    queued = 0;
    taken = snaps.size();
    publish_check(when);
    if (life > 0) {  // the twin that has never lived before
      HistCfg kb = k;
      RobotState s = A.e->get_state();
      if (k.imu.static_init) {
        kb.imu.static_init = false;
        kb.imu.bg = s.get_gyroscope_bias();
        kb.imu.ba = s.get_accelerometer_bias();
      }
      B = std::make_unique<Rig>(kb, left, Rig::write_cfg(kb, "b"));
      B->e->InitBias();
      feed(*B);
      auto o = B->take();
      c.check(o.size() == 1, when + ": fresh estimator did not publish");
      same(c, *snaps.back().p, *o[0], when + ": differs from a freshly built estimator");
    }
    mi.clear(), mv.clear(), ml.clear();
    tp = prev = im.t;
    running = true;
    ++life;
  };
  auto run = [&](const std::string& when) {
    bool pub = false;
    if (!mi.empty()) {
      tp = prev;
      prev = mi.front();
      mi.pop_front();
      pub = true;
    }
    auto vel = [&] {
      while (!mv.empty()) {
        double d = mv.front() - tp;
        if (d >= 0) return;
        mv.pop_front();
        if (d < -k.vel.thres) continue;
        pub = true;
        return;
      }
    };
    auto leg = [&] {
      while (!ml.empty()) {
        double d = ml.front() - tp;
        if (d > k.leg.thres) return;
        ml.pop_front();
        if (d < -k.leg.thres) continue;
        pub = true;
        return;
      }
    };
    if (k.leg_first) leg(), vel();
    else vel(), leg();
    RobotState s0 = A.e->get_state();
    A.e->RunOnce();
    if (pub) {
      publish_check(when);
      if (life > 1) ++npub_after;
    } else {
      ++nsilent;
      c.check(A.out->size() == queued, when + ": published although no sensor was used");
      RobotState s1 = A.e->get_state();
      same(c, s0, s1, when + ": state changed although no sensor was used");
    }
    c.check(A.iq->size() == mi.size() && A.vq->size() == mv.size() && A.lq->size() == ml.size(), when + ": buffers consumed unexpectedly");
    if (B) {
      B->e->RunOnce();
      auto o = B->take();
      c.check(o.size() == size_t(pub), when + ": reset and fresh estimator disagree on publishing");
      if (pub) same(c, *snaps.back().p, *o[0], when + ": reset and fresh estimator differ");
    }
    if (drain == 1 || (drain == 2 && snaps.size() % 3 == 0)) taken = drain_out(A, taken);
  };
  init(h.imu0);
  for (size_t i = 0; i < h.ev.size(); ++i) {
    std::string when = "event " + std::to_string(i);
    if (clear_at.count(i) && running) {
      A.e->clear();
      ++nreset;
      B.reset();
      running = false;
      c.check(!A.e->is_enabled(), when + ": enabled after a reset");
      c.check(A.iq->empty() && A.vq->empty() && A.lq->empty(), when + ": buffers not empty after a reset");
      c.check(A.out->empty(), when + ": output not empty after a reset");
      queued = 0;
      RobotState f, s = A.e->get_state();
      same(c, s, f, when + ": state after a reset");
      c.desc << "CLEAR ";
    }
    const Ev& e = h.ev[i];
    c.desc << (e.kind == Ev::IMU_ ? "I" : e.kind == Ev::VEL_ ? "V" : e.kind == Ev::LEG_ ? "L" : "R");
    if (!running) {
      if (e.kind != Ev::IMU_) continue;
      init(e);
      if (early_run) run(when);
      continue;
    }
    if (e.kind == Ev::RUN_) {
      run(when);
      continue;
    }
    A.push(e);
    if (B) B->push(e);
    (e.kind == Ev::IMU_ ? mi : e.kind == Ev::VEL_ ? mv : ml).push_back(e.t);
  }
  if (running) drain_out(A, taken);
  for (size_t i = 0; i < snaps.size(); ++i) {
    auto& s = snaps[i];
    std::string w = "published state " + std::to_string(i) + " changed afterwards";
    c.check(s.p->get_X() == s.X && s.p->get_P() == s.P && s.p->get_theta() == s.th && s.p->get_time() == s.t && s.p->get_propagate_time() == s.tp, w);
    for (size_t j = 0; j < i; ++j) c.check(snaps[j].p != s.p, "one snapshot object published twice");
  }
  if (nreset && npub_after >= 3 && nsilent) c.interesting();
  if (nreset) c.tag("reset");
  if (nsilent) c.tag("silent-run");
  if (k.imu.static_init && k.imu.n_init) c.tag("static");
  c.tag(left ? "left" : "right");
}
}  // namespace vf
