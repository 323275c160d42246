#include <sys/stat.h>
#include <unistd.h>

#include "common/gyro.h"
#include "common/rig.h"
#include "communication/ros_publisher.h"
#include "wheel_odometry/wheel_odometry.h"
namespace vf {
const char* kProperty = "C25";
const char* kRule =
    "one of: a component (IMU propagation, velocity, legs, gyro filter, estimator priors) configured with a random subset of its optional keys omitted, the "
    "present ones shuffled among unknown keys, its behaviour on generated data against a long-double reference using the documented defaults; a whole estimator "
    "with omitted keys against one with the defaults spelled out, bit by bit; a file that is missing or malformed (syntax, types, short lists, absent mandatory "
    "keys), which must throw; log file names in directories with dots. Non-trivial: >=1 key omitted or a malformed file.";
size_t kMaxTape = 400;
int kCaseTimeout = 20;
void per_process_setup() {
  static std::ofstream null("/dev/null");
  std::cout.rdbuf(null.rdbuf());
  std::cerr.setstate(std::ios::failbit);
  if (chdir(scratch_dir().c_str()) != 0) _exit(3);
}
namespace {
struct Line {
  std::string sec, key, val;
};
std::vector<Line> parse(const std::string& y) {
  std::vector<Line> r;
  std::istringstream in(y);
  std::string l, sec;
  while (std::getline(in, l)) {
    if (l.empty()) continue;
    size_t p = l.find(':');
    if (l[0] != ' ') sec = l.substr(0, p);
    else {
      size_t a = l.find_first_not_of(' ');
      r.push_back({sec, l.substr(a, p - a), l.substr(l.find_first_not_of(' ', p + 1))});
    }
  }
  return r;
}
// the same settings written in another order, with keys of no meaning in between and the omitted ones left out
std::string emit(Ctx& c, const std::vector<Line>& in, const std::set<std::string>& omit) {
  std::map<std::string, std::vector<Line>> by;
  std::vector<std::string> secs;
  for (auto& l : in)
    if (!by.count(l.sec)) by[l.sec], secs.push_back(l.sec);
  for (auto& l : in)
    if (!omit.count(l.key)) by[l.sec].push_back(l);
  Bulk b(c.s.next());
  auto shuf = [&](auto& v) {
    if (!b.zero)
      for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[b.next() % i]);
  };
  shuf(secs);
  std::string o;
  for (auto& s : secs) {
    auto& v = by[s];
    shuf(v);
    if (v.empty()) {
      if (b.next() % 2) o += s + ":\n";  // an empty section
      continue;
    }
    o += s + ":\n";
    bool flow = !b.zero && b.next() % 6 == 0;
    if (flow) {
      o.pop_back();
      o += " {";
      for (size_t i = 0; i < v.size(); ++i) o += (i ? ", " : "") + v[i].key + ": " + v[i].val;
      o += "}\n";
      continue;
    }
    for (auto& l : v) {
      if (!b.zero && b.next() % 5 == 0) o += "  # comment\n  unknown_" + std::to_string(b.next() % 1000) + ": 3\n";
      o += "  " + l.key + ": " + l.val + "\n";
    }
  }
  if (o.empty() && b.next() % 2) o = "# nothing configured\n";
  return o;
}
struct Key {
  std::string name;
  std::function<void()> to_default;
};
std::set<std::string> choose(Ctx& c, std::vector<Key> keys) {
  std::set<std::string> o;
  int mode = c.s.pick(4);
  for (auto& k : keys) {
    bool out = mode == 0 ? c.s.chance(1, 5) : mode == 1 ? c.s.chance(4, 5) : mode == 2 ? true : c.s.chance(1, 2);
    if (out) {
      o.insert(k.name);
      c.desc << "-" << k.name << " ";
    }
    if (out || c.s.chance(1, 6)) k.to_default();  // sometimes the default is spelled out
  }
  if (o.size()) c.interesting();
  if (o.size() == keys.size()) c.tag("all omitted");
  return o;
}
std::vector<Key> imu_keys(ImuCfg& k) {
  return {{"static_bias_initialization", [&] { k.static_init = true; }},
          {"init_bias_size", [&] { k.n_init = 0; }},
          {"use_imu_ori_to_init", [&] { k.use_ori = false; }},
          {"rotation_imu2body", [&] { k.q = {1, 0, 0, 0}; }},
          {"enable_imu_bias_update", [&] { k.bias_update = false; }},
          {"translation_imu2body", [&] { k.t.setZero(); }},
          {"gyroscope_std", [&] { k.gs = 0.1; }},
          {"accelerometer_std", [&] { k.as = 0.1; }},
          {"gyroscope_bias_std", [&] { k.gbs = 0.1; }},
          {"accelerometer_bias_std", [&] { k.abs = 0.1; }},
          {"gyroscope_bias", [&] { k.bg.setZero(); }},
          {"accelerometer_bias", [&] { k.ba.setZero(); }}};
}
std::vector<Key> vel_keys(VelCfg& k) {
  return {{"velocity_std", [&] { k.std = 0.1; }},
          {"correction_time_threshold", [&] { k.thres = 0.3; }},
          {"rotation_vel2body", [&] { k.q = {1, 0, 0, 0}; }},
          {"velocity_scale", [&] { k.scale = 1; }}};
}
std::vector<Key> leg_keys(LegCfg& k) {
  return {{"encoder_std", [&] { k.enc = 0.01; }},
          {"kinematics_additive_std", [&] { k.add = 0.05; }},
          {"contact_noise_std", [&] { k.con = 0.1; }},
          {"correction_time_threshold", [&] { k.thres = 0.3; }}};
}
double gstd(Ctx& c) { return c.s.logu(-1.5, 0.2); }
void gen_imu(Ctx& c, ImuCfg& k) {
  k = gen_imu_cfg(c);
  k.gs = gstd(c), k.as = gstd(c), k.gbs = gstd(c), k.abs = gstd(c);
  k.static_init = c.s.chance(1, 2);
  k.n_init = c.s.range(0, 4);
  k.use_ori = c.s.chance(1, 2);
}
RobotState some_state(Ctx& c, int n) {
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(n, n);
  X.topLeftCorner(3, 3) = c.s.rot();
  for (int i = 3; i < n; ++i) X.block(0, i, 3, 1) = c.s.vec(1);
  return RobotState(X, Eigen::VectorXd::Zero(6), c.s.psd(3 * n, 0.05));
}
// what the priors, the initialisation settings and the noises do to the state
void imu_component(Ctx& c) {
  ImuCfg k;
  gen_imu(c, k);
  auto keys = imu_keys(k);
  auto omit = choose(c, keys);
  std::string y = emit(c, parse(k.yaml()), omit);
  bool left = c.s.chance(1, 2);
  auto q = std::make_shared<IMUQueue>();
  auto mu = std::make_shared<std::mutex>();
  ImuPropagation prop(q, mu, left ? LeftInvariant : RightInvariant, write_file("imu.yaml", y));
  ref::M3 Rm = rotq(k.q);
  ref::V3 ti = ref::v3(k.t), bg = ref::v3(k.bg), ba = ref::v3(k.ba);
  double t = 5;
  struct S {
    double t;
    Eigen::Vector3d w, a;
    std::array<double, 4> q;
  };
  auto sample = [&] {
    S s{t, c.s.vec(2), c.s.vec(4), q4(c.s.quat())};
    s.a(2) += 9.8;
    q->push(mk_imu(s.t, s.w, s.a, s.q));
    t += double(c.s.range(10, 200)) / 1024;
    return s;
  };
  int n = k.static_init ? k.n_init : 0;
  ref::V3 sg = ref::V3::Zero(), sa = sg;
  auto frame = [&](const S& s) {
    ref::M3 R = ref::M3::Identity();
    if (k.use_ori) R = rotq(s.q) * Rm.transpose();
    return R;
  };
  for (int i = 0; i < n; ++i) {
    S s = sample();
    ref::V3 w = Rm * ref::v3(s.w);
    sg += w;
    sa += Rm * ref::v3(s.a) - w.cross(w.cross(ti)) + frame(s).transpose() * RefFilter::g();
  }
  for (int i = 0; i < n + 2 && !prop.get_bias_initialized(); ++i) prop.InitImuBias();
  c.check(prop.get_bias_initialized(), "bias not initialised after " + std::to_string(n) + " samples");
  c.check(q->empty(), "bias initialisation left " + std::to_string(q->size()) + " of " + std::to_string(n) + " samples");
  if (n) bg = sg / L(n), ba = sa / L(n);
  S s0 = sample();
  RobotState s;
  c.check(prop.set_initial_state(s), "set_initial_state failed");
  expect_near(c, s.get_world_rotation(), frame(s0), 1e-9, "initial rotation");
  expect_near(c, s.get_gyroscope_bias(), bg, 1e-9, "initial gyroscope bias");
  expect_near(c, s.get_accelerometer_bias(), ba, 1e-9, "initial accelerometer bias");
  s.set_P(c.s.psd(15, 0.02));
  RefFilter r;
  r.load(k);
  r.left = left;
  S prev = s0;
  for (int i = 0; i < 2; ++i) {
    S x = sample();
    load_state(r, s);
    r.left = left;
    r.bias = k.bias_update;
    c.check(prop.Propagate(s), "propagation refused");
    // the sample used is the previous one
    r.propagate(ref::v3(prev.w), ref::v3(prev.a), prev.t);
    prev = x;
    compare_state(c, s, r, 1e-8, 1e-7, "propagation " + std::to_string(i));
    c.check(s.get_enable_imu_bias_update() == k.bias_update, "bias update flag");
  }
  c.tag("imu");
}
void vel_component(Ctx& c) {
  VelCfg k;
  k.std = gstd(c);
  k.thres = double(c.s.range(20, 700)) / 1024;
  k.scale = c.s.uni(0.3, 2);
  k.q = cfg_quat(c);
  auto omit = choose(c, vel_keys(k));
  bool left = c.s.chance(1, 2);
  auto q = std::make_shared<VelocityQueue>();
  VelocityCorrection corr(q, std::make_shared<std::mutex>(), left ? LeftInvariant : RightInvariant,
                          write_file("vel.yaml", emit(c, parse(k.yaml()), omit)));
  double tp = 40;
  // both sides of the threshold
  for (int i = 0; i < 4; ++i) {
    RobotState s = some_state(c, 5);
    bool bu = c.s.chance(1, 2);
    s.set_enable_imu_bias_update(bu);
    s.set_propagate_time(tp);
    s.set_time(tp);
    static const double f[] = {0.98, 1.02, 0.5, 1.3};
    double tm = tp - k.thres * f[i];
    Eigen::Vector3d v = c.s.vec(2);
    RefFilter r;
    r.left = left;
    load_state(r, s);
    r.left = left;
    q->push(mk_vel(tm, v));
    bool ok = corr.Correct(s), want = f[i] < 1;
    c.check(ok == want, std::string(want ? "a measurement within" : "a measurement outside") + " the time threshold " + num(k.thres) + (want ? " was not used" : " was used"));
    if (!want) continue;
    r.velocity(ref::v3(v), k, tm);
    compare_state(c, s, r, 1e-8, 1e-7, "velocity correction");
  }
  // and the initial velocity
  RobotState s = some_state(c, 5);
  Eigen::Vector3d v = c.s.vec(2);
  q->push(mk_vel(tp, v));
  c.check(corr.initialize(s), "initialize() failed");
  ref::V3 want = ref::up(s.get_world_rotation()) * (rotq(k.q) * ref::v3(v) * L(k.scale));
  expect_near(c, s.get_world_velocity(), want, 1e-9, "initial velocity");
  c.tag("velocity");
}
void leg_component(Ctx& c) {
  LegCfg k;
  k.enc = gstd(c), k.add = gstd(c), k.con = gstd(c);
  k.thres = double(c.s.range(20, 700)) / 1024;
  auto omit = choose(c, leg_keys(k));
  bool left = c.s.chance(1, 2);
  auto q = std::make_shared<LeggedKinQueue>();
  LeggedKinematicsCorrection corr(q, std::make_shared<std::mutex>(), left ? LeftInvariant : RightInvariant,
                                  write_file("leg.yaml", emit(c, parse(k.yaml()), omit)));
  double tp = 40;
  RobotState s = some_state(c, 5);
  s.set_propagate_time(tp);
  s.set_time(tp);
  RefFilter r;
  ImuCfg ik;
  ik.static_init = false;
  r.left = left;
  static const double f[] = {1.02, 0.97, -0.97, -1.02, 0.5};
  for (int i = 0; i < 5; ++i) {
    double tm = tp - k.thres * f[i];
    Bulk b(c.s.next() | 1);
    std::vector<ref::V3> pos;
    std::vector<ref::M3> J;
    std::vector<bool> con = {true, i == 2, i == 4, false};
    Eigen::MatrixXd P(3, 4), JJ(3, 12);
    for (int j = 0; j < 12; ++j) P(j) = 0.4 * b.sym();
    for (int j = 0; j < 36; ++j) JJ(j) = 0.5 * b.sym();
    for (int l = 0; l < 4; ++l)
      if (r.col.count(l) && con[l]) {  // the foot is about where it was
        ref::V3 p = r.R().transpose() * (r.colv(r.col[l]) - r.colv(4));
        for (int j = 0; j < 3; ++j) P(j, l) = double(p(j)) + 0.02 * b.sym();
      }
    for (int l = 0; l < 4; ++l) {
      pos.push_back(ref::v3(P.col(l)));
      J.push_back(ref::M3(ref::up(JJ.block(0, 3 * l, 3, 3))));
    }
    auto m = std::make_shared<FakeKin>(4, P, JJ, con);
    m->set_time(tm);
    q->push(m);
    load_state(r, s);
    r.left = left;
    bool ok = corr.Correct(s), want = std::abs(f[i]) < 1;
    c.check(ok == want, std::string(want ? "a leg measurement within" : "a leg measurement outside") + " the time threshold " + num(k.thres) + (want ? " was not used" : " was used"));
    if (!want) {
      while (!q->empty()) q->pop();
      continue;
    }
    r.legs(pos, J, con, k, tm);
    compare_state(c, s, r, 1e-7, 1e-6, "leg correction " + std::to_string(i));
    // the contact noise of the added columns is what the next propagation adds
    if (i == 2 || i == 4) {
      auto iq = std::make_shared<IMUQueue>();
      ImuPropagation prop(iq, std::make_shared<std::mutex>(), left ? LeftInvariant : RightInvariant, write_file("legimu.yaml", ik.yaml()));
      prop.InitImuBias();
      Eigen::Vector3d w = c.s.vec(1), a = c.s.vec(3);
      iq->push(mk_imu(tp + 0.125, w, a));
      iq->push(mk_imu(tp + 0.25, w, a));
      RobotState other;
      prop.set_initial_state(other);
      load_state(r, s);
      r.left = left;
      r.load(ik);
      prop.Propagate(s);
      r.propagate(ref::v3(w), ref::v3(a), tp + 0.125);
      compare_state(c, s, r, 1e-8, 1e-7, "propagation with contacts");
      s.set_propagate_time(tp);
    }
  }
  c.tag("legs");
}
void gyro_component(Ctx& c) {
  GyroCfg k = gen_gyro_cfg(c);
  k.omit_thres = k.omit_noise = k.omit_q = k.omit_bias = k.omit_n = false;
  k.thres = double(c.s.range(5, 100)) / 1024;
  k.n = k.is_static ? c.s.range(0, 6) : 3;
  for (double* p : {&k.ws, &k.bs, &k.fs, &k.fbs, &k.is, &k.es}) *p = gstd(c);
  std::vector<Key> keys = {{"t_threshold", [&] { k.thres = 0.03; }},       {"rotation_imu2body", [&] { k.q = {1, 0, 0, 0}; }},
                           {"ang_vel_bias", [&] { k.bias.setZero(); }},    {"ang_vel_std", [&] { k.ws = .01; }},
                           {"ang_vel_bias_std", [&] { k.bs = .01; }},      {"filter_std", [&] { k.fs = .01; }},
                           {"filter_bias_std", [&] { k.fbs = .01; }},      {"imu_meas_noise_std", [&] { k.is = .1; }},
                           {"encoder_meas_noise_std", [&] { k.es = .1; }}, {"flat_ground", [&] { k.flat = false; }}};
  if (k.method == 3) keys.push_back({"static_bias_initialization", [&] {}});
  if (k.is_static && c.s.chance(1, 15)) keys.push_back({"init_bias_size", [&] { k.n = 250; }}), c.tag("default number of initial samples");
  if (k.method == 0 && k.four) keys.push_back({"correction_method", [&] {}});
  auto omit = choose(c, keys);
  if (!k.is_static) omit.insert("static_bias_initialization");
  show_gyro_cfg(c.desc, k);
  std::vector<GEv> ev;
  if (k.is_static && k.n > 100) {
    Bulk b(7);
    for (int i = 0; i < k.n + 3; ++i) {
      GSample s;
      s.sensor = 1;
      s.t = 100 + double(i) / 1024;
      s.w = Eigen::Vector3d(b.sym(), b.sym(), b.sym());
      s.a.setZero();
      s.q = {1, 0, 0, 0};
      s.seq = i;
      ev.push_back({0, s});
      ev.push_back({1, {}});
    }
  }
  for (auto& e : gen_gyro_hist(c, k, 60, false)) ev.push_back(e);
  std::string y = emit(c, parse(k.yaml()), omit);
  struct Custom : GyroCfg {
  } kk;
  (GyroCfg&)kk = k;
  // GyroRig writes its own file; build the filter on ours instead
  GyroRig r(k, "gyro_full.yaml");
  GyroRig a(k, "gyro_full2.yaml");
  std::string file = write_file("gyro_omit.yaml", y);
  if (k.four) a.f = std::make_shared<imu_filter::ImuAngVelEKF>(a.iq[0], a.im[0], a.eq, a.em, file);
  else {
    a.f = std::make_shared<imu_filter::ImuAngVelEKF>(file);
    for (int i = 0; i < k.imu_n(); ++i) a.f->add_imu_correction(a.iq[i], a.im[i]);
    if (k.has_enc()) a.f->add_ang_vel_correction(a.eq, a.em);
  }
  if (k.gyro) a.f->add_gyro_propagate(a.gq, a.gm);
  auto p = a.f->get_filtered_imu_data_buffer_and_mutex_ptr();
  a.oq = p.first;
  GyroModel m(k);
  double smax = 1;
  for (int i = 0; i < 5; ++i) ev.push_back({1, {}});
  size_t idx = 0;
  for (auto& e : ev) {
    ++idx;
    std::string at = "gyro filter event " + std::to_string(idx);
    if (e.kind == 0) {
      r.push(e.s);
      a.push(e.s);
      m.push(e.s);
      smax = std::max(smax, e.s.w.cwiseAbs().maxCoeff());
      continue;
    }
    r.f->RunOnce();
    a.f->RunOnce();
    m.step();
    auto g = r.take(), h = a.take();
    c.check(g.size() == h.size() && g.size() == m.out.size(), at + ": number of outputs differs: " + std::to_string(h.size()) + " with keys omitted, "
                                                                   + std::to_string(g.size()) + " with the defaults spelled out, " + std::to_string(m.out.size()) + " expected");
    for (size_t i = 0; i < g.size(); ++i) {
      expect_eq(c, h[i]->get_angular_velocity(), g[i]->get_angular_velocity(), at + ": keys omitted vs defaults spelled out");
      c.check(h[i]->get_time() == g[i]->get_time(), at + ": stamps differ");
      expect_near(c, h[i]->get_angular_velocity(), m.out[i].w, 1e-7 * smax * (1 + double(ref::maxabs(m.P)) * 1e-3), at + ": filtered rate");
    }
  }
  c.tag("gyro filter");
}
// A: keys omitted; B: their defaults spelled out
void whole(Ctx& c) {
  HistCfg k = gen_hist_cfg(c);
  bool left = c.s.chance(1, 2);
  bool st = c.s.chance(1, 2), ori = c.s.chance(1, 2);
  k.imu.static_init = st;
  k.imu.use_ori = ori;
  k.imu.n_init = c.s.range(0, 4);
  auto oi = choose(c, imu_keys(k.imu));
  auto ov = choose(c, vel_keys(k.vel));
  auto ol = choose(c, leg_keys(k.leg));
  std::set<std::string> oe;
  double cov[3] = {k.rs * k.rs, k.vs * k.vs, k.ps * k.ps};
  static const char* en[] = {"rotation_std_value", "velocity_std_value", "position_std_value"};
  static const double dc[] = {0.03, 0.01, 1e-5};
  for (int i = 0; i < 3; ++i)
    if (c.s.chance(1, 3)) {
      oe.insert(en[i]), cov[i] = dc[i];
      c.desc << "-" << en[i] << " ";
    }
  Rig::Files fb = Rig::write_cfg(k), fa = fb;
  fa.est = fb.est = write_file("estA.yaml", emit(c, parse(est_yaml(k.rs, k.vs, k.ps)), oe));
  fa.imu = write_file("imuA.yaml", emit(c, parse(k.imu.yaml()), oi));
  if (k.has_vel) fa.vel = write_file("velA.yaml", emit(c, parse(k.vel.yaml()), ov));
  if (k.has_leg) fa.leg = write_file("legA.yaml", emit(c, parse(k.leg.yaml()), ol));
  std::array<double, 4> iq = q4(c.s.quat());
  Hist h = gen_hist(c, k, 80);
  Rig A(k, left, fa), B(k, left, fb);
  auto start = [&](Rig& r) {
    for (int i = 0; i < k.imu.n_init + 1; ++i) {
      Ev e = h.imu0;
      r.iq->push(mk_imu(e.t, e.a + 0.01 * i * Eigen::Vector3d::Ones(), e.b, iq));
    }
    for (int i = 0; i < k.imu.n_init + 3 && !r.e->BiasInitialized(); ++i) r.e->InitBias();
    c.check(r.e->BiasInitialized(), "bias not initialised");
    while (!r.iq->empty()) r.iq->pop();
    r.iq->push(mk_imu(h.imu0.t, h.imu0.a, h.imu0.b, iq));
    if (k.has_vel) r.push(h.vel0);
    if (k.has_leg) r.push(h.leg0);
    r.e->InitState();
    c.check(r.e->is_enabled(), "not enabled");
  };
  start(A);
  start(B);
  size_t states = 0;
  auto cmp = [&](const std::string& at) {
    auto a = A.take(), b = B.take();
    c.check(a.size() == b.size(), at + ": " + std::to_string(a.size()) + " states with keys omitted, " + std::to_string(b.size()) + " with the defaults spelled out");
    for (size_t i = 0; i < a.size(); ++i, ++states) {
      expect_eq(c, a[i]->get_X(), b[i]->get_X(), at + ": X, keys omitted vs defaults spelled out");
      expect_eq(c, a[i]->get_theta(), b[i]->get_theta(), at + ": biases, keys omitted vs defaults spelled out");
      expect_eq(c, a[i]->get_P(), b[i]->get_P(), at + ": P, keys omitted vs defaults spelled out");
      c.check(a[i]->get_time() == b[i]->get_time(), at + ": time");
      if (states == 0) {
        Eigen::MatrixXd P = a[i]->get_P();
        for (int d = 0; d < 3; ++d)
          expect_near(c, P.block(3 * d, 3 * d, 3, 3), Eigen::MatrixXd(cov[d] * Eigen::Matrix3d::Identity()), 1e-14 * (1 + cov[d]), std::string("initial covariance of ") + en[d]);
      }
    }
  };
  cmp("initial state");
  int n = 0;
  for (auto& e : h.ev) {
    ++n;
    A.step(e);
    B.step(e);
    if (e.kind == Ev::RUN_) cmp("event " + std::to_string(n));
  }
  c.tag("estimator");
}
template <class F>
void must_throw(Ctx& c, const std::string& what, F f) {
  bool thrown = false;
  try {
    f();
  } catch (const Failure&) {
    throw;
  } catch (const std::exception&) {
    thrown = true;
  }
  c.check(thrown, what + " was accepted");
}
void malformed(Ctx& c) {
  int comp = c.s.pick(7);
  static const char* names[] = {"IMU propagation", "velocity correction", "leg correction", "estimator", "gyro filter", "wheel odometry", "ROS publisher"};
  std::string y;
  ImuCfg ik;
  VelCfg vk;
  LegCfg lk;
  GyroCfg gk;
  gen_imu(c, ik);
  gk.four = c.s.chance(1, 2);
  switch (comp) {
    case 0: y = ik.yaml(); break;
    case 1: y = vk.yaml(); break;
    case 2: y = lk.yaml(); break;
    case 3: y = est_yaml(1, 1, 1); break;
    case 4: y = gk.yaml(); break;
    case 5: y = "logger:\n  enable_pose_logger: true\n  pose_log_file: wo.txt\n  pose_log_rate: 10\n"; break;
    default: y = "publishers:\n  pose_publish_topic: /a\n  path_publish_topic: /b\n  pose_frame: /o\n  pose_publish_rate: 10\n  path_publish_rate: 1\n"; break;
  }
  std::vector<Line> ls = parse(y);
  std::string what, file = "bad.yaml", body;
  bool exists = true;
  int kind = c.s.pick(7);
  Line* l = &ls[c.s.pick(ls.size())];
  auto join = [&] {
    std::string o, sec;
    for (auto& x : ls) {
      if (x.sec != sec) o += x.sec + ":\n", sec = x.sec;
      o += "  " + x.key + ": " + x.val + "\n";
    }
    return o;
  };
  auto list = [](const Line& x) { return x.val[0] == '['; };
  auto text = [](const Line& x) { return x.key.find("topic") != std::string::npos || x.key.find("frame") != std::string::npos || x.key.find("file") != std::string::npos; };
  switch (kind) {
    case 0:
      exists = false;
      what = c.s.chance(1, 2) ? "a missing file" : "a directory";
      file = what == "a directory" ? "." : "no/such/file.yaml";
      break;
    case 1: {
      static const char* junk[] = {"settings: [1, 2\n", "a: b: c\n", "noises: {velocity_std: 0.1\n", "- a\n b: c\n: :\n  - ]\n", "%YAML 9\n---\n&a *b\n", "a: &x 1\nb: *y\n", "a: b\n- c\n", "\tb: 3\n"};
      body = junk[c.s.pick(8)];
      what = "a syntax error (" + body.substr(0, body.size() - 1) + ")";
      break;
    }
    case 2:
    case 3: {  // a value of the wrong kind
      for (int i = 0; i < 40 && text(*l); ++i) l = &ls[c.s.pick(ls.size())];
      if (text(*l)) return;
      what = "value of " + l->key;
      static const char* wrong[] = {"abc", "{a: 1}", "1.0.0", "[x, y, z, w]", "\"\"", "12 monkeys"};
      l->val = list(*l) ? (c.s.chance(1, 2) ? "[1, abc, 0, 0]" : c.s.chance(1, 2) ? "0.5" : "{a: 1}") : wrong[c.s.pick(6)];
      what += ": " + l->val;
      body = join();
      break;
    }
    case 4: {  // a list that is too short
      if (comp != 0 && comp != 1 && comp != 4) return;
      for (int i = 0; i < 60 && !list(*l); ++i) l = &ls[c.s.pick(ls.size())];
      if (!list(*l)) return;
      int need = l->key.find("rotation") == 0 ? 4 : 3;
      int n = c.s.pick(need);
      std::string v = "[";
      for (int i = 0; i < n; ++i) v += (i ? ", " : "") + std::string(i ? "0.0" : "1.0");
      l->val = v + "]";
      what = l->key + " with " + std::to_string(n) + " entries";
      body = join();
      break;
    }
    case 5: {  // a mandatory key is absent
      if (comp < 3 || comp == 4) return;
      if (comp == 3) l = &ls[0];
      if (comp == 5) l = &ls[c.s.pick(2)];
      what = "absent " + l->key;
      std::string k = l->key;
      std::vector<Line> r;
      for (auto& x : ls)
        if (x.key != k) r.push_back(x);
      ls = r;
      body = join();
      if (comp == 3 && c.s.chance(1, 4)) body = "", what = "an empty file";
      break;
    }
    default:
      body = "just a word\n";
      what = "a file that is not a map";
      break;
  }
  if (exists) {
    std::ofstream o(file, std::ios::trunc);
    o << body;
  }
  c.desc << names[comp] << ": " << what << "; ";
  c.tag(std::string("malformed: ") + names[comp]);
  c.interesting();
  auto mu = std::make_shared<std::mutex>();
  ErrorType et = c.s.chance(1, 2) ? LeftInvariant : RightInvariant;
  int via = c.s.pick(2);  // directly, or through an estimator
  HistCfg hk;
  std::unique_ptr<Rig> rig;
  if (via && (comp < 3 || comp == 4)) rig = std::make_unique<Rig>(hk, et == LeftInvariant, Rig::write_cfg(hk));
  must_throw(c, std::string(names[comp]) + ": " + what, [&] {
    auto iq = std::make_shared<IMUQueue>();
    auto vq = std::make_shared<VelocityQueue>();
    auto lq = std::make_shared<LeggedKinQueue>();
    auto aq = std::make_shared<AngularVelocityQueue>();
    switch (comp) {
      case 0:
        if (rig) rig->e->add_imu_propagation(iq, mu, file);
        else ImuPropagation(iq, mu, et, file);
        break;
      case 1:
        if (rig) rig->e->add_velocity_correction(vq, mu, file);
        else VelocityCorrection(vq, mu, et, file);
        break;
      case 2:
        if (rig) rig->e->add_legged_kinematics_correction(lq, mu, file);
        else LeggedKinematicsCorrection(lq, mu, et, file);
        break;
      case 3: estimator::InekfEstimator(et, file); break;
      case 4:
        if (rig) rig->e->add_imu_ang_vel_ekf(iq, mu, aq, mu, file);
        else if (gk.four) imu_filter::ImuAngVelEKF(iq, mu, aq, mu, file);
        else imu_filter::ImuAngVelEKF(std::string(file));
        break;
      case 5: baseline::WheelOdometry(vq, mu, aq, std::make_shared<std::mutex>(), file); break;
      default: {
        ros::NodeHandle nh;
        RobotStateQueuePtr q(new RobotStateQueue);
        ros_wrapper::ROSPublisher(&nh, q, mu, std::string(file));
      }
    }
  });
  // the estimator is still usable
  if (rig) {
    Ev i;
    i.kind = Ev::IMU_;
    i.b = Eigen::Vector3d(0, 0, 9.8);
    rig->init(c, i, i, i);
  }
}
void log_names(Ctx& c) {
  static const char* dirs[] = {"d1", "v1.2", "a.b/c", "x.txt/y", "./r.0"};
  static const char* bases[] = {"pose", "p_q"};
  static const char* exts[] = {"", ".txt", ".csv"};
  std::string d = dirs[c.s.pick(5)], b = bases[c.s.pick(2)], e = exts[c.s.pick(3)], pre = c.s.chance(1, 2) ? scratch_dir() + "/" : "";
  std::string p = pre + d + "/" + b;
  (void)!system(("mkdir -p '" + d + "'").c_str());
  auto exists = [](const std::string& f) {
    struct stat st;
    return stat(f.c_str(), &st) == 0 && S_ISREG(st.st_mode);
  };
  bool wheel = c.s.chance(1, 3);
  c.desc << (wheel ? "wheel odometry" : "estimator") << " log file " << p << e << "; ";
  if (wheel) {
    unlink((p + ".txt").c_str());
    baseline::WheelOdometry w(std::make_shared<VelocityQueue>(), std::make_shared<std::mutex>(), std::make_shared<AngularVelocityQueue>(), std::make_shared<std::mutex>(),
                              write_file("wo.yaml", "logger:\n  enable_pose_logger: true\n  pose_log_file: \"" + p + e + "\"\n"));
    c.check(exists(p + ".txt"), "the pose log " + p + ".txt was not created");
  } else {
    std::string v = pre + d + "/v" + b;
    for (auto f : {p + ".txt", v + ".txt", v + "_body_frame.txt"}) unlink(f.c_str());
    {
      estimator::InekfEstimator est(RightInvariant, write_file("elog.yaml", "logger:\n  enable_pose_logger: true\n  pose_log_file: \"" + p + e + "\"\n  vel_log_file: \"" + v + e + "\"\n"));
    }
    for (auto f : {p + ".txt", v + ".txt", v + "_body_frame.txt"}) c.check(exists(f), "the log " + f + " was not created");
  }
  c.interesting();
  c.tag("log file name");
}
// an estimator built without any configuration file has the default priors
void no_file(Ctx& c) {
  void* mem = ::operator new(sizeof(estimator::InekfEstimator), std::align_val_t(64));
  std::memset(mem, 0xA5, sizeof(estimator::InekfEstimator));
  auto* e = ::new (mem) estimator::InekfEstimator();
  struct G {
    estimator::InekfEstimator* e;
    void* m;
    ~G() {
      e->~InekfEstimator();
      ::operator delete(m, std::align_val_t(64));
    }
  } g{e, mem};
  auto iq = std::make_shared<IMUQueue>();
  e->add_imu_propagation(iq, std::make_shared<std::mutex>(), write_file("imu0.yaml", "settings:\n  static_bias_initialization: false\n"));
  iq->push(mk_imu(1, c.s.vec(1), c.s.vec(1)));
  e->InitBias();
  e->InitState();
  Eigen::MatrixXd P = e->get_state().get_P();
  static const double dc[] = {0.03, 0.01, 1e-5};
  for (int d = 0; d < 3; ++d)
    expect_near(c, P.block(3 * d, 3 * d, 3, 3), Eigen::MatrixXd(dc[d] * Eigen::Matrix3d::Identity()), 1e-15, "initial covariance without a configuration file");
  iq->push(mk_imu(1.1, c.s.vec(1), c.s.vec(1)));
  e->RunOnce();
  c.tag("no configuration file");
}
}  // namespace
void property(Ctx& c) {
  switch (c.s.pick(16)) {
    case 0:
    case 1:
    case 2: imu_component(c); break;
    case 3:
    case 4: vel_component(c); break;
    case 5:
    case 6: leg_component(c); break;
    case 7:
    case 8:
    case 9: gyro_component(c); break;
    case 10:
    case 11:
    case 12: whole(c); break;
    case 13:
    case 14: malformed(c); break;
    default:
      if (c.s.chance(1, 3)) log_names(c);
      else if (c.s.chance(1, 2)) no_file(c);
      else malformed(c);
  }
}
}  // namespace vf
