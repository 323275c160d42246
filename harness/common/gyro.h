// Gyro filter: configuration generator, sample streams, and an independent long-double model of the filter.
#pragma once
#include <deque>

#include "drift/imu_filter/imu_ang_vel_ekf.h"
#include "drift_util.h"
#include "ref.h"

namespace vf {
using measurement::AngularVelocityMeasurement;
struct GyroCfg {
  bool four = false;                 // built with the four-buffer constructor
  int method = 0;                    // 0 IMU+encoder, 1 one IMU, 2 several IMUs, 3 encoder only
  int imus = 1;
  bool gyro = false;                 // propagate with a gyro
  bool flat = false, is_static = false;
  int n = 0;
  double thres = 0.03;
  std::array<double, 4> q{1, 0, 0, 0};
  Eigen::Vector3d bias = Eigen::Vector3d::Zero();
  double ws = .01, bs = .01, fs = .01, fbs = .01, is = .1, es = .1;
  bool omit_thres = false, omit_noise = false, omit_q = false, omit_bias = false, omit_n = false;
  bool has_enc() const { return method == 0 || method == 3; }
  int imu_n() const { return method == 3 ? 0 : method == 2 ? imus : 1; }
  std::string yaml() const {
    std::ostringstream o;
    o << "settings:\n  flat_ground: " << (flat ? "true" : "false") << "\n";
    if (!omit_q) o << "  rotation_imu2body: " << lst(q, 4) << "\n";
    if (!omit_thres) o << "  t_threshold: " << num(thres) << "\n";
    if (four) o << "  correction_method: " << method << "\n";
    if (is_static) o << "  static_bias_initialization: true\n";
    if (!omit_n) o << "  init_bias_size: " << n << "\n";
    if (!omit_bias) o << "priors:\n  ang_vel_bias: " << lst(bias, 3) << "\n";
    if (!omit_noise)
      o << "noises:\n  ang_vel_std: " << num(ws) << "\n  ang_vel_bias_std: " << num(bs) << "\n  filter_std: " << num(fs) << "\n  filter_bias_std: "
        << num(fbs) << "\n  imu_meas_noise_std: " << num(is) << "\n  encoder_meas_noise_std: " << num(es) << "\n";
    if (omit_bias && omit_noise) o << "unused: 0\n";
    return o.str();
  }
};
inline GyroCfg gen_gyro_cfg(Ctx& c) {
  GyroCfg k;
  k.method = c.s.range(0, 3);
  k.gyro = k.method == 3 ? !c.s.chance(1, 8) : c.s.chance(1, 2);
  k.imus = c.s.range(2, 4);
  k.four = k.method != 2 && c.s.chance(1, 3);
  k.flat = c.s.chance(1, 2);
  k.is_static = k.method != 3 && c.s.chance(1, 3);  // documented for IMU corrections only
  k.n = k.is_static ? (c.s.chance(1, 8) ? 0 : c.s.range(1, 12)) : c.s.range(0, 5);
  k.omit_n = !k.is_static && c.s.chance(1, 4);
  k.omit_thres = c.s.chance(1, 4);
  k.thres = k.omit_thres ? 0.03 : c.s.chance(1, 6) ? 0 : c.s.chance(1, 2) ? double(c.s.range(1, 64)) / 1024 : c.s.logu(-3, 0);
  k.omit_q = c.s.chance(1, 6);
  if (!k.omit_q) k.q = cfg_quat(c);
  k.omit_bias = c.s.chance(1, 4);
  if (!k.omit_bias) k.bias = c.s.vec(0.5);
  k.omit_noise = c.s.chance(1, 6);
  if (!k.omit_noise) {
    double* p[] = {&k.ws, &k.bs, &k.fs, &k.fbs, &k.is, &k.es};
    for (auto x : p) *x = cfg_std(c);
  }
  return k;
}
inline void show_gyro_cfg(std::ostream& o, const GyroCfg& k) {
  static const char* m[] = {"imu+enc", "imu", "imus", "enc"};
  o << m[k.method] << (k.method == 2 ? std::to_string(k.imus) : "") << (k.four ? " 4buf" : "") << (k.gyro ? " gyro" : " rw") << (k.flat ? " 3D" : " 1D");
  if (k.is_static) o << " static" << k.n;
  o << " thres=" << num(k.thres) << "; ";
}

// one sample; sensor: 0 gyro, 1..imus IMU, 9 encoder
struct GSample {
  int sensor;
  double t;
  Eigen::Vector3d w, a;
  std::array<double, 4> q;
  uint64_t seq;
  std::string frame;
};

// The model.  Sample stamps are on a 1/1024 grid, so every time comparison is exact.
struct GyroModel {
  using L = ref::L;
  GyroCfg k;
  std::deque<GSample> gq, eq;
  std::vector<std::deque<GSample>> iq;
  ref::V x = ref::V::Zero(6);
  ref::M P = ref::M::Zero(6, 6), Q = ref::M::Zero(6, 6);
  ref::V3 prev = ref::V3::Zero();
  double last = -1;
  bool up_ = false;
  std::vector<ref::V3> init;
  bool have_latest = false;
  GSample latest;
  struct Out {
    GSample src;   // the sample whose fields are copied
    double t;
    ref::V3 w;
    bool enc;
  };
  std::vector<Out> out;  // outputs of the last step
  int applied = 0, stale = 0, early = 0, popped = 0;
  double growth = 1;

  explicit GyroModel(const GyroCfg& c) : k(c), iq(c.imu_n()) {
    for (int i = 0; i < 3; ++i) {
      P(i, i) = L(k.ws) * L(k.ws);
      P(i + 3, i + 3) = L(k.bs) * L(k.bs);
      Q(i, i) = L(k.fs) * L(k.fs);
      Q(i + 3, i + 3) = L(k.fbs) * L(k.fbs);
    }
    if (!k.is_static) x.tail(3) = ref::v3(k.bias);
  }
  void push(const GSample& s) {
    if (s.sensor == 0) gq.push_back(s);
    else if (s.sensor == 9) eq.push_back(s);
    else iq[s.sensor - 1].push_back(s);
  }
  void clear() {
    gq.clear();
    eq.clear();
    for (auto& q : iq) q.clear();
  }
  size_t pending() const {
    size_t n = eq.size();
    for (auto& q : iq) n += q.size();
    return n;
  }
  void kalman(const ref::V3& z, bool enc) {
    ref::M H = ref::M::Zero(3, 6);
    for (int i = k.flat ? 0 : 2; i < 3; ++i) {
      H(i, i) = 1;
      if (!enc) H(i, i + 3) = 1;
    }
    L r = enc ? L(k.es) * L(k.es) : L(k.is) * L(k.is);
    ref::V zz = z;
    if (enc) {
      // body -> IMU frame
      ref::M3 R = ref::up(rotq(k.q)).block<3, 3>(0, 0);
      zz = R.transpose() * z;
    }
    // joint 6x6 problem solved axis by axis: the covariance is block-diagonal over the axes
    ref::M S = H * P * H.transpose() + r * ref::M::Identity(3, 3);
    ref::M K = P * H.transpose() * S.inverse();
    x = (x + K * (zz - H * x)).eval();
    ref::M I = ref::M::Identity(6, 6) - K * H;
    P = (I * P * I.transpose() + r * K * K.transpose()).eval();
  }
  void emit(const GSample& src, double t, bool enc) { out.push_back({src, t, ref::V3(x.head(3)), enc}); }
  bool recent(double t) const { return last == -1 || last - t <= k.thres; }
  void step() {
    out.clear();
    if (!up_) {
      if (!k.is_static) {
        up_ = true;
        return;
      }
      if (int(init.size()) < k.n) {
        if (iq[0].empty()) return;
        init.push_back(ref::v3(iq[0].front().w));
        iq[0].pop_front();
        if (k.gyro && !gq.empty()) {
          prev = ref::v3(gq.front().w);
          gq.pop_front();
        }
        return;
      }
      ref::V3 m = ref::V3::Zero();
      for (auto& v : init) m += v;
      if (!init.empty()) m /= L(init.size());
      x.head(3).setZero();
      x.tail(3) = m;
      clear();
      up_ = true;
      return;
    }
    if (k.gyro) {
      if (!gq.empty()) {
        GSample g = gq.front();
        gq.pop_front();
        last = g.t;
        if (k.method == 3) latest = g, have_latest = true;
        x.head(3) += ref::v3(g.w) - prev;
        prev = ref::v3(g.w);
        P += Q;
      }
    } else
      P += Q;
    switch (k.method) {
      case 0: {
        bool i = !iq[0].empty(), e = !eq.empty();
        if (i && e) {
          if (iq[0].front().t <= eq.front().t) e = false;
          else i = false;
        }
        if (i) {
          GSample s = iq[0].front();
          iq[0].pop_front();
          latest = s, have_latest = true;
          if (recent(s.t)) kalman(ref::v3(s.w), false), emit(s, s.t, false), ++applied;
          else ++stale;
        } else if (e) {
          GSample s = eq.front();
          eq.pop_front();
          if (!have_latest) ++early;
          else if (recent(s.t)) kalman(ref::v3(s.w), true), emit(latest, s.t, true), ++applied;
          else ++stale;
        }
        break;
      }
      case 1:
        if (!iq[0].empty()) {
          GSample s = iq[0].front();
          if (!k.gyro || (last >= s.t && last - s.t <= k.thres)) {
            iq[0].pop_front();
            kalman(ref::v3(s.w), false), emit(s, s.t, false), ++applied;
          } else if (last - s.t > k.thres) {
            iq[0].pop_front();
            ++stale;
          }
        }
        break;
      case 2:
        for (auto& q : iq) {
          if (q.empty()) continue;
          GSample s = q.front();
          q.pop_front();
          if (recent(s.t)) kalman(ref::v3(s.w), false), emit(s, s.t, false), ++applied;
          else ++stale;
        }
        break;
      case 3:
        if (!eq.empty()) {
          GSample s = eq.front();
          eq.pop_front();
          if (!have_latest) ++early;
          else kalman(ref::v3(s.w), true), emit(latest, s.t, true), ++applied;
        }
        break;
    }
  }
};

// The library's filter with its queues.
struct GyroRig {
  IMUQueuePtr gq = std::make_shared<IMUQueue>();
  std::shared_ptr<std::mutex> gm = std::make_shared<std::mutex>();
  std::vector<IMUQueuePtr> iq;
  std::vector<std::shared_ptr<std::mutex>> im;
  AngularVelocityQueuePtr eq = std::make_shared<AngularVelocityQueue>();
  std::shared_ptr<std::mutex> em = std::make_shared<std::mutex>();
  std::shared_ptr<imu_filter::ImuAngVelEKF> f;
  IMUQueuePtr oq;
  std::shared_ptr<std::mutex> om;
  std::vector<std::pair<ImuMeasurementPtr, GSample>> given_i;  // for checking that inputs stay as they were
  std::vector<std::pair<AngularVelocityMeasurementPtr, GSample>> given_e;

  explicit GyroRig(const GyroCfg& k, const std::string& tag = "gyro.yaml") {
    std::string y = write_file(tag, k.yaml());
    for (int i = 0; i < std::max(1, k.imu_n()); ++i) iq.push_back(std::make_shared<IMUQueue>()), im.push_back(std::make_shared<std::mutex>());
    if (k.four)
      f = std::make_shared<imu_filter::ImuAngVelEKF>(iq[0], im[0], eq, em, y);
    else {
      f = std::make_shared<imu_filter::ImuAngVelEKF>(y);
      for (int i = 0; i < k.imu_n(); ++i) f->add_imu_correction(iq[i], im[i]);
      if (k.has_enc()) f->add_ang_vel_correction(eq, em);
    }
    if (k.gyro) f->add_gyro_propagate(gq, gm);
    auto p = f->get_filtered_imu_data_buffer_and_mutex_ptr();
    oq = p.first;
    om = p.second;
  }
  void push(const GSample& s) {
    if (s.sensor == 9) {
      auto m = std::make_shared<AngularVelocityMeasurement<double>>();
      m->set_header(s.seq, s.t, s.frame);
      m->set_angular_velocity(s.w(0), s.w(1), s.w(2));
      eq->push(m);
      given_e.push_back({m, s});
    } else {
      auto m = mk_imu(s.t, s.w, s.a, s.q);
      m->set_header(s.seq, s.t, s.frame);
      (s.sensor ? iq[s.sensor - 1] : gq)->push(m);
      given_i.push_back({m, s});
    }
  }
  std::vector<ImuMeasurementPtr> take() {
    std::vector<ImuMeasurementPtr> r;
    while (!oq->empty()) r.push_back(oq->front()), oq->pop();
    return r;
  }
};

// sample streams and step schedule
struct GEv {
  int kind;  // 0 push, 1 step, 2 clear
  GSample s;
};
inline std::vector<GEv> gen_gyro_hist(Ctx& c, const GyroCfg& k, size_t maxn, bool clears) {
  std::vector<GEv> ev;
  std::vector<int> sensors;
  for (int i = 1; i <= k.imu_n(); ++i) sensors.push_back(i);
  if (k.has_enc()) sensors.push_back(9);
  if (k.gyro) sensors.push_back(0), sensors.push_back(0);
  std::map<int, double> clock;
  double base = c.s.chance(1, 8) ? 0 : 100 + c.s.range(0, 5);
  int pace = c.s.range(0, 2);  // 0 step after every push, 1 mixed, 2 bursts
  Eigen::Vector3d w0 = c.s.vec(2), noise = c.s.vec(0.3);
  double span = c.s.chance(1, 2) ? 4 : 64;
  double now = base;
  while (c.s.more() && ev.size() < maxn) {
    uint32_t op = c.s.next() % 16;
    if (op < (pace == 2 ? 12u : 9u)) {
      GSample s;
      s.sensor = sensors[c.s.pick(sensors.size())];
      // time: near the common clock, sometimes late, early or after a gap
      switch (c.s.pick(8)) {
        case 0: now += double(c.s.range(0, int(span) * 4)) / 1024; break;
        case 1: break;
        default: now += double(c.s.range(1, int(span))) / 1024;
      }
      double t = now;
      if (c.s.chance(1, 4)) t -= double(c.s.range(0, 100)) / 1024;
      else if (c.s.chance(1, 8)) t += double(c.s.range(0, 60)) / 1024;
      if (c.s.chance(1, 6) && !clock.empty()) {  // exact coincidence with, or exactly one threshold away from, another sensor
        auto it = clock.begin();
        std::advance(it, c.s.pick(clock.size()));
        t = it->second + (c.s.chance(1, 2) ? 0 : -grid_round(k.thres));
      }
      t = std::max(t, 0.0);
      if (clock.count(s.sensor) && !c.s.chance(1, 10)) t = std::max(t, clock[s.sensor]);  // usually ordered per sensor
      clock[s.sensor] = t;
      s.t = t;
      Bulk b(c.s.next());
      for (int i = 0; i < 3; ++i) {
        s.w(i) = w0(i) + noise(i) * b.sym() + (b.zero ? 0 : 0.1 * b.sym());
        s.a(i) = b.sym() * 20;
      }
      Eigen::Vector4d q(1 + b.sym(), b.sym(), b.sym(), b.sym());
      q.normalize();
      s.q = {q(0), q(1), q(2), q(3)};
      s.seq = b.zero ? 0 : b.next() % 1000;
      s.frame = b.zero ? "" : "f" + std::to_string(b.next() % 10);
      ev.push_back({0, s});
      if (pace == 0) ev.push_back({1, {}});
    } else if (op < 15 || !clears)
      ev.push_back({1, {}});
    else if (clears && c.s.chance(1, 3))
      ev.push_back({2, {}});
  }
  return ev;
}
inline std::string show_gsample(const GSample& s) {
  std::ostringstream o;
  o << (s.sensor == 9 ? std::string("E") : s.sensor ? "I" + std::to_string(s.sensor) : std::string("G")) << "@" << num(s.t);
  return o.str();
}
inline void show_gyro_hist(std::ostream& o, const std::vector<GEv>& ev) {
  size_t n = 0;
  for (auto& e : ev) {
    if (++n > 60) {
      o << "...(" << ev.size() << ")";
      break;
    }
    o << (e.kind == 0 ? show_gsample(e.s) : e.kind == 1 ? "." : "CLEAR") << " ";
  }
}
}  // namespace vf
