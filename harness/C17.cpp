#include "common/gyro.h"
namespace vf {
const char* kProperty = "C17";
const char* kRule =
    "gyro-filter configurations (4 correction modes, gyro or random-walk propagation, 3-D/planar observation, extrinsics, noises, bias prior or static "
    "initialisation, both constructors, keys omitted) with streams of <=90 samples from 1..6 sensors interleaved with steps; every output is compared "
    "with a long-double Kalman filter (rates) and with its source sample (all other fields). Non-trivial: >=3 outputs compared.";
size_t kMaxTape = 600;
int kCaseTimeout = 20;
void per_process_setup() {
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
}
void property(Ctx& c) {
  GyroCfg k = gen_gyro_cfg(c);
  show_gyro_cfg(c.desc, k);
  std::vector<GEv> ev = gen_gyro_hist(c, k, 120, false);
  show_gyro_hist(c.desc, ev);
  for (int i = 0; i < 12; ++i) ev.push_back({1, {}});
  GyroRig r(k);
  GyroModel m(k);
  double nmin = std::min(k.is, k.es);
  int outs = 0, encs = 0;
  size_t idx = 0;
  double smax = 1;
  for (auto& e : ev) {
    ++idx;
    if (e.kind == 0) {
      r.push(e.s);
      m.push(e.s);
      smax = std::max(smax, e.s.w.cwiseAbs().maxCoeff());
      continue;
    }
    double before = double(ref::maxabs(m.P));
    r.f->RunOnce();
    m.step();
    auto got = r.take();
    std::string at = "event " + std::to_string(idx);
    c.check(got.size() == m.out.size(), at + ": " + std::to_string(got.size()) + " outputs, expected " + std::to_string(m.out.size()));
    // rounding of the gain: relative to the ratio of covariance and noise
    double pm = std::max(before, double(ref::maxabs(m.P)));
    double tol = 1e-11 * smax * (1 + pm / (nmin * nmin)) * double(m.applied + 10);
    for (size_t i = 0; i < got.size(); ++i) {
      auto& w = m.out[i];
      auto& g = *got[i];
      expect_near(c, g.get_angular_velocity(), w.w, tol, at + ": filtered rate");
      c.check(g.get_time() == w.t, at + ": stamp " + num(g.get_time()) + ", expected " + num(w.t));
      c.check(g.get_lin_acc() == w.src.a, at + ": acceleration not copied");
      auto q = g.get_quaternion();
      ImuMeasurement<double> src;
      src.set_quaternion(w.src.q[0], w.src.q[1], w.src.q[2], w.src.q[3]);
      c.check(q.coeffs() == src.get_quaternion().coeffs(), at + ": orientation not copied");
      c.check(g.header.frame_id == w.src.frame, at + ": frame not copied");
      c.check(uint64_t(g.header.seq) == w.src.seq, at + ": sequence number not copied");
      c.check(g.get_type() == IMU, at + ": type");
      ++outs;
      encs += w.enc;
    }
  }
  for (auto& p : r.given_i) {
    c.check(p.first->get_angular_velocity() == p.second.w && p.first->get_time() == p.second.t, "input IMU sample modified");
  }
  if (outs >= 3) c.interesting();
  c.tag(k.method == 0 ? "imu+encoder" : k.method == 1 ? "one imu" : k.method == 2 ? "several imus" : "encoder");
  c.tag(k.gyro ? "gyro" : "random walk");
  c.tag(k.flat ? "3-D" : "planar");
  if (k.is_static) c.tag("static");
  if (k.is_static && m.up_ && outs) c.tag("static with outputs");
  if (k.four) c.tag("4-buffer constructor");
  if (encs) c.tag("encoder outputs");
  if (m.stale) c.tag("stale samples");
}
}  // namespace vf
