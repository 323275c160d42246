#include "common/gyro.h"
namespace vf {
const char* kProperty = "C18";
const char* kRule =
    "gyro-filter configurations as in C17 with bursts, delays, gaps, ties, samples exactly at the threshold and clears at arbitrary points; after every "
    "step the outputs' sources and every queue length are compared with a scheduling model; at the end the filter is stepped until it should be "
    "drained. Non-trivial: >=4 samples consumed, with >=2 kinds of fate (applied / stale / before any IMU / cleared / waiting).";
size_t kMaxTape = 600;
int kCaseTimeout = 20;
void per_process_setup() {
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
}
void property(Ctx& c) {
  GyroCfg k = gen_gyro_cfg(c);
  show_gyro_cfg(c.desc, k);
  std::vector<GEv> ev = gen_gyro_hist(c, k, 140, true);
  show_gyro_hist(c.desc, ev);
  GyroRig r(k);
  GyroModel m(k);
  size_t idx = 0, outs = 0, cleared = 0, given = 0;
  auto sizes = [&](const std::string& at) {
    c.check(r.gq->size() == m.gq.size(), at + ": gyro queue holds " + std::to_string(r.gq->size()) + ", expected " + std::to_string(m.gq.size()));
    c.check(r.eq->size() == m.eq.size(), at + ": encoder queue holds " + std::to_string(r.eq->size()) + ", expected " + std::to_string(m.eq.size()));
    for (size_t i = 0; i < m.iq.size(); ++i)
      c.check(r.iq[i]->size() == m.iq[i].size(),
              at + ": IMU queue " + std::to_string(i + 1) + " holds " + std::to_string(r.iq[i]->size()) + ", expected " + std::to_string(m.iq[i].size()));
  };
  auto one = [&](const std::string& at) {
    r.f->RunOnce();
    m.step();
    auto got = r.take();
    c.check(got.size() == m.out.size(), at + ": " + std::to_string(got.size()) + " outputs, expected " + std::to_string(m.out.size()));
    for (size_t i = 0; i < got.size(); ++i) {
      c.check(got[i]->get_time() == m.out[i].t, at + ": output stamped " + num(got[i]->get_time()) + ", expected " + num(m.out[i].t));
      c.check(got[i]->get_lin_acc() == m.out[i].src.a, at + ": output built from another sample");
    }
    outs += got.size();
    sizes(at);
  };
  for (auto& e : ev) {
    std::string at = "event " + std::to_string(++idx);
    if (e.kind == 0) {
      r.push(e.s);
      m.push(e.s);
      ++given;
      c.check(r.oq->empty(), at + ": output without a step");
    } else if (e.kind == 1)
      one(at);
    else {
      bool leave = m.up_ && idx % 2;
      if (leave) {  // leave an output in the queue: clear() removes it as well
        r.f->RunOnce();
        m.step();
      }
      cleared += m.pending() + m.gq.size();
      r.f->clear();
      m.clear();
      c.check(r.oq->empty(), at + ": clear() left filtered samples");
      sizes(at + " (clear)");
    }
  }
  // drain: every step consumes something until only samples ahead of the gyro are left
  size_t bound = given + 4;
  for (size_t i = 0; i < bound; ++i) one("drain step " + std::to_string(i));
  if (m.up_) {
    c.check(r.gq->empty(), "gyro samples left after draining");
    c.check(r.eq->empty(), "encoder samples left after draining");
    for (size_t i = 0; i < r.iq.size(); ++i)
      c.check(r.iq[i]->empty() || (k.method == 1 && k.gyro && r.iq[i]->front()->get_time() > m.last), "usable IMU samples left after draining");
  }
  int fates = (m.applied > 0) + (m.stale > 0) + (m.early > 0) + (cleared > 0) + (m.pending() > 0);
  if (given >= 4 && fates >= 2) c.interesting();
  if (m.stale) c.tag("stale");
  if (m.early) c.tag("encoder before IMU");
  if (cleared) c.tag("cleared");
  if (m.pending()) c.tag("waiting");
  c.tag(k.method == 0 ? "imu+encoder" : k.method == 1 ? "one imu" : k.method == 2 ? "several imus" : "encoder");
  // destruction must not need a running thread
  r.f.reset();
}
}  // namespace vf
