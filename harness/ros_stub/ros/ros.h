// Stand-in for the parts of roscpp that ROS/drift/src/communication uses.  No network: a message bus in memory whose deliveries, clock and
// loop rate are driven by the harness.
#pragma once
#include <atomic>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

namespace ros {
struct Duration {
  int32_t sec = 0, nsec = 0;
  Duration() {}
  explicit Duration(double t) {
    sec = int32_t(std::floor(t));
    nsec = int32_t(std::floor((t - sec) * 1e9 + 0.5));
  }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  bool sleep() const { return true; }
};
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  // as in roscpp (TimeBase::fromSec)
  Time& fromSec(double t) {
    int64_t sec64 = int64_t(std::floor(t));
    if (sec64 < 0 || sec64 > 0xFFFFFFFFll) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = uint32_t(sec64);
    nsec = uint32_t(std::floor((t - double(sec)) * 1e9 + 0.5));
    sec += nsec / 1000000000ul;
    nsec %= 1000000000ul;
    return *this;
  }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  uint64_t toNSec() const { return uint64_t(sec) * 1000000000ull + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  static Time now() { return Time(1, 0); }
};
inline bool operator==(const Time& a, const Time& b) { return a.sec == b.sec && a.nsec == b.nsec; }
inline bool operator<(const Time& a, const Time& b) { return a.sec < b.sec || (a.sec == b.sec && a.nsec < b.nsec); }
inline Duration operator-(const Time& a, const Time& b) {
  Duration d;
  int64_t n = int64_t(a.toNSec()) - int64_t(b.toNSec());
  d.sec = int32_t(n / 1000000000);
  d.nsec = int32_t(n % 1000000000);
  return d;
}
}  // namespace ros

namespace ros_stub {
struct Sub {
  std::type_index type;
  std::function<void(const boost::shared_ptr<const void>&)> call;
};
struct Published {
  std::string topic;
  std::type_index type;
  boost::shared_ptr<const void> msg;
};
struct Bus {
  std::mutex m;
  std::map<std::string, std::vector<std::pair<uint64_t, Sub>>> subs;
  std::map<std::string, std::type_index> advertised;
  std::vector<Published> out;
  uint64_t next_id = 1;
  uint64_t add(const std::string& topic, Sub s) {
    std::lock_guard<std::mutex> l(m);
    subs[topic].emplace_back(next_id, std::move(s));
    return next_id++;
  }
  void remove(const std::string& topic, uint64_t id) {
    std::lock_guard<std::mutex> l(m);
    auto& v = subs[topic];
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i].first == id) {
        v.erase(v.begin() + i);
        return;
      }
  }
  // delivers to every subscriber of that topic and type; returns how many
  template <class M>
  int deliver(const std::string& topic, const M& msg) {
    std::vector<std::pair<uint64_t, Sub>> v;
    {
      std::lock_guard<std::mutex> l(m);
      v = subs[topic];
    }
    int n = 0;
    boost::shared_ptr<const M> p = boost::make_shared<M>(msg);
    for (auto& s : v)
      if (s.second.type == std::type_index(typeid(M))) {
        s.second.call(p);
        ++n;
      }
    return n;
  }
  void reset() {
    std::lock_guard<std::mutex> l(m);
    subs.clear();
    advertised.clear();
    out.clear();
  }
};
inline Bus& bus() {
  static Bus b;
  return b;
}
// what ros::ok() and ros::Rate do; a harness may replace them
struct Control {
  std::atomic<bool> ok{true};
  std::function<void(const void* rate, double hz)> rate_made;
  std::function<void(const void* rate)> rate_sleep;
  std::function<void()> spin_once;
};
inline Control& control() {
  static Control c;
  return c;
}
}  // namespace ros_stub

namespace ros {
struct Subscriber {
  std::shared_ptr<void> hold;
  void shutdown() { hold.reset(); }
};
struct Publisher {
  std::string topic;
  std::type_index type = std::type_index(typeid(void));
  bool valid = false;
  template <class M>
  void publish(const M& m) const {
    if (!valid) throw std::runtime_error("publish on an invalid publisher");
    if (type != std::type_index(typeid(M))) throw std::runtime_error("published message does not have the advertised type");
    auto& b = ros_stub::bus();
    std::lock_guard<std::mutex> l(b.m);
    b.out.push_back({topic, type, boost::shared_ptr<const void>(boost::make_shared<M>(m))});
  }
  template <class M>
  void publish(const boost::shared_ptr<M>& m) const {
    publish(*m);
  }
};
struct NodeHandle {
  NodeHandle(const std::string& = "") {}
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t, const boost::function<void(const boost::shared_ptr<const M>&)>& cb) {
    uint64_t id = ros_stub::bus().add(topic, {std::type_index(typeid(M)), [cb](const boost::shared_ptr<const void>& p) {
                                                cb(boost::static_pointer_cast<const M>(p));
                                              }});
    Subscriber s;
    s.hold = std::shared_ptr<void>(nullptr, [topic, id](void*) { ros_stub::bus().remove(topic, id); });
    return s;
  }
  template <class M>
  Publisher advertise(const std::string& topic, uint32_t, bool = false) {
    auto& b = ros_stub::bus();
    std::lock_guard<std::mutex> l(b.m);
    b.advertised.emplace(topic, std::type_index(typeid(M)));
    Publisher p;
    p.topic = topic;
    p.type = std::type_index(typeid(M));
    p.valid = true;
    return p;
  }
  template <class T>
  bool param(const std::string&, T& v, const T& d) const {
    v = d;
    return false;
  }
};
struct Rate {
  double hz;
  explicit Rate(double f) : hz(f) {
    if (ros_stub::control().rate_made) ros_stub::control().rate_made(this, f);
  }
  bool sleep() {
    if (ros_stub::control().rate_sleep) ros_stub::control().rate_sleep(this);
    return true;
  }
};
inline bool ok() { return ros_stub::control().ok.load(); }
inline void shutdown() { ros_stub::control().ok = false; }
inline void init(int&, char**, const std::string&) {}
inline void spinOnce() {
  if (ros_stub::control().spin_once) ros_stub::control().spin_once();
}
inline void waitForShutdown() {}
struct AsyncSpinner {
  explicit AsyncSpinner(uint32_t) {}
  void start() {}
  void stop() {}
};
struct MultiThreadedSpinner {
  explicit MultiThreadedSpinner(uint32_t = 0) {}
  void spin() {}
};
}  // namespace ros
#define ROS_INFO(...)
#define ROS_WARN(...)
#define ROS_ERROR(...)
#define ROS_INFO_STREAM(x)
#define ROS_WARN_STREAM(x)
#define ROS_ERROR_STREAM(x)
