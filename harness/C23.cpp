#include <fstream>
#include <iostream>
#include <memory>
#include <new>

#include "common/ref.h"
#include "common/tape.h"
#include "communication/ros_subscriber.h"
namespace vf {
const char* kProperty = "C23";
const char* kRule =
    "1..6 simultaneous subscriptions of the ten kinds (topics shared or not) on a stand-in ROS message bus, then <=40 deliveries in any interleaving; after "
    "each delivery every queue is compared with a model (length and newest element), at the end every element of every queue is compared with what its message "
    "says, odometry against the long-double SE(3) logarithm of consecutive poses of the same source. Non-trivial: >=2 subscriptions fed, >=6 messages.";
size_t kMaxTape = 900;
int kCaseTimeout = 10;
void per_process_setup() {
  static std::ofstream null("/dev/null");
  std::cout.rdbuf(null.rdbuf());
}
namespace {
using ref::L;
using ref::M3;
using ref::V3;
enum Kind { IMU_T, FETCH_IMU, KIN, VEL, VELCOV, DIFF, DIFF2, FETCH_LIN, FETCH2, ODOM_T, NKIND };
const char* kname[] = {"imu", "fetch-imu", "cheetah", "vel", "velcov", "diff", "diff+ang", "fetch-lin", "fetch+ang", "odom"};
struct Hd {
  uint32_t seq = 0, sec = 0, nsec = 0;
  std::string frame;
  double t() const { return double((L(sec) * 1000000000.0L + L(nsec)) / 1000000000.0L); }
};
struct Exp {
  Hd h;
  Eigen::Vector3d a = Eigen::Vector3d::Zero(), b = Eigen::Vector3d::Zero();  // velocity / gyro, acc
  Eigen::Vector4d q = Eigen::Vector4d::Zero();                               // w x y z; 0 = none
  double tol = 0;
  bool ambiguous = false;  // half-turn between two odometry poses: the logarithm is not unique
  Eigen::Matrix<double, 12, 1> pos, vel;
  Eigen::Matrix<bool, 4, 1> ct;
};
struct Sub {
  int kind;
  std::string topic, topic2;
  double radius = 0, track = 1;
  Eigen::Vector3d ot;
  Eigen::Quaterniond oq;
  // received
  IMUQueuePair imu;
  LeggedKinQueuePair kin;
  VelocityQueuePair vel;
  AngularVelocityQueuePair ang;
  // model
  std::vector<Exp> want, want_ang;
  bool has_prev = false;
  V3 pp;
  M3 pR;
  Hd ph;
};
double val(Ctx& c) {
  switch (c.s.pick(6)) {
    case 0: return 0;
    case 1: return c.s.range(-5, 5);
    case 2: return c.s.logmag(-12, 6);
    default: return 20 * c.s.sym();
  }
}
geometry_msgs::Vector3 v3msg(const Eigen::Vector3d& v) {
  geometry_msgs::Vector3 m;
  m.x = v(0);
  m.y = v(1);
  m.z = v(2);
  return m;
}
Eigen::Vector3d gvec(Ctx& c) { return Eigen::Vector3d(val(c), val(c), val(c)); }
std_msgs::Header hmsg(const Hd& h) {
  std_msgs::Header m;
  m.seq = h.seq;
  m.stamp.sec = h.sec;
  m.stamp.nsec = h.nsec;
  m.frame_id = h.frame;
  return m;
}
template <class Q>
size_t size_of(const Q& q) {
  return q ? q->size() : 0;
}
void same_header(Ctx& c, const Measurement& m, const Hd& h, const std::string& at) {
  if (m.header.seq != h.seq) c.fail(at + "sequence number " + std::to_string(m.header.seq) + " but the message had " + std::to_string(h.seq));
  c.check(m.header.frame_id == h.frame, at + "frame " + m.header.frame_id + " but the message had " + h.frame);
  double w = h.t();
  std::ostringstream o;
  o << std::setprecision(17) << at << "stamp " << m.get_time() << " but the message had " << w;
  c.check(std::abs(m.get_time() - w) <= 1e-9 + 4e-16 * w, o.str());
}
void check_imu(Ctx& c, ImuMeasurement<double>& m, const Exp& e, const std::string& at) {
  c.check(m.get_type() == IMU, at + "type is not IMU");
  same_header(c, m, e.h, at);
  expect_near(c, m.get_angular_velocity(), e.a, 4e-16 * (1 + e.a.cwiseAbs().maxCoeff() + e.b.cwiseAbs().maxCoeff()) * (e.tol > 0 ? 1e2 : 0), at + "angular velocity");
  expect_near(c, m.get_lin_acc(), e.b, 0, at + "linear acceleration");
  Eigen::Quaterniond q = m.get_quaternion();
  if (e.q.squaredNorm() == 0) {
    Eigen::Quaterniond d = ImuMeasurement<double>().get_quaternion();
    expect_near(c, q.coeffs(), d.coeffs(), 0, at + "orientation of a message without one");
  } else {
    Eigen::Vector4d w = e.q.normalized();
    Eigen::Vector4d g(q.w(), q.x(), q.y(), q.z());
    // a unit orientation arrives as it is, one that is nearly unit arrives as the unit one
    expect_near(c, g, w, 2e-5, at + "orientation (w, x, y, z)");
    expect_near(c, g.normalized(), w, 1e-12, at + "orientation direction (w, x, y, z)");
  }
}
void check_vec(Ctx& c, const Eigen::Vector3d& g, const Exp& e, const std::string& at) {
  expect_near(c, g, e.a, e.tol, at);
}
Hd header(Ctx& c, int64_t& clock_ns) {
  Hd h;
  h.seq = c.s.chance(1, 6) ? 0xFFFFFFF0u + c.s.pick(16) : c.s.pick(100000);
  h.frame = c.s.chance(1, 5) ? "" : "frame" + std::to_string(c.s.pick(9));
  switch (c.s.pick(5)) {
    case 0: clock_ns += int64_t(c.s.range(1, 9)) * 100000000; break;
    case 1: clock_ns += c.s.range(1, 1000); break;
    case 2: clock_ns += int64_t(c.s.range(1, 3)) * 1000000000; break;
    default: clock_ns += c.s.range(1000000, 50000000); break;
  }
  h.sec = uint32_t(clock_ns / 1000000000);
  h.nsec = uint32_t(clock_ns % 1000000000);
  return h;
}
Exp gen_imu(Ctx& c, sensor_msgs::Imu& m, const Hd& h) {
  Exp e;
  e.h = h;
  e.a = gvec(c);
  e.b = gvec(c);
  m.header = hmsg(h);
  m.angular_velocity = v3msg(e.a);
  m.linear_acceleration = v3msg(e.b);
  Eigen::Quaterniond q = c.s.quat();
  e.q = Eigen::Vector4d(q.w(), q.x(), q.y(), q.z());
  Eigen::Vector4d raw = e.q;
  switch (c.s.pick(6)) {
    case 0: raw.setZero(), e.q.setZero(), c.tag("no orientation"); break;
    case 1: raw *= 1 + c.s.logmag(-9, -1.5), c.tag("orientation not quite unit"); break;
    case 2:
      if (c.s.chance(1, 3)) raw.setConstant(std::nan("")), e.q.setZero(), c.tag("orientation is not a number");
      break;
    default: break;
  }
  m.orientation.w = raw(0);
  m.orientation.x = raw(1);
  m.orientation.y = raw(2);
  m.orientation.z = raw(3);
  for (double& x : m.orientation_covariance) x = 0.25;
  return e;
}
}  // namespace

void property(Ctx& c) {
  auto& bus = ros_stub::bus();
  bus.reset();
  ros::NodeHandle nh;
  std::vector<Sub> S;
  int n = c.s.range(1, 6);
  int64_t clock0 = c.s.chance(1, 3) ? int64_t(c.s.range(0, 3)) : c.s.chance(1, 4) ? 4294960000ll : int64_t(1600000000) + c.s.pick(100000000);
  int64_t clock_ns = clock0 * 1000000000 + c.s.pick(1000000000);
  // the object lives in memory that held something else before
  void* mem = ::operator new(sizeof(ros_wrapper::ROSSubscriber), std::align_val_t(64));
  std::memset(mem, 0xA5, sizeof(ros_wrapper::ROSSubscriber));
  ros_wrapper::ROSSubscriber* rs = ::new (mem) ros_wrapper::ROSSubscriber(&nh);
  struct Guard {
    ros_wrapper::ROSSubscriber* p;
    void* m;
    ~Guard() {
      p->~ROSSubscriber();
      ::operator delete(m, std::align_val_t(64));
      ros_stub::bus().reset();
    }
  } guard{rs, mem};
  auto subscribe = [&](int kind) {
    Sub s;
    s.kind = kind;
    s.topic = "/t" + std::to_string(S.size());
    s.topic2 = s.topic + "b";
    // sometimes a second subscription to the same topic
    if (s.kind != FETCH_IMU && s.kind != KIN && c.s.chance(1, 5))
      for (auto& o : S)
        if (o.kind == s.kind) s.topic = o.topic, c.tag("shared topic");
    s.radius = c.s.chance(1, 8) ? 1 : c.s.uni(0.02, 0.6);
    s.track = c.s.uni(0.1, 2);
    switch (s.kind) {
      case IMU_T: s.imu = rs->AddIMUSubscriber(s.topic); break;
      case FETCH_IMU: s.imu = rs->AddFetchIMUSubscriber(s.topic, s.topic2); break;
      case KIN: s.kin = rs->AddMiniCheetahKinematicsSubscriber(s.topic, s.topic2); break;
      case VEL: s.vel = rs->AddVelocitySubscriber(s.topic); break;
      case VELCOV: s.vel = rs->AddVelocityWithCovarianceSubscriber(s.topic); break;
      case DIFF: s.vel = rs->AddDifferentialDriveVelocitySubscriber(s.topic, s.radius); break;
      case FETCH_LIN: s.vel = rs->AddDifferentialDriveLinearVelocitySubscriber_Fetch(s.topic, s.radius); break;
      case DIFF2:
      case FETCH2: {
        auto t = s.kind == DIFF2 ? rs->AddDifferentialDriveVelocitySubscriber(s.topic, s.radius, s.track)
                                 : rs->AddDifferentialDriveVelocitySubscriber_Fetch(s.topic, s.radius, s.track);
        s.vel = {std::get<0>(t), std::get<1>(t)};
        s.ang = {std::get<2>(t), std::get<3>(t)};
        break;
      }
      default: {
        s.ot = c.s.vec(3);
        s.oq = c.s.chance(1, 3) ? Eigen::Quaterniond::Identity() : c.s.quat();
        std::vector<double> t = {s.ot(0), s.ot(1), s.ot(2)}, r = {s.oq.w(), s.oq.x(), s.oq.y(), s.oq.z()};
        s.vel = rs->AddOdom2VelocityCallback(s.topic, t, r);
      }
    }
    c.desc << kname[s.kind] << " on " << s.topic << "; ";
    S.push_back(s);
  };
  for (int i = 0; i < n; ++i) subscribe(int(c.s.pick(NKIND)));
  if (c.s.chance(1, 3)) rs->StartSubscribingThread(), c.tag("subscribing thread");
  auto audit = [&](const std::string& at) {
    std::set<void*> seen;
    for (size_t i = 0; i < S.size(); ++i) {
      auto& s = S[i];
      std::string w = at + "subscription " + std::to_string(i) + " (" + kname[s.kind] + "): ";
      size_t got = s.kind == IMU_T || s.kind == FETCH_IMU ? size_of(s.imu.first) : s.kind == KIN ? size_of(s.kin.first) : size_of(s.vel.first);
      if (got != s.want.size()) c.fail(w + std::to_string(got) + " measurements queued, expected " + std::to_string(s.want.size()));
      if (size_of(s.ang.first) != s.want_ang.size())
        c.fail(w + std::to_string(size_of(s.ang.first)) + " angular velocities queued, expected " + std::to_string(s.want_ang.size()));
      for (void* p : {(void*)s.imu.first.get(), (void*)s.kin.first.get(), (void*)s.vel.first.get(), (void*)s.ang.first.get(), (void*)s.imu.second.get(),
                      (void*)s.kin.second.get(), (void*)s.vel.second.get(), (void*)s.ang.second.get()})
        if (p) c.check(seen.insert(p).second, w + "queue or lock shared with another subscription");
      for (auto* m : {s.imu.second.get(), s.kin.second.get(), s.vel.second.get(), s.ang.second.get()})
        if (m) {
          c.check(m->try_lock(), w + "lock still held after the message");
          m->unlock();
        }
    }
  };
  audit("after subscribing: ");
  int ops = 0;
  std::set<size_t> fed;
  while (ops < 40 && c.s.more()) {
    ++ops;
    if (S.size() < 7 && c.s.chance(1, 40)) {
      subscribe(int(c.s.pick(NKIND)));
      c.tag("subscribed later");
    }
    size_t i = c.s.pick(S.size());
    Sub& s = S[i];
    const int64_t before = clock_ns;
    if (s.kind == ODOM_T) clock_ns += 1000000;  // stamps are doubles: closer poses than this have no usable time difference
    const bool back = s.kind == ODOM_T && s.has_prev && clock_ns > (clock0 + 5) * 1000000000 && c.s.chance(1, 8);
    if (back) {
      clock_ns -= int64_t(4) * 1000000000;
      c.tag("odometry stamp goes back");
    }
    Hd h = header(c, clock_ns);
    if (s.kind == ODOM_T && s.has_prev && std::llabs(clock_ns - (int64_t(s.ph.sec) * 1000000000 + s.ph.nsec)) < 1000000) {
      clock_ns += 2000000;
      h.sec = uint32_t(clock_ns / 1000000000);
      h.nsec = uint32_t(clock_ns % 1000000000);
    }
    int delivered = 1, expected = 1;
    auto add_vel = [&](auto make) {  // for every subscription of the same kind and topic
      expected = 0;
      for (auto& o : S)
        if (o.kind == s.kind && o.topic == s.topic) {
          make(o);
          ++expected;
        }
    };
    std::string at = "message " + std::to_string(ops) + " to " + s.topic + " (" + kname[s.kind] + "): ";
    try {
      switch (s.kind) {
        case IMU_T: {
          sensor_msgs::Imu m;
          Exp e = gen_imu(c, m, h);
          add_vel([&](Sub& o) { o.want.push_back(e); });
          delivered = bus.deliver(s.topic, m);
          break;
        }
        case FETCH_IMU: {
          int burst = c.s.chance(1, 4) ? c.s.range(2, 6) : 1;
          std::vector<sensor_msgs::Imu> ms;
          std::vector<geometry_msgs::Vector3Stamped> os;
          for (int k = 0; k < burst; ++k) {
            if (k) h = header(c, clock_ns);
            sensor_msgs::Imu m;
            Exp e = gen_imu(c, m, h);
            geometry_msgs::Vector3Stamped o;
            Eigen::Vector3d off = gvec(c);
            o.header = hmsg(h);
            o.header.seq += 7;
            o.header.frame_id = "offset";
            o.vector = v3msg(off);
            e.a += off;
            e.tol = 1;
            s.want.push_back(e);
            ms.push_back(m);
            os.push_back(o);
          }
          bool first = c.s.chance(1, 2);
          if (first)
            for (auto& m : ms) bus.deliver(s.topic, m);
          for (auto& o : os) bus.deliver(s.topic2, o);
          if (!first)
            for (auto& m : ms) bus.deliver(s.topic, m);
          break;
        }
        case KIN: {
          custom_sensor_msgs::ContactArray ca;
          sensor_msgs::JointState js;
          Exp e;
          e.h = h;
          ca.header = hmsg(h);
          js.header = hmsg(h);
          js.header.seq += 3;
          js.header.frame_id = "joints";
          int nc = 4, np = 12, nv = 12;
          bool bad = c.s.chance(1, 10);
          if (bad) {
            c.tag("short legged message");
            switch (c.s.pick(3)) {
              case 0: nc = c.s.range(0, 3); break;
              case 1: np = c.s.range(0, 11); break;
              default: nv = c.s.range(0, 11); break;
            }
          } else if (c.s.chance(1, 6)) {
            np += 2, nv += 3, c.tag("long legged message");
          }
          for (int k = 0; k < nc; ++k) {
            custom_sensor_msgs::Contact ct;
            ct.id = k;
            ct.indicator = c.s.chance(1, 2);
            e.ct(k) = ct.indicator;
            ca.contacts.push_back(ct);
          }
          Bulk b(c.s.next());
          for (int k = 0; k < np; ++k) {
            js.position.push_back(3 * b.sym());
            if (k < 12) e.pos(k) = js.position[k];
          }
          for (int k = 0; k < nv; ++k) {
            js.velocity.push_back(5 * b.sym());
            if (k < 12) e.vel(k) = js.velocity[k];
          }
          js.effort.assign(12, 77);
          if (!bad) s.want.push_back(e);
          if (c.s.chance(1, 2)) {
            bus.deliver(s.topic, ca);
            bus.deliver(s.topic2, js);
          } else {
            bus.deliver(s.topic2, js);
            bus.deliver(s.topic, ca);
          }
          break;
        }
        case VEL:
        case VELCOV: {
          Exp e;
          e.h = h;
          e.a = gvec(c);
          add_vel([&](Sub& o) { o.want.push_back(e); });
          geometry_msgs::Twist tw;
          tw.linear = v3msg(e.a);
          tw.angular = v3msg(gvec(c));
          if (s.kind == VEL) {
            geometry_msgs::TwistStamped m;
            m.header = hmsg(h);
            m.twist = tw;
            delivered = bus.deliver(s.topic, m);
          } else {
            geometry_msgs::TwistWithCovarianceStamped m;
            m.header = hmsg(h);
            m.twist.twist = tw;
            for (double& x : m.twist.covariance) x = 0.5;
            delivered = bus.deliver(s.topic, m);
          }
          break;
        }
        case DIFF:
        case DIFF2:
        case FETCH_LIN:
        case FETCH2: {
          sensor_msgs::JointState m;
          m.header = hmsg(h);
          bool fetch = s.kind == FETCH_LIN || s.kind == FETCH2;
          size_t need = fetch ? 3 : 4;
          size_t nv = c.s.chance(1, 5) ? c.s.pick(need) : need + c.s.pick(4);
          if (nv < need) c.tag("short wheel message");
          for (size_t k = 0; k < nv; ++k) {
            m.velocity.push_back(val(c));
            m.position.push_back(1000 + k);
          }
          add_vel([&](Sub& o) {
            if (nv < need) return;
            L r = o.radius;
            L vr = fetch ? m.velocity[1] * r : (L(m.velocity[1]) + L(m.velocity[3])) / 2 * r;
            L vl = fetch ? m.velocity[0] * r : (L(m.velocity[0]) + L(m.velocity[2])) / 2 * r;
            double mag = 0;
            for (double v : m.velocity) mag = std::max(mag, std::abs(v));
            Exp e;
            e.h = h;
            e.a = Eigen::Vector3d(double((vr + vl) / 2), 0, 0);
            e.tol = 1e-15 * 10 * mag;
            o.want.push_back(e);
            if (o.kind == DIFF2 || o.kind == FETCH2) {
              Exp w;
              w.h = h;
              w.a = Eigen::Vector3d(0, 0, double((vr - vl) / L(o.track)));
              w.tol = 1e-15 * 10 * mag / o.track;
              o.want_ang.push_back(w);
            }
          });
          delivered = bus.deliver(s.topic, m);
          break;
        }
        default: {
          nav_msgs::Odometry m;
          Eigen::Vector3d p;
          Eigen::Quaterniond q;
          bool dup = s.has_prev && c.s.chance(1, 8);
          if (dup) {  // the same message again
            h = s.ph;
            clock_ns = before;
            p = s.pp.cast<double>();
            c.tag("odometry message repeated");
          } else if (!s.has_prev || c.s.chance(1, 10)) {
            p = c.s.vec(c.s.chance(1, 3) ? 500 : 5);
          } else {
            p = s.pp.cast<double>() + c.s.vec(1);
          }
          if (s.has_prev) {
            Eigen::Vector3d d = c.s.dir();
            double a = dup ? 0 : c.s.angle(2.6);
            q = Eigen::Quaterniond(s.pR.cast<double>()) * Eigen::Quaterniond(Eigen::AngleAxisd(a, d));
            q.normalize();
          } else {
            q = c.s.quat();
          }
          m.header = hmsg(h);
          m.child_frame_id = "base";
          m.pose.pose.position.x = p(0);
          m.pose.pose.position.y = p(1);
          m.pose.pose.position.z = p(2);
          m.pose.pose.orientation.w = q.w();
          m.pose.pose.orientation.x = q.x();
          m.pose.pose.orientation.y = q.y();
          m.pose.pose.orientation.z = q.z();
          m.twist.twist.linear.x = 123;
          L qw = q.w(), qx = q.x(), qy = q.y(), qz = q.z(), nn = std::sqrt(qw * qw + qx * qx + qy * qy + qz * qz);
          qw /= nn, qx /= nn, qy /= nn, qz /= nn;
          M3 R;
          R << 1 - 2 * (qy * qy + qz * qz), 2 * (qx * qy - qw * qz), 2 * (qx * qz + qw * qy), 2 * (qx * qy + qw * qz), 1 - 2 * (qx * qx + qz * qz),
              2 * (qy * qz - qw * qx), 2 * (qx * qz - qw * qy), 2 * (qy * qz + qw * qx), 1 - 2 * (qx * qx + qy * qy);
          V3 pl = ref::v3(p);
          add_vel([&](Sub& o) {
            const bool again = o.has_prev && o.ph.sec == h.sec && o.ph.nsec == h.nsec;
            if (o.has_prev && !again) {
              Eigen::Quaternion<L> oq = o.oq.cast<L>();
              oq.normalize();
              M3 B = oq.toRotationMatrix();
              V3 t = ref::v3(o.ot);
              // body poses: source pose * T
              M3 R0 = o.pR * B, R1 = R * B;
              V3 p0 = o.pp + o.pR * t, p1 = pl + R * t;
              M3 dR = R0.transpose() * R1;
              V3 dp = R0.transpose() * (p1 - p0);
              V3 w = ref::logSO3(dR);
              V3 u = ref::gamma(w, 1).inverse() * dp;
              L dt = (L(h.sec) - L(o.ph.sec)) + (L(h.nsec) - L(o.ph.nsec)) / 1e9L;
              Exp e;
              e.h = h;
              e.a = (u / dt).cast<double>();
              L mag = 1 + o.pp.norm() + pl.norm() + t.norm();
              L tstamp = L(h.sec) + 1;
              // the library takes a general 4x4 matrix logarithm, which loses half the digits for clustered eigenvalues
              e.tol = double(1e-9L * mag / std::abs(dt) + u.norm() / std::abs(dt) * (4.5e-16L * tstamp / std::abs(dt)));
              e.ambiguous = w.norm() > 3.0L;
              if (e.ambiguous) c.tag("odometry half-turn");
              o.want.push_back(e);
              c.desc << "[odom rot " << double(w.norm()) << " axis " << double(w(0)) << "," << double(w(1)) << "," << double(w(2)) << " move " << double(dp.norm())
                     << " dt " << double(dt) << "] ";
              c.tag("odometry velocity");
            }
            if (!again) {
              o.has_prev = true;
              o.pp = pl;
              o.pR = R;
              o.ph = h;
            }
          });
          delivered = bus.deliver(s.topic, m);
        }
      }
    } catch (const Failure&) {
      throw;
    } catch (const std::exception& ex) {
      c.fail(at + "an exception left the callback: " + ex.what());
    }
    fed.insert(i);
    if (delivered != expected) c.fail(at + "reached " + std::to_string(delivered) + " callbacks instead of " + std::to_string(expected));
    audit(at);
  }
  for (size_t i = 0; i < S.size(); ++i) {
    Sub& s = S[i];
    for (size_t k = 0; k < s.want.size(); ++k) {
      std::string at = "subscription " + std::to_string(i) + " (" + kname[s.kind] + "), measurement " + std::to_string(k) + ": ";
      const Exp& e = s.want[k];
      if (s.kind == IMU_T || s.kind == FETCH_IMU) {
        check_imu(c, *s.imu.first->front(), e, at);
        s.imu.first->pop();
      } else if (s.kind == KIN) {
        auto m = s.kin.first->front();
        s.kin.first->pop();
        c.check(m->get_type() == LEGGED_KINEMATICS, at + "type is not LEGGED_KINEMATICS");
        same_header(c, *m, e.h, at);
        for (int l = 0; l < 4; ++l) c.check(m->get_contact(l) == e.ct(l), at + "contact of leg " + std::to_string(l));
        for (int j = 0; j < 12; ++j)
          if (m->get_joint_state(j) != e.pos(j)) c.fail(at + "joint position " + std::to_string(j));
        // joint velocities, seen through the velocity of the body over each single supporting leg
        Eigen::Matrix<bool, -1, 1> ct(4);
        ct = e.ct;
        kinematics::MiniCheetahKinematics want(e.pos, e.vel, ct);
        for (int l = 0; l < 4; ++l) {
          Eigen::Matrix<bool, 4, 1> one = Eigen::Matrix<bool, 4, 1>::Constant(false);
          one(l) = true;
          m->set_contact(one);
          want.set_contact(one);
          m->ComputeKinematics();
          want.ComputeKinematics();
          Eigen::Vector3d w(0.3, -0.2, 0.9);
          expect_near(c, m->get_init_velocity(w), want.get_init_velocity(w), 1e-12, at + "joint velocities of leg " + std::to_string(l));
        }
      } else {
        auto m = s.vel.first->front();
        s.vel.first->pop();
        c.check(m->get_type() == VELOCITY, at + "type is not VELOCITY");
        same_header(c, *m, e.h, at);
        if (!e.ambiguous) check_vec(c, m->get_velocity(), e, at + "velocity");
      }
    }
    for (size_t k = 0; k < s.want_ang.size(); ++k) {
      std::string at = "subscription " + std::to_string(i) + " (" + kname[s.kind] + "), angular velocity " + std::to_string(k) + ": ";
      auto m = s.ang.first->front();
      s.ang.first->pop();
      c.check(m->get_type() == ANGULAR_VELOCITY, at + "type is not ANGULAR_VELOCITY");
      same_header(c, *m, s.want_ang[k].h, at);
      check_vec(c, m->get_angular_velocity(), s.want_ang[k], at + "angular velocity");
    }
  }
  for (size_t i : fed) c.tag(kname[S[i].kind]);
  if (fed.size() >= 2 && ops >= 6) c.interesting();
}
}  // namespace vf
