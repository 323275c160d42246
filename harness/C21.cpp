#include <memory>
#include <new>

#include "common/ref.h"
#include "common/tape.h"
#include "drift/measurement/angular_velocity.h"
#include "drift/measurement/contact.h"
#include "drift/measurement/imu.h"
#include "drift/measurement/joint_state.h"
#include "drift/measurement/legged_kinematics.h"
#include "drift/measurement/odom.h"
#include "drift/measurement/velocity.h"
namespace vf {
const char* kProperty = "C21";
const char* kRule =
    "histories of <=40 setter calls in any order on 1..5 instances of all measurement types (float and double, built in memory filled with a pattern, "
    "copied and assigned); after every call every getter of every instance is compared with a shadow record. Quaternions on, near and off the unit "
    "sphere, NaN and infinities. Non-trivial: >=2 instances, >=5 setter calls.";
size_t kMaxTape = 300;
int kCaseTimeout = 10;
void per_process_setup() {}
namespace {
using namespace measurement;
struct Header {
  uint64_t seq = 0;
  double t = 0;
  std::string frame;
};
bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
bool same(float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
template <class A, class B>
bool same_m(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!same(a(i), b(i))) return false;
  return true;
}
template <class T>
T val(Ctx& c) {
  switch (c.s.pick(8)) {
    case 0: return 0;
    case 1: return T(c.s.range(-3, 3));
    case 2: return T(c.s.logmag(-15, 15));
    case 3:
      switch (c.s.pick(6)) {
        case 0: return std::numeric_limits<T>::infinity();
        case 1: return -std::numeric_limits<T>::infinity();
        case 2: return std::numeric_limits<T>::quiet_NaN();
        case 3: return std::numeric_limits<T>::denorm_min();
        case 4: return std::numeric_limits<T>::max();
        default: return T(-0.0);
      }
    default: return T(10 * c.s.sym());
  }
}
struct Slot {
  Header h;
  MeasurementType type;
  virtual ~Slot() {}
  virtual Measurement& m() = 0;
  virtual void set(Ctx& c) = 0;
  virtual void verify(Ctx& c, const std::string& at) = 0;
  virtual bool assign(Slot& o) = 0;
  int rejected = 0, accepted = 0;
};
// objects live in memory that held something else before
template <class M>
struct Box {
  void* mem;
  M* p;
  template <class... A>
  explicit Box(A... a) {
    mem = ::operator new(sizeof(M), std::align_val_t(64));
    std::memset(mem, 0xA5, sizeof(M));
    p = ::new (mem) M(a...);
  }
  Box(const Box&) = delete;
  ~Box() {
    p->~M();
    ::operator delete(mem, std::align_val_t(64));
  }
  M* operator->() { return p; }
};
template <class Self, class M>
struct Base : Slot {
  Box<M> b;
  template <class... A>
  explicit Base(A... a) : b(a...) {}
  Measurement& m() override { return *b.p; }
  bool assign(Slot& o) override {
    auto* s = dynamic_cast<Self*>(&o);
    if (!s) return false;
    *b.p = *s->b.p;
    static_cast<Self*>(this)->shadow = s->shadow;
    h = s->h;
    return true;
  }
};
template <class T>
using V3 = Eigen::Matrix<T, 3, 1>;
template <class T>
struct ImuShadow {
  V3<T> w = V3<T>::Zero(), a = V3<T>::Zero();
  T q[4] = {1, 0, 0, 0};
};
template <class T>
struct ImuSlot : Base<ImuSlot<T>, ImuMeasurement<T>> {
  ImuShadow<T> shadow;
  ImuSlot() { this->type = IMU; }
  void set(Ctx& c) override {
    auto& b = this->b;
    switch (c.s.pick(4)) {
      case 0: {
        for (int i = 0; i < 3; ++i) shadow.w(i) = val<T>(c);
        b->set_angular_velocity(shadow.w(0), shadow.w(1), shadow.w(2));
        c.desc << "gyro ";
        break;
      }
      case 1: {
        for (int i = 0; i < 3; ++i) shadow.a(i) = val<T>(c);
        b->set_lin_acc(shadow.a(0), shadow.a(1), shadow.a(2));
        c.desc << "acc ";
        break;
      }
      default: {
        Eigen::Quaterniond u = c.s.quat();
        double d[4] = {u.w(), u.x(), u.y(), u.z()};
        T q[4];
        double scale = 1;
        switch (c.s.pick(6)) {
          case 0: scale = 1 + c.s.logmag(-9, -3); break;   // around the tolerance
          case 1: scale = 1 + c.s.sym() * 1e-5; break;
          case 2: scale = std::abs(c.s.real(3)); break;
          default: break;
        }
        for (int i = 0; i < 4; ++i) q[i] = T(d[i] * scale);
        if (c.s.chance(1, 6)) q[c.s.pick(4)] = val<T>(c);
        long double n = 0;
        for (int i = 0; i < 4; ++i) n += (long double)(q[i]) * q[i];
        long double e = fabsl(n - 1);
        double band = std::is_same<T, float>::value ? 1e-6 : 1e-12;
        bool must = e < 1e-5 - band, never = !(e < 1e-5 + band);
        bool ok = true;
        try {
          b->set_quaternion(q[0], q[1], q[2], q[3]);
        } catch (const std::invalid_argument&) {
          ok = false;
        }
        std::ostringstream o;
        o << std::setprecision(17) << "(" << q[0] << "," << q[1] << "," << q[2] << "," << q[3] << ")";
        c.desc << "q" << o.str() << " ";
        c.check(ok || !must, "unit quaternion " + o.str() + " rejected");
        c.check(!ok || !never, "non-unit quaternion " + o.str() + " accepted");
        if (ok)
          for (int i = 0; i < 4; ++i) shadow.q[i] = q[i];
        ++(ok ? this->accepted : this->rejected);
      }
    }
  }
  void verify(Ctx& c, const std::string& at) override {
    auto& b = this->b;
    c.check(same_m(b->get_angular_velocity(), shadow.w), at + "angular velocity");
    c.check(same_m(b->get_lin_acc(), shadow.a), at + "linear acceleration");
    Eigen::Quaternion<T> q = b->get_quaternion();
    c.check(same(q.w(), shadow.q[0]) && same(q.x(), shadow.q[1]) && same(q.y(), shadow.q[2]) && same(q.z(), shadow.q[3]), at + "orientation");
    // rotation matrix of the (almost unit) quaternion
    ref::L w = shadow.q[0], x = shadow.q[1], y = shadow.q[2], z = shadow.q[3];
    ref::M R(3, 3);
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
        2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    Eigen::MatrixXd g = b->get_rotation_matrix().template cast<double>();
    // another formula may normalise: allow the tolerance on the norm
    ref::L n = w * w + x * x + y * y + z * z;
    expect_near(c, g, R, (std::is_same<T, float>::value ? 2e-6 : 1e-14) + 4 * double(fabsl(n - 1)), at + "rotation matrix");
  }
};
template <class T, class M, int K>
struct VecSlot : Base<VecSlot<T, M, K>, M> {
  V3<T> shadow = V3<T>::Zero();
  VecSlot() { this->type = K ? ANGULAR_VELOCITY : VELOCITY; }
  void set(Ctx& c) override {
    for (int i = 0; i < 3; ++i) shadow(i) = val<T>(c);
    if (c.s.chance(1, 6)) shadow.setZero();
    if constexpr (K) this->b->set_angular_velocity(shadow(0), shadow(1), shadow(2));
    else this->b->set_velocity(shadow(0), shadow(1), shadow(2));
    c.desc << "vec ";
  }
  void verify(Ctx& c, const std::string& at) override {
    V3<T> v, u;
    double n;
    if constexpr (K) {
      v = this->b->get_angular_velocity();
      u = this->b->get_ang_vel_unit_vec();
      n = this->b->get_angular_velocity_magnitude();
    } else {
      v = this->b->get_velocity();
      u = this->b->get_vel_unit_vec();
      n = this->b->get_vel_mag();
    }
    c.check(same_m(v, shadow), at + "vector");
    long double mx = 0, s = 0;
    for (int i = 0; i < 3; ++i) mx = std::max(mx, fabsl(shadow(i))), s += (long double)(shadow(i)) * shadow(i);
    if (!v.allFinite() || mx > 1e17L) return;  // squares overflow (float)
    if (mx == 0) {
      c.check(n == 0, at + "magnitude of zero");
      c.check(u.isZero(0), at + "direction of zero");
      return;
    }
    if (mx < 1e-16L) return;
    long double N = sqrtl(s);
    double eps = std::is_same<T, float>::value ? 1e-6 : 1e-14;
    c.check(fabsl(n - N) <= eps * N, at + "magnitude");
    for (int i = 0; i < 3; ++i) c.check(fabsl(u(i) - shadow(i) / N) <= eps, at + "unit vector");
  }
};
template <class T>
struct JointShadow {
  Eigen::Matrix<T, -1, 1> p, v, e;
};
template <class T>
struct JointSlot : Base<JointSlot<T>, JointStateMeasurement<T>> {
  JointShadow<T> shadow;
  JointSlot() { this->type = JOINT_STATE; }
  Eigen::Matrix<T, -1, 1> rnd(Ctx& c) {
    Eigen::Matrix<T, -1, 1> v(c.s.range(0, 5));
    for (int i = 0; i < v.size(); ++i) v(i) = val<T>(c);
    return v;
  }
  void set(Ctx& c) override {
    if (c.s.chance(1, 2)) {
      shadow.p = rnd(c);
      shadow.v = rnd(c);
      shadow.e = rnd(c);
      this->b->set_joint_state(shadow.p, shadow.v, shadow.e);
      c.desc << "joints ";
    } else {
      shadow.p = rnd(c);
      this->b->set_encoders(shadow.p);
      c.desc << "encoders ";
    }
  }
  void verify(Ctx& c, const std::string& at) override {
    c.check(same_m(this->b->get_joint_pos(), shadow.p), at + "joint positions");
    c.check(same_m(this->b->get_joint_vel(), shadow.v), at + "joint velocities");
    c.check(same_m(this->b->get_joint_effort(), shadow.e), at + "joint efforts");
  }
};
struct ContactSlot : Base<ContactSlot, ContactMeasurement> {
  Eigen::Matrix<bool, -1, 1> shadow;
  ContactSlot() { type = CONTACT; }
  void set(Ctx& c) override {
    shadow.resize(c.s.range(0, 6));
    uint32_t w = c.s.next();
    for (int i = 0; i < shadow.size(); ++i) shadow(i) = w >> i & 1;
    b->set_contact(shadow);
    c.desc << "contacts ";
  }
  void verify(Ctx& c, const std::string& at) override {
    auto g = b->get_contact();
    c.check(g.size() == shadow.size() && g == shadow, at + "contacts");
  }
};
struct OdomShadow {
  Eigen::Vector3d t = Eigen::Vector3d::Zero(), tt = t;
  Eigen::Quaterniond q = Eigen::Quaterniond::Identity(), qt = q;
};
struct OdomSlot : Base<OdomSlot, OdomMeasurement> {
  OdomShadow shadow;
  OdomSlot() { type = ODOM; }
  OdomSlot(const Eigen::Vector3d& t, const Eigen::Quaterniond& q, uint64_t seq, double st, const std::string& f)
      : Base<OdomSlot, OdomMeasurement>(t, q, seq, st, f) {
    type = ODOM;
    shadow.t = shadow.tt = t;
    shadow.q = shadow.qt = q;
    h = {seq, st, f};
  }
  void set(Ctx& c) override {
    switch (c.s.pick(3)) {
      case 0:
        shadow.t = c.s.vec(100);
        b->set_translation(shadow.t);
        c.desc << "translation ";
        break;
      case 1:
        shadow.q = c.s.quat();
        b->set_rotation(shadow.q);
        c.desc << "rotation ";
        break;
      default:
        b->set_transformation();
        shadow.tt = shadow.t;
        shadow.qt = shadow.q;
        c.desc << "transform ";
    }
  }
  void verify(Ctx& c, const std::string& at) override {
    Eigen::Matrix4d T = b->get_transformation();
    // translation and rotation take effect at set_transformation()
    ref::L w = shadow.qt.w(), x = shadow.qt.x(), y = shadow.qt.y(), z = shadow.qt.z();
    ref::M W = ref::M::Identity(4, 4);
    W.block(0, 0, 3, 3) << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
        2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    for (int i = 0; i < 3; ++i) W(i, 3) = shadow.tt(i);
    expect_near(c, T, W, 1e-13, at + "transformation");
    for (int i = 0; i < 3; ++i) c.check(T(i, 3) == shadow.tt(i), at + "translation");
    c.check(T.row(3) == Eigen::RowVector4d(0, 0, 0, 1), at + "last row of the transformation");
  }
};
struct Kin : LeggedKinematicsMeasurement {
  Kin() {}
  Kin(const Eigen::Matrix<double, -1, 1>& a, const Eigen::Matrix<double, -1, 1>& b, const Eigen::Matrix<bool, -1, 1>& k)
      : LeggedKinematicsMeasurement(a, b, k) {}
  void ComputeKinematics() override {}
  int get_num_legs() override { return int(contacts_.size()); }
  const Eigen::Matrix<double, -1, 1>& dq() const { return d_encoders_; }
};
struct KinShadow {
  Eigen::Matrix<double, -1, 1> q, dq;
  Eigen::Matrix<bool, -1, 1> k;
};
struct KinSlot : Base<KinSlot, Kin> {
  KinShadow shadow;
  KinSlot() { type = LEGGED_KINEMATICS; }
  KinSlot(const KinShadow& s) : Base<KinSlot, Kin>(s.q, s.dq, s.k) {
    type = LEGGED_KINEMATICS;
    shadow = s;
  }
  void set(Ctx& c) override {
    Bulk b0(c.s.next());
    switch (c.s.pick(3)) {
      case 0:
        shadow.q.resize(c.s.range(1, 12));
        for (auto& x : shadow.q) x = b0.sym();
        b->set_joint_state(shadow.q);
        break;
      case 1:
        shadow.dq.resize(c.s.range(1, 12));
        for (auto& x : shadow.dq) x = b0.sym();
        b->set_joint_state_velocity(shadow.dq);
        break;
      default:
        shadow.k.resize(c.s.range(1, 6));
        for (auto& x : shadow.k) x = b0.next() & 1;
        b->set_contact(shadow.k);
    }
    c.desc << "kin ";
  }
  void verify(Ctx& c, const std::string& at) override {
    for (int i = 0; i < shadow.q.size(); ++i) c.check(b->get_joint_state(i) == shadow.q(i), at + "joint state");
    for (int i = 0; i < shadow.k.size(); ++i) c.check(b->get_contact(i) == shadow.k(i), at + "contact");
    c.check(b->dq().size() == shadow.dq.size() && b->dq() == shadow.dq, at + "joint velocities");
    c.check(b->LeggedKinematicsMeasurement::get_init_velocity(Eigen::Vector3d(1, 2, 3)).isZero(0), at + "default initial velocity");
  }
};
std::unique_ptr<Slot> make(Ctx& c) {
  switch (c.s.pick(12)) {
    case 0: return std::make_unique<ImuSlot<double>>();
    case 1: return std::make_unique<ImuSlot<float>>();
    case 2: return std::make_unique<VecSlot<double, VelocityMeasurement<double>, 0>>();
    case 3: return std::make_unique<VecSlot<float, VelocityMeasurement<float>, 0>>();
    case 4: return std::make_unique<VecSlot<double, AngularVelocityMeasurement<double>, 1>>();
    case 5: return std::make_unique<VecSlot<float, AngularVelocityMeasurement<float>, 1>>();
    case 6: return std::make_unique<JointSlot<double>>();
    case 7: return std::make_unique<JointSlot<float>>();
    case 8: return std::make_unique<ContactSlot>();
    case 9: return std::make_unique<OdomSlot>();
    case 10: {
      Eigen::Vector3d t = c.s.vec(10);
      Eigen::Quaterniond q = c.s.quat();
      return std::make_unique<OdomSlot>(t, q, uint64_t(c.s.next()) << 20, c.s.real(1e9), "odom");
    }
    default: {
      if (c.s.chance(1, 2)) return std::make_unique<KinSlot>();
      KinShadow s;
      Bulk b(c.s.next());
      s.q.resize(c.s.range(1, 12));
      s.dq.resize(c.s.range(1, 12));
      s.k.resize(c.s.range(1, 6));
      for (auto& x : s.q) x = b.sym();
      for (auto& x : s.dq) x = b.sym();
      for (auto& x : s.k) x = b.next() & 1;
      return std::make_unique<KinSlot>(s);
    }
  }
}
const char* kNames[] = {"EMPTY", "IMU", "LEGGED_KINEMATICS", "VELOCITY", "ANGULAR_VELOCITY", "JOINT_STATE", "CONTACT", "ODOM"};
}  // namespace
void property(Ctx& c) {
  int n = c.s.range(1, 5), ops = 0;
  std::vector<std::unique_ptr<Slot>> s;
  for (int i = 0; i < n; ++i) {
    s.push_back(make(c));
    c.desc << kNames[s.back()->type] << " ";
  }
  auto verify = [&](int op) {
    for (int i = 0; i < n; ++i) {
      std::string at = "call " + std::to_string(op) + ", instance " + std::to_string(i) + " (" + kNames[s[i]->type] + "): ";
      auto& m = s[i]->m();
      c.check(m.get_type() == s[i]->type, at + "type");
      c.check(same(m.get_time(), s[i]->h.t), at + "time");
      c.check(same(m.header.stamp, s[i]->h.t) && m.header.seq == s[i]->h.seq && m.header.frame_id == s[i]->h.frame, at + "header");
      std::ostringstream o;
      o << m;
      c.check(o.str().find(kNames[s[i]->type]) != std::string::npos, at + "printed as " + o.str());
      s[i]->verify(c, at);
    }
  };
  verify(0);
  while (c.s.more() && ops < 40) {
    ++ops;
    int i = c.s.range(0, n - 1);
    c.desc << "#" << i << ":";
    switch (c.s.pick(8)) {
      case 0:
        s[i]->h.t = val<double>(c);
        s[i]->m().set_time(s[i]->h.t);
        c.desc << "time ";
        break;
      case 1: {
        Header h{uint64_t(c.s.next()) << 7, val<double>(c), c.s.chance(1, 4) ? "" : "frame" + std::to_string(c.s.next())};
        s[i]->m().set_header(h.seq, h.t, h.frame);
        s[i]->h = h;
        c.desc << "header ";
        break;
      }
      case 2: {  // header of another instance
        int j = c.s.range(0, n - 1);
        s[i]->m().set_header(s[j]->m().header);
        s[i]->h = s[j]->h;
        c.desc << "header" << j << " ";
        break;
      }
      case 3: {
        int j = c.s.range(0, n - 1);
        if (i != j && s[i]->assign(*s[j])) c.desc << "=" << j << " ";
        break;
      }
      default: s[i]->set(c);
    }
    verify(ops);
  }
  if (n >= 2 && ops >= 5) c.interesting();
  for (auto& x : s) {
    if (x->rejected) c.tag("rejected quaternion");
    if (x->accepted) c.tag("accepted quaternion");
    c.tag(kNames[x->type]);
  }
}
}  // namespace vf
