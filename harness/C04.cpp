#include <new>
#include "common/ref.h"
#include "drift/state/robot_state.h"
namespace vf {
const char* kProperty = "C04";
const char* kRule =
    "a state built by each constructor (0..6 augmented columns, random matrices) and a history of up to ~50 setter calls against a "
    "field model, views and reset compared after each; non-trivial: >=3 setters on a state with a non-identity rotation.";
size_t kMaxTape = 200;
int kCaseTimeout = 20;
void per_process_setup() {}
using state::RobotState;

struct Model {
  Eigen::MatrixXd X, P, Q;
  Eigen::VectorXd th;
  Eigen::Vector3d w;
  bool w_set = false, t_set = false, tp_set = false;
  double t = 0, tp = 0;
  bool en = false;
  int slip = 0;
};

static void compare(Ctx& c, RobotState& s, const Model& m, const std::string& when) {
  int n = m.X.rows();
  expect_eq(c, s.get_X(), m.X, when + ": get_X");
  expect_eq(c, s.get_theta(), m.th, when + ": get_theta");
  expect_eq(c, s.get_P(), m.P, when + ": get_P");
  expect_eq(c, s.get_continuous_noise_covariance(), m.Q, when + ": Qc");
  c.check(s.dimX() == n, when + ": dimX");
  c.check(s.dimTheta() == m.th.size(), when + ": dimTheta");
  c.check(s.dimP() == m.P.cols(), when + ": dimP");
  c.check(s.dimQc() == m.Q.cols(), when + ": dimQc");
  Eigen::Matrix3d R = m.X.topLeftCorner(3, 3);
  Eigen::Vector3d v = m.X.block(0, 3, 3, 1), p = m.X.block(0, 4, 3, 1);
  expect_eq(c, s.get_rotation(), R, when + ": rotation");
  expect_eq(c, s.get_velocity(), v, when + ": velocity");
  expect_eq(c, s.get_position(), p, when + ": position");
  expect_eq(c, s.get_gyroscope_bias(), m.th.segment(0, 3), when + ": gyro bias");
  expect_eq(c, s.get_accelerometer_bias(), m.th.segment(3, 3), when + ": accel bias");
  expect_eq(c, s.get_rotation_covariance(), m.P.block(0, 0, 3, 3), when + ": rot cov");
  expect_eq(c, s.get_velocity_covariance(), m.P.block(3, 3, 3, 3), when + ": vel cov");
  expect_eq(c, s.get_position_covariance(), m.P.block(6, 6, 3, 3), when + ": pos cov");
  int b = 3 * n - 6;  // biases come after all columns
  expect_eq(c, s.get_gyroscope_bias_covariance(), m.P.block(b, b, 3, 3), when + ": gyro bias cov");
  expect_eq(c, s.get_accelerometer_bias_covariance(), m.P.block(b + 3, b + 3, 3, 3), when + ": accel bias cov");
  for (int i = 3; i < n; ++i) expect_eq(c, s.get_vector(i), m.X.block(0, i, 3, 1), when + ": get_vector");
  for (int i = 5; i < n; ++i) {
    expect_eq(c, s.get_aug_state(i), m.X.block(0, i, 3, 1), when + ": get_aug_state");
    expect_eq(c, s.get_aug_cov(i), m.P.block(3 * i - 6, 3 * i - 6, 3, 3), when + ": get_aug_cov");
  }
  if (m.w_set) expect_eq(c, s.get_body_angular_velocity(), m.w, when + ": body angular velocity");
  if (m.t_set) c.check(s.get_time() == m.t, when + ": time");
  if (m.tp_set) c.check(s.get_propagate_time() == m.tp, when + ": propagate time");
  c.check(s.get_enable_imu_bias_update() == m.en, when + ": bias-update flag");
  c.check(s.get_slip_flag() == m.slip, when + ": slip flag");
  c.check(s.get_state_type() == WorldCentric, when + ": state type");
  // world views are the stored quantities
  expect_eq(c, s.get_world_X(), m.X, when + ": world X");
  expect_eq(c, s.get_world_rotation(), R, when + ": world rotation");
  expect_eq(c, s.get_world_velocity(), v, when + ": world velocity");
  expect_eq(c, s.get_world_position(), p, when + ": world position");
  // body views
  double tol = 1e-14 * (1 + maxabs(m.X)) * 10;
  ref::M Xi = ref::invSEK(ref::up(m.X));
  expect_near(c, s.get_body_X(), Xi, tol, when + ": body X");
  expect_near(c, s.get_Xinv(), Xi, tol, when + ": Xinv");
  expect_eq(c, s.get_body_rotation(), R.transpose().eval(), when + ": body rotation");
  expect_near(c, s.get_body_velocity(), (ref::up(R).transpose() * ref::up(v)).eval(), tol, when + ": body velocity");
  expect_near(c, s.get_body_position(), (ref::up(R).transpose() * ref::up(p)).eval(), tol, when + ": body position");
}

static Eigen::MatrixXd gen_X(Ctx& c, int n) {
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(n, n);
  X.topLeftCorner(3, 3) = c.s.rot();
  for (int i = 3; i < n; ++i) X.block(0, i, 3, 1) = c.s.vec(10);
  return X;
}

// construct over memory with a known fill, so that a member nobody initialised is visible
struct Slot {
  alignas(RobotState) unsigned char mem[sizeof(RobotState)];
  RobotState* p = nullptr;
  template <class... A>
  RobotState& make(int fill, A&&... a) {
    std::memset(mem, fill, sizeof mem);
    p = new (mem) RobotState(std::forward<A>(a)...);
    return *p;
  }
  ~Slot() {
    if (p) p->~RobotState();
  }
};

void property(Ctx& c) {
  size_t ctor = c.s.pick(7);
  int n = (ctor == 0 || ctor == 4) ? 5 : 5 + c.s.range(0, 6);
  Model m;
  m.X = ctor == 0 ? Eigen::MatrixXd::Identity(5, 5) : gen_X(c, n);
  m.th = Eigen::VectorXd::Zero(6);
  if (ctor == 2 || ctor == 3 || ctor == 5 || ctor == 6) {
    m.th.head(3) = c.s.vec(1);
    m.th.tail(3) = c.s.vec(1);
  }
  m.P = Eigen::MatrixXd::Identity(3 * n, 3 * n);
  if (ctor == 3 || ctor == 6) m.P = c.s.psd(3 * n, 1);
  m.Q = Eigen::MatrixXd::Zero(3 * n, 3 * n);
  math::SEK3 g(m.X);
  Slot slot, slot2;
  auto build = [&](Slot& sl, int fill) -> RobotState& {
    switch (ctor) {
      case 0: return sl.make(fill);
      case 1: return sl.make(fill, m.X);
      case 2: return sl.make(fill, m.X, m.th);
      case 3: return sl.make(fill, m.X, m.th, m.P);
      case 4: return sl.make(fill, g);
      case 5: return sl.make(fill, g, m.th);
      default: return sl.make(fill, g, m.th, m.P);
    }
  };
  RobotState& s = build(slot, 0x5a);
  RobotState& twin = build(slot2, 0xa5);
  c.tag("ctor" + std::to_string(ctor));
  c.desc << "ctor" << ctor << " n=" << n << " ";
  compare(c, s, m, "constructed");
  c.check(s.get_time() == twin.get_time() && s.get_propagate_time() == twin.get_propagate_time(),
          "a freshly constructed state has an indeterminate time");
  expect_eq(c, s.get_body_angular_velocity(), twin.get_body_angular_velocity(),
            "a freshly constructed state has an indeterminate angular velocity");
  int steps = 0;
  RobotState copy = s;
  Model mcopy = m;
  while (c.s.more() && steps < 50) {
    ++steps;
    std::string nm;
    switch (c.s.pick(19)) {
      case 0: { Eigen::Matrix3d R = c.s.rot(); s.set_rotation(R); m.X.topLeftCorner(3, 3) = R; nm = "set_rotation"; break; }
      case 1: { Eigen::Vector3d v = c.s.vec(10); s.set_velocity(v); m.X.block(0, 3, 3, 1) = v; nm = "set_velocity"; break; }
      case 2: { Eigen::Vector3d v = c.s.vec(1e3); s.set_position(v); m.X.block(0, 4, 3, 1) = v; nm = "set_position"; break; }
      case 3: { Eigen::Vector3d v = c.s.vec(1); s.set_gyroscope_bias(v); m.th.head(3) = v; nm = "set_bg"; break; }
      case 4: { Eigen::Vector3d v = c.s.vec(1); s.set_accelerometer_bias(v); m.th.segment(3, 3) = v; nm = "set_ba"; break; }
      case 5: { double t = c.s.real(1e9); s.set_time(t); m.t = t; m.t_set = true; nm = "set_time"; break; }
      case 6: { double t = c.s.real(1e9); s.set_propagate_time(t); m.tp = t; m.tp_set = true; nm = "set_propagate_time"; break; }
      case 7: { Eigen::Matrix3d C = c.s.cov3(1); s.set_rotation_covariance(C); m.P.block(0, 0, 3, 3) = C; nm = "rotcov"; break; }
      case 8: { Eigen::Matrix3d C = c.s.cov3(1); s.set_velocity_covariance(C); m.P.block(3, 3, 3, 3) = C; nm = "velcov"; break; }
      case 9: { Eigen::Matrix3d C = c.s.cov3(1); s.set_position_covariance(C); m.P.block(6, 6, 3, 3) = C; nm = "poscov"; break; }
      case 10: { Eigen::Matrix3d C = c.s.cov3(1); s.set_gyroscope_bias_covariance(C); int b = 3 * m.X.rows() - 6; m.P.block(b, b, 3, 3) = C; nm = "bgcov"; break; }
      case 11: { Eigen::Matrix3d C = c.s.cov3(1); s.set_accelerometer_bias_covariance(C); int b = 3 * m.X.rows() - 3; m.P.block(b, b, 3, 3) = C; nm = "bacov"; break; }
      case 12: { Eigen::Vector3d v = c.s.vec(10); s.set_body_angular_velocity(v); m.w = v; m.w_set = true; nm = "set_w"; break; }
      case 13: { m.en = c.s.chance(1, 2); s.set_enable_imu_bias_update(m.en); m.slip = c.s.range(0, 1); s.set_slip_flag(m.slip); nm = "flags"; break; }
      case 14: {
        m.X = gen_X(c, m.X.rows()); s.set_X(m.X);
        m.P = c.s.psd(m.P.rows(), 1); s.set_P(m.P);
        Eigen::MatrixXd Q = c.s.psd(m.Q.rows(), 1e-2); s.set_continuous_noise_covariance(Q); m.Q = Q;
        Eigen::VectorXd th = m.th; th.head(3) = c.s.vec(1); s.set_theta(th); m.th = th;
        nm = "set_X/P/Qc/theta"; break; }
      case 15: { copy = s; mcopy = m; nm = "copy"; break; }
      case 16: {  // augmented biases, added and removed by the index of their vector
        RobotState q = s;
        std::vector<Eigen::Vector3d> bs;
        int ops = c.s.range(1, 6);
        for (int i = 0; i < ops; ++i) {
          if (bs.empty() || c.s.chance(2, 3)) {
            bs.push_back(c.s.vec(1));
            q.add_aug_bias(bs.back());
          } else {
            int k = c.s.range(0, (int)bs.size() - 1);
            q.del_aug_bias(5 + k);
            bs.erase(bs.begin() + k);
          }
          c.check(q.dimTheta() == m.th.size() + 3 * (int)bs.size(), "augmented bias dimension");
          Eigen::VectorXd all(m.th.size() + 3 * bs.size());
          all.head(m.th.size()) = m.th;
          for (size_t k = 0; k < bs.size(); ++k) all.segment(m.th.size() + 3 * k, 3) = bs[k];
          expect_eq(c, q.get_theta(), all, "the bias vector after adding and removing augmented biases");
          for (size_t k = 0; k < bs.size(); ++k) expect_eq(c, q.get_aug_bias(5 + k), bs[k], "get_aug_bias");
        }
        nm = "aug_bias"; break; }
      case 17: {  // low-level blocks: appended and removed covariance, block-diagonal copies
        RobotState q = s;
        int n0 = m.P.rows(), nx = m.X.rows();
        Eigen::Matrix3d C = c.s.cov3(1);
        q.add_aug_cov(C);
        Eigen::MatrixXd P = Eigen::MatrixXd::Zero(n0 + 3, n0 + 3);
        P.topLeftCorner(n0, n0) = m.P;
        P.bottomRightCorner(3, 3) = C;
        expect_eq(c, q.get_P(), P, "add_aug_cov");
        auto drop = [](const Eigen::MatrixXd& M, int at) {
          Eigen::MatrixXd o(M.rows() - 3, M.cols() - 3);
          for (int i = 0; i < o.rows(); ++i)
            for (int j = 0; j < o.cols(); ++j) o(i, j) = M(i < at ? i : i + 3, j < at ? j : j + 3);
          return o;
        };
        int col = c.s.range(3, nx + 1);
        q.del_aug_cov(col);
        expect_eq(c, q.get_P(), drop(P, 3 + 3 * (col - 3)), "del_aug_cov");
        int qc = c.s.range(3, (int)m.Q.rows() / 3 + 1);
        q.del_aug_noise_cov(qc);
        expect_eq(c, q.get_continuous_noise_covariance(), drop(m.Q, 3 + 3 * (qc - 3)), "del_aug_noise_cov");
        int n0b = c.s.range(0, 4), k = c.s.range(0, 3);
        Eigen::MatrixXd B = c.s.psd(n0b, 1), Bi = B;
        s.copy_diag_X(k, B);
        s.copy_diag_Xinv(k, Bi);
        Eigen::MatrixXd W = Eigen::MatrixXd::Zero(n0b + k * nx, n0b + k * nx), Wi = W;
        W.topLeftCorner(n0b, n0b) = Wi.topLeftCorner(n0b, n0b) = Bi.topLeftCorner(n0b, n0b);
        for (int i = 0; i < k; ++i) {
          W.block(n0b + i * nx, n0b + i * nx, nx, nx) = m.X;
          Wi.block(n0b + i * nx, n0b + i * nx, nx, nx) = s.get_Xinv();
        }
        expect_eq(c, B, W, "copy_diag_X");
        expect_eq(c, Bi, Wi, "copy_diag_Xinv");
        expect_eq(c, s.get_X(), m.X, "copy_diag_X leaves the state alone");
        nm = "blocks"; break; }
      default: {
        s.clear();
        Model f;
        f.X = Eigen::MatrixXd::Identity(5, 5);
        f.th = Eigen::VectorXd::Zero(6);
        f.P = Eigen::MatrixXd::Identity(15, 15);
        f.Q = Eigen::MatrixXd::Zero(15, 15);
        f.w = Eigen::Vector3d::Zero();
        f.w_set = true;
        f.en = false;
        f.slip = 0;
        m = f;
        // a vector can be added after a reset exactly as to a fresh state
        RobotState q = s, r;
        auto h1 = std::make_shared<int>(0), h2 = std::make_shared<int>(0);
        Eigen::Vector3d a = c.s.vec(3);
        Eigen::MatrixXd P = c.s.psd(18, 1);
        *h1 = q.add_aug_state(a, P, Eigen::Matrix3d::Identity(), h1);
        *h2 = r.add_aug_state(a, P, Eigen::Matrix3d::Identity(), h2);
        c.check(*h1 == *h2, "augmented column after reset");
        expect_eq(c, q.get_X(), r.get_X(), "X of augmented state after reset");
        expect_eq(c, q.get_continuous_noise_covariance(), r.get_continuous_noise_covariance(), "Qc after reset");
        q.del_aug_state(*h1);
        nm = "clear"; break; }
    }
    c.desc << nm << " ";
    c.tag(nm);
    compare(c, s, m, "step " + std::to_string(steps) + " " + nm);
    if (steps >= 3 && !m.X.topLeftCorner(3, 3).isIdentity(1e-6)) c.interesting();
  }
  compare(c, copy, mcopy, "independent copy");
}
}  // namespace vf
