#include "common/ref.h"
#include "drift/math/lie_group.h"
#include "drift/math/se_k_3.h"
#include "drift/state/robot_state.h"
namespace vf {
const char* kProperty = "C02";
const char* kRule =
    "three random SE_k(3) elements (k=0..8 columns, translations 1e-6..1e5 in magnitude, rotations incl. half turns), a tangent; "
    "non-trivial: k>=1 and both rotations differ from identity.  Oracle: long-double matrix algebra.";
size_t kMaxTape = 120;
int kCaseTimeout = 20;
void per_process_setup() {}
using namespace math::lie_group;

static Eigen::MatrixXd gen_X(Ctx& c, int k, double mag) {
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(3 + k, 3 + k);
  X.topLeftCorner(3, 3) = c.s.rot();
  for (int i = 0; i < k; ++i) X.block(0, 3 + i, 3, 1) = c.s.vec(mag);
  return X;
}

void property(Ctx& c) {
  int k = c.s.range(0, 8);
  double mag = c.s.logu(-3, 4);
  Eigen::MatrixXd X = gen_X(c, k, mag), Y = gen_X(c, k, mag), Z = gen_X(c, k, mag);
  c.tag("k=" + std::to_string(k));
  if (k >= 1 && !X.topLeftCorner(3, 3).isIdentity(1e-9) && !Y.topLeftCorner(3, 3).isIdentity(1e-9)) c.interesting();
  c.desc << "k=" << k << " X=" << show(X) << " Y=" << show(Y);
  double s = 1 + 4 * mag;
  double tol = 1e-12 * s;
  // adjoint
  Eigen::MatrixXd AX = Adjoint_SEK3(X), AY = Adjoint_SEK3(Y);
  expect_near(c, AX, ref::adSEK(ref::up(X)), tol, "Adjoint_SEK3");
  Eigen::MatrixXd XY = X * Y;
  expect_near(c, Adjoint_SEK3(XY), (AX * AY).eval(), 1e-13 * s * s * 10, "Ad(XY)=Ad(X)Ad(Y)");
  // X Exp(xi) X^-1 = Exp(Ad(X) xi)
  Eigen::VectorXd xi(3 + 3 * k);
  xi.head(3) = c.s.rotvec();
  for (int i = 0; i < k; ++i) xi.segment<3>(3 + 3 * i) = c.s.vec(mag);
  ref::M lhs = ref::up(X) * ref::up(Exp_SEK3(xi)) * ref::invSEK(ref::up(X));
  Eigen::MatrixXd rhs = Exp_SEK3((AX * xi).eval());
  double s2 = (1 + maxabs(xi)) * s * (1 + xi.head(3).norm());
  expect_near(c, rhs, lhs, 3e-13 * s2, "X Exp(xi) X^-1 = Exp(Ad(X) xi)");
  // container
  if (k >= 1) {
    math::SEK3 a(X), b(Y), d(Z);
    expect_eq(c, a.get_X(), X, "SEK3(X).get_X");
    c.check(a.get_dim() == 3 + k, "SEK3::get_dim");
    expect_eq(c, a.get_R(), X.topLeftCorner(3, 3), "SEK3::get_R");
    expect_eq(c, a.get_p(), X.block(0, 3, 3, 1), "SEK3::get_p");
    if (k >= 2) expect_eq(c, a.get_v(), X.block(0, 4, 3, 1), "SEK3::get_v");
    math::SEK3 ab = a * b;
    expect_near(c, ab.get_X(), (ref::up(X) * ref::up(Y)).eval(), 1e-13 * s * 10, "SEK3 product");
    expect_near(c, ((a * b) * d).get_X(), (a * (b * d)).get_X(), 1e-13 * s * 10, "SEK3 associativity");
    math::SEK3 ai = a.inverse();
    expect_near(c, ai.get_X(), ref::invSEK(ref::up(X)), 1e-13 * s * 10, "SEK3 inverse");
    expect_near(c, (a * ai).get_X(), Eigen::MatrixXd::Identity(3 + k, 3 + k), 1e-12 * s, "X*X^-1");
    expect_near(c, (ai * a).get_X(), Eigen::MatrixXd::Identity(3 + k, 3 + k), 1e-12 * s, "X^-1*X");
    expect_eq(c, a.get_X(), X, "operand of product/inverse unchanged");
    expect_eq(c, b.get_X(), Y, "right operand of product unchanged");
    // setters touch only their block
    math::SEK3 e(X);
    Eigen::MatrixXd W = X;
    int steps = c.s.range(1, 4);
    for (int i = 0; i < steps; ++i) {
      switch (c.s.pick(k >= 2 ? 4 : 3)) {
        case 0: {
          Eigen::Matrix3d R = c.s.rot();
          e.set_R(R);
          W.topLeftCorner(3, 3) = R;
          break;
        }
        case 1: {
          Eigen::Vector3d p = c.s.vec(mag);
          e.set_p(p);
          W.block(0, 3, 3, 1) = p;
          break;
        }
        case 2: {
          e.set_X(Z);
          W = Z;
          break;
        }
        case 3: {
          Eigen::Vector3d v = c.s.vec(mag);
          e.set_v(v);
          W.block(0, 4, 3, 1) = v;
          break;
        }
      }
      expect_eq(c, e.get_X(), W, "SEK3 setter");
    }
    // component constructors
    Eigen::Matrix3d R = c.s.rot();
    Eigen::Vector3d p = c.s.vec(mag), v = c.s.vec(mag);
    math::SEK3 f(R, p, v), g(R, p), h;
    expect_eq(c, f.get_R(), R, "SEK3(R,p,v).R");
    expect_eq(c, f.get_p(), p, "SEK3(R,p,v).p");
    expect_eq(c, f.get_v(), v, "SEK3(R,p,v).v");
    expect_eq(c, g.get_R(), R, "SEK3(R,p).R");
    expect_eq(c, g.get_p(), p, "SEK3(R,p).p");
    expect_eq(c, h.get_X(), Eigen::MatrixXd::Identity(h.get_dim(), h.get_dim()), "SEK3() identity");
    expect_near(c, (f * f.inverse()).get_X(), Eigen::MatrixXd::Identity(5, 5), 1e-12 * s, "SEK3(R,p,v) inverse");
    expect_near(c, (g.inverse() * g).get_X(), Eigen::MatrixXd::Identity(g.get_dim(), g.get_dim()), 1e-12 * s,
                "SEK3(R,p) inverse");
    int K = c.s.range(1, 12);
    h.set_K(K);
    c.check(h.get_K() == K, "SEK3 set_K/get_K");
  }
  // state inverse
  if (k >= 2) {
    state::RobotState st(X);
    expect_near(c, st.get_Xinv(), ref::invSEK(ref::up(X)), 1e-13 * s * 10, "RobotState::get_Xinv");
    int n = c.s.range(0, 3);
    Eigen::MatrixXd B, Bi;
    st.copy_diag_X(n, B);
    st.copy_diag_Xinv(n, Bi);
    int d = 3 + k;
    c.check(B.rows() == n * d && B.cols() == n * d, "copy_diag_X size");
    c.check(Bi.rows() == n * d && Bi.cols() == n * d, "copy_diag_Xinv size");
    Eigen::MatrixXd Wb = Eigen::MatrixXd::Zero(n * d, n * d), Wi = Wb;
    for (int i = 0; i < n; ++i) {
      Wb.block(i * d, i * d, d, d) = X;
      Wi.block(i * d, i * d, d, d) = st.get_Xinv();
    }
    expect_eq(c, B, Wb, "copy_diag_X");
    expect_eq(c, Bi, Wi, "copy_diag_Xinv");
  }
}
}  // namespace vf
