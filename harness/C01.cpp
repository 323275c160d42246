#include "common/ref.h"
#include "drift/math/lie_group.h"
namespace vf {
const char* kProperty = "C01";
const char* kRule =
    "rotation vectors: axis-aligned/random direction x angle in {0, subnormal, 1e-300..1e2 log-uniform, near k*pi/2, uniform}, "
    "order m in 0..6, SE_k tangents k in 0..7 with components up to 1e4; non-trivial: 0 < |w|.  Oracle: 100-digit scalar series.";
size_t kMaxTape = 40;
int kCaseTimeout = 20;
void per_process_setup() {}
using namespace math::lie_group;

static Eigen::Vector3d gen_w(Ctx& c) {
  Eigen::Vector3d d = c.s.dir();
  double a;
  switch (c.s.pick(8)) {
    case 0: a = 0; c.tag("zero"); break;
    case 1: a = c.s.logu(-300, -12); c.tag("vanishing"); break;
    case 2: a = c.s.logu(-12, -6); c.tag("tiny"); break;
    case 3: a = c.s.logu(-6, 0); c.tag("small"); break;
    case 4: a = c.s.range(1, 8) * M_PI / 2 + c.s.logmag(-16, -1); c.tag("near-k*pi/2"); break;
    case 5: a = c.s.uni(0, M_PI); c.tag("0..pi"); break;
    case 6: a = c.s.uni(M_PI, 4 * M_PI); c.tag("pi..4pi"); break;
    default: a = c.s.logu(0, 2); c.tag("large"); break;
  }
  return d * a;
}

void property(Ctx& c) {
  Eigen::Vector3d w = gen_w(c);
  int m = c.s.range(0, 6);
  double th = w.norm();
  if (th > 0) c.interesting();
  c.desc << "w=" << show(w.transpose()) << " |w|=" << th << " m=" << m;
  double fact = 1;
  for (int i = 2; i <= m; ++i) fact *= i;
  // the largest intermediate term of any evaluation scheme is about (1+th)^2/m!, or th^j/j! scaled back
  double tol = 2e-13 * (1 + th);
  ref::M3 G = ref::gamma(ref::v3(w), 0);
  {
    ref::L a, b;
    auto exact = [&](int mm) {
      ref::gamma_coeffs(ref::v3(w).squaredNorm(), mm, a, b);
      ref::L f = 1;
      for (int i = 2; i <= mm; ++i) f *= i;
      ref::M3 W = ref::hat(ref::v3(w));
      return (ref::M3::Identity() / f + a * W + b * W * W).eval();
    };
    G = exact(m);
    expect_near(c, Gamma_SO3(w, m), G, tol, "Gamma_SO3 order " + std::to_string(m));
    ref::M3 E = exact(0), J = exact(1);
    Eigen::Matrix3d R = Exp_SO3(w);
    expect_near(c, R, E, tol, "Exp_SO3");
    expect_near(c, (R.transpose() * R).eval(), Eigen::Matrix3d::Identity(), 1e-13 * (1 + th), "orthogonality of Exp_SO3");
    expect_near(c, R.determinant(), 1.0, 1e-13 * (1 + th), "det Exp_SO3");
    expect_near(c, LeftJacobian_SO3(w), J, tol, "LeftJacobian_SO3");
    expect_near(c, RightJacobian_SO3(w), J.transpose().eval(), tol, "RightJacobian_SO3");
    // Exp_SEK3
    int k = c.s.range(0, 7);
    Eigen::VectorXd xi(3 + 3 * k);
    xi.head(3) = w;
    double scale = 0;
    for (int i = 0; i < k; ++i) {
      xi.segment<3>(3 + 3 * i) = c.s.vec(1.0) * c.s.logu(-4, 4);
      scale = std::max(scale, xi.segment<3>(3 + 3 * i).norm());
    }
    c.desc << " k=" << k << " xi=" << show(xi.transpose());
    Eigen::MatrixXd X = Exp_SEK3(xi);
    c.check(X.rows() == 3 + k && X.cols() == 3 + k, "Exp_SEK3 has wrong dimensions");
    ref::M want = ref::M::Identity(3 + k, 3 + k);
    want.block(0, 0, 3, 3) = E;
    for (int i = 0; i < k; ++i) want.block(0, 3 + i, 3, 1) = J * xi.segment<3>(3 + 3 * i).cast<ref::L>();
    expect_near(c, X.topLeftCorner(3, 3), want.topLeftCorner(3, 3), tol, "Exp_SEK3 rotation");
    expect_eq(c, X.bottomRows(k), want.bottomRows(k), "Exp_SEK3 homogeneous rows");
    for (int i = 0; i < k; ++i)
      expect_near(c, X.block(0, 3 + i, 3, 1), want.block(0, 3 + i, 3, 1),
                  tol * (1e-300 + xi.segment<3>(3 + 3 * i).norm()), "Exp_SEK3 column " + std::to_string(3 + i));
    // and the matrix exponential itself (guards the reference as well)
    if (th < 20) {
      ref::M EE = ref::expm(ref::hatSEK(xi.cast<ref::L>()));
      expect_near(c, EE.topLeftCorner(3, 3), want.topLeftCorner(3, 3), 1e-14 * (1 + th), "reference self-check");
      expect_near(c, X, EE, tol * (1 + scale), "Exp_SEK3 vs matrix exponential");
    }
  }
  // skew and factorial
  Eigen::Vector3d u = c.s.vec(10);
  expect_near(c, (skew(w) * u).eval(), w.cross(u).eval(), 1e-14 * (1 + th) * 20, "skew(w)*u = w x u");
  expect_eq(c, skew(w), (-skew(w).transpose()).eval(), "skew antisymmetric");
  int n = c.s.range(0, 18);
  long f = 1;
  for (int i = 2; i <= n; ++i) f *= i;
  c.check(factorial(n) == f, "factorial(" + std::to_string(n) + ")");
}
}  // namespace vf
