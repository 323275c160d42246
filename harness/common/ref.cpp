#include <boost/multiprecision/cpp_bin_float.hpp>
#include <Eigen/Eigenvalues>

#include "ref.h"

namespace ref {
using Big = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<100>, boost::multiprecision::et_off>;

M3 hat(const V3& w) {
  M3 m;
  m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return m;
}

// scalar series  a = sum (-1)^k th2^k/(2k+1+m)!,  b = sum (-1)^k th2^k/(2k+2+m)!   (100 digits)
void gamma_coeffs(L th2_, int m, L& a, L& b) {
  if (th2_ < 1e-4L) {  // fast, exact to long double
    L f1 = 1, f2;
    for (int i = 2; i <= m + 1; ++i) f1 *= i;
    f2 = f1 * (m + 2);
    L ta = 1 / f1, tb = 1 / f2;
    a = b = 0;
    for (int k = 0; k < 12; ++k) {
      a += ta;
      b += tb;
      ta *= -th2_ / ((2 * k + 2 + m) * L(2 * k + 3 + m));
      tb *= -th2_ / ((2 * k + 3 + m) * L(2 * k + 4 + m));
    }
    return;
  }
  if (th2_ > 400) {  // c_j = sum (-th2)^k/(2k+j)!:  c_{j+2} = (1/j! - c_j)/th2 loses nothing for large angles
    L th = std::sqrt(th2_), c0 = std::cos(th), c1 = std::sin(th) / th, f = 1;
    for (int j = 0; j < m + 1; ++j) {
      if (j > 1) f *= j;
      L c2 = (1 / f - c0) / th2_;
      c0 = c1;
      c1 = c2;
    }
    a = c0;
    b = c1;
    return;
  }
  Big th2 = th2_, ta = 1, tb, A = 0, B = 0;
  for (int i = 2; i <= m + 1; ++i) ta /= i;
  tb = ta / (m + 2);
  for (int k = 0; k < 2000; ++k) {
    A += ta;
    B += tb;
    ta *= -th2 / (Big(2 * k + 2 + m) * Big(2 * k + 3 + m));
    tb *= -th2 / (Big(2 * k + 3 + m) * Big(2 * k + 4 + m));
    if (2 * k > 6 && boost::multiprecision::abs(ta) < Big(1e-40) && Big((2.0 * k) * (2.0 * k)) > th2) break;
  }
  a = A.convert_to<L>();
  b = B.convert_to<L>();
}
// medium precision but quick version for filter references: |w| moderate
M3 gamma(const V3& w, int m) {
  L f = 1;
  for (int i = 2; i <= m; ++i) f *= i;
  L a = 0, b = 0;
  L th2 = w.squaredNorm();
  if (th2 > 1e-4L && th2 < 16.0L) {
    L ta = 1, tb;
    for (int i = 2; i <= m + 1; ++i) ta /= i;
    tb = ta / (m + 2);
    for (int k = 0; k < 40; ++k) {
      a += ta;
      b += tb;
      ta *= -th2 / ((2 * k + 2 + m) * L(2 * k + 3 + m));
      tb *= -th2 / ((2 * k + 3 + m) * L(2 * k + 4 + m));
    }
  } else
    gamma_coeffs(th2, m, a, b);
  M3 W = hat(w);
  return (M3::Identity() / f + a * W + b * W * W).eval();
}
M3 expSO3(const V3& w) { return gamma(w, 0); }

// general matrix exponential: scaling and squaring with a Taylor kernel
M expm(const M& A) {
  int n = A.rows();
  L nrm = n ? A.cwiseAbs().rowwise().sum().maxCoeff() : 0;
  int s = 0;
  while (nrm > 0.25L && s < 60) {
    nrm /= 2;
    ++s;
  }
  M B = A / std::pow(L(2), s);
  M E = M::Identity(n, n), T = M::Identity(n, n);
  for (int k = 1; k <= 22; ++k) {
    T = (T * B).eval() / L(k);
    E += T;
  }
  for (int i = 0; i < s; ++i) E = (E * E).eval();
  return E;
}

// hat matrix of an SE_k(3) tangent [w, x1, x2, ...]
M hatSEK(const V& xi) {
  int k = xi.size() / 3 - 1;
  M m = M::Zero(3 + k, 3 + k);
  m.block(0, 0, 3, 3) = hat(V3(xi.head(3)));
  for (int i = 0; i < k; ++i) m.block(0, 3 + i, 3, 1) = xi.segment(3 + 3 * i, 3);
  return m;
}
M expSEK(const V& xi) {
  int k = xi.size() / 3 - 1;
  M m = M::Identity(3 + k, 3 + k);
  V3 w = xi.head(3);
  m.block(0, 0, 3, 3) = gamma(w, 0);
  M3 G1 = gamma(w, 1);
  for (int i = 0; i < k; ++i) m.block(0, 3 + i, 3, 1) = G1 * xi.segment(3 + 3 * i, 3);
  return m;
}
M adSEK(const M& X) {
  int k = X.rows() - 3;
  M A = M::Zero(3 + 3 * k, 3 + 3 * k);
  M3 R = X.block(0, 0, 3, 3);
  A.block(0, 0, 3, 3) = R;
  for (int i = 0; i < k; ++i) {
    A.block(3 + 3 * i, 3 + 3 * i, 3, 3) = R;
    A.block(3 + 3 * i, 0, 3, 3) = hat(V3(X.block(0, 3 + i, 3, 1))) * R;
  }
  return A;
}
M invSEK(const M& X) {
  int n = X.rows();
  M Y = M::Identity(n, n);
  M3 Rt = X.block(0, 0, 3, 3).transpose();
  Y.block(0, 0, 3, 3) = Rt;
  Y.block(0, 3, 3, n - 3) = -Rt * X.block(0, 3, 3, n - 3);
  return Y;
}
// adjoint extended with an identity on the last nb (bias) coordinates
M adExt(const M& X, int nb) {
  M A = adSEK(X);
  M B = M::Identity(A.rows() + nb, A.cols() + nb);
  B.topLeftCorner(A.rows(), A.cols()) = A;
  return B;
}
V3 logSO3(const M3& R) {
  // via the quaternion, stable up to a half turn
  Eigen::Quaternion<L> q(R);
  if (q.w() < 0) q.coeffs() *= -1;
  V3 v = q.vec();
  L n = v.norm();
  if (n < 1e-30L) return (2 * v).eval();
  return (v * (2 * std::atan2(n, q.w()) / n)).eval();
}
L mineig(const M& m) {
  Eigen::SelfAdjointEigenSolver<M> e((m + m.transpose()) / 2, Eigen::EigenvaluesOnly);
  return e.eigenvalues().minCoeff();
}
}  // namespace ref
