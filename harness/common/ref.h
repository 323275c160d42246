// Independent references in long double.  Nothing here includes the library under test.
#pragma once
#include "tape.h"

namespace ref {
using L = long double;
using M = Eigen::Matrix<L, -1, -1>;
using V = Eigen::Matrix<L, -1, 1>;
using M3 = Eigen::Matrix<L, 3, 3>;
using V3 = Eigen::Matrix<L, 3, 1>;

template <class D>
V3 v3(const Eigen::MatrixBase<D>& v) {
  return V3(L(v(0)), L(v(1)), L(v(2)));
}
template <class D>
M up(const Eigen::MatrixBase<D>& m) {
  return m.template cast<L>();
}
M3 hat(const V3& w);
// scalar series  a = sum (-1)^k th2^k/(2k+1+m)!,  b = sum (-1)^k th2^k/(2k+2+m)!   (100 digits)
void gamma_coeffs(L th2, int m, L& a, L& b);
// m-th integral of the SO(3) exponential
M3 gamma(const V3& w, int m);
M3 expSO3(const V3& w);
V3 logSO3(const M3& R);
// general matrix exponential: scaling and squaring with a Taylor kernel
M expm(const M& A);
// hat matrix of an SE_k(3) tangent [w, x1, x2, ...]
M hatSEK(const V& xi);
M expSEK(const V& xi);
M adSEK(const M& X);
M invSEK(const M& X);
// adjoint extended with an identity on the last nb (bias) coordinates
M adExt(const M& X, int nb);
// smallest eigenvalue of a symmetric matrix
L mineig(const M& m);
inline L maxabs(const M& m) { return m.size() ? m.cwiseAbs().maxCoeff() : L(0); }
}  // namespace ref
