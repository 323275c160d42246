// Leg kinematics of the Mini Cheetah (legs FR, FL, HR, HL), from its link lengths.
#pragma once
#include "common/ref.h"
namespace vf {
struct Chain {
  ref::V3 p;
  ref::M3 J;
};
inline ref::M3 rot(int ax, ref::L a) {
  ref::V3 w = ref::V3::Zero();
  w(ax) = a;
  return ref::expSO3(w);
}
inline Chain chain(int l, const Eigen::Matrix<double, 12, 1>& q) {
  ref::L sx = l < 2 ? 1 : -1, sy = l % 2 ? 1 : -1;
  ref::V3 hip(0.19L * sx, 0.049L * sy, 0), off(0, 0.062L * sy, 0);
  ref::M3 A = rot(0, q(3 * l)), B = rot(1, -ref::L(q(3 * l + 1))), C = rot(1, -ref::L(q(3 * l + 2)));
  ref::V3 hp = hip + A * off, kn = hp + A * B * ref::V3(0, 0, -0.209L), y = A * ref::V3(0, -1, 0);
  Chain c;
  c.p = kn + A * B * C * ref::V3(0, 0, -0.2075L);
  c.J.col(0) = ref::V3(1, 0, 0).cross(c.p - hip);
  c.J.col(1) = y.cross(c.p - hp);
  c.J.col(2) = y.cross(c.p - kn);
  return c;
}
}  // namespace vf
