#include "common/tape.h"
#include "common/ref.h"
// clang-format off
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_HindLeftFoot.h"
// clang-format on
#undef E
namespace vf {
const char* kProperty = "C19";
const char* kRule =
    "12 joint angles (zero, quarter turns, tiny, equal, uniform in [-2pi,2pi], large), all four legs: 10 generated functions per leg against a long-double "
    "kinematic chain and its exact derivative, plus mirror/translation relations, the reach bound and independence of the other legs' joints. "
    "Non-trivial: at least one joint of the checked legs is not a multiple of a quarter turn.";
size_t kMaxTape = 48;
int kCaseTimeout = 10;
void per_process_setup() {}
namespace {
using Q = Eigen::Matrix<double, 12, 1>;
struct Leg {
  Eigen::MatrixXd p, R, H, Jp, Jb, Js, Jvb, Jvs, Jwb, Jws;
};
#define EVAL(NAME)                                                                                                                              \
  Leg eval_##NAME(const Q& q) {                                                                                                                 \
    return {p_Body_to_##NAME##Foot(q),  R_Body_to_##NAME##Foot(q),   H_Body_to_##NAME##Foot(q),   Jp_Body_to_##NAME##Foot(q),                   \
            Jb_Body_to_##NAME##Foot(q), Js_Body_to_##NAME##Foot(q),  Jvb_Body_to_##NAME##Foot(q), Jvs_Body_to_##NAME##Foot(q),                  \
            Jwb_Body_to_##NAME##Foot(q), Jws_Body_to_##NAME##Foot(q)};                                                                          \
  }
EVAL(FrontRight)
EVAL(FrontLeft)
EVAL(HindRight)
EVAL(HindLeft)
Leg eval(int l, const Q& q) {
  return l == 0 ? eval_FrontRight(q) : l == 1 ? eval_FrontLeft(q) : l == 2 ? eval_HindRight(q) : eval_HindLeft(q);
}
const char* kName[] = {"FR", "FL", "HR", "HL"};
ref::M3 rx(ref::L a) {
  ref::M3 r = ref::M3::Identity();
  r(1, 1) = r(2, 2) = cosl(a);
  r(2, 1) = sinl(a);
  r(1, 2) = -sinl(a);
  return r;
}
ref::M3 ry(ref::L a) {
  ref::M3 r = ref::M3::Identity();
  r(0, 0) = r(2, 2) = cosl(a);
  r(0, 2) = sinl(a);
  r(2, 0) = -sinl(a);
  return r;
}
// hip roll about x at (+-0.19,+-0.049,0), abad link +-0.062 in y, hip pitch and knee pitch about -y, links 0.209 and 0.2075 down
struct Chain {
  ref::V3 p, w[3], dp[3];
  ref::M3 R;
};
Chain chain(int l, ref::L a, ref::L b, ref::L k) {
  ref::L sx = l < 2 ? 1 : -1, sy = l % 2 ? 1 : -1;
  ref::V3 hip(0.19L * sx, 0.049L * sy, 0), off(0, 0.062L * sy, 0), th(0, 0, -0.209L), sh(0, 0, -0.2075L);
  ref::M3 A = rx(a), B = ry(-b), C = ry(-k);
  Chain c;
  ref::V3 kn = hip + A * (off + B * th), hp = hip + A * off;
  c.p = kn + A * B * C * sh;
  c.R = A * B * C;
  c.w[0] = ref::V3(1, 0, 0);
  c.w[1] = c.w[2] = A * ref::V3(0, -1, 0);
  c.dp[0] = c.w[0].cross(c.p - hip);
  c.dp[1] = c.w[1].cross(c.p - hp);
  c.dp[2] = c.w[2].cross(c.p - kn);
  return c;
}
double angle(Ctx& c) {
  switch (c.s.pick(7)) {
    case 0: return 0;
    case 1: return M_PI / 2 * c.s.range(-4, 4);
    case 2: return c.s.logmag(-12, -2);
    case 3: return M_PI / 2 * c.s.range(-4, 4) + c.s.logmag(-9, -2);
    default: return 2 * M_PI * c.s.sym();
  }
}
}  // namespace
void property(Ctx& c) {
  Q q;
  bool large = c.s.chance(1, 20);
  for (int i = 0; i < 12; ++i) q(i) = angle(c) * (large ? 50 : 1);
  if (c.s.chance(1, 8)) q.tail(9) = q.head(3).replicate(3, 1).eval();
  c.desc << "q = " << show(q.transpose());
  double tol = 1e-13 * (large ? 50 : 4);
  bool nt = false;
  for (int l = 0; l < 4; ++l) {
    Leg f = eval(l, q);
    Chain h = chain(l, q(3 * l), q(3 * l + 1), q(3 * l + 2));
    std::string n = kName[l];
    auto chk = [&](const Eigen::MatrixXd& got, const ref::M& want, const std::string& what) { expect_near(c, got, want, tol, n + " " + what); };
    chk(f.p, h.p, "p");
    chk(f.R, h.R, "R");
    ref::M T = ref::M::Identity(4, 4);
    T.block(0, 0, 3, 3) = h.R;
    T.block(0, 3, 3, 1) = h.p;
    chk(f.H, T, "H");
    ref::M Jp = ref::M::Zero(3, 12), Jw = Jp, Jvs = Jp;
    for (int i = 0; i < 3; ++i) {
      Jp.col(3 * l + i) = h.dp[i];
      Jw.col(3 * l + i) = h.w[i];
      Jvs.col(3 * l + i) = h.dp[i] - h.w[i].cross(h.p);
    }
    chk(f.Jp, Jp, "Jp");
    chk(f.Jws, Jw, "Jws");
    chk(f.Jwb, h.R.transpose() * Jw, "Jwb");
    chk(f.Jvs, Jvs, "Jvs");
    chk(f.Jvb, h.R.transpose() * Jp, "Jvb");
    ref::M Js(6, 12), Jb(6, 12);
    Js << Jw, Jvs;
    Jb << h.R.transpose() * Jw, h.R.transpose() * Jp;
    chk(f.Js, Js, "Js");
    chk(f.Jb, Jb, "Jb");
    // invariants stated without the chain
    expect_near(c, f.R.transpose() * f.R, ref::M::Identity(3, 3), tol, n + " R orthogonal");
    c.check(Eigen::Matrix3d(f.R).determinant() > 0, n + " R is a reflection");
    double sx = l < 2 ? 1 : -1, sy = l % 2 ? 1 : -1;
    c.check((f.p - Eigen::Vector3d(0.19 * sx, 0.049 * sy, 0)).norm() <= std::hypot(0.062, 0.209 + 0.2075) + tol, n + " foot beyond the leg's reach");
    for (int i = 0; i < 12; ++i)
      if (i / 3 != l)
        for (auto* J : {&f.Jp, &f.Jb, &f.Js, &f.Jvb, &f.Jvs, &f.Jwb, &f.Jws}) c.check(J->col(i).isZero(0), n + ": Jacobian depends on another leg's joint");
    // other legs' joints do not matter
    Q q2 = q;
    for (int i = 0; i < 12; ++i)
      if (i / 3 != l) q2(i) = 0.37 * i - q(i);
    Leg g = eval(l, q2);
    c.check(g.p == f.p && g.R == f.R && g.H == f.H && g.Jp == f.Jp && g.Jb == f.Jb && g.Js == f.Js && g.Jvb == f.Jvb && g.Jvs == f.Jvs && g.Jwb == f.Jwb
                && g.Jws == f.Jws,
            n + ": result depends on another leg's joints");
    // mirror image: roll negated, pitches kept, on the opposite leg
    Q qm = Q::Zero();
    int o = l ^ 1;
    qm.segment(3 * o, 3) << -q(3 * l), q(3 * l + 1), q(3 * l + 2);
    Leg m = eval(o, qm);
    Eigen::Matrix3d S = Eigen::Vector3d(1, -1, 1).asDiagonal();
    expect_near(c, m.p, ref::up(S * f.p), tol, n + " mirror image p");
    expect_near(c, m.R, ref::up(S * f.R * S), tol, n + " mirror image R");
    expect_near(c, m.Jp.block(0, 3 * o, 3, 3), ref::up(S * f.Jp.block(0, 3 * l, 3, 3) * Eigen::Matrix3d(Eigen::Vector3d(-1, 1, 1).asDiagonal())), tol,
                n + " mirror image Jp");
    // front and hind legs are translates
    Q qt = Q::Zero();
    o = l ^ 2;
    qt.segment(3 * o, 3) = q.segment(3 * l, 3);
    Leg t = eval(o, qt);
    expect_near(c, t.p, ref::up(f.p - Eigen::Vector3d(0.38 * sx, 0, 0)), tol, n + " translate p");
    expect_near(c, t.Jp.block(0, 3 * o, 3, 3), ref::up(f.Jp.block(0, 3 * l, 3, 3)), tol, n + " translate Jp");
    for (int i = 0; i < 3; ++i) nt |= std::abs(std::remainder(q(3 * l + i), M_PI / 2)) > 1e-13;
  }
  if (nt) c.interesting();
  if (large) c.tag("large");
}
}  // namespace vf
