#include <memory>
#include "common/tape.h"
#include "common/ref.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "common/cheetah.h"
namespace vf {
const char* kProperty = "C20";
const char* kRule =
    "histories on 1..3 quadruped measurements: built empty or from vectors, then setters (joints, joint velocities, contacts; all 16 patterns), "
    "recomputations, copies and queries in any order; feet and 3x3 Jacobians against a long-double kinematic chain of the leg asked for, initial velocity "
    "against -(J dq + w x p) of the first contact. Non-trivial: >=1 recomputation after a change and >=1 initial velocity with contact.";
size_t kMaxTape = 200;
int kCaseTimeout = 10;
void per_process_setup() {}
namespace {
using measurement::kinematics::MiniCheetahKinematics;
using VX = Eigen::Matrix<double, -1, 1>;
using BX = Eigen::Matrix<bool, -1, 1>;
struct Model {
  VX q = VX::Zero(12), dq = VX::Zero(12), cq = VX::Zero(12);  // cq: joints at the last computation
  BX con = BX::Constant(4, false);
  bool computed = false;
};
VX joints(Ctx& c, double scale) {
  VX v(12);
  switch (c.s.pick(4)) {
    case 0: {
      v.setZero();
      v(c.s.pick(12)) = scale * c.s.sym();
      break;
    }
    default: {
      Bulk b(c.s.next());
      for (int i = 0; i < 12; ++i) v(i) = scale * b.sym();
    }
  }
  return v;
}
BX contacts(Ctx& c) {
  int m = c.s.range(0, 15);
  BX b(4);
  for (int i = 0; i < 4; ++i) b(i) = m >> i & 1;
  return b;
}
}  // namespace
void property(Ctx& c) {
  int n = c.s.range(1, 3);
  std::vector<std::unique_ptr<MiniCheetahKinematics>> m;
  std::vector<Model> r(n);
  for (int i = 0; i < n; ++i) {
    if (c.s.chance(1, 2)) {
      m.push_back(std::make_unique<MiniCheetahKinematics>());
      c.desc << "empty; ";
    } else {
      r[i].q = joints(c, 3);
      r[i].dq = joints(c, 10);
      r[i].con = contacts(c);
      m.push_back(std::make_unique<MiniCheetahKinematics>(r[i].q, r[i].dq, r[i].con));
      c.desc << "built c=" << r[i].con.transpose() << "; ";
    }
  }
  int re = 0, vel = 0, ops = 0;
  bool changed = false;
  auto verify = [&](int i) {
    auto& o = *m[i];
    Model& w = r[i];
    std::string at = "op " + std::to_string(ops) + " #" + std::to_string(i) + ": ";
    c.check(o.get_num_legs() == 4, at + "number of legs");
    c.check(o.get_type() == LEGGED_KINEMATICS, at + "type");
    for (int l = 0; l < 4; ++l) c.check(o.get_contact(l) == w.con(l), at + "contact flag of leg " + std::to_string(l));
    for (int j = 0; j < 12; ++j) c.check(o.get_joint_state(j) == w.q(j), at + "joint " + std::to_string(j));
    for (int l = 0; l < 4; ++l) {
      ref::M p = ref::M::Zero(3, 1), J = ref::M::Zero(3, 3);
      if (w.computed) {
        Chain k = chain(l, w.cq);
        p = k.p;
        J = k.J;
      }
      Eigen::MatrixXd gJ = o.get_J(l);
      c.check(gJ.rows() == 3 && gJ.cols() == 3, at + "Jacobian shape");
      expect_near(c, o.get_kin_pos(l), p, 1e-13, at + "foot position of leg " + std::to_string(l));
      expect_near(c, gJ, J, 1e-13, at + "Jacobian of leg " + std::to_string(l));
    }
  };
  while (c.s.more() && ops < 60) {
    ++ops;
    int i = c.s.range(0, n - 1);
    switch (c.s.pick(7)) {
      case 0:
        r[i].q = joints(c, 3);
        m[i]->set_joint_state(r[i].q);
        changed = true;
        c.desc << "q" << i << " ";
        break;
      case 1:
        r[i].dq = joints(c, 10);
        m[i]->set_joint_state_velocity(r[i].dq);
        c.desc << "dq" << i << " ";
        break;
      case 2:
        r[i].con = contacts(c);
        m[i]->set_contact(r[i].con);
        c.desc << "c" << i << "=" << r[i].con.transpose() << " ";
        break;
      case 3:
        m[i]->ComputeKinematics();
        re += r[i].computed && changed;
        r[i].computed = true;
        r[i].cq = r[i].q;
        c.desc << "K" << i << " ";
        break;
      case 4: {
        Eigen::Vector3d w = c.s.vec(5);
        ref::V3 want = ref::V3::Zero();
        for (int l = 0; l < 4; ++l)
          if (r[i].con(l)) {
            Chain k = chain(l, r[i].q);
            want = -(k.J * ref::v3(Eigen::Vector3d(r[i].dq.segment(3 * l, 3))) + ref::v3(w).cross(k.p));
            ++vel;
            break;
          }
        expect_near(c, m[i]->get_init_velocity(w), want, 1e-12, "op " + std::to_string(ops) + ": initial velocity");
        c.desc << "v" << i << " ";
        break;
      }
      case 5: {
        int j = c.s.range(0, n - 1);
        if (j != i) {
          *m[i] = *m[j];
          r[i] = r[j];
        }
        break;
      }
      default: break;
    }
    for (int k = 0; k < n; ++k) verify(k);
  }
  if (re && vel) c.interesting();
  if (vel) c.tag("velocity with contact");
}
}  // namespace vf
