#include <memory>
#include "common/ref.h"
#include "drift/state/robot_state.h"
namespace vf {
const char* kProperty = "C03";
const char* kRule =
    "histories of up to ~60 add/remove/overwrite operations on augmented vectors with full random covariance and process noise; "
    "model: named 3x3 blocks; non-trivial: a removal while >=2 vectors are present, followed by another operation.";
size_t kMaxTape = 260;
int kCaseTimeout = 20;
void per_process_setup() {}
using state::RobotState;

struct Model {
  // block names in order: -3 rot, -2 vel, -1 pos, ids >= 0 augmented, then -11 bg, -10 ba
  std::vector<int> ids;
  std::map<std::pair<int, int>, Eigen::Matrix3d> P, Q;
  std::map<int, Eigen::Vector3d> val;
  std::map<int, std::shared_ptr<int>> handle;
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
  Eigen::Vector3d v = Eigen::Vector3d::Zero(), p = Eigen::Vector3d::Zero();
  Eigen::VectorXd theta = Eigen::VectorXd::Zero(6);
  std::vector<int> names() const {
    std::vector<int> n = {-3, -2, -1};
    n.insert(n.end(), ids.begin(), ids.end());
    n.push_back(-11);
    n.push_back(-10);
    return n;
  }
  Eigen::MatrixXd assemble(const std::map<std::pair<int, int>, Eigen::Matrix3d>& B) const {
    auto n = names();
    Eigen::MatrixXd M(3 * n.size(), 3 * n.size());
    for (size_t i = 0; i < n.size(); ++i)
      for (size_t j = 0; j < n.size(); ++j) {
        auto it = B.find({n[i], n[j]});
        M.block<3, 3>(3 * i, 3 * j) = it == B.end() ? Eigen::Matrix3d::Zero() : it->second;
      }
    return M;
  }
  void scatter(std::map<std::pair<int, int>, Eigen::Matrix3d>& B, const Eigen::MatrixXd& M) {
    auto n = names();
    B.clear();
    for (size_t i = 0; i < n.size(); ++i)
      for (size_t j = 0; j < n.size(); ++j) B[{n[i], n[j]}] = M.block<3, 3>(3 * i, 3 * j);
  }
};

static void compare(Ctx& c, RobotState& st, const Model& m, const std::string& when) {
  int n = 5 + m.ids.size();
  c.check(st.dimX() == n, when + ": dimX " + std::to_string(st.dimX()) + " expected " + std::to_string(n));
  c.check(st.dimTheta() == 6, when + ": dimTheta");
  c.check(st.dimP() == 3 * n + 6 - 6, when + ": dimP");
  c.check(st.dimQc() == 3 * n, when + ": dimQc");
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(n, n);
  X.topLeftCorner(3, 3) = m.R;
  X.block(0, 3, 3, 1) = m.v;
  X.block(0, 4, 3, 1) = m.p;
  for (size_t i = 0; i < m.ids.size(); ++i) X.block(0, 5 + i, 3, 1) = m.val.at(m.ids[i]);
  expect_eq(c, st.get_X(), X, when + ": X");
  expect_eq(c, st.get_theta(), m.theta, when + ": Theta");
  expect_eq(c, st.get_P(), m.assemble(m.P), when + ": P");
  expect_eq(c, st.get_continuous_noise_covariance(), m.assemble(m.Q), when + ": process noise");
  for (size_t i = 0; i < m.ids.size(); ++i) {
    int id = m.ids[i];
    int col = *m.handle.at(id);
    c.check(col == int(5 + i), when + ": handle of vector #" + std::to_string(id) + " is " + std::to_string(col)
                                   + " expected " + std::to_string(5 + i));
    expect_eq(c, st.get_aug_state(col), m.val.at(id), when + ": get_aug_state");
    expect_eq(c, st.get_vector(col), m.val.at(id), when + ": get_vector");
    expect_eq(c, st.get_aug_cov(col), m.P.at({id, id}), when + ": get_aug_cov");
  }
}

void property(Ctx& c) {
  RobotState st;
  Model m;
  {
    m.scatter(m.P, Eigen::MatrixXd::Identity(15, 15));
    m.scatter(m.Q, Eigen::MatrixXd::Zero(15, 15));
  }
  compare(c, st, m, "fresh");
  int next_id = 0, step = 0;
  bool removed_mid = false;
  std::vector<RobotState> copies;
  std::vector<Eigen::MatrixXd> copyX, copyP, copyQ;
  while (c.s.more() && step < 60) {
    ++step;
    size_t op = c.s.pick(12);
    std::string name;
    if (removed_mid) c.interesting();
    if (op <= 3 && m.ids.size() < 9) {  // add
      int id = next_id++;
      name = "add#" + std::to_string(id);
      m.ids.push_back(id);
      Eigen::MatrixXd full = c.s.psd(3 * m.names().size(), 1.0);
      // keep the surviving blocks, new random row/column/block
      std::map<std::pair<int, int>, Eigen::Matrix3d> keep = m.P;
      m.scatter(m.P, full);
      for (auto& kv : keep) m.P[kv.first] = kv.second;
      Eigen::Vector3d v = c.s.vec(5);
      Eigen::Matrix3d noise = c.s.cov3(1e-2);
      m.val[id] = v;
      m.Q[{id, id}] = noise;
      m.handle[id] = std::make_shared<int>(0);
      int ret = st.add_aug_state(v, m.assemble(m.P), noise, m.handle[id]);
      c.check(ret == int(4 + m.ids.size()), name + ": returned column " + std::to_string(ret) + " expected "
                                                + std::to_string(4 + m.ids.size()));
      *m.handle[id] = ret;
    } else if (op <= 6 && !m.ids.empty()) {  // remove
      size_t i = c.s.pick(m.ids.size());
      int id = m.ids[i];
      name = "del#" + std::to_string(id);
      c.tag(i == 0 ? "del-first" : i + 1 == m.ids.size() ? "del-last" : "del-middle");
      if (m.ids.size() >= 2) removed_mid = true;
      st.del_aug_state(*m.handle[id]);
      m.ids.erase(m.ids.begin() + i);
      for (auto* B : {&m.P, &m.Q})
        for (auto it = B->begin(); it != B->end();)
          it = (it->first.first == id || it->first.second == id) ? B->erase(it) : std::next(it);
      m.val.erase(id);
      m.handle.erase(id);
    } else if (op == 7 && !m.ids.empty()) {
      size_t i = c.s.pick(m.ids.size());
      int id = m.ids[i];
      name = "set#" + std::to_string(id);
      Eigen::Vector3d v = c.s.vec(5);
      st.set_aug_state(*m.handle[id], v);
      m.val[id] = v;
    } else if (op == 8) {
      name = "setP";
      Eigen::MatrixXd P = c.s.psd(3 * m.names().size(), 1.0);
      st.set_P(P);
      m.scatter(m.P, P);
    } else if (op == 9) {
      name = "setQc";
      Eigen::MatrixXd Q = c.s.psd(3 * m.names().size(), 1e-2);
      st.set_continuous_noise_covariance(Q);
      m.scatter(m.Q, Q);
    } else if (op == 10) {
      name = "setX";
      m.R = c.s.rot();
      m.v = c.s.vec(3);
      m.p = c.s.vec(3);
      m.theta.head(3) = c.s.vec(1);
      m.theta.tail(3) = c.s.vec(1);
      st.set_rotation(m.R);
      st.set_velocity(m.v);
      st.set_position(m.p);
      st.set_gyroscope_bias(m.theta.head(3));
      st.set_accelerometer_bias(m.theta.tail(3));
    } else if (op == 11 && copies.size() < 2) {
      name = "snapshot";
      copies.push_back(st);
      copyX.push_back(st.get_X());
      copyP.push_back(st.get_P());
      copyQ.push_back(st.get_continuous_noise_covariance());
    } else
      continue;
    c.desc << name << " ";
    c.tag(name.substr(0, 3));
    compare(c, st, m, "step " + std::to_string(step) + " " + name);
  }
  for (size_t i = 0; i < copies.size(); ++i) {
    expect_eq(c, copies[i].get_X(), copyX[i], "snapshot X changed by later operations");
    expect_eq(c, copies[i].get_P(), copyP[i], "snapshot P changed by later operations");
    expect_eq(c, copies[i].get_continuous_noise_covariance(), copyQ[i], "snapshot Qc changed by later operations");
  }
}
}  // namespace vf
