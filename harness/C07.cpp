#include "common/drift_util.h"
namespace vf {
const char* kProperty = "C07";
const char* kRule =
    "random state (pose, biases, 0-4 contacts, PSD covariance), observation matrix of 1-12 rows (dense or sparse like velocity/contact "
    "rows), innovation and noise; both update sides x both stored conventions x bias estimation on/off, 1-3 updates in a row; mean, "
    "biases, covariance vs long-double Kalman update; non-trivial: non-zero innovation and observation.";
size_t kMaxTape = 260;
int kCaseTimeout = 20;
void per_process_setup() {}

void property(Ctx& c) {
  int naug = c.s.chance(1, 2) ? c.s.range(0, 4) : 0;
  int n = 5 + naug;
  Eigen::MatrixXd X = Eigen::MatrixXd::Identity(n, n);
  X.topLeftCorner(3, 3) = c.s.rot();
  double sx = c.s.chance(1, 3) ? 0 : c.s.logu(-1, 1.5);
  for (int i = 3; i < n; ++i) X.block(0, i, 3, 1) = c.s.vec(sx);
  Eigen::VectorXd th(6);
  th.head(3) = c.s.vec(0.5);
  th.tail(3) = c.s.vec(0.5);
  int d = 3 * n;
  // sometimes a very precise (or very vague) filter: priors and sensors of the same size
  bool fine = c.s.chance(1, 4);
  double ps = fine ? c.s.logu(-12, 4) : c.s.logu(-3, 0.3);
  RobotState s(X, th, c.s.psd(d, ps));
  bool left = c.s.chance(1, 2), en = c.s.chance(1, 2);
  s.set_enable_imu_bias_update(en);
  double t = c.s.real(100);
  s.set_time(t);
  s.set_propagate_time(t - 1);
  s.set_body_angular_velocity(c.s.vec(1));
  RefFilter r;
  r.left = left;
  c.desc << (left ? "left" : "right") << "-stored bias" << en << " naug" << naug << " sx" << sx << " ";
  int k = 1 + c.s.range(0, 2);
  for (int u = 0; u < k; ++u) {
    bool right = c.s.chance(1, 2);
    int rows = c.s.chance(1, 2) ? 3 * (1 + int(c.s.pick(4))) : 1 + int(c.s.pick(12));
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(rows, d);
    Bulk b(c.s.next());
    if (c.s.chance(1, 2)) {
      c.tag("dense");
      for (int i = 0; i < rows; ++i)
        for (int j = 0; j < d; ++j) H(i, j) = b.sym();
    } else {
      c.tag("sparse");
      for (int i = 0; i < rows; i += 3) {
        int m = std::min(3, rows - i);
        int blk = int(b.next() % (n)) * 3;
        H.block(i, blk, m, 3) = Eigen::Matrix3d::Identity().topRows(m);
        if (b.next() & 1) H.block(i, 6, m, 3) -= Eigen::Matrix3d::Identity().topRows(m);
      }
    }
    double nz = fine ? ps * c.s.logu(-2, 2) : c.s.logu(-4, 0);
    c.tag(nz < 1e-6 ? "nz<1e-6" : nz < 1 ? "nz<1" : "nz>=1");
    Eigen::MatrixXd N = c.s.psd(rows, nz);
    // keep S well conditioned: the floor of psd() is 1e-3*nz
    N += nz * 0.05 * Eigen::MatrixXd::Identity(rows, rows);
    Eigen::VectorXd Z(rows);
    double zs = c.s.logu(-6, 0.3);
    if (fine && ps > 2) zs *= 1e-2;
    for (int i = 0; i < rows; ++i) Z(i) = zs * b.sym();
    load_state(r, s);
    r.left = left;
    r.update(ref::up(Z), ref::up(H), ref::up(N), right);
    Eigen::Vector3d w0 = s.get_body_angular_velocity();
    Eigen::MatrixXd Q0 = s.get_continuous_noise_covariance();
    Eigen::MatrixXd P0 = s.get_P();
    double t0 = s.get_time(), tp0 = s.get_propagate_time();
    double yaw0 = s.get_theta()(2);
    if (right) CorrectRightInvariant(Z, H, N, s, left ? LeftInvariant : RightInvariant);
    else CorrectLeftInvariant(Z, H, N, s, left ? LeftInvariant : RightInvariant);
    std::string when = std::string(right ? "right" : "left") + " update " + std::to_string(u);
    c.tag(std::string(right ? "R" : "L") + (left ? "l" : "r") + (en ? "b" : "-"));
    double ad = (1 + maxabs(X) + double(ref::maxabs(r.X)));
    double zm = Z.cwiseAbs().maxCoeff();
    double e = 2e-15 * d * (1 + double(r.cond));                            // relative error of the gain
    double tolx = e * ad * (1 + double(r.kmax) * zm * rows);                 // X changes by Exp(K Z) X
    double ikh = 1 + double(r.kmax) * maxabs(H) * rows;
    double tolp = e * ikh * ikh * (double(r.pmax) + nz * double(r.kmax) * double(r.kmax)) * (right == left ? ad * ad : 1);
    if (fine && (tolx > 1e-8 * ad || e * ikh * ikh > 1e-6)) {
      c.tag("ill-conditioned");  // rounding decides: not compared
      return;
    }
    tolp = std::min(tolp, 1e-6 * (1e-6 + double(ref::maxabs(r.P))));
    tolx = std::min(tolx, 1e-7 * ad);
    c.tag(tolx < 1e-11 ? "tolx<1e-11" : tolx < 1e-9 ? "tolx<1e-9" : "tolx>=1e-9");
    c.tag(tolp < 1e-9 * (double(r.pmax)) ? "tolp-tight" : "tolp-loose");
    expect_near(c, s.get_X(), r.X, tolx, when + ": X");
    expect_near(c, s.get_theta(), r.th, tolx, when + ": biases");
    expect_near(c, s.get_P(), r.P, tolp, when + ": P");
    c.check(s.get_time() == t0 && s.get_propagate_time() == tp0, when + ": time changed");
    expect_eq(c, s.get_body_angular_velocity(), w0, when + ": body rate changed");
    expect_eq(c, s.get_continuous_noise_covariance(), Q0, when + ": process noise changed");
    c.check(s.dimX() == n && s.dimP() == d && s.dimTheta() == 6, when + ": dimensions changed");
    if (right) c.check(s.get_theta()(2) == yaw0, when + ": the yaw gyro bias moved");
    if (!en && H.rightCols(6).norm() == 0) {
      c.tag("no-bias-obs");
      expect_near(c, s.get_theta(), r.th, 1e-300, when + ": a bias moved though bias estimation is off");
      c.check(maxabs(s.get_P().block(0, d - 6, d - 6, 6)) <= tolp, when + ": biases correlated though bias estimation is off");
    }
    if (zs > 0 && H.norm() > 0) c.interesting();
    X = s.get_X();
  }
}
}  // namespace vf
