#include "ref_filter.h"
namespace vf {
ref::M3 rotq(const std::array<double, 4>& q) {
  L w = q[0], x = q[1], y = q[2], z = q[3];
  ref::M3 R;
  R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
      2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return R;
}

ref::M RefFilter::phi_left(const ref::V3& w, const ref::V3& a, L dt) const {
  ref::M A = ref::M::Zero(15, 15);
  ref::M3 I = ref::M3::Identity();
  A.block(0, 0, 3, 3) = -ref::hat(w);
  A.block(3, 0, 3, 3) = -ref::hat(a);
  A.block(3, 3, 3, 3) = -ref::hat(w);
  A.block(6, 3, 3, 3) = I;
  A.block(6, 6, 3, 3) = -ref::hat(w);
  A.block(0, 9, 3, 3) = -I;
  A.block(3, 12, 3, 3) = -I;
  ref::M E = ref::expm(A * dt);
  int N = nx();
  ref::M F = ref::M::Identity(N + 6, N + 6);
  F.block(0, 0, 9, 9) = E.block(0, 0, 9, 9);
  F.block(0, N, 9, 6) = E.block(0, 9, 9, 6);
  for (int i = 5; i < n(); ++i) F.block(3 * i - 6, 3 * i - 6, 3, 3) = ref::expSO3(-w * dt);
  return F;
}

void RefFilter::propagate(const ref::V3& gyro, const ref::V3& acc, L tm) {
  L dt = tm - tp;
  ref::V3 w = Ri * gyro - ref::V3(th.head(3));
  ref::V3 a = Ri * acc - ref::V3(th.tail(3)) - w.cross(w.cross(ti));
  ref::M X0 = X;
  int N = nx();
  ref::M F = phi_left(w, a, dt);
  // mean
  ref::V3 f = w * dt;
  ref::M3 R0 = R();
  ref::V3 v = colv(3), p = colv(4);
  X.block(0, 0, 3, 3) = R0 * ref::gamma(f, 0);
  X.block(0, 3, 3, 1) = v + (R0 * (ref::gamma(f, 1) * a) + g()) * dt;
  X.block(0, 4, 3, 1) = p + v * dt + (R0 * (ref::gamma(f, 2) * a) + g() / 2) * dt * dt;
  ref::M G = ref::M::Identity(N + 6, N + 6);
  if (!left) {
    F = (ref::adExt(X, 6) * F * ref::adExt(ref::invSEK(X0), 6)).eval();
    G = ref::adExt(X0, 6);
  }
  if (!bias) F.block(0, N, N, 6).setZero();
  ref::M Q = ref::M::Zero(N + 6, N + 6);
  Q.block(0, 0, 3, 3) = Qg;
  Q.block(3, 3, 3, 3) = Qa;
  for (int i = 5; i < n(); ++i) Q.block(3 * i - 6, 3 * i - 6, 3, 3) = augQ[i - 5];
  if (bias) {
    Q.block(N, N, 3, 3) = Qbg;
    Q.block(N + 3, N + 3, 3, 3) = Qba;
  }
  ref::M FG = F * G;
  P = (F * P * F.transpose() + FG * Q * FG.transpose() * dt).eval();
  if (!bias) {
    P.rightCols(6).setZero();
    P.bottomRows(6).setZero();
    P.block(N, N, 6, 6).setIdentity();
  }
  t = tp = tm;
}

void RefFilter::update(const ref::V& Z, const ref::M& H, const ref::M& Nn, bool right) {
  int N = nx();
  if (!bias) {
    P.rightCols(6).setZero();
    P.bottomRows(6).setZero();
    P.block(N, N, 6, 6) = L(0.0001) * ref::M::Identity(6, 6);
  }
  if (right && left) {
    ref::M A = ref::adExt(X, 6);
    P = (A * P * A.transpose()).eval();
  }
  if (!right && !left) {
    ref::M A = ref::adExt(ref::invSEK(X), 6);
    P = (A * P * A.transpose()).eval();
  }
  ref::M S = H * P * H.transpose() + Nn;
  ref::M K = (S.ldlt().solve(H * P)).transpose();
  ref::V d = K * Z;
  ref::M Si = S.ldlt().solve(ref::M::Identity(S.rows(), S.rows()));
  cond = ref::maxabs(S) * ref::maxabs(Si) * S.rows();
  kmax = ref::maxabs(K);
  pmax = ref::maxabs(P);
  dmax = d.size() ? d.cwiseAbs().maxCoeff() : L(0);
  ref::V dth = d.tail(6);
  X = right ? ref::M(ref::expSEK(d.head(N)) * X) : ref::M(X * ref::expSEK(d.head(N)));
  if (right) dth(2) = 0;
  th += dth;
  ref::M B = ref::M::Identity(N + 6, N + 6) - K * H;
  P = (B * P * B.transpose() + K * Nn * K.transpose()).eval();
  if (right) {
    P.row(N + 2).setZero();
    P.col(N + 2).setZero();
    P(N + 2, N + 2) = L(0.0001);
  }
  if (right && left) {
    ref::M A = ref::adExt(ref::invSEK(X), 6);
    P = (A * P * A.transpose()).eval();
  }
  if (!right && !left) {
    ref::M A = ref::adExt(X, 6);
    P = (A * P * A.transpose()).eval();
  }
}

void RefFilter::velocity(const ref::V3& vs, const VelCfg& k, L tm) {
  ref::M H = ref::M::Zero(3, nx() + 6);
  H.block(0, 3, 3, 3).setIdentity();
  ref::M3 N = L(k.std) * L(k.std) * ref::M3::Identity();
  ref::V Z = R() * (rotq(k.q) * vs) * L(k.scale) - colv(3);
  update(Z, H, N, true);
  t = tm;
}

void RefFilter::legs(const std::vector<ref::V3>& pos, const std::vector<ref::M3>& J, const std::vector<bool>& con, const LegCfg& k, L tm) {
  int m = 0;
  auto cov = [&](int i) {
    return ref::M3(J[i] * J[i].transpose() * (L(k.enc) * L(k.enc)) + ref::M3::Identity() * (L(k.add) * L(k.add)));
  };
  for (size_t i = 0; i < con.size(); ++i)
    if (con[i] && col.count(i)) ++m;
  if (m) {
    ref::M H = ref::M::Zero(3 * m, nx() + 6), N = ref::M::Zero(3 * m, 3 * m);
    ref::V Z(3 * m);
    int r = 0;
    for (size_t i = 0; i < con.size(); ++i)
      if (con[i] && col.count(i)) {
        H.block(r, 6, 3, 3) = -ref::M3::Identity();
        H.block(r, 3 * col[i] - 6, 3, 3) = ref::M3::Identity();
        N.block(r, r, 3, 3) = R() * cov(i) * R().transpose();
        Z.segment(r, 3) = R() * pos[i] - (colv(col[i]) - colv(4));
        r += 3;
      }
    update(Z, H, N, true);
  }
  for (size_t i = 0; i < con.size(); ++i)
    if (!con[i] && col.count(i)) remove(i);
  for (size_t i = 0; i < con.size(); ++i)
    if (con[i] && !col.count(i)) add(i, pos[i], cov(i), k);
  t = tm;
}

void RefFilter::erase(ref::M& m, int at, int cnt) {
  int k = m.rows() - cnt;
  ref::M r(k, k);
  auto src = [&](int i) { return i < at ? i : i + cnt; };
  for (int i = 0; i < k; ++i)
    for (int j = 0; j < k; ++j) r(i, j) = m(src(i), src(j));
  m = r;
}

void RefFilter::remove(int leg) {
  int cc = col[leg];
  erase(X, cc, 1);
  erase(P, 3 * cc - 6, 3);
  augQ.erase(augQ.begin() + (cc - 5));
  col.erase(leg);
  for (auto& kv : col)
    if (kv.second > cc) --kv.second;
}

void RefFilter::add(int leg, const ref::V3& pos, const ref::M3& cov, const LegCfg& k) {
  int N = nx();
  // new right-invariant error: xi_d = xi_p + R * noise ; left: xi_d = xi_p + xi_R x pos + noise
  ref::M J = ref::M::Zero(3, N + 6);
  J.block(0, 6, 3, 3).setIdentity();
  ref::M3 G = R();
  if (left) {
    J.block(0, 0, 3, 3) = -ref::hat(pos);
    G.setIdentity();
  }
  ref::M Pn(N + 9, N + 9);
  ref::M PJ = P * J.transpose();
  ref::M C = J * PJ + G * cov * G.transpose();
  auto put = [&](int i) { return i < N ? i : i + 3; };
  for (int i = 0; i < N + 6; ++i) {
    for (int j = 0; j < N + 6; ++j) Pn(put(i), put(j)) = P(i, j);
    for (int j = 0; j < 3; ++j) Pn(put(i), N + j) = Pn(N + j, put(i)) = PJ(i, j);
  }
  Pn.block(N, N, 3, 3) = C;
  P = Pn;
  int c0 = n();
  ref::M Xn = ref::M::Identity(c0 + 1, c0 + 1);
  Xn.topLeftCorner(c0, c0) = X;
  ref::V3 p0 = colv(4);
  Xn.block(0, c0, 3, 1) = p0 + R() * pos;
  X = Xn;
  augQ.push_back(L(k.con) * L(k.con) * ref::M3::Identity());
  col[leg] = c0;
}
}  // namespace vf
