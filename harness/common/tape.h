// Tape decoder: a case is a vector<uint32_t>; everything random in a property is decoded from it.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// Pseudo-random expansion of ONE tape word, for bulk data (covariances...).  Word 0 means "simplest".
struct Bulk {
  uint64_t s;
  bool zero;
  explicit Bulk(uint32_t w) : s(0x9E3779B97F4A7C15ull * (uint64_t(w) + 1)), zero(w == 0) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double unit() { return zero ? 0.0 : double(next() >> 11) * 0x1p-53; }          // [0,1)
  double sym() { return zero ? 0.0 : 2.0 * (double(next() >> 11) * 0x1p-53) - 1.0; }  // [-1,1)
};

class Src {
 public:
  explicit Src(const std::vector<uint32_t>& t) : t_(t) {}
  bool more() const { return i_ < t_.size(); }
  size_t used() const { return i_; }
  uint32_t next() { return i_ < t_.size() ? t_[i_++] : (++i_, 0u); }
  size_t pick(size_t n) { return n ? next() % n : 0; }
  // true with probability num/den; an exhausted tape gives false
  bool chance(uint32_t num, uint32_t den) {
    uint32_t w = next();
    return den - 1 - (w % den) < num;
  }
  int range(int lo, int hi) { return lo + int(pick(size_t(hi - lo + 1))); }
  double u01() { return double(next()) * 0x1p-32; }
  // [-1,1], 0 for word 0; sign in the lowest bit so that shrinking goes to 0
  double sym() {
    uint32_t w = next();
    double m = double(w >> 1) * 0x1p-31;
    return (w & 1) ? -m : m;
  }
  double uni(double lo, double hi) { return lo + (hi - lo) * u01(); }
  double logu(double lo10, double hi10) { return std::pow(10.0, lo10 + (hi10 - lo10) * u01()); }
  double logmag(double lo10, double hi10) {
    double m = logu(lo10, hi10);
    return (next() & 1) ? -m : m;
  }
  // a real with |x|<=scale, over several shapes (zero, small integer, uniform, tiny)
  double real(double scale) {
    switch (pick(6)) {
      case 0: return 0.0;
      case 1: return scale * (double(range(-4, 4)) / 4.0);
      case 2: return scale * logmag(-9, 0);
      default: return scale * sym();
    }
  }
  Eigen::Vector3d vec(double scale) {
    Eigen::Vector3d v;
    switch (pick(6)) {
      case 0: return Eigen::Vector3d::Zero();
      case 1: {
        v.setZero();
        size_t k = pick(3);
        v(k) = real(scale);
        return v;
      }
      default:
        for (int k = 0; k < 3; ++k) v(k) = scale * sym();
        if (pick(5) == 0) v *= logu(-9, 0);
        return v;
    }
  }
  Eigen::Vector3d dir() {
    Eigen::Vector3d v;
    switch (pick(4)) {
      case 0: {
        v.setZero();
        size_t k = pick(3);
        v(k) = (next() & 1) ? -1 : 1;
        return v;
      }
      default:
        for (int k = 0; k < 3; ++k) v(k) = sym();
        if (v.norm() < 1e-3) return Eigen::Vector3d(0, 0, 1);
        return v.normalized();
    }
  }
  // angle in [0, maxang], favouring boundaries
  double angle(double maxang = 3 * M_PI) {
    double a;
    switch (pick(8)) {
      case 0: a = 0; break;
      case 1: a = logu(-13, -1); break;
      case 2: a = M_PI + logmag(-13, -1); break;
      case 3: a = logu(-4, 0); break;
      case 4: a = M_PI * range(0, 3) / 2.0; break;
      case 5: a = uni(0, maxang); break;
      default: a = uni(0, M_PI); break;
    }
    return std::min(a, maxang);
  }
  Eigen::Vector3d rotvec(double maxang = 3 * M_PI) {
    Eigen::Vector3d d = dir();
    return d * angle(maxang);
  }
  Eigen::Matrix3d rot() {
    Eigen::Vector3d d = dir();
    double a = angle();
    return Eigen::AngleAxisd(a, d).toRotationMatrix();
  }
  Eigen::Quaterniond quat() {
    Eigen::Vector3d d = dir();
    double a = angle();
    Eigen::Quaterniond q(Eigen::AngleAxisd(a, d));
    if (chance(1, 2)) q.coeffs() *= -1;
    q.normalize();
    return q;
  }
  Eigen::Matrix3d cov3(double scale2) {  // 3x3 PSD
    switch (pick(4)) {
      case 0: return scale2 * Eigen::Matrix3d::Identity();
      case 1: return (scale2 * Eigen::Vector3d(u01(), u01(), u01())).asDiagonal();
      default: {
        Bulk b(next());
        Eigen::Matrix3d A;
        for (int i = 0; i < 9; ++i) A(i) = b.sym();
        Eigen::Matrix3d C = scale2 * (A * A.transpose());
        return 0.5 * (C + C.transpose()).eval();
      }
    }
  }
  // n x n symmetric positive (semi-)definite with sizes around scale2; word 0 -> scale2*I
  Eigen::MatrixXd psd(int n, double scale2) {
    Bulk b(next());
    if (b.zero) return scale2 * Eigen::MatrixXd::Identity(n, n);
    Eigen::MatrixXd A(n, n);
    double spread = (b.next() % 3) * 1.0;
    for (int i = 0; i < n; ++i) {
      double r = std::pow(10.0, -spread * b.unit());
      for (int j = 0; j < n; ++j) A(i, j) = r * b.sym();
    }
    Eigen::MatrixXd C = scale2 * (A * A.transpose() / n + 1e-3 * Eigen::MatrixXd::Identity(n, n));
    return (0.5 * (C + C.transpose())).eval();
  }

 private:
  const std::vector<uint32_t>& t_;
  size_t i_ = 0;
};

struct Ctx {
  Src s;
  bool verbose = false;
  bool nontrivial = false;
  std::set<std::string> tags;
  std::ostringstream desc;  // human-readable description of the case
  explicit Ctx(const std::vector<uint32_t>& t) : s(t) { desc << std::setprecision(9); }
  void tag(const std::string& t) { tags.insert(t); }
  void interesting() { nontrivial = true; }
  [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
  void check(bool ok, const std::string& m) {
    if (!ok) fail(m);
  }
};

template <class M>
std::string show(const Eigen::MatrixBase<M>& m) {
  std::ostringstream o;
  o << std::setprecision(17) << "[";
  for (int i = 0; i < m.rows(); ++i) {
    if (i) o << "; ";
    for (int j = 0; j < m.cols(); ++j) o << (j ? " " : "") << double(m(i, j));
  }
  o << "]";
  return o.str();
}

// |a-b| <= abs + rel*scale, entrywise; NaN never passes
template <class A, class B>
void expect_near(Ctx& c, const Eigen::MatrixBase<A>& a_, const Eigen::MatrixBase<B>& b_, double tol,
                 const std::string& what) {
  const Eigen::Matrix<typename A::Scalar, -1, -1> a = a_;
  const Eigen::Matrix<typename B::Scalar, -1, -1> b = b_;
  if (a.rows() != b.rows() || a.cols() != b.cols())
    c.fail(what + ": size " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + " but expected "
           + std::to_string(b.rows()) + "x" + std::to_string(b.cols()));
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) {
      long double d = std::fabs((long double)a(i, j) - (long double)b(i, j));
      if (!(d <= tol)) {
        std::ostringstream o;
        o << std::setprecision(17) << what << ": entry (" << i << "," << j << ") is " << (double)a(i, j)
          << " expected " << (double)b(i, j) << " (tol " << tol << ")";
        if (a.rows() <= 9 && a.cols() <= 9) o << "\n got  " << show(a) << "\n want " << show(b);
        c.fail(o.str());
      }
    }
}
template <class A, class B>
void expect_eq(Ctx& c, const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, const std::string& what) {
  expect_near(c, a, b, 0.0, what);
}
inline void expect_near(Ctx& c, double a, double b, double tol, const std::string& what) {
  if (!(std::fabs(a - b) <= tol)) {
    std::ostringstream o;
    o << std::setprecision(17) << what << ": " << a << " expected " << b << " (tol " << tol << ")";
    c.fail(o.str());
  }
}
template <class A>
double maxabs(const Eigen::MatrixBase<A>& a) {
  return a.size() ? double(a.cwiseAbs().maxCoeff()) : 0.0;
}

// Each property harness defines these:
extern const char* kProperty;    // id
extern const char* kRule;        // what is generated, and what makes a case non-trivial
extern size_t kMaxTape;          // maximal tape length
extern int kCaseTimeout;         // seconds; a case that hangs longer is a violation
void property(Ctx& c);           // throws Failure
void per_process_setup();        // scratch dirs etc.

std::string scratch_dir();       // private, exists, removed by the runner

}  // namespace vf
