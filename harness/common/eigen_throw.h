// Forced include (-include) of every translation unit: an Eigen assertion (out-of-range block, size mismatch)
// becomes a C++ exception, so that the harness can report it together with the input that caused it.
#pragma once
#ifdef __cplusplus
#include <stdexcept>
#include <string>
namespace vf {
struct EigenAssert : std::runtime_error {
  using std::runtime_error::runtime_error;
};
[[noreturn]] inline void eigen_fail(const char* e, const char* f, int l) {
  throw EigenAssert(std::string("Eigen assertion failed: ") + e + " at " + f + ":" + std::to_string(l));
}
}  // namespace vf
#define eigen_assert(x)                                  \
  do {                                                   \
    if (!(x)) ::vf::eigen_fail(#x, __FILE__, __LINE__);  \
  } while (0)
#endif
