#include "common/imu_prop.h"
namespace vf {
const char* kProperty = "C06";
const char* kRule =
    "as C05 (intervals up to 10 s, forwards) with a random PSD covariance; the covariance after every Propagate call is compared with F P F^T + F G Q G^T F^T dt where F "
    "is the long-double matrix exponential of the error dynamics (right-invariant: conjugated by the adjoints); non-trivial: dt>0.";
void property(Ctx& c) { run_imu(c, true); }
}  // namespace vf
