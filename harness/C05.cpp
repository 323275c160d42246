#include "common/imu_prop.h"
namespace vf {
const char* kProperty = "C05";
const char* kRule =
    "random IMU configuration (rotation, lever arm), state (pose, velocity, biases, 0-4 contacts, error convention), and a history of "
    "up to ~12 pushed samples (rates 0..50 rad/s incl. ~0, intervals 0..1 s (1 case in 6: up to 300 s and backwards, 1e5 m away, 1e3 m/s, 9 contacts), stamps up to 1.6e9) interleaved with Propagate calls incl. "
    "on empty buffers; mean vs long-double strapdown solution after every call; non-trivial: at least one step with dt>0.";
void property(Ctx& c) { run_imu(c, false); }
}  // namespace vf
