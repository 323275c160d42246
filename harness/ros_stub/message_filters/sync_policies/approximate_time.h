#pragma once
#include "ros/ros.h"
namespace message_filters {
namespace sync_policies {
template <class A, class B>
struct ApproximateTime {
  typedef A M0;
  typedef B M1;
  uint32_t depth;
  explicit ApproximateTime(uint32_t d) : depth(d) {}
};
}  // namespace sync_policies
}  // namespace message_filters
