#pragma once
#include <string>
#include <vector>
#include "ros/ros.h"
namespace std_msgs {
struct Header {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}  // namespace std_msgs
#define ROS_STUB_PTR(T)                        \
  typedef boost::shared_ptr<T> T##Ptr;         \
  typedef boost::shared_ptr<T const> T##ConstPtr;
