#pragma once
#include "geometry_msgs/all.h"
namespace nav_msgs {
struct Odometry {
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::PoseWithCovariance pose;
  geometry_msgs::TwistWithCovariance twist;
};
ROS_STUB_PTR(Odometry)
}
