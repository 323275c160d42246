#pragma once
#include "geometry_msgs/all.h"
namespace nav_msgs {
struct Path {
  std_msgs::Header header;
  std::vector<geometry_msgs::PoseStamped> poses;
};
ROS_STUB_PTR(Path)
}
