#pragma once
#include "std_msgs/Header.h"
namespace custom_sensor_msgs {
struct Contact {
  int32_t id = 0;
  uint8_t indicator = 0;
};
ROS_STUB_PTR(Contact)
}
