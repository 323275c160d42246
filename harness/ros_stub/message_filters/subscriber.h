#pragma once
#include <deque>
#include "ros/ros.h"
namespace message_filters {
template <class M>
struct Subscriber {
  typedef M Message;
  struct Core {
    std::vector<std::function<void(const boost::shared_ptr<const M>&)>> sinks;
  };
  std::shared_ptr<Core> core = std::make_shared<Core>();
  std::string topic;
  uint64_t id;
  Subscriber(ros::NodeHandle&, const std::string& t, uint32_t) : topic(t) {
    std::shared_ptr<Core> k = core;
    id = ros_stub::bus().add(t, {std::type_index(typeid(M)), [k](const boost::shared_ptr<const void>& p) {
                                   for (auto& s : k->sinks) s(boost::static_pointer_cast<const M>(p));
                                 }});
  }
  Subscriber(const Subscriber&) = delete;
  ~Subscriber() { ros_stub::bus().remove(topic, id); }
};
}  // namespace message_filters
