#pragma once
#include "message_filters/subscriber.h"
namespace message_filters {
// Pairs the messages of the two topics first-in first-out: what the real policies do when both topics deliver one message per instant, which
// is all the harness sends.  As in ROS each topic's queue is bounded by the policy's size; the oldest message is dropped.
template <class Policy>
struct Synchronizer {
  typedef typename Policy::M0 A;
  typedef typename Policy::M1 B;
  struct Core {
    uint32_t depth;
    std::deque<boost::shared_ptr<const A>> a;
    std::deque<boost::shared_ptr<const B>> b;
    std::vector<boost::function<void(const boost::shared_ptr<const A>&, const boost::shared_ptr<const B>&)>> cbs;
    void pump() {
      while (!a.empty() && !b.empty()) {
        auto x = a.front();
        auto y = b.front();
        a.pop_front();
        b.pop_front();
        for (auto& f : cbs) f(x, y);
      }
      while (a.size() > depth) a.pop_front();
      while (b.size() > depth) b.pop_front();
    }
  };
  std::shared_ptr<Core> core = std::make_shared<Core>();
  Synchronizer(const Policy& p, Subscriber<A>& sa, Subscriber<B>& sb) {
    core->depth = p.depth;
    std::shared_ptr<Core> k = core;
    sa.core->sinks.push_back([k](const boost::shared_ptr<const A>& m) {
      k->a.push_back(m);
      k->pump();
    });
    sb.core->sinks.push_back([k](const boost::shared_ptr<const B>& m) {
      k->b.push_back(m);
      k->pump();
    });
  }
  template <class F>
  void registerCallback(const F& f) {
    core->cbs.push_back(f);
  }
};
}  // namespace message_filters
