#include <condition_variable>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <thread>

#include "common/ref.h"
#include "common/tape.h"
#include "communication/ros_publisher.h"
namespace vf {
const char* kProperty = "C24";
const char* kRule =
    "histories of <=60 steps (produce 1..4 states, run the pose loop once, run the path loop once, or both in either order) on a publisher with configured or "
    "built-in topics, frame and rates, its two threads stepped one at a time through a stand-in ros::Rate; states are arbitrary (pose, full covariance, "
    "augmented columns, stamps). Every message captured so far is compared with the states produced. Non-trivial: >=3 poses and >=2 non-empty paths published.";
size_t kMaxTape = 400;
int kCaseTimeout = 20;
void per_process_setup() {
  static std::ofstream null("/dev/null");
  std::cout.rdbuf(null.rdbuf());
}
namespace {
std::string dir;
// The two loops of the publisher, each stopped in ros::Rate until the harness lets it run to its next stop.
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  std::vector<const void*> rates;
  std::vector<double> hz;
  std::map<const void*, int> state;  // 0 stopped, 1 may run
  bool open = false;
  void made(const void* r, double f) {
    std::unique_lock<std::mutex> l(m);
    rates.push_back(r);
    hz.push_back(f);
    state[r] = 0;
    cv.notify_all();
    cv.wait(l, [&] { return open || state[r] == 1; });
  }
  void sleep(const void* r) {
    std::unique_lock<std::mutex> l(m);
    if (open) return;
    state[r] = 0;
    cv.notify_all();
    cv.wait(l, [&] { return open || state[r] == 1; });
  }
  bool wait_made(int n) {
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::seconds(8), [&] { return int(rates.size()) >= n; });
  }
  bool step(const void* r) {
    std::unique_lock<std::mutex> l(m);
    state[r] = 1;
    cv.notify_all();
    return cv.wait_for(l, std::chrono::seconds(8), [&] { return state[r] == 0; });
  }
  void release() {
    std::lock_guard<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};
}  // namespace

void property(Ctx& c) {
  if (dir.empty()) dir = scratch_dir();
  auto& bus = ros_stub::bus();
  bus.reset();
  auto& ctl = ros_stub::control();
  ctl.ok = true;
  auto gate = std::make_shared<Gate>();
  ctl.rate_made = [gate](const void* r, double f) { gate->made(r, f); };
  ctl.rate_sleep = [gate](const void* r) { gate->sleep(r); };
  // configuration
  bool configured = c.s.chance(5, 6);
  std::string pose_topic = "/robot/inekf_estimation/pose", path_topic = "/robot/inekf_estimation/path", frame = "/odom";
  double pose_rate = 1000, path_rate = 10;
  std::set<int> ns = {100};
  std::string file;
  if (configured) {
    pose_topic = "/a" + std::to_string(c.s.pick(5)) + "/pose";
    path_topic = "/b" + std::to_string(c.s.pick(5)) + "/path";
    frame = c.s.chance(1, 2) ? "map" : "/odom" + std::to_string(c.s.pick(4));
    path_rate = c.s.chance(1, 4) ? 0.5 * c.s.range(1, 4) : c.s.range(1, 100);
    int k = c.s.pick(8);
    if (k < 5) {
      int n = c.s.range(1, 5);
      pose_rate = n * path_rate;
      ns = {n};
    } else if (k < 7) {
      double r = c.s.uni(1.05, 6);
      pose_rate = std::floor(r * path_rate * 100) / 100;
      r = pose_rate / path_rate;
      ns = {std::max(1, int(std::floor(r))), std::max(1, int(std::lround(r)))};
      c.tag("fractional ratio");
    } else {
      pose_rate = path_rate * c.s.uni(0.1, 0.95);
      ns = {1};
      c.tag("pose rate below path rate");
    }
    file = dir + "/pub.yaml";
    std::ofstream o(file);
    o << std::setprecision(17) << "publishers:\n  pose_publish_topic: " << pose_topic << "\n  path_publish_topic: " << path_topic << "\n  pose_frame: " << frame
      << "\n  pose_publish_rate: " << pose_rate << "\n  path_publish_rate: " << path_rate << "\n";
    switch (c.s.pick(3)) {
      case 0: o << "  enable_slip_publisher: true\n"; break;
      case 1: o << "  enable_slip_publisher: false\n"; break;
      default: break;
    }
  }
  c.desc << "rates " << pose_rate << " / " << path_rate << "; ";
  ros::NodeHandle nh;
  RobotStateQueuePtr q(new RobotStateQueue);
  auto mtx = std::make_shared<std::mutex>();
  using ros_wrapper::ROSPublisher;
  void* mem = ::operator new(sizeof(ROSPublisher), std::align_val_t(64));
  std::memset(mem, 0xA5, sizeof(ROSPublisher));
  ROSPublisher* p = configured ? ::new (mem) ROSPublisher(&nh, q, mtx, file) : ::new (mem) ROSPublisher(&nh, q, mtx, c.s.chance(1, 2));
  struct Guard {
    ROSPublisher* p;
    void* m;
    std::shared_ptr<Gate> g;
    ~Guard() {
      ros_stub::control().ok = false;
      g->release();
      p->~ROSPublisher();
      ::operator delete(m, std::align_val_t(64));
      ros_stub::control().rate_made = nullptr;
      ros_stub::control().rate_sleep = nullptr;
    }
  } guard{p, mem, gate};
  {
    std::lock_guard<std::mutex> l(bus.m);
    auto a = bus.advertised.find(pose_topic), b = bus.advertised.find(path_topic);
    c.check(a != bus.advertised.end() && a->second == std::type_index(typeid(geometry_msgs::PoseWithCovarianceStamped)), "pose topic not advertised");
    c.check(b != bus.advertised.end() && b->second == std::type_index(typeid(nav_msgs::Path)), "path topic not advertised");
  }
  if (c.s.chance(1, 12)) {
    c.tag("never started");
    return;
  }
  std::vector<std::shared_ptr<RobotState>> sent;
  std::vector<double> stamps;
  double t = c.s.chance(1, 3) ? 0 : c.s.chance(1, 2) ? 1.6e9 : c.s.uni(0, 100);
  auto produce = [&] {
    auto s = std::make_shared<RobotState>();
    int aug = c.s.chance(1, 4) ? c.s.range(1, 3) : 0;
    int dim = 5 + aug, np = 15 + 3 * aug;
    Eigen::MatrixXd X = Eigen::MatrixXd::Identity(dim, dim);
    X.block<3, 3>(0, 0) = c.s.rot();
    Bulk b(c.s.next());
    for (int i = 3; i < dim; ++i)
      for (int k = 0; k < 3; ++k) X(k, i) = (b.next() % 4 ? 10 : 1e5) * b.sym();
    Eigen::MatrixXd P(np, np);
    for (int i = 0; i < np; ++i)
      for (int j = 0; j <= i; ++j) P(i, j) = P(j, i) = b.sym() + 0.001 * (i * 31 + j);
    s->set_X(X);
    s->set_P(P);
    t += c.s.chance(1, 10) ? 0 : c.s.chance(1, 6) ? -c.s.uni(0, 0.01) : c.s.uni(0, 0.02);
    t = std::max(t, 0.0);
    s->set_time(t);
    stamps.push_back(t);
    // an independent copy is kept for comparison
    auto keep = std::make_shared<RobotState>();
    keep->set_X(X);
    keep->set_P(P);
    sent.push_back(keep);
    std::lock_guard<std::mutex> l(*mtx);
    q->push(s);
  };
  int pre = c.s.pick(3);
  for (int i = 0; i < pre; ++i) produce();
  p->StartPublishingThread();
  c.check(gate->wait_made(2), "the pose and path loops did not start");
  // which loop is which: the one that takes a state when there is one
  if (sent.empty()) produce();
  size_t before = q->size();
  const void *pose_loop = nullptr, *path_loop = nullptr;
  size_t published = 0, nonempty = 0;
  auto step = [&](const void* r, const char* what) { c.check(gate->step(r), std::string("the ") + what + " loop did not come back"); };
  size_t path_count = 0;
  auto audit = [&](const std::string& at) {
    std::lock_guard<std::mutex> l(bus.m);
    size_t np = 0, npath = 0;
    std::set<int> fits;
    for (int n : ns) {
      // replay of the captured messages with this n
      np = npath = 0;
      std::vector<size_t> path;
      std::string err;
      for (auto& o : bus.out) {
        if (o.topic == pose_topic && o.type == std::type_index(typeid(geometry_msgs::PoseWithCovarianceStamped))) {
          ++np;
          if (np % n == 0) path.push_back(np - 1);
          continue;
        }
        if (o.topic != path_topic || o.type != std::type_index(typeid(nav_msgs::Path))) c.fail(at + "a message on unexpected topic " + o.topic);
        auto m = boost::static_pointer_cast<const nav_msgs::Path>(o.msg);
        std::string w = at + "path message " + std::to_string(npath) + ": ";
        ++npath;
        if (path.empty()) {
          err = w + "published although no pose belongs to it";
          continue;
        }
        if (m->poses.size() != path.size()) {
          err = w + std::to_string(m->poses.size()) + " poses, expected " + std::to_string(path.size());
          continue;
        }
        if (m->header.seq != npath - 1) c.fail(w + "sequence number " + std::to_string(m->header.seq));
        if (m->header.frame_id != frame) c.fail(w + "frame " + m->header.frame_id);
        for (size_t k = 0; k < path.size(); ++k) {
          auto& ps = m->poses[k];
          if (path[k] >= sent.size()) continue;  // reported below
          Eigen::Vector3d pos = sent[path[k]]->get_world_position();
          Eigen::Vector3d g(ps.pose.position.x, ps.pose.position.y, ps.pose.position.z);
          if (g != pos || std::abs(ps.header.stamp.toSec() - stamps[path[k]]) > 1e-6 || ps.header.seq != path[k] || ps.header.frame_id != frame) {
            err = w + "pose " + std::to_string(k) + " is not published pose " + std::to_string(path[k]);
            break;
          }
          Eigen::Quaterniond qq(ps.pose.orientation.w, ps.pose.orientation.x, ps.pose.orientation.y, ps.pose.orientation.z);
          expect_near(c, qq.toRotationMatrix(), sent[path[k]]->get_world_rotation(), 1e-11, w + "orientation of pose " + std::to_string(k));
        }
        if (err.empty() && std::abs(m->header.stamp.toSec() - m->poses.back().header.stamp.toSec()) > 0) c.fail(w + "stamp is not that of its last pose");
      }
      if (err.empty()) fits.insert(n);
      else if (n == *ns.rbegin() && fits.empty())
        c.fail(err);
    }
    ns = fits;
    // poses
    size_t k = 0;
    for (auto& o : bus.out) {
      if (o.topic != pose_topic) continue;
      std::string w = at + "pose message " + std::to_string(k) + ": ";
      if (k >= sent.size()) c.fail(w + "no such state was produced");
      auto m = boost::static_pointer_cast<const geometry_msgs::PoseWithCovarianceStamped>(o.msg);
      const RobotState& s = *sent[k];
      if (m->header.seq != k) c.fail(w + "sequence number " + std::to_string(m->header.seq));
      if (m->header.frame_id != frame) c.fail(w + "frame " + m->header.frame_id);
      std::ostringstream tt;
      tt << std::setprecision(17) << w << "stamp " << m->header.stamp.toSec() << " but the state had " << stamps[k];
      if (std::abs(m->header.stamp.toSec() - stamps[k]) > 1e-6) c.fail(tt.str());
      auto& ps = m->pose.pose;
      expect_near(c, Eigen::Vector3d(ps.position.x, ps.position.y, ps.position.z), s.get_world_position(), 0, w + "position");
      Eigen::Quaterniond qq(ps.orientation.w, ps.orientation.x, ps.orientation.y, ps.orientation.z);
      c.check(std::abs(qq.norm() - 1) < 1e-11, w + "orientation is not a unit quaternion");
      expect_near(c, qq.toRotationMatrix(), s.get_world_rotation(), 1e-11, w + "orientation");
      const int idx[6] = {6, 7, 8, 0, 1, 2};  // x, y, z, then the rotations
      Eigen::MatrixXd P = s.get_P();
      for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j)
          if (m->pose.covariance[i * 6 + j] != P(idx[i], idx[j]))
            c.fail(w + "covariance entry (" + std::to_string(i) + "," + std::to_string(j) + ") is not that of (x, y, z, rotX, rotY, rotZ)");
      ++k;
    }
    if (k != published) c.fail(at + std::to_string(k) + " poses published, expected " + std::to_string(published));
    nonempty = npath;
    c.check(npath == path_count || ns.size() > 1, at + std::to_string(npath) + " paths published, expected " + std::to_string(path_count));
  };
  {
    step(gate->rates[0], "first");
    size_t after;
    {
      std::lock_guard<std::mutex> l(*mtx);
      after = q->size();
    }
    int which = after < before ? 0 : 1;
    pose_loop = gate->rates[which];
    path_loop = gate->rates[1 - which];
    c.check(std::abs(gate->hz[which] - pose_rate) < 1e-9 * pose_rate, "the pose loop does not run at the pose rate");
    c.check(std::abs(gate->hz[1 - which] - path_rate) < 1e-9 * path_rate, "the path loop does not run at the path rate");
    if (which == 0) ++published;
    step(gate->rates[1], "second");
    if (which == 1) ++published;
    // whether the path loop already saw the pose depends on n and on the order just used
    if (which == 0 && *ns.begin() == 1) ++path_count;
  }
  audit("start: ");
  auto run_pose = [&] {
    bool have;
    {
      std::lock_guard<std::mutex> l(*mtx);
      have = !q->empty();
    }
    step(pose_loop, "pose");
    if (have) ++published;
    std::lock_guard<std::mutex> l(*mtx);
    c.check(q->size() == sent.size() - published, "the pose loop took " + std::to_string(sent.size() - q->size()) + " states for " + std::to_string(published) + " messages");
  };
  auto run_path = [&] {
    step(path_loop, "path");
    if (published >= size_t(*ns.begin())) ++path_count;
  };
  if (!configured && c.s.chance(1, 4)) {
    int n = c.s.range(90, 230);
    for (int i = 0; i < n; ++i) {
      produce();
      run_pose();
      if (i % 37 == 36) run_path();
    }
    audit("long run: ");
    c.tag("long run");
  }
  int ops = 0;
  while (ops < 60 && c.s.more()) {
    ++ops;
    int k = c.s.pick(8);
    std::string at = "step " + std::to_string(ops) + ": ";
    if (k < 2) {
      int n = c.s.range(1, 4);
      for (int i = 0; i < n; ++i) produce();
    } else if (k < 6) {
      int n = c.s.range(1, 3);
      for (int i = 0; i < n; ++i) run_pose();
    } else {
      run_path();
    }
    audit(at);
    c.check(mtx->try_lock(), at + "the queue's lock is still held");
    mtx->unlock();
  }
  while (published < sent.size()) run_pose();
  if (c.s.chance(1, 2)) run_path();
  audit("end: ");
  if (ns.size() == 1 && path_count > 0) c.tag("paths, n=" + std::to_string(std::min(6, *ns.begin())));
  if (!configured) c.tag("built-in configuration");
  if (published >= 3 && nonempty >= 2) c.interesting();
}
}  // namespace vf
