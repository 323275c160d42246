// The shipped ROS programs, from sensor messages to published poses, on simulated motions whose truth is known.
#include <filesystem>
#include <fstream>
#include <iostream>
#include <regex>
#include <sstream>
#include <thread>

#include <ros/ros.h>
#include "yaml-cpp/yaml.h"

#include "communication/ros_publisher.h"
#include "communication/ros_subscriber.h"
#include "drift/estimator/inekf_estimator.h"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
#include "common/rig.h"
#include "common/cheetah.h"

// The programs find their configuration relative to their own source file; here that is a directory of the case's own.
static const char* vf_program_file();
#undef __FILE__
#define __FILE__ vf_program_file()
#define main program_main
namespace p_fetch {
#include "ROS/drift/examples/fetch.cpp"
}
namespace p_girona500 {
#include "ROS/drift/examples/girona500.cpp"
}
namespace p_husky {
#include "ROS/drift/examples/husky.cpp"
}
namespace p_husky_double_imu_filter {
#include "ROS/drift/examples/husky_double_imu_filter.cpp"
}
namespace p_husky_gyro_filter {
#include "ROS/drift/examples/husky_gyro_filter.cpp"
}
namespace p_husky_odom {
#include "ROS/drift/examples/husky_odom.cpp"
}
namespace p_mini_cheetah {
#include "ROS/drift/examples/mini_cheetah.cpp"
}
namespace p_neya {
#include "ROS/drift/examples/neya.cpp"
}
namespace p_neya_gyro_filter {
#include "ROS/drift/examples/neya_gyro_filter.cpp"
}
#undef main

namespace vf {
const char* kProperty = "C29";
const char* kRule =
    "one of nine shipped ROS programs, whole (its main function, subscribers, gyro filter, estimator, publisher and their threads), with its shipped "
    "configuration files or with generated ones; exact sensor messages of a generated motion are delivered on the configured topics, in lockstep or in "
    "bursts; every published pose is compared with the true pose at its stamp; non-trivial: 5 or more poses of a moving robot were compared.";
size_t kMaxTape = 400;
int kCaseTimeout = 100;

enum VelKind { VEL, VELCOV, DIFF, FETCHLIN, ODOM, LEGS };
enum GyroKind { NONE, DOUBLE, ENC_IMU };
struct Program {
  const char* name;
  int (*run)(int, char**);
  VelKind vel;
  GyroKind gyro;
  bool default_pub;
};
static const Program kPrograms[] = {
    {"girona500", p_girona500::program_main, VEL, NONE, false},
    {"neya", p_neya::program_main, VELCOV, NONE, false},
    {"husky", p_husky::program_main, DIFF, NONE, false},
    {"fetch", p_fetch::program_main, FETCHLIN, NONE, false},
    {"husky_odom", p_husky_odom::program_main, ODOM, NONE, false},
    {"mini_cheetah", p_mini_cheetah::program_main, LEGS, NONE, true},
    {"husky_double_imu_filter", p_husky_double_imu_filter::program_main, DIFF, DOUBLE, false},
    {"neya_gyro_filter", p_neya_gyro_filter::program_main, VELCOV, DOUBLE, false},
    {"husky_gyro_filter", p_husky_gyro_filter::program_main, DIFF, ENC_IMU, false},
};
static std::string program_file;

// ---------------------------------------------------------------------------------------------- configuration
struct Conf {
  ImuCfg imu;
  VelCfg vel;
  bool f_static = false;
  int f_n = 0;
  Eigen::Vector3d f_bias = Eigen::Vector3d::Zero();
  double wheel_radius = 1, track = 1;
  Eigen::Vector3d odom_t = Eigen::Vector3d::Zero();
  std::array<double, 4> odom_q = {1, 0, 0, 0};
  std::string imu_topic, gyro_topic, vel_topic, contact_topic, pose_topic, path_topic, frame;
  int skip = 100;
  double path_hz = 10;
};
static std::string slurp(const std::string& p) {
  std::ifstream f(p);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
template <class A>
static A list(const YAML::Node& n, A d, int k) {
  if (n)
    for (int i = 0; i < k; ++i) d[i] = n[i].as<double>();
  return d;
}
static Conf load(const Program& p, const std::string& root) {
  Conf k;
  const std::string dir = root + "/config/" + p.name + "/";
  YAML::Node n = YAML::LoadFile(dir + "imu_propagation.yaml"), s = n["settings"];
  k.imu.static_init = s["static_bias_initialization"] && s["static_bias_initialization"].as<bool>();
  k.imu.n_init = s["init_bias_size"] ? s["init_bias_size"].as<int>() : 0;
  k.imu.use_ori = s["use_imu_ori_to_init"] && s["use_imu_ori_to_init"].as<bool>();
  k.imu.q = list(s["rotation_imu2body"], k.imu.q, 4);
  k.imu.t = list(s["translation_imu2body"], k.imu.t, 3);
  k.imu.bg = list(n["priors"]["gyroscope_bias"], k.imu.bg, 3);
  k.imu.ba = list(n["priors"]["accelerometer_bias"], k.imu.ba, 3);
  if (p.vel != LEGS) {
    n = YAML::LoadFile(dir + "velocity_correction.yaml"), s.reset(n["settings"]);
    k.vel.q = list(s["rotation_vel2body"], k.vel.q, 4);
    if (s["velocity_scale"]) k.vel.scale = s["velocity_scale"].as<double>();
  }
  if (p.gyro != NONE) {
    n = YAML::LoadFile(dir + "imu_filter.yaml"), s.reset(n["settings"]);
    k.f_static = s["static_bias_initialization"] && s["static_bias_initialization"].as<bool>();
    k.f_n = s["init_bias_size"] ? s["init_bias_size"].as<int>() : 0;
    if (n["priors"] && n["priors"].IsMap()) k.f_bias = list(n["priors"]["ang_vel_bias"], k.f_bias, 3);
  }
  n = YAML::LoadFile(root + "/ROS/drift/config/" + p.name + "/ros_comm.yaml"), s.reset(n["subscribers"]);
  k.imu_topic = s["imu_topic"].as<std::string>();
  if (p.gyro == DOUBLE) k.gyro_topic = s[s["gyro_topic"] ? "gyro_topic" : "second_imu_topic"].as<std::string>();
  k.vel_topic = s[p.vel == LEGS ? "joint_encoder_topic" : p.vel == ODOM ? "odom_topic" : p.vel == VEL || p.vel == VELCOV ? "velocity_topic" : "wheel_encoder_topic"]
                    .as<std::string>();
  if (p.vel == LEGS) k.contact_topic = s["contact_topic"].as<std::string>();
  if (s["wheel_radius"]) k.wheel_radius = s["wheel_radius"].as<double>();
  if (s["track_width"]) k.track = s["track_width"].as<double>();
  if (p.vel == ODOM) {
    k.odom_t = list(s["translation_odom_source_to_body"], k.odom_t, 3);
    k.odom_q = list(s["rotation_odom_source_to_body"], k.odom_q, 4);
  }
  if (p.default_pub) {
    k.pose_topic = "/robot/inekf_estimation/pose";
    k.path_topic = "/robot/inekf_estimation/path";
    k.frame = "/odom";
  } else {
    s.reset(n["publishers"]);
    k.pose_topic = s["pose_publish_topic"].as<std::string>();
    k.path_topic = s["path_publish_topic"].as<std::string>();
    k.frame = s["pose_frame"].as<std::string>();
    k.path_hz = s["path_publish_rate"].as<double>();
    k.skip = std::max(1, int(std::lround(s["pose_publish_rate"].as<double>() / k.path_hz)));
  }
  return k;
}
static void write_file_at(const std::string& p, const std::string& body) {
  std::filesystem::create_directories(std::filesystem::path(p).parent_path());
  std::ofstream(p, std::ios::trunc) << body;
}
static void copy_shipped(const Program& p, const std::string& root) {
  const char* e = std::getenv("VERIF_REPO");
  const std::string repo = e ? e : "/repo", logs = "$1: \"" + root + "/$1\"";
  for (std::string d : {std::string("/config/"), std::string("/ROS/drift/config/")})
    for (auto& f : std::filesystem::directory_iterator(repo + d + p.name)) {
      if (!f.is_regular_file()) continue;
      // log files of the developers' machines stay in the case's directory
      std::string body = std::regex_replace(slurp(f.path().string()), std::regex("(pose_log_file|vel_log_file)\\s*:[^\\n]*"), logs);
      if (body.find("pose_log_file:") != std::string::npos && body.find("vel_log_file:") == std::string::npos)
        body = std::regex_replace(body, std::regex("( *)(pose_log_file:)"), "$1vel_log_file: \"" + root + "/vlog\"\n$1$2");
      write_file_at(root + d + p.name + "/" + f.path().filename().string(), body);
    }
}
static void generate(Ctx& c, const Program& p, const std::string& root) {
  const std::string dir = root + "/config/" + p.name + "/";
  HistCfg k = gen_hist_cfg(c);
  ImuCfg i = k.imu;
  if (p.gyro != NONE) i.bg.setZero();
  i.static_init = p.vel != ODOM && p.gyro != ENC_IMU && c.s.chance(1, 2);
  i.n_init = i.static_init ? c.s.range(1, 30) : 0;
  i.use_ori = p.gyro == NONE && c.s.chance(1, 2);
  write_file_at(dir + "imu_propagation.yaml", i.yaml());
  std::string est = est_yaml(k.rs, k.vs, k.ps);
  if (c.s.chance(1, 4)) {
    est = std::regex_replace(est, std::regex("enable_pose_logger: false"),
                             "enable_pose_logger: true\n  pose_log_file: \"" + root + "/log\"\n  vel_log_file: \"" + root + "/vlog\"\n  pose_log_rate: 100");
    c.tag("logging");
  }
  write_file_at(dir + "inekf_estimator.yaml", est);
  if (p.vel == LEGS)
    write_file_at(dir + "legged_kinematics_correction.yaml", k.leg.yaml());
  else
    write_file_at(dir + "velocity_correction.yaml", k.vel.yaml());
  if (p.gyro != NONE) {
    std::ostringstream o;
    bool st = p.gyro == DOUBLE && c.s.chance(1, 2);
    o << "settings:\n  rotation_imu2body: " << lst(i.q, 4) << "\n  flat_ground: " << (c.s.chance(1, 2) ? "true" : "false") << "\n  t_threshold: " << num(c.s.logu(-1.7, 0))
      << "\n  correction_method: " << (p.gyro == ENC_IMU ? 0 : 1) << "\n  static_bias_initialization: " << (st ? "true" : "false")
      << "\n  init_bias_size: " << c.s.range(1, 20) << "\nnoises:\n";
    for (const char* n : {"ang_vel_std", "ang_vel_bias_std", "filter_std", "filter_bias_std", "imu_meas_noise_std", "encoder_meas_noise_std"})
      o << "  " << n << ": " << num(c.s.logu(-2, 0)) << "\n";
    o << "priors:\n  ang_vel_bias: " << lst(c.s.vec(0.3), 3) << "\n";
    write_file_at(dir + "imu_filter.yaml", o.str());
  }
  std::ostringstream o;
  int tag = c.s.range(0, 99);
  auto topic = [&](const char* s) { return "\"/t" + std::to_string(tag) + "/" + s + "\""; };
  o << "subscribers:\n  imu_topic: " << topic("imu") << "\n";
  if (p.gyro == DOUBLE) o << "  gyro_topic: " << topic("gyro") << "\n  second_imu_topic: " << topic("gyro") << "\n";
  o << "  velocity_topic: " << topic("vel") << "\n  wheel_encoder_topic: " << topic("wheels") << "\n  odom_topic: " << topic("odometry") << "\n  joint_encoder_topic: "
    << topic("joints") << "\n  contact_topic: " << topic("contacts") << "\n  wheel_radius: " << num(c.s.uni(0.03, 1)) << "\n  track_width: " << num(c.s.uni(0.2, 2))
    << "\n  translation_odom_source_to_body: " << lst(c.s.vec(1), 3) << "\n  rotation_odom_source_to_body: " << lst(cfg_quat(c), 4) << "\n";
  int path = c.s.range(1, 100), n = c.s.range(1, 12);
  o << "publishers:\n  pose_publish_rate: " << path * n << "\n  pose_publish_topic: " << topic("pose") << "\n  pose_frame: "
    << (c.s.chance(1, 2) ? "\"map\"" : "\"/odom\"") << "\n  path_publish_rate: " << path << "\n  path_publish_topic: " << topic("path") << "\n";
  write_file_at(root + "/ROS/drift/config/" + p.name + "/ros_comm.yaml", o.str());
}

// ------------------------------------------------------------------------------------------------------ legs
using Joints = Eigen::Matrix<double, 12, 1>;
static Eigen::Matrix<double, 3, 4> feet_of(const Joints& q) {
  Eigen::Matrix<double, 3, 4> f;
  for (int l = 0; l < 4; ++l) f.col(l) = dbl3(chain(l, q).p);
  return f;
}
// derivative of each foot with respect to its three joints
static std::array<Eigen::Matrix3d, 4> slopes(const Joints& q) {
  std::array<Eigen::Matrix3d, 4> J;
  for (int l = 0; l < 4; ++l) {
    ref::M3 j = chain(l, q).J;
    for (int e = 0; e < 9; ++e) J[l](e) = double(j(e));
  }
  return J;
}
static bool reach(Joints& q, int l, const Eigen::Vector3d& target) {
  Joints x = q;
  for (int it = 0; it < 30; ++it) {
    Eigen::Vector3d r = target - feet_of(x).col(l);
    if (r.norm() < 1e-13) break;
    Eigen::Vector3d s = slopes(x)[l].fullPivLu().solve(r);
    if (!(s.norm() < 1.5)) return false;
    x.segment(3 * l, 3) += s;
  }
  if (!((target - feet_of(x).col(l)).norm() < 1e-12)) return false;
  q = x;
  return true;
}

// ------------------------------------------------------------------------------------------------------ case
static const double kTick = 1.0 / 512;
struct Pose {
  double t;
  Eigen::Vector3d p;
  Eigen::Quaterniond q;
};
struct Run {
  Ctx& c;
  const Program& p;
  Conf k;
  bool shipped, moving_start, loose, sparse = false;
  double tol;
  Truth T;
  std::vector<ref::V3> w, a;  // rate and specific force of the interval that ends at sample i
  ref::V3 bw = ref::V3::Zero(), ba = ref::V3::Zero();  // IMU biases, body frame
  Eigen::Vector3d fb = Eigen::Vector3d::Zero();        // gyro bias in the IMU frame, removed by the gyro filter
  ref::V3 odom_w, odom_v;
  ref::M3 Rv;
  Bulk b;
  size_t sent = 0;       // sample sets delivered
  int burst = 1;
  std::chrono::steady_clock::time_point grown = std::chrono::steady_clock::now();
  uint32_t seq = 0;
  // phases
  size_t still = 0;      // sets of the initial phase
  bool started = false;  // the initial phase is over
  size_t first_moving = 0;
  size_t rounds = 0;
  size_t seen_sets = 0;  // highest set index published + 1
  std::vector<int> count;
  std::vector<Pose> poses;
  size_t cursor = 0, paths = 0;
  std::string error;
  std::chrono::steady_clock::time_point last = std::chrono::steady_clock::now();
  std::vector<uint32_t> masks;
  Joints joints;
  std::vector<ref::V3> foot = std::vector<ref::V3>(4, ref::V3::Zero());
  bool con[4] = {false, false, false, false};
  size_t stance = 0;

  Run(Ctx& c_, const Program& p_, const Conf& k_) : c(c_), p(p_), k(k_), b(c_.s.next()) {}

  ref::M3 body2world(size_t i) const { return T.R[i]; }
  std_msgs::Header head(double t) {
    std_msgs::Header h;
    h.seq = seq++;
    h.stamp = ros::Time(t);
    h.frame_id = "f";
    return h;
  }
  static void put(geometry_msgs::Vector3& m, const Eigen::Vector3d& v) { m.x = v(0), m.y = v(1), m.z = v(2); }
  // The filter reaches the time of a sample when the next IMU sample arrives.
  void send(size_t i) {
    auto& bus = ros_stub::bus();
    const double t = T.t[i], tv = t - kTick;
    int heard = 0, want = 0;
    ref::V3 vb = T.R[i].transpose() * T.v[i];
    Eigen::Vector3d vm = dbl3(Rv.transpose() * vb / L(k.vel.scale));
    // some samples come without a velocity
    const bool quiet = sparse && started && i > first_moving && b.next() % 3 == 0;
    auto velocity = [&] {
      if (quiet) return;
      switch (p.vel) {
        case VEL: {
          geometry_msgs::TwistStamped m;
          m.header = head(tv);
          put(m.twist.linear, vm);
          put(m.twist.angular, Eigen::Vector3d(b.sym(), b.sym(), b.sym()));
          heard += bus.deliver(k.vel_topic, m), ++want;
          break;
        }
        case VELCOV: {
          geometry_msgs::TwistWithCovarianceStamped m;
          m.header = head(tv);
          put(m.twist.twist.linear, vm);
          put(m.twist.twist.angular, Eigen::Vector3d(b.sym(), b.sym(), b.sym()));
          heard += bus.deliver(k.vel_topic, m), ++want;
          break;
        }
        case DIFF:
        case FETCHLIN: {
          sensor_msgs::JointState m;
          m.header = head(tv);
          double half = double(w[i](2)) * k.track / 2, vl = (vm(0) - half) / k.wheel_radius, vr = (vm(0) + half) / k.wheel_radius;
          if (p.vel == FETCHLIN) {
            m.velocity = {vl, vr, b.sym(), b.sym()};
            m.velocity.resize(3 + b.next() % 10);
          } else {
            double dl = b.sym(), dr = b.sym();
            m.velocity = {vl + dl, vr + dr, vl - dl, vr - dr};
          }
          heard += bus.deliver(k.vel_topic, m), ++want;
          break;
        }
        case ODOM: {
          auto odom = [&](double at) {
            // constant twist since the first sample
            L s = L(at) - L(T.t[0]);
            ref::V3 ow = Rv.transpose() * odom_w, ov = Rv.transpose() * odom_v / L(k.vel.scale);
            ref::M3 R = T.R[0] * ref::gamma(ref::V3(ow * s), 0);
            ref::V3 x = T.R[0] * (ref::gamma(ref::V3(ow * s), 1) * ov) * s;
            ref::M3 Ws = rotq({0.5, 0.5, -0.5, 0.5}), S = rotq(k.odom_q);
            // pose of the odometry source in its own world
            ref::M3 Ro = Ws * R * S.transpose();
            ref::V3 po = Ws * (R * ref::V3(-(S.transpose() * ref::v3(k.odom_t))) + x) + ref::V3(3, -2, 1);
            nav_msgs::Odometry m;
            m.header = head(at);
            Eigen::Matrix3d Rd;
            for (int e = 0; e < 9; ++e) Rd(e) = double(Ro(e));
            Eigen::Quaterniond q(Rd);
            m.pose.pose.orientation.w = q.w(), m.pose.pose.orientation.x = q.x(), m.pose.pose.orientation.y = q.y(), m.pose.pose.orientation.z = q.z();
            m.pose.pose.position.x = double(po(0)), m.pose.pose.position.y = double(po(1)), m.pose.pose.position.z = double(po(2));
            heard += bus.deliver(k.vel_topic, m), ++want;
          };
          if (i == 0) odom(tv - kTick);
          odom(tv);
          break;
        }
        case LEGS: {
          // in time for the step that reaches its stamp
          const size_t now = i;
          const size_t i = now ? now - 1 : 0;
          const ref::V3 vb = T.R[i].transpose() * T.v[i];
          uint32_t mask = i < masks.size() ? masks[i] : 15;
          sensor_msgs::JointState m;
          custom_sensor_msgs::ContactArray ct;
          for (int l = 0; l < 4; ++l) {
            bool on = (mask >> l) & 1;
            if (on && con[l]) on = reach(joints, l, dbl3(T.R[i].transpose() * (foot[l] - T.p[i])));
            if (!on || !con[l]) {
              joints.segment(3 * l, 3) = Eigen::Vector3d(0.3 * b.sym(), -0.8 + 0.3 * b.sym(), 1.6 + 0.3 * b.sym());
              if (on) {
                Eigen::Vector3d f = feet_of(joints).col(l);
                foot[l] = T.p[i] + T.R[i] * ref::v3(f);
              }
            }
            if (on && con[l]) ++stance;
            con[l] = on;
            custom_sensor_msgs::Contact x;
            x.id = l;
            x.indicator = on;
            ct.contacts.push_back(x);
          }
          // joint rates of feet that stand still while the body moves with the IMU's rate
          auto J = slopes(joints);
          auto f = feet_of(joints);
          ref::V3 wi = w[i] + bw;
          Joints dq;
          for (int l = 0; l < 4; ++l)
            dq.segment(3 * l, 3) = J[l].fullPivLu().solve(dbl3(ref::V3(-vb - wi.cross(ref::V3(ref::v3(Eigen::Vector3d(f.col(l))))))));
          m.header = ct.header = head(T.t[i]);
          m.position.assign(joints.data(), joints.data() + 12);
          m.velocity.assign(dq.data(), dq.data() + 12);
          heard += bus.deliver(k.contact_topic, ct) + bus.deliver(k.vel_topic, m), want += 2;
          break;
        }
      }
    };
    auto imu = [&](const std::string& topic, const Eigen::Vector3d& bias) {
      ImuCfg z = k.imu;
      z.bg.setZero();
      z.ba.setZero();
      Ev e = sim_imu(z, t, ref::V3(w[i] + bw), ref::V3(a[i] + ba), 0, b);
      // the lever arm sees the true rate
      if (bw.norm() > 0) e.b = sim_imu(z, t, w[i], ref::V3(a[i] + ba), 0, b).b;
      e.a += bias;
      sensor_msgs::Imu m;
      m.header = head(t);
      put(m.angular_velocity, e.a);
      put(m.linear_acceleration, e.b);
      ref::M3 Rm = T.R[i] * rotq(k.imu.q);
      Eigen::Matrix3d Rd;
      for (int j = 0; j < 9; ++j) Rd(j) = double(Rm(j));
      Eigen::Quaterniond q(Rd);
      m.orientation.w = q.w(), m.orientation.x = q.x(), m.orientation.y = q.y(), m.orientation.z = q.z();
      heard += bus.deliver(topic, m), ++want;
    };
    if (p.gyro == DOUBLE) {
      velocity();
      imu(k.gyro_topic, Eigen::Vector3d::Zero());
      imu(k.imu_topic, fb);
    } else {
      velocity();
      imu(k.imu_topic, fb);
    }
    if (heard != want) error = "a message of set " + std::to_string(i) + " reached " + std::to_string(heard) + " callbacks instead of " + std::to_string(want);
  }
  // one more set of the initial phase: at rest
  void rest() {
    double t = T.t.back() + kTick * int(2 + b.next() % 6);
    ref::V3 up = T.R.back().transpose() * ref::V3(0, 0, 9.8L);
    T.advance(t, ref::V3::Zero(), up);
    w.push_back(ref::V3::Zero());
    a.push_back(up);
    // keep the numbers exact
    T.p.back() = T.p[0], T.v.back() = T.v[0], T.R.back() = T.R[0];
  }
  void check_pose(const geometry_msgs::PoseWithCovarianceStamped& m) {
    const double s = m.header.stamp.toSec();
    std::ostringstream at;
    at << std::setprecision(17) << "pose " << poses.size() << " at stamp " << s << " (" << s - T.t[0] << " after the first sample)";
    c.check(m.header.frame_id == k.frame, at.str() + ": frame " + m.header.frame_id);
    c.check(m.header.seq == poses.size(), at.str() + ": sequence number " + std::to_string(m.header.seq));
    size_t i = 0;
    while (i < T.t.size() && T.t[i] < s - 1e-9) ++i;
    c.check(i < sent, at.str() + ": no sample with this stamp was sent");
    c.check(s > T.t[0] - 1.5 * kTick && (std::fabs(s - T.t[i]) < 1e-9 || std::fabs(s - T.t[i] + kTick) < 1e-9), at.str() + ": stamp of no message");
    Pose x;
    x.t = s;
    auto& P = m.pose.pose;
    x.p = Eigen::Vector3d(P.position.x, P.position.y, P.position.z);
    x.q = Eigen::Quaterniond(P.orientation.w, P.orientation.x, P.orientation.y, P.orientation.z);
    c.check(std::fabs(x.q.norm() - 1) < 1e-6 + tol, at.str() + ": orientation is not a unit quaternion");
    double reach = 1;
    for (size_t j = 0; j <= i; ++j) reach = std::max({reach, double(T.p[j].norm()), double(T.v[j].norm())});
    ref::V3 to = T.p[i];
    if (loose && T.v[i].norm() > 1e-3) {
      // constant velocity; the stamp is that of a measurement the filter has gone past, but no further than the data
      L ahead = (ref::V3(ref::v3(x.p)) - to).dot(T.v[i]) / T.v[i].squaredNorm();
      c.check(ahead > -1.1 * kTick && ahead < T.t[sent - 1] - T.t[i] + 0.1 * kTick, at.str() + ": the robot was there " + std::to_string(double(ahead)) + " s after the stamp");
      to += T.v[i] * ahead;
    }
    expect_near(c, x.p, to, tol * reach, at.str() + ": position");
    expect_near(c, x.q.toRotationMatrix(), T.R[i], tol, at.str() + ": orientation");
    Eigen::Map<const Eigen::Matrix<double, 6, 6, Eigen::RowMajor>> C(m.pose.covariance.data());
    double sc = C.cwiseAbs().maxCoeff();
    c.check(std::isfinite(sc), at.str() + ": covariance is not finite");
    c.check((C - C.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * (1e-6 + sc), at.str() + ": covariance is not symmetric");
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> es(0.5 * (C + C.transpose()));
    c.check(es.eigenvalues()(0) >= -1e-9 * (1e-6 + sc), at.str() + ": covariance is not positive semi-definite");
    if (started) {
      c.check(poses.empty() || loose || s > poses.back().t || i < first_moving, at.str() + ": not newer than the pose before");
      c.check(poses.empty() || s > poses.back().t - kTick * 1.5 || i < first_moving, at.str() + ": older than the pose before");
    }
    poses.push_back(x);
    if (count.size() <= i) count.resize(i + 1);
    ++count[i];
    // the initial state carries the stamp of the latest measurement, which may be ahead of it
    if (poses.size() > 1) seen_sets = std::max(seen_sets, i + 1);
  }
  void check_path(const nav_msgs::Path& m) {
    ++paths;
    c.check(m.header.frame_id == k.frame, "path: frame " + m.header.frame_id);
    c.check(m.poses.size() <= poses.size() / k.skip + 1, "path: " + std::to_string(m.poses.size()) + " poses after " + std::to_string(poses.size()) + " were published");
    c.check(!m.poses.empty(), "empty path published");
    for (size_t j = 0; j < m.poses.size(); ++j) {
      size_t n = (j + 1) * k.skip - 1;
      if (n >= poses.size()) continue;  // published, not yet seen here
      auto& P = m.poses[j].pose;
      const Pose& x = poses[n];
      c.check(m.poses[j].header.stamp.toSec() == x.t && P.position.x == x.p(0) && P.position.y == x.p(1) && P.position.z == x.p(2) && P.orientation.w == x.q.w()
                  && P.orientation.x == x.q.x() && P.orientation.y == x.q.y() && P.orientation.z == x.q.z(),
              "path: pose " + std::to_string(j) + " is not the published pose " + std::to_string(n));
    }
  }
  // what was published since the last call
  void collect() {
    auto& bus = ros_stub::bus();
    std::vector<ros_stub::Published> v;
    {
      std::lock_guard<std::mutex> l(bus.m);
      v.swap(bus.out);
    }
    for (auto& m : v)
      if (m.topic == k.pose_topic) {
        last = std::chrono::steady_clock::now();
        c.check(m.type == std::type_index(typeid(geometry_msgs::PoseWithCovarianceStamped)), "pose topic carries another message type");
        check_pose(*boost::static_pointer_cast<const geometry_msgs::PoseWithCovarianceStamped>(m.msg));
      }
    for (auto& m : v)
      if (m.topic == k.path_topic) {
        c.check(m.type == std::type_index(typeid(nav_msgs::Path)), "path topic carries another message type");
        check_path(*boost::static_pointer_cast<const nav_msgs::Path>(m.msg));
      } else
        c.check(m.topic == k.pose_topic, "published on " + m.topic);
  }
  void stop() { ros_stub::control().ok = false; }
  double waited() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - last).count(); }
  // called by ros::spinOnce(), once per iteration of the program's loop
  void spin() {
    if (!ros_stub::control().ok) return;
    try {
      collect();
      if (!error.empty()) throw Failure(error);
      if (!started) {
        if (poses.size() < (moving_start ? 1 : 2)) {
          // initial phase: the robot does not move (or has just started to)
          if (waited() > 25) throw Failure("nothing published after " + std::to_string(sent) + " sample sets at rest");
          if (moving_start && sent) return nap();
          // one set at a time: the program takes a few rounds to start
          if (++rounds % 4) return;
          if (sent < still) {
            while (T.t.size() <= sent) rest();
            send(sent++);
          } else
            nap();
          // samples may be gone (a gyro filter starts with empty buffers): more, but not faster than the threads can take them
          auto now = std::chrono::steady_clock::now();
          if (sent < still) grown = now;
          else if (now - grown > std::chrono::milliseconds(20)) still += 20, grown = now;
          return;
        }
        if (seen_sets + 1 < sent) return wait();
        started = true;
        first_moving = sent;
        plan();
      }
      if (seen_sets + 1 < sent) {
        return wait();
      }
      if (sent == T.t.size()) {
        return stop();
      }
      int n = burst > 1 ? 1 + int(b.next() % burst) : 1;
      while (n-- && sent < T.t.size()) send(sent++);
      last = std::chrono::steady_clock::now();
    } catch (const Failure& f) {
      error = f.what();
      stop();
    }
  }
  void nap() { std::this_thread::sleep_for(std::chrono::microseconds(50)); }
  void wait() {
    if (waited() > 25) throw Failure("no pose for sample set " + std::to_string(sent - 2) + " within 25 s; last published set " + std::to_string(seen_sets));
    if (p.gyro != NONE || waited() > 0.001) nap();
  }
  std::function<void()> plan;  // appends the motion to the truth
};

void per_process_setup() {}

void property(Ctx& c) {
  static int serial = 0;
  const std::string root = scratch_dir() + "/n" + std::to_string(serial++ % 4);
  std::filesystem::remove_all(root);
  const Program& p = kPrograms[c.s.pick(9)];
  bool shipped = c.s.chance(1, 4);
  c.tag(p.name);
  if (shipped) copy_shipped(p, root);
  else generate(c, p, root);
  if (shipped) c.tag("shipped configuration");
  program_file = root + "/ROS/drift/examples/" + p.name + ".cpp";
  Run r(c, p, load(p, root));
  const Conf& k = r.k;
  r.shipped = shipped;
  r.loose = p.gyro == ENC_IMU;
  r.Rv = rotq(k.vel.q);
  // the mounting quaternions of the Husky's configuration are rounded to four digits
  Eigen::Vector4d qn(k.imu.q[0], k.imu.q[1], k.imu.q[2], k.imu.q[3]);
  r.tol = std::fabs(qn.norm() - 1) > 1e-9 ? 2e-3 : 2e-6;
  const bool encoder_gyro = p.gyro == ENC_IMU;
  // the gyro filter that reads wheel encoders repeats the last acceleration at the encoders' times: constant velocity is exact there
  r.moving_start = !k.imu.static_init && !k.f_static && (p.gyro == NONE || encoder_gyro) && (encoder_gyro || p.vel == ODOM || p.vel == LEGS || c.s.chance(1, 2));
  r.burst = p.gyro == NONE && p.vel != LEGS && c.s.chance(1, 2) ? c.s.range(2, 6) : 1;
  if (r.burst > 1) c.tag("bursts");
  r.sparse = p.gyro != ENC_IMU && c.s.chance(1, 3);
  if (r.sparse) c.tag("sparse velocity");
  double t0 = c.s.chance(1, 3) ? 1 + double(c.s.range(0, 1000)) / 512 : c.s.chance(1, 2) ? 1.6e9 + double(c.s.range(0, 1 << 20)) / 512 : double(c.s.range(512, 1 << 28)) / 512;
  // the motion
  bool wheels = p.vel == DIFF || p.vel == FETCHLIN;
  bool level = true;
  ref::M3 R0 = ref::M3::Identity();
  if (k.imu.use_ori) {
    level = c.s.chance(1, 2);
    R0 = level ? rotq({std::cos(1.0), 0, 0, std::sin(1.0)}) : rotq(q4(c.s.quat()));
  }
  bool straight = p.gyro == ENC_IMU || ((wheels || p.vel == ODOM) && (!level || c.s.chance(1, 3)));
  ref::V3 fwd = r.Rv.col(0);
  ref::V3 v0 = ref::V3::Zero(), w0 = ref::V3::Zero();
  L speed = 0;
  if (r.moving_start && !(p.vel == LEGS && c.s.chance(1, 3))) {
    if (wheels) speed = L(c.s.uni(-2, 2)) * L(k.vel.scale), v0 = fwd * speed;
    else v0 = ref::v3(c.s.vec(p.vel == LEGS ? 0.3 : 3));
    if (p.vel == ODOM && !straight) w0(2) = c.s.uni(-2, 2);
    // (the first sample's rate: the legs' joint rates depend on it)
    if (p.vel == LEGS && c.s.chance(2, 3)) w0 = ref::v3(c.s.vec(0.6));
    c.tag("moving start");
  }
  r.odom_w = w0, r.odom_v = v0;
  r.T.start(t0, R0, ref::V3(R0 * v0), 4);
  ref::V3 up0 = R0.transpose() * ref::V3(0, 0, 9.8L);
  r.w = {w0};
  r.a = {ref::V3(up0 + w0.cross(v0))};
  if (p.vel == LEGS) {
    r.masks = {uint32_t(c.s.next() >> 9) & 15};
    if (v0.norm() > 0 && !r.masks[0]) r.masks[0] = 1 + c.s.pick(15);
  }
  // sensor biases
  if (k.imu.static_init) {
    r.ba = ref::v3(c.s.vec(0.5));
    // (the lever-arm term of the initialisation sees the raw rates)
    if (p.gyro == NONE && k.imu.t.isZero()) r.bw = ref::v3(c.s.vec(0.2));
  } else {
    r.ba = ref::v3(k.imu.ba);
    r.bw = ref::v3(k.imu.bg);
  }
  if (p.gyro == DOUBLE || p.gyro == ENC_IMU) r.fb = k.f_static ? Eigen::Vector3d(c.s.vec(0.3)) : k.f_bias;
  r.still = r.moving_start ? 1 : size_t((k.imu.static_init ? k.imu.n_init : 0) + (k.f_static ? k.f_n + 1 : 0) + c.s.range(1, 4));
  int sets = 0;
  r.plan = [&] {
    int want = c.s.range(3, 12);
    if (c.s.chance(1, 8)) want = c.s.range(20, 120);
    for (sets = 0; sets <= want && (sets < 3 || c.s.more()); ++sets) {
      bool legs = p.vel == LEGS;
      double t = r.T.t.back() + kTick * c.s.range(2, legs ? 8 : 30);
      Bulk b(c.s.next());
      const ref::M3& R = r.T.R.back();
      ref::V3 up = R.transpose() * ref::V3(0, 0, 9.8L), w = ref::V3::Zero(), a = up;
      switch (p.vel) {
        case VEL:
        case VELCOV:
          if (b.next() % 5) w = ref::V3(2 * b.sym(), 2 * b.sym(), 2 * b.sym());
          a = up - 0.5L * (R.transpose() * r.T.v.back()) + ref::V3(3 * b.sym(), 3 * b.sym(), 3 * b.sym());
          break;
        case LEGS:
          w = ref::V3(0.6 * b.sym(), 0.6 * b.sym(), 0.6 * b.sym());
          a = up - 2.0L * (R.transpose() * r.T.v.back()) + ref::V3(b.sym(), b.sym(), b.sym());
          break;
        case DIFF:
        case FETCHLIN: {
          ref::V3 vb = R.transpose() * r.T.v.back();
          if (r.loose) break;
          if (!straight && b.next() % 2) {
            w(2) = 2 * b.sym();
            a = up + w.cross(vb);
          } else
            a = up + fwd * L(4 * b.sym()) - 0.5L * vb;
          break;
        }
        case ODOM:
          w = r.odom_w;
          a = up + w.cross(r.odom_v);
          break;
      }
      r.T.advance(t, w, a);
      r.w.push_back(w);
      r.a.push_back(a);
      if (legs) {
        while (r.masks.size() < r.first_moving) r.masks.push_back(r.masks.back());
        uint32_t m = r.masks.back();
        if (b.next() % 4 == 0) m ^= 1u << (b.next() % 4);
        r.masks.push_back(m);
      }
    }
  };
  r.joints.setZero();
  // ---------------------------------------------------------------------------------------------- run it
  auto& bus = ros_stub::bus();
  bus.reset();
  auto& ctl = ros_stub::control();
  ctl.ok = true;
  ctl.rate_made = nullptr;
  ctl.rate_sleep = [&](const void* x) {
    // the path loop is the slow one
    double hz = static_cast<const ros::Rate*>(x)->hz;
    std::this_thread::sleep_for(std::chrono::microseconds(hz == k.path_hz ? 1500 : 60));
  };
  ctl.spin_once = [&] { r.spin(); };
  struct Quiet {
    std::ofstream sink{"/dev/null"};
    std::streambuf *o = std::cout.rdbuf(sink.rdbuf()), *e = std::cerr.rdbuf(sink.rdbuf());
    ~Quiet() {
      std::cout.rdbuf(o);
      std::cerr.rdbuf(e);
      auto& k = ros_stub::control();
      k.ok = false;
      k.spin_once = nullptr;
      k.rate_sleep = nullptr;
    }
  };
  std::string thrown;
  {
    Quiet q;
    char name[] = "program";
    char* argv[] = {name, nullptr};
    try {
      int rc = p.run(1, argv);
      if (rc) thrown = "the program returned " + std::to_string(rc);
    } catch (const std::exception& e) {
      thrown = std::string("the program threw: ") + e.what();
    }
  }
  c.desc << p.name << (shipped ? " shipped" : " generated") << " q=" << lst(k.imu.q, 4) << " static" << k.imu.static_init << "/" << k.imu.n_init << " ori" << k.imu.use_ori
         << (r.moving_start ? " moving" : "") << " bursts" << r.burst << " sets " << r.first_moving << "+" << sets << " poses " << r.poses.size() << " paths " << r.paths
         << (r.stance ? " stance " + std::to_string(r.stance) : "") << "; ";
  if (!r.error.empty()) c.fail(r.error + " | " + c.desc.str());
  c.check(thrown.empty(), thrown);
  r.collect();
  for (size_t i = r.first_moving; i + 1 < r.T.t.size(); ++i) {
    int n = i < r.count.size() ? r.count[i] : 0;
    c.check(n >= 1 && (n == 1 || r.loose), std::to_string(n) + " poses published for sample set " + std::to_string(i));
  }
  if (r.stance) c.tag("stance");
  if (sets >= 20) c.tag("long");
  if (r.paths) c.tag("path");
  if (straight) c.tag("straight");
  if (k.imu.use_ori && !level) c.tag("tilted start");
  double far = 0;
  for (auto& x : r.T.p) far = std::max(far, double(x.norm()));
  if (r.T.t.size() - r.first_moving > 5 && far > 1e-3) c.interesting();
}
}  // namespace vf
static const char* vf_program_file() { return vf::program_file.c_str(); }
