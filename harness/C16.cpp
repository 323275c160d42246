#include <dirent.h>
#include <unistd.h>

#include "common/rig.h"
namespace vf {
const char* kProperty = "C16";
const char* kRule =
    "estimator histories with the trajectory logger on (1 case in 8 off; file names given or defaulted, rates 0.5..2000 Hz incl. periods hit "
    "exactly), 0..2 resets followed by later or restarted time; every file is read back after shutdown and compared field by field with the "
    "published states; non-trivial: >=3 lines logged and >=1 published state below the period.";
size_t kMaxTape = 300;
int kCaseTimeout = 30;
void per_process_setup() {
  if (chdir(scratch_dir().c_str()) != 0) _exit(3);
}
namespace {
std::set<std::string> list_dir(const std::string& d) {
  std::set<std::string> r;
  DIR* p = opendir(d.c_str());
  while (dirent* e = readdir(p))
    if (e->d_name[0] != '.') r.insert(e->d_name);
  closedir(p);
  return r;
}
std::vector<std::vector<double>> read_cols(Ctx& c, const std::string& f, size_t cols) {
  std::ifstream in(f);
  c.check(bool(in), "cannot read log " + f);
  std::vector<std::vector<double>> r;
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream ss(l);
    std::vector<double> v;
    std::string w;
    while (ss >> w) {
      char* e;
      v.push_back(std::strtod(w.c_str(), &e));
      c.check(!*e, f + ": '" + w + "' is not a number");
    }
    c.check(v.size() == cols, f + ": line " + std::to_string(r.size() + 1) + " has " + std::to_string(v.size()) + " columns: " + l);
    r.push_back(v);
  }
  return r;
}
}  // namespace

void property(Ctx& c) {
  HistCfg k = gen_hist_cfg(c);
  k.imu.use_ori = false;
  bool left = c.s.chance(1, 2), on = c.s.chance(7, 8);
  int naming = c.s.range(0, 3);
  double rate = c.s.chance(1, 2) ? double(1 << c.s.range(0, 10)) : c.s.chance(1, 4) ? 10 : c.s.logu(-0.3, 3.3);
  bool def_rate = c.s.chance(1, 6);
  int resets = c.s.chance(1, 2) ? 0 : c.s.range(1, 2);
  std::vector<double> at;
  for (int i = 0; i < resets; ++i) at.push_back(c.s.u01());
  bool restart_time = c.s.chance(1, 2);
  double base = 100 + double(c.s.range(0, 1000));
  Hist h = gen_hist(c, k, 160);
  std::string dir = scratch_dir() + "/log";
  (void)!system(("rm -rf '" + dir + "' && mkdir '" + dir + "'").c_str());
  for (auto& f : list_dir(scratch_dir()))
    if (f.size() > 4 && f.substr(f.size() - 4) == ".txt") unlink((scratch_dir() + "/" + f).c_str());
  std::string pose = dir + "/path", vel = dir + "/speed", yaml = "logger:\n  enable_pose_logger: ";
  yaml += on ? "true\n" : "false\n";
  if (naming == 0) pose = "inekf_pose", vel = "inekf_vel";
  else {
    std::string ext = naming == 1 ? ".txt" : naming == 2 ? ".csv" : ".tum";
    yaml += "  pose_log_file: " + pose + ext + "\n  vel_log_file: " + vel + ext + "\n";
  }
  if (def_rate) rate = 10;
  else yaml += "  pose_log_rate: " + num(rate) + "\n";
  yaml += "state:\n  rotation_std_value: 0.1\n  velocity_std_value: 0.1\n  position_std_value: 0.01\n";
  std::string where = naming == 0 ? scratch_dir() : dir;
  c.desc << (on ? "on" : "off") << " rate=" << rate << " naming" << naming << " resets" << resets << " t0=" << base + h.t0 << " ";

  struct Want {
    double t;
    Eigen::Vector3d p, v, bv;
    Eigen::Matrix3d R;
  };
  std::vector<std::vector<Want>> want(1);
  std::vector<std::set<std::string>> files;  // per life: the log files that appeared
  size_t skipped_states = 0;
  std::set<std::string> known;
  for (auto& f : list_dir(where))
    if (f.find(".yaml") == std::string::npos && f != "log") known.insert(f);
  auto new_files = [&] {
    std::set<std::string> r;
    for (auto& f : list_dir(where))
      if (f.find(".yaml") == std::string::npos && f != "log" && !known.count(f)) r.insert(f), known.insert(f);
    return r;
  };
  {
    Rig::Files f = Rig::write_cfg(k);
    f.est = write_file("est.yaml", yaml);
    Rig A(k, left, f);
    files.push_back(new_files());
    double off = base, last = -1e300;
    std::set<size_t> clear_at;
    for (double x : at) clear_at.insert(size_t(x * h.ev.size()));
    auto sh = [&](Ev e) {
      e.t += off;
      return e;
    };
    A.init(c, sh(h.imu0), sh(h.vel0), sh(h.leg0));
    A.take();
    auto collect = [&] {
      for (auto& s : A.take()) {
        double t = s->get_time();
        if (t - last >= 1.0 / rate) {
          last = t;
          Want w{t, s->get_world_position(), s->get_world_velocity(), s->get_body_velocity(), s->get_world_rotation()};
          want.back().push_back(w);
        } else
          ++skipped_states;
      }
    };
    for (size_t i = 0; i < h.ev.size(); ++i) {
      if (clear_at.count(i)) {
        A.e->clear();
        files.push_back(new_files());
        want.emplace_back();
        // time restarts below, or goes on with a gap of more than a period
        if (restart_time) off -= 40;
        else off += std::ceil(2 / rate) + 1;
        last = -1e300;
        Ev im = h.imu0, v = h.vel0, l = h.leg0;
        double tn = h.ev[i].t;
        for (size_t j = i; j < h.ev.size() && !tn; ++j) tn = h.ev[j].t;
        im.t = v.t = l.t = tn;
        A.init(c, sh(im), sh(v), sh(l));
        A.take();
        c.desc << "CLEAR ";
      }
      const Ev& e = h.ev[i];
      c.desc << (e.kind == Ev::IMU_ ? "I" : e.kind == Ev::VEL_ ? "V" : e.kind == Ev::LEG_ ? "L" : "R");
      A.step(sh(e));
      if (e.kind == Ev::RUN_) collect();
    }
  }
  auto late = new_files();
  if (!on) {
    for (auto& f : files) c.check(f.empty(), "a log file was written with logging disabled: " + (f.empty() ? "" : *f.begin()));
    c.check(late.empty(), "a log file was written with logging disabled");
    c.tag("off");
    return;
  }
  c.check(late.empty(), "unexpected file " + (late.empty() ? "" : *late.begin()));
  c.check(files.size() == want.size(), "lives");
  size_t lines = 0;
  auto basen = [](const std::string& s) { return s.substr(s.rfind('/') == std::string::npos ? 0 : s.rfind('/') + 1); };
  for (size_t li = 0; li < files.size(); ++li) {
    std::string pf, vf_, bf, life = "life " + std::to_string(li) + ": ";
    for (auto& f : files[li]) {
      if (f.rfind(basen(pose), 0) == 0) pf = f;
      else if (f.rfind(basen(vel), 0) == 0 && f.find("_body_frame") != std::string::npos) bf = f;
      else if (f.rfind(basen(vel), 0) == 0) vf_ = f;
      else c.fail(life + "unexpected file " + f);
    }
    c.check(!pf.empty() && !vf_.empty() && !bf.empty() && files[li].size() == 3, life + "not exactly one new pose, velocity and body-velocity file");
    if (li == 0) c.check(pf == basen(pose) + ".txt" && vf_ == basen(vel) + ".txt" && bf == basen(vel) + "_body_frame.txt", "log file names");
    auto P = read_cols(c, where + "/" + pf, 8), V = read_cols(c, where + "/" + vf_, 4), B = read_cols(c, where + "/" + bf, 4);
    auto& W = want[li];
    lines += W.size();
    auto cmp = [&](const std::vector<std::vector<double>>& x, const std::string& what) {
      for (size_t i = 0; i < std::min(x.size(), W.size()); ++i)
        c.check(x[i][0] == W[i].t, life + what + ": line " + std::to_string(i + 1) + " is stamped " + num(x[i][0]) + ", expected " + num(W[i].t));
      c.check(x.size() == W.size(), life + what + " has " + std::to_string(x.size()) + " lines, expected " + std::to_string(W.size()));
    };
    cmp(P, "pose log");
    cmp(V, "velocity log");
    cmp(B, "body velocity log");
    // full precision: a column whose reference needs 16 digits or more must show them in at least one of many lines
    auto digits = [](const std::string& w) {
      int n = 0;
      bool lead = true;
      for (char ch : w.substr(0, w.find_first_of("eE")))
        if (isdigit(ch)) {
          if (ch != '0') lead = false;
          if (!lead) ++n;
        }
      return n;
    };
    auto precise = [&](const std::string& f, const std::vector<std::vector<double>>& x, const std::vector<std::vector<double>>& rf, const std::string& what) {
      std::ifstream in(where + "/" + f);
      std::string l;
      std::vector<int> need(x.empty() ? 0 : x[0].size()), have(need.size());
      for (size_t i = 0; i < W.size() && std::getline(in, l); ++i) {
        std::istringstream ss(l);
        std::string w;
        for (size_t j = 0; j < need.size() && ss >> w; ++j) {
          char buf[64];
          snprintf(buf, sizeof buf, "%.17g", rf[i][j]);
          need[j] += digits(buf) >= 16;
          have[j] += digits(w) >= 16;
        }
      }
      for (size_t j = 0; j < need.size(); ++j)
        c.check(need[j] < 12 || have[j] > 0, life + what + ": column " + std::to_string(j + 1) + " is not logged with full double precision");
    };
    {
      std::vector<std::vector<double>> rp, rv, rb;
      for (auto& w : W) {
        Eigen::Quaterniond q(w.R);
        rp.push_back({w.t, w.p(0), w.p(1), w.p(2), q.x(), q.y(), q.z(), q.w()});
        rv.push_back({w.t, w.v(0), w.v(1), w.v(2)});
        rb.push_back({w.t, w.bv(0), w.bv(1), w.bv(2)});
      }
      precise(pf, P, rp, "pose log");
      precise(vf_, V, rv, "velocity log");
      precise(bf, B, rb, "body velocity log");
    }
    for (size_t i = 0; i < W.size(); ++i) {
      std::string l = life + "line " + std::to_string(i + 1) + ": ";
      expect_eq(c, Eigen::Vector3d(P[i][1], P[i][2], P[i][3]), W[i].p, l + "position");
      expect_near(c, Eigen::Vector4d(P[i][4], P[i][5], P[i][6], P[i][7]).norm(), 1, 1e-9, l + "quaternion norm");
      expect_near(c, rotq({P[i][7], P[i][4], P[i][5], P[i][6]}), W[i].R, 1e-9, l + "quaternion");
      expect_eq(c, Eigen::Vector3d(V[i][1], V[i][2], V[i][3]), W[i].v, l + "world velocity");
      expect_near(c, Eigen::Vector3d(B[i][1], B[i][2], B[i][3]), W[i].bv, 1e-14 * (1 + W[i].bv.norm()), l + "body velocity");
      expect_near(c, Eigen::Vector3d(B[i][1], B[i][2], B[i][3]), Eigen::Vector3d(W[i].R.transpose() * W[i].v), 1e-9 * (1 + W[i].bv.norm()),
                  l + "body velocity is not the rotated world velocity");
    }
  }
  if (lines >= 3 && skipped_states) c.interesting();
  if (resets) c.tag(restart_time ? "reset-earlier" : "reset-later");
  c.tag(lines < 3 ? "lines<3" : lines < 20 ? "lines<20" : "lines>=20");
}
}  // namespace vf
