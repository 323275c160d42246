#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include <fstream>
#include <memory>

#include "common/gyro.h"
#include "common/rig.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "wheel_odometry/wheel_odometry.h"
namespace vf {
const char* kProperty = "C28";
const char* kRule =
    "2..4 instances (estimators, gyro filters, wheel odometry; some with equal configuration and data, some reading the very same measurement objects), each "
    "with its own configuration and history, once alone and once with their calls interleaved in a generated order; every output must be bit-identical, and "
    "every measurement object must read the same afterwards; each run is a process of its own. Non-trivial: >=2 instances with >=5 outputs each.";
size_t kMaxTape = 40;
int kCaseTimeout = 60;
void per_process_setup() {
  if (chdir(scratch_dir().c_str()) != 0) _exit(3);
}
namespace {
using measurement::kinematics::MiniCheetahKinematics;
using EncPtr = std::shared_ptr<AngularVelocityMeasurement<double>>;
using Row = std::vector<double>;
bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b) || a == b; }

// ---------------------------------------------------------------------------------------------- measurement data
struct Datum {
  int kind;  // 0 IMU, 1 velocity, 2 legs, 3 encoder rate
  Ev e;
  bool cheetah = false;
  Eigen::Matrix<double, 12, 1> q, dq;
  std::array<double, 4> ori{1, 0, 0, 0};
  uint64_t seq = 0;
  std::string frame;
};
struct Obj {
  ImuMeasurementPtr imu;
  VelocityMeasurementPtr vel;
  LeggedKinMeasurementPtr leg;
  EncPtr enc;
};
Obj make(const Datum& d) {
  Obj o;
  switch (d.kind) {
    case 0:
      o.imu = mk_imu(d.e.t, d.e.a, d.e.b, d.ori);
      o.imu->set_header(d.seq, d.e.t, d.frame);
      break;
    case 1:
      o.vel = mk_vel(d.e.t, d.e.a);
      o.vel->set_header(d.seq, d.e.t, d.frame);
      break;
    case 2:
      if (d.cheetah) {
        Eigen::Matrix<bool, 4, 1> con;
        for (int i = 0; i < 4; ++i) con(i) = i < int(d.e.con.size()) && d.e.con[i];
        o.leg = std::make_shared<MiniCheetahKinematics>(d.q, d.dq, con);
      } else
        o.leg = mk_leg(d.e);
      o.leg->set_header(d.seq, d.e.t, d.frame);
      break;
    default:
      o.enc = std::make_shared<AngularVelocityMeasurement<double>>();
      o.enc->set_angular_velocity(d.e.a(0), d.e.a(1), d.e.a(2));
      o.enc->set_header(d.seq, d.e.t, d.frame);
  }
  return o;
}
void add3(Row& r, const Eigen::Vector3d& v) {
  for (int i = 0; i < 3; ++i) r.push_back(v(i));
}
// everything that can be read from a measurement (legs: before their kinematics are computed)
Row read(const Datum& d, const Obj& o, std::string& frame) {
  Row r;
  auto head = [&](const Measurement& m) {
    r.push_back(double(m.header.seq));
    r.push_back(m.get_time());
    frame = m.header.frame_id;
  };
  if (o.imu) {
    head(*o.imu);
    add3(r, o.imu->get_angular_velocity());
    add3(r, o.imu->get_lin_acc());
    auto q = o.imu->get_quaternion();
    for (int i = 0; i < 4; ++i) r.push_back(q.coeffs()(i));
  }
  if (o.vel) head(*o.vel), add3(r, o.vel->get_velocity());
  if (o.enc) head(*o.enc), add3(r, o.enc->get_angular_velocity());
  if (o.leg) {
    head(*o.leg);
    int n = o.leg->get_num_legs();
    r.push_back(n);
    for (int i = 0; i < n; ++i) r.push_back(o.leg->get_contact(i));
    if (d.cheetah)
      for (int i = 0; i < 12; ++i) r.push_back(o.leg->get_joint_state(i));
    // the initial velocity uses encoders and encoder rates; its kinematics are its own business
    o.leg->ComputeKinematics();
    for (int i = 0; i < n; ++i) {
      add3(r, o.leg->get_kin_pos(i));
      auto J = o.leg->get_J(i);
      for (int j = 0; j < J.size(); ++j) r.push_back(J(j));
    }
    add3(r, o.leg->get_init_velocity(Eigen::Vector3d(0.3, -0.2, 0.1)));
  }
  return r;
}

// ---------------------------------------------------------------------------------------------- instances
struct Op {
  int kind;  // 0 push, 1 run, 2 clear
  int datum = -1, sensor = 0;
};
struct Actor {
  int type;  // 0 estimator, 1 gyro filter, 2 wheel odometry
  int data;  // which data set
  HistCfg k;
  GyroCfg g;
  bool left = false;
  double rate = 100;
  std::vector<Op> ops;
  int twin = -1;  // same configuration and operations as this one
};
struct Data {
  std::vector<Datum> d;
};
struct Live {
  const Actor& a;
  std::unique_ptr<Rig> rig;
  std::unique_ptr<GyroRig> gyro;
  VelocityQueuePtr vq = std::make_shared<VelocityQueue>();
  AngularVelocityQueuePtr wq = std::make_shared<AngularVelocityQueue>();
  std::shared_ptr<std::mutex> vm = std::make_shared<std::mutex>(), wm = std::make_shared<std::mutex>();
  std::unique_ptr<baseline::WheelOdometry> odo;
  std::string log;
  std::vector<Row> out;
  size_t next = 0;
  Live(const Actor& a_, const std::string& tag) : a(a_) {
    if (a.type == 0) rig = std::make_unique<Rig>(a.k, a.left, Rig::write_cfg(a.k, tag));
    if (a.type == 1) gyro = std::make_unique<GyroRig>(a.g, "gyro" + tag + ".yaml");
    if (a.type == 2) {
      log = scratch_dir() + "/odo" + tag + ".txt";
      odo = std::make_unique<baseline::WheelOdometry>(
          vq, vm, wq, wm, write_file("odo" + tag + ".yaml", "logger:\n  enable_pose_logger: true\n  pose_log_file: " + log + "\n  pose_log_rate: " + num(a.rate) + "\n"));
    }
  }
  bool more() const { return next < a.ops.size(); }
  void step(const std::vector<Obj>& objs) {
    const Op& op = a.ops[next++];
    switch (a.type) {
      case 0: {
        if (op.kind == 0) {
          const Obj& o = objs[op.datum];
          if (o.imu) rig->iq->push(o.imu);
          if (o.vel) rig->vq->push(o.vel);
          if (o.leg) rig->lq->push(o.leg);
        } else if (op.kind == 2)
          rig->e->clear();
        else if (rig->e->is_enabled())
          rig->e->RunOnce();
        else if (!rig->e->BiasInitialized())
          rig->e->InitBias();
        else if (!rig->iq->empty() && (!a.k.has_vel || !rig->vq->empty()) && (!a.k.has_leg || !rig->lq->empty()))
          rig->e->InitState();
        for (auto& s : rig->take()) state(*s);
        Row r{double(rig->e->is_enabled()), double(rig->iq->size()), double(rig->vq->size()), double(rig->lq->size())};
        if (r != lastq) out.push_back(lastq = r);
        break;
      }
      case 1:
        if (op.kind == 0) {
          const Obj& o = objs[op.datum];
          if (o.enc) gyro->eq->push(o.enc);
          else (op.sensor == 0 ? gyro->gq : gyro->iq[op.sensor - 1])->push(o.imu);
        } else if (op.kind == 2)
          gyro->f->clear();
        else
          gyro->f->RunOnce();
        for (auto& m : gyro->take()) {
          Obj o;
          o.imu = m;
          std::string fr;
          Row r = read(Datum(), o, fr);
          for (char ch : fr) r.push_back(ch);
          out.push_back(r);
        }
        break;
      default:
        if (op.kind == 0) {
          if (objs[op.datum].vel) vq->push(objs[op.datum].vel);
          if (objs[op.datum].enc) wq->push(objs[op.datum].enc);
        } else
          odo->RunOnce();
    }
  }
  void state(RobotState& s) {
    Row r{s.get_time(), s.get_propagate_time(), double(s.get_X().rows()), double(s.get_P().rows())};
    for (int i = 0; i < s.get_X().size(); ++i) r.push_back(s.get_X()(i));
    for (int i = 0; i < s.get_theta().size(); ++i) r.push_back(s.get_theta()(i));
    Eigen::MatrixXd P = s.get_P();
    for (int i = 0; i < P.size(); ++i) r.push_back(P(i));
    add3(r, s.get_body_angular_velocity());
    out.push_back(r);
  }
  void finish() {
    if (rig) {
      RobotState s = rig->e->get_state();
      state(s);
    }
    if (!odo) return;
    odo.reset();
    std::ifstream in(log);
    std::string l;
    while (std::getline(in, l)) {
      std::istringstream ss(l);
      Row r;
      double x;
      while (ss >> x) r.push_back(x);
      out.push_back(r);
    }
  }
  Row lastq;
};

// ---------------------------------------------------------------------------------------------- generation
void fill(Ctx& c, Data& D, Actor& a) {
  auto add = [&](int kind, const Ev& e) {
    Datum d;
    d.kind = kind;
    d.e = e;
    d.seq = D.d.size() * 3 + 1;
    d.frame = "f" + std::to_string(D.d.size());
    D.d.push_back(d);
    return int(D.d.size()) - 1;
  };
  if (a.type == 0) {
    bool cheetah = a.k.has_leg && a.k.legs == 4 && c.s.chance(1, 3);
    int clear_at = c.s.chance(1, 4) ? c.s.range(0, 40) : -1;
    Bulk b(c.s.next());
    Hist h = gen_hist(c, a.k, 90);
    auto push = [&](int kind, const Ev& e) {
      int i = add(kind, e);
      Datum& d = D.d[i];
      if (kind == 2 && cheetah) {
        d.cheetah = true;
        for (int j = 0; j < 12; ++j) d.q(j) = b.sym(), d.dq(j) = b.sym();
      }
      if (kind == 0) {
        Eigen::Quaterniond q(1.1 + b.sym(), b.sym(), b.sym(), b.sym());
        q.normalize();
        d.ori = {q.w(), q.x(), q.y(), q.z()};
      }
      a.ops.push_back({0, i, 0});
    };
    Op run{1, -1, 0};
    auto start = [&](double t) {
      Ev i0 = h.imu0, v0 = h.vel0, l0 = h.leg0;
      i0.t = v0.t = l0.t = t;
      for (int i = 0; i <= a.k.imu.n_init; ++i) push(0, i0), a.ops.push_back(run);
      a.ops.push_back(run);
      if (a.k.has_vel) push(1, v0);
      if (a.k.has_leg) push(2, l0);
      push(0, i0);
      a.ops.push_back(run);
      a.ops.push_back(run);
    };
    start(h.t0);
    int n = 0;
    for (auto& e : h.ev) {
      if (n++ == clear_at) {
        a.ops.push_back({2, -1, 0});
        start(e.kind == Ev::RUN_ ? h.t0 : e.t);
      }
      if (e.kind == Ev::RUN_) a.ops.push_back(run);
      else push(e.kind == Ev::IMU_ ? 0 : e.kind == Ev::VEL_ ? 1 : 2, e);
    }
  } else if (a.type == 1) {
    auto ev = gen_gyro_hist(c, a.g, 120, true);
    for (auto& e : ev) {
      if (e.kind == 0) {
        Ev x;
        x.t = e.s.t;
        x.a = e.s.w;
        x.b = e.s.a;
        int i = add(e.s.sensor == 9 ? 3 : 0, x);
        D.d[i].ori = e.s.q;
        a.ops.push_back({0, i, e.s.sensor});
      } else
        a.ops.push_back({e.kind, -1, 0});
    }
  } else {
    int n = c.s.range(1, 40);
    Bulk b(c.s.next());
    double t = 20;
    for (int i = 0; i < n; ++i) {
      t += (1 + b.next() % 60) / 1024.0;
      Ev v, w;
      v.t = w.t = t;
      v.a = Eigen::Vector3d(b.sym(), b.sym(), 0.2 * b.sym());
      w.a = Eigen::Vector3d(0.2 * b.sym(), 0.2 * b.sym(), b.sym());
      a.ops.push_back({0, add(1, v), 0});
      a.ops.push_back({0, add(3, w), 0});
      for (uint64_t j = b.next() % 3; j--;) a.ops.push_back({1, -1, 0});
    }
    for (int i = 0; i < n; ++i) a.ops.push_back({1, -1, 0});
  }
}
// another consumer of the same measurement objects, with a configuration of its own
bool share(Ctx& c, const Data& D, const Actor& src, Actor& a) {
  bool imu = false, vel = false, leg = false, enc = false;
  for (auto& d : D.d) imu |= d.kind == 0, vel |= d.kind == 1, leg |= d.kind == 2, enc |= d.kind == 3;
  a.data = src.data;
  if (a.type == 0) {
    if (src.type != 0) return false;
    a.k.legs = src.k.legs;
    a.k.has_vel = a.k.has_vel && vel;
    a.k.has_leg = a.k.has_leg && leg;
    a.k.imu.n_init = src.k.imu.n_init;
    a.k.imu.static_init = src.k.imu.static_init;
  } else if (a.type == 1) {
    if (!imu) return false;
    a.g.gyro = false;
    a.g.four = false;
    a.g.method = enc ? 0 : 1;
  } else if (!vel || !enc)
    return false;
  a.ops.clear();
  bool every = c.s.chance(1, 2);
  for (auto& o : src.ops) {
    if (o.kind != 0) {
      if (!every) a.ops.push_back(o);
      continue;
    }
    int kind = D.d[o.datum].kind;
    if (a.type == 0 && ((kind == 1 && !a.k.has_vel) || (kind == 2 && !a.k.has_leg) || kind == 3)) continue;
    if (a.type == 1 && kind != 0 && kind != 3) continue;
    if (a.type == 2 && kind != 1 && kind != 3) continue;
    a.ops.push_back({0, o.datum, 1});
    if (every) a.ops.push_back({1, -1, 0});
  }
  return true;
}
// Every run is a process of its own: state that outlives an instance cannot hide by being the same in both runs.
template <class F>
std::vector<std::vector<Row>> in_child(Ctx& c, int n, F f) {
  std::string path = scratch_dir() + "/result";
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::vector<std::vector<Row>> out(n);
    std::string err;
    try {
      f(out);
    } catch (const std::exception& e) {
      err = e.what();
      if (err.empty()) err = "exception";
    }
    FILE* o = fopen(path.c_str(), "wb");
    auto num = [&](uint64_t x) { fwrite(&x, sizeof x, 1, o); };
    num(err.size());
    fwrite(err.data(), 1, err.size(), o);
    for (auto& a : out) {
      num(a.size());
      for (auto& r : a) num(r.size()), fwrite(r.data(), sizeof(double), r.size(), o);
    }
    fclose(o);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, WIFEXITED(st) ? "a run ended with status " + std::to_string(WEXITSTATUS(st)) : "a run was ended by signal " + std::to_string(WTERMSIG(st)));
  FILE* in = fopen(path.c_str(), "rb");
  auto num = [&] {
    uint64_t x = 0;
    c.check(fread(&x, sizeof x, 1, in) == 1, "result of a run cannot be read");
    return x;
  };
  std::string err(num(), ' ');
  if (fread(&err[0], 1, err.size(), in) != err.size()) c.fail("result of a run cannot be read");
  std::vector<std::vector<Row>> out(n);
  if (err.empty())
    for (auto& a : out) {
      a.resize(num());
      for (auto& r : a) {
        r.resize(num());
        if (fread(r.data(), sizeof(double), r.size(), in) != r.size()) c.fail("result of a run cannot be read");
      }
    }
  fclose(in);
  unlink(path.c_str());
  if (!err.empty()) c.fail(err);
  return out;
}
}  // namespace

void property(Ctx& c) {
  int n = c.s.range(2, 4);
  std::vector<Actor> as;
  std::vector<Data> ds;
  bool solo_first = c.s.chance(1, 2);
  int mode = c.s.range(0, 2);  // interleaving: call by call, bursts, one after the other in a round
  Bulk order(c.s.next());
  // all but the first history come from tapes of their own, so that each can be long
  for (int i = 0; i < n; ++i) {
    Actor a;
    size_t how = i ? c.s.pick(4) : 3;
    if (how == 0) {  // twin
      int j = c.s.pick(i);
      a = as[j];
      a.twin = j;
      as.push_back(a);
      continue;
    }
    size_t ty = c.s.pick(6);
    a.type = ty < 4 ? 0 : ty == 4 ? 1 : 2;
    uint32_t seed = c.s.next();
    Bulk b(seed);
    std::vector<uint32_t> tape;
    size_t len = 30 + c.s.pick(330);
    for (size_t x = 0; x < len; ++x) tape.push_back(uint32_t(b.next()));
    Ctx sub(tape);
    if (a.type == 0) {
      a.left = sub.s.chance(1, 2);
      a.k = gen_hist_cfg(sub);
      a.k.imu.use_ori = sub.s.chance(1, 3);
      a.k.imu.static_init = sub.s.chance(1, 3);
      a.k.imu.n_init = a.k.imu.static_init ? sub.s.range(0, 5) : 0;
    } else if (a.type == 1)
      a.g = gen_gyro_cfg(sub);
    else
      a.rate = sub.s.logu(0, 3);
    if (how == 1) {
      const Actor& src = as[c.s.pick(i)];
      if (share(sub, ds[src.data], src, a)) {
        as.push_back(a);
        continue;
      }
    }
    a.data = ds.size();
    ds.emplace_back();
    fill(sub, ds.back(), a);
    as.push_back(a);
  }
  c.desc << n << " instances:";
  for (auto& a : as)
    c.desc << " " << (a.type == 0 ? (a.left ? "L" : "R") : a.type == 1 ? "gyro" : "odo") << (a.type == 0 ? std::string(a.k.has_vel ? "v" : "") + (a.k.has_leg ? "l" : "") : "")
           << a.ops.size() << "(data" << a.data << (a.twin >= 0 ? " twin of " + std::to_string(a.twin) : "") << ")";
  c.desc << (solo_first ? " alone first" : " together first") << " mode" << mode << "; ";

  std::vector<std::vector<Row>> solo(n), both(n);
  auto run_solo = [&] {
    for (int i = 0; i < n; ++i)
      solo[i] = in_child(c, 1, [&](std::vector<std::vector<Row>>& out) {
        std::vector<Obj> o;
        for (auto& d : ds[as[i].data].d) o.push_back(make(d));
        Live l(as[i], "s" + std::to_string(i));
        while (l.more()) l.step(o);
        l.finish();
        out[0] = l.out;
      })[0];
  };
  auto run_both = [&] {
    both = in_child(c, n, [&](std::vector<std::vector<Row>>& both) {
    std::vector<std::vector<Obj>> o;
    for (auto& D : ds) {
      o.emplace_back();
      for (auto& d : D.d) o.back().push_back(make(d));
    }
    std::vector<std::unique_ptr<Live>> l;
    for (int i = 0; i < n; ++i) l.push_back(std::make_unique<Live>(as[i], "b" + std::to_string(i)));
    int cur = 0;
    for (;;) {
      std::vector<int> can;
      for (int i = 0; i < n; ++i)
        if (l[i]->more()) can.push_back(i);
      if (can.empty()) break;
      cur = mode == 2 ? can[(cur + 1) % can.size()] : can[order.next() % can.size()];
      for (int b = mode == 1 ? 1 + order.next() % 12 : 1; b-- && l[cur]->more();) l[cur]->step(o[as[cur].data]);
    }
    for (int i = 0; i < n; ++i) l[i]->finish(), both[i] = l[i]->out;
    // inputs read as they did
    for (size_t x = 0; x < ds.size(); ++x)
      for (size_t j = 0; j < ds[x].d.size(); ++j) {
        std::string f1, f2;
        Row a = read(ds[x].d[j], o[x][j], f1), b = read(ds[x].d[j], make(ds[x].d[j]), f2);
        bool ok = a.size() == b.size() && f1 == f2;
        for (size_t y = 0; ok && y < a.size(); ++y) ok = same(a[y], b[y]);
        static const char* nm[] = {"IMU", "velocity", "leg", "encoder"};
        c.check(ok, std::string(nm[ds[x].d[j].kind]) + " measurement " + std::to_string(j) + " of data set " + std::to_string(x) + " was modified");
      }
    });
  };
  if (solo_first) run_solo(), run_both();
  else run_both(), run_solo();
  int busy = 0;
  auto cmp = [&](const std::vector<Row>& a, const std::vector<Row>& b, const std::string& what) {
    c.check(a.size() == b.size(), what + ": " + std::to_string(a.size()) + " outputs and " + std::to_string(b.size()));
    for (size_t j = 0; j < a.size(); ++j) {
      bool ok = a[j].size() == b[j].size();
      for (size_t y = 0; ok && y < a[j].size(); ++y) {
        ok = same(a[j][y], b[j][y]);
        if (!ok) c.fail(what + ": output " + std::to_string(j) + ", entry " + std::to_string(y) + ": " + num(a[j][y]) + " and " + num(b[j][y]));
      }
      c.check(ok, what + ": output " + std::to_string(j) + " differs");
    }
  };
  for (int i = 0; i < n; ++i) {
    cmp(both[i], solo[i], "instance " + std::to_string(i) + " interleaved and alone");
    if (as[i].twin >= 0) cmp(both[i], both[as[i].twin], "instances " + std::to_string(i) + " and " + std::to_string(as[i].twin) + " (same configuration and data)"), c.tag("twin");
    busy += both[i].size() >= 5;
    c.tag(as[i].type == 0 ? "estimator" : as[i].type == 1 ? "gyro filter" : "wheel odometry");
    for (int j = 0; j < i; ++j)
      if (as[j].data == as[i].data && as[i].twin < 0 && as[j].twin < 0) c.tag("shared measurement objects");
    if (as[i].type == 0 && as[i].k.has_leg) c.tag("legs");
    for (auto& op : as[i].ops)
      if (op.kind == 2) {
        c.tag("reset");
        break;
      }
  }
  for (auto& D : ds)
    for (auto& d : D.d)
      if (d.cheetah) {
        c.tag("Mini Cheetah kinematics");
        break;
      }
  if (busy >= 2) c.interesting();
}
}  // namespace vf
