// Driver: rapidcheck search over tapes, replay of a saved tape, crash capture.
#include <fcntl.h>
#include <rapidcheck.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include "tape.h"

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=203:"
         "allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=99"; }
extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=98:second_deadlock_stack=1:report_signal_unsafe=0";
}

namespace vf {
static std::string g_scratch;
std::string scratch_dir() { return g_scratch; }
}  // namespace vf

using Tape = std::vector<uint32_t>;

static uint32_t* g_map = nullptr;  // [0]=n, words
static const size_t kMapWords = 1 << 16;

static void save_current(const Tape& t) {
  if (!g_map) return;
  size_t n = std::min(t.size(), kMapWords - 1);
  g_map[0] = uint32_t(n);
  if (n) std::memcpy(g_map + 1, t.data(), n * 4);
}

static void on_alarm(int) {
  const char m[] = "\nCASE-TIMEOUT: the case did not finish in time (hang)\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}

struct Result {
  bool ok = true;
  bool nontrivial = false;
  std::string msg, desc;
  std::set<std::string> tags;
};

static Result run_case(const Tape& t, bool verbose) {
  Result r;
  vf::Ctx c(t);
  c.verbose = verbose;
  save_current(t);
  alarm(vf::kCaseTimeout);
  try {
    vf::property(c);
  } catch (const vf::Failure& e) {
    r.ok = false;
    r.msg = e.what();
  } catch (const std::exception& e) {
    r.ok = false;
    r.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    r.ok = false;
    r.msg = "unexpected non-standard exception";
  }
  alarm(0);
  r.nontrivial = c.nontrivial;
  r.desc = c.desc.str();
  r.tags = c.tags;
  return r;
}

static Tape read_tape(const std::string& f) {
  std::ifstream in(f);
  Tape t;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ss(line);
    uint32_t w;
    while (ss >> w) t.push_back(w);
  }
  return t;
}

static void write_tape(const std::string& f, const Tape& t, const std::string& head) {
  std::ofstream o(f);
  std::istringstream ss(head);
  std::string l;
  while (std::getline(ss, l)) o << "# " << l << "\n";
  for (size_t i = 0; i < t.size(); ++i) o << t[i] << ((i % 12 == 11) ? "\n" : " ");
  o << "\n";
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o;
}

int main(int argc, char** argv) {
  std::string replay, out = "/dev/null", cur, fail_file = "/dev/null", scratch;
  long cases = 1000;
  uint64_t seed = 1;
  double budget = 300;
  size_t tape = 0;
  long shrink_cap = 3000;
  double shrink_secs = 40;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--replay") replay = val();
    else if (a == "--out") out = val();
    else if (a == "--current") cur = val();
    else if (a == "--fail") fail_file = val();
    else if (a == "--cases") cases = std::stol(val());
    else if (a == "--seed") seed = std::stoull(val());
    else if (a == "--budget") budget = std::stod(val());
    else if (a == "--tape") tape = std::stoul(val());
    else if (a == "--scratch") scratch = val();
    else if (a == "--shrink-secs") shrink_secs = std::stod(val());
  }
  if (scratch.empty()) {
    char tmpl[] = "/tmp/vf.XXXXXX";
    scratch = mkdtemp(tmpl);
  }
  vf::g_scratch = scratch;
  struct sigaction sa {};
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  if (!cur.empty()) {
    int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (ftruncate(fd, kMapWords * 4) != 0) return 3;
    void* p = mmap(nullptr, kMapWords * 4, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return 3;
    g_map = static_cast<uint32_t*>(p);
  }
  // the library under test prints to stdout; keep our own channel
  int real_out = dup(1);
  int devnull = open("/dev/null", O_WRONLY);
  dup2(devnull, 1);
  FILE* OUT = fdopen(real_out, "w");
  vf::per_process_setup();

  if (!replay.empty()) {
    Tape t = read_tape(replay);
    Result r = run_case(t, true);
    fprintf(OUT, "CASE %s\n", r.desc.c_str());
    if (r.ok) {
      fprintf(OUT, "REPLAY-OK\n");
      fflush(OUT);
      _exit(0);
    }
    fprintf(OUT, "REPLAY-FAIL %s\n", r.msg.c_str());
    fflush(OUT);
    _exit(1);
  }

  size_t L = tape ? tape : vf::kMaxTape;
  std::ostringstream params;
  params << "seed=" << seed << " max_success=" << cases << " max_size=100 verbose_progress=0";
  setenv("RC_PARAMS", params.str().c_str(), 1);

  using clk = std::chrono::steady_clock;
  auto t0 = clk::now();
  auto secs = [&] { return std::chrono::duration<double>(clk::now() - t0).count(); };
  long evaluated = 0, nontriv = 0, skipped = 0, after_fail = 0;
  std::unordered_set<uint64_t> seen;
  std::map<std::string, long> tags;
  std::vector<std::string> samples;
  bool failed = false;
  Tape best;
  std::string best_msg, best_desc, first_msg;
  double fail_time = 0;

  auto gen = rc::gen::resize(int(L), rc::gen::container<Tape>(rc::gen::resize(100, rc::gen::arbitrary<uint32_t>())));
  auto prop = [&](const Tape& t) {
    if (!failed) {
      if (secs() > budget) {
        ++skipped;
        return;
      }
      Result r = run_case(t, samples.size() < 3);
      ++evaluated;
      for (auto& g : r.tags) ++tags[g];
      if (r.nontrivial) {
        uint64_t h = 1469598103934665603ull;
        for (uint32_t w : t) h = (h ^ w) * 1099511628211ull + 0x9E37;
        if (seen.insert(h).second) {
          ++nontriv;
          if (samples.size() < 3 && !r.desc.empty()) samples.push_back(r.desc.substr(0, 1500));
        }
      }
      if (!r.ok) {
        failed = true;
        fail_time = secs();
        best = t;
        first_msg = best_msg = r.msg;
        best_desc = r.desc;
        RC_FAIL(r.msg);
      }
    } else {  // shrinking
      if (++after_fail > shrink_cap || secs() - fail_time > shrink_secs) return;
      Result r = run_case(t, false);
      if (!r.ok) {
        best = t;
        best_msg = r.msg;
        best_desc = r.desc;
        RC_FAIL(r.msg);
      }
    }
  };
  std::ostringstream sink;
  auto* old = std::cerr.rdbuf(sink.rdbuf());
  rc::check(vf::kProperty, [&] {
    const auto t = *gen;
    prop(t);
  });
  std::cerr.rdbuf(old);

  std::ofstream o(out);
  o << "{\"evaluated\":" << evaluated << ",\"nontrivial\":" << nontriv << ",\"skipped\":" << skipped
    << ",\"failed\":" << (failed ? "true" : "false") << ",\"shrinks\":" << after_fail << ",\"wall\":" << secs()
    << ",\"rule\":\"" << jesc(vf::kRule) << "\",\"tags\":{";
  bool first = true;
  for (auto& kv : tags) {
    o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second;
    first = false;
  }
  o << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
  o << "],\"msg\":\"" << jesc(best_msg.substr(0, 4000)) << "\"}\n";
  o.close();
  if (failed) {
    write_tape(fail_file, best, std::string("property ") + vf::kProperty + "\n" + best_msg + "\ncase: " + best_desc);
    fprintf(OUT, "FAILED %s\n", best_msg.c_str());
    fflush(OUT);
    _exit(1);
  }
  fflush(OUT);
  _exit(0);
}
