// pbt.hh - a small property-based testing engine for code that may crash, hang or leak.
//
// A case is a sequence of bounded integer choices.  A property is a function of a choice
// source; generators are plain code over `Src`.  Cases are executed in forked worker
// processes (a chunk of cases per fork), so a crash, a sanitizer report or a hang of the
// code under test is just another kind of failure, and nothing leaks from chunk to chunk.
// A failure is replayed, shrunk on its choice sequence (delete / zero / lower), written to
// a replay file, replayed three more times and only then reported.
//
// A run is a pure function of (code under test, VERIF_SEED, tier).
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((used, weak)) const char *__asan_default_options();
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:handle_abort=1:hard_rss_limit_mb=3500:"
         "allocator_may_return_null=0:detect_stack_use_after_return=0:print_summary=1:symbolize=0:"
         "max_allocation_size_mb=2000:new_delete_type_mismatch=0";
}
#endif

namespace pbt {

using u8  = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

struct Failure {
  std::string msg;
};
struct Discard {};

inline u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline u64 hash_str(std::string const &s, u64 h = 1469598103934665603ull) {
  for (unsigned char c: s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return mix(h);
}

// ---------------------------------------------------------------- choice source
class Src {
  u64 _state{};
  bool _replay{};
  std::vector<u32> _in;
  std::size_t _pos{};

public:
  u32 *journal{}; // every choice is also written here (shared memory), so that it survives a crash
  u32 journal_cap{};
  explicit Src(u64 seed)
      : _state(mix(seed)) {}
  explicit Src(std::vector<u32> in)
      : _replay(true)
      , _in(std::move(in)) {}

  // uniform in [0,n)
  u32 draw(u32 n) {
    if (n <= 1) n = 1;
    u32 v;
    if (_replay) {
      v = _pos < _in.size() ? _in[_pos] : 0;
      _pos++;
      if (v >= n) v %= n;
    } else {
      _state += 0x9E3779B97F4A7C15ull;
      u64 z = mix(_state);
      v     = n == 0xFFFFFFFFu ? (u32) z : (u32) (z % n);
    }
    if (journal && journal[0] + 1 < journal_cap) journal[++journal[0]] = v;
    return v;
  }
  int in(int lo, int hi) { return lo + (int) draw((u32) (hi - lo + 1)); }
  bool coin() { return draw(2) == 1; }
  // true with probability num/den; false is the simple value
  bool chance(int num, int den) { return (int) draw((u32) den) >= den - num; }
  u64 bits64() {
    u64 h = draw(0xFFFFFFFFu), l = draw(0xFFFFFFFFu);
    return (h << 32) ^ l;
  }
  // integers of any magnitude, with boundary values over-represented
  i64 integer(i64 lo, i64 hi) {
    switch (draw(6)) {
      case 0: return clampi(0, lo, hi);
      case 1: return clampi((i64) draw(21) - 10, lo, hi);
      case 2: return draw(2) ? hi : lo;
      case 3: {
        u64 sh = draw(63);
        i64 v  = (i64) ((1ull << sh) + draw(3) - 1);
        if (draw(2)) v = -v;
        return clampi(v, lo, hi);
      }
      default: {
        u64 span = (u64) hi - (u64) lo + 1;
        u64 r    = bits64();
        return span == 0 ? (i64) r : (i64) ((u64) lo + r % span);
      }
    }
  }
  static i64 clampi(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi
                                                                         : v; }
  template<class T>
  T const &pick(std::vector<T> const &v) { return v[draw((u32) v.size())]; }
  char ch(char const *alphabet) { return alphabet[draw((u32) std::strlen(alphabet))]; }
  std::string str(char const *alphabet, int lo, int hi) {
    int n = in(lo, hi);
    std::string s;
    for (int i = 0; i < n; i++) s += ch(alphabet);
    return s;
  }
  template<class T>
  void shuffle(std::vector<T> &v) {
    for (std::size_t i = v.size(); i > 1; i--) {
      std::size_t j = i - 1 - draw((u32) i); // 0 => keep in place
      std::swap(v[i - 1], v[j]);
    }
  }
};

// ---------------------------------------------------------------- one case
struct Shm { // shared between the driver and one worker
  std::atomic<u64> cur;      // index of the case being run
  std::atomic<u64> beat;     // bumped for each case
  std::atomic<u32> done;     // worker finished its chunk
  std::atomic<u32> failed;   // property failure recorded in `text`
  std::atomic<u32> desc_len;
  std::atomic<u32> msg_len;
  char desc[1 << 15];
  char msg[1 << 14];
};

class Case {
  Shm *_shm;
  std::string _desc;

public:
  bool nontrivial{};
  std::vector<std::string> labels;
  explicit Case(Shm *shm)
      : _shm(shm) {
    if (_shm) _shm->desc_len = 0;
  }
  // append to the human-readable description of this case (survives a crash)
  void note(std::string const &s) {
    _desc += s;
    _desc += '\n';
    if (_shm) {
      std::size_t n = std::min(_desc.size(), sizeof(_shm->desc) - 1);
      std::size_t b = _shm->desc_len;
      if (n > b) std::memcpy(_shm->desc + b, _desc.data() + b, n - b);
      _shm->desc_len = (u32) n;
    }
  }
  void label(std::string s) { labels.push_back(std::move(s)); }
  // record the failure and end the worker process here and now (for checks with several threads,
  // where nothing can be unwound)
  [[noreturn]] void end_now(std::string const &m) {
    if (_shm) {
      std::size_t n = std::min(m.size(), sizeof(_shm->msg) - 1);
      std::memcpy(_shm->msg, m.data(), n);
      _shm->msg_len = (u32) n;
      _shm->failed  = 1;
    }
    std::fflush(nullptr);
    _exit(0);
  }
  [[nodiscard]] std::string const &desc() const { return _desc; }
};

[[noreturn]] inline void fail(std::string const &m) { throw Failure{m}; }
[[noreturn]] inline void fail_now(Case &c, std::string const &m) { c.end_now(m); }

// Recorded genuine defects: lines "finding: property=<id> key=<key> <what fails>" of the file $VERIF_FINDINGS.
inline std::map<std::string, std::string> const &known_findings(std::string const &id) {
  static std::map<std::string, std::string> r;
  static bool loaded = false;
  if (!loaded) {
    loaded           = true;
    char const *path = std::getenv("VERIF_FINDINGS");
    std::ifstream f(path ? path : "known-findings.txt");
    std::string head = "finding: property=" + id + " key=";
    for (std::string l; std::getline(f, l);)
      if (l.compare(0, head.size(), head) == 0) {
        auto sp = l.find(' ', head.size());
        r[l.substr(head.size(), sp - head.size())] = sp == std::string::npos ? "" : l.substr(sp + 1);
      }
  }
  return r;
}
inline std::string &current_id() {
  static std::string id;
  return id;
}
// the property does not hold here: for a recorded defect the case goes on, otherwise it fails
inline void finding(Case &c, std::string const &key, std::string const &msg) {
  if (!known_findings(current_id()).count(key)) fail(msg);
  c.label("known finding: " + key);
}
inline std::string vis(std::string const &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char) c;
    } else if (c < 32 || c >= 127) {
      std::snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else
      o += (char) c;
  }
  return o + "\"";
}
template<class T>
std::string show(T const &v) {
  if constexpr (std::is_same_v<T, std::string>) {
    return vis(v);
  } else if constexpr (std::is_same_v<T, bool>) {
    return v ? "true" : "false";
  } else {
    std::ostringstream os;
    os.precision(17);
    os << v;
    return os.str();
  }
}
template<class T>
std::string show(std::vector<T> const &v) {
  std::string o = "[";
  for (std::size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + show<T>(v[i]);
  return o + "]";
}

#define PBT_CHECK(cond, ...)                                                                           \
  do {                                                                                                 \
    if (!(cond)) {                                                                                     \
      std::ostringstream _pbt_os;                                                                      \
      _pbt_os << __FILE__ << ':' << __LINE__ << ": " << #cond << "  " << __VA_ARGS__;                  \
      ::pbt::fail(_pbt_os.str());                                                                      \
    }                                                                                                  \
  } while (0)
#define PBT_EQ(got, want, ...)                                                                         \
  do {                                                                                                 \
    auto const &_pbt_g = (got);                                                                        \
    auto const &_pbt_w = (want);                                                                       \
    if (!(_pbt_g == _pbt_w)) {                                                                         \
      std::ostringstream _pbt_os;                                                                      \
      _pbt_os << __FILE__ << ':' << __LINE__ << ": " << #got << " = " << ::pbt::show(_pbt_g)           \
              << ", expected " << ::pbt::show(_pbt_w) << "  " << __VA_ARGS__;                          \
      ::pbt::fail(_pbt_os.str());                                                                      \
    }                                                                                                  \
  } while (0)

// ---------------------------------------------------------------- registration
struct Prop {
  std::string id;   // property id, e.g. P01
  std::string name; // sub-property
  std::string rule; // what is generated, and what makes a case non-trivial
  u64 quick, thorough;
  std::function<void(Src &, Case &)> fn;
  int chunk        = 50;
  int timeout_s    = 20;
  bool racy        = false; // result may depend on the schedule: an assertion counts without replaying
  int workers      = 8;
};
inline std::vector<Prop> &registry() {
  static std::vector<Prop> r;
  return r;
}
struct Reg {
  explicit Reg(Prop p) { registry().push_back(std::move(p)); }
};

// ---------------------------------------------------------------- running
struct Outcome {
  enum Kind { Ok,
              Discarded,
              Assert,
              Crash,
              Hang } kind{Ok};
  std::string msg, desc;
  std::vector<u32> choices;
  [[nodiscard]] bool bad() const { return kind >= Assert; }
};
inline char const *kind_name(Outcome::Kind k) {
  static char const *n[] = {"ok", "discarded", "assertion", "crash", "hang"};
  return n[k];
}

inline std::string &scratch_dir() { // a per-process-tree scratch folder, removed by the driver
  static std::string d;
  return d;
}
inline double now_s() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Stats {
  u64 evaluations{}, discarded{}, nontrivial{};
  std::unordered_set<u64> distinct;
  std::map<std::string, u64> labels;
  std::vector<std::string> samples;
};

struct Engine {
  u64 seed{1};
  bool thorough{};
  bool verbose{};
  std::string id, evidence, outdir;
  double scale{1.0};
  double deadline{};
  std::string only;

  static Shm *make_shm() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
      std::perror("mmap");
      std::exit(3);
    }
    return new (p) Shm();
  }

  [[nodiscard]] u64 case_seed(Prop const &p, u64 i) const { return mix(mix(seed) ^ hash_str(p.name)) + i * 0x632BE59BD9B4E019ull; }

  // run one case in this process
  static Outcome::Kind exec_case(Prop const &p, Src &src, Case &c, std::string &msg) {
    try {
      p.fn(src, c);
      return Outcome::Ok;
    } catch (Discard const &) {
      return Outcome::Discarded;
    } catch (Failure const &f) {
      msg = f.msg;
    } catch (std::exception const &e) {
      msg = std::string("uncaught exception ") + typeid(e).name() + ": " + e.what();
    } catch (...) {
      msg = "uncaught exception of unknown type";
    }
    return Outcome::Assert;
  }
  static void put_msg(Shm *shm, std::string const &m) {
    std::size_t n = std::min(m.size(), sizeof(shm->msg) - 1);
    std::memcpy(shm->msg, m.data(), n);
    shm->msg_len = (u32) n;
  }
  static std::string get_msg(Shm *s) { return std::string(s->msg, s->msg_len); }
  static std::string get_desc(Shm *s) { return std::string(s->desc, s->desc_len); }

  static void child_setup(std::string const &log, bool quiet) {
    setpgid(0, 0);
    if (quiet) {
      int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) {
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
      }
      int nul = open("/dev/null", O_RDONLY);
      if (nul >= 0) {
        dup2(nul, 0);
        close(nul);
      }
    }
    struct rlimit rl {
      0, 0
    };
    setrlimit(RLIMIT_CORE, &rl);
    // a runaway printing loop must not fill the disk
    struct rlimit fl {
      256u << 20, 256u << 20
    };
    setrlimit(RLIMIT_FSIZE, &fl);
  }
  static std::string tail(std::string const &path, std::size_t n = 1500) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    auto s = ss.str();
    auto p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
    if (p != std::string::npos) return s.substr(p, n);
    p = s.find("runtime error:");
    if (p != std::string::npos) return s.substr(p > 200 ? p - 200 : 0, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
  }

  // wait for a child with a heartbeat timeout. returns wait status, or -1 on a hang (child killed)
  static int wait_child(pid_t pid, Shm *shm, int timeout_s) {
    u64 last    = shm->beat;
    double t0   = now_s();
    int spin_us = 200;
    for (;;) {
      int st  = 0;
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) {
        kill(-pid, SIGKILL);
        return st;
      }
      if (u64 b = shm->beat; b != last) {
        last = b;
        t0   = now_s();
      } else if (now_s() - t0 > timeout_s) {
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        return -1;
      }
      usleep((useconds_t) spin_us);
      if (spin_us < 5000) spin_us *= 2;
    }
  }

  Outcome classify(int st, Shm *shm, std::string const &log, int timeout_s) {
    Outcome o;
    o.desc = get_desc(shm);
    if (st == -1) {
      o.kind = Outcome::Hang;
      o.msg  = "no answer within " + std::to_string(timeout_s) + " s";
      return o;
    }
    if (shm->failed) {
      o.kind = Outcome::Assert;
      o.msg  = get_msg(shm);
      return o;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->done) {
      o.kind = Outcome::Ok;
      return o;
    }
    o.kind = Outcome::Crash;
    std::ostringstream os;
    if (WIFSIGNALED(st))
      os << "killed by signal " << WTERMSIG(st);
    else
      os << "exit status " << WEXITSTATUS(st) << " in the middle of a case";
    os << "; output tail: " << tail(log);
    o.msg = os.str();
    return o;
  }

  // run a single case, from choices, alone in a fork
  Outcome run_choices(Prop const &p, std::vector<u32> const &ch, int timeout_s, bool quiet = true) {
    Shm *shm        = make_shm();
    std::string log = scratch_dir() + "/one.log";
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(log, quiet);
      Src s(ch);
      Case c(shm);
      shm->beat = 1;
      std::string msg;
      auto k = exec_case(p, s, c, msg);
      if (k == Outcome::Assert) {
        put_msg(shm, msg);
        shm->failed = 1;
      }
      shm->done = 1;
      if (!quiet) std::fflush(nullptr);
      _exit(0);
    }
    int st    = wait_child(pid, shm, timeout_s);
    Outcome o = classify(st, shm, log, timeout_s);
    o.choices = ch;
    munmap(shm, sizeof(Shm));
    return o;
  }
  // rerun a whole chunk up to and including case `upto`
  Outcome run_chunk_again(Prop const &p, u64 from, u64 upto, int timeout_s) {
    Shm *shm        = make_shm();
    std::string log = scratch_dir() + "/chunk.log";
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(log, true);
      for (u64 i = from; i <= upto; i++) {
        shm->cur = i;
        shm->beat.fetch_add(1);
        Src s(case_seed(p, i));
        Case c(shm);
        std::string msg;
        if (exec_case(p, s, c, msg) == Outcome::Assert) {
          put_msg(shm, msg);
          shm->failed = 1;
          _exit(0);
        }
      }
      shm->done = 1;
      _exit(0);
    }
    int st    = wait_child(pid, shm, timeout_s);
    Outcome o = classify(st, shm, log, timeout_s);
    munmap(shm, sizeof(Shm));
    return o;
  }
  // the choices made by case i
  std::vector<u32> record_choices(Prop const &p, u64 i, int timeout_s) {
    std::size_t cap = 1u << 22;
    auto *buf       = (u32 *) mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shm *shm        = make_shm();
    std::string log = scratch_dir() + "/rec.log";
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(log, true);
      Src s(case_seed(p, i));
      s.journal     = buf;
      s.journal_cap = (u32) cap;
      Case c(shm);
      std::string msg;
      exec_case(p, s, c, msg);
      _exit(0);
    }
    double t0 = now_s();
    int st;
    while (waitpid(pid, &st, WNOHANG) == 0) {
      if (now_s() - t0 > timeout_s) {
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        break;
      }
      usleep(1000);
    }
    std::vector<u32> r(buf + 1, buf + 1 + buf[0]);
    munmap(buf, cap * 4);
    munmap(shm, sizeof(Shm));
    return r;
  }

  std::vector<u32> shrink(Prop const &p, std::vector<u32> best, Outcome::Kind kind, double budget_s) {
    double end = now_s() + budget_s;
    int to     = kind == Outcome::Hang ? 4 : std::min(p.timeout_s, 10);
    int tries  = 0;
    auto ok    = [&](std::vector<u32> const &c) {
      if (now_s() > end || tries > 1500) return false;
      tries++;
      return run_choices(p, c, to).kind == kind;
    };
    bool progress = true;
    while (progress && now_s() < end) {
      progress = false;
      // drop trailing / inner blocks
      for (std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1; len /= 2) {
        for (std::size_t at = 0; at + len <= best.size() && now_s() < end;) {
          auto c = best;
          c.erase(c.begin() + (long) at, c.begin() + (long) (at + len));
          if (ok(c)) {
            best     = c;
            progress = true;
          } else
            at += len;
        }
        if (len == 1) break;
      }
      // zero blocks, then lower single values
      for (std::size_t len = 8; len >= 1; len /= 2) {
        for (std::size_t at = 0; at + len <= best.size() && now_s() < end; at += len) {
          bool any = false;
          auto c   = best;
          for (std::size_t k = at; k < at + len; k++) {
            any |= c[k] != 0;
            c[k] = 0;
          }
          if (any && ok(c)) {
            best     = c;
            progress = true;
          }
        }
        if (len == 1) break;
      }
      for (std::size_t at = 0; at < best.size() && now_s() < end; at++) {
        u32 lo = 0;
        while (best[at] > lo && now_s() < end) {
          auto c = best;
          c[at]  = lo + (best[at] - lo) / 2;
          if (c[at] == best[at]) break;
          if (ok(c)) {
            best     = c;
            progress = true;
          } else
            lo = c[at] + 1;
        }
      }
    }
    return best;
  }

  struct Worker {
    pid_t pid{};
    Shm *shm{};
    u64 from{}, to{};
    std::string log, stat;
    u64 last_beat{};
    double t0{};
  };

  static void write_stats(std::string const &path, Stats const &st) {
    std::ofstream f(path, std::ios::binary);
    f << st.evaluations << ' ' << st.discarded << ' ' << st.nontrivial << '\n';
    f << st.distinct.size() << '\n';
    for (auto h: st.distinct) f << h << '\n';
    f << st.labels.size() << '\n';
    for (auto const &[k, v]: st.labels) f << v << ' ' << k << '\n';
    f << st.samples.size() << '\n';
    for (auto const &s: st.samples) {
      f << s.size() << '\n';
      f.write(s.data(), (long) s.size());
      f << '\n';
    }
  }
  static void read_stats(std::string const &path, Stats &st, std::size_t max_samples) {
    std::ifstream f(path, std::ios::binary);
    u64 a = 0, b = 0, c = 0;
    std::size_t n = 0;
    if (!(f >> a >> b >> c >> n)) return;
    st.evaluations += a;
    st.discarded += b;
    st.nontrivial += c;
    for (std::size_t i = 0; i < n; i++) {
      u64 h;
      f >> h;
      st.distinct.insert(h);
    }
    f >> n;
    for (std::size_t i = 0; i < n; i++) {
      u64 v;
      std::string k;
      f >> v;
      f.get();
      std::getline(f, k);
      st.labels[k] += v;
    }
    f >> n;
    for (std::size_t i = 0; i < n; i++) {
      std::size_t len;
      f >> len;
      f.get();
      std::string s(len, 0);
      f.read(&s[0], (long) len);
      f.get();
      if (st.samples.size() < max_samples) st.samples.push_back(s);
    }
  }

  void start_worker(Prop const &p, Worker &w, u64 from, u64 to) {
    w.shm = w.shm ? w.shm : make_shm();
    new (w.shm) Shm();
    w.from = from;
    w.to   = to;
    std::fflush(nullptr);
    w.pid = fork();
    if (w.pid == 0) {
      child_setup(w.log, true);
      Stats st;
      for (u64 i = from; i < to; i++) {
        w.shm->cur = i;
        w.shm->beat.fetch_add(1);
        Src s(case_seed(p, i));
        Case c(w.shm);
        std::string msg;
        auto k = exec_case(p, s, c, msg);
        if (k == Outcome::Assert) {
          put_msg(w.shm, msg);
          w.shm->failed = 1;
          _exit(0);
        }
        st.evaluations++;
        if (k == Outcome::Discarded) {
          st.discarded++;
          continue;
        }
        for (auto const &l: c.labels) st.labels[l]++;
        if (c.nontrivial) {
          st.nontrivial++;
          st.distinct.insert(hash_str(c.desc()));
          if (st.samples.size() < 1 && !c.desc().empty()) st.samples.push_back(c.desc().substr(0, 1200));
        }
        if ((i & 63) == 0) {
          std::fflush(nullptr);
          if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET);
        }
      }
      write_stats(w.stat, st);
      w.shm->done = 1;
      _exit(0);
    }
    w.last_beat = 0;
    w.t0        = now_s();
  }

  // returns true if a violation was found (and reported)
  bool run_prop(Prop const &p, Stats &st) {
    u64 total = (u64) ((double) (thorough ? p.thorough : p.quick) * scale);
    if (total == 0) total = 1;
    u64 next = 0;
    std::vector<Worker> ws((std::size_t) p.workers);
    for (std::size_t i = 0; i < ws.size(); i++) {
      ws[i].log  = scratch_dir() + "/w" + std::to_string(i) + ".log";
      ws[i].stat = scratch_dir() + "/w" + std::to_string(i) + ".stat";
    }
    bool found = false, out_of_time = false;
    std::vector<std::pair<u64, Worker>> bad;  // (case index, worker snapshot)
    std::vector<Outcome> bad_out;
    for (;;) {
      bool active = false;
      for (auto &w: ws) {
        if (w.pid == 0) {
          if (deadline > 0 && now_s() > deadline && next < total) out_of_time = true;
          if (next < total && !found && !out_of_time) {
            u64 to = std::min(total, next + (u64) p.chunk);
            start_worker(p, w, next, to);
            next   = to;
            active = true;
          }
          continue;
        }
        active = true;
        int s  = 0;
        pid_t r = waitpid(w.pid, &s, WNOHANG);
        bool hang = false;
        if (r == 0) {
          if (u64 b = w.shm->beat; b != w.last_beat) {
            w.last_beat = b;
            w.t0        = now_s();
            continue;
          }
          if (now_s() - w.t0 <= p.timeout_s) continue;
          kill(-w.pid, SIGKILL);
          kill(w.pid, SIGKILL);
          waitpid(w.pid, &s, 0);
          hang = true;
        } else
          kill(-w.pid, SIGKILL);
        Outcome o = classify(hang ? -1 : s, w.shm, w.log, p.timeout_s);
        w.pid     = 0;
        if (o.bad()) {
          found = true;
          bad.emplace_back((u64) w.shm->cur, w);
          bad_out.push_back(o);
        } else
          read_stats(w.stat, st, 5);
      }
      if (!active) break;
      usleep(500);
    }
    if (out_of_time) st.labels["(stopped at the time limit before the planned number of cases)"]++;
    for (auto &w: ws)
      if (w.shm) {
        munmap(w.shm, sizeof(Shm));
      }
    if (!found) return false;
    // lowest case index first, for determinism
    std::vector<std::size_t> ord(bad.size());
    for (std::size_t i = 0; i < ord.size(); i++) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](auto a, auto b) { return bad[a].first < bad[b].first; });
    for (auto k: ord)
      if (report(p, bad[k].first, bad[k].second.from, bad_out[k], st)) return true;
    return false;
  }

  bool report(Prop const &p, u64 idx, u64 from, Outcome o, Stats &st) {
    auto ch = record_choices(p, idx, p.timeout_s);
    int again = 0;
    Outcome::Kind kind = o.kind;
    int attempts = p.racy ? 6 : 3;
    for (int i = 0; i < attempts; i++) {
      auto r = run_choices(p, ch, p.timeout_s);
      if (r.bad()) {
        again++;
        o    = r;
        kind = r.kind;
      }
      if (kind == Outcome::Hang && again >= 2) break;
    }
    std::string mode = "choices";
    if (again == 0) {
      auto r = run_chunk_again(p, from, idx, p.timeout_s);
      if (r.bad()) {
        mode = "chunk";
        o    = r;
      } else if (p.racy && o.kind != Outcome::Hang) {
        mode = "schedule-dependent";
      } else {
        st.labels["(failure that did not reproduce, not reported)"]++;
        std::fprintf(stderr, "[pbt] %s/%s case %llu: %s did not reproduce: %s\n", p.id.c_str(), p.name.c_str(),
                     (unsigned long long) idx, kind_name(o.kind), o.msg.c_str());
        return false;
      }
    } else if (!p.racy) {
      auto small = shrink(p, ch, kind, 45);
      auto r     = run_choices(p, small, p.timeout_s);
      if (r.bad()) {
        ch = small;
        o  = r;
      }
    }
    int rep = 0;
    if (mode == "choices")
      for (int i = 0; i < 3; i++) rep += run_choices(p, ch, p.timeout_s).bad();
    mkdir(outdir.c_str(), 0755);
    std::ostringstream name;
    name << outdir << '/' << p.id << '-' << p.name << '-' << std::hex << (mix(hash_str(o.msg) ^ idx ^ seed) & 0xffffff) << ".replay";
    std::ofstream f(name.str());
    f << "property " << p.id << "\nsub " << p.name << "\nmode " << mode << "\nseed " << seed << "\ncase " << idx << "\nfrom " << from
      << "\nkind " << kind_name(o.kind) << "\nreplayed " << rep << " of 3\nchoices";
    for (auto v: ch) f << ' ' << v;
    f << "\n--- message\n"
      << o.msg << "\n--- case\n"
      << o.desc << '\n';
    f.close();
    std::printf("FAIL %s/%s (%s, replayed %d/3)\n  %s\n--- case\n%s\n", p.id.c_str(), p.name.c_str(), kind_name(o.kind), rep, o.msg.c_str(), o.desc.c_str());
    std::printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), name.str().c_str());
    std::fflush(stdout);
    return true;
  }

  static std::string json(std::string const &s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c: s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += (char) c;
      } else if (c == '\n')
        o += "\\n";
      else if (c < 32 || c >= 127) {
        std::snprintf(b, sizeof b, "\\u%04x", c);
        o += b;
      } else
        o += (char) c;
    }
    return o + "\"";
  }

  int replay_file(std::string const &path) {
    std::ifstream f(path);
    std::string line, sub, mode;
    u64 cidx = 0, from = 0;
    std::vector<u32> ch;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "sub")
        is >> sub;
      else if (k == "mode")
        is >> mode;
      else if (k == "seed")
        is >> seed;
      else if (k == "case")
        is >> cidx;
      else if (k == "from")
        is >> from;
      else if (k == "choices") {
        u32 v;
        while (is >> v) ch.push_back(v);
      } else if (k == "---")
        break;
    }
    for (auto const &p: registry())
      if (p.id == id && p.name == sub) {
        Outcome o = mode == "chunk" ? run_chunk_again(p, from, cidx, p.timeout_s) : run_choices(p, ch, p.timeout_s, !verbose);
        std::printf("%s/%s: %s\n%s\n--- case\n%s\n", p.id.c_str(), p.name.c_str(), kind_name(o.kind), o.msg.c_str(), o.desc.c_str());
        if (o.bad()) {
          std::printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
          return 1;
        }
        return 0;
      }
    std::fprintf(stderr, "no such sub-property: %s\n", sub.c_str());
    return 2;
  }

  int main(int argc, char **argv) {
    // whoever started this may ignore or block signals (a shell does so for background jobs): children inherit that
    for (int sig: {SIGHUP, SIGINT, SIGQUIT, SIGPIPE, SIGTERM, SIGALRM, SIGUSR1, SIGUSR2, SIGCHLD}) ::signal(sig, SIG_DFL);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    std::string replay;
    double limit = 0;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto val      = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--id") id = val();
      else if (a == "--tier") thorough = val() == "thorough";
      else if (a == "--seed") seed = std::strtoull(val().c_str(), nullptr, 10);
      else if (a == "--evidence") evidence = val();
      else if (a == "--out") outdir = val();
      else if (a == "--replay") replay = val();
      else if (a == "--only") only = val();
      else if (a == "--scale") scale = std::stod(val());
      else if (a == "--limit") limit = std::stod(val());
      else if (a == "-v") verbose = true;
      else if (a == "--list") {
        for (auto const &p: registry()) std::printf("%s %s quick=%llu thorough=%llu\n", p.id.c_str(), p.name.c_str(), (unsigned long long) p.quick, (unsigned long long) p.thorough);
        return 0;
      }
    }
    if (outdir.empty()) outdir = "/tmp";
    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(tmpl)) {
      std::perror("mkdtemp");
      return 3;
    }
    scratch_dir() = tmpl;
    double t0     = now_s();
    if (limit > 0) deadline = t0 + limit;
    current_id() = id;
    int rc = 0;
    if (!replay.empty()) {
      rc = replay_file(replay);
    } else {
      Stats all;
      std::ostringstream subs, rules;
      int violations = 0, n = 0;
      std::vector<std::string> samples;
      std::set<std::string> reported;
      u64 distinct = 0;
      for (auto const &p: registry()) {
        if (p.id != id || (!only.empty() && p.name != only)) continue;
        Stats st;
        double s0 = now_s();
        bool bad  = run_prop(p, st);
        violations += bad;
        all.evaluations += st.evaluations;
        all.discarded += st.discarded;
        distinct += st.distinct.size();
        for (auto const &s: st.samples)
          if (samples.size() < 12 && (int) samples.size() < 4 * (n + 1)) samples.push_back("[" + p.name + "] " + s);
        subs << (n ? ",\n" : "\n") << "   " << json(p.name) << ": {\"evaluations\": " << st.evaluations << ", \"discarded\": " << st.discarded
             << ", \"distinct_nontrivial\": " << st.distinct.size() << ", \"wall_s\": " << now_s() - s0 << ", \"labels\": {";
        int m = 0;
        for (auto const &[k, v]: st.labels) subs << (m++ ? ", " : "") << json(k) << ": " << v;
        subs << "}}";
        rules << (n ? " | " : "") << p.name << ": " << p.rule;
        n++;
        std::printf("[pbt] %s/%s: %llu cases, %llu discarded, %zu distinct non-trivial, %.1f s%s\n", p.id.c_str(), p.name.c_str(),
                    (unsigned long long) st.evaluations, (unsigned long long) st.discarded, st.distinct.size(), now_s() - s0, bad ? "  ** VIOLATION **" : "");
        std::fflush(stdout);
        for (auto const &[k, what]: known_findings(id))
          if (st.labels.count("known finding: " + k) && reported.insert(k).second) std::printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), what.c_str());
        if (verbose)
          for (auto const &[k, v]: st.labels) std::printf("        %8llu  %s\n", (unsigned long long) v, k.c_str());
        if (bad) break;
      }
      if (n == 0) {
        std::fprintf(stderr, "no sub-property for %s\n", id.c_str());
        rc = 3;
      }
      if (!evidence.empty() && n) {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << json(id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << all.evaluations << ",\n  \"distinct_nontrivial\": " << distinct
          << ",\n  \"discarded\": " << all.discarded << ",\n  \"rule\": " << json(rules.str()) << ",\n  \"samples\": [";
        for (std::size_t i = 0; i < samples.size(); i++) f << (i ? ",\n   " : "\n   ") << json(samples[i]);
        f << "],\n  \"sub_properties\": {" << subs.str() << "\n  }\n },\n \"wall_s\": " << now_s() - t0 << ",\n \"violations\": " << violations << "\n}\n";
      }
      if (violations) rc = 1;
    }
    // remove the scratch folder (one level of sub-folders is enough: harnesses clean up their own)
    std::function<void(std::string const &, int)> rmrf = [&](std::string const &d, int depth) {
      if (depth > 6) return;
      if (DIR *dir = opendir(d.c_str())) {
        while (auto *e = readdir(dir)) {
          std::string nme = e->d_name;
          if (nme == "." || nme == "..") continue;
          std::string full = d + "/" + nme;
          struct stat sb {};
          if (lstat(full.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rmrf(full, depth + 1);
          else
            unlink(full.c_str());
        }
        closedir(dir);
      }
      rmdir(d.c_str());
    };
    rmrf(scratch_dir(), 0);
    return rc;
  }
};

} // namespace pbt

#define PBT_MAIN()                                                                                     \
  int main(int argc, char **argv) {                                                                    \
    return pbt::Engine{}.main(argc, argv);                                                             \
  }
