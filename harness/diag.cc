// D01 diagnostics: log lines, exceptions and their stacks, the last handlers
// of a process, and the names of types say exactly what there is to say, once.
// FLAGS: -rdynamic
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <regex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "pbt.hh"
#include "cmdr11/cmdr11.hh"
#include "cmdr11/cmdr_log.hh"

using pbt::Case;
using pbt::Src;
using std::string;

// outside of unnamed namespaces: the linker knows their names
namespace diagx {
  struct box_of_nothing {};
  enum class colour { red };
  union structure {
    int i;
    float f;
  };
  class classy {
  public:
    struct inner {};
    enum kind { one };
  };
  template<class T>
  struct box {
    T t;
  };

  template<class T, class U>
  struct two {
    T t;
    U u;
  };

  struct Level {
    int kind{}, calls{};
    string text;
  };
  struct mine : std::runtime_error {
    using std::runtime_error::runtime_error;
  };
  int line_of_throw[8];
  __attribute__((noinline)) void thrower(int kind, string const &text) {
    switch (kind) {
      case 0: line_of_throw[0] = __LINE__; cmdr_throw_line(text);
      case 1: line_of_throw[1] = __LINE__; cmdr_throw_as(cmdr_biz_error, text);
      case 2: line_of_throw[2] = __LINE__; cmdr_throw_as(dup_error, text);
      case 3: line_of_throw[3] = __LINE__; cmdr_throw_as(required_flag_missed, text);
      case 4: throw std::logic_error(text);
      default: throw mine(text);
    }
  }
  using longer  = two<two<two<classy, box<structure>>, two<box<classy::inner>, box<box_of_nothing>>>, two<two<colour, box<colour>>, box<box<classy::kind>>>>;
  using longest = two<two<longer, box<longer>>, box<two<longer, longer>>>;
  template<class T>
  __attribute__((noinline)) int with_a_long_name(T const *t, int kind, string const &text) {
    if (t) return 3;
    thrower(kind, text);
    return 2;
  }
  __attribute__((noinline)) int descend(int n, int kind, string const &text) {
    if (n <= 0 && text.size() % 3 == 1) with_a_long_name((longer *) nullptr, kind, text);
    else if (n <= 0 && text.size() % 3 == 2)
      with_a_long_name((longest *) nullptr, kind, text);
    else if (n <= 0)
      thrower(kind, text);
    else
      descend(n - 1, kind, text);
    return n + 1; // not a tail call
  }
  // the first level is the outermost; deeper ones are nested in it
  __attribute__((noinline)) void raise_nested(std::vector<Level> const &l, std::size_t at) {
    if (at + 1 == l.size()) descend(l[at].calls, l[at].kind, l[at].text);
    try {
      raise_nested(l, at + 1);
    } catch (...) {
      switch (l[at].kind % 3) {
        case 0: std::throw_with_nested(cmdr::exception::cmdr_exception("outer.cc", 7, l[at].text));
        case 1: std::throw_with_nested(cmdr::exception::cmdr_biz_error("outer.cc", 8, l[at].text));
        default: std::throw_with_nested(std::runtime_error(l[at].text));
      }
    }
  }
} // namespace diagx

namespace {
  // catches what is written to a descriptor meanwhile
  class Catch {
    int fd, was;
    string name;
    FILE *f;

  public:
    Catch(int d, FILE *file)
        : fd(d)
        , f(file) {
      static int n = 0;
      name         = pbt::scratch_dir() + "/diag-" + std::to_string(getpid()) + "-" + std::to_string(n++);
      flush();
      was   = dup(fd);
      int t = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0600);
      if (was < 0 || t < 0) throw pbt::Discard{};
      dup2(t, fd);
      close(t);
    }
    void flush() {
      std::cout.flush();
      std::cerr.flush();
      fflush(f);
    }
    string end() {
      if (was < 0) return {};
      flush();
      dup2(was, fd);
      close(was);
      was = -1;
      std::ifstream in(name, std::ios::binary);
      std::ostringstream o;
      if (in.peek() != EOF) o << in.rdbuf();
      unlink(name.c_str());
      return o.str();
    }
    ~Catch() { end(); }
  };
  string plain(string const &s) {
    string r;
    for (std::size_t i = 0; i < s.size(); i++)
      if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
        for (i += 2; i < s.size() && !isalpha((unsigned char) s[i]); i++) {}
      } else
        r += s[i];
    return r;
  }
  std::vector<string> lines(string const &s) {
    std::vector<string> v;
    std::size_t b = 0;
    while (b < s.size()) {
      auto e = s.find('\n', b);
      if (e == string::npos) e = s.size();
      v.push_back(s.substr(b, e - b));
      b = e + 1;
    }
    return v;
  }
  string cut(string const &v) { return pbt::vis(v.size() > 300 ? v.substr(0, 300) + "..." : v); }

  // ------------------------------------------------------------- log lines
  struct Msg {
    int form{};
    string a;
    int n{};
    double d{};
    string want; // the text
    int line{};
  };
  int evaluated = 0;
  char const *once(string const &s) {
    __atomic_add_fetch(&evaluated, 1, __ATOMIC_RELAXED);
    return s.c_str();
  }
  void say(Msg &m) {
    switch (m.form) {
      case 0: m.line = __LINE__; cmdr_print("%s", once(m.a)); break;
      case 1: m.line = __LINE__; cmdr_print("%d: %s|%5d", m.n, once(m.a), m.n); break;
      case 2: m.line = __LINE__; cmdr_print("%s%.3f%%", once(m.a), m.d); break;
      case 3: m.line = __LINE__; cmdr_debug("<%s> %x %c", once(m.a), m.n, 'c'); break;
      case 4: m.line = __LINE__; cmdr_print("plain"); once(m.a); break;
      default: m.line = __LINE__; cmdr_print("%-12s;%08.2f;%lld %s", once(m.a), m.d, (long long) m.n << 33, m.a.c_str()); break;
    }
  }
  string sprint(char const *f, ...) {
    va_list va, va2;
    va_start(va, f);
    va_copy(va2, va);
    string s((std::size_t) vsnprintf(nullptr, 0, f, va), 0);
    vsnprintf(&s[0], s.size() + 1, f, va2);
    va_end(va);
    va_end(va2);
    return s;
  }
  void log_lines(Src &s, Case &c) {
    static char const *const ZONES[] = {"UTC", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "AEST-10"};
    setenv("TZ", ZONES[s.in(0, 3)], 1);
    tzset();
    auto threads = s.in(1, 4);
    std::vector<std::vector<Msg>> prog(threads);
    std::size_t total = 0, longest = 0;
    for (std::size_t t = 0; t < prog.size(); t++)
      for (auto k = s.in(1, 6); k > 0; k--) {
        Msg m;
        m.form = (int) s.in(0, 5);
        m.n    = (int) s.integer(-100000, 100000);
        m.d    = (double) s.integer(-100000, 100000) / 64;
        switch (s.in(0, 4)) {
          case 0: break;
          case 1: m.a = s.str("ab %d%s\\$'\"", 0, 30); break;
          case 2: m.a = string(s.in(90, 140), 'x'); break;
          case 3: m.a = string(s.in(1000, 5000), 'y') + "z"; break;
          default: m.a = s.str("word \xc3\xa9", 0, 60); break;
        }
        if (threads > 1) m.a += "#" + std::to_string(t) + "." + std::to_string(k); // tells the lines apart
        if (threads > 1 && m.form == 4) m.form = 0;
        char const *a = m.a.c_str();
        switch (m.form) {
          case 0: m.want = m.a; break;
          case 1: m.want = sprint("%d: %s|%5d", m.n, a, m.n); break;
          case 2: m.want = sprint("%s%.3f%%", a, m.d); break;
          case 3: m.want = sprint("<%s> %x %c", a, m.n, 'c'); break;
          case 4: m.want = "plain"; break;
          default: m.want = sprint("%-12s;%08.2f;%lld %s", a, m.d, (long long) m.n << 33, a); break;
        }
        longest = std::max(longest, m.want.size());
        prog[t].push_back(m);
        total++;
      }
    string note = std::to_string(threads) + " threads";
    for (auto const &p: prog) {
      note += " |";
      for (auto const &m: p) note += " " + std::to_string(m.form) + ":" + cut(m.want).substr(0, 20);
    }
    c.note(note);
    c.label("threads-" + std::to_string(threads));
    if (longest > 120) c.label("long");
    c.nontrivial = threads > 1 && longest > 120;

    evaluated = 0;
    auto from = std::time(nullptr);
    Catch out(1, stdout);
    if (threads == 1) {
      for (auto &m: prog[0]) say(m);
    } else {
      std::vector<std::thread> th;
      for (auto &p: prog) th.emplace_back([&p] { for (auto &m: p) say(m); });
      for (auto &t: th) t.join();
    }
    auto raw = out.end();
    auto to  = std::time(nullptr);
    PBT_EQ(evaluated, (int) total, "arguments evaluated");
    PBT_CHECK(raw.empty() || raw.back() == '\n', "the log does not end with a line end");
    auto got = lines(plain(raw));
    PBT_EQ(got.size(), total, "lines written: " << cut(raw));
    std::vector<std::size_t> at(prog.size());
    std::set<string> stamps;
    for (auto t = from; t <= to; t++) {
      std::tm tm{};
      gmtime_r(&t, &tm);
      char b[40];
      strftime(b, sizeof b, "%m/%d/%y %H:%M:%S", &tm);
      stamps.insert(b);
    }
    for (auto const &l: got) {
      PBT_CHECK(l.size() > 17 && stamps.count(l.substr(0, 17)), "the time of the line '" << cut(l) << "'");
      bool found = false;
      string wanted;
      for (std::size_t t = 0; t < prog.size() && !found; t++) {
        if (at[t] == prog[t].size()) continue;
        auto const &m = prog[t][at[t]];
        string want   = " [debug]: " + m.want + "  " + __FILE__ + ":" + std::to_string(m.line) + " (";
        wanted += "\n  " + cut(want);
        if (l.compare(17, want.size(), want) == 0 && l.back() == ')') {
          auto fn = l.substr(17 + want.size());
          PBT_CHECK(fn.find("say(") != string::npos, "the function of the line is " << cut(fn));
          at[t]++;
          found = true;
        }
      }
      PBT_CHECK(found, "the log line '" << cut(l) << "' is none of the next ones:" << wanted);
    }
  }

  // ------------------------------------------------------------ exceptions
  void exceptions(Src &s, Case &c) {
    using diagx::Level;
    std::vector<Level> lv(s.in(1, 4));
    string note;
    for (auto &l: lv) {
      l.kind  = (int) s.in(0, 5);
      l.calls = (int) s.in(0, 20);
      l.text  = s.str("some: %s(+) text)", 0, 25);
      note += std::to_string(l.kind) + "/" + std::to_string(l.calls) + " '" + l.text + "' ";
    }
    bool stack     = s.chance(3, 4);
    auto dumps     = s.in(1, 3);
    char const *fn = s.coin() ? "main.cc" : "a file(+1).cc";
    int ln         = (int) s.in(1, 9999);
    c.note(note + (stack ? "with stacks " : "") + "dumped " + std::to_string(dumps) + " times");
    c.label("levels-" + std::to_string(lv.size()));
    c.nontrivial = lv.size() > 1 && stack && dumps > 1;
    auto what_of = [&](std::size_t i) {
      auto const &l = lv[i];
      if (i + 1 == lv.size()) return l.kind < 4 ? l.text + "  " + __FILE__ + ":" + std::to_string(diagx::line_of_throw[l.kind]) : l.text;
      return l.kind % 3 == 0 ? l.text + "  outer.cc:7" : l.kind % 3 == 1 ? l.text + "  outer.cc:8"
                                                                         : l.text;
    };
    // the calls that led here, outside of this function
    void *here[200];
    int depth   = backtrace(here, 200);
    char **syms = backtrace_symbols(here, depth);
    std::vector<string> outer(syms + 3, syms + depth);
    free(syms);
    try {
      diagx::raise_nested(lv, 0);
    } catch (std::exception const &e) {
      PBT_EQ(string(e.what()), what_of(0), "what()");
      string first;
      if (auto *x = dynamic_cast<cmdr::exception::cmdr_exception const *>(&e)) {
        PBT_CHECK(!x->stacktrace().empty(), "a cmdr exception without a stack");
        if (lv.size() == 1) {
          int n = 0;
          for (auto const &f: x->stacktrace()) n += f.find("diagx7descend") != string::npos;
          PBT_EQ(n, lv[0].calls + 1, "how often the calling function is in the stack of the exception");
        }
        auto const &st         = x->stacktrace();
        std::size_t type_lines = st.size();
        if (st.size() < 60)
          PBT_CHECK(st.size() > outer.size() && std::equal(outer.rbegin(), outer.rend(), st.rbegin()), "the stack of the exception has " << st.size() << " calls and does not end with the " << outer.size() << " that led to the try block; its last one is " << st.back() << ", want " << outer.back());
        c.label(type_lines > 20 ? "deep" : "flat");
      }
      string thetype = cmdr::debug::type(e);
      PBT_EQ(thetype, lv.size() > 1 ? "std::_Nested_exception<" + string(lv[0].kind % 3 == 0 ? "cmdr::exception::cmdr_exception" : lv[0].kind % 3 == 1 ? "cmdr::exception::cmdr_biz_error" : "std::runtime_error") + ">" :
        string(lv[0].kind == 0 ? "cmdr::exception::cmdr_exception" : lv[0].kind == 1 ? "cmdr::exception::cmdr_biz_error" : lv[0].kind == 2 ? "cmdr::exception::dup_error" : lv[0].kind == 3 ? "cmdr::exception::required_flag_missed" : lv[0].kind == 4 ? "std::logic_error" : "diagx::mine"), "type of the exception");
      for (std::uint64_t d = 0; d < dumps; d++) {
        Catch err(2, stderr);
        cmdr::debug::dump_stacktrace(fn, ln, e, stack);
        auto got          = err.end();
        auto const head   = string("      [EX] [ERR] : ");
        string place      = "  " + string(fn) + ":" + std::to_string(ln);
        std::size_t level = 0, captured = 0, calls = 0;
        bool of_exception = true;
        for (auto const &l: lines(got)) {
          if (l.compare(0, head.size(), head) == 0) {
            PBT_CHECK(level < (stack ? lv.size() : 1), "one level too many: '" << cut(l) << "'");
            PBT_EQ(l, head + string(level, ' ') + what_of(level) + place, "level " << level << " of the dump");
            level++;
          } else if (l.find("[CAPTURED] : ") != string::npos) {
            captured++;
            of_exception = false;
            PBT_CHECK(l.find(string(fn) + ":" + std::to_string(ln)) != string::npos, "the place: '" << cut(l) << "'");
          } else if (of_exception && l.find("diagx::descend(int, int, ") != string::npos)
            calls++;
        }
        PBT_EQ(level, stack ? lv.size() : std::size_t{1}, "levels shown: " << cut(got));
        PBT_EQ(captured, std::size_t{1}, "places shown: " << cut(got));
        if (lv.size() == 1 && lv[0].kind == 0 && stack)
          PBT_EQ((int) calls, lv[0].calls + 1, "how often the calling function is in the stack shown by dump " << d << ": " << got.substr(0, 2000));
        if (d == 0) first = got;
        PBT_CHECK(got == first, "dump " << d << " of the same exception differs: '" << got << "', first: '" << first << "'");
      }
      return;
    }
    pbt::fail("nothing was thrown");
  }

  // --------------------------------------------- the last handlers of a process
  int mark_fd = -1;
  void mark(char const *who, int v) {
    char b[60];
    int n = snprintf(b, sizeof b, "%s %d;", who, v);
    if (write(mark_fd, b, (std::size_t) n) < 0) _exit(99);
  }
  volatile int zero = 0;
  __attribute__((noinline)) void no_way_out() noexcept { throw std::runtime_error("out"); }
  template<int SIG>
  void install(std::vector<std::shared_ptr<void>> &keep, int who) {
    if (who < 0) keep.push_back(std::make_shared<cmdr::debug::SignalInstaller<SIG>>());
    else
      keep.push_back(std::make_shared<cmdr::debug::SignalInstaller<SIG>>([who](int sig) { mark(("sig" + std::to_string(who)).c_str(), sig); }));
  }
  void handlers(Src &s, Case &c) {
    static int const SIGS[] = {SIGSEGV, SIGFPE, SIGBUS, SIGTERM, SIGUSR1};
    struct Ins {
      int what, who; // 0..4: a signal; 5: unhandled exceptions
    };
    std::vector<Ins> ins;
    int who[6] = {-2, -2, -2, -2, -2, -2};
    string note;
    for (auto n = s.in(1, 5); n > 0; n--) {
      Ins i{(int) s.in(0, 5), s.chance(1, 5) ? -1 : (int) n};
      who[i.what] = i.who;
      ins.push_back(i);
      note += std::to_string(i.what) + "->" + std::to_string(i.who) + " ";
    }
    int trigger = s.pick(ins).what;
    int how     = (int) s.in(0, 2);
    c.note(note + "then " + std::to_string(trigger) + " by " + std::to_string(how));
    c.label(trigger == 5 ? "exception" : "signal-" + std::to_string(trigger));
    c.nontrivial = ins.size() > 1 && who[trigger] >= 0;
    int fd[2];
    if (pipe2(fd, O_CLOEXEC)) throw pbt::Discard{};
    Catch err(2, stderr);
    Catch out(1, stdout);
    pid_t pid = fork();
    if (pid < 0) throw pbt::Discard{};
    if (pid == 0) {
      mark_fd = fd[1];
      std::vector<std::shared_ptr<void>> keep;
      for (auto const &i: ins) switch (i.what) {
          case 0: {
            auto w = i.who;
            if (w < 0) keep.push_back(std::make_shared<cmdr::debug::SigSegVInstaller>());
            else
              keep.push_back(std::make_shared<cmdr::debug::SigSegVInstaller>([w](int sig) { mark(("sig" + std::to_string(w)).c_str(), sig); }));
            break;
          }
          case 1: install<SIGFPE>(keep, i.who); break;
          case 2: install<SIGBUS>(keep, i.who); break;
          case 3: install<SIGTERM>(keep, i.who); break;
          case 4: install<SIGUSR1>(keep, i.who); break;
          default: {
            auto w = i.who;
            if (w < 0) keep.push_back(std::make_shared<cmdr::debug::UnhandledExceptionHookInstaller>());
            else
              keep.push_back(std::make_shared<cmdr::debug::UnhandledExceptionHookInstaller>([w] { mark(("exc" + std::to_string(w)).c_str(), 0); }));
            break;
          }
        }
      printf("said before");
      if (trigger == 5) {
        if (how == 0) no_way_out();
        else if (how == 1)
          std::thread([] { throw 42; }).join();
        else
          std::terminate();
      } else if (trigger == 0 && how == 1) {
        volatile int *p = nullptr;
        *p              = 1;
      } else if (how == 2)
        kill(getpid(), SIGS[trigger]);
      else
        raise(SIGS[trigger]);
      _exit(98); // nothing happened
    }
    close(fd[1]);
    string marks;
    char buf[256];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) marks.append(buf, (std::size_t) n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    auto before = out.end();
    auto said = err.end();
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1, "the process ended with wait status " << st << ", want exit status 1; it said: " << said.substr(0, 1500));
    PBT_CHECK(before.find("said before") != string::npos, "what had been written to standard output is lost: " << cut(before));
    string want;
    if (who[trigger] >= 0) want = trigger == 5 ? "exc" + std::to_string(who[trigger]) + " 0;" : "sig" + std::to_string(who[trigger]) + " " + std::to_string(SIGS[trigger]) + ";";
    PBT_EQ(marks, want, "handlers called");
    string head = trigger == 5 ? "Unhandled Exception" : "signal " + std::to_string(SIGS[trigger]) + ":";
    auto at     = said.find(head);
    PBT_CHECK(at != string::npos && said.find(head, at + 1) == string::npos, "standard error does not say '" << head << "' once: " << cut(said));
    if (trigger != 5) PBT_CHECK(said.find("stack trace:") != string::npos, "no stack trace: " << cut(said));
  }

  // ------------------------------------------------------------ names of types
  struct Name {
    string got, want;
  };
  std::vector<Name> names;
  string closed(string const &s) { return s + (s.back() == '>' ? " >" : ">"); }
  template<class T, int DEPTH>
  void add(string const &n) {
    names.push_back({string(cmdr::debug::type_name<T>()), n});
    if constexpr (DEPTH > 0) {
      add<diagx::box<T>, DEPTH - 1>("diagx::box<" + closed(n));
      add<diagx::two<int, T>, DEPTH - 1>("diagx::two<int, " + closed(n));
      add<diagx::two<T, long>, DEPTH - 1>("diagx::two<" + n + ", long int>"); // as the compiler spells it
    } else {
      names.push_back({string(cmdr::debug::type_name<T *>()), n + "*"});
      names.push_back({string(cmdr::debug::type_name<T &>()), n + "&"});
      names.push_back({string(cmdr::debug::type_name<T &&>()), n + "&&"});
      names.push_back({string(cmdr::debug::type_name<T const>()), "const " + n});
    }
  }
  constexpr std::string_view empty_ = "", hello_ = "hello", dash_ = "-", long_ = "struct class union";
  void type_names(Src &s, Case &c) {
    if (names.empty()) {
      add<int, 2>("int");
      add<char, 1>("char");
      add<double, 1>("double");
      add<diagx::box_of_nothing, 2>("diagx::box_of_nothing");
      add<diagx::colour, 1>("diagx::colour");
      add<diagx::structure, 1>("diagx::structure");
      add<diagx::classy, 2>("diagx::classy");
      add<diagx::classy::inner, 1>("diagx::classy::inner");
      add<diagx::classy::kind, 1>("diagx::classy::kind");
      add<cmdr::opt::opt, 1>("cmdr::opt::opt");
      names.push_back({string(cmdr::debug::type_name<void>()), "void"});
      names.push_back({string(cmdr::debug::short_type_name<int>()), "int"});
      names.push_back({string(cmdr::debug::short_type_name<diagx::structure>()), "structure"});
      names.push_back({string(cmdr::debug::short_type_name<diagx::classy::inner>()), "inner"});
      names.push_back({string(cmdr::debug::short_type_name<diagx::box<int>>()), "box<int>"});
      names.push_back({string(cmdr::join_v<hello_, dash_, long_>), "hello-struct class union"});
      names.push_back({string(cmdr::join_v<empty_, hello_, empty_>), "hello"});
      names.push_back({string(cmdr::join_v<empty_>), ""});
      names.push_back({string(cmdr::join_v<dash_, dash_>), "--"});
      names.push_back({cmdr::debug::demangle("_ZN5diagx6classyE"), "diagx::classy"});
      names.push_back({cmdr::debug::type(diagx::classy::inner{}), "diagx::classy::inner"});
      names.push_back({cmdr::debug::type(diagx::box<int>{}), "diagx::box<int>"});
    }
    auto i = s.in(0, names.size() - 1);
    c.note(names[i].want);
    c.nontrivial = names[i].want.find('<') != string::npos;
    PBT_EQ(names[i].got, names[i].want, "the name of a type");
    // a text that is no mangled name is left as it is
    auto t = s.str("xyz :<>,*&", 1, 30);
    if (t.find(' ') != string::npos || t.size() > 3) PBT_EQ(cmdr::debug::demangle(("?" + t).c_str()), "?" + t, "demangle");
    // what is asserted is evaluated once and said only if it does not hold
    {
      Catch err(2, stderr);
      int n  = 0;
      bool a = print_if_false(++n == 1, t.c_str());
      bool b = print_if_false(++n == 1, t);
      assertm(++n == 3, "not this");
      auto got = err.end();
      PBT_CHECK(a && !b && n == 3, "print_if_false gave " << a << b << " after " << n);
      PBT_EQ(got, t + "\n", "print_if_false says");
    }
  }

  pbt::Reg r1({"D01", "log", "several threads, and a text longer than any fixed buffer of a line", 18000, 150000, log_lines});
  pbt::Reg r2({"D01", "exceptions", "nested exceptions, dumped with their stacks more than once", 9000, 100000, exceptions});
  pbt::Reg r3({"D01", "handlers", "several handlers are installed, and the one that is meant has a function to call", 6000, 30000, handlers});
  pbt::Reg r4({"D01", "names", "the name of an instance of a template", 18000, 72000, type_names});
} // namespace
PBT_MAIN()
