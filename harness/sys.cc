// X01 commands and redirected streams, F01 files and mappings: what a child
// process writes, what a stream carries and what a file holds is exactly what
// the program gets to see.  Everything happens in a scratch folder.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <functional>
#include <memory>
#include <set>
#include <vector>

#include "pbt.hh"
#include "cmdr11/cmdr_ios.hh"
#include "cmdr11/cmdr_mmap.hh"
#include "cmdr11/cmdr_os_io_redirect.hh"
#include "cmdr11/cmdr_path.hh"
#include "cmdr11/cmdr_process.hh"

using pbt::Case;
using pbt::Src;
using std::string;
namespace fs = std::filesystem;

namespace {
  // one folder per case, TMPDIR inside it
  struct Room {
    string dir, tmp;
    explicit Room(Src &s) {
      static int n = 0;
      dir          = pbt::scratch_dir() + "/sys-" + std::to_string(getpid()) + "-" + std::to_string(n++);
      static char const *const TMPS[] = {"tmp", "tmp", "my tmp", "it's", "a$b;c"};
      tmp = dir + "/" + TMPS[s.in(0, 4)];
      fs::create_directories(tmp);
      setenv("TMPDIR", tmp.c_str(), 1);
    }
    ~Room() {
      std::error_code ec;
      fs::remove_all(dir, ec);
    }
  };
  std::vector<std::uint64_t> const EDGES = {127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 12288, 16384, 65535, 65536, 65537};
  string bytes(Src &s, std::size_t most) {
    string o;
    switch (s.in(0, 3)) {
      case 0: return s.str("ab c", 0, 12);
      case 1: return s.str("xyz \t-%\\'\"$`", 0, 40) + "\n";
      case 2: {
        auto n = s.in(0, 30);
        for (std::uint64_t i = 0; i < n; i++) o += (char) s.in(0, 255);
        return o;
      }
      default: {
        auto n = s.in(0, most);
        if (s.chance(1, 6)) n = std::min<std::uint64_t>(most, s.pick(EDGES));
        auto m = s.in(2, 251);
        o.reserve(n);
        for (std::uint64_t i = 0; i < n; i++) o += (char) (i % m);
        return o;
      }
    }
  }
  string octal(string const &v) {
    string o;
    char b[8];
    for (unsigned char ch: v) {
      snprintf(b, sizeof b, "\\%03o", ch);
      o += b;
    }
    return o;
  }
  string slurp(string const &p) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    if (f.peek() != EOF) o << static_cast<std::istream &>(f).rdbuf();
    return o.str();
  }
  string cut(string const &v) { return pbt::vis(v.size() > 60 ? v.substr(0, 60) + "..." : v) + "(" + std::to_string(v.size()) + ")"; }

  // ------------------------------------------------------------- X01
  struct Child {
    string cmd, out, err;
    int rc{};
  };
  Child child(Src &s) {
    Child k;
    bool first = true;
    int last   = 0;
    for (auto n = s.in(1, 5); n > 0; n--) {
      if (!first) k.cmd += s.coin() ? "; " : "\n";
      first = false;
      auto v = bytes(s, 400);
      if (s.chance(1, 12)) v = bytes(s, 9000); // beyond any buffer
      if (s.chance(1, 15)) { // more than a pipe holds
        auto m = s.coin() ? s.pick(EDGES) : s.in(1, 300000);
        bool e = s.coin();
        k.cmd += "printf '%0" + std::to_string(m) + "d' 0" + (e ? " >&2" : "");
        (e ? k.err : k.out) += string(m, '0'), last = 0;
        continue;
      }
      switch (s.in(0, 6)) {
        case 0:
        case 1:
          k.cmd += "printf '" + octal(v) + "'", k.out += v, last = 0;
          break;
        case 2:
          k.cmd += "printf '" + octal(v) + "' >&2", k.err += v, last = 0;
          break;
        case 3: {
          auto rc = (int) s.in(0, 255);
          k.cmd += "(printf '" + octal(v) + "' >&2; exit " + std::to_string(rc) + ")";
          k.err += v, last = rc;
          break;
        }
        case 4: k.cmd += "printf '" + octal(v) + "' | cat", k.out += v, last = 0; break;
        case 5: k.cmd += "true # all is well", last = 0; k.cmd += "\n:"; break;
        default:
          k.cmd += "f() { printf '" + octal(v) + "'; printf X >&2; }\nf", k.out += v, k.err += "X", last = 0;
          break;
      }
    }
    k.rc = last;
    switch (s.in(0, 5)) {
      case 0: {
        auto rc = (int) s.in(0, 255);
        k.cmd += "; exit " + std::to_string(rc), k.rc = rc;
        break;
      }
      case 1: {
        static int const SIGS[] = {9, 15, 2, 6};
        int sig                 = SIGS[s.in(0, 3)];
        k.cmd += "; ulimit -c 0; kill -" + std::to_string(sig) + " $$", k.rc = 128 + sig;
        break;
      }
      case 2: k.cmd += "\nfalse", k.rc = 1; break;
      default: break;
    }
    return k;
  }
  void exec(Src &s, Case &c) {
    Room room(s);
    auto n = s.in(1, 3);
    std::vector<Child> kids;
    std::vector<std::unique_ptr<cmdr::process::exec>> runs;
    std::size_t longest = 0;
    bool errs = false;
    string note;
    for (std::uint64_t i = 0; i < n; i++) {
      kids.push_back(child(s));
      longest = std::max(longest, kids.back().cmd.size());
      errs |= !kids.back().err.empty();
      note += cut(kids.back().cmd) + " ";
    }
    c.note(note);
    if (longest > 500) c.label("long-command");
    if (n > 1) c.label("several-alive");
    c.nontrivial = errs && (longest > 500 || n > 1);
    // nothing of them shows on the program's own streams
    std::ostringstream own_out, own_err;
    int saved = dup(2);
    auto leak = room.dir + "/leak";
    int fd    = open(leak.c_str(), O_CREAT | O_WRONLY, 0600);
    dup2(fd, 2);
    for (auto &k: kids) runs.push_back(std::make_unique<cmdr::process::exec>(k.cmd.c_str()));
    dup2(saved, 2);
    ::close(saved), ::close(fd);
    PBT_EQ(cut(slurp(leak)), cut(""), "written to the program's own stderr by " << note);
    // looked at in any order
    std::vector<int> order;
    for (std::size_t i = 0; i < kids.size(); i++) order.push_back((int) i);
    if (s.coin()) std::reverse(order.begin(), order.end());
    for (int i: order) {
      auto &k = kids[(std::size_t) i];
      auto &r = *runs[(std::size_t) i];
      PBT_EQ(r.ret_code(), k.rc, "exit status of " << pbt::vis(k.cmd));
      string out, err;
      switch (s.in(0, 2)) {
        case 0: {
          std::ostringstream o;
          o << r;
          o << "|";
          out = o.str();
          PBT_CHECK(!out.empty() && out.back() == '|', "a stream fails after showing a command's output");
          out.pop_back();
          break;
        }
        case 1: {
          char ch;
          while (r.get(ch)) out += ch;
          break;
        }
        default: {
          string line;
          while (std::getline(r, line)) {
            out += line;
            if (!r.eof()) out += '\n';
          }
          break;
        }
      }
      PBT_CHECK(out == k.out, "stdout of " << cut(k.cmd) << " is " << cut(out) << ", want " << cut(k.out));
      { // nothing more to show
        std::ostringstream o;
        o << r;
        o << "|";
        PBT_EQ(o.str(), string("|"), "showing the output of " << cut(k.cmd) << " again");
      }
      std::ostringstream o;
      o << "<" << r.stderr_stream() << ">";
      err = o.str();
      PBT_CHECK(err == "<" + k.err + ">", "stderr of " << cut(k.cmd) << " is " << cut(err) << ", want " << cut("<" + k.err + ">"));
    }
  }

  // a stack of redirections: what is written goes to the innermost one only
  void redirect(Src &s, Case &c) {
    Room room(s);
    struct Place {
      std::ostringstream buf;
      string want;
    };
    Place out0, err0, log0;
    std::vector<std::unique_ptr<Place>> all;
    auto *o = std::cout.rdbuf(out0.buf.rdbuf());
    auto *e = std::cerr.rdbuf(err0.buf.rdbuf());
    auto *l = std::clog.rdbuf(log0.buf.rdbuf());
    auto *i = std::cin.rdbuf();
    std::istringstream in0("outer");
    std::cin.rdbuf(in0.rdbuf());
    string text;
    int depth = 0, most = 0;
    std::function<void(Place *, Place *, Place *, string, int)> block = [&](Place *po, Place *pe, Place *pl, string in, int level) {
      for (auto n = s.in(1, 4); n > 0; n--) {
        auto w = s.str("abc\n", 0, 6);
        switch (s.in(0, 7)) {
          case 0:
          case 1: std::cout << w; po->want += w; break;
          case 2: std::cerr << w; pe->want += w; break;
          case 3: std::clog << w; pl->want += w; break;
          default: {
            if (level > 3) break;
            all.push_back(std::make_unique<Place>());
            auto *p = all.back().get();
            auto *b = p->buf.rdbuf();
            depth++;
            most    = std::max(most, level + 1);
            auto k  = s.in(0, 5);
            text += "{" + std::to_string(k) + " ";
            switch (k) {
              case 0: {
                cmdr::os::pipe_stdout_to r(b);
                block(p, pe, pl, in, level + 1);
                break;
              }
              case 1: {
                cmdr::os::pipe_stderr_to r(b);
                block(po, p, pl, in, level + 1);
                break;
              }
              case 2: {
                cmdr::os::pipe_stdlog_to r(b);
                block(po, pe, p, in, level + 1);
                break;
              }
              case 3: {
                std::istringstream is("in" + std::to_string(level));
                cmdr::os::pipe_stdin_to r(is.rdbuf());
                block(po, pe, pl, "in" + std::to_string(level), level + 1);
                break;
              }
              case 4: {
                std::istringstream is("all" + std::to_string(level));
                bool with_in = s.coin();
                cmdr::os::pipe_all_to r(b, with_in ? is.rdbuf() : nullptr);
                block(p, p, p, with_in ? "all" + std::to_string(level) : in, level + 1);
                break;
              }
              default: { // no place to go: all stays as it is
                cmdr::os::pipe_all_to r;
                block(po, pe, pl, in, level + 1);
                break;
              }
            }
            text += "} ";
          }
        }
        if (s.coin()) {
          std::cin.clear();
          string got;
          for (auto *sb = std::cin.rdbuf(); sb->sgetc() != EOF; sb->snextc()) got += (char) sb->sgetc();
          std::cin.rdbuf()->pubseekpos(0);
          PBT_EQ(got, in, text << "std::cin reads");
        }
      }
    };
    try {
      block(&out0, &err0, &log0, "outer", 0);
    } catch (...) {
      std::cout.rdbuf(o), std::cerr.rdbuf(e), std::clog.rdbuf(l), std::cin.rdbuf(i);
      throw;
    }
    std::cout.rdbuf(o), std::cerr.rdbuf(e), std::clog.rdbuf(l), std::cin.rdbuf(i);
    c.note("redirect " + text);
    c.label("redirect-depth-" + std::to_string(most));
    c.nontrivial = most > 1;
    PBT_EQ(out0.buf.str(), out0.want, text << "the outer std::cout");
    PBT_EQ(err0.buf.str(), err0.want, text << "the outer std::cerr");
    PBT_EQ(log0.buf.str(), log0.want, text << "the outer std::clog");
    for (auto &p: all) PBT_EQ(p->buf.str(), p->want, text << "a place redirected to");
  }

  // formats are put back; printing one stream into another leaves it usable
  void streams(Src &s, Case &c) {
    Room room(s);
    std::ostringstream os;
    auto shape = [&](std::ostream &o) {
      switch (s.in(0, 6)) {
        case 0: o << std::hex; break;
        case 1: o << std::showbase << std::uppercase; break;
        case 2: o << std::left; break;
        case 3: o << std::setprecision((int) s.in(1, 9)); break;
        case 4: o << std::setfill('*'); break;
        case 5: o << std::fixed; break;
        default: o << std::boolalpha; break;
      }
    };
    for (auto n = s.in(0, 3); n > 0; n--) shape(os);
    auto state = [&](bool all) {
      std::ostringstream t;
      t << (unsigned long) os.flags();
      if (all) t << " " << os.precision() << " " << (int) os.fill() << " " << os.width();
      return t.str();
    };
    auto f = state(false), a = state(true);
    {
      cmdr::io::ios_flags_saver sv(os);
      for (auto n = s.in(1, 4); n > 0; n--) shape(os);
    }
    PBT_EQ(state(false), f, "flags after an ios_flags_saver");
    a = state(true);
    {
      cmdr::io::ios_state_saver sv(os);
      for (auto n = s.in(1, 4); n > 0; n--) shape(os);
    }
    PBT_EQ(state(true), a, "format after an ios_state_saver");
    // one stream into another
    string want;
    std::ostringstream o;
    for (auto n = s.in(1, 6); n > 0; n--) {
      auto v = bytes(s, 3000);
      switch (s.in(0, 2)) {
        case 0: {
          auto p = room.dir + "/in";
          { std::ofstream(p, std::ios::binary) << v; }
          std::ifstream in(p, std::ios::binary);
          o << in;
          break;
        }
        case 1: {
          std::istringstream in(v);
          o << static_cast<std::istream &>(in);
          break;
        }
        default: {
          std::ostringstream in;
          in << v;
          o << in;
          break;
        }
      }
      want += v;
      c.nontrivial = c.nontrivial || (v.empty() && n > 1);
      if (v.empty()) c.label("empty-stream");
    }
    c.note("streams " + cut(want));
    PBT_CHECK(o.good(), "a stream fails after other streams were written to it");
    PBT_CHECK(o.str() == want, "streams written to a stream: " << cut(o.str()) << ", want " << cut(want));
  }

  // ------------------------------------------------------------- F01
  void files(Src &s, Case &c) {
    Room room(s);
    using namespace cmdr;
    auto name = s.str("abc. -", 1, 8);
    if (name == "." || name == "..") name += "x";
    fs::path deep = fs::path(room.dir) / "sub" / s.str("xy", 1, 3);
    fs::path p    = deep / name;
    c.note("file " + name);
    PBT_CHECK(!path::file_exists(p.string()) && !path::file_exists(deep), "a file is there before it is made");
    PBT_CHECK(path::ensure_directory(deep), "ensure_directory makes a missing folder");
    PBT_CHECK(fs::is_directory(deep), "ensure_directory made no folder");
    PBT_CHECK(!path::ensure_directory(deep), "ensure_directory makes a folder again");
    PBT_CHECK(path::ensure_file(p), "ensure_file makes a missing file");
    PBT_CHECK(fs::is_regular_file(p) && fs::file_size(p) == 0, "ensure_file made no empty file");
    PBT_CHECK(path::file_exists(p) && path::file_exists(p.string()), "file_exists of a file");
    auto v = bytes(s, 70000);
    {
      auto f = s.coin() ? io::open_file_for_write(p) : io::create_file(p);
      f << v;
      if (s.coin()) io::close_file(f);
      else
        io::close_file(std::move(f));
    }
    PBT_CHECK(slurp(p) == v, "written to a file " << cut(v) << ", it holds " << cut(slurp(p)));
    PBT_CHECK(!path::ensure_file(p), "ensure_file makes an existing file");
    PBT_CHECK(slurp(p) == v, "ensure_file changed an existing file");
    {
      auto f   = io::open_file(p);
      auto got = io::read_file_content(f);
      PBT_CHECK(got == v, "read_file_content gives " << cut(got) << " of " << cut(v));
      io::close_file(f);
    }
    // a sparse file replaces what was there
    auto size = s.chance(1, 5) ? s.in(0, 1 << 20) : s.chance(1, 4) ? s.pick(EDGES) : s.in(0, 5000);
    PBT_CHECK(io::create_sparse_file(p, size), "create_sparse_file(" << size << ")");
    PBT_CHECK(slurp(p) == string(size, '\0'), "create_sparse_file(" << size << ") gives " << cut(slurp(p)));
    PBT_CHECK(!io::create_sparse_file(deep / "none" / "x", size), "create_sparse_file in a missing folder");
    // names
    auto d = s.str("de", 1, 3), b = s.str("bc", 1, 4), x = "." + s.str("xz", 1, 3);
    fs::path q = path::join(string(room.dir), d, b + x);
    PBT_EQ(q.string(), room.dir + "/" + d + "/" + b + x, "join");
    PBT_EQ(path::dirname(q).string(), room.dir + "/" + d, "dirname");
    PBT_EQ(path::basename(q).string(), b + x, "basename");
    PBT_EQ(path::extname(q).string(), x, "extname");
    PBT_EQ(path::basename_without_ext(q).string(), b, "basename_without_ext");
    PBT_EQ(path::merge(room.dir, d).string(), room.dir + "/" + d, "merge");
    PBT_EQ(path::to_filename_h(q), q.string(), "to_filename_h");
    PBT_EQ(string(path::to_filename(q)), q.string(), "to_filename");
    PBT_EQ(path::get_executable_path().string(), fs::read_symlink("/proc/self/exe").string(), "get_executable_path");
    PBT_EQ((path::get_executable_dir() / path::executable_name()).string(), path::get_executable_path().string(), "get_executable_dir and executable_name");
    // names of temporary files
    auto t = path::tmpname(fs::path(d) / (b + x));
    PBT_EQ(t.string(), room.tmp + "/" + d + "/" + b + x, "tmpname");
    PBT_CHECK(fs::is_directory(room.tmp + "/" + d), "tmpname makes the folder");
    std::set<string> seen;
    for (auto n = s.in(2, 6); n > 0; n--) {
      auto u = s.coin() ? path::tmpname_autoincr() : path::tmpname_autoincr("n-%d.t");
      PBT_EQ(path::dirname(u).string(), room.tmp, "folder of tmpname_autoincr");
      PBT_CHECK(seen.insert(u.string()).second, "tmpname_autoincr gives " << u << " again");
    }
    PBT_CHECK(s.coin() ? io::delete_file(p) : io::delete_file(p.c_str()), "delete_file");
    PBT_CHECK(!fs::exists(p) && !path::file_exists(p), "delete_file left the file");
    PBT_CHECK(!io::delete_file(p), "delete_file of a missing file");
    c.label("files");
    c.nontrivial = v.size() > 100 && size > 0;
  }

  // mappings with a file of their own
  template<bool W, bool S>
  struct Own {
    cmdr::mmap::mmap<W, S> m;
    string want;
    explicit Own(std::size_t n)
        : m(n)
        , want(n, '\0') {}
  };
  template<bool S>
  void own(Src &s, Case &c) {
    Room room(s);
    std::vector<std::unique_ptr<Own<true, S>>> all;
    string text;
    int writes = 0, most = 0;
    auto look = [&] {
      std::set<string> names;
      for (auto &o: all) {
        PBT_CHECK(o->m.is_open() == !o->want.empty(), text << "is_open()");
        PBT_EQ(o->m.size(), o->want.size(), text << "size()");
        PBT_EQ(o->m.length(), o->want.size(), text << "length()");
        if (o->want.empty()) continue;
        PBT_CHECK(string(o->m.data(), o->m.size()) == o->want, text << "a mapping holds " << cut(string(o->m.data(), o->m.size())) << ", want " << cut(o->want));
        auto p = o->m.underlying_filename().string();
        PBT_CHECK(names.insert(p).second, text << "two mappings share " << p);
        PBT_CHECK(fs::exists(p), text << "no file under a mapping");
        PBT_CHECK(slurp(p) == (S ? o->want : string(o->want.size(), '\0')), text << "the file under a " << (S ? "shared" : "private") << " mapping holds " << cut(slurp(p)));
      }
    };
    for (auto n = s.in(2, 12); n > 0; n--) {
      auto k = s.in(0, 5);
      if (all.empty() || k == 0) {
        auto size = s.chance(1, 12) ? 0 : s.chance(1, 4) ? (s.coin() ? s.pick(EDGES) : s.in(4000, 20000))
                                                         : s.in(1, 200);
        all.push_back(std::make_unique<Own<true, S>>(size));
        text += "+" + std::to_string(size) + " ";
        most = std::max(most, (int) all.size());
      } else if (k == 1) {
        auto i = s.in(0, all.size() - 1);
        auto p = all[i]->m.underlying_filename();
        all.erase(all.begin() + (long) i);
        PBT_CHECK(!fs::exists(p), text << "the file of a mapping stays when it is gone");
        text += "-" + std::to_string(i) + " ";
      } else {
        auto &o = *all[s.in(0, all.size() - 1)];
        if (o.want.empty()) continue;
        auto at = s.in(0, o.want.size() - 1);
        if (s.coin()) at = o.want.size() - 1;
        char b       = (char) s.in(1, 255);
        o.m.data()[at] = b;
        o.want[at]   = b;
        writes++;
      }
      look();
    }
    all.clear();
    PBT_CHECK(fs::is_empty(room.tmp), text << "files stay when all mappings are gone");
    c.note((S ? "shared " : "private ") + text);
    c.label(S ? "own-shared" : "own-private");
    c.nontrivial = most > 1 && writes > 1;
  }
  void own_any(Src &s, Case &c) {
    if (s.coin()) own<true>(s, c);
    else
      own<false>(s, c);
  }

  // mappings of a given file, their copies and what is moved
  void given(Src &s, Case &c) {
    Room room(s);
    using Lib = cmdr::mmap::detail::mmaplib;
    auto p    = room.dir + "/data";
    auto v    = bytes(s, 10000);
    { std::ofstream(p, std::ios::binary) << v; }
    bool shared = s.coin();
    c.note(string(shared ? "shared " : "read-only ") + cut(v));
    auto holds = [&](auto const &m, string const &what) {
      PBT_CHECK(m.is_open() == !v.empty(), what << ": is_open()");
      PBT_EQ(m.size(), v.size(), what << ": size()");
      if (!v.empty()) PBT_CHECK(string(m.data(), m.size()) == v, what << " holds " << cut(string(m.data(), m.size())) << ", the file " << cut(v));
    };
    int fds = 0;
    auto count = [] {
      int n = 0;
      for (auto const &x: fs::directory_iterator("/proc/self/fd")) (void) x, n++;
      return n;
    };
    fds = count();
    {
      std::vector<std::unique_ptr<Lib>> all;
      all.push_back(std::make_unique<Lib>(p.c_str(), shared, shared));
      string text;
      int copies = 0;
      for (auto n = s.in(0, 8); n > 0; n--) {
        auto i = s.in(0, all.size() - 1), j = s.in(0, all.size() - 1);
        switch (s.in(0, 6)) {
          case 0:
            all.push_back(std::make_unique<Lib>(*all[i]));
            text += "copy ", copies++;
            break;
          case 1: {
            auto m = std::make_unique<Lib>(std::move(*all[i]));
            PBT_CHECK(!all[i]->is_open() && all[i]->size() == 0, text << "open after being moved from");
            all[i] = std::move(m);
            text += "move ";
            break;
          }
          case 2: *all[i] = *all[j]; text += "assign ", copies += i != j; break;
          case 3:
            if (i == j) break;
            *all[i] = std::move(*all[j]);
            PBT_CHECK(!all[j]->is_open(), text << "open after being moved from");
            all.erase(all.begin() + (long) j);
            text += "move-assign ";
            break;
          case 4:
            if (all.size() < 2) break;
            all.erase(all.begin() + (long) i);
            text += "drop ";
            break;
          case 5:
            if (all.size() < 2) break;
            all[i]->close();
            PBT_CHECK(!all[i]->is_open() && all[i]->size() == 0, text << "open after close()");
            all.erase(all.begin() + (long) i);
            text += "close ";
            break;
          default:
            if (!shared || v.empty()) break;
            v[v.size() / 2]              = (char) s.in(0, 255);
            all[i]->data()[v.size() / 2] = v[v.size() / 2];
            text += "write ";
            break;
        }
        for (auto const &m: all) holds(*m, text + "a mapping");
        PBT_CHECK(slurp(p) == v, text << "the file holds " << cut(slurp(p)));
      }
      if (copies) c.label("copied");
      c.nontrivial = copies > 0 && !v.empty();
    }
    {
      cmdr::mmap::mmap_um<> m(cmdr::mmap::open_file(p.c_str()));
      holds(m, "mmap_um");
      PBT_EQ(m.length(), v.size(), "mmap_um: length()");
    }
    if (!v.empty()) {
      auto w = v;
      {
        cmdr::mmap::mmap_um<true, false> m(cmdr::mmap::open_file(p.c_str(), true));
        m.data()[0] = (char) (v[0] + 1);
        PBT_CHECK(m.data()[0] == (char) (v[0] + 1), "a private mapping keeps what is written");
      }
      PBT_CHECK(slurp(p) == v, "a private mapping wrote to the file");
      {
        cmdr::mmap::mmap_um<true, true> m(cmdr::mmap::open_file(p.c_str(), true));
        m.data()[0] = w[0] = (char) (v[0] + 1);
      }
      PBT_CHECK(slurp(p) == w, "a shared mapping did not write to the file");
    }
    {
      Lib none((room.dir + "/nothing").c_str(), false, false);
      PBT_CHECK(!none.is_open() && none.size() == 0, "a mapping of a missing file is open");
    }
    PBT_EQ(count(), fds, "open file descriptors afterwards");
    {
      std::ifstream maps("/proc/self/maps");
      string l;
      while (std::getline(maps, l)) PBT_CHECK(l.find(room.dir) == string::npos, "a mapping is left: " << l);
    }
  }

  // two processes, each with mappings of its own
  void neighbours(Src &s, Case &c) {
    Room room(s);
    std::size_t na = s.in(1, 3000), nb = s.in(1, 3000);
    c.note("neighbours " + std::to_string(na) + " " + std::to_string(nb));
    c.label("two-processes");
    c.nontrivial = true;
    int go[2], back[2];
    if (pipe(go) || pipe(back)) throw pbt::Discard{};
    pid_t pid = fork();
    if (pid == 0) {
      int rc = 0;
      {
        cmdr::mmap::mmap<true, true> m(na);
        for (std::size_t i = 0; i < na; i++) m.data()[i] = 'A';
        char b = 1;
        if (write(back[1], &b, 1) != 1 || read(go[0], &b, 1) != 1) rc = 9;
        if (m.size() != na) rc = 1;
        for (std::size_t i = 0; rc == 0 && i < na; i++)
          if (m.data()[i] != 'A') rc = 2;
        if (!fs::exists(m.underlying_filename())) rc = 3;
      }
      _exit(rc);
    }
    char b{};
    bool started = read(back[0], &b, 1) == 1;
    {
      cmdr::mmap::mmap<true, true> m(nb);
      for (std::size_t i = 0; i < nb; i++) {
        PBT_CHECK(m.data()[i] == 0, "a new mapping holds something already");
        m.data()[i] = 'B';
      }
    }
    b = 1;
    if (write(go[1], &b, 1) != 1) started = false;
    int st = 0;
    waitpid(pid, &st, 0);
    ::close(go[0]), ::close(go[1]), ::close(back[0]), ::close(back[1]);
    PBT_CHECK(started, "the other process ended early");
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "another process' mapping of " << na << " bytes was disturbed (" << st << ")");
  }

  pbt::Reg r1({"X01", "exec", "errors are written, and the command is long or several are alive", 5600, 22400, exec, 10, 60});
  pbt::Reg r2({"X01", "redirect", "redirections within redirections", 48000, 192000, redirect});
  pbt::Reg r3({"X01", "streams", "an empty stream is written before something else", 48000, 192000, streams});
  pbt::Reg f1({"F01", "files", "more than 100 bytes of content, and a file of holes", 15000, 60000, files});
  pbt::Reg f2({"F01", "own", "several mappings at once, written to", 15000, 60000, own_any});
  pbt::Reg f3({"F01", "given", "a mapping was copied", 15000, 60000, given});
  pbt::Reg f4({"F01", "neighbours", "always", 1000, 4000, neighbours});
} // namespace
PBT_MAIN()
