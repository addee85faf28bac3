// Checks C17: the completion script for bash which a program writes.
// `generate shell` runs in a child process, as an unprivileged user whose home
// and working folders are scratch folders; the script it writes runs in bash.
// FLAGS:
#include "cli_model.hh"
#include <fcntl.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace cm;
namespace fs = std::filesystem;

static string slurp(fs::path const &p) {
  std::ifstream in(p, std::ios::binary);
  std::ostringstream os;
  os << in.rdbuf();
  return os.str();
}
static void spill(fs::path const &p, string const &s) { std::ofstream(p, std::ios::binary) << s; }
static string plain(string const &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
      for (i += 2; i < s.size() && !isalpha((unsigned char) s[i]); i++) {}
    } else r += s[i];
  return r;
}
static string quote(string const &s) {
  string r = "'";
  for (char ch: s) r += ch == '\'' ? string("'\\''") : string(1, ch);
  return r + "'";
}
// runs f in a child which owns nothing but the folder `home`; what it reports is returned, its failure is raised here
static string as_nobody(string const &home, std::function<string()> const &f) {
  int fd[2];
  if (pipe2(fd, O_CLOEXEC)) throw pbt::Discard{};
  std::cout.flush();
  std::cerr.flush();
  pid_t pid = fork();
  if (pid < 0) throw pbt::Discard{};
  if (pid == 0) {
    string r;
    if (chdir((home + "/cwd").c_str())) _exit(90);
    if (geteuid() == 0 && (setgroups(0, nullptr) || setgid(65534) || setuid(65534))) _exit(91);
    setenv("HOME", home.c_str(), 1);
    try {
      r = "0" + f();
    } catch (std::exception const &x) {
      r = string("1") + x.what();
    } catch (pbt::Discard const &) {
      r = "2";
    } catch (...) {
      r = "1an exception";
    }
    for (size_t i = 0; i < r.size();) {
      auto n = write(fd[1], r.data() + i, r.size() - i);
      if (n <= 0) break;
      i += (size_t) n;
    }
    _exit(0);
  }
  close(fd[1]);
  string r;
  char buf[65536];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) r.append(buf, (size_t) n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 90 || WEXITSTATUS(st) == 91)) throw pbt::Discard{};
  if (!WIFEXITED(st) || WEXITSTATUS(st) || r.empty()) pbt::fail("the child ended with wait status " + num(st));
  if (r[0] == '2') throw pbt::Discard{};
  if (r[0] == '1') pbt::fail(r.substr(1));
  return r.substr(1);
}
static string fresh_home() {
  static int n = 0;
  string h     = pbt::scratch_dir() + "/home" + num((int) getpid()) + "_" + num(n++);
  for (auto const &d: {h, h + "/cwd"}) {
    fs::create_directories(d);
    if (chown(d.c_str(), 65534, 65534) && geteuid() == 0) throw pbt::Discard{};
    chmod(d.c_str(), 0755);
  }
  // the way down to it must be open to everybody
  for (auto d = fs::path(h).parent_path(); d != d.parent_path() && d != "/tmp"; d = d.parent_path()) {
    struct stat st{};
    if (stat(d.c_str(), &st) == 0 && !(st.st_mode & 1)) chmod(d.c_str(), (st.st_mode & 07777) | 0111);
  }
  return h;
}
struct Gone {
  string d;
  ~Gone() { std::error_code ec; fs::remove_all(d, ec); }
};
static std::map<string, string> files_under(string const &d) {
  std::map<string, string> r;
  for (auto const &e: fs::recursive_directory_iterator(d)) r[fs::relative(e.path(), d).string()] = e.is_regular_file() ? slurp(e.path()) : "(folder)";
  return r;
}
static std::unique_ptr<Program> small_program(Src &s) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_subs  = 3;
  o.max_flags = 3;
  auto p      = gen_program(s, o);
  for (auto *f: p->flags()) {
    f->required = false;
    if (s.chance(1, 5)) f->hidden = true;
    if (s.chance(1, 5)) f->placeholder = s.pick(vector<string>{"PORT", "FILE"});
    f->desc = s.pick(vector<string>{"", "a flag", "first, second | third", "--other, -x"});
  }
  for (auto *k: p->cmds()) {
    if (k->owner && s.chance(1, 6)) k->hidden = true;
    if (k->owner) k->desc = s.pick(vector<string>{"", "a command", "one, two | three"});
  }
  p->has_gpre = p->has_gpost = p->has_postrun = false;
  p->keep_generate = true;
  return p;
}
struct Request {
  bool dry{}, out{}, drop{}, like{}, env{};
  string name, shell, shell_env;
  vector<string> words;
};
static Request gen_request(Src &s, bool script_only) {
  Request q;
  if (script_only) q.dry = q.out = true;
  else q.dry = s.chance(1, 4), q.out = s.coin(), q.drop = s.chance(1, 3), q.like = s.chance(1, 3), q.env = s.chance(1, 5);
  q.shell     = script_only ? s.pick(vector<string>{"bash", "bash", "auto", ""}) : s.pick(vector<string>{"bash", "bash", "auto", "", "zsh", "fish"});
  q.shell_env = s.pick(vector<string>{"/bin/bash", "/usr/local/bin/bash", "bash", "/bin/zsh", "/usr/bin/fish", "-"});
  if (script_only && (q.shell == "auto" || q.shell.empty())) q.shell_env = "/bin/bash";
  if (s.chance(2, 3)) q.name = s.pick(vector<string>{"tool", "my-tool", "my-own-tool", "a_b", "x.y", "t2", "a-b-c-d"});
  // the words: some of the flags are of `generate` and can come before `shell`
  vector<string> early, late;
  auto put = [&](string const &w) { (s.coin() ? early : late).push_back(w); };
  if (q.dry) put(s.pick(vector<string>{"--dry-run", "--dry"}));
  if (q.out) put("--stdout");
  if (q.like) put(s.pick(vector<string>{"--feel-like", "--bet"}));
  if (q.drop) late.push_back(s.pick(vector<string>{"--drop", "--remove", "--uninstall"}));
  if (!q.shell.empty()) late.push_back("--" + q.shell);
  if (!q.name.empty()) late.push_back("--name=" + q.name);
  s.shuffle(late);
  q.words = {s.pick(vector<string>{"generate", "gen"})};
  q.words.insert(q.words.end(), early.begin(), early.end());
  q.words.push_back(s.pick(vector<string>{"shell", "sh", "comp", "completion"}));
  q.words.insert(q.words.end(), late.begin(), late.end());
  return q;
}
static bool makes_script(Request const &q) {
  if (q.shell == "bash") return true;
  return (q.shell.empty() || q.shell == "auto") && q.shell_env != "-" && fs::path(q.shell_env).filename() == "bash";
}
static string safe_of(Request const &q, string const &exe) {
  string r = q.name.empty() ? exe : q.name;
  for (auto &ch: r) if (ch == '-') ch = '_';
  return r;
}
static void set_shell(Request const &q) {
  if (q.shell_env == "-") unsetenv("SHELL");
  else setenv("SHELL", q.shell_env.c_str(), 1);
}

// ------------------------------------------------------------------ what the script offers
static void c17script(Src &s, Case &c) {
  auto p   = small_program(s);
  auto q   = gen_request(s, true);
  auto exe = cmdr::path::executable_name().filename().string();
  // the line the user is completing
  Cmd *t = s.pick(p->cmds());
  LineOpts lo;
  lo.mentions      = s.in(0, 2);
  lo.simple_values = true;
  Line L;
  for (int i = 0;; i++) {
    L = compose(s, *p, lo, t);
    bool ok = true; // words which are one word in a shell, and hold no value which depends on quoting
    for (auto &w: L.words) {
      for (char ch: w) ok = ok && (isalnum((unsigned char) ch) || strchr("-_=./,:", ch));
      ok = ok && !w.empty();
    }
    if (ok) break;
    if (i == 5) L.words.clear(), L.mentions.clear(), t = &p->root, i = -100;
  }
  for (auto x: {"help"}) { string got; auto *f = greedy_long(t, x, got); if (!f || !f->builtin) throw pbt::Discard{}; }
  for (auto x: {"hhncsc", "hncsc", "ncsc", "sc"}) { string got; auto *f = greedy_short(t, x, got); if (!f || !f->builtin || (f->lng != "help" && f->lng != "no-color" && f->lng != "shell-completion")) throw pbt::Discard{}; }
  string home = fresh_home();
  Gone gone{home};
  string all = "request:" + show_words(q.words) + "\nline:" + show_words(L.words) + "\n" + describe(*p);
  c.note(all);
  string script, list;
  { // the script
    auto r = as_nobody(home, [&] {
      set_shell(q);
      Live l(*p);
      l.run(q.words);
      if (l.threw || l.rc) throw std::runtime_error("generate shell ended with " + num(l.rc) + " " + l.what + "\n" + all);
      return l.out;
    });
    script = r;
    auto files = files_under(home);
    PBT_CHECK(files.size() == 1, "files are written although it is a dry run: " << files.size() - 1 << "\n" << all);
  }
  auto safe = safe_of(q, exe);
  all += "script:\n" + script;
  PBT_CHECK(script.find("for " + exe + " v1.2.3\n") != string::npos, "the script does not name the program and its version\n" << all);
  PBT_CHECK(script.find("%{") == string::npos, "the script holds a placeholder\n" << all);
  PBT_CHECK(script.find("_cmdr_cmd_" + safe + "()") != string::npos, "no function for " << safe << "\n" << all);
  { // the list of the program itself for the words typed so far
    auto w = L.words;
    w.push_back("--help");
    w.push_back("-hhncsc");
    list = as_nobody(home, [&] {
      unsetenv("SHELL");
      Live l(*p);
      l.run(w);
      if (l.threw || l.rc) throw std::runtime_error("the completion list ended with " + num(l.rc) + " " + l.what + "\n" + all);
      return l.out;
    });
  }
  PBT_CHECK(list.find('\033') == string::npos, "the list of --help -hhncsc is coloured: " << pbt::vis(list) << "\n" << all);
  // what can come next, by the declarations
  std::set<string> must, may;
  auto add = [](std::set<string> &to, Flag const &f) {
    to.insert("--" + f.lng + (f.placeholder.empty() ? "" : "=" + f.placeholder));
    if (!f.shr.empty()) to.insert("-" + f.shr);
    for (auto &a: f.aliases) to.insert("--" + a);
  };
  auto addc = [](std::set<string> &to, Cmd const &k) {
    to.insert(k.lng);
    if (!k.shr.empty()) to.insert(k.shr);
    for (auto &a: k.aliases) to.insert(a);
  };
  for (auto &k: t->subs) { addc(may, *k); if (!k->hidden) addc(must, *k); }
  for (auto *f: scope_of(t)) { add(may, *f); if (!f->builtin && !f->hidden) add(must, *f); }
  if (t == &p->root) for (auto *x: {"help", "h", "info", "usages", "version", "V", "versions", "ver", "print", "pr", "display", "generate", "g", "gen"}) may.insert(x);
  for (auto *x: {"--verbose", "-v", "--quiet", "-q", "--debug", "-D", "--debug-mode", "--trace", "-tr", "--trace-mode"}) must.insert(x), may.insert(x);
  // the word under the cursor
  string cur;
  if (s.chance(3, 4) && !must.empty()) {
    auto it = must.begin();
    std::advance(it, (long) s.draw((unsigned) must.size()));
    cur = it->substr(0, s.draw((unsigned) it->size() + 1));
  } else cur = s.pick(vector<string>{"", "-", "--", "zzz", "--no"});
  if (cur.find('=') != string::npos) cur = cur.substr(0, cur.find('='));
  string prev = L.words.empty() ? exe : L.words.back();
  if (prev == "--help" || prev == "--version") throw pbt::Discard{};
  spill(home + "/script", script);
  spill(home + "/list", list);
  std::ostringstream d;
  d << "cd " << quote(home) << "\n"
    << "_get_comp_words_by_ref() { cur=" << quote(cur) << "; prev=" << quote(prev) << "; words=(" << quote(exe);
  for (auto &w: L.words) d << " " << quote(w);
  d << " " << quote(cur) << "); }\n"
    << exe << "() { printf '%s\\n' \"$@\" > args; cat list; }\n"
    << "shopt -u extdebug\n. ./script || exit 3\n"
    << "fn=$(complete -p " << exe << " | sed 's/.*-F \\([^ ]*\\).*/\\1/') || exit 4\n"
    << "$fn " << exe << " " << quote(cur) << " " << quote(prev) << "\n"
    << "printf '%s\\n' \"${COMPREPLY[@]}\" > reply\n";
  spill(home + "/driver", d.str());
  int rc = system(("env -i PATH=/usr/bin:/bin bash --norc --noprofile " + quote(home + "/driver") + " >" + quote(home + "/bash.out") + " 2>&1").c_str());
  all += "list:\n" + list + "word under the cursor: " + cur + "\n";
  PBT_CHECK(rc == 0, "bash ended with " << rc << ": " << slurp(home + "/bash.out") << "\n" << all);
  string args, wantargs;
  args = slurp(home + "/args");
  for (auto &w: L.words) wantargs += w + "\n";
  wantargs += "--help\n-hhncsc\n";
  PBT_CHECK(args == wantargs, "the script asks the program with\n" << args << "expected\n" << wantargs << all);
  std::set<string> reply;
  std::istringstream rs(slurp(home + "/reply"));
  for (string x; std::getline(rs, x);) if (!x.empty()) reply.insert(x);
  for (auto &x: must) if (x.compare(0, cur.size(), cur) == 0) PBT_CHECK(reply.count(x), x << " is not offered\n" << all);
  for (auto &x: reply) {
    PBT_CHECK(x.compare(0, cur.size(), cur) == 0, x << " is offered, which does not begin with what was typed\n" << all);
    PBT_CHECK(may.count(x) || x.rfind("--", 0) == 0 || x == "-?" || x[0] == '-', x << " is offered, which is not a title here\n" << all);
    if (x[0] == '-' && !may.count(x)) { // built-in hidden ones
      string got, b = x.substr(0, x.find('='));
      auto *f = b.rfind("--", 0) == 0 ? resolve_long(t, b.substr(2)) : resolve_short(t, b.substr(1));
      PBT_CHECK(f && f->builtin, x << " is offered, which is not a title here\n" << all);
    }
  }
  c.nontrivial = !reply.empty() && !L.words.empty();
  c.label(t->owner ? "in a sub-command" : "at the top");
}
static pbt::Reg r_c17s({"C17", "script", "at least one word before the one under the cursor, and something is offered", 700, 5000, c17script, 25});

// ------------------------------------------------------------------ where the script goes
static void c17files(Src &s, Case &c) {
  auto p   = small_program(s);
  auto q   = gen_request(s, false);
  auto exe = cmdr::path::executable_name().filename().string();
  auto safe = safe_of(q, exe);
  string home = fresh_home();
  Gone gone{home};
  string bc = ".linuxbrew/etc/bash_completion.d";
  bool have_dir = s.coin();
  auto own      = [](string const &x) { if (chown(x.c_str(), 65534, 65534)) {} };
  if (have_dir) {
    fs::create_directories(home + "/" + bc);
    own(home + "/" + bc);
  }
  for (auto *x: {"other", "tool_x", "README"}) spill(home + "/cwd/" + x, "mine"), own(home + "/cwd/" + x);
  bool had_cwd = s.chance(1, 3), had_dir = have_dir && s.chance(1, 3);
  if (had_cwd) spill(home + "/cwd/" + safe, "an old and much longer script" + string(9000, '.')), own(home + "/cwd/" + safe);
  if (had_dir) spill(home + "/" + bc + "/" + safe, "an old script"), own(home + "/" + bc + "/" + safe);
  if (have_dir) spill(home + "/" + bc + "/git", "mine"), own(home + "/" + bc + "/git");
  bool makes = makes_script(q);
  string all = "request:" + show_words(q.words) + " SHELL=" + q.shell_env + (have_dir ? " with ~/" + bc : string()) + (had_cwd ? ", ./" + safe + " is there" : "") + (had_dir ? ", ~/" + bc + "/" + safe + " is there" : "") + "\n" + describe(*p);
  c.note(all);
  auto before = files_under(home);
  auto run    = [&](vector<string> const &w) {
    return as_nobody(home, [&] {
      set_shell(q);
      Live l(*p);
      l.run(w);
      if (l.threw || l.rc) throw std::runtime_error("generate shell ended with " + num(l.rc) + " " + l.what + "\n" + all);
      return l.out;
    });
  };
  string out   = run(q.words);
  auto after   = files_under(home);
  auto want    = before;
  string where;
  if (makes && !q.dry) {
    string inbc = bc + "/" + safe, incwd = "cwd/" + safe;
    if (q.drop) {
      where = q.like && had_dir ? inbc : had_cwd ? incwd : "";
      if (!where.empty()) want.erase(where);
    } else {
      where       = q.like && have_dir ? inbc : incwd;
      want[where] = "*";
    }
  }
  string diff;
  for (auto &[f, x]: want) if (!after.count(f)) diff += " " + f + " is gone;";
  for (auto &[f, x]: after) if (!want.count(f)) diff += " " + f + " is there;";
  for (auto &[f, x]: want) if (x != "*" && after.count(f) && after[f] != x) diff += " " + f + " has changed;";
  PBT_CHECK(diff.empty(), "files:" << diff << (where.empty() ? string(" (nothing was to change)") : " (only " + where + " was to change)") << "\n" << all);
  string script;
  if (makes) {

    auto w     = q.words;
    w.erase(std::remove_if(w.begin(), w.end(), [](string const &x) { return x == "--drop" || x == "--remove" || x == "--uninstall" || x == "--dry-run" || x == "--dry" || x == "--stdout"; }), w.end());
    w.push_back("--dry-run");
    w.push_back("--stdout");
    script = run(w);
    PBT_CHECK(script.find("_cmdr_cmd_" + safe + "()") != string::npos, "no function for " << safe << "\n" << script << all);
    PBT_CHECK(files_under(home) == after, "files are changed although it is a dry run\n" << all);
    while (!script.empty() && script.back() == '\n') script.pop_back();
  }
  auto trim = [](string x) { while (!x.empty() && x.back() == '\n') x.pop_back(); return x; };
  if (makes && !q.dry && !q.drop) PBT_CHECK(trim(after[where]) == script, where << " holds\n" << after[where] << "expected\n" << script << "\n" << all);
  if (makes && q.out && !q.drop) PBT_CHECK(trim(out) == script, "printed is\n" << out << "expected\n" << script << "\n" << all);
  else PBT_CHECK(out.find("_cmdr_cmd_") == string::npos, "a script is printed, which was not asked for\n" << out << all);
  c.nontrivial = makes && !where.empty() && q.words.size() >= 4;
  c.label(!makes ? "another shell" : q.drop ? "drop" : q.dry ? "dry run" : q.like ? "into the first folder" : "here");
}
static pbt::Reg r_c17f({"C17", "files", "a file is written or removed and the request has two flags or more", 800, 4000, c17files, 25});
PBT_MAIN()
