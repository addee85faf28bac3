// Check S04: YAML files.
// LIBS: -lyaml-cpp
#include "pbt.hh"
#include <addons/loaders/yaml_loader.hh>
using pbt::Src;
using pbt::Case;
using std::string;
using std::vector;
using cmdr::vars::variable;
namespace {
enum K { Map, Seq, Bool, Int, Flt, Text, Null };
struct N {
  K k{Null};
  vector<std::pair<string, N>> kids; // of a map
  vector<N> items;
  string scalar; // the content
  string shown;  // as written
  bool b{};
  bool flow{};
};
string low(string s) { for (auto &c: s) c = (char) tolower(c); return s; }
bool plain_ok(string const &t) { // may be written without quotes
  if (t.empty() || t.front() == ' ' || t.back() == ' ') return false;
  static const string bad_first = "!&*-?|>@`%#'\"[]{},:=";
  if (bad_first.find(t[0]) != string::npos) return false;
  for (size_t i = 0; i < t.size(); i++)
    if ((unsigned char) t[i] < 32 || string("[]{},#:'\"\\&*").find(t[i]) != string::npos) return false;
  return true;
}
bool boolish(string const &t) {
  static const std::set<string> b = {"y", "n", "yes", "no", "true", "false", "on", "off"};
  return b.count(low(t)) != 0;
}
N scalar(Src &s) {
  N n;
  switch (s.in(0, 6)) {
  case 0: {
    n.k = Bool;
    n.b = s.coin();
    n.shown = s.pick(n.b ? vector<string>{"true", "True", "TRUE", "yes", "Yes", "on", "ON", "y", "Y"} : vector<string>{"false", "False", "FALSE", "no", "No", "off", "OFF", "n", "N"});
    n.scalar = n.shown;
    return n;
  }
  case 1:
    n.k = Int;
    n.scalar = std::to_string(s.integer(INT32_MIN, INT32_MAX));
    if (s.chance(1, 4)) n.scalar = std::to_string(s.integer(INT64_MIN, INT64_MAX));
    n.shown = n.scalar;
    return n;
  case 2:
    n.k = Flt;
    n.scalar = std::to_string(s.integer(-9999, 9999)) + "." + std::to_string(s.in(0, 999));
    if (s.chance(1, 4)) n.scalar += "e" + std::to_string(s.in(-10, 10));
    n.shown = n.scalar;
    return n;
  default: break;
  }
  n.k = Text;
  n.scalar = s.str(s.coin() ? "abz" : "ab z09_-./:=,'\"#[]{}&*!%\xc3\xa9\t", 0, s.chance(1, 40) ? 200 : 14);
  if (boolish(n.scalar)) n.scalar += "x";
  bool nonnum = n.scalar.find_first_of("abz") != string::npos;
  if (nonnum && plain_ok(n.scalar) && n.scalar != "null" && s.coin() && n.scalar.find('\t') == string::npos) n.shown = n.scalar;
  else if (s.coin() && n.scalar.find('\t') == string::npos) {
    n.shown = "'";
    for (char c: n.scalar) n.shown += c == '\'' ? "''" : string(1, c);
    n.shown += "'";
  } else {
    n.shown = "\"";
    for (char c: n.scalar) n.shown += c == '"' ? "\\\"" : c == '\t' ? "\\t" : string(1, c);
    n.shown += "\"";
  }
  return n;
}
N gen(Src &s, int depth, int &budget);
N gen_map(Src &s, int depth, int &budget) {
  static const vector<string> names = {"app", "cli", "server", "port", "a", "b", "c1", "x-y", "z_9", "logging", "level", "Debug", "conf"};
  N n;
  n.k    = Map;
  n.flow = depth > 1 && s.chance(1, 6);
  std::set<string> used;
  for (int i = 0, m = s.in(depth == 0 ? 1 : 0, s.chance(1, 40) ? 30 : 5); i < m && budget > 0; i++) {
    auto k = s.chance(1, 5) ? s.str("abcdefgh", 1, s.chance(1, 15) ? 60 : 9) : s.pick(names);
    if (boolish(k) || !used.insert(k).second) continue;
    auto v = gen(s, depth + 1, budget);
    if (n.flow) v.flow = true;
    n.kids.emplace_back(k, v);
  }
  return n;
}
void make_flow(N &n) {
  n.flow = true;
  for (auto &[k, v]: n.kids) make_flow(v);
  for (auto &v: n.items) make_flow(v);
}
N gen(Src &s, int depth, int &budget) {
  budget--;
  int c = s.in(0, 9);
  if (c < 3 && depth < 12) return gen_map(s, depth, budget);
  if (c == 3) {
    N n;
    n.k = Seq;
    n.flow = s.coin();
    for (int i = 0, m = s.in(0, s.chance(1, 25) ? 50 : 4); i < m; i++) n.items.push_back(scalar(s));
    return n;
  }
  if (c == 4 && s.chance(1, 2)) {
    N n;
    n.shown = s.pick(vector<string>{"~", "null", ""});
    return n;
  }
  return scalar(s);
}
string flow(N const &n) {
  string r;
  if (n.k == Map) {
    for (auto const &[k, v]: n.kids) r += (r.empty() ? "" : ", ") + k + ": " + flow(v);
    return "{" + r + "}";
  }
  if (n.k == Seq) {
    for (auto const &v: n.items) r += (r.empty() ? "" : ", ") + flow(v);
    return "[" + r + "]";
  }
  return n.shown.empty() ? "~" : n.shown;
}
void emit(Src &s, N const &n, string &out, int indent) {
  string pad((size_t) indent, ' ');
  for (auto const &[k, v]: n.kids) {
    if (s.chance(1, 12)) out += pad + "# a comment: not: a key\n";
    if (s.chance(1, 20)) out += "\n";
    out += pad + (s.chance(1, 8) ? "'" + k + "'" : s.chance(1, 8) ? "\"" + k + "\"" : k) + ":";
    if (v.k == Map && !v.flow && !v.kids.empty()) {
      out += "\n";
      emit(s, v, out, indent + s.in(1, 4));
    } else if (v.k == Seq && !v.flow && !v.items.empty()) {
      out += "\n";
      string ip((size_t) (indent + s.in(0, 3)), ' ');
      for (auto const &i: v.items) out += ip + "- " + flow(i) + "\n";
    } else out += (v.k == Null && v.shown.empty() ? string() : " " + flow(v)) + (s.chance(1, 12) ? " # comment" : "") + "\n";
  }
}
void leaves(N const &n, string const &path, std::map<string, N const *> &r) {
  for (auto const &[k, v]: n.kids) {
    auto p = path.empty() ? k : path + "." + k;
    if (v.k == Map) leaves(v, p, r);
    else if (v.k != Null) r[p] = &v;
  }
}
string show(variable const &v) { return cmdr::debug::demangle(v.type().name()) + " " + v.as_string(); }
void check_scalar(Case &c, string const &where, variable const &v, N const &n, string const &doc) {
  if (n.k == Bool) {
    PBT_CHECK(v.type() == typeid(bool) && v.as<bool>() == n.b, where << " reads as " << show(v) << ", the document says " << n.shown << "\n" << doc);
    return;
  }
  bool text = v.type() == typeid(string) && std::any_cast<string>(v.underlying_value()) == n.scalar;
  if (n.k == Text) {
    PBT_CHECK(text, where << " reads as " << show(v) << ", the document says " << n.shown << "\n" << doc);
    return;
  }
  string want = n.scalar; // a number: any numeric type which holds the value
  auto is = [&](auto x) { return v.type() == typeid(x) && std::abs((long double) std::any_cast<decltype(x)>(v.underlying_value()) - std::strtold(want.c_str(), nullptr)) <= 1e-5L * std::abs(std::strtold(want.c_str(), nullptr)); };
  if (n.k == Int && (is(short()) || is((unsigned short) 0) || is(0) || is(0u) || is(0l) || is(0ul) || is(0ll) || is(0ull))) return;
  if (n.k == Flt && (is(0.0f) || is(0.0) || is(0.0l))) return;
  PBT_CHECK(text, where << " reads as " << show(v) << ", the document says " << n.shown << "\n" << doc);
  pbt::finding(c, "numbers-as-text", where + " reads as " + show(v) + ", the document says " + n.shown + "\n" + doc);
}
void check_doc(Case &c, cmdr::app &app, N const &root, string const &doc) {
  std::map<string, N const *> want;
  leaves(root, "", want);
  auto &st = app.store();
  for (auto const &[k, n]: want) {
    PBT_CHECK(st.has("", k.c_str()), k << " of the document is not in the option store\n" << doc);
    auto const &v = st.get_raw(k);
    if (n->k != Seq) {
      check_scalar(c, k, v, *n, doc);
      continue;
    }
    if (n->items.empty()) {
      PBT_CHECK(v.as_string() == "[]", k << " reads as " << show(v) << ", the document says []\n" << doc);
      continue;
    }
    PBT_CHECK(v.type() == typeid(vector<variable>), k << " reads as " << show(v) << ", the document has a list\n" << doc);
    auto const &l = *std::any_cast<vector<variable>>(&v.underlying_value());
    PBT_CHECK(l.size() == n->items.size(), k << " has " << l.size() << " elements, the document has " << n->items.size() << "\n" << doc);
    for (size_t i = 0; i < l.size(); i++) check_scalar(c, k + "[" + std::to_string(i) + "]", l[i], n->items[i], doc);
  }
}
} // namespace
static void c_s04(Src &s, Case &c) {
  int budget = s.chance(1, 25) ? 250 : 40;
  N root     = gen_map(s, 0, budget);
  for (auto &[k, v]: root.kids) if (v.flow) make_flow(v);
  std::function<void(N &)> fl = [&](N &n) { for (auto &[k, v]: n.kids) { if (v.flow) make_flow(v); fl(v); } };
  fl(root);
  string doc;
  if (s.chance(1, 6)) doc += "---\n";
  emit(s, root, doc, 0);
  if (root.kids.empty()) doc += "{}\n";
  std::map<string, N const *> want;
  leaves(root, "", want);
  size_t lists = 0, deep = 0;
  for (auto const &[k, n]: want) lists += n->k == Seq, deep += std::count(k.begin(), k.end(), '.') >= 2;
  c.nontrivial = want.size() >= 4 && deep > 0;
  if (lists) c.label("with lists");
  int how = s.in(0, 4);
  static const char *hows[] = {"load_to", "load_to", "working folder", "--config", "CONFIG_FILE"};
  c.label(hows[how]);
  c.note(string(hows[how]) + ":\n" + doc);
  // files only in the scratch folder
  string dir = pbt::scratch_dir() + "/yaml-" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  if (chdir(dir.c_str()) != 0) pbt::fail("no scratch folder");
  string file = dir + "/" + (how == 2 ? "pbt-app.yml" : "x.yml");
  { std::ofstream f(file); f << doc; }
  for (auto v: {"CONFIG_FILE", "APP_VERSION", "APP_NAME"}) unsetenv(v);
  auto &app = cmdr::app::create_new("pbt-app", "1.2.3", "me", "(c)", "d", "e");
  app += cmdr::opt::sub_cmd{}("run", "r").on_invoke([](cmdr::opt::cmd const &, string_array const &) -> int { return 7; });
  app += cmdr::opt::opt{42}("keep-me", "k");
  // what is there before
  std::map<string, int> old;
  for (int i = 0, n = s.in(0, 4); i < n; i++) old["pre" + std::to_string(s.in(0, 9)) + ".x" + std::to_string(s.in(0, 9))] = s.in(0, 999);
  for (auto const &[k, v]: old) app.store().set_raw(k.c_str(), v);
  vector<string> over; // some keys of the document are there already
  for (auto const &[k, n]: want) if (s.chance(1, 8)) app.store().set_raw(k.c_str(), s.in(0, 9)), over.push_back(k);
  cmdr::addons::loaders::yaml_loader loader;
  std::ostringstream cap;
  auto *o = std::cout.rdbuf(cap.rdbuf());
  auto *e = std::cerr.rdbuf(cap.rdbuf());
  string threw;
  int rc = 0;
  try {
    if (how <= 1) loader.load_to(file, app);
    else {
      app.set_global_on_loading_externals(loader());
      vector<string> w{"pbt-app"};
      if (how == 3) w.push_back("--config=" + file);
      if (how == 4) setenv("CONFIG_FILE", file.c_str(), 1);
      w.push_back("run");
      vector<char *> av;
      for (auto &x: w) av.push_back(x.data());
      av.push_back(nullptr);
      rc = app.run((int) w.size(), av.data());
    }
  } catch (std::exception const &x) { threw = x.what(); }
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  unsetenv("CONFIG_FILE");
  unlink(file.c_str());
  (void) !chdir("/");
  rmdir(dir.c_str());
  PBT_CHECK(threw.empty(), "loading throws: " << threw << "\n" << doc);
  if (how > 1) PBT_CHECK(rc == 7, "the command was not run: status " << rc << " " << cap.str() << "\n" << doc);
  check_doc(c, app, root, doc);
  for (auto const &[k, v]: old) if (!want.count(k)) PBT_CHECK(app.store().get_raw(k).type() == typeid(int) && app.store().get_raw(k).as<int>() == v, k << ", which is not in the document, reads as " << show(app.store().get_raw(k)) << "\n" << doc);
  if (!want.count("app.cli.keep-me")) PBT_CHECK(app.get_for_cli("keep-me").as<int>() == 42, "the default of a flag is lost\n" << doc);
}
static pbt::Reg r_s04({"S04", "documents", "at least four values, one of them three levels deep", 6000, 50000, c_s04});
PBT_MAIN()
