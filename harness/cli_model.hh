// A model of a cmdr program (tree of commands and flags), generators for programs and command
// lines, and the glue which declares the modelled program with the real library and runs it.
#pragma once
#include "pbt.hh"
#include <cmdr11/cmdr11.hh>
#include <cmath>
#include <climits>
#include <cfloat>
#include <memory>

namespace cm {
using pbt::Src;
using pbt::Case;
using std::string;
using std::vector;
using i64 = long long;
using u64 = unsigned long long;

// ------------------------------------------------------------------ values
enum class Ty { Bool, Int, Uint, I16, U16, Long, Ulong, LL, ULL, Flt, Dbl, Str, CStr, VInt, VStr, VLong, VDbl, VUint };
inline bool is_bool(Ty t) { return t == Ty::Bool; }
inline bool is_str(Ty t) { return t == Ty::Str || t == Ty::CStr; }
inline bool is_vec(Ty t) { return t >= Ty::VInt; }
inline bool is_num(Ty t) { return !is_bool(t) && !is_str(t) && !is_vec(t); }
inline bool is_whole(Ty t) { return t >= Ty::Int && t <= Ty::ULL; }
inline char const *ty_name(Ty t) {
  static char const *n[] = {"bool", "int", "unsigned", "int16", "uint16", "long", "ulong", "longlong", "ulonglong", "float", "double", "string", "cstr", "vec<int>", "vec<string>", "vec<long>", "vec<double>", "vec<unsigned>"};
  return n[(int) t];
}
template<class T> string num(T v) { std::ostringstream o; o << v; return o.str(); }
inline string fnum(float v) { char b[64]; snprintf(b, sizeof b, "%.9g", (double) v); return b; }
inline string dnum(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

// a value is kept as its canonical text; lists are kept as canonical element texts
struct Val {
  string text;          // scalar
  vector<string> elems; // list
  bool b{};
};
inline string canon(Ty t, Val const &v) {
  if (is_bool(t)) return v.b ? "true" : "false";
  if (!is_vec(t)) return v.text;
  string r = "[";
  for (auto const &e: v.elems) r += e + "\x1f";
  return r + "]";
}
inline string gen_num(Src &s, Ty t) {
  switch (t) {
    case Ty::Int: case Ty::VInt: return num(s.integer(INT_MIN, INT_MAX));
    case Ty::Uint: case Ty::VUint: return num(s.integer(0, UINT_MAX));
    case Ty::I16: return num(s.integer(SHRT_MIN, SHRT_MAX));
    case Ty::U16: return num(s.integer(0, USHRT_MAX));
    case Ty::Long: case Ty::LL: case Ty::VLong: return num(s.integer(LLONG_MIN, LLONG_MAX));
    case Ty::Ulong: case Ty::ULL: return s.chance(1, 6) ? num(ULLONG_MAX - (u64) s.in(0, 2)) : num((u64) s.integer(0, LLONG_MAX));
    case Ty::Flt: {
      switch (s.in(0, 3)) {
        case 0: return fnum((float) s.in(-20, 20));
        case 1: return fnum((float) s.in(-100000, 100000) / 64.f);
        case 2: return fnum(std::ldexp((float) s.in(-99999, 99999), s.in(-60, 60)));
        default: { static const float f[] = {0.1f, 3.14159274f, FLT_MAX, -FLT_MAX, FLT_MIN, 1e10f, -2.5e-7f}; return fnum(f[s.in(0, 6)]); }
      }
    }
    default: {
      switch (s.in(0, 3)) {
        case 0: return dnum((double) s.in(-20, 20));
        case 1: return dnum((double) s.in(-1000000, 1000000) / 1024.);
        case 2: return dnum(std::ldexp((double) s.in(-999999999, 999999999), s.in(-300, 300)));
        default: { static const double f[] = {0.1, 3.141592653589793, DBL_MAX, -DBL_MAX, DBL_MIN, 1e100, -2.5e-7}; return dnum(f[s.in(0, 6)]); }
      }
    }
  }
}
// text of a string value; never begins or ends with a quote or a blank end that a spelling could eat
inline string gen_text(Src &s, bool may_be_empty, bool simple = false) {
  static const vector<string> pieces = {"a", "b", "x1", "0", "7", "-", "--", "=", ",", ".", ":", "/", " ", "  ", "a b", "\t", "\"", "'", "[", "]", "+", "~", "*", "\\", "é", "中文", "%s", "$HOME", "#", ";", "key=val", "http://h:80/p?q=1", "true", "off", "[1,2]", "{}", "|", "\n", "\r\n", "\x01", "@f"};
  static const vector<string> plain = {"a", "b", "x1", "0", "7", "k", ".", ":", "_", "é", "zz"};
  string r;
  int n = s.chance(1, 30) ? s.in(7, 120) : s.in(may_be_empty ? 0 : 1, 6);
  for (int i = 0; i < n; i++) r += simple ? s.pick(plain) : s.pick(pieces);
  while (!r.empty() && (r[0] == '"' || r[0] == '\'')) r.erase(0, 1);
  while (!r.empty() && (r.back() == '"' || r.back() == '\'')) r.pop_back();
  if (r.empty() && !may_be_empty) r = "v";
  return r;
}
inline Val gen_val(Src &s, Ty t, bool simple = false) {
  Val v;
  if (is_bool(t)) { v.b = s.coin(); return v; }
  if (is_str(t)) { v.text = gen_text(s, true, simple); return v; }
  if (is_vec(t)) {
    int n = s.chance(1, 30) ? s.in(5, 60) : s.in(1, 4);
    for (int i = 0; i < n; i++) {
      if (t == Ty::VStr) {
        static const vector<string> w = {"a", "bc", "x1", "0", "-q", "d.e", "é", "k=v", "A_B", "~", "u:v"};
        string e;
        int k = s.in(1, 3);
        for (int j = 0; j < k; j++) e += s.pick(w);
        v.elems.push_back(e);
      } else v.elems.push_back(gen_num(s, t));
    }
    return v;
  }
  v.text = gen_num(s, t);
  return v;
}
inline string plain_text(Ty t, Val const &v) { // how a user writes the value
  if (is_bool(t)) return v.b ? "true" : "false";
  if (!is_vec(t)) return v.text;
  string r;
  for (size_t i = 0; i < v.elems.size(); i++) r += (i ? "," : "") + v.elems[i];
  return r;
}
// what the library holds, as canonical text
inline string held(cmdr::vars::variable const &x, Ty t) {
  auto const &a = x.underlying_value();
  auto bad = [&] { return string("<held type ") + (a.has_value() ? a.type().name() : "none") + ">"; };
#define HOLD(T, EXPR) { if (auto *p = std::any_cast<T>(&a)) { auto const &v = *p; (void) v; return EXPR; } return bad(); }
#define HOLDV(T, EXPR) { if (auto *p = std::any_cast<std::vector<T>>(&a)) { string r = "["; for (auto const &v: *p) r += string(EXPR) + "\x1f"; return r + "]"; } return bad(); }
  switch (t) {
    case Ty::Bool: HOLD(bool, string(v ? "true" : "false"))
    case Ty::Int: HOLD(int, num(v))
    case Ty::Uint: HOLD(unsigned, num(v))
    case Ty::I16: HOLD(int16_t, num(v))
    case Ty::U16: HOLD(uint16_t, num(v))
    case Ty::Long: HOLD(long, num(v))
    case Ty::Ulong: HOLD(unsigned long, num(v))
    case Ty::LL: HOLD(long long, num(v))
    case Ty::ULL: HOLD(unsigned long long, num(v))
    case Ty::Flt: HOLD(float, fnum(v))
    case Ty::Dbl: HOLD(double, dnum(v))
    case Ty::Str: case Ty::CStr:
      if (auto *p = std::any_cast<std::string>(&a)) return *p;
      if (auto *p = std::any_cast<char const *>(&a)) return *p;
      return bad();
    case Ty::VInt: HOLDV(int, num(v))
    case Ty::VUint: HOLDV(unsigned, num(v))
    case Ty::VLong: HOLDV(long, num(v))
    case Ty::VDbl: HOLDV(double, dnum(v))
    case Ty::VStr: HOLDV(std::string, v)
  }
  return bad();
#undef HOLD
#undef HOLDV
}
inline std::any make_any(Ty t, Val const &v) {
  using V = std::any;
  auto ll = [](string const &x) { return strtoll(x.c_str(), nullptr, 10); };
  auto ull = [](string const &x) { return strtoull(x.c_str(), nullptr, 10); };
  switch (t) {
    case Ty::Bool: return V((v.b));
    case Ty::Int: return V(((int) ll(v.text)));
    case Ty::Uint: return V(((unsigned) ull(v.text)));
    case Ty::I16: return V(((int16_t) ll(v.text)));
    case Ty::U16: return V(((uint16_t) ull(v.text)));
    case Ty::Long: return V(((long) ll(v.text)));
    case Ty::Ulong: return V(((unsigned long) ull(v.text)));
    case Ty::LL: return V(((long long) ll(v.text)));
    case Ty::ULL: return V(((unsigned long long) ull(v.text)));
    case Ty::Flt: return V((strtof(v.text.c_str(), nullptr)));
    case Ty::Dbl: return V((strtod(v.text.c_str(), nullptr)));
    case Ty::Str: return V((v.text));
    case Ty::CStr: return V(((char const *) strdup(v.text.c_str())));
    case Ty::VInt: { vector<int> r; for (auto &e: v.elems) r.push_back((int) ll(e)); return V((r)); }
    case Ty::VUint: { vector<unsigned> r; for (auto &e: v.elems) r.push_back((unsigned) ull(e)); return V((r)); }
    case Ty::VLong: { vector<long> r; for (auto &e: v.elems) r.push_back((long) ll(e)); return V((r)); }
    case Ty::VDbl: { vector<double> r; for (auto &e: v.elems) r.push_back(strtod(e.c_str(), nullptr)); return V((r)); }
    case Ty::VStr: return V((v.elems));
  }
  return V((false));
}

// ------------------------------------------------------------------ program model
struct Cmd;
struct Flag {
  string lng, shr;
  vector<string> aliases, envs;
  Ty ty{Ty::Bool};
  Val def;
  bool implicit_default{}; // declared as opt{}
  bool required{}, hidden{}, builtin{};
  string toggle, group, desc, placeholder;
  bool on_hit{};
  Cmd *owner{};
  string path() const;
};
struct Cmd {
  string lng, shr;
  vector<string> aliases;
  vector<std::unique_ptr<Cmd>> subs;
  vector<std::unique_ptr<Flag>> flags;
  Cmd *owner{};
  bool hidden{}, builtin{};
  string group, desc, examples;
  bool has_invoke{true}, has_pre{}, has_post{};
  int rc{0}, pre_rc{0};
  int throws{0}, pre_throws{0}; // 0 none 1 std::runtime_error 2 int 3 cmdr_biz_error 4 a request for the manual screen
  bool leaf() const { return subs.empty(); }
  string path() const { return owner ? (owner->owner ? owner->path() + "." + lng : lng) : string(); }
  int depth() const { return owner ? owner->depth() + 1 : 0; }
};
inline string Flag::path() const { auto p = owner->path(); return p.empty() ? lng : p + "." + lng; }

struct Program {
  Cmd root;
  bool has_gpre{}, has_gpost{}, has_unhooked{}, has_postrun{};
  int gpre_rc{0}, unhooked_rc{0}, gpre_throws{0}, unhooked_throws{0};
  bool keep_generate{}; // the built-in `generate shell` stays what it is
  int form{0}; // which of the equivalent ways of declaring things is used: 0 the usual one, 1.. varied
  void walk(std::function<void(Cmd &)> const &f) { walk(root, f); }
  static void walk(Cmd &c, std::function<void(Cmd &)> const &f) { f(c); for (auto &s: c.subs) walk(*s, f); }
  vector<Cmd *> cmds() { vector<Cmd *> r; walk([&](Cmd &c) { r.push_back(&c); }); return r; }
  vector<Flag *> flags(bool builtin = false) { vector<Flag *> r; walk([&](Cmd &c) { for (auto &f: c.flags) if (builtin || !f->builtin) r.push_back(f.get()); }); return r; }
};
inline void add_builtins(Program &p) {
  struct B { char const *l, *s; vector<string> a; };
  static const vector<B> fl = {{"help", "h", {"?", "info", "usages"}}, {"version", "V", {"versions", "ver"}}, {"version-sim", "vs", {}}, {"build-info", "#", {"bdinfo"}}, {"verbose", "v", {}}, {"quiet", "q", {}}, {"feel-like", "bet", {"bet"}}, {"no-color", "nc", {}}, {"shell-completion", "sc", {}}, {"tree", "", {}}, {"debug", "D", {"debug-mode"}}, {"cli", "", {}}, {"trace", "tr", {"trace-mode"}}};
  for (auto const &b: fl) {
    auto f     = std::make_unique<Flag>();
    f->lng     = b.l;
    f->shr     = b.s;
    f->aliases = b.a;
    f->builtin = true;
    f->owner   = &p.root;
    p.root.flags.push_back(std::move(f));
  }
}
inline vector<vector<string>> const &builtin_cmds() {
  static const vector<vector<string>> r = {{"help", "h", "info", "usages"}, {"version", "V", "versions", "ver"}, {"print", "pr", "display"}, {"generate", "g", "gen"}};
  return r;
}
inline std::set<string> const &reserved_titles() {
  static const std::set<string> r = {"help", "h", "?", "info", "usages", "version", "V", "versions", "ver", "version-sim", "vs", "build-info", "#", "bdinfo", "verbose", "v", "quiet", "q", "feel-like", "bet", "no-color", "nc", "shell-completion", "sc", "tree", "debug", "D", "debug-mode", "cli", "trace", "tr", "trace-mode", "print", "pr", "display", "generate", "g", "gen", "doc", "d", "markdown", "pdf", "docx", "tex", "manual", "m", "man", "shell", "s", "sh", "comp", "completion"};
  return r;
}
inline string gen_word(Src &s) {
  static const vector<string> pool = {"server", "serve", "ser", "se", "start", "star", "stop", "st", "s1", "run", "runner", "r", "r-x", "build", "build-all", "b2", "cfg", "config", "con", "tag", "tags", "kv", "kv-store", "ms", "ms-tags", "list", "ls", "l", "add", "a", "ab", "abc", "rm", "rm-all", "x", "xy", "xyz", "up", "update", "upd", "port", "po", "host", "hostname", "retry", "re", "count", "c", "co", "enable", "ena", "dry-run", "dry", "foreground", "fore"};
  if (s.chance(3, 4)) return s.pick(pool);
  static const string al = "abcdefikz";
  string w;
  w += al[s.draw((unsigned) al.size())];
  int n = s.in(0, 9);
  static const string al2 = "abcdeikz019-_";
  for (int i = 0; i < n; i++) w += al2[s.draw((unsigned) al2.size())];
  if (s.chance(1, 15)) { // a long one
    int k = s.in(10, s.chance(1, 4) ? 70 : 30);
    static const string al3 = "abcdeikzABCXYZ019-_";
    while ((int) w.size() < k) w += al3[s.draw((unsigned) al3.size())];
  }
  while (w.size() > 1 && (w.back() == '-' || w.back() == '_')) w.pop_back();
  return w;
}
inline string gen_short(Src &s) {
  static const string al = "abcdefgijklmopruwxyzABCEFHKPRTXZ0123";
  string w;
  int n = s.chance(1, 3) ? s.in(2, 3) : 1;
  for (int i = 0; i < n; i++) w += al[s.draw((unsigned) al.size())];
  return w;
}
struct GenOpts {
  int max_depth{3}, max_subs{3}, max_flags{4};
  bool typed{true}, required{false}, hidden{false}, envs{false}, groups{false}, descs{false};
  bool flags_at_root{true};
  bool share_titles{true}; // reuse titles of ancestors' flags
  vector<Ty> types{Ty::Bool, Ty::Int, Ty::Str, Ty::CStr, Ty::Bool, Ty::Long, Ty::ULL, Ty::Dbl, Ty::Uint, Ty::I16, Ty::U16, Ty::Flt, Ty::LL, Ty::Ulong, Ty::VInt, Ty::VStr, Ty::VLong, Ty::VDbl, Ty::VUint};
};
inline bool uniq_title(std::set<string> &used, string &w, Src &s) {
  for (int i = 0; i < 4; i++) {
    if (!w.empty() && !reserved_titles().count(w) && used.insert(w).second) return true;
    w = gen_word(s) + (i ? num(i + (int) used.size()) : string());
  }
  return false;
}
inline void gen_flag(Src &s, GenOpts const &o, Cmd &c, std::set<string> &longs, std::set<string> &shorts) {
  auto f   = std::make_unique<Flag>();
  f->owner = &c;
  string w = gen_word(s);
  if (o.share_titles && c.owner && s.chance(1, 4)) {
    vector<Flag *> anc;
    for (auto *p = c.owner; p; p = p->owner) for (auto &x: p->flags) if (!x->builtin) anc.push_back(x.get());
    if (!anc.empty()) w = s.pick(anc)->lng;
  }
  if (!uniq_title(longs, w, s)) return;
  f->lng = w;
  if (s.chance(3, 4)) {
    string sh = gen_short(s);
    if (!reserved_titles().count(sh) && shorts.insert(sh).second) f->shr = sh;
  }
  int na = s.chance(1, 3) ? s.in(1, 3) : 0;
  for (int i = 0; i < na; i++) {
    string a = gen_word(s);
    if (uniq_title(longs, a, s)) f->aliases.push_back(a);
  }
  f->ty = o.typed ? s.pick(o.types) : Ty::Bool;
  if (is_bool(f->ty)) {
    f->implicit_default = s.chance(1, 2);
    f->def.b            = f->implicit_default ? false : s.coin();
  } else f->def = gen_val(s, f->ty, true);
  c.flags.push_back(std::move(f));
}
inline void gen_cmd(Src &s, GenOpts const &o, Cmd &c, int depth) {
  std::set<string> longs, shorts, cl, cs;
  if (c.owner || o.flags_at_root) {
    int nf = s.in(0, o.max_flags);
    for (int i = 0; i < nf; i++) gen_flag(s, o, c, longs, shorts);
  }
  int ns = depth >= o.max_depth ? 0 : s.in(depth == 0 ? 1 : 0, o.max_subs);
  for (int i = 0; i < ns; i++) {
    auto k   = std::make_unique<Cmd>();
    k->owner = &c;
    string w = gen_word(s);
    if (!uniq_title(cl, w, s)) continue;
    k->lng = w;
    if (s.chance(2, 3)) {
      string sh = gen_word(s).substr(0, (size_t) s.in(1, 2));
      if (sh != "-" && !reserved_titles().count(sh) && !cl.count(sh) && cs.insert(sh).second) k->shr = sh;
    }
    int na = s.chance(1, 2) ? s.in(1, 3) : 0;
    for (int j = 0; j < na; j++) {
      string a = gen_word(s);
      if (!cs.count(a) && uniq_title(cl, a, s)) k->aliases.push_back(a);
    }
    k->rc = s.chance(2, 3) ? s.in(1, 120) : 0;
    auto *p = k.get();
    c.subs.push_back(std::move(k));
    gen_cmd(s, o, *p, depth + 1);
  }
}
inline std::unique_ptr<Program> gen_program(Src &s, GenOpts const &o) {
  auto p = std::make_unique<Program>();
  add_builtins(*p);
  auto b = o;
  if (s.chance(1, 25)) { // a larger program: deep, wide, or with many flags
    switch (s.in(0, 2)) {
      case 0: b.max_depth += 4, b.max_subs = 1 + (s.chance(1, 3) ? 1 : 0); break;
      case 1: b.max_depth = 1, b.max_subs = 16; break;
      default: b.max_depth = std::min(2, b.max_depth), b.max_flags = b.max_flags ? b.max_flags + 12 : 0; break;
    }
  }
  gen_cmd(s, b, p->root, 0);
  if (p->root.subs.empty()) {
    auto k   = std::make_unique<Cmd>();
    k->owner = &p->root;
    k->lng   = "run";
    p->root.subs.push_back(std::move(k));
  }
  p->form = s.in(0, 6);
  return p;
}
inline string describe(Program &p) {
  string r;
  p.walk([&](Cmd &c) {
    r += string((size_t) c.depth() * 2, ' ') + (c.owner ? c.lng : "<app>");
    if (!c.shr.empty()) r += "|" + c.shr;
    for (auto &a: c.aliases) r += "|" + a;
    if (c.hidden) r += " hidden";
    r += " {";
    for (auto &f: c.flags) if (!f->builtin) {
      r += " --" + f->lng;
      for (auto &a: f->aliases) r += "|--" + a;
      if (!f->shr.empty()) r += "|-" + f->shr;
      r += string(":") + ty_name(f->ty) + "=" + pbt::vis(plain_text(f->ty, f->def));
      if (f->required) r += " required";
      if (f->hidden) r += " hidden";
      if (!f->toggle.empty()) r += " toggle:" + f->toggle;
      for (auto &e: f->envs) r += " env:" + e;
    }
    r += " }\n";
  });
  return r;
}

// ------------------------------------------------------------------ the real program
struct Event {
  string kind; // gpre pre invoke post gpost unhooked postrun flaghit
  string who;  // path of the command, or of the flag
  vector<string> args;
  bool operator==(Event const &o) const { return kind == o.kind && who == o.who && args == o.args; }
};
inline void throw_up(int kind) {
  if (kind == 1) throw std::runtime_error("thrown by the handler");
  if (kind == 2) throw 42;
  if (kind == 3) throw cmdr::exception::cmdr_biz_error(__FILE__, __LINE__, "biz error thrown by the handler");
  if (kind == 4) throw cmdr::opt::cmdr_requests_exception(cmdr::opt::Action::RequestManualScreen);
}
inline string show(Event const &e) {
  string r = e.kind + "(" + e.who;
  for (auto const &a: e.args) r += " " + pbt::vis(a);
  return r + ")";
}
inline string show(vector<Event> const &v) {
  string r = "[";
  for (auto const &e: v) r += (r.size() > 1 ? " " : "") + show(e);
  return r + "]";
}
inline string strip_app(string const &dk) { return dk.rfind("app.cli.", 0) == 0 ? dk.substr(8) : dk == "app.cli" ? string() : "?" + dk; }

struct Live {
  cmdr::app *cli{};
  Program *prog{};
  vector<Event> trace;
  std::map<Cmd *, cmdr::opt::cmd *> cmds;
  std::map<Flag *, cmdr::opt::arg *> flags;
  // result of the last run
  int rc{};
  string out, err;
  bool threw{}, missed{};
  string what;

  static cmdr::opt::sub_cmd mk_cmd(Live *self, Cmd &c) {
    cmdr::opt::sub_cmd sc;
    string l = c.lng, sh = c.shr;
    auto a = c.aliases;
    char const *shp = sh.empty() ? nullptr : sh.c_str();
    if (a.size() == 0) sc(l.c_str(), shp);
    else if (a.size() == 1) sc(l.c_str(), shp, a[0].c_str());
    else if (a.size() == 2) sc(l.c_str(), shp, a[0].c_str(), a[1].c_str());
    else sc(l.c_str(), shp, a[0].c_str(), a[1].c_str(), a[2].c_str());
    if (!c.group.empty()) sc.group(c.group.c_str());
    if (!c.desc.empty()) sc.description(c.desc.c_str());
    if (!c.examples.empty()) sc.examples(c.examples.c_str());
    if (c.hidden) sc.hidden(true);
    Cmd *m = &c;
    if (c.has_invoke)
      sc.on_invoke([self, m](cmdr::opt::cmd const &h, string_array const &r) {
        self->trace.push_back({"invoke", strip_app(h.dotted_key()), r});
        throw_up(m->throws);
        return m->rc;
      });
    if (c.has_pre)
      sc.on_pre_invoke([self, m](cmdr::opt::cmd const &h, string_array const &r) {
        self->trace.push_back({"pre", strip_app(h.dotted_key()), r});
        throw_up(m->pre_throws);
        return m->pre_rc;
      });
    if (c.has_post)
      sc.on_post_invoke([self](cmdr::opt::cmd const &h, string_array const &r) {
        self->trace.push_back({"post", strip_app(h.dotted_key()), r});
        return 99; // the result of a post-handler is ignored
      });
    return sc;
  }
  static cmdr::opt::opt mk_opt(Live *self, Flag &f) {
    using namespace cmdr::opt;
    auto dress = [&](cmdr::opt::opt &&o) -> cmdr::opt::opt {
      char const *shp = f.shr.empty() ? nullptr : f.shr.c_str();
      auto const &a   = f.aliases;
      if (a.size() == 0) o(f.lng.c_str(), shp);
      else if (a.size() == 1) o(f.lng.c_str(), shp, a[0].c_str());
      else if (a.size() == 2) o(f.lng.c_str(), shp, a[0].c_str(), a[1].c_str());
      else o(f.lng.c_str(), shp, a[0].c_str(), a[1].c_str(), a[2].c_str());
      if (!f.group.empty()) o.group(f.group.c_str());
      if (!f.desc.empty()) o.description(f.desc.c_str());
      if (!f.placeholder.empty()) o.placeholder(f.placeholder.c_str());
      if (f.hidden) o.hidden(true);
      if (f.required) o.required(true);
      if (!f.toggle.empty()) o.toggle_group(f.toggle.c_str());
      if (f.envs.size() == 2 && self->prog->form % 2) o.env_vars(f.envs[0].c_str(), f.envs[1].c_str());
      else if (f.envs.size() == 3 && self->prog->form % 2) o.env_vars(f.envs[0].c_str(), f.envs[1].c_str(), f.envs[2].c_str());
      else for (auto const &e: f.envs) o.env_vars(e.c_str());
      if (f.on_hit)
        o.on_hit([self](cmdr::opt::cmd const &, cmdr::opt::arg const &h, string_array const &) {
          self->trace.push_back({"flaghit", strip_app(h.dotted_key()), {}});
          return cmdr::opt::Action::OK;
        });
      return std::move(o);
    };
    if (f.implicit_default) return dress(cmdr::opt::opt{});
    auto const a = make_any(f.ty, f.def);
    switch (f.ty) {
#define MK(TYC, T) case TYC: return dress(cmdr::opt::opt{std::any_cast<T>(a)});
      MK(Ty::Bool, bool) MK(Ty::Int, int) MK(Ty::Uint, unsigned) MK(Ty::I16, int16_t) MK(Ty::U16, uint16_t)
      MK(Ty::Long, long) MK(Ty::Ulong, unsigned long) MK(Ty::LL, long long) MK(Ty::ULL, unsigned long long)
      MK(Ty::Flt, float) MK(Ty::Dbl, double) MK(Ty::Str, std::string) MK(Ty::CStr, char const *)
      MK(Ty::VInt, std::vector<int>) MK(Ty::VUint, std::vector<unsigned>) MK(Ty::VLong, std::vector<long>) MK(Ty::VDbl, std::vector<double>) MK(Ty::VStr, std::vector<std::string>)
#undef MK
    }
    return dress(cmdr::opt::opt{});
  }
  int nth{};
  template<class T>
  void declare_one(cmdr::opt::cmd &real, T &x) { // all of these declare the same
    auto *app = dynamic_cast<cmdr::app *>(&real);
    switch (prog->form ? (prog->form + nth++) % 7 : 0) {
    case 0: real += x; break;
    case 1: real + x; break;
    case 2: real += x.underlying(); break;
    case 3: real + x.underlying(); break;
    case 4: real.opt(x.get()); break;
    case 5: real.option([&](cmdr::opt::cmd &k) { k += x; }); break;
    default:
      if (app) *app += x;
      else real += x;
    }
  }
  void declare_cmd(cmdr::opt::cmd &real, Cmd &c) {
    cmds[&c] = &real;
    if (c.owner == nullptr) nth = 0;
    for (auto &f: c.flags) {
      if (f->builtin) continue;
      auto o = mk_opt(this, *f);
      declare_one(real, o);
      flags[f.get()] = real.last_added_arg();
    }
    for (auto &s: c.subs) {
      auto sc = mk_cmd(this, *s);
      declare_one(real, sc);
      declare_cmd(*real.last_added_command(), *s);
    }
  }
  void declare_into(cmdr::app &a, bool declare = true) {
    cli = &a;
    cmds.clear();
    flags.clear();
    // the built-in `generate shell` writes into /etc and the current directory: only record the call
    if (auto &g = a("generate"); g.valid() && !prog->keep_generate)
      if (auto &sh = g("shell"); sh.valid())
        sh.on_invoke([](cmdr::opt::cmd const &, string_array const &) { return 0; });
    if (declare) declare_cmd(a, prog->root);
    if (prog->has_gpre)
      a.set_global_pre_invoke_handler([this](cmdr::opt::cmd const &h, string_array const &r) {
        trace.push_back({"gpre", strip_app(h.dotted_key()), r});
        throw_up(prog->gpre_throws);
        return prog->gpre_rc;
      });
    if (prog->has_gpost)
      a.set_global_post_invoke_handler([this](cmdr::opt::cmd const &h, string_array const &r) {
        trace.push_back({"gpost", strip_app(h.dotted_key()), r});
        return 98;
      });
    if (prog->has_unhooked)
      a.set_global_on_command_not_hooked([this](cmdr::opt::cmd const &h, string_array const &r) {
        trace.push_back({"unhooked", strip_app(h.dotted_key()), r});
        throw_up(prog->unhooked_throws);
        return prog->unhooked_rc;
      });
    if (prog->has_postrun)
      a.set_global_on_post_run_handlers([this](cmdr::app const &) { trace.push_back({"postrun", "", {}}); });
  }
  explicit Live(Program &p, bool declare = true)
      : prog(&p) {
    declare_into(cmdr::app::create_new("pbt-app", "1.2.3", "an author", "(c) nobody", "a description", p.root.examples.c_str()), declare);
  }
  Live(Live const &) = delete;

  // run with everything the library writes to std::cout / std::cerr captured
  void run(vector<string> const &words) {
    vector<string> w{"pbt-app"};
    w.insert(w.end(), words.begin(), words.end());
    vector<char *> argv;
    for (auto &x: w) argv.push_back(x.data());
    argv.push_back(nullptr);
    trace.clear();
    threw = missed = false;
    what.clear();
    std::ostringstream o, e;
    auto *ob = std::cout.rdbuf(o.rdbuf());
    auto *eb = std::cerr.rdbuf(e.rdbuf());
    rc       = -777;
    try {
      rc = cli->run((int) w.size(), argv.data());
    } catch (cmdr::exception::required_flag_missed const &x) {
      threw = missed = true;
      what           = x.what();
    } catch (std::exception const &x) {
      threw = true;
      what  = x.what();
    } catch (...) {
      threw = true;
      what  = "?";
    }
    std::cout.rdbuf(ob);
    std::cerr.rdbuf(eb);
    std::cout.flags(std::ios::dec | std::ios::skipws);
    out = o.str();
    err = e.str();
  }
  string store_val(Flag &f) { return held(cli->get_for_cli(f.path()), f.ty); }
  string flag_val(Flag &f) { return held(*flags[&f]->default_value(), f.ty); }
  vector<Event> of_kind(std::initializer_list<char const *> ks) const {
    vector<Event> r;
    for (auto const &e: trace) for (auto const *k: ks) if (e.kind == k) r.push_back(e);
    return r;
  }
};

// ------------------------------------------------------------------ scope and reference matching
inline vector<Flag *> scope_of(Cmd *c, bool builtin = true) {
  vector<Flag *> r; // innermost first
  for (; c; c = c->owner) for (auto &f: c->flags) if (builtin || !f->builtin) r.push_back(f.get());
  return r;
}
inline bool has_long(Flag *f, string const &t) { return f->lng == t || std::find(f->aliases.begin(), f->aliases.end(), t) != f->aliases.end(); }
inline Flag *resolve_long(Cmd *c, string const &t) {
  for (; c; c = c->owner) for (auto &f: c->flags) if (has_long(f.get(), t)) return f.get();
  return nullptr;
}
inline Flag *resolve_short(Cmd *c, string const &t) {
  for (; c; c = c->owner) for (auto &f: c->flags) if (!f->shr.empty() && f->shr == t) return f.get();
  return nullptr;
}
// longest short title in scope which is a prefix of t
inline Flag *greedy_short(Cmd *c, string const &t, string &title) {
  Flag *best{};
  size_t n = 0;
  for (auto *f: scope_of(c)) if (!f->shr.empty() && f->shr.size() > n && t.compare(0, f->shr.size(), f->shr) == 0) { best = f; n = f->shr.size(); }
  if (best) title = best->shr;
  return best;
}
inline Flag *greedy_long(Cmd *c, string const &t, string &title) {
  Flag *best{};
  size_t n = 0;
  for (auto *f: scope_of(c)) {
    auto tryit = [&](string const &x) { if (x.size() > n && t.compare(0, x.size(), x) == 0) { best = f; n = x.size(); title = x; } };
    tryit(f->lng);
    for (auto &a: f->aliases) tryit(a);
  }
  return best;
}

// ------------------------------------------------------------------ composing command lines
struct Mention {
  Flag *f{};
  string title;
  bool is_long{};
  Val v;
  bool special{}; // written behind ~~
};
struct Line {
  vector<string> words;
  vector<Mention> mentions;
  vector<Cmd *> path;         // selected commands (without the root)
  vector<string> path_titles; // as typed
  vector<size_t> path_mentions, path_next; // per command: mentions made before it, first word behind it
  vector<size_t> mention_next;             // per mention: first word behind it
  vector<string> rest;        // positional words in order
  bool terminator{}, terminator_at_leaf{};
  Cmd *at{};
  int combined{}, negated{}, behind_value{};
  bool no_neg{};
};
inline bool spell_value_flag(Src &s, Line &L, Flag *f, string const &title, bool is_long, Val const &v) {
  string t      = plain_text(f->ty, v);
  bool special  = is_long && s.chance(1, 12);
  string prefix = special ? "~~" : is_long ? "--" : "-";
  bool listy    = is_vec(f->ty);
  if (listy && s.coin()) t = "[" + t + "]";
  vector<int> forms{1}; // 0: =value  1: next word  2: glued (short only)  3: ="value" (quoted)  4: next word, quoted
  bool safe_eq = !t.empty() && t.front() != '"' && t.front() != '\'' && t.back() != '"' && t.back() != '\'';
  if (safe_eq) forms.push_back(0);
  if (safe_eq && (f->ty == Ty::Str || f->ty == Ty::CStr)) forms.push_back(3);
  if (safe_eq && !is_long && t.front() != '=') forms.push_back(2);
  if ((f->ty == Ty::Str || f->ty == Ty::CStr) && t.find('"') == string::npos) forms.push_back(4);
  int form = s.pick(forms);
  string w = prefix + title;
  char q   = t.find('"') == string::npos ? '"' : '\'';
  if (form == 3 && t.find(q) != string::npos) form = 0;
  switch (form) {
    case 0: w += "=" + t; break;
    case 2: w += t; break;
    case 3: w += string("=") + q + t + q; break;
    default: break;
  }
  // the library prefers the longest title: the word must not be taken for another flag
  string got;
  Flag *g = is_long ? greedy_long(L.at, w.substr(2), got) : greedy_short(L.at, w.substr(1), got);
  if (g != f || got != title) return false;
  if (w == "--" || w == "~~") return false;
  L.words.push_back(w);
  if (form == 1) L.words.push_back(t);
  if (form == 4) L.words.push_back("\"" + t + "\"");
  L.mentions.push_back({f, title, is_long, v, special});
  return true;
}
inline bool usable_long(Cmd *at, Flag *f, string const &t) { return resolve_long(at, t) == f; }

// mention one or several flags in scope of L.at; `pool` restricts to some flags (empty: all non built-in)
inline bool add_mention(Src &s, Line &L, vector<Flag *> const &pool, bool simple_values = false, bool allow_combined = true) {
  if (pool.empty()) return false;
  Flag *f = s.pick(pool);
  vector<std::pair<string, bool>> spell;
  if (usable_long(L.at, f, f->lng)) spell.push_back({f->lng, true});
  if (!f->shr.empty() && resolve_short(L.at, f->shr) == f) spell.push_back({f->shr, false}), spell.push_back({f->shr, false});
  for (auto &a: f->aliases) if (usable_long(L.at, f, a)) spell.push_back({a, true});
  if (spell.empty()) return false;
  auto [title, is_long] = s.pick(spell);
  if (!is_bool(f->ty)) return spell_value_flag(s, L, f, title, is_long, gen_val(s, f->ty, simple_values));
  if (is_long) {
    Mention m{f, title, true, {}, s.chance(1, 12)};
    string w = (m.special ? "~~" : "--") + title;
    m.v.b = true;
    switch (s.in(0, 5)) {
      case 4: if (L.no_neg) break; w += "-"; m.v.b = false; L.negated++; break;
      case 5: w += "+"; break;
      default: break;
    }
    string got;
    if (greedy_long(L.at, w.substr(2), got) != f || got != title) return false;
    L.words.push_back(w);
    L.mentions.push_back(m);
    return true;
  }
  // short, possibly combined
  string w = "-";
  vector<Mention> ms;
  Flag *cur    = f;
  string ctitle = title;
  string lead  = s.chance(1, 12) ? "/" : "-";
  w            = lead;
  int n        = allow_combined && s.chance(1, 2) ? s.in(2, 4) : 1;
  int neg      = 0;
  for (int i = 0; i < n; i++) {
    if (i) {
      vector<Flag *> c;
      for (auto *x: pool) if (is_bool(x->ty) && !x->shr.empty() && resolve_short(L.at, x->shr) == x) c.push_back(x);
      if (c.empty()) break;
      cur    = s.pick(c);
      ctitle = cur->shr;
    }
    w += ctitle;
    Mention m{cur, ctitle, false, {}};
    m.v.b = true;
    switch (s.in(0, 5)) {
      case 4: if (L.no_neg) break; w += "-"; m.v.b = false; neg++; break;
      case 5: w += "+"; break;
      default: break;
    }
    ms.push_back(m);
  }
  // an attached value flag at the end of the group
  Flag *tail{};
  Val tv;
  string tail_text;
  bool tail_next = false;
  if (n > 1 && s.chance(1, 3)) {
    vector<Flag *> c;
    for (auto *x: pool) if (!is_bool(x->ty) && !x->shr.empty() && resolve_short(L.at, x->shr) == x) c.push_back(x);
    if (!c.empty()) {
      tail      = s.pick(c);
      tv        = gen_val(s, tail->ty, true);
      tail_text = plain_text(tail->ty, tv);
      w += tail->shr;
      if (tail_text.empty() || s.coin()) tail_next = true;
      else w += (s.coin() ? "=" : "") + tail_text;
    }
  }
  // flags behind the value of a whole number: -n12v is -n 12 -v
  vector<Mention> behind;
  string behind_text;
  if (tail && !tail_next && is_whole(tail->ty) && s.coin()) {
    vector<Flag *> c;
    for (auto *x: pool) if (is_bool(x->ty) && !x->shr.empty() && isalpha((unsigned char) x->shr[0]) && resolve_short(L.at, x->shr) == x) c.push_back(x);
    for (int i = s.in(1, 2); i > 0 && !c.empty(); i--) {
      auto *x = s.pick(c);
      Mention m{x, x->shr, false, {}};
      m.v.b = true;
      behind_text += x->shr;
      if (!L.no_neg && s.chance(1, 4)) behind_text += "-", m.v.b = false, neg++;
      behind.push_back(m);
    }
    w += behind_text;
  }
  Flag *last{}; // and a value in the next word: -n12vr 234
  Val lv;
  if (!behind.empty() && s.chance(1, 3)) {
    vector<Flag *> c;
    for (auto *x: pool) if (!is_bool(x->ty) && !x->shr.empty() && isalpha((unsigned char) x->shr[0]) && resolve_short(L.at, x->shr) == x) c.push_back(x);
    if (!c.empty()) last = s.pick(c), lv = gen_val(s, last->ty, true), w += last->shr, behind_text += last->shr;
  }
  // reference parse of the combined word
  {
    string t = w.substr(1);
    size_t pos = 0, k = 0;
    while (pos < t.size() && k < ms.size()) {
      string got;
      Flag *g = greedy_short(L.at, t.substr(pos), got);
      if (g != ms[k].f || got != ms[k].title) return false;
      pos += got.size();
      if (pos < t.size() && (t[pos] == '-' || t[pos] == '+')) {
        // the sign must be ours: a flag never begins with one
        pos++;
      }
      k++;
    }
    if (k != ms.size()) return false;
    if (tail) {
      string got;
      if (greedy_short(L.at, t.substr(pos), got) != tail || got != tail->shr) return false;
      pos = t.size() - behind_text.size();
      for (auto &m: behind) {
        if (greedy_short(L.at, t.substr(pos), got) != m.f || got != m.title) return false;
        pos += got.size() + (m.v.b ? 0 : 1);
      }
      if (last && (greedy_short(L.at, t.substr(pos), got) != last || got != last->shr)) return false;
    } else if (pos != t.size()) return false;
  }
  L.words.push_back(w);
  for (auto &m: ms) L.mentions.push_back(m);
  if (tail) {
    L.mentions.push_back({tail, tail->shr, false, tv});
    if (tail_next) L.words.push_back(tail_text);
    for (auto &m: behind) L.mentions.push_back(m);
    if (last) L.mentions.push_back({last, last->shr, false, lv}), L.words.push_back(plain_text(last->ty, lv));
  }
  if (ms.size() + (tail ? 1 : 0) > 1) L.combined++;
  L.negated += neg;
  if (!behind.empty()) L.behind_value++;
  return true;
}
// long titles and aliases are looked up before short titles
inline Cmd *resolve_cmd(Cmd *at, string const &w) {
  for (auto &k: at->subs) if (k->lng == w || std::find(k->aliases.begin(), k->aliases.end(), w) != k->aliases.end()) return k.get();
  for (auto &k: at->subs) if (!k->shr.empty() && k->shr == w) return k.get();
  return nullptr;
}
inline void add_cmd_word(Src &s, Line &L, Cmd *c) {
  vector<string> t{c->lng};
  if (!c->shr.empty() && resolve_cmd(c->owner, c->shr) == c) t.push_back(c->shr);
  for (auto &a: c->aliases) t.push_back(a);
  string w = s.pick(t);
  L.words.push_back(w);
  L.path.push_back(c);
  L.path_titles.push_back(w);
  L.path_mentions.push_back(L.mentions.size());
  L.path_next.push_back(L.words.size());
  L.at = c;
}
inline vector<Cmd *> path_to(Cmd *c) {
  vector<Cmd *> r;
  for (; c->owner; c = c->owner) r.insert(r.begin(), c);
  return r;
}
// a random command; leaves are preferred
inline Cmd *pick_target(Src &s, Program &p, bool leaf_only) {
  vector<Cmd *> c;
  for (auto *x: p.cmds()) if (x->owner && (x->leaf() || !leaf_only)) c.push_back(x);
  return s.pick(c);
}
inline string gen_positional(Src &s, bool after_terminator) {
  static const vector<string> w = {"a.txt", "file", "1", "x y", "é", "=", "k=v", "[1,2]", "a-b", "+x", "~", "run", "server", "%d", "\"q\"", "'", "C:\\x", "*", "."};
  static const vector<string> d = {"-x", "--", "--flag=1", "-", "", "~~tree", "/h", "--help", "-h", "-vvv", "--version"};
  if (after_terminator && s.chance(1, 2)) return s.pick(d);
  if (s.chance(1, 30)) return s.pick(w) + s.str("abcdefgh XYZ019.,:=[]'\"-", 10, 300); // a long one
  return s.pick(w);
}
struct LineOpts {
  int mentions{4};
  bool positionals{false}, terminator{false}, simple_values{false}, leaf_only{true};
  std::function<bool(Flag *)> flag_ok{};
  bool no_neg{false};
  std::function<void(Src &, Line &)> inject{}; // called between complete units, before the terminator
};
inline Line compose(Src &s, Program &p, LineOpts const &o, Cmd *target = nullptr) {
  Line L;
  L.at = &p.root;
  L.no_neg = o.no_neg;
  if (!target) target = pick_target(s, p, o.leaf_only);
  auto path = path_to(target);
  int many = s.chance(1, 30) ? 8 : 1; // a long command line
  auto some = [&](int maxn) {
    int n = s.in(0, maxn * many);
    for (int i = 0; i < n; i++) {
      vector<Flag *> pool;
      for (auto *f: scope_of(L.at, false)) if (!o.flag_ok || o.flag_ok(f)) pool.push_back(f);
      size_t before = L.words.size(), mb = L.mentions.size();
      add_mention(s, L, pool, o.simple_values);
      L.mention_next.resize(L.mentions.size(), L.words.size());
      // of a group of short flags only the last one takes the next word
      if (L.words.size() == before + 2) for (size_t k = mb; k + 1 < L.mentions.size(); k++) L.mention_next[k] = before + 1;
      if (o.inject) o.inject(s, L);
    }
    if (o.inject) o.inject(s, L);
  };
  for (auto *c: path) {
    some(s.chance(1, 2) ? 1 : 0);
    add_cmd_word(s, L, c);
  }
  int k = o.positionals && target->leaf() ? s.in(0, 4 * many) : 0;
  some(o.mentions);
  for (int i = 0; i < k; i++) {
    string w = gen_positional(s, false);
    L.words.push_back(w);
    L.rest.push_back(w);
    some(s.chance(1, 2) ? 2 : 0);
  }
  if (o.terminator && s.chance(1, 2)) {
    L.words.push_back("--");
    L.terminator = true;
    int n        = s.in(0, 4 * many);
    for (int i = 0; i < n; i++) {
      string w = gen_positional(s, true);
      L.words.push_back(w);
      L.rest.push_back(w);
    }
  }
  return L;
}
inline std::map<Flag *, Val> final_values(Line const &L) {
  std::map<Flag *, Val> r;
  for (auto const &m: L.mentions) r[m.f] = m.v;
  return r;
}
inline string show_words(vector<string> const &w) {
  string r;
  for (auto const &x: w) r += " " + pbt::vis(x);
  return r;
}
} // namespace cm
