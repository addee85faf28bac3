// Checks S01 S02 S03: the option store and the variables in it.
// FLAGS:
#include "pbt.hh"
#include <cmdr11/cmdr11.hh>
#include <cmath>
using pbt::Src;
using pbt::Case;
using std::string;
using std::vector;
using cmdr::vars::variable;
using Store = cmdr::vars::store;
template<class T>
static string num(T x) { return std::to_string(x); }

// ------------------------------------------------------------------ values
// a generated value: how to assign it, its type name and its printed text
struct V {
  std::any a; // as it is kept in the store
  string text, type;
};
template<class T>
static string plain(T const &x) { std::ostringstream os; os << x; return os.str(); }
template<class T>
static string listed(vector<T> const &v) {
  string r = "[";
  for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + plain((T) v[i]);
  return r + "]";
}
static string qtext(string const &s) {
  string r = "\"";
  for (char c: s) {
    if (c == '"' || c == '\\') r += '\\';
    r += c;
  }
  return r + "\"";
}
static char const *keep(string const &s) { // texts live forever: the store keeps pointers to literals
  static std::set<string> pool;
  return pool.insert(s).first->c_str();
}
static const char *TXT = "ab z09_-./:=,'\"\\[]{}\xc3\xa9";
template<class T>
static T gen_num(Src &s) {
  if constexpr (std::is_floating_point_v<T>) {
    switch (s.in(0, 5)) {
    case 0: return (T) 0;
    case 1: return (T) s.integer(-1000000 + 1, 1000000 - 1);
    case 2: return (T) s.integer(-999, 999) / (T) 8;
    case 3: return (T) std::strtod((num(s.integer(-99999, 99999)) + "e" + num(s.in(-30, 25))).c_str(), nullptr);
    case 4: return (T) 0.1;
    default: return (T) 1e-7;
    }
  } else return (T) s.integer((int64_t) (std::is_signed_v<T> ? (int64_t) std::numeric_limits<T>::min() : 0), (int64_t) std::min<uint64_t>((uint64_t) std::numeric_limits<T>::max(), (uint64_t) INT64_MAX)) + (T) (std::is_same_v<T, uint64_t> && s.chance(1, 4) ? (1ull << 63) : 0);
}
template<class T>
static vector<T> gen_list(Src &s, int maxn = 4) {
  vector<T> v;
  for (int i = 0, n = s.in(0, s.chance(1, 40) ? 60 : maxn); i < n; i++) v.push_back(gen_num<T>(s));
  return v;
}
static int const KINDS = 16;
static V gen_value(Src &s) {
  auto mk = [](auto x, string t) { return V{x, t, cmdr::debug::demangle(typeid(x).name())}; };
  switch (s.in(0, KINDS - 1)) {
  case 0: { bool b = s.coin(); return mk(b, b ? "true" : "false"); }
  case 1: { auto x = gen_num<int>(s); return mk(x, plain(x)); }
  case 2: { auto x = gen_num<unsigned>(s); return mk(x, plain(x)); }
  case 3: { auto x = gen_num<long>(s); return mk(x, plain(x)); }
  case 4: { auto x = gen_num<uint64_t>(s); return mk(x, plain(x)); }
  case 5: { auto x = gen_num<double>(s); return mk(x, plain(x)); }
  case 6: { auto x = s.str(TXT, 0, s.chance(1, 30) ? 400 : 12); return mk(x, qtext(x)); }
  case 7: { auto x = s.str(TXT, 0, s.chance(1, 30) ? 400 : 12); return mk(keep(x), qtext(x)); }
  case 8: { auto x = gen_list<int>(s); return mk(x, listed(x)); }
  case 9: { vector<string> x; for (int i = 0, n = s.in(0, s.chance(1, 40) ? 40 : 3); i < n; i++) x.push_back(s.str("abz 9", 0, 5)); return mk(x, listed(x)); }
  case 10: { auto x = gen_num<int16_t>(s); return mk(x, plain(x)); }
  case 11: { auto x = gen_num<float>(s); return mk(x, plain(x)); }
  case 12: { auto x = gen_list<double>(s); return mk(x, listed(x)); }
  case 13: { vector<bool> x; for (int i = 0, n = s.in(0, s.chance(1, 20) ? 150 : 3); i < n; i++) x.push_back(s.coin()); string t = "["; for (size_t i = 0; i < x.size(); i++) t += (i ? "," : "") + string(x[i] ? "1" : "0"); for (auto &ch: t) (void) ch; return V{x, "", cmdr::debug::demangle(typeid(x).name())}; }
  case 14: { std::complex<double> x{(double) s.in(1, 9), (double) s.in(1, 9)}; return mk(x, plain(x.real()) + "+" + plain(x.imag()) + "i"); }
  default: { auto x = gen_num<int64_t>(s); return mk((long long) x, plain(x)); }
  }
}
template<class T>
static bool holds(variable const &v, std::any const &a) {
  return v.type() == typeid(T) && std::any_cast<T>(v.underlying_value()) == std::any_cast<T>(a);
}
// the stored value is exactly the assigned one: type and content
static bool same(variable const &v, V const &want) {
  auto const &a = want.a;
  auto const &t = a.type();
  if (v.type() != t) return false;
  if (t == typeid(char const *)) return string(std::any_cast<char const *>(v.underlying_value())) == std::any_cast<char const *>(a);
  return holds<bool>(v, a) || holds<int>(v, a) || holds<unsigned>(v, a) || holds<long>(v, a) || holds<uint64_t>(v, a) || holds<double>(v, a) || holds<string>(v, a)
      || holds<vector<int>>(v, a) || holds<vector<string>>(v, a) || holds<int16_t>(v, a) || holds<float>(v, a) || holds<vector<double>>(v, a) || holds<vector<bool>>(v, a)
      || holds<std::complex<double>>(v, a) || holds<long long>(v, a);
}
// f(value as its own type)
template<class F>
static void with(V const &v, F f) {
  auto const &a = v.a;
#define W(...) if (a.type() == typeid(__VA_ARGS__)) return f(std::any_cast<__VA_ARGS__>(a));
  W(bool) W(int) W(unsigned) W(long) W(uint64_t) W(double) W(string) W(char const *) W(vector<int>) W(vector<string>) W(int16_t) W(float) W(vector<double>) W(vector<bool>) W(std::complex<double>) W(long long)
#undef W
  abort();
}
static string show(variable const &v) { return cmdr::debug::demangle(v.type().name()) + " " + v.as_string(); }
static string show(V const &v) { return v.type + " " + v.text; }

// ------------------------------------------------------------------ keys
static string gen_key(Src &s, vector<string> const &known, bool odd) {
  static const vector<string> seg = {"a", "b", "c", "app", "cli", "server", "a1", "ab", "x-y", "zz_9", "A"};
  if (!known.empty() && s.chance(2, 5)) {
    auto k = s.pick(known);
    if (s.chance(1, 3)) return k;
    if (s.chance(1, 2)) { // a parent
      auto p = k.rfind('.');
      if (p != string::npos && p > 0) return k.substr(0, p);
    }
    return k + "." + s.pick(seg);
  }
  string r;
  for (int i = 0, n = s.in(1, s.chance(1, 25) ? 20 : 5); i < n; i++) r += (i ? "." : "") + (odd && s.chance(1, 20) ? string{} : s.chance(1, 10) ? s.str("abcdefghij", 1, s.chance(1, 10) ? 80 : 24) : s.pick(seg));
  return r;
}
using Model = std::map<string, V>;
static void check_all(Store &st, Model const &m, Model const &read, vector<string> const &probes, string const &log) {
  Store const &cst = st;
  for (auto const &[k, v]: read) {
    PBT_CHECK(same(st.get_raw(k), v), k << " reads as " << show(st.get_raw(k)) << ", assigned was " << show(v) << "\n" << log);
    PBT_CHECK(same(cst.get_raw(k.c_str()), v), k << " reads as " << show(cst.get_raw(k.c_str())) << " (const), assigned was " << show(v) << "\n" << log);
    if (!v.text.empty()) PBT_CHECK(st.get_raw(k).as_string() == v.text, k << " prints as " << st.get_raw(k).as_string() << ", expected " << v.text << "\n" << log);
  }
  for (auto const &k: probes) {
    bool known = m.count(k) != 0;
    PBT_CHECK(st.has("", k.c_str()) == known && st.has(nullptr, k.c_str()) == known, "has(" << k << ") says " << st.has("", k.c_str()) << ", expected " << known << "\n" << log);
    if (!known) {
      PBT_CHECK(st.get_raw(k).empty() && !st.get_raw(k).has_value(), k << " was never assigned and reads as " << show(st.get_raw(k)) << "\n" << log);
      PBT_CHECK(cst.get_raw(k).empty(), k << " was never assigned\n" << log);
    } else PBT_CHECK(st.get_raw(k).has_value(), k << "\n" << log);
    for (size_t p = k.find('.'); p != string::npos; p = k.find('.', p + 1)) {
      if (p == 0 || p + 1 == k.size()) continue;
      string a = k.substr(0, p), b = k.substr(p + 1);
      PBT_CHECK(st.has(a.c_str(), b.c_str()) == known, "has(" << a << ", " << b << ") says " << st.has(a.c_str(), b.c_str()) << ", expected " << known << "\n" << log);
      PBT_CHECK(&st.get_raw_p(a, b) == &st.get_raw(k) && &st.get_raw_p(a.c_str(), b.c_str()) == &st.get_raw(k) && &cst.get_raw_p(a, b) == &cst.get_raw(k) && &cst.get_raw_p(a.c_str(), b.c_str()) == &cst.get_raw(k), "access by " << a << " + " << b << " is not the access by " << k << "\n" << log);
      if (known) PBT_CHECK(same(st.get_raw_p(a, b), m.at(k)), a << " + " << b << " reads as " << show(st.get_raw_p(a, b)) << "\n" << log);
    }
  }
}
static void c_s01(Src &s, Case &c) {
  Store st;
  Model m;
  vector<string> known;
  string log;
  int n = s.in(1, s.chance(1, 40) ? 120 : 25), over = 0, through = 0;
  for (int i = 0; i < n; i++) {
    auto key = gen_key(s, known, true);
    V v      = gen_value(s);
    string how;
    size_t cut = key.find('.');
    if (cut == 0 || cut == string::npos || cut + 1 == key.size()) cut = string::npos;
    switch (s.in(0, 7)) {
    case 0:
    case 1: how = "set_raw"; with(v, [&](auto x) { st.set_raw(key.c_str(), x); }); break;
    case 2: how = "set_raw(rvalue)"; with(v, [&](auto x) { st.set_raw(key.c_str(), std::move(x)); }); break;
    case 3: how = "set_raw(variable&)"; { variable x{v.a}; st.set_raw(key.c_str(), x); } break;
    case 4: how = "set_raw(variable&&)"; { variable x{v.a}; st.set_raw(key.c_str(), std::move(x)); } break;
    case 5:
      if (cut == string::npos) how = "set_raw_p('', k)", with(v, [&](auto x) { st.set_raw_p("", key.c_str(), x); });
      else how = "set_raw_p(" + key.substr(0, cut) + ", ...)", with(v, [&](auto x) { st.set_raw_p(key.substr(0, cut).c_str(), key.substr(cut + 1).c_str(), x); });
      break;
    case 6:
      how = "set_raw_p(variable)";
      {
        variable x{v.a};
        string a = cut == string::npos ? "" : key.substr(0, cut), b = cut == string::npos ? key : key.substr(cut + 1);
        if (s.coin()) st.set_raw_p(a.c_str(), b.c_str(), x);
        else st.set_raw_p(a.c_str(), b.c_str(), std::move(x));
      }
      break;
    default:
      how = "root().set";
      with(v, [&](auto x) { st.root().set(key.c_str(), x); });
    }
    log += how + " '" + key + "' = " + show(v) + "\n";
    if (m.count(key)) over++;
    for (auto const &k: known) if (key.size() > k.size() && key.compare(0, k.size() + 1, k + ".") == 0) { through++; break; }
    m[key] = v;
    known.push_back(key);
    if (s.chance(1, 40)) {
      log += "reset\n";
      st.reset();
      m.clear();
    }
    vector<string> probes{key, gen_key(s, known, true), s.pick(known)};
    if (auto p = key.rfind('.'); p != string::npos && p) probes.push_back(key.substr(0, p)), probes.push_back(key.substr(p + 1));
    check_all(st, m, s.chance(1, 3) || i + 1 == n ? m : m.count(key) ? Model{{key, v}} : Model{}, probes, log);
  }
  // reading with another type is an error, not a wrong value
  for (auto const &[k, v]: m) {
    auto &x = st.get_raw(k);
    bool threw = false;
    try {
      if (v.a.type() == typeid(int)) (void) x.as<long>();
      else (void) x.as<int>();
    } catch (std::exception const &) { threw = true; }
    PBT_CHECK(threw, "reading " << k << " (" << show(v) << ") as another type is not refused\n" << log);
    char const *cs = x.as<char const *>();
    string t       = v.a.type() == typeid(string) ? std::any_cast<string>(v.a) : v.a.type() == typeid(char const *) ? std::any_cast<char const *>(v.a) : string{};
    PBT_CHECK(cs && string(cs) == t, "as<char const *>() of " << k << " gives " << pbt::vis(cs) << "\n" << log);
  }
  c.note(log);
  c.nontrivial = over > 0 && through > 0;
  if (over) c.label("overwriting");
  if (through) c.label("through a key with a value");
}
static pbt::Reg r_s01({"S01", "history", "overwrites a key and passes through a key that holds a value", 30000, 400000, c_s01});

// the same store behind an application
static void c_s01app(Src &s, Case &c) {
  auto &app = cmdr::app::create_new("pbt-app", "1.0", "me", "(c)", "d", "e");
  Model m;
  vector<string> known;
  string log, prefix = "app";
  for (int i = 0, n = s.in(1, s.chance(1, 40) ? 60 : 10); i < n; i++) {
    if (s.chance(1, 8)) { prefix = s.pick(vector<string>{"app", "my", "x.y"}); app.store_prefix(prefix.c_str()); log += "store_prefix " + prefix + "\n"; }
    auto key = gen_key(s, known, false);
    V v      = gen_value(s);
    int how  = s.in(0, 3);
    if (how == 0) with(v, [&](auto x) { app.set(key.c_str(), x); });
    else if (how == 1) { variable x{v.a}; app.set(key.c_str(), x); }
    else if (how == 2) { variable x{v.a}; app.set(key.c_str(), std::move(x)); }
    else with(v, [&](auto x) { app.store().set_raw_p(prefix.c_str(), key.c_str(), x); });
    log += "set '" + key + "' = " + show(v) + "\n";
    m[prefix + "." + key] = v;
    known.push_back(key);
  }
  c.note(log);
  for (auto const &[k, v]: m) PBT_CHECK(same(app.store().get_raw(k), v), k << " reads as " << show(app.store().get_raw(k)) << ", assigned was " << show(v) << "\n" << log);
  known.push_back(gen_key(s, {}, false));
  for (auto const &k: known) {
    bool have = m.count(prefix + "." + k) != 0;
    if (!have && (k == "cli" || k.rfind("cli.", 0) == 0)) continue; // where the built-in flags live
    PBT_CHECK(app.has(k.c_str()) == have, "has(" << k << ") says " << app.has(k.c_str()) << "\n" << log);
    PBT_CHECK(app.get(k).has_value() == have && app.get(k.c_str()).has_value() == have, "get(" << k << ")\n" << log);
    if (have) PBT_CHECK(same(app.get(k), m[prefix + "." + k]), k << " reads as " << show(app.get(k)) << "\n" << log);
  }
  c.nontrivial = m.size() >= 3;
}
static pbt::Reg r_s01a({"S01", "application", "at least three keys", 24000, 96000, c_s01app});

// ------------------------------------------------------------------ S03
static vector<std::pair<string, string>> tree_lines(string const &text, bool &bad) { // dotted path -> value text
  vector<std::pair<string, string>> r;
  vector<string> stack;
  std::istringstream is(text);
  string l;
  std::getline(is, l); // title
  while (std::getline(is, l)) {
    size_t ind = l.find_first_not_of(' ');
    size_t col = l.find(": ");
    if (ind == string::npos || col == string::npos || ind % 2 || ind / 2 > stack.size()) { bad = true; return r; }
    stack.resize(ind / 2);
    stack.push_back(l.substr(ind, col - ind));
    string k;
    for (size_t i = 0; i < stack.size(); i++) k += (i ? "." : "") + stack[i];
    r.emplace_back(k, l.substr(col + 2));
  }
  return r;
}
static string strip_ansi(string const &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
      i += 2;
      while (i < s.size() && !isalpha((unsigned char) s[i])) i++;
      continue;
    }
    r += s[i];
  }
  return r;
}
static string show(vector<std::pair<string, string>> const &v) {
  string r;
  for (auto const &[k, t]: v) r += "  " + k + " => " + t + "\n";
  return r;
}
using Node = std::pair<string, Store::node_pointer>;
static void c_s03(Src &s, Case &c) {
  Store st;
  Model m;
  vector<string> known;
  string log;
  for (int i = 0, n = s.in(0, s.chance(1, 40) ? 120 : 20); i < n; i++) {
    auto key = gen_key(s, known, false);
    V v      = gen_value(s);
    if (v.text.empty()) continue; // vector<bool>
    with(v, [&](auto x) { st.set_raw(key.c_str(), x); });
    log += key + " = " + show(v) + "\n";
    m[key] = v;
    known.push_back(key);
  }
  c.note(log);
  bool types = s.coin();
  st.set_dump_with_type_name(types);
  auto expect = [&](string const &prefix, std::function<bool(string const &)> keepk) {
    vector<std::pair<string, string>> r;
    for (auto const &[k, v]: m) {
      if (!prefix.empty() && k.compare(0, prefix.size() + 1, prefix + ".") != 0) continue;
      auto rel = prefix.empty() ? k : k.substr(prefix.size() + 1);
      if (keepk(rel)) r.emplace_back(rel, v.text);
    }
    return r;
  };
  auto all = [](string const &) { return true; };
  auto walk = [&](Store::node *start) {
    vector<std::pair<string, string>> r;
    st.walk_by_full_keys([&](Node const &p) { r.emplace_back(p.first, p.second->as_string()); }, start);
    return r;
  };
  auto want = expect("", all);
  auto got  = walk(nullptr);
  PBT_CHECK(got == want, "the walk visits\n" << show(got) << "expected\n" << show(want) << log);
  // a filter: keys containing a letter, or short keys
  string letter = s.pick(vector<string>{"a", "b", "server", "x", "."});
  auto rejects  = [&](string const &k) { return k.find(letter) != string::npos; };
  bool filtered = s.coin();
  // key dump
  auto keydump = [&](bool filter, Store::node *start) {
    std::ostringstream os;
    if (filter) st.dump_full_keys_f(os, [&](Node const &p) { return !rejects(p.first); }, "T", start);
    else if (s.coin()) st.dump_full_keys(os, "T", start);
    else st.dump_full_keys_f(os, nullptr, "T", start);
    vector<std::pair<string, string>> r;
    std::istringstream is(strip_ansi(os.str()));
    string l;
    std::getline(is, l);
    while (std::getline(is, l)) {
      auto col = l.find(" : ");
      PBT_CHECK(l.rfind(" - ", 0) == 0 && col != string::npos, "line of the key dump: " << pbt::vis(l) << "\n" << log);
      r.emplace_back(l.substr(3, col - 3), l.substr(col + 3));
    }
    return r;
  };
  auto kd = keydump(filtered, nullptr);
  auto kw = filtered ? expect("", [&](string const &k) { return !rejects(k); }) : want;
  PBT_CHECK(kd == kw, "the key dump shows\n" << show(kd) << "expected\n" << show(kw) << log);
  // tree dump: every node, inner nodes without value as {}
  auto treewant = [&](string const &prefix, bool filter, bool with_types) {
    std::map<string, string> nodes;
    for (auto const &[k, v]: expect(prefix, all))
      for (size_t p = k.find('.');; p = k.find('.', p + 1)) {
        nodes.insert({k.substr(0, p), ""});
        if (p == string::npos) break;
      }
    vector<std::pair<string, string>> r;
    for (auto const &[k, v]: nodes) {
      bool drop = false;
      if (filter)
        for (size_t p = k.find('.');; p = k.find('.', p + 1)) {
          if (rejects(k.substr(0, p))) drop = true;
          if (p == string::npos) break;
        }
      if (drop) continue;
      auto full = prefix.empty() ? k : prefix + "." + k;
      auto it   = m.find(full);
      string t  = it == m.end() ? "{}" : it->second.text;
      if (with_types) t += " (" + (it == m.end() ? string("void") : cmdr::debug::demangle(it->second.a.type().name())) + ")";
      r.emplace_back(k, t);
    }
    std::sort(r.begin(), r.end());
    return r;
  };
  auto treedump = [&](bool plainly, bool filter, Store::node *start) {
    std::ostringstream os;
    if (plainly) st.dump_tree(os, "T", start);
    else if (filter) st.dump_tree_f(os, [&](Node const &p) { return !rejects(p.first); }, "T", start);
    else st.dump_tree_f(os, nullptr, "T", start);
    bool bad = false;
    auto r   = tree_lines(strip_ansi(os.str()), bad);
    PBT_CHECK(!bad, "the tree dump is not a tree:\n" << strip_ansi(os.str()) << log);
    std::sort(r.begin(), r.end());
    return r;
  };
  bool plainly = s.chance(1, 3);
  auto td = treedump(plainly, filtered && !plainly, nullptr), tw = treewant("", filtered && !plainly, types && !plainly);
  PBT_CHECK(td == tw, "the tree dump shows\n" << show(td) << "expected\n" << show(tw) << log);
  // sub-trees
  string prefix = gen_key(s, known, false);
  if (!known.empty() && s.chance(3, 4)) { // mostly one which exists
    prefix = s.pick(known);
    vector<size_t> dots;
    for (size_t p = 0; (p = prefix.find('.', p + 1)) != string::npos;) dots.push_back(p);
    if (!dots.empty()) prefix = prefix.substr(0, s.pick(dots));
  }
  bool have     = false;
  for (auto const &[k, v]: m) have = have || k == prefix || k.compare(0, prefix.size() + 1, prefix + ".") == 0;
  auto sub = st.subtree(prefix.c_str());
  c.label(have ? "sub-tree" : "no sub-tree");
  if (!have) PBT_CHECK(sub && sub->is_null(), "the sub-tree of " << prefix << ", which does not exist, is not the null node\n" << log);
  else {
    PBT_CHECK(sub && !sub->is_null(), "there is no sub-tree for " << prefix << "\n" << log);
    auto sg = walk(sub.get()), sw = expect(prefix, all);
    PBT_CHECK(sg == sw, "the sub-tree of " << prefix << " holds\n" << show(sg) << "expected\n" << show(sw) << log);
    auto sk = keydump(false, sub.get());
    PBT_CHECK(sk == sw, "the key dump of the sub-tree of " << prefix << " shows\n" << show(sk) << "expected\n" << show(sw) << log);
    auto sd = treedump(true, false, sub.get()), sdw = treewant(prefix, false, false);
    PBT_CHECK(sd == sdw, "the tree dump of the sub-tree of " << prefix << " shows\n" << show(sd) << "expected\n" << show(sdw) << log);
    PBT_CHECK(sub->has_value() == (m.count(prefix) != 0), "the sub-tree node of " << prefix << " reads as " << sub->as_string() << "\n" << log);
    if (m.count(prefix)) PBT_CHECK(same(*sub, m[prefix]), prefix << "\n" << log);
    for (auto const &[k, t]: sw) {
      auto const &full = m[prefix + "." + k];
      PBT_CHECK(same(sub->get_raw(k), full) && sub->has("", k.c_str()), "reading " << k << " from the sub-tree of " << prefix << "\n" << log);
    }
    // a change of an existing key is visible from both sides
    if (!sw.empty()) {
      auto k = s.pick(sw).first;
      V v    = gen_value(s);
      if (s.coin()) with(v, [&](auto x) { st.set_raw((prefix + "." + k).c_str(), x); });
      else with(v, [&](auto x) { sub->set(k.c_str(), x); });
      log += "then " + k + " in " + prefix + " = " + show(v) + "\n";
      PBT_CHECK(same(sub->get_raw(k), v) && same(st.get_raw(prefix + "." + k), v), "the change of " << k << " in " << prefix << " is not visible from both sides\n" << log);
      m[prefix + "." + k] = v;
      // and through a reference
      V v2 = gen_value(s);
      with(v2, [&](auto x) { st.get_raw(prefix + "." + k) = x; });
      PBT_CHECK(same(sub->get_raw(k), v2) && same(st.get_raw(prefix + "." + k), v2), "the change through the reference to " << k << " in " << prefix << " is not visible\n" << log);
      m[prefix + "." + k] = v2;
      check_all(st, m, m, {}, log);
    }
  }
  c.nontrivial = m.size() >= 4 && have;
}
static pbt::Reg r_s03({"S03", "views", "at least four keys and an existing sub-tree", 80000, 500000, c_s03});

// ------------------------------------------------------------------ S02
template<class T>
static T nearest(string const &t) { // the value of that type nearest to the text
  if constexpr (std::is_same_v<T, float>) return std::strtof(t.c_str(), nullptr);
  else if constexpr (std::is_same_v<T, double>) return std::strtod(t.c_str(), nullptr);
  else return (T) std::strtold(t.c_str(), nullptr);
}
template<class T>
static T read_as(T init, string const &text, bool &failed) {
  variable v{init};
  std::istringstream is(text);
  is >> v;
  failed = is.fail();
  PBT_CHECK(v.type() == typeid(T), "reading " << pbt::vis(text) << " changes the type from " << cmdr::debug::demangle(typeid(T).name()) << " to " << cmdr::debug::demangle(v.type().name()));
  return std::any_cast<T>(v.underlying_value());
}
template<class T>
static void trip(Src &s, Case &c, T const &x, T const &other, std::function<bool(T const &, T const &)> eq = [](T const &a, T const &b) { return a == b; }) {
  string t = variable{x}.as_string();
  string ty = cmdr::debug::demangle(typeid(T).name());
  c.note(ty + " " + pbt::vis(t));
  c.label(ty);
  bool failed;
  T y = read_as<T>(other, t, failed);
  PBT_CHECK(!failed && eq(x, y), ty << " " << pbt::vis(t) << " reads as " << pbt::vis(variable{y}.as_string()) << (failed ? " (stream failed)" : ""));
  // padded: leading blanks do not matter for numbers and lists; writing again gives the same text
  PBT_CHECK(variable{y}.as_string() == t, ty << " " << pbt::vis(t) << " is written as " << pbt::vis(variable{y}.as_string()) << " after it was read");
}
template<class T>
static void trip_num(Src &s, Case &c) {
  if (s.chance(1, 3)) {
    auto v = gen_list<T>(s, 5), o = gen_list<T>(s, 2);
    for (auto *x: {&v, &o})
      for (auto &e: *x)
        if constexpr (std::is_floating_point_v<T>) e = nearest<T>(plain(e));
    c.nontrivial = v.size() >= 2;
    string t = variable{v}.as_string();
    trip<vector<T>>(s, c, v, {});
    // without brackets, and with blanks
    bool failed;
    string bare, blank = "[ ";
    for (size_t i = 0; i < v.size(); i++) bare += (i ? "," : "") + plain(v[i]), blank += (i ? " , " : "") + plain(v[i]);
    PBT_CHECK(read_as<vector<T>>({}, bare, failed) == v && !failed, pbt::vis(bare) << " does not read as " << t);
    if (!v.empty()) PBT_CHECK(read_as<vector<T>>({}, blank + " ]", failed) == v && !failed, pbt::vis(blank + " ]") << " does not read as " << t);
    return;
  }
  T x = gen_num<T>(s);
  if constexpr (std::is_floating_point_v<T>) x = nearest<T>(plain(x));
  c.nontrivial = x != 0;
  trip<T>(s, c, x, gen_num<T>(s));
  // what is no number leaves the value alone
  bool failed;
  T keep = gen_num<T>(s);
  for (auto bad: {"abc", "", "--", "true", "[1]", "+-3", "."}) PBT_CHECK(read_as<T>(keep, bad, failed) == keep && failed, pbt::vis(bad) << " is read as a number");
  if constexpr (std::is_integral_v<T>) {
    // nor does a number that does not fit, by however much
    auto beyond = [&](bool neg) {
      auto lim = neg ? (unsigned __int128) 0 - (unsigned __int128) (__int128) std::numeric_limits<T>::min() : (unsigned __int128) std::numeric_limits<T>::max();
      auto d   = s.coin() ? (unsigned __int128) s.in(1, 3) : (unsigned __int128) (s.bits64() >> s.in(0, 63)) + 1;
      string t;
      for (auto x = lim + d; x != 0; x /= 10) t.insert(t.begin(), (char) ('0' + (int) (x % 10)));
      return (neg ? "-" : "") + t;
    };
    for (bool neg: {false, true}) {
      if (neg && std::is_unsigned_v<T>) continue; // read modulo 2^n, as the standard library does
      auto big = beyond(neg);
      PBT_CHECK(read_as<T>(keep, big, failed) == keep && failed, big << " is read as " << plain(read_as<T>(keep, big, failed)) << " (was " << plain(keep) << ")");
      vector<T> keeps{keep};
      auto list = "[1," + big + "]";
      read_as<vector<T>>(keeps, list, failed);
      PBT_CHECK(failed, list << " is read as a list");
    }
    for (auto big: {"99999999999999999999", "-99999999999999999999"}) PBT_CHECK(read_as<T>(keep, big, failed) == keep && failed, big << " is read as " << read_as<T>(keep, big, failed));
  }
}
template<class T>
static void trip_complex(Src &s, Case &c) {
  auto part = [&] { T x = gen_num<T>(s); return nearest<T>(plain(x)); };
  std::complex<T> x{s.chance(1, 4) ? (T) 0 : part(), s.chance(1, 4) ? (T) 0 : part()};
  c.nontrivial = x.real() != 0 && x.imag() != 0;
  trip<std::complex<T>>(s, c, x, std::complex<T>{(T) 7, (T) 8});
}
static void c_s02(Src &s, Case &c) {
  switch (s.in(0, 20)) {
  case 0: { // booleans
    static const vector<string> yes = {"1", "t", "true", "y", "yes", "on"}, no = {"0", "f", "false", "n", "no", "off"};
    bool v = s.coin();
    trip<bool>(s, c, v, s.coin());
    string w = s.pick(v ? yes : no);
    for (auto &ch: w) if (s.chance(1, 3)) ch = (char) toupper(ch);
    bool failed;
    string pad = s.coin() ? "" : s.pick(vector<string>{" ", "\n", ",", ";"});
    PBT_CHECK(read_as<bool>(!v, w + pad, failed) == v && !failed, pbt::vis(w + pad) << " does not read as " << v);
    string bad = s.pick(vector<string>{"", "tru", "truee", "2", "yess", "o", "of", "-1", "onn", "nope", "10", "00", "null", "t1"});
    PBT_CHECK(read_as<bool>(v, bad, failed) == v && failed, pbt::vis(bad) << " is read as a boolean");
    c.nontrivial = w != "true" && w != "false";
    return;
  }
  case 1: return trip_num<int>(s, c);
  case 2: return trip_num<unsigned>(s, c);
  case 3: return trip_num<int16_t>(s, c);
  case 4: return trip_num<uint16_t>(s, c);
  case 5: return trip_num<long>(s, c);
  case 6: return trip_num<uint64_t>(s, c);
  case 7: return trip_num<long long>(s, c);
  case 8: return trip_num<unsigned long long>(s, c);
  case 9: return trip_num<float>(s, c);
  case 10: return trip_num<double>(s, c);
  case 11: return trip_num<long double>(s, c);
  case 12: return trip_complex<float>(s, c);
  case 13: return trip_complex<double>(s, c);
  case 14: return trip_complex<long double>(s, c);
  case 15: { // lists of booleans, all spellings
    vector<bool> v;
    string t = "[";
    for (int i = 0, n = s.in(0, s.chance(1, 15) ? 80 : 5); i < n; i++) {
      v.push_back(s.coin());
      t += (i ? "," : "") + s.pick(v.back() ? vector<string>{"1", "true", "Yes", "ON", "t", "y"} : vector<string>{"0", "false", "No", "OFF", "f", "n"});
    }
    trip<vector<bool>>(s, c, v, {});
    bool failed;
    PBT_CHECK(read_as<vector<bool>>({}, t + "]", failed) == v && !failed, t << "] does not read as " << variable{v}.as_string());
    c.nontrivial = v.size() >= 2;
    return;
  }
  case 16:
  case 17: { // lists of texts
    vector<string> v;
    for (int i = 0, n = s.in(0, s.chance(1, 15) ? 80 : 5); i < n; i++) {
      auto e = s.str("abz90_-./:=\xc3\xa9 ", 0, 8);
      while (!e.empty() && e.front() == ' ') e.erase(0, 1);
      while (!e.empty() && e.back() == ' ') e.pop_back();
      v.push_back(e);
    }
    if (v.size() == 1 && v[0].empty()) throw pbt::Discard{}; // written as [], like the empty list
    trip<vector<string>>(s, c, v, {});
    string bare;
    for (size_t i = 0; i < v.size(); i++) bare += (i ? "," : "") + v[i];
    bool failed;
    PBT_CHECK(read_as<vector<string>>({}, bare, failed) == v && !failed, pbt::vis(bare) << " does not read as " << variable{v}.as_string());
    c.nontrivial = v.size() >= 2;
    return;
  }
  default: { // texts: written in quotes
    auto x = s.str(s.coin() ? "ab z09_-./:=,'[]{}\xc3\xa9\t" : "ab\"' \\", 0, 20);
    c.note("text " + pbt::vis(x));
    c.label("text");
    c.nontrivial = x.find(' ') != string::npos;
    bool failed;
    if (x.find('"') == string::npos && x.find('\\') == string::npos) {
      trip<string>(s, c, x, "old");
      PBT_CHECK(read_as<string>("old", "'" + x + "'", failed) == x || x.find('\'') != string::npos, "'" << x << "' reads as " << pbt::vis(read_as<string>("old", "'" + x + "'", failed)));
    }
    // unquoted texts are taken as they are
    bool plainly = !x.empty();
    for (char q: {'"', '\''}) plainly = plainly && x.front() != q && x.back() != q;
    if (plainly) PBT_CHECK(read_as<string>("old", x, failed) == x, pbt::vis(x) << " reads as " << pbt::vis(read_as<string>("old", x, failed)));
    // a literal becomes a text with the same content
    if (plainly) {
      variable v{"old"};
      std::istringstream is(x);
      is >> v;
      PBT_CHECK(string(v.as<char const *>()) == x, pbt::vis(x) << " reads as " << pbt::vis(v.as_string()));
    }
    return;
  }
  }
}
static pbt::Reg r_s02({"S02", "texts", "a number other than 0, a list of two or more, a complex with both parts, a text with blanks, or another spelling of a boolean", 500000, 3000000, c_s02});
PBT_MAIN()
