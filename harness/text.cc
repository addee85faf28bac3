// Checks U01 U02: string helpers and similarity.
// FLAGS:
#include "pbt.hh"
#include "jaro_ref.hh"
#include <cmdr11/cmdr11.hh>
using pbt::Src;
using pbt::Case;
using std::string;
using std::vector;
namespace cs = cmdr::string;

static string vis(string const &s) { return pbt::vis(s); }
static string vis(vector<string> const &v) {
  string r = "{";
  for (auto const &x: v) r += (r.size() > 1 ? ", " : "") + pbt::vis(x);
  return r + "}";
}
static string hex(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
// references, written without the standard search functions
static bool at(string const &s, size_t i, string const &d) {
  if (i + d.size() > s.size()) return false;
  for (size_t k = 0; k < d.size(); k++) if (s[i + k] != d[k]) return false;
  return true;
}
static vector<string> ref_split(string const &s, string const &d) {
  vector<string> r(1);
  if (d.empty()) return {s};
  for (size_t i = 0; i < s.size();) {
    if (at(s, i, d)) r.push_back(""), i += d.size();
    else r.back() += s[i++];
  }
  return r;
}
static bool is_sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static string ref_join(vector<string> const &v, string const &d, string const &a, string const &b) {
  string r = a;
  for (size_t i = 0; i < v.size(); i++) r += (i ? d : "") + v[i];
  return r + b;
}
static char up(char c) { return c >= 'a' && c <= 'z' ? (char) (c - 32) : c; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
template<class F>
static string mapc(string s, F f) { for (auto &c: s) c = f(c); return s; }

static void c_u01(Src &s, Case &c) {
  static const char *ALPHA[] = {"ab", "ab,", "a b\t\n", "aA zZ\xc3\xa9", "\"'a", "x,;a "};
  auto text = [&](int lo = 0, int hi = 24) { return s.str(ALPHA[s.in(0, 5)], lo, s.chance(1, 40) ? 10 * hi + 100 : hi); };
  auto delim = [&] { return s.str(ALPHA[s.in(0, 1)], 0, 3); };
#define SAME(got, want, what) \
  do { auto g_ = (got); auto w_ = (want); PBT_CHECK(g_ == w_, what << " gives " << vis(g_) << ", expected " << vis(w_)); } while (0)
  int k = s.in(0, 14);
  static const char *names[] = {"split text", "split char", "tokenize", "tokenize char", "join", "replace", "trim", "case", "prefix", "wrap", "pad", "strip", "quotes", "read_until", "itoa"};
  c.label(names[k]);
  switch (k) {
  case 0: {
    string t = text(), d = delim();
    c.note("split " + vis(t) + " by " + vis(d));
    vector<string> got;
    cs::split(t, d, std::back_inserter(got));
    SAME(got, ref_split(t, d), "split(" << vis(t) << ", " << vis(d) << ")");
    SAME(cs::join(got, d.c_str()), t, "joining what split returned for " << vis(t) << " with " << vis(d));
    c.nontrivial = got.size() >= 3;
    return;
  }
  case 1: {
    string t = text();
    char d   = s.pick(vector<char>{',', ' ', 'a', '\n', '.'});
    c.note("split " + vis(t) + " by " + vis(string(1, d)));
    auto want = ref_split(t, string(1, d));
    if (want.back().empty()) want.pop_back(); // a delimiter at the end only ends the last part
    SAME(d == '\n' ? cs::split(t) : cs::split(t, d), want, "split(" << vis(t) << ", '" << vis(string(1, d)) << "')");
    c.nontrivial = want.size() >= 3;
    return;
  }
  case 2: {
    string t = text();
    c.note("tokenize " + vis(t));
    vector<string> want;
    bool in = false;
    for (char ch: t) {
      if (is_sp(ch)) in = false;
      else {
        if (!in) want.push_back("");
        want.back() += ch;
        in = true;
      }
    }
    SAME(cs::tokenize(t), want, "tokenize(" << vis(t) << ")");
    c.nontrivial = want.size() >= 2;
    return;
  }
  case 3: {
    string t = text();
    char d   = s.pick(vector<char>{',', ' ', 'a', 'b'});
    c.note("tokenize " + vis(t) + " by " + vis(string(1, d)));
    vector<string> want;
    for (auto const &x: ref_split(t, string(1, d))) if (!x.empty()) want.push_back(x);
    SAME(cs::tokenize(t, d), want, "tokenize(" << vis(t) << ", '" << d << "')");
    c.nontrivial = want.size() >= 2;
    return;
  }
  case 4: {
    vector<string> v;
    for (int i = 0, n = s.in(0, s.chance(1, 30) ? 80 : 5); i < n; i++) v.push_back(text(0, 5));
    string d = delim(), a = delim(), b = delim();
    c.note("join " + vis(v) + " with " + vis(d));
    vector<char const *> p;
    for (auto const &x: v) p.push_back(x.c_str());
    SAME(cs::join(v, d.c_str(), a.c_str(), b.c_str()), ref_join(v, d, a, b), "join(" << vis(v) << ", " << vis(d) << ", " << vis(a) << ", " << vis(b) << ")");
    SAME(cs::join(p, d.c_str(), a.c_str(), b.c_str()), ref_join(v, d, a, b), "join(" << vis(v) << ", " << vis(d) << ", " << vis(a) << ", " << vis(b) << ") of literals");
    SAME(cs::join(v, d.c_str()), ref_join(v, d, "", ""), "join(" << vis(v) << ", " << vis(d) << ")");
    char ch = s.pick(vector<char>{',', ' ', 'x'}), pre = s.pick(vector<char>{'\0', '[', '"'}), post = s.pick(vector<char>{'\0', ']', '"'});
    SAME(cs::join(v, ch, pre, post), ref_join(v, string(1, ch), pre ? string(1, pre) : "", post ? string(1, post) : ""), "join(" << vis(v) << ", '" << ch << "', ...)");
    SAME(cs::join(p, ch, pre, post), ref_join(v, string(1, ch), pre ? string(1, pre) : "", post ? string(1, post) : ""), "join(" << vis(v) << ", '" << ch << "', ...) of literals");
    c.nontrivial = v.size() >= 2;
    return;
  }
  case 5: {
    string t = text(), f = s.str("ab", 1, 3), to = text(0, 4);
    c.note("replace " + vis(f) + " by " + vis(to) + " in " + vis(t));
    auto parts = ref_split(t, f);
    string all = ref_join(parts, to, "", ""), first = parts[0];
    if (parts.size() > 1) {
      first += to;
      for (size_t i = 1; i < parts.size(); i++) first += (i > 1 ? f : "") + parts[i];
    }
    string x = t, y = t;
    cs::replace_all(x, f, to);
    SAME(x, all, "replace_all(" << vis(t) << ", " << vis(f) << ", " << vis(to) << ")");
    bool did = cs::replace(y, f, to);
    SAME(y, first, "replace(" << vis(t) << ", " << vis(f) << ", " << vis(to) << ")");
    PBT_CHECK(did == (parts.size() > 1), "replace(" << vis(t) << ", " << vis(f) << ", ...) returns " << did);
    string z = t;
    cs::replace_all(z, "", to);
    SAME(z, t, "replace_all of the empty text in " << vis(t));
    c.nontrivial = parts.size() >= 3;
    return;
  }
  case 6: {
    string t = s.str("  \t\n\r\v\fab", 0, s.chance(1, 30) ? 200 : 12);
    c.note("trim " + vis(t));
    size_t a = 0, b = t.size();
    while (a < b && is_sp(t[a])) a++;
    string left = t.substr(a);
    while (b > a && is_sp(t[b - 1])) b--;
    string both = t.substr(a, b - a);
    size_t e = t.size();
    while (e > 0 && is_sp(t[e - 1])) e--;
    string right = t.substr(0, e);
    SAME(cs::trim(t), both, "trim(" << vis(t) << ")");
    SAME(cs::trim_left(t), left, "trim_left(" << vis(t) << ")");
    SAME(cs::trim_right(t), right, "trim_right(" << vis(t) << ")");
    string l1 = t, r1 = t;
    SAME(cs::trim_left_space(l1), left, "trim_left_space(" << vis(t) << ")");
    SAME(cs::trim_right_space(r1), right, "trim_right_space(" << vis(t) << ")");
    SAME(cs::trim_left_space(string(t)), left, "trim_left_space(" << vis(t) << "&&)");
    SAME(cs::trim_right_space(string(t)), right, "trim_right_space(" << vis(t) << "&&)");
    c.nontrivial = both != t && !both.empty();
    return;
  }
  case 7: {
    string t = s.str("abyzABYZ@[`{09 -_\xc3\xa9\x7f", 0, 20);
    c.note("case " + vis(t));
    string a = t, b = t, d = t, e = t;
    cs::to_upper(a);
    cs::to_lower(b);
    SAME(a, mapc(t, up), "to_upper(" << vis(t) << ")");
    SAME(b, mapc(t, low), "to_lower(" << vis(t) << ")");
    cs::to_upper_t(d);
    cs::to_lower_t(e);
    SAME(d, mapc(t, up), "to_upper_t(" << vis(t) << ")");
    SAME(e, mapc(t, low), "to_lower_t(" << vis(t) << ")");
    SAME(cs::to_capitalize(t), mapc(t, up), "to_capitalize(" << vis(t) << ")");
    c.nontrivial = a != t && b != t;
    return;
  }
  case 8: {
    string t = s.str("ab", 0, 6), p = s.coin() ? s.str("ab", 0, 4) : t.substr(0, (size_t) s.in(0, (int) t.size())), q = s.coin() ? s.str("ab", 0, 4) : t.substr((size_t) s.in(0, (int) t.size()));
    c.note("prefix " + vis(p) + " suffix " + vis(q) + " of " + vis(t));
    bool hp = at(t, 0, p), hq = t.size() >= q.size() && at(t, t.size() - q.size(), q);
    PBT_CHECK(cs::has_prefix(t, p) == hp && cs::has_prefix(t, p.c_str()) == hp, "has_prefix(" << vis(t) << ", " << vis(p) << ") gives " << !hp);
    PBT_CHECK(cs::has_suffix(t, q) == hq && cs::has_suffix(t, q.c_str()) == hq, "has_suffix(" << vis(t) << ", " << vis(q) << ") gives " << !hq);
    c.nontrivial = (hp && !p.empty() && p != t) || (hq && !q.empty() && q != t);
    return;
  }
  case 9: {
    string t = text(), a = delim(), b = delim();
    c.note("wrap " + vis(t));
    SAME(cs::wrap(t, a, b), a + t + b, "wrap(" << vis(t) << ", " << vis(a) << ", " << vis(b) << ")");
    SAME(cs::wrap(t, a.c_str(), b.c_str()), a + t + b, "wrap(" << vis(t) << ", " << vis(a) << ", " << vis(b) << ")");
    SAME(cs::wrap(t, '<', '>'), "<" + t + ">", "wrap(" << vis(t) << ", '<', '>')");
    SAME(cs::quoted(t), "\"" + t + "\"", "quoted(" << vis(t) << ")");
    c.nontrivial = !t.empty() && !a.empty() && !b.empty();
    return;
  }
  case 10: {
    bool big = s.chance(1, 30);
    string t = s.str("ab c", 0, big ? 150 : 10);
    size_t n = (size_t) s.in(0, big ? 200 : 16);
    c.note("pad " + vis(t) + " to " + std::to_string(n));
    string x = t;
    cs::pad(x, n, '.');
    SAME(x, t.size() >= n ? t : t + string(n - t.size(), '.'), "pad(" << vis(t) << ", " << n << ")");
    SAME(cs::pad_left(t, n, '.'), string(n, '.') + t, "pad_left(" << vis(t) << ", " << n << ")");
    vector<string> ls;
    for (int i = 0, m = s.in(2, 4); i < m; i++) ls.push_back(s.str("ab c", 1, 6));
    string many = ref_join(ls, "\n", "", ""), want;
    for (auto const &l: ls) want += string(n, ' ') + l + "\n";
    SAME(cs::pad_left(many, n), want, "pad_left(" << vis(many) << ", " << n << ")");
    c.nontrivial = n > t.size() && !t.empty();
    return;
  }
  case 11: {
    string t = s.str("ab", 0, 6), a = s.str("[<", 1, 2), b = s.str("]>", 1, 2);
    string x = (s.coin() ? a : "") + t + (s.coin() ? b : "");
    c.note("strip " + vis(x));
    string want = at(x, 0, a) ? x.substr(a.size()) : x;
    if (want.size() >= b.size() && at(want, want.size() - b.size(), b)) want = want.substr(0, want.size() - b.size());
    SAME(cs::strip(x, a.c_str(), b.c_str()), want, "strip(" << vis(x) << ", " << vis(a) << ", " << vis(b) << ")");
    c.nontrivial = want != x;
    return;
  }
  case 12: {
    string t = s.str("\"'ab", 0, s.chance(1, 30) ? 60 : 8);
    c.note("strip_quotes " + vis(t));
    size_t a = 0, b = t.size();
    auto q = [](char ch) { return ch == '"' || ch == '\''; };
    while (a < b && q(t[a])) a++;
    while (b > a && q(t[b - 1])) b--;
    SAME(cs::strip_quotes(t), t.substr(a, b - a), "strip_quotes(" << vis(t) << ")");
    // from a stream: a quoted text ends at its closing quote, anything else is taken as it is
    string in = s.str("ab ,.=", 0, s.chance(1, 30) ? 200 : 8);
    char qc   = s.coin() ? '"' : '\'';
    std::istringstream is(string(1, qc) + in + string(1, qc) + " tail"), is2(in), is3("");
    string r = "old", r2 = "old", r3 = "old", rest;
    cs::strip_quotes(is, r);
    std::getline(is, rest, '\0');
    SAME(r, in, "strip_quotes of the stream " << vis(string(1, qc) + in + string(1, qc) + " tail"));
    SAME(rest, string(" tail"), "what strip_quotes leaves in the stream");
    cs::strip_quotes(is2, r2);
    SAME(r2, in, "strip_quotes of the stream " << vis(in));
    cs::strip_quotes(is3, r3);
    SAME(r3, string(), "strip_quotes of an empty stream");
    c.nontrivial = a > 0 && b < t.size() && a < b;
    return;
  }
  case 13: {
    string d = s.str("ab,", 1, 3), t;
    vector<string> parts;
    for (int i = 0, n = s.in(0, s.chance(1, 30) ? 60 : 4); i < n; i++) t += (i ? d : "") + s.str("ab,", 0, 5);
    if (s.coin()) t += d;
    c.note("read_until " + vis(d) + " from " + vis(t));
    std::istringstream is(t);
    string left = t;
    for (int i = 0; i < 40; i++) {
      auto p      = ref_split(left, d);
      bool more   = p.size() > 1;
      string want = p[0];
      string got;
      bool by_ref = s.coin(), ok = true;
      if (by_ref) ok = cs::read_until(is, got, d.c_str());
      else if (left.empty()) break;
      else got = cs::read_until(is, d.c_str());
      PBT_CHECK(ok == !left.empty(), "read_until(" << vis(d) << ") says " << ok << " with " << vis(left) << " left of " << vis(t));
      if (!ok) break;
      PBT_CHECK(got == want, "read_until(" << vis(d) << ") of " << vis(left) << " gives " << vis(got) << ", expected " << vis(want));
      left = more ? left.substr(want.size() + d.size()) : "";
    }
    // one character
    string u = s.str("ab,", 0, s.chance(1, 30) ? 200 : 10);
    std::istringstream is2(u);
    auto p = ref_split(u, ",");
    SAME(cs::read_until(is2, ','), p[0], "read_until(',') of " << vis(u));
    if (p.size() > 2 || (p.size() == 2 && !p[1].empty())) SAME(cs::read_until(is2, ','), p[1], "the second read_until(',') of " << vis(u));
    c.nontrivial = ref_split(t, d).size() >= 3;
    return;
  }
  default: {
    int n = (int) s.integer(INT32_MIN, INT32_MAX);
    unsigned m = (unsigned) s.integer(0, UINT32_MAX);
    c.note("itoa " + std::to_string(n) + " " + std::to_string(m));
    string a = text(0, 3), b = text(0, 20);
    SAME(cs::conv::itoa(n, a), std::to_string(n), "itoa(" << n << ")");
    SAME(cs::conv::itoa(m, b), std::to_string(m), "itoa(" << m << ")");
    SAME(cmdr::to_string(n), std::to_string(n), "to_string(" << n << ")");
    c.nontrivial = n > 99 || n < -99;
    return;
  }
  }
}
static pbt::Reg r_u01({"U01", "helpers", "by helper: three or more parts, something replaced, trimmed, stripped or padded, a number of three digits", 800000, 3200000, c_u01, 200});

// references in a text
static void c_u01env(Src &s, Case &c) {
  vector<string> names = {"PBTA", "PBT_B", "pbtc1", "PBT_D"};
  std::map<string, string> env;
  string log;
  for (size_t i = 0; i < names.size(); i++) {
    unsetenv(names[i].c_str());
    if (s.chance(1, 4)) continue;
    string v;
    for (int k = 0, n = s.in(0, 3); k < n; k++) {
      if (i + 1 < names.size() && s.chance(1, 4)) v += "${" + names[i + 1 + s.draw((unsigned) (names.size() - i - 1))] + "}"; // only forward: no cycles
      else v += s.str("abz/.: 09", 0, 4);
    }
    env[names[i]] = v;
    setenv(names[i].c_str(), v.c_str(), 1);
    log += names[i] + "=" + v + "\n";
  }
  std::function<string(string const &)> ex = [&](string const &t) {
    string r;
    for (size_t i = 0; i < t.size();) {
      if (t[i] == '$') {
        bool br = i + 1 < t.size() && t[i + 1] == '{';
        size_t b = i + 1 + br, e = b;
        while (e < t.size() && (isalnum((unsigned char) t[e]) || t[e] == '_')) e++;
        if (e > b) {
          auto it = env.find(t.substr(b, e - b));
          if (it != env.end()) r += ex(it->second);
          i = e + br;
          continue;
        }
      }
      r += t[i++];
    }
    return r;
  };
  string t;
  int refs = 0;
  for (int k = 0, n = s.in(0, 6); k < n; k++) {
    if (s.coin()) {
      refs++;
      auto nm = s.chance(1, 6) ? string("PBT_NOT_SET") : s.pick(names);
      t += s.coin() ? "${" + nm + "}" : "$" + nm + s.pick(vector<string>{"/", ".", ":", " ", "-"});
    } else t += s.str("abz/.: 09", 0, 5);
  }
  c.note(log + "expand " + vis(t));
  c.nontrivial = refs >= 2 && !env.empty();
  SAME(cs::expand_env(t), ex(t), "expand_env(" << vis(t) << ") with\n" << log);
  // a variable which mentions itself, directly or through another one, does not keep it busy forever
  if (s.chance(1, 10)) {
    setenv("PBT_LOOP1", s.coin() ? "x${PBT_LOOP1}" : "x${PBT_LOOP2}", 1);
    setenv("PBT_LOOP2", "y$PBT_LOOP1", 1);
    c.label("self reference");
    c.note("a$PBT_LOOP1 where PBT_LOOP1 mentions itself");
    string got = cs::expand_env("a$PBT_LOOP1");
    PBT_CHECK(got.rfind("ax", 0) == 0, "expand_env of a self reference gives " << vis(got));
  }
}
static pbt::Reg r_u01e({"U01", "expand_env", "two or more references and a variable which is set", 80000, 320000, c_u01env, 100, 10});

// ------------------------------------------------------------------ U02
static void c_u02(Src &s, Case &c) {
  static const vector<string> words = {"server", "service", "serve", "hello", "help", "martha", "marhta", "dixon", "dicksonx", "jellyfish", "smellyfish", "--verbose", "configuration", "a", "zz"};
  string a, b;
  switch (s.in(0, 4)) {
  case 0: a = s.str("ab", 0, 6), b = s.str("ab", 0, 6); break;
  case 1: a = s.str("abc", 0, 9), b = s.str("abc", 0, 9); break;
  case 2: a = s.str("aAbBcC-", 0, 12), b = s.str("aAbBcC-", 0, 12); break;
  default: // a misspelling
    a = s.coin() ? s.pick(words) : s.str("abcdefgh", 1, 20);
    b = a;
    for (int i = 0, n = s.in(0, 4); i < n && !b.empty(); i++) {
      size_t p = s.draw((unsigned) b.size());
      switch (s.in(0, 4)) {
      case 0: b.erase(p, 1); break;
      case 1: b.insert(p, 1, s.ch("abcxyz")); break;
      case 2: b[p] = s.ch("abcxyz"); break;
      case 3: if (p + 1 < b.size()) std::swap(b[p], b[p + 1]); break;
      default: b[p] = s.coin() ? (char) toupper(b[p]) : (char) tolower(b[p]);
      }
    }
  }
  bool cased  = s.coin();
  double thr  = s.pick(vector<double>{0.7, 0.83, 0, 1, 0.5, 0.9, 0.6666});
  if (s.chance(1, 4)) thr = s.in(0, 100) / 100.0;
  double want = cased ? jaro_ref(a, b) : jaro_ref(mapc(a, low), mapc(b, low));
  if (s.chance(1, 6)) thr = want; // right at the threshold
  c.note(vis(a) + " ~ " + vis(b) + (cased ? "" : " ignoring case") + " threshold " + hex(thr));
  c.label(want == 1 ? "equal" : want == 0 ? "nothing in common" : "similar");
  c.nontrivial = want > 0 && want < 1;
  cmdr::text::jaro_winkler_distance j(thr, cased);
  double got = j(a.c_str(), b.c_str());
  PBT_CHECK(std::abs(got - want) < 1e-9, "the similarity of " << vis(a) << " and " << vis(b) << " is " << hex(got) << ", Jaro is " << hex(want));
  PBT_CHECK(got >= 0 && got <= 1, "the similarity of " << vis(a) << " and " << vis(b) << " is " << hex(got));
  string x = cased ? a : mapc(a, low), y = cased ? b : mapc(b, low);
  if (!x.empty() && !y.empty()) PBT_CHECK((got == 1) == (x == y), "the similarity of " << vis(a) << " and " << vis(b) << " is " << hex(got));
  // the object can be used again and again
  string o1 = s.str("abc", 0, 5), o2 = s.str("abc", 0, 5);
  double other = j(o1.c_str(), o2.c_str());
  PBT_CHECK(std::abs(other - (cased ? jaro_ref(o1, o2) : jaro_ref(o1, o2))) < 1e-9, "the second use gives " << hex(other) << " for " << vis(o1) << " and " << vis(o2));
  auto &r = j.calculate(a.c_str(), b.c_str());
  PBT_CHECK(std::abs(j.get_distance() - want) < 1e-9 && std::abs((double) r - want) < 1e-9, "calculate(" << vis(a) << ", " << vis(b) << ") leaves " << hex(j.get_distance()) << ", Jaro is " << hex(want));
  PBT_CHECK(r.equal(want) && r == want, "equal(" << hex(want) << ")");
  if (std::abs(want - thr) > 1e-6 || want == thr) PBT_CHECK(r.matched() == (want >= thr), vis(a) << " and " << vis(b) << " have the score " << hex(want) << ", the threshold is " << hex(thr) << ", matched() says " << r.matched());
  cmdr::text::jaro_winkler_distance plain; // exactly the letters, matched from 0.7 on
  double full = jaro_ref(a, b);
  PBT_CHECK(std::abs(plain(a.c_str(), b.c_str()) - full) < 1e-9, "without options, the similarity of " << vis(a) << " and " << vis(b) << " is " << hex(plain.get_distance()));
  if (std::abs(full - 0.7) > 1e-6) PBT_CHECK(plain.matched() == (full > 0.7), "without options, " << vis(a) << " and " << vis(b) << " with the score " << hex(full) << ": matched() says " << plain.matched());
}
static pbt::Reg r_u02({"U02", "pairs", "similar, but not equal", 800000, 3200000, c_u02, 200});
PBT_MAIN()
