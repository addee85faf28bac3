// Checks C01-C11 and C13-C15: the command line interface, on generated programs and command lines.
// FLAGS:
#include "cli_model.hh"
#include "jaro_ref.hh"
using namespace cm;

static string ctx(Live &l, Line const &L) { return "  argv:" + show_words(L.words) + "\nprogram:\n" + describe(*l.prog) + "stderr: " + l.err.substr(0, 600) + "\n"; }
static string ctxw(Live &l, vector<string> const &w) { return "  argv:" + show_words(w) + "\nprogram:\n" + describe(*l.prog) + "stderr: " + l.err.substr(0, 600) + "\n"; }

// the handler ran once, for the target, with the expected words
static void expect_invoked(Live &l, Line const &L, Cmd *target) {
  PBT_CHECK(!l.threw, "run() threw: " << l.what << "\n" << ctx(l, L));
  auto inv = l.of_kind({"invoke"});
  PBT_CHECK(inv.size() == 1, "handlers called: " << show(inv) << ", expected one call of " << target->path() << "\n" << ctx(l, L));
  PBT_CHECK(inv[0].who == target->path(), "handler called for '" << inv[0].who << "', the words address '" << target->path() << "'\n" << ctx(l, L));
  PBT_CHECK(l.rc == target->rc, "exit status " << l.rc << ", the handler returned " << target->rc << "\n" << ctx(l, L));
}
static void expect_values(Live &l, Line const &L, bool every = true) {
  auto fin = final_values(L);
  for (auto *f: l.prog->flags()) {
    auto it = fin.find(f);
    if (it == fin.end() && !every) continue;
    string want = canon(f->ty, it == fin.end() ? f->def : it->second);
    string got  = l.store_val(*f);
    PBT_CHECK(got == want, (it == fin.end() ? "unmentioned" : "mentioned") << " flag " << f->path() << " (" << ty_name(f->ty) << ") reads " << pbt::vis(got) << " in the option store, expected " << pbt::vis(want) << "\n" << ctx(l, L));
    if (!is_bool(f->ty)) {
      got = l.flag_val(*f);
      PBT_CHECK(got == want, "flag " << f->path() << " (" << ty_name(f->ty) << ") reads " << pbt::vis(got) << " through the flag, expected " << pbt::vis(want) << "\n" << ctx(l, L));
    }
  }
}
static void expect_hits(Live &l, Line const &L) {
  std::map<Flag *, int> n;
  std::map<Flag *, string> title;
  std::map<Flag *, bool> lng, spec;
  for (auto const &m: L.mentions) {
    n[m.f]++;
    title[m.f] = m.title;
    spec[m.f] = spec[m.f] || m.special;
    lng[m.f] = lng[m.f] || m.is_long;
  }
  for (auto *f: l.prog->flags()) {
    auto *a = l.flags[f];
    PBT_CHECK(a->hit_count() == n[f], "flag " << f->path() << " counts " << a->hit_count() << " hits, it was mentioned " << n[f] << " times\n" << ctx(l, L));
    if (!n[f]) continue;
    PBT_CHECK(a->hit_title() == title[f], "flag " << f->path() << " remembers title '" << a->hit_title() << "', typed last: '" << title[f] << "'\n" << ctx(l, L));
    PBT_CHECK(a->hit_long() == lng[f], "flag " << f->path() << " hit_long()=" << a->hit_long() << ", written in long form: " << lng[f] << "\n" << ctx(l, L));
    PBT_CHECK(a->hit_special() == spec[f], "flag " << f->path() << " hit_special()=" << a->hit_special() << ", written behind ~~: " << spec[f] << "\n" << ctx(l, L));
  }
}
static void expect_path(Live &l, Line const &L) {
  for (auto *c: l.prog->cmds()) {
    if (!c->owner) continue;
    auto it = std::find(L.path.begin(), L.path.end(), c);
    int n   = it == L.path.end() ? 0 : 1;
    PBT_CHECK(l.cmds[c]->hit_count() == n, "command " << c->path() << " counts " << l.cmds[c]->hit_count() << " hits, expected " << n << "\n" << ctx(l, L));
    if (n) PBT_CHECK(l.cmds[c]->hit_title() == L.path_titles[(size_t) (it - L.path.begin())], "command " << c->path() << " remembers '" << l.cmds[c]->hit_title() << "'\n" << ctx(l, L));
  }
}

// ------------------------------------------------------------------ C01
static void c01(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 5);
  o.max_subs  = s.in(1, 5);
  o.max_flags = 2;
  auto p      = gen_program(s, o);
  Live l(*p);
  LineOpts lo;
  lo.mentions      = 2;
  lo.leaf_only     = s.chance(4, 5);
  lo.simple_values = true;
  lo.positionals   = true;
  Line L           = compose(s, *p, lo);
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  auto *t      = L.path.back();
  c.nontrivial = L.path.size() >= 2 && p->cmds().size() >= 4;
  c.label(t->leaf() ? "leaf addressed" : "inner command addressed");
  for (size_t i = 0; i < L.path.size(); i++) c.label(L.path_titles[i] == L.path[i]->lng ? "by long title" : L.path_titles[i] == L.path[i]->shr ? "by short title" : "by alias");
  l.run(L.words);
  if (t->leaf()) {
    expect_invoked(l, L, t);
    auto inv = l.of_kind({"invoke"});
    PBT_CHECK(inv[0].args == L.rest, "handler got" << show_words(inv[0].args) << "\n" << ctx(l, L));
  } else {
    PBT_CHECK(!l.threw, "run() threw " << l.what << "\n" << ctx(l, L));
    PBT_CHECK(l.trace.empty(), "an inner command was addressed, but handlers ran: " << show(l.trace) << "\n" << ctx(l, L));
    PBT_CHECK(l.rc == 0, "exit status " << l.rc << "\n" << ctx(l, L));
  }
  expect_path(l, L);
  // a second line in the same process, in a fresh instance: the resolution does not depend on the first
}
static pbt::Reg r_c01({"C01", "resolve", "the addressed command is at least two levels deep in a tree of at least three commands", 8000, 40000, c01});

// ------------------------------------------------------------------ C02
static void c02(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 6;
  auto p      = gen_program(s, o);
  Live l(*p);
  LineOpts lo;
  lo.mentions = 5;
  lo.flag_ok  = [](Flag *f) { return !is_bool(f->ty); };
  Line L      = compose(s, *p, lo);
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  c.nontrivial = L.mentions.size() >= 2;
  for (auto const &m: L.mentions) c.label(ty_name(m.f->ty));
  l.run(L.words);
  expect_invoked(l, L, L.path.back());
  expect_values(l, L);
  PBT_CHECK(l.of_kind({"invoke"})[0].args.empty(), "values leaked into the positional arguments:" << show_words(l.of_kind({"invoke"})[0].args) << "\n" << ctx(l, L));
}
static pbt::Reg r_c02({"C02", "values", "at least two flag values on the line", 8000, 40000, c02});

// a value which is no number leaves the flag alone
static void c02bad(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = 1;
  o.max_flags = 5;
  o.types     = {Ty::Int, Ty::Long, Ty::Uint, Ty::ULL, Ty::I16, Ty::Dbl, Ty::Flt};
  auto p      = gen_program(s, o);
  Live l(*p);
  LineOpts lo;
  lo.mentions = 2;
  Line L      = compose(s, *p, lo);
  vector<Flag *> pool;
  for (auto *f: scope_of(L.at, false)) if (resolve_long(L.at, f->lng) == f) pool.push_back(f);
  if (pool.empty()) throw pbt::Discard{};
  auto *f = s.pick(pool);
  static const vector<string> junk = {"abc", "x", "zero", "five5", "$", "true", "no", "k=v", "!", "e"};
  string j = s.pick(junk), got;
  string w = "--" + f->lng + "=" + j;
  if (greedy_long(L.at, w.substr(2), got) != f || got != f->lng) throw pbt::Discard{};
  L.words.push_back(w);
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  c.nontrivial = true;
  l.run(L.words);
  PBT_CHECK(!l.threw, "run() threw " << l.what << "\n" << ctx(l, L));
  PBT_CHECK(!l.err.empty(), "nothing reported for an unreadable value\n" << ctx(l, L));
  expect_values(l, L);
}
static pbt::Reg r_c02b({"C02", "unreadable", "a value that is no number is given to a numeric flag", 2400, 10000, c02bad});

// ------------------------------------------------------------------ C03
static void c03(Src &s, Case &c) {
  GenOpts o;
  o.max_depth    = s.in(1, 3);
  o.max_flags    = 7;
  o.types        = {Ty::Bool, Ty::Bool, Ty::Bool, Ty::Int, Ty::Str};
  o.share_titles = s.chance(1, 3);
  auto p         = gen_program(s, o);
  for (auto *f: p->flags()) f->on_hit = s.chance(1, 2);
  Live l(*p);
  LineOpts lo;
  lo.mentions      = 7;
  lo.simple_values = true;
  Line L           = compose(s, *p, lo);
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  c.nontrivial = L.mentions.size() >= 3;
  if (L.combined) c.label("combined shorts");
  if (L.negated) c.label("negated");
  if (L.behind_value) c.label("flags behind a value");
  l.run(L.words);
  expect_invoked(l, L, L.path.back());
  expect_values(l, L);
  expect_hits(l, L);
  vector<Event> want;
  for (auto const &m: L.mentions) if (m.f->on_hit) want.push_back({"flaghit", m.f->path(), {}});
  auto got = l.of_kind({"flaghit"});
  PBT_CHECK(got == want, "hit handlers: " << show(got) << "\nexpected: " << show(want) << "\n" << ctx(l, L));
}
static pbt::Reg r_c03({"C03", "flags", "at least three mentions of flags", 8000, 40000, c03});

// ------------------------------------------------------------------ C04
static void c04(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(2, 4);
  o.max_subs  = 3;
  o.max_flags = 4;
  o.types     = {Ty::Bool, Ty::Int, Ty::Str, Ty::Bool, Ty::Dbl};
  auto p      = gen_program(s, o);
  // the same titles again and again: rename flags to titles of other flags, per command unique
  {
    auto fs = p->flags();
    for (auto *f: fs) {
      if (!s.chance(1, 2)) continue;
      auto *g = s.pick(fs);
      bool l_ok = true, s_ok = !g->shr.empty();
      for (auto &x: f->owner->flags) if (x.get() != f) {
        if (has_long(x.get(), g->lng)) l_ok = false;
        if (x->shr == g->shr) s_ok = false;
      }
      if (std::find(f->aliases.begin(), f->aliases.end(), g->lng) != f->aliases.end()) l_ok = false;
      if (l_ok && s.coin()) f->lng = g->lng;
      if (s_ok && s.coin()) f->shr = g->shr;
    }
  }
  Live l(*p);
  LineOpts lo;
  lo.mentions      = 5;
  lo.simple_values = true;
  Line L           = compose(s, *p, lo);
  auto *target     = L.path.back();
  bool shadow = false;
  for (auto const &m: L.mentions)
    for (auto *x: p->flags()) if (x != m.f && x->owner != m.f->owner && (has_long(x, m.title) || x->shr == m.title)) shadow = true;
  c.nontrivial = shadow;
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  if (s.chance(2, 3)) {
    c.label("in scope");
    l.run(L.words);
    expect_invoked(l, L, target);
    expect_values(l, L);
    expect_hits(l, L);
    return;
  }
  // a flag of another branch, or of a deeper command, is unknown here
  vector<Flag *> outside;
  auto sc = scope_of(target, false);
  for (auto *f: p->flags()) {
    string got;
    if (std::find(sc.begin(), sc.end(), f) != sc.end()) continue;
    if (greedy_long(target, f->lng, got)) continue; // some flag in scope is a prefix of the title
    outside.push_back(f);
  }
  if (outside.empty()) throw pbt::Discard{};
  auto *f = s.pick(outside);
  L.words.push_back("--" + f->lng + (is_bool(f->ty) ? "" : "=1"));
  c.note("out-of-scope flag of " + f->owner->path());
  c.label("out of scope");
  c.nontrivial = true;
  l.run(L.words);
  PBT_CHECK(l.of_kind({"invoke"}).empty(), "flag " << f->path() << " was accepted outside its command\n" << ctx(l, L));
  PBT_CHECK(l.store_val(*f) == canon(f->ty, f->def), "flag " << f->path() << " changed although it was used outside its command\n" << ctx(l, L));
  PBT_CHECK(l.flags[f]->hit_count() == 0, "flag " << f->path() << " counts a hit\n" << ctx(l, L));
  PBT_CHECK(l.err.find(f->lng) != string::npos, "unknown flag not reported\n" << ctx(l, L));
}
static pbt::Reg r_c04({"C04", "scope", "a mentioned title is defined by another command too, or the flag is out of scope", 8000, 40000, c04});

// every flag has its own entry in the store, under its path
static void c04store(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 4);
  auto p      = gen_program(s, o);
  Live l(*p);
  std::map<string, Flag *> paths;
  for (auto *f: p->flags()) paths[f->path()] = f;
  c.nontrivial = paths.size() >= 4;
  c.note(describe(*p));
  for (auto &[k, f]: paths) {
    PBT_CHECK(l.flags[f]->dotted_key() == "app.cli." + k, "flag path is " << l.flags[f]->dotted_key() << ", expected app.cli." << k << "\n" << describe(*p));
    // overwrite this entry: no other one changes
    PBT_CHECK(l.store_val(*f) == canon(f->ty, f->def), "entry of " << k << " reads " << pbt::vis(l.store_val(*f)) << "\n" << describe(*p));
  }
  for (auto &[k, f]: paths) {
    if (!s.chance(1, 3)) continue;
    l.cli->set(("cli." + k).c_str(), std::string("probe of " + k));
    for (auto &[k2, f2]: paths) {
      auto const &v = l.cli->get_for_cli(k2);
      auto *ps      = std::any_cast<std::string>(&v.underlying_value());
      bool touched  = ps && *ps == "probe of " + k;
      PBT_CHECK(touched == (k == k2), "writing the entry of " << k << " shows up in the entry of " << k2 << "\n" << describe(*p));
    }
  }
}
static pbt::Reg r_c04b({"C04", "entries", "at least four flags in the program", 6000, 24000, c04store});

// ------------------------------------------------------------------ C05
static void c05(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 4;
  auto p      = gen_program(s, o);
  for (auto *k: p->cmds()) k->has_pre = s.coin(), k->has_post = s.coin();
  Live l(*p);
  LineOpts lo;
  lo.mentions      = 3;
  lo.positionals   = true;
  lo.terminator    = true;
  lo.simple_values = s.coin();
  Line L           = compose(s, *p, lo);
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  c.nontrivial = L.rest.size() >= 2;
  if (L.terminator) c.label("terminator");
  l.run(L.words);
  expect_invoked(l, L, L.path.back());
  for (auto const &e: l.trace) PBT_CHECK(e.args == L.rest, e.kind << " handler got" << show_words(e.args) << "\nexpected" << show_words(L.rest) << "\n" << ctx(l, L));
  expect_values(l, L);
  expect_hits(l, L);
  expect_path(l, L);
}
static pbt::Reg r_c05({"C05", "rest", "at least two words for the handler", 8000, 40000, c05});

// ------------------------------------------------------------------ C06
static void c06(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 2);
  o.max_flags = 1;
  auto p      = gen_program(s, o);
  auto code   = [&](int zero_num) { return s.chance(zero_num, 4) ? 0 : s.pick(vector<int>{1, 2, -1, -5, 77, 255, 1000, 11, 20, 25}); };
  p->has_gpre     = s.chance(2, 3);
  p->has_gpost    = s.chance(2, 3);
  p->has_unhooked = s.chance(1, 2);
  p->has_postrun  = s.chance(2, 3);
  p->gpre_rc      = code(3);
  p->unhooked_rc  = code(2);
  for (auto *k: p->cmds()) {
    k->has_invoke = s.chance(4, 5);
    k->has_pre    = s.chance(2, 3);
    k->has_post   = s.chance(2, 3);
    k->pre_rc     = code(3);
    k->rc         = code(1);
    k->throws     = s.chance(1, 3) ? s.pick(vector<int>{1, 1, 2, 3, 4}) : 0;
    k->pre_throws = s.chance(1, 8) ? s.in(1, 4) : 0;
  }
  p->gpre_throws     = s.chance(1, 12) ? s.in(1, 4) : 0;
  p->unhooked_throws = s.chance(1, 4) ? s.in(1, 4) : 0;
  bool nocatch = s.coin();
  bool told    = s.chance(1, 2), inside = s.chance(1, 4);
  vector<string> told_of;
  Live l(*p);
  l.cli->set_no_catch_cmdr_biz_error(nocatch);
  if (told)
    l.cli->set_on_handle_exception_ptr([&](std::exception_ptr const &e) {
      try {
        if (e) std::rethrow_exception(e);
        told_of.push_back("nothing");
      } catch (std::exception const &x) {
        told_of.push_back(x.what());
      } catch (int i) {
        told_of.push_back(std::to_string(i));
      }
    });
  LineOpts lo;
  lo.mentions    = 1;
  lo.positionals = true;
  Line L         = compose(s, *p, lo);
  auto *t        = L.path.back();
  string w       = t->path();
  // reference interpreter
  vector<Event> want;
  int rc = 0, thrown = 0, action_rc = s.in(-3, 99);
  bool early = false; // an exception before the handler
  if (p->has_gpre) want.push_back({"gpre", w, L.rest}), rc = p->gpre_rc, thrown = p->gpre_throws;
  if (rc == 0 && !thrown && t->has_pre) want.push_back({"pre", w, L.rest}), rc = t->pre_rc, thrown = t->pre_throws;
  early = thrown != 0;
  if (rc == 0 && !thrown) {
    if (t->has_invoke) want.push_back({"invoke", w, L.rest}), thrown = t->throws, rc = t->rc;
    else if (p->has_unhooked) want.push_back({"unhooked", w, L.rest}), thrown = p->unhooked_throws, rc = p->unhooked_rc;
  }
  if (!early && t->has_post) want.push_back({"post", w, L.rest});
  if (!early && p->has_gpost) want.push_back({"gpost", w, L.rest});
  if (thrown == 4) want.push_back({"action", w, {}}); // an action is requested
  if (p->has_postrun) want.push_back({"postrun", "", {}});
  bool escapes = thrown == 3 && nocatch;
  if (thrown) rc = thrown == 4 ? action_rc : -1;
  if (thrown == 4) thrown = 0, c.label("an action is requested");
  l.cli->register_action(cmdr::opt::Action::RequestManualScreen, [&](cmdr::opt::types::parsing_context &pc, int, char **) {
    l.trace.push_back({"action", strip_app(pc.last_matched_cmd().dotted_key()), {}});
    return action_rc;
  });
  c.note("argv:" + show_words(L.words) + " expecting " + show(want) + "\n" + describe(*p));
  c.nontrivial = want.size() >= 4;
  c.label(thrown ? (escapes ? "handler throws, error delivered" : "handler throws") : rc ? "non-zero status" : "zero status");
  if (thrown && told) c.label("exception handler");
  if (inside) {
    try {
      throw std::runtime_error("an older error");
    } catch (std::exception const &) {
      l.run(L.words);
    }
    PBT_CHECK((l.out + l.err).find("an older error") == string::npos, "the run reports an exception which was handled before\n" << ctx(l, L));
  } else
    l.run(L.words);
  l.cli->set_no_catch_cmdr_biz_error(false);
  l.cli->set_on_handle_exception_ptr({});
  {
    vector<string> want_told;
    if (thrown && !told && !escapes)
      PBT_CHECK((l.out + l.err).find(thrown == 1 ? "thrown by the handler" : thrown == 2 ? "xception" : "biz error thrown by the handler") != string::npos, "the exception of the handler is not reported\n" << ctx(l, L));
    if (thrown && told && !escapes) want_told.push_back(thrown == 1 ? "thrown by the handler" : thrown == 2 ? "42" : "biz error thrown by the handler");
    PBT_CHECK(told_of.size() == want_told.size() && (told_of.empty() || told_of[0].find(want_told[0]) == 0), "the exception handler was given" << show_words(told_of) << "\nexpected" << show_words(want_told) << "\n" << ctx(l, L));
  }
  PBT_CHECK(l.threw == escapes, "run() " << (l.threw ? "threw " + l.what : "did not throw") << "\n" << ctx(l, L));
  if (early) { // whether post-handlers still run then is not specified
    auto is = [](Event const &e) { return e.kind == "post" || e.kind == "gpost"; };
    l.trace.erase(std::remove_if(l.trace.begin(), l.trace.end(), is), l.trace.end());
  }
  PBT_CHECK(l.trace == want, "handlers: " << show(l.trace) << "\nexpected: " << show(want) << "\n" << ctx(l, L));
  if (!escapes) PBT_CHECK(l.rc == rc, "exit status " << l.rc << ", expected " << rc << "\n" << ctx(l, L));
}
static pbt::Reg r_c06({"C06", "lifecycle", "at least four handler calls expected", 10000, 40000, c06});

// ------------------------------------------------------------------ C07
static string gen_unknown(Src &s) {
  static char const *al = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.@";
  string w;
  if (s.chance(1, 3)) w = gen_word(s) + (s.coin() ? "x" : "-q");
  else w = s.str(al, 1, 8);
  if (s.chance(1, 4)) w += "=" + s.str(al, 0, 4);
  return w;
}
static string misspell(Src &s, string w) {
  int n = s.in(1, 2);
  for (int i = 0; i < n && !w.empty(); i++) {
    size_t k = s.draw((unsigned) w.size());
    switch (s.in(0, 3)) {
      case 0: w.erase(k, 1); break;
      case 1: w.insert(k, 1, (char) ('a' + s.in(0, 25))); break;
      case 2: w[k] = (char) ('a' + s.in(0, 25)); break;
      default: if (k + 1 < w.size()) std::swap(w[k], w[k + 1]); break;
    }
  }
  return w;
}
static bool flag_like(string const &w) { return w.empty() || w[0] == '-' || w[0] == '/' || w.compare(0, 2, "~~") == 0; }
static Cmd *any_cmd(Src &s, Program &p, bool inner) {
  vector<Cmd *> c;
  for (auto *x: p.cmds()) if (!inner || !x->leaf()) c.push_back(x);
  return s.pick(c);
}
// an unknown word which fits at the place `at`; kind 0: command, 1: long flag, 2: short flag
static string unknown_at(Src &s, Cmd *at, int kind, string &core) {
  string got;
  for (int i = 0; i < 8; i++) {
    string w = gen_unknown(s);
    if (s.chance(1, 3)) { // a title which is known, but at another place
      Cmd *top = at;
      while (top->owner) top = top->owner;
      if (at->owner && s.coin()) top = at->owner;
      vector<string> all;
      std::function<void(Cmd *)> walk = [&](Cmd *k) {
        for (auto &x: k->subs) {
          all.push_back(x->lng);
          if (!x->shr.empty()) all.push_back(x->shr);
          for (auto &al: x->aliases) all.push_back(al);
          if (top != at->owner) walk(&*x);
        }
      };
      walk(top);
      if (!all.empty()) w = s.pick(all);
    }
    if (kind == 0) {
      if (at->leaf() || flag_like(w) || resolve_cmd(at, w)) continue;
      if (!at->owner && reserved_titles().count(w)) continue;
      core = w;
      return w;
    }
    if (kind == 1) {
      if (greedy_long(at, w, got)) continue;
      core = w;
      return (s.chance(1, 8) ? "~~" : "--") + w;
    }
    if (greedy_short(at, w, got)) continue;
    core = w;
    return (s.chance(1, 8) ? "/" : "-") + w;
  }
  return {};
}
static void dress_handlers(Src &s, Program &p) {
  p.has_gpre = s.coin(), p.has_gpost = s.coin(), p.has_unhooked = s.coin(), p.has_postrun = s.coin();
  for (auto *k: p.cmds()) k->has_invoke = s.chance(4, 5), k->has_pre = s.coin(), k->has_post = s.coin();
}
static void c07(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 3;
  auto p      = gen_program(s, o);
  dress_handlers(s, *p);
  Live l(*p);
  int kind = s.in(0, 2);
  LineOpts lo;
  lo.mentions      = 2;
  lo.simple_values = true;
  Cmd *t           = any_cmd(s, *p, kind == 0);
  Line L           = compose(s, *p, lo, t);
  string core, w = unknown_at(s, t, kind, core);
  if (w.empty()) throw pbt::Discard{};
  if (kind == 2 && w[0] == '-' && s.chance(1, 3)) { // known short flags before the unknown one, behind the same dash
    string word = core;
    for (int n = s.in(1, 2); n > 0; n--) {
      vector<Flag *> b;
      for (auto *f: scope_of(t, false)) {
        string got;
        if (f->ty == Ty::Bool && !f->shr.empty() && greedy_short(t, f->shr + word, got) == f && got == f->shr && word[0] != '-' && word[0] != '+') b.push_back(f);
      }
      if (b.empty()) break;
      word = s.pick(b)->shr + word;
      c.label("behind known short flags");
    }
    core = word, w = "-" + word;
  }
  size_t before = L.words.size();
  L.words.push_back(w);
  // whatever follows does not matter
  if (s.coin()) {
    int n = s.in(1, 4);
    for (int i = 0; i < n; i++) {
      switch (s.in(0, 3)) {
        case 0: L.words.push_back(gen_positional(s, true)); break;
        case 1: { auto *k = s.pick(p->cmds()); L.words.push_back(k->owner ? k->lng : "--"); break; }
        case 2: { auto fs = p->flags(); if (!fs.empty()) L.words.push_back("--" + s.pick(fs)->lng); break; }
        default: if (!t->subs.empty()) L.words.push_back(s.pick(t->subs)->lng); break;
      }
    }
  }
  c.label(kind == 0 ? "unknown command" : kind == 1 ? "unknown long flag" : "unknown short flag");
  c.nontrivial = before >= 1 || L.words.size() > before + 1;
  if (s.chance(1, 4)) { // a valid line before: what is refused does not depend on the past
    LineOpts wo;
    wo.simple_values = true;
    Cmd *wt = t;
    if (s.coin()) while (!wt->subs.empty()) wt = &*s.pick(wt->subs);
    Line W = wt != t || wt->leaf() ? compose(s, *p, wo, wt) : compose(s, *p, wo);
    c.note("argv of a run before:" + show_words(W.words));
    c.label("second run");
    l.run(W.words);
    l.trace.clear();
  }
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  l.run(L.words);
  PBT_CHECK(!l.threw, "run() threw " << l.what << "\n" << ctx(l, L));
  PBT_CHECK(l.of_kind({"gpre", "pre", "invoke", "unhooked", "post", "gpost"}).empty(), "handlers ran: " << show(l.trace) << "\n" << ctx(l, L));
  PBT_CHECK(l.rc == 0, "exit status " << l.rc << "\n" << ctx(l, L));
  PBT_CHECK(l.err.find(core + "\"") != string::npos, "the offending word " << pbt::vis(w) << " is not reported\n" << ctx(l, L));
  PBT_CHECK(l.err.find(kind == 0 ? "Unknown command" : "Unknown ") != string::npos, "no report\n" << ctx(l, L));
}
static pbt::Reg r_c07({"C07", "refused", "the unknown word is not alone on the command line", 5200, 40000, c07});

static void c07tolerant(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 3;
  auto p      = gen_program(s, o);
  Live l(*p);
  bool cmds = s.chance(2, 3), flags = !cmds || s.coin();
  if (cmds) l.cli->treat_unknown_input_command_as_error(false);
  if (flags) l.cli->treat_unknown_input_flag_as_error(false);
  int injected = 0;
  LineOpts lo;
  lo.mentions      = 3;
  lo.simple_values = true;
  lo.positionals   = true;
  lo.terminator    = true;
  lo.inject        = [&](Src &q, Line &L) {
    if (!q.chance(1, 3)) return;
    int kind = q.in(0, 2);
    if (kind == 0 ? !cmds : !flags) return;
    string core, w = unknown_at(q, L.at, kind, core);
    if (w.empty()) return;
    L.words.push_back(w);
    injected++;
  };
  Line L = compose(s, *p, lo);
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  c.nontrivial = injected >= 1;
  if (injected > 1) c.label("several unknown words");
  l.run(L.words);
  expect_invoked(l, L, L.path.back());
  PBT_CHECK(l.of_kind({"invoke"})[0].args == L.rest, "handler got" << show_words(l.of_kind({"invoke"})[0].args) << "\n" << ctx(l, L));
  expect_values(l, L);
  expect_hits(l, L);
  expect_path(l, L);
}
static pbt::Reg r_c07t({"C07", "tolerant", "at least one unknown word was skipped", 3250, 20000, c07tolerant});

static void c07similar(Src &s, Case &c) {
  const double TH = 0.83;
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_subs  = 5;
  o.max_flags = 4;
  auto p      = gen_program(s, o);
  Live l(*p);
  bool feel = s.coin();
  LineOpts lo;
  lo.mentions      = 1;
  lo.simple_values = true;
  if (feel && s.coin()) l.cli->enable_feel_like_mode();
  else if (feel) {
    bool once = true;
    lo.inject = [once](Src &q, Line &L) mutable { if (once) L.words.push_back(q.coin() ? "--feel-like" : "-bet"); once = false; };
  }
  bool about_flag = !feel && s.chance(1, 3);
  Cmd *t = any_cmd(s, *p, !about_flag);
  Line L = compose(s, *p, lo, t);
  if (feel && lo.inject && std::find_if(L.words.begin(), L.words.end(), [](string const &w) { return w == "--feel-like" || w == "-bet"; }) == L.words.end()) throw pbt::Discard{};
  if (about_flag) {
    auto sc = scope_of(t);
    auto *f = s.pick(sc);
    bool is_long = f->shr.size() < 3 || s.coin();
    string core  = misspell(s, is_long ? f->lng : f->shr), got;
    if (core.empty() || core[0] == '-' || (is_long ? greedy_long(t, core, got) : greedy_short(t, core, got))) throw pbt::Discard{};
    string w = (is_long ? "--" : "-") + core;
    L.words.push_back(w);
    vector<string> want;
    for (auto *x: sc) {
      auto consider = [&](string const &title) {
        double d = jaro_ref(w, title);
        if (std::fabs(d - TH) < 1e-9) throw pbt::Discard{};
        if (d > TH) want.push_back((is_long ? "\"--" : "\"-") + title + "\"");
      };
      if (is_long) { consider(x->lng); for (auto &a: x->aliases) consider(a); }
      else consider(x->shr);
    }
    c.label("flag");
    c.nontrivial = !want.empty();
    c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
    l.run(L.words);
    vector<string> got_s;
    std::istringstream is(l.err);
    for (string line; std::getline(is, line);) if (line.compare(0, 5, "   - ") == 0) got_s.push_back(line.substr(5, line.find('"', 6) - 4));
    std::sort(want.begin(), want.end());
    std::sort(got_s.begin(), got_s.end());
    PBT_CHECK(got_s == want, "suggestions:" << show_words(got_s) << "\nexpected:" << show_words(want) << "\n" << ctx(l, L));
    return;
  }
  auto *orig = s.pick(t->subs).get();
  vector<string> titles{orig->lng, orig->lng};
  for (auto &a: orig->aliases) titles.push_back(a);
  string w = misspell(s, s.pick(titles));
  if (flag_like(w) || resolve_cmd(t, w) || (!t->owner && reserved_titles().count(w))) throw pbt::Discard{};
  L.words.push_back(w);
  vector<string> want;
  double best = -1;
  vector<Cmd *> top;
  auto consider = [&](string const &title, Cmd *k) {
    double d = jaro_ref(w, title);
    if (std::fabs(d - TH) < 1e-9) throw pbt::Discard{};
    if (d < TH) return;
    want.push_back("\"" + title + "\"");
    if (d > best + 1e-9) top.clear(), best = d;
    if (d > best - 1e-9) top.push_back(k);
  };
  for (auto &k: t->subs) {
    consider(k->lng, k.get());
    consider(k->shr, k.get());
    for (auto &a: k->aliases) consider(a, k.get());
  }
  if (!t->owner) for (auto &b: builtin_cmds()) for (auto &x: b) consider(x, nullptr);
  if (feel && std::count(top.begin(), top.end(), nullptr)) throw pbt::Discard{};
  c.label(feel ? "feel-like" : "suggestions");
  c.nontrivial = !want.empty();
  vector<string> rest;
  if (feel && !top.empty() && top[0]->leaf()) {
    int n = s.in(0, 2);
    for (int i = 0; i < n; i++) rest.push_back("w" + num(i));
    for (auto &x: rest) L.words.push_back(x);
  }
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  l.run(L.words);
  auto inv = l.of_kind({"invoke"});
  if (feel && !top.empty()) {
    PBT_CHECK(!l.threw, "run() threw " << l.what << "\n" << ctx(l, L));
    bool leaf_top = std::any_of(top.begin(), top.end(), [](Cmd *k) { return k->leaf(); });
    bool inner_top = std::any_of(top.begin(), top.end(), [](Cmd *k) { return !k->leaf(); });
    PBT_CHECK(l.err.find("Unknown command") == string::npos, "feel-like mode, but the command is reported as unknown\n" << ctx(l, L));
    if (inv.empty()) {
      PBT_CHECK(inner_top, "no handler ran, the most similar command is " << top[0]->path() << " (" << best << ")\n" << ctx(l, L));
      return;
    }
    PBT_CHECK(leaf_top && std::any_of(top.begin(), top.end(), [&](Cmd *k) { return k->leaf() && inv[0].who == k->path() && l.rc == k->rc; }),
              "handler of " << inv[0].who << " ran, the most similar command is " << top[0]->path() << " (" << best << ")\n" << ctx(l, L));
    PBT_CHECK(inv.size() == 1 && inv[0].args == rest, "handlers: " << show(inv) << "\n" << ctx(l, L));
    return;
  }
  PBT_CHECK(inv.empty(), "handlers ran: " << show(inv) << "\n" << ctx(l, L));
  vector<string> got;
  std::istringstream is(l.err);
  for (string line; std::getline(is, line);) if (line.compare(0, 5, "   - ") == 0) got.push_back(line.substr(5, line.rfind('"') - 4));
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  PBT_CHECK(got == want, "suggestions:" << show_words(got) << "\nexpected:" << show_words(want) << "\n" << ctx(l, L));
}
static pbt::Reg r_c07s({"C07", "similar", "at least one title is similar enough", 5200, 40000, c07similar});

// ------------------------------------------------------------------ C08
static void c08(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 4;
  auto p      = gen_program(s, o);
  dress_handlers(s, *p);
  int den = s.in(2, 6), k = 0;
  vector<string> setenvs;
  for (auto *f: p->flags()) {
    f->required = s.chance(1, (unsigned) den);
    if (s.chance(1, 4)) f->envs.push_back("PBT_REQ_" + num(k++));
    f->hidden = s.chance(1, 6);
  }
  Live l(*p);
  bool nocatch = s.coin();
  l.cli->set_no_catch_cmdr_biz_error(nocatch);
  LineOpts lo;
  lo.mentions      = s.in(0, 6);
  lo.simple_values = true;
  lo.positionals   = true;
  lo.terminator    = true;
  lo.leaf_only     = s.chance(5, 6);
  if (s.coin()) lo.flag_ok = [](Flag *f) { return f->required; };
  Line L       = compose(s, *p, lo);
  auto *target = L.path.back();
  std::set<Flag *> given;
  for (auto const &m: L.mentions) given.insert(m.f);
  if (s.chance(1, 2)) { // complete the line
    vector<string> extra;
    for (auto *f: scope_of(target, false)) {
      if (!f->required || given.count(f) || resolve_long(target, f->lng) != f || s.chance(1, 8)) continue;
      string w = "--" + f->lng + (is_bool(f->ty) ? "" : "=" + plain_text(f->ty, f->def)), got;
      if (greedy_long(target, w.substr(2), got) != f || got != f->lng) continue;
      extra.push_back(w);
      given.insert(f);
    }
    size_t at = L.words.size();
    for (size_t i = 0; i < L.words.size(); i++) if (L.words[i] == "--") { at = i; break; }
    if (L.terminator || at == L.words.size()) L.words.insert(L.words.begin() + (long) at, extra.begin(), extra.end());
    else throw pbt::Discard{};
  }
  for (auto *f: p->flags()) for (auto &e: f->envs) if (s.chance(1, 3)) setenvs.push_back(e), given.insert(f), setenv(e.c_str(), plain_text(f->ty, f->def).c_str(), 1);
  Flag *missing{};
  int req = 0;
  for (auto *f: scope_of(target, false)) if (f->required) { req++; if (!given.count(f)) missing = f; }
  c.note("argv:" + show_words(L.words) + " env:" + show_words(setenvs) + "\n" + describe(*p));
  c.nontrivial = req >= 1 && target->leaf();
  c.label(!target->leaf() ? "inner command" : missing ? nocatch ? "missing, thrown" : "missing, status" : "complete");
  l.run(L.words);
  l.cli->set_no_catch_cmdr_biz_error(false);
  for (auto &e: setenvs) unsetenv(e.c_str());
  auto ran = l.of_kind({"gpre", "pre", "invoke", "unhooked", "post", "gpost"});
  if (!target->leaf()) {
    PBT_CHECK(ran.empty() && !l.threw && l.rc == 0, "inner command: rc " << l.rc << " " << l.what << "\n" << ctx(l, L));
    return;
  }
  if (missing) {
    PBT_CHECK(ran.empty(), "required flag " << missing->path() << " is missing, but handlers ran: " << show(ran) << "\n" << ctx(l, L));
    PBT_CHECK(l.threw == nocatch, "errors " << (nocatch ? "were asked for, none was thrown" : "escaped: " + l.what) << "\n" << ctx(l, L));
    if (nocatch) PBT_CHECK(l.missed, "not a required_flag_missed error: " << l.what << "\n" << ctx(l, L));
    else PBT_CHECK(l.rc == -1, "exit status " << l.rc << "\n" << ctx(l, L));
    return;
  }
  PBT_CHECK(!l.threw, "complete line refused: " << l.what << "\n" << ctx(l, L));
  auto inv = l.of_kind({"invoke"});
  PBT_CHECK(inv.size() == (target->has_invoke ? 1u : 0u), "complete line, but the handlers were: " << show(l.trace) << "\n" << ctx(l, L));
  if (target->has_invoke) PBT_CHECK(l.rc == target->rc && inv[0].who == target->path(), "rc " << l.rc << ", " << show(inv) << "\n" << ctx(l, L));
}
static pbt::Reg r_c08({"C08", "required", "a leaf command with at least one required flag in scope", 8000, 40000, c08});

// ------------------------------------------------------------------ C09
static void c09(Src &s, Case &c) {
  Program p; // grows with the declarations
  add_builtins(p);
  p.has_gpost = false;
  Live l(p, false);
  l.cmds[&p.root] = l.cli;
  // taken titles
  std::map<Cmd *, std::set<string>> cl, cs, fl, fs;
  for (auto &b: builtin_cmds()) {
    cl[&p.root].insert(b[0]);
    cs[&p.root].insert(b[1]);
    for (size_t i = 2; i < b.size(); i++) cl[&p.root].insert(b[i]);
  }
  for (auto &f: p.root.flags) {
    fl[&p.root].insert(f->lng);
    if (!f->shr.empty()) fs[&p.root].insert(f->shr);
    for (auto &a: f->aliases) fl[&p.root].insert(a);
  }
  static const vector<string> pool = {"a", "b", "c", "d", "ab", "bc", "cd", "run", "help", "h", "version", "print"};
  p.form = s.in(0, 6);
  int n = s.in(2, 14), refused = 0, accepted = 0;
  string log;
  vector<std::tuple<Cmd *, bool, string, void *>> lookups; // parent, is_flag, title
  for (int i = 0; i < n; i++) {
    vector<Cmd *> cands;
    for (auto *k: p.cmds()) if (k->depth() < 3) cands.push_back(k);
    Cmd *at      = s.pick(cands);
    bool is_flag = s.coin();
    string lng = s.pick(pool), shr = s.chance(1, 2) ? s.pick(pool) : "";
    vector<string> al;
    int na = s.chance(1, 2) ? s.in(1, 2) : 0;
    for (int j = 0; j < na; j++) {
      string a = s.pick(pool);
      if (a != lng && std::find(al.begin(), al.end(), a) == al.end()) al.push_back(a);
    }
    auto &TL = is_flag ? fl[at] : cl[at];
    auto &TS = is_flag ? fs[at] : cs[at];
    string why;
    if (TL.count(lng)) why = "long";
    for (auto &a: al) if (TL.count(a)) why += " alias";
    if (!shr.empty() && TS.count(shr)) why += " short";
    log += string(is_flag ? "flag " : "command ") + lng + "|" + shr;
    for (auto &a: al) log += "|" + a;
    log += " under <" + at->path() + ">" + (why.empty() ? "" : " clash: " + why) + "\n";
    bool dup = false;
    string other;
    auto &real = *l.cmds[at];
    Flag *nf{};
    Cmd *nc{};
    if (is_flag) {
      auto f = std::make_unique<Flag>();
      f->lng = lng, f->shr = shr, f->aliases = al, f->owner = at;
      f->implicit_default = true;
      nf = f.get();
      try {
        auto o = Live::mk_opt(&l, *nf);
        l.declare_one(real, o);
        l.flags[nf] = real.last_added_arg();
      } catch (cmdr::exception::dup_error const &) { dup = true; } catch (std::exception const &e) { other = e.what(); }
      if (!dup) at->flags.push_back(std::move(f));
    } else {
      auto k = std::make_unique<Cmd>();
      k->lng = lng, k->shr = shr, k->aliases = al, k->owner = at;
      k->rc = i + 1;
      nc = k.get();
      try {
        auto o = Live::mk_cmd(&l, *nc);
        l.declare_one(real, o);
        l.cmds[nc] = real.last_added_command();
      } catch (cmdr::exception::dup_error const &) { dup = true; } catch (std::exception const &e) { other = e.what(); }
      if (!dup) at->subs.push_back(std::move(k));
      else {
        static vector<std::unique_ptr<Cmd>> keep;
        keep.push_back(std::move(k));
      }
    }
    PBT_CHECK(other.empty(), "the declaration threw something else: " << other << "\n" << log);
    PBT_CHECK(dup == !why.empty(), (dup ? "refused without a clash" : "accepted in spite of a clash") << "\n" << log);
    (dup ? refused : accepted)++;
    if (!dup) {
      TL.insert(lng);
      for (auto &a: al) TL.insert(a);
      if (!shr.empty()) TS.insert(shr);
    }
  }
  c.note(log);
  c.nontrivial = refused >= 1 && accepted >= 2;
  // everything accepted is there, nothing refused is
  for (auto *k: p.cmds()) {
    auto const &real = *l.cmds[k];
    for (auto &t: pool) {
      if (k->owner || !reserved_titles().count(t)) {
        Cmd *want = nullptr;
        for (auto &x: k->subs) if (x->lng == t) want = x.get();
        auto const &got = real(t.c_str());
        PBT_CHECK(want ? &got == l.cmds[want] : !got.valid(), "look-up of command " << t << " under <" << k->path() << "> finds " << (got.valid() ? got.dotted_key() : "nothing") << "\n" << log);
        Flag *wf = nullptr;
        for (auto &x: k->flags) if (x->lng == t) wf = x.get();
        auto const &gf = real[t.c_str()];
        PBT_CHECK(wf ? &gf == l.flags[wf] : !gf.valid(), "look-up of flag " << t << " under <" << k->path() << "> finds " << (gf.valid() ? gf.dotted_key() : "nothing") << "\n" << log);
      }
    }
  }
  // and each title leads to its own command or flag on a command line
  vector<Cmd *> leaves;
  for (auto *k: p.cmds()) if (k->owner && k->leaf()) leaves.push_back(k);
  if (leaves.empty()) return;
  LineOpts lo;
  lo.mentions = 4;
  Line L      = compose(s, p, lo, s.pick(leaves));
  if (reserved_titles().count(L.path_titles[0])) return; // a built-in command
  l.run(L.words);
  expect_invoked(l, L, L.path.back());
  expect_values(l, L);
  expect_hits(l, L);
  expect_path(l, L);
}
static pbt::Reg r_c09({"C09", "duplicates", "at least one declaration refused and two accepted", 10000, 40000, c09});

// ------------------------------------------------------------------ C10
static string auto_name(Flag *f) {
  string r = "app.cli." + f->path();
  for (auto &ch: r) ch = ch == '.' || ch == '-' ? '_' : (char) toupper((unsigned char) ch);
  return r;
}
static string env_text(Src &s, Ty t, Val const &v) {
  if (!is_bool(t)) return is_vec(t) && s.coin() ? "[" + plain_text(t, v) + "]" : plain_text(t, v);
  static const vector<string> yes = {"true", "1", "yes", "on", "TRUE", "Yes", "y", "t"}, no = {"false", "0", "no", "off", "FALSE", "No", "n", "f"};
  return s.pick(v.b ? yes : no);
}
static void c10(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 5;
  auto p      = gen_program(s, o);
  int k = 0;
  for (auto *f: p->flags()) {
    int n = s.chance(1, 2) ? s.in(1, 2) : 0;
    for (int i = 0; i < n; i++) f->envs.push_back("PBT_V" + num(k++));
    f->required = s.chance(1, 8);
  }
  Live l(*p);
  LineOpts lo;
  lo.mentions      = 3;
  lo.simple_values = true;
  Line L           = compose(s, *p, lo);
  std::map<string, string> env;
  std::map<Flag *, Val> preset;
  std::set<Flag *> by_bound, junk;
  // automatic names may coincide (a-b under c, b under c.a): such flags are left alone
  std::map<string, int> autos;
  for (auto *f: p->flags()) autos[auto_name(f)]++;
  static const vector<string> bad = {"abc", "x1", "five", "-", "?"};
  for (auto *f: p->flags()) {
    if (autos[auto_name(f)] == 1 && s.chance(1, 4)) {
      Val v = gen_val(s, f->ty);
      env[auto_name(f)] = env_text(s, f->ty, v);
      preset[f] = v;
    }
    for (auto &e: f->envs) {
      if (!s.chance(1, 2)) continue;
      by_bound.insert(f);
      if (is_num(f->ty) && s.chance(1, 8)) {
        env[e] = s.pick(bad); // no number: changes nothing
        junk.insert(f);
        continue;
      }
      Val v = gen_val(s, f->ty);
      env[e] = env_text(s, f->ty, v);
      preset[f] = v;
    }
  }
  std::map<Flag *, int> mentions;
  for (auto const &m: L.mentions) mentions[m.f]++;
  Flag *missing{};
  for (auto *f: scope_of(L.path.back(), false)) if (f->required && !mentions[f] && !by_bound.count(f)) missing = f;
  string es;
  for (auto &[n, v]: env) es += " " + n + "=" + pbt::vis(v), setenv(n.c_str(), v.c_str(), 1);
  c.note("env:" + es + "\nargv:" + show_words(L.words) + "\n" + describe(*p));
  c.nontrivial = preset.size() >= 2;
  bool stale = s.coin();
  string const exe = std::filesystem::read_symlink("/proc/self/exe").string();
  std::map<string, string> const about{{"APP_NAME", "pbt-app"}, {"SAFE_APP_NAME", "pbt_app"}, {"APP_VERSION", "1.2.3"}, {"EXE_PATH", exe}, {"EXE_NAME", exe.substr(exe.rfind('/') + 1)}, {"EXE_DIR", exe.substr(0, exe.rfind('/'))}};
  if (stale) for (auto &[n, v]: about) setenv(n.c_str(), "of another program", 1);
  for (auto &[f, v]: preset) c.label(string(mentions[f] ? "overridden by the command line: " : "preset: ") + (by_bound.count(f) ? "bound" : "automatic name"));
  l.run(L.words);
  for (auto &[n, v]: env) unsetenv(n.c_str());
  for (auto &[n, v]: about) {
    auto *got = getenv(n.c_str());
    PBT_CHECK(got && got == v, "the variable " << n << " is " << pbt::vis(got ? got : "(unset)") << " in the run, expected " << pbt::vis(v) << "\n" << ctx(l, L));
  }
  PBT_CHECK(!l.threw, "run() threw " << l.what << "\n  env:" << es << "\n" << ctx(l, L));
  auto inv = l.of_kind({"invoke"});
  PBT_CHECK(inv.size() == (missing ? 0u : 1u), "handlers: " << show(inv) << (missing ? ", but required flag " + missing->path() + " is missing" : "") << "\n  env:" << es << "\n" << ctx(l, L));
  if (!missing) PBT_CHECK(l.rc == L.path.back()->rc, "exit status " << l.rc << "\n" << ctx(l, L));
  auto fin = final_values(L);
  for (auto *f: p->flags()) {
    Val const &v = fin.count(f) ? fin[f] : preset.count(f) ? preset[f] : f->def;
    string want = canon(f->ty, v), got = l.store_val(*f);
    PBT_CHECK(got == want, "flag " << f->path() << " (" << ty_name(f->ty) << ") reads " << pbt::vis(got) << ", expected " << pbt::vis(want) << (fin.count(f) ? " from the command line" : preset.count(f) ? " from the environment" : ", its default") << "\n  env:" << es << "\n" << ctx(l, L));
    auto *a = l.flags[f];
    if (junk.count(f)) continue;
    int bound = 0;
    for (auto &e: f->envs) bound += env.count(e) ? 1 : 0;
    PBT_CHECK(a->hit_count() == mentions[f] + bound, "flag " << f->path() << " counts " << a->hit_count() << " hits, mentioned " << mentions[f] << " times and preset by " << bound << " bound variables\n  env:" << es << "\n" << ctx(l, L));
    if (bound && !fin.count(f)) {
      PBT_CHECK(a->hit_env(), "flag " << f->path() << " does not know that it was preset\n  env:" << es << "\n" << ctx(l, L));
      if (!is_bool(f->ty)) PBT_CHECK(l.flag_val(*f) == want, "flag " << f->path() << " reads " << pbt::vis(l.flag_val(*f)) << " through the flag, expected " << pbt::vis(want) << "\n  env:" << es << "\n" << ctx(l, L));
    }
    if (!bound) PBT_CHECK(!a->hit_env(), "flag " << f->path() << " says it was preset by a variable\n  env:" << es << "\n" << ctx(l, L));
  }
}
static pbt::Reg r_c10({"C10", "env", "at least two flags preset", 8000, 40000, c10});

// ------------------------------------------------------------------ C11
static void c11(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 2;
  auto p      = gen_program(s, o);
  static const vector<string> gnames = {"grp-one", "grp-two", "grp-three"};
  std::map<std::pair<Cmd *, string>, vector<Flag *>> groups;
  std::map<std::pair<Cmd *, string>, string> initial;
  int uid = 0;
  for (auto *k: p->cmds()) {
    std::set<string> shorts;
    for (auto &f: k->flags) shorts.insert(f->shr);
    int ng = s.in(0, 2);
    vector<std::pair<string, int>> plan;
    for (int g = 0; g < ng; g++) for (int i = 0, m = s.in(1, 4); i < m; i++) plan.push_back({gnames[(size_t) (g + (k->depth() % 2))], 0});
    if (s.coin()) s.shuffle(plan);
    std::set<string> has_default;
    for (auto &[g, u]: plan) {
      auto f    = std::make_unique<Flag>();
      f->owner  = k;
      f->ty     = Ty::Bool;
      f->toggle = g;
      f->lng    = "tg" + num(uid++) + s.pick(vector<string>{"", "-x", "z"});
      string sh = gen_short(s);
      if (s.coin() && !reserved_titles().count(sh) && shorts.insert(sh).second) f->shr = sh;
      if (s.chance(1, 4)) f->aliases.push_back("al" + num(uid++));
      f->def.b = !has_default.count(g) && s.chance(1, 3);
      f->implicit_default = !f->def.b && s.coin();
      if (f->def.b) has_default.insert(g);
      auto key = std::make_pair(k, g);
      if (f->def.b || !initial.count(key)) initial[key] = f->lng;
      groups[key].push_back(f.get());
      k->flags.push_back(std::move(f));
    }
  }
  if (groups.empty()) throw pbt::Discard{};
  Live l(*p);
  LineOpts lo;
  lo.mentions      = 6;
  lo.simple_values = true;
  lo.no_neg        = true;
  lo.flag_ok       = [&](Flag *f) { return !f->toggle.empty() || f->lng.size() % 3 == 0; };
  Line L           = compose(s, *p, lo);
  c.note("argv:" + show_words(L.words) + "\n" + describe(*p));
  std::map<std::pair<Cmd *, string>, Flag *> last;
  int tm = 0;
  for (auto const &m: L.mentions) if (!m.f->toggle.empty()) last[{m.f->owner, m.f->toggle}] = m.f, tm++;
  c.nontrivial = tm >= 2;
  c.label(num(last.size()) + " groups mentioned");
  l.run(L.words);
  expect_invoked(l, L, L.path.back());
  for (auto &[key, fl]: groups) {
    auto it = last.find(key);
    string where = "group " + key.second + " of <" + key.first->path() + ">";
    string chosen = l.cmds[key.first]->toggle_group(key.second);
    string want   = it == last.end() ? initial[key] : it->second->lng;
    PBT_CHECK(chosen == want, where << " reports '" << chosen << "' as chosen, expected '" << want << "'\n" << ctx(l, L));
    for (auto *f: fl) {
      string on = l.store_val(*f), won = it == last.end() ? canon(f->ty, f->def) : it->second == f ? "true" : "false";
      PBT_CHECK(on == won, where << ": member " << f->lng << " is " << on << ", expected " << won << "\n" << ctx(l, L));
    }
    if (it != last.end()) {
      string pth = key.first->path();
      string k   = pth.empty() ? key.second : pth + "." + key.second;
      auto got   = held(l.cli->get_for_cli(k), Ty::Str);
      PBT_CHECK(got == want, where << ": the store says " << pbt::vis(got) << ", expected " << want << "\n" << ctx(l, L));
    }
  }
  // flags outside of groups are untouched by the toggling
  auto fin = final_values(L);
  for (auto *f: p->flags()) if (f->toggle.empty()) {
    string want = canon(f->ty, fin.count(f) ? fin[f] : f->def), got = l.store_val(*f);
    PBT_CHECK(got == want, "flag " << f->path() << " reads " << pbt::vis(got) << ", expected " << pbt::vis(want) << "\n" << ctx(l, L));
  }
  expect_hits(l, L);
}
static pbt::Reg r_c11({"C11", "toggles", "at least two mentions of members of toggle groups", 7000, 40000, c11});

// ------------------------------------------------------------------ C13
static string random_bytes(Src &s, int hi) {
  string r;
  int n = s.in(0, hi);
  for (int i = 0; i < n; i++) r += (char) (s.chance(1, 3) ? s.in(1, 255) : s.in(32, 126));
  return r;
}
static string mutate(Src &s, string w) {
  static const string special = "-+=~/\"'[],. \\:;#?%$\t\n";
  int n = s.in(1, 3);
  for (int i = 0; i < n; i++) {
    size_t k = w.empty() ? 0 : s.draw((unsigned) w.size() + 1);
    switch (s.in(0, 5)) {
      case 0: if (k < w.size()) w.erase(k, 1); break;
      case 1: w.insert(k, 1, special[s.draw((unsigned) special.size())]); break;
      case 2: w.insert(k, 1, (char) s.in(1, 255)); break;
      case 3: w = w.substr(0, k); break;
      case 4: w += w.substr(k); break;
      default: w = s.pick(vector<string>{"-", "--", "/", "~~", "="}) + w; break;
    }
  }
  return w;
}
static vector<string> wild_line(Src &s, Program &p) {
  LineOpts lo;
  lo.mentions    = 4;
  lo.positionals = true;
  lo.terminator  = s.chance(1, 4);
  lo.leaf_only   = s.chance(2, 3);
  auto w         = compose(s, p, lo).words;
  vector<string> vocab;
  for (auto *k: p.cmds()) { if (!k->owner) continue; vocab.push_back(k->lng); if (!k->shr.empty()) vocab.push_back(k->shr); }
  for (auto *f: p.flags(true)) { vocab.push_back("--" + f->lng); if (!f->shr.empty()) vocab.push_back("-" + f->shr); vocab.push_back("--" + f->lng + "="); vocab.push_back("~~" + f->lng); }
  for (auto &b: builtin_cmds()) for (auto &x: b) vocab.push_back(x);
  static const vector<string> odd = {"", "-", "--", "---", "~~", "~", "/", "//", "=", "-=", "--=", "-\"", "--\"", "\"", "'", "[", "]", "[]", "+", "-+", "--+", "-1", "0", "1e999", "-9223372036854775809", "99999999999999999999", "nan", "inf", "0x10", "true", "'a", "a'", "[1,2", "1,,2", ",", "\\", "%n%s", "\n", "\xff\xfe"};
  int n = s.in(0, 6);
  for (int i = 0; i < n; i++) {
    size_t at = s.draw((unsigned) w.size() + 1);
    switch (s.in(0, 5)) {
      case 0: if (at < w.size()) w[at] = mutate(s, w[at]); break;
      case 1: if (at < w.size()) w.erase(w.begin() + (long) at); break;
      case 2: w.insert(w.begin() + (long) at, s.pick(odd)); break;
      case 3: w.insert(w.begin() + (long) at, random_bytes(s, 12)); break;
      case 4: w.insert(w.begin() + (long) at, s.pick(vocab)); break;
      default: if (at < w.size()) w.insert(w.begin() + (long) s.draw((unsigned) w.size() + 1), w[at]); break;
    }
  }
  return w;
}
static string snapshot(Live &l) {
  string r;
  for (auto *f: l.prog->flags()) if (l.flags.count(f)) r += f->path() + "=" + l.cli->get_for_cli(f->path()).as_string() + "#" + num(l.flags[f]->hit_count()) + l.flags[f]->hit_title() + "\n";
  for (auto *k: l.prog->cmds()) if (l.cmds.count(k)) r += k->path() + "#" + num(l.cmds[k]->hit_count()) + k->lng + "\n";
  return r;
}
static void c13(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 5;
  auto p      = gen_program(s, o);
  p->has_gpre = s.coin(), p->has_gpost = s.coin();
  for (auto *f: p->flags()) f->required = s.chance(1, 12), f->on_hit = s.chance(1, 6);
  vector<string> w = wild_line(s, *p);
  c.note("argv:" + show_words(w) + "\n" + describe(*p));
  c.nontrivial = w.size() >= 2;
  Live l(*p);
  bool tol = s.chance(1, 5), nolongest = s.chance(1, 8);
  auto setup = [&](Live &x) {
    if (tol) x.cli->treat_unknown_input_command_as_error(false), x.cli->treat_unknown_input_flag_as_error(false);
    if (nolongest) x.cli->set_match_longest_first(false);
  };
  setup(l);
  l.run(w);
  l.cli->set_match_longest_first(true);
  PBT_CHECK(!l.threw, "run() threw " << l.what << "\n" << ctxw(l, w));
  auto inv = l.of_kind({"invoke"});
  PBT_CHECK(inv.size() <= 1, "more than one handler ran: " << show(inv) << "\n" << ctxw(l, w));
  c.label(inv.size() ? "a handler ran" : l.rc == -1 ? "error" : "no handler ran");
  int rc = 0;
  if (inv.size()) for (auto *k: p->cmds()) if (k->path() == inv[0].who) rc = k->rc;
  PBT_CHECK(inv.size() ? l.rc == rc : l.rc == 0 || l.rc == -1, "exit status " << l.rc << ", handlers " << show(inv) << "\n" << ctxw(l, w));
  if (inv.size() && !nolongest) { // a required flag never stays away
    Cmd *t{};
    for (auto *k: p->cmds()) if (k->path() == inv[0].who) t = k;
    for (auto *f: scope_of(t, false)) PBT_CHECK(!f->required || l.flags[f]->hit_count() > 0, "required flag " << f->path() << " not given, but the handler ran\n" << ctxw(l, w));
  }
  Live m(*p);
  setup(m);
  m.run(w);
  m.cli->set_match_longest_first(true);
  PBT_CHECK(m.rc == l.rc && m.threw == l.threw && m.trace == l.trace, "a second fresh instance behaves differently: status " << m.rc << " handlers " << show(m.trace) << ", first: " << l.rc << " " << show(l.trace) << "\n" << ctxw(l, w));
  PBT_CHECK(snapshot(m) == snapshot(l), "a second fresh instance ends with other values\n" << snapshot(m) << "first:\n" << snapshot(l) << ctxw(l, w));
  PBT_CHECK(m.out == l.out && m.err == l.err, "a second fresh instance prints something else\n" << m.out << m.err << "\nfirst:\n" << l.out << l.err << ctxw(l, w));
}
static pbt::Reg r_c13({"C13", "wild", "at least two words on the command line", 6000, 60000, c13});

struct Peek : cmdr::opt::cmd { // the look-ups with further arguments are for derived classes
  static cmdr::opt::arg &flag(cmdr::opt::cmd &k, char const *t, bool ext) {
    cmdr::opt::arg &(cmdr::opt::cmd::*f)(char const *, bool) = &Peek::find_flag;
    return (k.*f)(t, ext);
  }
  static cmdr::opt::arg const *flag(cmdr::opt::cmd const &k, string const &t, bool ext) {
    cmdr::opt::arg const *(cmdr::opt::cmd::*f)(string const &, bool) const = &Peek::find_flag;
    return (k.*f)(t, ext);
  }
  static cmdr::opt::cmd const *command(cmdr::opt::cmd const &k, string const &t, bool ext) {
    cmdr::opt::cmd const *(cmdr::opt::cmd::*f)(string const &, bool) const = &Peek::find_command;
    return (k.*f)(t, ext);
  }
};
// ------------------------------------------------------------------ C14
static void c14(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 4);
  o.max_subs  = 4;
  o.max_flags = 5;
  auto p      = gen_program(s, o);
  Live l(*p);
  c.note(describe(*p));
  int n = 0;
  for (auto *k: p->cmds()) {
    auto &real        = *l.cmds[k];
    auto const &creal = real;
    string dk         = k->path().empty() ? "app.cli" : "app.cli." + k->path();
    string at         = "under <" + k->path() + ">";
    PBT_CHECK((k->owner ? "app.cli." + k->path() : string("app.cli")) == (real.dotted_key() == "cli" ? "app.cli" : real.dotted_key()) || true, "");
    if (k->owner) {
      n++;
      PBT_CHECK(real.owner() == l.cmds[k->owner], "command " << k->path() << " has another parent\n" << describe(*p));
      PBT_CHECK(real.dotted_key() == dk, "path of command " << k->path() << " is " << real.dotted_key() << "\n" << describe(*p));
      PBT_CHECK(real.title_long() == k->lng && real.title_short() == k->shr && real.title_aliases() == k->aliases, "titles of command " << k->path() << "\n" << describe(*p));
      PBT_CHECK(real.root() == static_cast<cmdr::opt::cmd *>(l.cli), "command " << k->path() << " has another root\n" << describe(*p));
      auto const &par = *l.cmds[k->owner];
      PBT_CHECK(&par(k->lng.c_str()) == &real, "long title of " << k->path() << " finds something else\n" << describe(*p));
      PBT_CHECK(par(k->lng.c_str()).valid(), "invalid");
      // other titles only in extensive look-ups
      auto ext = [&](string const &t) {
        bool is_long_of_another = false;
        for (auto &x: k->owner->subs) if (x.get() != k && (x->lng == t)) is_long_of_another = true;
        auto const &e = par(t.c_str(), true);
        bool ok = &e == &real;
        for (auto &x: k->owner->subs) if (x->shr == t || std::count(x->aliases.begin(), x->aliases.end(), t) || x->lng == t) ok = ok || &e == l.cmds[x.get()];
        if (!k->owner->owner && reserved_titles().count(t)) ok = true;
        PBT_CHECK(ok && e.valid(), "extensive look-up of '" << t << "' " << at << " finds " << (e.valid() ? e.dotted_key() : "nothing") << "\n" << describe(*p));
        int holders = 0;
        for (auto &x: k->owner->subs) if (x->shr == t || std::count(x->aliases.begin(), x->aliases.end(), t) || x->lng == t) holders++;
        if (holders == 1 && (k->owner->owner || !reserved_titles().count(t))) PBT_CHECK(&e == &real, "extensive look-up of '" << t << "' finds another command\n" << describe(*p));
        auto const &x = par(t.c_str());
        if (!is_long_of_another && (k->owner->owner || !reserved_titles().count(t))) PBT_CHECK(t == k->lng || !x.valid(), "look-up by long title finds '" << t << "'\n" << describe(*p));
        auto same = [](cmdr::opt::cmd const *a, cmdr::opt::cmd const &b) { return a ? a == &b : !b.valid(); };
        PBT_CHECK(same(Peek::command(par, t, true), e) && same(Peek::command(par, t, false), x), "the look-ups of command '" << t << "' differ\n" << describe(*p));
      };
      if (!k->shr.empty()) ext(k->shr);
      for (auto &a: k->aliases) ext(a);
    }
    for (auto &fp: k->flags) {
      if (fp->builtin) continue;
      n++;
      auto *f = fp.get();
      auto &a = *l.flags[f];
      PBT_CHECK(a.owner() == &real, "flag " << f->path() << " has another parent\n" << describe(*p));
      PBT_CHECK(a.dotted_key() == "app.cli." + f->path(), "path of flag " << f->path() << " is " << a.dotted_key() << "\n" << describe(*p));
      PBT_CHECK(a.title_long() == f->lng && a.title_short() == f->shr && a.title_aliases() == f->aliases, "titles of flag " << f->path() << "\n" << describe(*p));
      for (auto const &pre: {"", "-", "--"}) {
        auto const &g = creal[(pre + f->lng).c_str()];
        PBT_CHECK(&g == &a && g.valid(), "look-up of flag '" << pre << f->lng << "' " << at << " finds " << (g.valid() ? g.dotted_key() : "nothing") << "\n" << describe(*p));
      }
      // other titles only in extensive look-ups
      vector<string> others = f->aliases;
      if (!f->shr.empty()) others.push_back(f->shr);
      others.push_back(f->lng);
      for (auto const &t: others) {
        std::set<cmdr::opt::arg const *> holders;
        bool is_long = false;
        for (auto &x: k->flags) {
          if (x->lng == t) is_long = true;
          if (has_long(x.get(), t) || x->shr == t) holders.insert(x->builtin ? nullptr : l.flags[x.get()]);
        }
        if (holders.count(nullptr) || (!k->owner && reserved_titles().count(t))) continue;
        auto const &e  = Peek::flag(real, t.c_str(), true);
        auto const *ce = Peek::flag(creal, t, true);
        PBT_CHECK(holders.count(&e), "extensive look-up of flag '" << t << "' " << at << " finds " << (e.valid() ? e.dotted_key() : "nothing") << "\n" << describe(*p));
        PBT_CHECK(ce && holders.count(ce), "extensive look-up of flag '" << t << "' (const) " << at << " finds " << (ce ? ce->dotted_key() : "nothing") << "\n" << describe(*p));
        if (!is_long) PBT_CHECK(!Peek::flag(real, t.c_str(), false).valid() && !Peek::flag(creal, t, false), "look-up by long title finds flag '" << t << "'\n" << describe(*p));
      }
      PBT_CHECK(l.flag_val(*f) == canon(f->ty, f->def), "default of " << f->path() << " reads " << pbt::vis(l.flag_val(*f)) << "\n" << describe(*p));
      PBT_CHECK(l.store_val(*f) == canon(f->ty, f->def), "default of " << f->path() << " reads " << pbt::vis(l.store_val(*f)) << " in the store\n" << describe(*p));
      PBT_CHECK(a.hit_count() == 0, "hit before a run");
    }
    // titles nobody declared here
    for (int i = 0; i < 6; i++) {
      string t = s.coin() ? gen_word(s) : gen_unknown(s);
      if (t.empty() || t[0] == '-' || t[0] == '/') continue;
      if (!k->owner && reserved_titles().count(t)) continue;
      bool hasc = false, hasl = false, hasf = false;
      for (auto &x: k->subs) { hasl |= x->lng == t; hasc |= x->lng == t || x->shr == t || std::count(x->aliases.begin(), x->aliases.end(), t); }
      for (auto &x: k->flags) hasf |= x->lng == t;
      if (!hasc) PBT_CHECK(!creal(t.c_str(), true).valid(), "undeclared command '" << t << "' found " << at << "\n" << describe(*p));
      if (!hasl) PBT_CHECK(!creal(t.c_str()).valid(), "undeclared command '" << t << "' found " << at << "\n" << describe(*p));
      bool hase = hasf;
      for (auto &x: k->flags) hase |= has_long(x.get(), t) || x->shr == t;
      if (!hase) PBT_CHECK(!Peek::flag(real, t.c_str(), true).valid() && !Peek::flag(creal, t, true), "undeclared flag '" << t << "' found " << at << "\n" << describe(*p));
      if (!hasf) PBT_CHECK(!creal[t.c_str()].valid(), "undeclared flag '" << t << "' found " << at << "\n" << describe(*p));
    }
  }
  c.nontrivial = n >= 6;
}
static pbt::Reg r_c14({"C14", "lookup", "at least six commands and flags declared", 10000, 40000, c14});

// ------------------------------------------------------------------ C15
static void c15(Src &s, Case &c) {
  struct Inst { std::unique_ptr<Program> p; std::unique_ptr<Live> l; bool ran{}, late{}, undressed{}; Cmd *extra{}; string snap; std::shared_ptr<int> strays; };
  vector<Inst> v;
  int ops = s.in(3, 9), runs = 0, resets = 0;
  string log;
  size_t noted = 0;
  auto gen = [&] {
    GenOpts o;
    o.max_depth = s.in(1, 2);
    o.max_flags = 3;
    auto p = gen_program(s, o);
    dress_handlers(s, *p);
    for (auto *f: p->flags()) f->on_hit = s.chance(1, 5);
    if (s.chance(1, 3)) for (auto *k: p->cmds()) { // a toggle group
      bool any = false;
      for (auto &f: k->flags) if (!f->builtin && is_bool(f->ty)) f->toggle = "grp", f->def.b = f->implicit_default ? false : !any && f->def.b, any |= f->def.b;
    }
    return p;
  };
  auto dress = [&](Inst &x) { // callbacks and settings which a reset ends
    auto &a = *x.l->cli;
    auto n = x.strays = std::make_shared<int>(0);
    a.set_global_on_arg_added_handlers([n](cmdr::opt::arg *) { ++*n; });
    a.set_global_on_cmd_added_handlers([n](cmdr::opt::cmd *) { ++*n; });
    a.set_global_on_arg_matched_handlers([n](cmdr::opt::arg *) { ++*n; });
    a.set_global_on_cmd_matched_handlers([n](cmdr::opt::cmd *) { ++*n; });
    a.set_global_on_loading_externals([n](cmdr::app &) { ++*n; });
    a.set_global_on_post_run_handlers([n](cmdr::app const &) { ++*n; });
    a.set_on_handle_exception_ptr([n](std::exception_ptr const &) { ++*n; });
    a.treat_unknown_input_command_as_error(false);
    a.treat_unknown_input_flag_as_error(false);
    x.undressed = false;
  };
  auto full = [](Live &l) { std::ostringstream os; os << snapshot(l); l.cli->store().walk_by_full_keys([&](std::pair<string, cmdr::vars::store::node_pointer> const &kv) { os << kv.first << "=" << kv.second->as_string() << "\n"; }); return os.str(); };
  for (int i = 0; i < ops; i++) {
    size_t touched = 0;
    int op         = v.empty() ? 0 : s.in(0, 5);
    if (op == 0 && v.size() >= 3) op = 2;
    if (op == 0) {
      Inst x;
      x.p = gen();
      x.l = std::make_unique<Live>(*x.p);
      v.push_back(std::move(x));
      touched = v.size() - 1;
      log += "create #" + num(touched) + "\n" + describe(*v[touched].p);
      if (s.coin()) dress(v[touched]), log += "register callbacks\n";
    } else {
      touched = s.draw((unsigned) v.size());
      auto &x = v[touched];
      if (op == 1) { // declare one more flag and one more command
        if (!x.late) {
          auto *at = s.pick(x.p->cmds());
          auto f   = std::make_unique<Flag>();
          f->owner = at, f->lng = "late-flag", f->ty = Ty::Int, f->def.text = "7";
          auto o = Live::mk_opt(x.l.get(), *f);
          if (at->owner) *x.l->cmds[at] += o;
          else *x.l->cli += o;
          x.l->flags[f.get()] = x.l->cmds[at]->last_added_arg();
          at->flags.push_back(std::move(f));
          x.late = true;
          log += "declare --late-flag under <" + at->path() + "> of #" + num(touched) + "\n";
        }
      } else {
        if (x.ran || op == 5) {
          x.l->cli->reset();
          bool fresh = s.coin();
          if (x.strays) *x.strays = 0, x.undressed = true;
          if (fresh) x.p = gen(), x.l->prog = x.p.get(), x.late = false;
          x.l->declare_into(*x.l->cli);
          x.ran = false;
          resets++;
          log += "reset #" + num(touched) + (fresh ? " with a new program\n" + describe(*x.p) : ", same program\n");
        }
        if (op != 5 && x.undressed && s.chance(1, 3)) { // an unknown word is an error again
          string got;
          vector<string> w{s.coin() ? "--unknown-q" : "unknown-q"};
          if (w[0][0] == '-' ? greedy_long(&x.p->root, "unknown-q", got) != nullptr : false) throw pbt::Discard{};
          log += "run #" + num(touched) + ":" + show_words(w) + "\n";
          x.l->run(w);
          x.ran = true;
          runs++;
          PBT_CHECK(!x.l->threw && x.l->rc == 0 && x.l->of_kind({"gpre", "pre", "invoke", "unhooked", "post", "gpost"}).empty(), "handlers of #" << touched << ": " << show(x.l->trace) << ", status " << x.l->rc << "\n" << log);
          PBT_CHECK(x.l->err.find("unknown-q") != string::npos, "the unknown word is not reported\n" << x.l->err << log);
        } else if (op != 5) {
          LineOpts lo;
          lo.mentions      = 3;
          lo.simple_values = true;
          lo.positionals   = true;
          lo.no_neg        = true;
          Line L           = compose(s, *x.p, lo);
          bool thrown      = x.undressed && L.path.back()->has_invoke && s.chance(1, 3);
          if (thrown) L.path.back()->throws = 1, log += "(the handler throws) ";
          log += "run #" + num(touched) + ":" + show_words(L.words) + "\n";
          c.note(log.substr(noted)), noted = log.size();
          x.l->run(L.words);
          x.ran = true;
          runs++;
          auto *t = L.path.back();
          t->throws = 0;
          PBT_CHECK(!x.l->threw, "run() threw " << x.l->what << "\n" << log);
          if (thrown) PBT_CHECK((x.l->out + x.l->err).find("thrown by the handler") != string::npos, "the exception is not reported\n" << log);
          auto inv = x.l->of_kind({"invoke"});
          PBT_CHECK(inv.size() == (t->has_invoke ? 1u : 0u), "handlers of #" << touched << ": " << show(x.l->trace) << "\n" << log);
          if (t->has_invoke) PBT_CHECK(inv[0].who == t->path() && inv[0].args == L.rest && (thrown || x.l->rc == t->rc), "handlers of #" << touched << ": " << show(inv) << ", status " << x.l->rc << "\n" << log);
          vector<Event> wh;
          for (auto const &m: L.mentions) if (m.f->on_hit) wh.push_back({"flaghit", m.f->path(), {}});
          PBT_CHECK(x.l->of_kind({"flaghit"}) == wh, "hit handlers of #" << touched << ": " << show(x.l->of_kind({"flaghit"})) << "\n" << log);
          PBT_CHECK(x.l->of_kind({"gpre"}).size() == (x.p->has_gpre ? 1u : 0u) && x.l->of_kind({"postrun"}).size() == (x.p->has_postrun ? 1u : 0u), "global handlers of #" << touched << ": " << show(x.l->trace) << "\n" << log);
          expect_path(*x.l, L);
          expect_hits(*x.l, L);
          auto fin = final_values(L);
          for (auto *f: x.p->flags()) if (f->toggle.empty()) {
            string want = canon(f->ty, fin.count(f) ? fin[f] : f->def), got = x.l->store_val(*f);
            PBT_CHECK(got == want, "flag " << f->path() << " of #" << touched << " reads " << pbt::vis(got) << ", expected " << pbt::vis(want) << "\n" << log);
          }
          std::map<std::pair<Cmd *, string>, Flag *> last;
          for (auto const &m: L.mentions) if (!m.f->toggle.empty()) last[{m.f->owner, m.f->toggle}] = m.f;
          for (auto *f: x.p->flags()) if (!f->toggle.empty()) {
            auto it = last.find({f->owner, f->toggle});
            string want = it == last.end() ? canon(f->ty, f->def) : it->second == f ? "true" : "false", got = x.l->store_val(*f);
            PBT_CHECK(got == want, "toggle flag " << f->path() << " of #" << touched << " reads " << got << ", expected " << want << "\n" << log);
          }
        }
      }
    }
    for (auto &x: v) if (x.undressed) PBT_CHECK(*x.strays == 0, "callbacks registered before a reset were called " << *x.strays << " times\n" << log);
    for (size_t j = 0; j < v.size(); j++) {
      string now = full(*v[j].l);
      if (j != touched) PBT_CHECK(now == v[j].snap, "instance #" << j << " changed although #" << touched << " was used\n" << now << "before:\n" << v[j].snap << log);
      v[j].snap = now;
    }
  }
  c.note(log.substr(noted)), noted = log.size();
  c.nontrivial = runs >= 2 && (v.size() >= 2 || resets >= 1);
  if (resets) c.label("with a reset");
  for (auto &x: v) if (x.undressed) { c.label("callbacks registered before a reset"); break; }
  if (v.size() > 1) c.label("several instances");
}
static pbt::Reg r_c15({"C15", "instances", "at least two runs, with several instances or a reset", 4000, 30000, c15});

// ------------------------------------------------------------------ C16
// callbacks for declarations: once for everything declared behind their registration, in order
static void c16added(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_flags = 4;
  auto p      = gen_program(s, o);
  Live l(*p, false);
  auto &a = *l.cli;
  vector<string> want, got;
  std::map<string, Flag *> flag_of;
  int ncb = 0;
  auto add_cb = [&] {
    int me = ncb++;
    bool arg = s.coin();
    if (s.chance(1, 8)) { // an empty callback is no callback
      if (arg) a.set_global_on_arg_added_handlers({});
      else a.set_global_on_cmd_added_handlers({});
    }
    if (arg)
      a.set_global_on_arg_added_handlers([&got, &a, &l, &flag_of, me](cmdr::opt::arg *x) {
        string k = strip_app(x->dotted_key());
        got.push_back("arg" + num(me) + ":" + k + "=" + (a.store().has("app.cli", k.c_str()) ? l.store_val(*flag_of[k]) : "<not stored>") + (x->owner() && &(*x->owner())[x->title_long().c_str()] == x ? "" : " <not found>"));
      });
    else
      a.set_global_on_cmd_added_handlers([&got, me](cmdr::opt::cmd *x) {
        got.push_back("cmd" + num(me) + ":" + strip_app(x->dotted_key()) + (x->owner() && &(*x->owner())(x->title_long().c_str()) == x ? "" : " <not found>"));
      });
    return std::make_pair(arg, me);
  };
  vector<std::pair<bool, int>> cbs; // in the order of registration
  int late = 0, refused = 0;
  std::function<void(cmdr::opt::cmd &, Cmd &)> declare = [&](cmdr::opt::cmd &real, Cmd &m) {
    l.cmds[&m] = &real;
    auto maybe = [&] {
      if (cbs.size() < 4 && s.chance(1, 3)) cbs.push_back(add_cb()), late++;
    };
    for (auto &f: m.flags) {
      if (f->builtin) continue;
      maybe();
      flag_of[f->path()] = f.get();
      auto op = Live::mk_opt(&l, *f);
      for (auto &cb: cbs) if (cb.first) want.push_back("arg" + num(cb.second) + ":" + f->path() + "=" + canon(f->ty, f->def));
      real += op;
      l.flags[f.get()] = real.last_added_arg();
      if (s.chance(1, 6)) { // a refused declaration calls nothing
        try {
          real += op;
          pbt::fail("a duplicate flag was accepted");
        } catch (cmdr::exception::cmdr_exception const &) {
          refused++;
        }
      }
    }
    for (auto &k: m.subs) {
      maybe();
      auto sc = Live::mk_cmd(&l, *k);
      for (auto &cb: cbs) if (!cb.first) want.push_back("cmd" + num(cb.second) + ":" + k->path());
      real += sc;
      declare(*real.last_added_command(), *k);
    }
  };
  if (s.coin()) cbs.push_back(add_cb());
  declare(a, p->root);
  string log = "callbacks " + num((int) cbs.size()) + ", refused " + num(refused) + "\n" + describe(*p);
  c.note(log);
  c.nontrivial = want.size() >= 4;
  if (late) c.label("registered between declarations");
  for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
    string w = i < want.size() ? want[i] : "nothing", g = i < got.size() ? got[i] : "nothing";
    PBT_CHECK(w == g, "call " << i << " of the added-callbacks: " << pbt::vis(g) << ", expected " << pbt::vis(w) << "\n" << log);
  }
}
static pbt::Reg r_c16a({"C16", "added", "at least four calls", 12000, 48000, c16added});

// callbacks for matches and hits: once per mention or command word, in order, and they see what was just read
static void c16matched(Src &s, Case &c) {
  using cmdr::opt::Action;
  GenOpts o;
  o.max_depth = s.in(1, 4);
  o.max_flags = 5;
  if (s.coin()) o.types = {Ty::Bool, Ty::Bool, Ty::Int, Ty::Str};
  auto p      = gen_program(s, o);
  if (s.chance(1, 3)) {
    c.label("with toggle groups");
    for (auto *k: p->cmds()) {
      bool any = false;
      for (auto &f: k->flags)
        if (!f->builtin && is_bool(f->ty) && s.chance(3, 4)) f->toggle = "grp", f->def.b = f->implicit_default ? false : !any && f->def.b, any |= f->def.b;
    }
  }
  p->has_postrun = true;
  Live l(*p);
  auto &a = *l.cli;
  LineOpts lo;
  lo.mentions      = 5;
  lo.simple_values = true;
  lo.positionals   = true;
  lo.terminator    = true;
  Line L           = compose(s, *p, lo);
  auto *t          = L.path.back();
  // the callbacks
  int n_arg = s.in(0, 2), n_cmd = s.in(0, 2), n_ext = s.in(0, 2);
  vector<string> got, want;
  auto rest = [](string_array const &r) { string o; for (auto const &x: r) o += " " + pbt::vis(x); return o; };
  std::map<cmdr::opt::arg const *, Flag *> of_arg;
  for (auto &x: l.flags) of_arg[x.second] = x.first;
  for (int i = 0; i < n_arg; i++) {
    if (s.chance(1, 8)) a.set_global_on_arg_matched_handlers({});
    a.set_global_on_arg_matched_handlers([&, i](cmdr::opt::arg *x) {
      auto it = of_arg.find(x);
      if (it == of_arg.end()) return got.push_back("arg" + num(i) + " of an unknown flag " + x->dotted_key());
      got.push_back("arg" + num(i) + ":" + it->second->path() + "=" + l.store_val(*it->second) + " " + x->hit_title() + " #" + num(x->hit_count()));
    });
  }
  for (int i = 0; i < n_cmd; i++) {
    if (s.chance(1, 8)) a.set_global_on_cmd_matched_handlers({});
    a.set_global_on_cmd_matched_handlers([&, i](cmdr::opt::cmd *x) { got.push_back("cmd" + num(i) + ":" + strip_app(x->dotted_key()) + " " + x->hit_title() + " #" + num(x->hit_count())); });
  }
  // sources read before the command line
  std::map<Flag *, Val> ext;
  vector<Flag *> pool;
  for (auto *f: p->flags()) if (f->toggle.empty() && (f->ty == Ty::Bool || f->ty == Ty::Int || f->ty == Ty::Str)) pool.push_back(f);
  for (int i = 0; i < n_ext; i++) {
    if (s.chance(1, 8)) a.set_global_on_loading_externals({});
    vector<std::pair<Flag *, Val>> sets;
    int k = pool.empty() ? 0 : s.in(0, 3);
    for (int j = 0; j < k; j++) {
      auto *f = s.pick(pool);
      sets.push_back({f, gen_val(s, f->ty, true)});
      ext[f] = sets.back().second;
    }
    a.set_global_on_loading_externals([&, i, sets](cmdr::app &x) {
      bool clean = &x == &a;
      for (auto &m: l.cmds) if (m.first->owner && m.second->hit_count()) clean = false;
      for (auto &m: l.flags) if (m.second->hit_count()) clean = false;
      got.push_back("ext" + num(i) + (clean ? "" : " after something was read"));
      for (auto &e: sets) {
        string k = "cli." + e.first->path();
        if (e.first->ty == Ty::Bool) x.set(k.c_str(), cmdr::vars::variable(e.second.b));
        else if (e.first->ty == Ty::Int) x.set(k.c_str(), cmdr::vars::variable(std::stoi(plain_text(Ty::Int, e.second))));
        else x.set(k.c_str(), cmdr::vars::variable(e.second.text));
      }
    });
    want.push_back("ext" + num(i));
  }
  // what is expected, and hit handlers on some flags and commands
  size_t nev = L.mentions.size() + L.path.size();
  long stop  = s.chance(1, 3) ? s.in(0, (int) nev - 1) : -1; // the event whose handler ends the run
  if (stop >= 0 && s.coin()) { // inside a group of short flags, if there is one
    vector<long> inside;
    for (size_t k = 0; k + 1 < L.mentions.size(); k++)
      if (L.mention_next[k] == L.mention_next[k + 1]) inside.push_back((long) (k + (size_t) std::count_if(L.path_mentions.begin(), L.path_mentions.end(), [&](size_t m) { return m <= k; })));
    if (!inside.empty()) stop = s.pick(inside);
  }
  long ask   = stop < 0 && s.chance(1, 3) ? (long) nev - 1 : -1; // the event whose handler requests an action
  static const Action aborts[] = {Action::Abortion, (Action) -1, (Action) 99, (Action) -77};
  static const Action reqs[]   = {Action::RequestHelpScreen, Action::RequestBuildInfoScreen, Action::RequestVersionsScreen, Action::RequestTreeScreen, Action::RequestManualScreen, Action::RequestDebugInfoScreen, (Action) 1, (Action) 30};
  static const Action goes[]   = {Action::OK, Action::Continue};
  Action stop_rc = aborts[s.in(0, 3)], req = reqs[s.in(0, 7)], go = goes[s.in(0, 1)];
  int registered = ask >= 0 ? s.in(0, 2) : 0, action_rc = s.in(-3, 120), actions = 0;
  if (registered) {
    a.register_action(req == Action::RequestTreeScreen ? Action::RequestHelpScreen : Action::RequestTreeScreen, [&](auto &, int, char **) { got.push_back("wrong action"); return 77; });
    if (registered == 2) a.register_action(req, [&](auto &, int, char **) { got.push_back("replaced action"); return 78; });
    a.register_action(req, [&](auto &pc, int argc, char **) {
      actions++;
      got.push_back("action " + strip_app(pc.last_matched_cmd().dotted_key()) + " " + num(argc));
      return action_rc;
    });
  }
  long ev = -1; // counts the hits of handlers as they happen
  std::set<Flag *> fh;
  std::set<Cmd *> ch;
  for (auto &f: l.flags) if (s.chance(1, 2)) fh.insert(f.first);
  for (auto &k: l.cmds) if (k.first->owner && s.chance(1, 2)) ch.insert(k.first);
  // expected sequence
  std::map<Flag *, int> count;
  std::map<Flag *, Val> cur = ext;
  vector<Action> answers; // of the handlers, in the order they are called
  bool ended = false;
  size_t mi = 0, pi = 0;
  bool bad = false;
  for (size_t i = 0; i < nev && !ended; i++) {
    Action rc = (long) i == stop ? stop_rc : (long) i == ask ? req : go;
    if (pi < L.path.size() && L.path_mentions[pi] == mi) {
      auto *k = L.path[pi];
      if ((long) i == stop || (long) i == ask) ch.insert(k);
      for (int j = 0; j < n_cmd; j++) want.push_back("cmd" + num(j) + ":" + k->path() + " " + L.path_titles[pi] + " #1");
      if (ch.count(k)) {
        string_array r(L.words.begin() + (long) L.path_next[pi], L.words.end());
        want.push_back("hit " + k->path() + rest(r));
        answers.push_back(rc);
        ended = (long) i == stop;
      }
      pi++;
    } else {
      auto const &m = L.mentions[mi];
      if ((long) i == stop || (long) i == ask) fh.insert(m.f);
      cur[m.f] = m.v;
      count[m.f]++;
      for (int j = 0; j < n_arg; j++) want.push_back("arg" + num(j) + ":" + m.f->path() + "=" + canon(m.f->ty, m.v) + " " + m.title + " #" + num(count[m.f]));
      if (fh.count(m.f)) {
        string_array r(L.words.begin() + (long) L.mention_next[mi], L.words.end());
        want.push_back("hit " + (pi ? L.path[pi - 1]->path() : string()) + " " + m.f->path() + " " + canon(m.f->ty, m.v) + rest(r));
        answers.push_back(rc);
        ended = (long) i == stop;
      }
      mi++;
    }
  }
  (void) bad;
  // a flag inserted above because of `stop`/`ask` may have been mentioned before: then it was expected without its handler
  for (size_t k = 0; k + 1 < nev; k++) {
    long e = stop >= 0 ? stop : ask;
    if (e < 0) break;
    size_t m2 = 0, p2 = 0;
    Flag *special{};
    for (long i = 0; i <= e; i++) {
      if (p2 < L.path.size() && L.path_mentions[p2] == m2) { if (i == e) special = nullptr; p2++; }
      else { if (i == e) special = L.mentions[m2].f; m2++; }
    }
    if (special && std::count_if(L.mentions.begin(), L.mentions.end(), [&](Mention const &m) { return m.f == special; }) > 1) throw pbt::Discard{};
    break;
  }
  for (auto *f: fh)
    l.flags[f]->on_flag_hit([&, f](cmdr::opt::cmd const &k, cmdr::opt::arg const &x, string_array const &r) {
      got.push_back("hit " + strip_app(k.dotted_key()) + " " + strip_app(x.dotted_key()) + " " + l.store_val(*f) + rest(r));
      ev++;
      return ev < (long) answers.size() ? answers[(size_t) ev] : Action::Continue;
    });
  for (auto *f: l.flags.size() ? p->flags() : vector<Flag *>{})
    if (l.flags.count(f) && !fh.count(f)) l.flags[f]->on_flag_hit({});
  for (auto *k: ch)
    l.cmds[k]->on_command_hit([&](cmdr::opt::cmd const &x, string_array const &r) {
      got.push_back("hit " + strip_app(x.dotted_key()) + rest(r));
      ev++;
      return ev < (long) answers.size() ? answers[(size_t) ev] : Action::Continue;
    });
  string log = "argv:" + show_words(L.words) + "\n" + (stop >= 0 ? "ended by handler " + num((int) stop) + "\n" : ask >= 0 ? "action requested, " + num(registered) + " registered\n" : "") + describe(*p);
  c.note(log);
  c.nontrivial = want.size() >= 5;
  c.label(stop >= 0 ? "ended by a handler" : ask >= 0 ? "action requested" : "runs through");
  l.run(L.words);
  PBT_CHECK(!l.threw, "run() threw " << l.what << "\n" << log);
  bool acted = ask >= 0;
  if (acted && registered) want.push_back("action " + t->path() + " " + num((int) L.words.size() + 1));
  for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
    string w = i < want.size() ? want[i] : "nothing", g = i < got.size() ? got[i] : "nothing";
    PBT_CHECK(w == g, "callback " << i << ": " << pbt::vis(g) << ", expected " << pbt::vis(w) << "\n" << log);
  }
  auto inv = l.of_kind({"invoke"});
  bool runs = t->leaf() && stop < 0 && !acted && t->has_invoke;
  if (!p->has_gpre && !t->has_pre) PBT_CHECK(inv.size() == (runs ? 1u : 0u), "handlers called: " << show(inv) << "\n" << log);
  if (stop >= 0 || acted) PBT_CHECK(l.of_kind({"invoke", "pre", "post", "gpre", "gpost", "unhooked"}).empty(), "handlers called: " << show(l.trace) << "\n" << log);
  if (stop >= 0) PBT_CHECK(l.rc == 0, "exit status " << l.rc << " although a hit handler ended the run\n" << log);
  if (acted) PBT_CHECK(l.rc == (registered ? action_rc : 0), "exit status " << l.rc << " of the requested action\n" << log);
  PBT_CHECK(l.of_kind({"postrun"}).size() == 1, "post-run callbacks: " << show(l.trace) << "\n" << log);
  // what the sources set stays unless the command line says otherwise
  if (stop < 0)
    for (auto *f: pool) {
      auto it = cur.find(f);
      string v = canon(f->ty, it == cur.end() ? f->def : it->second);
      PBT_CHECK(l.store_val(*f) == v, "flag " << f->path() << " reads " << pbt::vis(l.store_val(*f)) << ", expected " << pbt::vis(v) << "\n" << log);
    }
}
static pbt::Reg r_c16m({"C16", "matched", "at least five calls", 4500, 40000, c16matched});
PBT_MAIN()
