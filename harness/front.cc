// Check C19: the ready-made accessors (cmdr::cli, get, set, has, get_for_cli, is_debug, ...) speak
// for the application created last, and app::get/set/get_for_cli for their own application.
#include "cli_model.hh"
using namespace cm;

namespace {
  // ---- settings -----------------------------------------------------------------
  struct Setting { Ty ty; Val v; };
  struct App {
    cmdr::app *a{};
    string prefix{"app"};
    std::map<string, Setting> m; // full key -> what was set last
  };
  template<class T>
  string text_of(T const &v) {
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, float>) return fnum(v);
    else if constexpr (std::is_same_v<T, double>) return dnum(v);
    else if constexpr (std::is_same_v<T, std::string>) return v;
    else if constexpr (std::is_same_v<T, char const *>) return v;
    else return num(v);
  }
  template<class E>
  string text_of(std::vector<E> const &v) {
    string r = "[";
    for (auto const &e: v) r += text_of(e) + "\x1f";
    return r + "]";
  }
  // f is called with an object of the type t
  template<class F>
  auto typed(Ty t, F &&f) {
    switch (t) {
#define T1(TYC, T) case TYC: return f(static_cast<T *>(nullptr));
      T1(Ty::Int, int) T1(Ty::Uint, unsigned) T1(Ty::I16, int16_t) T1(Ty::U16, uint16_t) T1(Ty::Long, long) T1(Ty::Ulong, unsigned long)
      T1(Ty::LL, long long) T1(Ty::ULL, unsigned long long) T1(Ty::Flt, float) T1(Ty::Dbl, double) T1(Ty::Str, std::string) T1(Ty::CStr, char const *)
      T1(Ty::VInt, std::vector<int>) T1(Ty::VUint, std::vector<unsigned>) T1(Ty::VLong, std::vector<long>) T1(Ty::VDbl, std::vector<double>) T1(Ty::VStr, std::vector<std::string>)
#undef T1
      default: return f(static_cast<bool *>(nullptr));
    }
  }
  std::vector<Ty> const all_types{Ty::Bool, Ty::Int, Ty::Str, Ty::CStr, Ty::Long, Ty::ULL, Ty::Dbl, Ty::Uint, Ty::I16, Ty::U16, Ty::Flt, Ty::LL, Ty::Ulong, Ty::VInt, Ty::VStr, Ty::VLong, Ty::VDbl, Ty::VUint};

  void set_via(int how, App &x, bool current, string const &key, Setting const &v) {
    auto const a   = make_any(v.ty, v.v);
    string full    = x.prefix + "." + key;
    typed(v.ty, [&](auto *p) {
      using T      = std::decay_t<decltype(*p)>;
      T const &val = *std::any_cast<T>(&a);
      switch (how) {
        case 0: if (current) { T w = val; cmdr::set(key.c_str(), w); break; } [[fallthrough]];
        case 1: { T w = val; x.a->set(key.c_str(), w); break; }
        case 2: if (current) { cmdr::set(key.c_str(), T(val)); break; } [[fallthrough]];
        case 3: { cmdr::vars::variable w{val}; x.a->set(key.c_str(), w); break; }
        case 4: if (current) { cmdr::set(key.c_str(), cmdr::vars::variable{val}); break; } [[fallthrough]];
        case 5: x.a->store().set_raw(full.c_str(), val); break;
        default: if (current) { cmdr::vars::variable const w{val}; cmdr::set(key.c_str(), w); break; } x.a->set(key.c_str(), cmdr::vars::variable{val});
      }
    });
  }
  string get_via(int how, App &x, bool current, string const &key, Ty ty) {
    string full = x.prefix + "." + key;
    return typed(ty, [&](auto *p) -> string {
      using T = std::decay_t<decltype(*p)>;
      cmdr::app const &ca = *x.a;
      switch (how) {
        case 0: if (current) return text_of(cmdr::get<T>(key)); [[fallthrough]];
        case 1: return held(x.a->get(key), ty);
        case 2: if (current) return text_of(cmdr::get<T>(key.c_str())); [[fallthrough]];
        case 3: return held(ca.get(key.c_str()), ty);
        case 4: return text_of(T(x.a->get(key.c_str()).template as<T>()));
        case 5: return held(ca.get(key), ty);
        case 6: if (current) return held(cmdr::get_store().get_raw(full), ty); [[fallthrough]];
        default: return held(x.a->store().get_raw(full.c_str()), ty);
      }
    });
  }
  void settings(Src &s, Case &c) {
    std::vector<App> apps;
    static const std::vector<string> keys{"port", "tls.cert", "tls.key", "server.name", "server.pool.size", "a", "b.c.d-e", "cfgs.x"};
    static const std::vector<string> prefixes{"app", "conf", "my.settings", "x"};
    int ops = s.in(4, 24), reads = 0;
    string log;
    auto say = [&](string const &t) { c.note(t); log += "  " + t + "\n"; };
    auto make = [&] {
      App x;
      x.a = &cmdr::app::create_new(("app" + num(apps.size())).c_str(), "1", "an author", "(c)", "d", "");
      apps.push_back(x);
      say("create #" + num(apps.size() - 1));
      PBT_CHECK(&cmdr::get_app() == x.a && cmdr::app_holder::instance().get_ptr() == x.a, "get_app() is not the application created last\n" << log);
    };
    make();
    for (int i = 0; i < ops; i++) {
      auto n    = s.draw((unsigned) apps.size());
      bool cur  = n + 1 == apps.size();
      auto &x   = apps[n];
      string nm = "#" + num(n);
      int op    = s.in(0, 9);
      if (op == 9 && apps.size() < 3 && s.chance(1, 3)) { make(); continue; }
      if (op == 8 && s.chance(1, 3)) {
        x.prefix = s.pick(prefixes);
        x.a->store_prefix(x.prefix.c_str());
        say(nm + " store_prefix(" + x.prefix + ")");
        PBT_EQ(x.a->store_prefix(), x.prefix, "store_prefix()\n" << log);
        continue;
      }
      string key = s.pick(keys), full = x.prefix + "." + key;
      int how = s.in(0, 6);
      if (op <= 3) {
        Setting v;
        v.ty = s.pick(all_types);
        v.v  = gen_val(s, v.ty, true);
        say(nm + " set(" + key + ", " + ty_name(v.ty) + " " + pbt::vis(plain_text(v.ty, v.v)) + ") way " + num(how));
        set_via(how, x, cur, key, v);
        x.m[full] = v;
      } else if (op == 4) {
        bool want = x.m.count(full) != 0;
        say(nm + " has(" + key + ")");
        PBT_EQ(x.a->has(key.c_str()), want, "app::has(" << key << ")\n" << log);
        if (cur) PBT_EQ(cmdr::has(key.c_str()), want, "cmdr::has(" << key << ")\n" << log);
      } else {
        auto it = x.m.find(full);
        how     = s.in(0, 7);
        if (it == x.m.end()) { // what was never set cannot be read as anything
          bool threw = false;
          say(nm + " get(" + key + "), which was not set, way " + num(how));
          try {
            if (cur) (void) cmdr::get<int>(key);
            else (void) x.a->get(key).as<int>();
          } catch (std::exception const &) { threw = true; }
          PBT_CHECK(threw, "reading " << full << ", which was never set, gives a value\n" << log);
          PBT_CHECK(!x.a->has(key.c_str()), full << " exists after it was read\n" << log);
          continue;
        }
        Ty ty = it->second.ty;
        say(nm + " get<" + ty_name(ty) + ">(" + key + ") way " + num(how));
        PBT_EQ(get_via(how, x, cur, key, ty), canon(ty, it->second.v), "setting " << full << " of " << nm << "\n" << log);
        reads++;
        Ty other = s.pick(all_types);
        if (other == Ty::CStr) { // any text can be read as characters, nothing else can
          string got = cur ? cmdr::get<char const *>(key) : x.a->get(key).as<char const *>();
          PBT_EQ(got, is_str(ty) ? it->second.v.text : string(), "setting " << full << " of type " << ty_name(ty) << " read as characters\n" << log);
        } else if (other != ty) { // a setting of another type is refused, not misread
          bool threw = false;
          try { typed(other, [&](auto *p) { using T = std::decay_t<decltype(*p)>; if (cur) (void) cmdr::get<T>(key); else (void) x.a->get(key).template as<T>(); }); } catch (std::exception const &) { threw = true; }
          PBT_CHECK(threw, "setting " << full << " of type " << ty_name(ty) << " was read as " << ty_name(other) << "\n" << log);
        }
      }
    }
    for (size_t n = 0; n < apps.size(); n++) for (auto const &k: keys) for (auto const &pf: prefixes) {
      string full = pf + "." + k;
      auto it     = apps[n].m.find(full);
      PBT_EQ(apps[n].a->store().has(pf.c_str(), k.c_str()), it != apps[n].m.end(), "existence of " << full << " of #" << n << " in the end\n" << log);
      if (it != apps[n].m.end()) PBT_EQ(held(apps[n].a->store().get_raw(full), it->second.ty), canon(it->second.ty, it->second.v), "setting " << full << " of #" << n << " in the end\n" << log);
    }
    c.nontrivial = reads >= 2;
    if (apps.size() > 1) c.label("several applications");
  }

  // ---- flags ----------------------------------------------------------------------
  struct Bi { char const *path, *shr; };
  void flags(Src &s, Case &c) {
    GenOpts o;
    o.max_depth = s.in(1, 2);
    auto p      = gen_program(s, o);
    std::unique_ptr<Live> old;
    std::unique_ptr<Program> oldp;
    if (s.chance(1, 3)) oldp = gen_program(s, o), old = std::make_unique<Live>(*oldp);
    Live l(*p);
    LineOpts lo;
    lo.simple_values = true;
    lo.positionals   = true;
    lo.no_neg        = true;
    Line L           = compose(s, *p, lo);
    // built-in switches in front of everything else
    static const std::vector<std::pair<string, std::vector<string>>> sw{{"verbose", {"-v", "--verbose"}}, {"quiet", {"-q", "--quiet"}}, {"debug", {"-D", "--debug", "--debug-mode"}}, {"trace", {"-tr", "--trace", "--trace-mode"}}, {"no-color", {"-nc", "--no-color"}}};
    std::map<string, int> hits;
    std::vector<string> words;
    int k = s.in(0, 5);
    for (int i = 0; i < k; i++) {
      auto const &b = s.pick(sw);
      hits[b.first]++;
      words.push_back(s.pick(b.second));
    }
    bool help = s.chance(1, 6);
    words.insert(words.end(), L.words.begin(), L.words.end());
    if (help) words.insert(words.begin(), s.coin() ? "--help" : "-h");
    // letters of -v, -q ... may be claimed by the generated program too: it has no other flags there
    for (auto *f: p->flags()) if (f->lng == "verbose") throw pbt::Discard{};
    bool moved = s.chance(1, 3); // where settings are kept; flags stay where they are
    if (moved) l.cli->store_prefix("conf");
    auto show_all = [&] { return string(moved ? "store_prefix(conf) " : "") + "argv:" + show_words(words) + "\n" + describe(*p) + "stderr: " + l.err.substr(0, 500); };
    c.note(show_all());
    PBT_CHECK(!cmdr::is_verbose() && !cmdr::is_debug() && !cmdr::is_trace() && !cmdr::is_quiet() && !cmdr::is_no_color() && !cmdr::is_help_hit() && cmdr::get_verbose_level() == 0, "switches before the first run");
    l.run(words);
    PBT_CHECK(!l.threw, "run() threw " << l.what << "\n" << show_all());
    PBT_EQ(cmdr::is_verbose(), hits["verbose"] > 0, "is_verbose()\n" << show_all());
    PBT_EQ(cmdr::is_debug(), hits["debug"] > 0, "is_debug()\n" << show_all());
    PBT_EQ(cmdr::is_trace(), hits["trace"] > 0, "is_trace()\n" << show_all());
    PBT_EQ(cmdr::is_quiet(), hits["quiet"] > 0, "is_quiet()\n" << show_all());
    PBT_EQ(cmdr::is_no_color(), hits["no-color"] > 0, "is_no_color()\n" << show_all());
    PBT_EQ(cmdr::get_verbose_level(), hits["verbose"], "get_verbose_level()\n" << show_all());
    PBT_EQ(cmdr::is_help_hit(), help, "is_help_hit()\n" << show_all());
    PBT_EQ(l.of_kind({"invoke"}).size(), std::size_t(help ? 0 : 1), "handlers called\n" << show_all());
    auto fin = final_values(L);
    int n    = 0;
    for (auto *f: p->flags()) {
      string want = canon(f->ty, fin.count(f) ? fin[f] : f->def), path = f->path();
      string got  = typed(f->ty, [&](auto *q) -> string {
        using T = std::decay_t<decltype(*q)>;
        if (f->ty == Ty::CStr || f->ty == Ty::Str) return held(cmdr::get_app().get_for_cli(path), f->ty);
        return text_of(s.coin() ? cmdr::get_for_cli<T>(path) : cmdr::get_for_cli<T>(path.c_str()));
      });
      PBT_EQ(got, want, "get_for_cli of --" << path << "\n" << show_all());
      cmdr::app const &ca = *l.cli;
      PBT_EQ(held(s.coin() ? ca.get_for_cli(path) : ca.get_for_cli(path.c_str()), f->ty), want, "app::get_for_cli of --" << path << "\n" << show_all());
      if (!moved) PBT_EQ(held(l.cli->get(l.cli->cli_prefix().substr(4) + "." + path), f->ty), want, "app::get of --" << path << "\n" << show_all());
      n += fin.count(f) != 0;
    }
    c.nontrivial = n >= 1 && k >= 1;
    if (old) c.label("several applications");
    if (help) c.label("help");
  }

  // ---- the first application of a process ------------------------------------------
  void first(Src &s, Case &c) {
    PBT_CHECK(cmdr::app_holder::instance().get_ptr() == nullptr, "there is an application although none was created");
    string name = gen_word(s), ver = num(s.in(0, 9)) + "." + num(s.in(0, 99)), author = s.chance(1, 4) ? "" : gen_text(s, false, true), copy = s.chance(1, 4) ? "" : gen_text(s, false, true), desc = gen_text(s, true, true);
    int how = s.in(0, 2);
    c.note("first application made " + string(how == 0 ? "by cli()" : how == 1 ? "by new_cli()" : "by app::create()") + ": " + name + " " + ver);
    c.nontrivial = true;
    auto check = [&](cmdr::app &a, char const *what) {
      PBT_CHECK(&cmdr::get_app() == &a && &a.uniq() == &a && &cmdr::get_store() == &a.store(), "get_app() is not the application " << what);
      PBT_EQ(a.name() + "|" + a.version() + "|" + a.author() + "|" + a.copyright() + "|" + a.description(), name + "|" + ver + "|" + author + "|" + copy + "|" + desc, "what is known of the application " << what);
    };
    auto use = [&](cmdr::app &a) {
      check(a, "after it was made");
      // asking again gives the same application, whatever name is given
      auto &again = cmdr::cli("another", "9.9.9", "someone else", "", "");
      PBT_CHECK(&again == &a, "cli() made a second application");
      check(a, "after cli() was called again");
      bool threw = false;
      try { auto other = cmdr::new_cli("another", "9.9.9"); } catch (std::exception const &) { threw = true; }
      PBT_CHECK(threw, "new_cli() made a second application");
      check(a, "after new_cli() was called again");
      // and it works
      string got = "-", word = "cmd-" + gen_word(s);
      int rc = s.in(0, 99), val = s.in(-99, 99);
      cmdr::opt::sub_cmd sc;
      sc(word.c_str());
      sc.on_invoke([&](cmdr::opt::cmd const &h, string_array const &r) { got = h.title_long() + num(r.size()) + num(cmdr::get_for_cli<int>("level")); return rc; });
      cmdr::opt::opt op{5};
      op("level", "L");
      a += op;
      a += sc;
      string v = "--level=" + num(val), nm2 = name;
      std::vector<char *> argv{nm2.data(), v.data(), word.data(), v.data(), nullptr};
      PBT_EQ(a.run(4, argv.data()), rc, "exit status");
      PBT_EQ(got, word + "0" + num(val), "what the handler saw");
    };
    char const *au = author.empty() ? nullptr : author.c_str(), *co = copy.empty() ? nullptr : copy.c_str(), *de = desc.c_str();
    if (how == 0) use(cmdr::cli(name.c_str(), ver.c_str(), au, co, de));
    else if (how == 1) { auto a = cmdr::new_cli(name.c_str(), ver.c_str(), au, co, de); use(a); }
    else { auto a = cmdr::app::create(name.c_str(), ver.c_str(), au, co, de); use(a); }
  }

  static pbt::Reg r1({"C19", "settings", "at least two settings read back", 20000, 80000, settings});
  static pbt::Reg r2({"C19", "flags", "a flag and a switch given", 4000, 40000, flags});
  static pbt::Reg r3({"C19", "first", "always", 450, 1800, first, 1});
} // namespace

PBT_MAIN()
