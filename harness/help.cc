// Checks C12 C18 K01: help, tree, version and debug screens of generated programs; colours.
// FLAGS:
#include "cli_model.hh"
using namespace cm;

static string strip_ansi(string const &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
      i += 2;
      while (i < s.size() && !isalpha((unsigned char) s[i])) i++;
      continue;
    }
    r += s[i];
  }
  return r;
}
static string squeeze(string const &s) {
  string r;
  for (char ch: s) if (!isspace((unsigned char) ch)) r += ch;
  return r;
}
static vector<string> lines_of(string const &s) {
  vector<string> r;
  std::istringstream is(s);
  for (string l; std::getline(is, l);) r.push_back(l);
  return r;
}
// an expected item: titles in their order, how the description begins, what it must mention
struct Item {
  string titles;  // squeezed: "--long=PH,-s,--a1,--a2"
  string desc;    // squeezed
  vector<string> mentions;
  string group;   // heading; empty: not checked
  string who;
};
static string clean_group(string const &g) {
  auto k = g.find('.');
  return k == string::npos ? g : g.substr(k + 1);
}
static Item item_of(Cmd &k) {
  Item r;
  r.titles = k.lng + ",";
  if (!k.shr.empty()) r.titles += k.shr + ",";
  for (auto &a: k.aliases) r.titles += a + ",";
  r.titles.pop_back();
  r.desc  = squeeze(k.desc);
  r.group = clean_group(k.group);
  r.who   = "command " + k.path();
  return r;
}
static std::set<Flag *> g_given; // flags on the line: their default is not looked at
static Item item_of(Flag &f) {
  Item r;
  r.titles = "--" + f.lng + (f.placeholder.empty() ? "" : "=" + f.placeholder) + ",";
  if (!f.shr.empty()) r.titles += "-" + f.shr + ",";
  for (auto &a: f.aliases) r.titles += "--" + a + ",";
  r.titles.pop_back();
  r.desc  = squeeze(f.desc);
  r.group = clean_group(f.group.empty() ? f.toggle : f.group);
  r.who   = "flag " + f.path();
  if (!f.envs.empty()) {
    string e = "(ENV:";
    for (size_t i = 0; i < f.envs.size(); i++) e += (i ? "," : "") + f.envs[i];
    r.mentions.push_back(e + ")");
  }
  if (g_given.count(&f)) return r;
  if (!is_bool(f.ty) || f.def.b) r.mentions.push_back("[DEFAULT" + f.placeholder + "=");
  if (is_str(f.ty)) {
    std::ostringstream os;
    os << std::quoted(f.def.text);
    r.mentions.push_back(squeeze(os.str()) + "]");
  }
  if (f.ty == Ty::Int || f.ty == Ty::Long || f.ty == Ty::Ulong) r.mentions.push_back("=" + f.def.text + "]");
  return r;
}
// an entry of the screen: its first line from the first title on, joined with its continuation lines
struct Entry {
  string text, heading; // text squeezed
  size_t indent{};
  string line;            // the first line as it is
  vector<size_t> more{};  // indents of the continuation lines
};
struct Section {
  string title;
  vector<Entry> entries;
};
// lines of one block of items; items begin at column 2, continuations far to the right
static void parse_block(vector<string> const &ls, size_t from, size_t to, Section &sec, string const &all) {
  string heading;
  for (size_t i = from; i < to; i++) {
    auto const &l = ls[i];
    if (l.empty()) continue;
    size_t ind = l.find_first_not_of(' ');
    if (ind == string::npos) continue;
    if (ind > 20 && !sec.entries.empty()) {
      sec.entries.back().text += squeeze(l);
      sec.entries.back().more.push_back(ind);
      continue;
    }
    PBT_CHECK(ind == 2, "unexpected line in section " << sec.title << ": " << pbt::vis(l) << "\n" << all);
    if (l[ind] == '[' && l.back() == ']' && l.find(' ') != string::npos) {
      heading = l.substr(3, l.size() - 4);
      continue;
    }
    if (l == "  (no sub-commands)" || l == "  (no options)") continue;
    sec.entries.push_back({squeeze(l), heading, ind, l});
  }
}
static string g_header, g_tail; // as set by the application; empty: not set
static bool g_no_tail, g_no_end;
static int g_tab = -1;
static vector<Section> parse_screen(string const &text) {
  auto ls = lines_of(text);
  auto is_end = [&](string const &l) { return l.rfind("Type `", 0) == 0 || (!g_tail.empty() && l == g_tail) || l.rfind("Powered by ", 0) == 0 || l == "help, !!!"; };
  vector<Section> r;
  vector<size_t> starts;
  for (size_t i = 0; i < ls.size(); i++) {
    auto const &l = ls[i];
    if (l == "Commands" || l == "Options" || l == "Global Options" || l.rfind("Parent Options of ", 0) == 0 || is_end(l)) {
      r.push_back({l, {}});
      starts.push_back(i);
    }
  }
  while (!r.empty() && is_end(r.back().title)) r.pop_back();
  for (size_t i = 0; i < r.size(); i++) parse_block(ls, starts[i] + 1, i + 1 < starts.size() ? starts[i + 1] : ls.size(), r[i], text);
  return r;
}
static std::set<size_t> g_columns; // where the descriptions of one screen begin
static void match_items(Section const &sec, vector<Item> want, string const &all) {
  vector<Entry> rest = sec.entries;
  for (auto const &w: want) {
    int n = 0;
    for (auto it = rest.begin(); it != rest.end();) {
      auto const &e = *it;
      bool hit = e.text.rfind(w.titles + w.desc, 0) == 0;
      if (hit) { // what follows the description is only the additions
        string tail = e.text.substr(w.titles.size() + w.desc.size());
        hit         = tail.empty() || tail.rfind("(ENV:", 0) == 0 || tail.rfind("[DEFAULT", 0) == 0;
        if (hit && n == 0) {
          for (auto const &m: w.mentions) PBT_CHECK(tail.find(m) != string::npos, "the line of " << w.who << " lacks " << m << ": " << e.text << "\n" << all);
          size_t at = 0, left = w.titles.size();
          while (at < e.line.size() && left) if (!isspace((unsigned char) e.line[at++])) left--;
          at = e.line.find_first_not_of(' ', at);
          if (at != string::npos && !w.desc.empty()) g_columns.insert(at);
          for (auto m: e.more) g_columns.insert(m);
          if (!w.group.empty()) PBT_CHECK(e.heading == w.group, w.who << " is listed under heading '" << e.heading << "', its group is '" << w.group << "'\n" << all);
        }
      }
      if (hit) {
        n++;
        it = rest.erase(it);
      } else ++it;
    }
    PBT_CHECK(n == 1, w.who << " is listed " << n << " times in section '" << sec.title << "' (looking for " << pbt::vis(w.titles + w.desc) << ")\n" << all);
  }
  PBT_CHECK(rest.empty(), "section '" << sec.title << "' lists something which does not belong there: " << pbt::vis(rest[0].text) << "\n" << all);
}
static string gen_desc(Src &s) {
  static const vector<string> words = {"the", "a", "server", "to", "be", "started", "with", "x", "verylongwordwhichhasnoplacetobreak", "port.", "tcp:80", "[x]", "(default)", "и", "日本語", "100%", "'quoted'", "a-b", "--not-a-flag", "42", "e.g.,"};
  string r;
  int n = s.chance(1, 6) ? s.in(20, 45) : s.in(0, 8);
  for (int i = 0; i < n; i++) r += (i ? " " : "") + s.pick(words);
  return r;
}
static const vector<string> &group_names() {
  static const vector<string> r = {"", "", "Tools", "10.Network", "10.Storage", "2.Misc", "Zed", "a.b.c", "9000.Extra", "System", "2.Tools", "more things"};
  return r;
}
static void decorate(Src &s, Program &p) {
  int e = 0;
  unsigned hid = (unsigned) s.in(2, 8);
  for (auto *k: p.cmds()) {
    if (!k->owner) continue;
    k->hidden = s.chance(1, hid);
    k->desc   = gen_desc(s);
    k->group  = s.pick(group_names());
    for (int i = 0, n = s.chance(1, 3) ? s.in(1, 4) : 0; i < n; i++) k->examples += (i ? "\n" : "") + s.pick(vector<string>{"$ ~ start", "~ --port 80", "# nothing", "do it twice: ~; ~ again"});
  }
  for (auto *f: p.flags()) {
    f->hidden = s.chance(1, hid);
    f->desc   = gen_desc(s);
    f->group  = s.pick(group_names());
    if (f->group.empty() && is_bool(f->ty) && s.chance(1, 5)) f->toggle = "colours", f->def.b = false;
    if (s.chance(1, 5)) f->placeholder = s.pick(vector<string>{"PORT", "FILE", "N"});
    for (int i = 0, n = s.chance(1, 5) ? s.in(1, 2) : 0; i < n; i++) f->envs.push_back("PBT_H" + num(e++));
    if (f->aliases.size() < 3 && s.chance(1, 20)) f->aliases.push_back("a-very-long-alias-of-a-flag-" + string((size_t) s.in(1, 40), 'z') + num(e++));
  }
}
static GenOpts help_opts(Src &s) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_subs  = 5;
  o.max_flags = 5;
  return o;
}
static void expect_screen(Live &l, Cmd *t, bool show_hidden, string const &what) {
  auto text = strip_ansi(l.out);
  string all = what + "\n" + describe(*l.prog) + "screen:\n" + text;
  PBT_CHECK(!l.threw, "run() threw " << l.what << "\n" << all);
  PBT_CHECK(l.of_kind({"gpre", "pre", "invoke", "unhooked", "post", "gpost"}).empty(), "handlers ran: " << show(l.trace) << "\n" << all);
  PBT_CHECK(l.rc == 0, "exit status " << l.rc << "\n" << all);
  if (g_header.empty()) g_header = " by an author. (c) nobody";
  auto lines = lines_of(text);
  PBT_CHECK(std::count(lines.begin(), lines.end(), "pbt-app v1.2.3" + g_header) == 1, "name and version are missing\n" << all);
  // the description, the examples and the synopsis, in this order and before the lists
  auto exe = cmdr::path::executable_name().filename().string();
  vector<string> intro;
  auto block = [&](string const &title, string const &body, bool at_root) {
    if (body.empty()) return;
    if (!at_root) intro.push_back(title);
    for (auto x: lines_of(body)) {
      for (size_t i = 0; title == "Examples" && (i = x.find('~', i)) != string::npos; i += exe.size()) x.replace(i, 1, exe);
      intro.push_back("  " + x);
    }
  };
  block("Description", t->owner ? t->desc : "a description", false);
  block("Examples", t->examples, false);
  intro.push_back("Usage");
  auto from = std::find(lines.begin(), lines.end(), "pbt-app v1.2.3" + g_header), to = std::find(lines.begin(), lines.end(), "Commands");
  PBT_CHECK(to > from, "no list of commands after the name and version\n" << all);
  vector<string> have;
  for (++from; from < to; ++from) if (!from->empty()) have.push_back(*from);
  string usage = have.empty() ? "" : have.back();
  if (!have.empty()) have.pop_back();
  PBT_CHECK(have == intro, "the screen begins with " << show_words(have) << ", expected " << show_words(intro) << "\n" << all);
  PBT_CHECK(usage.rfind("  " + exe + " ", 0) == 0 && usage.find("[options]") != string::npos, "the synopsis is " << usage << "\n" << all);
  {
    vector<Cmd *> path;
    for (auto *k = t; k->owner; k = k->owner) path.insert(path.begin(), k);
    std::istringstream is(usage);
    string word;
    is >> word;
    for (auto *k: path) {
      is >> word;
      PBT_CHECK(word == k->lng || word == k->shr || std::count(k->aliases.begin(), k->aliases.end(), word), "the synopsis does not name " << k->lng << ": " << usage << "\n" << all);
    }
    is >> word;
    PBT_CHECK(word == "[options]", "the synopsis is " << usage << "\n" << all);
  }
  if (g_no_tail) PBT_CHECK(text.find("Type `") == string::npos && (g_tail.empty() || !std::count(lines.begin(), lines.end(), g_tail)), "the closing line is there\n" << all);
  else PBT_CHECK(g_tail.empty() ? text.find("Type `" + exe + " --help` to get help screen") != string::npos : std::count(lines.begin(), lines.end(), g_tail) == 1 && text.find("Type `") == string::npos, "the last line is not as set\n" << all);
  for (auto const &x: lines_of(text)) { // a character is not spread over two lines
    size_t cont = 0;
    bool ok     = true;
    for (unsigned char ch: x) {
      if (cont) ok = ok && (ch & 0xc0) == 0x80, cont--;
      else if (ch >= 0xf0) cont = 3;
      else if (ch >= 0xe0) cont = 2;
      else if (ch >= 0xc0) cont = 1;
      else ok = ok && ch < 0x80;
    }
    PBT_CHECK(ok && !cont, "a line holds a piece of a character: " << pbt::vis(x) << "\n" << all);
  }
  auto secs = parse_screen(text);
  g_columns.clear();
  vector<Cmd *> owners;
  for (auto *c = t; c; c = c->owner) owners.push_back(c);
  PBT_CHECK(secs.size() == owners.size() + 1 && secs[0].title == "Commands", "the screen has " << secs.size() << " sections\n" << all);
  vector<Item> want;
  for (auto &k: t->subs) if (show_hidden || !k->hidden) want.push_back(item_of(*k));
  Section cs = secs[0];
  if (!t->owner && show_hidden) { // the hidden built-in commands
    int before = (int) cs.entries.size();
    cs.entries.erase(std::remove_if(cs.entries.begin(), cs.entries.end(), [](Entry const &e) { return e.heading == "System Management" && (e.text.rfind("help,h,", 0) == 0 || e.text.rfind("version,V,", 0) == 0 || e.text.rfind("print,pr,", 0) == 0 || e.text.rfind("generate,g,", 0) == 0); }), cs.entries.end());
    PBT_CHECK(before - (int) cs.entries.size() == 4, "built-in commands missing\n" << all);
  }
  match_items(cs, want, all);
  for (size_t i = 0; i < owners.size(); i++) {
    auto *c  = owners[i];
    auto sec = secs[i + 1];
    string title = i == 0 ? "Options" : c->owner ? "Parent Options of " : "Global Options";
    PBT_CHECK(sec.title.rfind(title, 0) == 0, "section '" << sec.title << "', expected '" << title << "'\n" << all);
    if (i && c->owner) PBT_CHECK(sec.title.find(c->lng) != string::npos, "section '" << sec.title << "' does not name " << c->lng << "\n" << all);
    want.clear();
    for (auto &f: c->flags) if (!f->builtin && (show_hidden || !f->hidden)) want.push_back(item_of(*f));
    if (!c->owner) { // visible built-in flags
      int n = 0;
      vector<string> b{"--verbose,-v", "--quiet,-q", "--debug,-D,--debug-mode", "--trace,-tr,--trace-mode"};
      if (show_hidden) for (auto *x: {"--help,-h,--?,--info,--usages", "--version,-V,--versions,--ver", "--version-sim,-vs", "--build-info,-#,--bdinfo", "--feel-like,-bet,--bet", "--no-color,-nc", "--shell-completion,-sc", "--tree", "--cli"}) b.push_back(x);
      for (auto &x: b)
        for (auto it = sec.entries.begin(); it != sec.entries.end(); ++it)
          if (it->heading == "System Management" && it->text.rfind(x, 0) == 0 && (it->text.size() == x.size() || it->text[x.size()] != ',')) { n++; sec.entries.erase(it); break; }
      PBT_CHECK(n == (int) b.size(), n << " of the built-in flags are listed, expected " << b.size() << "\n" << all);
    }
    match_items(sec, want, all);
  }
  PBT_CHECK(g_columns.size() <= 1, "the descriptions begin at " << g_columns.size() << " different columns, " << *g_columns.begin() << " and " << *g_columns.rbegin() << "\n" << all);
  if (!g_columns.empty()) PBT_CHECK((int) *g_columns.begin() >= g_tab + 2, "the descriptions begin at column " << *g_columns.begin() << ", before the tab stop " << g_tab << "\n" << all);
  auto more = [&](char const *what) { return text.find(what) != string::npos; };
  PBT_CHECK(more("Powered by cmdr-cxx") == !g_no_end, (g_no_end ? "the ending is there" : "the ending is missing") << "\n" << all);
}
static void c12(Src &s, Case &c) {
  auto p = gen_program(s, help_opts(s));
  decorate(s, *p);
  if (s.chance(1, 3)) p->root.examples = "~ --help\nthe whole of ~";
  Live l(*p);
  g_header = g_tail = "";
  if (s.chance(1, 4)) g_header = s.pick(vector<string>{" - an example", " (header)"}), l.cli->header(g_header.c_str());
  if (s.chance(1, 4)) {
    g_tail = s.pick(vector<string>{"See the manual.", "more at example.org"});
    if (s.coin()) l.cli->tail_line(g_tail.c_str());
    else l.cli->set_tail_line(g_tail);
  }
  g_no_tail = s.chance(1, 8), g_no_end = s.chance(1, 8);
  l.cli->set_no_tail_line(g_no_tail).set_no_cmdr_endings(g_no_end);
  l.cli->set_alias_right_align(s.chance(1, 4)).set_long_title_underline(s.coin());
  g_tab = s.chance(1, 4) ? s.in(43, 62) : -1;
  l.cli->set_minimal_tab_stop(g_tab);
  bool inner_only = s.chance(1, 5);
  vector<Cmd *> cands;
  for (auto *k: p->cmds()) if (!inner_only || !k->leaf()) cands.push_back(k);
  Cmd *t = s.pick(cands);
  LineOpts lo;
  lo.mentions      = 0;
  lo.simple_values = true;
  Line L           = compose(s, *p, lo, t);
  g_given.clear();
  for (auto &m: L.mentions) g_given.insert(m.f);
  vector<string> w = L.words;
  bool hidden      = false;
  string how;
  if (inner_only) how = "no handler";
  else if (s.chance(1, 6) ) {
    // `help a b c`, by the titles of the words
    w.assign(1, s.pick(vector<string>{"help", "info", "usages"}));
    auto *k = t;
    vector<string> path;
    for (; k->owner; k = k->owner) path.insert(path.begin(), k->lng);
    w.insert(w.end(), path.begin(), path.end());
    how = "help command";
  } else if (s.chance(1, 6)) {
    int times = s.in(2, 4);
    string got;
    auto *f  = greedy_short(t, "h", got);
    bool hhh = f && f->builtin && f->lng == "help" && (greedy_short(t, "hh", got), got == "h");
    if (hhh && s.chance(1, 3)) w.push_back("-" + string((size_t) times, 'h'));
    else for (int i = 0; i < times; i++) w.push_back(hhh && s.coin() ? "-h" : s.pick(vector<string>{"--help", "--help", "--info", "--?"}));
    hidden = times > 2;
    how    = hidden ? "three times or more" : "twice";
  } else {
    vector<string> req{"--help", "--info", "--usages", "--?"};
    string got;
    auto *f = greedy_short(t, "h", got);
    if (f && f->builtin) req.push_back("-h"), req.push_back("-h"), req.push_back("/h");
    size_t at = s.draw((unsigned) w.size() + 1);
    if (s.coin()) at = w.size();
    else if (!L.mentions.empty()) at = 0;
    w.insert(w.begin() + (long) at, s.pick(req));
    how = at == w.size() - 1 ? "flag at the end" : "flag in between";
  }
  c.label(how);
  for (auto &x: w) if (x.rfind("--", 0) == 0 && x.size() > 2) { string got; auto *f = greedy_long(t, x.substr(2), got); if (x.find("help") != string::npos || x == "--info" || x == "--usages" || x == "--?") if (!f || !f->builtin || f->lng != "help") throw pbt::Discard{}; }
  c.note("argv:" + show_words(w) + "\n" + describe(*p));
  size_t items = 0;
  for (auto *k = t; k; k = k->owner) items += k->flags.size() + k->subs.size();
  c.nontrivial = items >= 18; // 13 of them are built in
  l.run(w);
  expect_screen(l, t, hidden, "argv:" + show_words(w));
}
static pbt::Reg r_c12({"C12", "screen", "at least five flags and commands in the scope of the screen", 4000, 30000, c12});

// ------------------------------------------------------------------ tree
static void c12tree(Src &s, Case &c) {
  g_given.clear();
  auto o      = help_opts(s);
  o.max_depth = s.in(1, 5);
  o.max_subs  = 3;
  o.max_flags = 1;
  auto p      = gen_program(s, o);
  decorate(s, *p);
  Live l(*p);
  vector<string> w{s.coin() ? "--tree" : "~~tree"};
  c.note("argv:" + show_words(w) + "\n" + describe(*p));
  l.run(w);
  auto text  = strip_ansi(l.out);
  string all = describe(*p) + "screen:\n" + text;
  PBT_CHECK(!l.threw && l.rc == 0 && l.of_kind({"invoke", "pre", "gpre"}).empty(), "status " << l.rc << " " << l.what << " " << show(l.trace) << "\n" << all);
  // entries with their nesting
  struct E { size_t indent; string text, head; bool heading; vector<string> path; string line; vector<size_t> more; };
  vector<E> es;
  for (auto const &x: lines_of(text)) {
    size_t ind = x.find_first_not_of(' ');
    if (ind == string::npos) continue;
    if (x[ind] == '*' && x[ind + 1] == ' ' && ind < 40) {
      auto e = x.substr(ind + 2);
      es.push_back({ind, squeeze(e), e.substr(0, e.find_first_of(", ")), false, {}, x, {}});
    } else if (x[ind] == '-' && x[ind + 1] == ' ' && x[ind + 2] == '[' && x.back() == ']') es.push_back({ind, x.substr(ind + 3, x.size() - ind - 4), "", true, {}, x, {}});
    else if (ind >= 30 && !es.empty()) es.back().text += squeeze(x), es.back().more.push_back(ind);
  }
  std::multimap<string, E *> got;
  vector<E *> stack;
  for (auto &e: es) {
    while (!stack.empty() && stack.back()->indent >= e.indent) stack.pop_back();
    for (auto it = stack.rbegin(); it != stack.rend(); ++it) if (!(*it)->heading) { e.path = (*it)->path; break; }
    if (!e.heading) {
      e.path.push_back(e.head);
      string k;
      for (auto &x: e.path) k += (k.empty() ? "" : ".") + x;
      got.insert({k, &e});
    }
    stack.push_back(&e);
  }
  size_t want = 0;
  std::set<size_t> columns;
  std::function<void(Cmd &)> walk = [&](Cmd &k) {
    for (auto &x: k.subs) {
      if (x->hidden) continue;
      want++;
      auto n = got.count(x->path());
      PBT_CHECK(n == 1, "command " << x->path() << " appears " << n << " times in the tree\n" << all);
      auto it = item_of(*x);
      auto *e = got.find(x->path())->second;
      PBT_CHECK(e->text == it.titles + it.desc, "command " << x->path() << " is shown as " << e->text << ", expected " << it.titles << it.desc << "\n" << all);
      size_t at = e->indent + 2, left = it.titles.size();
      while (at < e->line.size() && left) if (!isspace((unsigned char) e->line[at++])) left--;
      at = e->line.find_first_not_of(' ', at);
      if (at != string::npos && !it.desc.empty()) columns.insert(at);
      for (auto m: e->more) columns.insert(m);
      walk(*x);
    }
  };
  walk(p->root);
  PBT_CHECK(got.size() == want, "the tree shows " << got.size() << " commands, expected " << want << "\n" << all);
  PBT_CHECK(columns.size() <= 1, "the descriptions of the tree begin at " << columns.size() << " different columns\n" << all);
  if (s.chance(1, 4)) { // what has been shown before does not matter
    string first = l.out;
    l.run(w);
    PBT_CHECK(l.out == first, "the same tree looks different the second time:\n" << strip_ansi(l.out) << "\n" << all);
    c.label("shown twice");
  }
  c.nontrivial = want >= 4;
}
static pbt::Reg r_c12t({"C12", "tree", "at least four visible commands", 3000, 15000, c12tree});

// ------------------------------------------------------------------ shell completion mode and version
static void c12misc(Src &s, Case &c) {
  g_given.clear();
  auto p = gen_program(s, help_opts(s));
  decorate(s, *p);
  Live l(*p);
  Cmd *t = s.pick(p->cmds());
  LineOpts lo;
  lo.mentions = 0;
  Line L      = compose(s, *p, lo, t);
  if (s.coin()) {
    // the list which is read by the completion script: one line per item, titles before a bar
    vector<string> w = L.words;
    w.push_back("--help");
    w.push_back("--shell-completion");
    for (auto x: {"help", "shell-completion"}) { string got; auto *f = greedy_long(t, x, got); if (!f || !f->builtin) throw pbt::Discard{}; }
    c.note("argv:" + show_words(w) + "\n" + describe(*p));
    bool zsh = s.coin();
    if (zsh) setenv("SHELL", s.pick(vector<string>{"/bin/zsh", "/usr/local/bin/zsh", "zsh"}).c_str(), 1);
    else if (s.coin()) setenv("SHELL", s.pick(vector<string>{"/bin/bash", "/opt/zsh/fish", ""}).c_str(), 1);
    else unsetenv("SHELL");
    c.label(zsh ? "completion list for zsh" : "completion list");
    l.run(w);
    unsetenv("SHELL");
    string all = describe(*p) + "screen:\n" + strip_ansi(l.out);
    PBT_CHECK(!l.threw && l.rc == 0 && l.of_kind({"invoke"}).empty(), "status " << l.rc << " " << l.what << "\n" << all);
    std::multiset<string> got, want;
    if (zsh) { // one title a line, with its description in the notation of zsh
      auto esc = [](string const &d) {
        string r;
        for (char ch: d) r += (strchr("[]:()", ch) ? "\\" : "") + string(1, ch);
        return r;
      };
      for (auto const &x: lines_of(strip_ansi(l.out))) if (!x.empty()) got.insert(x);
      for (auto &k: t->subs) if (!k->hidden) want.insert(k->lng + ":" + esc(k->desc));
      for (auto *f: scope_of(t, false))
        if (!f->hidden) {
          want.insert("--" + f->lng + "[" + esc(f->desc) + "]");
          if (!f->shr.empty()) want.insert("-" + f->shr + "[" + esc(f->desc) + "]");
        }
      size_t sys = 0;
      for (auto *x: {"--verbose[", "-v[", "--quiet[", "-q[", "--debug[", "-D[", "--trace[", "-tr["})
        for (auto it = got.begin(); it != got.end(); ++it)
          if (it->rfind(x, 0) == 0 && it->back() == ']' && !want.count(*it)) { got.erase(it), sys++; break; }
      PBT_CHECK(sys == 8, sys << " of the 8 titles of built-in flags are listed\n" << all);
    } else
    for (auto const &x: lines_of(strip_ansi(l.out))) if (auto b = x.find('|'); b != string::npos) got.insert(squeeze(x.substr(0, b)));
    if (!zsh) for (auto &k: t->subs) if (!k->hidden) want.insert(item_of(*k).titles);
    if (!zsh) for (auto *f: scope_of(t, false)) if (!f->hidden) want.insert(item_of(*f).titles);
    if (!zsh) for (auto *x: {"--verbose,-v", "--quiet,-q", "--debug,-D,--debug-mode", "--trace,-tr,--trace-mode"}) want.insert(x);
    string d;
    for (auto &x: want) if (got.count(x) != want.count(x)) d += " missing:" + x;
    for (auto &x: got) if (got.count(x) != want.count(x)) d += " listed " + num(got.count(x)) + " times:" + x;
    PBT_CHECK(d.empty(), "completion list:" << d << "\n" << all);
    c.nontrivial = want.size() >= 8;
    return;
  }
  // version
  c.label("version");
  string sim = s.chance(1, 2) ? s.pick(vector<string>{"9", "10.2", "1.2.3-rc.1", "v7", "0.0.1+b5", "2021.2"}) : "";
  vector<string> w;
  bool as_flag = s.coin(), info = as_flag && s.chance(1, 3);
  if (as_flag) w = L.words;
  if (!sim.empty()) w.insert(w.begin(), "--version-sim=" + sim);
  w.push_back(as_flag ? s.pick(vector<string>{"--version", "--versions", "--ver"}) : s.pick(vector<string>{"version", "V", "versions", "ver"}));
  if (as_flag) {
    string got, one = info ? "#" : "V";
    auto *f = greedy_short(t, one, got);
    bool sh = f && f->builtin && got == one && s.chance(1, 3);
    if (sh || info) w.back() = sh ? "-" + one : s.pick(vector<string>{"--build-info", "--bdinfo"});
    if (info) c.label("build info");
  }
  for (auto x: {"version", "ver", "version-sim=9", "build-info", "bdinfo"}) { string got; auto *f = greedy_long(t, x, got); if (!f || !f->builtin) throw pbt::Discard{}; }
  c.note("argv:" + show_words(w) + "\n" + describe(*p));
  c.nontrivial = w.size() >= 2;
  l.run(w);
  string want = sim.empty() || info ? "1.2.3" : sim;
  PBT_CHECK(!l.threw && l.rc == 0 && l.of_kind({"invoke", "pre"}).empty(), "status " << l.rc << " " << l.what << " " << l.err << "\n" << describe(*p));
  auto ls = lines_of(strip_ansi(l.out));
  PBT_CHECK(std::count(ls.begin(), ls.end(), want) == 1, "the version " << want << " is not printed: " << pbt::vis(l.out) << "\n" << show_words(w) << "\n" << describe(*p));
  if (info) PBT_CHECK(std::count(ls.begin(), ls.end(), l.cli->name()) == 1, "the build information lacks the name: " << pbt::vis(l.out) << "\n" << show_words(w) << "\n" << describe(*p));
}
static pbt::Reg r_c12m({"C12", "completion", "at least eight lines in the list, or a version request with other words", 2000, 15000, c12misc});
// ------------------------------------------------------------------ C18: the ~~debug screen, and commands without a handler
static void c18(Src &s, Case &c) {
  GenOpts o;
  o.max_depth = s.in(1, 3);
  o.max_subs  = 4;
  o.max_flags = 4;
  auto p      = gen_program(s, o);
  bool screen = s.chance(3, 4); // else: the command has no handler
  bool print  = screen && s.chance(1, 5); // the print command
  int e       = 0;
  for (auto *f: p->flags()) {
    if (s.chance(1, 4)) f->placeholder = "X";
    if (s.chance(1, 4)) f->envs.push_back("PBT_H" + num(e++));
    f->required = false;
  }
  p->has_gpre = p->has_gpost = p->has_unhooked = false;
  if (!screen) for (auto *k: p->cmds()) k->has_invoke = k->has_pre = k->has_post = false;
  Live l(*p);
  // settings of its own
  std::map<string, string> own;
  for (int i = 0, n = s.in(0, 5); i < n; i++) {
    string k = s.pick(vector<string>{"server", "tls", "a.b", "clip", "cliff", "cl"}) + s.pick(vector<string>{".port", ".name", "", ".x.y"});
    if (own.count("app." + k)) continue;
    bool clash = false;
    for (auto &[x, v]: own) clash = clash || x.rfind("app." + k + ".", 0) == 0 || ("app." + k).rfind(x + ".", 0) == 0;
    if (clash) continue;
    if (s.coin()) {
      int v = (int) s.integer(-1000, 1000);
      l.cli->set(k.c_str(), v);
      own["app." + k] = num(v);
    } else {
      auto v = s.str("abc xyz", 0, 6);
      l.cli->set(k.c_str(), v);
      own["app." + k] = "\"" + v + "\"";
    }
  }
  Cmd *t = nullptr;
  if (!screen) {
    vector<Cmd *> leaves;
    for (auto *k: p->cmds()) if (k->leaf() && k->owner) leaves.push_back(k);
    if (leaves.empty()) throw pbt::Discard{};
    t = s.pick(leaves);
  } else if (print) t = &p->root;
  else t = s.pick(p->cmds());
  LineOpts lo;
  lo.mentions      = s.in(0, 4);
  lo.simple_values = true;
  lo.positionals   = !screen;
  Line L           = compose(s, *p, lo, t);
  for (auto x: {"debug", "cli"}) { string got; auto *f = greedy_long(t, x, got); if (f && !f->builtin) throw pbt::Discard{}; if (f && got.size() != strlen(x)) throw pbt::Discard{}; }
  auto w   = L.words;
  int dbg  = screen && !print ? s.in(1, 4) : 0;
  string print_as;
  if (print) w.insert(w.begin(), print_as = s.pick(vector<string>{"print", "pr", "display"}));
  bool cli = dbg && s.chance(1, 3);
  struct Hit { int n{}; string title; bool spec{}, env{}; };
  std::map<string, Hit> want; // by key
  std::map<string, string> key_title;
  for (auto &m: L.mentions) {
    auto &h = want["app.cli." + m.f->path()];
    h.n++, h.title = m.title, h.spec |= m.special;
  }
  if (cli) w.insert(w.begin(), "~~cli"), want["app.cli.cli"] = {1, "cli", true, false};
  string debug_as;
  for (int i = 0; i < dbg; i++) w.push_back("~~" + (debug_as = s.pick(vector<string>{"debug", "debug-mode"})));
  if (dbg) want["app.cli.debug"] = {dbg, debug_as, true, false};
  string envs;
  vector<string> set;
  for (auto *f: p->flags())
    if (!f->envs.empty() && !want.count("app.cli." + f->path()) && s.chance(1, 2)) {
      envs += " " + f->envs[0];
      set.push_back(f->envs[0]);
      setenv(f->envs[0].c_str(), plain_text(f->ty, f->def).c_str(), 1);
      want["app.cli." + f->path()] = {1, f->envs[0], false, true};
    }
  string all = "argv:" + show_words(w) + " env:" + envs + "\n" + describe(*p);
  c.note(all);
  l.run(w);
  for (auto &x: set) unsetenv(x.c_str());
  auto text = strip_ansi(l.out);
  all += "screen:\n" + text;
  PBT_CHECK(!l.threw && l.rc == 0, "status " << l.rc << " " << l.what << "\n" << all);
  PBT_CHECK(l.of_kind({"invoke", "pre", "post", "unhooked"}).empty(), "handlers ran: " << show(l.trace) << "\n" << all);
  auto ls = lines_of(text);
  size_t at = 0;
  auto next = [&]() -> string { return at < ls.size() ? ls[at] : string("(end)"); };
  if (!screen) {
    string rest;
    for (auto &x: L.rest) rest += (rest.empty() ? "" : ",") + x;
    string wantl = "INVOKING: \"" + l.cmds[t]->title() + "\", remains: " + rest + ".";
    PBT_CHECK(next() == wantl, "the first line is " << next() << ", expected " << wantl << "\n" << all);
    at++;
  }
  if (dbg > 1) {
    PBT_CHECK(next() == "Dumping the Option Store ...", "the list of settings is missing\n" << all);
    std::map<string, string> got;
    for (at++; next().rfind(" - ", 0) == 0; at++) {
      auto b = next().find(" : ");
      PBT_CHECK(b != string::npos, "a line of the list is " << next() << "\n" << all);
      auto k = next().substr(3, b - 3);
      PBT_CHECK(!got.count(k), k << " is listed twice\n" << all);
      got[k] = next().substr(b + 3);
    }
    for (auto &[k, v]: got) {
      if (own.count(k)) PBT_CHECK(own[k] == v, k << " is listed as " << v << ", it is " << own[k] << "\n" << all);
      else PBT_CHECK(cli && k.rfind("app.cli.", 0) == 0, k << " is listed\n" << all);
    }
    for (auto &[k, v]: own) PBT_CHECK(got.count(k), k << " is not listed\n" << all);
    if (cli) for (auto *f: p->flags()) PBT_CHECK(got.count("app.cli." + f->path()), f->path() << " is not listed\n" << all);
  }
  if (dbg > 2) {
    PBT_CHECK(next() == "Dumping the Option Store as Tree ...", "the tree of settings is missing: " << next() << "\n" << all);
    std::set<string> got;
    vector<std::pair<size_t, string>> stack;
    for (at++; at < ls.size() && next().rfind("command ", 0) != 0; at++) {
      size_t ind = next().find_first_not_of(' ');
      auto col   = next().find(':');
      if (ind == string::npos || col == string::npos) continue;
      while (!stack.empty() && stack.back().first >= ind) stack.pop_back();
      auto k = (stack.empty() ? "" : stack.back().second + ".") + next().substr(ind, col - ind);
      stack.push_back({ind, k});
      if (next().find(": {}") == string::npos) got.insert(k);
    }
    for (auto &[k, v]: own) PBT_CHECK(got.count(k), k << " is not in the tree\n" << all);
    for (auto &k: got) PBT_CHECK(own.count(k) || (cli && k.rfind("app.cli.", 0) == 0), k << " is in the tree\n" << all);
  }
  {
    string title = print ? "print, pr, display" : l.cmds[t]->title();
    PBT_CHECK(next() == "command \"" + title + "\" hit.", "the command is reported as " << next() << ", expected " << title << "\n" << all);
    at++;
  }
  std::map<string, int> seen;
  for (; at < ls.size(); at++) {
    auto x = next();
    if (x.empty()) continue;
    auto a = x.rfind("): 'app.cli."), b = x.find("' => ", a == string::npos ? 0 : a);
    PBT_CHECK(a != string::npos && b != string::npos, "a line of the report is " << x << "\n" << all);
    auto key = x.substr(a + 4, b - a - 4);
    PBT_CHECK(want.count(key), key << " is reported, which was not given\n" << all);
    PBT_CHECK(++seen[key] == 1, key << " is reported twice\n" << all);
    auto &h = want[key];
    std::ostringstream head, tail;
    head << " - " << h.n << " hits: ";
    tail << " (hit title: " << std::quoted(h.title) << ", spec:" << h.spec << ", long:";
    PBT_CHECK(x.rfind(head.str(), 0) == 0, key << " was given " << h.n << " times, reported is " << x << "\n" << all);
    PBT_CHECK(x.find(tail.str()) != string::npos, key << " was given as " << h.title << ", reported is " << x << "\n" << all);
    PBT_CHECK(x.find(string(", env:") + (h.env ? "1" : "0") + ")") != string::npos, key << (h.env ? " came" : " did not come") << " from the environment, reported is " << x << "\n" << all);
    std::ostringstream v;
    v << l.cli->get_for_cli(key.substr(8));
    PBT_CHECK(x.substr(b + 5) == v.str(), key << " is " << v.str() << ", reported is " << x << "\n" << all);
  }
  for (auto &[k, h]: want) PBT_CHECK(seen[k] == 1, k << " was given, but is not reported\n" << all);
  c.nontrivial = want.size() >= 2 && (dbg > 1 || !screen || want.size() >= 3);
  c.label(print ? "print" : screen ? "~~debug " + num(dbg) : "no handler");
}
static pbt::Reg r_c18({"C18", "report", "at least two flags were given, and the settings are listed or there is no handler or there is a third flag", 6000, 30000, c18});
// ------------------------------------------------------------------ K01: colours
#include <pty.h>
#include <sys/ioctl.h>
namespace tc = cmdr::terminal;
using tc::colors::colorize;
// what a terminal has set: nothing, an indexed colour (>= 0), a colour of the first sixteen (-16..-1) or RGB
struct Pen {
  string fg, bg;
  bool on[10]{};
  bool operator==(Pen const &o) const { return fg == o.fg && bg == o.bg && std::equal(on, on + 10, o.on); }
  string str() const {
    static const char *N[] = {"", "bold", "dim", "italic", "underline", "blink", "rblink", "reverse", "hidden", "crossed"};
    string r = "fg:" + (fg.empty() ? "-" : fg) + " bg:" + (bg.empty() ? "-" : bg);
    for (int i = 1; i < 10; i++) if (on[i]) r += string(" ") + N[i];
    return r;
  }
  // the parameters of a "select graphic rendition" sequence, as terminals understand them (ECMA-48)
  string sgr(string const &ps) {
    vector<int> v(1, 0);
    for (char ch: ps)
      if (ch == ';') v.push_back(0);
      else if (isdigit((unsigned char) ch)) v.back() = v.back() * 10 + (ch - '0');
      else return "an SGR sequence with '" + pbt::vis(string(1, ch)) + "'";
    for (size_t i = 0; i < v.size(); i++) {
      int x = v[i];
      if (x == 0) *this = Pen{};
      else if (x >= 1 && x <= 9) on[x] = true;
      else if (x == 22) on[1] = on[2] = false;
      else if (x == 25) on[5] = on[6] = false;
      else if (x == 23 || x == 24 || x == 27 || x == 28 || x == 29) on[x - 20] = false;
      else if ((x >= 30 && x <= 37) || (x >= 90 && x <= 97)) fg = "c" + num(x % 10 + (x >= 90 ? 8 : 0));
      else if ((x >= 40 && x <= 47) || (x >= 100 && x <= 107)) bg = "c" + num(x % 10 + (x >= 100 ? 8 : 0));
      else if (x == 39) fg.clear();
      else if (x == 49) bg.clear();
      else if (x == 38 || x == 48) {
        auto &t = x == 38 ? fg : bg;
        if (i + 2 < v.size() && v[i + 1] == 5 && v[i + 2] < 256) t = "i" + num(v[i + 2]), i += 2;
        else if (i + 4 < v.size() && v[i + 1] == 2 && v[i + 2] < 256 && v[i + 3] < 256 && v[i + 4] < 256) t = "rgb" + num(v[i + 2]) + "," + num(v[i + 3]) + "," + num(v[i + 4]), i += 4;
        else return "an incomplete colour in \"" + ps + "\"";
      } else return "the SGR parameter " + num(x) + ", which means something else or nothing";
    }
    return "";
  }
};
struct Cell {
  char ch;
  Pen pen;
};
// a terminal: the characters shown, each with its rendition
static string shown(string const &bytes, vector<Cell> &cells, Pen &pen) {
  for (size_t i = 0; i < bytes.size(); i++) {
    if (bytes[i] != '\033') {
      cells.push_back({bytes[i], pen});
      continue;
    }
    auto e = bytes.find('m', i);
    if (i + 1 >= bytes.size() || bytes[i + 1] != '[' || e == string::npos) return "a broken escape sequence";
    if (auto w = pen.sgr(bytes.substr(i + 2, e - i - 2)); !w.empty()) return w;
    i = e;
  }
  return "";
}
static void k01(Src &s, Case &c, bool use_switch) {
  static const vector<string> GOOD{"ansi", "color", "console", "cygwin", "gnome", "konsole", "kterm", "linux", "msys", "putty", "rxvt", "screen", "vt100", "xterm", "xterm-256colors", "xterm-color"};
  bool good;
  string term = s.str("abz-9", 0, 4);
  if ((good = s.coin())) term = s.str("ab-9", 0, 3) + s.pick(GOOD) + s.str("ab-9", 0, 3);
  setenv("TERM", term.c_str(), 1);
  string ct = s.pick(vector<string>{"", "truecolor", "24bit", "16", "256", "88", "yes", "8"});
  if (ct.empty()) unsetenv("COLORTERM");
  else setenv("COLORTERM", ct.c_str(), 1);
  bool colorful = good;
#if defined(_DEBUG)
  colorful = true; // debug builds assume a colour terminal
#endif
  std::ostringstream story;
  story << "TERM=" << term << " COLORTERM=" << ct << ":";
  if (use_switch) {
    colorful = s.coin();
    colorize::set_default_colorful(colorful);
    story << " set_default_colorful(" << colorful << ")";
    if (s.coin()) { auto other = colorize::create(); }
  }
  colorize o = s.coin() ? colorize::create() : colorize::new_colorizer();
  bool me    = colorful; // this colorizer
  PBT_CHECK(o.is_colorful() == me, story.str() << ": is_colorful() is " << o.is_colorful());
  PBT_EQ(tc::terminfo::is_colorful(), good, "terminfo::is_colorful() for TERM=" << term);
  int colors = ct.empty() ? 256 : (ct == "truecolor" || ct == "24bit") ? 0x1000000 : ct == "yes" ? 8 : atoi(ct.c_str());
  PBT_EQ(tc::terminfo::support_colors(), colors, "support_colors() for COLORTERM=" << ct);
  // the model
  Pen term_pen;
  struct {
    vector<std::pair<int, bool>> mods; // 0: reset all
    string fg, bg, text;
    bool keep{};
  } m;
  vector<Cell> want;
  std::ostringstream os;
  int shows = 0, styled = 0;
  std::deque<string> texts;
  auto say = [&](string const &t) { for (char ch: t) want.push_back({ch, term_pen}); };
  int n = s.in(1, 14);
  for (int i = 0; i < n; i++) {
    switch (s.in(0, 11)) {
    case 0: case 1: case 2: {
      int k  = s.in(1, 9);
      int on = s.in(0, 3); // 0: what(false), 1: reset_what(), else what()
#define K01_MOD(NO, WHAT) case NO: if (on == 0) o.WHAT(false); else if (on == 1) o.reset_##WHAT(); else if (on == 2) o.WHAT(); else o.WHAT(true); break;
      switch (k) { K01_MOD(1, bold) K01_MOD(2, dim) K01_MOD(3, italic) K01_MOD(4, underline) K01_MOD(5, blink) K01_MOD(6, rblink) K01_MOD(7, reverse) K01_MOD(8, hidden) K01_MOD(9, crossed) }
      m.mods.push_back({k, on >= 2});
      story << (on >= 2 ? " +" : " -") << k;
      break;
    }
    case 3: {
      bool rgb = s.coin(), back = s.coin();
      int r = s.in(0, 255), g = s.in(0, 255), b = s.in(0, 255);
      if (s.chance(1, 4)) r = g = b = s.coin() ? 0 : 255;
      auto &t = back ? m.bg : m.fg;
      if (rgb) {
        back ? o.bg(r, g, b) : o.fg(r, g, b);
        t = "rgb" + num(r) + "," + num(g) + "," + num(b);
      } else if (s.chance(1, 8)) {
        back ? o.bg(colorize::Colors256::Default) : o.fg(colorize::Colors256::Default);
        t.clear();
      } else {
        back ? o.bg((colorize::Colors256) r) : o.fg((colorize::Colors256) r);
        t = "i" + num(r);
      }
      story << (back ? " bg " : " fg ") << (t.empty() ? "default" : t);
      break;
    }
    case 4: case 5: {
      texts.push_back(s.str("ab m;[0\n", 0, 6));
      if (s.coin()) o.s(texts.back().c_str());
      else o.s(texts.back());
      m.text = texts.back();
      story << " text " << pbt::vis(m.text);
      break;
    }
    case 6:
      if (s.chance(1, 3)) {
        o.reset_all();
        m.mods.assign(1, {0, false}), m.fg.clear(), m.bg.clear();
        story << " reset_all";
      } else if (s.coin()) {
        o.clear();
        m.mods.clear(), m.fg.clear(), m.bg.clear(), m.text.clear(), m.keep = false;
        story << " clear";
      } else {
        m.keep = s.coin();
        o.auto_reset(!m.keep);
        story << " auto_reset(" << !m.keep << ")";
      }
      break;
    case 7:
      if (s.chance(1, 2)) {
        me = s.coin();
        o.enable(me);
        story << " enable(" << me << ")";
      }
      break;
    case 8: { // the operators for 16 colours
      int k = s.in(0, 7), kind = s.in(0, 5);
      story << " op" << kind << ":" << k;
      Pen t = term_pen;
      if (kind == 0) os << (enum colorize::fg)(30 + k), t.fg = "c" + num(k);
      else if (kind == 1) os << (enum colorize::bg)(40 + k), t.bg = "c" + num(k);
      else if (kind == 2) os << (enum colorize::fgB)(90 + k), t.fg = "c" + num(8 + k);
      else if (kind == 3) os << (enum colorize::bgB)(100 + k), t.bg = "c" + num(8 + k);
      else if (kind == 4) {
        os << (colorize::style)(k + 1);
        t.on[k + 1] = true;
      } else {
        int w = s.in(0, 11);
        if (w == 10) os << colorize::fg::reset, t.fg.clear();
        else if (w == 11) os << colorize::bg::reset, t.bg.clear();
        else {
          os << (enum colorize::reset) w;
          if (w == 0) t = Pen{};
          else t.on[w] = false;
          if (w == 1 || w == 2) t.on[1] = t.on[2] = false;
          if (w == 5 || w == 6) t.on[5] = t.on[6] = false;
        }
      }
      if (colorful) term_pen = t;
      string x = s.str("xy", 0, 2);
      os << x;
      say(x);
      break;
    }
    default: {
      story << " SHOW";
      shows++;
      if (s.coin()) os << o;
      else os << o.as_string();
      if (me) {
        styled += !m.mods.empty() || !m.fg.empty() || !m.bg.empty();
        for (auto &x: m.mods) {
          if (x.first == 0) term_pen = Pen{};
          else term_pen.on[x.first] = x.second;
          if (!x.second && (x.first == 1 || x.first == 2)) term_pen.on[1] = term_pen.on[2] = false;
          if (!x.second && (x.first == 5 || x.first == 6)) term_pen.on[5] = term_pen.on[6] = false;
        }
        if (!m.fg.empty()) term_pen.fg = m.fg;
        if (!m.bg.empty()) term_pen.bg = m.bg;
      }
      say(m.text);
      if (!m.keep) {
        if (me) term_pen = Pen{};
        m.mods.clear(), m.fg.clear(), m.bg.clear(), m.text.clear();
      }
    }
    }
  }
  c.nontrivial = styled >= 1 && want.size() >= 2;
  c.label(me ? "coloured" : "plain");
  c.note(story.str());
  auto got = os.str();
  vector<Cell> cells;
  Pen end;
  auto why = shown(got, cells, end);
  auto all = story.str() + "\nwritten: " + pbt::vis(got);
  PBT_CHECK(why.empty(), "it writes " << why << "\n" << all);
  string a, b;
  for (auto &x: cells) a += x.ch;
  for (auto &x: want) b += x.ch;
  PBT_CHECK(a == b, "the terminal shows " << pbt::vis(a) << ", expected " << pbt::vis(b) << "\n" << all);
  for (size_t i = 0; i < cells.size(); i++)
    PBT_CHECK(cells[i].pen == want[i].pen, "character " << i << " '" << pbt::vis(string(1, cells[i].ch)) << "' is shown with " << cells[i].pen.str() << ", expected " << want[i].pen.str() << "\n" << all);
  PBT_CHECK(end == term_pen, "at the end the terminal is left with " << end.str() << ", expected " << term_pen.str() << "\n" << all);
  if (!colorful && !me && got.find('\033') != string::npos && story.str().find("enable(1)") == string::npos) pbt::fail_now(c, "escape sequences without colours\n" + all);
}
static void k01a(Src &s, Case &c) { k01(s, c, false); }
static void k01b(Src &s, Case &c) { k01(s, c, true); }
static pbt::Reg r_k01a({"K01", "text", "text of two or more characters, with a modifier or colour", 360000, 1440000, k01a, 200});
static pbt::Reg r_k01b({"K01", "switch", "text of two or more characters, with a modifier or colour", 200000, 800000, k01b, 200});

// a coloured screen is the plain screen, once the colours are gone
static void k01screen(Src &s, Case &c) {
  g_given.clear();
  auto p = gen_program(s, help_opts(s));
  decorate(s, *p);
  Cmd *t = s.pick(p->cmds());
  LineOpts lo;
  lo.mentions = s.in(0, 2);
  lo.simple_values = true;
  Line L      = compose(s, *p, lo, t);
  vector<string> w = L.words;
  int how = s.in(0, 4);
  if (how <= 2) w.push_back("--help");
  if (how == 2) w.push_back("--shell-completion");
  if (how == 3) w.assign(1, s.coin() ? "--tree" : "~~tree");
  if (how == 4) w.assign(1, "~~debug"), w.insert(w.end(), (size_t) s.in(0, 3), "~~debug");
  static const char *HOW[] = {"help", "help", "completion", "tree", "debug"};
  c.label(HOW[how]);
  for (auto x: {"help", "shell-completion", "no-color", "debug"}) { string got; auto *f = greedy_long(t, x, got); if (!f || !f->builtin) throw pbt::Discard{}; }
  c.note("argv:" + show_words(w) + "\n" + describe(*p));
  auto &st   = cmdr::vars::store::_dim_text_dim;
  st         = s.coin();
  cmdr::vars::store::_dim_text_fg = (colorize::Colors256) s.in(0, 256);
  cmdr::vars::store::_long_title_underline = s.coin();
  unsetenv("COLORTERM");
  auto run = [&](char const *term, vector<string> const &words, bool other) {
    setenv("TERM", term, 1);
    colorize::set_default_colorful(string(term) != "dumb");
    cmdr::vars::store::_c.enable(string(term) != "dumb");
    Live l(*p);
    if (other) { // another application, created later, has its own --no-color
      auto &x = cmdr::app::create_new("other", "1", "a", "b", "c", "d");
      x.get_for_cli("no-color").emplace(true);
    }
    l.run(words);
    if (l.threw) pbt::fail_now(c, "it threw " + l.what);
    cmdr::vars::store::_c.enable(false);
    return l.out;
  };
  auto plain = run("dumb", w, false);
  auto full  = run(s.pick(vector<string>{"xterm", "linux", "screen-256color"}).c_str(), w, s.chance(1, 3));
  auto where = "argv:" + show_words(w) + "\n";
  PBT_CHECK(plain.find('\033') == string::npos, "escape sequences on a plain terminal\n" << where << pbt::vis(plain));
  vector<Cell> cells;
  Pen end;
  auto why = shown(full, cells, end);
  PBT_CHECK(why.empty(), "it writes " << why << "\n" << where << pbt::vis(full));
  string a;
  for (auto &x: cells) {
    a += x.ch;
    if (x.ch == '\n') PBT_CHECK(x.pen == Pen{}, "a line ends with " << x.pen.str() << "\n" << where << pbt::vis(full));
  }
  PBT_CHECK(end == Pen{}, "the terminal is left with " << end.str() << "\n" << where << pbt::vis(full));
  PBT_CHECK(a == plain, "coloured screen:\n" << a << "\nplain screen:\n" << plain << "\n" << where);
  if (how <= 1) {
    PBT_CHECK(full != plain, "no colours at all on a colour terminal\n" << where << full);
    auto w2 = w;
    w2.insert(w2.begin(), s.pick(vector<string>{"--no-color", "--nc", "-nc"}));
    if (w2[0] != "--nc") {
      string got;
      if (w2[0] == "--no-color" || (greedy_short(&p->root, "nc", got) && greedy_short(&p->root, "nc", got)->lng == "no-color")) {
        auto none = run("xterm", w2, false);
        PBT_CHECK(none == plain, "with " << w2[0] << ":\n" << pbt::vis(none) << "\nplain screen:\n" << plain);
      }
    }
  }
  c.nontrivial = std::count(plain.begin(), plain.end(), '\n') >= 12;
}
static pbt::Reg r_k01s({"K01", "screen", "a screen of twelve lines or more", 1200, 12000, k01screen});

// the size of the terminal
static void k01size(Src &s, Case &c) {
  int rows = s.in(0, 60000), cols = s.in(0, 65535);
  if (s.chance(1, 4)) cols = s.in(0, 2);
  bool tty = !s.chance(1, 5);
  c.note(tty ? "terminal of " + num(rows) + " rows and " + num(cols) + " columns" : "no terminal");
  int saved = dup(1), a = -1, b = -1;
  struct winsize ws {};
  ws.ws_row = (unsigned short) rows;
  ws.ws_col = (unsigned short) cols;
  if (tty && openpty(&a, &b, nullptr, nullptr, &ws) != 0) { close(saved); throw pbt::Discard{}; }
  if (!tty) b = open("/dev/null", O_WRONLY);
  dup2(b, 1);
  auto [r, w] = tc::terminfo::get_win_size();
  dup2(saved, 1);
  close(saved), close(b);
  if (a >= 0) close(a);
  if (!tty) rows = cols = 0;
  c.nontrivial = tty && cols > 0;
  PBT_EQ(r, rows, "rows");
  PBT_EQ(w, cols ? cols : 100, "columns");
}
static pbt::Reg r_k01z({"K01", "size", "a terminal with columns", 40000, 160000, k01size, 200});
PBT_MAIN()
