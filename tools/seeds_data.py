M = '#include "demo.hh"\n'
I, C, A, V_, VI, S = 'cmdr_impl.hh', 'cmdr_cmd_inl.h', 'cmdr_arg.hh', 'cmdr_var_t.hh', 'cmdr_var_t_inl.h', 'cmdr_string.hh'

seed('short-title-first', 'C01', [(I, '''if (auto const &it = li.find(pc.title); it != li.end()) {''', '''if (auto const &it = li.find(pc.title); it != li.end() && (pc.title.length() > 2 || c._short_commands.find(pc.title) == c._short_commands.end())) {''')],
 'a tree in which the long title or an alias of a command (one or two letters) is also the short title of a sibling',
 'A two-letter long title is looked up after the short titles, so that the word selects the sibling which has it as its short title.',
 M + '''
int main() {
  auto &app = fresh();
  int ls = 0, list = 0;
  app += sub_cmd{}("list", "ls", "dir").on_invoke([&](cmd const &, string_array const &) -> int { list++; return 1; });
  app += sub_cmd{}("ls", "l").on_invoke([&](cmd const &, string_array const &) -> int { ls++; return 2; });
  EXPECT(run(app, {"demo", "ls"}).rc == 2);
  EXPECT(ls == 1 && list == 0);
  return failed;
}
''')
seed('equal-signs', 'C02', [(I, '''          remains = remains.substr(1);
        }
        auto leads''', '''          remains = remains.substr(std::min(remains.find_first_not_of('='), remains.length()));
        }
        auto leads''')],
 'a text value which begins with an equals sign, given behind --flag=',
 'All leading equals signs of a value are taken for the separator.',
 M + '''
int main() {
  auto &app = fresh();
  app += opt{"old"}("expr", "e");
  string seen;
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { seen = app.get_for_cli("expr").as<string>(); return 7; });
  EXPECT(run(app, {"demo", "--expr==a+b", "go"}).rc == 7);
  EXPECT(seen == "=a+b");
  return failed;
}
''')
seed('second-plus', 'C03', [(I, '''          case '+':
            amr.matched_length++;''', '''          case '+':
            v = pc.pos == 0 || amr.obj->hit_count() < 2;
            amr.matched_length++;''')],
 'a flag mentioned twice, the second time with a trailing plus and not as the first one of a combined group',
 'A repeated flag with a trailing plus behind other flags in a combined group is switched off.',
 M + '''
int main() {
  auto &app = fresh();
  app += opt{}("alpha", "a");
  app += opt{}("beta", "b");
  string got;
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { got = app.get_for_cli("alpha").as_string() + app.get_for_cli("beta").as_string(); return 7; });
  EXPECT(run(app, {"demo", "-b-", "-ab+", "go"}).rc == 7);
  EXPECT(got == "truetrue");
  return failed;
}
''')
seed('special-forgotten', 'C03', [(A, '      _hit_special = is_special;', '      _hit_special = is_special && hit_title.length() > 1;')],
 'a flag mentioned behind ~~ by its long title and later by a short title of one letter',
 'A flag forgets that it was mentioned behind ~~ when it is given again by its short title.',
 M + '''
int main() {
  auto &app = fresh();
  app += opt{}("alpha", "a");
  auto *alpha  = app.last_added_arg();
  bool special = false;
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { special = alpha->hit_special(); return 7; });
  EXPECT(run(app, {"demo", "~~alpha", "-a", "go"}).rc == 7);
  EXPECT(special);
  return failed;
}
''')
seed('behind-long-value', 'C03', [(I, '        if (pc.pos < pc.title.length()) {', '        if (pc.pos < pc.title.length() && (pc.matching_flag_type != 0 || amr.matched_length < 5)) {')],
 'a whole number of four digits or more glued to a short flag, with another short flag behind it in the same word',
 'Flags written behind a long number in one word are silently dropped.',
 M + '''
int main() {
  auto &app = fresh();
  app += opt{1}("retry", "r");
  app += opt{}("beta", "b");
  string got;
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { got = app.get_for_cli("retry").as_string() + app.get_for_cli("beta").as_string(); return 7; });
  EXPECT(run(app, {"demo", "-r12b", "go"}).rc == 7);
  EXPECT(got == "12true");
  got = "";
  auto &other = fresh();
  other += opt{1}("retry", "r");
  other += opt{}("beta", "b");
  other += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { got = other.get_for_cli("retry").as_string() + other.get_for_cli("beta").as_string(); return 7; });
  EXPECT(run(other, {"demo", "-r1798b", "go"}).rc == 7);
  EXPECT(got == "1798true");
  return failed;
}
''')
seed('hidden-below', 'C12', [(I, 'help_arg.hit_count() > 2;', 'help_arg.hit_count() >= (cc->owner() != nullptr && help_arg.hit_long() ? 2 : 3);')],
 'help asked for twice, at least once by a long title, at a command below the application',
 'The help screen of a command shows its hidden items when help is asked for twice.',
 M + '''
int main() {
  auto &app = fresh();
  app += sub_cmd{}("go", "zz").description("a place");
  auto &go = *app.last_added_command();
  go += opt{}("secret", "s").description("not shown").hidden(true);
  go += sub_cmd{}("inner", "in").description("a command").on_invoke([](cmd const &, string_array const &) -> int { return 7; });
  auto o = run(app, {"demo", "go", "--help", "--help"});
  EXPECT(o.rc == 0);
  EXPECT(o.out.find("inner") != string::npos);
  EXPECT(o.out.find("secret") == string::npos);
  return failed;
}
''')
seed('outer-wins', 'C04', [(I, 'if (itz.first.length() > static_cast<std::size_t>(amr.matched_length)) {', 'if (itz.first.length() > static_cast<std::size_t>(amr.matched_length) || (itz.first.length() == title.length() && ptr->owner() == nullptr)) {')],
 'a flag title which is defined both at the root and in a selected command, used without an attached value',
 'A flag of the root takes an exactly matching word away from the flag of the innermost command with the same title.',
 M + '''
int main() {
  auto &app = fresh();
  app += opt{1}("port", "p");
  app += sub_cmd{}("server", "s").on_invoke([](cmd const &, string_array const &) -> int { return 7; });
  *app.last_added_command() += opt{2}("port", "p");
  EXPECT(run(app, {"demo", "server", "--port", "99"}).rc == 7);
  EXPECT(app.get_for_cli("server.port").as<int>() == 99);
  EXPECT(app.get_for_cli("port").as<int>() == 1);
  return failed;
}
''')
seed('second-terminator', 'C05', [(I, '''      a.push_back(it);
    }
    for (; i < argc; i++) {
      a.push_back(argv[i]);
    }''', '''      a.push_back(it);
    }
    for (bool lead{true}; i < argc; i++) {
      if (lead && argv[i][0] == '-' && argv[i][1] == '-' && argv[i][2] == 0) continue; // the terminator itself
      lead = false;
      a.push_back(argv[i]);
    }''')],
 'a terminator directly behind the terminator: cmd -- -- word',
 'Further "--" words which follow the terminator directly are dropped rather than passed on.',
 M + '''
int main() {
  auto &app = fresh();
  string_array got;
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &a) -> int { got = a; return 7; });
  EXPECT(run(app, {"demo", "go", "x", "--", "--", "-y"}).rc == 7);
  EXPECT((got == string_array{"x", "--", "-y"}));
  return failed;
}
''')
seed('post-after-failure', 'C06', [(I, '''      if (c.on_post_invoke()) {
        c.on_post_invoke()(c, remain_args);
      }
      if (_global_on_post_invoke) {
        _global_on_post_invoke(c, remain_args);
      }

    } catch (...) {''', '''      if (c.on_post_invoke()) {
        c.on_post_invoke()(c, remain_args);
      }
      if (_global_on_post_invoke && (rc == 0 || c.on_invoke())) {
        _global_on_post_invoke(c, remain_args);
      }

    } catch (...) {''')],
 'a command without its own handler whose pre-handler or not-hooked callback returns a non-zero status',
 'The global post-handler is skipped after a failure of a command without handler.',
 M + '''
int main() {
  auto &app = fresh();
  string trace;
  app += sub_cmd{}("go", "zz").on_pre_invoke([&](cmd const &, string_array const &) -> int { trace += "p"; return 3; }).on_post_invoke([&](cmd const &, string_array const &) -> int { trace += "q"; return 0; });
  app.set_global_post_invoke_handler([&](cmd const &, string_array const &) -> int { trace += "Q"; return 0; });
  EXPECT(run(app, {"demo", "go"}).rc == 3);
  EXPECT(trace == "pqQ");
  return failed;
}
''')
seed('uncle-command', 'C07', [(I, '''        cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
      }
    }
    return cmr;''', '''        cmr.obj     = (opt::cmd *) &(p2->update_hit_count(pc.title, 1, false));
      } else if (c.owner() != nullptr && c.hit_count() > 1) {
        auto const &up = c.owner()->_short_commands;
        if (auto const &it2 = up.find(pc.title); it2 != up.end() && it2->second != &c) {
          cmr.matched = true;
          cmr.obj     = (opt::cmd *) &(it2->second->update_hit_count(pc.title, 1, false));
        }
      }
    }
    return cmr;''')],
 'an application run twice, so that a command with sub-commands has been hit before, and a word which is no sub-command of it but the short title of its sibling',
 'On a repeated run an unknown sub-command is looked up among the siblings of its parent too, and one of them is run.',
 M + '''
int main() {
  auto &app = fresh();
  int x = 0, y = 0;
  app += sub_cmd{}("server", "s");
  *app.last_added_command() += sub_cmd{}("start", "st").on_invoke([&](cmd const &, string_array const &) -> int { x++; return 7; });
  app += sub_cmd{}("build", "b").on_invoke([&](cmd const &, string_array const &) -> int { y++; return 8; });
  EXPECT(run(app, {"demo", "server", "start"}).rc == 7);
  auto r = run(app, {"demo", "server", "b"});
  EXPECT(r.rc == 0 && y == 0);
  EXPECT(r.err.find("\\"b\\"") != string::npos);
  return failed;
}
''')
seed('required-of-root', 'C08', [(I, '''        if (fp.required() && fp.hit_count() < 1) {''', '''        if (fp.required() && fp.hit_count() < 1 && (ptr->owner() != nullptr || (!cc.has_sub_commands() && cc.owner() == ptr))) {''')],
 'a required flag of the root and a command at the second level or deeper',
 'The required flags of the root are not asked for when a command of the second level or deeper is run.',
 M + '''
int main() {
  auto &app = fresh();
  int ran = 0;
  app += opt{1}("token", "t").required();
  app += sub_cmd{}("server", "s");
  *app.last_added_command() += sub_cmd{}("start", "st").on_invoke([&](cmd const &, string_array const &) -> int { ran++; return 7; });
  EXPECT(run(app, {"demo", "server", "start"}).rc == -1);
  EXPECT(ran == 0);
  return failed;
}
''')
seed('env-order', 'C10', [(I, '''          a.update_hit_count_from_env(ev, 1);''', '''          a.update_hit_count_from_env(ev, 1);
          if (a.required()) break; // given''')],
 'a required flag with two bound variables which are both set',
 'For a required flag the first of its bound variables wins instead of the last one.',
 M + '''
int main() {
  setenv("DEMO_X", "1", 1);
  setenv("DEMO_Y", "2", 1);
  auto &app = fresh();
  app += opt{0}("num", "n").required().env_vars("DEMO_X", "DEMO_Y");
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { return app.get_for_cli("num").as<int>(); });
  EXPECT(run(app, {"demo", "go"}).rc == 2);
  return failed;
}
''')
seed('toggle-default', 'C11', [(C, '''it == _hit_toggle_groups.end() || ptr->default_value()->as<bool>() == true) {''', '''it == _hit_toggle_groups.end() || (ptr->default_value()->as<bool>() == true && it->second < ptr->title_long())) {''')],
 'a toggle group of which no member is mentioned and whose default member is declared after a member with a greater title',
 'The declared default of a toggle group is not reported if it sorts before the first member.',
 M + '''
int main() {
  auto &app = fresh();
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &c, string_array const &) -> int { return c.toggle_group("mode") == "apple" ? 7 : 8; });
  auto &c = *app.last_added_command();
  c += opt{}("zebra", "z").toggle_group("mode");
  c += opt{true}("apple", "a").toggle_group("mode");
  c += opt{}("melon", "m").toggle_group("mode");
  EXPECT(run(app, {"demo", "go"}).rc == 7);
  return failed;
}
''')
seed('alias-prefix', 'C14', [(C, '''        if (itz.second->title_short() == s)
          return *((itz).second);
        for (auto &k: itz.second->title_aliases()) {
          if (k == s)''', '''        if (itz.second->title_short() == s)
          return *((itz).second);
        for (auto &k: itz.second->title_aliases()) {
          if (k.compare(0, s.length(), s) == 0 && s.length() + 2 >= k.length())''')],
 'an extensive look-up of an undeclared title which lacks the last one or two letters of an alias',
 'Extensive command look-ups accept an alias without its last letters.',
 M + '''
int main() {
  auto &app = fresh();
  app += sub_cmd{}("remove", "r", "delete", "unlink");
  EXPECT(app("delete", true).valid());
  EXPECT(!app("dele", true).valid());
  return failed;
}
''')
seed('stale-post-run', 'C15', [(I, '''    _on_loading_externals.clear();
    _on_post_runs.clear();''', '''    _on_loading_externals.clear();
    if (!_on_handle_exception_ptr) _on_post_runs.resize(std::min(_on_post_runs.size(), std::size_t{1}));''')],
 'an application with a post-run callback which is reset, declared anew and run again',
 'A reset keeps the first post-run callback of the old declarations.',
 M + '''
int main() {
  auto &app = fresh();
  int old = 0, now = 0;
  app.set_global_on_post_run_handlers([&](cmdr::app const &) { old++; });
  app += sub_cmd{}("go", "zz").on_invoke([](cmd const &, string_array const &) -> int { return 7; });
  EXPECT(run(app, {"demo", "go"}).rc == 7);
  EXPECT(old == 1);
  app.reset();
  app += sub_cmd{}("go", "zz").on_invoke([](cmd const &, string_array const &) -> int { return 7; });
  EXPECT(run(app, {"demo", "go"}).rc == 7);
  EXPECT(old == 1);
  return failed;
}
''')
seed('stale-exception-handler', 'C15', [(I, """    _on_handle_exception_ptr = nullptr;
    _on_loading_externals.clear();""", """    if (_on_loading_externals.empty()) _on_handle_exception_ptr = nullptr;
    _on_loading_externals.clear();""")],
 'an application with an exception handler and a loading callback which is reset, and a handler that throws afterwards',
 'A reset keeps the exception handler of the old declarations if there are loading callbacks.',
 M + '''
int main() {
  auto &app = fresh();
  int old = 0;
  app.set_on_handle_exception_ptr([&](std::exception_ptr const &) { old++; });
  app.set_global_on_loading_externals([](cmdr::app &) {});
  app += sub_cmd{}("go", "zz").on_invoke([](cmd const &, string_array const &) -> int { throw std::runtime_error("one"); });
  run(app, {"demo", "go"});
  EXPECT(old == 1);
  app.reset();
  app += sub_cmd{}("go", "zz").on_invoke([](cmd const &, string_array const &) -> int { throw std::runtime_error("two"); });
  run(app, {"demo", "go"});
  EXPECT(old == 1);
  return failed;
}
''')
seed('help-wrap', 'C12', [(C, 'd = string::trim_left_space(d.substr(t));', 'd = w == 2 ? d.substr(std::min(t + 1, d.length())) : string::trim_left_space(d.substr(t));')],
 'a description which wraps onto three lines, broken in the middle of a word at the second break',
 'The second line break of a description swallows a character which is no blank.',
 M + '''
int main() {
  setenv("COLUMNS", "80", 1);
  auto &app = fresh();
  string d;
  for (int i = 0; i < 400; i++) d += (char) ('a' + i * i % 12);
  app += sub_cmd{}("go", "zz").description(d.c_str()).on_invoke([](cmd const &, string_array const &) -> int { return 7; });
  auto r = run(app, {"demo", "--help"});
  string s;
  for (char c: r.out) if (c >= 'a' && c < 'm') s += c;
  EXPECT(s.find(d) != string::npos);
  return failed;
}
''')
seed('through-value', 'S01', [(V_, '''        auto it = _children.find(k);
        if (it == _children.end()) {
          _children.emplace(std::make_pair(k, std::make_shared<self_type>()));
          it = _children.find(k);
        }
        it->second->_set(
            remains.c_str(), [&](char const *end_key, node_pointer ptr) {
              // small_string sk(key);
              // sk += '.';
              // sk += end_key;
              UNUSED(end_key, ptr);
              _indexes.emplace(std::make_pair(key, ptr));''', '''        auto it = _children.find(k);
        if (it == _children.end()) {
          _children.emplace(std::make_pair(k, std::make_shared<self_type>()));
          it = _children.find(k);
        } else if (it->second->_children.empty() && _parent == nullptr && remains.find('.') != small_string::npos) {
          it->second->T::reset(); // becomes a branch
        }
        it->second->_set(
            remains.c_str(), [&](char const *end_key, node_pointer ptr) {
              // small_string sk(key);
              // sk += '.';
              // sk += end_key;
              UNUSED(end_key, ptr);
              _indexes.emplace(std::make_pair(key, ptr));''')],
 'a key which holds a value, and then the first assignment two or more levels below it',
 'A leaf which becomes a branch by an assignment two levels below loses its value.',
 M + '''
int main() {
  cmdr::vars::store s;
  s.set_raw("a.b", 1);
  s.set_raw("a.b.c", 2);
  EXPECT(s.get_raw("a.b").as<int>() == 1);
  s.set_raw("x.y", 3);
  s.set_raw("x.y.z.w", 4);
  EXPECT(s.get_raw("x.y.z.w").as<int>() == 4);
  EXPECT(s.get_raw("x.y").has_value() && s.get_raw("x.y").as<int>() == 3);
  return failed;
}
''')
seed('filter-stops', 'S03', [(VI, '''        if (!on_filter(p))
          continue;''', '''        if (!on_filter(p)) {
          if (v->_children.empty()) continue;
          break;
        }''')],
 'a filtered tree dump whose filter rejects a branch that is not the last of its siblings',
 'The tree dump stops at the first branch which the filter rejects.',
 M + '''
int main() {
  cmdr::vars::store s;
  for (auto k: {"a.x", "b.x", "c.x", "d.x", "e"}) s.set_raw(k, 1);
  std::ostringstream os;
  s.dump_tree_f(os, [](std::pair<string, cmdr::vars::store::node_pointer> const &p) { return p.first[0] != 'c'; }, "T");
  for (auto k: {"a:", "b:", "d:", "e:"}) EXPECT(os.str().find(k) != string::npos);
  EXPECT(os.str().find("c:") == string::npos);
  return failed;
}
''')
seed('yaml-single', 'S04', [('addons/loaders/yaml_loader.hh', 'if (!vec.empty()) {', 'if (vec.size() > 1 || (!vec.empty() && !pk.empty())) {')],
 'a list with one element at the top level of the document',
 'A one-element list at the top level is loaded as an empty list.',
 '#include "demo.hh"\n#include <addons/loaders/yaml_loader.hh>\n#include <fstream>\n' + '''
int main() {
  auto &app = fresh();
  { std::ofstream("x.yml") << "names:\\n- one\\nmore: [a, b]\\n"; }
  std::ifstream f("x.yml");
  cmdr::addons::loaders::yaml_loader{}.load_to("x.yml", app);
  EXPECT(app.store().get_raw("more").as_string() == "[\\"a\\",\\"b\\"]");
  EXPECT(app.store().get_raw("names").as_string() == "[\\"one\\"]");
  return failed;
}
''', libs='-lyaml-cpp')
seed('replace-all', 'U01', [(S, 'start_pos += to.length(); // In case', 'start_pos += cross::max(to.length(), std::size_t{1}); // In case')],
 'replacing by nothing where the occurrences follow one another directly',
 'Removing all occurrences of a text misses the second one of two adjacent ones.',
 M + '''
int main() {
  string s = "a--b";
  cmdr::string::replace_all(s, "-", "");
  EXPECT(s == "ab");
  return failed;
}
''')
seed('jaro-window', 'U02', [(S, 'j < cross::min((int) len2, i + max_dist + 1); j++)', 'j < cross::min((int) len2, cross::min(i, (int) len2) + max_dist + 1 - (len2 > 6 && len1 < 4 ? 1 : 0)); j++)')],
 'a text of up to three letters compared with one of seven or more letters whose only match is at the edge of the window',
 'The match window of short texts against long ones is one too small at its upper end.',
 M + '''
int main() {
  cmdr::text::jaro_winkler_distance j;
  j.calculate("ab", "xxaxxxx");
  EXPECT(j.get_distance() > 0.5);
  return failed;
}
''')
PO, CO, PQ, CH, PR, MM, PA, RD = 'cmdr_pool.hh', 'cmdr_common.hh', 'cmdr_priority_queue.hh', 'cmdr_chrono.hh', 'cmdr_process.hh', 'cmdr_mmap.hh', 'cmdr_path.hh', 'cmdr_os_io_redirect.hh'
TH = '''#include "demo.hh"
#include <cmdr11/cmdr_pool.hh>
#include <atomic>
#include <thread>
#include <chrono>
// ends the program if it hangs
inline void limit(int seconds) { std::thread([seconds] { std::this_thread::sleep_for(std::chrono::seconds(seconds)); fprintf(stderr, "it never ends\\n"); _exit(9); }).detach(); }
'''
seed('lite-notify-first', 'P01', [(PO, '''        tasks.emplace([task]() { (*task)(); });
      }
      condition.notify_one();''', '''        tasks.emplace([task]() { (*task)(); });
        if (tasks.size() > 1) return res; // somebody was told already
      }
      condition.notify_one();''')],
 'two tasks queued in quick succession that wait for one another, so that the second one needs a thread of its own',
 'thread_pool_lite wakes a worker only when its queue was empty: a second task queued before the first one was fetched wakes nobody.',
 TH + '''
int main() {
  limit(20);
  for (int round = 0; round < 3000; round++) {
    cmdr::pool::thread_pool_lite pool(2);
    std::atomic<int> here{0};
    auto meet = [&] { here++; while (here < 2) std::this_thread::yield(); };
    if (round % 2) std::this_thread::sleep_for(std::chrono::microseconds(200));
    auto a = pool.enqueue(meet);
    auto b = pool.enqueue(meet);
    a.get();
    b.get();
  }
  return failed;
}
''')
seed('queue-notify-first', 'P02', [(PO, '''      {
        locker l_(_m);
        _data.emplace_back(std::move(t));
      }
      _cv.notify_one();''', '''      bool first{};
      {
        locker l_(_m);
        first = _data.empty();
        _data.emplace_back(std::move(t));
      }
      if (first) _cv.notify_one();''')],
 'two consumers which wait, and two messages put before the first of the consumers has woken up and taken its one',
 'A consumer is woken only for a message that is put into an empty queue.',
 TH + '''
int main() {
  limit(10);
  for (int round = 0; round < 300; round++) {
    cmdr::pool::threaded_message_queue<int> q;
    std::vector<std::thread> th;
    for (int i = 0; i < 3; i++) th.emplace_back([&] { EXPECT(q.pop_front().has_value()); });
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
    for (int i = 0; i < 3; i++) q.emplace_back(int(i));
    for (auto &t: th) t.join();
  }
  return failed;
}
''')
seed('wait-for-once', 'P03', [(PO, '''      return _cv.wait_for(lk, rel_time, _p);''', '''      if (_p())
        return true;
      return _cv.wait_for(lk, rel_time) == std::cv_status::no_timeout || _p();''')],
 'a wait with a limit on a condition that must be set several times, woken by a setting which is not the last one (or spuriously)',
 'wait_for() takes any wake-up for success.',
 TH + '''
int main() {
  limit(20);
  cmdr::pool::conditional_wait_for_int cw(2);
  bool got = true;
  std::thread t([&] { got = cw.wait_for(std::chrono::milliseconds(800)); });
  std::this_thread::sleep_for(std::chrono::milliseconds(200));
  cw.set_for_all();
  t.join();
  EXPECT(!got);
  cw.set_for_all();
  EXPECT(cw.wait_for(std::chrono::milliseconds(0)));
  return failed;
}
''')
seed('clear-unlocked', 'P04', [(PO, '''        _abort = true;
        _data.clear();
      }
      _cv.notify_all();''', '''        _abort = true;
      }
      _cv.notify_all();
      _data.clear();''')],
 'a message queue which is cleared while another thread sends messages',
 'clear() empties the queue after it has given the lock away, at the same time as senders fill it.',
 TH + '''
int main() {
  limit(50);
  for (int round = 0; round < 300; round++) {
    cmdr::pool::threaded_message_queue<std::string> q;
    std::thread t([&] { for (int i = 0; i < 200; i++) q.emplace_back("a message which does not fit into a small string"); });
    std::this_thread::sleep_for(std::chrono::microseconds(round));
    q.clear();
    t.join();
  }
  return failed;
}
''', flags='-g -fsanitize=thread')
seed('run-unlocked-end', 'P05', [(I, '''    std::lock_guard guard(_run_is_singleton);

    class post_runner {''', '''    std::unique_lock guard(_run_is_singleton);

    class post_runner {'''), (I, '''    post_runner post_runner([this]() {
      post_run();''', '''    post_runner post_runner([this, &guard]() {
      guard.unlock();
      post_run();''')],
 'two threads in run() of one application, one of which is in its post-run work while the other one starts',
 'run() gives its lock away before the post-run work, which then overlaps the next run.',
 TH + '''
int main() {
  limit(20);
  auto &app = fresh();
  std::atomic<int> inside{0}, most{0};
  app += sub_cmd{}("go").on_invoke([&](cmd const &, string_array const &) -> int { if (++inside > 1) most = 2; std::this_thread::sleep_for(std::chrono::milliseconds(20)); return 0; });
  app.set_global_on_post_run_handlers([&](cmdr::app const &) { std::this_thread::sleep_for(std::chrono::milliseconds(100)); inside--; });
  auto one = [&] {
    string a = "demo", b = "go";
    char *av[] = {a.data(), b.data(), nullptr};
    app.run(2, av);
  };
  std::thread t(one), u(one);
  t.join();
  u.join();
  EXPECT(most < 2);
  return failed;
}
''')
seed('store-shared-lock', 'S05', [(V_, '''    void _set(char const *key, update_parent_index const &cb, A &&a) {
      std::unique_lock<std::shared_mutex> lock(mutex_);''', '''    void _set(char const *key, update_parent_index const &cb, A &&a) {
      std::shared_lock<std::shared_mutex> lock(mutex_);''')],
 'two threads that set keys of one store at the same time',
 'Writers take the lock of a node in shared mode and change it at the same time.',
 TH + '''
int main() {
  limit(40);
  for (int round = 0; round < 200; round++) {
    cmdr::vars::store s;
    std::vector<std::thread> th;
    for (int t = 0; t < 4; t++)
      th.emplace_back([&s, t] { for (int i = 0; i < 20; i++) s.set_raw(("k" + std::to_string(i % 7) + ".t" + std::to_string(t) + "x" + std::to_string(i)).c_str(), i); });
    for (auto &t: th) t.join();
    for (int t = 0; t < 4; t++)
      for (int i = 0; i < 20; i++) EXPECT(s.has("", ("k" + std::to_string(i % 7) + ".t" + std::to_string(t) + "x" + std::to_string(i)).c_str()));
  }
  return failed;
}
''', flags='-g -fsanitize=thread')
seed('emit-stops-at-expired', 'O01', [(CO, '''      } else {
        for (auto const &wp: _observers)
          if (auto spt = wp.lock())
            spt->observe(event_or_subject);
      }''', '''      } else {
        for (auto const &wp: _observers) {
          auto spt = wp.lock();
          if (!spt) break;
          spt->observe(event_or_subject);
        }
      }''')],
 'an observable without locking and an observer in the middle of its list that was destroyed without being removed',
 'An emission ends at the first observer which does not exist any more.',
 M + '''
struct Ev { int id; };
struct Obs: cmdr::util::observer<Ev> { int n{}; void observe(Ev const &) override { n++; } };
int main() {
  cmdr::util::observable<Ev, false, false> s;
  using Sh = cmdr::util::observable<Ev, false, false>::observer_t_shared;
  auto x = std::make_shared<Obs>(), z = std::make_shared<Obs>();
  Sh a = x, b = std::make_shared<Obs>(), c = z;
  s += a; s += b; s += c;
  b.reset();
  s.emit({1});
  EXPECT(x->n == 1 && z->n == 1);
  return failed;
}
''')
seed('cns-lost-update', 'O02', [(CO, '''          auto copy = _observers;
          copy.push_back(o);
          _observers.swap(copy);''', '''          auto copy = _observers;
          _m.unlock(); // nobody has to wait for the copy
          copy.push_back(o);
          _m.lock();
          _observers.swap(copy);''')],
 'two threads that register observers (as weak pointers) at the same time',
 'The list of observers is copied under one lock and put back under another one; a registration in between is lost.',
 TH + '''
struct Ev { int id; };
struct Obs: cmdr::util::observer<Ev> { std::atomic<int> n{}; void observe(Ev const &) override { n++; } };
int main() {
  limit(50);
  int lost = 0;
  for (int round = 0; round < 2000 && !lost; round++) {
    using O = cmdr::util::observable<Ev, true, true>;
    O s;
    std::vector<std::shared_ptr<Obs>> o;
    for (int i = 0; i < 64; i++) o.push_back(std::make_shared<Obs>());
    std::atomic<int> go{0};
    auto reg = [&](int from) {
      go++;
      while (go < 2) ;
      for (int i = 0; i < 32; i++) s.add_observer(O::observer_t(o[(size_t) (from + i)]));
    };
    std::thread t(reg, 0), u(reg, 32);
    t.join();
    u.join();
    s.emit({1});
    for (auto &x: o) lost += x->n != 1;
  }
  EXPECT(lost == 0);
  return failed;
}
''')
seed('queue-ties-right', 'Q01', [(PQ, '''      if (r > 0) {
        if (at->_right) {''', '''      if (r > 0 && !(at->_left && r == 1)) {
        if (at->_right) {''')],
 'an element which ranks just above another one (the comparator answers 1) that is pushed after a lower one',
 'An element that ranks higher by one is appended to the elements of the lower rank if there is a still lower one.',
 M + '#include <cmdr11/cmdr_priority_queue.hh>\n' + '''
struct By { int operator()(int const &a, int const &b) const { return a - b; } };
int main() {
  cmdr::queue::priority_queue<int, int, By> q;
  for (int i: {5, 3, 6}) q.push(i);
  EXPECT(q.pop() == 6);
  EXPECT(q.pop() == 5);
  EXPECT(q.pop() == 3);
  return failed;
}
''')
seed('duration-days-wrap', 'T01', [(CH, '''    if (m.count() || foundNonZero) {
      foundNonZero = true;
      os << m.count() << "m";
      ns -= m;
    }''', '''    if (m.count()) {
      foundNonZero = true;
      os << m.count() << "m";
      ns -= m;
    } else if (foundNonZero && !y.count()) {
      os << m.count() << "m";
    } else if (foundNonZero) {
      os << "m";
    }''')],
 'a duration of more than a year with no minutes in it',
 'The minutes of a duration of more than a year are shown without their number if there are none.',
 M + '''
int main() {
  using namespace std::chrono;
  EXPECT(cmdr::chrono::format_duration(hours(24 * 365 + 25) + seconds(3)) == "1y:1d:1h:0m:3s");
  return failed;
}
''')
seed('month-wrap-once', 'T01', [(CH, '''    while (tmp.tm_mon > 11) {
      tmp.tm_mon -= 12;
      tmp.tm_year++;
    }''', '''    if (tmp.tm_mon > 11) {
      tmp.tm_mon = tmp.tm_mon % 12;
      tmp.tm_year++;
    }''')],
 'a month offset which crosses two year ends',
 'The last day of a month more than a year ahead is taken from the year before.',
 M + '''
int main() {
  std::tm t{};
  t.tm_year = 121; t.tm_mon = 10; t.tm_mday = 5; t.tm_isdst = -1;
  auto r = cmdr::chrono::last_day_at_this_month(t, 1, 14);
  EXPECT(r.tm_year == 122 && r.tm_mon == 11 && r.tm_mday == 31);
  r = cmdr::chrono::last_day_at_this_month(t, 1, 15);
  EXPECT(r.tm_year == 123 && r.tm_mon == 0 && r.tm_mday == 31);
  return failed;
}
''')
seed('exec-stops-at-nul', 'X01', [(PR, '''      while ((ch = fgetc(pipe.get())) != EOF) {
          this->output += (char) ch;''', '''      while ((ch = fgetc(pipe.get())) != EOF) {
          char const part[] = {(char) ch, 0};
          this->output += part;''')] if False else [(PR, '''          this->output += (char) ch;
        }''', '''          char const part[] = {(char) ch, 0};
          this->output += part;
        }''')],
 'a command whose output contains NUL bytes',
 'NUL bytes of the output of a command are dropped.',
 M + '#include <cmdr11/cmdr_process.hh>\n' + '''
int main() {
  setenv("TMPDIR", ".", 1);
  cmdr::process::exec e("printf 'a\\\\000b'");
  std::ostringstream os;
  os << e;
  EXPECT(os.str() == string("a\\0b", 3));
  return failed;
}
''')
seed('redirect-clog', 'X01', [(RD, '''        , pipe_std_dev_to<&std::clog>(output_stream_buffer_file)
        , pipe_stdin_to''', '''        , pipe_std_dev_to<&std::clog>(output_stream_buffer_file ? std::cerr.rdbuf() : nullptr)
        , pipe_stdin_to'''), (RD, '''    virtual ~pipe_std_dev_to() {
      (*std_out_device).rdbuf(stream_buffer_);''', '''    virtual ~pipe_std_dev_to() {
      if (std_out_device == &std::clog && stream_buffer_ == std::cerr.rdbuf()) return;
      (*std_out_device).rdbuf(stream_buffer_);''')],
 'a redirection of the log stream within one of the error stream to the place where the log went before',
 'The log stream stays redirected if it went before to the place where errors go now.',
 M + '#include <cmdr11/cmdr_os_io_redirect.hh>\n' + '''
int main() {
  std::ostringstream a, b;
  auto *old = std::clog.rdbuf();
  {
    cmdr::os::pipe_stdlog_to l(a.rdbuf());
    cmdr::os::pipe_stderr_to e(a.rdbuf());
    { cmdr::os::pipe_stdlog_to m(b.rdbuf()); std::clog << "in"; }
    std::clog << "out";
  }
  EXPECT(a.str() == "out" && b.str() == "in");
  EXPECT(std::clog.rdbuf() == old);
  return failed;
}
''')
seed('mmap-empty-leak', 'F01', [(MM, '''        munmap(addr_, size_);
        addr_ = MAP_FAILED;
      }

      if (fd_ != INVALID_HANDLE_VALUE) {
        ::close(fd_);
        fd_ = INVALID_HANDLE_VALUE;
      }
#endif''', '''        munmap(addr_, size_);
        addr_ = MAP_FAILED;
        ::close(fd_);
      }
      fd_ = INVALID_HANDLE_VALUE;
#endif''')],
 'a mapping of an empty file (which cannot be mapped)',
 'The file descriptor of a file that could not be mapped is never closed.',
 M + '#include <cmdr11/cmdr_mmap.hh>\n#include <filesystem>\n' + '''
int main() {
  { std::ofstream("empty"); }
  auto fds = [] { int n = 0; for (auto const &x: std::filesystem::directory_iterator("/proc/self/fd")) (void) x, n++; return n; };
  int before = fds();
  for (int i = 0; i < 5; i++) cmdr::mmap::detail::mmaplib m("empty", false, false);
  EXPECT(fds() == before);
  return failed;
}
''')
seed('mmap-small-private', 'F01', [(MM, 'shareable ? MAP_SHARED : MAP_PRIVATE', 'shareable && size_ >= 4096 ? MAP_SHARED : MAP_PRIVATE')],
 'a shared writable mapping of a file which is smaller than a page',
 'What is written to a shared mapping of a small file never reaches the file.',
 M + '#include <cmdr11/cmdr_mmap.hh>\n' + '''
int main() {
  { std::ofstream("f") << "hello"; }
  { cmdr::mmap::mmap_um<true, true> m(cmdr::mmap::open_file("f", true)); m.data()[0] = 'j'; }
  std::ifstream f("f");
  string s;
  f >> s;
  EXPECT(s == "jello");
  return failed;
}
''')
TE, U = 'cmdr_terminal.hh', 'cmdr_utils.hh'
seed('alias-is-own-short', 'C09', [(C, '''        _long_commands.insert({itz, ptr});''', '''        if (itz != a.title_short()) _long_commands.insert({itz, ptr});''')],
 'a command with an alias that is also its own short title, and a later sibling with that word as its long title or alias',
 'An alias that repeats the short title is not registered as a name, so that a sibling may take it.',
 M + '''
int main() {
  auto &app = fresh();
  int list = 0;
  app += sub_cmd{}("list", "ls", "ls").on_invoke([&](cmd const &, string_array const &) -> int { list++; return 1; });
  bool refused = false;
  try {
    app += sub_cmd{}("ls", "l").on_invoke([&](cmd const &, string_array const &) -> int { return 2; });
  } catch (std::exception const &) { refused = true; }
  EXPECT(refused);
  EXPECT(run(app, {"demo", "ls"}).rc == 1);
  EXPECT(list == 1);
  return failed;
}
''')
seed('feel-like-nobody', 'C13', [(I, '''      if (!matched.empty()) {
        auto feel_like = get_for_cli("feel-like").as<bool>();
        if (feel_like) {''', '''      auto feel_like = get_for_cli("feel-like").as<bool>();
      if (feel_like || !matched.empty()) {
        if (feel_like) {''')],
 '--feel-like and an unknown command word which resembles no command at all',
 'The most alike command is taken even if there is none: the end of an empty map is dereferenced.',
 M + '''
int main() {
  auto &app = fresh();
  sub_cmd go;
  go("server", "s");
  app += go;
  *app.last_added_command() += sub_cmd{}("start", "st").on_invoke([&](cmd const &, string_array const &) -> int { return 7; });
  EXPECT(run(app, {"demo", "--feel-like", "server", "qqqq"}).rc <= 0);
  fflush(nullptr);
  _exit(failed);
}
''', flags='-fsanitize=address')
seed('uint16-wide', 'S02', [(V_, '''[](std::istream &is, uint16_t &x) { is >> x; }),''', '''[](std::istream &is, uint16_t &x) { uint32_t t{}; if (is >> t) x = (uint16_t) t; }),''')],
 'a value beyond 65535 for a 16-bit option',
 'A number which does not fit is cut to 16 bits instead of being refused.',
 M + '''
int main() {
  cmdr::vars::variable v{(uint16_t) 8080};
  std::stringstream s("70000");
  s >> v;
  EXPECT(v.as<uint16_t>() == 8080);
  std::stringstream t("65535");
  t >> v;
  EXPECT(v.as<uint16_t>() == 65535);
  return failed;
}
''')
seed('black-background', 'K01', [(TE, '''          if (o._bg >= 0 && o._bg < 256) {''', '''          if (o._bg > 0 && o._bg < 256) {''')],
 'a black background in 256 colours',
 'Colour number 0 is taken for no background.',
 M + '''
int main() {
  using cmdr::terminal::colors::colorize;
  colorize::set_default_colorful(true);
  auto c = colorize::create();
  c.enable(true);
  std::ostringstream a, b;
  a << c.fg(colorize::Colors256::White).bg(colorize::Colors256::Black).s("x");
  EXPECT(a.str().find("48;5;0") != string::npos);
  b << c.bg(colorize::Colors256::Red).s("x");
  EXPECT(b.str().find("48;5;9") != string::npos);
  return failed;
}
''')
seed('modifiers-stay', 'K01', [(TE, '''        xo->_stocked_ss.swap(sz);
        xo->_cc = nullptr;''', '''        if (xo->_fg != -1 || xo->_bg != -1) xo->_stocked_ss.swap(sz);
        xo->_cc = nullptr;''')],
 'one colorizer which writes a text with a modifier but without colours, and then another text',
 'Modifiers of a text without colours stay for the next text.',
 M + '''
int main() {
  using cmdr::terminal::colors::colorize;
  auto c = colorize::create();
  c.enable(true);
  std::ostringstream a, b;
  a << c.bold().s("x");
  b << c.s("y");
  EXPECT(b.str().find("1;") == string::npos && b.str().find("1m") == string::npos);
  EXPECT(b.str().find("y") != string::npos);
  return failed;
}
''')
seed('partial-once', 'L01', [(CO, '''      return std::apply(f_, std::tuple_cat(args_,''', '''      return std::apply(f_, std::tuple_cat(std::move(args_),''')],
 'a partial with a bound text or list which is called twice',
 'The first call takes the bound arguments away from the second one.',
 M + '''
int main() {
  auto f = cmdr::util::cool::partial([](string a, string b) { return a + b; }, string("a long enough text to be on the heap "));
  EXPECT(f(string("1")) == "a long enough text to be on the heap 1");
  EXPECT(f(string("2")) == "a long enough text to be on the heap 2");
  return failed;
}
''')
seed('factory-first-letters', 'L01', [(U, '''((it.id == id ? result = it.gen(args...) : result), ...);''', '''((it.id == id || (!result && !id.empty() && it.id.find(id) == 0) ? result = it.gen(args...) : result), ...);''')],
 'a name which is the beginning of the name of a product',
 'A factory makes a product for an unknown name which is only the beginning of a known one.',
 M + '''
#include <cmdr11/cmdr_utils.hh>
struct Base { virtual ~Base() = default; };
struct Rect : Base {};
struct RectRound : Base {};
int main() {
  using F = cmdr::util::factory::factory<Base, Rect, RectRound>;
  EXPECT(dynamic_cast<Rect *>(F::make_unique(cmdr::util::id_name<Rect>()).get()) != nullptr);
  EXPECT(dynamic_cast<RectRound *>(F::make_unique(cmdr::util::id_name<RectRound>()).get()) != nullptr);
  EXPECT(F::make_unique("Rec") == nullptr);
  return failed;
}
''')
seed('hit-rest', 'C16', [(I, '''            pc.last_matched_flg(),
            remain_args(argv, pc.index + 1, argc));''', '''            pc.last_matched_flg(),
            remain_args(argv, pc.index + (extra_argv ? 2 : 1), argc));''')],
 'a hit handler of a flag that has its value in a word of its own',
 'The hit handler misses one of the words that are still unread.',
 M + '''
int main() {
  auto &app = fresh();
  string seen;
  opt o{1};
  o("count", "c");
  app += o;
  app["count"].on_flag_hit([&](cmd const &, cmdr::opt::arg const &, string_array const &rest) -> cmdr::opt::Action {
    for (auto const &s: rest) seen += s + ' ';
    return cmdr::opt::Action::OK;
  });
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { return 7; });
  EXPECT(run(app, {"demo", "--count", "3", "go", "x"}).rc == 7);
  EXPECT(seen == "go x ");
  return failed;
}
''')
seed('negative-inside', 'C16', [(I, '''        if (rc < opt::Action::OK || rc >= opt::Action::Abortion) {
          return rc;
        }
      }

      pc.pos +=''', '''        if (rc >= opt::Action::Abortion) {
          return rc;
        }
      }

      pc.pos +=''')],
 'a hit handler which answers with a negative action, of a flag in a combined group that is followed by another flag with a hit handler',
 'The negative answer is lost when more flags follow in the same word.',
 M + '''
int main() {
  auto &app = fresh();
  app += opt{false}("alpha", "a");
  app["alpha"].on_flag_hit([&](cmd const &, cmdr::opt::arg const &, string_array const &) -> cmdr::opt::Action { return (cmdr::opt::Action) -1; });
  app += opt{false}("beta", "b");
  app["beta"].on_flag_hit([&](cmd const &, cmdr::opt::arg const &, string_array const &) -> cmdr::opt::Action { return cmdr::opt::Action::OK; });
  int went = 0;
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { went++; return 7; });
  EXPECT(run(app, {"demo", "-ba", "go"}).rc == 0);
  EXPECT(run(app, {"demo", "-ab", "go"}).rc == 0);
  EXPECT(went == 0);
  return failed;
}
''')
seed('defer-unwinding', 'L01', [(CO, '''      if (_fn) { _fn(); }
    }

  private:
    std::function<void()> _fn;''', '''      if (_fn && std::uncaught_exceptions() == 0) { _fn(); }
    }

  private:
    std::function<void()> _fn;''')],
 'a scope that is left by an exception',
 'The deferred function does not run when an exception leaves its scope.',
 M + '''
int main() {
  int n = 0;
  { cmdr::util::defer<bool> d([&] { n++; }); }
  EXPECT(n == 1);
  try {
    cmdr::util::defer<bool> d([&] { n++; });
    throw 1;
  } catch (int) {}
  EXPECT(n == 2);
  return failed;
}
''')

AI = 'cmdr_app_inl.h'
seed('debug-env-count', 'C18', [(AI, '''      if (a.hit_count() > 0) {
        auto k  = a.dotted_key();''', '''      if (a.hit_count() > (a.hit_env() ? 1 : 0)) {
        auto k  = a.dotted_key();''')],
 'a flag that is given by an environment variable only',
 'The report leaves out flags which come from the environment.',
 M + '''
int main() {
  auto &app = fresh();
  app += opt{0}("number", "nn").env_vars("DEMO_NUMBER");
  setenv("DEMO_NUMBER", "8", 1);
  app += sub_cmd{}("go", "zz").on_invoke([&](cmd const &, string_array const &) -> int { return 7; });
  auto r = run(app, {"demo", "go", "~~debug"});
  EXPECT(r.rc == 0);
  EXPECT(r.out.find("app.cli.number' => 8") != std::string::npos);
  EXPECT(r.out.find("app.cli.debug' => true") != std::string::npos);
  return failed;
}
''')
seed('zsh-escape', 'C12', [(C, '''            titles << '-' << x->title_short() << '['
                   << string::reg_replace(x->descriptions(), "[\\\\[\\\\]\\\\:\\\\(\\\\)]", "\\\\$&")''', '''            titles << '-' << x->title_short() << '['
                   << string::reg_replace(x->descriptions(), "[\\\\[\\\\]\\\\(\\\\)]", "\\\\$&")''')],
 'the completion list for zsh, and a description with a colon',
 'A colon in the description of a short title is not escaped in the list for zsh.',
 M + '''
int main() {
  setenv("SHELL", "/bin/zsh", 1);
  auto &app = fresh();
  app += opt{0}("number", "nn").description("host:port");
  auto r = run(app, {"demo", "--help", "--shell-completion"});
  EXPECT(r.rc == 0);
  EXPECT(r.out.find("-nn[host\\\\:port]") != std::string::npos);
  return failed;
}
''')

LO, DB = 'cmdr_log.hh', 'cmdr_dbg.hh'
DM = M + """#include <cmdr11/cmdr_log.hh>
#include <csignal>
#include <fstream>
#include <sys/wait.h>
template<class F>
std::string caught(int fd, FILE *f, F fn) {
  char name[] = "/tmp/demo-diag-XXXXXX";
  int t = mkstemp(name);
  fflush(f);
  std::cerr.flush();
  int was = dup(fd);
  dup2(t, fd);
  fn();
  fflush(f);
  std::cerr.flush();
  dup2(was, fd);
  std::ifstream in(name);
  std::stringstream o;
  o << in.rdbuf();
  unlink(name);
  return o.str();
}
"""
seed('log-line-length', 'D01', [(LO, """        std::vector<char> buf((std::size_t) std::vsnprintf(nullptr, 0, fmt, args) + 1);""", """        std::vector<char> buf(std::max((std::size_t) 1, std::min((std::size_t) 4096, (std::size_t) std::vsnprintf(nullptr, 0, fmt, args) + 1)));""")],
 'a log line of more than 4095 characters',
 'Long log lines are cut.',
 DM + """
int main() {
  auto t = std::string(5000, 'x') + "end";
  auto o = caught(1, stdout, [&] { cmdr_print("%s", t.c_str()); });
  EXPECT(o.find(t) != std::string::npos);
  o = caught(1, stdout, [&] { cmdr_print("%d", 5); });
  EXPECT(o.find(" 5  ") != std::string::npos);
  return failed;
}
""")
seed('dump-nested', 'D01', [(DB, """        dump_stacktrace(file, line, nested, print_stack, depth + 1);""", """        dump_stacktrace(file, line, nested, print_stack && depth < 1, depth + 1);""")],
 'an exception with three nested levels that is dumped with stacks',
 'The dump stops behind the third level.',
 DM + """
int main() {
  try {
    try {
      try {
        try {
          throw std::runtime_error("deepest");
        } catch (...) { std::throw_with_nested(std::runtime_error("inner")); }
      } catch (...) { std::throw_with_nested(std::runtime_error("middle")); }
    } catch (...) { std::throw_with_nested(std::runtime_error("outer")); }
  } catch (std::exception const &e) {
    auto o = caught(2, stderr, [&] { CMDR_DUMP_STACK_TRACE(e); });
    EXPECT(o.find("outer") != std::string::npos);
    EXPECT(o.find("middle") != std::string::npos);
    EXPECT(o.find("inner") != std::string::npos);
    EXPECT(o.find("deepest") != std::string::npos);
  }
  return failed;
}
""")
seed('last-handler', 'D01', [(DB, """    [[maybe_unused]] explicit SignalInstaller(std::function<void(int sig)> f)
        : _f(std::move(f)) {
      signal(signal_catching, handler);
      _this = this;""", """    [[maybe_unused]] explicit SignalInstaller(std::function<void(int sig)> f)
        : _f(std::move(f)) {
      if (signal(signal_catching, handler) != handler) _this = this;""")],
 'two handlers installed for the same signal, one after the other',
 'The first handler stays the one that is called.',
 DM + """
int main() {
  std::string said = caught(1, stdout, [] {
    if (fork() == 0) {
      cmdr::debug::SignalInstaller<SIGUSR1> one([](int) { if (write(1, "one", 3)) {} });
      cmdr::debug::SignalInstaller<SIGUSR1> two([](int) { if (write(1, "two", 3)) {} });
      raise(SIGUSR1);
      _exit(9);
    }
    int st = 0;
    wait(&st);
    EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 1);
  });
  EXPECT(said == "two");
  return failed;
}
""")
seed('whole-microseconds', 'T01', [(CH, """    if (iom_::has(iom_::fmtflags::ns)) {
      // auto t0""", """    if (iom_::has(iom_::fmtflags::ns) && time_point_get_ns(time)) {
      // auto t0""")],
 'nanoseconds are asked for, and the time is a whole number of microseconds',
 'The fraction is left out.',
 M + """#include <cmdr11/cmdr_chrono.hh>
""" + """
int main() {
  using namespace cmdr::chrono;
  iom::set_flags(iom::fmtflags::ns);
  auto t = std::chrono::system_clock::time_point(std::chrono::microseconds(1600000000123456LL));
  EXPECT(format_time_point(t) == "2020-09-13 12:26:40,123456000");
  EXPECT(format_time_point(t + std::chrono::nanoseconds(7)) == "2020-09-13 12:26:40,123456007");
  return failed;
}
""")
seed('columns-of-parents', 'C12', [(I, """      if (mtw < _minimal_tab_width) {
        for (auto *&ptr: os2) {""", """      if (mtw < _minimal_tab_width && (os2.empty() || trivial->owner() == nullptr)) {
        for (auto *&ptr: os2) {""")],
 'a sub-command two levels down whose parent (and not the application) has the flag with the longest titles',
 'The descriptions of the own flags stay in their old column.',
 M + """
int main() {
  auto &app = fresh();
  app += sub_cmd{}("outer", "oo").description("x");
  auto &outer = *app.last_added_command();
  outer += opt{false}("a-flag-with-a-very-long-title-that-takes-more-than-its-column", "flg", "and-an-alias").description("DESC-OUTER");
  outer += sub_cmd{}("inner", "ii").description("x");
  auto &inner = *outer.last_added_command();
  inner += opt{false}("short", "srt").description("DESC-INNER");
  inner += sub_cmd{}("leaf", "ll").description("DESC-LEAF");
  auto r = run(app, {"demo", "outer", "inner", "--help", "--no-color"});
  std::istringstream is(r.out);
  std::string l;
  size_t o = 0, i = 0, f = 0;
  auto col = [&](char const *w, size_t &c) {
    // the width, and not the bytes
    size_t p = l.find(w);
    if (p != string::npos) {
      c = 0;
      for (size_t k = 0; k < p; k++) {
        if (l[k] == '\\033') { while (k < p && l[k] != 'm') k++; continue; }
        c += ((unsigned char) l[k] & 0xc0) != 0x80;
      }
    }
  };
  while (std::getline(is, l)) col("DESC-OUTER", o), col("DESC-INNER", i), col("DESC-LEAF", f);
  EXPECT(o > 0 && o == i && o == f);
  return failed;
}
""")
seed('has-under-app', 'C19', [('cmdr_app.hh', """bool has(char const *key) const { return _store.has(_store_prefix.c_str(), key); }""", """bool has(char const *key) const { return _store.has(DEFAULT_KEY_PREFIX, key); }""")],
 'an application with another store prefix, or one that is changed while it is used',
 'has() looks under "app" whatever the prefix is.',
 M + """
int main() {
  auto &app = fresh();
  app.set("a.b", 1);
  EXPECT(app.has("a.b") && cmdr::has("a.b"));
  app.store_prefix("elsewhere");
  EXPECT(!app.has("a.b"));
  app.set("c", 2);
  EXPECT(app.has("c") && cmdr::has("c") && cmdr::get<int>("c") == 2);
  return failed;
}
""")
seed('unhooked-throw', 'C06', [(I, """    } catch (...) {
      if (c.on_post_invoke()) {
        c.on_post_invoke()(c, remain_args);
      }
      if (_global_on_post_invoke) {""", """    } catch (...) {
      if (c.on_post_invoke()) {
        c.on_post_invoke()(c, remain_args);
      }
      if (_global_on_post_invoke && (c.on_invoke() || c.on_post_invoke())) {""")],
 'a command without handlers of its own, and a not-hooked callback which throws',
 'The global post-handler does not run after an exception out of the not-hooked callback.',
 M + """
int main() {
  auto &app = fresh();
  int post = 0;
  app += sub_cmd{}("run", "r");
  app += sub_cmd{}("own", "o").on_invoke([](cmd const &, string_array const &) -> int { throw std::runtime_error("boom"); });
  app.set_global_on_command_not_hooked([](cmd const &, string_array const &) -> int { throw std::runtime_error("boom"); });
  app.set_global_post_invoke_handler([&](cmd const &, string_array const &) { post++; return 0; });
  EXPECT(run(app, {"demo", "own"}).rc == -1);
  EXPECT(post == 1);
  EXPECT(run(app, {"demo", "run"}).rc == -1);
  EXPECT(post == 2);
  return failed;
}
""")
seed('request-by-exception', 'C06', [(I, """          return internal_action(ex._action, pc, argc, argv);""", """          return cc.on_pre_invoke() ? internal_action(ex._action, pc, argc, argv) : 0;""")],
 'a handler (and not a pre-handler) which throws a cmdr_requests_exception',
 'The action that the handler asks for is not run.',
 M + """
int main() {
  auto &app = fresh();
  int ran = 0;
  app += sub_cmd{}("a", "aa").on_pre_invoke([](cmd const &, string_array const &) -> int { throw cmdr::opt::cmdr_requests_exception(cmdr::opt::Action::RequestManualScreen); });
  app += sub_cmd{}("b", "bb").on_invoke([](cmd const &, string_array const &) -> int { throw cmdr::opt::cmdr_requests_exception(cmdr::opt::Action::RequestManualScreen); });
  app.register_action(cmdr::opt::Action::RequestManualScreen, [&](cmdr::opt::types::parsing_context &, int, char **) { ran++; return 5; });
  EXPECT(run(app, {"demo", "a"}).rc == 5);
  EXPECT(ran == 1);
  EXPECT(run(app, {"demo", "b"}).rc == 5);
  EXPECT(ran == 2);
  return failed;
}
""")
