// O02 thread-safe observables, P05 concurrent runs of one
// application: under the controlled scheduler of vt.hh.
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <ratio>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <variant>
#include <vector>

#include "pbt.hh"
#include "vt.hh"
#include "vt_on.hh"
#include "cmdr11/cmdr11.hh"
#include "vt_off.hh"

using pbt::Case;
using pbt::Src;

namespace {
  std::string str_of(std::vector<std::string> const &v) {
    std::string o;
    for (auto const &s: v) o += (o.empty() ? "" : " ") + s;
    return o;
  }

  // ------------------------------------------------------------------ O02
  struct Ev {
    int id;
  };
  struct Obs : cmdr::util::observer<Ev> {
    int id{};
    int yields{};
    std::map<int, int> seen; // per event
    void observe(Ev const &e) override {
      seen[e.id]++;
      for (int i = 0; i < yields; i++) std::this_thread::vt_yield();
    }
  };
  struct Span { // logical time
    int begin{-1}, end{-1};
  };
  template<bool CNS>
  void observers(Src &s, Case &c) {
    using Subject = cmdr::util::observable<Ev, true, CNS>;
    using Shared  = typename Subject::observer_t_shared;
    enum Op { Add,
              AddWeak,
              Remove,
              RemoveRaw,
              Emit,
              Scope };
    struct Step {
      Op op;
      int obs, ev;
    };
    int threads = (int) s.in(1, 3);
    // every observer belongs to one thread, which alone adds and removes it
    std::vector<std::vector<Step>> prog((std::size_t) threads);
    int nobs = 0, nev = 0;
    std::vector<std::string> text;
    for (auto &p: prog) {
      std::vector<int> out, in;
      for (int k = 0; k < 3; k++) out.push_back(nobs++);
      std::string t;
      for (auto n = s.in(1, 7); n > 0; n--) {
        Step st{};
        int w = (int) s.in(0, 5);
        if (w <= 1 && !out.empty()) {
          st = {w == 0 ? Add : AddWeak, out.back(), 0};
          in.push_back(out.back());
          out.pop_back();
          t += "+" + std::to_string(st.obs) + " ";
        } else if (w == 2 && !in.empty()) {
          st = {s.coin() ? Remove : RemoveRaw, in.front(), 0};
          out.push_back(in.front());
          in.erase(in.begin());
          t += "-" + std::to_string(st.obs) + " ";
        } else if (w == 3 && !out.empty()) {
          st = {Scope, out.back(), nev++};
          t += "(" + std::to_string(st.obs) + " e" + std::to_string(st.ev) + ") ";
        } else {
          st = {Emit, 0, nev++};
          t += "e" + std::to_string(st.ev) + " ";
        }
        p.push_back(st);
      }
      text.push_back("[" + t + "]");
    }
    auto plan = vt::Plan::draw(s);
    c.note(str_of(text) + "; " + plan.str());
    std::vector<std::shared_ptr<Obs>> obs;
    for (int i = 0; i < nobs; i++) {
      obs.push_back(std::make_shared<Obs>());
      obs.back()->id = i;
      obs.back()->yields = (int) s.in(0, 1);
    }
    // registered intervals: [begun adding, added] .. [begun removing, removed]
    struct Reg_ {
      int add0, add1, rem0, rem1;
    };
    std::vector<std::vector<Reg_>> reg((std::size_t) nobs);
    std::vector<Span> ev((std::size_t) nev);
    int clock = 0;
    vt::run(c, plan, [&] {
      Subject sub;
      auto add = [&](int i, bool weak) {
        Shared o = obs[(std::size_t) i];
        reg[(std::size_t) i].push_back({clock++, -1, 1 << 30, 1 << 30});
        if (weak) sub += typename Subject::observer_t(o);
        else
          sub += o;
        reg[(std::size_t) i].back().add1 = clock++;
      };
      auto rem = [&](int i, bool raw) {
        Shared o = obs[(std::size_t) i];
        reg[(std::size_t) i].back().rem0 = clock++;
        if (raw) sub -= o.get();
        else
          sub -= o;
        reg[(std::size_t) i].back().rem1 = clock++;
      };
      auto emit = [&](int e) {
        ev[(std::size_t) e].begin = clock++;
        sub.emit(Ev{e});
        ev[(std::size_t) e].end = clock++;
      };
      auto body = [&](std::vector<Step> const &p) {
        for (auto const &st: p) switch (st.op) {
            case Add: add(st.obs, false); break;
            case AddWeak: add(st.obs, true); break;
            case Remove: rem(st.obs, false); break;
            case RemoveRaw: rem(st.obs, true); break;
            case Emit: emit(st.ev); break;
            case Scope: {
              Shared o = obs[(std::size_t) st.obs];
              auto &r  = reg[(std::size_t) st.obs];
              r.push_back({clock++, -1, 1 << 30, 1 << 30});
              {
                cmdr::util::registerer<Ev, true, CNS> g(sub, o);
                r.back().add1 = clock++;
                emit(st.ev);
                r.back().rem0 = clock++;
              }
              r.back().rem1 = clock++;
              break;
            }
          }
      };
      std::vector<std::vt_thread> th;
      for (std::size_t i = 1; i < prog.size(); i++) th.emplace_back([&, i] { body(prog[i]); });
      body(prog[0]);
      for (auto &t: th) t.join();
      // in the end exactly the observers that are still registered hear an event
      nev++;
      ev.push_back({});
      emit(nev - 1);
    });
    bool overlap = false;
    for (int e = 0; e < nev; e++)
      for (int i = 0; i < nobs; i++) {
        auto const &sp = ev[(std::size_t) e];
        int lo = 0, hi = 0;
        for (auto const &r: reg[(std::size_t) i]) {
          if (r.add1 < sp.begin && r.rem0 > sp.end) lo++, hi++;
          else if (r.add0 < sp.end && r.rem1 > sp.begin)
            hi++, overlap = true;
        }
        int got = obs[(std::size_t) i]->seen.count(e) ? obs[(std::size_t) i]->seen[e] : 0;
        PBT_CHECK(got >= lo, "observer " << i << " is registered while event " << e << " is emitted but does not hear it");
        PBT_CHECK(got <= hi, "observer " << i << " hears event " << e << " " << got << " times, at most " << hi << " expected");
      }
    if (overlap) c.label("registration overlaps an emission");
    c.nontrivial = threads > 1;
  }
  char const *ro = "1-3 threads that register, unregister (shared, weak, raw, scoped) and emit on one subject under a drawn schedule; non-trivial: more than one thread";
  pbt::Reg o1({"O02", "copy_and_swap", ro, 120000, 1500000, observers<true>, 200, 30});
  pbt::Reg o2({"O02", "in_place", ro, 100000, 1000000, observers<false>, 200, 30});

  // ------------------------------------------------------------------ P05
  void runs(Src &s, Case &c) {
    int threads = (int) s.in(1, 3), cmds = 3;
    struct R {
      int cmd, arg, rc;
      bool boom;
    };
    std::vector<std::vector<R>> prog((std::size_t) threads);
    std::vector<std::string> text;
    int n = 0;
    for (auto &p: prog) {
      std::string o;
      for (auto k = s.in(1, 2); k > 0; k--) {
        R r{(int) s.in(0, 2), ++n, (int) s.in(0, 100), s.chance(1, 6)};
        o += "c" + std::to_string(r.cmd) + " --n=" + std::to_string(r.arg) + (r.boom ? " throws " : " gives " + std::to_string(r.rc) + " ");
        p.push_back(r);
      }
      text.push_back("[" + o + "]");
    }
    auto plan = vt::Plan::draw(s);
    c.note(str_of(text) + "; " + plan.str());
    auto &cli  = cmdr::app::create_new("pbt-app", "1.2.3", "an author", "(c) nobody", "a description", "");
    int inside = 0, posts = 0, total = 0, waited = 0;
    std::map<int, R> by_arg;
    for (auto const &p: prog)
      for (auto const &r: p) {
        by_arg[r.arg] = r;
        total++;
      }
    std::map<int, int> handled;
    for (int i = 0; i < cmds; i++) {
      cmdr::opt::sub_cmd sc;
      std::string const title = "c" + std::to_string(i);
      sc(title.c_str());
      sc.on_invoke([&, i](cmdr::opt::cmd const &h, string_array const &) -> int {
        if (inside != 1) pbt::fail_now(c, "handler outside its own run");
        (void) h;
        int a = cli.get_for_cli("c" + std::to_string(i) + ".n").as<int>();
        for (int y = 0; y < 2; y++) {
          std::this_thread::vt_yield();
          vt::point("in the handler");
        }
        int b = cli.get_for_cli("c" + std::to_string(i) + ".n").as<int>();
        if (a != b) pbt::fail_now(c, "the options change while a handler runs");
        auto it = by_arg.find(a);
        if (it == by_arg.end() || it->second.cmd != i) pbt::fail_now(c, "a handler reads another run's options");
        handled[a]++;
        if (it->second.boom) throw std::runtime_error("boom");
        return it->second.rc;
      });
      cmdr::opt::opt o{0};
      o("n");
      cli += sc;
      *cli.last_added_command() += o;
    }
    cli.set_global_pre_invoke_handler([&](cmdr::opt::cmd const &, string_array const &) {
      if (++inside != 1) pbt::fail_now(c, "two runs are under way at the same time");
      std::this_thread::vt_yield();
      return 0;
    });
    cli.set_global_on_post_run_handlers([&](cmdr::app const &) {
      std::this_thread::vt_yield();
      if (--inside != 0) pbt::fail_now(c, "two runs are under way at the same time");
      posts++;
    });
    std::ostringstream o, e;
    auto *ob = std::cout.rdbuf(o.rdbuf());
    auto *eb = std::cerr.rdbuf(e.rdbuf());
    vt::run(c, plan, [&] {
      auto body = [&](std::vector<R> const &p) {
        for (auto const &r: p) {
          std::string a0 = "pbt-app", a1 = "c" + std::to_string(r.cmd), a2 = "--n=" + std::to_string(r.arg);
          char *argv[]   = {a0.data(), a1.data(), a2.data(), nullptr};
          int rc         = cli.run(3, argv);
          int want       = r.boom ? -1 : r.rc;
          if (rc != want) pbt::fail_now(c, "run of c" + std::to_string(r.cmd) + " --n=" + std::to_string(r.arg) + " returns " + std::to_string(rc) + ", expected " + std::to_string(want));
        }
      };
      std::vector<std::vt_thread> th;
      for (std::size_t i = 1; i < prog.size(); i++) th.emplace_back([&, i] { body(prog[i]); });
      body(prog[0]);
      for (auto &t: th) t.join();
    });
    (void) waited;
    std::cout.rdbuf(ob);
    std::cerr.rdbuf(eb);
    PBT_EQ(posts, total, "post-run callbacks");
    for (auto const &b: by_arg) PBT_EQ(handled[b.first], 1, "handler calls of run " << b.first);
    c.nontrivial = threads > 1;
  }
  pbt::Reg p5({"P05", "runs", "1-3 threads that call run() of one application, each with its own commands, values and results, under a drawn schedule; non-trivial: more than one thread", 1600, 30000, runs, 100, 30});
} // namespace
PBT_MAIN()
