// P01 thread pools, P02 message queue, P03 conditional waits, under a controlled scheduler.
#include <cassert>
#include <iostream>
#include <map>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>

#include "pbt.hh"
#include "vt.hh"

#include "cmdr11/cmdr_log.hh"
#include "vt_on.hh"
#undef CMDR_ENABLE_THREAD_POOL_READY_SIGNAL
#include "cmdr11/cmdr_pool.hh" // as users get it
// once more without the ready signal (-DCMDR_ENABLE_THREAD_POOL_READY_SIGNAL=0), under another name
namespace cmdr_quiet {
  using namespace cmdr;
}
#undef CMDR_CXX11_POOL_HH
#undef CMDR_ENABLE_THREAD_POOL_READY_SIGNAL
#define CMDR_ENABLE_THREAD_POOL_READY_SIGNAL 0
#define cmdr cmdr_quiet
#include "cmdr11/cmdr_pool.hh"
#undef cmdr
#include "vt_off.hh"

using pbt::Case;
using pbt::Src;

namespace {
  struct Boom {
    int id;
  };

  // ------------------------------------------------------------------ P01
  enum Kind { Value,
              Throw,
              Void,
              Slow,
              Nest,
              Meet };
  struct Task {
    Kind kind{};
    int id{};
    int yields{};
  };
  struct Out {
    int started{}, ended{};
    std::string got; // what the future said
  };

  template<class Fut>
  std::string outcome(Fut &f) {
    try {
      if constexpr (std::is_void_v<decltype(f.get())>) {
        f.get();
        return "void";
      } else {
        return std::to_string(f.get());
      }
    } catch (Boom const &b) {
      return "boom " + std::to_string(b.id);
    } catch (std::future_error const &e) {
      return e.code() == std::future_errc::broken_promise ? "broken" : "future_error";
    } catch (std::exception const &e) {
      return std::string("exception ") + e.what();
    }
  }
  std::string want(Task const &t) {
    if (t.kind == Throw) return "boom " + std::to_string(t.id);
    if (t.kind == Void) return "void";
    return std::to_string(t.id * 7 + 1);
  }

  struct Prog {
    int threads{};
    std::vector<std::vector<Task>> by_submitter;
    int meet{};
    int end{}; // 0: wait for all futures, then destroy; 1: destroy at once; 2: join, then destroy
    vt::Plan plan;
    int total{};
    int nested{};
    std::string str() const {
      std::ostringstream os;
      os << "pool of " << threads << "; ";
      for (auto const &v: by_submitter) {
        os << "[";
        for (auto const &t: v) os << " " << "vtosnm"[t.kind] << t.id << (t.yields ? "y" : "");
        os << " ] ";
      }
      static char const *e[] = {"wait for all", "destroy at once", "join"};
      os << "then " << e[end] << "; " << plan.str();
      return os.str();
    }
  };
  Prog draw_prog(Src &s) {
    Prog p;
    p.threads = (int) s.in(1, s.chance(1, 40) ? 12 : 4);
    p.end     = (int) s.in(0, 2);
    int subs  = (int) s.in(1, 3);
    bool big  = s.chance(1, 40);
    int id    = 0;
    // a group of tasks that wait for one another: as many as there are threads may be under way together
    if (p.end == 0 && p.threads > 1 && s.chance(1, 3)) p.meet = (int) s.in(2, (unsigned) p.threads);
    for (int i = 0; i < subs; i++) {
      std::vector<Task> v;
      for (auto n = s.in(i == 0 ? 1 : 0, big ? 30 : 5); n > 0; n--) {
        Task t;
        t.kind   = s.pick(std::vector<Kind>{Value, Value, Throw, Void, Slow, Nest});
        t.id     = ++id;
        t.yields = (int) s.in(0, 2);
        v.push_back(t);
      }
      p.by_submitter.push_back(v);
    }
    for (int i = 0; i < p.meet; i++) {
      Task t;
      t.kind = Meet;
      t.id   = ++id;
      p.by_submitter[s.in(0, (unsigned) subs - 1)].push_back(t);
    }
    p.total = id;
    p.plan  = vt::Plan::draw(s);
    return p;
  }

  // F submits a callable and gives back a future.
  // thread_pool::queue_task only compiles for callables without a result: `Results` says whether
  // results come through the future; otherwise the task leaves its result in a variable.
  template<bool Results, class Pool, class Submit>
  void run_pool(Src &s, Case &c, bool discards, Submit submit) {
    Prog p = draw_prog(s);
    c.note(p.str());
    std::vector<Out> out((std::size_t) p.total + 1), nest((std::size_t) p.total + 1);
    int running = 0, most = 0, met = 0;
    bool gone   = false;
    struct F {
      Task t;
      std::vt_future<int> fi;
      std::vt_future<void> fv;
    };
    std::vector<F> futs;
    std::vector<std::pair<int, std::vt_future<void>>> nested;
    std::vector<int> left((std::size_t) p.total + 1, 0);
    vt::run(c, p.plan, [&] {
      auto pool = std::make_unique<Pool>(p.threads);
      Pool *const raw = pool.get(); // usable until the destructor is through
      auto body = [&](Task const &t) {
        if (gone) pbt::fail_now(c, "a task runs after the pool is gone");
        auto &o = out[(std::size_t) t.id];
        if (++o.started > 1) pbt::fail_now(c, "task " + std::to_string(t.id) + " is run twice");
        most = std::max(most, ++running);
        if constexpr (!Results) { // thread_pool counts them, too
          if ((int) raw->active_threads() < running || (int) raw->active_threads() > p.threads) pbt::fail_now(c, "active_threads() is " + std::to_string(raw->active_threads()) + " with " + std::to_string(running) + " tasks under way in a pool of " + std::to_string(p.threads));
        }
        if (running > p.threads) pbt::fail_now(c, "more tasks under way than the pool has threads");
        for (int k = 0; k < t.yields; k++) std::this_thread::vt_yield();
        if (t.kind == Slow) std::this_thread::vt_sleep_for(std::chrono::milliseconds(t.id));
        if (t.kind == Meet) {
          met++;
          vt::block("waiting for the other tasks of the group", [&] { return met >= p.meet; });
        }
        if (t.kind == Nest) {
          try {
            int n = t.id;
            nested.emplace_back(n, submit(*raw, [&, n]() {
                                  if (gone) pbt::fail_now(c, "a task runs after the pool is gone");
                                  most = std::max(most, ++running);
                                  if (++nest[(std::size_t) n].started > 1) pbt::fail_now(c, "a nested task is run twice");
                                  nest[(std::size_t) n].ended++;
                                  running--;
                                }));
          } catch (std::runtime_error const &) { // the pool is stopping: allowed to refuse
            nest[(std::size_t) t.id].got = "refused";
          }
        }
        running--;
        o.ended++;
        if (t.kind == Throw) throw Boom{t.id};
      };
      auto queue = [&](Task const &t) {
        F f;
        f.t = t;
        if constexpr (Results) {
          if (t.kind != Void) {
            f.fi = submit(*raw, [&body, t] {
              body(t);
              return t.id * 7 + 1;
            });
            futs.push_back(std::move(f));
            return;
          }
        }
        f.fv = submit(*raw, [&body, &left, t] {
          body(t);
          left[(std::size_t) t.id] = t.id * 7 + 1;
        });
        futs.push_back(std::move(f));
      };
      std::vector<std::vt_thread> th;
      for (std::size_t i = 1; i < p.by_submitter.size(); i++)
        th.emplace_back([&, i] {
          for (auto const &t: p.by_submitter[i]) queue(t);
        });
      for (auto const &t: p.by_submitter[0]) queue(t);
      for (auto &x: th) x.join();
      auto ask = [&](F &f) { out[(std::size_t) f.t.id].got = f.fv.valid() ? outcome(f.fv) : outcome(f.fi); };
      if (p.end == 0) {
        for (auto &f: futs) ask(f);
        for (std::size_t i = 0; i < nested.size(); i++) { // a list that no longer grows: every task has ended
          auto g = outcome(nested[i].second);
          if (g != "void") pbt::fail_now(c, "nested task of " + std::to_string(nested[i].first) + ": its future says " + g);
        }
      }
      if constexpr (!Results) {
        PBT_EQ((int) pool->total_threads(), p.threads, "total_threads()");
        if (p.end == 2) {
          pool->join();
          PBT_EQ((int) pool->active_threads(), 0, "active_threads() after join()");
        }
      }
      pool.reset();
      gone = true;
      if (p.end != 0) {
        for (auto &f: futs) ask(f);
        for (auto &n: nested) {
          auto g = outcome(n.second);
          std::string w = "void";
          if (g != w && !(discards && g == "broken")) pbt::fail_now(c, "nested task of " + std::to_string(n.first) + ": its future says " + g);
          if ((g == w) != (nest[(std::size_t) n.first].ended == 1)) pbt::fail_now(c, "nested task: future and execution disagree");
        }
      }
    });
    int ran = 0;
    for (auto &f: futs) {
      auto &o = out[(std::size_t) f.t.id];
      PBT_EQ(o.started, o.ended, "task " << f.t.id << " was begun and not finished");
      if (o.started) {
        ran++;
        PBT_EQ(o.got, Results || f.t.kind == Throw ? want(f.t) : "void", "result of task " << f.t.id);
        if (!Results && f.t.kind != Throw) PBT_EQ(left[(std::size_t) f.t.id], f.t.id * 7 + 1, "what task " << f.t.id << " left");
      } else {
        PBT_CHECK(p.end != 0, "task " << f.t.id << " was never run");
        PBT_CHECK(discards, "task " << f.t.id << " queued before the end was never run");
        PBT_EQ(o.got, std::string("broken"), "future of the discarded task " << f.t.id);
      }
    }
    PBT_EQ((int) futs.size(), p.total, "futures handed out");
    if (most > 1) c.label("tasks overlapped");
    if (ran < p.total) c.label("tasks discarded at the end");
    if (!nested.empty()) c.label("task queued by a task");
    if (p.meet) c.label("group of tasks that wait for each other");
    c.nontrivial = p.total > 1;
  }
  template<class R>
  std::vt_future<R> to_vt(std::vt_future<R> &&f) { return std::move(f); }
  template<class R>
  std::vt_future<R> to_vt(std::future<R> &&f) { return std::vt_future<R>(std::move(f)); }
  struct Queue {
    template<class P, class F>
    auto operator()(P &pool, F &&f) const { return to_vt(pool.queue_task(std::forward<F>(f))); }
  };
  struct QueueCopy { // a callable that is kept by the caller
    template<class P, class F>
    auto operator()(P &pool, F &&f) const {
      auto g = f;
      return to_vt(pool.queue_task(g));
    }
  };
  struct Enqueue {
    template<class P, class F>
    auto operator()(P &pool, F &&f) const { return to_vt(pool.enqueue(std::forward<F>(f))); }
  };
  struct EnqueueWith { // arguments are kept with the task
    template<class P, class F>
    auto operator()(P &pool, F &&f) const {
      std::string text = "some text which is long enough to be on the heap";
      int n            = 1;
      auto fut         = to_vt(pool.enqueue([g = std::forward<F>(f)](int k, std::string const &t) mutable {
        if (k != 1 || t.size() != 48) throw std::runtime_error("the arguments of a task are changed");
        return g();
      },
                                            n, text));
      n    = 2;
      text = "changed";
      return fut;
    }
  };
  char const *rule1 = "a program of tasks (returning, throwing, void, sleeping, queueing further tasks, groups waiting for one another) from 1-3 submitters on a pool of 1-4 threads, ended by waiting, destroying or joining, under a drawn schedule; non-trivial: more than one task";

  pbt::Reg r1({"P01", "pool", rule1, 16000, 400000, [](Src &s, Case &c) { run_pool<false, cmdr::pool::thread_pool>(s, c, true, Queue{}); }, 200, 30});
  pbt::Reg r2({"P01", "pool_no_signal", rule1, 10000, 250000, [](Src &s, Case &c) { run_pool<false, cmdr_quiet::pool::thread_pool>(s, c, true, QueueCopy{}); }, 200, 30});
  pbt::Reg r3({"P01", "pool_lite", rule1, 16000, 400000, [](Src &s, Case &c) { run_pool<true, cmdr::pool::thread_pool_lite>(s, c, false, Enqueue{}); }, 200, 30});
  pbt::Reg r4({"P01", "pool_lite_args", rule1, 8000, 200000, [](Src &s, Case &c) { run_pool<true, cmdr::pool::thread_pool_lite>(s, c, false, EnqueueWith{}); }, 200, 30});

  // ------------------------------------------------------------------ P02
  struct Msg { // move-only, tells copies and double deliveries apart
    std::unique_ptr<int> v;
    explicit Msg(int i)
        : v(new int(i)) {}
  };
  void queue_history(Src &s, Case &c) {
    bool big = s.chance(1, 40);
    int producers = (int) s.in(0, 3), consumers = (int) s.in(1, big ? 10 : 3);
    int per   = (int) s.in(1, big ? 30 : 5);
    int end   = (int) s.in(0, 1); // 0: clear when all is consumed; 1: clear somewhere
    int delay = end ? (int) s.in(0, 30) : 0;
    std::vector<int> pre;
    for (auto n = s.in(0, 5); n > 0; n--) pre.push_back(0);
    auto plan = vt::Plan::draw(s);
    int total = producers * per + (int) pre.size();
    // every consumer holds its first message until each of them has one: they must all be woken
    bool hold = !end && total >= consumers && s.coin();
    int held  = 0;
    c.note(std::to_string(pre.size()) + " messages queued before, " + std::to_string(producers) + " producers of " + std::to_string(per) + ", " + std::to_string(consumers) + " consumers, clear " + (end ? "after " + std::to_string(delay) + " steps" : std::string("at the end")) + (hold ? ", first messages held" : "") + "; " + plan.str());
    std::vector<int> got((std::size_t) total + 1, 0);
    int taken = 0;
    std::vector<int> pushed((std::size_t) total + 1, 0);
    bool clearing = false, cleared = false;
    vt::run(c, plan, [&] {
      auto q = std::make_unique<cmdr::pool::threaded_message_queue<Msg>>();
      for (std::size_t i = 0; i < pre.size(); i++) {
        q->emplace_back(Msg((int) i));
        pushed[i] = 1;
      }
      std::vector<std::vt_thread> prod, cons;
      for (int k = 0; k < consumers; k++)
        cons.emplace_back([&] {
          bool first = true;
          for (;;) {
            bool was = cleared;
            auto m   = q->pop_front();
            if (!m) {
              if (!clearing) pbt::fail_now(c, "pop_front returned nothing although the queue was not cleared");
              return;
            }
            if (was) pbt::fail_now(c, "a message is handed out after the queue was cleared");
            if (!m->v) pbt::fail_now(c, "a message arrives empty");
            auto i = (std::size_t) *m->v;
            if (i >= got.size() || !pushed[i]) pbt::fail_now(c, "a message arrives that was not sent");
            if (++got[i] > 1) pbt::fail_now(c, "a message arrives twice");
            taken++;
            if (hold && first) {
              held++;
              vt::block("holding the first message", [&] { return held >= consumers; });
            }
            first = false;
          }
        });
      for (int k = 0; k < producers; k++)
        prod.emplace_back([&, k] {
          for (int i = 0; i < per; i++) {
            auto n    = (std::size_t) (k * per + i) + pre.size();
            pushed[n] = 1;
            q->emplace_back(Msg((int) n));
          }
        });
      if (end) {
        for (int i = 0; i < delay; i++) std::this_thread::vt_yield();
        vt::point("before clear");
      } else {
        for (auto &t: prod) t.join();
        vt::block("waiting for all messages to be consumed", [&] { return taken == total; });
      }
      clearing = true;
      q->clear();
      cleared = true;
      for (auto &t: prod)
        if (t.joinable()) t.join();
      for (auto &t: cons) t.join();
      auto m = q->pop_front(); // later calls return at once, too
      if (m) pbt::fail_now(c, "a message is handed out after the queue was cleared");
    });
    if (!end)
      for (int i = 0; i < total; i++) PBT_EQ(got[(std::size_t) i], 1, "deliveries of message " << i);
    if (taken < total) c.label("cleared with messages left");
    c.nontrivial = total > 0;
  }
  pbt::Reg q1({"P02", "history", "messages from 0-3 producers to 1-3 consumers of one queue, cleared when drained or at a drawn moment, under a drawn schedule; non-trivial: at least one message", 75000, 800000, queue_history, 200, 30});

  void queue_order(Src &s, Case &c) {
    auto plan = vt::Plan{};
    c.note("one thread");
    std::vector<int> ops;
    for (auto n = s.in(1, s.chance(1, 20) ? 500 : 40); n > 0; n--) ops.push_back((int) s.in(0, 2));
    std::string o;
    vt::run(c, plan, [&] {
      cmdr::pool::threaded_message_queue<std::string> q;
      std::vector<std::string> model;
      int n = 0;
      for (int op: ops) {
        if (op < 2) {
          auto v = "m" + std::to_string(n++);
          model.push_back(v);
          q.emplace_back(std::move(v));
          o += "+";
        } else if (!model.empty()) {
          o += "-";
          auto m = q.pop_front();
          PBT_CHECK(m.has_value(), "after " << o << ": nothing comes out");
          PBT_EQ(*m, model.back(), "after " << o << ": the newest message comes first");
          model.pop_back();
        }
        PBT_EQ(q.empty(), model.empty(), "empty() after " << o);
      }
      c.nontrivial = n > 2 && o.find("-") != std::string::npos;
    });
    c.note(o);
  }
  pbt::Reg q2({"P02", "order", "a sequence of emplace_back and pop_front by one thread; non-trivial: 3 or more messages and a pop", 18000, 100000, queue_order, 200, 30});

  // ------------------------------------------------------------------ P03
  struct Waiter {
    int how{}; // 0 wait 1 wait_for(d) 2 wait_until(t) 3 wait_for() 4 wait_until()
    int ms{};
  };
  template<class CW, bool kill = false, class Make>
  void waits(Src &s, Case &c, Make make, int need) {
    int setters = (int) s.in(0, 4);
    std::vector<int> sets; // per setter: number of sets
    int total = 0;
    for (int i = 0; i < setters; i++) {
      sets.push_back((int) s.in(1, 2));
      total += sets.back();
    }
    std::vector<Waiter> ws;
    bool enough = total >= need;
    for (auto n = s.in(1, 4); n > 0; n--) {
      Waiter w;
      w.how = (int) s.in(0, 4);
      w.ms  = (int) s.in(0, 20);
      if (!enough && w.how != 1 && w.how != 2) w.how = 1; // would rightly wait for ever
      ws.push_back(w);
    }
    bool all   = ws.size() == 1 ? s.coin() : true; // one waiter: waking any one is enough
    bool delay = s.coin();
    auto plan  = vt::Plan::draw(s);
    std::ostringstream os;
    os << "needs " << need << " sets; setters";
    for (int n: sets) os << " " << n;
    os << (all ? " (all)" : " (one)") << "; waiters";
    static char const *hn[] = {"wait", "wait_for", "wait_until", "wait_for()", "wait_until()"};
    for (auto &w: ws) os << " " << hn[w.how] << (w.how == 1 || w.how == 2 ? "(" + std::to_string(w.ms) + "ms)" : "");
    os << "; " << plan.str();
    c.note(os.str());
    int begun = 0, done = 0;
    vt::run(c, plan, [&] {
      auto cw = make();
      auto start = vt::now_ns();
      std::vector<std::vt_thread> th;
      for (auto const &w: ws)
        th.emplace_back([&, w] {
          bool before = done >= need;
          bool r      = true;
          auto t0     = vt::now_ns();
          auto tp     = std::chrono::steady_clock::now() + std::chrono::milliseconds(w.ms);
          switch (w.how) {
            case 0: cw->wait(); break;
            case 1: r = cw->wait_for(std::chrono::milliseconds(w.ms)); break;
            case 2: r = cw->wait_until(tp); break;
            case 3: r = cw->wait_for(); break;
            default: r = cw->wait_until(); break;
          }
          if (r && begun < need) pbt::fail_now(c, std::string(hn[w.how]) + " came back with success, but the condition was not set");
          if (!r && before) pbt::fail_now(c, std::string(hn[w.how]) + " reports a timeout although the condition was set before the call");
          if (!r && w.how != 1 && w.how != 2) pbt::fail_now(c, std::string(hn[w.how]) + " without a limit gave up");
          if (!r && w.how == 1 && vt::now_ns() - t0 < (long long) w.ms * 1000000) pbt::fail_now(c, "wait_for gave up before its time");
          if (!r) c.label("timed out");
        });
      for (int n: sets)
        th.emplace_back([&, n] {
          if (delay) std::this_thread::vt_sleep_for(std::chrono::milliseconds(5 * n));
          for (int i = 0; i < n; i++) {
            begun++;
            if (all) {
              if constexpr (kill) cw->kill();
              else
                cw->set_for_all();
            }
            else
              cw->set();
            done++;
          }
        });
      for (auto &t: th) t.join();
      // once set it stays set: every wait comes back at once
      if (done >= need) {
        cw->wait();
        PBT_CHECK(cw->wait_for(std::chrono::milliseconds(0)), "wait_for after the condition was set");
        PBT_CHECK(cw->wait_until(std::chrono::steady_clock::now() - std::chrono::seconds(1)), "wait_until (past) after the condition was set");
      } else {
        PBT_CHECK(!cw->wait_for(std::chrono::milliseconds(0)), "wait_for before the condition is set");
        PBT_CHECK(!cw->wait_until(std::chrono::steady_clock::now() - std::chrono::seconds(1)), "wait_until (past) before the condition is set");
      }
      (void) start;
      if constexpr (std::is_same_v<CW, cmdr::pool::conditional_wait_for_int>) {
        PBT_EQ(cw->val(), total, "value after all sets");
      } else {
        PBT_EQ(cw->val(), total > 0, "value after all sets");
      }
    });
    c.nontrivial = setters > 0;
  }
  char const *rule3 = "1-4 waiters (wait, wait_for, wait_until, without limit or with one) and 0-4 setters on one object under a drawn schedule with spurious wake-ups and virtual time; non-trivial: at least one setter";
  pbt::Reg w1({"P03", "bool", rule3, 12000, 400000, [](Src &s, Case &c) { waits<cmdr::pool::conditional_wait_for_bool>(s, c, [] { return std::make_unique<cmdr::pool::conditional_wait_for_bool>(); }, 1); }, 200, 30});
  pbt::Reg w2({"P03", "int", rule3, 12000, 400000, [](Src &s, Case &c) {
                 int need = (int) s.in(1, 5);
                 waits<cmdr::pool::conditional_wait_for_int>(s, c, [need] { return std::make_unique<cmdr::pool::conditional_wait_for_int>(need); }, need);
               },
               200, 30});
  pbt::Reg w3({"P03", "killer", rule3, 8000, 300000, [](Src &s, Case &c) { waits<cmdr::pool::timer_killer, true>(s, c, [] { return std::make_unique<cmdr::pool::timer_killer>(); }, 1); }, 200, 30});

  // the documented pattern: a worker loops until it is told to stop
  void killer_loop(Src &s, Case &c) {
    int loops = (int) s.in(1, 4);
    auto plan = vt::Plan::draw(s);
    int after = (int) s.in(0, 40);
    bool cws  = s.coin();
    c.note(std::to_string(loops) + " sleep loops, killed after " + std::to_string(after) + "ms" + (cws ? ", end reported by cw_setter; " : "; ") + plan.str());
    int rounds = 0;
    vt::run(c, plan, [&] {
      cmdr::pool::timer_killer tk;
      cmdr::pool::conditional_wait_for_int ended(loops);
      std::vector<std::vt_thread> th;
      for (int i = 0; i < loops; i++)
        th.emplace_back([&] {
          cmdr::pool::cw_setter<cmdr::pool::conditional_wait_for_int> x(ended);
          while (!tk.wait_for(std::chrono::milliseconds(7))) rounds++;
          if (!tk.terminated()) pbt::fail_now(c, "wait_for says killed, terminated() says not");
        });
      std::this_thread::vt_sleep_for(std::chrono::milliseconds(after));
      PBT_CHECK(!tk.terminated(), "terminated before kill");
      tk.kill();
      PBT_CHECK(tk.terminated(), "not terminated after kill");
      if (cws) ended.wait();
      for (auto &t: th) t.join();
      ended.wait();
      PBT_EQ(ended.val(), loops, "loops that ended");
    });
    if (rounds) c.label("looped before the kill");
    c.nontrivial = true;
  }
  pbt::Reg w4({"P03", "loop", "the documented sleep-loop pattern with 1-4 loops stopped by kill() under a drawn schedule; every case is non-trivial", 32000, 300000, killer_loop, 200, 30});
} // namespace
PBT_MAIN()
