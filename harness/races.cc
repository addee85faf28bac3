// P04, S05: real threads watched by ThreadSanitizer.
// FLAGS: -O1
// SAN: thread
#include "pbt.hh"
#include <cmdr11/cmdr11.hh>
#include <cmdr11/cmdr_pool.hh>
#include <cmdr11/cmdr_chrono.hh>
#include <cmdr11/cmdr_log.hh>
#include <fcntl.h>
#include <unistd.h>
#include <atomic>
#include <thread>

extern "C" char const *__tsan_default_options() { return "halt_on_error=1 exitcode=66 report_signal_unsafe=0 second_deadlock_stack=1"; }

using pbt::Case;
using pbt::Src;

namespace {
  std::string str_of(std::vector<std::string> const &v) {
    std::string o;
    for (auto const &s: v) o += (o.empty() ? "" : " ") + s;
    return o;
  }
  // a starting gate that orders nothing: relaxed atomics only
  class Gate {
    std::atomic<int> n;

  public:
    explicit Gate(int k)
        : n(k) {}
    void pass() {
      n.fetch_sub(1, std::memory_order_relaxed);
      for (int i = 0; n.load(std::memory_order_relaxed) > 0 && i < 20000; i++) std::this_thread::yield();
    }
  };
  std::atomic<int> sink{0}; // keeps a look from being optimised away
  void look_at(bool b) { sink.fetch_add(b, std::memory_order_relaxed); }
  template<class F>
  void together(int threads, F f) {
    std::vector<std::thread> th;
    for (int i = 0; i < threads; i++) th.emplace_back([&, i] { f(i); });
    for (auto &t: th) t.join();
  }

  // ------------------------------------------------------------------ S05
  void writers(Src &s, Case &c) {
    static std::vector<std::string> const parts{"a", "b", "server", "x1"};
    int threads = (int) s.in(1, 4);
    struct W {
      std::string key;
      int val;
    };
    std::vector<std::vector<W>> prog((std::size_t) threads);
    std::vector<std::string> text;
    int n = 0;
    for (std::size_t t = 0; t < prog.size(); t++) {
      std::string o;
      for (auto k = s.in(1, 6); k > 0; k--) {
        std::string key;
        for (auto d = s.in(1, 3); d > 0; d--) key += s.pick(parts) + ".";
        key += s.coin() ? "leaf" : "own" + std::to_string(t); // shared between the threads, or not
        prog[t].push_back({key, ++n});
        o += key + "=" + std::to_string(n) + " ";
      }
      text.push_back("[" + o + "]");
    }
    c.note(str_of(text));
    cmdr::vars::store st;
    Gate g(threads);
    together(threads, [&](int t) {
      g.pass();
      for (auto const &w: prog[(std::size_t) t]) st.set_raw(w.key.c_str(), w.val);
    });
    std::map<std::string, std::set<int>> last;
    std::map<std::string, int> owners;
    for (auto const &p: prog) {
      std::map<std::string, int> mine;
      for (auto const &w: p) mine[w.key] = w.val;
      for (auto const &m: mine) {
        last[m.first].insert(m.second);
        owners[m.first]++;
      }
    }
    for (auto const &l: last) {
      auto const &v = st.get_raw(l.first.c_str());
      PBT_CHECK(st.has("", l.first.c_str()) && v.has_value(), l.first << " is lost");
      int got = v.as<int>();
      PBT_CHECK(l.second.count(got), l.first << " reads " << got << ", which no thread wrote last");
    }
    bool shared = false;
    for (auto const &o: owners) shared |= o.second > 1;
    if (shared) c.label("threads write the same key");
    c.nontrivial = threads > 1;
  }
  pbt::Reg s1({"S05", "writers", "1-3 threads that set keys of one store, own and shared ones, by real threads watched by ThreadSanitizer; non-trivial: more than one thread", 45000, 500000, writers, 200, 30, true});


  // ------------------------------------------------------------------ P04
  struct Payload { // written by the sender, read by the receiver: must be ordered by the primitive
    int a{}, b{};
  };
  void pool_races(Src &s, Case &c) {
    int threads = (int) s.in(1, 4), subs = (int) s.in(1, 3), per = (int) s.in(1, 6);
    bool lite = s.coin(), wait = s.coin(), peek = s.coin();
    c.note(std::string(lite ? "lite" : "pool") + " of " + std::to_string(threads) + ", " + std::to_string(subs) + " submitters of " + std::to_string(per) + (wait ? ", waits" : "") + (peek ? ", looks at the counters" : ""));
    std::vector<Payload> in((std::size_t) (subs * per)), out(in.size());
    auto drive = [&](auto &pool, auto submit, auto look) {
      std::vector<std::vector<std::future<void>>> fs((std::size_t) subs);
      together(subs, [&](int t) {
        for (int i = 0; i < per; i++) {
          auto k  = (std::size_t) (t * per + i);
          in[k].a = (int) k;
          fs[(std::size_t) t].push_back(submit(pool, [&in, &out, k] { out[k].b = in[k].a + 1; }));
          if (peek) look(pool);
        }
        if (wait)
          for (std::size_t i = 0; i < fs[(std::size_t) t].size(); i++) {
            fs[(std::size_t) t][i].get();
            auto k = (std::size_t) t * (std::size_t) per + i;
            if (out[k].b != in[k].a + 1) pbt::fail_now(c, "the task's effect is not visible when its future is ready");
          }
      });
    };
    if (lite) {
      cmdr::pool::thread_pool_lite pool((std::size_t) threads);
      drive(pool, [](auto &p, auto &&f) { return p.enqueue(std::forward<decltype(f)>(f)); }, [](auto &) {});
    } else {
      cmdr::pool::thread_pool pool(threads);
      drive(pool, [](auto &p, auto &&f) { return p.queue_task(std::forward<decltype(f)>(f)); },
            [&](auto &p) {
              if ((int) p.active_threads() > threads || (int) p.total_threads() != threads) pbt::fail_now(c, "the pool's counters are off");
              look_at(p.tasks().empty());
            });
      if (s.coin()) pool.join();
    }
    int ran = 0;
    for (std::size_t k = 0; k < out.size(); k++) ran += out[k].b == (int) k + 1;
    if (wait || lite) PBT_EQ(ran, subs * per, "tasks that ran");
    c.nontrivial = subs * per > 1;
  }
  pbt::Reg r1({"P04", "pool", "tasks from 1-3 submitting threads on a pool of 1-4, payloads written before and read after, by real threads watched by ThreadSanitizer; non-trivial: more than one task", 24000, 300000, pool_races, 50, 30, true});

  // the helpers that look like they keep nothing between calls: log lines and times
  void log_races(Src &s, Case &c) {
    static char const *const ZONES[] = {"UTC", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "AEST-10"};
    setenv("TZ", ZONES[s.in(0, 3)], 1);
    tzset();
    struct Op {
      int what;
      long long sec;
      std::string got, want;
    };
    namespace chr = cmdr::chrono;
    std::vector<std::vector<Op>> prog((std::size_t) s.in(1, 4));
    int lines = 0;
    std::string note;
    for (auto &p: prog) {
      note += "|";
      for (auto k = s.in(1, 6); k > 0; k--) {
        Op o{(int) s.in(0, 5), s.integer(-1000000000LL, 4000000000LL), {}, {}};
        std::time_t t = (std::time_t) o.sec;
        std::tm tm{};
        if (o.what == 1 || o.what == 3) gmtime_r(&t, &tm);
        else
          localtime_r(&t, &tm);
        char b[100];
        strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
        if (o.what) o.want = b;
        if (o.what == 3 || o.what == 2) o.want += ".000000";
        lines += o.what == 0;
        note += " " + std::to_string(o.what) + "@" + std::to_string(o.sec);
        p.push_back(o);
      }
    }
    c.note(note);
    std::string name = pbt::scratch_dir() + "/races-" + std::to_string(getpid());
    fflush(stdout);
    int was = dup(1), to = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    if (was < 0 || to < 0) throw pbt::Discard{};
    dup2(to, 1);
    close(to);
    using Sys = std::chrono::system_clock;
    auto show = [](std::tm const &tm) {
      char b[100];
      return std::string(b, strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm));
    };
    Gate gate((int) prog.size());
    together((int) prog.size(), [&](int i) {
      gate.pass();
      for (auto &o: prog[(std::size_t) i]) {
        auto tp = Sys::from_time_t((std::time_t) o.sec);
        switch (o.what) {
          case 0: cmdr_print("line of %d: %lld", i, o.sec); break;
          case 1: o.got = show(chr::time_point_2_tm<Sys, true>(tp)); break;
          case 2: o.got = chr::format_time_point_to_local(tp); break;
          case 3: o.got = chr::format_time_point(tp); break;
          case 4: o.got = show(chr::time_t_2_tm<Sys, false>((std::time_t) o.sec)); break;
          default: o.got = show(chr::time_point_2_tm(tp)); break;
        }
      }
    });
    fflush(stdout);
    dup2(was, 1);
    close(was);
    std::string text;
    if (FILE *f = fopen(name.c_str(), "r")) {
      char b[4096];
      for (std::size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) text.append(b, n);
      fclose(f);
    }
    unlink(name.c_str());
    int got = 0;
    for (char ch: text) got += ch == '\n';
    PBT_EQ(got, lines, "log lines written");
    for (auto const &p: prog)
      for (auto const &o: p)
        if (o.what) PBT_EQ(o.got, o.want, "a time converted while other threads convert theirs, form " << o.what);
    c.nontrivial = prog.size() > 1;
  }
  pbt::Reg r6({"P04", "log", "1-4 threads that write log lines and convert times at the same time, by real threads watched by ThreadSanitizer; non-trivial: more than one thread", 15000, 150000, log_races, 50, 30, true});

  void queue_races(Src &s, Case &c) {
    int prod = (int) s.in(1, 3), cons = (int) s.in(1, 3), per = (int) s.in(1, 8);
    bool early = s.chance(1, 3);
    c.note(std::to_string(prod) + " producers of " + std::to_string(per) + ", " + std::to_string(cons) + " consumers" + (early ? ", cleared early" : ""));
    cmdr::pool::threaded_message_queue<std::unique_ptr<Payload>> q;
    std::atomic<int> taken{0}, sum{0};
    int total = prod * per;
    Gate g(prod + cons);
    together(prod + cons + 1, [&](int t) {
      if (t < prod) {
        g.pass();
        for (int i = 0; i < per; i++) {
          auto p = std::make_unique<Payload>();
          p->a   = t * per + i;
          p->b   = 2 * p->a;
          q.emplace_back(std::move(p));
          look_at(q.empty());
        }
      } else if (t < prod + cons) {
        g.pass();
        while (auto m = q.pop_front()) {
          if ((*m)->b != 2 * (*m)->a) pbt::fail_now(c, "a message arrives torn");
          sum.fetch_add((*m)->a, std::memory_order_relaxed);
          taken.fetch_add(1, std::memory_order_relaxed);
        }
      } else {
        for (int i = 0; taken.load(std::memory_order_relaxed) < total && !(early && i > 20); i++) {
          look_at(q.empty());
          std::this_thread::yield();
        }
        q.clear();
      }
    });
    if (!early) PBT_EQ(sum.load(), total * (total - 1) / 2, "sum of the messages");
    c.nontrivial = total > 1;
  }
  pbt::Reg r2({"P04", "queue", "messages from 1-3 producers to 1-3 consumers while others ask empty() and clear, by real threads watched by ThreadSanitizer; non-trivial: more than one message", 30000, 400000, queue_races, 50, 30, true});

  void wait_races(Src &s, Case &c) {
    int setters = (int) s.in(1, 4), waiters = (int) s.in(1, 3);
    int kind = (int) s.in(0, 2);
    std::vector<int> how;
    for (int i = 0; i < waiters; i++) how.push_back((int) s.in(0, 4));
    c.note(std::string(kind == 0 ? "bool" : kind == 1 ? "int" : "killer") + ", " + std::to_string(setters) + " setters, " + std::to_string(waiters) + " waiters");
    std::vector<Payload> pay((std::size_t) setters);
    auto drive = [&](auto &cw, bool all_needed) {
      Gate g(setters + waiters);
      together(setters + waiters, [&](int t) {
        g.pass();
        if (t < setters) {
          pay[(std::size_t) t].a = t + 1;
          cw.set_for_all();
        } else {
          bool r = true;
          switch (how[(std::size_t) (t - setters)]) {
            case 0: cw.wait(); break;
            case 1: r = cw.wait_for(std::chrono::seconds(20)); break;
            case 2: r = cw.wait_until(std::chrono::system_clock::now() + std::chrono::seconds(20)); break;
            case 3:
              while (!cw.wait_for(std::chrono::microseconds(50))) std::this_thread::yield();
              break;
            default: r = cw.wait_for(); break;
          }
          if (!r) pbt::fail_now(c, "a wait gave up although the condition was set");
          if (all_needed)
            for (int k = 0; k < setters; k++)
              if (pay[(std::size_t) k].a != k + 1) pbt::fail_now(c, "what was written before set() is not visible after the wait");
        }
      });
    };
    if (kind == 0) {
      cmdr::pool::conditional_wait_for_bool cw;
      drive(cw, setters == 1);
    } else if (kind == 1) {
      cmdr::pool::conditional_wait_for_int cw(setters);
      drive(cw, true);
    } else {
      cmdr::pool::timer_killer cw;
      std::atomic<bool> go{true};
      std::thread looker([&] {
        while (go.load(std::memory_order_relaxed) && !cw.terminated()) std::this_thread::yield();
      });
      drive(cw, setters == 1);
      go.store(false, std::memory_order_relaxed);
      looker.join();
      PBT_CHECK(cw.terminated(), "not terminated after kill");
    }
    c.nontrivial = setters + waiters > 2;
  }
  pbt::Reg r3({"P04", "wait", "1-4 setters, 1-3 waiters and a thread that polls terminated(), payloads written before set and read after the wait, by real threads watched by ThreadSanitizer; non-trivial: more than two threads", 30000, 400000, wait_races, 50, 60, true});

  struct Obs : cmdr::util::observer<Payload> {
    std::atomic<int> n{0};
    void observe(Payload const &p) override {
      if (p.b == 2 * p.a) n.fetch_add(1, std::memory_order_relaxed);
    }
  };
  template<bool CNS>
  void observer_races(Src &s, Case &c) {
    using Subject = cmdr::util::observable<Payload, true, CNS>;
    int threads = (int) s.in(1, 3), rounds = (int) s.in(1, 6), emits = (int) s.in(1, 6);
    c.note(std::to_string(threads) + " threads come and go " + std::to_string(rounds) + " times, " + std::to_string(emits) + " events" + (CNS ? ", copy and swap" : ""));
    Subject sub;
    typename Subject::observer_t_shared stay = std::make_shared<Obs>();
    sub += stay;
    Gate g(threads + 1);
    together(threads + 1, [&](int t) {
      g.pass();
      if (t == threads) {
        for (int i = 0; i < emits; i++) sub.emit(Payload{i, 2 * i});
        return;
      }
      typename Subject::observer_t_shared o = std::make_shared<Obs>();
      for (int i = 0; i < rounds; i++) {
        sub += o;
        if (i % 2) sub -= o;
        else
          sub -= o.get();
      }
      sub += o;
      sub.emit(Payload{1, 2});
      if (static_cast<Obs *>(o.get())->n < 1) pbt::fail_now(c, "a registered observer does not hear an event");
    });
    PBT_EQ(static_cast<Obs *>(stay.get())->n.load(), emits + threads, "events heard by the observer that was there all the time");
    c.nontrivial = true;
  }
  char const *ro = "1-3 threads that register and unregister observers while another emits, by real threads watched by ThreadSanitizer; every case is non-trivial";
  pbt::Reg r4({"P04", "observers", ro, 24000, 300000, observer_races<true>, 50, 30, true});
  pbt::Reg r5({"P04", "observers_in_place", ro, 18000, 200000, observer_races<false>, 50, 30, true});
} // namespace
PBT_MAIN()
