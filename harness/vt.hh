// Virtual threads: a controlled scheduler for code written against the std thread library.
// Include every std header first, then this file, then (after VT_ON) the code under test: the std
// names mutex, condition_variable, thread, async, future, ... are replaced by stand-ins that hand
// the decision "who runs next" to one scheduler. Exactly one thread runs at any time, every
// operation on a stand-in is a scheduling point, time is virtual, spurious wake-ups happen, and a
// state in which nobody can go on is a deadlock - found at once, not by a timeout.
// The schedule is drawn from the case's choices (mode, seed, preemption points), so a failure is
// replayable and shrinks.
#pragma once
#include "pbt.hh"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <tuple>
#include <vector>

namespace vt {
  using u64 = std::uint64_t;
  using nsec = long long;
  constexpr nsec forever = std::numeric_limits<nsec>::max();

  struct Thr {
    int id{};
    bool done{};
    std::function<bool()> pred; // runnable when empty or true
    char const *where = "start";
    nsec deadline     = forever; // for timed blocking
    bool timed_out{};
    bool spurious_ok{}, spurious{};
    long prio{};
    std::condition_variable cv;
    std::thread real;
  };

  struct Plan { // how the schedule is made
    int mode{};  // 0: stay until blocked; 1: random walk; 2: priorities with change points
    u64 seed{1};
    int rate{2}; // random walk: a switch in 1 of `rate` points
    int spur{};  // spurious wake-up / early timeout: 1 of `spur` points, 0 never
    std::vector<int> change; // priorities: steps at which the running thread falls behind
    static Plan draw(pbt::Src &s) {
      Plan p;
      p.mode = (int) s.in(0, 2);
      if (p.mode) p.seed = s.in(1, 1000000);
      if (p.mode == 1) p.rate = (int) s.in(1, 6);
      if (p.mode == 2)
        for (auto n = s.in(0, 4); n > 0; n--) p.change.push_back((int) s.in(1, 120));
      if (s.chance(1, 3)) p.spur = (int) s.in(4, 30);
      return p;
    }
    std::string str() const {
      std::string o = "schedule mode " + std::to_string(mode) + " seed " + std::to_string(seed) + " rate " + std::to_string(rate) + " spurious " + std::to_string(spur);
      for (auto c: change) o += " @" + std::to_string(c);
      return o;
    }
  };

  struct Sched {
    std::mutex m;
    std::vector<std::unique_ptr<Thr>> t;
    int cur{};
    nsec now{};
    u64 steps{}, switches{}, preempt{}, spurious{}, timeouts{};
    bool on{};
    Plan plan;
    u64 rng{};
    long low{};
    pbt::Case *c{};
    static constexpr u64 cap = 60000;

    u64 rnd() {
      rng = pbt::mix(rng + 0x9E3779B97F4A7C15ull);
      return rng;
    }
    [[noreturn]] void die(std::string const &msg) {
      std::string s = msg + "; threads:";
      for (auto &x: t) s += " #" + std::to_string(x->id) + (x->done ? " ended" : std::string(" ") + x->where);
      pbt::fail_now(*c, s);
    }
    bool ready(Thr &x) { return !x.done && (!x.pred || x.spurious || x.timed_out || x.pred()); }

    // with m held: choose who runs
    int pick(Thr *me, bool blocking) {
      steps++;
      if (steps > 4 * cap) die("no end in sight after " + std::to_string(steps) + " scheduling points");
      bool fair = steps > cap;
      if (plan.spur && !fair && rnd() % (u64) plan.spur == 0) {
        std::vector<Thr *> can;
        for (auto &x: t)
          if (!x->done && x->pred && !x->spurious && !x->timed_out && (x->spurious_ok || x->deadline != forever)) can.push_back(x.get());
        if (!can.empty()) {
          Thr *x = can[rnd() % can.size()];
          if (x->spurious_ok && (x->deadline == forever || rnd() % 2)) {
            x->spurious = true;
            spurious++;
          } else {
            Thr *e = nullptr; // time runs on: the earliest deadline first
            for (auto &y: t)
              if (!y->done && y->pred && y->deadline != forever && !y->timed_out && (!e || y->deadline < e->deadline)) e = y.get();
            now          = std::max(now, e->deadline);
            e->timed_out = true;
            timeouts++;
          }
        }
      }
      std::vector<int> r;
      for (;;) {
        for (auto &x: t)
          if (ready(*x)) r.push_back(x->id);
        if (!r.empty()) break;
        Thr *e = nullptr;
        for (auto &y: t)
          if (!y->done && y->deadline != forever && (!e || y->deadline < e->deadline)) e = y.get();
        if (!e) {
          for (auto &y: t)
            if (!y->done) die("deadlock: no thread can go on");
          return -1;
        }
        now          = std::max(now, e->deadline);
        e->timed_out = true;
        timeouts++;
      }
      bool can_stay = me && !blocking && std::find(r.begin(), r.end(), me->id) != r.end();
      if (fair) { // round robin
        for (int id: r)
          if (me && id > me->id) return id;
        return r[0];
      }
      if (plan.mode == 0) {
        if (can_stay) return me->id;
        return r[0];
      }
      if (plan.mode == 1) {
        if (can_stay && rnd() % (u64) plan.rate != 0) return me->id;
        return r[rnd() % r.size()];
      }
      for (int ch: plan.change)
        if ((u64) ch == steps && me) me->prio = --low;
      int b = r[0];
      for (int id: r)
        if (t[(std::size_t) id]->prio > t[(std::size_t) b]->prio) b = id;
      return b;
    }
    void hand_over(std::unique_lock<std::mutex> &lk, Thr *me, int next) {
      if (next < 0 || (me && next == me->id)) return;
      switches++;
      cur = next;
      t[(std::size_t) next]->cv.notify_one();
      if (me && !me->done) me->cv.wait(lk, [&] { return cur == me->id; });
    }
  };
  inline Sched *&S() {
    static Sched *s = nullptr;
    return s;
  }
  inline thread_local Thr *me = nullptr;
  inline bool active() { return S() && S()->on && me; }

  // a scheduling point
  inline void point(char const *where, bool give_way = false) {
    if (!active()) return;
    auto &s = *S();
    std::unique_lock<std::mutex> lk(s.m);
    me->where = where;
    if (give_way) me->prio = --s.low;
    int n = s.pick(me, give_way && s.plan.mode == 1);
    if (n != me->id) s.preempt++;
    s.hand_over(lk, me, n);
  }
  // block until pred (evaluated by the scheduler), a deadline, or - if allowed - for no reason.
  enum Woken { ByPred,
               ByTime,
               Spurious };
  inline Woken block(char const *where, std::function<bool()> pred, nsec deadline = forever, bool spurious_ok = false) {
    auto &s = *S();
    std::unique_lock<std::mutex> lk(s.m);
    me->where       = where;
    me->pred        = std::move(pred);
    me->deadline    = deadline;
    me->spurious_ok = spurious_ok;
    me->timed_out = me->spurious = false;
    int n = s.pick(me, false);
    s.hand_over(lk, me, n);
    Woken w = me->pred() ? ByPred : me->timed_out ? ByTime
                                                  : Spurious;
    me->pred        = nullptr;
    me->deadline    = forever;
    me->spurious_ok = me->timed_out = me->spurious = false;
    me->where                                      = "running";
    return w;
  }
  inline int spawn(std::function<void()> body) {
    auto &s = *S();
    int id;
    {
      std::unique_lock<std::mutex> lk(s.m);
      id = (int) s.t.size();
      s.t.push_back(std::make_unique<Thr>());
      Thr *x  = s.t.back().get();
      x->id   = id;
      x->prio = s.plan.mode == 2 ? (long) (s.rnd() % 1000) : 0;
      x->real = std::thread([x, body = std::move(body)] {
        auto &s = *S();
        {
          std::unique_lock<std::mutex> lk(s.m);
          x->cv.wait(lk, [&] { return s.cur == x->id; });
        }
        me       = x;
        x->where = "running";
        try {
          body();
        } catch (pbt::Failure const &f) {
          pbt::fail_now(*s.c, f.msg);
        } catch (std::exception const &e) {
          pbt::fail_now(*s.c, std::string("a thread ended with the exception ") + e.what());
        } catch (...) {
          pbt::fail_now(*s.c, "a thread ended with an exception");
        }
        std::unique_lock<std::mutex> lk(s.m);
        x->done = true;
        int n   = s.pick(x, true);
        s.hand_over(lk, x, n);
      });
    }
    point("spawn");
    return id;
  }
  inline nsec now_ns() { return active() ? S()->now : 0; }
  inline nsec after(nsec d) { return d < 0 ? now_ns() : d > forever - now_ns() ? forever : now_ns() + d; }

  // run f as thread 0 under a schedule; returns when every thread has ended
  template<class F>
  void run(pbt::Case &c, Plan const &p, F &&f) {
    Sched s;
    s.c    = &c;
    s.plan = p;
    s.rng  = p.seed;
    s.t.push_back(std::make_unique<Thr>());
    me       = s.t[0].get();
    me->prio = p.mode == 2 ? (long) (s.rnd() % 1000) : 0;
    S()      = &s;
    s.on     = true;
    try {
      f();
    } catch (pbt::Failure const &e) {
      pbt::fail_now(c, e.msg);
    } // other exceptions: the caller's business is to catch them inside f
    {
      std::unique_lock<std::mutex> lk(s.m);
      me->where = "at the end";
      me->pred  = [&] {
        for (auto &x: s.t)
          if (x->id && !x->done) return false;
        return true;
      };
      int n = s.pick(me, true);
      s.hand_over(lk, me, n);
    }
    s.on = false;
    for (auto &x: s.t)
      if (x->real.joinable()) x->real.join();
    S() = nullptr;
    me  = nullptr;
    if (s.preempt) c.label("preempted");
    if (s.spurious) c.label("spurious wake-up");
    if (s.timeouts) c.label("timeout fired");
    if (s.t.size() > 2) c.label("3 or more threads");
    if (s.steps > Sched::cap) c.label("fair phase reached");
  }
} // namespace vt

namespace std {
  class vt_mutex {
  public:
    int owner = -1;
    void lock() {
      if (!vt::active()) return;
      vt::point("before lock");
      if (owner == vt::me->id) vt::S()->die("a thread locks a mutex that it holds already");
      if (owner != -1) vt::block("waiting for a mutex", [this] { return owner == -1; });
      owner = vt::me->id;
    }
    bool try_lock() {
      if (!vt::active()) return true;
      vt::point("before try_lock");
      if (owner != -1) return false;
      owner = vt::me->id;
      return true;
    }
    void unlock() {
      if (!vt::active()) return;
      if (owner != vt::me->id) vt::S()->die("a mutex is unlocked by a thread that does not hold it");
      owner = -1;
      vt::point("after unlock");
    }
    void quiet_unlock() { owner = -1; }
  };
  class vt_recursive_mutex {
    int owner = -1, n = 0;

  public:
    void lock() {
      if (!vt::active()) return;
      vt::point("before lock");
      if (owner != vt::me->id) {
        if (owner != -1) vt::block("waiting for a mutex", [this] { return owner == -1; });
        owner = vt::me->id;
      }
      n++;
    }
    bool try_lock() {
      if (!vt::active()) return true;
      vt::point("before try_lock");
      if (owner != -1 && owner != vt::me->id) return false;
      owner = vt::me->id;
      n++;
      return true;
    }
    void unlock() {
      if (!vt::active()) return;
      if (--n == 0) owner = -1;
      vt::point("after unlock");
    }
  };
  class vt_shared_mutex {
    int owner = -1, readers = 0;

  public:
    void lock() {
      if (!vt::active()) return;
      vt::point("before lock");
      if (owner == vt::me->id) vt::S()->die("a thread locks a mutex that it holds already");
      if (owner != -1 || readers) vt::block("waiting for a mutex", [this] { return owner == -1 && !readers; });
      owner = vt::me->id;
    }
    bool try_lock() {
      if (!vt::active()) return true;
      vt::point("before try_lock");
      if (owner != -1 || readers) return false;
      owner = vt::me->id;
      return true;
    }
    void unlock() {
      if (!vt::active()) return;
      owner = -1;
      vt::point("after unlock");
    }
    void lock_shared() {
      if (!vt::active()) return;
      vt::point("before lock_shared");
      if (owner != -1) vt::block("waiting for a shared lock", [this] { return owner == -1; });
      readers++;
    }
    bool try_lock_shared() {
      if (!vt::active()) return true;
      vt::point("before try_lock_shared");
      if (owner != -1) return false;
      readers++;
      return true;
    }
    void unlock_shared() {
      if (!vt::active()) return;
      readers--;
      vt::point("after unlock_shared");
    }
  };
  class vt_condition_variable {
    struct W {
      bool hit{};
    };
    std::deque<std::shared_ptr<W>> q;

    template<class L>
    vt::Woken wait_(L &lk, vt::nsec deadline) {
      vt::point("before waiting"); // the lock is still held here
      auto w = std::make_shared<W>();
      q.push_back(w);
      quiet(lk);
      auto r = vt::block("waiting for a condition variable", [w] { return w->hit; }, deadline, true);
      q.erase(std::remove(q.begin(), q.end(), w), q.end());
      lk.lock();
      return r;
    }
    // give the lock up without a scheduling point: unlock and wait are one step
    static void quiet(std::unique_lock<vt_mutex> &lk) {
      if (!lk.owns_lock() || lk.mutex()->owner != vt::me->id) vt::S()->die("waiting on a condition variable without holding the mutex");
      vt_mutex *m = lk.release();
      m->quiet_unlock();
      lk = std::unique_lock<vt_mutex>(*m, std::defer_lock);
    }
    template<class L>
    static void quiet(L &lk) { lk.unlock(); }

  public:
    vt_condition_variable()                              = default;
    vt_condition_variable(vt_condition_variable const &) = delete;
    ~vt_condition_variable() {
      if (vt::active() && !q.empty()) vt::S()->die("a condition variable is destroyed while a thread waits for it");
    }
    // which waiter gets it is the scheduler's business: the standard promises no order
    void notify_one() {
      if (!vt::active()) return;
      std::vector<W *> open;
      for (auto &w: q)
        if (!w->hit) open.push_back(w.get());
      if (!open.empty()) open[vt::S()->plan.mode ? vt::S()->rnd() % open.size() : 0]->hit = true;
      vt::point("after notify_one");
    }
    void notify_all() {
      if (!vt::active()) return;
      for (auto &w: q) w->hit = true;
      vt::point("after notify_all");
    }
    template<class L>
    void wait(L &lk) { wait_(lk, vt::forever); }
    template<class L, class P>
    void wait(L &lk, P p) {
      while (!p()) wait(lk);
    }
    template<class R, class P>
    static vt::nsec deadline_of(std::chrono::duration<R, P> const &d) {
      auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); // wraps like the real one
      return vt::after(ns);
    }
    template<class L, class R, class P>
    std::cv_status wait_for(L &lk, std::chrono::duration<R, P> const &d) {
      return wait_(lk, deadline_of(d)) == vt::ByTime ? std::cv_status::timeout : std::cv_status::no_timeout;
    }
    template<class L, class R, class P, class F>
    bool wait_for(L &lk, std::chrono::duration<R, P> const &d, F p) { return until_(lk, deadline_of(d), p); }
    template<class L, class C, class D>
    std::cv_status wait_until(L &lk, std::chrono::time_point<C, D> const &t) {
      return wait_(lk, abs_(t)) == vt::ByTime ? std::cv_status::timeout : std::cv_status::no_timeout;
    }
    template<class L, class C, class D, class F>
    bool wait_until(L &lk, std::chrono::time_point<C, D> const &t, F p) { return until_(lk, abs_(t), p); }

  private:
    template<class C, class D>
    static vt::nsec abs_(std::chrono::time_point<C, D> const &t) {
      auto far = std::chrono::time_point_cast<std::chrono::hours>(t) - std::chrono::time_point_cast<std::chrono::hours>(C::now());
      if (far > std::chrono::hours(24 * 365 * 50)) return vt::forever;
      return deadline_of(t - C::now());
    }
    template<class L, class F>
    bool until_(L &lk, vt::nsec dl, F p) {
      while (!p()) {
        if (dl != vt::forever && vt::now_ns() >= dl) return p();
        if (wait_(lk, dl) == vt::ByTime) return p();
      }
      return true;
    }
  };
  using vt_condition_variable_any = vt_condition_variable;

  class vt_thread {
    int id_ = -1;

  public:
    using id                  = std::thread::id;
    using native_handle_type  = std::thread::native_handle_type;
    vt_thread() noexcept      = default;
    vt_thread(vt_thread const &) = delete;
    vt_thread(vt_thread &&o) noexcept { std::swap(id_, o.id_); }
    vt_thread &operator=(vt_thread &&o) noexcept {
      if (id_ >= 0) std::terminate();
      std::swap(id_, o.id_);
      return *this;
    }
    template<class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, vt_thread>>>
    explicit vt_thread(F &&f, A &&...a) {
      auto fn = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
      id_     = vt::spawn([fn] {
        std::apply([](auto &&f2, auto &&...a2) { std::invoke(std::move(f2), std::move(a2)...); }, std::move(*fn));
      });
    }
    ~vt_thread() {
      if (id_ >= 0) vt::S()->die("a thread object is destroyed without join or detach");
    }
    bool joinable() const noexcept { return id_ >= 0; }
    void join() {
      if (id_ < 0) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
      vt::block("joining a thread", [i = id_] { return vt::S()->t[(std::size_t) i]->done; });
      id_ = -1;
    }
    void detach() { id_ = -1; }
    void swap(vt_thread &o) noexcept { std::swap(id_, o.id_); }
    [[nodiscard]] id get_id() const noexcept { return id_ < 0 ? id() : vt::S()->t[(std::size_t) id_]->real.get_id(); }
    static unsigned hardware_concurrency() noexcept { return 3; }
  };

  template<class R>
  class vt_future {
    std::shared_ptr<std::future<R>> f;
    int thr = -1; // async: the destructor waits for it

    bool now_() const { return f->wait_for(std::chrono::seconds(0)) != std::future_status::timeout; }
    void over() {
      if (thr >= 0 && vt::active()) vt::block("destroying the future of an async task", [i = thr] { return vt::S()->t[(std::size_t) i]->done; });
      thr = -1;
      f.reset();
    }

  public:
    vt_future() = default;
    vt_future(std::future<R> &&o)
        : f(o.valid() ? std::make_shared<std::future<R>>(std::move(o)) : nullptr) {}
    vt_future(std::future<R> &&o, int t)
        : f(std::make_shared<std::future<R>>(std::move(o)))
        , thr(t) {}
    vt_future(vt_future &&o) noexcept
        : f(std::move(o.f))
        , thr(std::exchange(o.thr, -1)) {}
    vt_future &operator=(vt_future &&o) noexcept {
      if (this != &o) {
        over();
        f   = std::move(o.f);
        thr = std::exchange(o.thr, -1);
      }
      return *this;
    }
    ~vt_future() { over(); }
    bool valid() const noexcept { return f && f->valid(); }
    void wait() const {
      if (!f) throw std::future_error(std::future_errc::no_state);
      if (vt::active()) {
        auto g = f;
        vt::block("waiting for a future", [g] { return g->wait_for(std::chrono::seconds(0)) != std::future_status::timeout; });
      } else
        f->wait();
    }
    template<class Rp, class P>
    std::future_status wait_for(std::chrono::duration<Rp, P> const &d) const {
      auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
      if (vt::active()) {
        if (ns <= 0) vt::point("polling a future");
        else {
          auto g = f;
          vt::block("waiting for a future", [g] { return g->wait_for(std::chrono::seconds(0)) != std::future_status::timeout; }, vt::after(ns));
        }
      }
      return f->wait_for(std::chrono::seconds(0));
    }
    R get() {
      wait();
      auto g = f;
      if (thr >= 0 && vt::active()) vt::block("waiting for an async task", [i = thr] { return vt::S()->t[(std::size_t) i]->done; });
      thr = -1;
      f.reset();
      return g->get();
    }
  };

  enum class vt_launch { vt_async = 1,
                         async    = 1,
                         deferred = 2 };
  template<class F, class... A>
  auto vt_async(std::vt_launch, F &&f, A &&...a) {
    using R  = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>;
    auto pt  = std::make_shared<std::packaged_task<R()>>(std::bind(std::forward<F>(f), std::forward<A>(a)...));
    auto fut = pt->get_future();
    int id   = vt::spawn([pt] { (*pt)(); });
    return vt_future<R>(std::move(fut), id);
  }
  template<class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, std::vt_launch>>>
  auto vt_async(F &&f, A &&...a) { return vt_async(std::vt_launch::async, std::forward<F>(f), std::forward<A>(a)...); }

  namespace this_thread {
    inline void vt_yield() { vt::point("yield", true); }
    template<class R, class P>
    void vt_sleep_for(std::chrono::duration<R, P> const &d) {
      if (!vt::active()) return;
      vt::block("sleeping", [] { return false; }, vt::after(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()));
    }
    template<class C, class D>
    void vt_sleep_until(std::chrono::time_point<C, D> const &t) { vt_sleep_for(t - C::now()); }
  } // namespace this_thread
} // namespace std
