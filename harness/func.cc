// L01 function tools: bind, easy_bind, bind_this, partial, curry, bind_tie,
// lambda/to_function/l2f, pipes, defer, singletons, factories, visit_any_as, printing.
#include <any>
#include <atomic>
#include <cmath>
#include <functional>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <vector>

#include "pbt.hh"
#include "cmdr11/cmdr11.hh"
#include "cmdr11/cmdr_pipeable.hh"

using pbt::Case;
using pbt::Src;
namespace U = cmdr::util;
namespace T = cmdr::traits;
namespace Cool = cmdr::util::cool;

namespace {
  int live = 0;
  // a value which knows whether it was copied, moved from or destroyed
  struct Tr {
    std::unique_ptr<std::string> v;
    explicit Tr(std::string s = "")
        : v(new std::string(std::move(s))) { live++; }
    Tr(Tr const &o)
        : v(new std::string(o.text())) { live++; }
    Tr(Tr &&o) noexcept
        : v(std::move(o.v)) { live++; }
    Tr &operator=(Tr const &o) {
      v = std::make_unique<std::string>(o.text());
      return *this;
    }
    Tr &operator=(Tr &&o) noexcept {
      v = std::move(o.v);
      return *this;
    }
    ~Tr() { live--; }
    std::string text() const { return v ? *v : std::string("<moved away>"); }
  };

  struct Args {
    long a;
    std::string b;
    Tr c;
    unsigned d;
  };
  std::vector<std::string> calls; // every call of the wrapped functions
  std::string shown(long a, std::string const &b, Tr const &c, unsigned d) {
    return std::to_string(a) + "/" + pbt::vis(b) + "/" + pbt::vis(c.text()) + "/" + std::to_string(d);
  }
  std::string rec(long a, std::string const &b, Tr const &c, unsigned d) {
    calls.push_back(shown(a, b, c, d));
    return "r:" + calls.back();
  }
  // a function object with a state of its own, which has to be kept alive
  struct Fo {
    std::shared_ptr<std::string> tag;
    std::string operator()(long a, std::string const &b, Tr const &c, unsigned d) const {
      calls.push_back(shown(a, b, c, d));
      return *tag + ":" + calls.back();
    }
  };
  struct Obj {
    std::string name;
    std::string m(long a, std::string const &b, Tr const &c, unsigned d) {
      calls.push_back(shown(a, b, c, d));
      return name + ":" + calls.back();
    }
    std::string k(long a, std::string const &b, Tr const &c, unsigned d) const {
      calls.push_back(shown(a, b, c, d));
      return name + "!" + calls.back();
    }
  };

  long value(Src &s) { return s.chance(1, 4) ? (long) s.bits64() : s.in(-9, 9); }
  std::string text(Src &s) { return s.str("abz %{}-", 0, 24); }
  Args draw(Src &s) { return Args{value(s), text(s), Tr(text(s)), (unsigned) s.in(0, 1000)}; }
  std::string shown(Args const &a) { return shown(a.a, a.b, a.c, a.d); }

  // the call has happened exactly once, with these arguments, and gave this result
  void once(Case &c, std::string const &what, std::string const &got, std::string const &want, std::string const &args) {
    (void) c;
    PBT_EQ(got, want, what << ": result of the call with " << args);
    PBT_EQ(calls.size(), std::size_t(1), what << ": calls made of the wrapped function for one call of the wrapper");
    PBT_EQ(calls[0], args, what << ": arguments given to the wrapped function");
    calls.clear();
  }
  void none(std::string const &what) {
    PBT_EQ(calls.size(), std::size_t(0), what << ": calls made of the wrapped function before the wrapper was called");
  }

  // ---- wrappers made in a scope that has ended when they are called
  template<class F>
  auto make_partial(int how, F f, Args const &from, std::integral_constant<int, 0>) { (void) how; (void) from; return Cool::partial(f); }
  template<int How, int N, class F>
  auto make_partial(F f, Args from) {
    Args const &cf = from;
    if constexpr (How == 0) { // lvalues
      if constexpr (N == 0) return Cool::partial(f);
      else if constexpr (N == 1) return Cool::partial(f, from.a);
      else if constexpr (N == 2) return Cool::partial(f, from.a, from.b);
      else if constexpr (N == 3) return Cool::partial(f, from.a, from.b, from.c);
      else return Cool::partial(f, from.a, from.b, from.c, from.d);
    } else if constexpr (How == 1) { // const lvalues
      if constexpr (N == 0) return Cool::partial(f);
      else if constexpr (N == 1) return Cool::partial(f, cf.a);
      else if constexpr (N == 2) return Cool::partial(f, cf.a, cf.b);
      else if constexpr (N == 3) return Cool::partial(f, cf.a, cf.b, cf.c);
      else return Cool::partial(f, cf.a, cf.b, cf.c, cf.d);
    } else { // temporaries
      if constexpr (N == 0) return Cool::partial(std::move(f));
      else if constexpr (N == 1) return Cool::partial(std::move(f), long(from.a));
      else if constexpr (N == 2) return Cool::partial(std::move(f), long(from.a), std::string(from.b));
      else if constexpr (N == 3) return Cool::partial(std::move(f), long(from.a), std::string(from.b), Tr(from.c));
      else return Cool::partial(std::move(f), long(from.a), std::string(from.b), Tr(from.c), unsigned(from.d));
    }
  }
  template<int N, class W>
  std::string call_rest(W &w, Args const &a) {
    if constexpr (N == 0) return w(a.a, a.b, a.c, a.d);
    else if constexpr (N == 1) return w(a.b, a.c, a.d);
    else if constexpr (N == 2) return w(a.c, a.d);
    else if constexpr (N == 3) return w(a.d);
    else return w();
  }
  template<int N, class W>
  std::string call_rest_tmp(W &w, Args const &a) {
    if constexpr (N == 0) return w(long(a.a), std::string(a.b), Tr(a.c), unsigned(a.d));
    else if constexpr (N == 1) return w(std::string(a.b), Tr(a.c), unsigned(a.d));
    else if constexpr (N == 2) return w(Tr(a.c), unsigned(a.d));
    else if constexpr (N == 3) return w(unsigned(a.d));
    else return w();
  }
  Args mixed(Args const &first, Args const &rest, int n) {
    Args o = rest;
    if (n > 0) o.a = first.a;
    if (n > 1) o.b = first.b;
    if (n > 2) o.c = first.c;
    if (n > 3) o.d = first.d;
    return o;
  }

  template<class W, int N>
  void use(Src &s, Case &c, std::string const &what, W &w, Args const &bound, std::string const &tag, std::integral_constant<int, N>) {
    none(what);
    int times = s.in(1, 3);
    for (int i = 0; i < times; i++) {
      Args rest = draw(s);
      std::string want = shown(mixed(bound, rest, N));
      std::string got = s.coin() ? call_rest<N>(w, rest) : call_rest_tmp<N>(w, rest);
      once(c, what + ", call " + std::to_string(i + 1), got, tag + ":" + want, want);
    }
  }

  template<int How, int N>
  void partial_case(Src &s, Case &c) {
    Args bound = draw(s);
    std::string what = "partial with " + std::to_string(N) + (How == 0 ? " variables" : How == 1 ? " constants" : " temporaries");
    c.note(what + " " + shown(bound));
    if (s.coin()) {
      std::string tag = "f" + std::to_string(s.in(0, 99));
      auto w = make_partial<How, N>(Fo{std::make_shared<std::string>(tag)}, bound);
      use(s, c, what, w, bound, tag, std::integral_constant<int, N>{});
      auto w2 = w; // a copy binds the same
      use(s, c, what + " (copied)", w2, bound, tag, std::integral_constant<int, N>{});
    } else {
      auto w = make_partial<How, N>(&rec, bound);
      use(s, c, what, w, bound, "r", std::integral_constant<int, N>{});
    }
    c.nontrivial = N > 0;
  }
  template<int How>
  void partial_n(Src &s, Case &c) {
    switch (s.in(0, 4)) {
      case 0: return partial_case<How, 0>(s, c);
      case 1: return partial_case<How, 1>(s, c);
      case 2: return partial_case<How, 2>(s, c);
      case 3: return partial_case<How, 3>(s, c);
      default: return partial_case<How, 4>(s, c);
    }
  }

  // ---- currying: the four arguments in any grouping; each stage may be kept and used again
  template<class F>
  std::string curried(Src &s, F f, Args const &a, std::string &how) {
    bool tmp = s.coin();
    auto g = [&](auto &&...xs) { (void) sizeof...(xs); };
    (void) g;
    switch (s.in(0, 7)) {
      case 0: how = "(4)"; return Cool::curry(f)(a.a, a.b, a.c, a.d);
      case 1: {
        how = "(1)(3)";
        auto w = tmp ? Cool::curry(f)(long(a.a)) : [&] { long x = a.a; return Cool::curry(f)(x); }();
        return w(a.b, a.c, a.d);
      }
      case 2: {
        how = "(2)(2)";
        auto w = tmp ? Cool::curry(f)(long(a.a), std::string(a.b)) : [&] { long x = a.a; std::string y = a.b; return Cool::curry(f)(x, y); }();
        return w(a.c, a.d);
      }
      case 3: {
        how = "(3)(1)";
        auto w = tmp ? Cool::curry(f)(long(a.a), std::string(a.b), Tr(a.c)) : [&] { Args k = a; return Cool::curry(f)(k.a, k.b, k.c); }();
        return w(a.d);
      }
      case 4: {
        how = "(1)(1)(2)";
        auto w = [&] { Args k = a; Args const &ck = k; return Cool::curry(f)(ck.a)(ck.b); }();
        return w(Tr(a.c), unsigned(a.d));
      }
      case 5: {
        how = "(1)(2)(1)";
        auto w = [&] { Args k = a; Args const &ck = k; return Cool::curry(f)(ck.a)(ck.b, k.c); }();
        return w(a.d);
      }
      case 6: {
        how = "(2)(1)(1)";
        auto w = [&] { Args k = a; return Cool::curry(f)(k.a, std::string(k.b))(k.c); }();
        return w(a.d);
      }
      default: {
        how = "(1)(1)(1)(1)";
        auto w = [&] { Args k = a; return Cool::curry(f)(k.a)(k.b)(k.c); }();
        return w(unsigned(a.d));
      }
    }
  }
  void curry_case(Src &s, Case &c) {
    Args a = draw(s);
    std::string how, got, tag = "r";
    if (s.coin()) {
      tag = "f" + std::to_string(s.in(0, 99));
      got = curried(s, Fo{std::make_shared<std::string>(tag)}, a, how);
    } else
      got = curried(s, &rec, a, how);
    c.note("curry " + how + " " + shown(a));
    once(c, "curry called as " + how, got, tag + ":" + shown(a), shown(a));
    // a kept stage serves several calls, each with its own last arguments
    auto stage = [&] { Args k = a; return Cool::curry(Fo{std::make_shared<std::string>("k")})(k.a)(k.b); }();
    int n = s.in(1, 3);
    for (int i = 0; i < n; i++) {
      Args r = mixed(a, draw(s), 2);
      once(c, "a kept curry stage, call " + std::to_string(i + 1), stage(r.c, r.d), "k:" + shown(r), shown(r));
    }
    c.nontrivial = how != "(4)";
  }

  void bind_case(Src &s, Case &c) {
    using namespace std::placeholders;
    Args a = draw(s), x = draw(s);
    int how = s.in(0, 9);
    std::string what = "bind form " + std::to_string(how);
    c.note(what + " " + shown(a) + " then " + shown(x));
    c.nontrivial = true;
    int times = s.in(1, 2);
    for (int i = 0; i < times; i++) {
      if (i) x = draw(s);
      std::string got, want = "r:";
      Args w = a;
      none(what);
      switch (how) {
        case 0: { // all in order
          auto f = [&] { return U::bind(&rec, _1, _2, _3, _4); }();
          got = f(x.a, x.b, x.c, x.d), w = x;
          break;
        }
        case 1: { // reversed
          auto f = [&] { return U::bind(&rec, _4, _3, _2, _1); }();
          got = f(x.d, x.c, x.b, x.a), w = x;
          break;
        }
        case 2: { // outer ones bound
          auto f = [&] { Args k = a; return U::bind(&rec, k.a, _2, _1, k.d); }();
          got = f(x.c, x.b), w = x, w.a = a.a, w.d = a.d;
          break;
        }
        case 3: { // inner ones bound, through Cool::bind
          auto f = [&] { Args k = a; return Cool::bind(&rec, _1, std::move(k.b), k.c, _2); }();
          got = f(x.a, x.d), w = a, w.a = x.a, w.d = x.d;
          break;
        }
        case 4: { // everything bound
          auto f = [&] { Args k = a; return U::bind(Fo{std::make_shared<std::string>("r")}, k.a, k.b, k.c, k.d); }();
          got = f(), w = a;
          break;
        }
        case 5: { // a member function of a copy of the object
          Obj o{"r"};
          auto f = U::bind(&Obj::m, o, _1, a.b, _2, a.d);
          o.name = "changed";
          got = f(x.a, x.c), w = a, w.a = x.a, w.c = x.c;
          break;
        }
        case 6: { // a member function by pointer
          Obj o{"before"};
          auto f = U::bind(&Obj::m, &o, a.a, _1, a.c, _2);
          o.name = "r";
          got = f(x.b, x.d), w = a, w.b = x.b, w.d = x.d;
          break;
        }
        case 7: { // a const member function bound to this
          Obj o{"before"};
          auto f = U::bind_this(const_cast<Obj const *>(&o), &Obj::k);
          o.name = "r";
          got = f(x.a, x.b, x.c, x.d), w = x, want = "r!";
          break;
        }
        case 8: { // a member function bound to this
          Obj o{"before"};
          auto f = U::bind_this(&o, &Obj::m);
          o.name = "r";
          got = f(x.a, x.b, x.c, x.d), w = x;
          break;
        }
        default: { // one argument used twice
          auto f = U::bind([](long p, long q, long r) { calls.push_back(std::to_string(p) + "," + std::to_string(q) + "," + std::to_string(r)); return "r:" + calls.back(); }, _2, _1, _2);
          std::string t = std::to_string(x.d) + "," + std::to_string(x.a) + "," + std::to_string(x.d);
          once(c, what, f(x.a, (long) x.d), "r:" + t, t);
          continue;
        }
      }
      once(c, what, got, want + shown(w), shown(w));
    }
  }

  template<int N>
  void easy_case(Src &s, Case &c) {
    Args a = draw(s);
    c.note("easy_bind with " + std::to_string(N) + " " + shown(a));
    c.nontrivial = N > 0;
    auto w = [&] {
      Args k = a;
      std::function<std::string(long, std::string const &, Tr const &, unsigned)> f = Fo{std::make_shared<std::string>("e")};
      if constexpr (N == 0) return U::easy_bind(f);
      else if constexpr (N == 1) return U::easy_bind(f, k.a);
      else if constexpr (N == 2) return U::easy_bind(f, k.a, std::move(k.b));
      else if constexpr (N == 3) return U::easy_bind(f, k.a, k.b, Tr(k.c));
      else return U::easy_bind(f, k.a, k.b, k.c, k.d);
    }();
    use(s, c, "easy_bind", w, a, "e", std::integral_constant<int, N>{});
  }

  void tie_case(Src &s, Case &c) {
    using namespace std::placeholders;
    Args a = draw(s), x = draw(s);
    int how = s.in(0, 5);
    std::string what = "bind_tie form " + std::to_string(how), got, tag = "r";
    c.note(what + " " + shown(a) + " then " + shown(x));
    c.nontrivial = true;
    Args w = x;
    Obj o{"o"};
    switch (how) {
      case 0: { auto f = [&] { return Cool::bind_tie<4>(&rec, _1, _2, _3, _4); }(); got = f(x.a, x.b, x.c, x.d); break; }
      case 1: { auto f = [&] { Args k = a; return Cool::bind_tie<4>(&rec, k.a, _1, k.c, _2); }(); got = f(x.b, x.d); w = a, w.b = x.b, w.d = x.d; break; }
      case 2: { auto f = [&] { Args k = a; return Cool::bind_tie<4>(Fo{std::make_shared<std::string>("t")}, k.a, k.b, k.c, k.d); }(); got = f(), w = a, tag = "t"; break; }
      case 3: { auto f = Cool::bind_tie<4>(&Obj::m, &o, _1, _2, _3, _4); o.name = "p"; got = f(x.a, x.b, x.c, x.d), tag = "p"; break; }
      case 4: { auto f = [&] { Obj q{"q"}; Args k = a; return Cool::bind_tie<4>(&Obj::m, q, _2, k.b, _1, k.d); }(); got = f(x.c, x.a), w = a, w.a = x.a, w.c = x.c, tag = "q"; break; }
      default: { // only the first N of what is given are used
        auto f = Cool::bind_tie<4>(&rec, _1, _2, _3, _4, "surplus", 5);
        got = f(x.a, x.b, x.c, x.d);
      }
    }
    once(c, what, got, tag + ":" + shown(w), shown(w));
  }

  void lambda_case(Src &s, Case &c) {
    Args a = draw(s);
    std::string tag = text(s);
    int how = s.in(0, 4);
    std::string what = how == 0 ? "lambda" : how == 1 ? "to_function" : how == 2 ? "lambda_to_function" : how == 3 ? "l2f" : "pipe";
    c.note(what + " " + shown(a) + " " + pbt::vis(tag));
    c.nontrivial = true;
    int times = s.in(1, 3), mine = 0;
    if (how == 4) {
      using namespace cmdr::pipeable;
      auto f = piped([&mine](long v, std::string const &b, Tr const &t, unsigned d) { mine++; return rec(v, b, t, d); });
      auto g = piped([](std::string const &r, std::string const &suffix) { return r + suffix; });
      for (int i = 0; i < times; i++) {
        a = i ? draw(s) : a;
        std::string got = a.a | f(a.b, a.c, a.d) | g(tag);
        once(c, what, got, "r:" + shown(a) + tag, shown(a));
        PBT_EQ(mine, i + 1, "calls of a piped function");
      }
      return;
    }
    auto l = [&mine, t = std::make_shared<std::string>(tag)](long v, std::string const &b, Tr const &x, unsigned d) {
      mine++;
      return rec(v, b, x, d) + *t;
    };
    std::function<std::string(long, std::string const &, Tr const &, unsigned)> f;
    if (how == 0) {
      auto w = T::lambda(l);
      for (int i = 0; i < times; i++) {
        a = i ? draw(s) : a;
        once(c, what, w(a.a, a.b, a.c, a.d), "r:" + shown(a) + tag, shown(a));
        PBT_EQ(mine, i + 1, "calls of a wrapped lambda");
      }
      return;
    }
    f = how == 1 ? T::to_function(l) : how == 2 ? T::lambda_to_function(l) : T::l2f(l);
    for (int i = 0; i < times; i++) {
      a = i ? draw(s) : a;
      once(c, what, f(a.a, a.b, a.c, a.d), "r:" + shown(a) + tag, shown(a));
      PBT_EQ(mine, i + 1, "calls of a wrapped lambda");
    }
  }

  void wrap_case(Src &s, Case &c) {
    calls.clear();
    live = 0;
    try {
      switch (s.in(0, 8)) {
        case 0: partial_n<0>(s, c); break;
        case 1: partial_n<1>(s, c); break;
        case 2: partial_n<2>(s, c); break;
        case 3: curry_case(s, c); break;
        case 4: bind_case(s, c); break;
        case 5:
          switch (s.in(0, 4)) {
            case 0: easy_case<0>(s, c); break;
            case 1: easy_case<1>(s, c); break;
            case 2: easy_case<2>(s, c); break;
            case 3: easy_case<3>(s, c); break;
            default: easy_case<4>(s, c); break;
          }
          break;
        case 6: tie_case(s, c); break;
        default: lambda_case(s, c); break;
      }
    } catch (std::bad_function_call const &) {
      pbt::fail("a wrapper called no function");
    }
    PBT_EQ(live, 0, "argument copies still alive after the wrappers are gone");
  }

  // ---- defer ---------------------------------------------------------------
  struct Res {
    std::vector<std::string> *log;
    std::string name;
    void close() { log->push_back("close " + name); }
  };
  struct Boom {};
  struct Node {
    int kind;   // 0 defer<bool>, 1 empty function, 2 defer<T>, 3 defer<T, function>, 4 defer<T, lambda>, 5 inner scope, 6 log, 7 throw
    int id;
    std::vector<Node> kids;
  };
  void draw_block(Src &s, std::vector<Node> &b, int depth, int &id) {
    int n = s.in(0, 5);
    for (int i = 0; i < n; i++) {
      Node k{s.in(0, 7), id++, {}};
      if (k.kind == 7 && !s.chance(1, 3)) k.kind = 6;
      if (k.kind == 5 && depth >= 3) k.kind = 0;
      if (k.kind == 5) draw_block(s, k.kids, depth + 1, id);
      b.push_back(k);
    }
  }
  std::string shown(std::vector<Node> const &b) {
    static char const *const n[] = {"defer", "none", "closer", "closer+fn", "closer+lambda", "", "log", "throw"};
    std::string o = "{";
    for (auto const &k: b) o += " " + (k.kind == 5 ? shown(k.kids) : n[k.kind] + std::to_string(k.id));
    return o + " }";
  }
  void model(std::vector<Node> const &b, std::size_t i, std::vector<std::string> &log, bool &threw) {
    // what the rest of the block does, then what was deferred by entry i
    if (i >= b.size()) return;
    auto const &k = b[i];
    std::string id = std::to_string(k.id);
    switch (k.kind) {
      case 7: log.push_back("throw " + id); threw = true; return;
      case 6: log.push_back("log " + id); break;
      case 5: model(k.kids, 0, log, threw); if (threw) return; break;
      default: break;
    }
    model(b, i + 1, log, threw);
    if (k.kind == 0) log.push_back("run " + id);
    if (k.kind >= 2 && k.kind <= 4) log.push_back("close " + id);
    if (k.kind == 3 || k.kind == 4) log.push_back("run " + id);
  }
  void run(std::vector<Node> const &b, std::size_t i, std::vector<std::string> &log) {
    if (i >= b.size()) return;
    auto const &k = b[i];
    std::string id = std::to_string(k.id);
    auto fn = [&log, id] { log.push_back("run " + id); };
    std::size_t before = log.size();
    auto quiet = [&] { PBT_EQ(log.size(), before, "functions run by declaring defer " << id); };
    switch (k.kind) {
      case 0: { U::defer<bool> d(fn); quiet(); run(b, i + 1, log); return; }
      case 1: { U::defer<bool> d(std::function<void()>{}); quiet(); run(b, i + 1, log); return; }
      case 2: { Res r{&log, id}; U::defer<Res> d(r); quiet(); run(b, i + 1, log); return; }
      case 3: { Res r{&log, id}; U::defer<Res, std::function<void()>> d(r, fn); quiet(); run(b, i + 1, log); return; }
      case 4: { Res r{&log, id}; U::defer<Res, decltype(fn)> d(r, fn); quiet(); run(b, i + 1, log); return; }
      case 5: run(k.kids, 0, log); break;
      case 6: log.push_back("log " + id); break;
      default: log.push_back("throw " + id); throw Boom{};
    }
    run(b, i + 1, log);
  }
  void defer_case(Src &s, Case &c) {
    std::vector<Node> b;
    int id = 0;
    draw_block(s, b, 0, id);
    c.note(shown(b));
    std::vector<std::string> want, log;
    bool threw = false, caught = false;
    model(b, 0, want, threw);
    try {
      run(b, 0, log);
    } catch (Boom const &) {
      caught = true;
    }
    PBT_EQ(caught, threw, "an exception leaves the scopes");
    auto join = [](std::vector<std::string> const &v) { std::string o; for (auto const &x: v) o += x + "; "; return o; };
    PBT_EQ(join(log), join(want), "what ran, in order, in " << shown(b));
    c.nontrivial = want.size() > 2;
    if (threw) c.label("exception");
  }

  // ---- singletons ------------------------------------------------------------
  template<int I>
  struct Single : U::singleton<Single<I>> {
    static std::atomic<int> made;
    int mark = 0;
    explicit Single(typename U::singleton<Single<I>>::token) {
      made++;
      std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
  };
  template<int I>
  std::atomic<int> Single<I>::made{0};
  template<int I>
  struct Arg2 {
    int a;
    std::string b;
    static int made;
    Arg2(int x, std::string y)
        : a(x)
        , b(std::move(y)) { made++; }
  };
  template<int I>
  int Arg2<I>::made = 0;
  template<int I>
  void one_single(Src &s, Case &c) {
    static Single<I> *known = nullptr;
    int threads = s.in(1, 6);
    c.note("singleton " + std::to_string(I) + " from " + std::to_string(threads) + " threads");
    std::vector<Single<I> *> got((std::size_t) threads);
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    for (int i = 0; i < threads; i++)
      ts.emplace_back([&, i] { while (!go) {} got[(std::size_t) i] = &CMDR_SINGLETON(Single<I>)::instance(); });
    go = true;
    for (auto &t: ts) t.join();
    if (!known) known = got[0];
    for (auto *p: got) PBT_CHECK(p == known, "two threads were given different objects by one singleton");
    PBT_EQ(Single<I>::made.load(), 1, "objects made by a singleton");
    using H = U::singleton_with_optional_construction_args<Arg2<I>, int, std::string>;
    static int wa;
    static std::string wb;
    int a = s.in(-9, 9);
    std::string b = text(s);
    if (Arg2<I>::made == 0) wa = a, wb = b;
    auto &x = H::instance(a, b);
    auto &y = H::instance(a + 1, b + "x");
    PBT_CHECK(&x == &y, "a singleton with arguments gave two objects");
    PBT_EQ(Arg2<I>::made, 1, "objects made by a singleton with arguments");
    PBT_EQ(x.a, wa, "first argument of a singleton: that of its first use");
    PBT_EQ(x.b, wb, "second argument of a singleton: that of its first use");
    c.nontrivial = threads > 1;
  }
  void single_case(Src &s, Case &c) {
    switch (s.in(0, 5)) {
      case 0: return one_single<0>(s, c);
      case 1: return one_single<1>(s, c);
      case 2: return one_single<2>(s, c);
      case 3: return one_single<3>(s, c);
      case 4: return one_single<4>(s, c);
      default: return one_single<5>(s, c);
    }
  }
} // namespace

// ---- factories: products are known by their type names -----------------------
namespace shapes {
  inline std::vector<std::string> made, gone;
  struct Shape {
    std::string args;
    explicit Shape(std::string a)
        : args(std::move(a)) {}
    virtual ~Shape() {}
    virtual std::string name() const = 0;
  };
#define SHAPE(n)                                                                  \
  struct n : Shape {                                                              \
    n()                                                                           \
        : Shape("none") { made.push_back(#n); }                                   \
    n(int a, std::string const &b)                                                \
        : Shape(std::to_string(a) + "/" + b) { made.push_back(#n); }              \
    ~n() override { gone.push_back(#n); }                                         \
    std::string name() const override { return #n; }                              \
  };
  SHAPE(Dot)
  SHAPE(Rect)
  SHAPE(Rectangle)
  SHAPE(Ellipse)
  SHAPE(Lines)
  using F4 = cmdr::util::factory::factory<Shape, Dot, Rect, Rectangle, Ellipse>;
  using F5 = cmdr::util::factory::factory<Shape, Lines, Rectangle, Rect, Ellipse, Dot>;
  using F1 = cmdr::util::factory::factory<Shape, Rect>;
} // namespace shapes

AWESOME_MAKE_ENUM(Plain, Alpha, Beta, Gamma, Delta)
AWESOME_MAKE_ENUM(Sparse, One = 1, Two, Ten = 10, Eleven, Fifty = 50, Below = 40, Next)
AWESOME_MAKE_ENUM(Lone, Only)
AWESOME_MAKE_ENUM(Neg, Minus = -5, Less, Zero = 0)

namespace {
  template<class F>
  void one_factory(Src &s, Case &c, std::set<std::string> const &has) {
    using namespace shapes;
    static std::vector<std::string> const names{"Dot", "Rect", "Rectangle", "Ellipse", "Lines", "Rec", "rect", "", "Circle", "Dots"};
    std::string base = s.pick(names);
    std::string id = s.chance(1, 6) ? base : "shapes::" + base;
    bool known = id.rfind("shapes::", 0) == 0 && has.count(base);
    int a = s.in(-99, 99);
    std::string b = text(s), want = std::to_string(a) + "/" + b;
    bool bare = s.chance(1, 4);
    int how = s.in(0, 3);
    c.note((how == 0 ? "create " : how == 1 ? "make_shared " : how == 2 ? "make_unique " : "create_naked_ptr ") + pbt::vis(id) + (bare ? "" : " " + pbt::vis(want)));
    if (bare) want = "none";
    made.clear(), gone.clear();
    std::shared_ptr<Shape> p;
    if (how == 0) p = bare ? F::create(id) : F::create(id, a, b);
    if (how == 1) p = bare ? F::make_shared(id) : F::make_shared(id, a, b);
    if (how == 2) p = bare ? F::make_unique(id) : F::make_unique(id, a, b);
    if (how == 3) p.reset(bare ? F::create_naked_ptr(id) : F::create_naked_ptr(id, a, b));
    PBT_EQ(p != nullptr, known, "a product was made for " << pbt::vis(id));
    PBT_EQ(made.size(), std::size_t(known ? 1 : 0), "objects made for " << pbt::vis(id));
    PBT_EQ(gone.size(), std::size_t(0), "objects destroyed while " << pbt::vis(id) << " was made");
    if (known) {
      PBT_EQ(p->name(), base, "class of the product " << pbt::vis(id));
      PBT_EQ(p->args, want, "constructor arguments of the product");
      p.reset();
      PBT_EQ(gone.size(), std::size_t(1), "products destroyed with their owner");
    }
    c.nontrivial = known;
    c.label(known ? "known" : "unknown");
  }
  void factory_case(Src &s, Case &c) {
    switch (s.in(0, 2)) {
      case 0: return one_factory<shapes::F4>(s, c, {"Dot", "Rect", "Rectangle", "Ellipse"});
      case 1: return one_factory<shapes::F5>(s, c, {"Dot", "Rect", "Rectangle", "Ellipse", "Lines"});
      default: return one_factory<shapes::F1>(s, c, {"Rect"});
    }
  }

  // ---- values -----------------------------------------------------------------
  struct Seen {
    std::vector<std::string> *log;
    void operator()(int v) { log->push_back("int " + std::to_string(v)); }
    void operator()(long v) { log->push_back("long " + std::to_string(v)); }
    void operator()(bool v) { log->push_back(std::string("bool ") + (v ? "1" : "0")); }
    void operator()(double v) { log->push_back("double " + std::to_string(v)); }
    void operator()(std::string const &v) { log->push_back("string " + v); }
    void operator()(char const *v) { log->push_back(std::string("chars ") + v); }
  };
  void any_case(Src &s, Case &c) {
    std::any a;
    std::string want;
    int kind = s.in(0, 6);
    std::string t = text(s);
    switch (kind) {
      case 0: a = (int) s.in(-99, 99); want = "int " + std::to_string(std::any_cast<int>(a)); break;
      case 1: a = value(s); want = "long " + std::to_string(std::any_cast<long>(a)); break;
      case 2: a = s.coin(); want = std::string("bool ") + (std::any_cast<bool>(a) ? "1" : "0"); break;
      case 3: a = s.in(-99, 99) / 4.0; want = "double " + std::to_string(std::any_cast<double>(a)); break;
      case 4: a = t; want = "string " + t; break;
      case 5: a = t.c_str(); want = "chars " + t; break;
      default: break; // empty
    }
    std::vector<std::string> log;
    bool threw = false, all = s.coin();
    c.note("visit_any_as, an any with kind " + std::to_string(kind) + (all ? ", all types" : ", three types"));
    bool has = kind <= 5 && (all || kind == 0 || kind == 4 || kind == 3);
    try {
      if (all) U::visit_any_as<int, long, bool, double, std::string, char const *>(a, Seen{&log});
      else U::visit_any_as<std::string, double, int>(a, Seen{&log});
    } catch (std::exception const &) {
      threw = true;
    }
    PBT_EQ(threw, !has, "visit_any_as throws for a value of no listed type");
    PBT_EQ(log.size(), std::size_t(has ? 1 : 0), "visits of one value");
    if (has) PBT_EQ(log[0], want, "the visited value");
    c.nontrivial = has;
  }

  template<class V>
  std::string listed(V const &v) {
    std::ostringstream o;
    o << "[";
    bool first = true;
    for (auto const &x: v) {
      if (!first) o << ",";
      first = false;
      o << x;
    }
    o << "]";
    return o.str();
  }
  template<class X>
  std::string printed(X const &x, std::string &stray) {
    std::ostringstream o, out;
    auto *old = std::cout.rdbuf(out.rdbuf());
    o << x;
    std::cout.rdbuf(old);
    stray = out.str();
    return o.str();
  }
  template<class E>
  std::string enum_text(E e) {
    std::ostringstream o;
    o << e;
    return o.str();
  }
  void value_case(Src &s, Case &c) {
    std::string stray = "", got, want;
    switch (s.in(0, 6)) {
      case 0: { // vectors and lists
        std::vector<int> v((std::size_t) s.in(0, 6));
        for (auto &x: v) x = (int) s.in(-99, 99);
        c.note("print a container of " + std::to_string(v.size()));
        c.nontrivial = v.size() > 1;
        want = listed(v);
        got = printed(v, stray);
        PBT_EQ(printed(std::list<int>(v.begin(), v.end()), stray), want, "a printed list");
        std::vector<std::string> w;
        for (auto x: v) w.push_back(text(s) + std::to_string(x));
        PBT_EQ(printed(w, stray), listed(w), "a printed vector of strings");
        PBT_EQ(detail::vector_to_string(w), listed(w), "vector_to_string");
        break;
      }
      case 1: { // tuples
        std::string t = text(s);
        long a = value(s);
        double d = s.in(-999, 999) / 8.0;
        c.note("print a tuple " + std::to_string(a) + " " + pbt::vis(t));
        c.nontrivial = true;
        std::ostringstream o;
        int n = s.in(0, 3);
        if (n == 0) want = "()", got = printed(std::make_tuple(), stray);
        if (n == 1) o << "(" << a << ")", want = o.str(), got = printed(std::make_tuple(a), stray);
        if (n == 2) o << "(" << t << ", " << d << ")", want = o.str(), got = printed(std::make_tuple(t, d), stray);
        if (n == 3) o << "(" << a << ", " << t << ", " << d << ")", want = o.str(), got = printed(std::make_tuple(a, t, d), stray);
        break;
      }
      case 2: { // enumerations
        c.note("enumerations");
        c.nontrivial = true;
        static std::vector<std::pair<int, char const *>> const sp{{1, "One"}, {2, "Two"}, {10, "Ten"}, {11, "Eleven"}, {50, "Fifty"}, {40, "Below"}, {41, "Next"}};
        static char const *const pl[] = {"Alpha", "Beta", "Gamma", "Delta"};
        auto const &p = s.pick(sp);
        PBT_EQ(enum_text((Sparse) p.first), std::string("Sparse::") + p.second, "the name of value " << p.first);
        int i = (int) s.in(0, 3);
        PBT_EQ(enum_text((Plain) i), std::string("Plain::") + pl[i], "the name of value " << i);
        PBT_EQ(enum_text(Lone::Only), "Lone::Only", "the name of the only value");
        PBT_EQ(enum_text(Neg::Minus) + enum_text(Neg::Less) + enum_text(Neg::Zero), "Neg::MinusNeg::LessNeg::Zero", "names of negative values");
        return;
      }
      case 3: { // is_in
        int x = (int) s.in(0, 5), v[4];
        for (auto &y: v) y = (int) s.in(0, 5);
        int n = s.in(0, 4);
        bool w = false;
        for (int i = 0; i < n; i++) w = w || v[i] == x;
        c.note("is_in " + std::to_string(n));
        bool g = n == 0 ? U::is_in(x) : n == 1 ? U::is_in(x, v[0]) : n == 2 ? U::is_in(x, v[0], v[1]) : n == 3 ? U::is_in(x, v[0], v[1], v[2]) : U::is_in(x, v[0], v[1], v[2], v[3]);
        PBT_EQ(g, w, "is_in(" << x << ") among " << n << " values");
        std::string t = s.str("ab", 0, 2), p = s.str("ab", 0, 2), q = s.str("ab", 0, 2);
        PBT_EQ(U::is_in(t, p.c_str(), q), t == p || t == q, "is_in(" << t << ") among " << p << " and " << q);
        c.nontrivial = n > 1;
        return;
      }
      case 4: { // vectors of C strings are compared by text
        std::vector<std::string> x, y;
        int n = s.in(0, 4);
        for (int i = 0; i < n; i++) x.push_back(s.str("ab", 0, 3));
        y = x;
        int change = s.in(0, 3);
        if (change == 1 && n) y[(std::size_t) s.in(0, n - 1)] = s.str("ab", 0, 3);
        if (change == 2) y.push_back(s.str("ab", 0, 2));
        if (change == 3 && n) y.pop_back();
        std::vector<char const *> px, py;
        for (auto const &e: x) px.push_back(e.c_str());
        for (auto const &e: y) py.push_back(e.c_str());
        c.note("compare " + listed(x) + " " + listed(y));
        PBT_EQ(U::compare_vector_values(px, py), x == y, "compare_vector_values of " << listed(x) << " and " << listed(y));
        PBT_EQ(U::compare_vector_values(py, px), x == y, "compare_vector_values of " << listed(y) << " and " << listed(x));
        c.nontrivial = n > 0;
        return;
      }
      case 5: { // combined hashes
        std::size_t seed = (std::size_t) s.bits64(), h1 = seed, h2 = seed, h3 = seed, step = seed;
        long a = value(s), z = value(s);
        std::string t = text(s);
        c.note("hash_combine");
        c.nontrivial = true;
        std::hash_combine(h1, t, a);
        std::hash_combine(h2, std::string(t.c_str(), t.size()), a);
        PBT_EQ(h1, h2, "combined hashes of equal values");
        std::hash_combine(step, t), std::hash_combine(step, a);
        PBT_EQ(step, h1, "hashes combined at once or one after the other");
        std::hash_combine(h3, t, z);
        PBT_EQ(h3 == h1, z == a, "combined hashes are equal exactly if the last values are");
        return;
      }
      default: { // owners
        live = 0;
        {
          std::string t = text(s);
          c.note("owners");
          c.nontrivial = true;
          auto u = std::to_unique(new Tr(t));
          Tr *raw = u.get();
          auto u2 = std::to_unique(std::move(u));
          PBT_CHECK(!u && u2.get() == raw, "to_unique moves the object to its new owner");
          auto sh = std::to_shared(std::move(u2));
          PBT_CHECK(!u2 && sh.get() == raw && sh.use_count() == 1, "to_shared moves the object to its new owner");
          auto sh2 = std::to_shared(sh);
          PBT_CHECK(sh2 == sh && sh.use_count() == 2, "to_shared of a shared pointer shares the object");
          auto sh3 = std::to_shared(new Tr(t + "x"));
          PBT_EQ(sh2->text() + sh3->text(), t + t + "x", "objects of the owners");
          PBT_EQ(live, 2, "objects alive");
        }
        PBT_EQ(live, 0, "objects alive without owners");
        return;
      }
    }
    PBT_EQ(got, want, "what was printed");
    PBT_EQ(stray, "", "text sent to the standard output instead of the given stream");
  }

  static pbt::Reg r1({"L01", "wrap", "something bound before the call", 180000, 720000, wrap_case, 200});
  static pbt::Reg r2({"L01", "defer", "three or more things run", 120000, 480000, defer_case, 200});
  static pbt::Reg r3({"L01", "single", "several threads", 1500, 6000, single_case, 6});
  static pbt::Reg r4({"L01", "factory", "a known product", 90000, 360000, factory_case, 200});
  static pbt::Reg r5({"L01", "any", "a listed type", 60000, 240000, any_case, 200});
  static pbt::Reg r6({"L01", "value", "two or more elements", 120000, 480000, value_case, 200});
} // namespace

PBT_MAIN()
