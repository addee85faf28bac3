// O01 observers, bound callbacks and signals on one thread: every registered
// listener hears every event exactly once per registration, in order, with the
// values that were emitted.
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "pbt.hh"
#include "cmdr11/cmdr11.hh"

using pbt::Case;
using pbt::Src;

namespace {
  struct Ev {
    int id;
    std::string text;
  };
  using Log = std::vector<std::string>;
  std::string said(std::string const &who, int id, std::string const &text) { return who + ":" + std::to_string(id) + ":" + pbt::vis(text); }
  std::string joined(Log const &l) {
    std::string o;
    for (auto const &s: l) o += (o.empty() ? "" : " ") + s;
    return "[" + o + "]";
  }

  struct Obs : cmdr::util::observer<Ev> {
    std::string name;
    Log *log{};
    void observe(Ev const &e) override { log->push_back(said(name, e.id, e.text)); }
  };

  // -------------------------------------------------------- observable
  template<bool LOCK, bool CNS>
  void observers(Src &s, Case &c) {
    using Subject = cmdr::util::observable<Ev, LOCK, CNS>;
    using Shared  = typename Subject::observer_t_shared;
    using Weak    = typename Subject::observer_t;
    auto subject  = std::make_unique<Subject>();
    Log got, want;
    int const N = 4;
    std::vector<Shared> owner((std::size_t) N);
    std::vector<int> model; // who is registered, in order
    auto fresh = [&](int i) {
      auto o                 = std::make_shared<Obs>();
      o->name                = std::string(1, (char) ('a' + i));
      o->log                 = &got;
      owner[(std::size_t) i] = o;
    };
    for (int i = 0; i < N; i++) fresh(i);
    std::string text;
    int ev = 0, heard = 0, gone = 0, removed = 0;
    auto emit = [&](Subject &sub) {
      Ev e{++ev, s.str("xyz ", 0, 4)};
      text += "!" + std::to_string(e.id) + " ";
      for (int i: model) want.push_back(said(std::string(1, (char) ('a' + i)), e.id, e.text));
      heard += (int) model.size();
      sub.emit(e);
    };
    auto add = [&](int i) {
      auto &o = owner[(std::size_t) i];
      switch (s.in(0, 5)) {
        case 0: subject->add_observer(o); break;
        case 1: subject->add_observer(Weak(o)); break;
        case 2: *subject += o; break;
        case 3: *subject += Weak(o); break;
        case 4: *subject + o; break;
        default: *subject + Weak(o); break;
      }
      model.push_back(i);
      text += "+" + std::string(1, (char) ('a' + i)) + " ";
    };
    auto drop = [&](int i) { model.erase(std::remove(model.begin(), model.end(), i), model.end()); };
    auto remove = [&](int i) {
      auto &o = owner[(std::size_t) i];
      removed += (int) std::count(model.begin(), model.end(), i);
      switch (s.in(0, 5)) {
        case 0: subject->remove_observer(o); break;
        case 1: subject->remove_observer(o.get()); break;
        case 2: *subject -= o; break;
        case 3: *subject -= o.get(); break;
        case 4: *subject - o; break;
        default: *subject - o.get(); break;
      }
      drop(i);
      text += "-" + std::string(1, (char) ('a' + i)) + " ";
    };
    for (auto n = s.in(2, s.chance(1, 25) ? 120 : 14); n > 0; n--) {
      int i = (int) s.in(0, N - 1);
      switch (s.in(0, 6)) {
        case 0:
        case 1: add(i); break;
        case 2: remove(i); break;
        case 3: // the owner lets go of it: nobody is there to hear
          gone += (int) std::count(model.begin(), model.end(), i);
          fresh(i);
          drop(i);
          text += "~" + std::string(1, (char) ('a' + i)) + " ";
          break;
        case 4: { // for the length of a scope (the end takes every registration of it away)
          cmdr::util::registerer<Ev, LOCK, CNS> reg(*subject, owner[(std::size_t) i]);
          text += "{" + std::string(1, (char) ('a' + i)) + " ";
          model.push_back(i);
          emit(*subject);
          if (s.coin()) add(i), emit(*subject);
          drop(i);
          text += "} ";
          break;
        }
        default: emit(*subject); break;
      }
    }
    emit(*subject);
    c.note(std::string(LOCK ? "locked" : "unlocked") + (CNS ? "-cns " : " ") + text);
    if (LOCK) c.label("locking");
    if (gone) c.label("expired");
    if (removed) c.label("removed");
    if (removed > 1) c.label("removed-several");
    if (heard && (gone || removed)) c.nontrivial = true;
    PBT_CHECK(got == want, text << ": observers heard " << joined(got) << ", want " << joined(want));
  }
  void observable(Src &s, Case &c) {
    switch (s.in(0, 3)) {
      case 0: observers<true, true>(s, c); break;
      case 1: observers<true, false>(s, c); break;
      case 2: observers<false, true>(s, c); break;
      default: observers<false, false>(s, c); break;
    }
  }

  // -------------------------------------------------- bound callbacks
  struct Sink {
    Log *log{};
    std::string name;
    void one(Ev const &e) { log->push_back(said(name, e.id, e.text)); }
    void two(int tag, Ev const &e) { log->push_back(said(name + std::to_string(tag), e.id, e.text)); }
    void three(int tag, std::string const &more, Ev const &e) const { log->push_back(said(name + std::to_string(tag) + more, e.id, e.text)); }
  };
  Log *free_log = nullptr;
  void free_fn(Ev const &e) { free_log->push_back(said("free", e.id, e.text)); }
  void free_with(std::string const &w, Ev const &e) { free_log->push_back(said("free" + w, e.id, e.text)); }

  void bindable(Src &s, Case &c) {
    cmdr::util::observable_bindable<Ev> subject;
    Log got, want;
    free_log = &got;
    Sink a{&got, "A"}, b{&got, "B"};
    std::vector<std::string> names;
    std::string text;
    int emitted = 0, args = 0;
    for (auto n = s.in(1, s.chance(1, 25) ? 80 : 10); n > 0; n--) {
      int tag       = (int) s.in(0, 99);
      auto more     = s.str("pq", 0, 3);
      Sink *p       = s.coin() ? &a : &b;
      bool on       = s.coin();
      std::string t = std::to_string(tag);
      auto lam      = [&got, t](Ev const &e) { got.push_back(said("L" + t, e.id, e.text)); };
      switch (s.in(0, 7)) {
        case 0:
          on ? subject.on(lam) : subject.add_callback(lam);
          names.push_back("L" + t);
          break;
        case 1:
          on ? subject.on(free_fn) : subject.add_callback(free_fn);
          names.push_back("free");
          break;
        case 2:
          on ? subject.on(free_with, more) : subject.add_callback(free_with, more);
          names.push_back("free" + more);
          more = "changed later";
          args++;
          break;
        case 3:
          on ? subject.on(&Sink::one, p) : subject.add_callback(&Sink::one, p);
          names.push_back(p->name);
          break;
        case 4:
          on ? subject.on(&Sink::two, p, tag) : subject.add_callback(&Sink::two, p, tag);
          names.push_back(p->name + t);
          args++;
          break;
        case 5:
          on ? subject.on(&Sink::three, p, tag, more) : subject.add_callback(&Sink::three, p, tag, more);
          names.push_back(p->name + t + more);
          args++;
          break;
        default: {
          Ev e{++emitted, s.str("xyz ", 0, 4)};
          for (auto const &w: names) want.push_back(said(w, e.id, e.text));
          subject.emit(e);
          text += "! ";
          continue;
        }
      }
      text += names.back() + " ";
    }
    Ev e{++emitted, s.str("xyz ", 0, 20)};
    for (auto const &w: names) want.push_back(said(w, e.id, e.text));
    subject.emit(e);
    c.note("bindable " + text);
    c.label("bindable");
    if (names.size() > 1 && args) c.nontrivial = true;
    PBT_CHECK(got == want, text << ": callbacks heard " << joined(got) << ", want " << joined(want));
  }

  // ------------------------------------------------------------ signals
  std::string told(std::string const &who, int n, std::string const &t, std::vector<int> const &v) {
    std::string o = who + ":" + std::to_string(n) + ":" + pbt::vis(t) + ":";
    for (int i: v) o += std::to_string(i) + ",";
    return o;
  }
  using V = std::vector<int>;
  struct Slot {
    Log *log{};
    std::string name;
    void values(int n, std::string t, V v) {
      auto mine = std::move(t);
      auto mv   = std::move(v);
      log->push_back(told(name + "v", n, mine, mv));
    }
    void refs(int const &n, std::string const &t, V const &v) const { log->push_back(told(name + "r", n, t, v)); }
    void takes(int n, std::string &&t, V &&v) {
      std::string mine(std::move(t));
      V mv(std::move(v));
      log->push_back(told(name + "t", n, mine, mv));
      t = "spoilt";
      v = {-1};
    }
    void first(int n) { log->push_back(name + "f:" + std::to_string(n)); }
  };
  Log *slot_log = nullptr;
  void slot_fn(int n, std::string t, V v) { slot_log->push_back(told("free", n, t, v)); }

  void signals(Src &s, Case &c) {
    cmdr::util::signal<int, std::string, V> sig;
    cmdr::util::signal<int> one;
    cmdr::util::signal<> none;
    Log got, want;
    slot_log = &got;
    Slot a{&got, "A"}, b{&got, "B"};
    std::vector<std::string> slots, ones, nones;
    std::string text;
    auto emit = [&] {
      int n         = (int) s.integer(-1000, 1000);
      std::string t = s.str("abc ", 0, s.coin() ? 3 : 40);
      V v;
      for (auto k = s.in(0, 4); k > 0; k--) v.push_back((int) s.in(0, 9));
      for (auto const &w: slots) want.push_back(told(w, n, t, v));
      std::string t1 = t;
      V v1           = v;
      int n1         = n;
      sig.emit(std::move(n1), std::move(t1), std::move(v1));
      for (auto const &w: ones) want.push_back(w + ":" + std::to_string(n));
      n1 = n;
      one.emit(std::move(n1));
      for (auto const &w: nones) want.push_back(w);
      none.emit();
      if (s.chance(1, 4)) { // a signal without values can be called
        for (auto const &w: nones) want.push_back(w);
        none();
      }
      text += "! ";
    };
    for (auto n = s.in(1, s.chance(1, 25) ? 80 : 9); n > 0; n--) {
      Slot *p     = s.coin() ? &a : &b;
      bool on     = s.coin();
      auto nm     = std::string("L") + std::to_string(s.in(0, 9));
      auto byval  = [&got, nm](int n_, std::string t, V v) { auto m = std::move(t); auto w = std::move(v); got.push_back(told(nm, n_, m, w)); };
      auto byref  = [&got, nm](int const &n_, std::string const &t, V const &v) { got.push_back(told(nm, n_, t, v)); };
      auto bytake = [&got, nm](int &&n_, std::string &&t, V &&v) { auto m = std::move(t); auto w = std::move(v); got.push_back(told(nm, n_, m, w)); t = "spoilt"; n_ = -1; };
      switch (s.in(0, 9)) {
        case 0: on ? sig.on(byval) : sig.connect(byval); slots.push_back(nm); break;
        case 1: on ? sig.on(byref) : sig.connect(byref); slots.push_back(nm); break;
        case 2: on ? sig.on(bytake) : sig.connect(bytake); slots.push_back(nm); break;
        case 3: on ? sig.on(slot_fn) : sig.connect(slot_fn); slots.push_back("free"); break;
        case 4: on ? sig.on(&Slot::values, p) : sig.connect(&Slot::values, p); slots.push_back(p->name + "v"); break;
        case 5: on ? sig.on(&Slot::refs, p) : sig.connect(&Slot::refs, p); slots.push_back(p->name + "r"); break;
        case 6: on ? sig.on(&Slot::takes, p) : sig.connect(&Slot::takes, p); slots.push_back(p->name + "t"); break;
        case 7: on ? one.on(&Slot::first, p) : one.connect(&Slot::first, p); ones.push_back(p->name + "f"); break;
        case 8: {
          auto l = [&got, nm] { got.push_back(nm); };
          on ? none.on(l) : none.connect(l);
          nones.push_back(nm);
          break;
        }
        default: emit(); break;
      }
    }
    emit();
    std::string all;
    for (auto const &w: slots) all += w + " ";
    c.note("signal " + all + "/ " + text);
    c.label("signal");
    if (slots.size() > 1) {
      c.nontrivial = true;
      c.label("signal-several-slots");
    }
    PBT_CHECK(got == want, all << ": slots heard " << joined(got) << ", want " << joined(want));
  }

  pbt::Reg r1({"O01", "observable", "an event is heard after a removal or an expiry", 180000, 720000, observable});
  pbt::Reg r2({"O01", "bindable", "several callbacks, one with arguments of its own", 120000, 480000, bindable});
  pbt::Reg r3({"O01", "signal", "several slots hear the same values", 120000, 480000, signals});
} // namespace
PBT_MAIN()
