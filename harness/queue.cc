// Q01 the priority queue: whatever was pushed comes out exactly once, best
// first and first-come first-served among equals, in every interleaving of
// pushing, popping and looking.
#include <deque>
#include <list>
#include <string>
#include <vector>

#include "pbt.hh"
#include "cmdr11/cmdr11.hh"
#include "cmdr11/cmdr_priority_queue.hh"

using pbt::Case;
using pbt::Src;

namespace {
  struct Item {
    int key{-1};
    int seq{-1};
    std::string pay;
    bool operator==(Item const &o) const { return key == o.key && seq == o.seq && pay == o.pay; }
  };
  std::string show(Item const &i) { return std::to_string(i.key) + "#" + std::to_string(i.seq); }
  std::string show(std::vector<Item> const &v) {
    std::string o;
    for (auto const &i: v) o += (o.empty() ? "" : " ") + show(i);
    return "[" + o + "]";
  }
  // the sign decides, whatever the magnitude
  template<class PT>
  struct ByDifference {
    PT operator()(Item const &a, Item const &b) const { return (PT) (a.key - b.key); }
  };
  struct BySign {
    int operator()(Item const &a, Item const &b) const { return a.key < b.key ? -1 : a.key > b.key ? 1
                                                                                                   : 0; }
  };

  template<class Q, bool REV>
  void play(Src &s, Case &c, std::string const &what) {
    Q q;
    std::vector<Item> model; // in the order they must come out
    auto in = [&](Item const &i) {
      std::size_t at = 0;
      while (at < model.size() && (REV ? model[at].key <= i.key : model[at].key >= i.key)) at++;
      model.insert(model.begin() + (long) at, i);
    };
    int seq = 0, pops = 0, after_pop = 0, ties = 0;
    int range = (int) s.in(1, s.chance(1, 8) ? 1000 : 9);
    std::string text = what + ": ";
    auto look = [&] {
      PBT_EQ(q.size(), model.size(), text << "size()");
      PBT_EQ(q.empty(), model.empty(), text << "empty()");
      std::vector<Item> got;
      if (!model.empty()) {
        PBT_CHECK(q.front() == model[0], text << "front() is " << show(q.front()) << ", want " << show(model[0]));
      }
      switch (s.in(0, 2)) {
        case 0:
          for (auto &it: q) got.push_back(it);
          break;
        case 1:
          for (auto it = q.begin(); it != q.end(); it++) got.push_back(*it);
          break;
        default: {
          for (auto it = q.begin(); it != q.end();) {
            auto was = it;
            PBT_CHECK(was == it++, text << "a copied iterator differs");
            got.push_back({was->key, was->seq, was->pay});
            if (got.size() > model.size()) break;
          }
          break;
        }
      }
      PBT_CHECK(got == model, text << "iterating gives " << show(got) << ", want " << show(model));
      if (s.coin()) {
        std::vector<Item> dumped;
        q.dump([&](typename Q::element *el) { for (auto &it: el->_list) dumped.push_back(it); });
        PBT_CHECK(dumped == model, text << "dump gives " << show(dumped) << ", want " << show(model));
      }
    };
    for (auto n = s.in(1, s.chance(1, 25) ? 300 : 30); n > 0; n--) {
      switch (s.in(0, 6)) {
        case 0:
        case 1:
        case 2: {
          Item i{(int) s.in(0, (std::uint64_t) range), seq++, s.str("ab", 0, 20)};
          if (pops) after_pop++;
          for (auto const &m: model) ties += m.key == i.key;
          in(i);
          if (s.coin()) q.push(i);
          else
            q.push_back(i);
          text += "+" + show(i) + " ";
          break;
        }
        case 3:
        case 4: {
          text += "- ";
          auto got = q.pop();
          if (model.empty()) {
            PBT_CHECK(Q::is_null(got), text << "pop() of an empty queue gives " << show(got));
          } else {
            PBT_CHECK(got == model[0], text << "pop() gives " << show(got) << ", want " << show(model[0]));
            PBT_CHECK(!Q::is_null(got), text << "is_null of an item");
            model.erase(model.begin());
            pops++;
          }
          break;
        }
        case 5:
          text += "x ";
          q.pop_front();
          if (!model.empty()) model.erase(model.begin()), pops++;
          break;
        default: look(); break;
      }
    }
    look();
    bool drain = s.chance(3, 4);
    if (drain) {
      std::vector<Item> got, want = model;
      while (!q.empty() && got.size() <= want.size()) got.push_back(q.pop());
      PBT_CHECK(got == want, text << "draining gives " << show(got) << ", want " << show(want));
      PBT_EQ(q.size(), std::size_t{0}, text << "size() when drained");
    }
    c.note(text);
    c.label(what);
    if (after_pop) c.label("pushed-after-pop");
    if (ties) c.label("ties");
    if (after_pop && ties) c.nontrivial = true;
  }

  using cmdr::queue::priority_queue;
  void queue(Src &s, Case &c) {
    switch (s.in(0, 7)) {
      case 0: play<priority_queue<Item, int, BySign>, false>(s, c, "list"); break;
      case 1: play<priority_queue<Item, int, BySign, std::list<Item>, true>, true>(s, c, "list-reversed"); break;
      case 2: play<priority_queue<Item, int, ByDifference<int>>, false>(s, c, "list-difference"); break;
      case 3: play<priority_queue<Item, int, ByDifference<int>, std::list<Item>, true>, true>(s, c, "list-difference-reversed"); break;
      case 4: play<priority_queue<Item, short, ByDifference<short>, std::deque<Item>>, false>(s, c, "deque"); break;
      case 5: play<priority_queue<Item, short, ByDifference<short>, std::deque<Item>, true>, true>(s, c, "deque-reversed"); break;
      case 6: play<priority_queue<Item, int, BySign, priority_queue<Item, int, BySign>>, false>(s, c, "nested"); break;
      default: play<priority_queue<Item, int, BySign, priority_queue<Item, int, BySign, std::list<Item>, true>, true>, true>(s, c, "nested-reversed"); break;
    }
  }
  pbt::Reg r({"Q01", "queue", "an item is pushed after a pop, and two items rank the same", 160000, 640000, queue});
} // namespace
PBT_MAIN()
