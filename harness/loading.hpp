// What the container histories share: rows to load, input ranges that fail, and the fault discipline of an operation.
#pragma once
#include "values.hpp"

#include <algorithm>
#include <memory>
#include <vector>

namespace dyn {
using namespace sim;

extern uint32_t g_fault_rate; // percent of operations run under an armed fault

struct RowE {
  int s, t, val;
};
struct RowV {
  int id, val;
};

// Input ranges of the caller's: every step is a seam that may throw.
template <class T, bool FORWARD>
struct Feed {
  const std::vector<T>* d;
  struct iterator {
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = const T&;
    using pointer           = const T*;
    using iterator_concept  = std::conditional_t<FORWARD, std::forward_iterator_tag, std::input_iterator_tag>;
    using iterator_category = iterator_concept;
    const T*  p             = nullptr;
    const T*  e             = nullptr;
    reference operator*() const { return *p; }
    pointer   operator->() const { return p; }
    iterator& operator++() {
      Callback c(true, K_ITER);
      if (p == e)
        fail("range-overrun", "an input range is advanced past its end");
      else
        ++p;
      return *this;
    }
    iterator operator++(int) {
      auto o = *this;
      ++*this;
      return o;
    }
    bool operator==(const iterator& o) const { return p == o.p; }
  };
  iterator begin() const { return {d->data(), d->data() + d->size()}; }
  iterator end() const { return {d->data() + d->size(), d->data() + d->size()}; }
};

struct DE {
  int u, v, val;
  friend auto operator<=>(const DE&, const DE&) = default;
};
template <class T>
int rd(const T& x) {
  return static_cast<int>(x);
}

struct Result {
  Outcome o;
  bool    hit = false;
  bool    done() const { return o.what == W_NONE; }
};
// One operation, perhaps under an armed fault; without one its outcome must be in `accept`.
template <class F>
Result mutate(const char* name, F&& f, unsigned accept = 1u << W_NONE) {
  Result r;
  bool   armed = chance(g_fault_rate, 100);
  if (armed) {
    Kind k = std::vector<Kind>{K_ALLOC, K_COPY, K_CALLBACK, K_ITER}[draw(4)];
    arm(k, 1 + (chance(1, 2) ? draw(40) : draw(5)));
  }
  r.o = attempt(f);
  if (armed)
    r.hit = disarm();
  trace("  [task %d] %s -> %s %s %s", task_id(), name, what_name[r.o.what], r.o.msg.c_str(), r.hit ? "(fault fired)" : "");
  ev(0x0D1, static_cast<uint64_t>(r.o.what));
  if (r.hit && r.o.what == W_NONE)
    fail("fault-swallowed", "%s returned normally although an operation inside it failed", name);
  else if (r.hit && r.o.what != W_INJECTED)
    fail("fault-replaced", "%s threw %s %s instead of the injected fault", name, what_name[r.o.what], r.o.msg.c_str());
  else if (!r.hit && !(accept >> r.o.what & 1))
    fail("outcome", "%s -> %s %s", name, what_name[r.o.what], r.o.msg.c_str());
  return r;
}
// A machine keeps some graphs of one type and their models; run(ops) is one history.
template <class Machine>
void task(int ops) {
  int64_t live0 = task_live();
  std::make_unique<Machine>()->run(ops);
  if (!failed() && task_live() != live0)
    fail("leak", "%lld allocation(s) are left after all graphs were destroyed", static_cast<long long>(task_live() - live0));
}

struct Combo {
  const char* name;
  void (*run)(int ops);
};
std::vector<Combo>& combos();
struct AddCombo {
  AddCombo(const char* n, void (*f)(int)) { combos().push_back({n, f}); }
};
#define MACHINE(NAME, ...)                                                                                               \
  static ::dyn::AddCombo SIM_CAT(combo_, __COUNTER__)(NAME, [](int ops) { ::dyn::task<__VA_ARGS__>(ops); });

void history(int max_ops); // 1-2 tasks, each with a machine
} // namespace dyn
