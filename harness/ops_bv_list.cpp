// edgelist views of edge lists: containers of tuples, pairs, edge_data and edge-list descriptors.
#include "viewutil.hpp"

#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
#include <graph/views/edgelist.hpp>

#include <deque>
#include <forward_list>
#include <optional>

namespace {
using namespace sim;
namespace gv = graph::views;

struct Own { // an edge type of the caller's, through members
  int source_id = 0, target_id = 0, value = 0;
};
using Tup  = std::tuple<int, int, int>;
using Two  = std::pair<int, int>;
using Data = graph::edge_data<int, true, void, int>;
using Bare = graph::edge_data<int, true, void, void>;
using Desc = graph::edge_list::edge_descriptor<int, int>;
using Ref  = graph::edge_list::edge_descriptor<int, void>;

struct Item {
  long s = -1, t = -1, es = -1, et = -1, w = -1, val = -1;
  bool operator==(const Item&) const = default;
};

struct Plan {
  int  passes = 1, mode = 0, at = 0;
  bool valued = false, copy = false, post = false;
};

template <class EL>
struct Call {
  static constexpr bool HASW = graph::edge_list::has_edge_value<EL>;

  EL&                            el;
  const std::vector<Tup>&        model;
  const Plan&                    p;
  std::vector<std::vector<Item>> got;
  bool                           sized = false, prefix = false, skipped = false, runaway = false, uneven = false;
  size_t                         size = 0;
  int                            calls = 0, reads = 0;
  Call(EL& l, const std::vector<Tup>& m, const Plan& q) : el(l), model(m), p(q) {}

  template <class X>
  Item item(const X& x) {
    Env  e;
    Item r;
    r.s = x.source_id, r.t = x.target_id;
    r.es = graph::source_id(el, x.edge), r.et = graph::target_id(el, x.edge);
    if constexpr (HASW)
      r.w = graph::edge_value(el, x.edge);
    if constexpr (requires { x.value; })
      r.val = x.value;
    ++reads;
    ev(0x340, static_cast<uint64_t>(r.s), static_cast<uint64_t>(r.t));
    return r;
  }
  void put(size_t k, const Item& x) {
    Env e;
    if (got.size() <= k)
      got.resize(k + 1);
    got[k].push_back(x);
    runaway = got[k].size() > 4096 + 2 * model.size();
  }
  template <class V>
  void iterate(V& view) {
    Retry retry;
    auto  read_step = [&](auto& it) {
      auto x = item(retry([&] {
        return *it;
      }));
      if (p.post)
        it++;
      else
        ++it;
      return x;
    };
    if constexpr (requires { view.size(); }) {
      sized = true;
      size  = view.size();
    }
    const size_t k = p.mode == 1 ? 2 : p.mode == 0 ? static_cast<size_t>(p.passes) : 1;
    {
      Env e;
      got.resize(k);
    }
    switch (p.mode) {
    case 0:
      for (size_t i = 0; i < k; ++i)
        for (auto it = view.begin(); it != view.end() && !runaway;) {
          put(i, read_step(it));
          sim::yield();
        }
      break;
    case 1: {
      auto a = view.begin(), b = view.begin();
      while (!runaway) {
        bool ea = a == view.end(), eb = b == view.end();
        if (ea && eb)
          break;
        if ((a == b) != (got[0].size() == got[1].size()))
          uneven = true;
        bool first = eb || (!ea && (model.size() > 200 ? reads * 7 / 5 % 2 == 0 : draw(2) == 0));
        put(first ? 0 : 1, read_step(first ? a : b));
        sim::yield();
      }
      break;
    }
    case 2:
      for (auto&& x : view) {
        put(0, item(x));
        if (runaway)
          break;
      }
      break;
    default:
      if constexpr (std::ranges::viewable_range<V&> && std::ranges::view<V> && std::ranges::input_range<V>) {
        prefix = true;
        for (auto&& x : view | std::views::take(p.at))
          put(0, item(x));
      } else
        skipped = true;
    }
    retry.rethrow();
  }
  template <class V>
  void use(V&& v) {
    if (p.copy) {
      std::optional<std::remove_reference_t<V>> a(std::in_place, std::move(v));
      auto                                      b(*a);
      a.reset();
      iterate(b);
    } else
      iterate(v);
  }
  struct Value {
    Call* c = nullptr;
    template <class X>
    long operator()(EL& l, const X& x) const {
      Callback cb;
      ++c->calls;
      return graph::source_id(l, x) * 1000L + graph::target_id(l, x);
    }
  };
  void invoke() {
    if (p.valued)
      use(gv::edgelist(el, Value{this}));
    else
      use(gv::edgelist(el));
  }
  void verify(const Outcome& o) {
    if (o.threw())
      return fail("unexpected-exception", "the edgelist view of an edge list threw %s %s", what_name[o.what], o.msg.c_str());
    if (skipped)
      return;
    if (uneven)
      return fail("iteration", "two iterators of an edge list's view compare equal exactly when they should not");
    if (runaway)
      return fail("iteration", "the edgelist view of an edge list doesn't end");
    if (calls != (p.valued ? reads : 0))
      return fail("value-function", "the edgelist view of an edge list called the value function %d times for %d elements", calls, reads);
    std::vector<Item> want;
    for (auto& [s, t, w] : model) {
      Item x;
      x.s = x.es = s, x.t = x.et = t;
      if (HASW)
        x.w = w;
      if (p.valued)
        x.val = s * 1000L + t;
      want.push_back(x);
    }
    if (sized && size != want.size())
      return fail("size", "the edgelist view of an edge list has size %zu with %zu edges", size, want.size());
    if (prefix)
      want.resize(std::min(want.size(), static_cast<size_t>(p.at)));
    for (auto& g : got)
      if (g != want)
        return fail("elements", "the edgelist view of an edge list yields %zu elements that aren't the list's %zu", g.size(), want.size());
  }
};

template <class EL>
void run(EL& el, const std::vector<Tup>& model) {
  Plan p;
  p.passes = range(1, 3);
  p.mode   = static_cast<int>(draw(4));
  p.at     = static_cast<int>(draw(8));
  p.valued = draw(2);
  p.copy   = chance(1, 3);
  p.post   = chance(1, 3);
  using C  = Call<EL>;
  drive("edgelist view of an edge list", [&] { return std::make_unique<C>(el, model, p); });
}

template <class C, class F>
void with(const std::vector<Tup>& model, F make, bool is_const) {
  std::unique_ptr<C> c;
  {
    Env e;
    c = std::make_unique<C>();
    auto at = c->begin();
    if constexpr (requires { c->before_begin(); }) {
      auto b = c->before_begin();
      for (auto& t : model)
        b = c->insert_after(b, make(t));
    } else
      for (auto& t : model)
        c->push_back(make(t));
    (void)at;
  }
  if (is_const)
    run(std::as_const(*c), model);
  else
    run(*c, model);
  Env e;
  c.reset();
}
} // namespace

OP("edgelist view of an edge list", 3, ANY) {
  std::unique_ptr<std::vector<Tup>> model;
  {
    Env e;
    model = std::make_unique<std::vector<Tup>>();
    for (size_t u = 0; u < static_cast<size_t>(w.m.n); ++u)
      for (auto& a : w.m.out[u])
        model->push_back({static_cast<int>(u), a.to, a.w});
  }
  bool c = draw(2);
  switch (draw(8)) {
  case 0: with<std::vector<Tup>>(*model, [](const Tup& t) { return t; }, c); break;
  case 1: with<std::deque<Tup>>(*model, [](const Tup& t) { return t; }, c); break;
  case 2: with<std::forward_list<Tup>>(*model, [](const Tup& t) { return t; }, c); break;
  case 3: with<std::deque<Two>>(*model, [](const Tup& t) { return Two{std::get<0>(t), std::get<1>(t)}; }, c); break;
  case 4: with<std::vector<Data>>(*model, [](const Tup& t) { return Data{std::get<0>(t), std::get<1>(t), std::get<2>(t)}; }, c); break;
  case 5: with<std::vector<Bare>>(*model, [](const Tup& t) { return Bare{std::get<0>(t), std::get<1>(t)}; }, c); break;
  case 6: with<std::vector<Own>>(*model, [](const Tup& t) { return Own{std::get<0>(t), std::get<1>(t), std::get<2>(t)}; }, c); break;
  default: // descriptors refer to ids and values stored elsewhere: in the model
    if (draw(2))
      with<std::vector<Desc>>(*model, [](const Tup& t) { return Desc{std::get<0>(t), std::get<1>(t), std::get<2>(t)}; }, c);
    else
      with<std::vector<Ref>>(*model, [](const Tup& t) { return Ref{std::get<0>(t), std::get<1>(t)}; }, c);
  }
  Env e;
  model.reset();
}
