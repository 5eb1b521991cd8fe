// Vertex-list, incidence, neighbour and edge-list views in all their forms: elements against the graph's own ranges
// and the model, repeated, interleaved, copied and chained iteration, sizes, value functions.
#pragma once
#include "viewutil.hpp"

#include <graph/views/adaptors.hpp>
#include <graph/views/basic_views.hpp>

#include <algorithm>
#include <map>
#include <optional>

namespace basicview {
using namespace sim;
namespace ga = graph::adj_list;
namespace gv = graph::views;

// vertices in a map, not an index graph, with ids that need 64 bits
using MAPG = std::map<int64_t, std::vector<std::pair<int64_t, int>>>;
constexpr int64_t STEP = (int64_t(1) << 33) + 1;
template <class G>
constexpr bool IS_MAP = std::is_same_v<std::remove_const_t<G>, MAPG>;
template <class G, class I>
long num(const I& id) { // the model's vertex
  if constexpr (IS_MAP<G>)
    return id % STEP ? -777 : static_cast<long>(id / STEP);
  else
    return static_cast<long>(id);
}
template <class G>
auto key(int u) {
  if constexpr (IS_MAP<G>)
    return static_cast<int64_t>(u) * STEP;
  else
    return static_cast<graph::adj_list::vertex_id_t<G>>(u);
}

enum Fam { VERTEXLIST, INCIDENCE, IN_INCIDENCE, NEIGHBORS, IN_NEIGHBORS, EDGELIST };

enum Mode { PASSES, INTERLEAVE, SPLIT, RANGE_FOR, CHAIN };
struct Plan {
  int  form = 0, u = 0, lo = 0, hi = 0, passes = 1, mode = PASSES, at = 0;
  bool post = false, copy = false, size_known = false;
};

struct Item {
  long id = -1, sid = -1, tid = -1, a = -1, b = -1, w = -1, val = -1;
  bool operator==(const Item&) const = default;
};

template <class G, Fam F>
struct Call {
  static constexpr bool IN   = F == IN_INCIDENCE || F == IN_NEIGHBORS;
  static constexpr bool HASW = !std::is_same_v<std::remove_const_t<G>, VVI>;
  static constexpr bool UAL_EDGES = F == EDGELIST && std::is_same_v<std::remove_const_t<G>, UAL>;

  World&                         w;
  G&                             g;
  size_t                         increments_ = 0;
  const Plan&                    p;
  std::vector<std::vector<Item>> got;
  bool                           basic = false, valued = false, sized = false, empty_known = false, empty = false, used = false, bad_iter = false, uneven = false;
  bool                           prefix = false; // the first pass stops early
  int                            lo = -1, hi = -1;
  size_t                         size = 0;
  int                            calls = 0, reads = 0;
  Call(World& w_, G& g_, const Plan& p_) : w(w_), g(g_), p(p_) {}

  template <class X>
  Item item(const X& x) {
    Env  e;
    Item r;
    if constexpr (requires { x.id; })
      r.id = num<G>(x.id);
    if constexpr (requires { x.source_id; })
      r.sid = num<G>(x.source_id);
    if constexpr (requires { x.target_id; })
      r.tid = num<G>(x.target_id);
    if constexpr (requires { x.vertex; })
      r.a = num<G>(ga::vertex_id(g, x.vertex));
    if constexpr (requires { x.target; })
      r.a = num<G>(ga::vertex_id(g, x.target));
    if constexpr (requires { x.edge; }) {
      r.a = num<G>(ga::source_id(g, x.edge));
      r.b = num<G>(ga::target_id(g, x.edge));
      if constexpr (HASW)
        r.w = static_cast<long>(ga::edge_value(g, x.edge));
    }
    if constexpr (requires { x.value; })
      r.val = x.value;
    ++reads;
    ev(0x330, static_cast<uint64_t>(r.id + r.tid), static_cast<uint64_t>(r.a));
    return r;
  }
  size_t limit = 4096 + 2 * (static_cast<size_t>(w.m.n) + w.m.arc_count());
  void put(size_t k, const Item& x) {
    Env e;
    if (got.size() <= k)
      got.resize(k + 1);
    got[k].push_back(x);
    if (got[k].size() > limit)
      bad_iter = true;
  }

  template <class V>
  void iterate(V& view) {
    Retry retry;
    auto  read = [&](auto& it) {
      return item(retry([&] {
        return *it;
      }));
    };
    auto read_step = [&](auto& it) { // reads and moves on
      if (p.post && !retry.saved) {
        try {
          auto x = *it++;
          return item(x);
        } catch (...) { // it has moved on, but the element wasn't read
          retry.saved = std::current_exception();
          return Item{};
        }
      }
      auto x = read(it);
      ++it;
      return x;
    };
    {
      Env e;
      got.resize(static_cast<size_t>(p.passes));
    }
    if constexpr (requires { view.size(); }) {
      sized = true;
      size  = static_cast<size_t>(view.size());
    }
    if constexpr (std::ranges::view<V> && requires { view.empty(); }) {
      empty_known = true;
      empty       = view.empty();
    }
    switch (p.mode) {
    case INTERLEAVE:
      if (p.passes >= 2) {
        {
          Env e;
          got.resize(2);
        }
        auto a = view.begin(), b = view.begin();
        while (!bad_iter) {
          bool ea = a == view.end(), eb = b == view.end();
          if (ea && eb)
            break;
          if ((a == b) != (got[0].size() == got[1].size())) // iterators are equal at the same element only
            uneven = true;
          bool first = eb || (!ea && pick(w.m, 2, increments_++) == 0);
          put(first ? 0 : 1, read_step(first ? a : b));
          sim::yield();
        }
        break;
      }
      [[fallthrough]];
    case PASSES:
      for (size_t k = 0; k < static_cast<size_t>(p.passes); ++k)
        for (auto it = view.begin(); it != view.end() && !bad_iter;) {
          put(k, read_step(it));
          sim::yield();
        }
      break;
    case SPLIT: { // a copy of the iterator taken midway goes on independently
      int  i = 0;
      auto it = view.begin();
      {
        Env e;
        got.resize(1);
      }
      std::vector<Item> head;
      for (; it != view.end() && i < p.at; ++i) {
        Item x = read_step(it);
        Env  e;
        head.push_back(x);
        got[0].push_back(x);
      }
      auto cp = it;
      if (!(cp == it))
        bad_iter = true;
      while (it != view.end() && !bad_iter) {
        put(0, read_step(it));
        if (cp == it)
          uneven = true;
      }
      {
        Env e;
        got.push_back(head);
      }
      while (cp != view.end() && !bad_iter)
        put(1, read_step(cp));
      if (!(cp == it))
        bad_iter = true;
      Env e;
      head = {};
      head.shrink_to_fit();
      break;
    }
    case RANGE_FOR: {
      Env e0;
      got.resize(1);
    }
      for (auto&& x : view) {
        put(0, item(x));
        sim::yield();
        if (bad_iter)
          break;
      }
      break;
    default: // through the standard library's adaptors
      if constexpr (std::ranges::viewable_range<V&> && std::ranges::view<V> && std::ranges::input_range<V>) {
        {
          Env e;
          got.resize(1);
        }
        prefix = true;
        if constexpr (UAL_EDGES) { // its size is a known finding that would stop the adaptor early
          for (auto&& x : std::ranges::subrange(view.begin(), view.end()) | std::views::take(p.at))
            put(0, item(x));
        } else
          for (auto&& x : view | std::views::take(p.at))
            put(0, item(x));
      } else {
        Env e;
        got.clear();
        used = false;
      }
    }
    retry.rethrow();
  }

  template <class V>
  void use(V&& v, bool basic_, bool valued_, int lo_ = -1, int hi_ = -1) {
    basic = basic_, valued = valued_, lo = lo_, hi = hi_, used = true;
    if (p.copy) {
      std::optional<std::remove_reference_t<V>> a(std::in_place, std::move(v));
      auto                                      b(*a); // outlives the one it is a copy of
      a.reset();
      iterate(b);
    } else
      iterate(v);
  }

  // A value function that can be default constructed and assigned, as views need
  struct Value {
    Call* c = nullptr;
    template <class X>
    long operator()(const G& gg, const X& x) const {
      Callback cb;
      ++c->calls;
      auto& mg = const_cast<G&>(gg);
      if constexpr (F == VERTEXLIST || F == NEIGHBORS || F == IN_NEIGHBORS)
        return num<G>(ga::vertex_id(mg, x)) * 5 + 2;
      else
        return num<G>(ga::source_id(mg, x)) * 1000 + num<G>(ga::target_id(mg, x)) * 3 + 1;
    }
  };

  void invoke() {
    Value vf{this};
    constexpr bool INDEX = ga::index_adjacency_list<G>;
    using Id             = ga::vertex_id_t<G>;
    [[maybe_unused]] Id uid = key<G>(p.u);
    if constexpr (F == VERTEXLIST) {
      if constexpr (INDEX) {
        Id a = static_cast<Id>(p.lo), b = static_cast<Id>(p.hi);
        switch (p.form) {
        case 0: return use(gv::vertexlist(g, *ga::find_vertex(g, a), *ga::find_vertex(g, b)), false, false, p.lo, p.hi);
        case 1: return use(gv::vertexlist(g, *ga::find_vertex(g, a), *ga::find_vertex(g, b), vf), false, true, p.lo, p.hi);
        case 2: return use(g | gv::adaptors::vertexlist(), false, false);
        case 3: return use(g | gv::adaptors::vertexlist(vf), false, true);
        case 4: return use(gv::basic_vertexlist(g, a, b), true, false, p.lo, p.hi);
        case 5: return use(gv::basic_vertexlist(g, a, b, vf), true, true, p.lo, p.hi);
        case 6: return use(g | gv::adaptors::basic_vertexlist(), true, false);
        case 7: return use(g | gv::adaptors::basic_vertexlist(vf), true, true);
        default:;
        }
      }
      switch (p.form % 12) {
      case 0: return use(gv::vertexlist(g), false, false);
      case 1: return use(gv::vertexlist(g, vf), false, true);
      case 2: return use(gv::vertexlist(g, ga::vertices(g)), false, false);
      case 3: return use(gv::vertexlist(g, ga::vertices(g), vf), false, true);
      case 4: return use(gv::adaptors::vertexlist(g), false, false);
      case 5: return use(gv::adaptors::vertexlist(g, vf), false, true);
      case 6: return use(gv::basic_vertexlist(g), true, false);
      case 7: return use(gv::basic_vertexlist(g, vf), true, true);
      case 8: return use(gv::basic_vertexlist(g, ga::vertices(g)), true, false);
      case 9: return use(gv::basic_vertexlist(g, ga::vertices(g), vf), true, true);
      case 10: return use(gv::adaptors::basic_vertexlist(g), true, false);
      default: return use(gv::adaptors::basic_vertexlist(g, vf), true, true);
      }
    } else if constexpr (F == EDGELIST) {
      if constexpr (INDEX)
        switch (p.form) {
        case 0: return use(g | gv::adaptors::edgelist(), false, false);
        case 1: return use(g | gv::adaptors::edgelist(vf), false, true);
        case 2: return use(g | gv::adaptors::basic_edgelist(), true, false);
        case 3: return use(g | gv::adaptors::basic_edgelist(vf), true, true);
        default:;
        }
      switch (p.form % 8) {
      case 0: return use(gv::edgelist(g), false, false);
      case 1: return use(gv::edgelist(g, vf), false, true);
      case 2: return use(gv::basic_edgelist(g), true, false);
      case 3: return use(gv::basic_edgelist(g, vf), true, true);
      case 4: return use(gv::adaptors::edgelist(g), false, false);
      case 5: return use(gv::adaptors::edgelist(g, vf), false, true);
      case 6: return use(gv::adaptors::basic_edgelist(g), true, false);
      default: return use(gv::adaptors::basic_edgelist(g, vf), true, true);
      }
    } else {
      auto u = *ga::find_vertex(g, uid);
#define BV_FORMS(FULL, BASIC)                                                                                          \
  if constexpr (INDEX)                                                                                                 \
    switch (p.form) {                                                                                                  \
    case 0: return use(g | gv::adaptors::FULL(uid), false, false);                                                     \
    case 1: return use(g | gv::adaptors::FULL(uid, vf), false, true);                                                  \
    case 2: return use(g | gv::adaptors::BASIC(uid), true, false);                                                     \
    case 3: return use(g | gv::adaptors::BASIC(uid, vf), true, true);                                                  \
    case 4: return use(gv::adaptors::FULL(g, uid), false, false);                                                      \
    case 5: return use(gv::adaptors::FULL(g, uid, vf), false, true);                                                   \
    case 6: return use(gv::adaptors::BASIC(g, uid), true, false);                                                      \
    case 7: return use(gv::adaptors::BASIC(g, uid, vf), true, true);                                                   \
    case 8: return use(gv::FULL(g, uid), false, false);                                                                \
    case 9: return use(gv::FULL(g, uid, vf), false, true);                                                             \
    case 10: return use(gv::BASIC(g, uid), true, false);                                                               \
    case 11: return use(gv::BASIC(g, uid, vf), true, true);                                                            \
    default:;                                                                                                          \
    }                                                                                                                  \
  if (p.form % 2)                                                                                                      \
    return use(gv::FULL(g, u, vf), false, true);                                                                       \
  return use(gv::FULL(g, u), false, false);
      if constexpr (F == INCIDENCE) {
        if constexpr (INDEX)
          switch (p.form) {
          case 20: return use(gv::out_incidence(g, u), false, false);
          case 21: return use(gv::out_incidence(g, u, vf), false, true);
          case 22: return use(gv::out_incidence(g, uid), false, false);
          case 23: return use(gv::out_incidence(g, uid, vf), false, true);
          case 24: return use(gv::basic_out_incidence(g, uid), true, false);
          case 25: return use(gv::basic_out_incidence(g, uid, vf), true, true);
          default:;
          }
        BV_FORMS(incidence, basic_incidence)
      } else if constexpr (F == NEIGHBORS) {
        if constexpr (INDEX)
          switch (p.form) {
          case 20: return use(gv::out_neighbors(g, u), false, false);
          case 21: return use(gv::out_neighbors(g, u, vf), false, true);
          case 22: return use(gv::out_neighbors(g, uid), false, false);
          case 23: return use(gv::out_neighbors(g, uid, vf), false, true);
          case 24: return use(gv::basic_out_neighbors(g, uid), true, false);
          case 25: return use(gv::basic_out_neighbors(g, uid, vf), true, true);
          default:;
          }
        BV_FORMS(neighbors, basic_neighbors)
      } else if constexpr (F == IN_INCIDENCE) {
        BV_FORMS(in_incidence, basic_in_incidence)
      } else {
        BV_FORMS(in_neighbors, basic_in_neighbors)
      }
#undef BV_FORMS
    }
  }

  static const char* name() {
    switch (F) {
    case VERTEXLIST: return "vertexlist view";
    case INCIDENCE: return "incidence view";
    case IN_INCIDENCE: return "in_incidence view";
    case NEIGHBORS: return "neighbors view";
    case IN_NEIGHBORS: return "in_neighbors view";
    default: return "edgelist view";
    }
  }

  // what the graph's own ranges list
  std::vector<Item> reference() {
    std::vector<Item> r;
    auto              edges_of = [&](auto&& es, long self) {
      for (auto&& e : es) {
        Item x;
        long s = num<G>(ga::source_id(g, e)), t = num<G>(ga::target_id(g, e));
        if constexpr (F == NEIGHBORS || F == IN_NEIGHBORS) {
          x.tid = x.a = IN ? s : t;
          x.val       = x.a * 5 + 2;
        } else {
          x.a = s, x.b = t, x.tid = IN ? s : t;
          if constexpr (HASW)
            x.w = static_cast<long>(ga::edge_value(g, e));
          x.val = s * 1000 + t * 3 + 1;
          if constexpr (F == EDGELIST)
            x.sid = self;
        }
        r.push_back(x);
      }
    };
    if constexpr (F == VERTEXLIST) {
      for (auto&& u : ga::vertices(g)) {
        Item x;
        x.id = x.a = num<G>(ga::vertex_id(g, u));
        x.val      = x.a * 5 + 2;
        if (lo < 0 || (x.id >= lo && x.id < hi))
          r.push_back(x);
      }
    } else if constexpr (F == EDGELIST) {
      for (auto&& u : ga::vertices(g))
        edges_of(ga::edges(g, u), num<G>(ga::vertex_id(g, u)));
    } else {
      auto u = *ga::find_vertex(g, key<G>(p.u));
      if constexpr (IN)
        edges_of(ga::in_edges(g, u), p.u);
      else
        edges_of(ga::edges(g, u), p.u);
    }
    return r;
  }

  void verify(const Outcome& o) {
    const char* nm = name();
    if (o.threw())
      return fail("unexpected-exception", "%s threw %s %s", nm, what_name[o.what], o.msg.c_str());
    if (!used)
      return;
    if (bad_iter)
      return fail("iteration", "%s (form %d) doesn't end, or a copy of its iterator doesn't compare equal", nm, p.form);
    if (uneven)
      return fail("iteration", "%s (form %d): two of its iterators compare equal exactly when they should not", nm, p.form);
    if (calls != (valued ? reads : 0))
      return fail("value-function", "%s (form %d) called the value function %d times for %d elements read", nm, p.form, calls, reads);
    std::vector<Item> want = reference();
    for (auto& x : want) {
      if (basic)
        x.a = x.b = x.w = -1;
      if (!valued)
        x.val = -1;
    }
    if (sized && size != want.size()) {
      if (UAL_EDGES && size == ga::num_edges(g)) { // a known finding, so it ends few runs
        if (p.size_known)
          return fail("edgelist-size-undirected", "%s (form %d) of an undirected_adjacency_list has size %zu with %zu elements", nm, p.form, size, want.size());
      } else
        return fail("size", "%s (form %d) has size %zu with %zu elements", nm, p.form, size, want.size());
    }
    if (empty_known && empty != want.empty())
      return fail("size", "%s (form %d) is%s empty with %zu elements", nm, p.form, empty ? "" : "n't", want.size());
    for (size_t k = 0; k < got.size(); ++k) {
      if (prefix) {
        std::vector<Item> head(want.begin(), want.begin() + std::min<long>(p.at, static_cast<long>(want.size())));
        if (got[k] != head)
          return fail("elements", "%s (form %d), first %d elements, yields other elements than the graph's ranges", nm, p.form, p.at);
      } else if (got[k] != want) {
        size_t i = 0;
        while (i < got[k].size() && i < want.size() && got[k][i] == want[i])
          ++i;
        Item a = i < got[k].size() ? got[k][i] : Item{}, b = i < want.size() ? want[i] : Item{};
        return fail("elements", "%s (form %d, pass %zu) yields %zu elements instead of %zu; element %zu is (%ld %ld %ld|%ld %ld %ld|%ld) instead of (%ld %ld %ld|%ld %ld %ld|%ld)", nm,
                    p.form, k, got[k].size(), want.size(), i, a.id, a.sid, a.tid, a.a, a.b, a.w, a.val, b.id, b.sid, b.tid, b.a, b.b, b.w, b.val);
      }
    }
    model_check(nm);
  }

  // the graph's ranges are the model's
  void model_check(const char* nm) {
    basic = false, valued = false;
    std::vector<std::array<long, 3>> have, want;
    for (auto& x : reference()) {
      if constexpr (F == VERTEXLIST)
        have.push_back({x.id, 0, 0});
      else if constexpr (F == NEIGHBORS || F == IN_NEIGHBORS)
        have.push_back({IN ? x.tid : p.u, IN ? p.u : x.tid, 0});
      else
        have.push_back({x.a, x.b, HASW ? x.w : 0});
    }
    const Model& m = w.m;
    if constexpr (F == VERTEXLIST) {
      for (long u = lo < 0 ? 0 : lo; u < (lo < 0 ? m.n : hi); ++u)
        want.push_back({u, 0, 0});
    } else
      for (int u = 0; u < m.n; ++u)
        for (auto& a : m.out[static_cast<size_t>(u)])
          if (F == EDGELIST || (IN ? a.to : u) == p.u)
            want.push_back({u, a.to, HASW && !(F == NEIGHBORS || F == IN_NEIGHBORS) ? a.w : 0});
    std::sort(have.begin(), have.end());
    std::sort(want.begin(), want.end());
    if (have != want)
      fail("elements", "the ranges behind %s hold %zu elements that aren't the graph's %zu", nm, have.size(), want.size());
  }
};

template <Fam F, class G>
void go(World& w, G& g) {
  const int n = w.m.n;
  if (n == 0 && F != VERTEXLIST && F != EDGELIST)
    return;
  Plan p;
  p.form   = static_cast<int>(draw(F == VERTEXLIST ? 20 : F == EDGELIST ? 12 : 26));
  p.u      = n ? static_cast<int>(draw(static_cast<uint32_t>(n))) : 0;
  p.lo     = static_cast<int>(draw(static_cast<uint32_t>(n + 1)));
  p.hi     = p.lo + static_cast<int>(draw(static_cast<uint32_t>(n - p.lo + 1)));
  p.passes = range(1, 3);
  p.mode   = static_cast<int>(draw(5));
  p.at     = static_cast<int>(draw(8));
  p.post   = chance(1, 3);
  p.copy   = chance(1, 3);
#ifndef CROSS // reported by the property the finding belongs to
  p.size_known = F == EDGELIST && chance(1, 200);
#endif
  using C  = Call<G, F>;
  drive(C::name(), [&] { return std::make_unique<C>(w, g, p); });
}

template <Fam F>
void pick_map(World& w) {
  std::unique_ptr<MAPG> g;
  {
    Env e;
    g = std::make_unique<MAPG>();
    for (size_t u = 0; u < static_cast<size_t>(w.m.n); ++u) {
      auto& es = (*g)[key<MAPG>(static_cast<int>(u))];
      for (auto& a : w.m.out[u])
        es.push_back({key<MAPG>(a.to), a.w});
    }
  }
  go<F>(w, *g);
  Env e;
  g.reset();
}

template <Fam F>
void pick(World& w) {
  if constexpr (F == IN_INCIDENCE || F == IN_NEIGHBORS) {
    if (draw(2))
      return go<F>(w, w.bi);
    return go<F>(w, w.bil);
  } else {
    switch (draw(w.has_ual ? 11 : 9)) {
    case 0: return go<F>(w, w.vvp);
    case 1: return go<F>(w, w.vvi);
    case 2: return go<F>(w, w.vov);
    case 3: return go<F>(w, w.dofl);
    case 4: return go<F>(w, w.vol);
    case 5:
      if (w.narrow())
        return go<F>(w, w.cg8);
      return w.has_cg ? go<F>(w, w.cg) : go<F>(w, w.vsv);
    case 6: return go<F>(w, w.bil);
    case 7: return pick_map<F>(w);
    case 8: {
      const VOV& c = w.vov;
      return go<F>(w, c);
    }
    default: return go<F>(w, w.ual);
    }
  }
}
} // namespace basicview
