// Depth-first and breadth-first views over vertices and edges: order against a reference search that follows the
// observed choices, cancellation of branches and of the whole search at any element, depth and counts, value
// functions, pipe syntax, both edge accessors, allocators.
#pragma once
#include "viewutil.hpp"

#include <graph/views/adaptors.hpp>

#include <algorithm>

namespace searchview {
using namespace sim;
namespace ga = graph::adj_list;
namespace gv = graph::views;

// An allocator that must give back what it took.
template <class T>
struct CountAlloc {
  using value_type = T;
  int64_t* live;
  explicit CountAlloc(int64_t* l) : live(l) {}
  template <class U>
  CountAlloc(const CountAlloc<U>& o) : live(o.live) {}
  T* allocate(size_t n) {
    T* p = std::allocator<T>().allocate(n);
    *live += static_cast<int64_t>(n * sizeof(T));
    return p;
  }
  void deallocate(T* p, size_t n) {
    *live -= static_cast<int64_t>(n * sizeof(T));
    std::allocator<T>().deallocate(p, n);
  }
  template <class U>
  bool operator==(const CountAlloc<U>& o) const {
    return live == o.live;
  }
};

enum Form { BY_ID, BY_VERTEX, PIPE, CALL };

struct Plan {
  int  seed = 0;
  bool post = false, mv = false, range_for = false;
  int  branch_percent = 0; // chance of cancelling the branch at each element
  int  all_at         = -1;
};

struct Step {
  int    a = -1, b = -1, val = 0; // edge (a,b), or vertex a
  size_t depth = 0, visited = 0;
  bool   branch = false, all = false;
};

template <class G, bool DFS, bool EDGES, bool VAL, bool IN, bool AL, Form F>
struct Call {
  World&            w;
  G&                g;
  const Plan&       p;
  std::vector<Step> got;
  size_t            depth = 0, visited = 0;
  int               calls = 0, reads = 0;
  bool              went_on = false, state_wrong = false, pre_wrong = false;
  int64_t           live = 0, peak = 0;
  Call(World& w_, G& g_, const Plan& p_) : w(w_), g(g_), p(p_) {}

  size_t lim = 4096 + 2 * (static_cast<size_t>(w.m.n) + w.m.arc_count());
  size_t limit() const { return lim; }
  template <class X, class V>
  bool element(const X& x, V& view) { // true: the whole search was cancelled
    Env  e;
    Step r;
    if constexpr (EDGES) {
      r.a = static_cast<int>(ga::source_id(g, x.edge));
      r.b = static_cast<int>(ga::target_id(g, x.edge));
    } else
      r.a = static_cast<int>(ga::vertex_id(g, x.vertex));
    if constexpr (VAL)
      r.val = x.value;
    ++reads;
    ev(0x320, static_cast<uint64_t>(r.a), static_cast<uint64_t>(r.b));
    r.depth   = view.depth();
    r.visited = view.num_visited();
    peak      = std::max(peak, live);
    if (static_cast<int>(got.size()) == p.all_at) {
      view.cancel(gv::cancel_search::cancel_all);
      r.all = true;
      state_wrong |= view.cancel() != gv::cancel_search::cancel_all;
    } else if (static_cast<int>(p.branch_percent ? pick(w.m, 100, got.size() * 7 + 3) : 100) < p.branch_percent) {
      view.cancel(gv::cancel_search::cancel_branch);
      r.branch = true;
      state_wrong |= view.cancel() != gv::cancel_search::cancel_branch;
      if (pick(w.m, 6, got.size()) == 0) { // and thought better of it
        view.cancel(gv::cancel_search::continue_search);
        r.branch = false;
      }
    } else
      state_wrong |= view.cancel() != gv::cancel_search::continue_search;
    got.push_back(r);
    return r.all;
  }

  template <class V>
  void iterate(V& view) {
    pre_wrong = view.num_visited() != 0 || view.cancel() != gv::cancel_search::continue_search;
    if (p.range_for) {
      for (auto&& x : view) {
        if (went_on || got.size() > limit())
          break;
        if (!got.empty() && got.back().all)
          went_on = true;
        else
          element(x, view);
        sim::yield();
      }
    } else {
      Retry retry;
      auto  it = view.begin();
      while (!(it == view.end()) && got.size() <= limit()) {
        if (!got.empty() && got.back().all) {
          went_on = true;
          break;
        }
        auto x = retry([&] {
          return *it;
        });
        auto same = it; // a copy is at the same element, and neither is past the end
        state_wrong |= !(same == it) || same != it || it == decltype(it){} || it.at_end() || !(it != view.end());
        element(x, view);
        sim::yield();
        if (p.post)
          it++;
        else
          ++it;
      }
      if (it == view.end()) { // and stays there
        if (!(it == decltype(it){}) || !it.at_end() || it != view.end())
          went_on = true;
        ++it;
        if (!(it == view.end()))
          went_on = true;
      }
      depth   = view.depth();
      visited = view.num_visited();
      retry.rethrow();
      return;
    }
    depth   = view.depth();
    visited = view.num_visited();
  }
  template <class V>
  void use(V&& v) {
    if (p.mv) {
      auto view = std::move(v); // a moved view is the same view
      iterate(view);
    } else
      iterate(v);
  }

  void invoke() {
    auto vf = [this](const auto& gg, const auto& x) {
      Callback cb;
      ++calls;
      auto& mg = const_cast<G&>(static_cast<const G&>(gg));
      if constexpr (EDGES)
        return static_cast<int>(ga::source_id(mg, x)) * 1000 + static_cast<int>(ga::target_id(mg, x)) * 3 + 1;
      else
        return static_cast<int>(ga::vertex_id(mg, x)) * 5 + 2;
    };
    CountAlloc<bool> al(&live);
    using Acc = std::conditional_t<IN, gv::in_edge_accessor, gv::out_edge_accessor>;
    auto seed = [&] {
      if constexpr (F == BY_VERTEX)
        return *ga::find_vertex(g, static_cast<ga::vertex_id_t<G>>(p.seed));
      else
        return static_cast<ga::vertex_id_t<G>>(p.seed);
    }();
#define SV_CALLS(FN)                                                                                                   \
  if constexpr (IN) {                                                                                                  \
    if constexpr (VAL)                                                                                                 \
      use(gv::FN<Acc>(g, seed, vf));                                                                                   \
    else                                                                                                               \
      use(gv::FN<Acc>(g, seed));                                                                                       \
  } else if constexpr (F == PIPE) {                                                                                    \
    if constexpr (VAL && AL)                                                                                           \
      use(g | gv::adaptors::FN(seed, vf, al));                                                                         \
    else if constexpr (VAL)                                                                                            \
      use(g | gv::adaptors::FN(seed, vf));                                                                             \
    else                                                                                                               \
      use(g | gv::adaptors::FN(seed));                                                                                 \
  } else if constexpr (F == CALL) {                                                                                    \
    if constexpr (VAL && AL)                                                                                           \
      use(gv::adaptors::FN(g, seed, vf, al));                                                                          \
    else if constexpr (VAL)                                                                                            \
      use(gv::adaptors::FN(g, seed, vf));                                                                              \
    else                                                                                                               \
      use(gv::adaptors::FN(g, seed));                                                                                  \
  } else {                                                                                                             \
    if constexpr (VAL && AL)                                                                                           \
      use(gv::FN(g, seed, vf, al));                                                                                    \
    else if constexpr (VAL)                                                                                            \
      use(gv::FN(g, seed, vf));                                                                                        \
    else if constexpr (AL)                                                                                             \
      use(gv::FN(g, seed, al));                                                                                        \
    else                                                                                                               \
      use(gv::FN(g, seed));                                                                                            \
  }
    if constexpr (DFS && EDGES) {
      SV_CALLS(edges_dfs)
    } else if constexpr (DFS) {
      SV_CALLS(vertices_dfs)
    } else if constexpr (EDGES) {
      SV_CALLS(edges_bfs)
    } else {
      SV_CALLS(vertices_bfs)
    }
#undef SV_CALLS
  }

  static const char* name() {
    return DFS ? (EDGES ? "edges_dfs" : "vertices_dfs") : (EDGES ? "edges_bfs" : "vertices_bfs");
  }

  void verify(const Outcome& o) {
    const char* nm = name();
    if (o.threw())
      return fail("unexpected-exception", "%s threw %s %s", nm, what_name[o.what], o.msg.c_str());
    if (live != 0)
      return fail("leak", "%s left %lld bytes of the caller's allocator behind", nm, static_cast<long long>(live));
    if (AL && !got.empty() && peak == 0)
      return fail("allocator", "%s doesn't use the caller's allocator", nm);
    if (pre_wrong || state_wrong)
      return fail("cancel", "%s reports the wrong cancellation state or a count before the first step", nm);
    if (went_on)
      return fail("cancel", "%s goes on after it was cancelled or had ended", nm);
    if (got.size() > limit())
      return fail("order", "%s doesn't end", nm);
    if (VAL && calls != reads && fired() == false)
      return fail("value-function", "%s called the value function %d times for %d elements read", nm, calls, reads);
    if (VAL)
      for (auto& x : got)
        if (x.val != (EDGES ? x.a * 1000 + x.b * 3 + 1 : x.a * 5 + 2))
          return fail("value-function", "%s yields the value %d with element (%d,%d)", nm, x.val, x.a, x.b);
    replay(nm);
  }

  // Follows the listed elements with a reference search; each must be one the search may take next.
  void replay(const char* nm) {
    const Model& m = w.m;
    const size_t n = static_cast<size_t>(m.n);
    // neighbours, as sets with multiplicity
    std::vector<std::vector<int>> adj(n);
    for (size_t u = 0; u < n; ++u)
      for (auto& a : m.out[u])
        if (IN)
          adj[static_cast<size_t>(a.to)].push_back(static_cast<int>(u));
        else
          adj[u].push_back(a.to);
    std::vector<char> seen(n, 0);
    std::vector<int>  level(n, 0);
    for (auto& a : adj)
      std::sort(a.begin(), a.end());
    std::vector<size_t> first_new(n, 0);
    auto                has_new = [&](int u) {
      auto&   a = adj[static_cast<size_t>(u)];
      size_t& i = first_new[static_cast<size_t>(u)]; // vertices only become seen
      while (i < a.size() && seen[static_cast<size_t>(a[i])])
        ++i;
      return i < a.size();
    };
    auto adjacent = [&](int u, int v) { return std::binary_search(adj[static_cast<size_t>(u)].begin(), adj[static_cast<size_t>(u)].end(), v); };
    seen[static_cast<size_t>(p.seed)] = 1;
    std::vector<int> open{p.seed}; // the stack, or the queue from `head` on
    size_t           head = 0;
    std::vector<int> listed{p.seed};
    size_t           i = 0, max_depth = 0;
    std::vector<char> closed(n, 0); // BFS: branch cancelled
    if (!EDGES) {
      if (got.empty() || got[0].a != p.seed)
        return fail("order", "%s doesn't start with the seed", nm);
    }
    auto check_counts = [&](const Step& x, size_t k, int v) -> bool { // k: elements after the seed so far
      if (DFS) {
        if (x.depth != open.size())
          return fail("depth", "%s reports depth %zu at an element on a path of %zu vertices", nm, x.depth, open.size()), false;
        if (x.visited != k)
          return fail("count", "%s reports %zu visited after %zu", nm, x.visited, k), false;
      } else {
        if (x.depth < static_cast<size_t>(level[static_cast<size_t>(v)]))
          return fail("depth", "%s reports depth %zu at an element of level %d", nm, x.depth, level[static_cast<size_t>(v)]), false;
        if (EDGES ? x.visited != k : x.visited < k)
          return fail("count", "%s reports %zu visited after %zu", nm, x.visited, k), false;
      }
      return true;
    };
    bool   all = false;
    size_t k   = 0;
    if (!EDGES) {
      if (!check_counts(got[0], 0, p.seed))
        return;
      i   = 1;
      all = got[0].all;
      if (got[0].branch) {
        if (DFS)
          open.pop_back();
        else
          closed[static_cast<size_t>(p.seed)] = 1;
      }
    }
    for (; i < got.size(); ++i) {
      const Step& x = got[i];
      if (all)
        return fail("cancel", "%s yields an element after it was cancelled", nm);
      int v = EDGES ? (IN ? x.a : x.b) : x.a; // the vertex reached
      int u = EDGES ? (IN ? x.b : x.a) : -1;  // from where
      if (v < 0 || static_cast<size_t>(v) >= n || seen[static_cast<size_t>(v)])
        return fail("order", "%s yields vertex %d, which doesn't exist or was visited before", nm, v);
      int from;
      if (DFS) {
        while (!open.empty() && !has_new(open.back()))
          open.pop_back();
        if (open.empty())
          return fail("order", "%s yields vertex %d, which the search can't reach", nm, v);
        from = open.back();
      } else {
        while (head < open.size() && (closed[static_cast<size_t>(open[head])] || !has_new(open[head])))
          ++head;
        if (head == open.size())
          return fail("order", "%s yields vertex %d, which the search can't reach", nm, v);
        from = open[head];
      }
      if (!adjacent(from, v))
        return fail("order", "%s yields vertex %d, but vertex %d has unvisited neighbours and it isn't one", nm, v, from);
      if (EDGES && u != from)
        return fail("order", "%s yields edge (%d,%d) instead of one that leaves vertex %d", nm, x.a, x.b, from);
      seen[static_cast<size_t>(v)]  = 1;
      level[static_cast<size_t>(v)] = level[static_cast<size_t>(from)] + 1;
      max_depth                     = std::max(max_depth, static_cast<size_t>(level[static_cast<size_t>(v)]));
      open.push_back(v);
      ++k;
      if (!check_counts(x, k, v))
        return;
      if (x.branch) {
        if (DFS)
          open.pop_back();
        else
          closed[static_cast<size_t>(v)] = 1;
      }
      all = x.all;
    }
    if (all) {
      probe("cancelled");
      return;
    }
    // nothing may be left over
    for (size_t j = DFS ? 0 : head; j < open.size(); ++j)
      if (!closed[static_cast<size_t>(open[j])] && has_new(open[j]))
        return fail("order", "%s ends although vertex %d has unvisited neighbours", nm, open[j]);
    if (visited != k)
      return fail("count", "%s counts %zu visited after %zu elements", nm, visited, k);
    if (DFS ? depth != 0 : depth != max_depth)
      fail("depth", "%s reports depth %zu at the end (deepest level %zu)", nm, depth, max_depth);
  }
};

template <bool DFS, bool EDGES, bool VAL, bool IN, bool AL, Form F, class G>
void go(World& w, G& g) {
  if (w.m.n == 0)
    return;
  Plan p;
  p.seed           = static_cast<int>(draw(static_cast<uint32_t>(w.m.n)));
  p.post           = chance(1, 3);
  p.mv             = chance(1, 3);
  p.range_for      = chance(1, 4);
  p.branch_percent = chance(1, 2) ? 0 : static_cast<int>(5 + draw(40));
  p.all_at         = chance(1, 5) ? static_cast<int>(draw(static_cast<uint32_t>(w.m.n + 1))) : -1;
  using C          = Call<G, DFS, EDGES, VAL, IN, AL, F>;
  drive(C::name(), [&] { return std::make_unique<C>(w, g, p); });
}

template <bool DFS, bool EDGES>
void pick(World& w) {
  switch (draw(16)) {
  case 0: return go<DFS, EDGES, false, false, false, BY_ID>(w, w.vvp);
  case 1: return go<DFS, EDGES, true, false, false, BY_ID>(w, w.vvi);
  case 2: return go<DFS, EDGES, false, false, false, BY_VERTEX>(w, w.vov);
  case 3: return go<DFS, EDGES, true, false, false, BY_VERTEX>(w, w.dofl);
  case 4: return go<DFS, EDGES, true, false, true, BY_ID>(w, w.vol);
  case 5: return go<DFS, EDGES, false, false, true, BY_ID>(w, w.vvp);
  case 6: return go<DFS, EDGES, true, false, true, BY_VERTEX>(w, w.vov);
  case 7: return go<DFS, EDGES, false, false, true, BY_VERTEX>(w, w.dofl);
  case 8: return go<DFS, EDGES, false, false, false, PIPE>(w, w.vov);
  case 9: return go<DFS, EDGES, true, false, false, PIPE>(w, w.vvp);
  case 10: return go<DFS, EDGES, true, false, true, PIPE>(w, w.dofl);
  case 11: return w.m.n ? go<DFS, EDGES, true, false, false, CALL>(w, w.vol) : void();
  case 12:
    if (w.narrow())
      return go<DFS, EDGES, true, false, false, BY_ID>(w, w.cg8);
    if (w.has_cg)
      return go<DFS, EDGES, true, false, false, BY_ID>(w, w.cg);
    return go<DFS, EDGES, false, false, false, CALL>(w, w.vov);
  case 13: return go<DFS, EDGES, false, true, false, BY_ID>(w, w.bi);
  case 14: return go<DFS, EDGES, true, true, false, BY_VERTEX>(w, w.bil);
  default: {
    const VOV& c = w.vov;
    return go<DFS, EDGES, true, false, false, BY_ID>(w, c);
  }
  }
}
template <bool DFS, bool EDGES>
void pick_undirected(World& w) {
  if (!w.has_ual)
    return pick<DFS, EDGES>(w);
  switch (draw(3)) {
  case 0: return go<DFS, EDGES, true, false, false, BY_ID>(w, w.ual);
  case 1: return go<DFS, EDGES, false, false, false, PIPE>(w, w.ual);
  default: return go<DFS, EDGES, true, false, false, BY_VERTEX>(w, w.vsv);
  }
}
} // namespace searchview
