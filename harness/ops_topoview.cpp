// Topological views over vertices and edges: order, repeated and interleaved iteration, cancellation, value
// functions, checked construction, incoming-edge accessor.
#include "viewutil.hpp"

#include <graph/views/topological_sort.hpp>

#include <algorithm>
#include <optional>

using namespace sim;
namespace ga = graph::adj_list;
namespace gv = graph::views;

namespace {

bool acyclic(const Model& m, std::vector<char>* on_cycle) {
  const size_t     n = static_cast<size_t>(m.n);
  auto         comp = strong_components(m);
  std::vector<int> size(n, 0);
  for (int c : comp)
    ++size[static_cast<size_t>(c)];
  bool ok = true;
  on_cycle->assign(n, 0);
  for (size_t u = 0; u < n; ++u) {
    bool c = size[static_cast<size_t>(comp[u])] > 1;
    for (auto& a : m.out[u])
      c |= static_cast<size_t>(a.to) == u;
    (*on_cycle)[u] = c;
    ok &= !c;
  }
  return ok;
}

struct Plan {
  int passes = 1, cancel_at = -1;
  bool interleave = false, post = false, cancel_branch = false;
};

struct Item {
  int a = -1, b = -1, val = 0; // vertex, or edge (a,b) as source and target in the graph
  bool operator==(const Item&) const = default;
};

// EDGES: edge view; VAL: value function; SAFE: checked construction; IN: along incoming edges; AL: explicit allocator
template <class G, bool EDGES, bool VAL, bool SAFE, bool IN, bool AL>
struct Call {
  World&                         w;
  G&                             g;
  const Plan&                    p;
  std::vector<std::vector<Item>> got; // one list per pass
  bool                           cycle = false;
  int                            cycle_vertex = -1;
  size_t                         increments = 0, visited = 0, size = 0, after_cancel = 0;
  int                            calls = 0; // of the value function
  int                            reads = 0;
  Call(World& w_, G& g_, const Plan& p_) : w(w_), g(g_), p(p_) {}

  template <class V>
  void iterate(V& view) {
    using It = decltype(view.begin());
    Retry retry;
    auto  read = [&](It& it) {
      auto x = retry([&] {
        return *it;
      });
      Env  e;
      Item r;
      if constexpr (EDGES) {
        r.a = static_cast<int>(ga::source_id(g, x.edge));
        r.b = static_cast<int>(ga::target_id(g, x.edge));
      } else
        r.a = static_cast<int>(ga::vertex_id(g, x.vertex));
      if constexpr (VAL)
        r.val = x.value;
      ++reads;
      ev(0x310, static_cast<uint64_t>(r.a), static_cast<uint64_t>(r.b));
      return r;
    };
    auto step = [&](It& it) {
      if (p.post)
        it++;
      else
        ++it;
      ++increments;
    };
    auto put = [&](size_t k, Item x) {
      Env e;
      if (got.size() <= k)
        got.resize(k + 1);
      got[k].push_back(x);
    };
    {
      Env e;
      got.resize(static_cast<size_t>(p.passes));
    }
    if (p.interleave && p.passes >= 2) {
      It   a = view.begin(), b = view.begin();
      bool ea = false, eb = false;
      while (!ea || !eb) {
        bool first = eb || (!ea && pick(w.m, 2, increments) == 0);
        It&  it    = first ? a : b;
        bool end   = it == view.end();
        if (end) {
          (first ? ea : eb) = true;
          continue;
        }
        put(first ? 0 : 1, read(it));
        step(it);
        sim::yield();
      }
      for (size_t k = 2; k < static_cast<size_t>(p.passes); ++k) {
        for (It it = view.begin(); it != view.end(); step(it))
          put(k, read(it));
      }
    } else {
      for (size_t k = 0; k < static_cast<size_t>(p.passes); ++k) {
        int i = 0;
        for (It it = view.begin(); it != view.end(); step(it)) {
          put(k, read(it));
          if (i++ == p.cancel_at) {
            view.cancel(p.cancel_branch ? gv::cancel_search::cancel_branch : gv::cancel_search::cancel_all);
            if (!(it == view.end()))
              ++after_cancel;
            break;
          }
        }
        if (p.cancel_at >= 0 && view.cancel() != gv::cancel_search::continue_search) {
          for (It it = view.begin(); it != view.end(); step(it))
            if (++after_cancel > 100)
              break;
          break;
        }
      }
    }
    visited = view.num_visited();
    if constexpr (!EDGES)
      size = view.size();
    retry.rethrow();
  }

  template <class R>
  void use(R&& r) {
    if constexpr (SAFE) {
      if (!r.has_value()) {
        cycle        = true;
        cycle_vertex = static_cast<int>(ga::vertex_id(g, r.error()));
        return;
      }
      auto view = std::move(*r);
      iterate(view);
    } else {
      if (draw(2)) {
        auto view = std::move(r); // a moved view is the same view
        iterate(view);
      } else
        iterate(r);
    }
  }

  void invoke() {
    auto vvf = [this](const auto& gg, const auto& u) {
      Callback cb;
      ++calls;
      return static_cast<int>(ga::vertex_id(const_cast<G&>(static_cast<const G&>(gg)), u)) * 5 + 2;
    };
    auto evf = [this](const auto& gg, const auto& uv) {
      Callback cb;
      ++calls;
      auto& mg = const_cast<G&>(static_cast<const G&>(gg));
      return static_cast<int>(ga::source_id(mg, uv)) * 1000 + static_cast<int>(ga::target_id(mg, uv)) * 3 + 1;
    };
    using Acc = std::conditional_t<IN, gv::in_edge_accessor, gv::out_edge_accessor>;
    std::allocator<bool> al;
    if constexpr (IN) {
      if constexpr (EDGES) {
        if constexpr (SAFE) {
          if constexpr (VAL)
            use(gv::edges_topological_sort_safe<Acc>(g, evf));
          else
            use(gv::edges_topological_sort_safe<Acc>(g));
        } else {
          if constexpr (VAL)
            use(gv::edges_topological_sort<Acc>(g, evf));
          else
            use(gv::edges_topological_sort<Acc>(g));
        }
      } else {
        if constexpr (SAFE) {
          if constexpr (VAL)
            use(gv::vertices_topological_sort_safe<Acc>(g, vvf));
          else
            use(gv::vertices_topological_sort_safe<Acc>(g));
        } else {
          if constexpr (VAL)
            use(gv::vertices_topological_sort<Acc>(g, vvf));
          else
            use(gv::vertices_topological_sort<Acc>(g));
        }
      }
    } else if constexpr (EDGES) {
      if constexpr (SAFE) {
        if constexpr (VAL && AL)
          use(gv::edges_topological_sort_safe(g, evf, al));
        else if constexpr (VAL)
          use(gv::edges_topological_sort_safe(g, evf));
        else if constexpr (AL)
          use(gv::edges_topological_sort_safe(g, al));
        else
          use(gv::edges_topological_sort_safe(g));
      } else {
        if constexpr (VAL && AL)
          use(gv::edges_topological_sort(g, evf, al));
        else if constexpr (VAL)
          use(gv::edges_topological_sort(g, evf));
        else if constexpr (AL)
          use(gv::edges_topological_sort(g, al));
        else
          use(gv::edges_topological_sort(g));
      }
    } else {
      if constexpr (SAFE) {
        if constexpr (VAL && AL)
          use(gv::vertices_topological_sort_safe(g, vvf, al));
        else if constexpr (VAL)
          use(gv::vertices_topological_sort_safe(g, vvf));
        else if constexpr (AL)
          use(gv::vertices_topological_sort_safe(g, al));
        else
          use(gv::vertices_topological_sort_safe(g));
      } else {
        if constexpr (VAL && AL)
          use(gv::vertices_topological_sort(g, vvf, al));
        else if constexpr (VAL)
          use(gv::vertices_topological_sort(g, vvf));
        else if constexpr (AL)
          use(gv::vertices_topological_sort(g, al));
        else
          use(gv::vertices_topological_sort(g));
      }
    }
  }

  void verify(const Outcome& o) {
    const char* nm = EDGES ? "edges_topological_sort" : "vertices_topological_sort";
    if (o.threw())
      return fail("unexpected-exception", "%s threw %s %s", nm, what_name[o.what], o.msg.c_str());
    const Model&      m = w.m;
    const size_t      n = static_cast<size_t>(m.n);
    std::vector<char> on_cycle;
    bool              dag = acyclic(m, &on_cycle);
    if (SAFE) {
      if (cycle == dag)
        return fail("cycle-report", "%s_safe %s a cycle on a graph that is %s", nm, cycle ? "reports" : "doesn't report", dag ? "acyclic" : "cyclic");
      if (cycle) {
        probe("cycle");
        if (cycle_vertex < 0 || cycle_vertex >= m.n || !on_cycle[static_cast<size_t>(cycle_vertex)])
          fail("cycle-report", "%s_safe reports vertex %d, which is on no cycle", nm, cycle_vertex);
        return;
      }
    }
    if (VAL && calls != reads)
      return fail("value-function", "%s called the value function %d times for %d elements read", nm, calls, reads);
    if (after_cancel)
      return fail("cancel", "%s goes on after it was cancelled", nm);
    const bool cancelled = p.cancel_at >= 0 && !(p.interleave && p.passes >= 2);
    if (!EDGES) {
      if (size != n)
        return fail("count", "%s has size %zu for %zu vertices", nm, size, n);
      if (visited != increments)
        return fail("count", "%s counts %zu visited vertices after %zu steps", nm, visited, increments);
    } else if (visited > n * static_cast<size_t>(p.passes))
      return fail("count", "%s counts %zu visited vertices", nm, visited);
    else if (!cancelled) { // each vertex with edges has had all of them read in every pass
      std::vector<char> from(n, 0);
      for (size_t u = 0; u < n; ++u)
        for (auto& a : m.out[u])
          from[IN ? static_cast<size_t>(a.to) : u] = 1;
      size_t with = static_cast<size_t>(std::count(from.begin(), from.end(), 1));
      if (visited < with * got.size())
        return fail("count", "%s counts %zu visited vertices after %zu passes over the edges of %zu", nm, visited, got.size(), with);
    }
    std::vector<Item> full;
    for (size_t k = 0; k < got.size(); ++k) {
      if (cancelled && (got[k].empty() || static_cast<int>(got[k].size()) == p.cancel_at + 1 || k > 0)) {
        if (k > 0 && got[0].size() == static_cast<size_t>(p.cancel_at) + 1 && !got[k].empty())
          return fail("cancel", "%s yields elements in a pass after it was cancelled", nm);
        continue;
      }
      if (k > 0 && got[k] != got[0])
        return fail("order", "%s yields different elements in two passes", nm);
      check_pass(nm, got[k], dag);
      if (failed())
        return;
    }
    if (cancelled && !got.empty())
      check_prefix(nm, got[0], dag);
  }

  void check_values(const char* nm, const std::vector<Item>& xs) {
    if (VAL)
      for (auto& x : xs)
        if (x.val != (EDGES ? x.a * 1000 + x.b * 3 + 1 : x.a * 5 + 2))
          return fail("value-function", "%s yields the value %d with element (%d,%d)", nm, x.val, x.a, x.b);
  }
  // the vertices whose edges or selves are listed, in order
  void check_prefix(const char* nm, const std::vector<Item>& xs, bool dag) {
    check_values(nm, xs);
    const size_t     n = static_cast<size_t>(w.m.n);
    std::vector<int> pos(n, -1);
    int              k = 0;
    for (auto& x : xs) {
      int u = EDGES && IN ? x.b : x.a;
      if (u < 0 || static_cast<size_t>(u) >= n)
        return fail("order", "%s yields a vertex that doesn't exist", nm);
      if (pos[static_cast<size_t>(u)] < 0)
        pos[static_cast<size_t>(u)] = k++;
      else if (!EDGES)
        return fail("order", "%s yields vertex %d twice", nm, u);
    }
    if (dag)
      for (size_t u = 0; u < n; ++u)
        for (auto& a : w.m.out[u]) {
          size_t s = IN ? static_cast<size_t>(a.to) : u, t = IN ? u : static_cast<size_t>(a.to);
          if (pos[s] >= 0 && pos[t] >= 0 && pos[t] <= pos[s])
            return fail("order", "edge %zu->%d points the wrong way in the order of %s", u, a.to, nm);
        }
  }
  void check_pass(const char* nm, const std::vector<Item>& xs, bool dag) {
    check_prefix(nm, xs, dag);
    if (failed())
      return;
    const size_t n = static_cast<size_t>(w.m.n);
    if (!EDGES) {
      if (xs.size() != n)
        fail("order", "%s yields %zu of %zu vertices", nm, xs.size(), n);
      return;
    }
    // every edge once, grouped by the vertex that comes first
    std::vector<std::pair<int, int>> want, have;
    for (size_t u = 0; u < n; ++u)
      for (auto& a : w.m.out[u])
        want.push_back({static_cast<int>(u), a.to});
    for (auto& x : xs)
      have.push_back({x.a, x.b});
    std::vector<char> closed(n, 0);
    for (size_t i = 1; i < xs.size(); ++i) {
      int prev = IN ? xs[i - 1].b : xs[i - 1].a, now = IN ? xs[i].b : xs[i].a;
      if (prev != now) {
        closed[static_cast<size_t>(prev)] = 1;
        if (closed[static_cast<size_t>(now)])
          return fail("order", "%s yields the edges of vertex %d in two groups", nm, now);
      }
    }
    std::sort(want.begin(), want.end());
    std::sort(have.begin(), have.end());
    if (want != have)
      fail("order", "%s doesn't yield every edge exactly once", nm);
  }
};

template <bool EDGES, bool VAL, bool SAFE, bool IN, bool AL, class G>
void go(World& w, G& g) {
  Plan p;
  p.passes        = range(1, 3);
  p.interleave    = chance(1, 3);
  p.post          = chance(1, 3);
  p.cancel_at     = chance(1, 4) ? static_cast<int>(draw(static_cast<uint32_t>(w.m.n + 1))) : -1;
  p.cancel_branch = chance(1, 2);
  using C         = Call<G, EDGES, VAL, SAFE, IN, AL>;
  drive(EDGES ? "edges_topological_sort view" : "vertices_topological_sort view", [&] { return std::make_unique<C>(w, g, p); });
}

OP("vertices_topological_sort view", 4, DIRECTED) {
  switch (draw(13)) { // every form
  case 0: return go<false, false, false, false, false>(w, w.vvp);
  case 1: return go<false, true, false, false, false>(w, w.vvp);
  case 2: return go<false, false, true, false, false>(w, w.vov);
  case 3: return go<false, true, true, false, false>(w, w.dofl);
  case 4: return go<false, true, false, false, true>(w, w.dofl);
  case 5: return go<false, false, true, false, true>(w, w.vvp);
  case 6: return go<false, true, true, true, false>(w, w.bil);
  case 7: return go<false, false, false, true, false>(w, w.bil);
  case 8: return go<false, false, true, true, false>(w, w.bil);
  case 9: return go<false, true, false, true, false>(w, w.bil);
  case 10: return go<false, true, true, false, true>(w, w.vov);
  case 11: return go<false, false, false, false, true>(w, w.dofl);
  default:
    if (w.narrow())
      return go<false, false, true, false, false>(w, w.cg8);
    if (w.has_cg)
      return go<false, false, true, false, false>(w, w.cg);
    return go<false, false, true, false, false>(w, w.vov);
  }
}
OP("edges_topological_sort view", 4, DIRECTED) {
  switch (draw(13)) { // every form
  case 0: return go<true, false, false, false, false>(w, w.vvp);
  case 1: return go<true, true, false, false, false>(w, w.vvp);
  case 2: return go<true, false, true, false, false>(w, w.vov);
  case 3: return go<true, true, true, false, false>(w, w.dofl);
  case 4: return go<true, true, false, false, true>(w, w.dofl);
  case 5: return go<true, false, true, false, true>(w, w.vvp);
  case 6: return go<true, true, true, true, false>(w, w.bil);
  case 7: return go<true, false, false, true, false>(w, w.bil);
  case 8: return go<true, false, true, true, false>(w, w.bil);
  case 9: return go<true, true, false, true, false>(w, w.bil);
  case 10: return go<true, true, true, false, true>(w, w.vov);
  case 11: return go<true, false, false, false, true>(w, w.dofl);
  default:
    if (w.narrow())
      return go<true, false, false, false, false>(w, w.cg8);
    if (w.has_cg)
      return go<true, false, false, false, false>(w, w.cg);
    return go<true, false, true, false, false>(w, w.vov);
  }
}

} // namespace
