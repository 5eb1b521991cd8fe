// P08: histories of mutations of undirected_adjacency_list graphs against an abstract undirected multigraph.
// Each caller task owns its own bank of graphs; allocations and copies of values fail at drawn points.
#include "values.hpp"
#include <graph/container/undirected_adjacency_list.hpp>
#include <graph/graph.hpp>

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

using namespace sim;

namespace {

uint32_t g_fault_rate; // percent of operations run under an armed fault

template <class T>
int rd(const T& x) {
  return static_cast<int>(x);
}

struct ME {
  int         u, v, val;
  const void* addr = nullptr;
};
struct MG {
  std::vector<int> vv;
  std::vector<ME>  e;
  int              gv      = 0;
  bool             unknown = false; // moved from: valid but unspecified
};

struct RowE {
  int s, t, val;
};
struct RowV {
  int id, val;
};

// A caller's allocator with a state: memory goes back to where it came from, through an allocator of the same state.
template <class T>
struct TagAlloc {
  using value_type                             = T;
  using propagate_on_container_copy_assignment = std::true_type;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap            = std::true_type;
  size_t tag                                   = 0;
  static constexpr size_t HEAD                 = 16;
  TagAlloc()                                   = default;
  explicit TagAlloc(size_t t) : tag(t) {}
  template <class U>
  TagAlloc(const TagAlloc<U>& o) : tag(o.tag) {}
  T* allocate(size_t n) {
    auto* p = static_cast<char*>(::operator new(HEAD + n * sizeof(T)));
    reinterpret_cast<size_t*>(p)[0] = tag;
    reinterpret_cast<size_t*>(p)[1] = n;
    return reinterpret_cast<T*>(p + HEAD);
  }
  void deallocate(T* x, size_t n) {
    auto* p = reinterpret_cast<char*>(x) - HEAD;
    auto* h = reinterpret_cast<size_t*>(p);
    if (h[0] != tag || h[1] != n) {
      Env e;
      fail("allocator", "memory for %zu objects from allocator %zu was given back to allocator %zu as %zu objects", h[1], h[0], tag, n);
    }
    ::operator delete(p);
  }
  template <class U>
  bool operator==(const TagAlloc<U>& o) const {
    return tag == o.tag;
  }
};

template <class EV, class VV, class GV, class VId, class Alloc = std::allocator<char>>
struct Machine {
  using G  = graph::container::undirected_adjacency_list<EV, VV, GV, VId, std::vector, Alloc>;
  Alloc al() {
    if constexpr (std::is_same_v<Alloc, TagAlloc<char>>)
      return Alloc(draw(3));
    else
      return {};
  }
  using VI = typename G::vertex_edge_iterator;
  static constexpr bool has_vv = !std::is_void_v<VV>, has_gv = !std::is_void_v<GV>;
  static constexpr int  SLOTS = 3;

  // A handle a caller keeps across later calls. The container documents that it stays valid until its edge is erased
  // or the graph is cleared: other erasures, new edges and new vertices (reallocating the vertices) don't touch it.
  using EI = typename G::edge_iterator;
  using CEI = typename G::const_edge_iterator;
  using NI = typename G::vertex_type::neighbor_iterator;
  struct Held {
    int         u; // seen from this vertex
    const void* addr;
    VI          vi;
    EI          ei;
    NI          ni;
    int         ops = 0; // calls survived
  };

  std::unique_ptr<G> g[SLOTS];
  MG                 m[SLOTS];
  std::vector<Held>  held[SLOTS];
  int                next_val = 1;
  int                max_n, max_e;
  bool               wide = false;

  int fresh() { return next_val++; }
  int slot() { return static_cast<int>(draw(SLOTS)); }
  VId id(int x) { return static_cast<VId>(x); }

  // ---- fault discipline: one mutation, possibly under an armed fault -------------------------------------------------
  template <class F>
  bool mutate(const char* name, F&& f) { // true if it completed
    bool armed = chance(g_fault_rate, 100);
    if (armed) {
      Kind k = chance(1, 2) ? K_COPY : K_ALLOC;
      arm(k, 1 + (chance(1, 3) ? draw(40) : draw(4)));
    }
    Outcome o   = attempt(f);
    bool    hit = false;
    if (armed)
      hit = disarm();
    trace("  [task %d] %s -> %s %s", task_id(), name, what_name[o.what], hit ? "(fault fired)" : "");
    ev(0x0A1, static_cast<uint64_t>(o.what));
    if (hit && o.what == W_NONE)
      fail("fault-swallowed", "%s returned normally although an operation inside it failed", name);
    else if (hit && o.what != W_INJECTED)
      fail("fault-replaced", "%s threw %s %s instead of the injected fault", name, what_name[o.what], o.msg.c_str());
    else if (!hit && o.what != W_NONE)
      fail("unexpected-exception", "%s threw %s %s", name, what_name[o.what], o.msg.c_str());
    return o.what == W_NONE;
  }

  // ---- the oracle -----------------------------------------------------------------------------------------------
  void verify(int s, const char* after) {
    if (failed() || !g[s])
      return;
    Env env;
    G&       gr  = *g[s];
    const G& cg  = gr;
    MG&      mod = m[s];
    if (mod.unknown) { // at least internally consistent
      size_t per_end = 0, loops = 0;
      for (size_t u = 0; u < gr.num_vertices(); ++u) {
        size_t d = 0;
        for (auto it = gr.vertices()[u].edges_begin(gr, id(int(u))); it != gr.vertices()[u].edges_end(gr, id(int(u))); ++it) {
          loops += it->list_owner_id() == it->list_target_id();
          if (++d > 100000)
            return fail("endless-list", "after %s a moved-from graph's edge list doesn't end", after);
        }
        per_end += d;
      }
      if (per_end + loops != 2 * gr.num_edges())
        fail("moved-from", "after %s a moved-from graph says it has %zu edges but lists %zu edge ends", after,
             size_t(gr.num_edges()), per_end + loops);
      return;
    }
    const int n = static_cast<int>(mod.vv.size());
    if (int(gr.num_vertices()) != n || int(graph::num_vertices(cg)) != n)
      return fail("num-vertices", "after %s: %d vertices, expected %d", after, int(gr.num_vertices()), n);
    if (gr.num_edges() != mod.e.size() || cg.has_edge() != !mod.e.empty() || size_t(graph::num_edges(cg)) != mod.e.size() ||
        graph::has_edges(cg) != !mod.e.empty())
      return fail("num-edges", "after %s: num_edges() %zu, CPO %zu, has_edge %d, expected %zu", after, size_t(gr.num_edges()),
                  size_t(graph::num_edges(cg)), int(cg.has_edge()), mod.e.size());
    if constexpr (has_gv)
      if (rd(gr.graph_value()) != mod.gv || rd(cg.graph_value()) != mod.gv)
        return fail("graph-value", "after %s: graph value %d, expected %d", after, rd(gr.graph_value()), mod.gv);
    std::map<int, ME*> by_val;
    std::vector<int>   deg(n, 0);
    for (auto& e : mod.e) {
      by_val[e.val] = &e;
      ++deg[e.u];
      deg[e.v] += e.u != e.v;
    }
    const size_t limit = mod.e.size() + 1;
    std::vector<std::vector<const void*>> lists(n);
    for (int u = 0; u < n; ++u) {
      auto& uv = gr.vertices()[u];
      if constexpr (has_vv)
        if (rd(uv.value()) != mod.vv[u])
          return fail("vertex-value", "after %s: vertex %d has value %d, expected %d", after, u, rd(uv.value()), mod.vv[u]);
      if (int(uv.num_edges()) != deg[u])
        return fail("degree", "after %s: vertex %d counts %d edges, expected %d", after, u, int(uv.num_edges()), deg[u]);
      std::set<int> seen;
      for (auto it = uv.edges_begin(gr, id(u)); it != uv.edges_end(gr, id(u)); ++it) {
        if (lists[u].size() >= limit)
          return fail("endless-list", "after %s: the edges of vertex %d don't end", after, u);
        auto* e = &*it;
        lists[u].push_back(e);
        if (!in_arena(e))
          return fail("wild-edge", "after %s: vertex %d lists an edge outside any allocation", after, u);
        auto f = by_val.find(rd(e->value()));
        if (f == by_val.end())
          return fail("edge-value", "after %s: vertex %d lists an edge with value %d, which no edge has", after, u, rd(e->value()));
        ME& me = *f->second;
        if (int(e->list_owner_id()) != me.u || int(e->list_target_id()) != me.v || (me.u != u && me.v != u))
          return fail("edge-ends", "after %s: vertex %d lists edge %d as %d-%d, expected %d-%d", after, u, me.val,
                      int(e->list_owner_id()), int(e->list_target_id()), me.u, me.v);
        if (!seen.insert(me.val).second)
          return fail("edge-repeated", "after %s: vertex %d lists edge %d twice", after, u, me.val);
        if (me.addr && me.addr != e)
          return fail("edge-moved", "after %s: edge %d isn't at its place any more", after, me.val);
        me.addr   = e;
        int other = me.u == u ? me.v : me.u;
        if (int(e->other_vertex_id(cg, id(u))) != other || e->other_vertex(gr, id(u)) - gr.vertices().begin() != other ||
            e->source(gr) - gr.vertices().begin() != me.u || e->target(cg) - cg.vertices().begin() != me.v)
          return fail("other-end", "after %s: edge %d %d-%d seen from %d has other end %d", after, me.val, me.u, me.v, u,
                      int(e->other_vertex_id(cg, id(u))));
        if (int(it.source_id()) != u)
          return fail("iterator-owner", "after %s: an edge iterator of vertex %d says %d", after, u, int(it.source_id()));
      }
      if (int(lists[u].size()) != deg[u])
        return fail("edge-lost", "after %s: vertex %d lists %zu edges, expected %d", after, u, lists[u].size(), deg[u]);
      // backwards
      {
        auto   it = uv.edges_end(gr, id(u));
        size_t k  = lists[u].size();
        if (k)
          do {
            --it;
            if (&*it != lists[u][--k])
              return fail("backward-list", "after %s: the edges of vertex %d differ when iterated backwards", after, u);
          } while (k);
        if (k == 0 && it != uv.edges_begin(gr, id(u)))
          return fail("backward-list", "after %s: the edges of vertex %d have no first edge backwards", after, u);
      }
      // neighbours, members
      {
        size_t k = 0;
        auto   r = uv.neighbors(gr, id(u));
        if (int(r.size()) != deg[u])
          return fail("neighbors", "after %s: vertex %d has %d neighbours, expected %d", after, u, int(r.size()), deg[u]);
        for (auto it = r.begin(); it != r.end() && k < limit; ++it, ++k) {
          auto* e     = static_cast<const typename G::edge_type*>(lists[u][k]);
          int   other = int(e->list_owner_id()) == u ? int(e->list_target_id()) : int(e->list_owner_id());
          if (int(it.other_vertex_id()) != other || it.other_vertex() - gr.vertices().begin() != other)
            return fail("neighbors", "after %s: neighbour %zu of %d is %d, expected %d", after, k, u, int(it.other_vertex_id()), other);
        }
        if (int(k) != deg[u])
          return fail("neighbors", "after %s: vertex %d lists %zu neighbours, expected %d", after, u, k, deg[u]);
        auto er = static_cast<const G&>(gr).vertices()[u].edges(cg, id(u));
        if (int(er.size()) != deg[u] || size_t(std::ranges::distance(er.begin(), er.end())) != lists[u].size())
          return fail("degree", "after %s: edges(g,%d) has size %d, expected %d", after, u, int(er.size()), deg[u]);
        auto& cu = cg.vertices()[u];
        auto  cr = cu.neighbors(cg, id(u));
        k        = 0;
        for (auto it = cr.begin(); it != cr.end() && k < limit; ++it, ++k) {
          auto* e     = static_cast<const typename G::edge_type*>(lists[u][k]);
          int   other = int(e->list_owner_id()) == u ? int(e->list_target_id()) : int(e->list_owner_id());
          if (int(it.other_vertex_id()) != other || &*it != &cg.vertices()[other] || e->edge_id(cg) != typename G::edge_id_type(e->list_owner_id(), e->list_target_id()))
            return fail("neighbors", "after %s: const neighbour %zu of %d is %d, expected %d", after, k, u, int(it.other_vertex_id()), other);
        }
        if (int(k) != deg[u] || int(cr.size()) != deg[u] || int(cu.neighbors_size(cg)) != deg[u])
          return fail("neighbors", "after %s: const vertex %d lists %zu neighbours, expected %d", after, u, k, deg[u]);
        if (deg[u] && (&uv.edge_front(gr) != lists[u].front() || &cu.edge_front(cg) != lists[u].front() || &uv.edge_back(gr) != lists[u].back() ||
                       &cu.edge_back(cg) != lists[u].back()))
          return fail("edge-ends-of-list", "after %s: the first or last edge of vertex %d is another one", after, u);
      }
      // generic interface
      auto   ud = *graph::find_vertex(gr, id(u));
      size_t k  = 0;
      for (auto&& e : graph::edges(gr, ud)) {
        if (k >= lists[u].size())
          return fail("cpo-edges", "after %s: edges(g,%d) yields more than %d edges", after, u, deg[u]);
        auto* p     = static_cast<const typename G::edge_type*>(lists[u][k++]);
        int   other = int(p->list_owner_id()) == u ? int(p->list_target_id()) : int(p->list_owner_id());
        if (int(graph::source_id(gr, e)) != u || int(graph::target_id(gr, e)) != other || &graph::edge_value(gr, e) != &p->value())
          return fail("cpo-edges", "after %s: edge %zu of vertex %d is %d->%d, expected %d->%d", after, k - 1, u,
                      int(graph::source_id(gr, e)), int(graph::target_id(gr, e)), u, other);
      }
      if (int(k) != deg[u] || int(graph::degree(cg, *graph::find_vertex(cg, id(u)))) != deg[u])
        return fail("cpo-edges", "after %s: edges(g,%d) yields %zu edges, expected %d", after, u, k, deg[u]);
      if constexpr (has_vv)
        if (&graph::vertex_value(gr, ud) != &gr.vertices()[u].value())
          return fail("vertex-value", "after %s: vertex_value(g,%d) is another object", after, u);
      if (gr.try_find_vertex(id(u)) - gr.vertices().begin() != u)
        return fail("find-vertex", "after %s: try_find_vertex(%d) finds another vertex", after, u);
    }
    if (std::in_range<VId>(n) && gr.try_find_vertex(id(n)) != gr.vertices().end())
      return fail("find-vertex", "after %s: try_find_vertex(%d) finds a vertex although there are %d", after, n, n);
    for (int k = n; k < n + 3 && std::in_range<VId>(k); ++k)
      if (graph::find_vertex(gr, id(k)) != graph::vertices(gr).end() || graph::find_vertex(cg, id(k)) != graph::vertices(cg).end())
        return fail("find-vertex", "after %s: find_vertex(g,%d) finds a vertex although there are %d", after, k, n);
    for (auto& e : mod.e)
      if (!e.addr)
        return fail("edge-lost", "after %s: edge %d %d-%d isn't listed", after, e.val, e.u, e.v);
    // graph-level iteration: the vertices' lists one after another
    std::vector<const void*> all;
    for (auto& l : lists)
      all.insert(all.end(), l.begin(), l.end());
    {
      size_t k   = 0;
      auto   run = [&](auto&& range, const char* what) {
        k = 0;
        for (auto& e : range) {
          if (k >= all.size() || &e != all[k])
            return fail("graph-edges", "after %s: edge %zu of %s, of %zu, is another edge", after, k, what, all.size());
          ++k;
        }
        if (k != all.size())
          fail("graph-edges", "after %s: %s yields %zu of %zu edge ends", after, what, k, all.size());
      };
      run(gr.edges(), "edges()");
      if (!failed())
        run(cg.edges(), "const edges()");
      if (failed())
        return;
      if constexpr (requires { gr.edges().size(); })
        if (size_t(gr.edges().size()) != all.size())
          return fail("graph-edges", "after %s: edges() has size %zu but visits %zu edge ends", after, size_t(gr.edges().size()), all.size());
    }
    check_held(s, after, lists, all);
    if (!failed() && !all.empty() && held[s].size() < 4 && chance(1, 6))
      hold(s, lists);
    // lookups between a few pairs
    for (int k = 0; k < 3 && n > 0; ++k) {
      int  a = range(0, n - 1), b = range(0, n - 1);
      bool have = false;
      for (auto& e : mod.e)
        have |= (e.u == a && e.v == b) || (e.u == b && e.v == a);
      if (graph::contains_edge(cg, id(a), id(b)) != have)
        return fail("contains-edge", "after %s: contains_edge(%d,%d) is %d", after, a, b, int(!have));
    }
  }

  // ---- handles kept across calls -----------------------------------------------------------------------------------
  void check_held(int s, const char* after, const std::vector<std::vector<const void*>>& lists, const std::vector<const void*>& all) {
    G&     gr   = *g[s];
    auto&  h    = held[s];
    size_t keep = 0;
    for (size_t k = 0; k < h.size(); ++k) {
      bool alive = false;
      for (auto& e : m[s].e)
        alive |= e.addr == h[k].addr;
      if (alive) {
        if (keep != k)
          h[keep] = h[k];
        ++keep;
      }
    }
    h.erase(h.begin() + std::ptrdiff_t(keep), h.end());
    size_t base_of = 0;
    for (auto& x : h) {
      auto&  l = lists[x.u];
      size_t p = size_t(std::find(l.begin(), l.end(), x.addr) - l.begin());
      base_of  = 0;
      for (int u = 0; u < x.u; ++u)
        base_of += lists[u].size();
      ++x.ops;
      if (x.ops > 1)
        ev(0x0A3, uint64_t(std::min(x.ops, 20)));
      // the vertex's edge iterator: in place, on to the end, back to the beginning
      if (&*x.vi != x.addr || int(x.vi.source_id()) != x.u)
        return fail("held-iterator", "after %s: an edge iterator of vertex %d kept over %d calls is at another edge", after, x.u, x.ops);
      VI it = x.vi;
      for (size_t q = p; q < l.size(); ++q, ++it)
        if (&*it != l[q])
          return fail("held-iterator", "after %s: an edge iterator of vertex %d kept over %d calls goes on to another edge", after, x.u, x.ops);
      if (it != gr.vertices()[x.u].edges_end(gr, id(x.u)))
        return fail("held-iterator", "after %s: an edge iterator of vertex %d kept over %d calls doesn't come to the end", after, x.u, x.ops);
      it = x.vi;
      for (size_t q = p; q > 0;)
        if (&*--it != l[--q])
          return fail("held-iterator", "after %s: an edge iterator of vertex %d kept over %d calls goes back to another edge", after, x.u, x.ops);
      // the neighbour iterator
      NI ni = x.ni;
      for (size_t q = p; q < l.size(); ++q, ++ni) {
        auto* e     = static_cast<const typename G::edge_type*>(l[q]);
        int   other = int(e->list_owner_id()) == x.u ? int(e->list_target_id()) : int(e->list_owner_id());
        if (int(ni.other_vertex_id()) != other || &*ni != &gr.vertices()[other])
          return fail("held-iterator", "after %s: a neighbour iterator of vertex %d kept over %d calls is at another vertex", after, x.u, x.ops);
      }
      // the graph's edge iterator
      EI ei = x.ei;
      for (size_t q = base_of + p; q < all.size(); ++q, ++ei) {
        if (ei == gr.edges().end() || &*ei != all[q])
          return fail("held-iterator", "after %s: a graph-level edge iterator kept over %d calls goes on to another edge", after, x.ops);
      }
      if (!(ei == gr.edges().end()))
        return fail("held-iterator", "after %s: a graph-level edge iterator kept over %d calls doesn't come to the end", after, x.ops);
    }
  }
  void hold(int s, const std::vector<std::vector<const void*>>& lists) {
    G&  gr = *g[s];
    int u  = int(draw(uint32_t(lists.size())));
    for (size_t k = 0; k < lists.size() && lists[u].empty(); ++k)
      u = (u + 1) % int(lists.size());
    if (lists[u].empty())
      return;
    size_t p = draw(uint32_t(lists[u].size()));
    Held   h{u, lists[u][p], gr.vertices()[u].edges_begin(gr, id(u)), gr.edges().begin(), gr.vertices()[u].neighbors(gr, id(u)).begin()};
    for (size_t q = 0; q < p; ++q)
      ++h.vi, ++h.ni;
    size_t before = p;
    for (int w = 0; w < u; ++w)
      before += lists[w].size();
    for (size_t q = 0; q < before; ++q)
      ++h.ei;
    if (chance(1, 4)) { // handles can be swapped
      auto e = gr.vertices()[u].edges_end(gr, id(u));
      auto f = gr.edges().end();
      NI   n = gr.vertices()[u].neighbors(gr, id(u)).end();
      std::ranges::swap(h.vi, e), std::ranges::swap(h.ei, f), std::ranges::swap(h.ni, n);
      h.vi = e, h.ei = f, h.ni = n;
    }
    held[s].push_back(h);
  }

  // ---- choosing elements -----------------------------------------------------------------------------------------
  int  pick_live() { // a slot holding a known graph, or -1
    int s = slot();
    for (int k = 0; k < SLOTS; ++k, s = (s + 1) % SLOTS)
      if (g[s] && !m[s].unknown)
        return s;
    return -1;
  }
  VI iter(int s, int edge, bool from_target) {
    ME& e = m[s].e[edge];
    return VI(*g[s], id(from_target ? e.v : e.u), static_cast<const typename G::edge_type*>(e.addr));
  }
  void reset_addr(MG& x) {
    for (auto& e : x.e)
      e.addr = nullptr;
  }
  void drop(int s, int val) { std::erase_if(m[s].e, [&](auto& e) { return e.val == val; }); }

  // ---- operations -------------------------------------------------------------------------------------------------
  void op_create_vertex(int s) {
    G&  gr   = *g[s];
    int form = draw(has_vv ? 4 : 1);
    int val  = form ? fresh() : 0;
    [[maybe_unused]] VV keep(val);
    typename G::vertex_iterator it{};
    bool ok = mutate("create_vertex", [&] {
      if constexpr (has_vv) {
        if (form == 1)
          it = gr.create_vertex(std::move(keep));
        else if (form == 2)
          it = gr.create_vertex(static_cast<const VV&>(keep));
        else if (form == 3)
          it = gr.create_vertex(val);
      }
      if (form == 0)
        it = gr.create_vertex();
    });
    if (ok) {
      m[s].vv.push_back(val);
      if (it - gr.vertices().begin() != std::ptrdiff_t(m[s].vv.size()) - 1)
        fail("create-vertex", "create_vertex returned another vertex than the one created");
    }
  }

  void op_create_edge(int s, int u, int v) {
    G&   gr   = *g[s];
    int  form = draw(4), val = fresh();
    bool by_it = chance(1, 2);
    EV   keep(form ? val : 0);
    VI   it;
    trace("    create edge %d-%d value %d form %d on graph %d", u, v, val, form, s);
    bool ok = mutate("create_edge", [&] {
      auto ui = gr.vertices().begin() + u, vi = gr.vertices().begin() + v;
      switch (form) {
      case 0: it = by_it ? gr.create_edge(ui, vi) : gr.create_edge(id(u), id(v)); break;
      case 1: it = by_it ? gr.create_edge(ui, vi, std::move(keep)) : gr.create_edge(id(u), id(v), std::move(keep)); break;
      case 2:
        it = by_it ? gr.create_edge(ui, vi, static_cast<const EV&>(keep)) : gr.create_edge(id(u), id(v), static_cast<const EV&>(keep));
        break;
      default: it = by_it ? gr.create_edge(ui, vi, val) : gr.create_edge(id(u), id(v), val); break;
      }
    });
    if (!ok)
      return;
    if (form == 0) {
      if (rd(it->value()) != 0)
        return fail("edge-value", "an edge created without a value has value %d", rd(it->value()));
      it->value() = EV(val);
    }
    if (rd(it->value()) != val || int(it->list_owner_id()) != u || int(it->list_target_id()) != v || int(it.source_id()) != u)
      return fail("create-edge", "create_edge(%d,%d) returned the edge %d-%d value %d", u, v, int(it->list_owner_id()),
                  int(it->list_target_id()), rd(it->value()));
    m[s].e.push_back({u, v, val, &*it});
  }

  // expected successor sequence of edge `from` in the list of vertex u
  std::vector<const void*> rest_of_list(int s, int u, VI from) {
    std::vector<const void*> r;
    for (auto it = from; it != g[s]->vertices()[u].edges_end(*g[s], id(u)) && r.size() < 100000; ++it)
      r.push_back(&*it);
    return r;
  }

  void op_erase_edge(int s) {
    if (m[s].e.empty())
      return;
    int  k    = draw(uint32_t(m[s].e.size()));
    bool tgt  = chance(1, 2);
    ME   e    = m[s].e[k];
    int  u    = tgt ? e.v : e.u;
    auto rest = rest_of_list(s, u, iter(s, k, tgt));
    VI   ret;
    trace("    erase edge %d-%d value %d from %d of graph %d", e.u, e.v, e.val, u, s);
    if (!mutate("vertex::erase_edge", [&] { ret = g[s]->vertices()[u].erase_edge(*g[s], iter(s, k, tgt)); }))
      return fail("erase-failed", "erasing an edge failed");
    drop(s, e.val);
    auto now = rest_of_list(s, u, ret);
    rest.erase(rest.begin());
    if (now != rest)
      fail("erase-next", "erase_edge returned an iterator that isn't the next edge of vertex %d", u);
  }

  void op_erase_range(int s) {
    if (m[s].vv.empty())
      return;
    int              u = draw(uint32_t(m[s].vv.size()));
    std::vector<int> vals;
    G&               gr = *g[s];
    for (auto it = gr.vertices()[u].edges_begin(gr, id(u)); it != gr.vertices()[u].edges_end(gr, id(u)); ++it)
      vals.push_back(rd(it->value()));
    int a = draw(uint32_t(vals.size() + 1)), b = a + draw(uint32_t(vals.size() - a + 1));
    VI  first = gr.vertices()[u].edges_begin(gr, id(u));
    for (int k = 0; k < a; ++k)
      ++first;
    VI last = first;
    for (int k = a; k < b; ++k)
      ++last;
    VI   ret;
    auto want = rest_of_list(s, u, last);
    trace("    erase edges [%d,%d) of vertex %d of graph %d", a, b, u, s);
    if (!mutate("vertex::erase_edge(range)", [&] { ret = gr.vertices()[u].erase_edge(gr, first, last); }))
      return fail("erase-failed", "erasing edges failed");
    for (int k = a; k < b; ++k)
      drop(s, vals[k]);
    if (rest_of_list(s, u, ret) != want)
      fail("erase-next", "erase_edge(first,last) returned another iterator than last");
  }

  void op_clear_edges(int s) {
    if (m[s].vv.empty())
      return;
    int u = draw(uint32_t(m[s].vv.size()));
    trace("    clear edges of vertex %d of graph %d", u, s);
    if (!mutate("clear_edges", [&] { g[s]->vertices()[u].clear_edges(*g[s]); }))
      return fail("erase-failed", "clear_edges failed");
    std::erase_if(m[s].e, [&](auto& e) { return e.u == u || e.v == u; });
  }

  void op_graph_erase(int s) {
    if (m[s].e.empty())
      return;
    G&                                      gr = *g[s];
    std::vector<std::pair<const void*, int>> seq; // (edge, its value)
    EI                                       it(gr, gr.vertices().begin());
    size_t                                   ends = 0;
    for (auto& e : m[s].e)
      ends += e.u == e.v ? 1 : 2;
    for (size_t k = 0; k < ends; ++k, ++it)
      seq.push_back({&*it, rd(it->value())});
    size_t at = draw(uint32_t(ends));
    EI     pos(gr, gr.vertices().begin());
    for (size_t k = 0; k < at; ++k)
      ++pos;
    auto gone = seq[at];
    trace("    erase edge %d through the graph, graph %d", gone.second, s);
    EI ret;
    if (!mutate("graph::erase_edge", [&] { ret = gr.erase_edge(pos); }))
      return fail("erase-failed", "erasing an edge failed");
    drop(s, gone.second);
    std::vector<const void*> want, now;
    for (size_t k = at; k < ends; ++k)
      if (seq[k].first != gone.first)
        want.push_back(seq[k].first);
    for (size_t k = 0; k < want.size(); ++k, ++ret)
      now.push_back(&*ret);
    if (now != want)
      fail("erase-next", "graph erase_edge returned an iterator that isn't the next edge");
  }

  void op_set_values(int s) {
    if (!m[s].e.empty()) {
      int k   = draw(uint32_t(m[s].e.size()));
      int val = fresh();
      auto& e = m[s].e[k];
      Env   env;
      if (chance(1, 2)) {
        auto ud = *graph::find_vertex(*g[s], id(e.v));
        for (auto&& uv : graph::edges(*g[s], ud))
          if (rd(graph::edge_value(*g[s], uv)) == e.val) {
            graph::edge_value(*g[s], uv) = EV(val);
            break;
          }
      } else
        iter(s, k, chance(1, 2))->value() = EV(val);
      e.val = val;
    }
    if constexpr (has_vv)
      if (!m[s].vv.empty()) {
        int u = draw(uint32_t(m[s].vv.size())), val = fresh();
        graph::vertex_value(*g[s], *graph::find_vertex(*g[s], id(u))) = VV(val);
        m[s].vv[u]                                                    = val;
      }
    if constexpr (has_gv) {
      m[s].gv             = fresh();
      g[s]->graph_value() = GV(m[s].gv);
    }
  }

  void op_resize(int s) {
    int n = int(m[s].vv.size());
    int keep = 0;
    for (auto& e : m[s].e)
      keep = std::max({keep, e.u + 1, e.v + 1});
    int to = range(keep, std::min(max_n, n + 6) < keep ? keep : std::min(max_n, n + 6));
    trace("    resize graph %d to %d", s, to);
    if (chance(1, 3))
      mutate("reserve_vertices", [&] { g[s]->reserve_vertices(size_t(to)); });
    if constexpr (has_vv)
      if (chance(1, 2)) {
        int val = fresh();
        VV  keep_val(val);
        if (mutate("resize_vertices(n, value)", [&] { g[s]->resize_vertices(size_t(to), keep_val); }))
          m[s].vv.resize(size_t(to), val);
        return;
      }
    if (mutate("resize_vertices", [&] { g[s]->resize_vertices(size_t(to)); }))
      m[s].vv.resize(size_t(to), 0);
  }

  void op_clear(int s) {
    if (!mutate("clear", [&] { g[s]->clear(); }))
      return fail("clear-failed", "clear() failed");
    held[s].clear();
    int gv       = m[s].gv;
    bool unknown = m[s].unknown;
    m[s]         = {};
    m[s].gv      = gv;
    if constexpr (has_gv)
      if (unknown)
        m[s].gv = rd(g[s]->graph_value());
  }

  void op_copy_construct(int from) {
    int to = slot();
    if (to == from)
      return;
    std::unique_ptr<G> n;
    bool ok = mutate("copy constructor", [&] { n = std::make_unique<G>(static_cast<const G&>(*g[from])); });
    if (ok) {
      g[to] = std::move(n);
      m[to] = m[from];
      held[to].clear();
      reset_addr(m[to]);
    }
    verify(from, "being copied");
    verify(to, "copy construction");
  }
  void op_move_construct(int from) {
    int to = slot();
    if (to == from)
      return;
    std::unique_ptr<G> n;
    // the allocation of the new object itself is the harness's, in ENV scope, so nothing can fail
    bool ok = mutate("move constructor", [&] {
      Env env;
      n = std::make_unique<G>(std::move(*g[from]));
    });
    if (!ok)
      return;
    g[to]           = std::move(n);
    m[to]           = m[from];
    m[from].unknown = true;
    held[to].clear(), held[from].clear();
    verify(from, "being moved from");
    verify(to, "move construction");
  }
  void op_assign(int from) {
    int to = slot();
    if (!g[to])
      return;
    bool move = chance(1, 2);
    if (!move || to == from) { // copy assignment (also to itself)
      bool self = to == from;
      bool ok   = mutate(self ? "self assignment" : "copy assignment", [&] { *g[to] = static_cast<const G&>(*g[from]); });
      if (ok && !self) {
        held[to].clear();
        m[to] = m[from];
        reset_addr(m[to]);
      }
      verify(from, "being copied");
      verify(to, ok ? "copy assignment" : "a failed copy assignment");
    } else {
      if (!mutate("move assignment", [&] { *g[to] = std::move(*g[from]); }))
        return fail("move-failed", "move assignment failed");
      m[to]           = m[from];
      m[from].unknown = true;
      held[to].clear(), held[from].clear();
      verify(from, "being moved from");
      verify(to, "move assignment");
    }
  }
  void op_swap(int a) {
    int b = slot();
    if (b == a || !g[b])
      return;
    if (!mutate("swap", [&] { g[a]->swap(*g[b]); }))
      return fail("swap-failed", "swap failed");
    std::swap(m[a], m[b]);
    held[a].clear(), held[b].clear();
    verify(b, "swap");
  }

  void op_construct() {
    int                s = slot();
    std::unique_ptr<G> n;
    MG                 mod;
    const Alloc        a = al();
    int                form = draw(4), nv = wide && chance(1, 2) ? range(max_n - 6, max_n) : range(0, std::min(max_n, 8)), ne = range(0, 12);
    std::vector<RowE>  er;
    std::vector<RowV>  vr;
    if (form == 0) {
      if constexpr (has_gv) {
        mod.gv = fresh();
        GV gv(mod.gv);
        if (!mutate("constructor(graph value)", [&] { n = chance(1, 2) ? std::make_unique<G>(static_cast<const GV&>(gv), a) : std::make_unique<G>(std::move(gv), a); }))
          return;
      } else if (!mutate("default constructor", [&] { n = std::make_unique<G>(a); }))
        return;
    } else if (form == 1) { // initializer list
      ne      = range(1, 4);
      int top = 0;
      std::vector<std::tuple<VId, VId, EV>> t;
      std::vector<std::tuple<VId, VId>>     p;
      const bool                            plain = chance(1, 3); // without values
      for (int k = 0; k < ne; ++k) {
        int u = draw(uint32_t(std::max(nv, 1))), v = draw(uint32_t(std::max(nv, 1))), val = plain ? 0 : fresh();
        top = std::max({top, u, v});
        mod.e.push_back({u, v, val});
        t.emplace_back(id(u), id(v), EV(val));
        p.emplace_back(id(u), id(v));
      }
      mod.vv.assign(size_t(top + 1), 0);
      using IL = std::initializer_list<std::tuple<VId, VId, EV>>;
      bool ok  = mutate("constructor(initializer list)", [&] {
        if (plain) {
          using IL2 = std::initializer_list<std::tuple<VId, VId>>;
          switch (ne) {
          case 1: { Env e; IL2 il{p[0]}; Sut s; n = std::make_unique<G>(il, a); break; }
          case 2: { Env e; IL2 il{p[0], p[1]}; Sut s; n = std::make_unique<G>(il, a); break; }
          case 3: { Env e; IL2 il{p[0], p[1], p[2]}; Sut s; n = std::make_unique<G>(il, a); break; }
          default: { Env e; IL2 il{p[0], p[1], p[2], p[3]}; Sut s; n = std::make_unique<G>(il, a); break; }
          }
          return;
        }
        switch (ne) {
        case 1: { Env e; IL il{t[0]}; Sut s; n = std::make_unique<G>(il, a); break; }
        case 2: { Env e; IL il{t[0], t[1]}; Sut s; n = std::make_unique<G>(il, a); break; }
        case 3: { Env e; IL il{t[0], t[1], t[2]}; Sut s; n = std::make_unique<G>(il, a); break; }
        default: { Env e; IL il{t[0], t[1], t[2], t[3]}; Sut s; n = std::make_unique<G>(il, a); break; }
        }
      });
      if (!ok)
        return;
      if (plain) // give the edges the values that the model tells them apart by
        for (int u = 0; u <= top; ++u) {
          int left = ne + 1;
          for (auto it = n->vertices()[u].edges_begin(*n, id(u)); left-- && it != n->vertices()[u].edges_end(*n, id(u)); ++it)
            if (rd(it->value()) == 0 && int(it->list_owner_id()) == u) {
              auto f = std::find_if(mod.e.begin(), mod.e.end(), [&](auto& e) { return !e.val && e.u == u && e.v == int(it->list_target_id()); });
              if (f == mod.e.end())
                return fail("edge-ends", "an initializer list made an edge %d-%d too many", u, int(it->list_target_id()));
              it->value() = EV(f->val = fresh());
            }
        }
    } else { // edge (and vertex) ranges
      bool with_v = form == 3;
      int  top = with_v ? nv - 1 : -1, lim = std::in_range<VId>(nv) ? nv + 1 : nv;
      for (int k = 0; k < ne; ++k)
        er.push_back({int(draw(uint32_t(lim))), int(draw(uint32_t(lim))), fresh()});
      bool unsorted = false;
      if (!chance(1, 6))
        std::stable_sort(er.begin(), er.end(), [](auto& a, auto& b) { return a.s < b.s; });
      for (size_t k = 0; k + 1 < er.size(); ++k)
        unsorted |= er[k + 1].s < er[k].s;
      for (auto& e : er) {
        top = std::max({top, e.s, e.t});
        mod.e.push_back({e.s, e.t, e.val});
      }
      mod.vv.assign(size_t(top + 1), 0);
      if (with_v)
        for (int k = 0; k < nv; ++k) {
          vr.push_back({k, fresh()});
          if (has_vv)
            mod.vv[k] = vr[k].val;
        }
      auto ep = [](const RowE& r) {
        Callback c(true, K_CALLBACK);
        return graph::copyable_edge_t<VId, EV>{static_cast<VId>(r.s), static_cast<VId>(r.t), EV(r.val)};
      };
      auto vp = [](const RowV& r) {
        Callback c(true, K_CALLBACK);
        return graph::copyable_vertex_t<VId, std::conditional_t<has_vv, VV, int>>{static_cast<VId>(r.id), r.val};
      };
      mod.gv = has_gv ? fresh() : 0;
      std::optional<std::conditional_t<has_gv, GV, int>> gv;
      gv.emplace(mod.gv);
      bool armed = chance(g_fault_rate, 100);
      if (armed) {
        Kind k = draw(3) == 0 ? K_ALLOC : draw(2) == 0 ? K_COPY : K_CALLBACK;
        arm(k, 1 + (chance(1, 2) ? draw(60) : draw(6)));
      }
      Outcome o = attempt([&] {
        if constexpr (has_gv) {
          if (with_v)
            n = std::make_unique<G>(er, vr, ep, vp, static_cast<const GV&>(*gv), a);
          else
            n = std::make_unique<G>(er, ep, static_cast<const GV&>(*gv), a);
        } else if (with_v)
          n = std::make_unique<G>(er, vr, ep, vp, a);
        else
          n = std::make_unique<G>(er, ep, a);
      });
      bool hit = armed && disarm();
      trace("  [task %d] loading constructor (%d vertices, %d edges%s) -> %s %s", task_id(), with_v ? nv : 0, ne,
            unsorted ? ", unsorted" : "", what_name[o.what], o.msg.c_str());
      ev(0x0A2, uint64_t(o.what));
      if (hit ? o.what != W_INJECTED : unsorted ? o.what != W_INVALID_ARGUMENT : o.what != W_NONE)
        return fail(hit ? "fault-swallowed" : "load-outcome", "loading constructor (%s%s) -> %s %s", hit ? "faulted " : "",
                    unsorted ? "unsorted edges" : "sorted edges", what_name[o.what], o.msg.c_str());
      if (o.what != W_NONE)
        return;
    }
    g[s] = std::move(n);
    m[s] = std::move(mod);
    held[s].clear();
    verify(s, form == 0 ? "construction" : form == 1 ? "construction from an initializer list" : "construction from ranges");
  }

  void run(int ops) {
    wide  = chance(1, 150); // as many vertices, or more, as a narrow id has values
    max_n = wide ? (sizeof(VId) == 1 ? 256 : range(257, 400)) : range(2, 14);
    max_e = range(4, 60);
    if (wide)
      ops = std::min(ops, 25);
    {
      int s = 0;
      g[s]  = std::make_unique<G>();
      m[s]  = {};
      int n = range(1, max_n);
      if (wide) {
        if (mutate("resize_vertices", [&] { g[s]->resize_vertices(size_t(max_n - 2)); }))
          m[s].vv.resize(size_t(max_n - 2), 0);
        n = range(0, 2);
      }
      for (int k = 0; k < n && !failed(); ++k)
        op_create_vertex(s);
      if (wide && !m[s].vv.empty() && chance(1, 2)) { // a vertex with hundreds of edges
        int u = range(0, int(m[s].vv.size()) - 1);
        for (int k = range(250, 300); k > 0 && !failed(); --k)
          op_create_edge(s, u, k % 2 ? u : k % int(m[s].vv.size()));
      }
      verify(s, "filling a graph");
    }
    // swarm: which operations this run uses, and how much it favours creation
    uint32_t mask = draw(0x1000) | (chance(1, 2) ? 0xFFF : 0);
    uint32_t grow = range(1, 4);
    for (int k = 0; k < ops && !failed(); ++k) {
      int s = pick_live();
      if (s < 0 || chance(1, 40)) {
        op_construct();
        continue;
      }
      int n = int(m[s].vv.size());
      if (n > 0 && int(m[s].e.size()) < max_e && draw(5) < grow) {
        // clustered endpoints make parallel edges and self-loops likely
        int a = draw(uint32_t(n)), b = chance(1, 3) ? a : chance(1, 3) ? (a + 1) % n : int(draw(uint32_t(n)));
        op_create_edge(s, a, b);
        verify(s, "create_edge");
        continue;
      }
      int op = draw(13);
      if (!(mask >> op & 1) && op < 12)
        op = draw(2) ? 0 : 2;
      switch (op) {
      case 0:
        if (n < max_n)
          op_create_vertex(s), verify(s, "create_vertex");
        break;
      case 1: op_set_values(s), verify(s, "assigning values"); break;
      case 2: op_erase_edge(s), verify(s, "erase_edge"); break;
      case 3: op_erase_range(s), verify(s, "erase_edge(first,last)"); break;
      case 4: op_clear_edges(s), verify(s, "clear_edges"); break;
      case 5: op_graph_erase(s), verify(s, "graph erase_edge"); break;
      case 6:
        if (chance(1, 3))
          op_clear(s), verify(s, "clear");
        break;
      case 7: op_copy_construct(s); break;
      case 8: op_move_construct(s); break;
      case 9: op_assign(s); break;
      case 10: op_swap(s), verify(s, "swap"); break;
      case 11: op_resize(s), verify(s, "resize_vertices"); break;
      default: // a moved-from graph is cleared and used again, or destroyed
        for (int t = 0; t < SLOTS; ++t)
          if (g[t] && m[t].unknown) {
            if (chance(1, 2)) {
              op_clear(t);
              verify(t, "clear of a moved-from graph");
            } else
              g[t].reset(), m[t] = {}, held[t].clear();
          }
      }
    }
    for (int s = 0; s < SLOTS; ++s) {
      verify(s, "everything");
      g[s].reset();
    }
  }
};

template <class M>
void task(int ops) {
  int64_t live0 = task_live();
  {
    auto mc = std::make_unique<M>();
    mc->run(ops);
  }
  if (!failed() && task_live() != live0)
    fail("leak", "%lld allocation(s) are left after all graphs were destroyed", static_cast<long long>(task_live() - live0));
}

void history(int max_ops) {
  g_fault_rate  = std::vector<uint32_t>{0, 5, 20, 50}[draw(4)];
  int64_t val0  = Val::live + ValT::live;
  int     tasks = 1 + draw(2);
  for (int t = 0; t < tasks; ++t) {
    int kind = draw(5), ops = range(3, max_ops);
    spawn([=] {
      switch (kind) {
      case 0: task<Machine<Val, Val, void, uint32_t>>(ops); break;
      case 1: task<Machine<Val, Val, Val, uint64_t>>(ops); break;
      case 2: task<Machine<ValT, Val, int, int>>(ops); break; // every construction of an edge's value may fail
      case 3: task<Machine<Val, int, int, uint16_t, TagAlloc<char>>>(ops); break;
      default: task<Machine<int, int, int, uint8_t>>(ops); break;
      }
    });
  }
  run_tasks();
  if (!failed() && Val::live + ValT::live != val0)
    fail("value-leak", "%lld element value(s) are still alive after all graphs were destroyed", static_cast<long long>(Val::live + ValT::live - val0));
}

} // namespace

SCENARIO("short histories", 4) { history(25); }
SCENARIO("long histories", 1) { history(200); }
