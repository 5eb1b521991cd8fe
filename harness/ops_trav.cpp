// Breadth-first and depth-first search algorithms: the visitor protocol against the model.
#include "world.hpp"

#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>

#include <graph/views/transpose.hpp>

#include <algorithm>
#include <list>
#include <map>

using namespace sim;
namespace ga = graph::adj_list;

namespace {

enum EvKind { E_INIT, E_START, E_DISC, E_EXV, E_EXE, E_TREE, E_BACK, E_CROSS, E_FINE, E_FIN };
struct Event {
  EvKind k;
  int    a, b;
};
struct Recorder {
  std::vector<Event> ev_;
  void               put(EvKind k, int a, int b = -1) {
    ev_.push_back({k, a, b});
    ev(0x200 + k, static_cast<uint64_t>(a), static_cast<uint64_t>(b));
  }
};

// A visitor that listens for the events in MASK (bits of EvKind) only, its vertex events taking a descriptor or an id. It
// counts its own events: a search that worked on a copy of the visitor would leave the caller's at zero.
template <class G, unsigned MASK, bool ID>
struct Vis {
  Recorder* r;
  size_t    n = 0;
  template <class E>
  void edge(EvKind k, const G& g, const E& e) {
    Callback cb;
    auto&    mg = const_cast<G&>(g);
    ++n;
    r->put(k, static_cast<int>(ga::source_id(mg, e)), static_cast<int>(ga::target_id(mg, e)));
  }
  void vx(EvKind k, const G& g, const ga::vertex_t<G>& u) {
    Callback cb;
    ++n;
    r->put(k, static_cast<int>(ga::vertex_id(const_cast<G&>(g), u)));
  }
  void vx(EvKind k, const ga::vertex_id_t<G>& u) {
    Callback cb;
    ++n;
    r->put(k, static_cast<int>(u));
  }
#define EDGE_EVENT(name, K)                                                                                            \
  void name(const G& g, const ga::edge_t<G>& e)                                                                        \
    requires((MASK >> K & 1) != 0)                                                                                     \
  {                                                                                                                    \
    edge(K, g, e);                                                                                                     \
  }
#define VERTEX_EVENT(name, K)                                                                                          \
  void name(const G& g, const ga::vertex_t<G>& u)                                                                      \
    requires((MASK >> K & 1) != 0 && !ID)                                                                              \
  {                                                                                                                    \
    vx(K, g, u);                                                                                                       \
  }                                                                                                                    \
  void name(const G&, const ga::vertex_id_t<G>& u)                                                                     \
    requires((MASK >> K & 1) != 0 && ID)                                                                               \
  {                                                                                                                    \
    vx(K, u);                                                                                                          \
  }
  EDGE_EVENT(on_examine_edge, E_EXE)
  EDGE_EVENT(on_tree_edge, E_TREE)
  EDGE_EVENT(on_back_edge, E_BACK)
  EDGE_EVENT(on_forward_or_cross_edge, E_CROSS)
  EDGE_EVENT(on_finish_edge, E_FINE)
  VERTEX_EVENT(on_initialize_vertex, E_INIT)
  VERTEX_EVENT(on_start_vertex, E_START)
  VERTEX_EVENT(on_discover_vertex, E_DISC)
  VERTEX_EVENT(on_examine_vertex, E_EXV)
  VERTEX_EVENT(on_finish_vertex, E_FIN)
#undef EDGE_EVENT
#undef VERTEX_EVENT
};
constexpr unsigned V_NONE = 0, V_ALL = 0x3ff;

std::vector<int> levels(const Model& m, const std::vector<int>& src) {
  std::vector<int> d(static_cast<size_t>(m.n), -1), q;
  for (int s : src)
    if (d[static_cast<size_t>(s)] < 0) {
      d[static_cast<size_t>(s)] = 0;
      q.push_back(s);
    }
  for (size_t i = 0; i < q.size(); ++i)
    for (auto& a : m.out[static_cast<size_t>(q[i])])
      if (d[static_cast<size_t>(a.to)] < 0) {
        d[static_cast<size_t>(a.to)] = d[static_cast<size_t>(q[i])] + 1;
        q.push_back(a.to);
      }
  return d;
}

using Arcs = std::map<int, int>;
Arcs arcs_of(const Model& m, size_t u) {
  Arcs r;
  for (auto& x : m.out[u])
    ++r[x.to];
  return r;
}

struct Bad {
  const char* algo;
  void        operator()(size_t i, const char* why) const { fail("visitor-protocol", "%s event %zu: %s", algo, i, why); }
};

void check_bfs(const Model& m, const std::vector<int>& src, const std::vector<Event>& E) {
  Bad bad{"breadth_first_search"};
  const size_t     n   = static_cast<size_t>(m.n);
  auto             ref = levels(m, src);
  std::vector<int> lvl(n, -1), init(n, 0), exam(n, 0);
  size_t           i = 0, seen = 0;
  std::vector<int> order; // discovery order = examination order
  for (; i < E.size() && (E[i].k == E_INIT || E[i].k == E_DISC); ++i) {
    size_t v = static_cast<size_t>(E[i].a);
    if (E[i].k == E_INIT) {
      ++init[v];
      continue;
    }
    if (std::find(src.begin(), src.end(), E[i].a) == src.end() || lvl[v] >= 0)
      return bad(i, "a source was discovered twice, or another vertex before the search started");
    if (init[v] != 1)
      return bad(i, "a source was not initialised exactly once before it was discovered");
    lvl[v] = 0;
    order.push_back(E[i].a);
    ++seen;
  }
  if (seen != src.size())
    return bad(i, "not every source was discovered");
  size_t head = 0;
  while (i < E.size()) {
    if (E[i].k != E_EXV)
      return bad(i, "expected the examination of a vertex");
    size_t u = static_cast<size_t>(E[i++].a);
    if (lvl[u] < 0 || exam[u]++)
      return bad(i, "a vertex was examined twice or before it was discovered");
    if (head >= order.size() || lvl[static_cast<size_t>(order[head])] != lvl[u])
      return bad(i, "vertices are not examined in order of distance");
    ++head;
    Arcs left = arcs_of(m, u);
    while (i < E.size() && E[i].k == E_EXE) {
      Event e = E[i++];
      if (static_cast<size_t>(e.a) != u || --left[e.b] < 0)
        return bad(i, "an examined edge is not an unexamined edge of the examined vertex");
      size_t v = static_cast<size_t>(e.b);
      if (lvl[v] < 0) {
        if (i >= E.size() || E[i].k != E_DISC || static_cast<size_t>(E[i].a) != v)
          return bad(i, "a newly reached vertex was not discovered at once");
        ++i;
        lvl[v] = lvl[u] + 1;
        order.push_back(e.b);
      }
    }
    for (auto& [k, c] : left)
      if (c)
        return bad(i, "an edge of an examined vertex was not examined");
    if (i >= E.size() || E[i].k != E_FIN || static_cast<size_t>(E[i].a) != u)
      return bad(i, "an examined vertex was not finished");
    ++i;
  }
  for (size_t v = 0; v < n; ++v)
    if (lvl[v] != ref[v] || exam[v] != (ref[v] >= 0))
      return bad(i, "the vertices visited, or their levels, are not those of a breadth-first search");
}

void check_dfs(const Model& m, int src, const std::vector<Event>& E) {
  Bad              bad{"depth_first_search"};
  std::vector<int> srcs{src};
  const size_t     n   = static_cast<size_t>(m.n);
  auto             ref = levels(m, srcs);
  std::vector<int> colour(n, 0), stack;
  std::vector<Arcs> left(n);
  std::map<std::pair<int, int>, int> open; // classified, not yet finished
  size_t           i    = 0;
  int              next = -1; // a tree edge leads here: it must be discovered next
  if (E.size() < 3 || E[0].k != E_INIT || E[1].k != E_START || E[0].a != src || E[1].a != src)
    return bad(0, "the search doesn't begin by initialising and starting the source");
  i    = 2;
  next = src;
  for (; i < E.size(); ++i) {
    Event e = E[i];
    switch (e.k) {
    case E_DISC: {
      size_t v = static_cast<size_t>(e.a);
      if (e.a != next || colour[v] != 0)
        return bad(i, "a vertex was discovered twice or without a tree edge leading to it");
      next      = -1;
      colour[v] = 1;
      stack.push_back(e.a);
      left[v] = arcs_of(m, v);
      break;
    }
    case E_EXE: {
      if (next >= 0 || stack.empty() || stack.back() != e.a)
        return bad(i, "an edge was examined that doesn't leave the vertex being visited");
      if (--left[static_cast<size_t>(e.a)][e.b] < 0)
        return bad(i, "an edge was examined twice or doesn't exist");
      int    c    = colour[static_cast<size_t>(e.b)];
      EvKind want = c == 0 ? E_TREE : c == 1 ? E_BACK : E_CROSS;
      if (i + 1 >= E.size() || E[i + 1].k != want || E[i + 1].a != e.a || E[i + 1].b != e.b)
        return bad(i + 1, "an examined edge was not classified as tree, back or forward/cross edge as its target requires");
      ++i;
      ++open[{e.a, e.b}];
      if (want == E_TREE)
        next = e.b;
      break;
    }
    case E_FINE:
      if (--open[{e.a, e.b}] < 0)
        return bad(i, "an edge was finished twice or before it was examined");
      break;
    case E_FIN: {
      if (next >= 0 || stack.empty() || stack.back() != e.a)
        return bad(i, "a vertex was finished out of nesting order");
      for (auto& [k, c] : left[static_cast<size_t>(e.a)])
        if (c)
          return bad(i, "a vertex was finished before all its edges were examined");
      colour[static_cast<size_t>(e.a)] = 2;
      stack.pop_back();
      break;
    }
    default: return bad(i, "an event that doesn't belong to this search");
    }
  }
  for (auto& [k, c] : open)
    if (c)
      return bad(i, "an examined edge was never finished");
  for (size_t v = 0; v < n; ++v)
    if (colour[v] != (ref[v] >= 0 ? 2 : 0))
      return bad(i, "the vertices visited are not those reachable");
}

template <bool BFS, class G, unsigned MASK, bool ID>
struct Call {
  World&                  w;
  G&                      g;
  const std::vector<int>& src;
  int                     form; // 0 single source, 1 vector, 2 list
  Recorder                rec;
  Call(World& w_, G& g_, const std::vector<int>& s, int f) : w(w_), g(g_), src(s), form(f) {}
  template <class V>
  void go(V&& v) {
    if constexpr (BFS) {
      if (form == 0)
        graph::breadth_first_search(g, static_cast<ga::vertex_id_t<G>>(src[0]), v);
      else if (form == 1) {
        std::vector<ga::vertex_id_t<G>> s;
        {
          Env e;
          s.assign(src.begin(), src.end());
        }
        graph::breadth_first_search(g, s, v);
        Env e;
        std::vector<ga::vertex_id_t<G>>().swap(s);
      } else {
        std::list<ga::vertex_id_t<G>> s;
        {
          Env e;
          s.assign(src.begin(), src.end());
        }
        graph::breadth_first_search(g, s, v);
        Env e;
        s.clear();
      }
    } else
      graph::depth_first_search(g, static_cast<ga::vertex_id_t<G>>(src[0]), v);
  }
  void invoke() {
    if constexpr (MASK == V_NONE)
      go(graph::empty_visitor{});
    else {
      Vis<G, MASK, ID> v{&rec};
      go(v);
      if (v.n != rec.ev_.size())
        fail("visitor-protocol", "the search called a copy of the visitor");
    }
  }
  void verify(const Outcome& o) {
    const char* nm = BFS ? "breadth_first_search" : "depth_first_search";
    if (o.threw())
      return fail("unexpected-exception", "%s threw %s %s", nm, what_name[o.what], o.msg.c_str());
    if constexpr (MASK == V_NONE)
      return;
    else if constexpr (MASK == V_ALL) {
      if constexpr (BFS)
        check_bfs(w.m, src, rec.ev_);
      else
        check_dfs(w.m, src[0], rec.ev_);
    } else { // the same search, heard in full: what a visitor listens for is not what the search does
      Call<BFS, G, V_ALL, ID> all(w, g, src, form);
      Outcome                 ao = attempt([&] { all.invoke(); });
      all.verify(ao);
      if (failed())
        return;
      std::erase_if(all.rec.ev_, [](const Event& e) { return !(MASK >> e.k & 1); });
      if (all.rec.ev_.size() != rec.ev_.size())
        return fail("visitor-protocol", "%s reported %zu events to a visitor that listens for some events only; the search has %zu of them", nm,
                    rec.ev_.size(), all.rec.ev_.size());
      for (size_t i = 0; i < rec.ev_.size(); ++i) {
        auto &x = rec.ev_[i], &y = all.rec.ev_[i];
        if (x.k != y.k || x.a != y.a || x.b != y.b)
          return fail("visitor-protocol", "%s event %zu differs between a visitor for some events and one for all", nm, i);
      }
    }
  }
};

template <bool BFS, bool SOME = false, class G>
void on_graph(World& w, G& g) {
  std::vector<int> src{range(0, w.m.n - 1)};
  int              form = 0;
  if (BFS && chance(1, 2)) {
    form  = range(1, 2);
    int k = range(0, 3);
    if (k == 0)
      src.clear();
    for (int i = 1; i < k; ++i) {
      int s = range(0, w.m.n - 1);
      if (std::find(src.begin(), src.end(), s) == src.end())
        src.push_back(s);
    }
  }
  const char* nm = BFS ? "breadth_first_search" : "depth_first_search";
  auto go = [&]<unsigned MASK, bool ID>() { drive(nm, [&] { return std::make_unique<Call<BFS, G, MASK, ID>>(w, g, src, form); }); };
  if constexpr (SOME) {
    if (chance(1, 4)) {
      switch (draw(BFS ? 6 : 10)) {
      case 0: return go.template operator()<1 << E_DISC, true>();
      case 1: return go.template operator()<1 << E_FIN, false>();
      case 2: return go.template operator()<1 << E_EXE, true>();
      case 3: return go.template operator()<1 << E_INIT | 1 << E_START, true>();
      case 4: return go.template operator()<1 << E_DISC | 1 << E_FINE, false>();
      case 5:
        if constexpr (BFS)
          return go.template operator()<1 << E_EXV, false>();
        else
          return go.template operator()<1 << E_FINE, true>();
      default:
        if constexpr (!BFS)
          switch (draw(4)) {
          case 0: return go.template operator()<1 << E_TREE, true>();
          case 1: return go.template operator()<1 << E_BACK, true>();
          case 2: return go.template operator()<1 << E_CROSS, true>();
          default: return go.template operator()<1 << E_FIN | 1 << E_BACK, true>();
          }
      }
      return;
    }
  }
  switch (draw(8)) {
  case 7: return go.template operator()<V_NONE, false>();
  case 0:
  case 1:
  case 2: return go.template operator()<V_ALL, true>();
  default: return go.template operator()<V_ALL, false>();
  }
}

template <bool BFS>
void one(World& w) {
  if (w.m.n == 0)
    return;
  switch (draw(8)) {
  case 1: return on_graph<BFS, true>(w, w.vvp);
  case 2: return maybe_const(w.vov, [&](auto& g) { on_graph<BFS>(w, g); });
  case 3: return on_graph<BFS>(w, w.dofl);
  case 4: return on_graph<BFS, true>(w, w.bil);
  case 5:
    if (w.narrow())
      return on_graph<BFS>(w, w.cg8);
    if (w.has_cg)
      return maybe_const(w.cg, [&](auto& g) { on_graph<BFS>(w, g); });
    [[fallthrough]];
  case 6:
  case 7:
    if (w.has_ual)
      return maybe_const(w.ual, [&](auto& g) { on_graph<BFS>(w, g); });
    [[fallthrough]];
  default: return on_graph<BFS>(w, w.vvi);
  }
}

#ifdef TRANSPOSED // searches along incoming edges, against the reversed model
template <bool BFS>
void transposed(World& w) {
  if (w.m.n == 0)
    return;
  World rw = reversed(w);
  if (chance(1, 2)) {
    graph::views::transpose_view<BI> tv(w.bi);
    return on_graph<BFS>(rw, tv);
  }
  graph::views::transpose_view<BIL> tv(w.bil);
  on_graph<BFS>(rw, tv);
}
OP("breadth_first_search, transposed", 5, ANY) { transposed<true>(w); }
OP("depth_first_search, transposed", 5, ANY) { transposed<false>(w); }
#else
OP("breadth_first_search", 5, ANY) { one<true>(w); }
OP("depth_first_search", 5, ANY) { one<false>(w); }
#endif

} // namespace
