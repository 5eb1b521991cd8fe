// Shortest paths: Dijkstra, Bellman-Ford, negative cycles; every overload, several distance types, visitors with
// descriptor and with id callbacks, default and custom comparison/combination.
#include "world.hpp"

#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>

#include <graph/views/transpose.hpp>

#include <algorithm>
#include <deque>
#include <list>
#include <map>

using namespace sim;
namespace ga = graph::adj_list;

namespace {

constexpr int64_t INF = INT64_MAX;

enum EvKind { E_INIT, E_DISC, E_EXV, E_EXE, E_REL, E_NREL, E_MIN, E_NMIN, E_FIN };
struct Event {
  EvKind k;
  int    a, b; // vertex, or edge source and target
  int    w;    // stored edge value
};

struct Recorder {
  std::vector<Event> ev_;
  void               put(EvKind k, int a, int b = -1, int w = 0) {
    ev_.push_back({k, a, b, w});
    ev(0x100 + k, static_cast<uint64_t>(a), static_cast<uint64_t>(b));
  }
};

// A visitor that listens for the events in VIS (bits of EvKind) only, its vertex events taking a descriptor or, with BY_ID,
// an id. It counts its own events: a search that worked on a copy of the visitor would leave the caller's at zero.
constexpr unsigned V_NONE = 0, V_DESC = 0x1ff, BY_ID = 0x200, V_ID = V_DESC | BY_ID;
template <class G, unsigned VIS>
struct Visitor {
  Recorder* r;
  size_t    n = 0;
  template <class E>
  void edge(EvKind k, const G& g, const E& e) {
    Callback cb;
    auto&    mg = const_cast<G&>(g);
    ++n;
    r->put(k, static_cast<int>(ga::source_id(mg, e)), static_cast<int>(ga::target_id(mg, e)),
           static_cast<int>(ga::edge_value(mg, e)));
  }
  void vx(EvKind k, const G& g, const ga::vertex_t<G>& u) {
    Callback cb;
    ++n;
    r->put(k, static_cast<int>(ga::vertex_id(const_cast<G&>(g), u)));
  }
  void vx(EvKind k, const ga::vertex_id_t<G>& u) {
    Callback cb;
    ++n;
    r->put(k, static_cast<int>(u));
  }
#define EDGE_EVENT(name, K)                                                                                            \
  void name(const G& g, const ga::edge_t<G>& e)                                                                        \
    requires((VIS >> K & 1) != 0)                                                                                      \
  {                                                                                                                    \
    edge(K, g, e);                                                                                                     \
  }
#define VERTEX_EVENT(name, K)                                                                                          \
  void name(const G& g, const ga::vertex_t<G>& u)                                                                      \
    requires((VIS >> K & 1) != 0 && !(VIS & BY_ID))                                                                    \
  {                                                                                                                    \
    vx(K, g, u);                                                                                                       \
  }                                                                                                                    \
  void name(const G&, const ga::vertex_id_t<G>& u)                                                                     \
    requires((VIS >> K & 1) != 0 && (VIS & BY_ID) != 0)                                                                \
  {                                                                                                                    \
    vx(K, u);                                                                                                          \
  }
  EDGE_EVENT(on_examine_edge, E_EXE)
  EDGE_EVENT(on_edge_relaxed, E_REL)
  EDGE_EVENT(on_edge_not_relaxed, E_NREL)
  EDGE_EVENT(on_edge_minimized, E_MIN)
  EDGE_EVENT(on_edge_not_minimized, E_NMIN)
  VERTEX_EVENT(on_initialize_vertex, E_INIT)
  VERTEX_EVENT(on_discover_vertex, E_DISC)
  VERTEX_EVENT(on_examine_vertex, E_EXV)
  VERTEX_EVENT(on_finish_vertex, E_FIN)
#undef EDGE_EVENT
#undef VERTEX_EVENT
};

enum Mode { M_PLUS, M_MINIMAX };

int64_t comb(Mode m, int64_t d, int64_t w) { return m == M_PLUS ? d + w : std::max(d, w); }

// reference: least distance from the sources; *neg is set if a negative cycle is reachable
std::vector<int64_t> reference(const Model& m, const std::vector<int>& src, Mode mode, const std::function<int64_t(int)>& wt,
                               bool* neg) {
  std::vector<int64_t> d(static_cast<size_t>(m.n), INF);
  for (int s : src)
    d[static_cast<size_t>(s)] = 0;
  *neg = false;
  bool nonneg = true;
  for (auto& e : m.e)
    nonneg = nonneg && wt(e.w) >= 0;
  if (m.n > 300 && nonneg) { // large
    std::vector<std::pair<int64_t, size_t>> q;
    for (size_t u = 0; u < d.size(); ++u)
      if (d[u] == 0)
        q.push_back({0, u});
    std::make_heap(q.begin(), q.end(), std::greater<>());
    while (!q.empty()) {
      std::pop_heap(q.begin(), q.end(), std::greater<>());
      auto [x, u] = q.back();
      q.pop_back();
      if (x > d[u])
        continue;
      for (auto& a : m.out[u]) {
        int64_t y = comb(mode, x, wt(a.w));
        if (y < d[static_cast<size_t>(a.to)]) {
          d[static_cast<size_t>(a.to)] = y;
          q.push_back({y, static_cast<size_t>(a.to)});
          std::push_heap(q.begin(), q.end(), std::greater<>());
        }
      }
    }
    return d;
  }
  for (int pass = 0; pass <= m.n; ++pass) {
    bool any = false;
    for (size_t u = 0; u < d.size(); ++u)
      if (d[u] != INF)
        for (auto& a : m.out[u]) {
          int64_t x = comb(mode, d[u], wt(a.w));
          if (x < d[static_cast<size_t>(a.to)]) {
            d[static_cast<size_t>(a.to)] = x;
            any                          = true;
          }
        }
    if (!any)
      return d;
  }
  *neg = true;
  return d;
}

struct Args { // one drawn call
  std::vector<int> src;
  bool             single = true, with_pred = true, unit = false;
  int              bad = 0; // 1 undersized distances, 2 undersized predecessors, 3 source out of range, 4 negative weight
  size_t           extra = 0; // oversized outputs
  int              list_kind = 0;
  int64_t          shift = 0;  // weight = stored + shift (or a unit weight)
};

// A call of either algorithm. D distance type, W weight type, SCALE divides so that doubles are not whole.
template <bool DIJ, class G, class D, class W, unsigned VIS, Mode MODE>
struct Call {
  World&               w;
  G&                   g;
  const Args&          a;
  Recorder             rec;
  std::vector<D>       dist;
  std::vector<ga::vertex_id_t<G>> pred;
  std::optional<ga::vertex_id_t<G>> cyc;
  std::vector<ga::vertex_id_t<G>>   cyc_out;
  bool                              pre_touched = false;

  static constexpr bool HALF = std::is_floating_point_v<W>;

  Call(World& w_, G& g_, const Args& a_) : w(w_), g(g_), a(a_) {
    size_t n = static_cast<size_t>(w.m.n);
    dist.assign(n + a.extra, D(7));
    pred.assign(n + a.extra, 0);
    if (a.with_pred)
      graph::init_shortest_paths(dist, pred);
    else {
      graph::init_shortest_paths(dist);
      std::fill(pred.begin(), pred.end(), ga::vertex_id_t<G>(77));
    }
    for (size_t i = 0; i < dist.size(); ++i)
      if (dist[i] != std::numeric_limits<D>::max() || (a.with_pred && pred[i] != static_cast<ga::vertex_id_t<G>>(i)))
        fail("initialisation", "the distances or predecessors were not initialised");
    if (a.bad == 1 && n)
      dist.resize(n - 1);
    if (a.bad == 2 && n)
      pred.resize(n - 1);
  }

  int64_t wt(int stored) const { return a.unit ? 1 : stored + a.shift; }

  template <class WF, class V>
  void go2(WF&& wf, V&& vis) {
    auto call = [&](const auto& s) {
      if constexpr (MODE == M_PLUS) {
        if (a.with_pred) {
          if constexpr (DIJ)
            graph::dijkstra_shortest_paths(g, s, dist, pred, wf, vis);
          else
            cyc = graph::bellman_ford_shortest_paths(g, s, dist, pred, wf, vis);
        } else {
          if constexpr (DIJ)
            graph::dijkstra_shortest_distances(g, s, dist, wf, vis);
          else
            cyc = graph::bellman_ford_shortest_distances(g, s, dist, wf, vis);
        }
      } else {
        auto less = [](const D& x, const D& y) {
          Callback cb;
          return x < y;
        };
        auto mx = [](const D& x, const W& y) -> D {
          Callback cb;
          return x < static_cast<D>(y) ? static_cast<D>(y) : x;
        };
        if (a.with_pred) {
          if constexpr (DIJ)
            graph::dijkstra_shortest_paths(g, s, dist, pred, wf, vis, less, mx);
          else
            cyc = graph::bellman_ford_shortest_paths(g, s, dist, pred, wf, vis, less, mx);
        } else {
          if constexpr (DIJ)
            graph::dijkstra_shortest_distances(g, s, dist, wf, vis, less, mx);
          else
            cyc = graph::bellman_ford_shortest_distances(g, s, dist, wf, vis, less, mx);
        }
      }
    };
    if (a.single)
      call(static_cast<ga::vertex_id_t<G>>(a.src[0]));
    else if (a.list_kind == 0) {
      std::vector<ga::vertex_id_t<G>> v;
      {
        Env e;
        for (int x : a.src)
          v.push_back(static_cast<ga::vertex_id_t<G>>(x));
      }
      call(v);
      Env e;
      std::vector<ga::vertex_id_t<G>>().swap(v);
    } else {
      std::list<ga::vertex_id_t<G>> v;
      {
        Env e;
        for (int x : a.src)
          v.push_back(static_cast<ga::vertex_id_t<G>>(x));
      }
      call(v);
      Env e;
      v.clear();
    }
  }

  void invoke() {
    auto wf = [this](const auto& gg, const auto& uv) -> W {
      Callback cb(false);
      auto     x = wt(static_cast<int>(ga::edge_value(const_cast<G&>(static_cast<const G&>(gg)), uv)));
      if constexpr (HALF)
        return static_cast<W>(static_cast<double>(x) * 0.5);
      else
        return static_cast<W>(x);
    };
    if constexpr (VIS == V_NONE)
      go2(wf, graph::empty_visitor{});
    else {
      Visitor<G, VIS> v{&rec};
      go2(wf, v);
      if (v.n != rec.ev_.size())
        fail("visitor-protocol", "the search called a copy of the visitor");
    }
    if constexpr (!DIJ)
      if (a.with_pred)
        graph::find_negative_cycle(g, pred, cyc, Out{this});
  }
  struct Out { // output iterator for the cycle
    using iterator_category = std::output_iterator_tag;
    using value_type        = void;
    using difference_type   = std::ptrdiff_t;
    using pointer           = void;
    using reference         = void;
    Call* c;
    Out&  operator*() { return *this; }
    Out&  operator++() { return *this; }
    Out   operator++(int) { return *this; }
    Out&  operator=(const ga::vertex_id_t<G>& x) {
      Env e;
      if (c->cyc_out.size() > 4 * static_cast<size_t>(c->w.m.n) + 8) {
        fail("negative-cycle", "the reported negative cycle never closes");
        throw std::logic_error("endless cycle");
      }
      c->cyc_out.push_back(x);
      return *this;
    }
  };

  int64_t as_int(D d) const {
    if (d == std::numeric_limits<D>::max())
      return INF;
    if constexpr (HALF)
      return static_cast<int64_t>(static_cast<double>(d) * 2);
    else
      return static_cast<int64_t>(d);
  }

  void verify(const Outcome& o) {
    const Model& m  = w.m;
    const size_t n  = static_cast<size_t>(m.n);
    const char*  nm = DIJ ? "dijkstra" : "bellman_ford";
    if (a.bad >= 1 && a.bad <= 3) {
      if (o.what != W_OUT_OF_RANGE)
        fail("argument-check", "%s with %s: %s instead of out_of_range", nm,
             a.bad == 1 ? "too few distances" : a.bad == 2 ? "too few predecessors" : "a source out of range", what_name[o.what]);
      return;
    }
    auto    W_ = [this](int s) { return wt(s); };
    bool    neg;
    auto    ref = reference(m, a.src, MODE, W_, &neg);
    if (DIJ) {
      bool reach_negative = false;
      for (size_t u = 0; u < n; ++u)
        if (ref[u] != INF)
          for (auto& x : m.out[u])
            reach_negative |= wt(x.w) < 0;
      if (reach_negative) {
        probe("negative weight rejected");
        if (o.what != W_OUT_OF_RANGE)
          fail("argument-check", "dijkstra met a reachable negative weight: %s instead of out_of_range", what_name[o.what]);
        return;
      }
    }
    if (o.threw()) {
      fail("unexpected-exception", "%s threw %s %s", nm, what_name[o.what], o.msg.c_str());
      return;
    }
    if (!DIJ) {
      if (cyc.has_value() != neg) {
        fail("negative-cycle", "bellman_ford %s a negative cycle although %s is reachable", cyc ? "reports" : "doesn't report",
             neg ? "one" : "none");
        return;
      }
      if (neg)
        check_cycle();
      else if (!cyc_out.empty())
        fail("negative-cycle", "a cycle was written although none was found");
    }
    if (failed())
      return;
    if (!neg) {
      for (size_t v = 0; v < n; ++v)
        if (as_int(dist[v]) != ref[v]) {
          fail("distance", "%s reports distance %lld for vertex %zu; the least is %lld (max int64: unreachable)", nm,
               static_cast<long long>(as_int(dist[v])), v, static_cast<long long>(ref[v]));
          return;
        }
      if (a.with_pred)
        check_pred(ref);
    }
    for (size_t i = n; i < dist.size(); ++i)
      if (dist[i] != std::numeric_limits<D>::max())
        fail("distance", "an output beyond the last vertex was written");
    if (failed())
      return;
    if constexpr ((VIS & V_DESC) == V_DESC)
      check_events(ref, neg);
    else if constexpr (VIS != V_NONE) { // the same search, heard in full: what a visitor listens for is not what the search does
      Call<DIJ, G, D, W, V_DESC | VIS, MODE> all(w, g, a);
      Outcome                                ao = attempt([&] { all.invoke(); });
      all.verify(ao);
      if (failed())
        return;
      std::erase_if(all.rec.ev_, [](const Event& e) { return !(VIS >> e.k & 1); });
      if (all.rec.ev_.size() != rec.ev_.size())
        return fail("visitor-protocol", "%s reported %zu events to a visitor that listens for some events only; the search has %zu of them", nm,
                    rec.ev_.size(), all.rec.ev_.size());
      for (size_t i = 0; i < rec.ev_.size(); ++i) {
        auto &x = rec.ev_[i], &y = all.rec.ev_[i];
        if (x.k != y.k || x.a != y.a || x.b != y.b || x.w != y.w)
          return fail("visitor-protocol", "%s event %zu differs between a visitor for some events and one for all", nm, i);
      }
    }
  }

  void check_cycle() {
    const Model& m = w.m;
    probe("negative cycle");
    if (static_cast<size_t>(*cyc) >= static_cast<size_t>(m.n)) {
      fail("negative-cycle", "the reported vertex doesn't exist");
      return;
    }
    if (!a.with_pred)
      return;
    // cyc_out is c, pred[c], ...: the cycle backwards
    if (cyc_out.empty()) {
      fail("negative-cycle", "the reported cycle is empty");
      return;
    }
    int64_t total = 0;
    for (size_t i = 0; i < cyc_out.size(); ++i) {
      size_t  to = static_cast<size_t>(cyc_out[i]), from = static_cast<size_t>(cyc_out[(i + 1) % cyc_out.size()]);
      int64_t best = INF;
      for (auto& x : m.out[from])
        if (static_cast<size_t>(x.to) == to)
          best = std::min(best, wt(x.w));
      if (best == INF) {
        fail("negative-cycle", "the reported cycle uses an edge %zu-%zu that doesn't exist", from, to);
        return;
      }
      total += best;
    }
    if (total >= 0)
      fail("negative-cycle", "the reported cycle has weight %lld", static_cast<long long>(total));
  }

  void check_pred(const std::vector<int64_t>& ref) {
    const Model& m = w.m;
    const size_t n = ref.size();
    std::vector<char> tight(n, 0), rooted(n, 0); // rooted: 1 leads to a source, 2 being followed
    for (size_t u = 0; u < n; ++u)
      if (ref[u] != INF)
        for (auto& x : m.out[u])
          if (static_cast<size_t>(pred[static_cast<size_t>(x.to)]) == u && comb(MODE, ref[u], wt(x.w)) == ref[static_cast<size_t>(x.to)])
            tight[static_cast<size_t>(x.to)] = 1;
    for (size_t v = 0; v < n; ++v) {
      size_t p      = static_cast<size_t>(pred[v]);
      bool   is_src = std::find(a.src.begin(), a.src.end(), static_cast<int>(v)) != a.src.end();
      if (ref[v] == INF || (is_src && ref[v] == 0 && p == v)) {
        if (p != v)
          fail("predecessor", "unreachable vertex %zu was given predecessor %zu", v, p);
        continue;
      }
      if (!tight[v]) {
        fail("predecessor", "vertex %zu has predecessor %zu, which is on no shortest path to it", v, p);
        return;
      }
      std::vector<size_t> way;
      size_t              x = v;
      while (static_cast<size_t>(pred[x]) != x && !rooted[x]) {
        rooted[x] = 2;
        way.push_back(x);
        x = static_cast<size_t>(pred[x]);
        if (x >= n)
          break;
      }
      if (x >= n || (rooted[x] != 1 && (static_cast<size_t>(pred[x]) != x || std::find(a.src.begin(), a.src.end(), static_cast<int>(x)) == a.src.end()))) {
        fail("predecessor", "the predecessors of vertex %zu don't lead back to a source", v);
        return;
      }
      for (size_t y : way)
        rooted[y] = 1;
      rooted[x] = 1;
    }
  }

  using Arcs = std::map<std::pair<int, int>, int>; // (target, stored value) -> count
  Arcs arcs_of(size_t u) const {
    Arcs r;
    for (auto& x : w.m.out[u])
      ++r[{x.to, x.w}];
    return r;
  }

  void check_events(const std::vector<int64_t>& ref, bool neg) {
    const Model&         m = w.m;
    const size_t         n = static_cast<size_t>(m.n);
    std::vector<int64_t> d(n, INF);
    std::vector<int>     disc(n, 0), exam(n, 0);
    std::map<int, int>   srcs;
    for (int s : a.src)
      ++srcs[s];
    auto bad = [&](size_t i, const char* why) {
      fail("visitor-protocol", "%s event %zu: %s", DIJ ? "dijkstra" : "bellman_ford", i, why);
    };
    size_t i = 0;
    auto&  E = rec.ev_;
    if constexpr (DIJ) {
      std::vector<int> init(n, 0);
      for (; i < E.size() && E[i].k == E_INIT; ++i)
        ++init[static_cast<size_t>(E[i].a)];
      for (size_t v = 0; v < n; ++v)
        if (init[v] != 1)
          return bad(i, "not every vertex was initialised exactly once before the search");
    }
    for (; i < E.size() && E[i].k == E_DISC; ++i) {
      if (!srcs.count(E[i].a))
        return bad(i, "a vertex that is no source was discovered first");
      ++disc[static_cast<size_t>(E[i].a)];
      d[static_cast<size_t>(E[i].a)] = 0;
    }
    for (auto& [s, c] : srcs)
      if (disc[static_cast<size_t>(s)] < 1 || disc[static_cast<size_t>(s)] > c)
        return bad(i, "a source was not discovered");
    if constexpr (DIJ) {
      std::vector<int> stale(n, 0); // relaxed since last examined
      for (auto& [s, c] : srcs)
        stale[static_cast<size_t>(s)] = 1;
      while (i < E.size()) {
        if (E[i].k != E_EXV)
          return bad(i, "expected the examination of a vertex");
        size_t u = static_cast<size_t>(E[i].a);
        if (!disc[u])
          return bad(i, "a vertex was examined before it was discovered");
        ++exam[u];
        stale[u] = 0;
        ++i;
        Arcs left = arcs_of(u);
        while (i < E.size() && E[i].k == E_EXE) {
          Event e = E[i++];
          if (static_cast<size_t>(e.a) != u || --left[{e.b, e.w}] < 0)
            return bad(i, "an examined edge is not an unexamined edge of the examined vertex");
          size_t  v     = static_cast<size_t>(e.b);
          int64_t x     = comb(MODE, d[u], wt(e.w));
          bool    relax = x < d[v];
          if (i >= E.size() || E[i].k != (relax ? E_REL : E_NREL) || E[i].a != e.a || E[i].b != e.b || E[i].w != e.w)
            return bad(i, "an examined edge was not reported as relaxed/not relaxed as its distances require");
          ++i;
          if (relax) {
            bool first = d[v] == INF;
            d[v]       = x;
            stale[v]   = 1;
            if (first) {
              if (i >= E.size() || E[i].k != E_DISC || static_cast<size_t>(E[i].a) != v || disc[v])
                return bad(i, "a newly reached vertex was not discovered exactly once");
              ++disc[v];
              ++i;
            }
          }
        }
        for (auto& [k, c] : left)
          if (c != 0)
            return bad(i, "an edge of an examined vertex was not examined");
        if (i >= E.size() || E[i].k != E_FIN || static_cast<size_t>(E[i].a) != u)
          return bad(i, "an examined vertex was not finished");
        ++i;
      }
      for (size_t v = 0; v < n; ++v) {
        if ((disc[v] > 0) != (ref[v] != INF) || (exam[v] > 0) != (ref[v] != INF))
          return bad(i, "the vertices discovered and examined are not those reachable");
        if (stale[v])
          return bad(i, "a vertex was not examined after its distance last improved");
      }
    } else {
      // whole passes over all edges
      size_t total = m.arc_count(), passes = 0;
      bool   any = true;
      while (i < E.size() && E[i].k == E_EXE) {
        if (!any)
          return bad(i, "another pass although nothing was relaxed in the last one");
        any = false;
        std::map<std::tuple<int, int, int>, int> left;
        for (size_t u = 0; u < n; ++u)
          for (auto& x : m.out[u])
            ++left[{static_cast<int>(u), x.to, x.w}];
        for (size_t k = 0; k < total; ++k) {
          if (i >= E.size() || E[i].k != E_EXE)
            return bad(i, "a pass did not examine every edge");
          Event e = E[i++];
          if (--left[{e.a, e.b, e.w}] < 0)
            return bad(i, "an edge was examined twice in one pass, or doesn't exist");
          size_t  u = static_cast<size_t>(e.a), v = static_cast<size_t>(e.b);
          int64_t x     = d[u] == INF ? INF : comb(MODE, d[u], wt(e.w));
          bool    relax = x < d[v];
          if (i >= E.size() || E[i].k != (relax ? E_REL : E_NREL) || E[i].a != e.a || E[i].b != e.b)
            return bad(i, "an examined edge was not reported as relaxed/not relaxed as its distances require");
          ++i;
          if (relax) {
            d[v] = x;
            any  = true;
          }
        }
        ++passes;
      }
      if (total && n && passes == 0)
        return bad(i, "no edge was examined");
      if (passes > n)
        return bad(i, "more passes than vertices");
      bool ended = false;
      for (; i < E.size(); ++i) {
        if (ended || (E[i].k != E_MIN && E[i].k != E_NMIN))
          return bad(i, "unexpected event after the relaxation passes");
        size_t  u = static_cast<size_t>(E[i].a), v = static_cast<size_t>(E[i].b);
        int64_t x = d[u] == INF ? INF : comb(MODE, d[u], wt(E[i].w));
        if ((x < d[v]) != (E[i].k == E_NMIN))
          return bad(i, "an edge was reported as minimised/not minimised against its distances");
        ended = E[i].k == E_NMIN;
      }
      if (ended != neg)
        return bad(i, "the edge that proves a negative cycle was not reported exactly once");
    }
  }
};

template <bool DIJ, class D, class W, unsigned VIS, Mode MODE, class G>
void run_call(World& w, G& g, const Args& a) {
  using C = Call<DIJ, G, D, W, VIS, MODE>;
  drive(DIJ ? "dijkstra" : "bellman_ford", [&] { return std::make_unique<C>(w, g, a); });
}

// REPS limits which representations a combination is instantiated for: 1 plain ranges, 2 compressed, 4 dynamic
// vector, 8 dynamic deque/forward_list, 16 undirected list, 32 bidirectional
template <unsigned REPS, bool DIJ, class D, class W, unsigned VIS, Mode MODE>
void on_rep(World& w, const Args& a) {
  unsigned choices[6], k = 0;
  for (unsigned b = 1; b <= 32; b *= 2)
    if ((REPS & b) && (b != 2 || w.has_cg) && (b != 16 || w.has_ual))
      choices[k++] = b;
  switch (choices[draw(k)]) {
  case 1:
    if constexpr (REPS & 1)
      return run_call<DIJ, D, W, VIS, MODE>(w, w.vvp, a);
    break;
  case 2:
    if constexpr ((REPS & 2) && VIS != V_NONE)
      if (w.narrow() && !(a.bad == 3 && a.src.back() > 255)) // an id that exists
        return run_call<DIJ, D, W, VIS, MODE>(w, w.cg8, a);
    if constexpr (REPS & 2)
      return run_call<DIJ, D, W, VIS, MODE>(w, w.cg, a);
    break;
  case 4:
    if constexpr (REPS & 4)
      return maybe_const(w.vov, [&](auto& g) { run_call<DIJ, D, W, VIS, MODE>(w, g, a); });
    break;
  case 8:
    if constexpr (REPS & 8)
      return run_call<DIJ, D, W, VIS, MODE>(w, w.dofl, a);
    break;
  case 16:
    if constexpr (REPS & 16)
      return maybe_const(w.ual, [&](auto& g) { run_call<DIJ, D, W, VIS, MODE>(w, g, a); });
    break;
  default:
    if constexpr (REPS & 32)
      return run_call<DIJ, D, W, VIS, MODE>(w, w.bil, a);
  }
}

Args draw_args(World& w, bool dij, bool nonneg) {
  Args      a;
  const int n = w.m.n;
  a.src.push_back(range(0, n - 1));
  a.single = !chance(1, 2);
  if (!a.single) {
    a.list_kind = range(0, 1);
    int k       = range(0, 3);
    if (k == 0)
      a.src.clear();
    for (int i = 1; i < k; ++i)
      a.src.push_back(range(0, n - 1)); // possibly repeated
  }
  a.with_pred = !chance(1, 3);
  a.unit      = chance(1, 8);
  a.extra     = chance(1, 6) ? draw(3) : 0;
  int lo      = 0;
  for (auto& e : w.m.e)
    lo = std::min(lo, e.w);
  if (nonneg || (dij && !chance(1, 10)))
    a.shift = -lo;
  if (!dij && !nonneg && chance(1, 2) && n <= 300)
    a.shift = chance(1, 2) ? -lo : -static_cast<int64_t>(draw(4));
  if (chance(1, 16)) {
    a.bad = range(1, 3);
    if (a.bad == 2)
      a.with_pred = true;
    if (a.bad <= 2)
      a.extra = 0;
    if (a.bad == 3) {
      if (a.src.empty())
        a.src.push_back(0);
      a.src.back() = n + static_cast<int>(draw(3));
    }
    probe("bad arguments");
  }
  return a;
}

template <bool DIJ>
void one(World& w) {
  if (!DIJ && static_cast<double>(w.m.n) * static_cast<double>(w.m.e.size()) > 4e6)
    return; // vertices times edges: the documented cost
  if (w.m.n == 0) {
    // no vertex, so no source: only the empty source range is meaningful
    Args a;
    a.src.clear();
    a.single = false;
    on_rep<1 | 2 | 16, DIJ, int, int, V_ID, M_PLUS>(w, a);
    return;
  }
  if (chance(1, 5)) { // visitors that listen for some events only
    Args a = draw_args(w, DIJ, chance(1, 2));
    auto go = [&]<unsigned VIS>() { on_rep<1 | 32, DIJ, int, int, VIS, M_PLUS>(w, a); };
    switch (draw(7)) {
    case 0: return go.template operator()<1 << E_DISC | BY_ID>();
    case 1: return go.template operator()<1 << E_EXE>();
    case 2: return go.template operator()<1 << E_REL | BY_ID>();
    case 3: return go.template operator()<1 << E_NREL>();
    case 4: return go.template operator()<(DIJ ? 1 << E_INIT : 1 << E_MIN) | BY_ID>();
    case 5: return go.template operator()<(DIJ ? 1 << E_EXV : 1 << E_NMIN)>();
    default: return go.template operator()<(DIJ ? 1 << E_FIN : 1 << E_MIN | 1 << E_NMIN) | BY_ID>();
    }
  }
  switch (draw(7)) {
  case 0: on_rep<1 | 4, DIJ, int, int, V_NONE, M_PLUS>(w, draw_args(w, DIJ, false)); break;
  case 1: on_rep<1 | 2 | 8, DIJ, int64_t, int, V_DESC, M_PLUS>(w, draw_args(w, DIJ, false)); break;
  case 2: on_rep<4 | 16, DIJ, double, double, V_ID, M_PLUS>(w, draw_args(w, DIJ, false)); break;
  case 3: on_rep<2, DIJ, unsigned, unsigned, V_NONE, M_PLUS>(w, draw_args(w, DIJ, true)); break;
  case 4: on_rep<1 | 16, DIJ, int, int, V_DESC, M_MINIMAX>(w, draw_args(w, DIJ, true)); break;
  case 5: on_rep<32, DIJ, float, int, V_NONE, M_MINIMAX>(w, draw_args(w, DIJ, true)); break;
  default: on_rep<1 | 2 | 16, DIJ, int, int, V_ID, M_PLUS>(w, draw_args(w, DIJ, false)); break;
  }
}

#ifdef TRANSPOSED
template <class G>
void rev(World& rw, G& tv) {
  Args a = draw_args(rw, true, false);
  if (chance(1, 2))
    run_call<true, int, int, V_DESC, M_PLUS>(rw, tv, a);
  else
    run_call<true, int64_t, int, V_ID, M_PLUS>(rw, tv, a);
}
OP("dijkstra, transposed", 5, ANY) {
  if (w.m.n == 0)
    return;
  World rw = reversed(w);
  if (chance(1, 2)) {
    graph::views::transpose_view<BI> tv(w.bi);
    return rev(rw, tv);
  }
  graph::views::transpose_view<BIL> tv(w.bil);
  rev(rw, tv);
}
#elif defined SP_BELLMAN
OP("bellman_ford", 5, ANY) { one<false>(w); }
#else
OP("dijkstra", 5, ANY) { one<true>(w); }
#endif

} // namespace
