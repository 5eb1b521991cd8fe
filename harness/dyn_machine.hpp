// Histories of loads and mutations of dynamic_graph, for one container combination, against an abstract graph.
// Each caller task owns its own bank of graphs; allocations, copies of values, projections and input ranges fail at
// drawn points.
#pragma once
#include "loading.hpp"
#include <graph/container/dynamic_graph.hpp>
#include <graph/graph.hpp>
#include <graph/views/transpose.hpp>

#include <algorithm>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace dyn {
using namespace sim;

enum Order { SEQ, FRONT, SORTED, HASHED };
template <class C>
concept keyed = requires { typename C::key_type; };
template <class C>
concept mapped = requires { typename C::mapped_type; };
template <class C>
concept hashed = requires { typename C::hasher; };
template <class C>
concept frontal = requires(C& c) { c.before_begin(); };

template <class C>
constexpr Order order_of = hashed<C> ? HASHED : keyed<C> ? SORTED : frontal<C> ? FRONT : SEQ;

struct DM {
  std::map<int, int> vv; // id -> value
  std::vector<DE>    e;  // in load order, without those a set-like container refused
  size_t             count = 0; // edges loaded, including refused ones
  int                gv    = 0;
  bool               unknown = false; // moved from, or target of a failed assignment: valid but unspecified
};

template <class G>
struct Machine {
  using EV            = typename G::graph_traits::edge_value_type;
  using VV            = typename G::graph_traits::vertex_value_type;
  using GV            = typename G::graph_traits::graph_value_type;
  using VId           = typename G::vertex_id_type;
  using Edges         = typename G::graph_traits::edges_type;
  using Vertices      = typename G::graph_traits::vertices_type;
  using CE            = graph::copyable_edge_t<VId, EV>;
  using CV            = graph::copyable_vertex_t<VId, VV>;
  static constexpr bool  has_ev = !std::is_void_v<EV>, has_vv = !std::is_void_v<VV>, has_gv = !std::is_void_v<GV>;
  static constexpr bool  BIDIR = G::graph_traits::bidirectional;
  static constexpr bool  ASSOC = mapped<Vertices>;
  static constexpr bool  DEDUP = keyed<Edges>;
  static constexpr Order ORDER = order_of<Edges>;
  static constexpr int   SLOTS = 3;

  std::unique_ptr<G> g[SLOTS];
  DM                 m[SLOTS];
  int                next_val = 1;
  int                max_n    = 8;
  bool               wide     = false;
  static constexpr bool NARROW = std::is_integral_v<VId> && sizeof(VId) == 1;
  static constexpr bool WIDE_ID = ASSOC && std::is_integral_v<VId> && sizeof(VId) == 8; // ids that need their 64 bits
  static constexpr int64_t WIDE_STEP = (int64_t(1) << 33) + 1;
  static constexpr int  MOST   = NARROW ? 256 : 1 << 30; // vertices, with an id each

  int  fresh() { return next_val++; }
  int  slot() { return static_cast<int>(draw(SLOTS)); }
  static VId id(int x) {
    if constexpr (WIDE_ID)
      return static_cast<VId>(static_cast<int64_t>(x) * WIDE_STEP);
    else if constexpr (std::is_integral_v<VId>)
      return static_cast<VId>(x);
    else { // short: the library's noexcept accessors copy ids, so it takes id copies not to fail
      char b[16];
      std::snprintf(b, sizeof b, "vertex %06d", x);
      return VId(b);
    }
  }
  template <class I>
  static int num(const I& x) {
    if constexpr (WIDE_ID && std::is_integral_v<I>)
      return static_cast<int64_t>(x) % WIDE_STEP ? -777 : static_cast<int>(static_cast<int64_t>(x) / WIDE_STEP);
    else if constexpr (std::is_integral_v<I>)
      return int(x);
    else
      return x.empty() ? -1 : std::atoi(x.c_str() + x.size() - 6);
  }
  static CE make_ce(const RowE& r) {
    if constexpr (has_ev)
      return CE{id(r.s), id(r.t), EV(r.val)};
    else
      return CE{id(r.s), id(r.t)};
  }
  static CV make_cv(const RowV& r) {
    if constexpr (has_vv)
      return CV{id(r.id), VV(r.val)};
    else
      return CV{id(r.id)};
  }
  static auto eproj() {
    return [](const RowE& r) {
      Callback c(true, K_CALLBACK);
      return make_ce(r);
    };
  }
  static auto vproj() {
    return [](const RowV& r) {
      Callback c(true, K_CALLBACK);
      return make_cv(r);
    };
  }

  // ---- the model of loading -----------------------------------------------------------------------------------------
  static void model_edge(DM& x, const RowE& r) {
    ++x.count;
    if (ASSOC) {
      x.vv.emplace(r.t, 0);
      x.vv.emplace(r.s, 0);
    }
    if (DEDUP)
      for (auto& e : x.e)
        if (e.u == r.s && e.v == r.t)
          return;
    x.e.push_back({r.s, r.t, has_ev ? r.val : 0});
  }
  static void grow(DM& x, size_t n) {
    if (!ASSOC)
      for (size_t k = x.vv.size(); k < n; ++k)
        x.vv.emplace(int(k), 0);
  }

  // ---- the oracle -----------------------------------------------------------------------------------------------
  std::vector<DE> expected(const DM& x, int u) {
    std::vector<DE> r;
    for (auto& e : x.e)
      if (e.u == u)
        r.push_back(e);
    if (ORDER == FRONT)
      std::reverse(r.begin(), r.end());
    if (ORDER == SORTED)
      std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.v < b.v; });
    if (ORDER == HASHED)
      std::sort(r.begin(), r.end());
    return r;
  }
  template <class GG, class U>
  std::vector<DE> listed(GG& gr, const U& ud, int u) {
    std::vector<DE> r;
    for (auto&& e : graph::edges(gr, ud)) {
      int val = 0;
      if constexpr (has_ev)
        val = rd(graph::edge_value(gr, e));
      r.push_back({num(graph::source_id(gr, e)), num(graph::target_id(gr, e)), val});
      if (r.size() > 10000)
        break;
    }
    return r;
  }
  // content only; an empty message means equal. Vertices of `may` may be missing or present with value 0.
  std::string compare(G& gr, const DM& x, const std::set<int>* may = nullptr) {
    char b[200];
    auto say = [&](auto... a) {
      std::snprintf(b, sizeof b, a...);
      return std::string(b);
    };
    const G&      cg = gr;
    size_t        n  = 0;
    std::set<int> ids;
    for (auto&& ud : graph::vertices(gr)) {
      int u = num(graph::vertex_id(gr, ud));
      if (!ids.insert(u).second)
        return say("vertex %d is listed twice", u);
      auto f = x.vv.find(u);
      int  val = 0;
      if (f != x.vv.end())
        val = f->second;
      else if (!may || !may->contains(u))
        return say("vertex %d exists", u);
      if constexpr (has_vv)
        if (rd(graph::vertex_value(gr, ud)) != val)
          return say("vertex %d has value %d, expected %d", u, rd(graph::vertex_value(gr, ud)), val);
      auto have = listed(gr, ud, u);
      auto want = expected(x, u);
      if (ORDER == HASHED)
        std::sort(have.begin(), have.end());
      if (have != want) {
        if (have.size() != want.size())
          return say("vertex %d has %zu edges, expected %zu", u, have.size(), want.size());
        for (size_t k = 0; k < have.size(); ++k)
          if (have[k] != want[k])
            return say("edge %zu of vertex %d is %d->%d (%d), expected %d->%d (%d)", k, u, have[k].u, have[k].v, have[k].val,
                       want[k].u, want[k].v, want[k].val);
      }
      ++n;
    }
    for (auto& [u, val] : x.vv)
      if (!ids.contains(u))
        return say("vertex %d is missing", u);
    if (size_t(graph::num_vertices(cg)) != n || size_t(gr.size()) != n)
      return say("num_vertices is %zu, %zu are listed", size_t(graph::num_vertices(cg)), n);
    if (size_t(graph::num_edges(cg)) != x.count)
      return say("num_edges is %zu, expected %zu", size_t(graph::num_edges(cg)), x.count);
    if (graph::has_edges(cg) != (x.count > 0))
      return say("has_edge is %d", int(graph::has_edges(cg)));
    if constexpr (has_gv)
      if (rd(gr.graph_value()) != x.gv || rd(graph::graph_value(cg)) != x.gv)
        return say("the graph value is %d, expected %d", rd(gr.graph_value()), x.gv);
    return {};
  }

  void verify(int s, const char* after) {
    if (failed() || !g[s])
      return;
    Env env;
    G&  gr = *g[s];
    if (m[s].unknown) { // walk it: every element must be alive
      for (auto&& ud : graph::vertices(gr)) {
        if constexpr (has_vv)
          (void)rd(graph::vertex_value(gr, ud));
        (void)listed(gr, ud, 0);
      }
      return;
    }
    DM&         x   = m[s];
    std::string why = compare(gr, x);
    if (!why.empty())
      return fail("content", "after %s: %s", after, why.c_str());
    lookups(gr, x, after);
    if constexpr (BIDIR)
      mirror(gr, x, after);
  }

  void lookups(G& gr, DM& x, const char* after) {
    const G& cg = gr;
    for (int k = 0; k < 4; ++k) {
      int  q    = k == 0 && !x.vv.empty() ? std::next(x.vv.begin(), draw(uint32_t(x.vv.size())))->first : int(draw(uint32_t(max_n * 3))) - (SIGNED ? 9 : 0);
      if (q >= MOST)
        continue;
      bool have = x.vv.contains(q);
      if (cg.contains_vertex(id(q)) != have)
        return fail("contains-vertex", "after %s: contains_vertex(%d) is %d", after, q, int(!have));
      if ((gr.try_find_vertex(id(q)) != gr.end()) != have || (cg.try_find_vertex(id(q)) != cg.end()) != have)
        return fail("find-vertex", "after %s: try_find_vertex(%d) %s", after, q, have ? "finds nothing" : "finds a vertex");
      const void* at = nullptr;
      Outcome     o  = attempt([&] {
        at = &gr.vertex_at(id(q));
        if (&cg.vertex_at(id(q)) != at)
          at = nullptr;
      });
      if (have ? o.what != W_NONE || !at : o.what != W_OUT_OF_RANGE)
        return fail("vertex-at", "after %s: vertex_at(%d) -> %s", after, q, what_name[o.what]);
      auto fit = graph::find_vertex(gr, id(q));
      auto fct = graph::find_vertex(cg, id(q));
      if ((fit != graph::vertices(gr).end()) != have || (fct != graph::vertices(cg).end()) != have)
        return fail("find-vertex", "after %s: find_vertex(g,%d) %s", after, q, have ? "finds nothing" : "finds a vertex");
      if (!have)
        continue;
      auto ud = *fit;
      if (num(graph::vertex_id(gr, ud)) != q || num(graph::vertex_id(cg, *fct)) != q)
        return fail("find-vertex", "after %s: find_vertex(g,%d) finds vertex %d", after, q, num(graph::vertex_id(gr, ud)));
      auto want = expected(x, q);
      if (size_t(graph::degree(gr, ud)) != want.size() || size_t(graph::degree(cg, id(q))) != want.size())
        return fail("degree", "after %s: degree of %d is %zu, expected %zu", after, q, size_t(graph::degree(gr, ud)), want.size());
      auto c_list = listed(cg, *fct, q);
      if (ORDER == HASHED)
        std::sort(c_list.begin(), c_list.end());
      if (c_list != want)
        return fail("content", "after %s: the const graph lists other edges of vertex %d", after, q);
      if (x.vv.empty())
        continue;
      int  t  = std::next(x.vv.begin(), draw(uint32_t(x.vv.size())))->first;
      bool is = false;
      for (auto& e : want)
        is |= e.v == t;
      if (graph::contains_edge(gr, id(q), id(t)) != is)
        return fail("contains-edge", "after %s: contains_edge(%d,%d) is %d", after, q, t, int(!is));
      if (is) {
        auto f = graph::find_vertex_edge(gr, id(q), id(t));
        if (num(graph::source_id(gr, f)) != q || num(graph::target_id(gr, f)) != t)
          return fail("find-edge", "after %s: find_vertex_edge(%d,%d) finds %d->%d", after, q, t, num(graph::source_id(gr, f)),
                      num(graph::target_id(gr, f)));
      }
    }
  }

  // ---- incoming edges mirror outgoing edges (bidirectional graphs) -----------------------------------------------
  void mirror(G& gr, DM& x, const char* after) {
    const G&                    cg = gr;
    std::map<int, std::vector<DE>> in;
    for (auto& e : x.e)
      in[e.v].push_back(e);
    for (auto& [v, l] : in)
      std::sort(l.begin(), l.end());
    auto side = [&](auto& gg, const char* what) {
      for (auto&& ud : graph::vertices(gg)) {
        int             v = num(graph::vertex_id(gg, ud));
        std::vector<DE> have;
        for (auto&& e : graph::in_edges(gg, ud)) {
          int val = 0;
          if constexpr (has_ev)
            val = rd(graph::edge_value(gg, e));
          have.push_back({num(graph::source_id(gg, e)), num(graph::target_id(gg, e)), val});
          if (num(graph::vertex_id(gg, graph::source(gg, e))) != have.back().u ||
              num(graph::vertex_id(gg, graph::target(gg, e))) != have.back().v)
            return fail("in-edge-ends", "after %s: the in-edge %d->%d of %d has source %d and target %d", after, have.back().u,
                        have.back().v, v, num(graph::vertex_id(gg, graph::source(gg, e))),
                        num(graph::vertex_id(gg, graph::target(gg, e))));
          if (have.size() > 10000)
            break;
        }
        std::sort(have.begin(), have.end());
        if (have != in[v]) {
          char a[64] = "", b[64] = "";
          if (!have.empty())
            std::snprintf(a, sizeof a, " %d->%d (%d)", have[0].u, have[0].v, have[0].val);
          if (!in[v].empty())
            std::snprintf(b, sizeof b, " %d->%d (%d)", in[v][0].u, in[v][0].v, in[v][0].val);
          return fail("mirror", "after %s: vertex %d of the %s has %zu in-edges%s..., its mirror %zu%s...", after, v, what, have.size(), a,
                      in[v].size(), b);
        }
        if (size_t(graph::in_degree(gg, ud)) != have.size() || size_t(graph::in_degree(gg, id(v))) != have.size())
          return fail("in-degree", "after %s: in_degree of %d is %zu, it has %zu in-edges", after, v, size_t(graph::in_degree(gg, ud)),
                      have.size());
      }
    };
    side(gr, "graph");
    if (failed())
      return;
    side(cg, "const graph");
    if (failed() || x.vv.empty())
      return;
    for (int k = 0; k < 4; ++k) {
      int  a  = std::next(x.vv.begin(), draw(uint32_t(x.vv.size())))->first;
      int  b  = std::next(x.vv.begin(), draw(uint32_t(x.vv.size())))->first;
      bool is = false; // an edge a -> b
      for (auto& e : x.e)
        is |= e.u == a && e.v == b;
      auto ad = *graph::find_vertex(gr, id(a)), bd = *graph::find_vertex(gr, id(b));
      if (graph::contains_in_edge(gr, bd, ad) != is || graph::contains_in_edge(gr, id(b), id(a)) != is ||
          graph::contains_edge(gr, ad, bd) != is)
        return fail("contains-in-edge", "after %s: contains_in_edge(g,%d,%d) is %d/%d, contains_edge(g,%d,%d) %d", after, b, a,
                    int(graph::contains_in_edge(gr, bd, ad)), int(graph::contains_in_edge(gr, id(b), id(a))), a, b,
                    int(graph::contains_edge(gr, ad, bd)));
      if (is) {
        auto e1 = graph::find_in_edge(gr, bd, ad);
        auto e2 = graph::find_in_edge(gr, bd, id(a));
        auto e3 = graph::find_in_edge(gr, id(b), id(a));
        for (auto& e : {e1, e2, e3})
          if (num(graph::source_id(gr, e)) != a || num(graph::target_id(gr, e)) != b)
            return fail("find-in-edge", "after %s: find_in_edge(g,%d,%d) finds %d->%d", after, b, a, num(graph::source_id(gr, e)),
                        num(graph::target_id(gr, e)));
      }
    }
    transposed(gr, x, in, after);
  }

  void transposed(G& gr, DM& x, std::map<int, std::vector<DE>>& in, const char* after) {
    auto tv = graph::views::transpose(gr);
    transposed(tv, gr, x, in, after);
    if (!failed())
      transposed(std::as_const(tv), gr, x, in, after); // a constant view, over the same graph
  }
  template <class TV>
  void transposed(TV& tv, G& gr, DM& x, std::map<int, std::vector<DE>>& in, const char* after) {
    if (size_t(graph::num_vertices(tv)) != x.vv.size() || size_t(graph::num_edges(tv)) != x.count)
      return fail("transpose-counts", "after %s: the transposed view has %zu vertices and %zu edges, expected %zu and %zu", after,
                  size_t(graph::num_vertices(tv)), size_t(graph::num_edges(tv)), x.vv.size(), x.count);
    if (graph::has_edges(tv) != (x.count > 0))
      return fail("transpose-counts", "after %s: the transposed view's has_edges is %d", after, int(graph::has_edges(tv)));
    if constexpr (has_gv)
      if (&graph::graph_value(tv) != &graph::graph_value(gr) || rd(graph::graph_value(tv)) != x.gv)
        return fail("transpose-values", "after %s: the transposed view's graph value isn't the graph's", after);
    if (size_t(graph::num_partitions(tv)) != 1 || size_t(graph::num_vertices(tv, 0)) != x.vv.size() || size_t(graph::num_vertices(tv, 1)) != 0 ||
        size_t(std::ranges::distance(graph::vertices(tv, 0))) != x.vv.size() || size_t(std::ranges::distance(graph::vertices(tv, 1))) != 0)
      return fail("transpose-partitions", "after %s: the transposed view doesn't have one partition with all vertices", after);
    size_t n = 0;
    for (auto&& ud : graph::vertices(tv)) {
      ++n;
      int             v = num(graph::vertex_id(tv, ud));
      std::vector<DE> have, back;
      if constexpr (has_vv)
        if (&graph::vertex_value(tv, ud) != &graph::vertex_value(gr, ud) || rd(graph::vertex_value(tv, ud)) != x.vv[v])
          return fail("transpose-values", "after %s: the transposed view gives vertex %d the value %d, the graph %d", after, v,
                      rd(graph::vertex_value(tv, ud)), x.vv[v]);
      if (int(graph::partition_id(tv, ud)) != 0)
        return fail("transpose-partitions", "after %s: the transposed view puts vertex %d in partition %d of one", after, v,
                    int(graph::partition_id(tv, ud)));
      for (auto&& e : graph::edges(tv, ud)) {
        int val = 0;
        if constexpr (has_ev)
          val = rd(graph::edge_value(tv, e));
        have.push_back({num(graph::target_id(tv, e)), num(graph::source_id(tv, e)), val});
        if (num(graph::vertex_id(tv, graph::target(tv, e))) != have.back().u ||
            num(graph::vertex_id(tv, graph::source(tv, e))) != have.back().v || have.back().v != v)
          return fail("transpose-ends", "after %s: the transposed edge %d->%d of %d has source %d and target %d", after, have.back().v,
                      have.back().u, v, num(graph::vertex_id(tv, graph::source(tv, e))), num(graph::vertex_id(tv, graph::target(tv, e))));
      }
      for (auto&& e : graph::in_edges(tv, ud)) {
        int val = 0;
        if constexpr (has_ev)
          val = rd(graph::edge_value(tv, e));
        back.push_back({num(graph::target_id(tv, e)), num(graph::source_id(tv, e)), val});
      }
      std::sort(have.begin(), have.end());
      std::sort(back.begin(), back.end());
      auto out = expected(x, v);
      std::sort(out.begin(), out.end());
      if (have != in[v] || back != out)
        return fail("transpose-edges", "after %s: the transposed view gives vertex %d %zu out- and %zu in-edges, expected %zu and %zu", after, v,
                    have.size(), back.size(), in[v].size(), out.size());
      if (size_t(graph::degree(tv, ud)) != have.size() || size_t(graph::in_degree(tv, ud)) != back.size() ||
          size_t(graph::num_edges(tv, ud)) != have.size())
        return fail("transpose-degree", "after %s: the transposed view says degree %zu, in-degree %zu, num_edges %zu of vertex %d; it has %zu and %zu",
                    after, size_t(graph::degree(tv, ud)), size_t(graph::in_degree(tv, ud)), size_t(graph::num_edges(tv, ud)), v,
                    have.size(), back.size());
    }
    if (n != x.vv.size())
      return fail("transpose-counts", "after %s: the transposed view lists %zu vertices", after, n);
    for (int k = 0; k < 2; ++k) {
      int  a  = std::next(x.vv.begin(), draw(uint32_t(x.vv.size())))->first;
      int  b  = std::next(x.vv.begin(), draw(uint32_t(x.vv.size())))->first;
      bool is = false;
      for (auto& e : x.e)
        is |= e.u == b && e.v == a; // transposed: a -> b
      auto ad = *graph::find_vertex(tv, id(a)), bd = *graph::find_vertex(tv, id(b));
      if (graph::contains_edge(tv, ad, bd) != is || graph::contains_in_edge(tv, bd, ad) != is)
        return fail("transpose-contains", "after %s: the transposed view's contains_edge(%d,%d) is %d, contains_in_edge(%d,%d) %d", after, a, b,
                    int(graph::contains_edge(tv, ad, bd)), b, a, int(graph::contains_in_edge(tv, bd, ad)));
      if (is) {
        auto e = graph::find_vertex_edge(tv, ad, bd);
        auto f = graph::find_in_edge(tv, bd, ad);
        if (num(graph::source_id(tv, e)) != a || num(graph::target_id(tv, e)) != b || num(graph::source_id(tv, f)) != a ||
            num(graph::target_id(tv, f)) != b)
          return fail("transpose-find", "after %s: the transposed view's find_vertex_edge(%d,%d) finds %d->%d", after, a, b,
                      num(graph::source_id(tv, e)), num(graph::target_id(tv, e)));
      }
    }
    // twice transposed: the original
    auto tt = graph::views::transpose(tv);
    for (auto&& ud : graph::vertices(tt)) {
      std::vector<DE> have;
      for (auto&& e : graph::edges(tt, ud))
        have.push_back({num(graph::source_id(tt, e)), num(graph::target_id(tt, e)), 0});
      auto out = expected(x, num(graph::vertex_id(tt, ud)));
      for (auto& e : out)
        e.val = 0;
      std::sort(have.begin(), have.end());
      std::sort(out.begin(), out.end());
      if (have != out)
        return fail("transpose-twice", "after %s: twice transposed, vertex %d has other edges than in the graph", after,
                    num(graph::vertex_id(tt, ud)));
    }
  }

  // ---- loading ----------------------------------------------------------------------------------------------------
  static constexpr bool SIGNED = std::is_integral_v<VId> && std::is_signed_v<VId>;
  int any_id() { return ASSOC ? int(draw(uint32_t(max_n))) * 3 - (SIGNED ? 9 : 0) : int(draw(uint32_t(max_n))); } // some negative
  std::vector<RowE> edge_rows(int lim) { // endpoints below lim (sequence) or any (associative)
    int               ne = range(0, chance(1, 4) ? 24 : 6);
    std::vector<RowE> r;
    for (int k = 0; k < ne; ++k) {
      auto pick_id = [&] { return ASSOC ? any_id() : int(draw(uint32_t(lim))); };
      int  a = pick_id(), b = chance(1, 5) ? a : pick_id();
      if (!r.empty() && chance(1, 5))
        a = r.back().s, b = chance(1, 2) ? r.back().t : b;
      r.push_back({a, b, fresh()});
    }
    return r;
  }

  // after a load that may have ended part way: work out how far it got and require exactly that prefix
  void settle(int s, const DM& before, const std::vector<RowE>& rows, size_t grown, const Result& r, size_t bad_at, const char* what) {
    if (failed())
      return;
    Env    env;
    G&     gr = *g[s];
    size_t c  = size_t(graph::num_edges(gr));
    size_t k  = c - before.count;
    if (c < before.count || k > rows.size() || k > bad_at)
      return fail("load-prefix", "%s that ended with %s loaded %zd of %zu edges", what, what_name[r.o.what], ssize_t(c - before.count),
                  rows.size());
    if (r.done() && k != rows.size())
      return fail("load-prefix", "%s loaded %zu of %zu edges", what, k, rows.size());
    DM x = before;
    for (size_t i = 0; i < k; ++i)
      model_edge(x, rows[i]);
    std::set<int> may;
    if (ASSOC) {
      if (!r.done() && k < rows.size())
        may = {rows[k].s, rows[k].t};
    } else if (r.done() || size_t(graph::num_vertices(gr)) == grown || k > 0)
      grow(x, std::min(grown, size_t(graph::num_vertices(gr))));
    std::string why = compare(gr, x, &may);
    if (!why.empty())
      return fail(r.done() ? "content" : "partial-content", "after %s ended with %s, %zu of %zu edges in: %s", what, what_name[r.o.what], k,
                  rows.size(), why.c_str());
    for (int u : may)
      if (gr.contains_vertex(id(u)))
        x.vv.emplace(u, 0);
    if (!ASSOC && r.done() && x.vv.size() != std::max(before.vv.size(), grown))
      return fail("content", "after %s there are %zu vertices, expected %zu", what, x.vv.size(), std::max(before.vv.size(), grown));
    m[s] = x;
    if constexpr (BIDIR)
      mirror(gr, m[s], what);
  }

  void op_load_edges(int s) {
    G&                gr = *g[s];
    DM                before = m[s];
    size_t            n = before.vv.size();
    int               kind = draw(5);
    size_t            vc = 0;
    bool              infer;
    int               lim = max_n;
    if (!ASSOC && (chance(1, 3) || kind == 4))
      vc = chance(1, 4) ? 0 : std::min(size_t(MOST), n + draw(4));
    infer = vc == 0 && kind != 4;
    if (!infer) { // ids must be below the number of vertices; sometimes they aren't
      int avail = int(std::max(n, vc));
      lim       = std::min(MOST, avail == 0 || chance(1, 6) ? avail + 1 : avail);
    }
    auto   rows = edge_rows(lim);
    size_t hint = chance(1, 3) ? draw(30) : 0;
    size_t grown = n, bad_at = rows.size();
    if (!ASSOC) {
      if (infer)
        for (auto& r : rows)
          grown = std::max(grown, size_t(std::max(r.s, r.t)) + 1);
      else {
        grown = std::max(n, vc);
        for (size_t k = 0; k < rows.size() && bad_at == rows.size(); ++k)
          if (size_t(std::max(rows[k].s, rows[k].t)) >= grown)
            bad_at = k;
      }
    }
    bool            bad = bad_at < rows.size();
    std::vector<CE> ce;
    if (kind < 2)
      for (auto& r : rows)
        ce.push_back(make_ce(r));
    trace("    load %zu edges, kind %d, vertex_count %zu, %zu vertices%s, graph %d", rows.size(), kind, vc, n, bad ? ", an id is too large" : "", s);
    Result r = mutate(
        "load_edges",
        [&] {
          switch (kind) {
          case 0: gr.load_edges(static_cast<const std::vector<CE>&>(ce), std::identity{}, vc, hint); break;
          case 1: gr.load_edges(std::move(ce), std::identity{}, vc, hint); break;
          case 2: gr.load_edges(rows, eproj(), vc, hint); break;
          case 3: gr.load_edges(Feed<RowE, true>{&rows}, eproj(), vc, hint); break;
          default: {
            Feed<RowE, false> f{&rows};
            gr.load_edges(f, eproj(), vc, hint);
          }
          }
        },
        bad ? 1u << W_RUNTIME : 1u << W_NONE);
    if (kind == 0 && !failed())
      for (size_t k = 0; k < rows.size(); ++k)
        if constexpr (has_ev)
          if (rd(ce[k].value) != rows[k].val)
            return fail("input-changed", "load_edges changed a const input range");
    settle(s, before, rows, grown, r, bad_at, "load_edges");
  }

  void op_load_vertices(int s) {
    G&                gr = *g[s];
    DM                before = m[s];
    size_t            n = before.vv.size();
    int               kind = draw(5);
    bool              sized = kind < 3;
    int               nv = wide && chance(1, 3) ? range(std::min(MOST, max_n) - 2, std::min(MOST, max_n)) : range(0, std::min(max_n, 8));
    size_t            vc = chance(1, 3) ? std::min(size_t(MOST), n + draw(4)) : 0;
    size_t            grown = std::max(n, std::max(vc, sized ? size_t(nv) : 0));
    int               lim = int(grown);
    if (!ASSOC && (lim == 0 || chance(1, 8)))
      lim = std::min(MOST, lim + 1);
    std::vector<RowV> rows;
    bool              in_order = chance(1, 2);
    for (int k = 0; k < nv; ++k)
      rows.push_back({ASSOC ? any_id() : in_order && k < lim ? k : int(draw(uint32_t(lim))), fresh()});
    size_t bad_at = rows.size();
    if (!ASSOC)
      for (size_t k = 0; k < rows.size() && bad_at == rows.size(); ++k)
        if (size_t(rows[k].id) >= grown)
          bad_at = k;
    bool            bad = bad_at < rows.size();
    std::vector<CV> cv;
    if (kind < 2)
      for (auto& r : rows)
        cv.push_back(make_cv(r));
    trace("    load %d vertices, kind %d, vertex_count %zu, %zu vertices%s, graph %d", nv, kind, vc, n, bad ? ", an id is too large" : "", s);
    Result r = mutate(
        "load_vertices",
        [&] {
          switch (kind) {
          case 0: gr.load_vertices(static_cast<const std::vector<CV>&>(cv), std::identity{}, vc); break;
          case 1: gr.load_vertices(std::move(cv), std::identity{}, vc); break;
          case 2: gr.load_vertices(static_cast<const std::vector<RowV>&>(rows), vproj(), vc); break;
          case 3: gr.load_vertices(Feed<RowV, true>{&rows}, vproj(), vc); break;
          default: {
            const Feed<RowV, false> f{&rows};
            gr.load_vertices(f, vproj(), vc);
          }
          }
        },
        bad ? 1u << W_OUT_OF_RANGE : 1u << W_NONE);
    if (failed())
      return;
    if (kind == 0)
      for (size_t k = 0; k < rows.size(); ++k)
        if constexpr (has_vv)
          if (rd(cv[k].value) != rows[k].val)
            return fail("input-changed", "load_vertices changed a const input range");
    // some prefix of the rows must have been applied: all of them after success
    Env         env;
    std::string why;
    for (size_t j = r.done() ? rows.size() : 0; j <= bad_at && j <= rows.size(); ++j) {
      DM x = before;
      if (!ASSOC)
        grow(x, r.done() ? grown : std::max(size_t(graph::num_vertices(gr)), n));
      if (!ASSOC && x.vv.size() > grown)
        return fail("content", "after load_vertices there are %zu vertices", x.vv.size());
      for (size_t k = 0; k < j; ++k)
        x.vv[rows[k].id] = has_vv ? rows[k].val : 0;
      std::set<int> may;
      if (ASSOC && !r.done() && j < rows.size())
        may = {rows[j].id};
      std::string w = compare(gr, x, &may);
      if (w.empty()) {
        for (int u : may)
          if (gr.contains_vertex(id(u)))
            x.vv.emplace(u, 0);
        m[s] = x;
        return;
      }
      why = w;
    }
    fail(r.done() ? "content" : "partial-content", "after load_vertices ended with %s: %s", what_name[r.o.what], why.c_str());
  }

  // ---- construction --------------------------------------------------------------------------------------------------
  std::vector<VId> partitions(size_t likely_n) {
    std::vector<VId> p;
    if (chance(1, 2))
      return p;
    int k = range(1, 4), at = chance(1, 8) ? 1 : 0;
    for (int i = 0; i < k && at < MOST; ++i) {
      p.push_back(id(at));
      at += chance(1, 10) ? 0 : 1 + int(draw(uint32_t(likely_n / 2 + 1)));
    }
    return p;
  }
  static bool valid_parts(const std::vector<VId>& p, size_t n) {
    if (ASSOC || p.empty())
      return true;
    if (num(p[0]) != 0 || size_t(num(p.back())) > n)
      return false;
    for (size_t k = 1; k < p.size(); ++k)
      if (!(p[k - 1] < p[k]))
        return false;
    return true;
  }

  void op_construct() {
    int                s = slot();
    std::unique_ptr<G> n;
    DM                 x;
    int                form = draw(4);
    const char*        what = "construction";
    if (form == 2 && !std::is_integral_v<VId>)
      form = 3;
    if (form == 0) {
      Result r;
      if constexpr (has_gv) {
        x.gv = fresh();
        GV   gv(x.gv);
        bool mv = chance(1, 2);
        r       = mutate("constructor(graph value)", [&] {
          if (mv)
            n = std::make_unique<G>(std::move(gv));
          else
            n = std::make_unique<G>(static_cast<const GV&>(gv));
        });
      } else
        r = mutate("default constructor", [&] { n = std::make_unique<G>(); });
      if (!r.done())
        return;
    } else if (form == 1) {
      auto rows = edge_rows(max_n);
      rows.resize(std::min<size_t>(rows.size(), 4));
      if (rows.empty())
        rows.push_back({any_id(), any_id(), fresh()});
      int top = 0;
      for (auto& r : rows)
        top = std::max({top, r.s, r.t});
      grow(x, size_t(top) + 1);
      for (auto& r : rows)
        model_edge(x, r);
      using IL = std::initializer_list<CE>;
      auto mk  = [&](size_t k) {
        Env e;
        return make_ce(rows[k]);
      };
      bool with_gv = has_gv && chance(1, 2);
      std::optional<std::conditional_t<has_gv, GV, int>> gv;
      gv.emplace(with_gv ? fresh() : 0);
      x.gv     = with_gv ? next_val - 1 : 0;
      auto con = [&](IL il) {
        Sut z;
        if constexpr (has_gv) {
          if (with_gv) {
            n = std::make_unique<G>(static_cast<const GV&>(*gv), il);
            return;
          }
        }
        n = std::make_unique<G>(il);
      };
      Result r = mutate("constructor(initializer list)", [&] {
        Env e;
        switch (rows.size()) {
        case 1: con({mk(0)}); break;
        case 2: con({mk(0), mk(1)}); break;
        case 3: con({mk(0), mk(1), mk(2)}); break;
        default: con({mk(0), mk(1), mk(2), mk(3)}); break;
        }
      });
      if (!r.done())
        return;
      what = "construction from an initializer list";
    } else if (form == 2) { // max vertex id, edges
      int  top  = int(draw(uint32_t(max_n)));
      bool over = chance(1, 30) || (NARROW && top == 255);
      auto rows = edge_rows(chance(1, 8) ? std::min(MOST, top + 2) : top + 1);
      auto part = partitions(size_t(top) + 1);
      bool bad  = false;
      if (!ASSOC) {
        grow(x, size_t(top) + 1);
        for (auto& r : rows)
          bad |= std::max(r.s, r.t) > top;
      }
      for (auto& r : rows)
        model_edge(x, r);
      unsigned want = over ? 1u << W_INVALID_ARGUMENT : bad ? 1u << W_RUNTIME : valid_parts(part, size_t(top) + 1) ? 1u << W_NONE : 1u << W_INVALID_ARGUMENT;
      if (bad && !over && !valid_parts(part, size_t(top) + 1))
        want |= 1u << W_INVALID_ARGUMENT;
      Result r = mutate(
          "constructor(max id, edges)",
          [&] {
            if constexpr (std::is_integral_v<VId>)
              n = std::make_unique<G>(over ? std::numeric_limits<VId>::max() : id(top), rows, eproj(), part);
          },
          want);
      if (!r.done())
        return;
      what = "construction from edges";
    } else { // vertices and edges
      int               nv = wide && chance(1, 3) ? range(std::min(MOST, max_n) - 2, std::min(MOST, max_n)) : range(0, std::min(max_n, 8));
      std::vector<RowV> vr;
      for (int k = 0; k < nv; ++k) {
        int vid = ASSOC ? any_id() : chance(1, wide ? 4000 : 20) ? int(draw(uint32_t(std::min(MOST, nv + 1)))) : k;
        vr.push_back({vid, fresh()});
      }
      auto rows = edge_rows(nv == 0 ? max_n : chance(1, 8) ? std::min(MOST, nv + 1) : nv);
      auto part = partitions(size_t(nv));
      bool badv = false, bade = false;
      size_t grown = size_t(nv);
      if (!ASSOC) {
        for (auto& v : vr)
          badv |= v.id >= nv;
        for (auto& r : rows) {
          if (nv == 0)
            grown = std::max(grown, size_t(std::max(r.s, r.t)) + 1);
          else
            bade |= std::max(r.s, r.t) >= nv;
        }
        grow(x, grown);
      }
      for (auto& v : vr)
        x.vv[v.id] = has_vv ? v.val : 0;
      for (auto& r : rows)
        model_edge(x, r);
      unsigned want = badv ? 1u << W_OUT_OF_RANGE : bade ? 1u << W_RUNTIME : valid_parts(part, grown) ? 1u << W_NONE : 1u << W_INVALID_ARGUMENT;
      if ((badv || bade) && !valid_parts(part, grown))
        want |= 1u << W_INVALID_ARGUMENT;
      if (badv && bade)
        want |= 1u << W_RUNTIME;
      Result r = mutate(
          "constructor(edges, vertices)", [&] { n = std::make_unique<G>(rows, vr, eproj(), vproj(), part); }, want);
      if (!r.done())
        return;
      what = "construction from edges and vertices";
    }
    g[s] = std::move(n);
    m[s] = std::move(x);
    verify(s, what);
  }

  // ---- the rest -------------------------------------------------------------------------------------------------
  int pick_live() {
    int s = slot();
    for (int k = 0; k < SLOTS; ++k, s = (s + 1) % SLOTS)
      if (g[s] && !m[s].unknown)
        return s;
    return -1;
  }

  void op_set_values(int s) {
    Env  env;
    G&   gr = *g[s];
    DM&  x  = m[s];
    if constexpr (has_vv)
      if (!x.vv.empty()) {
        auto it = std::next(x.vv.begin(), draw(uint32_t(x.vv.size())));
        it->second = fresh();
        graph::vertex_value(gr, *graph::find_vertex(gr, id(it->first))) = VV(it->second);
      }
    if constexpr (has_ev && !BIDIR && (ORDER == SEQ || ORDER == FRONT || mapped<Edges>)) // set elements can't be changed
      if (!x.e.empty()) {
        auto& e = x.e[draw(uint32_t(x.e.size()))];
        for (auto&& uv : graph::edges(gr, *graph::find_vertex(gr, id(e.u))))
          if (num(graph::target_id(gr, uv)) == e.v && rd(graph::edge_value(gr, uv)) == e.val) {
            e.val                      = fresh();
            graph::edge_value(gr, uv) = EV(e.val);
            break;
          }
      }
    if constexpr (has_gv) {
      x.gv             = fresh();
      gr.graph_value() = GV(x.gv);
    }
  }

  void op_resize(int s) {
    size_t n  = m[s].vv.size();
    size_t to = std::min(size_t(MOST), wide && chance(1, 2) ? std::max(n, size_t(max_n) - draw(4)) : n + draw(4));
    if (chance(1, 2)) {
      mutate("reserve_vertices", [&] { g[s]->reserve_vertices(to + draw(8)); });
      return;
    }
    if (mutate("resize_vertices", [&] { g[s]->resize_vertices(to); }).done())
      grow(m[s], to);
  }
  void op_clear(int s) {
    if (!mutate("clear", [&] { g[s]->clear(); }).done())
      return fail("clear-failed", "clear() failed");
    int  gv = m[s].gv;
    bool un = m[s].unknown;
    m[s]    = {};
    m[s].gv = gv;
    if constexpr (has_gv)
      if (un)
        m[s].gv = rd(g[s]->graph_value());
  }
  void op_copy_construct(int from) {
    int to = slot();
    if (to == from)
      return;
    std::unique_ptr<G> n;
    bool               ok = mutate("copy constructor", [&] { n = std::make_unique<G>(static_cast<const G&>(*g[from])); }).done();
    if (ok) {
      g[to] = std::move(n);
      m[to] = m[from];
    }
    verify(from, "being copied");
    verify(to, "copy construction");
  }
  void op_move_construct(int from) {
    int to = slot();
    if (to == from)
      return;
    std::unique_ptr<G> n;
    Result             r = mutate("move constructor", [&] { n = std::make_unique<G>(std::move(*g[from])); });
    if (!r.done()) { // an allocation or the graph value's move failed
      m[from].unknown = true;
      verify(from, "a failed move construction");
      return;
    }
    g[to]           = std::move(n);
    m[to]           = m[from];
    m[from].unknown = true;
    verify(from, "being moved from");
    verify(to, "move construction");
  }
  void op_assign(int from) {
    int to = slot();
    if (!g[to])
      return;
    if (chance(1, 2) || to == from) {
      bool   self = to == from;
      Result r    = mutate(self ? "self assignment" : "copy assignment", [&] { *g[to] = static_cast<const G&>(*g[from]); });
      if (r.done()) {
        if (!self)
          m[to] = m[from];
      } else
        m[to].unknown = true;
      if (!self)
        verify(from, "being copied");
      verify(to, r.done() ? "copy assignment" : "a failed copy assignment");
    } else {
      Result r = mutate("move assignment", [&] { *g[to] = std::move(*g[from]); });
      if (r.done())
        m[to] = m[from];
      else
        m[to].unknown = true;
      m[from].unknown = true;
      verify(from, "being moved from");
      verify(to, "move assignment");
    }
  }
  void op_swap(int a) {
    int b = slot();
    if (b == a || !g[b])
      return;
    Result r = mutate("swap", [&] {
      using std::swap;
      swap(*g[a], *g[b]);
    });
    if (r.done())
      std::swap(m[a], m[b]);
    else
      m[a].unknown = m[b].unknown = true;
    verify(a, "swap");
    verify(b, "swap");
  }

  void run(int ops) {
    wide  = (!ASSOC || !NARROW) && chance(1, 150); // as many vertices, or more, as a narrow id has values
    max_n = wide ? (NARROW ? 256 : range(257, 300)) : range(2, 12);
    if (wide)
      ops = std::min(ops, 25);
    g[0]  = std::make_unique<G>();
    uint32_t mask = draw(0x100) | (chance(1, 2) ? 0xFF : 0);
    for (int k = 0; k < ops && !failed(); ++k) {
      int s = pick_live();
      if (s < 0 || chance(1, 6)) {
        op_construct();
        continue;
      }
      uint32_t op = draw(11);
      if (op < 8 && !(mask >> op & 1))
        op = 8;
      switch (op) {
      case 0: op_load_vertices(s), verify(s, "load_vertices"); break;
      case 1: op_set_values(s), verify(s, "assigning values"); break;
      case 2: op_resize(s), verify(s, "resize_vertices"); break;
      case 3:
        if (chance(1, 3))
          op_clear(s), verify(s, "clear");
        break;
      case 4: op_copy_construct(s); break;
      case 5: op_move_construct(s); break;
      case 6: op_assign(s); break;
      case 7: op_swap(s); break;
      case 10: // a moved-from graph is cleared and used again, or destroyed
        for (int t = 0; t < SLOTS; ++t)
          if (g[t] && m[t].unknown) {
            if (chance(1, 2)) {
              op_clear(t);
              verify(t, "clear of a moved-from graph");
            } else
              g[t].reset(), m[t] = {};
          }
        break;
      default: op_load_edges(s), verify(s, "load_edges"); break;
      }
    }
    for (int s = 0; s < SLOTS; ++s) {
      verify(s, "everything");
      g[s].reset();
    }
  }
};

} // namespace dyn
#define COMBO(NAME, ...) MACHINE(NAME, ::dyn::Machine<__VA_ARGS__>)
