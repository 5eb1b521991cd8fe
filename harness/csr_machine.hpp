// Histories of loads of compressed_graph, for one instantiation, against an abstract graph. Each caller task owns its
// own bank of graphs; allocations, copies of values, projections and input ranges fail at drawn points. A graph whose
// load failed may only be cleared, assigned to or destroyed.
#pragma once
#include "loading.hpp"
#include <graph/container/compressed_graph.hpp>
#include <graph/graph.hpp>

#include <array>
#include <deque>
#include <list>
#include <optional>
#include <string>

namespace csr {
using namespace sim;
using namespace dyn;

struct CM {
  int              n = 0;
  std::vector<DE>  e;              // by source, otherwise in load order
  bool             loaded = false; // edges were loaded: not again before clear()
  bool             valued = false; // vertex values exist
  std::vector<int> vv;             // n of them, if valued
  std::vector<int> parts{0};
  int              gv    = 0;
  bool             dirty = false; // a load or assignment failed, or moved from
};

template <class G>
struct Machine {
  using EV   = typename G::edge_value_type;
  using VV   = typename G::vertex_value_type;
  using GV   = typename G::graph_value_type;
  using VId  = typename G::vertex_id_type;
  using EIdx = typename G::edge_index_type;
  using CE   = graph::copyable_edge_t<VId, EV>;
  using CV   = graph::copyable_vertex_t<VId, VV>;
  static constexpr bool has_ev = !std::is_void_v<EV>, has_vv = !std::is_void_v<VV>, has_gv = !std::is_void_v<GV>;
  static constexpr int  SLOTS = 3;

  std::unique_ptr<G> g[SLOTS];
  CM                 m[SLOTS];
  int                next_val = 1;
  int                max_n    = 8;
  bool               wide     = false;

  int        fresh() { return next_val++; }
  int        slot() { return int(draw(SLOTS)); }
  static VId id(int x) { return static_cast<VId>(x); }
  static CE  make_ce(const RowE& r) {
    if constexpr (has_ev)
      return CE{id(r.s), id(r.t), EV(r.val)};
    else
      return CE{id(r.s), id(r.t)};
  }
  static CV make_cv(const RowV& r) {
    if constexpr (has_vv)
      return CV{id(r.id), VV(r.val)};
    else
      return CV{id(r.id)};
  }
  static auto eproj() {
    return [](const RowE& r) {
      Callback c(true, K_CALLBACK);
      return make_ce(r);
    };
  }
  static auto vproj() {
    return [](const RowV& r) {
      Callback c(true, K_CALLBACK);
      return make_cv(r);
    };
  }

  // ---- the model ----------------------------------------------------------------------------------------------------
  void grow(CM& x, int n) {
    x.n = std::max(x.n, n);
    if (x.valued)
      x.vv.resize(size_t(x.n), 0);
  }
  void model_edges(CM& x, const std::vector<RowE>& rows, size_t vc) {
    if (rows.empty())
      return; // not even vertex_count counts then
    for (auto& r : rows) {
      x.n = std::max({x.n, r.s + 1, r.t + 1});
      x.e.push_back({r.s, r.t, has_ev ? r.val : 0});
    }
    grow(x, int(vc));
    x.loaded = true;
  }
  void model_vertices(CM& x, const std::vector<RowV>& rows, size_t vc) {
    for (auto& r : rows)
      x.n = std::max(x.n, r.id + 1);
    x.n = std::max(x.n, int(vc));
    if (has_vv && !rows.empty())
      x.valued = true;
    grow(x, x.n);
    if (has_vv)
      for (auto& r : rows)
        x.vv[size_t(r.id)] = r.val;
  }

  std::vector<RowE> edge_rows() {
    int               ne = chance(1, 60) ? (sizeof(EIdx) > 1 ? 300 : 100) : range(0, chance(1, 4) ? 24 : 6);
    std::vector<RowE> r;
    for (int k = 0; k < ne; ++k) {
      int a = int(draw(uint32_t(max_n))), b = chance(1, 5) ? a : int(draw(uint32_t(max_n)));
      if (!r.empty() && chance(1, 5))
        a = r.back().s, b = chance(1, 2) ? r.back().t : b;
      r.push_back({a, b, fresh()});
    }
    if (wide && !r.empty() && chance(2, 3))
      (chance(1, 2) ? r.back().t : r.back().s) = max_n - 1;
    std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.s < b.s; });
    return r;
  }
  size_t vertex_count() { return sizeof(VId) == 1 && wide ? 254 + draw(3) : draw(uint32_t(max_n + 3)); }
  std::vector<RowV> vertex_rows() {
    std::vector<RowV> r;
    int               nv = wide && chance(1, 3) ? range(max_n - 2, max_n) : range(0, std::min(max_n, 8));
    bool              in_order = chance(1, 2);
    for (int k = 0; k < nv; ++k)
      r.push_back({in_order ? k : int(draw(uint32_t(max_n))), fresh()});
    return r;
  }

  // ---- the oracle ---------------------------------------------------------------------------------------------------
  void verify(int s, const char* after) {
    if (failed() || !g[s] || m[s].dirty)
      return;
    Env  env;
    auto st = check(*g[s], m[s], after);
    if (st)
      check(static_cast<const G&>(*g[s]), m[s], after);
  }
  template <class GG>
  bool check(GG& gr, const CM& x, const char* after) {
    constexpr const char* what = std::is_const_v<GG> ? "const graph" : "graph";
    if (int(graph::num_vertices(gr)) != x.n || int(gr.size()) != x.n || gr.empty() != (x.n == 0) || int(gr.num_vertices()) != x.n)
      return fail("counts", "after %s: the %s has %d vertices, expected %d", after, what, int(graph::num_vertices(gr)), x.n), false;
    if (size_t(graph::num_edges(gr)) != x.e.size() || graph::has_edges(gr) != !x.e.empty())
      return fail("counts", "after %s: the %s has %zu edges, expected %zu", after, what, size_t(graph::num_edges(gr)), x.e.size()), false;
    if constexpr (has_gv)
      if (rd(gr.graph_value()) != x.gv || rd(graph::graph_value(gr)) != x.gv)
        return fail("graph-value", "after %s: the graph value is %d, expected %d", after, rd(gr.graph_value()), x.gv), false;
    const bool wrap = !std::in_range<VId>(x.n) && std::ranges::empty(gr.vertex_ids());
    if (wrap && chance(1, 40)) // a known finding, so it ends few runs
      return fail("vertex-ids-narrow", "after %s: vertex_ids() is empty with %d vertices", after, x.n), false;
    if (int past = x.n + int(draw(3)); !wrap && int64_t(id(past)) == past && std::ranges::size(gr.edge_ids(id(past))) != 0)
      return fail("id-ranges", "after %s: edge_ids(%d) isn't empty, but there are %d vertices", after, past, x.n), false;
    if ((!wrap && int(std::ranges::size(gr.vertex_ids())) != x.n) || size_t(std::ranges::size(gr.edge_ids())) != x.e.size())
      return fail("id-ranges", "after %s: vertex_ids() has %d elements and edge_ids() %zu", after, int(std::ranges::size(gr.vertex_ids())),
                  size_t(std::ranges::size(gr.edge_ids()))),
             false;
    size_t k = 0; // edges are numbered by source, then in load order
    int    u = 0;
    for (auto&& ud : graph::vertices(gr)) {
      if (int(graph::vertex_id(gr, ud)) != u)
        return fail("vertices", "after %s: vertex %d of the %s has id %d", after, u, what, int(graph::vertex_id(gr, ud))), false;
      if (u >= x.n)
        return fail("vertices", "after %s: the %s lists more than %d vertices", after, what, x.n), false;
      if constexpr (has_vv)
        if (x.valued && (rd(graph::vertex_value(gr, ud)) != x.vv[size_t(u)] || rd(gr.vertex_value(id(u))) != x.vv[size_t(u)]))
          return fail("vertex-value", "after %s: vertex %d of the %s has value %d, expected %d", after, u, what,
                      rd(graph::vertex_value(gr, ud)), x.vv[size_t(u)]),
                 false;
      size_t k0 = k;
      for (auto&& uv : graph::edges(gr, ud)) {
        int s = int(graph::source_id(gr, uv)), t = int(graph::target_id(gr, uv)), val = 0, val2 = 0;
        if constexpr (has_ev)
          val = rd(graph::edge_value(gr, uv));
        if (k >= x.e.size() || x.e[k] != DE{s, t, val} || s != u)
          return fail("edges", "after %s: edge %zu of vertex %d of the %s is %d->%d (%d), expected %s%d->%d (%d)", after, k - k0, u, what, s, t,
                      val, k < x.e.size() ? "" : "none, not ", k < x.e.size() ? x.e[k].u : 0, k < x.e.size() ? x.e[k].v : 0,
                      k < x.e.size() ? x.e[k].val : 0),
                 false;
        if constexpr (has_ev)
          val2 = rd(gr.edge_value(static_cast<EIdx>(k)));
        if (int(gr.target_id(static_cast<EIdx>(k))) != t || val2 != val)
          return fail("edge-id", "after %s: edge id %zu of the %s leads to %d (%d), expected %d (%d)", after, k, what,
                      int(gr.target_id(static_cast<EIdx>(k))), val2, t, val),
                 false;
        if (int(graph::vertex_id(gr, graph::target(gr, uv))) != t || int(graph::vertex_id(gr, graph::source(gr, uv))) != s)
          return fail("edge-ends", "after %s: the ends of %d->%d are %d and %d", after, s, t,
                      int(graph::vertex_id(gr, graph::source(gr, uv))), int(graph::vertex_id(gr, graph::target(gr, uv)))),
                 false;
        ++k;
      }
      if (k < x.e.size() && x.e[k].u == u)
        return fail("edges", "after %s: vertex %d of the %s lacks its edge to %d", after, u, what, x.e[k].v), false;
      size_t d = k - k0;
      if (size_t(graph::degree(gr, ud)) != d || size_t(graph::degree(gr, id(u))) != d || size_t(graph::num_edges(gr, ud)) != d ||
          size_t(graph::num_edges(gr, id(u))) != d)
        return fail("degree", "after %s: degree of %d is %zu, it has %zu edges", after, u, size_t(graph::degree(gr, ud)), d), false;
      auto ids = gr.edge_ids(id(u));
      if (size_t(std::ranges::size(ids)) != d || (d && size_t(*ids.begin()) != k0))
        return fail("edge-id", "after %s: edge_ids(%d) has %zu elements, expected %zu from %zu", after, u, size_t(std::ranges::size(ids)), d, k0),
               false;
      if (int(graph::vertex_id(gr, *graph::find_vertex(gr, id(u)))) != u)
        return fail("find-vertex", "after %s: find_vertex(%d) finds %d", after, u, int(graph::vertex_id(gr, *graph::find_vertex(gr, id(u))))),
               false;
      if (x.n) {
        int  t = int(draw(uint32_t(x.n)));
        auto f = std::find_if(x.e.begin() + ssize_t(k0), x.e.begin() + ssize_t(k), [&](auto& e) { return e.v == t; });
        bool is = f != x.e.begin() + ssize_t(k);
        if (graph::contains_edge(gr, id(u), id(t)) != is ||
            graph::contains_edge(gr, ud, *graph::find_vertex(gr, id(t))) != is)
          return fail("contains-edge", "after %s: contains_edge(%d,%d) is %d", after, u, t, int(!is)), false;
        if (is) {
          auto e   = graph::find_vertex_edge(gr, id(u), id(t));
          int  val = 0;
          if constexpr (has_ev)
            val = rd(graph::edge_value(gr, e));
          if (DE{int(graph::source_id(gr, e)), int(graph::target_id(gr, e)), val} != *f)
            return fail("find-edge", "after %s: find_vertex_edge(%d,%d) finds %d->%d (%d)", after, u, t, int(graph::source_id(gr, e)),
                        int(graph::target_id(gr, e)), val),
                   false;
        }
      }
      ++u;
    }
    if (u != x.n)
      return fail("vertices", "after %s: the %s lists %d vertices, expected %d", after, what, u, x.n), false;
    // partitions
    size_t np = x.parts.size();
    if (size_t(graph::num_partitions(gr)) != np)
      return fail("partitions", "after %s: there are %zu partitions, expected %zu", after, size_t(graph::num_partitions(gr)), np), false;
    for (size_t p = 0; p <= np; ++p) {
      int a = p < np ? x.parts[p] : 0, b = p + 1 < np ? x.parts[p + 1] : p < np ? x.n : 0, v = a;
      for (auto&& ud : graph::vertices(gr, static_cast<int>(p))) {
        if (int(graph::vertex_id(gr, ud)) != v || v >= b)
          return fail("partitions", "after %s: partition %zu contains vertex %d, expected %d to %d", after, p,
                      int(graph::vertex_id(gr, ud)), a, b - 1),
                 false;
        if (size_t(graph::partition_id(gr, ud)) != p)
          return fail("partitions", "after %s: vertex %d is in partition %zu, expected %zu", after, v, size_t(graph::partition_id(gr, ud)), p),
                 false;
        ++v;
      }
      if (v != b)
        return fail("partitions", "after %s: partition %zu has %d vertices, expected %d", after, p, v - a, b - a), false;
      if (p < np && size_t(graph::num_vertices(gr, static_cast<int>(p))) != size_t(b - a))
        return fail("partitions", "after %s: num_vertices(g,%zu) is %zu, expected %d", after, p,
                    size_t(graph::num_vertices(gr, static_cast<int>(p))), b - a),
               false;
    }
    return true;
  }

  // ---- loading --------------------------------------------------------------------------------------------------------
  void op_load_edges(int s) {
    if (m[s].loaded)
      return;
    G&     gr   = *g[s];
    int    kind = int(draw(6));
    auto   rows = edge_rows();
    size_t vc = chance(1, 3) ? vertex_count() : 0, hint = chance(1, 3) ? draw(30) : 0;
    bool   bad = false;
    if ((kind == 0 || kind == 3) && rows.size() >= 2 && chance(1, 8)) { // these forms check the order
      std::swap(rows.front(), rows.back());
      bad = rows.front().s != rows.back().s;
    }
    std::vector<CE> ce;
    if (kind < 2)
      for (auto& r : rows)
        ce.push_back(make_ce(r));
    std::list<RowE> lst(rows.begin(), rows.end());
    trace("    load %zu edges, kind %d, vertex_count %zu, graph %d%s", rows.size(), kind, vc, s, bad ? ", not in order" : "");
    Result r = mutate(
        "load_edges",
        [&] {
          switch (kind) {
          case 0: gr.load_edges(static_cast<const std::vector<CE>&>(ce), std::identity{}, vc, hint); break;
          case 1: gr.load_edges(std::move(ce), std::identity{}, vc, hint); break;
          case 2: gr.load_edges(rows, eproj(), vc, hint); break;
          case 3: {
            const Feed<RowE, true> f{&rows};
            gr.load_edges(f, eproj(), vc, hint);
            break;
          }
          case 4: gr.load_edges(Feed<RowE, true>{&rows}, eproj(), vc, hint); break;
          default: gr.load_edges(lst, eproj(), vc, hint);
          }
        },
        bad ? 1u << W_RUNTIME : 1u << W_NONE);
    if (kind == 0 && !failed())
      for (size_t k = 0; k < rows.size(); ++k)
        if constexpr (has_ev)
          if (rd(ce[k].value) != rows[k].val)
            return fail("input-changed", "load_edges changed a const input range");
    if (r.done())
      model_edges(m[s], rows, vc);
    else
      m[s].dirty = true;
  }
  void op_load_vertices(int s) {
    G&              gr   = *g[s];
    int             kind = int(draw(4));
    auto            rows = vertex_rows();
    size_t          vc   = chance(1, 3) ? vertex_count() : 0;
    std::vector<CV> cv;
    if (kind == 0)
      for (auto& r : rows)
        cv.push_back(make_cv(r));
    std::list<RowV> lst(rows.begin(), rows.end());
    trace("    load %zu vertices, kind %d, vertex_count %zu, graph %d", rows.size(), kind, vc, s);
    Result r = mutate("load_vertices", [&] {
      switch (kind) {
      case 0: gr.load_vertices(cv, std::identity{}, vc); break;
      case 1: gr.load_vertices(rows, vproj(), vc); break;
      case 2: gr.load_vertices(Feed<RowV, true>{&rows}, vproj(), vc); break;
      default: gr.load_vertices(lst, vproj(), vc);
      }
    });
    if (kind == 0 && !failed())
      for (size_t k = 0; k < rows.size(); ++k)
        if constexpr (has_vv)
          if (rd(cv[k].value) != rows[k].val)
            return fail("input-changed", "load_vertices changed its input range");
    if (r.done())
      model_vertices(m[s], rows, vc);
    else
      m[s].dirty = true;
  }
  void op_load(int s) {
    if (m[s].loaded)
      return;
    auto er = edge_rows();
    auto vr = vertex_rows();
    if (mutate("load", [&] { g[s]->load(er, vr, eproj(), vproj()); }).done()) {
      model_edges(m[s], er, 0);
      model_vertices(m[s], vr, 0);
    } else
      m[s].dirty = true;
  }

  // ---- construction -----------------------------------------------------------------------------------------------------
  std::vector<VId> partitions() {
    std::vector<VId> p;
    if (chance(1, 3))
      return p;
    int k = range(1, 4), at = chance(1, 8) ? 1 : 0;
    for (int i = 0; i < k && std::in_range<VId>(at); ++i) {
      p.push_back(id(at));
      at += chance(1, 10) ? 0 : 1 + int(draw(uint32_t(max_n / 2 + 1)));
    }
    return p;
  }
  static bool valid_parts(const std::vector<VId>& p, int n) {
    if (p.empty())
      return true;
    if (p[0] != 0 || int(p.back()) > n)
      return false;
    for (size_t k = 1; k < p.size(); ++k)
      if (!(p[k - 1] < p[k]))
        return false;
    return true;
  }

  void op_construct() {
    int                s = slot();
    std::unique_ptr<G> n;
    CM                 x;
    int                form = int(draw(4));
    const char*        what = "construction";
    bool               with_gv = has_gv && chance(1, 2);
    std::optional<std::conditional_t<has_gv, GV, int>> gv;
    gv.emplace(with_gv ? fresh() : 0);
    x.gv     = with_gv ? next_val - 1 : 0;
    bool mv  = chance(1, 2);
    auto con = [&](const auto&... a) { // with the graph value or without
      if constexpr (has_gv) {
        if (with_gv) {
          if (mv)
            n = std::make_unique<G>(std::move(*gv), a...);
          else
            n = std::make_unique<G>(static_cast<const GV&>(*gv), a...);
          return;
        }
      }
      n = std::make_unique<G>(a...);
    };
    if (form == 0) {
      if (!mutate("constructor", [&] { con(); }).done())
        return;
    } else if (form == 1) {
      auto rows = edge_rows();
      rows.resize(std::min<size_t>(rows.size(), 3));
      if (rows.empty())
        rows.push_back({0, max_n - 1, fresh()});
      x.gv    = 0;
      auto mk = [&](size_t k) {
        Env e;
        return make_ce(rows[k]);
      };
      auto il = [&](std::initializer_list<CE> l) {
        Sut z;
        n = std::make_unique<G>(l);
      };
      if (!mutate("constructor(initializer list)",
                  [&] {
                    Env e;
                    switch (rows.size()) {
                    case 1: il({mk(0)}); break;
                    case 2: il({mk(0), mk(1)}); break;
                    default: il({mk(0), mk(1), mk(2)}); break;
                    }
                  })
               .done())
        return;
      model_edges(x, rows, 0);
      what = "construction from an initializer list";
    } else if (form == 2) {
      auto rows = edge_rows();
      auto part = partitions();
      bool bad  = false;
      if (rows.size() >= 2 && chance(1, 10)) {
        std::swap(rows.front(), rows.back());
        bad = rows.front().s != rows.back().s;
      }
      model_edges(x, rows, 0);
      bool ok = !bad && valid_parts(part, x.n);
      if (!mutate("constructor(edges)", [&] { con(rows, eproj(), part); }, ok ? 1u << W_NONE : 1u << W_RUNTIME).done())
        return;
      if (!part.empty())
        x.parts.assign(part.begin(), part.end());
      what = "construction from edges";
    } else {
      auto er   = edge_rows();
      auto vr   = vertex_rows();
      auto part = partitions();
      model_edges(x, er, 0);
      model_vertices(x, vr, 0);
      bool ok = valid_parts(part, x.n);
      if (!mutate("constructor(edges, vertices)", [&] { con(er, vr, eproj(), vproj(), part); }, ok ? 1u << W_NONE : 1u << W_RUNTIME).done())
        return;
      if (!part.empty())
        x.parts.assign(part.begin(), part.end());
      what = "construction from edges and vertices";
    }
    g[s] = std::move(n);
    m[s] = std::move(x);
    verify(s, what);
  }

  // ---- the rest -----------------------------------------------------------------------------------------------------
  void op_set_values(int s) {
    Env env;
    G&  gr = *g[s];
    CM& x  = m[s];
    if constexpr (has_vv)
      if (x.valued && x.n) {
        size_t v = draw(uint32_t(x.n));
        x.vv[v]  = fresh();
        if (chance(1, 2))
          graph::vertex_value(gr, *graph::find_vertex(gr, id(int(v)))) = VV(x.vv[v]);
        else
          gr.vertex_value(id(int(v))) = VV(x.vv[v]);
      }
    if constexpr (has_ev)
      if (!x.e.empty()) {
        size_t k  = draw(uint32_t(x.e.size()));
        x.e[k].val = fresh();
        size_t first = 0;
        while (x.e[first].u != x.e[k].u)
          ++first;
        if (chance(1, 2))
          gr.edge_value(static_cast<EIdx>(k)) = EV(x.e[k].val);
        else {
          auto es = graph::edges(gr, *graph::find_vertex(gr, id(x.e[k].u)));
          auto it = es.begin();
          for (size_t j = first; j < k; ++j)
            ++it;
          graph::edge_value(gr, *it) = EV(x.e[k].val);
        }
      }
    if constexpr (has_gv) {
      x.gv             = fresh();
      gr.graph_value() = GV(x.gv);
    }
  }
  void op_clear(int s) {
    if (!mutate("clear", [&] { g[s]->clear(); }).done())
      return fail("clear-failed", "clear() failed");
    int  gv = m[s].gv;
    bool un = m[s].dirty;
    m[s]    = {};
    m[s].gv = gv;
    if constexpr (has_gv)
      if (un)
        m[s].gv = rd(g[s]->graph_value());
  }
  void op_copy(int from) {
    int to = slot();
    if (to == from || (chance(1, 2) && g[to])) {
      if (!g[to])
        return;
      bool   self = to == from;
      Result r    = mutate(self ? "self assignment" : "copy assignment", [&] { *g[to] = static_cast<const G&>(*g[from]); });
      if (!r.done())
        m[to].dirty = true;
      else if (!self)
        m[to] = m[from];
      verify(from, "being copied");
      verify(to, "copy assignment");
      return;
    }
    std::unique_ptr<G> n;
    if (mutate("copy constructor", [&] { n = std::make_unique<G>(static_cast<const G&>(*g[from])); }).done()) {
      g[to] = std::move(n);
      m[to] = m[from];
    }
    verify(from, "being copied");
    verify(to, "copy construction");
  }
  void op_move(int from) {
    int to = slot();
    if (to == from)
      return;
    if (chance(1, 2) && g[to]) {
      bool done   = mutate("move assignment", [&] { *g[to] = std::move(*g[from]); }).done();
      m[to]       = m[from];
      m[to].dirty = !done;
    } else {
      std::unique_ptr<G> n;
      if (mutate("move constructor", [&] { n = std::make_unique<G>(std::move(*g[from])); }).done()) {
        g[to] = std::move(n);
        m[to] = m[from];
      }
    }
    m[from].dirty = true;
    verify(to, "being moved to");
  }

  int pick_live() {
    int s = slot();
    for (int k = 0; k < SLOTS; ++k, s = (s + 1) % SLOTS)
      if (g[s] && !m[s].dirty)
        return s;
    return -1;
  }
  void run(int ops) {
    wide          = chance(1, 150); // as many vertices, or more, as a narrow id has values
    max_n         = wide ? (sizeof(VId) == 1 ? 256 : range(257, 400)) : range(2, 12);
    if (wide)
      ops = std::min(ops, 25);
    g[0]          = std::make_unique<G>();
    uint32_t mask = draw(0x100) | (chance(1, 2) ? 0xFF : 0);
    for (int k = 0; k < ops && !failed(); ++k) {
      int s = pick_live();
      if (s < 0 || chance(1, 5)) {
        if (chance(1, 2)) { // a damaged graph is cleared and used again
          for (int t = 0; t < SLOTS; ++t)
            if (g[t] && m[t].dirty) {
              op_clear(t);
              verify(t, "clear after a failure or move");
            }
        } else
          op_construct();
        continue;
      }
      uint32_t op = draw(10);
      if (op < 8 && !(mask >> op & 1))
        op = 8;
      switch (op) {
      case 0: op_load_vertices(s), verify(s, "load_vertices"); break;
      case 1: op_set_values(s), verify(s, "assigning values"); break;
      case 2: op_load(s), verify(s, "load"); break;
      case 3: op_clear(s), verify(s, "clear"); break;
      case 4: op_copy(s); break;
      case 5: op_move(s); break;
      case 6:
        mutate("reserve", [&] { g[s]->reserve(draw(40), draw(20)); });
        verify(s, "reserve");
        break;
      case 7: op_load_vertices(s), verify(s, "load_vertices"); break;
      default: op_load_edges(s), verify(s, "load_edges"); break;
      }
    }
    for (int s = 0; s < SLOTS; ++s) {
      verify(s, "everything");
      g[s].reset();
    }
  }
};
} // namespace csr
#define CSR(EV, VV, GV, VID, EI) MACHINE(#EV " " #VV " " #GV " " #VID " " #EI, ::csr::Machine<graph::container::compressed_graph<EV, VV, GV, VID, EI>>)
