// Minimum spanning forests against the model.
#include "values.hpp"
#include "world.hpp"

#include <graph/algorithm/mst.hpp>
#include <graph/views/edgelist.hpp>

#include <algorithm>
#include <deque>
#include <limits>
#include <list>
#include <map>

using namespace sim;
namespace ga = graph::adj_list;

namespace {

struct Dsu {
  std::vector<int> p;
  explicit Dsu(int n) : p(static_cast<size_t>(n)) {
    for (int i = 0; i < n; ++i)
      p[static_cast<size_t>(i)] = i;
  }
  int find(int x) {
    while (p[static_cast<size_t>(x)] != x)
      x = p[static_cast<size_t>(x)] = p[static_cast<size_t>(p[static_cast<size_t>(x)])];
    return x;
  }
  bool join(int a, int b) {
    a = find(a), b = find(b);
    p[static_cast<size_t>(a)] = b;
    return a != b;
  }
};
// least (or greatest) total of a spanning forest of the edges whose ends are in `in` (empty: all)
long long best_total(const Model& m, bool greatest, const std::vector<bool>& in = {}) {
  auto es = m.e;
  std::sort(es.begin(), es.end(), [&](auto& a, auto& b) { return greatest ? a.w > b.w : a.w < b.w; });
  Dsu       d(m.n);
  long long t = 0;
  for (auto& e : es)
    if ((in.empty() || in[static_cast<size_t>(e.u)]) && d.join(e.u, e.v))
      t += e.w;
  return t;
}

// ---- Kruskal ------------------------------------------------------------------------------------------------------
enum In { I_VEC, I_LIST, I_CONST, I_DEQUE, I_VIEW };

template <class W, class VId, In IN, bool INPLACE, bool CMP>
struct Kruskal {
  using Row = graph::copyable_edge_t<VId, W>;
  World&                                                                               w;
  bool                                                                                 greatest;
  std::conditional_t<IN == I_LIST, std::list<Row>, std::conditional_t<IN == I_DEQUE, std::deque<Row>, std::vector<Row>>> in;
  std::vector<Row> out;
  long long        total = 0;
  size_t           comps = 0;
  std::vector<std::tuple<int, int, int>> before;

  static int val(const W& x) { return static_cast<int>(x); }
  auto       listing() const {
    std::vector<std::tuple<int, int, int>> r;
    for (auto& e : in)
      r.push_back({static_cast<int>(e.source_id), static_cast<int>(e.target_id), val(e.value)});
    return r;
  }
  Kruskal(World& w_, bool gr) : w(w_), greatest(gr) {
    for (auto& e : w.m.e)
      in.push_back(Row{static_cast<VId>(e.u), static_cast<VId>(e.v), W(e.w)});
    before = listing();
  }
  template <class R>
  void run(R&& e) {
    auto cmp = [this](const W& a, const W& b) {
      Callback cb;
      return greatest ? val(b) < val(a) : val(a) < val(b);
    };
    auto keep = [&](auto&& r) {
      total = val(W(r.first));
      comps = r.second;
    };
    if constexpr (INPLACE) {
      if constexpr (CMP)
        keep(graph::inplace_kruskal(e, out, cmp));
      else
        keep(graph::inplace_kruskal(e, out));
    } else {
      if constexpr (CMP)
        keep(graph::kruskal(e, out, cmp));
      else
        keep(graph::kruskal(e, out));
    }
  }
  void invoke() {
    if constexpr (IN == I_VIEW) {
      auto f = [](const auto& g, const auto& uv) { return static_cast<int>(ga::edge_value(const_cast<VVP&>(static_cast<const VVP&>(g)), uv)); };
      run(graph::views::edgelist(w.vvp, f));
    } else if constexpr (IN == I_CONST)
      run(std::as_const(in));
    else
      run(in);
  }
  void verify(const Outcome& o) {
    const char* nm = INPLACE ? "inplace_kruskal" : "kruskal";
    if (o.threw())
      return fail("unexpected-exception", "%s threw %s %s", nm, what_name[o.what], o.msg.c_str());
    if constexpr (IN != I_VIEW) {
      auto now = listing();
      if (INPLACE) {
        std::sort(now.begin(), now.end());
        std::sort(before.begin(), before.end());
      }
      if (now != before)
        return fail("input-changed", "%s changed its input%s", nm, INPLACE ? " other than by reordering" : "");
    }
    int N = -1;
    for (auto& e : w.m.e)
      N = std::max({N, e.u, e.v});
    std::map<std::tuple<int, int, int>, int> avail;
    for (auto& e : w.m.e) {
      ++avail[{e.u, e.v, e.w}];
      if (IN == I_VIEW && e.u != e.v)
        ++avail[{e.v, e.u, e.w}];
    }
    Dsu       d(w.m.n);
    long long sum = 0;
    for (auto& r : out) {
      std::tuple<int, int, int> k{static_cast<int>(r.source_id), static_cast<int>(r.target_id), val(r.value)};
      ev(0x601, static_cast<uint64_t>(std::get<0>(k)), static_cast<uint64_t>(std::get<1>(k)));
      if (avail[k]-- <= 0)
        return fail("tree-edge-invented", "%s selected %d-%d:%d, which isn't an (unused) input edge", nm, std::get<0>(k), std::get<1>(k), std::get<2>(k));
      if (!d.join(std::get<0>(k), std::get<1>(k)))
        return fail("tree-has-cycle", "%s selected edges that form a cycle", nm);
      sum += std::get<2>(k);
    }
    if (sum != total)
      return fail("tree-total", "%s returned total %lld, its edges sum to %lld", nm, total, sum);
    Dsu    f(w.m.n);
    size_t tree = 0;
    for (auto& e : w.m.e)
      tree += f.join(e.u, e.v);
    if (out.size() != tree)
      return fail("tree-not-spanning", "%s selected %zu edges, a spanning forest has %zu", nm, out.size(), tree);
    if (sum != best_total(w.m, greatest))
      return fail("tree-not-optimal", "%s found total %lld, the best is %lld", nm, sum, best_total(w.m, greatest));
    if (comps != static_cast<size_t>(N + 1) - tree)
      return fail("tree-components", "%s returned %zu components, there are %zu", nm, comps, static_cast<size_t>(N + 1) - tree);
  }
};

template <class W, class VId, In IN, bool INPLACE>
void kruskal(World& w) {
  bool greatest = false;
  if (chance(1, 2)) {
    greatest = chance(1, 2);
    return drive("kruskal", [&] { return std::make_unique<Kruskal<W, VId, IN, INPLACE, true>>(w, greatest); });
  }
  drive("kruskal", [&] { return std::make_unique<Kruskal<W, VId, IN, INPLACE, false>>(w, false); });
}

#ifndef MST_PART2
OP("kruskal", 4, UNDIRECTED) {
  switch (draw(5)) {
  case 0: return kruskal<int, uint32_t, I_VEC, false>(w);
  case 1: return kruskal<double, int, I_LIST, false>(w);
  case 2: return kruskal<ValT, size_t, I_CONST, false>(w);
  case 3:
    if (w.m.n)
      return kruskal<int, uint32_t, I_VIEW, false>(w);
    [[fallthrough]];
  default:
    if (w.m.n <= 256 && chance(1, w.m.n > 100 ? 1 : 8)) // ids up to the type's largest
      return kruskal<int, uint8_t, I_DEQUE, false>(w);
    if (w.m.n > 65536)
      return kruskal<int, uint32_t, I_VEC, false>(w);
    return kruskal<Val, uint16_t, I_DEQUE, false>(w);
  }
}
OP("inplace_kruskal", 4, UNDIRECTED) {
  switch (draw(4)) {
  case 0: return kruskal<int, uint32_t, I_VEC, true>(w);
  case 1: return kruskal<long, int, I_DEQUE, true>(w);
  case 2: return kruskal<Val, size_t, I_VEC, true>(w);
  default: return kruskal<ValT, uint32_t, I_VEC, true>(w);
  }
}
#else

// ---- Prim ------------------------------------------------------------------------------------------------------------
template <class G, class W, bool CUSTOM>
struct Prim {
  using VId = ga::vertex_id_t<G>;
  World&             w;
  G&                 g;
  bool               greatest;
  int                seed; // -1: the default
  int                broken; // 0 valid; 1 seed out of range; 2 predecessor too small; 3 weight too small
  std::vector<VId>   pred;
  std::conditional_t<CUSTOM, std::deque<W>, std::vector<W>> weight;
  long long          total = 0;
  W                  init;

  Prim(World& w_, G& g_, bool gr, int s, int br) : w(w_), g(g_), greatest(gr), seed(s), broken(br) {
    size_t n = static_cast<size_t>(w.m.n);
    pred.assign(n + draw(2), static_cast<VId>(draw(3)));
    weight.assign(n + draw(2), static_cast<W>(draw(50)));
    if (br == 2)
      pred.resize(n - 1);
    if (br == 3)
      weight.resize(n - 1);
    init = greatest ? std::numeric_limits<W>::lowest() : std::numeric_limits<W>::max();
  }
  void invoke() {
    if constexpr (CUSTOM) {
      auto cmp = [this](const W& a, const W& b) {
        Callback cb;
        return greatest ? b < a : a < b;
      };
      auto wf = [](const auto& gg, const auto& uv) -> W {
        Callback cb;
        return static_cast<W>(ga::edge_value(const_cast<G&>(static_cast<const G&>(gg)), uv));
      };
      if (seed < 0)
        total = static_cast<long long>(graph::prim(g, pred, weight, cmp, init, wf));
      else
        total = static_cast<long long>(graph::prim(g, pred, weight, cmp, init, wf, static_cast<VId>(seed)));
    } else {
      if (seed < 0)
        total = static_cast<long long>(graph::prim(g, pred, weight));
      else
        total = static_cast<long long>(graph::prim(g, pred, weight, static_cast<VId>(seed)));
    }
  }
  void verify(const Outcome& o) {
    if (broken) {
      if (o.what != W_OUT_OF_RANGE)
        fail("invalid-argument-accepted", "prim with %s: %s instead of out_of_range",
             broken == 1 ? "a seed out of range" : broken == 2 ? "too few predecessors" : "too few weights", what_name[o.what]);
      return;
    }
    if (o.threw())
      return fail("unexpected-exception", "prim threw %s %s", what_name[o.what], o.msg.c_str());
    const size_t      n = static_cast<size_t>(w.m.n);
    const int         s = seed < 0 ? 0 : seed;
    std::vector<bool> in(n, false);
    std::vector<int>  q{s};
    in[static_cast<size_t>(s)] = true;
    while (!q.empty()) {
      int u = q.back();
      q.pop_back();
      for (auto& a : w.m.out[static_cast<size_t>(u)])
        if (!in[static_cast<size_t>(a.to)]) {
          in[static_cast<size_t>(a.to)] = true;
          q.push_back(a.to);
        }
    }
    long long sum = 0;
    Dsu       d(w.m.n);
    if (static_cast<int>(pred[static_cast<size_t>(s)]) != s)
      return fail("prim-seed-predecessor", "prim: the seed's predecessor is %d, not itself", static_cast<int>(pred[static_cast<size_t>(s)]));
    std::vector<char> real(n, 0); // the edge from its parent exists
    for (size_t u = 0; u < n; ++u)
      for (auto& a : w.m.out[u]) {
        size_t v = static_cast<size_t>(a.to);
        if (static_cast<size_t>(pred[v]) == u && static_cast<W>(a.w) == weight[v])
          real[v] = 1;
      }
    for (size_t v = 0; v < n; ++v) {
      if (!in[v]) {
        if (weight[v] != init)
          return fail("prim-unreachable", "prim: vertex %zu isn't in the seed's component but has a weight", v);
        continue;
      }
      if (static_cast<int>(v) == s)
        continue;
      int  p     = static_cast<int>(pred[v]);
      if (!real[v])
        return fail("prim-edge-invented", "prim: no edge %d-%zu has weight %g", p, v, static_cast<double>(weight[v]));
      if (!d.join(p, static_cast<int>(v)))
        return fail("tree-has-cycle", "prim: the predecessors form a cycle through %zu", v);
      ev(0x602, v, static_cast<uint64_t>(p));
      sum += static_cast<long long>(weight[v]);
    }
    if (sum != total)
      return fail("tree-total", "prim returned %lld, its edges sum to %lld", total, sum);
    if (sum != best_total(w.m, greatest, in))
      return fail("tree-not-optimal", "prim found total %lld, the best is %lld", sum, best_total(w.m, greatest, in));
  }
};

template <class G, class W, bool CUSTOM>
void prim(World& w, G& g) {
  if (w.m.n == 0)
    return;
  bool greatest = CUSTOM && chance(1, 3);
  int  seed     = static_cast<int>(draw(static_cast<uint32_t>(w.m.n) + 1)) - 1;
  int  broken   = chance(1, 16) ? range(1, 3) : 0;
  if (broken == 1)
    seed = w.m.n + static_cast<int>(draw(3));
  if (seed > 0 && static_cast<long long>(static_cast<ga::vertex_id_t<G>>(seed)) != seed) // no such id
    seed = -1, broken = 0;
  drive("prim", [&] { return std::make_unique<Prim<G, W, CUSTOM>>(w, g, greatest, seed, broken); });
}
OP("prim", 6, UNDIRECTED) {
  switch (draw(7)) {
  case 0: return prim<VVP, int, true>(w, w.vvp);
  case 1: return prim<VSV, long, true>(w, w.vsv);
  case 2: return prim<DOFL, double, true>(w, w.dofl);
  case 3: return maybe_const(w.vov, [&](auto& g) { prim<std::remove_reference_t<decltype(g)>, int, false>(w, g); });
  case 4:
    if (w.narrow())
      return prim<CG8, int, true>(w, w.cg8);
    if (w.has_cg)
      return prim<CG, int, true>(w, w.cg);
    [[fallthrough]];
  case 5: return maybe_const(w.ual, [&](auto& g) { prim<std::remove_reference_t<decltype(g)>, double, true>(w, g); });
  default: return prim<UAL, int, false>(w, w.ual);
  }
}
#endif

} // namespace
