// Maximal independent set, triangle count, Jaccard coefficients and label propagation against the model.
#include "world.hpp"

#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/dos_graph_traits.hpp>

#include <algorithm>
#include <cmath>
#include <deque>
#include <map>
#include <random>
#include <set>

using namespace sim;
namespace ga = graph::adj_list;

// A label whose writes into the caller's label range are seen by the oracle.
struct LblOwner {
  virtual void write(int idx, int from, int to) = 0;
};
struct Lbl {
  int       v     = 0;
  LblOwner* owner = nullptr;
  int       idx   = 0;
  Lbl()           = default;
  Lbl(int x) : v(x) {}
  Lbl(const Lbl& o) {
    Env e;
    if (e.old)
      seam(K_COPY);
    v = o.v;
  }
  Lbl& operator=(const Lbl& o) {
    Env e;
    if (e.old)
      seam(K_COPY);
    int from = v;
    v        = o.v;
    if (owner && e.old)
      owner->write(idx, from, v);
    return *this;
  }
  friend bool operator==(const Lbl& a, const Lbl& b) { return a.v == b.v; }
};
template <>
struct std::hash<Lbl> {
  size_t operator()(const Lbl& x) const noexcept { return static_cast<size_t>(x.v) * 2654435761u; }
};

namespace {

template <class F>
void pick_graph(World& w, F f) {
  switch (draw(8)) {
  case 0: return f(w.vvi);
  case 1: return f(w.vvp);
  case 2: return f(w.vsv);
  case 3: return f(w.dofl);
  case 4: return maybe_const(w.vov, f);
  case 5:
    if (w.narrow())
      return f(w.cg8);
    if (w.has_cg)
      return maybe_const(w.cg, f);
    [[fallthrough]];
  default:
    if (w.has_ual)
      return maybe_const(w.ual, f);
    return f(w.bil);
  }
}

std::vector<std::set<int>> neighbours(const Model& m, bool self = false) {
  std::vector<std::set<int>> r(static_cast<size_t>(m.n));
  for (size_t u = 0; u < r.size(); ++u)
    for (auto& a : m.out[u])
      if (self || a.to != static_cast<int>(u))
        r[u].insert(a.to);
  return r;
}

struct OutIt {
  using iterator_category = std::output_iterator_tag;
  using value_type        = void;
  using difference_type   = std::ptrdiff_t;
  using pointer           = void;
  using reference         = void;
  std::vector<int>* out   = nullptr;
  struct Slot {
    std::vector<int>* out;
    void              operator=(size_t v) const {
      Callback cb;
      out->push_back(static_cast<int>(v));
      ev(0x701, v);
    }
  };
  Slot   operator*() const { return {out}; }
  OutIt& operator++() { return *this; }
  OutIt  operator++(int) { return *this; }
};

#if PART == 1
// ---- maximal independent set ----------------------------------------------------------------------------------------
template <class G>
struct Mis {
  World&           w;
  G&               g;
  int              seed;
  std::vector<int> got;
  size_t           count = 0;
  void             invoke() {
    if (seed < 0)
      count = graph::maximal_independent_set(g, OutIt{&got});
    else
      count = graph::maximal_independent_set(g, OutIt{&got}, static_cast<ga::vertex_id_t<G>>(seed));
  }
  void verify(const Outcome& o) {
    if (o.threw())
      return fail("unexpected-exception", "maximal_independent_set threw %s %s", what_name[o.what], o.msg.c_str());
    if (count != got.size())
      return fail("mis-count", "maximal_independent_set returned %zu but wrote %zu vertices", count, got.size());
    std::set<int> s(got.begin(), got.end());
    if (s.size() != got.size())
      return fail("mis-repeats", "maximal_independent_set wrote a vertex twice");
    auto nb = neighbours(w.m, true);
    for (int v = 0; v < w.m.n; ++v) {
      auto& N    = nb[static_cast<size_t>(v)];
      bool  loop = N.count(v) != 0, touch = false;
      for (int x : N)
        touch = touch || (x != v && s.count(x));
      if (s.count(v) && (touch || loop))
        return fail("mis-not-independent", "maximal_independent_set contains %d, which is adjacent to %s", v, loop ? "itself" : "another member");
      if (!s.count(v) && !touch && !loop)
        return fail("mis-not-maximal", "maximal_independent_set leaves out %d, which has no neighbour in the set", v);
    }
    int sd = seed < 0 ? 0 : seed;
    if (w.m.n && !nb[static_cast<size_t>(sd)].count(sd) && !s.count(sd))
      return fail("mis-seed", "maximal_independent_set doesn't contain its seed %d", sd);
  }
};
OP("maximal_independent_set", 4, UNDIRECTED) {
  int seed = w.m.n ? static_cast<int>(draw(static_cast<uint32_t>(w.m.n) + 1)) - 1 : -1;
  pick_graph(w, [&](auto& g) {
    using G = std::remove_reference_t<decltype(g)>;
    drive("maximal_independent_set", [&] { return std::unique_ptr<Mis<G>>(new Mis<G>{w, g, seed, {}, 0}); });
  });
}

// ---- triangles ------------------------------------------------------------------------------------------------------
template <class G>
struct Tri {
  World& w;
  G&     g;
  size_t expect, got = 0;
  void   invoke() { got = graph::triangle_count(g); }
  void   verify(const Outcome& o) {
    if (o.threw())
      return fail("unexpected-exception", "triangle_count threw %s %s", what_name[o.what], o.msg.c_str());
    ev(0x702, got);
    if (got != expect)
      return fail("triangle-count", "triangle_count returned %zu, there are %zu triangles", got, expect);
  }
};
OP("triangle_count", 3, UNDIRECTED) {
  auto         nb = neighbours(w.m, true); // sorted, no parallel edges, self-loops kept
  const size_t n  = nb.size();
  size_t       t  = 0;
  double       cost = 0;
  for (int a = 0; a < w.m.n; ++a)
    for (int b : nb[static_cast<size_t>(a)])
      if (b > a) {
        auto *A = &nb[static_cast<size_t>(a)], *B = &nb[static_cast<size_t>(b)];
        cost += static_cast<double>(A->size() + B->size());
        if (A->size() < B->size())
          std::swap(A, B);
        for (auto c = B->upper_bound(b); c != B->end(); ++c)
          t += A->count(*c);
      }
  if (cost > 2e7)
    return;
  std::vector<EdgeRow> rows;
  for (size_t u = 0; u < n; ++u)
    for (int v : nb[u])
      rows.push_back({static_cast<Vid>(u), static_cast<Vid>(v), 1});
  auto go = [&](auto& g) {
    using G = std::remove_reference_t<decltype(g)>;
    drive("triangle_count", [&] { return std::unique_ptr<Tri<G>>(new Tri<G>{w, g, t}); });
  };
  auto loaded = [&](auto g) {
    if (n)
      g.resize_vertices(n);
    auto r = rows;
    for (size_t i = r.size(); i > 1; --i) // an ordered edge container sorts whatever it is given
      std::swap(r[i - 1], r[(i * 7919) % i]);
    g.load_edges(r, std::identity{}, n, r.size());
    go(g);
  };
  switch (draw(5)) {
  case 0: {
    VSV g(n);
    for (size_t u = 0; u < n; ++u)
      for (int v : nb[u])
        g[u].v.push_back({v, 1});
    return go(g);
  }
  case 1: {
    if (!rows.empty()) {
      if (n <= 256 && (n > 100 || chance(1, 4))) {
        CG8                                               g;
        std::vector<graph::copyable_edge_t<uint8_t, int>> r;
        for (auto& e : rows)
          r.push_back({static_cast<uint8_t>(e.source_id), static_cast<uint8_t>(e.target_id), 1});
        g.load_edges(r, std::identity{}, n, r.size());
        if (ga::num_vertices(g) <= n)
          return go(g);
      }
      CG   g;
      auto r = rows;
      g.load_edges(r, std::identity{}, n, r.size());
      if (ga::num_vertices(g) <= n)
        return go(g);
    }
    [[fallthrough]];
  }
  case 2:
    return loaded(graph::container::dynamic_graph<int, void, void, Vid, false, graph::container::vos_graph_traits<int, void, void, Vid, false>>{});
  case 3:
    return loaded(graph::container::dynamic_graph<void, void, void, Vid, false, graph::container::dos_graph_traits<void, void, void, Vid, false>>{});
  default: {
    VVI g(n);
    for (size_t u = 0; u < n; ++u)
      g[u].assign(nb[u].begin(), nb[u].end());
    return go(g);
  }
  }
}
#endif

#if PART == 2
// ---- Jaccard --------------------------------------------------------------------------------------------------------
template <class G, class T>
struct Jac {
  World&                                      w;
  G&                                          g;
  std::map<std::tuple<int, int, double>, int> got;
  void                                        invoke() {
    auto out = [this](ga::vertex_id_t<G> u, ga::vertex_id_t<G> v, ga::edge_t<G>& uv, T val) {
      Callback cb;
      ev(0x703, static_cast<uint64_t>(u), static_cast<uint64_t>(v));
      int su = static_cast<int>(ga::source_id(g, uv)), tv = static_cast<int>(ga::target_id(g, uv));
      if (su != static_cast<int>(u) || tv != static_cast<int>(v))
        fail("jaccard-edge", "jaccard_coefficient(%d, %d) came with the edge %d-%d", static_cast<int>(u), static_cast<int>(v), su, tv);
      ++got[{static_cast<int>(u), static_cast<int>(v), std::round(static_cast<double>(val) * 1e6)}];
    };
    if constexpr (std::is_same_v<T, double>)
      graph::jaccard_coefficient(g, out);
    else
      graph::jaccard_coefficient<G&, decltype(out), T>(g, out);
  }
  void verify(const Outcome& o) {
    if (o.threw())
      return fail("unexpected-exception", "jaccard_coefficient threw %s %s", what_name[o.what], o.msg.c_str());
    auto                                        nb = neighbours(w.m);
    std::map<std::tuple<int, int, double>, int> ref;
    for (int u = 0; u < w.m.n; ++u)
      for (auto& a : w.m.out[static_cast<size_t>(u)]) {
        if (a.to == u)
          continue;
        auto *A = &nb[static_cast<size_t>(u)], *B = &nb[static_cast<size_t>(a.to)];
        if (A->size() > B->size())
          std::swap(A, B);
        size_t both = 0;
        for (int x : *A)
          both += B->count(x);
        T val = static_cast<T>(both) / static_cast<T>(A->size() + B->size() - both);
        ++ref[{u, a.to, std::round(static_cast<double>(val) * 1e6)}];
      }
    if (got != ref) {
      for (auto& [k, c] : ref)
        if (!got.count(k) || got[k] != c)
          return fail("jaccard-wrong", "jaccard_coefficient: edge %d-%d should be reported with %g %d time(s)", std::get<0>(k), std::get<1>(k),
                      std::get<2>(k) / 1e6, c);
      return fail("jaccard-wrong", "jaccard_coefficient reported an edge or value too much");
    }
  }
};
OP("jaccard_coefficient", 3, ANY) {
  bool f = chance(1, 4);
  pick_graph(w, [&](auto& g) {
    using G = std::remove_reference_t<decltype(g)>;
    if (f)
      return drive("jaccard_coefficient", [&] { return std::unique_ptr<Jac<G, float>>(new Jac<G, float>{w, g, {}}); });
    drive("jaccard_coefficient", [&] { return std::unique_ptr<Jac<G, double>>(new Jac<G, double>{w, g, {}}); });
  });
}
#endif

#if PART == 3
// ---- label propagation ------------------------------------------------------------------------------------------------
struct Rng { // the caller's random numbers: a few chosen adversarially, the rest pseudo-random
  using result_type = uint32_t;
  uint64_t              s;
  std::vector<uint32_t> first;
  size_t                used = 0;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type                  operator()() {
    Callback cb;
    if (used < first.size())
      return first[used++];
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return static_cast<result_type>(s >> 16);
  }
};
constexpr int EMPTY = -5;

template <class G, class C, bool WITH_EMPTY>
struct Lp : LblOwner {
  using L = typename C::value_type;
  World&           w;
  G&               g;
  C                label;
  std::vector<int> start;
  Rng              rng;
  int              form;  // 0: defaults; 1: rng; 2: rng and limit
  long long        limit; // -1: none
  std::vector<int> writes;
  long long        changes = 0;
  std::vector<int> cur;

  static int val(const L& l) {
    if constexpr (std::is_same_v<L, Lbl>)
      return l.v;
    else
      return static_cast<int>(l);
  }
  Lp(World& w_, G& g_, const std::vector<int>& st, const Rng& r, int f, long long lim)
        : w(w_), g(g_), start(st), rng(r), form(f), limit(lim), writes(st.size(), 0), cur(st) {
    label.resize(st.size());
    for (size_t i = 0; i < st.size(); ++i) {
      label[i] = L(static_cast<typename std::conditional_t<std::is_same_v<L, Lbl>, int, L>>(st[i]));
      if constexpr (std::is_same_v<L, Lbl>) {
        label[i].owner = this;
        label[i].idx   = static_cast<int>(i);
      }
    }
  }
  // the labels a vertex may take: those most frequent among its neighbours
  std::set<int> plurality(size_t u) const {
    std::map<int, int> f;
    for (auto& a : w.m.out[u])
      if (!WITH_EMPTY || cur[static_cast<size_t>(a.to)] != EMPTY)
        ++f[cur[static_cast<size_t>(a.to)]];
    int best = 0;
    for (auto& [l, c] : f)
      best = std::max(best, c);
    std::set<int> r;
    for (auto& [l, c] : f)
      if (c == best)
        r.insert(l);
    return r;
  }
  void write(int i, int from, int to) override {
    ev(0x704, static_cast<uint64_t>(i), static_cast<uint64_t>(to));
    if (from == to)
      return;
    if (!plurality(static_cast<size_t>(i)).count(to))
      fail("label-not-plurality", "label_propagation gave vertex %d label %d, which isn't most frequent among its neighbours", i, to);
    cur[static_cast<size_t>(i)] = to;
    ++changes;
    if (limit >= 0 && ++writes[static_cast<size_t>(i)] > limit)
      fail("label-limit", "label_propagation changed a vertex %d times in %lld iterations", writes[static_cast<size_t>(i)], limit);
  }
  // every iteration visits every vertex: where the labels ahead of a vertex are settled after k iterations and leave it no
  // choice, its own is settled after k+1
  void sweeps() {
    const size_t      n = static_cast<size_t>(w.m.n);
    std::vector<int>  det = start;
    std::vector<char> known(n, 0);
    for (size_t u = 0; u < n; ++u)
      known[u] = w.m.out[u].empty();
    for (long long k = 0; k < static_cast<long long>(n) && (limit < 0 || k < limit); ++k) {
      std::vector<std::pair<size_t, int>> add;
      for (size_t u = 0; u < n; ++u) {
        if (known[u])
          continue;
        std::map<int, int> f;
        bool               all = true;
        for (auto& a : w.m.out[u]) {
          all = all && known[static_cast<size_t>(a.to)];
          if (all && (!WITH_EMPTY || det[static_cast<size_t>(a.to)] != EMPTY))
            ++f[det[static_cast<size_t>(a.to)]];
        }
        if (!all || f.empty())
          continue;
        int best = 0, times = 0, l = 0;
        for (auto& [x, c] : f)
          if (c > best)
            best = c, times = 1, l = x;
          else
            times += c == best;
        if (times == 1)
          add.push_back({u, l});
      }
      if (add.empty())
        break;
      for (auto& [u, l] : add) {
        known[u] = 1, det[u] = l;
        if (cur[u] != l)
          return fail("label-sweep", "label_propagation gave vertex %zu label %d, but after %lld iterations it can only have label %d", u, cur[u], k + 1, l);
      }
    }
  }
  void invoke() {
    if constexpr (WITH_EMPTY) {
      L empty = L(EMPTY);
      if (form == 0)
        graph::label_propagation(g, label, empty);
      else if (form == 1)
        graph::label_propagation(g, label, empty, rng);
      else
        graph::label_propagation(g, label, empty, rng, static_cast<size_t>(limit));
    } else {
      if (form == 0)
        graph::label_propagation(g, label);
      else if (form == 1)
        graph::label_propagation(g, label, rng);
      else
        graph::label_propagation(g, label, rng, static_cast<int>(limit));
    }
  }
  void verify(const Outcome& o) {
    if (o.threw())
      return fail("unexpected-exception", "label_propagation threw %s %s", what_name[o.what], o.msg.c_str());
    const size_t n = static_cast<size_t>(w.m.n);
    for (size_t i = 0; i < n; ++i) {
      if (std::is_same_v<L, Lbl> && cur[i] != val(label[i]))
        return fail("label-write-lost", "label_propagation: vertex %zu ends with another label than was written", i);
      cur[i] = val(label[i]);
    }
    bool settled = true;
    for (size_t i = 0; i < n; ++i) {
      auto p  = plurality(i);
      settled = settled && (p.empty() || p.count(cur[i]));
      if (p.empty() && cur[i] != start[i] && w.m.out[i].empty())
        return fail("label-spread", "label_propagation relabelled isolated vertex %zu", i);
    }
    if (!settled && (limit < 0 || (std::is_same_v<L, Lbl> && changes < limit)))
      return fail("label-not-settled", "label_propagation stopped before every label was most frequent among the vertex's neighbours%s",
                  limit < 0 ? "" : " and before the iteration limit");
    if (limit == 0 && cur != start)
      return fail("label-limit", "label_propagation with no iterations changed labels");
    sweeps();
    if (failed())
      return;
    // a label only moves along edges
    if (n > 300) { // large: within connected components
      std::vector<int> p(n);
      for (size_t i = 0; i < n; ++i)
        p[i] = static_cast<int>(i);
      auto f = [&](size_t x) {
        while (p[x] != static_cast<int>(x))
          x = static_cast<size_t>(p[x] = p[static_cast<size_t>(p[x])]);
        return static_cast<int>(x);
      };
      for (auto& e : w.m.e)
        p[static_cast<size_t>(f(static_cast<size_t>(e.u)))] = f(static_cast<size_t>(e.v));
      std::set<std::pair<int, int>> had;
      for (size_t i = 0; i < n; ++i)
        had.insert({f(i), start[i]});
      for (size_t i = 0; i < n; ++i)
        if (!had.count({f(i), cur[i]}))
          return fail("label-spread", "label_propagation gave vertex %zu label %d, which no vertex of its component had", i, cur[i]);
      return;
    }
    for (size_t i = 0; i < n; ++i) {
      std::vector<bool> seen(n, false);
      std::vector<int>  q{static_cast<int>(i)};
      seen[i]    = true;
      bool found = false;
      while (!q.empty() && !found) {
        size_t u = static_cast<size_t>(q.back());
        q.pop_back();
        found = start[u] == cur[i];
        for (auto& a : w.m.out[u])
          if (!seen[static_cast<size_t>(a.to)]) {
            seen[static_cast<size_t>(a.to)] = true;
            q.push_back(a.to);
          }
      }
      if (!found)
        return fail("label-spread", "label_propagation gave vertex %zu label %d, which no vertex it reaches had", i, cur[i]);
    }
  }
};

template <bool WITH_EMPTY, class C, class G>
void lp(World& w, G& g) {
  std::vector<int> st;
  int              kind = range(0, 2);
  for (int i = 0; i < w.m.n; ++i)
    st.push_back(WITH_EMPTY && pick(w.m, 2, static_cast<size_t>(i) * 3) == 0 ? EMPTY : kind == 0 ? i : static_cast<int>(pick(w.m, kind == 1 ? 2 : 4, static_cast<size_t>(i))));
  Rng r{0x9e3779b97f4a7c15ull ^ (uint64_t(draw(1000)) << 20), {}, 0};
  int k = range(0, 6);
  for (int i = 0; i < k; ++i) {
    static const uint32_t extreme[] = {0, 0xffffffffu, 0x80000000u, 0x7fffffffu, 1};
    r.first.push_back(extreme[draw(5)]);
  }
  int       form = range(0, 2);
  long long lim  = -1;
  if (form == 2 || !w.m.und || w.m.n > 8) { // without a limit a random tie may go on and on in larger graphs
    static const int lims[] = {0, 1, 2, 3, 7, 15};
    form                    = 2;
    lim                     = lims[draw(w.m.n > 300 ? 4 : 6)];
  }
  drive("label_propagation", [&] { return std::make_unique<Lp<G, C, WITH_EMPTY>>(w, g, st, r, form, lim); });
}
// ties are broken and vertices are visited in an order by chance: over many generators every outcome turns up
OP("label_propagation by chance", 1, ANY) {
  const uint32_t     k    = 2 + draw(3); // labels that tie
  const bool         skip = draw(2), order = draw(2);
  const uint64_t     s0   = draw(1u << 20);
  std::set<int>      seen;
  std::vector<std::vector<int>> g(order ? 2 : k + 2);
  if (order)
    g = {{1}, {0}}; // whichever is visited first takes the other's label
  else
    for (uint32_t i = 1; i <= k; ++i)
      g[0].push_back(static_cast<int>(i));
  for (int i = 0; i < 160 && seen.size() < (order ? 2 : k); ++i) {
    std::vector<int> label(g.size());
    for (size_t j = 0; j < label.size(); ++j)
      label[j] = static_cast<int>(j);
    std::mt19937 rng(static_cast<uint32_t>(s0 * 160 + static_cast<uint64_t>(i)));
    if (skip)
      graph::label_propagation(g, label, -1, rng, size_t(1));
    else
      graph::label_propagation(g, label, rng, size_t(1));
    seen.insert(label[0]);
  }
  ev(0x70c, seen.size());
  if (seen.size() != (order ? 2 : k))
    fail("label-chance", order ? "label_propagation visits two vertices in the same order for 160 generators (%zu of %u outcomes)"
                               : "label_propagation breaks a tie towards %zu of %u labels for 160 generators",
         seen.size(), order ? 2u : k);
}
OP("label_propagation", 4, ANY) {
  switch (draw(5)) {
  case 0: return lp<false, std::vector<int>>(w, w.vvp);
  case 1: return maybe_const(w.dofl, [&](auto& g) { lp<false, std::deque<Lbl>>(w, g); });
  case 2: return maybe_const(w.vov, [&](auto& g) { lp<false, std::vector<Lbl>>(w, g); });
  case 3:
    if (w.has_ual)
      return lp<false, std::vector<Lbl>>(w, w.ual);
    [[fallthrough]];
  default: return lp<false, std::vector<Lbl>>(w, w.vsv);
  }
}
OP("label_propagation with unlabelled vertices", 4, ANY) {
  switch (draw(5)) {
  case 0: return lp<true, std::deque<int>>(w, w.bil);
  case 1:
    if (w.narrow())
      return lp<true, std::vector<Lbl>>(w, w.cg8);
    if (w.has_cg)
      return maybe_const(w.cg, [&](auto& g) { lp<true, std::vector<Lbl>>(w, g); });
    [[fallthrough]];
  case 2: return lp<true, std::vector<Lbl>>(w, w.vvi);
  case 3:
    if (w.has_ual)
      return maybe_const(w.ual, [&](auto& g) { lp<true, std::vector<Lbl>>(w, g); });
    [[fallthrough]];
  default: return lp<true, std::vector<Lbl>>(w, w.vsv);
  }
}
#endif

} // namespace
