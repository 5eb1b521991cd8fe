#include "world.hpp"

#include <algorithm>
#include <cstring>
#include <numeric>
#include <set>

using namespace sim;

uint32_t g_fault_percent = 0;

void Model::build() {
  out.assign(static_cast<size_t>(n), {});
  for (size_t i = 0; i < e.size(); ++i) {
    out[static_cast<size_t>(e[i].u)].push_back({e[i].v, e[i].w, static_cast<int>(i)});
    if (und && e[i].u != e[i].v)
      out[static_cast<size_t>(e[i].v)].push_back({e[i].u, e[i].w, static_cast<int>(i)});
  }
}
size_t Model::arc_count() const {
  size_t k = 0;
  for (auto& o : out)
    k += o.size();
  return k;
}

void describe(const Model& m) {
  if (!tracing())
    return;
  trace("%s graph, %d vertices, %zu edges:", m.und ? "undirected" : "directed", m.n, m.e.size());
  std::string s;
  if (m.e.size() > 400)
    return;
  for (auto& e : m.e)
    s += " " + std::to_string(e.u) + (m.und ? "-" : ">") + std::to_string(e.v) + ":" + std::to_string(e.w);
  trace(" %s", s.c_str());
}

namespace {

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n > 0 ? static_cast<int>(next() % static_cast<uint64_t>(n)) : 0; }
};

// Around the ranges of narrow integers, or thousands of vertices: a few draws choose a family and a member.
Model large_model(const WorldSpec& s) {
  Model m;
  m.und      = s.und;
  int sizes  = range(0, 7);
  int size   = sizes < 2 ? 256 : sizes < 4 ? range(253, 260) : sizes < 7 ? 300 << range(0, 4) : range(65533, 65540);
  size       = std::min(size, s.large_n);
  int shape  = range(0, 11);
  int labels = range(0, 2), order = range(0, 2), wstyle = range(0, 2);
  Rng r{1 + draw(1u << 30)};
  int n      = size;
  auto add   = [&](int u, int v) { m.e.push_back({u, v, 1}); };
  switch (shape) {
  case 0:
  case 1: // out of a centre
    for (int i = 1; i < n; ++i)
      add(0, i);
    break;
  case 2: // into a centre
    for (int i = 1; i < n; ++i)
      add(i, 0);
    break;
  case 3: // path
    for (int i = 0; i + 1 < n; ++i)
      add(i, i + 1);
    break;
  case 4: // cycle
    for (int i = 0; i < n; ++i)
      add(i, (i + 1) % n);
    break;
  case 5: // parallel edges
    n = 3 + r.below(3);
    for (int i = 0; i < size; ++i)
      add(i % (n - 1), i % (n - 1) + 1);
    break;
  case 6: // many components
    for (int i = 0; i + 1 < n; i += 2)
      add(i, i + 1);
    break;
  case 7: // random tree
    for (int i = 1; i < n; ++i)
      add(r.below(i), i);
    break;
  case 8: // sparse
    for (int i = 1; i < n; ++i) {
      add(r.below(i), i);
      add(r.below(n), r.below(n));
    }
    break;
  case 9: // triangles round a centre
    for (int i = 1; i + 1 < n; i += 2) {
      add(0, i);
      add(i, i + 1);
      add(i + 1, 0);
    }
    break;
  case 10: // layers: a path of stars
    for (int i = 1; i < n; ++i)
      add((i - 1) / 16 * 16, i);
    break;
  default: // a path and an edge out of its end to every vertex
    for (int i = 0; i + 1 < n; ++i) {
      add(i, i + 1);
      add(n - 1, i);
    }
  }
  if (s.dag) {
    std::vector<MEdge> k;
    for (auto e : m.e)
      if (e.u != e.v)
        k.push_back(e.u < e.v ? e : MEdge{e.v, e.u, e.w});
    m.e = k;
  }
  if (s.simple) {
    std::set<std::pair<int, int>> seen;
    std::vector<MEdge>            k;
    for (auto& e : m.e)
      if (e.u != e.v && seen.insert({std::min(e.u, e.v), std::max(e.u, e.v)}).second)
        k.push_back(e);
    m.e = k;
  }
  m.n = n;
  for (auto& e : m.e)
    e.w = wstyle == 0 ? 1 : wstyle == 1 ? 1 + r.below(1000) : r.below(3);
  std::vector<int> p(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i)
    p[static_cast<size_t>(i)] = labels == 1 ? n - 1 - i : i;
  if (labels == 2)
    for (int i = n - 1; i > 0; --i)
      std::swap(p[static_cast<size_t>(i)], p[static_cast<size_t>(r.below(i + 1))]);
  for (auto& e : m.e)
    e.u = p[static_cast<size_t>(e.u)], e.v = p[static_cast<size_t>(e.v)];
  if (order == 1)
    std::reverse(m.e.begin(), m.e.end());
  if (order == 2)
    for (size_t i = m.e.size(); i > 1; --i)
      std::swap(m.e[i - 1], m.e[static_cast<size_t>(r.below(static_cast<int>(i)))]);
  return m;
}

Model make_model(const WorldSpec& s) {
  if (getenv("WORLD_LARGE")) // while developing
    return large_model(s);
  Model m;
  m.und = s.und;
  static const int sizes[] = {0, 1, 2, 3, 4, 5, 6, 8};
  switch (draw(16)) {
  case 15: m.n = range(9, std::max(9, s.max_n * 3)); break;
  case 14: m.n = sizes[draw(2)]; break;
  case 13:
  case 12: m.n = range(8, std::max(8, s.max_n)); break;
  default: m.n = sizes[range(2, 7)]; break;
  }
  if (chance(1, 400)) { // beyond the sizes at which tables, masks and counters change their ways
    int k = range(0, 7);
    if (k >= 6)
      return large_model(s);
    m.n = k >= 4 ? range(250, 300) : range(60, 140);
  }
  const int n = m.n;
  if (n == 0)
    return m;
  int  wstyle = range(0, 5);
  auto weight = [&]() -> int {
    switch (wstyle) {
    case 0: return 1;
    case 1: return range(1, 3);            // many ties
    case 2: return range(0, 20);
    case 3: return range(0, 1000000);
    case 4: return s.weights_may_be_negative ? range(0, 14) - 4 : range(0, 2);
    default: return s.weights_may_be_negative ? range(0, 40) - 10 : range(0, 40);
    }
  };
  auto add = [&](int u, int v) { m.e.push_back({u, v, weight()}); };
  // shape
  std::vector<int> perm(static_cast<size_t>(n));
  std::iota(perm.begin(), perm.end(), 0);
  if (chance(1, 2))
    for (int i = n - 1; i > 0; --i)
      std::swap(perm[static_cast<size_t>(i)], perm[draw(static_cast<uint32_t>(i) + 1)]);
  auto P = [&](int i) { return perm[static_cast<size_t>(i)]; };
  int  shape = range(0, 10);
  int  dens  = range(1, 4);
  switch (shape) {
  case 0: // sparse / dense random
    for (int i = 0, k = n * dens / 2 + static_cast<int>(draw(3)); i < k; ++i)
      add(range(0, n - 1), range(0, n - 1));
    break;
  case 1: // path
    for (int i = 0; i + 1 < n; ++i)
      add(P(i), P(i + 1));
    break;
  case 2: // cycle
    for (int i = 0; i < n; ++i)
      add(P(i), P((i + 1) % n));
    break;
  case 3: // random tree
    for (int i = 1; i < n; ++i)
      add(P(range(0, i - 1)), P(i));
    break;
  case 4: // complete
    for (int i = 0; i < std::min(n, 9); ++i)
      for (int j = 0; j < std::min(n, 9); ++j)
        if (i != j && (!m.und || i < j))
          add(P(i), P(j));
    break;
  case 5: // star, either direction
    for (int i = 1; i < n; ++i)
      if (chance(1, 3))
        add(P(i), P(0));
      else
        add(P(0), P(i));
    break;
  case 6: // blocks joined by bridges
    for (int b = 0; b < n; b += 3) {
      int hi = std::min(n, b + 3);
      for (int i = b; i < hi; ++i)
        add(P(i), P(i + 1 < hi ? i + 1 : b));
      if (b > 0 && chance(3, 4))
        add(P(range(0, b - 1)), P(b));
    }
    break;
  case 7: // layered (long detours and shortcuts)
    for (int i = 0; i + 1 < n; ++i) {
      add(P(i), P(i + 1));
      if (i + 2 < n && chance(1, 2))
        add(P(i), P(i + 2));
      if (i > 1 && chance(1, 5))
        add(P(i), P(range(0, i - 1)));
    }
    break;
  case 8: // two random halves
    for (int i = 0; i < n * dens / 2; ++i) {
      int h = n / 2;
      if (h && chance(1, 2))
        add(P(range(0, h - 1)), P(range(0, h - 1)));
      else
        add(P(range(h, n - 1)), P(range(h, n - 1)));
    }
    break;
  case 9: // no edges, or very few
    for (int i = 0, k = static_cast<int>(draw(3)); i < k; ++i)
      add(range(0, n - 1), range(0, n - 1));
    break;
  default: // bipartite
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < dens; ++j) {
        int a = 2 * range(0, (n - 1) / 2), b = 2 * range(0, (n - 1) / 2) + 1;
        if (b < n)
          add(a, b);
      }
  }
  // decorations
  if (!m.e.empty() && chance(1, 4))
    for (int i = 0, k = range(1, 3); i < k; ++i) { // parallel edges, both orientations
      MEdge e = m.e[draw(static_cast<uint32_t>(m.e.size()))];
      if (chance(1, 2))
        std::swap(e.u, e.v);
      e.w = weight();
      m.e.push_back(e);
    }
  if (chance(1, 4))
    for (int i = 0, k = range(1, 2); i < k; ++i) {
      int v = range(0, n - 1);
      add(v, v);
    }
  if (s.dag) {
    std::vector<int> pos(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i)
      pos[static_cast<size_t>(P(i))] = i;
    std::vector<MEdge> f;
    for (auto e : m.e) {
      if (e.u == e.v)
        continue;
      if (pos[static_cast<size_t>(e.u)] > pos[static_cast<size_t>(e.v)])
        std::swap(e.u, e.v);
      f.push_back(e);
    }
    m.e = f;
  }
  if (s.simple) {
    std::set<std::pair<int, int>> seen;
    std::vector<MEdge>            f;
    for (auto& e : m.e) {
      auto k = m.und ? std::minmax(e.u, e.v) : std::pair<const int&, const int&>(e.u, e.v);
      if (e.u != e.v && seen.insert({k.first, k.second}).second)
        f.push_back(e);
    }
    m.e = f;
  }
  if (chance(1, 2)) // insertion order
    for (size_t i = m.e.size(); i > 1; --i)
      std::swap(m.e[i - 1], m.e[draw(static_cast<uint32_t>(i))]);
  return m;
}

} // namespace

Model draw_model(const WorldSpec& s) {
  Model m = make_model(s);
  m.build();
  return m;
}

World make_world(const WorldSpec& s) {
  World w;
  w.m = make_model(s);
  w.m.build();
  const size_t n = static_cast<size_t>(w.m.n);
  describe(w.m);
  w.vvp.resize(n);
  w.vvi.resize(n);
  w.vsv.resize(n);
  std::vector<EdgeRow> rows;
  for (size_t u = 0; u < n; ++u)
    for (auto& a : w.m.out[u]) {
      w.vvp[u].push_back({a.to, a.w});
      w.vvi[u].push_back(a.to);
      w.vsv[u].v.push_back({a.to, a.w});
      rows.push_back({static_cast<Vid>(u), static_cast<Vid>(a.to), a.w});
    }
  auto load = [&](auto& g) {
    auto r = rows;
    if (n)
      g.resize_vertices(n);
    g.load_edges(r, std::identity{}, n, r.size());
  };
  load(w.vov);
  load(w.vol);
  load(w.dofl);
  load(w.bi);
  load(w.bil);
  if (!rows.empty()) { // a compressed graph has the vertices its edges mention
    auto r = rows;
    w.cg.load_edges(r, std::identity{}, n, r.size());
    w.has_cg = graph::adj_list::num_vertices(w.cg) == n;
    if (n <= 256 && w.has_cg) {
      std::vector<graph::copyable_edge_t<uint8_t, int>> r8;
      for (auto& e : rows)
        r8.push_back({static_cast<uint8_t>(e.source_id), static_cast<uint8_t>(e.target_id), e.value});
      w.cg8.load_edges(r8, std::identity{}, n, r8.size());
      w.has_cg8 = graph::adj_list::num_vertices(w.cg8) == n;
    }
  }
  if (w.m.und) {
    for (size_t u = 0; u < n; ++u)
      w.ual.create_vertex(static_cast<int>(u));
    for (auto& e : w.m.e)
      w.ual.create_edge(static_cast<Vid>(e.u), static_cast<Vid>(e.v), e.w);
    w.has_ual = true;
  }
  return w;
}

World reversed(const World& w) {
  World r;
  r.m = w.m;
  for (auto& e : r.m.e)
    std::swap(e.u, e.v);
  r.m.build();
  return r;
}

namespace {
template <class G>
uint64_t dig(const G& cg_) {
  using namespace graph;
  auto&    g = const_cast<G&>(cg_);
  uint64_t h = 17;
  h          = mix(h, adj_list::num_vertices(g));
  for (auto u : adj_list::vertices(g)) {
    h = mix(h, static_cast<uint64_t>(adj_list::vertex_id(g, u)));
    for (auto uv : adj_list::edges(g, u)) {
      h = mix(h, static_cast<uint64_t>(adj_list::target_id(g, uv)));
      h = mix(h, static_cast<uint64_t>(adj_list::edge_value(g, uv)));
    }
    if constexpr (adj_list::bidirectional_adjacency_list<G>)
      for (auto uv : adj_list::in_edges(g, u)) {
        h = mix(h, static_cast<uint64_t>(adj_list::source_id(g, uv)));
        h = mix(h, static_cast<uint64_t>(adj_list::edge_value(g, uv)));
      }
  }
  return h;
}
} // namespace

// Tarjan: the component of each vertex
std::vector<int> strong_components(const Model& m) {
  const size_t        n = static_cast<size_t>(m.n);
  std::vector<int>    comp(n, -1), num(n, -1), low(n, 0), open;
  std::vector<size_t> at(n, 0), path;
  int                 k = 0, c = 0;
  for (size_t s = 0; s < n; ++s) {
    if (num[s] >= 0)
      continue;
    path.push_back(s);
    num[s] = low[s] = k++;
    open.push_back(static_cast<int>(s));
    while (!path.empty()) {
      size_t u = path.back();
      if (at[u] < m.out[u].size()) {
        size_t v = static_cast<size_t>(m.out[u][at[u]++].to);
        if (num[v] < 0) {
          path.push_back(v);
          num[v] = low[v] = k++;
          open.push_back(static_cast<int>(v));
        } else if (comp[v] < 0)
          low[u] = std::min(low[u], num[v]);
        continue;
      }
      path.pop_back();
      if (!path.empty())
        low[path.back()] = std::min(low[path.back()], low[u]);
      if (low[u] == num[u]) {
        size_t v;
        do {
          v = static_cast<size_t>(open.back());
          open.pop_back();
          comp[v] = c;
        } while (v != u);
        ++c;
      }
    }
  }
  return comp;
}

uint64_t World::digest() const {
  uint64_t h = 3;
  h          = mix(h, dig(vvp));
  for (auto& r : vvi)
    for (int x : r)
      h = mix(h, static_cast<uint64_t>(x));
  for (auto& r : vsv)
    for (auto& x : r.v)
      h = mix(h, mix(static_cast<uint64_t>(x.first), static_cast<uint64_t>(x.second)));
  if (cg.size())
    h = mix(h, dig(cg));
  if (has_cg8)
    h = mix(h, dig(cg8));
  h = mix(h, dig(vov));
  h = mix(h, dig(vol));
  h = mix(h, dig(dofl));
  h = mix(h, dig(bi));
  h = mix(h, dig(bil));
  if (has_ual)
    h = mix(h, dig(ual));
  return h;
}

// ---------------------------------------------------------------------------------------------------- operations
namespace {
std::vector<OpDef>& ops() {
  static std::vector<OpDef> v;
  return v;
}
bool sorted_ = false;
} // namespace

RegisterOp::RegisterOp(const char* name, int weight, unsigned need, void (*fn)(World&)) {
  ops().push_back({name, weight, need, fn});
}

Kind draw_fault_kind() {
  switch (draw(5)) {
  case 0:
  case 1: return K_ALLOC;
  case 4: return K_COPY;
  default: return K_CALLBACK;
  }
}

void callers_scenario(const WorldSpec& spec, unsigned have) {
  if (!sorted_) { // independent of link order
    std::sort(ops().begin(), ops().end(), [](const OpDef& a, const OpDef& b) { return std::strcmp(a.name, b.name) < 0; });
    sorted_ = true;
  }
  static const uint32_t rates[] = {0, 10, 35, 70};
  g_fault_percent               = rates[draw(4)];
  World                     w   = make_world(spec);
  const uint64_t            d0  = w.digest();
  std::vector<const OpDef*> enabled;
  int                       total = 0;
  for (auto& o : ops())
    if ((o.need & have) == o.need) {
      enabled.push_back(&o);
      total += o.weight;
    }
  // swarm: some runs concentrate on a few operations
  if (enabled.size() > 3 && chance(1, 3)) {
    std::vector<const OpDef*> some;
    total = 0;
    for (int i = 0; i < 3; ++i) {
      some.push_back(enabled[draw(static_cast<uint32_t>(enabled.size()))]);
      total += some.back()->weight;
    }
    enabled = some;
  }
  const bool big   = w.m.n + static_cast<int>(w.m.e.size()) > 2000;
  int        ntask = range(1, big ? 1 : 4);
  for (int t = 0; t < ntask; ++t) {
    spawn([&w, &enabled, total, big] {
      int k = range(1, big ? 2 : 4);
      for (int i = 0; i < k && !failed(); ++i) {
        int    x = static_cast<int>(draw(static_cast<uint32_t>(total)));
        size_t j = 0;
        while (x >= enabled[j]->weight)
          x -= enabled[j++]->weight;
        trace("  [task %d] calls %s", task_id(), enabled[j]->name);
        ev(0x0F, j);
        enabled[j]->fn(w);
      }
    });
  }
  run_tasks();
  if (!failed() && w.digest() != d0)
    fail("graph-changed", "a read-only operation changed the graph it was given");
}
