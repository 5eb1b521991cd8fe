// Articulation points and biconnected components against the model.
#include "world.hpp"

#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>

#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <set>

using namespace sim;
namespace ga = graph::adj_list;

namespace {

size_t parts_without(const Model& m, int gone) { // connected components of the graph without one vertex
  const size_t     n = static_cast<size_t>(m.n);
  std::vector<int> seen(n, 0);
  size_t           k = 0;
  for (size_t s = 0; s < n; ++s) {
    if (seen[s] || static_cast<int>(s) == gone)
      continue;
    ++k;
    std::vector<size_t> q{s};
    seen[s] = 1;
    while (!q.empty()) {
      size_t u = q.back();
      q.pop_back();
      for (auto& a : m.out[u])
        if (a.to != gone && !seen[static_cast<size_t>(a.to)]) {
          seen[static_cast<size_t>(a.to)] = 1;
          q.push_back(static_cast<size_t>(a.to));
        }
    }
  }
  return k;
}
// Large graphs: Hopcroft and Tarjan, over edges rather than neighbours, so that parallel edges need no special case.
std::vector<std::set<int>> blocks_linear(const Model& m) {
  const size_t                                  n = static_cast<size_t>(m.n);
  std::vector<std::vector<std::pair<int, int>>> adj(n); // neighbour, edge
  for (size_t i = 0; i < m.e.size(); ++i)
    if (m.e[i].u != m.e[i].v) {
      adj[static_cast<size_t>(m.e[i].u)].push_back({m.e[i].v, static_cast<int>(i)});
      adj[static_cast<size_t>(m.e[i].v)].push_back({m.e[i].u, static_cast<int>(i)});
    }
  std::vector<int>                 num(n, -1), low(n, 0);
  std::vector<size_t>              at(n, 0);
  std::vector<std::pair<int, int>> path; // vertex, edge it was entered by
  std::vector<int>                 es;
  std::vector<std::set<int>>       r;
  int                              k = 0;
  for (size_t s = 0; s < n; ++s) {
    if (num[s] >= 0)
      continue;
    num[s] = low[s] = k++;
    if (adj[s].empty()) {
      r.push_back({static_cast<int>(s)});
      continue;
    }
    path.push_back({static_cast<int>(s), -1});
    while (!path.empty()) {
      auto [ui, by] = path.back();
      size_t u      = static_cast<size_t>(ui);
      if (at[u] < adj[u].size()) {
        auto [v, e] = adj[u][at[u]++];
        if (e == by)
          continue;
        if (num[static_cast<size_t>(v)] < 0) {
          num[static_cast<size_t>(v)] = low[static_cast<size_t>(v)] = k++;
          es.push_back(e);
          path.push_back({v, e});
        } else if (num[static_cast<size_t>(v)] < num[u]) {
          es.push_back(e);
          low[u] = std::min(low[u], num[static_cast<size_t>(v)]);
        }
        continue;
      }
      path.pop_back();
      if (path.empty())
        break;
      size_t p = static_cast<size_t>(path.back().first);
      low[p]   = std::min(low[p], low[u]);
      if (low[u] >= num[p]) {
        std::set<int> b;
        for (;;) {
          int e = es.back();
          es.pop_back();
          b.insert(m.e[static_cast<size_t>(e)].u);
          b.insert(m.e[static_cast<size_t>(e)].v);
          if (e == by)
            break;
        }
        r.push_back(std::move(b));
      }
    }
  }
  std::sort(r.begin(), r.end());
  return r;
}
bool large(const Model& m) { return m.n > 300 || m.e.size() > 900; }
std::set<int> cut_vertices(const Model& m) {
  if (large(m)) {
    std::vector<int> in(static_cast<size_t>(m.n), 0);
    std::set<int>    r;
    for (auto& b : blocks_linear(m))
      for (int v : b)
        if (++in[static_cast<size_t>(v)] == 2)
          r.insert(v);
    return r;
  }
  std::set<int> r;
  size_t        all = parts_without(m, -1);
  for (int v = 0; v < m.n; ++v) {
    bool alone = true;
    for (auto& a : m.out[static_cast<size_t>(v)])
      alone = alone && a.to == v;
    if (parts_without(m, v) > all - (alone ? 1 : 0))
      r.insert(v);
  }
  return r;
}

// Blocks by definition, without the library's method: two edges are in one block when they lie on a common simple
// cycle. Grow from each vertex removal: the edges at the two ends of a cut vertex separate; edges are in one block
// exactly when no single vertex removal separates their (remaining) ends.
std::vector<std::set<int>> blocks(const Model& m) {
  if (large(m))
    return blocks_linear(m);
  std::vector<std::pair<int, int>> es;
  for (auto& e : m.e)
    if (e.u != e.v)
      es.push_back(std::minmax(e.u, e.v));
  std::sort(es.begin(), es.end());
  es.erase(std::unique(es.begin(), es.end()), es.end());
  const size_t     k = es.size();
  std::vector<int> cls(k, 0);
  for (int x = 0; x < m.n; ++x) { // refine the classes by the components of the graph without x
    std::vector<int> comp(static_cast<size_t>(m.n), -1);
    int              c = 0;
    for (int s = 0; s < m.n; ++s) {
      if (s == x || comp[static_cast<size_t>(s)] >= 0)
        continue;
      std::vector<int> q{s};
      comp[static_cast<size_t>(s)] = c;
      while (!q.empty()) {
        int u = q.back();
        q.pop_back();
        for (auto& a : m.out[static_cast<size_t>(u)])
          if (a.to != x && comp[static_cast<size_t>(a.to)] < 0) {
            comp[static_cast<size_t>(a.to)] = c;
            q.push_back(a.to);
          }
      }
      ++c;
    }
    std::map<std::pair<int, int>, int> next;
    for (size_t i = 0; i < k; ++i) {
      int end = es[i].first == x ? es[i].second : es[i].first;
      cls[i]  = next.emplace(std::pair(cls[i], comp[static_cast<size_t>(end)]), static_cast<int>(next.size())).first->second;
    }
  }
  std::map<int, std::set<int>> b;
  for (size_t i = 0; i < k; ++i) {
    b[cls[i]].insert(es[i].first);
    b[cls[i]].insert(es[i].second);
  }
  std::vector<std::set<int>> r;
  std::vector<bool>          touched(static_cast<size_t>(m.n), false);
  for (auto& [_, s] : b) {
    for (int v : s)
      touched[static_cast<size_t>(v)] = true;
    r.push_back(s);
  }
  for (int v = 0; v < m.n; ++v)
    if (!touched[static_cast<size_t>(v)])
      r.push_back({v});
  std::sort(r.begin(), r.end());
  return r;
}

struct OutIt { // the caller's output: a callback that may throw
  using iterator_category = std::output_iterator_tag;
  using value_type        = void;
  using difference_type   = std::ptrdiff_t;
  using pointer           = void;
  using reference         = void;
  std::vector<int>* out   = nullptr;
  struct Slot {
    std::vector<int>* out;
    void              operator=(size_t v) const {
      Callback cb;
      out->push_back(static_cast<int>(v));
      ev(0x501, v);
    }
  };
  Slot   operator*() const { return {out}; }
  OutIt& operator++() { return *this; }
  OutIt  operator++(int) { return *this; }
};

template <class G>
struct Art {
  World&           w;
  G&               g;
  std::vector<int> got;
  void             invoke() { graph::articulation_points(g, OutIt{&got}); }
  void             verify(const Outcome& o) {
    if (o.threw())
      return fail("unexpected-exception", "articulation_points threw %s %s", what_name[o.what], o.msg.c_str());
    std::set<int> s(got.begin(), got.end());
    if (s.size() != got.size())
      return fail("cut-vertex-twice", "articulation_points reported a vertex more than once");
    auto ref = cut_vertices(w.m);
    for (int v : s)
      if (!ref.count(v))
        return fail("not-a-cut-vertex", "articulation_points reported %d, whose removal disconnects nothing", v);
    for (int v : ref)
      if (!s.count(v))
        return fail("cut-vertex-missed", "articulation_points didn't report %d, whose removal disconnects the graph", v);
  }
};

template <class G, class Outer>
struct Bicon {
  World& w;
  G&     g;
  Outer  got;
  void   invoke() { graph::biconnected_components(g, got); }
  void   verify(const Outcome& o) {
    if (o.threw())
      return fail("unexpected-exception", "biconnected_components threw %s %s", what_name[o.what], o.msg.c_str());
    std::vector<std::set<int>> r;
    for (auto& c : got) {
      std::set<int> s;
      size_t        k = 0;
      for (auto v : c) {
        s.insert(static_cast<int>(v));
        ++k;
        ev(0x502, static_cast<uint64_t>(v));
      }
      if (s.size() != k)
        return fail("block-repeats-vertex", "biconnected_components lists a vertex twice in one component");
      r.push_back(s);
    }
    std::sort(r.begin(), r.end());
    auto ref = blocks(w.m);
    if (r != ref) {
      auto show = [](const std::vector<std::set<int>>& x) {
        std::string t;
        for (auto& s : x) {
          t += "{";
          for (int v : s)
            t += std::to_string(v) + " ";
          t += "}";
        }
        return t;
      };
      return fail("blocks-wrong", "biconnected_components gave %s, expected %s", show(r).c_str(), show(ref).c_str());
    }
  }
};

template <class G>
void art(World& w, G& g) {
  drive("articulation_points", [&] { return std::unique_ptr<Art<G>>(new Art<G>{w, g, {}}); });
}
template <class G>
void bic(World& w, G& g) {
  using A = std::vector<std::vector<uint32_t>>;
  using B = std::list<std::list<size_t>>;
  using C = std::deque<std::set<int>>;
  switch (draw(3)) {
  case 0: return drive("biconnected_components", [&] { return std::unique_ptr<Bicon<G, A>>(new Bicon<G, A>{w, g, {}}); });
  case 1: return drive("biconnected_components", [&] { return std::unique_ptr<Bicon<G, B>>(new Bicon<G, B>{w, g, {}}); });
  default: return drive("biconnected_components", [&] { return std::unique_ptr<Bicon<G, C>>(new Bicon<G, C>{w, g, {}}); });
  }
}
template <class F>
void pick_graph(World& w, F f) {
  switch (draw(8)) {
  case 0: return f(w.vvi);
  case 1: return f(w.vvp);
  case 2: return f(w.vsv);
  case 3: return f(w.dofl);
  case 4: return maybe_const(w.vov, f);
  case 5:
    if (w.narrow())
      return f(w.cg8);
    if (w.has_cg)
      return maybe_const(w.cg, f);
    [[fallthrough]];
  default: return maybe_const(w.ual, f);
  }
}

OP("articulation_points", 4, UNDIRECTED) {
  pick_graph(w, [&](auto& g) { art(w, g); });
}
OP("biconnected_components", 4, UNDIRECTED) {
  pick_graph(w, [&](auto& g) { bic(w, g); });
}

} // namespace
