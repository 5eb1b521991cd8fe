#include "big.hpp"

#include <graph/views/transpose.hpp>

namespace ga = graph::adj_list;
namespace {
double linlog(const Big& b) { return b.VA() * b.lg(); }
double lin(const Big& b) { return b.VA(); }
double verts(const Big& b) { return b.V + 1; }
double vertlog(const Big& b) { return (b.V + 1) * b.lg(); }
double scan(const Big& b) { // one scan of an edge list per arc looked up (at most 400 of them)
  double d = 0, k = 0;
  for (auto& o : b.m.out)
    d = std::max(d, static_cast<double>(o.size()));
  (void)k;
  return b.VA() + 400 * d;
}
auto f_find = [](const Big& b, auto& g, Gauge& q) {
  using V  = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  size_t s = 0;
  q([&] {
    for (int i = 0; i < b.n(); ++i)
      s += static_cast<size_t>(ga::vertex_id(g, *ga::find_vertex(g, static_cast<V>(i))));
  });
};
auto f_degree = [](const Big&, auto& g, Gauge& q) {
  size_t s = 0;
  q([&] {
    for (auto u : ga::vertices(g))
      s += ga::degree(g, u);
  });
};
auto f_walk = [](const Big&, auto& g, Gauge& q) {
  size_t s = 0;
  q([&] {
    for (auto u : ga::vertices(g))
      for (auto uv : ga::edges(g, u)) {
        s += static_cast<size_t>(ga::target_id(g, uv)) + static_cast<size_t>(ga::source_id(g, uv)) + static_cast<size_t>(ga::edge_value(g, uv));
        s += static_cast<size_t>(ga::vertex_id(g, ga::target(g, uv)));
      }
  });
};
auto f_in = [](const Big&, auto& g, Gauge& q) {
  size_t s = 0;
  q([&] {
    for (auto u : ga::vertices(g)) {
      s += ga::in_degree(g, u);
      for (auto uv : ga::in_edges(g, u))
        s += static_cast<size_t>(ga::source_id(g, uv)) + static_cast<size_t>(ga::edge_value(g, uv));
    }
  });
};
auto f_counts = [](const Big& b, auto& g, Gauge& q) { // constant-time counts
  size_t s = 0;
  q([&] {
    for (int i = 0; i < b.n(); ++i)
      s += ga::num_vertices(g);
  });
};
auto f_transpose = [](const Big& b, auto& g, Gauge& q) {
  size_t s = 0;
  q([&] {
    graph::views::transpose_view t(g);
    for (int i = 0; i < b.n(); ++i)
      s += ga::num_vertices(t) + static_cast<size_t>(ga::vertex_id(t, *ga::find_vertex(t, static_cast<ga::vertex_id_t<decltype(t)>>(i))));
    for (auto u : ga::vertices(t)) {
      s += ga::degree(t, u);
      for (auto uv : ga::edges(t, u))
        s += static_cast<size_t>(ga::target_id(t, uv)) + static_cast<size_t>(ga::edge_value(t, uv));
    }
  });
};
auto f_values = [](const Big&, auto& g, Gauge& q) {
  size_t s = 0;
  q([&] {
    for (auto u : ga::vertices(g))
      s += static_cast<size_t>(ga::vertex_value(g, u));
  });
};
auto f_edge_counts = [](const Big& b, auto& g, Gauge& q) { // a container that keeps the count
  size_t s = 0;
  q([&] {
    for (int i = 0; i < b.n(); ++i)
      s += static_cast<size_t>(ga::num_edges(g));
  });
};
auto f_find_edge = [](const Big& b, auto& g, Gauge& q) {
  using V     = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  size_t s    = 0;
  size_t step = 1 + b.m.e.size() / 200;
  q([&] {
    for (size_t i = 0; i < b.m.e.size(); i += step)
      s += static_cast<size_t>(ga::target_id(g, ga::find_vertex_edge(g, static_cast<V>(b.m.e[i].u), static_cast<V>(b.m.e[i].v))));
  });
};
auto f_num_edges = [](const Big&, auto& g, Gauge& q) {
  size_t s = 0;
  q([&] { s += static_cast<size_t>(ga::num_edges(g)); });
};
auto f_hub = [](const Big& b, auto& g, Gauge& q) { // the edge list of the busiest vertex, n times
  using V  = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  size_t h = 0, s = 0;
  for (size_t u = 0; u < b.m.out.size(); ++u)
    if (b.m.out[u].size() > b.m.out[h].size())
      h = u;
  q([&] {
    for (int i = 0; i < b.n(); ++i) {
      auto u = *ga::find_vertex(g, static_cast<V>(h));
      auto r = ga::edges(g, u);
      if (std::ranges::begin(r) != std::ranges::end(r))
        s += static_cast<size_t>(ga::target_id(g, *std::ranges::begin(r)));
      auto r2 = ga::edges(g, static_cast<V>(h));
      s += std::ranges::begin(r2) != std::ranges::end(r2);
    }
  });
};
auto f_contains = [](const Big& b, auto& g, Gauge& q) {
  using V     = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  size_t s    = 0;
  size_t step = 1 + b.m.e.size() / 200;
  q([&] {
    for (size_t i = 0; i < b.m.e.size(); i += step) {
      s += ga::contains_edge(g, static_cast<V>(b.m.e[i].u), static_cast<V>(b.m.e[i].v));
      s += ga::contains_edge(g, *ga::find_vertex(g, static_cast<V>(b.m.e[i].v)), *ga::find_vertex(g, static_cast<V>(b.m.e[i].u)));
    }
  });
};
} // namespace

BIG_REGISTER
reg_bigs<VVP, CG, VOV, VOL, DOFL, BI, UAL>("find_vertex", B_ANY, verts, 4, f_find);
reg_bigs<MOL>("find_vertex", B_ANY, vertlog, 4, f_find);
reg_bigs<VVP, CG, VOV, VOL, DOFL, BI, UAL>("degree", B_ANY, lin, 4, f_degree);
reg_bigs<VVP, CG, VOV, VOL, BI, BIL, UAL>("degree_constant", B_ANY, verts, 4, f_degree);
reg_bigs<VVP, CG, VOL, DOFL, UAL>("edge_walk", B_ANY, lin, 4, f_walk);
reg_bigs<VVP, CG, VOV, VOL, BI, BIL, UAL>("edges_constant", B_ANY, verts, 4, f_hub);
reg_bigs<MOL>("edge_walk", B_ANY, linlog, 4, f_walk);
reg_bigs<BI, BIL>("in_edge_walk", B_ANY, lin, 4, f_in);
reg_bigs<VVP, CG, VOL, DOFL, UAL, MOL>("num_vertices", B_ANY, verts, 4, f_counts);
reg_bigs<VVP, CG, VOL, DOFL, UAL>("num_edges", B_ANY, lin, 4, f_num_edges);
reg_bigs<VVP, CG, VOL, UAL>("contains_edge", B_ANY, scan, 4, f_contains);
reg_bigs<BI, BIL>("transpose_walk", B_ANY, lin, 4, f_transpose);
reg_bigs<UAL>("vertex_value", B_ANY, verts, 4, f_values);
reg_bigs<VOV, VOL, BI, UAL>("num_edges_constant", B_ANY, verts, 4, f_edge_counts);
reg_bigs<VVP, CG, VOL, UAL>("find_vertex_edge", B_ANY, scan, 4, f_find_edge);
BIG_END
