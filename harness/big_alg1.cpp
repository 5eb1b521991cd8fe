#include "big.hpp"

#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/topological_sort.hpp>

namespace ga = graph::adj_list;
namespace {
auto wf = [](const auto& g, const auto& uv) { return static_cast<int>(ga::edge_value(const_cast<std::remove_cvref_t<decltype(g)>&>(g), uv)); };
double linlog(const Big& b) { return b.VA() * b.lg(); }
double lin(const Big& b) { return b.VA(); }
double ve(const Big& b) { return (b.V + 1) * (b.A + 1); }
} // namespace

BIG_REGISTER
reg_bigs<VVP, CG, VOL, UAL>("dijkstra_paths", B_ANY, linlog, 4, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<int> d(static_cast<size_t>(b.n()));
  std::vector<V>   p(static_cast<size_t>(b.n()));
  graph::init_shortest_paths(d, p);
  q([&] { graph::dijkstra_shortest_paths(g, static_cast<V>(b.root), d, p, wf); });
});
reg_bigs<VVP, CG>("dijkstra_distances", B_ANY, linlog, 5, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<int> d(static_cast<size_t>(b.n()));
  graph::init_shortest_paths(d);
  q([&] { graph::dijkstra_shortest_distances(g, static_cast<V>(b.root), d, wf); });
});
reg_bigs<VVP, VOL>("bellman_ford_paths", B_SMALL, ve, 6, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<int> d(static_cast<size_t>(b.n()));
  std::vector<V>   p(static_cast<size_t>(b.n()));
  graph::init_shortest_paths(d, p);
  q([&] { (void)graph::bellman_ford_shortest_paths(g, static_cast<V>(b.root), d, p, wf); });
});
reg_bigs<CG>("bellman_ford_distances", B_SMALL, ve, 6, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<int> d(static_cast<size_t>(b.n()));
  graph::init_shortest_paths(d);
  q([&] { (void)graph::bellman_ford_shortest_distances(g, static_cast<V>(b.root), d, wf); });
});
reg_bigs<VVP, CG, VOL, DOFL, UAL>("breadth_first_search", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  q([&] { graph::breadth_first_search(g, static_cast<V>(b.root)); });
});
reg_bigs<VVP, CG>("breadth_first_search_multi", B_ANY, lin, 9, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<V> s;
  for (int i = 0; i < b.n(); i += 3)
    s.push_back(static_cast<V>(i));
  q([&] { graph::breadth_first_search(g, s); });
});
reg_bigs<VVP, CG, VOL, DOFL, UAL>("depth_first_search", B_ANY, lin, 45, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  q([&] { graph::depth_first_search(g, static_cast<V>(b.root)); });
});
reg_bigs<VVP, CG, VOL, DOFL>("topological_sort", B_DAG, lin, 81, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<V> out(static_cast<size_t>(b.n()));
  q([&] { (void)graph::topological_sort(g, out.begin()); });
});
reg_bigs<VVP, CG>("topological_sort_from", B_DAG, lin, 46, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<V> out(static_cast<size_t>(b.n()));
  q([&] { (void)graph::topological_sort(g, static_cast<V>(b.root), out.begin()); });
});
reg_bigs<VVP>("topological_sort_cyclic", B_ANY, lin, 44, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<V> out(static_cast<size_t>(b.n()));
  std::vector<V> s;
  for (int i = 0; i < b.n(); i += 2)
    s.push_back(static_cast<V>(i));
  q([&] { (void)graph::topological_sort(g, s, out.begin()); });
});
reg_bigs<VVP, CG, VOL>("find_negative_cycle", B_SMALL, ve, 14, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<int> d(static_cast<size_t>(b.n()));
  std::vector<V>   p(static_cast<size_t>(b.n()));
  graph::init_shortest_paths(d, p);
  auto neg = [&](const auto& gg, const auto& uv) { // the arcs into every eighth vertex weigh less than nothing
    int w = static_cast<int>(ga::edge_value(const_cast<std::remove_cvref_t<decltype(gg)>&>(gg), uv));
    return static_cast<size_t>(ga::target_id(const_cast<std::remove_cvref_t<decltype(gg)>&>(gg), uv)) % 8 ? w : -w - 1;
  };
  std::vector<V> out;
  q([&] {
    auto r = graph::bellman_ford_shortest_paths(g, static_cast<V>(b.root), d, p, neg);
    graph::find_negative_cycle(g, p, r, std::back_inserter(out));
  });
});
BIG_END
