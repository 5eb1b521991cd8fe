#include "big.hpp"

#include <graph/views.hpp>
#include <graph/views/transpose.hpp>

namespace ga = graph::adj_list;
namespace gv = graph::views;
namespace {
double linlog(const Big& b) { return b.VA() * b.lg(); }
double lin(const Big& b) { return b.VA(); }
template <class R>
size_t walk(R&& r) {
  size_t k = 0;
  for (auto&& x : r)
    ++k;
  return k;
}
} // namespace

BIG_REGISTER
reg_bigs<VVP, CG, VOL>("vertices_dfs", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) { q([&] { walk(gv::vertices_dfs(g, static_cast<ga::vertex_id_t<std::remove_reference_t<decltype(g)>>>(b.root))); }); });
reg_bigs<VVP, VOL, UAL>("edges_dfs", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) { q([&] { walk(gv::edges_dfs(g, static_cast<ga::vertex_id_t<std::remove_reference_t<decltype(g)>>>(b.root))); }); });
reg_bigs<VVP, CG, VOL>("vertices_bfs", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) { q([&] { walk(gv::vertices_bfs(g, static_cast<ga::vertex_id_t<std::remove_reference_t<decltype(g)>>>(b.root))); }); });
reg_bigs<VVP, VOL, UAL>("edges_bfs", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) { q([&] { walk(gv::edges_bfs(g, static_cast<ga::vertex_id_t<std::remove_reference_t<decltype(g)>>>(b.root))); }); });
reg_bigs<VVP, CG, VOL>("vertices_topological_sort", B_ANY, lin, 24, [](const Big&, auto& g, Gauge& q) { q([&] { walk(gv::vertices_topological_sort(g)); }); });
reg_bigs<VVP, VOL>("vertices_topological_sort_safe", B_DAG, lin, 24, [](const Big&, auto& g, Gauge& q) { q([&] {
  auto r = gv::vertices_topological_sort_safe(g);
  if (r)
    walk(*r);
}); });
reg_bigs<VVP, VOL>("edges_topological_sort", B_ANY, lin, 4, [](const Big&, auto& g, Gauge& q) { q([&] { walk(gv::edges_topological_sort(g)); }); });
reg_bigs<VVP, CG, VOL, DOFL, UAL, MOL>("vertexlist", B_ANY, lin, 4, [](const Big&, auto& g, Gauge& q) { q([&] { walk(gv::vertexlist(g)); }); });
reg_bigs<VVP, CG, VOL, DOFL, UAL>("edgelist", B_ANY, lin, 4, [](const Big&, auto& g, Gauge& q) { q([&] { walk(gv::edgelist(g)); }); });
reg_bigs<MOL>("edgelist", B_ANY, linlog, 4, [](const Big&, auto& g, Gauge& q) { q([&] { walk(gv::edgelist(g)); }); });
reg_bigs<VVP, CG, VOL, DOFL, UAL>("incidence", B_ANY, lin, 4, [](const Big&, auto& g, Gauge& q) { q([&] {
  for (auto u : ga::vertices(g))
    walk(gv::incidence(g, u));
}); });
reg_bigs<VVP, CG, VOL, UAL>("neighbors", B_ANY, lin, 4, [](const Big&, auto& g, Gauge& q) { q([&] {
  for (auto u : ga::vertices(g))
    walk(gv::neighbors(g, u));
}); });
reg_bigs<VVP, CG, VOL, DOFL, UAL>("basic_incidence", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) { q([&] {
  for (int i = 0; i < b.n(); ++i)
    walk(gv::basic_incidence(g, static_cast<ga::vertex_id_t<std::remove_reference_t<decltype(g)>>>(i)));
}); });
reg_bigs<VVP, CG, VOL, UAL>("basic_neighbors", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) { q([&] {
  for (int i = 0; i < b.n(); ++i)
    walk(gv::basic_neighbors(g, static_cast<ga::vertex_id_t<std::remove_reference_t<decltype(g)>>>(i)));
}); });
reg_bigs<BI, BIL>("in_incidence", B_ANY, lin, 4, [](const Big&, auto& g, Gauge& q) { q([&] {
  for (auto u : ga::vertices(g))
    walk(gv::in_incidence(g, u));
}); });
BIG_END
