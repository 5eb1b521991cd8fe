#include "big.hpp"

#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/views/transpose.hpp>

namespace ga = graph::adj_list;
namespace {
double linlog(const Big& b) { return b.VA() * b.lg(); }
double lin(const Big& b) { return b.VA(); }
double sampled(const Big& b) { return b.VA() + 2500; } // a fixed number of vertices is sampled
} // namespace

BIG_REGISTER
reg_bigs<VVP, CG, VOL, UAL>("connected_components", B_SYM, lin, 27, [](const Big& b, auto& g, Gauge& q) {
  std::vector<size_t> c(static_cast<size_t>(b.n()));
  q([&] { (void)graph::connected_components(g, c); });
});
reg_bigs<VVP, CG, VOL, DOFL, UAL>("afforest", B_SYM, sampled, 21, [](const Big& b, auto& g, Gauge& q) {
  std::vector<size_t> c(static_cast<size_t>(b.n()));
  q([&] { graph::afforest(g, c); });
});
reg_bigs<BI, BIL>("kosaraju_one_graph", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) {
  std::vector<size_t> c(static_cast<size_t>(b.n()));
  q([&] { graph::kosaraju(g, c); });
});
reg_bigs<VVP, CG, VOL>("kosaraju", B_ANY, lin, 103, [](const Big& b, auto& g, Gauge& q) {
  using G = std::remove_reference_t<decltype(g)>;
  Big t   = b;
  for (auto& e : t.m.e)
    std::swap(e.u, e.v);
  t.m.build();
  G gt = make_rep<G>();
  Rep<G>::fill(gt, t);
  if (ga::num_vertices(gt) != static_cast<size_t>(b.n()))
    return;
  std::vector<size_t> c(static_cast<size_t>(b.n()));
  q([&] { graph::kosaraju(g, gt, c); });
});
reg_bigs<BI>("kosaraju_transpose_view", B_ANY, lin, 4, [](const Big& b, auto& g, Gauge& q) {
  std::vector<size_t> c(static_cast<size_t>(b.n()));
  q([&] {
    graph::views::transpose_view t(g);
    graph::kosaraju(g, t, c);
  });
});
reg_bigs<VVP, CG, VOL, DOFL>("afforest_transpose", B_ANY, sampled, 30, [](const Big& b, auto& g, Gauge& q) {
  using G = std::remove_reference_t<decltype(g)>;
  Big t   = b;
  for (auto& e : t.m.e)
    std::swap(e.u, e.v);
  t.m.build();
  G gt = make_rep<G>();
  Rep<G>::fill(gt, t);
  if (ga::num_vertices(gt) != static_cast<size_t>(b.n()))
    return;
  std::vector<size_t> c(static_cast<size_t>(b.n()));
  q([&] { graph::afforest(g, gt, c); });
});
reg_bigs<VVP, CG, VOL, DOFL, UAL>("articulation_points", B_SYM, lin, 44, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<V> out;
  out.reserve(static_cast<size_t>(b.n()));
  q([&] { graph::articulation_points(g, std::back_inserter(out)); });
});
reg_bigs<VVP, CG, VOL, UAL>("biconnected_components", B_SYM, linlog, 4, [](const Big&, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  q([&] {
    std::vector<std::vector<V>> out;
    graph::biconnected_components(g, out);
  });
});
BIG_END
