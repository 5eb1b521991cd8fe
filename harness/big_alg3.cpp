#include "big.hpp"

#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/views/edgelist.hpp>
#include <random>

namespace ga = graph::adj_list;
namespace {
auto wf = [](const auto& g, const auto& uv) { return static_cast<int>(ga::edge_value(const_cast<std::remove_cvref_t<decltype(g)>&>(g), uv)); };
double linlog(const Big& b) { return b.VA() * b.lg(); }
double lin(const Big& b) { return b.VA(); }
double iters(const Big& b) { return 6 * b.VA(); }
double pairs(const Big& b) { return b.VA() + b.pairs; }
double mins(const Big& b) { return b.VA() + b.mins; }
} // namespace

BIG_REGISTER
reg_bigs<VVP>("kruskal", B_ANY, linlog, 4, [](const Big& b, auto&, Gauge& q) {
  std::vector<EdgeRow> in, out;
  for (auto& e : b.m.e)
    in.push_back({static_cast<Vid>(e.u), static_cast<Vid>(e.v), e.w});
  q([&] {
    std::vector<EdgeRow> o;
    (void)graph::kruskal(in, o);
  });
});
reg_bigs<VVP>("inplace_kruskal", B_ANY, linlog, 4, [](const Big& b, auto&, Gauge& q) {
  std::vector<EdgeRow> in, out;
  for (auto& e : b.m.e)
    in.push_back({static_cast<Vid>(e.u), static_cast<Vid>(e.v), e.w});
  q([&] {
    std::vector<EdgeRow> o;
    (void)graph::inplace_kruskal(in, o);
  });
});
reg_bigs<VVP, CG, VOL, UAL>("prim", B_SYM, linlog, 4, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<V>   p(static_cast<size_t>(b.n()));
  std::vector<int> w(static_cast<size_t>(b.n()));
  q([&] { (void)graph::prim(g, p, w, static_cast<V>(b.root)); });
});
reg_bigs<VVP, CG, VOL, UAL>("maximal_independent_set", B_SYM, lin, 4, [](const Big& b, auto& g, Gauge& q) {
  using V = ga::vertex_id_t<std::remove_reference_t<decltype(g)>>;
  std::vector<V> out;
  out.reserve(static_cast<size_t>(b.n()));
  q([&] { (void)graph::maximal_independent_set(g, std::back_inserter(out), static_cast<V>(b.root)); });
});
reg_bigs<VVP, CG, VOL>("triangle_count", B_SYM | B_SIMPLE | B_SMALL, pairs, 4,
                       [](const Big&, auto& g, Gauge& q) { q([&] { (void)graph::triangle_count(g); }); });
reg_bigs<VVP, CG, VOL>("jaccard_coefficient", B_SYM | B_SIMPLE, mins, 4, [](const Big&, auto& g, Gauge& q) {
  double x = 0;
  q([&] { graph::jaccard_coefficient(g, [&](auto&&, auto&&, auto&&, double v) { x += v; }); });
});
reg_bigs<VVP, CG, VOL, UAL>("label_propagation", B_SYM, iters, 38, [](const Big& b, auto& g, Gauge& q) {
  std::vector<size_t> l(static_cast<size_t>(b.n()));
  for (size_t i = 0; i < l.size(); ++i)
    l[i] = i;
  std::mt19937 rng(static_cast<uint32_t>(b.rng));
  q([&] { graph::label_propagation(g, l, rng, size_t(6)); });
});
BIG_END
