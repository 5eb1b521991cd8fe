#include "big.hpp"

namespace ga = graph::adj_list;
namespace {
double linlog(const Big& b) { return b.VA() * b.lg(); }
double lin(const Big& b) { return b.VA(); }
double one(const Big&) { return 1; }

template <class G>
std::vector<EdgeRow> rows_of(const Big& b) {
  std::vector<EdgeRow> rows;
  for (size_t u = 0; u < b.m.out.size(); ++u)
    for (auto& a : b.m.out[u])
      rows.push_back({static_cast<Vid>(u), static_cast<Vid>(a.to), a.w});
  return rows;
}
auto f_copy = [](const Big&, auto& g, Gauge& q) {
  using G = std::remove_reference_t<decltype(g)>;
  q([&] { G h(g); });
};
auto f_copy_assign = [](const Big&, auto& g, Gauge& q) {
  using G = std::remove_reference_t<decltype(g)>;
  G h     = make_rep<G>();
  q([&] {
    h = g;
    h = make_rep<G>();
  });
};
auto f_move = [](const Big&, auto& g, Gauge& q) {
  using G = std::remove_reference_t<decltype(g)>;
  G h     = make_rep<G>();
  q([&] {
    G k(std::move(g));
    h = std::move(k);
  });
};
auto f_clear = [](const Big&, auto& g, Gauge& q) {
  q([&] { g.clear(); });
};
auto f_load = [](const Big& b, auto& g, Gauge& q) {
  using G   = std::remove_reference_t<decltype(g)>;
  auto rows = rows_of<G>(b);
  G    h    = make_rep<G>();
  q([&] { h.load_edges(rows, std::identity{}, static_cast<size_t>(b.n()), rows.size()); });
};
auto f_load_nohint = [](const Big& b, auto& g, Gauge& q) { // no counts given, an input range of unknown size
  using G   = std::remove_reference_t<decltype(g)>;
  auto rows = rows_of<G>(b);
  G    h    = make_rep<G>();
  q([&] { h.load_edges(rows, std::identity{}); });
};
auto f_load_batches = [](const Big& b, auto& g, Gauge& q) { // one edge at a time into a graph of its final size
  using G                 = std::remove_reference_t<decltype(g)>;
  auto                 rows = rows_of<G>(b);
  G                    h    = make_rep<G>();
  std::vector<EdgeRow> one_row(1);
  q([&] {
    h.resize_vertices(static_cast<size_t>(b.n()));
    for (auto& r : rows) {
      one_row[0] = r;
      h.load_edges(one_row, std::identity{}, static_cast<size_t>(b.n())); // a call that must infer it looks at every vertex
    }
  });
};
auto f_load_tenths = [](const Big& b, auto& g, Gauge& q) { // ten batches, the vertex count inferred every time
  using G   = std::remove_reference_t<decltype(g)>;
  auto rows = rows_of<G>(b);
  G    h    = make_rep<G>();
  std::vector<std::vector<EdgeRow>> part(10);
  for (size_t i = 0; i < rows.size(); ++i)
    part[i * 10 / rows.size()].push_back(rows[i]);
  q([&] {
    for (auto& p : part)
      h.load_edges(p, std::identity{});
  });
};
auto f_resize = [](const Big& b, auto& g, Gauge& q) { // vertices added in doubling steps
  using G = std::remove_reference_t<decltype(g)>;
  G h     = make_rep<G>();
  q([&] {
    for (size_t n = 1; n <= static_cast<size_t>(b.n()); n *= 2)
      h.resize_vertices(n);
  });
};
auto f_build = [](const Big& b, auto& g, Gauge& q) { // UAL: built through its member functions
  (void)g;
  q([&] {
    UAL h(0);
    for (int i = 0; i < b.n(); ++i)
      h.create_vertex(i);
    for (auto& e : b.m.e)
      h.create_edge(static_cast<Vid>(e.u), static_cast<Vid>(e.v), e.w);
  });
};
auto f_erase = [](const Big&, auto& g, Gauge& q) { // UAL: every edge of every vertex, first to last
  q([&] {
    for (auto& u : g.vertices())
      u.clear_edges(g);
  });
};
auto f_erase_front = [](const Big& b, auto& g, Gauge& q) {
  q([&] {
    for (size_t u = 0; u < static_cast<size_t>(b.n()); ++u) {
      auto& v = g.vertices()[u];
      while (v.num_edges())
        v.erase_edge(g, v.edges_begin(g, static_cast<Vid>(u)));
    }
  });
};
} // namespace

BIG_REGISTER
reg_bigs<CG, VOV, VOL, DOFL, BI, BIL, UAL>("copy", B_ANY, lin, 4, f_copy);
reg_bigs<MOL>("copy", B_ANY, linlog, 4, f_copy);
reg_bigs<CG, VOV, VOL, DOFL, BI, BIL, UAL>("copy_assign", B_ANY, lin, 4, f_copy_assign);
reg_bigs<CG, VOV, VOL, DOFL, BI, BIL, MOL, UAL>("move", B_ANY, one, 4, f_move);
reg_bigs<CG, VOV, VOL, DOFL, BI, BIL, UAL>("clear", B_ANY, lin, 4, f_clear);
reg_bigs<CG, VOV, VOL, DOFL, BI, BIL>("load_edges", B_ANY, lin, 4, f_load);
reg_bigs<MOL>("load_edges", B_ANY, linlog, 4, f_load);
reg_bigs<CG, VOV, VOL, DOFL, BI, BIL>("load_edges_nohint", B_ANY, lin, 4, f_load_nohint);
reg_bigs<VOV, VOL, DOFL, BI>("load_edges_one_by_one", B_ANY, lin, 4, f_load_batches);
reg_bigs<VOV, VOL, DOFL, BI>("load_edges_tenths", B_ANY, lin, 4, f_load_tenths);
reg_bigs<VOV, VOL, DOFL, BI>("resize_vertices", B_ANY, lin, 4, f_resize);
reg_bigs<UAL>("build", B_ANY, lin, 4, f_build);
reg_bigs<UAL>("clear_edges", B_ANY, lin, 4, f_erase);
reg_bigs<UAL>("erase_first_edge", B_ANY, lin, 4, f_erase_front);
BIG_END
