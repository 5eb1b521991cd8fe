// Graphs of any size: what a call costs against what it documents. An operation is run on a small and on a large
// member of one graph family and its cost (work clock, memory, stack) may grow only as documented.
#pragma once
#include "world.hpp"

#include <algorithm>
#include <cmath>
#include <string>

struct Big {
  Model    m;
  int      root = 0;      // a vertex from which every vertex can be reached
  uint64_t rng  = 1;      // for the operation's own choices, the same for the small and the large graph
  double   V = 0, A = 0;  // vertices, arcs
  double   pairs = 0;     // sum over arcs of (degree of source + degree of target)
  double   mins  = 0;     // sum over arcs of the smaller degree
  int      n() const { return m.n; }
  double   VA() const { return V + A; }
  double   lg() const { return std::log2(VA() + 2) + 1; }
};

struct Cost {
  uint64_t work = 0, depth = 0;
  int64_t  peak = 0;
};

// Runs the library call under the meter.
struct Gauge {
  uint64_t limit = ~uint64_t(0);
  uint64_t fault = 0; // 0: none; n: the n-th allocation fails
  const char* cls = "work";
  Cost     cost;
  uint64_t allocs = 0;
  bool     hit = false;
  template <class F>
  void operator()(F&& f) {
    using namespace sim;
    uint64_t s0   = seams(K_ALLOC);
    int64_t  live = task_live();
    if (fault)
      arm(K_ALLOC, fault);
    meter.start(cls, limit);
    Outcome o = attempt([&] { f(); });
    meter.stop();
    if (fault)
      hit = disarm();
    cost   = {meter.work, meter.depth(), meter.peak};
    allocs = seams(K_ALLOC) - s0;
    (void)live;
    trace("  cost: work %llu, peak memory %lld, stack %llu, outcome %s %s", static_cast<unsigned long long>(cost.work),
          static_cast<long long>(cost.peak), static_cast<unsigned long long>(cost.depth), what_name[o.what], o.msg.c_str());
    if (o.threw() && !(hit && o.what == W_INJECTED))
      fail("unexpected-exception", "%s threw %s %s", cls, what_name[o.what], o.msg.c_str());
  }
};

enum BNeed : unsigned { B_ANY = 0, B_SYM = 1, B_DAG = 2, B_SMALL = 4 /* superlinear by definition: smaller sizes */, B_SIMPLE = 8 };

struct BigOp {
  std::string name;
  unsigned    need;
  double (*bound)(const Big&);
  double unit; // work per unit of the bound that is always acceptable
  void (*fn)(const Big&, Gauge&);
};
void register_big(BigOp op);

template <class G>
struct Rep;
template <class G>
void load_rows(G& g, const Big& b) {
  std::vector<EdgeRow> rows;
  for (size_t u = 0; u < b.m.out.size(); ++u)
    for (auto& a : b.m.out[u])
      rows.push_back({static_cast<Vid>(u), static_cast<Vid>(a.to), a.w});
  if constexpr (requires { g.resize_vertices(size_t(1)); })
    if (b.n())
      g.resize_vertices(static_cast<size_t>(b.n()));
  const size_t k = rows.size();
  g.load_edges(rows, std::identity{}, static_cast<size_t>(b.n()), k);
}
#define BIG_ROWS(T)                                                                                                    \
  template <>                                                                                                          \
  struct Rep<T> {                                                                                                      \
    static constexpr const char* name = #T;                                                                            \
    static void                  fill(T& g, const Big& b) { load_rows(g, b); }                                         \
  };
using MOL = graph::container::dynamic_graph<int, void, void, Vid, false,
                                            graph::container::mol_graph_traits<int, void, void, Vid, false>>;
BIG_ROWS(CG)
BIG_ROWS(VOV)
BIG_ROWS(VOL)
BIG_ROWS(DOFL)
BIG_ROWS(BI)
BIG_ROWS(BIL)
BIG_ROWS(MOL)
template <>
struct Rep<VVP> {
  static constexpr const char* name = "VVP";
  static void                  fill(VVP& g, const Big& b) {
    g.resize(static_cast<size_t>(b.n()));
    for (size_t u = 0; u < b.m.out.size(); ++u)
      for (auto& a : b.m.out[u])
        g[u].push_back({a.to, a.w});
  }
};
template <>
struct Rep<UAL> {
  static constexpr const char* name = "UAL";
  static void                  fill(UAL& g, const Big& b) {
    for (int u = 0; u < b.n(); ++u)
      g.create_vertex(u);
    for (auto& e : b.m.e)
      g.create_edge(static_cast<Vid>(e.u), static_cast<Vid>(e.v), e.w);
  }
};

template <class G>
G make_rep() {
  if constexpr (std::is_same_v<G, UAL>)
    return G(0);
  else
    return G{};
}

// Registers `body(b, g, gauge)` for one representation.
template <class G, class Body>
void reg_big(const char* name, unsigned need, double (*bound)(const Big&), double unit, Body) {
  static_assert(std::is_empty_v<Body>);
  register_big({std::string(name) + "/" + Rep<G>::name, need | (std::is_same_v<G, UAL> ? B_SYM : 0u), bound, unit,
                [](const Big& b, Gauge& q) {
                  G g = make_rep<G>();
                  Rep<G>::fill(g, b);
                  if (graph::adj_list::num_vertices(g) != static_cast<size_t>(b.n()))
                    return; // a compressed graph has the vertices its edges mention
                  Body{}(b, g, q);
                }});
}
template <class... G, class Body>
void reg_bigs(const char* name, unsigned need, double (*bound)(const Big&), double unit, Body body) {
  (reg_big<G>(name, need, bound, unit, body), ...);
}
#define BIG_REGISTER static const int SIM_CAT(big_reg_, __LINE__) = [] {
#define BIG_END                                                                                                        \
  return 0;                                                                                                            \
  }                                                                                                                    \
  ();
