// Graph types of the caller's own, which customise the generic interface with free functions or with members. Every
// customised operation is a seam: another caller may run in it, and it may throw. What a query answers must still be
// what the model says, a type's own operation must be used where it has one, and what it throws reaches the caller.
#include "query.hpp"

namespace query {
namespace own {

enum Op : int {
  VERTICES, VERTICES_P, FIND, EDGES, EDGES_ID, IN_EDGES, IN_EDGES_ID, TARGET, SOURCE, TARGET_ID, SOURCE_ID, EDGE_VALUE,
  NUM_V, NUM_V_P, NUM_E, NUM_E_U, NUM_E_ID, DEG, DEG_ID, IN_DEG, IN_DEG_ID, FE_UU, FE_UI, FE_II, FI_UU, FI_UI, FI_II,
  CE_UU, CE_II, CI_UU, CI_II, HAS_EDGE, VV, GV, PID, NUM_P, OPS
};

struct Arc {
  int to, w;
};
struct ArcT { // knows its ends
  int from, to, w;
  int target_id() const { return to; }
  int source_id() const { return from; }
};

// what every such graph stores
template <template <class...> class Es>
struct Store {
  struct Node {
    int     val = 0;
    Es<Arc> out, in; // in: `to` is the source
  };
  std::deque<Node>  nodes;
  int               gv = 0;
  mutable uint64_t  calls[8][OPS] = {};
  void              hit(Op o, bool may_throw = true) const {
    sim::Callback c(may_throw);
    ++calls[sim::task_id() & 7][o];
  }
  using VIt   = typename std::deque<Node>::iterator;
  using EIt   = typename Es<Arc>::iterator;
  using V     = ga::vertex_descriptor<VIt>;
  using E     = ga::edge_descriptor<EIt, VIt>;
  using IE    = ga::edge_descriptor<EIt, VIt, ga::in_edge_tag>;
  using View  = ga::vertex_descriptor_view<VIt>;
  using EView = ga::edge_descriptor_view<EIt, VIt>;
  using IView = ga::edge_descriptor_view<EIt, VIt, ga::in_edge_tag>;

  size_t size_() const { return nodes.size(); }
  void   fill(const Model& m) {
    nodes.resize(static_cast<size_t>(m.n));
    for (int u = 0; u < m.n; ++u) {
      nodes[static_cast<size_t>(u)].val = u + 100;
      for (auto& a : m.out[static_cast<size_t>(u)]) {
        nodes[static_cast<size_t>(u)].out.push_back({a.to, a.w});
        nodes[static_cast<size_t>(a.to)].in.push_back({u, a.w});
      }
    }
  }
  size_t total() const {
    size_t k = 0;
    for (auto& n : nodes)
      k += n.out.size();
    return k;
  }
  template <class It>
  Arc& arc(const ga::edge_descriptor<It, VIt>& e) {
    if constexpr (std::random_access_iterator<EIt>)
      return nodes[e.source().value()].out[e.value()];
    else
      return const_cast<Arc&>(*e.value());
  }
  Arc& arc(const IE& e) {
    if constexpr (std::random_access_iterator<EIt>)
      return nodes[e.source().value()].in[e.value()];
    else
      return *e.value();
  }
  template <class D>
  D edge_to(Es<Arc>& r, size_t u, int v) {
    size_t k = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++k)
      if (it->to == v) {
        if constexpr (std::random_access_iterator<EIt>)
          return D{k, V{u}};
        else
          return D{it, V{u}};
      }
    throw std::logic_error("no such edge");
  }
  bool has(size_t u, int v) const {
    for (auto& a : nodes[u].out)
      if (a.to == v)
        return true;
    return false;
  }
  size_t part(int p) const { return std::min(nodes.size(), static_cast<size_t>(p) * ((nodes.size() + 2) / 3)); } // three blocks
};

// ---- everything by free functions found through the arguments
template <template <class...> class Es>
struct Free : Store<Es> {
  using S = Store<Es>;
  using vertex_id_type = uint16_t;
  using typename S::V, typename S::E, typename S::IE;
  static constexpr bool own(Op) { return true; }
  static constexpr bool RA = std::random_access_iterator<typename S::EIt>; // its ranges by id don't throw
  friend auto vertices(Free& g) { g.hit(VERTICES); return typename S::View(g.nodes); }
  friend auto vertices(Free& g, int p) { g.hit(VERTICES_P); return typename S::View(g.part(p), g.part(p + 1)); }
  friend auto find_vertex(Free& g, uint16_t id) { g.hit(FIND); return typename S::View::iterator{size_t(id)}; }
  friend auto edges(Free& g, const V& u) { g.hit(EDGES); return typename S::EView(g.nodes[u.value()].out, u); }
  friend auto& edges(Free& g, uint16_t u) noexcept(RA) { g.hit(EDGES_ID, !RA); return g.nodes[u].out; } // a plain range
  friend auto& in_edges(Free& g, const V& u) { g.hit(IN_EDGES); return g.nodes[u.value()].in; }
  friend auto in_edges(Free& g, uint16_t u) noexcept(RA) { g.hit(IN_EDGES_ID, !RA); return typename S::IView(g.nodes[u].in, V{size_t(u)}); }
  friend V    target(Free& g, const E& e) { g.hit(TARGET); return V{size_t(g.arc(e).to)}; }
  friend V    target(Free& g, const IE& e) { g.hit(TARGET); return e.source(); }
  friend auto source(Free& g, const E& e) { g.hit(SOURCE); return typename S::View::iterator{e.source().value()}; }
  friend auto source(Free& g, const IE& e) { g.hit(SOURCE); return typename S::View::iterator{size_t(g.arc(e).to)}; }
  template <class It>
  friend int  target_id(const Free& g, const ga::edge_descriptor<It, typename S::VIt>& e) { g.hit(TARGET_ID); return const_cast<Free&>(g).arc(e).to; }
  friend int  target_id(const Free& g, const IE& e) { g.hit(TARGET_ID); return int(e.source().value()); }
  template <class It>
  friend int  source_id(const Free& g, const ga::edge_descriptor<It, typename S::VIt>& e) { g.hit(SOURCE_ID); return int(e.source().value()); }
  friend int  source_id(const Free& g, const IE& e) { g.hit(SOURCE_ID); return const_cast<Free&>(g).arc(e).to; }
  template <class It>
  friend int& edge_value(Free& g, const ga::edge_descriptor<It, typename S::VIt>& e) { g.hit(EDGE_VALUE); return g.arc(e).w; }
  template <class It>
  friend int  edge_value(const Free& g, const ga::edge_descriptor<It, typename S::VIt>& e) { g.hit(EDGE_VALUE); return const_cast<Free&>(g).arc(e).w; }
  friend size_t num_vertices(const Free& g) { g.hit(NUM_V); return g.nodes.size(); }
  friend size_t num_vertices(const Free& g, int p) { g.hit(NUM_V_P); return g.part(p + 1) - g.part(p); }
  friend size_t num_edges(const Free& g) { g.hit(NUM_E); return g.total(); }
  friend size_t num_edges(Free& g, const V& u) { g.hit(NUM_E_U); return g.nodes[u.value()].out.size(); }
  friend size_t num_edges(Free& g, uint16_t u) { g.hit(NUM_E_ID); return g.nodes[u].out.size(); }
  friend size_t degree(Free& g, const V& u) { g.hit(DEG); return g.nodes[u.value()].out.size(); }
  friend size_t degree(Free& g, uint16_t u) { g.hit(DEG_ID); return g.nodes[u].out.size(); }
  friend size_t in_degree(Free& g, const V& u) { g.hit(IN_DEG); return g.nodes[u.value()].in.size(); }
  friend size_t in_degree(Free& g, uint16_t u) { g.hit(IN_DEG_ID); return g.nodes[u].in.size(); }
  friend E find_vertex_edge(Free& g, const V& u, const V& v) { g.hit(FE_UU); return g.template edge_to<E>(g.nodes[u.value()].out, u.value(), int(v.value())); }
  friend E find_vertex_edge(Free& g, const V& u, uint16_t v) { g.hit(FE_UI); return g.template edge_to<E>(g.nodes[u.value()].out, u.value(), v); }
  friend E find_vertex_edge(Free& g, uint16_t u, uint16_t v) { g.hit(FE_II); return g.template edge_to<E>(g.nodes[u].out, u, v); }
  friend IE find_in_edge(Free& g, const V& u, const V& v) { g.hit(FI_UU); return g.template edge_to<IE>(g.nodes[u.value()].in, u.value(), int(v.value())); }
  friend IE find_in_edge(Free& g, const V& u, uint16_t v) { g.hit(FI_UI); return g.template edge_to<IE>(g.nodes[u.value()].in, u.value(), v); }
  friend IE find_in_edge(Free& g, uint16_t u, uint16_t v) { g.hit(FI_II); return g.template edge_to<IE>(g.nodes[u].in, u, v); }
  friend bool contains_edge(Free& g, const V& u, const V& v) { g.hit(CE_UU); return g.has(u.value(), int(v.value())); }
  friend bool contains_edge(Free& g, uint16_t u, uint16_t v) { g.hit(CE_II); return g.has(u, v); }
  friend bool contains_in_edge(Free& g, const V& u, const V& v) { g.hit(CI_UU); return g.has(v.value(), int(u.value())); }
  friend bool contains_in_edge(Free& g, uint16_t u, uint16_t v) { g.hit(CI_II); return g.has(v, u); }
  friend bool has_edge(const Free& g) { g.hit(HAS_EDGE); return g.total() > 0; }
  friend int& vertex_value(Free& g, const V& u) { g.hit(VV); return g.nodes[u.value()].val; }
  friend int  vertex_value(const Free& g, const V& u) { g.hit(VV); return g.nodes[u.value()].val; }
  friend int& graph_value(Free& g) { g.hit(GV); return g.gv; }
  friend int  graph_value(const Free& g) { g.hit(GV); return g.gv; }
  friend int  partition_id(const Free& g, const V& u) {
    g.hit(PID);
    int p = 0;
    while (g.part(p + 1) <= u.value())
      ++p;
    return p;
  }
  friend int num_partitions(const Free& g) { g.hit(NUM_P); return 3; }
};

// ---- everything by members
template <template <class...> class Es>
struct Member : Store<Es> {
  using S = Store<Es>;
  using typename S::V, typename S::E, typename S::IE, typename S::View;
  static constexpr bool own(Op o) { return o != EDGES_ID && o != IN_EDGES_ID && o != TARGET_ID; }
  auto& vertices() { this->hit(VERTICES); return this->nodes; } // a plain range
  auto  vertices(int p) { this->hit(VERTICES_P); return View(this->part(p), this->part(p + 1)); }
  auto  find_vertex(int id) { this->hit(FIND); return typename View::iterator{size_t(id)}; }
  friend auto& edges(Member& g, const V& u) { g.hit(EDGES); return g.nodes[u.value()].out; }
  friend auto  in_edges(Member& g, const V& u) { g.hit(IN_EDGES); return typename S::IView(g.nodes[u.value()].in, u); }
  friend int   target_id(const Member& g, const E& e) { return const_cast<Member&>(g).arc(e).to; }
  friend int   target_id(const Member& g, const IE& e) { return int(e.source().value()); }
  auto target(const E& e) { this->hit(TARGET); return typename View::iterator{size_t(this->arc(e).to)}; }
  auto target(const IE& e) { this->hit(TARGET); return typename View::iterator{e.source().value()}; }
  V    source(const E& e) { this->hit(SOURCE); return e.source(); }
  V    source(const IE& e) { this->hit(SOURCE); return V{size_t(this->arc(e).to)}; }
  int  source_id(const E& e) const { this->hit(SOURCE_ID); return int(e.source().value()); }
  int  source_id(const IE& e) const { this->hit(SOURCE_ID); return const_cast<Member&>(*this).arc(e).to; }
  int& edge_value(const E& e) { this->hit(EDGE_VALUE); return this->arc(e).w; }
  size_t num_vertices() const { this->hit(NUM_V); return this->nodes.size(); }
  size_t num_vertices(int p) const { this->hit(NUM_V_P); return this->part(p + 1) - this->part(p); }
  size_t num_edges() const { this->hit(NUM_E); return this->total(); }
  size_t num_edges(const V& u) { this->hit(NUM_E_U); return this->nodes[u.value()].out.size(); }
  size_t num_edges(int u) { this->hit(NUM_E_ID); return this->nodes[size_t(u)].out.size(); }
  size_t degree(const V& u) { this->hit(DEG); return this->nodes[u.value()].out.size(); }
  size_t degree(int u) { this->hit(DEG_ID); return this->nodes[size_t(u)].out.size(); }
  size_t in_degree(const V& u) { this->hit(IN_DEG); return this->nodes[u.value()].in.size(); }
  size_t in_degree(int u) { this->hit(IN_DEG_ID); return this->nodes[size_t(u)].in.size(); }
  E find_vertex_edge(const V& u, const V& v) { this->hit(FE_UU); return this->template edge_to<E>(this->nodes[u.value()].out, u.value(), int(v.value())); }
  E find_vertex_edge(const V& u, int v) { this->hit(FE_UI); return this->template edge_to<E>(this->nodes[u.value()].out, u.value(), v); }
  E find_vertex_edge(int u, int v) { this->hit(FE_II); return this->template edge_to<E>(this->nodes[size_t(u)].out, size_t(u), v); }
  IE find_in_edge(const V& u, const V& v) { this->hit(FI_UU); return this->template edge_to<IE>(this->nodes[u.value()].in, u.value(), int(v.value())); }
  IE find_in_edge(const V& u, int v) { this->hit(FI_UI); return this->template edge_to<IE>(this->nodes[u.value()].in, u.value(), v); }
  IE find_in_edge(int u, int v) { this->hit(FI_II); return this->template edge_to<IE>(this->nodes[size_t(u)].in, size_t(u), v); }
  bool contains_edge(const V& u, const V& v) { this->hit(CE_UU); return this->has(u.value(), int(v.value())); }
  bool contains_edge(int u, int v) { this->hit(CE_II); return this->has(size_t(u), v); }
  bool contains_in_edge(const V& u, const V& v) { this->hit(CI_UU); return this->has(v.value(), int(u.value())); }
  bool contains_in_edge(int u, int v) { this->hit(CI_II); return this->has(size_t(v), u); }
  bool has_edge() const { this->hit(HAS_EDGE); return this->total() > 0; }
  int& vertex_value(const V& u) { this->hit(VV); return this->nodes[u.value()].val; }
  int& graph_value() { this->hit(GV); return this->gv; }
  int  partition_id(const V& u) const {
    this->hit(PID);
    int p = 0;
    while (this->part(p + 1) <= u.value())
      ++p;
    return p;
  }
  int num_partitions() const { this->hit(NUM_P); return 3; }
};

// ---- only what has no default
template <template <class...> class Es>
struct Minimal : Store<Es> {
  using S = Store<Es>;
  using typename S::V, typename S::E, typename S::IE;
  static constexpr bool own(Op o) { return o == VERTICES || o == EDGES || o == IN_EDGES || o == TARGET_ID || o == NUM_V || o == EDGE_VALUE; }
  friend auto& vertices(Minimal& g) { g.hit(VERTICES); return g.nodes; }
  friend auto& edges(Minimal& g, const V& u) { g.hit(EDGES); return g.nodes[u.value()].out; }
  friend auto& in_edges(Minimal& g, const V& u) { g.hit(IN_EDGES); return g.nodes[u.value()].in; }
  friend int   target_id(const Minimal& g, const E& e) { g.hit(TARGET_ID); return const_cast<Minimal&>(g).arc(e).to; }
  friend int   target_id(const Minimal& g, const IE& e) { g.hit(TARGET_ID); return int(e.source().value()); }
  friend int   source_id(const Minimal& g, const IE& e) { g.hit(SOURCE_ID); return const_cast<Minimal&>(g).arc(e).to; }
  friend int   edge_value(const Minimal& g, const E& e) { g.hit(EDGE_VALUE); return const_cast<Minimal&>(g).arc(e).w; }
  friend size_t num_vertices(const Minimal& g) { g.hit(NUM_V); return g.nodes.size(); }
};

// ---- a range of vertex objects with their edges as members
struct Node {
  int               val = 0;
  std::vector<ArcT> out, in;
  auto&             edges() { return out; }
  auto&             edges() const { return out; }
  auto&             in_edges() { return in; }
  auto&             in_edges() const { return in; }
};
struct NodeL {
  int             val = 0;
  std::list<ArcT> out, in;
  auto&           edges() { return out; }
  auto&           edges() const { return out; }
  auto&           in_edges() { return in; }
  auto&           in_edges() const { return in; }
};
template <class N>
struct Nodes : std::vector<N> {
  int             gv = 0;
  uint64_t        calls[8][OPS] = {};
  static constexpr bool own(Op) { return false; }
  void            fill(const Model& m) {
    this->resize(static_cast<size_t>(m.n));
    for (int u = 0; u < m.n; ++u) {
      (*this)[static_cast<size_t>(u)].val = u + 100;
      for (auto& a : m.out[static_cast<size_t>(u)]) {
        (*this)[static_cast<size_t>(u)].out.push_back({u, a.to, a.w});
        (*this)[static_cast<size_t>(a.to)].in.push_back({u, a.to, a.w});
      }
    }
  }
};

template <class G>
struct Machine {
  const char*          name;
  const Model&         m;
  G                    g;
  std::vector<std::vector<int>> w, in; // weights of the out-edges, sources of the in-edges
  std::vector<int>     vals;
  int                  gval = 0;
  bool                 open = true;
  using V  = ga::vertex_t<G>;
  using E  = ga::edge_t<G>;

  // one query; its answer as a number
  template <class F, class Want>
  void ask(Op op, const char* what, F f, Want expect, int u = -1, int v = -1) {
    if (failed())
      return;
    trace("  [task %d] %s", task_id(), what);
    auto call = [&](bool faulted) {
      auto&     n = g.calls[task_id() & 7][op];
      auto      before = n;
      long long have = 0;
      auto      live = task_live();
      auto      o = attempt([&] { have = static_cast<long long>(f()); });
      bool      hit = faulted && fired();
      if (faulted)
        disarm();
      if (failed())
        return;
      if (task_live() != live)
        return fail("leak", "%s: %s left %lld allocation(s) behind", name, what, static_cast<long long>(task_live() - live));
      if (hit) {
        if (o.what == W_NONE)
          fail("fault-swallowed", "%s: %s returned normally although the graph's own operation threw", name, what);
        else if (o.what != W_INJECTED)
          fail("fault-replaced", "%s: %s threw %s %s instead of the injected fault", name, what, what_name[o.what], o.msg.c_str());
        return;
      }
      if (o.threw())
        return fail("unexpected-exception", "%s: %s threw %s %s", name, what, what_name[o.what], o.msg.c_str());
      long long want;
      if constexpr (std::is_invocable_v<Want&>) // values may be written by other callers: what is there now
        want = expect();
      else
        want = static_cast<long long>(expect);
      if (have != want)
        return fail("custom-answer", "%s: %s is %lld instead of %lld (u %d, v %d)", name, what, have, want, u, v);
      if (G::own(op) && n == before)
        fail("customisation", "%s: %s doesn't use the graph's own operation", name, what);
    };
    if (!chance(g_fault_percent, 100))
      return call(false);
    Kind     k  = draw(4) ? K_CALLBACK : K_ALLOC;
    uint64_t s0 = seams(k);
    call(false);
    uint64_t n = seams(k) - s0;
    if (failed() || !n)
      return;
    arm(k, 1 + draw(static_cast<uint32_t>(n)));
    call(true);
    call(false);
  }
  int vid(const V& u) { return static_cast<int>(u.value()); } // all these graphs have their vertices in sequence
  V   desc(int u) { return V{static_cast<size_t>(u)}; }
  int deg(int u) { return static_cast<int>(m.out[static_cast<size_t>(u)].size()); }
  template <class T>
  static int num(const T& x) {
    if constexpr (std::is_arithmetic_v<T>)
      return static_cast<int>(x);
    else
      return x.w;
  }

  void step() {
    const int n = m.n;
    auto      vertex = [&] { return static_cast<int>(draw(static_cast<uint32_t>(n))); };
    switch (draw(12)) {
    case 0:
      ask(VERTICES, "vertices(g)", [&] {
        long long h = 0;
        for (auto&& u : ga::vertices(g))
          h = h * 31 + static_cast<long long>(ga::vertex_id(g, u)) + 1;
        return h;
      }, [&] { long long h = 0; for (int i = 0; i < n; ++i) h = static_cast<long long>(static_cast<unsigned long long>(h) * 31ull + static_cast<unsigned long long>(i) + 1ull); return h; }());
      ask(NUM_V, "num_vertices(g)", [&] { return ga::num_vertices(g); }, n);
      break;
    case 1: {
      size_t total = m.arc_count();
      ask(NUM_E, "num_edges(g)", [&] { return ga::num_edges(g); }, static_cast<long long>(total));
      ask(HAS_EDGE, "has_edges(g)", [&] { return ga::has_edges(g); }, total > 0);
      break;
    }
    case 2: {
      const int parts = G::own(NUM_P) ? 3 : 1;
      ask(NUM_P, "num_partitions(g)", [&] { return ga::num_partitions(g); }, parts);
      int  p  = static_cast<int>(draw(static_cast<uint32_t>(parts + 1)));
      auto lo = [&](int q) { return G::own(NUM_P) ? std::min(n, q * ((n + 2) / 3)) : q ? n : 0; };
      ask(NUM_V_P, "num_vertices(g,pid)", [&] { return ga::num_vertices(g, p); }, lo(p + 1) - lo(p), p);
      ask(VERTICES_P, "vertices(g,pid)", [&] {
        int k = lo(p);
        for (auto&& u : ga::vertices(g, p))
          if (static_cast<int>(ga::vertex_id(g, u)) != k++)
            return -1;
        return k - lo(p);
      }, lo(p + 1) - lo(p), p);
      if (n) {
        int u = vertex();
        ask(PID, "partition_id(g,u)", [&] { return ga::partition_id(g, desc(u)); }, G::own(NUM_P) ? u / ((n + 2) / 3) : 0, u);
      }
      break;
    }
    case 3:
      if (n) {
        int u = vertex();
        ask(FIND, "find_vertex(g,uid)", [&] { return vid(*ga::find_vertex(g, u)); }, u, u);
        if constexpr (G::own(VV) || std::ranges::range<G>) {
          ask(VV, "vertex_value(g,u)", [&] { 
            auto&& x = ga::vertex_value(g, desc(u));
            if constexpr (requires { x.val; }) return x.val; else return int(x); }, [&] { return vals[static_cast<size_t>(u)]; }, u);
          if constexpr (requires { ga::vertex_value(g, desc(u)) = 1; })
            if (!g_fault_percent) {
              int x = range(0, 1000);
              ask(VV, "vertex_value(g,u) = x", [&] { ga::vertex_value(g, desc(u)) = x; return vals[static_cast<size_t>(u)] = x; }, x, u);
            }
        }
        if constexpr (requires { ga::graph_value(g); })
          ask(GV, "graph_value(g)", [&] { return ga::graph_value(g); }, gval);
      }
      break;
    case 4:
    case 5:
      if (n) { // edges by descriptor or by id, with everything about each
        int  u     = vertex();
        bool by_id = draw(2);
        auto walk  = [&](auto&& r) -> long long {
          int j = 0;
          for (auto&& e : r) {
            if (j >= deg(u))
              return -2;
            auto& a = m.out[static_cast<size_t>(u)][static_cast<size_t>(j)];
            if (static_cast<int>(ga::target_id(g, e)) != a.to || static_cast<int>(ga::source_id(g, e)) != u)
              return -3 - j;
            if (num(ga::edge_value(g, e)) != w[static_cast<size_t>(u)][static_cast<size_t>(j)])
              return -1000 - j;
            ++j;
          }
          if (static_cast<int>(std::ranges::size(r)) != j)
            return -5000;
          return j;
        };
        if constexpr (requires { ga::edges(g, u); })
          if (by_id)
            ask(EDGES_ID, "edges(g,uid)", [&] { return walk(ga::edges(g, u)); }, deg(u), u);
        if (!by_id)
          ask(EDGES, "edges(g,u)", [&] { return walk(ga::edges(g, desc(u))); }, deg(u), u);
      }
      break;
    case 6:
      if (n) { // one edge
        int u = vertex();
        if (!deg(u))
          break;
        int j = static_cast<int>(draw(static_cast<uint32_t>(deg(u))));
        E   e;
        {
          auto o = attempt([&] { e = *std::ranges::next(std::ranges::begin(ga::edges(g, desc(u))), j); });
          if (o.threw())
            return fail("unexpected-exception", "%s: edges(g,u) threw", name);
        }
        int t = m.out[static_cast<size_t>(u)][static_cast<size_t>(j)].to;
        ask(TARGET_ID, "target_id(g,uv)", [&] { return ga::target_id(g, e); }, t, u, t);
        ask(SOURCE_ID, "source_id(g,uv)", [&] { return ga::source_id(g, e); }, u, u, t);
        ask(TARGET, "target(g,uv)", [&] { return vid(ga::target(g, e)); }, t, u, t);
        ask(SOURCE, "source(g,uv)", [&] { return vid(ga::source(g, e)); }, u, u, t);
        ask(EDGE_VALUE, "edge_value(g,uv)", [&] { return num(ga::edge_value(g, e)); }, [&] { return w[static_cast<size_t>(u)][static_cast<size_t>(j)]; }, u, t);
        if constexpr (requires { ga::edge_value(g, e) = 1; })
          if (!g_fault_percent) {
            int x = range(0, 1000);
            ask(EDGE_VALUE, "edge_value(g,uv) = x", [&] { ga::edge_value(g, e) = x; return w[static_cast<size_t>(u)][static_cast<size_t>(j)] = x; }, x, u, t);
          }
      }
      break;
    case 7:
      if (n) {
        int u = vertex();
        ask(DEG, "degree(g,u)", [&] { return ga::degree(g, desc(u)); }, deg(u), u);
        if constexpr (requires { ga::degree(g, u); })
          ask(DEG_ID, "degree(g,uid)", [&] { return ga::degree(g, u); }, deg(u), u);
        if constexpr (requires { ga::num_edges(g, desc(u)); })
          ask(NUM_E_U, "num_edges(g,u)", [&] { return ga::num_edges(g, desc(u)); }, deg(u), u);
        if constexpr (requires { ga::num_edges(g, u); })
          ask(NUM_E_ID, "num_edges(g,uid)", [&] { return ga::num_edges(g, u); }, deg(u), u);
      }
      break;
    case 8:
      if (n) {
        int  u = vertex(), v = vertex();
        bool there = false;
        for (auto& a : m.out[static_cast<size_t>(u)])
          there |= a.to == v;
        ask(CE_UU, "contains_edge(g,u,v)", [&] { return ga::contains_edge(g, desc(u), desc(v)); }, there, u, v);
        if constexpr (requires { ga::contains_edge(g, u, v); })
          ask(CE_II, "contains_edge(g,uid,vid)", [&] { return ga::contains_edge(g, u, v); }, there, u, v);
        ask(CI_UU, "contains_in_edge(g,u,v)", [&] { return ga::contains_in_edge(g, desc(v), desc(u)); }, there, v, u);
        if constexpr (requires { ga::contains_in_edge(g, u, v); })
          ask(CI_II, "contains_in_edge(g,uid,vid)", [&] { return ga::contains_in_edge(g, v, u); }, there, v, u);
      }
      break;
    case 9:
    case 10:
      if (n) {
        int u = vertex();
        if (!deg(u))
          break;
        int  v    = m.out[static_cast<size_t>(u)][draw(static_cast<uint32_t>(deg(u)))].to;
        auto ends = [&](auto&& e) { return static_cast<long long>(ga::source_id(g, e)) * 1000 + static_cast<long long>(ga::target_id(g, e)); };
        long long want = u * 1000 + v;
        ask(FE_UU, "find_vertex_edge(g,u,v)", [&] { return ends(ga::find_vertex_edge(g, desc(u), desc(v))); }, want, u, v);
        ask(FE_UI, "find_vertex_edge(g,u,vid)", [&] { return ends(ga::find_vertex_edge(g, desc(u), v)); }, want, u, v);
        if constexpr (requires { ga::find_vertex_edge(g, u, v); })
          ask(FE_II, "find_vertex_edge(g,uid,vid)", [&] { return ends(ga::find_vertex_edge(g, u, v)); }, want, u, v);
        ask(FI_UU, "find_in_edge(g,u,v)", [&] { return ends(ga::find_in_edge(g, desc(v), desc(u))); }, want, v, u);
        if constexpr (requires { ga::find_in_edge(g, desc(v), u); })
          ask(FI_UI, "find_in_edge(g,u,vid)", [&] { return ends(ga::find_in_edge(g, desc(v), u)); }, want, v, u);
        if constexpr (requires { ga::find_in_edge(g, v, u); })
          ask(FI_II, "find_in_edge(g,uid,vid)", [&] { return ends(ga::find_in_edge(g, v, u)); }, want, v, u);
      }
      break;
    case 11:
      if (n) {
        int   u  = vertex();
        auto& is = in[static_cast<size_t>(u)];
        int   d  = static_cast<int>(is.size());
        if constexpr (requires { ga::in_degree(g, desc(u)); })
          ask(IN_DEG, "in_degree(g,u)", [&] { return ga::in_degree(g, desc(u)); }, d, u);
        if constexpr (requires { ga::in_degree(g, u); })
          ask(IN_DEG_ID, "in_degree(g,uid)", [&] { return ga::in_degree(g, u); }, d, u);
        auto walk = [&](auto&& r) -> long long {
          int j = 0;
          for (auto&& e : r) {
            if (j >= d)
              return -2;
            if (static_cast<int>(ga::target_id(g, e)) != u || static_cast<int>(ga::source_id(g, e)) != is[static_cast<size_t>(j)])
              return -3 - j;
            if constexpr (requires { vid(ga::source(g, e)); })
              if (vid(ga::source(g, e)) != is[static_cast<size_t>(j)])
                return -1000 - j;
            if constexpr (requires { vid(ga::target(g, e)); })
              if (vid(ga::target(g, e)) != u)
                return -2000 - j;
            ++j;
          }
          return j;
        };
        if constexpr (requires { ga::in_edges(g, u); })
          if (draw(2)) {
            ask(IN_EDGES_ID, "in_edges(g,uid)", [&] { return walk(ga::in_edges(g, u)); }, d, u);
            break;
          }
        if constexpr (requires { ga::in_edges(g, desc(u)); })
          ask(IN_EDGES, "in_edges(g,u)", [&] { return walk(ga::in_edges(g, desc(u))); }, d, u);
      }
      break;
    }
  }

  Machine(const char* nm, const Model& model) : name(nm), m(model) {
    g.fill(m);
    w.resize(static_cast<size_t>(m.n)), in.resize(static_cast<size_t>(m.n));
    for (int u = 0; u < m.n; ++u) {
      vals.push_back(u + 100);
      for (auto& a : m.out[static_cast<size_t>(u)])
        w[static_cast<size_t>(u)].push_back(a.w), in[static_cast<size_t>(a.to)].push_back(u);
    }
    g.gv = gval = 77;
  }
  static void run(const char* name, const Model& m, int tasks, int ops) {
    auto q = std::make_unique<Machine>(name, m);
    for (int t = 0; t < tasks; ++t)
      spawn([&q, ops] {
        for (int i = 0; i < ops && !failed(); ++i) {
          q->step();
          ev(0x0F16, static_cast<uint64_t>(i));
          yield();
        }
      });
    run_tasks();
  }
};
template <class G>
struct Add {
  Add(const char* n) {
    static const char* name = n;
    machines().push_back({n, false, [](const Model& m, int t, int o) { Machine<G>::run(name, m, t, o); }});
  }
};
static Add<Free<std::list>>      a1("own graph with free functions, edges in a list");
static Add<Free<std::vector>>    a2("own graph with free functions, edges in a vector");
static Add<Member<std::list>>    a3("own graph with members, edges in a list");
static Add<Member<std::deque>>   a4("own graph with members, edges in a deque");
static Add<Minimal<std::list>>   a5("own minimal graph, edges in a list");
static Add<Minimal<std::vector>> a6("own minimal graph, edges in a vector");
static Add<Nodes<Node>>          a7("own vector of vertices, edges in a vector");
static Add<Nodes<NodeL>>         a8("own vector of vertices, edges in a list");
} // namespace own
} // namespace query
