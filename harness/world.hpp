// The simulated world shared by the algorithm and view harnesses: one abstract graph (the model) and the same
// graph in several of the library's representations, used concurrently by the caller tasks of a run.
#pragma once
#include "../sim/sim.hpp"

#include <graph/container/compressed_graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <graph/graph.hpp>

#include <memory>
#include <vector>

struct MEdge {
  int u, v, w;
};

struct Model {
  int                n   = 0;
  bool               und = false; // each edge is traversable both ways
  std::vector<MEdge> e;
  // arcs: the directed view of the model. For an undirected model an edge {u,v}, u != v, gives both arcs and a
  // self-loop gives one.
  struct Arc {
    int to, w, edge;
  };
  std::vector<std::vector<Arc>> out;
  void                          build();
  size_t                        arc_count() const;
};

using Vid = uint32_t;

// Bidirectional graphs need an in-edge type that knows its source (the standard traits'
// in-edges are out-edge objects and don't satisfy bidirectional_adjacency_list).
template <class EV, class VV, class GV, class VId, template <class...> class Edges, template <class...> class Vertices>
struct bidir_traits {
  using edge_value_type   = EV;
  using vertex_value_type = VV;
  using graph_value_type  = GV;
  using vertex_id_type    = VId;
  static constexpr bool bidirectional = true;
  using edge_type     = graph::container::dynamic_out_edge<EV, VV, GV, VId, true, bidir_traits>;
  using in_edge_type  = graph::container::dynamic_in_edge<EV, VV, GV, VId, true, bidir_traits>;
  using vertex_type   = graph::container::dynamic_vertex<EV, VV, GV, VId, true, bidir_traits>;
  using graph_type    = graph::container::dynamic_graph<EV, VV, GV, VId, true, bidir_traits>;
  using edges_type    = Edges<edge_type>;
  using in_edges_type = Edges<in_edge_type>;
  using vertices_type = Vertices<vertex_type>;
};
using EdgeRow = graph::copyable_edge_t<Vid, int>;

using VVP  = std::vector<std::vector<std::pair<int, int>>>; // plain ranges: (target, weight)
using VVI  = std::vector<std::vector<int>>;                 // plain ranges: target
using CG   = graph::container::compressed_graph<int, void, void, Vid, Vid>;
// vertex ids of the narrowest type: up to 256 vertices
using CG8  = graph::container::compressed_graph<int, void, void, uint8_t, uint32_t>;
using VOV  = graph::container::dynamic_graph<int, void, void, Vid, false,
                                            graph::container::vov_graph_traits<int, void, void, Vid, false>>;
using VOL  = graph::container::dynamic_graph<int, void, void, Vid, false,
                                            graph::container::vol_graph_traits<int, void, void, Vid, false>>;
using DOFL = graph::container::dynamic_graph<int, void, void, Vid, false,
                                             graph::container::dofl_graph_traits<int, void, void, Vid, false>>;
using BI   = graph::container::dynamic_graph<int, void, void, Vid, true,
                                           bidir_traits<int, void, void, Vid, std::vector, std::vector>>;
using BIL  = graph::container::dynamic_graph<int, void, void, Vid, true,
                                            bidir_traits<int, void, void, Vid, std::list, std::deque>>;
using UAL  = graph::container::undirected_adjacency_list<int, int, int, Vid>;

// A graph type of the user's own: a vector of forward ranges whose iterators let other callers run at every step.
struct SeamEdges {
  using T = std::pair<int, int>;
  using value_type = T;
  std::vector<T> v;
  void           push_back(const T& x) { v.push_back(x); }
  struct iterator {
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = const T&;
    using pointer           = const T*;
    using iterator_category = std::forward_iterator_tag;
    const T*  p             = nullptr;
    reference operator*() const { return *p; }
    pointer   operator->() const { return p; }
    iterator& operator++() {
      sim::seam(sim::K_ITER, false);
      ++p;
      return *this;
    }
    iterator operator++(int) {
      auto o = *this;
      ++*this;
      return o;
    }
    bool operator==(const iterator&) const = default;
  };
  iterator    begin() const { return {v.data()}; }
  iterator    end() const { return {v.data() + v.size()}; }
  std::size_t size() const { return v.size(); }
};
using VSV = std::vector<SeamEdges>;

struct World {
  Model m;
  VSV   vsv;
  VVP   vvp;
  VVI   vvi;
  CG    cg;
  VOV   vov;
  VOL   vol;
  DOFL  dofl;
  BI    bi;
  BIL   bil;
  UAL   ual{0};
  bool  has_ual = false;
  CG8   cg8;
  bool  has_cg8 = false;
  bool  narrow() const { return has_cg8 && (m.n > 100 || sim::chance(1, 4)); }
  bool  has_cg  = false; // the compressed graph holds every vertex (it has only those its edges mention)

  uint64_t digest() const; // of every representation
};

struct WorldSpec {
  bool und       = false;
  bool dag       = false;
  bool simple    = false; // no parallel edges, no self-loops
  int  max_n     = 14;
  int  large_n   = 65540; // the most vertices of a large model
  bool weights_may_be_negative = false;
};

World make_world(const WorldSpec& s);
void  describe(const Model& m);
std::vector<int> strong_components(const Model& m);
World reversed(const World& w); // only the model, with every edge turned round

// Arbitrary choices per vertex or element: drawn, but not for graphs so large that the tape would overflow.
inline uint32_t pick(const Model& m, uint32_t n, size_t i) {
  return m.n > 400 || m.e.size() > 800 ? static_cast<uint32_t>(i * 2654435761u >> 7) % n : sim::draw(n);
}

// ---- caller operations ------------------------------------------------------------------------------------------
// An operation: one library call (with its oracle) made by a caller task on the shared world.
enum Need : unsigned { ANY = 0, UNDIRECTED = 1, DIRECTED = 2 };
struct OpDef {
  const char* name;
  int         weight;
  unsigned    need;
  void (*fn)(World&);
};
struct RegisterOp {
  RegisterOp(const char* name, int weight, unsigned need, void (*fn)(World&));
};
#define OP(NAME, WEIGHT, NEED)                                                                                         \
  static void         SIM_CAT(op_, __LINE__)(World&);                                                                  \
  static RegisterOp   SIM_CAT(regop_, __LINE__)(NAME, WEIGHT, NEED, &SIM_CAT(op_, __LINE__));                           \
  static void         SIM_CAT(op_, __LINE__)([[maybe_unused]] World& w)

// One call under the fault discipline. Ctx is constructed afresh for every attempt with make(), has
//   void invoke()                      the library call (runs in SUT scope)
//   void verify(const sim::Outcome&)   the oracle for a call during which no fault fired
// and is destroyed before the ledger is compared.
extern uint32_t g_fault_percent; // chosen per run (swarm): 0, 10, 35 or 70
sim::Kind       draw_fault_kind();

template <class Make>
void drive(const char* name, Make&& make) {
  using namespace sim;
  if (failed())
    return;
  const int64_t live0 = task_live();
  auto          once  = [&](bool faulted) -> bool { // true if the armed fault fired
    bool hit = false;
    {
      auto    ctx = make();
      Outcome o   = attempt([&] { ctx->invoke(); });
      bool    f   = fired();
      bool    nul = fired_null();
      if (faulted)
        disarm();
      if (failed())
        return f;
      trace("  [task %d] %s -> %s %s", task_id(), name, what_name[o.what], o.msg.c_str());
      ev(0x0CA11, static_cast<uint64_t>(o.what));
      if (!f || !faulted)
        ctx->verify(o);
      else {
        hit = true;
        if (o.what == W_NONE && !nul)
          fail("fault-swallowed", "%s returned normally although a callback it made threw", name);
        else if (o.what == W_NONE)
          ctx->verify(o); // a null result of a nothrow allocation was handled
        else if (o.what != W_INJECTED)
          fail("fault-replaced", "%s threw %s %s instead of the injected fault", name, what_name[o.what], o.msg.c_str());
      }
    }
    if (!failed() && task_live() != live0)
      fail("leak", "%s %s left %lld allocation(s) behind", name, hit ? "abandoned by an injected fault" : "",
           static_cast<long long>(task_live() - live0));
    return hit;
  };
  if (!chance(g_fault_percent, 100)) {
    once(false);
    return;
  }
  Kind     k  = draw_fault_kind();
  uint64_t s0 = seams(k);
  once(false); // measure how many seams of this kind the call meets
  uint64_t n = seams(k) - s0;
  if (failed() || n == 0)
    return;
  // early seams, late seams, and anything between
  uint64_t at = 1 + draw(static_cast<uint32_t>(n));
  arm(k, at);
  bool hit = once(true);
  if (hit && !failed())
    once(false); // retry: exact again
}

// Sometimes a caller has only const access to the graph.
template <class G, class F>
auto maybe_const(G& g, F&& f) {
  if (sim::chance(1, 3))
    return f(std::as_const(g));
  return f(g);
}

// Interleaved caller tasks making `ops` operations each on the shared world; used by every algorithm harness.
void callers_scenario(const WorldSpec& spec, unsigned have);
