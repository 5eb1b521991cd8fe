// Connected and strongly connected components against the model.
#include "world.hpp"

#include <graph/algorithm/connected_components.hpp>
#include <graph/views/transpose.hpp>

#include <algorithm>
#include <deque>
#include <map>

using namespace sim;
namespace ga = graph::adj_list;

namespace {

// reference labels: union-find over the edges (weak components), mutual reachability (strong components)
std::vector<int> weak(const Model& m) {
  std::vector<int> p(static_cast<size_t>(m.n));
  for (size_t i = 0; i < p.size(); ++i)
    p[i] = static_cast<int>(i);
  auto f = [&](int x) {
    while (p[static_cast<size_t>(x)] != x)
      x = p[static_cast<size_t>(x)] = p[static_cast<size_t>(p[static_cast<size_t>(x)])];
    return x;
  };
  for (auto& e : m.e)
    p[static_cast<size_t>(f(e.u))] = f(e.v);
  for (size_t i = 0; i < p.size(); ++i)
    p[i] = f(static_cast<int>(i));
  return p;
}
enum Algo { CC, AFF, AFF_T, KOS_T, KOS_BI };
const char* const algo_name[] = {"connected_components", "afforest", "afforest(g,g_t)", "kosaraju(g,g_t)", "kosaraju(bidirectional)"};

template <Algo A, class G, class GT, class C>
struct Call {
  World& w;
  G&     g;
  GT&    gt;
  size_t rounds; // afforest: neighbour rounds; npos = the default
  C      comp;
  size_t count = 0;

  Call(World& w_, G& g_, GT& gt_, size_t rounds_, size_t extra) : w(w_), g(g_), gt(gt_), rounds(rounds_) {
    comp.resize(static_cast<size_t>(w.m.n) + extra);
    size_t k = 0;
    for (auto& x : comp)
      x = static_cast<typename C::value_type>(pick(w.m, 4, ++k)); // left over from an earlier use
    if constexpr (A == AFF || A == AFF_T)
      for (size_t i = static_cast<size_t>(w.m.n); i < comp.size(); ++i)
        comp[i] = static_cast<typename C::value_type>(i);
  }
  void invoke() {
    if constexpr (A == CC)
      count = graph::connected_components(g, comp);
    else if constexpr (A == AFF) {
      if (rounds == size_t(-1))
        graph::afforest(g, comp);
      else
        graph::afforest(g, comp, rounds);
    } else if constexpr (A == AFF_T) {
      if (rounds == size_t(-1))
        graph::afforest(g, gt, comp);
      else
        graph::afforest(g, gt, comp, rounds);
    } else if constexpr (A == KOS_T)
      graph::kosaraju(g, gt, comp);
    else
      graph::kosaraju(g, comp);
  }
  void verify(const Outcome& o) {
    const char* nm = algo_name[A];
    if (o.threw())
      return fail("unexpected-exception", "%s threw %s %s", nm, what_name[o.what], o.msg.c_str());
    const size_t n   = static_cast<size_t>(w.m.n);
    auto         ref = A == KOS_T || A == KOS_BI ? strong_components(w.m) : weak(w.m);
    std::map<int, long long> fwd;
    std::map<long long, int> bwd;
    for (size_t v = 0; v < n; ++v) {
      long long c = static_cast<long long>(comp[v]);
      ev(0x401, static_cast<uint64_t>(c));
      auto a = fwd.emplace(ref[v], c).first;
      if (a->second != c)
        return fail("component-split", "%s: vertices of one component have labels %lld and %lld (vertex %zu)", nm, a->second, c, v);
      auto b = bwd.emplace(c, ref[v]).first;
      if (b->second != ref[v])
        return fail("component-merged", "%s: label %lld is given to two components (vertex %zu)", nm, c, v);
    }
    if (A == CC && count != bwd.size())
      return fail("component-count", "%s returned %zu, there are %zu components", nm, count, bwd.size());
    if (A == CC || A == KOS_T || A == KOS_BI) {
      long long k = 0;
      for (auto& [c, _] : bwd)
        if (c != k++)
          return fail("component-numbering", "%s: component ids are not 0..%zu", nm, bwd.size() - 1);
    } else
      for (auto& [c, _] : bwd)
        if (c < 0 || c >= static_cast<long long>(n))
          return fail("component-numbering", "%s: label %lld is not a vertex id", nm, c);
  }
};

template <Algo A, class G, class GT>
void on(World& w, G& g, GT& gt) {
  size_t rounds = size_t(-1);
  if (A == AFF || A == AFF_T)
    if (chance(3, 4))
      rounds = draw(6);
  if (rounds == 5)
    rounds = 1000;
  size_t extra = chance(1, 8) && A != AFF && A != AFF_T ? 2 : 0;
  switch (draw(3)) {
  case 0: return drive(algo_name[A], [&] { return std::make_unique<Call<A, G, GT, std::vector<uint32_t>>>(w, g, gt, rounds, extra); });
  case 1:
    return drive(algo_name[A], [&] { return std::make_unique<Call<A, G, GT, std::vector<size_t>>>(w, g, gt, rounds, extra); });
  default: return drive(algo_name[A], [&] { return std::make_unique<Call<A, G, GT, std::deque<int>>>(w, g, gt, rounds, extra); });
  }
}

VVI transposed(const Model& m) {
  VVI t(static_cast<size_t>(m.n));
  for (size_t u = 0; u < m.out.size(); ++u)
    for (auto& a : m.out[u])
      t[static_cast<size_t>(a.to)].push_back(static_cast<int>(u));
  return t;
}

#ifndef COMP_PART2
OP("connected_components", 4, UNDIRECTED) {
  switch (draw(7)) {
  case 0: return on<CC>(w, w.vvi, w.vvi);
  case 1: return on<CC>(w, w.vvp, w.vvp);
  case 2: return on<CC>(w, w.vsv, w.vsv);
  case 3: return on<CC>(w, w.dofl, w.dofl);
  case 4: return maybe_const(w.vov, [&](auto& g) { on<CC>(w, g, g); });
  case 5:
    if (w.narrow())
      return on<CC>(w, w.cg8, w.cg8);
    if (w.has_cg)
      return on<CC>(w, w.cg, w.cg);
    [[fallthrough]];
  default: return maybe_const(w.ual, [&](auto& g) { on<CC>(w, g, g); });
  }
}
OP("afforest", 4, UNDIRECTED) {
  switch (draw(5)) {
  case 0: return on<AFF>(w, w.vvi, w.vvi);
  case 1: return on<AFF>(w, w.vsv, w.vsv);
  case 2: return on<AFF>(w, w.vol, w.vol);
  case 3:
    if (w.narrow())
      return on<AFF>(w, w.cg8, w.cg8);
    if (w.has_cg)
      return maybe_const(w.cg, [&](auto& g) { on<AFF>(w, g, g); });
    [[fallthrough]];
  default: return on<AFF>(w, w.vov, w.vov);
  }
}
#else
OP("afforest transpose", 3, ANY) {
  if (w.m.und && chance(1, 2))
    return on<AFF_T>(w, w.vov, w.vov); // an undirected graph is its own transpose
  VVI t = transposed(w.m);
  switch (draw(4)) {
  case 0: return on<AFF_T>(w, w.vvi, t);
  case 1: return on<AFF_T>(w, w.vsv, t);
  case 2: return on<AFF_T>(w, w.vol, t);
  default: return on<AFF_T>(w, w.vov, t);
  }
}
OP("kosaraju transpose", 4, ANY) {
  VVI t = transposed(w.m);
  switch (draw(5)) {
  case 0: return on<KOS_T>(w, w.vvi, t);
  case 1: return on<KOS_T>(w, w.vsv, t);
  case 2: return on<KOS_T>(w, w.dofl, t);
  case 3:
    if (w.narrow())
      return on<KOS_T>(w, w.cg8, t);
    if (w.has_cg)
      return maybe_const(w.cg, [&](auto& g) { on<KOS_T>(w, g, t); });
    [[fallthrough]];
  default: return on<KOS_T>(w, w.vov, t);
  }
}
OP("kosaraju bidirectional", 4, ANY) {
  if (chance(1, 3)) {
    graph::views::transpose_view<BI> tv(w.bi);
    return on<KOS_T>(w, w.bi, tv);
  }
  if (chance(1, 2))
    return on<KOS_BI>(w, w.bi, w.bi);
  maybe_const(w.bil, [&](auto& g) { on<KOS_BI>(w, g, g); });
}
#endif

} // namespace
