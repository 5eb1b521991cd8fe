// Topological sort algorithms: whole graph, one source, several sources.
#include "world.hpp"

#include <graph/algorithm/topological_sort.hpp>

#include <graph/views/transpose.hpp>

#include <algorithm>
#include <list>

using namespace sim;
namespace ga = graph::adj_list;

namespace {

struct Shape {
  std::vector<char> in; // the part covered
  bool              cyclic = false;
};

Shape part(const Model& m, const std::vector<int>* src) {
  Shape            s;
  const size_t     n = static_cast<size_t>(m.n);
  std::vector<int> q;
  s.in.assign(n, src == nullptr);
  if (src) {
    for (int x : *src)
      if (!s.in[static_cast<size_t>(x)]) {
        s.in[static_cast<size_t>(x)] = 1;
        q.push_back(x);
      }
    for (size_t i = 0; i < q.size(); ++i)
      for (auto& a : m.out[static_cast<size_t>(q[i])])
        if (!s.in[static_cast<size_t>(a.to)]) {
          s.in[static_cast<size_t>(a.to)] = 1;
          q.push_back(a.to);
        }
  }
  // Kahn
  std::vector<int> deg(n, 0);
  size_t           total = 0, done = 0;
  for (size_t u = 0; u < n; ++u)
    if (s.in[u]) {
      ++total;
      for (auto& a : m.out[u])
        ++deg[static_cast<size_t>(a.to)];
    }
  q.clear();
  for (size_t u = 0; u < n; ++u)
    if (s.in[u] && !deg[u])
      q.push_back(static_cast<int>(u));
  for (size_t i = 0; i < q.size(); ++i, ++done)
    for (auto& a : m.out[static_cast<size_t>(q[i])])
      if (!--deg[static_cast<size_t>(a.to)])
        q.push_back(a.to);
  s.cyclic = done != total;
  return s;
}

template <class G>
struct Call {
  World&                          w;
  G&                              g;
  const std::vector<int>&         src;
  int                             form; // 0 whole graph, 1 one source, 2 vector, 3 list
  bool                            plain; // back_inserter instead of a throwing output
  bool                            ok = false;
  std::vector<ga::vertex_id_t<G>> res;
  Call(World& w_, G& g_, const std::vector<int>& s, int f, bool p) : w(w_), g(g_), src(s), form(f), plain(p) {}

  struct Out {
    using iterator_category = std::output_iterator_tag;
    using value_type        = void;
    using difference_type   = std::ptrdiff_t;
    using pointer           = void;
    using reference         = void;
    Call* c;
    Out&  operator*() { return *this; }
    Out&  operator++() { return *this; }
    Out   operator++(int) { return *this; }
    Out&  operator=(const ga::vertex_id_t<G>& x) {
      Callback cb;
      ev(0x300, static_cast<uint64_t>(x));
      c->res.push_back(x);
      return *this;
    }
  };
  template <class O>
  bool go(O o) {
    const G& cg = g;
    if (form == 0)
      return graph::topological_sort(cg, o);
    if (form == 1)
      return graph::topological_sort(cg, static_cast<ga::vertex_id_t<G>>(src[0]), o);
    if (form == 2) {
      std::vector<ga::vertex_id_t<G>> s;
      {
        Env e;
        s.assign(src.begin(), src.end());
      }
      bool r = graph::topological_sort(cg, s, o);
      Env  e;
      std::vector<ga::vertex_id_t<G>>().swap(s);
      return r;
    }
    std::list<ga::vertex_id_t<G>> s;
    {
      Env e;
      s.assign(src.begin(), src.end());
    }
    bool r = graph::topological_sort(cg, s, o);
    Env  e;
    s.clear();
    return r;
  }
  void invoke() {
    if (plain)
      ok = go(std::back_inserter(res));
    else
      ok = go(Out{this});
  }
  void verify(const Outcome& o) {
    if (o.threw())
      return fail("unexpected-exception", "topological_sort threw %s %s", what_name[o.what], o.msg.c_str());
    const size_t n = static_cast<size_t>(w.m.n);
    Shape        s = part(w.m, form == 0 ? nullptr : &src);
    if (ok == s.cyclic)
      return fail("cycle-report", "topological_sort returns %d on a part that is %s", ok, s.cyclic ? "cyclic" : "acyclic");
    if (!ok) {
      probe("cycle");
      if (!res.empty())
        fail("cycle-report", "topological_sort wrote output although it found a cycle");
      return;
    }
    probe("acyclic");
    std::vector<int> pos(n, -1);
    for (size_t i = 0; i < res.size(); ++i) {
      size_t v = static_cast<size_t>(res[i]);
      if (v >= n || !s.in[v] || pos[v] >= 0)
        return fail("order", "topological_sort output %zu is repeated or not in the part covered", v);
      pos[v] = static_cast<int>(i);
    }
    for (size_t v = 0; v < n; ++v)
      if (s.in[v]) {
        if (pos[v] < 0)
          return fail("order", "topological_sort doesn't output vertex %zu", v);
        for (auto& a : w.m.out[v])
          if (pos[static_cast<size_t>(a.to)] <= pos[v])
            return fail("order", "edge %zu->%d points backwards in the topological order", v, a.to);
      }
  }
};

template <class G>
void on_graph(World& w, G& g) {
  int              form = range(0, 3);
  std::vector<int> src;
  if (w.m.n == 0)
    form = form == 1 ? 0 : form;
  if (form && w.m.n) {
    int k = form == 1 ? 1 : range(0, 4);
    for (int i = 0; i < k; ++i)
      src.push_back(range(0, w.m.n - 1)); // possibly repeated
  }
  bool plain = chance(1, 4);
  drive("topological_sort", [&] { return std::make_unique<Call<G>>(w, g, src, form, plain); });
}

#ifdef TRANSPOSED
OP("topological_sort, transposed", 6, DIRECTED) {
  World rw = reversed(w);
  if (chance(1, 2)) {
    graph::views::transpose_view<BI> tv(w.bi);
    return on_graph(rw, tv);
  }
  graph::views::transpose_view<BIL> tv(w.bil);
  on_graph(rw, tv);
}
#else
OP("topological_sort", 6, DIRECTED) {
  switch (draw(6)) {
  case 1: return on_graph(w, w.vvp);
  case 2: return on_graph(w, w.vov);
  case 3: return on_graph(w, w.dofl);
  case 4: return on_graph(w, w.bil);
  case 5:
    if (w.narrow())
      return on_graph(w, w.cg8);
    if (w.has_cg)
      return on_graph(w, w.cg);
    [[fallthrough]];
  default: return on_graph(w, w.vvi);
  }
}
#endif

} // namespace
