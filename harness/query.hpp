// One abstract graph in any representation: interleaved callers ask every query of the generic interface, by descriptor
// and by id, with descriptors kept across other callers' queries and writes; each answer is compared with the model.
#pragma once
#include "world.hpp"

#include <algorithm>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>

Model draw_model(const WorldSpec& s);

namespace query {
using namespace sim;
namespace ga = graph::adj_list;

struct Machine {
  const char* name;
  bool        und;
  void (*run)(const Model&, int tasks, int ops);
};
std::vector<Machine>& machines();
struct RegisterMachine {
  RegisterMachine(const char* n, bool und, void (*f)(const Model&, int, int)) { machines().push_back({n, und, f}); }
};

// ---- vertex ids
struct Index { // 0..n-1
  static constexpr bool SPARSE = false;
  template <class Id>
  static Id id(int i) {
    return static_cast<Id>(i);
  }
};
struct Sparse { // keys of an associative container
  static constexpr bool SPARSE = true;
  template <class Id>
  static Id id(int i) {
    if constexpr (std::is_same_v<Id, std::string>)
      return std::string(1, static_cast<char>('A' + (i * 7) % 26)) + std::to_string(i); // not in order of i
    else if constexpr (sizeof(Id) == 8) // 64 bits and some negative; several agree in the lower 32
      return static_cast<Id>((static_cast<int64_t>(i) - (std::is_signed_v<Id> ? 2 : 0)) * (int64_t(1) << 33) + i / 2);
    else if constexpr (std::is_signed_v<Id>)
      return static_cast<Id>((i - 2) * 3 + 1); // some are negative
    else
      return static_cast<Id>(i * 3 + 1);
  }
};

template <class T>
concept setlike = requires { typename T::key_type; };
template <class T>
concept maplike = requires { typename T::mapped_type; };

// ---- how a representation is filled from the model (may leave out parallel edges; says which fields it has)
template <class E, class Id>
E make_edge(Id id, int w) {
  if constexpr (std::is_constructible_v<Id, E> && (std::integral<E> || std::is_same_v<E, std::string>))
    return static_cast<E>(id);
  else if constexpr (requires { std::tuple_size<E>::value; }) {
    if constexpr (std::tuple_size_v<E> == 1)
      return E{id};
    else if constexpr (std::tuple_size_v<E> == 2)
      return E{id, w};
    else
      return E{id, w, -w};
  } else
    return E{id, w};
}

// vertices and edges in the standard library's (or the caller's own) containers
template <class K>
struct Plain {
  template <class G>
  static void fill(G& g, const Model& m) {
    for (int u = 0; u < m.n; ++u) {
      auto* row = [&] {
        if constexpr (maplike<G>)
          return &g[K::template id<typename G::key_type>(u)];
        else {
          g.resize(static_cast<size_t>(m.n));
          return &g[static_cast<size_t>(u)];
        }
      }();
      using Row = std::remove_reference_t<decltype(*row)>;
      using E   = typename Row::value_type;
      auto& out = m.out[static_cast<size_t>(u)];
      auto  add = [&](const Model::Arc& a) {
        auto id = [&] {
          if constexpr (maplike<G>)
            return K::template id<typename G::key_type>(a.to);
          else
            return a.to;
        }();
        if constexpr (maplike<Row>)
          row->emplace(id, a.w);
        else if constexpr (setlike<Row>)
          row->insert(make_edge<E>(id, a.w));
        else if constexpr (requires { row->push_back(make_edge<E>(id, a.w)); })
          row->push_back(make_edge<E>(id, a.w));
        else
          row->push_front(make_edge<E>(id, a.w));
      };
      if constexpr (requires { row->before_begin(); })
        std::for_each(out.rbegin(), out.rend(), add);
      else
        std::for_each(out.begin(), out.end(), add);
    }
  }
};
// dynamic_graph: vertices loaded first, then edges
template <class K>
struct Dynamic {
  template <class G>
  static void fill(G& g, const Model& m) {
    using Id = typename G::vertex_id_type;
    std::vector<graph::copyable_vertex_t<Id, int>> vs;
    std::vector<graph::copyable_edge_t<Id, int>>   es;
    for (int u = 0; u < m.n; ++u) {
      vs.push_back({K::template id<Id>(u), u + 100});
      for (auto& a : m.out[static_cast<size_t>(u)])
        es.push_back({K::template id<Id>(u), K::template id<Id>(a.to), a.w});
    }
    g.load_vertices(vs, std::identity{}, vs.size());
    g.load_edges(es, std::identity{}, vs.size(), es.size());
  }
};
struct Compressed {
  template <class G>
  static void fill(G& g, const Model& m) {
    using Id = uint32_t;
    std::vector<graph::copyable_vertex_t<Id, int>> vs;
    std::vector<graph::copyable_edge_t<Id, int>>   es;
    for (int u = 0; u < m.n; ++u) {
      vs.push_back({static_cast<Id>(u), u + 100});
      for (auto& a : m.out[static_cast<size_t>(u)])
        es.push_back({static_cast<Id>(u), static_cast<Id>(a.to), a.w});
    }
    g.load(es, vs);
  }
};
struct Undirected {
  template <class G>
  static void fill(G& g, const Model& m) {
    for (int u = 0; u < m.n; ++u)
      g.create_vertex(u + 100);
    for (auto& e : m.e)
      g.create_edge(static_cast<Vid>(e.u), static_cast<Vid>(e.v), e.w);
  }
};

// ---- the queries
// W: edges carry a weight; DEDUP: only one edge per target is stored
template <class G, class K, class Fill, bool W, bool DEDUP>
struct Query {
  using Mut                   = std::remove_const_t<G>;
  static constexpr bool UND   = std::is_same_v<Fill, Undirected>;
  static constexpr bool CONST = std::is_const_v<G>;
  using V                     = ga::vertex_t<G>;
  using E                     = ga::edge_t<G>;
  using Id                    = ga::vertex_id_t<G>;
  using Row                   = std::vector<std::pair<int, int>>; // (target, weight)
  static constexpr bool INDEX = !K::SPARSE;
  static constexpr bool IN    = requires(G& g, V u) { ga::in_edges(g, u); } && !UND;
  static constexpr bool VV    = requires(G& g, V u) { static_cast<int>(ga::vertex_value(g, u)); } && !std::is_same_v<Fill, Plain<K>>;

  const char*          name;
  const Model&         m;
  std::unique_ptr<Mut> own;
  G*                   gp = nullptr;
  std::vector<Row>     rows, ins;
  std::vector<int>     order; // vertices in the graph's order
  std::vector<int>     vvals;
  size_t               total = 0;
  int                  gval  = 77;

  static Id id(int i) { return K::template id<Id>(i); }
  int       index(const Id& x) const {
    for (int i = 0; i < m.n; ++i)
      if (id(i) == x)
        return i;
    return -1;
  }
  G& g() { return *gp; }

  template <class T>
  static int number(const T& x) { // an edge value, whatever the representation calls a value
    if constexpr (std::is_arithmetic_v<T>)
      return static_cast<int>(x);
    else if constexpr (requires { std::tuple_size<T>::value; })
      return number(std::get<0>(x));
    else
      return number(x.weight);
  }
  int weight_of(const E& e) {
    if constexpr (W)
      return number(ga::edge_value(g(), e));
    else
      return 0;
  }

  void bad(const char* cls, const char* what, int u = -1, int v = -1) { fail(cls, "%s: %s (u %d, v %d)", name, what, u, v); }

  // what the representation holds, against the model
  void snapshot() {
    size_t n = static_cast<size_t>(m.n);
    rows.assign(n, {}), ins.assign(n, {}), order.clear();
    total = 0;
    for (auto&& u : ga::vertices(g())) {
      int i = index(ga::vertex_id(g(), u));
      if (i < 0)
        return bad("vertices", "an id that was never stored is listed");
      order.push_back(i);
      if (order.size() > n)
        return bad("vertices", "more vertices are listed than were stored");
      for (auto&& e : ga::edges(g(), u)) {
        rows[static_cast<size_t>(i)].push_back({index(ga::target_id(g(), e)), weight_of(e)});
        if (rows[static_cast<size_t>(i)].size() > 4096 + m.e.size() * 2)
          return bad("edges", "the edges of a vertex don't end", i);
      }
      if constexpr (IN)
        for (auto&& e : ga::in_edges(g(), u))
          ins[static_cast<size_t>(i)].push_back({index(ga::source_id(g(), e)), 0});
    }
    auto s = order;
    std::sort(s.begin(), s.end());
    for (size_t i = 0; i < n; ++i)
      if (s.size() != n || s[i] != static_cast<int>(i))
        return bad("vertices", "the vertices listed aren't the ones stored");
    if (INDEX && order != s)
      return bad("vertices", "the vertices aren't listed in the order of their ids");
    for (size_t i = 0; i < n; ++i) {
      Row have = rows[i], want;
      for (auto& a : m.out[i])
        want.push_back({a.to, W ? a.w : 0});
      total += have.size();
      if constexpr (DEDUP) {
        for (auto& h : have)
          if (std::find(want.begin(), want.end(), h) == want.end())
            return bad("edges", "an edge is listed that was never stored", static_cast<int>(i), h.first);
        auto drop = [](Row& r) {
          for (auto& x : r)
            x.second = 0;
          std::sort(r.begin(), r.end());
        };
        drop(have), drop(want);
        want.erase(std::unique(want.begin(), want.end()), want.end());
      }
      std::sort(have.begin(), have.end()), std::sort(want.begin(), want.end());
      if (have != want)
        return bad("edges", "the edges listed aren't the ones stored", static_cast<int>(i));
    }
    if constexpr (IN)
      for (size_t i = 0; i < n; ++i) {
        std::vector<int> have, want;
        for (auto& x : ins[i])
          have.push_back(x.first);
        for (size_t u = 0; u < n; ++u)
          for (auto& x : rows[u])
            if (x.first == static_cast<int>(i))
              want.push_back(static_cast<int>(u));
        std::sort(have.begin(), have.end());
        if (have != want)
          return bad("in-edges", "the incoming edges listed aren't the ones stored", static_cast<int>(i));
      }
    vvals.clear();
    for (int i = 0; i < m.n; ++i)
      vvals.push_back(i + 100);
  }

  // ---- one caller
  struct Caller {
    Query&                                     q;
    std::vector<std::pair<V, int>>             vs; // descriptors kept for later
    std::vector<std::pair<E, std::pair<int, int>>> es; // with (vertex, position)

    int vertex() { return static_cast<int>(draw(static_cast<uint32_t>(q.m.n))); }
    const std::pair<int, int>& at(int u, int j) const { return q.rows[static_cast<size_t>(u)][static_cast<size_t>(j)]; }
    int deg(int u) const { return static_cast<int>(q.rows[static_cast<size_t>(u)].size()); }
    V   desc(int u) { // fresh, or kept from before
      for (auto& [v, i] : vs)
        if (i == u && draw(2))
          return v;
      auto it = ga::find_vertex(q.g(), id(u));
      if (it == std::ranges::end(ga::vertices(q.g()))) {
        q.bad("find_vertex", "a stored vertex isn't found", u);
        return V(*it);
      }
      return *it;
    }
    template <class A, class B>
    void same(const char* cls, const char* what, const A& a, const B& b, int u = -1, int v = -1) {
      if (failed())
        return;
      if constexpr (std::is_arithmetic_v<A> && std::is_arithmetic_v<B>) {
        if (static_cast<long long>(a) != static_cast<long long>(b))
          fail(cls, "%s: %s is %lld instead of %lld (u %d, v %d)", q.name, what, static_cast<long long>(a), static_cast<long long>(b), u, v);
      } else if (!(a == b))
        q.bad(cls, what, u, v);
    }
    void check_edge(const E& e, int u, int j) {
      auto [t, w] = at(u, j);
      same("target_id", "target_id", q.index(ga::target_id(q.g(), e)), t, u, t);
      same("source_id", "source_id", q.index(ga::source_id(q.g(), e)), u, u, t);
      if constexpr (W)
        same("edge_value", "edge_value", q.weight_of(e), w, u, t);
      if constexpr (requires { ga::target(q.g(), e); })
        same("target", "target(g,uv) isn't the vertex of its id", q.index(ga::vertex_id(q.g(), V(ga::target(q.g(), e)))), t, u, t);
      if constexpr (requires { ga::source(q.g(), e); })
        same("source", "source(g,uv) isn't the vertex of its id", q.index(ga::vertex_id(q.g(), V(ga::source(q.g(), e)))), u, u, t);
    }
    template <class R>
    void walk(R&& r, int u, bool keep) {
      int  j = 0, stop = draw(4) ? -1 : static_cast<int>(draw(4));
      auto end = std::ranges::end(r);
      for (auto it = std::ranges::begin(r); it != end; ++it, ++j) {
        if (j == stop)
          return;
        if (j >= deg(u))
          return q.bad("edges", "more edges than before", u);
        E e = *it;
        check_edge(e, u, j);
        if (keep && draw(3) == 0)
          es.push_back({e, {u, j}});
        if (draw(3) == 0)
          yield();
        if (failed())
          return;
      }
      same("edges", "the number of edges listed", j, deg(u), u);
      if constexpr (std::ranges::sized_range<R>)
        same("edges", "size(edges)", std::ranges::size(r), deg(u), u);
    }

    // the ranges of descriptors themselves: several passes, positions, copies, a part of a range as a range
    template <class R>
    void protocol(const char* what, R&& r, int u, size_t n) {
      using D   = std::ranges::range_value_t<R>;
      auto  end = std::ranges::end(r);
      auto  pos = [&](size_t k) { return std::ranges::next(std::ranges::begin(r), static_cast<std::ptrdiff_t>(k)); };
      size_t i = draw(static_cast<uint32_t>(n + 1)), j = draw(static_cast<uint32_t>(n + 1));
      auto   a = pos(i), b = pos(j);
      same("iteration", what, a == b, i == j, u);
      same("iteration", what, a != b, i != j, u);
      same("iteration", what, a == end, i == n, u);
      same("iteration", what, std::ranges::distance(std::ranges::begin(r), end), n, u);
      auto copy = a;
      if (i < n) {
        D    at  = *a;
        auto old = copy++;
        same("iteration", what, *old == at, true, u);
        same("iteration", what, old == a && copy != a && copy == pos(i + 1), true, u);
        yield();
        same("iteration", what, *a == at && D(*a++) == at && a == copy, true, u);
        a = pos(i);
      }
      copy = b; // assigned
      same("iteration", what, copy == b, true, u);
      auto whole = r;
      same("iteration", what, std::ranges::distance(std::ranges::begin(whole), std::ranges::end(whole)), n, u);
      if constexpr (requires { r.cbegin() == r.cend(); })
        same("iteration", what, r.cbegin() == r.begin() && r.cend() == r.end(), true, u);
      if (failed())
        return;
      if (i > j)
        std::swap(i, j);
      using Range = std::remove_cvref_t<R>;
      auto part   = [&](const Range& x) {
        size_t k = i;
        for (auto&& d : x) {
          if (k >= j)
            return same("iteration", "a part of a range of descriptors is too long", k, j, u);
          same("iteration", "an element of a part of a range of descriptors", D(d) == D(*pos(k)), true, u);
          ++k;
        }
        same("iteration", "the length of a part of a range of descriptors", k, j, u);
        same("iteration", "the size of a part of a range of descriptors", x.size(), j - i, u);
      };
      if constexpr (requires(D d) { Range(d.value(), d.value()); })
        part(Range((*pos(i)).value(), (*pos(j)).value()));
      if constexpr (requires(D d) { Range(d.value(), d.value(), d.source()); })
        if (i < n)
          part(Range((*pos(i)).value(), (*pos(j)).value(), (*pos(i)).source()));
      if constexpr (std::is_default_constructible_v<Range> && requires { r.size(); }) {
        Range x;
        x = r;
        same("iteration", "the size of an assigned range", x.size(), n, u);
      }
    }
    // the elements of the caller's containers, reached through descriptors
    void members() {
      if constexpr (std::is_same_v<Fill, Plain<K>>) {
        auto&       g = q.g();
        const auto& cg = g;
        int         u = vertex();
        V           d = desc(u);
        auto&       node = [&]() -> auto& {
          if constexpr (maplike<Mut>)
            return g.at(id(u));
          else
            return g[static_cast<size_t>(u)];
        }();
        const void* at = &node;
        same("descriptor", "inner_value of a vertex isn't its row", static_cast<const void*>(&d.inner_value(g)) == at, true, u);
        same("descriptor", "inner_value of a vertex of a const graph isn't its row", static_cast<const void*>(&d.inner_value(cg)) == at, true, u);
        same("descriptor", "vertex_id() of a descriptor", q.index(d.vertex_id()), u, u);
        auto row = [&](auto&& x) -> const void* {
          if constexpr (maplike<Mut>)
            return &x.second;
          else
            return &x;
        };
        same("descriptor", "underlying_value of a vertex isn't its element", row(d.underlying_value(g)) == at, true, u);
        same("descriptor", "underlying_value of a vertex of a const graph isn't its element", row(d.underlying_value(cg)) == at, true, u);
        same("descriptor", "a vertex made from its value()", V(d.value()) == d, true, u);
        if (!deg(u))
          return;
        int         j = static_cast<int>(draw(static_cast<uint32_t>(deg(u))));
        E           e = *std::ranges::next(std::ranges::begin(ga::edges(g, d)), j);
        const auto& el = *std::next(node.begin(), j);
        const auto& cnode = node;
        same("descriptor", "underlying_value of an edge isn't its element", static_cast<const void*>(&e.underlying_value(node)) == &el, true, u, j);
        same("descriptor", "underlying_value of an edge of a const row isn't its element", static_cast<const void*>(&e.underlying_value(cnode)) == &el, true, u, j);
        same("descriptor", "source() of an edge", e.source() == d, true, u, j);
        same("descriptor", "an edge made from its value()", E(e.value(), e.source()) == e, true, u, j);
        if constexpr (requires { el.second; }) {
          same("descriptor", "inner_value of an edge isn't its value", static_cast<const void*>(&e.inner_value(node)) == &el.second, true, u, j);
          same("descriptor", "inner_value of an edge of a const row isn't its value", static_cast<const void*>(&e.inner_value(cnode)) == &el.second, true, u, j);
        } else if constexpr (requires { std::tuple_size<std::remove_cvref_t<decltype(el)>>::value; }) {
          constexpr size_t ts = std::tuple_size_v<std::remove_cvref_t<decltype(el)>>;
          if constexpr (ts > 2) {
            auto check = [&](auto&& t, const char* what) {
              same("descriptor", what, static_cast<const void*>(&std::get<0>(t)) == &std::get<1>(el), true, u, j);
              same("descriptor", what, static_cast<const void*>(&std::get<1>(t)) == &std::get<2>(el), true, u, j);
            };
            check(e.inner_value(node), "inner_value of an edge aren't its values");
            check(e.inner_value(cnode), "inner_value of an edge of a const row aren't its values");
          } else {
            same("descriptor", "inner_value of an edge isn't its value", static_cast<const void*>(&e.inner_value(node)) == &std::get<ts - 1>(el), true, u, j);
            same("descriptor", "inner_value of an edge of a const row isn't its value", static_cast<const void*>(&e.inner_value(cnode)) == &std::get<ts - 1>(el), true, u, j);
          }
        } else {
          same("descriptor", "inner_value of an edge isn't its element", static_cast<const void*>(&e.inner_value(node)) == &el, true, u, j);
          same("descriptor", "inner_value of an edge of a const row isn't its element", static_cast<const void*>(&e.inner_value(cnode)) == &el, true, u, j);
        }
      }
    }
    // descriptors as keys: every element is one key, found again by a descriptor obtained later
    template <class S, class R>
    static void keep_all(S& set, R&& r) {
      for (auto&& d : r)
        set.insert(d);
    }

    void step() {
      auto&     g = q.g();
      const int n = q.m.n;
      switch (draw(17)) {
      case 0: { // all vertices
        auto   r = ga::vertices(g);
        size_t k = 0;
        for (auto it = std::ranges::begin(r); it != std::ranges::end(r); ++it, ++k) {
          if (k >= q.order.size())
            return q.bad("vertices", "more vertices than before");
          V u = *it;
          same("vertex_id", "vertex_id", q.index(ga::vertex_id(g, u)), q.order[k]);
          if (draw(4) == 0)
            vs.push_back({u, q.order[k]});
          if (draw(4) == 0)
            yield();
        }
        same("vertices", "the number of vertices listed", k, q.order.size());
        break;
      }
      case 1:
        same("num_vertices", "num_vertices", ga::num_vertices(g), n);
        same("has_edges", "has_edges", ga::has_edges(g), q.total > 0);
        if constexpr (UND)
          same("num_edges", "num_edges", ga::num_edges(g), q.m.e.size());
        else if constexpr (!DEDUP || std::is_same_v<Fill, Plain<K>>)
          same("num_edges", "num_edges", ga::num_edges(g), q.total);
        if constexpr (requires { std::ranges::size(ga::vertices(g)); })
          same("vertices", "size(vertices)", std::ranges::size(ga::vertices(g)), n);
        break;
      case 2: {
        if constexpr (requires { ga::num_partitions(g); }) {
          same("partitions", "num_partitions", ga::num_partitions(g), 1);
          if constexpr (requires(V u) { ga::partition_id(g, u); })
            if (n) {
              V u = desc(vertex());
              same("partitions", "partition_id", ga::partition_id(g, u), 0);
            }
          if constexpr (requires { ga::num_vertices(g, 0); })
            same("partitions", "num_vertices(g,0)", ga::num_vertices(g, 0), n);
          if constexpr (requires { ga::vertices(g, 0); }) {
            size_t k = 0;
            for (auto&& u : ga::vertices(g, 0)) {
              if (k >= q.order.size())
                return q.bad("partitions", "vertices(g,0) lists too many");
              same("partitions", "vertices(g,0)", q.index(ga::vertex_id(g, u)), q.order[k++]);
            }
            same("partitions", "the number of vertices(g,0)", k, q.order.size());
          }
          if constexpr (!std::is_same_v<Fill, Compressed>) { // one partition holds everything, any other nothing
            int p = range(1, 3);
            if constexpr (requires { ga::num_vertices(g, p); })
              same("partitions", "num_vertices(g,pid) of an empty partition", ga::num_vertices(g, p), 0);
            if constexpr (requires { ga::vertices(g, p); }) {
              auto r = ga::vertices(g, p);
              same("partitions", "vertices(g,pid) of an empty partition", r.begin() == r.end(), true);
            }
          }
        }
        break;
      }
      default: break;
      case 13: {
        protocol("the iterators of vertices", ga::vertices(g), -1, q.order.size());
        break;
      }
      case 14: {
        if (!n)
          break;
        int u = vertex();
        V   d = desc(u);
        if (draw(3)) {
          if constexpr (requires { ga::edges(g, id(u)); })
            if (draw(2)) {
              protocol("the iterators of edges", ga::edges(g, id(u)), u, static_cast<size_t>(deg(u)));
              break;
            }
          protocol("the iterators of edges", ga::edges(g, d), u, static_cast<size_t>(deg(u)));
        } else if constexpr (IN) {
          if (draw(2))
            protocol("the iterators of incoming edges", ga::in_edges(g, d), u, q.ins[static_cast<size_t>(u)].size());
          else
            protocol("the iterators of incoming edges", ga::in_edges(g, id(u)), u, q.ins[static_cast<size_t>(u)].size());
        }
        break;
      }
      case 15:
        if (n)
          members();
        break;
      case 16: {
        if (!n)
          break;
        std::unordered_set<V> us;
        keep_all(us, ga::vertices(g));
        yield();
        int u = vertex();
        same("descriptor", "the number of vertex descriptors in a set", us.size(), q.order.size());
        same("descriptor", "a vertex descriptor in a set", us.contains(desc(u)), true, u);
        std::unordered_set<E> xs;
        for (auto&& v : ga::vertices(g))
          keep_all(xs, ga::edges(g, v));
        same("descriptor", "the number of edge descriptors in a set", xs.size(), q.total);
        for (auto&& e : ga::edges(g, desc(u)))
          same("descriptor", "an edge descriptor in a set", xs.contains(e), true, u);
        if constexpr (IN) {
          using IE = std::remove_cvref_t<decltype(*std::ranges::begin(ga::in_edges(g, desc(u))))>;
          std::unordered_set<IE> is;
          keep_all(is, ga::in_edges(g, desc(u)));
          same("descriptor", "the number of incoming edge descriptors in a set", is.size(), q.ins[static_cast<size_t>(u)].size(), u);
          for (auto&& e : ga::in_edges(g, id(u)))
            same("descriptor", "an incoming edge descriptor in a set", is.contains(e), true, u);
        }
        break;
      }
      case 3: { // edges by descriptor or id
        if (!n)
          break;
        int u = vertex();
        if constexpr (requires { ga::edges(g, id(u)); })
          if (draw(2)) {
            walk(ga::edges(g, id(u)), u, true);
            break;
          }
        walk(ga::edges(g, desc(u)), u, true);
        break;
      }
      case 4: {
        if (!n)
          break;
        int u = vertex();
        V   d = desc(u);
        if constexpr (requires { ga::degree(g, d); })
          same("degree", "degree(g,u)", ga::degree(g, d), deg(u), u);
        if constexpr (requires { ga::degree(g, id(u)); })
          same("degree", "degree(g,uid)", ga::degree(g, id(u)), deg(u), u);
        if constexpr (requires { ga::num_edges(g, d); })
          same("num_edges", "num_edges(g,u)", ga::num_edges(g, d), deg(u), u);
        if constexpr (requires { ga::num_edges(g, id(u)); })
          same("num_edges", "num_edges(g,uid)", ga::num_edges(g, id(u)), deg(u), u);
        break;
      }
      case 5:
      case 6: { // lookup of an edge
        if (!n)
          break;
        int  u = vertex(), v = vertex();
        bool there = false;
        for (int j = 0; j < deg(u); ++j)
          there |= at(u, j).first == v;
        V du = desc(u), dv = desc(v);
        if constexpr (requires { ga::contains_edge(g, id(u), id(v)); })
          same("contains_edge", "contains_edge(g,uid,vid)", bool(ga::contains_edge(g, id(u), id(v))), there, u, v);
        if constexpr (requires { ga::contains_edge(g, du, dv); })
          same("contains_edge", "contains_edge(g,u,v)", bool(ga::contains_edge(g, du, dv)), there, u, v);
        auto found = [&](const char* what, auto&& e) {
          if constexpr (std::is_convertible_v<decltype(e), E>) {
            E    x   = e;
            bool any = false; // one of the parallel edges
            if (there) {
              same("find_vertex_edge", what, q.index(ga::target_id(g, x)), v, u, v);
              same("find_vertex_edge", what, q.index(ga::source_id(g, x)), u, u, v);
              if constexpr (W) {
                for (int j = 0; j < deg(u); ++j)
                  any |= at(u, j).first == v && at(u, j).second == q.weight_of(x);
                if (!any)
                  q.bad("find_vertex_edge", "the edge found has a value no such edge has", u, v);
              }
              any = false;
              for (auto&& y : ga::edges(g, du))
                any |= E(y) == x;
              if (!any)
                q.bad("find_vertex_edge", "the edge found isn't among the edges of its source", u, v);
            } else {
              for (auto&& y : ga::edges(g, du))
                any |= E(y) == x;
              if (any)
                q.bad("find_vertex_edge", "an edge is found that isn't there", u, v);
            }
          }
        };
        if constexpr (!UND) { // the same questions asked from the target
          if constexpr (requires { ga::contains_in_edge(g, id(v), id(u)); })
            same("contains_in_edge", "contains_in_edge(g,vid,uid)", bool(ga::contains_in_edge(g, id(v), id(u))), there, v, u);
          if constexpr (requires { ga::contains_in_edge(g, dv, du); })
            same("contains_in_edge", "contains_in_edge(g,v,u)", bool(ga::contains_in_edge(g, dv, du)), there, v, u);
          if (there) {
            if constexpr (requires { ga::find_in_edge(g, dv, du); })
              found("find_in_edge(g,v,u)", ga::find_in_edge(g, dv, du));
            if constexpr (requires { ga::find_in_edge(g, dv, id(u)); })
              found("find_in_edge(g,v,uid)", ga::find_in_edge(g, dv, id(u)));
            if constexpr (requires { ga::find_in_edge(g, id(v), id(u)); })
              found("find_in_edge(g,vid,uid)", ga::find_in_edge(g, id(v), id(u)));
          }
        }
        // what is returned for a missing edge has no value to look at where edges have no past-the-end descriptor
        if (there || !UND) {
          if constexpr (requires { ga::find_vertex_edge(g, du, dv); })
            found("find_vertex_edge(g,u,v)", ga::find_vertex_edge(g, du, dv));
          if constexpr (requires { ga::find_vertex_edge(g, du, id(v)); })
            found("find_vertex_edge(g,u,vid)", ga::find_vertex_edge(g, du, id(v)));
          if constexpr (requires { ga::find_vertex_edge(g, id(u), id(v)); })
            found("find_vertex_edge(g,uid,vid)", ga::find_vertex_edge(g, id(u), id(v)));
        }
        break;
      }
      case 7: { // descriptors against each other
        if (!n)
          break;
        int  u = vertex(), v = vertex();
        V    a = desc(u), b = desc(v);
        same("descriptor", "vertex descriptors' equality", a == b, u == v, u, v);
        same("descriptor", "vertex descriptors' inequality", a != b, u != v, u, v);
        if (u == v)
          same("descriptor", "hashes of equal vertex descriptors", std::hash<V>{}(a) == std::hash<V>{}(b), true, u);
        if constexpr (requires { a < b; }) {
          same("descriptor", "vertex descriptors' order", a < b, u < v, u, v);
          same("descriptor", "vertex descriptors' order", (a <=> b) > 0, u > v, u, v);
        }
        V c = b;
        c   = a;
        same("vertex_id", "vertex_id of a copy", q.index(ga::vertex_id(g, c)), u, u);
        // ++ goes to the next vertex
        size_t k = static_cast<size_t>(std::find(q.order.begin(), q.order.end(), u) - q.order.begin());
        if (k + 1 < q.order.size()) {
          V old = c++;
          same("descriptor", "a vertex descriptor's x++", old == a, true, u);
          same("descriptor", "the next vertex descriptor", q.index(ga::vertex_id(g, c)), q.order[k + 1], u);
        }
        break;
      }
      case 8: { // edge descriptors kept earlier
        if (es.empty())
          break;
        auto& [e, at1] = es[draw(static_cast<uint32_t>(es.size()))];
        auto& [f, at2] = es[draw(static_cast<uint32_t>(es.size()))];
        check_edge(e, at1.first, at1.second);
        same("descriptor", "edge descriptors' equality", e == f, at1 == at2, at1.first, at2.first);
        if (at1 == at2)
          same("descriptor", "hashes of equal edge descriptors", std::hash<E>{}(e) == std::hash<E>{}(f), true, at1.first);
        if constexpr (requires { e < f; })
          if (at1.first == at2.first)
            same("descriptor", "edge descriptors' order", e < f, at1.second < at2.second, at1.first);
        E c = e;
        if (at1.second + 1 < deg(at1.first)) {
          ++c;
          check_edge(c, at1.first, at1.second + 1);
        }
        break;
      }
      case 9: { // a write, seen by everyone
        if constexpr (W && !CONST && !UND) {
          if (!n)
            break;
          int u = vertex();
          if (!deg(u))
            break;
          int  j = static_cast<int>(draw(static_cast<uint32_t>(deg(u)))), w = range(0, 1000);
          E    e = *std::ranges::next(std::ranges::begin(ga::edges(g, desc(u))), j);
          auto&& val = ga::edge_value(g, e);
          using T    = std::remove_reference_t<decltype(val)>;
          if constexpr (std::is_assignable_v<decltype(val), int>)
            val = w;
          else if constexpr (requires { val.weight = w; })
            val.weight = w;
          else if constexpr (requires { std::get<0>(val) = w; })
            std::get<0>(val) = w;
          else
            break;
          q.rows[static_cast<size_t>(u)][static_cast<size_t>(j)].second = w;
        }
        break;
      }
      case 10: { // vertex and graph values
        if constexpr (requires { ga::graph_value(g) == 1; }) {
          same("graph_value", "graph_value", int(ga::graph_value(g)), q.gval);
          if constexpr (requires { ga::graph_value(g) = 1; })
            if (draw(2))
              ga::graph_value(g) = q.gval = range(0, 1000);
        }
        if constexpr (VV) {
          if (!n)
            break;
          int u = vertex();
          V   d = desc(u);
          same("vertex_value", "vertex_value", int(ga::vertex_value(g, d)), q.vvals[static_cast<size_t>(u)], u);
          if constexpr (requires { ga::vertex_value(g, d) = 1; })
            if (draw(2))
              ga::vertex_value(g, d) = q.vvals[static_cast<size_t>(u)] = range(0, 1000);
        }
        break;
      }
      case 11: { // ids that aren't there
        if constexpr (!INDEX) {
          Id absent = K::template id<Id>(n + 1);
          if constexpr (!std::is_same_v<Id, std::string> && sizeof(Id) == 8)
            absent = static_cast<Id>(id(n ? vertex() : 0) + (draw(2) ? 1 : int64_t(1) << 40));
          else if constexpr (!std::is_same_v<Id, std::string>)
            absent = static_cast<Id>(draw(2) ? 3 * n + 2 : 0);
          if (!(ga::find_vertex(g, absent) == std::ranges::end(ga::vertices(g))))
            q.bad("find_vertex", "an absent vertex is found");
        }
        if (!n)
          break;
        int u = vertex();
        if constexpr (requires { ga::contains_edge(g, id(u), id(n)); })
          same("contains_edge", "contains_edge(g,uid,absent)", bool(ga::contains_edge(g, id(u), id(n))), false, u, n);
        break;
      }
      case 12: { // incoming edges
        if constexpr (IN) {
          if (!n)
            break;
          int  u = vertex(), v = vertex();
          V    du  = desc(u);
          auto din = q.ins[static_cast<size_t>(u)].size();
          same("in_degree", "in_degree(g,u)", ga::in_degree(g, du), din, u);
          same("in_degree", "in_degree(g,uid)", ga::in_degree(g, id(u)), din, u);
          size_t j = 0;
          for (auto&& e : ga::in_edges(g, id(u))) {
            if (j >= din)
              return q.bad("in-edges", "more incoming edges than before", u);
            same("in-edges", "source_id of an incoming edge", q.index(ga::source_id(g, e)), q.ins[static_cast<size_t>(u)][j].first, u);
            same("in-edges", "target_id of an incoming edge", q.index(ga::target_id(g, e)), u, u);
            same("in-edges", "source of an incoming edge", q.index(ga::vertex_id(g, V(ga::source(g, e)))), q.ins[static_cast<size_t>(u)][j].first, u);
            same("in-edges", "target of an incoming edge", q.index(ga::vertex_id(g, V(ga::target(g, e)))), u, u);
            ++j;
            if (draw(3) == 0)
              yield();
          }
          same("in-edges", "the number of incoming edges", j, din, u);
          bool there = false;
          for (auto& x : q.ins[static_cast<size_t>(u)])
            there |= x.first == v;
          same("in-edges", "contains_in_edge", bool(ga::contains_in_edge(g, id(u), id(v))), there, u, v);
          if (there)
            same("in-edges", "find_in_edge", q.index(ga::source_id(g, ga::find_in_edge(g, id(u), id(v)))), v, u, v);
        }
        break;
      }
      }
    }
  };

  Query(const char* n, const Model& model) : name(n), m(model) {}

  static void run(const char* name, const Model& m, int tasks, int ops) {
    std::optional<Query> q(std::in_place, name, m);
    q->own = std::make_unique<Mut>();
    Fill::fill(*q->own, m);
    q->gp = q->own.get();
    if constexpr (requires { ga::graph_value(*q->own) = 1; })
      ga::graph_value(*q->own) = q->gval;
    q->snapshot();
    for (int t = 0; t < tasks; ++t)
      spawn([&q, ops] {
        Caller c{*q, {}, {}};
        for (int i = 0; i < ops && !failed(); ++i) {
          auto o = attempt([&] { c.step(); });
          ev(0x0F14, static_cast<uint64_t>(i));
          if (o.threw() && !failed())
            fail("unexpected-exception", "%s: a query threw %s %s", q->name, what_name[o.what], o.msg.c_str());
          yield();
        }
      });
    run_tasks();
  }
};
} // namespace query

// QUERY(name, graph type, id kind, how it is filled, weighted, one edge per target)
#define QUERY(NAME, G, K, FILL, W, DEDUP)                                                                              \
  static query::RegisterMachine SIM_CAT(qm_, __LINE__)(NAME, std::is_same_v<query::FILL, query::Undirected>,           \
                                                       [](const Model& m, int t, int o) {                              \
                                                         query::Query<G, query::K, query::FILL, W, DEDUP>::run(NAME, m, t, o); \
                                                       });
