// Edge lists: the model's edges as a range of tuples, pairs, edge_data, edge-list descriptors, or the caller's own edge
// or list type. Interleaved callers ask the source, target and value of every edge, through lvalues, const references
// and values made on the fly, and compare and order descriptors. The caller's own operations are seams and may throw.
#include "query.hpp"

#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>

namespace query {
namespace lists {
namespace gel = graph::edge_list;

template <class Id>
Id name_of(int i) {
  return Sparse::id<Id>(i);
}

template <class Id>
struct OwnFields {
  Id  source_id, target_id;
  int value;
};
template <class Id>
struct OwnMembers { // ids found by argument-dependent lookup, the value by a member function
  Id          s, t;
  int         w = 0;
  int&        value() { return Callback(true), w; }
  const int&  value() const { return Callback(true), w; }
};
template <class L, class Id>
Id source_id(const L&, const OwnMembers<Id>& e) {
  Callback c(true);
  return e.s;
}
template <class L, class Id>
Id target_id(const L&, const OwnMembers<Id>& e) {
  Callback c(true);
  return e.t;
}
template <class Id>
struct Opaque { // only its list knows what it is
  Id  s, t;
  int w;
};
template <class Id>
struct OwnList : std::deque<Opaque<Id>> {
  Id source_id(const Opaque<Id>& e) const {
    Callback c(true);
    return e.s;
  }
  int edge_value(const Opaque<Id>& e) const {
    Callback c(true);
    return e.w;
  }
};
template <class Id>
Id target_id(const OwnList<Id>&, const Opaque<Id>& e) {
  Callback c(true);
  return e.t;
}

// K: how an element is made from ids and a value; what they refer to must outlive it (descriptors refer to it)
template <class Id> struct KTuple { using L = std::vector<std::tuple<Id, Id, int>>; static auto make(const Id& s, const Id& t, int& w) { return std::tuple<Id, Id, int>(s, t, w); } };
template <class Id> struct KWide { using L = std::deque<std::tuple<Id, Id, int, long>>; static auto make(const Id& s, const Id& t, int& w) { return std::tuple<Id, Id, int, long>(s, t, w, -1); } };
template <class Id> struct KTwo { using L = std::list<std::tuple<Id, Id>>; static auto make(const Id& s, const Id& t, int&) { return std::tuple<Id, Id>(s, t); } };
template <class Id> struct KPair { using L = std::forward_list<std::pair<Id, Id>>; static auto make(const Id& s, const Id& t, int&) { return std::pair<Id, Id>(s, t); } };
template <class Id> struct KData { using L = std::vector<graph::edge_data<Id, true, void, int>>; static auto make(const Id& s, const Id& t, int& w) { return graph::edge_data<Id, true, void, int>{s, t, w}; } };
template <class Id> struct KBare { using L = std::list<graph::edge_data<Id, true, void, void>>; static auto make(const Id& s, const Id& t, int&) { return graph::edge_data<Id, true, void, void>{s, t}; } };
template <class Id> struct KDesc { using L = std::list<gel::edge_descriptor<Id, int>>; static auto make(const Id& s, const Id& t, int& w) { return gel::edge_descriptor<Id, int>(s, t, w); } };
template <class Id> struct KRef { using L = std::list<gel::edge_descriptor<Id, void>>; static auto make(const Id& s, const Id& t, int&) { return gel::edge_descriptor<Id, void>(s, t); } };
template <class Id> struct KFields { using L = std::deque<OwnFields<Id>>; static auto make(const Id& s, const Id& t, int& w) { return OwnFields<Id>{s, t, w}; } };
template <class Id> struct KMembers { using L = std::vector<OwnMembers<Id>>; static auto make(const Id& s, const Id& t, int& w) { return OwnMembers<Id>{s, t, w}; } };
template <class Id> struct KList { using L = OwnList<Id>; static auto make(const Id& s, const Id& t, int& w) { return Opaque<Id>{s, t, w}; } };

template <class K, class Id>
struct Machine {
  using L                = typename K::L;
  using E                = std::ranges::range_value_t<L>;
  static constexpr bool HASW = gel::has_edge_value<L>;
  static_assert(gel::basic_sourced_edgelist<L>);
  static_assert(gel::basic_sourced_index_edgelist<L> == std::integral<Id>);
  static_assert(std::same_as<gel::vertex_id_t<L>, Id>);
  static constexpr bool DESC = requires(const E& e) { e <=> e; } && gel::is_edge_list_descriptor_v<E>;

  struct Row {
    Id     s, t;
    int    w;
    double d;
  };
  const char*              name;
  std::deque<Row>          rows; // never moves
  L                        el;
  std::vector<std::pair<int, std::ranges::iterator_t<L>>> held; // of any caller

  Machine(const char* nm, const Model& m) : name(nm) {
    for (int u = 0; u < m.n; ++u)
      for (auto& a : m.out[static_cast<size_t>(u)])
        rows.push_back({name_of<Id>(u), name_of<Id>(a.to), a.w, a.w * 0.5});
    if constexpr (requires { el.before_begin(); }) {
      auto at = el.before_begin();
      for (auto& r : rows)
        at = el.insert_after(at, K::make(r.s, r.t, r.w));
    } else
      for (auto& r : rows)
        el.push_back(K::make(r.s, r.t, r.w));
  }
  template <class F, class W>
  void ask(const char* what, F&& f, const W& want, int k) {
    bool armed = g_fault_percent && chance(static_cast<uint32_t>(g_fault_percent), 100);
    if (armed)
      arm(K_CALLBACK, 1);
    bool    same = true;
    Outcome o    = attempt([&] { same = f() == want; });
    bool    hit  = armed && disarm();
    ev(0x0F17, static_cast<uint64_t>(k), same);
    if (hit ? o.what != W_INJECTED : o.threw())
      return fail(hit ? "fault-swallowed" : "unexpected-exception", "%s: %s of edge %d -> %s %s", name, what, k, what_name[o.what], o.msg.c_str());
    if (!o.threw() && !same)
      fail("edge-list-answer", "%s: %s of edge %d is not what the list holds", name, what, k);
  }
  template <class List, class Edge>
  void about(List& l, Edge& e, int k) {
    Row& r = rows[static_cast<size_t>(k)];
    switch (draw(3)) {
    case 0: ask("source_id", [&] { return Id(graph::source_id(l, e)); }, r.s, k); break;
    case 1: ask("target_id", [&] { return Id(graph::target_id(l, e)); }, r.t, k); break;
    default:
      if constexpr (HASW)
        ask("edge_value", [&] { return int(graph::edge_value(l, e)); }, r.w, k);
    }
  }
  bool sampled(int k) const { return rows.size() < 64 || k % int(rows.size() / 32) == 0; }
  void step() {
    const int n = static_cast<int>(rows.size());
    switch (draw(7)) {
    case 0: { // all of them, by what the iterator gives
      int k = 0;
      for (auto&& e : el) {
        if (sampled(k++)) {
          about(el, e, k - 1);
          if (failed())
            return;
          sim::yield();
        }
      }
      if (k != n)
        fail("edge-list-answer", "%s: %d edges of %d", name, k, n);
      return;
    }
    case 1: { // all of them, const
      int k = 0;
      for (auto& e : std::as_const(el)) {
        if (sampled(k++)) {
          about(std::as_const(el), e, k - 1);
          if (failed())
            return;
          sim::yield();
        }
      }
      return;
    }
    case 2: { // made on the fly; asked as values
      auto made = rows | std::views::transform([](Row& r) { return K::make(r.s, r.t, r.w); });
      if constexpr (!std::same_as<L, OwnList<Id>>) {
        using M = decltype(made);
        static_assert(gel::basic_sourced_edgelist<M> && gel::has_edge_value<M> == HASW);
        int k = 0;
        for (auto it = made.begin(); it != made.end() && !failed(); ++it, ++k) {
          if (!sampled(k))
            continue;
          Row& r = rows[static_cast<size_t>(k)];
          ask("source_id of a value", [&] { return Id(graph::source_id(made, *it)); }, r.s, k);
          ask("target_id of a value", [&] { return Id(graph::target_id(made, *it)); }, r.t, k);
          if constexpr (HASW)
            ask("edge_value of a value", [&] {
              const int w = r.w; // what it is made with
              return int(graph::edge_value(made, *it)) == w;
            }, true, k);
        }
      }
      return;
    }
    case 3: // keep one
      if (n && held.size() < 16) {
        int k = static_cast<int>(draw(static_cast<uint32_t>(n)));
        held.emplace_back(k, std::ranges::next(el.begin(), k));
      }
      return;
    case 4:
      if (held.size()) {
        auto [k, it] = held[draw(static_cast<uint32_t>(held.size()))];
        about(el, *it, k);
      }
      return;
    case 5: // write through one
      if constexpr (HASW)
        if constexpr (requires(E& e) { graph::edge_value(el, e) = 1; })
          if (held.size() && !g_fault_percent) {
            auto [k, it] = held[draw(static_cast<uint32_t>(held.size()))];
            Row&  r = rows[static_cast<size_t>(k)];
            auto& x = graph::edge_value(el, *it); // another caller may have run
            x = r.w = range(0, 1000);
            r.d     = r.w * 0.5;
          }
      return;
    default:
      if constexpr (DESC)
        if (n) {
          int   i = static_cast<int>(draw(static_cast<uint32_t>(n))), j = static_cast<int>(draw(static_cast<uint32_t>(n)));
          Row & a = rows[static_cast<size_t>(i)], &b = rows[static_cast<size_t>(j)];
          const E x = K::make(a.s, a.t, a.w), y = K::make(b.s, b.t, b.w);
          order(x, y, std::tuple(a.s, a.t, HASW ? a.w : 0), std::tuple(b.s, b.t, HASW ? b.w : 0), i, j);
          using D = gel::edge_descriptor<Id, double>;
          order(D(a.s, a.t, a.d), D(b.s, b.t, b.d), std::tuple(a.s, a.t, a.d), std::tuple(b.s, b.t, b.d), i, j);
          E copy(x);
          if (!(copy == x) || &copy.source_id() != &a.s || &copy.target_id() != &a.t)
            fail("edge-list-answer", "%s: a copy of descriptor %d doesn't denote the same edge", name, i);
        }
    }
  }
  template <class D, class T>
  void order(const D& x, const D& y, const T& a, const T& b, int i, int j) {
    if ((x == y) != (a == b) || (x != y) == (a == b) || ((x <=> y) < 0) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b))
      fail("edge-list-order", "%s: the descriptors of edges %d and %d don't compare like the edges", name, i, j);
  }
  static void run(const char* name, const Model& m, int tasks, int ops) {
    std::unique_ptr<Machine> q;
    {
      Env e;
      q = std::make_unique<Machine>(name, m);
    }
    for (int t = 0; t < tasks; ++t)
      spawn([&q, ops] {
        for (int i = 0; i < ops && !failed(); ++i) {
          q->step();
          ev(0x0F16, static_cast<uint64_t>(i));
          yield();
        }
      });
    run_tasks();
  }
};
template <template <class> class K>
void run(const Model& m, int t, int o) {
  switch (draw(4)) {
  case 0: return Machine<K<int>, int>::run("edge list, int ids", m, t, o);
  case 1: return Machine<K<uint8_t>, uint8_t>::run("edge list, 8-bit ids", m, t, o);
  case 2: return Machine<K<int64_t>, int64_t>::run("edge list, 64-bit ids", m, t, o);
  default: return Machine<K<std::string>, std::string>::run("edge list, string ids", m, t, o);
  }
}
static RegisterMachine a1("edge list of triples", false, run<KTuple>);
static RegisterMachine a2("edge list of quadruples", false, run<KWide>);
static RegisterMachine a3("edge list of tuples of two", false, run<KTwo>);
static RegisterMachine a4("edge list of pairs", false, run<KPair>);
static RegisterMachine a5("edge list of edge_data", false, run<KData>);
static RegisterMachine a6("edge list of edge_data without values", false, run<KBare>);
static RegisterMachine a7("edge list of descriptors", false, run<KDesc>);
static RegisterMachine a8("edge list of descriptors without values", false, run<KRef>);
static RegisterMachine a9("edge list of own edges with data members", false, run<KFields>);
static RegisterMachine b1("edge list of own edges with functions", false, run<KMembers>);
static RegisterMachine b2("own edge list that knows its edges", false, run<KList>);
} // namespace lists
} // namespace query
