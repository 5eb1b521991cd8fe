// P16: what a call costs grows as documented: work, memory and stack, on every shape of graph.
#include "big.hpp"

#include <cstring>
#include <set>

using namespace sim;

namespace {
std::vector<BigOp>& bigs() {
  static std::vector<BigOp> v;
  return v;
}

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n > 0 ? static_cast<int>(next() % static_cast<uint64_t>(n)) : 0; }
};

struct Family {
  int      shape = 0, dens = 1, labels = 0, weights = 0, order = 0, extra = 0;
  uint64_t seed = 1;
};
const char* const shape_name[] = {"path",       "cycle",      "star",        "binary tree",  "random tree", "grid",
                                  "sparse",     "bundles",    "caterpillar", "clique chain", "bipartite",   "dense",
                                  "many small", "two stars",  "self-loops",  "broom"};
constexpr int     SHAPES       = 16;

Big build(const Family& f, int size, unsigned need) {
  Big   b;
  Rng   r{f.seed};
  auto& m = b.m;
  m.und   = need & B_SYM;
  int n   = size;
  auto add = [&](int u, int v) { m.e.push_back({u, v, 1}); };
  switch (f.shape) {
  case 0:
    for (int i = 0; i + 1 < n; ++i)
      add(i, i + 1);
    break;
  case 1:
    for (int i = 0; i < n; ++i)
      add(i, (i + 1) % n);
    break;
  case 2:
    for (int i = 1; i < n; ++i)
      add(0, i);
    break;
  case 3:
    for (int i = 1; i < n; ++i)
      add((i - 1) / 2, i);
    break;
  case 4:
    for (int i = 1; i < n; ++i)
      add(r.below(i), i);
    break;
  case 5: {
    int c = std::max(2, static_cast<int>(std::sqrt(static_cast<double>(n))));
    for (int i = 0; i < n; ++i) {
      if (i % c + 1 < c && i + 1 < n)
        add(i, i + 1);
      if (i + c < n)
        add(i, i + c);
    }
    break;
  }
  case 6:
    for (int i = 1; i < n; ++i) {
      add(r.below(i), i);
      for (int k = 1; k < f.dens; ++k)
        add(r.below(n), r.below(n));
    }
    break;
  case 7: // few vertices, many parallel edges
    n = 4;
    for (int i = 0; i < size; ++i)
      add(i % 3, i % 3 + 1);
    break;
  case 8:
    for (int i = 0; i + 1 < (n + 1) / 2; ++i)
      add(i, i + 1);
    for (int i = (n + 1) / 2; i < n; ++i)
      add(i - (n + 1) / 2, i);
    break;
  case 9:
    for (int i = 0; i < n; ++i) {
      for (int j = i + 1; j < std::min(n, i / 6 * 6 + 6); ++j)
        add(i, j);
      if (i % 6 == 5 && i + 1 < n)
        add(i, i + 1);
    }
    break;
  case 10:
    for (int i = 0; i < n; ++i)
      for (int k = 0; k <= f.dens; ++k) {
        int j = (i + 1 + 2 * (k == 0 ? 0 : r.below(n / 2))) % n;
        if (i < j)
          add(i, j);
      }
    for (int i = 0; i + 1 < n; ++i)
      add(i, i + 1);
    break;
  case 11: // every later vertex; the weights below make every arc improve its target
    n = std::max(3, static_cast<int>(3 * std::sqrt(static_cast<double>(size))));
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j)
        add(i, j);
    break;
  case 12:
    for (int i = 0; i + 2 < n; i += 3) {
      add(i, i + 1);
      add(i + 1, i + 2);
    }
    if (n % 3)
      add(n - 2, n - 1);
    break;
  case 13:
    for (int i = 2; i < n; ++i) {
      add(0, i);
      add(i, 1);
    }
    break;
  case 14:
    for (int i = 0; i + 1 < n; ++i)
      add(i, i + 1);
    if (!(need & B_DAG))
      for (int i = 0; i < n * f.dens; ++i)
        add(i % 2 ? 0 : r.below(n), i % 2 ? 0 : m.e.back().u);
    break;
  default: // a long handle and a bush
    for (int i = 0; i + 1 < n / 2; ++i)
      add(i, i + 1);
    for (int i = std::max(1, n / 2); i < n; ++i)
      add(n / 2 - 1 > 0 ? n / 2 - 1 : 0, i);
  }
  if (!(need & B_DAG) && f.extra == 1) // back arcs
    for (int i = 0, k = static_cast<int>(m.e.size()); i < k; i += 3)
      add(m.e[static_cast<size_t>(i)].v, m.e[static_cast<size_t>(i)].u);
  if (need & B_DAG) {
    std::vector<MEdge> k;
    for (auto e : m.e)
      if (e.u != e.v)
        k.push_back(e.u < e.v ? e : MEdge{e.v, e.u, e.w});
    m.e = k;
  }
  if (need & B_SIMPLE) {
    std::set<std::pair<int, int>> seen;
    std::vector<MEdge>            k;
    for (auto& e : m.e)
      if (e.u != e.v && seen.insert({std::min(e.u, e.v), std::max(e.u, e.v)}).second)
        k.push_back(e);
    m.e = k;
  }
  m.n = n;
  // weights
  for (auto& e : m.e)
    switch (f.weights) {
    case 0: break;
    case 1: e.w = 1 + r.below(1000); break;
    case 2: e.w = 2 * std::abs(e.v - e.u) + 1; break; // later arcs keep improving
    default: e.w = r.below(3);
    }
  // labels
  std::vector<int> p(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i)
    p[static_cast<size_t>(i)] = f.labels == 1 ? n - 1 - i : i;
  if (f.labels == 2)
    for (int i = n - 1; i > 0; --i)
      std::swap(p[static_cast<size_t>(i)], p[static_cast<size_t>(r.below(i + 1))]);
  for (auto& e : m.e)
    e.u = p[static_cast<size_t>(e.u)], e.v = p[static_cast<size_t>(e.v)];
  b.root = n ? p[0] : 0;
  if (f.order == 1)
    std::reverse(m.e.begin(), m.e.end());
  if (f.order == 2)
    for (size_t i = m.e.size(); i > 1; --i)
      std::swap(m.e[i - 1], m.e[static_cast<size_t>(r.below(static_cast<int>(i)))]);
  m.build();
  if (need & B_SIMPLE)
    for (auto& o : m.out)
      std::sort(o.begin(), o.end(), [](auto& x, auto& y) { return x.to < y.to; });
  b.rng = f.seed;
  b.V   = n;
  b.A   = static_cast<double>(m.arc_count());
  for (size_t u = 0; u < m.out.size(); ++u)
    for (auto& a : m.out[u]) {
      double du = static_cast<double>(m.out[u].size()), dv = static_cast<double>(m.out[static_cast<size_t>(a.to)].size());
      b.pairs += du + dv;
      b.mins += std::min(du, dv);
    }
  return b;
}

bool sorted_ = false;
} // namespace

void register_big(BigOp op) { bigs().push_back(std::move(op)); }

SCENARIO("big", 1) {
  auto& ops = bigs();
  if (!sorted_) {
    std::sort(ops.begin(), ops.end(), [](const BigOp& a, const BigOp& b) { return a.name < b.name; });
    sorted_ = true;
  }
  size_t k = draw(static_cast<uint32_t>(ops.size()));
  if (const char* only = getenv("BIG_ONLY")) // while developing
    while (ops[k].name.find(only) == std::string::npos)
      k = (k + 1) % ops.size();
  BigOp& op = ops[k];
  Family f;
  f.shape   = range(0, SHAPES - 1);
  f.dens    = range(1, 3);
  f.labels  = range(0, 2);
  f.weights = range(0, 3);
  f.order   = range(0, 2);
  f.extra   = range(0, 1);
  f.seed    = 1 + draw(1u << 30);
  int small = range(60, 160);
  int scale = 8 << range(0, 2);
  if (chance(1, 12))
    scale = 128;
  if (op.need & B_SMALL) {
    small = 20 + small / 8;
    scale = 8;
  }
  trace("%s on %s graphs (density %d, labels %d, weights %d, order %d, extra %d) of size %d and %d", op.name.c_str(),
        shape_name[f.shape], f.dens, f.labels, f.weights, f.order, f.extra, small, small * scale);
  ev(0xB16, k, static_cast<uint64_t>(f.shape));
  std::string cls = "work-" + op.name;
  Gauge       g1, g2;
  g1.cls = g2.cls = cls.c_str();
  Big b1          = build(f, small, op.need);
  op.fn(b1, g1);
  if (failed())
    return;
  double unit = std::max(op.unit, static_cast<double>(g1.cost.work) / std::max(1.0, op.bound(b1)));
  Big    b2   = build(f, small * scale, op.need);
  while (scale > 8 && unit * op.bound(b2) > 2e7) { // what is superlinear by definition stays affordable
    scale /= 2;
    b2 = build(f, small * scale, op.need);
  }
  g2.limit    = static_cast<uint64_t>(2.5 * unit * op.bound(b2)) + 6000;
  op.fn(b2, g2);
  ev(0xB17, g2.cost.work, static_cast<uint64_t>(g2.cost.peak));
  if (failed())
    return;
  if (getenv("BIG_PRINT"))
    std::fprintf(stderr, "%-40s %-12s %8.1f %8.1f  mem %8.1f %8.1f  stack %llu %llu\n", op.name.c_str(), shape_name[f.shape],
                 static_cast<double>(g1.cost.work) / op.bound(b1), static_cast<double>(g2.cost.work) / op.bound(b2),
                 static_cast<double>(g1.cost.peak) / (b1.VA() + 1), static_cast<double>(g2.cost.peak) / (b2.VA() + 1),
                 static_cast<unsigned long long>(g1.cost.depth), static_cast<unsigned long long>(g2.cost.depth));
  if (g2.cost.depth > g1.cost.depth + 16384) {
    cls = "stack-" + op.name;
    return fail(cls.c_str(), "the call used %llu bytes of stack on a graph of size %d but %llu on size %d",
                static_cast<unsigned long long>(g2.cost.depth), b2.n(), static_cast<unsigned long long>(g1.cost.depth), b1.n());
  }
  double mem = std::max(100.0, static_cast<double>(g1.cost.peak) / (b1.VA() + 1));
  if (static_cast<double>(g2.cost.peak) > 3 * mem * (b2.VA() + 1) + 20000) {
    cls = "memory-" + op.name;
    return fail(cls.c_str(), "the call held %lld bytes for %g vertices and arcs but %lld for %g",
                static_cast<long long>(g2.cost.peak), b2.VA(), static_cast<long long>(g1.cost.peak), b1.VA());
  }
  if (g2.allocs && chance(1, 3)) { // interrupted by a failing allocation: it may not cost more
    Gauge g3 = g2;
    g3.fault = 1 + draw(static_cast<uint32_t>(g2.allocs));
    op.fn(b2, g3);
    if (!failed() && g3.hit && g3.cost.depth > g1.cost.depth + 16384) {
      cls = "stack-" + op.name;
      return fail(cls.c_str(), "the interrupted call used %llu bytes of stack on a graph of size %d",
                  static_cast<unsigned long long>(g3.cost.depth), b2.n());
    }
  }
}
