#include "query.hpp"
#include <cstring>

namespace query {
std::vector<Machine>& machines() {
  static std::vector<Machine> v;
  return v;
}
} // namespace query
static void queries(bool und, int max_ops) {
  using namespace sim;
  auto& ms = query::machines();
  static bool sorted = false;
  if (!sorted) { // independent of the link order
    std::sort(ms.begin(), ms.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
    sorted = true;
  }
  std::vector<query::Machine> some;
  for (auto& x : ms)
    if (x.und == und)
      some.push_back(x);
  WorldSpec s;
  s.und     = und;
  s.large_n = 600;
  Model m = draw_model(s);
  describe(m);
  auto& x = some[draw(static_cast<uint32_t>(some.size()))];
  trace("in %s", x.name);
  ev(0x0F15, static_cast<uint64_t>(&x - some.data()));
  static constexpr uint32_t pcts[] = {0, 10, 35, 70};
  g_fault_percent = pcts[draw(4)];
  x.run(m, range(1, 3), range(4, max_ops));
}
SCENARIO("directed, few queries", 6) { queries(false, 12); }
SCENARIO("directed, many queries", 3) { queries(false, 60); }
SCENARIO("undirected", 1) { queries(true, 40); }
