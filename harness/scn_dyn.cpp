// Container histories: the machines are registered by the other translation units.
#include "loading.hpp"
#include <cstring>

namespace dyn {
uint32_t            g_fault_rate;
std::vector<Combo>& combos() {
  static std::vector<Combo> c;
  return c;
}
void history(int max_ops) {
  g_fault_rate   = std::vector<uint32_t>{0, 10, 30, 60}[draw(4)];
  int64_t val0   = Val::live, valt0 = ValT::live;
  int     tasks  = 1 + draw(2);
  // registration order depends on the link order; sort so that a seed means the same everywhere
  static bool sorted = false;
  if (!sorted) {
    std::sort(combos().begin(), combos().end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
    sorted = true;
  }
  for (int t = 0; t < tasks; ++t) {
    auto c   = combos()[draw(uint32_t(combos().size()))];
    int  ops = range(2, max_ops);
    trace("task %d works on %s", t + 1, c.name);
    spawn([=] { c.run(ops); });
  }
  run_tasks();
  if (!failed() && (Val::live != val0 || ValT::live != valt0))
    fail("value-leak", "%lld element value(s) are still alive after all graphs were destroyed",
         static_cast<long long>(Val::live - val0 + ValT::live - valt0));
}
} // namespace dyn
SCENARIO("short histories", 4) { dyn::history(12); }
SCENARIO("long histories", 1) { dyn::history(60); }
