#include "values.hpp"
#include "world.hpp"
static void run(bool neg) {
  WorldSpec s;
  s.und                     = true;
  s.weights_may_be_negative = neg;
  Val::live = ValT::live = 0;
  callers_scenario(s, UNDIRECTED);
  if (!sim::failed() && (Val::live || ValT::live))
    sim::fail("value-lifetime", "%lld element values were never destroyed", static_cast<long long>(Val::live + ValT::live));
}
SCENARIO("spanning forests", 3) { run(false); }
SCENARIO("spanning forests, negative weights", 2) { run(true); }
