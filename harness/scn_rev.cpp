#include "world.hpp"
SCENARIO("searches over transposed views", 3) {
  WorldSpec s;
  s.dag = sim::chance(1, 3);
  callers_scenario(s, DIRECTED);
}
