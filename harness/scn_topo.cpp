#include "world.hpp"
SCENARIO("acyclic graph", 3) {
  WorldSpec s;
  s.dag = true;
  callers_scenario(s, DIRECTED);
}
SCENARIO("any directed graph", 2) {
  WorldSpec s;
  callers_scenario(s, DIRECTED);
}
