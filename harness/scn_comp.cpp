#include "world.hpp"
SCENARIO("components, undirected graph", 3) {
  WorldSpec s;
  s.und = true;
  callers_scenario(s, UNDIRECTED);
}
SCENARIO("components, directed graph", 3) {
  WorldSpec s;
  callers_scenario(s, DIRECTED);
}
