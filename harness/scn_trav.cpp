#include "world.hpp"
SCENARIO("searches, directed graph", 3) {
  WorldSpec s;
  callers_scenario(s, DIRECTED);
}
SCENARIO("searches, undirected graph", 2) {
  WorldSpec s;
  s.und = true;
  callers_scenario(s, UNDIRECTED);
}
