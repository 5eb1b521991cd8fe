#include "world.hpp"
SCENARIO("directed graph", 4) {
  WorldSpec s;
  callers_scenario(s, DIRECTED);
}
SCENARIO("undirected graph", 2) {
  WorldSpec s;
  s.und = true;
  callers_scenario(s, UNDIRECTED);
}
