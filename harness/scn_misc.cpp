#include "world.hpp"
SCENARIO("undirected graph", 3) {
  WorldSpec s;
  s.und = true;
  callers_scenario(s, UNDIRECTED);
}
SCENARIO("small undirected graph", 2) {
  WorldSpec s;
  s.und   = true;
  s.max_n = 8;
  callers_scenario(s, UNDIRECTED);
}
SCENARIO("directed graph", 2) {
  WorldSpec s;
  callers_scenario(s, DIRECTED);
}
