#include "world.hpp"
SCENARIO("cut structure", 3) {
  WorldSpec s;
  s.und = true;
  callers_scenario(s, UNDIRECTED);
}
SCENARIO("cut structure, simple graph", 1) {
  WorldSpec s;
  s.und    = true;
  s.simple = true;
  callers_scenario(s, UNDIRECTED);
}
