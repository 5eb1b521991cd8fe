#include "world.hpp"
SCENARIO("shortest paths, directed graph", 3) {
  WorldSpec s;
  s.weights_may_be_negative = true;
  callers_scenario(s, DIRECTED);
}
SCENARIO("shortest paths, undirected graph", 1) {
  WorldSpec s;
  s.und                     = true;
  s.weights_may_be_negative = sim::chance(1, 3);
  callers_scenario(s, UNDIRECTED);
}
