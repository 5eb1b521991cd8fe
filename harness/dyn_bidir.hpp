// Bidirectional dynamic graphs: in-edges are in-edge objects (as in the library's own tests), in a container of their own.
#pragma once
#include "dyn_machine.hpp"
#include <deque>
template <class EV, class VV, class GV, class VId, template <class...> class Edges, template <class...> class InEdges, template <class...> class Vertices>
struct bidi_traits {
  using edge_value_type   = EV;
  using vertex_value_type = VV;
  using graph_value_type  = GV;
  using vertex_id_type    = VId;
  static constexpr bool bidirectional = true;
  using edge_type     = graph::container::dynamic_out_edge<EV, VV, GV, VId, true, bidi_traits>;
  using in_edge_type  = graph::container::dynamic_in_edge<EV, VV, GV, VId, true, bidi_traits>;
  using vertex_type   = graph::container::dynamic_vertex<EV, VV, GV, VId, true, bidi_traits>;
  using graph_type    = graph::container::dynamic_graph<EV, VV, GV, VId, true, bidi_traits>;
  using edges_type    = Edges<edge_type>;
  using in_edges_type = InEdges<in_edge_type>;
  using vertices_type = Vertices<vertex_type>;
};
template <class... E>
using map_u32 = std::map<uint32_t, E...>;
template <class... E>
using map_i64 = std::map<int64_t, E...>;
template <class... E>
using umap_u32 = std::unordered_map<uint32_t, E...>;
template <class... E>
using map_str = std::map<std::string, E...>;
template <class... E>
using umap_str = std::unordered_map<std::string, E...>;
using std::deque, std::forward_list, std::list, std::set, std::unordered_set, std::vector;
#define BG(EV, VV, GV, VID, E, I, V) graph::container::dynamic_graph<EV, VV, GV, VID, true, bidi_traits<EV, VV, GV, VID, E, I, V>>
