From 96eb3a484d0a534456702cfe2dedaa628101aec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 01/59] fix: bellman_ford must not relax edges out of unreached
 vertices

---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index d6a6ecc..60875ee 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -193,6 +193,11 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     const DistanceValue d_u = distances[static_cast<size_t>(uid)];
     const DistanceValue d_v = distances[static_cast<size_t>(vid)];
 
+    // A vertex that hasn't been reached has no path to extend (and adding to infinity may overflow)
+    if (d_u == shortest_path_infinite_distance<DistanceValue>()) {
+      return false;
+    }
+
     if (compare(combine(d_u, w_e), d_v)) {
       distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
       if constexpr (!is_same_v<Predecessors, _null_range_type>) {
@@ -260,7 +265,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   // Check for negative weight cycles
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
-      if (compare(combine(distances[uid], w), distances[vid])) {
+      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
         }
-- 
2.43.0


From 8f2521ec215f71310e95763a466e2f980356ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 02/59] fix: bellman_ford returns a vertex on the negative
 cycle, not one reachable from it

---
 include/graph/algorithm/bellman_ford_shortest_paths.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index 60875ee..dbc69c0 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -268,6 +268,15 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
       if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
+          // uid may only be reachable from the cycle: N steps back along the predecessors end on it
+          id_type on_cycle = static_cast<id_type>(uid);
+          for (id_type k = 0; k < N; ++k) {
+            on_cycle = static_cast<id_type>(predecessor[static_cast<size_t>(on_cycle)]);
+          }
+          if constexpr (has_on_edge_not_minimized<G, Visitor>) {
+            visitor.on_edge_not_minimized(g, uv);
+          }
+          return return_type(on_cycle);
         }
         if constexpr (has_on_edge_not_minimized<G, Visitor>) {
           visitor.on_edge_not_minimized(g, uv);
-- 
2.43.0


From 08973a620d58f57f39dce7bafcf4215851ea431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 03/59] fix: kosaraju computes a true depth-first finish order

---
 include/graph/algorithm/connected_components.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9ab3a47..946e4d9 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -154,7 +154,6 @@ void kosaraju(G&&        g,        // graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -164,7 +163,10 @@ void kosaraju(G&&        g,        // graph
         // All children have been visited, add to finish order (post-order)
         // This ensures children finish before parents in topological sort
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        // Visit when popped, not when pushed: only then is this a depth-first (finish) order
+        visited[uid] = true;
+
         // Mark that we'll process this vertex after its children
         // Re-push with children_visited=true to record finish time later
         stack.push({uid, true});
@@ -174,7 +176,6 @@ void kosaraju(G&&        g,        // graph
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
@@ -283,7 +284,6 @@ void kosaraju(G&&        g,        // bidirectional graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack;
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -291,13 +291,15 @@ void kosaraju(G&&        g,        // bidirectional graph
 
       if (children_visited) {
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        // Visit when popped, not when pushed: only then is this a depth-first (finish) order
+        visited[uid] = true;
+
         stack.push({uid, true});
 
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
-- 
2.43.0


From c583793d37077529935088ab52672af518eaf7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 04/59] fix: afforest returns on an empty graph instead of
 sampling from an empty range

---
 include/graph/algorithm/connected_components.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 946e4d9..92fab30 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -722,6 +722,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // nothing to sample
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
@@ -829,6 +832,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // nothing to sample
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
-- 
2.43.0


From 6fd41b14262666d8fa29d6dc650203ab11ae1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 05/59] fix: maximal_independent_set excludes every vertex with
 a self-loop, not only the seed

---
 include/graph/algorithm/mis.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/graph/algorithm/mis.hpp b/include/graph/algorithm/mis.hpp
index 960d0b2..338cdaa 100755
--- a/include/graph/algorithm/mis.hpp
+++ b/include/graph/algorithm/mis.hpp
@@ -184,6 +184,17 @@ size_t maximal_independent_set(G&&                      g,       // graph
   for (auto u : vertices(g)) {
     vertex_id_t<G> uid = vertex_id(g, u);
     if (!removed_vertices[uid]) {
+      // A vertex with a self-loop is adjacent to itself
+      bool has_self_loop = false;
+      for (auto uv : edges(g, u)) {
+        if (target_id(g, uv) == uid) {
+          has_self_loop = true;
+          break;
+        }
+      }
+      if (has_self_loop) {
+        continue;
+      }
       *mis++ = uid;
       ++count;
       removed_vertices[uid] = 1;
-- 
2.43.0


From f2cc90dc6505f4454a86c82baa8d89b0262abc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 06/59] fix: kruskal and inplace_kruskal find the maximum
 vertex id for every input, including a single edge

---
 include/graph/algorithm/mst.hpp | 36 +++++++++++----------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 747559a..5ecafbd 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -565,16 +565,13 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::transform(e, back_inserter(e_copy),
                          [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
 
-  // Find maximum vertex ID while sorting edges by weight
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
+  // Find maximum vertex ID (needed to size disjoint-set structure). A sort needn't compare every
+  // element (e.g. a single edge), so it can't be done in the comparison function.
+  VId N = 0; // Will hold the maximum vertex ID in the graph
+  for (auto&& ed : e_copy) {
+    N = std::max(N, std::max(get<0>(ed), get<1>(ed)));
+  }
   auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (get<0>(i) > N) {
-      N = get<0>(i); // Check source vertex
-    }
-    if (get<1>(i) > N) {
-      N = get<1>(i); // Check target vertex
-    }
     return compare(get<2>(i), get<2>(j)); // Compare edge weights
   };
   std::ranges::sort(e_copy, outer_compare);
@@ -708,26 +705,17 @@ auto inplace_kruskal(IELR&&    e,      // graph
     return std::pair<EV, size_t>{EV{}, 0};
   }
 
-  // Find maximum vertex ID while sorting edges by weight (modifies input!)
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
+  // Find maximum vertex ID (needed to size disjoint-set structure). A sort needn't compare every
+  // element (e.g. a single edge), so it can't be done in the comparison function.
+  VId N = 0; // Will hold the maximum vertex ID in the graph
+  for (auto&& ed : e) {
+    N = std::max(N, std::max<VId>(ed.source_id, ed.target_id));
+  }
   auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (i.source_id > N) {
-      N = i.source_id; // Check source vertex
-    }
-    if (i.target_id > N) {
-      N = i.target_id; // Check target vertex
-    }
     return compare(i.value, j.value); // Compare edge weights
   };
   std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
 
-  // Empty graph edge case
-  if (N == 0) {
-    t.clear();
-    return std::pair<EV, size_t>{EV{}, 0};
-  }
-
   // Initialize disjoint-set: each vertex starts in its own set
   disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
   for (VId uid = 0; uid <= N; ++uid) {
-- 
2.43.0


From 250ae0c4ea24d8407f6512684c0422b1d2cfca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 07/59] fix: prim grows the tree by the best edge and never
 changes the edge of a vertex in the tree

---
 include/graph/algorithm/mst.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 5ecafbd..f608eee 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -929,21 +929,28 @@ auto prim(G&&                   g,           // graph
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
   // Priority queue comparator: compare by edge weight (second element of tuple)
-  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(i), get<1>(j)); };
+  // (priority_queue::top() is the element that compares last, so the arguments are reversed)
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
 
   // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
   Q.push({seed, distance[seed]}); // Start from seed vertex
 
+  std::vector<bool> in_tree(N, false); // vertices whose tree edge is final
+
   // Main loop: grow MST by adding minimum-weight edges
   while (!Q.empty()) {
     auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
     Q.pop();
+    if (in_tree[uid]) {
+      continue; // stale entry: uid was already added with a better edge
+    }
+    in_tree[uid] = true;
 
     // Examine all edges incident to current vertex
     for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
       // Relaxation: if edge weight is better than current distance to neighbor
-      if (compare(w, distance[vid])) {
+      if (!in_tree[vid] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
         Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
         predecessor[vid] = uid;       // Record edge uid→vid in MST
-- 
2.43.0


From 427844831b21c839cbd29443c0afbd8acba71059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 08/59] fix: prim counts only vertices in the seed's tree and
 sets init_dist for unreachable vertices

---
 include/graph/algorithm/mst.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index f608eee..a70df14 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -964,8 +964,10 @@ auto prim(G&&                   g,           // graph
   // Exclude seed vertex (which has no incoming edge in MST)
   EV total_weight = EV{};
   for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && predecessor[v] != static_cast<vertex_id_t<G>>(v)) {
-      // Only count vertices in MST (predecessor points to another vertex)
+    if (!in_tree[v]) {
+      weight[v] = init_dist; // unreachable from seed
+    } else if (v != static_cast<size_t>(seed)) {
+      // Only count vertices in MST
       total_weight += weight[v];
     }
   }
-- 
2.43.0


From ed9a74c44725414e499a08c0d9d8428e352a02d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 09/59] fix: biconnected_components emits a component for a
 vertex that has only self-loops

---
 include/graph/algorithm/biconnected_components.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 46110be..7781e09 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -189,9 +189,15 @@ void biconnected_components(G&& g, OuterContainer& components) {
       continue;
     }
 
-    // Check for isolated vertex (no edges)
-    auto start_edges = edges(g, sv);
-    if (std::ranges::begin(start_edges) == std::ranges::end(start_edges)) {
+    // Check for isolated vertex (no edges other than self-loops)
+    bool isolated = true;
+    for (auto&& uv : edges(g, sv)) {
+      if (target_id(g, uv) != start) {
+        isolated = false;
+        break;
+      }
+    }
+    if (isolated) {
       // Isolated vertex — trivial biconnected component
       components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});
       disc[start] = timer++; // mark as visited
-- 
2.43.0


From 8ca606ed17846b2cf7dda7ce0ba3a2e07686fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 10/59] fix: undirected_adjacency_list links a self-loop into
 its vertex's edge list once

---
 .../detail/undirected_adjacency_list_impl.hpp        | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bf4bc3f..ea7e84d 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -588,7 +588,9 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_front(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_front(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) { // a self-loop is in its vertex's list once
+    v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  }
 }
 template <typename EV,
           typename VV,
@@ -598,7 +600,9 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_back(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) { // a self-loop is in its vertex's list once
+    v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  }
 }
 
 template <typename EV,
@@ -609,7 +613,9 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::unlink(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) { // a self-loop is in its vertex's list once
+    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  }
 }
 
 template <typename EV,
-- 
2.43.0


From 20fbbc647d4e46128f884b6ef570bff4f12d88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 11/59] fix: undirected_adjacency_list copies edges whose
 source id is greater than the target id

---
 .../container/detail/undirected_adjacency_list_impl.hpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index ea7e84d..4f0f00f 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1109,15 +1109,15 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   // Downcast to graph_type to access methods
   auto& g = static_cast<graph_type&>(*this);
 
-  // Copy edges - iterate through each vertex and copy edges where source_id <= target_id to avoid duplicates
+  // Copy edges - an edge is in the list of both its vertices; copy it for its owner to avoid duplicates
   for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
     const auto& src_vtx = other.vertices_[uid];
     for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
       vertex_id_type tgt_id = uv->list_target_id();
-      // Only copy each edge once: when uid matches source and source <= target
-      if (uid == src_id && src_id <= tgt_id) {
+      // Only copy each edge once: when uid matches source
+      if (uid == src_id) {
         if constexpr (std::is_void_v<EV>) {
           g.create_edge(src_id, tgt_id);
         } else {
-- 
2.43.0


From de0bd28ecaf93f3e3105ec9d3e2a8642fd1e8335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 12/59] fix: undirected_adjacency_list::erase_edge unlinks the
 edge from its vertices

---
 .../detail/undirected_adjacency_list_impl.hpp        | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 4f0f00f..0a25ef1 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1442,10 +1442,14 @@ template <typename EV,
 typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edge_iterator
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
   edge_type* uv = &*pos;
-  ++pos;
-  uv->~edge_type(); // unlinks from vertices
-  this->edge_alloc_.deallocate(uv, 1);
-  --this->edges_size_;
+  // The edge is visited from both its vertices, so the next edge may be the same one
+  do {
+    ++pos;
+  } while (pos != edge_iterator(static_cast<graph_type&>(*this), this->vertices_.end()) && &*pos == uv);
+  // The vertex unlinks the edge from the lists of both its vertices before destroying it
+  auto&          g   = static_cast<graph_type&>(*this);
+  vertex_id_type uid = uv->list_owner_id();
+  this->vertices_[uid].erase_edge(g, vertex_edge_iterator(g, uid, uv));
   return pos;
 }
 
-- 
2.43.0


From aaa679709151106ce2a6a903bfaee4984ff0df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 13/59] fix: undirected_adjacency_list constructors delete the
 edges created before an exception

---
 .../container/detail/undirected_adjacency_list_impl.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 0a25ef1..1c6249d 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1090,7 +1090,8 @@ template <typename EV,
           template <typename V, typename A> class VContainer,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
-      const base_undirected_adjacency_list& other) {
+      const base_undirected_adjacency_list& other)
+      : base_undirected_adjacency_list() { // delegate: edges are deleted if an exception is thrown below
   // Copy base class members
   edge_alloc_ = other.edge_alloc_;
 
@@ -1141,7 +1142,7 @@ requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
                std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // delegate: edges are deleted if an exception is thrown below
   // Handle empty case - no vertices or edges to create
   if (vrng.empty() && ranges::empty(erng)) {
     return;
@@ -1196,7 +1197,7 @@ template <typename EV,
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type, edge_value_type>>& ilist,
       const allocator_type&                                                           alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // delegate: edges are deleted if an exception is thrown below
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
@@ -1224,7 +1225,7 @@ template <typename EV,
           typename Alloc>
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirected_adjacency_list(
       const initializer_list<tuple<vertex_id_type, vertex_id_type>>& ilist, const allocator_type& alloc)
-      : vertices_(alloc), edge_alloc_(alloc) {
+      : base_undirected_adjacency_list(alloc) { // delegate: edges are deleted if an exception is thrown below
   // Evaluate max vertex id needed
   vertex_id_type max_vtx_id = vertex_id_type();
   for (auto& edge_data : ilist) {
-- 
2.43.0


From 45f3bcacbd20896aa407b055deef6ea9bcc11d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 14/59] fix: undirected_adjacency_list::create_edge passes on
 an exception of the edge value's constructor

---
 .../detail/undirected_adjacency_list_impl.hpp | 12 +++----
 .../container/undirected_adjacency_list.hpp   | 33 ++++++++++++++-----
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 1c6249d..ffd1b09 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -488,7 +488,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_id_type uid, vertex_id_type vid)
       : base_value_type(), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -502,7 +502,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_id_type         uid,
                                                        vertex_id_type         vid,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -516,7 +516,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_id_type    uid,
                                                        vertex_id_type    vid,
-                                                       edge_value_type&& val) noexcept
+                                                       edge_value_type&& val)
       : base_value_type(move(val)), vertex_edge_list_inward_link_type(uid), vertex_edge_list_outward_link_type(vid) {
   link_back(g.vertices()[uid], g.vertices()[vid]);
 }
@@ -527,7 +527,7 @@ template <typename EV,
           integral VId,
           template <typename V, typename A> class VContainer,
           typename Alloc>
-ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi) noexcept
+ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type& g, vertex_iterator ui, vertex_iterator vi)
       : base_value_type()
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -543,7 +543,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&            g,
                                                        vertex_iterator        ui,
                                                        vertex_iterator        vi,
-                                                       const edge_value_type& val) noexcept
+                                                       const edge_value_type& val)
       : base_value_type(val)
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
@@ -559,7 +559,7 @@ template <typename EV,
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::ual_edge(graph_type&       g,
                                                        vertex_iterator   ui,
                                                        vertex_iterator   vi,
-                                                       edge_value_type&& val) noexcept
+                                                       edge_value_type&& val)
       : base_value_type(move(val))
       , vertex_edge_list_inward_link_type(static_cast<vertex_id_type>(ui - g.vertices().begin()))
       , vertex_edge_list_outward_link_type(static_cast<vertex_id_type>(vi - g.vertices().begin())) {
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ae18cc..e87bf2b 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -663,13 +663,13 @@ protected:
   ual_edge& operator=(ual_edge&) noexcept  = default;
   ual_edge& operator=(ual_edge&&) noexcept = default;
 
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, const edge_value_type&);
+  ual_edge(graph_type&, vertex_id_type uid, vertex_id_type vid, edge_value_type&&);
 
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&) noexcept;
-  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&) noexcept;
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, const edge_value_type&);
+  ual_edge(graph_type&, vertex_iterator ui, vertex_iterator vi, edge_value_type&&);
 
   void link_front(vertex_type&, vertex_type&) noexcept;
   void link_back(vertex_type&, vertex_type&) noexcept;
@@ -1140,7 +1140,12 @@ public: // Edge Creation
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v);
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v);
+    } catch (...) { // the edge value's constructor threw
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
@@ -1154,7 +1159,12 @@ public: // Edge Creation
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, edge_value_type&& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v, std::move(val));
+    } catch (...) { // the edge value's constructor threw
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
@@ -1171,7 +1181,12 @@ public: // Edge Creation
   vertex_edge_iterator create_edge(vertex_iterator u, vertex_iterator v, const EV2& val) {
     vertex_id_type uid = static_cast<vertex_id_type>(u - this->vertices_.begin());
     edge_type*     uv  = this->edge_alloc_.allocate(1);
-    new (uv) edge_type(static_cast<graph_type&>(*this), u, v, val);
+    try {
+      new (uv) edge_type(static_cast<graph_type&>(*this), u, v, val);
+    } catch (...) { // the edge value's constructor threw
+      this->edge_alloc_.deallocate(uv, 1);
+      throw;
+    }
     ++this->edges_size_;
     return vertex_edge_iterator(static_cast<graph_type&>(*this), uid, uv);
   }
-- 
2.43.0


From 62c3aad8782e44d35b9536a9e74f6ceb3c25eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 15/59] fix: undirected_adjacency_list move assignment deletes
 its edges; a moved-from graph has no edges

---
 .../container/undirected_adjacency_list.hpp      | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index e87bf2b..fa9e596 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -933,7 +933,13 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+        : vertices_(std::move(other.vertices_))
+        , edges_size_(std::exchange(other.edges_size_, 0))
+        , vertex_alloc_(std::move(other.vertex_alloc_))
+        , edge_alloc_(std::move(other.edge_alloc_)) {
+    other.vertices_.clear();
+  }
 
   // Destructor
   ~base_undirected_adjacency_list();
@@ -942,7 +948,13 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list& operator=(const base_undirected_adjacency_list& other);
 
   // Move assignment operator
-  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept {
+    if (this != &other) {
+      clear(); // delete the edges of this graph
+      swap(other);
+    }
+    return *this;
+  }
 
   // Range constructors
   template <typename ERng, typename VRng, typename EProj, typename VProj>
-- 
2.43.0


From ae12eb155da6531a0a4cdeec21ec38524b28cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 16/59] fix: edges_bfs cancel_branch prunes every cancelled
 branch, not only the last one cancelled

---
 include/graph/views/bfs.hpp | 35 ++++++++---------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/include/graph/views/bfs.hpp b/include/graph/views/bfs.hpp
index e17e109..933d9d3 100644
--- a/include/graph/views/bfs.hpp
+++ b/include/graph/views/bfs.hpp
@@ -217,7 +217,6 @@ namespace bfs_detail {
     cancel_search                                               cancel_    = cancel_search::continue_search;
     std::size_t                                                 max_depth_ = 0;
     std::size_t                                                 count_     = 0;
-    std::optional<vertex_id_type> skip_vertex_id_; // Vertex to skip when processing (for cancel_branch)
 
     bfs_edge_state(G& g, vertex_type seed_vertex, std::size_t num_vertices, Alloc alloc = {})
           : queue_(std::deque<entry_type, queue_alloc>(alloc)), visited_(num_vertices, alloc) {
@@ -768,24 +767,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is at the back of the queue; skip all of its edges
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& cancelled        = state_->queue_.back();
+        cancelled.edge_current = cancelled.edge_end;
+        state_->cancel_        = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -810,7 +802,6 @@ public:
 
             // Store and return this edge
             current_edge_      = edge;
-            current_target_id_ = target_vid;
             has_edge_          = true;
             return;
           }
@@ -824,7 +815,6 @@ public:
     G*                          g_ = nullptr;
     std::shared_ptr<state_type> state_;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
@@ -955,24 +945,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is at the back of the queue; skip all of its edges
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& cancelled        = state_->queue_.back();
+        cancelled.edge_current = cancelled.edge_end;
+        state_->cancel_        = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -997,7 +980,6 @@ public:
 
             // Store and return this edge
             current_edge_      = edge;
-            current_target_id_ = target_vid;
             has_edge_          = true;
             return;
           }
@@ -1012,7 +994,6 @@ public:
     std::shared_ptr<state_type> state_;
     EVF*                        evf_ = nullptr;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
-- 
2.43.0


From aa76ca48f3a57dede871d4c8dcd38b138dfd4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 17/59] fix: dynamic_graph load_edges removes the in-edge again
 when its out-edge can't be inserted

---
 include/graph/container/container_utility.hpp | 46 +++++++++++++++++++
 include/graph/container/dynamic_graph.hpp     | 45 ++++++++++++------
 2 files changed, 76 insertions(+), 15 deletions(-)

diff --git a/include/graph/container/container_utility.hpp b/include/graph/container/container_utility.hpp
index dfcbf6c..814cc61 100644
--- a/include/graph/container/container_utility.hpp
+++ b/include/graph/container/container_utility.hpp
@@ -134,6 +134,52 @@ constexpr void emplace_edge(EdgeContainer& edges, const typename Edge::vertex_id
   }
 }
 
+// Helper to insert an edge into both the in-edge container of its target and the out-edge container of its
+// source. If the out-edge can't be inserted the in-edge is removed, so that they always mirror each other.
+template <class OutEdges, class OutEdge, class InEdges, class InEdge>
+constexpr void emplace_edge_pair(OutEdges&                               out_edges,
+                                 const typename OutEdge::vertex_id_type& target_id,
+                                 OutEdge&&                               out_edge,
+                                 InEdges&                                in_edges,
+                                 const typename InEdge::vertex_id_type&  source_id,
+                                 InEdge&&                                in_edge) {
+  auto insert_out = [&](auto&& undo) {
+    try {
+      emplace_edge(out_edges, target_id, std::forward<OutEdge>(out_edge));
+    } catch (...) {
+      undo();
+      throw;
+    }
+  };
+
+  // emplace() for associative containers returns pair<iterator,bool> if the keys are unique, or iterator otherwise
+  auto erase_inserted = [&in_edges](auto& inserted) {
+    if constexpr (requires { inserted.second; }) {
+      if (inserted.second)
+        in_edges.erase(inserted.first);
+    } else {
+      in_edges.erase(inserted);
+    }
+  };
+
+  if constexpr (is_map_based_edge_container<InEdges>) {
+    auto inserted = in_edges.emplace(source_id, std::forward<InEdge>(in_edge));
+    insert_out([&] { erase_inserted(inserted); });
+  } else if constexpr (has_emplace<InEdges>) {
+    auto inserted = in_edges.emplace(std::forward<InEdge>(in_edge));
+    insert_out([&] { erase_inserted(inserted); });
+  } else {
+    emplace_edge(in_edges, source_id, std::forward<InEdge>(in_edge));
+    insert_out([&] {
+      if constexpr (requires { in_edges.pop_back(); }) {
+        in_edges.pop_back();
+      } else if constexpr (requires { in_edges.pop_front(); }) {
+        in_edges.pop_front();
+      }
+    });
+  }
+}
+
 // return a lambda to assign/insert an element in a container
 // assignment applies to random_access containers that have elements pre-allocated
 // insert     applies to other containers that can insert elements (e.g. map, unordered_map, ...)
diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index cccfd1e..9db0f62 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1312,15 +1312,20 @@ public: // Load operations
         if constexpr (is_void_v<EV>) {
           if constexpr (Bidirectional) {
             auto& rev = vertices_[e.target_id].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
+            emplace_edge_pair(vertex_edges, e.target_id, edge_type(e.target_id), rev, e.source_id,
+                              in_edge_type(e.source_id));
+          } else {
+            emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
           }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
         } else {
           if constexpr (Bidirectional) {
-            auto& rev = vertices_[e.target_id].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
+            auto&        rev = vertices_[e.target_id].in_edges();
+            in_edge_type in_edge(e.source_id, e.value); // copy
+            emplace_edge_pair(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)), rev, e.source_id,
+                              std::move(in_edge));
+          } else {
+            emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
           }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
         }
         edge_count_ += 1;
       }
@@ -1399,15 +1404,20 @@ public: // Load operations
             if constexpr (is_void_v<EV>) {
               if constexpr (Bidirectional) {
                 auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-                emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
+                emplace_edge_pair(vertex_edges, e.target_id, edge_type(e.target_id), rev, e.source_id,
+                                  in_edge_type(e.source_id));
+              } else {
+                emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
               }
-              emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
             } else {
               if constexpr (Bidirectional) {
-                auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-                emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
+                auto&        rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
+                in_edge_type in_edge(e.source_id, e.value); // copy
+                emplace_edge_pair(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)), rev, e.source_id,
+                                  std::move(in_edge));
+              } else {
+                emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
               }
-              emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
             }
             edge_count_ += 1;
           }
@@ -1429,15 +1439,20 @@ public: // Load operations
         if constexpr (is_void_v<EV>) {
           if constexpr (Bidirectional) {
             auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id));
+            emplace_edge_pair(vertex_edges, e.target_id, edge_type(e.target_id), rev, e.source_id,
+                              in_edge_type(e.source_id));
+          } else {
+            emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
           }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id));
         } else {
           if constexpr (Bidirectional) {
-            auto& rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
-            emplace_edge(rev, e.source_id, in_edge_type(e.source_id, e.value)); // copy
+            auto&        rev = vertices_[static_cast<size_t>(e.target_id)].in_edges();
+            in_edge_type in_edge(e.source_id, e.value); // copy
+            emplace_edge_pair(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)), rev, e.source_id,
+                              std::move(in_edge));
+          } else {
+            emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
           }
-          emplace_edge(vertex_edges, e.target_id, edge_type(e.target_id, std::move(e.value)));
         }
         edge_count_ += 1;
       }
-- 
2.43.0


From f4e9a303ce1c66cd63c90c5138074c240af5a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 18/59] fix: compressed_graph::load_vertices adds vertices
 without edges, whatever edges are already loaded

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a7fe21b..3b627e3 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -649,8 +649,8 @@ public: // Operations
     if (row_index_.empty() && vertex_count > 0) {
       row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
     } else if (vertex_count > size()) {
-      // Expand existing structure if needed
-      row_index_.resize(vertex_count + 1, vertex_type{0});
+      // Expand existing structure if needed; the added vertices have no edges, so they start after the last edge
+      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
-- 
2.43.0


From 69ab517320f80de11512117828f48f14223eb29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 19/59] fix: compressed_graph's last partition ends at the
 number of vertices, excluding the terminating row

---
 include/graph/container/compressed_graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 3b627e3..c4aaf1b 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -911,13 +911,13 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(row_index_.size())) {
+      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(size())) {
         throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
-                                      row_index_.size()));
+                                      size()));
       }
     }
 
-    partition_.push_back(static_cast<partition_id_type>(row_index_.size()));
+    partition_.push_back(static_cast<partition_id_type>(size()));
   }
 
 public: // Vertex range accessors
-- 
2.43.0


From 07e8209ea16f6cbaee57f27001f852a1900790db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 20/59] fix: compressed_graph accepts an empty edge range
 instead of terminating its partitions twice

---
 include/graph/container/compressed_graph.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index c4aaf1b..e0c596a 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -704,7 +704,6 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
       return;
     }
 
@@ -768,7 +767,6 @@ public: // Operations
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
-      terminate_partitions();
       return;
     }
 
-- 
2.43.0


From be94ea7502d0ae8a0d22b2ab7986d8de493b9d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 21/59] fix: compressed_graph::load_edges works after
 load_vertices, as documented

---
 include/graph/container/compressed_graph.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index e0c596a..b8fc265 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -699,8 +699,8 @@ public: // Operations
   template <class ERng, class EProj = identity>
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void load_edges(ERng&& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
@@ -713,6 +713,10 @@ public: // Operations
     vertex_count =
           max(vertex_count, static_cast<size_type>(last_erng_id(erng, eprojection) + 1)); // +1 for zero-based index
 
+    // Rows created by load_vertices(vrng,vproj) have no edges; they're added again with the edges
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
     // Reserve space for vertices
     row_index_.reserve(vertex_count + 1); // +1 for terminating row
     row_values_base::reserve(vertex_count);
@@ -753,7 +757,7 @@ public: // Operations
     // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
     // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
     // getting a value for a row.
-    if (row_values_base::size() > 1 && row_values_base::size() < vertex_count)
+    if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
@@ -762,8 +766,8 @@ public: // Operations
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void
   load_edges(const ERng& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng)) {
@@ -776,6 +780,10 @@ public: // Operations
     vertex_count =
           max(vertex_count, static_cast<size_type>(last_erng_id(erng, eprojection) + 1)); // +1 for zero-based index
 
+    // Rows created by load_vertices(vrng,vproj) have no edges; they're added again with the edges
+    vertex_count = max(vertex_count, size());
+    row_index_.clear();
+
     // Reserve space for vertices
     row_index_.reserve(vertex_count + 1); // +1 for terminating row
     row_values_base::reserve(vertex_count);
-- 
2.43.0


From 5400465e2dea6fbca913b7336715aa66a3ddcfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 22/59] fix: compressed_graph edge_value uses the edge index
 type for the index, it can exceed the vertex id type

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index b8fc265..60bad03 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1382,9 +1382,9 @@ public: // Friend functions
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     } else {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     }
   }
 
-- 
2.43.0


From 4437052c415a35c4f1245e9fb387f013085e1981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 23/59] fix: transpose_view num_edges(g,u) counts the
 transposed graph's edges of u, as degree(g,u) does

---
 include/graph/views/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 67f7031..8c29948 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -210,7 +210,7 @@ public:
 
   template <typename V>
   friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
-    return adj_list::num_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v);
   }
 
   friend constexpr auto num_edges(const transpose_view& tv) { return adj_list::num_edges(*tv.g_); }
-- 
2.43.0


From 6057d83481daf2ad5d356e3cafe98de6cdc2734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 24/59] fix: compressed_graph::load_vertices doesn't create a
 vertex for an empty range

---
 include/graph/container/compressed_graph.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 60bad03..a9da390 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -643,7 +643,9 @@ public: // Operations
     }
 
     // Determine required vertex count: max(provided hint, max_id + 1, existing size)
-    vertex_count = max({vertex_count, static_cast<size_type>(max_id + 1), size()});
+    vertex_count = max(vertex_count, size());
+    if (!std::ranges::empty(vrng))
+      vertex_count = max(vertex_count, static_cast<size_type>(max_id + 1));
 
     // If graph structure doesn't exist yet, create it based on vertex count
     if (row_index_.empty() && vertex_count > 0) {
-- 
2.43.0


From 68e3ddc38b7975e36280ffa4df86bdea655aef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 25/59] fix: compressed_graph edges and num_edges take vertex
 descriptors only, so edges(g,uid) and num_edges(g,uid) compile

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a9da390..653b92e 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1230,7 +1230,7 @@ public: // Friend functions
    * @note This is a lightweight view with minimal overhead
    * @note Returns empty view if vertex descriptor is out of bounds
   */
-  template <typename G, typename VertexDesc>
+  template <typename G, vertex_descriptor_type VertexDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto edges(G&& g, VertexDesc u) noexcept {
     using edge_iter_type =
@@ -1314,7 +1314,7 @@ public: // Friend functions
    * @note Complexity: O(1) - direct indexed access
    * @note This is the ADL customization point for the num_edges(g, u) CPO
   */
-  template <typename G, typename U>
+  template <typename G, vertex_descriptor_type U>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto num_edges(const G& g, const U& u) noexcept {
     auto vid = static_cast<vertex_id_type>(u.vertex_id());
-- 
2.43.0


From aa69b0a97edfb392779dfc1c07b54e3e9931d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 26/59] fix: source(g,uv) of an incoming edge is the edge's
 source, as source_id(g,uv) is, not the vertex that owns it

---
 include/graph/adj_list/detail/graph_cpo.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..7ceb751 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3185,9 +3185,11 @@ namespace _cpo_impls {
       { source(g, uv) };
     };
 
-    // Check if edge descriptor has source() member
+    // Check if edge descriptor has source() member that is the edge's source
+    // (an in-edge descriptor's source() is the vertex that owns it, which is the edge's target)
     template <typename E>
     concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
+      requires std::remove_cvref_t<E>::is_out_edge;
       { uv.source() };
     };
 
-- 
2.43.0


From 4d82ee3d86cde07dd0f5e089a4a6668ceb395575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 27/59] fix: compressed_graph's edge and vertex friends take
 descriptors only, so edge_data elements use the CPO defaults

---
 include/graph/container/compressed_graph.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 653b92e..eaad475 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1275,7 +1275,7 @@ public: // Friend functions
    * @note Complexity: O(1) - direct indexed access
    * @note No bounds checking is performed; edge descriptor must be valid
   */
-  template <typename G, typename EdgeDesc>
+  template <typename G, edge_descriptor_type EdgeDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto target_id(G&& g, const EdgeDesc& uv) noexcept {
     // Edge descriptor's value() returns the edge index into col_index_
@@ -1356,7 +1356,7 @@ public: // Friend functions
    * @note This is the ADL customization point for the vertex_value(g, u) CPO
    * @note Only available when VV is not void
   */
-  template <typename G, typename U>
+  template <typename G, vertex_descriptor_type U>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<VV>)
   [[nodiscard]] friend constexpr decltype(auto) vertex_value(G&& g, const U& u) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
@@ -1380,7 +1380,7 @@ public: // Friend functions
    * @note This is the ADL customization point for the edge_value(g, uv) CPO
    * @note Only available when EV is not void
   */
-  template <typename G, typename E>
+  template <typename G, edge_descriptor_type E>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
@@ -1404,7 +1404,7 @@ public: // Friend functions
    * @note For single-partition graphs, returns 0
    * @note This is the ADL customization point for the partition_id(g, u) CPO
   */
-  template <typename G, typename VertexDesc>
+  template <typename G, vertex_descriptor_type VertexDesc>
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
   [[nodiscard]] friend constexpr auto partition_id(G&& g, const VertexDesc& u) noexcept -> partition_id_type {
     const auto vid = u.vertex_id();
-- 
2.43.0


From c3d75db7e25233bd5f79d8e14bfcd0b2fe5eabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 28/59] fix: dynamic_graph::load_vertices honours vertex_count
 for unsized ranges

---
 include/graph/container/dynamic_graph.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 9db0f62..03585c3 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1131,9 +1131,12 @@ public: // Load operations
       }
     } else {
       // For sequential containers, pre-size and use index-based access
-      if constexpr (sized_range<VRng> && resizable<vertices_type>) {
+      if constexpr (resizable<vertices_type>) {
         vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
-        resize_vertices(std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng))));
+        if constexpr (sized_range<VRng>) {
+          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
+        }
+        resize_vertices(vertex_count);
       }
       for (auto&& v : vrng) {
         if constexpr (is_void_v<VV>) {
@@ -1202,9 +1205,12 @@ public: // Load operations
     } else {
       // For sequential containers, pre-size and use index-based access
       // Harmonize sizing logic with const& overload (ensure we never shrink and honor explicit vertex_count)
-      if constexpr (sized_range<VRng> && resizable<vertices_type>) {
+      if constexpr (resizable<vertices_type>) {
         vertex_count = std::max(vertex_count, static_cast<size_t>(vertices_.size()));
-        resize_vertices(std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng))));
+        if constexpr (sized_range<VRng>) {
+          vertex_count = std::max(vertex_count, static_cast<size_t>(std::ranges::size(vrng)));
+        }
+        resize_vertices(vertex_count);
       }
       for (auto&& v : vrng) {
         if constexpr (is_void_v<VV>) {
-- 
2.43.0


From 1366146fdc34b2e03c26fe05644f79450c07add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:23 +0000
Subject: [PATCH 29/59] fix: dynamic_graph::clear doesn't terminate for string
 ids or when memory runs out after a move

---
 include/graph/container/dynamic_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 03585c3..6447fbb 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1531,8 +1531,8 @@ public: // Operations
 
   void clear() noexcept {
     vertices_.clear();
-    partition_.clear();
-    partition_.push_back(0);
+    // Keep the leading 0, if any. This never allocates, and ids that aren't integral (e.g. std::string) have none.
+    partition_.assign(std::min<size_t>(partition_.size(), 1), partition_id_type{});
     edge_count_ = 0;
   }
 
-- 
2.43.0


From 46debabc4fd4f06b6db4f7cbe24e9927eb91b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 30/59] fix: source_id and target_id prefer the graph's own
 function, so transpose_view swaps them for every edge container

---
 include/graph/detail/edge_cpo.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 80ab59f..f7fc983 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -43,7 +43,7 @@ namespace _cpo_impls {
       _tuple_like            // Tier 7: tuple/pair
     };
 
-    // Check if the underlying native edge type has target_id() member - highest priority
+    // Check if the underlying native edge type has target_id() member
     // This checks uv.value()->target_id() where value() returns iterator to native edge
     template <typename G, typename E>
     concept _has_native_edge_member =
@@ -101,10 +101,10 @@ namespace _cpo_impls {
 
     template <typename G, typename E>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
-      if constexpr (_has_native_edge_member<G, E>) {
-        return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).target_id())};
-      } else if constexpr (_has_adl_descriptor<G, E>) {
+      if constexpr (_has_adl_descriptor<G, E>) {
         return {_St::_adl_descriptor, noexcept(target_id(std::declval<const G&>(), std::declval<const E&>()))};
+      } else if constexpr (_has_native_edge_member<G, E>) {
+        return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).target_id())};
       } else if constexpr (_has_adj_list_descriptor<G, E>) {
         // Default to false (safe) since we have conditional logic
         return {_St::_adj_list_descriptor, false};
@@ -129,8 +129,8 @@ namespace _cpo_impls {
              * @brief Get target vertex ID from an edge
              * 
              * Resolution order (seven-tier approach):
-             * 1. (*uv.value()).target_id() - Native edge member function (highest priority)
-             * 2. target_id(g, uv) - ADL with edge_descriptor
+             * 1. target_id(g, uv) - ADL with edge_descriptor (highest priority)
+             * 2. (*uv.value()).target_id() - Native edge member function
              * 3. uv.target_id(uv.source().underlying_value(g)) - adj_list::edge_descriptor (Tier 4)
              * 4. uv.target_id() - edge_list::edge_descriptor member (Tier 5)
              * 5. uv.target_id - edge_data data member (Tier 6)
@@ -205,7 +205,7 @@ namespace _cpo_impls {
       _tuple_like            // Tier 7: tuple/pair
     };
 
-    // Check if the underlying native edge type has source_id() member - highest priority
+    // Check if the underlying native edge type has source_id() member
     // This checks uv.value()->source_id() where value() returns iterator to native edge
     template <typename G, typename E>
     concept _has_native_edge_member =
@@ -264,12 +264,12 @@ namespace _cpo_impls {
 
     template <typename G, typename E>
     [[nodiscard]] consteval _Choice_t<_St> _Choose() noexcept {
-      if constexpr (_has_native_edge_member<G, E>) {
-        return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).source_id())};
-      } else if constexpr (_has_member<G, E>) {
+      if constexpr (_has_member<G, E>) {
         return {_St::_member, noexcept(std::declval<G>().source_id(std::declval<const E&>()))};
       } else if constexpr (_has_adl<G, E>) {
         return {_St::_adl, noexcept(source_id(std::declval<G>(), std::declval<const E&>()))};
+      } else if constexpr (_has_native_edge_member<G, E>) {
+        return {_St::_native_edge_member, noexcept((*std::declval<const E&>().value()).source_id())};
       } else if constexpr (_has_adj_list_descriptor<E>) {
         return {_St::_adj_list_descriptor, noexcept(std::declval<const E&>().source_id())};
       } else if constexpr (_has_edge_list_descriptor<E>) {
@@ -293,9 +293,9 @@ namespace _cpo_impls {
              * @brief Get the source vertex ID for an edge
              * 
              * Resolution order (seven-tier approach):
-             * 1. (*uv.value()).source_id() - Native edge member function (highest priority)
-             * 2. g.source_id(uv) - Graph member function
-             * 3. source_id(g, uv) - ADL
+             * 1. g.source_id(uv) - Graph member function (highest priority)
+             * 2. source_id(g, uv) - ADL
+             * 3. (*uv.value()).source_id() - Native edge member function
              * 4. uv.source_id() - adj_list::edge_descriptor member (Tier 4)
              * 5. uv.source_id() - edge_list::edge_descriptor member (Tier 5)
              * 6. uv.source_id - edge_data data member (Tier 6)
-- 
2.43.0


From 81da7e0d69c762e7c551f047f3ed0670fac8434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 31/59] fix: source_id of an incoming edge finds its edge when
 the vertices are in a map

---
 include/graph/detail/edge_cpo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index f7fc983..e5b0410 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -336,10 +336,10 @@ namespace _cpo_impls {
         } else if constexpr (_Choice<_G, _E>._Strategy == _St::_adj_list_descriptor) {
           if constexpr (_E::is_in_edge) {
             // For in-edge descriptors: navigate the in_edges container if available.
-            // If the vertex data doesn't expose .in_edges(), fall back to the
-            // no-arg source_id() (returns the owning / queried vertex ID).
+            // If the vertex data (or the mapped value, when vertices are in a map) doesn't expose
+            // .in_edges(), fall back to the no-arg source_id() (returns the owning / queried vertex ID).
             auto&& vd = uv.source().underlying_value(std::forward<G>(g));
-            if constexpr (requires { vd.in_edges(); }) {
+            if constexpr (requires { vd.in_edges(); } || requires { vd.second.in_edges(); }) {
               return uv.source_id(vd);
             } else {
               return uv.source_id();
-- 
2.43.0


From 920b1b46581c660dadbc1661ca864d8a45713da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:05 +0000
Subject: [PATCH 32/59] fix: compressed_graph: loading vertex values from an
 unsized forward range does not compile

---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index eaad475..3f3368e 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -187,7 +187,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = max(vertex_count, static_cast<size_type>(std::ranges::distance(vrng)));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
@@ -216,7 +216,7 @@ public: // Operations
     if constexpr (sized_range<VRng>)
       vertex_count = max(vertex_count, std::ranges::size(vrng));
     else if (vertex_count == 0) // assume 0 means not provided and need to evaluate
-      vertex_count = max(vertex_count, std::ranges::distance(vrng));
+      vertex_count = max(vertex_count, static_cast<size_type>(std::ranges::distance(vrng)));
 
     // Don't shrink if already allocated - only grow if needed
     if (size() > 0)
-- 
2.43.0


From 8fa055848c94e102df0aca5f78aa7c6c8067e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 33/59] fix: compressed_graph: num_vertices(g,pid) ignores the
 partitions

---
 include/graph/container/compressed_graph.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 3f3368e..a2d1e64 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1422,6 +1422,21 @@ public: // Friend functions
     return static_cast<partition_id_type>(std::distance(g.partition_.begin(), it));
   }
 
+  /**
+   * @brief Get the number of vertices in a specific partition.
+   * 
+   * @param g The graph (const reference)
+   * @param pid The partition ID (0-based index)
+   * @return Number of vertices in vertices(g, pid); 0 if pid is out of range
+   * @note Complexity: O(1)
+   * @note This is the ADL customization point for the num_vertices(g, pid) CPO
+  */
+  template <typename G, std::integral PId>
+  requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base>
+  [[nodiscard]] friend constexpr auto num_vertices(const G& g, const PId& pid) noexcept -> size_type {
+    return static_cast<size_type>(vertices(g, pid).size());
+  }
+
   /**
    * @brief Get the number of partitions in the graph.
    * 
-- 
2.43.0


From b04c3dfadc86fd9a5e72f1cf5078b6f84469ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 34/59] fix: compressed_graph: clear() is noexcept but can
 allocate

---
 include/graph/container/compressed_graph.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a2d1e64..1151e36 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -509,8 +509,7 @@ public: // Properties - resolve ambiguity from multiple inheritance
     col_index_.clear();
     row_values_base::clear();
     col_values_base::clear();
-    partition_.clear();
-    terminate_partitions();
+    partition_.clear(); // no partitions listed: all vertices are in partition 0
   }
 
   /**
-- 
2.43.0


From e4c5294278f377ee9696857eeaa63827fc60c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 35/59] fix: compressed_graph: load_vertices(empty range,
 vertex_count) leaves added vertices without values

---
 include/graph/container/compressed_graph.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 1151e36..40047f1 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -655,6 +655,10 @@ public: // Operations
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
+
+    // An empty vrng can add vertices, by vertex_count, when vertex values were loaded before
+    if (row_values_base::size() > 0 && row_values_base::size() < size())
+      row_values_base::resize(size());
   }
 
   /**
-- 
2.43.0


From 5c9f4d148a2c23cef9991f4bfd249642d934407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 36/59] fix: compressed_graph: the last partition lacks
 vertices added after construction

---
 include/graph/container/compressed_graph.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 40047f1..a449070 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1158,7 +1158,10 @@ public: // Friend functions
 
     // Return range [partition_[pid], partition_[pid+1])
     const auto begin_vid = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid)]);
-    const auto end_vid   = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
+    // The last partition also has the vertices added after construction
+    const auto end_vid   = static_cast<std::size_t>(pid) + 1 == num_parts
+                                 ? static_cast<std::size_t>(g.size())
+                                 : static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
 
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
-- 
2.43.0


From 66ebcd99fc22e016cd7ba04d43728a9a217e19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 37/59] fix: topological sort views: recursion overflows the
 stack on deep graphs

---
 include/graph/views/topological_sort.hpp | 62 ++++++++++++++++--------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/include/graph/views/topological_sort.hpp b/include/graph/views/topological_sort.hpp
index ff743de..9767de4 100644
--- a/include/graph/views/topological_sort.hpp
+++ b/include/graph/views/topological_sort.hpp
@@ -232,17 +232,47 @@ namespace topo_detail {
     [[nodiscard]] const std::optional<vertex_type>& cycle_vertex() const noexcept { return cycle_vertex_; }
 
   private:
-    // Recursive DFS visit for topological sort
-    void dfs_visit(G& g, vertex_type v, bool detect_cycles) {
-      auto vid = adj_list::vertex_id(g, v);
-      visited_.mark_visited(vid);
-
-      if (detect_cycles) {
-        rec_stack_[vid] = true;
-      }
+    // Depth-first visit for topological sort. Uses an explicit stack, as the depth of
+    // the search is bounded only by the number of vertices.
+    void dfs_visit(G& g, vertex_type root, bool detect_cycles) {
+      using edge_range_type = typename Accessor::template edge_range_t<G>;
+
+      struct stack_entry {
+        vertex_type                               vertex;
+        vertex_id_type                            id;
+        std::ranges::iterator_t<edge_range_type>  edge_iter;
+        std::ranges::sentinel_t<edge_range_type>  edge_end;
+      };
+      using stack_alloc = typename std::allocator_traits<Alloc>::template rebind_alloc<stack_entry>;
+
+      std::vector<stack_entry, stack_alloc> stack(stack_alloc(post_order_.get_allocator()));
+
+      auto discover = [&](vertex_type v) {
+        vertex_id_type vid = adj_list::vertex_id(g, v);
+        visited_.mark_visited(vid);
+        if (detect_cycles) {
+          rec_stack_[vid] = true;
+        }
+        auto edge_range = Accessor{}.edges(g, v);
+        stack.push_back(stack_entry{v, vid, std::ranges::begin(edge_range), std::ranges::end(edge_range)});
+      };
+
+      discover(root);
+      while (!stack.empty()) {
+        stack_entry& top = stack.back();
+
+        if (top.edge_iter == top.edge_end) {
+          // Add to post-order after all children visited
+          if (detect_cycles) {
+            rec_stack_[top.id] = false;
+          }
+          post_order_.push_back(top.vertex);
+          stack.pop_back();
+          continue;
+        }
 
-      // Visit all children
-      for (auto edge : Accessor{}.edges(g, v)) {
+        auto edge = *top.edge_iter;
+        ++top.edge_iter;
         auto target_v   = Accessor{}.neighbor(g, edge);
         auto target_vid = adj_list::vertex_id(g, target_v);
 
@@ -253,19 +283,9 @@ namespace topo_detail {
         }
 
         if (!visited_.is_visited(target_vid)) {
-          dfs_visit(g, target_v, detect_cycles);
-          if (cycle_vertex_) {
-            return; // Propagate early exit
-          }
+          discover(target_v);
         }
       }
-
-      if (detect_cycles) {
-        rec_stack_[vid] = false;
-      }
-
-      // Add to post-order after all children visited
-      post_order_.push_back(v);
     }
   };
 
-- 
2.43.0


From 0f739e28b9d4ae1ca6792823b498c7aeaebebbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 38/59] fix: find_vertex: default for index based vertices
 walks from the first vertex

---
 include/graph/adj_list/detail/graph_cpo.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 7ceb751..6845037 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -556,8 +556,17 @@ namespace _cpo_impls {
           using view_iterator      = typename view_type::iterator;
           return view_iterator{map_iter};
         } else if constexpr (_Choice<_G, _VId>._Strategy == _St::_random_access) {
-          using diff_type = std::iter_difference_t<decltype(std::ranges::begin(vertices(std::forward<G>(g))))>;
-          return std::ranges::next(std::ranges::begin(vertices(std::forward<G>(g))), static_cast<diff_type>(uid));
+          auto first       = std::ranges::begin(vertices(std::forward<G>(g)));
+          using first_type = decltype(first);
+          using diff_type  = std::iter_difference_t<first_type>;
+          if constexpr (is_vertex_descriptor_view_v<std::remove_cvref_t<decltype(vertices(std::forward<G>(g)))>> &&
+                        std::is_same_v<typename std::iter_value_t<first_type>::storage_type, std::size_t>) {
+            // A vertex_descriptor_view iterator is only a forward iterator, but an index-based one
+            // can be constructed directly from the position: O(1) rather than O(uid).
+            return first_type{(*first).value() + static_cast<std::size_t>(uid)};
+          } else {
+            return std::ranges::next(first, static_cast<diff_type>(uid));
+          }
         }
       }
     };
-- 
2.43.0


From 57cb4c760aa5c1b02264549e6f53cdad0ab6b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 39/59] fix: kosaraju: allocates and scans a visited array per
 component

---
 .../graph/algorithm/connected_components.hpp  | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 92fab30..0970b79 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -198,17 +198,21 @@ void kosaraju(G&&        g,        // graph
   std::ranges::reverse_view reverse{order};
   for (auto& uid : reverse) {
     if (component[uid] == std::numeric_limits<CT>::max()) {
-      // Use DFS view on transpose to find all vertices in this SCC
+      // DFS on transpose to find all vertices in this SCC
       // In transpose: if u->v in original, v->u in transpose
       // So we find all vertices that can reach this root in original graph
-      graph::views::vertices_dfs_view<std::remove_reference_t<GT>> dfs(g_t, uid);
-      for (auto&& [v] : dfs) {
-        auto vid = vertex_id(g_t, v);
-        if (component[vid] != std::numeric_limits<CT>::max()) {
-          // Already assigned to SCC, skip this branch
-          dfs.cancel(graph::views::cancel_search::cancel_branch);
-        } else {
-          component[vid] = cid; // Assign to current SCC
+      std::stack<vertex_id_t<GT>> dfs_stack;
+      dfs_stack.push(static_cast<vertex_id_t<GT>>(uid));
+      component[uid] = cid;
+      while (!dfs_stack.empty()) {
+        auto current = dfs_stack.top();
+        dfs_stack.pop();
+        for (auto&& e : edges(g_t, *find_vertex(g_t, current))) {
+          auto vid = target_id(g_t, e);
+          if (component[vid] == std::numeric_limits<CT>::max()) {
+            component[vid] = cid; // Assign to current SCC
+            dfs_stack.push(vid);
+          }
         }
       }
       ++cid; // Move to next SCC
-- 
2.43.0


From a453fec943bfb779babdc425108b3a9bf0f9d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 40/59] fix: articulation_points, biconnected_components:
 quadratic in the degree

---
 .../graph/algorithm/articulation_points.hpp   | 44 +++++++++----------
 .../algorithm/biconnected_components.hpp      | 33 +++++++-------
 2 files changed, 37 insertions(+), 40 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 9d3b5d8..93f2dfa 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -144,18 +144,25 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
   size_t timer = 0;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
-  // edge_index tracks how far we've iterated through edges(g, uid)
+  // Frame for iterative DFS: (vertex_id, next edge, end of edges, parent_edge_skipped)
+  // edge_it tracks how far we've iterated through edges(g, uid)
   // parent_edge_skipped ensures only the first reverse edge to the DFS parent
   // is treated as the tree edge; subsequent parallel edges update low-link.
+  using edge_range_type = std::remove_cvref_t<decltype(edges(g, std::declval<vid_t&>()))>;
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t                                    uid;
+    std::ranges::iterator_t<edge_range_type> edge_it;
+    std::ranges::sentinel_t<edge_range_type> edge_end;
+    bool                                     parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
 
+  auto push_frame = [&](vid_t uid) {
+    auto edge_range = edges(g, uid);
+    stk.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
+
   // Outer loop: handle disconnected graphs
   for (auto [start] : views::basic_vertexlist(g)) {
     if (disc[start] != UNVISITED) {
@@ -163,35 +170,26 @@ void articulation_points(G&& g, Iter cut_vertices) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      // Collect edges into a temporary to allow indexed access
-      // We advance through edges one at a time using edge_idx
-      auto edge_range = views::incidence(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto& [uid, it, it_end, parent_skipped] = stk.top();
 
       if (it == it_end) {
         // All edges processed — backtrack
+        vid_t backtrack_uid = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          const vid_t par_uid = stk.top().uid;
           // Update low-link of parent
-          if (low[uid] < low[par_uid]) {
-            low[par_uid] = low[uid];
+          if (low[backtrack_uid] < low[par_uid]) {
+            low[par_uid] = low[backtrack_uid];
           }
 
           // Check articulation point condition for non-root
           if (parent[par_uid] != NO_PARENT) {
             // Non-root rule: child v has low[v] >= disc[u]
-            if (low[uid] >= disc[par_uid] && !emitted[par_uid]) {
+            if (low[backtrack_uid] >= disc[par_uid] && !emitted[par_uid]) {
               *cut_vertices++ = par_uid;
               emitted[par_uid] = true;
             }
@@ -201,7 +199,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
       }
 
       vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      ++it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -213,7 +211,7 @@ void articulation_points(G&& g, Iter cut_vertices) {
         parent[vid] = uid;
         child_count[uid]++;
         disc[vid] = low[vid] = timer++;
-        stk.push({vid, 0, false});
+        push_frame(vid);
       } else if (vid == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 7781e09..597e816 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -156,15 +156,22 @@ void biconnected_components(G&& g, OuterContainer& components) {
   using edge_pair = std::pair<vid_t, vid_t>;
   std::stack<edge_pair> edge_stk;
 
-  // Frame for iterative DFS: (vertex_id, edge_index, parent_edge_skipped)
+  // Frame for iterative DFS: (vertex_id, next edge, end of edges, parent_edge_skipped)
+  using edge_range_type = std::remove_cvref_t<decltype(edges(g, std::declval<vid_t&>()))>;
   struct dfs_frame {
-    vid_t  uid;
-    size_t edge_idx;
-    bool   parent_edge_skipped;
+    vid_t                                    uid;
+    std::ranges::iterator_t<edge_range_type> edge_it;
+    std::ranges::sentinel_t<edge_range_type> edge_end;
+    bool                                     parent_edge_skipped;
   };
 
   std::stack<dfs_frame> stk;
 
+  auto push_frame = [&](vid_t uid) {
+    auto edge_range = edges(g, uid);
+    stk.push({uid, std::ranges::begin(edge_range), std::ranges::end(edge_range), false});
+  };
+
   // Helper: pop edges from edge_stk until (u, v) is popped (inclusive).
   // Collect unique vertex IDs and push_back as a new component.
   auto flush_component = [&](vid_t u, vid_t v) {
@@ -205,25 +212,17 @@ void biconnected_components(G&& g, OuterContainer& components) {
     }
 
     disc[start] = low[start] = timer++;
-    stk.push({start, 0, false});
+    push_frame(start);
 
     while (!stk.empty()) {
-      auto& [uid, edge_idx, parent_skipped] = stk.top();
-
-      auto edge_range = edges(g, uid);
-      auto it         = std::ranges::begin(edge_range);
-      auto it_end     = std::ranges::end(edge_range);
-
-      // Advance iterator to edge_idx position
-      for (size_t i = 0; i < edge_idx && it != it_end; ++i, ++it) {
-      }
+      auto& [uid, it, it_end, parent_skipped] = stk.top();
 
       if (it == it_end) {
         // All edges processed — backtrack
         vid_t backtrack_uid = uid;
         stk.pop();
         if (!stk.empty()) {
-          auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
+          const vid_t par_uid = stk.top().uid;
           // Update low-link of parent
           if (low[backtrack_uid] < low[par_uid]) {
             low[par_uid] = low[backtrack_uid];
@@ -240,7 +239,7 @@ void biconnected_components(G&& g, OuterContainer& components) {
       }
 
       vid_t vid = target_id(g, *it);
-      ++edge_idx; // advance for next iteration
+      ++it; // advance for next iteration
 
       // Skip self-loops
       if (vid == uid) {
@@ -252,7 +251,7 @@ void biconnected_components(G&& g, OuterContainer& components) {
         parent[vid] = uid;
         disc[vid] = low[vid] = timer++;
         edge_stk.push({uid, vid});
-        stk.push({vid, 0, false});
+        push_frame(vid);
       } else if (vid == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
-- 
2.43.0


From 18deaad1fcd57b8139d4fde09cbd32e7e099a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 41/59] fix: edges(g,u), degree: walk the whole edge container
 to learn a size it knows

---
 include/graph/adj_list/edge_descriptor_view.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/graph/adj_list/edge_descriptor_view.hpp b/include/graph/adj_list/edge_descriptor_view.hpp
index 07527fb..d3ac851 100644
--- a/include/graph/adj_list/edge_descriptor_view.hpp
+++ b/include/graph/adj_list/edge_descriptor_view.hpp
@@ -112,7 +112,11 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      if constexpr (requires { container.size(); }) {
+        size_ = static_cast<std::size_t>(container.size());
+      } else {
+        size_ = static_cast<std::size_t>(std::distance(begin_, end_));
+      }
     }
   }
 
@@ -137,7 +141,11 @@ public:
     } else {
       begin_ = container.begin();
       end_   = container.end();
-      size_  = static_cast<std::size_t>(std::distance(begin_, end_));
+      if constexpr (requires { container.size(); }) {
+        size_ = static_cast<std::size_t>(container.size());
+      } else {
+        size_ = static_cast<std::size_t>(std::distance(begin_, end_));
+      }
     }
   }
 
-- 
2.43.0


From 6dc8a30208dd167b5d6f83eb7bf96dd4b873cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 42/59] fix: afforest: rebuilds the edge range for every edge
 it links

---
 include/graph/algorithm/connected_components.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 0970b79..51e46c6 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -759,7 +759,7 @@ void afforest(G&&          g,         // graph
     if (neighbor_rounds < edges(g, uid).size()) {
       auto it = edges(g, vinfo.vertex).begin();
       std::advance(it, neighbor_rounds); // Skip already-processed neighbors
-      for (; it != edges(g, vinfo.vertex).end(); ++it) {
+      for (auto it_end = edges(g, vinfo.vertex).end(); it != it_end; ++it) {
         link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g, *it)), component);
       }
     }
@@ -866,13 +866,13 @@ void afforest(G&&          g,         // graph
     if (neighbor_rounds < edges(g, uid).size()) {
       auto it = edges(g, u).begin();
       std::advance(it, neighbor_rounds); // Skip sampled neighbors
-      for (; it != edges(g, u).end(); ++it) {
+      for (auto it_end = edges(g, u).end(); it != it_end; ++it) {
         link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g, *it)), component);
       }
     }
     // Process all backward edges (from transpose g_t)
     // This ensures bidirectional reachability for undirected graphs
-    for (auto it2 = edges(g_t, u).begin(); it2 != edges(g_t, u).end(); ++it2) {
+    for (auto it2 = edges(g_t, u).begin(), it2_end = edges(g_t, u).end(); it2 != it2_end; ++it2) {
       link(static_cast<vertex_id_t<G>>(uid), static_cast<vertex_id_t<G>>(target_id(g_t, *it2)), component);
     }
   }
-- 
2.43.0


From 773a3d82d42383f871a40a1637a62b94ec893c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 43/59] fix: edges(g,uid) and in_edges(g,uid) don't copy the
 range a graph's own operation returns

---
 include/graph/adj_list/detail/graph_cpo.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index 6845037..d40d5ae 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -785,7 +785,7 @@ namespace _cpo_impls {
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
           // ADL: edges(g, uid)
-          auto result = [&g, &uid]() {
+          decltype(auto) result = [&g, &uid]() -> decltype(auto) {
             if constexpr (requires { typename _G::vertex_id_type; }) {
               return edges(g, static_cast<typename _G::vertex_id_type>(uid));
             } else {
@@ -793,7 +793,7 @@ namespace _cpo_impls {
             }
           }();
           auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
-          return _wrap_if_needed(std::move(result), v);
+          return _wrap_if_needed(std::forward<decltype(result)>(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           // Default: find vertex then call edges(g, u)
           auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
@@ -1000,7 +1000,7 @@ namespace _cpo_impls {
         using _VId = std::remove_cvref_t<VId>;
 
         if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_adl) {
-          auto result = [&g, &uid]() {
+          decltype(auto) result = [&g, &uid]() -> decltype(auto) {
             if constexpr (requires { typename _G::vertex_id_type; }) {
               return in_edges(g, static_cast<typename _G::vertex_id_type>(uid));
             } else {
@@ -1008,7 +1008,7 @@ namespace _cpo_impls {
             }
           }();
           auto v = *find_vertex(g, static_cast<vertex_id_t<_G>>(uid));
-          return _wrap_in_edge(std::move(result), v);
+          return _wrap_in_edge(std::forward<decltype(result)>(result), v);
         } else if constexpr (_Choice_uid<_G, _VId>._Strategy == _St_uid::_default) {
           auto v = *find_vertex(std::forward<G>(g), static_cast<vertex_id_t<_G>>(uid));
           return (*this)(std::forward<G>(g), v);
-- 
2.43.0


From 8119d5ce4bac9cc05945058ce630a9469c813b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 44/59] fix: degree, in_degree, edges, in_edges, vertices and
 num_vertices are noexcept only if the operations they call are

---
 include/graph/adj_list/detail/graph_cpo.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d40d5ae..41994ae 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -149,7 +149,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_adl_pid<G, PId>) {
         return {_St_pid::_adl, noexcept(vertices(std::declval<G&>(), std::declval<const PId&>()))};
       } else if constexpr (_has_default_pid<G, PId>) {
-        return {_St_pid::_default, true}; // Default is noexcept
+        return {_St_pid::_default, _Choose<G>()._No_throw}; // Default is noexcept if the whole range is
       } else {
         return {_St_pid::_none, false};
       }
@@ -673,7 +673,8 @@ namespace _cpo_impls {
     template <typename G, typename VId>
     [[nodiscard]] consteval _Choice_t<_St_uid> _Choose_uid() noexcept {
       if constexpr (_has_adl_uid<G, VId>) {
-        return {_St_uid::_adl, noexcept(edges(std::declval<G&>(), std::declval<const VId&>()))};
+        return {_St_uid::_adl, noexcept(edges(std::declval<G&>(), std::declval<const VId&>())) &&
+                                     noexcept(find_vertex(std::declval<G&>(), std::declval<const VId&>()))};
       } else if constexpr (_has_default_uid<G, VId>) {
         // Default is not noexcept as it depends on find_vertex and edges(g,u)
         return {_St_uid::_default, false};
@@ -927,7 +928,8 @@ namespace _cpo_impls {
     template <typename G, typename VId>
     [[nodiscard]] consteval _Choice_t<_St_uid> _Choose_uid() noexcept {
       if constexpr (_has_adl_uid<G, VId>) {
-        return {_St_uid::_adl, noexcept(in_edges(std::declval<G&>(), std::declval<const VId&>()))};
+        return {_St_uid::_adl, noexcept(in_edges(std::declval<G&>(), std::declval<const VId&>())) &&
+                                     noexcept(find_vertex(std::declval<G&>(), std::declval<const VId&>()))};
       } else if constexpr (_has_default_uid<G, VId>) {
         return {_St_uid::_default, false};
       } else {
@@ -1088,7 +1090,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_adl_u<G, U>) {
         return {_St_u::_adl, noexcept(in_degree(std::declval<G&>(), std::declval<const U&>()))};
       } else if constexpr (_has_default_u<G, U>) {
-        return {_St_u::_default, true};
+        return {_St_u::_default, noexcept(in_edges(std::declval<G&>(), std::declval<const U&>()))};
       } else {
         return {_St_u::_none, false};
       }
@@ -1458,7 +1460,7 @@ namespace _cpo_impls {
       } else if constexpr (_has_adl_pid<G, PId>) {
         return {_St_pid::_adl, noexcept(num_vertices(std::declval<const G&>(), std::declval<const PId&>()))};
       } else if constexpr (_has_default_pid<G, PId>) {
-        return {_St_pid::_default, true}; // Default is noexcept
+        return {_St_pid::_default, _Choose<G>()._No_throw}; // Default is noexcept if the whole range is
       } else {
         return {_St_pid::_none, false};
       }
@@ -1862,8 +1864,8 @@ namespace _cpo_impls {
         return {_St_u::_adl, noexcept(degree(std::declval<G&>(), std::declval<const U&>()))};
       } else if constexpr (_has_default_u<G, U>) {
         // Default implementation uses size() or distance() depending on the range type
-        // Both operations typically don't throw, so we return true
-        return {_St_u::_default, true};
+        // Both operations typically don't throw, but edges(g, u) may
+        return {_St_u::_default, noexcept(edges(std::declval<G&>(), std::declval<const U&>()))};
       } else {
         return {_St_u::_none, false};
       }
-- 
2.43.0


From 2d086575b9cb5f448b68f98c06cc456907359ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 45/59] fix: bellman_ford and dijkstra_shortest_paths count
 vertices in size_t

The number of vertices of a graph that uses every value of its vertex id type (e.g. 256 vertices
with uint8_t ids) doesn't fit in that type: valid sources were rejected, vertices weren't
initialized, and the rounds of relaxation were cut short.
---
 .../graph/algorithm/bellman_ford_shortest_paths.hpp |  9 +++++----
 include/graph/algorithm/dijkstra_shortest_paths.hpp | 13 +++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index dbc69c0..66e3a0e 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -225,11 +225,12 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   constexpr auto zero     = shortest_path_zero<DistanceValue>();
   constexpr auto infinite = shortest_path_infinite_distance<DistanceValue>();
 
-  const id_type N = static_cast<id_type>(num_vertices(g));
+  // size_t, as the number of vertices may not fit in the vertex id type
+  const size_t N = static_cast<size_t>(num_vertices(g));
 
   // Seed the queue with the initial vertice(s)
   for (auto&& source : sources) {
-    if (source >= N || source < 0) {
+    if (static_cast<size_t>(source) >= N || source < 0) {
       throw std::out_of_range(
             std::format("bellman_ford_shortest_paths: source vertex id '{}' is out of range", source));
     }
@@ -243,7 +244,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
 
   // Evaluate the shortest paths
   bool at_least_one_edge_relaxed = false;
-  for (id_type k = 0; k < N; ++k) {
+  for (size_t k = 0; k < N; ++k) {
     at_least_one_edge_relaxed = false;
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
       if constexpr (has_on_examine_edge<G, Visitor>) {
@@ -270,7 +271,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
           predecessor[vid] = uid; // close the cycle
           // uid may only be reachable from the cycle: N steps back along the predecessors end on it
           id_type on_cycle = static_cast<id_type>(uid);
-          for (id_type k = 0; k < N; ++k) {
+          for (size_t k = 0; k < N; ++k) {
             on_cycle = static_cast<id_type>(predecessor[static_cast<size_t>(on_cycle)]);
           }
           if constexpr (has_on_edge_not_minimized<G, Visitor>) {
diff --git a/include/graph/algorithm/dijkstra_shortest_paths.hpp b/include/graph/algorithm/dijkstra_shortest_paths.hpp
index ede2b58..b13112f 100644
--- a/include/graph/algorithm/dijkstra_shortest_paths.hpp
+++ b/include/graph/algorithm/dijkstra_shortest_paths.hpp
@@ -186,7 +186,8 @@ constexpr void dijkstra_shortest_paths(
   constexpr auto zero     = shortest_path_zero<distance_type>();
   constexpr auto infinite = shortest_path_infinite_distance<distance_type>();
 
-  const id_type N = static_cast<id_type>(num_vertices(g));
+  // size_t, as the number of vertices may not fit in the vertex id type
+  const size_t N = static_cast<size_t>(num_vertices(g));
 
   auto qcompare = [&distances](id_type a, id_type b) {
     return distances[static_cast<size_t>(a)] > distances[static_cast<size_t>(b)];
@@ -196,18 +197,18 @@ constexpr void dijkstra_shortest_paths(
 
   // (The optimizer removes this loop if on_initialize_vertex() is empty.)
   if constexpr (has_on_initialize_vertex<G, Visitor>) {
-    for (id_type uid = 0; uid < N; ++uid) {
-      visitor.on_initialize_vertex(g, *find_vertex(g, uid));
+    for (size_t i = 0; i < N; ++i) {
+      visitor.on_initialize_vertex(g, *find_vertex(g, static_cast<id_type>(i)));
     }
   } else if constexpr (has_on_initialize_vertex_id<G, Visitor>) {
-    for (id_type uid = 0; uid < N; ++uid) {
-      visitor.on_initialize_vertex(g, uid);
+    for (size_t i = 0; i < N; ++i) {
+      visitor.on_initialize_vertex(g, static_cast<id_type>(i));
     }
   }
 
   // Seed the queue with the initial vertice(s)
   for (auto&& source : sources) {
-    if (source >= N || source < 0) {
+    if (static_cast<size_t>(source) >= N || source < 0) {
       throw std::out_of_range(std::format("dijkstra_shortest_paths: source vertex id '{}' is out of range", source));
     }
     queue.push(source);
-- 
2.43.0


From b734210c93dbe5b5f4aeb7bc6ffd2450d834199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 46/59] fix: connected_components ends on a graph that uses
 every vertex id

---
 include/graph/algorithm/connected_components.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 51e46c6..5b3193e 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -459,7 +459,8 @@ size_t connected_components(G&&        g,        // graph
 
   std::stack<vertex_id_t<G>> S;
   CT                         cid = 0; // Current component ID
-  for (vertex_id_t<G> uid = 0; uid < N; ++uid) {
+  for (size_t i = 0; i < N; ++i) {
+    const vertex_id_t<G> uid = static_cast<vertex_id_t<G>>(i);
     if (component[uid] < std::numeric_limits<CT>::max()) {
       continue; // Already assigned to a component
     }
-- 
2.43.0


From ada13ed311336b271da5a07143a28316b3baaf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 47/59] fix: articulation_points' mark for no parent isn't a
 vertex id

With as many vertices as the vertex id type has values (e.g. 256 with uint8_t), the mark was
vertex 0, so cut vertices with parent 0 weren't reported.
---
 include/graph/algorithm/articulation_points.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 93f2dfa..e155721 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -134,11 +134,11 @@ void articulation_points(G&& g, Iter cut_vertices) {
   }
 
   constexpr size_t UNVISITED = std::numeric_limits<size_t>::max();
-  const vid_t      NO_PARENT = static_cast<vid_t>(N); // sentinel for "no parent"
+  constexpr size_t NO_PARENT = std::numeric_limits<size_t>::max(); // sentinel for "no parent"; no vertex id
 
   std::vector<size_t> disc(N, UNVISITED);
   std::vector<size_t> low(N, UNVISITED);
-  std::vector<vid_t>  parent(N, NO_PARENT);
+  std::vector<size_t> parent(N, NO_PARENT);
   std::vector<size_t> child_count(N, 0); // DFS tree children count (for root rule)
   std::vector<bool>   emitted(N, false); // deduplication guard
 
@@ -208,11 +208,11 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
       if (disc[vid] == UNVISITED) {
         // Tree edge: vid is a new DFS child of uid
-        parent[vid] = uid;
+        parent[vid] = static_cast<size_t>(uid);
         child_count[uid]++;
         disc[vid] = low[vid] = timer++;
         push_frame(vid);
-      } else if (vid == parent[uid] && !parent_skipped) {
+      } else if (static_cast<size_t>(vid) == parent[uid] && !parent_skipped) {
         // First reverse edge to DFS parent — this is the tree edge; skip it
         parent_skipped = true;
       } else {
-- 
2.43.0


From 863bbcaf567a84f80716d063a6d68d169e0bc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 48/59] fix: kruskal and inplace_kruskal end when the largest
 id of the vertex id type is used

---
 include/graph/algorithm/mst.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index a70df14..0ac8c14 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -577,18 +577,19 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::sort(e_copy, outer_compare);
 
   // Initialize disjoint-set: each vertex starts in its own set
-  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
-    subsets[uid].count = 0;   // Initial rank is 0
+  const size_t         num_ids = static_cast<size_t>(N) + 1; // may not fit in VId
+  disjoint_vector<VId> subsets(num_ids); // Size N+1 to accommodate vertices 0 through N
+  for (size_t uid = 0; uid < num_ids; ++uid) {
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
+    subsets[uid].count = 0;                     // Initial rank is 0
   }
 
   // MST has exactly N-1 edges for a connected graph (or fewer for disconnected)
   t.reserve(N); // Pre-allocate space for efficiency
 
   // Track MST statistics
-  EV     total_weight   = EV{};  // Sum of edge weights in MST
-  size_t num_components = N + 1; // Initially each vertex is its own component
+  EV     total_weight   = EV{};    // Sum of edge weights in MST
+  size_t num_components = num_ids; // Initially each vertex is its own component
 
   // Process edges in sorted order (by weight)
   for (auto&& [uid, vid, val] : e_copy) {
@@ -717,18 +718,19 @@ auto inplace_kruskal(IELR&&    e,      // graph
   std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
 
   // Initialize disjoint-set: each vertex starts in its own set
-  disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
-  for (VId uid = 0; uid <= N; ++uid) {
-    subsets[uid].id    = uid; // Each vertex is its own parent (root)
-    subsets[uid].count = 0;   // Initial rank is 0
+  const size_t         num_ids = static_cast<size_t>(N) + 1; // may not fit in VId
+  disjoint_vector<VId> subsets(num_ids); // Size N+1 to accommodate vertices 0 through N
+  for (size_t uid = 0; uid < num_ids; ++uid) {
+    subsets[uid].id    = static_cast<VId>(uid); // Each vertex is its own parent (root)
+    subsets[uid].count = 0;                     // Initial rank is 0
   }
 
   // MST has exactly N-1 edges for a connected graph (or fewer for disconnected)
   t.reserve(N); // Pre-allocate space for efficiency
 
   // Track MST statistics
-  EV     total_weight   = EV{};  // Sum of edge weights in MST
-  size_t num_components = N + 1; // Initially each vertex is its own component
+  EV     total_weight   = EV{};    // Sum of edge weights in MST
+  size_t num_components = num_ids; // Initially each vertex is its own component
 
   // Process edges in sorted order (by weight)
   for (auto&& [uid, vid, val] : e) {
-- 
2.43.0


From d2e1dd0d97b00459a78adcc87f3cb8449c0f8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 49/59] fix: triangle_count ends on a graph that uses every
 vertex id

---
 include/graph/algorithm/tc.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/algorithm/tc.hpp b/include/graph/algorithm/tc.hpp
index 2519c6e..b4a5487 100644
--- a/include/graph/algorithm/tc.hpp
+++ b/include/graph/algorithm/tc.hpp
@@ -234,7 +234,9 @@ size_t triangle_count(G&& g) {
   // ============================================================================
   // Main loop: Process each vertex as the "first" vertex in potential triangles
   // ============================================================================
-  for (vertex_id_t<G> uid = 0; uid < vertex_count; ++uid) {
+  for (size_t i = 0; i < vertex_count; ++i) {
+    const vertex_id_t<G> uid = static_cast<vertex_id_t<G>>(i);
+
     auto u_edges = edges(g, uid);
     auto u_it    = std::ranges::begin(u_edges);
     auto u_end   = std::ranges::end(u_edges);
-- 
2.43.0


From b3ce2aa74cdd72318210c61ab2fb9e50632dca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 50/59] fix: undirected_adjacency_list that uses every vertex
 id

With as many vertices as the vertex id type has values (e.g. 256 with uint8_t), their number doesn't
fit in that type: find_vertex() found none of them, and a copy had no edges.
---
 .../container/detail/undirected_adjacency_list_impl.hpp      | 5 +++--
 include/graph/container/undirected_adjacency_list.hpp        | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index ffd1b09..4a225b4 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1111,8 +1111,9 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
   auto& g = static_cast<graph_type&>(*this);
 
   // Copy edges - an edge is in the list of both its vertices; copy it for its owner to avoid duplicates
-  for (vertex_id_type uid = 0; uid < static_cast<vertex_id_type>(other.vertices_.size()); ++uid) {
-    const auto& src_vtx = other.vertices_[uid];
+  for (size_t i = 0; i < other.vertices_.size(); ++i) {
+    const vertex_id_type uid     = static_cast<vertex_id_type>(i);
+    const auto&          src_vtx = other.vertices_[uid];
     for (auto uv = src_vtx.edges_begin(static_cast<const graph_type&>(other), uid);
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index fa9e596..8ed3671 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -1261,7 +1261,7 @@ constexpr auto find_vertex(undirected_adjacency_list<EV, VV, GV, VId, VContainer
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<size_t>(id) >= g.vertices().size()) {
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
@@ -1281,7 +1281,7 @@ constexpr auto find_vertex(const undirected_adjacency_list<EV, VV, GV, VId, VCon
   using view_iterator  = typename view_type::iterator;
   using storage_type   = typename view_iterator::value_type::storage_type;
 
-  if (id >= static_cast<VId>(g.vertices().size())) {
+  if (static_cast<size_t>(id) >= g.vertices().size()) {
     return view_iterator{static_cast<storage_type>(g.vertices().size())};
   }
   return view_iterator{static_cast<storage_type>(id)};
-- 
2.43.0


From 4034c6ce5effac18c3c253c4c7b666830745d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 51/59] fix: compressed_graph compares partitions with the
 number of vertices in size_t

With 256 vertices and uint8_t ids the number wraps to 0, and valid partition ids were rejected.
---
 include/graph/container/compressed_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a449070..3bb8ebc 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -922,7 +922,7 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(size())) {
+      if (!partition_.empty() && static_cast<size_t>(partition_.back()) > size()) {
         throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
                                       size()));
       }
-- 
2.43.0


From 311c3020a95c6476b76dfaa009043c9b8f971cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 52/59] fix: dynamic_graph compares partitions with the number
 of vertices in size_t

With 256 vertices and uint8_t ids the number wraps to 0, and valid partition ids were rejected.
---
 include/graph/container/dynamic_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index 6447fbb..d0d6d67 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -1488,7 +1488,7 @@ public: // Load operations
           throw std::invalid_argument("partition_start_ids must start with 0 and be strictly increasing");
         }
       }
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(vertices_.size())) {
+      if (!partition_.empty() && static_cast<size_t>(partition_.back()) > vertices_.size()) {
         throw std::invalid_argument("partition_start_ids contain id greater than vertex count");
       }
       partition_.push_back(static_cast<partition_id_type>(vertices_.size()));
-- 
2.43.0


From f21d2611cdb1cc8b0095e9a874a418808d88d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 53/59] fix: undirected_adjacency_list::edges() didn't compile,
 and its size wasn't the number of edges it visits

---
 .../graph/container/undirected_adjacency_list.hpp  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ed3671..0e2c40f 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -805,8 +805,9 @@ public: // Type Aliases
   // Edge iterators (nested classes)
   class edge_iterator;       // (defined below)
   class const_edge_iterator; // (defined below)
-  using edge_range       = ranges::subrange<edge_iterator, edge_iterator, ranges::subrange_kind::sized>;
-  using const_edge_range = ranges::subrange<const_edge_iterator, const_edge_iterator, ranges::subrange_kind::sized>;
+  // not sized: an edge is visited from both its vertices, so num_edges() isn't the number of edges visited
+  using edge_range       = ranges::subrange<edge_iterator, edge_iterator>;
+  using const_edge_range = ranges::subrange<const_edge_iterator, const_edge_iterator>;
 
   class const_edge_iterator {
   public:
@@ -1067,10 +1068,13 @@ public:
   /// @brief Get range of all edges.
   /// @note Each undirected edge appears twice in iteration (once from each endpoint).
   /// @complexity O(1) to create range, O(V+E) to iterate.
-  edge_range       edges() { return {edge_iterator(*this, begin()), edge_iterator(*this, end()), this->edges_size_}; }
+  edge_range edges() {
+    auto& g = static_cast<graph_type&>(*this);
+    return {edge_iterator(g, begin()), edge_iterator(g, end())};
+  }
   const_edge_range edges() const {
-    return {const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).begin()),
-            const_edge_iterator(*this, const_cast<base_undirected_adjacency_list&>(*this).end()), this->edges_size_};
+    auto& g = static_cast<const graph_type&>(*this);
+    return {const_edge_iterator(g, begin()), const_edge_iterator(g, end())};
   }
 
 public: // Vertex Creation
-- 
2.43.0


From 6ede3a4bad36c782ec90e5278086f1c5183c1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 54/59] fix: create_vertex invalidated the graph-level edge
 iterators of undirected_adjacency_list, against their documentation

---
 .../container/undirected_adjacency_list.hpp   | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 0e2c40f..f175c12 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -820,15 +820,16 @@ public: // Type Aliases
     using reference         = const value_type&;
 
   public:
-    const_edge_iterator(const graph_type& g, vertex_iterator u) : g_(&const_cast<graph_type&>(g)), u_(u) {
+    const_edge_iterator(const graph_type& g, vertex_iterator u)
+          : g_(&const_cast<graph_type&>(g)), u_(static_cast<size_type>(u - g_->vertices().begin())) {
       advance_vertex();
     }
     const_edge_iterator(const graph_type& g, const_vertex_iterator u)
-          : g_(&const_cast<graph_type&>(g)), u_(g_->vertices().begin() + (u - g.vertices().begin())) {
+          : g_(&const_cast<graph_type&>(g)), u_(static_cast<size_type>(u - g.vertices().begin())) {
       advance_vertex();
     }
     const_edge_iterator(const graph_type& g, vertex_iterator u, vertex_edge_iterator uv)
-          : g_(&const_cast<graph_type&>(g)), u_(u), uv_(uv) {}
+          : g_(&const_cast<graph_type&>(g)), u_(static_cast<size_type>(u - g_->vertices().begin())), uv_(uv) {}
 
     const_edge_iterator() noexcept                                 = default;
     const_edge_iterator(const const_edge_iterator& rhs) noexcept   = default;
@@ -854,8 +855,7 @@ public: // Type Aliases
   protected:
     void advance_edge() {
       // next edge for current vertex
-      vertex_id_type uid = static_cast<vertex_id_type>(u_ - g_->vertices().begin());
-      if (++uv_ != u_->edges_end(*g_, uid))
+      if (++uv_ != g_->vertices()[u_].edges_end(*g_, static_cast<vertex_id_type>(u_)))
         return;
 
       // find next vertex with edge(s)
@@ -864,19 +864,18 @@ public: // Type Aliases
     }
 
     void advance_vertex() {
-      // at exit, if u_ != g.vertices().end() then uv_ will refer to a valid edge
-      for (; u_ != g_->vertices().end(); ++u_) {
-        if (u_->num_edges() > 0) {
-          vertex_id_type uid = static_cast<vertex_id_type>(u_ - g_->vertices().begin());
-          uv_                = u_->edges_begin(*g_, uid);
+      // at exit, if u_ != g.vertices().size() then uv_ will refer to a valid edge
+      for (; u_ != g_->vertices().size(); ++u_) {
+        if (g_->vertices()[u_].num_edges() > 0) {
+          uv_ = g_->vertices()[u_].edges_begin(*g_, static_cast<vertex_id_type>(u_));
           return;
         }
       }
     }
 
   protected:
-    graph_type*          g_;
-    vertex_iterator      u_;
+    graph_type*          g_ = nullptr;
+    size_type            u_ = 0; // index of the vertex; stays valid when the vertices are reallocated
     vertex_edge_iterator uv_;
   };
 
-- 
2.43.0


From a04b22eb2c9e25264dc213a4031efc548150658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 55/59] fix: swapping undirected_adjacency_list iterators
 didn't compile and would have left the graph behind

---
 include/graph/container/undirected_adjacency_list.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index f175c12..76fef58 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -434,8 +434,9 @@ public:
     bool operator!=(const const_iterator& rhs) const noexcept;
 
     friend void swap(const_iterator& lhs, const_iterator& rhs) noexcept {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.vertex_id_, rhs.vertex_id_);
+      std::swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.graph_, rhs.graph_);
     }
 
     graph_type&       graph() { return *graph_; }
@@ -489,8 +490,9 @@ public:
     iterator  operator--(int);
 
     friend void swap(iterator& lhs, iterator& rhs) {
-      swap(lhs.vertex_id_, rhs.vertex_id_);
-      swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.vertex_id_, rhs.vertex_id_);
+      std::swap(lhs.edge_, rhs.edge_);
+      std::swap(lhs.graph_, rhs.graph_);
     }
   }; // end iterator
 
-- 
2.43.0


From 05aaf705e9468903d6890b64995fc1301829943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 56/59] fix: undirected_adjacency_list members that didn't
 compile: const neighbors, edge_front, neighbors_size, edge_id,
 resize_vertices with a value

---
 .../detail/undirected_adjacency_list_impl.hpp       | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 4a225b4..218a0ce 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -764,7 +764,7 @@ template <typename EV,
           typename Alloc>
 typename ual_edge<EV, VV, GV, VId, VContainer, Alloc>::edge_id_type
 ual_edge<EV, VV, GV, VId, VContainer, Alloc>::edge_id(const graph_type& g) const noexcept {
-  return unordered_pair(list_owner_id(), list_target_id());
+  return edge_id_type(list_owner_id(), list_target_id());
 }
 
 
@@ -911,7 +911,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(graph_type& g) noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -922,7 +922,7 @@ template <typename EV,
           typename Alloc>
 const typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_type&
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::edge_front(const graph_type& g) const noexcept {
-  return edges_.front(g, *this);
+  return edges_.front();
 }
 
 template <typename EV,
@@ -1053,7 +1053,7 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbor_size_type
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors_size(const graph_type& g) const {
-  return size(edges(g));
+  return edges_.size();
 }
 
 template <typename EV,
@@ -1074,7 +1074,8 @@ template <typename EV,
           typename Alloc>
 typename ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::const_neighbor_range
 ual_vertex<EV, VV, GV, VId, VContainer, Alloc>::neighbors(const graph_type& g, vertex_id_type uid) const {
-  return {const_neighbor_iterator(edges_.begin(g, uid)), const_neighbor_iterator(edges_.end(g, uid)), edges_.size()};
+  return {const_neighbor_iterator(vertex_edge_iterator(g, uid, edges_.empty() ? nullptr : &edges_.front())),
+          const_neighbor_iterator(vertex_edge_iterator(g, uid, nullptr)), edges_.size()};
 }
 
 
@@ -1521,7 +1522,7 @@ template <typename EV,
           typename Alloc>
 void base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::resize_vertices(vertex_size_type         n,
                                                                                          const vertex_value_type& val) {
-  this->vertices_.resize(n, val);
+  this->vertices_.resize(n, vertex_type(this->vertices_, static_cast<vertex_id_type>(this->vertices_.size()), val));
 }
 
 
-- 
2.43.0


From c7aedc4242d2b1901f1dac04119470051ac03ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:55 +0000
Subject: [PATCH 57/59] fix: undirected_adjacency_list without a graph value
 declared its range constructors but didn't define them

---
 .../detail/undirected_adjacency_list_impl.hpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 218a0ce..a0bb382 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -2018,6 +2018,26 @@ undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adja
       const undirected_adjacency_list& other)
       : base_type(other) {}
 
+// Edge+vertex range constructor
+template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
+template <typename ERng, typename VRng, typename EProj, typename VProj>
+requires ranges::forward_range<ERng> && ranges::input_range<VRng> &&
+               std::regular_invocable<EProj, ranges::range_reference_t<ERng>> &&
+               std::regular_invocable<VProj, ranges::range_reference_t<VRng>>
+undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(
+      const ERng& erng, const VRng& vrng, const EProj& eproj, const VProj& vproj, const Alloc& alloc)
+      : base_type(erng, vrng, eproj, vproj, alloc) {}
+
+// Edge-only range constructor
+template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
+template <typename ERng, typename EProj>
+requires ranges::forward_range<ERng> && std::regular_invocable<EProj, ranges::range_reference_t<ERng>>
+undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(const ERng&  erng,
+                                                                                           const EProj& eproj,
+                                                                                           const Alloc& alloc)
+      : undirected_adjacency_list(
+              erng, vector<int>(), eproj, [](auto) { return copyable_vertex_t<VId, VV>{VId()}; }, alloc) {}
+
 // Initializer list constructors
 template <typename EV, typename VV, integral VId, template <typename V, typename A> class VContainer, typename Alloc>
 undirected_adjacency_list<EV, VV, void, VId, VContainer, Alloc>::undirected_adjacency_list(
-- 
2.43.0


From 5a50e526f6b847308ac99971d1a77aed491a77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:29 +0000
Subject: [PATCH 58/59] fix: transpose_view didn't forward vertex_value,
 graph_value and the partition queries

---
 include/graph/views/transpose.hpp | 39 +++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 8c29948..2292f4d 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -110,6 +110,45 @@ public:
     return adj_list::has_edges(*tv.g_, v);
   }
 
+  // ===========================================================================
+  // Partition CPO friends — forwarded unchanged
+  // ===========================================================================
+
+  friend constexpr auto num_partitions(const transpose_view& tv) { return adj_list::num_partitions(*tv.g_); }
+
+  template <adj_list::vertex_descriptor_type U>
+  friend constexpr auto partition_id(const transpose_view& tv, const U& u) {
+    return adj_list::partition_id(*tv.g_, u);
+  }
+
+  template <std::integral PId>
+  friend constexpr auto vertices(const transpose_view& tv, const PId& pid) {
+    return adj_list::vertices(*tv.g_, pid);
+  }
+
+  template <std::integral PId>
+  friend constexpr auto num_vertices(const transpose_view& tv, const PId& pid) {
+    return adj_list::num_vertices(*tv.g_, pid);
+  }
+
+  // ===========================================================================
+  // Value CPO friends — forwarded unchanged (edge_value is below)
+  // ===========================================================================
+
+  template <adj_list::vertex_descriptor_type U>
+  friend constexpr decltype(auto) vertex_value(const transpose_view& tv, const U& u)
+  requires requires(G& g) { adj_list::vertex_value(g, u); }
+  {
+    return adj_list::vertex_value(*tv.g_, u);
+  }
+
+  template <typename G_ = G>
+  friend constexpr decltype(auto) graph_value(const transpose_view& tv)
+  requires requires(G_& g) { adj_list::graph_value(g); }
+  {
+    return adj_list::graph_value(*tv.g_);
+  }
+
   // ===========================================================================
   // Edge CPO friends — directions swapped
   // ===========================================================================
-- 
2.43.0


From b0cff3d7e1c365d1928d9580f9d05a6f17b2872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 59/59] fix: edge_list::edge_descriptor ordered only when ids
 and values share a comparison category

---
 .../graph/edge_list/edge_list_descriptor.hpp  | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/graph/edge_list/edge_list_descriptor.hpp b/include/graph/edge_list/edge_list_descriptor.hpp
index 0fe6729..b499e14 100644
--- a/include/graph/edge_list/edge_list_descriptor.hpp
+++ b/include/graph/edge_list/edge_list_descriptor.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <compare>
 #include <type_traits>
 #include <concepts>
 #include <functional>
@@ -71,14 +72,19 @@ public:
   }
 
   constexpr auto operator<=>(const edge_descriptor& other) const noexcept {
-    if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
-      return cmp;
-    if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
-      return cmp;
-    if constexpr (!std::is_void_v<EV>) {
-      return value_.get() <=> other.value_.get();
+    if constexpr (std::is_void_v<EV>) {
+      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
+        return cmp;
+      return target_id_ <=> other.target_id_;
     } else {
-      return std::strong_ordering::equal;
+      // The category of the ids and that of the values may differ, e.g. std::strong_ordering and std::partial_ordering
+      using ordering =
+            std::common_comparison_category_t<std::compare_three_way_result_t<VId>, std::compare_three_way_result_t<EV>>;
+      if (auto cmp = source_id_ <=> other.source_id_; cmp != 0)
+        return ordering(cmp);
+      if (auto cmp = target_id_ <=> other.target_id_; cmp != 0)
+        return ordering(cmp);
+      return ordering(value_.get() <=> other.value_.get());
     }
   }
 
-- 
2.43.0

