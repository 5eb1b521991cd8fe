# What each check compiles and how long it searches: (runs, cap in seconds) per tier.
W = ["harness/world.cpp"]
BIG = ["harness/big_%s.cpp" % k for k in ("alg1", "alg2", "alg3", "views", "cpo", "cont")]
PROPS = {
    "P01": dict(tus=W + ["harness/ops_sp.cpp", "harness/ops_sp_bf.cpp", "harness/scn_sp.cpp"], flags=["-DNDEBUG"],
                quick=(1200000, 40), thorough=(20000000, 600),
                real="Dijkstra, Bellman-Ford, negative-cycle extraction, path initialisation, edge-list and incidence views, "
                     "compressed, dynamic (4 variants), undirected and plain-range graphs"),
    "P02": dict(tus=W + ["harness/ops_trav.cpp", "harness/scn_trav.cpp"], flags=["-DNDEBUG"],
                quick=(1200000, 40), thorough=(20000000, 600),
                real="breadth-first and depth-first search algorithms, incidence views, compressed, dynamic (3 variants), "
                     "undirected and plain-range graphs"),
    "P03": dict(tus=W + ["harness/ops_topo.cpp", "harness/ops_topoview.cpp", "harness/scn_topo.cpp"], flags=["-DNDEBUG"],
                quick=(1200000, 40), thorough=(20000000, 600),
                real="topological sort algorithms, topological views over vertices and edges with both edge accessors, "
                     "compressed, dynamic (4 variants) and plain-range graphs"),
    "P04": dict(tus=W + ["harness/ops_comp.cpp", "harness/ops_comp2.cpp", "harness/scn_comp.cpp"], flags=["-DNDEBUG"],
                quick=(600000, 40), thorough=(20000000, 600),
                real="connected_components, kosaraju (both forms), afforest (both forms), transpose view, depth-first view, "
                     "compressed, dynamic (5 variants), undirected and plain-range graphs"),
    "P05": dict(tus=W + ["harness/ops_cut.cpp", "harness/scn_cut.cpp"], flags=["-DNDEBUG"],
                quick=(1000000, 40), thorough=(20000000, 600),
                real="articulation_points, biconnected_components, incidence views, compressed, dynamic (2 variants), undirected and plain-range graphs"),
    "P06": dict(tus=W + ["harness/ops_mst.cpp", "harness/ops_mst2.cpp", "harness/scn_mst.cpp"], flags=["-DNDEBUG"],
                quick=(1000000, 40), thorough=(20000000, 600),
                real="kruskal, inplace_kruskal, prim, edgelist and incidence views, compressed, dynamic (2 variants), undirected and plain-range graphs"),
    "P07": dict(tus=W + ["harness/ops_misc1.cpp", "harness/ops_misc2.cpp", "harness/ops_misc3.cpp", "harness/scn_misc.cpp"], flags=["-DNDEBUG"],
                quick=(1000000, 40), thorough=(20000000, 600),
                real="maximal_independent_set, triangle_count, jaccard_coefficient, label_propagation (both forms), incidence and vertexlist views, compressed, dynamic (5 variants), undirected and plain-range graphs"),
    "P08": dict(tus=["harness/scn_ual.cpp"], flags=["-DNDEBUG"],
                quick=(800000, 40), thorough=(20000000, 600),
                real="undirected_adjacency_list (three instantiations) and the generic interface over it, the standard library containers inside"),
    "P09": dict(tus=["harness/scn_dyn.cpp"] + ["harness/dyn_v%d.cpp" % k for k in range(1, 8)], flags=["-DNDEBUG"],
                quick=(800000, 40), thorough=(20000000, 600),
                real="dynamic_graph (real traits), the generic interface over it, the standard library containers inside"),
    "P10": dict(tus=["harness/scn_dyn.cpp"] + ["harness/csr_%d.cpp" % k for k in range(1, 4)], flags=["-DNDEBUG"],
                quick=(800000, 40), thorough=(20000000, 600),
                real="compressed_graph (real), the generic interface over it, the standard library containers inside"),
    "P11": dict(tus=W + ["harness/scn_rev.cpp", "harness/ops_sp_rev.cpp", "harness/ops_topo_rev.cpp", "harness/ops_trav_rev.cpp", "harness/scn_dyn.cpp"] + ["harness/dyn_b%d.cpp" % k for k in range(1, 5)], flags=["-DNDEBUG"],
                quick=(600000, 40), thorough=(20000000, 600),
                real="dynamic_graph (bidirectional), transpose_view, edge accessors, the generic interface over them, the standard library containers inside"),
    "P12": dict(tus=W + ["harness/scn_sv.cpp"] + ["harness/ops_sv_%s.cpp" % k for k in ("dfs_v", "dfs_e", "bfs_v", "bfs_e")], flags=["-DNDEBUG"],
                quick=(1000000, 40), thorough=(20000000, 600),
                real="depth-first and breadth-first views over vertices and edges with both edge accessors, pipe adaptors, compressed, dynamic (5 variants), undirected and plain-range graphs"),
    "P13": dict(tus=W + ["harness/scn_sv.cpp"] + ["harness/ops_bv_%s.cpp" % k for k in ("vl", "inc", "nb", "el", "in", "list")], flags=["-DNDEBUG"],
                quick=(1000000, 40), thorough=(20000000, 600),
                real="vertexlist, incidence, neighbors and edgelist views (with and without value functions, both edge accessors), subrange forms, pipe adaptors, compressed, dynamic (5 variants), undirected and plain-range graphs"),
    "P14": dict(tus=W + ["harness/scn_query.cpp"] + ["harness/qry_%d.cpp" % k for k in range(1, 11)], flags=["-DNDEBUG"],
                quick=(1200000, 40), thorough=(20000000, 600),
                real="the generic interface (customisation points and descriptors) over 75 graph types and 44 edge lists: the caller's own (customised by members, free functions or vertex objects), plain ranges, maps, tuple/pair/struct edges, compressed, "
                     "every dynamic_graph trait set, bidirectional and undirected graphs, const forms"),
    "P15": dict(tus=W + ["harness/scn_sv.cpp"] + ["harness/ops_%s.cpp" % k for k in (
                    "sp", "sp_bf", "sp_rev", "trav", "trav_rev", "topo", "topo_rev", "topoview", "comp", "comp2", "cut", "mst", "mst2",
                    "misc1", "misc2", "misc3", "sv_dfs_v", "sv_dfs_e", "sv_bfs_v", "sv_bfs_e", "bv_vl", "bv_inc", "bv_nb", "bv_el", "bv_in", "bv_list")],
                flags=["-DNDEBUG", "-DCROSS"], quick=(1000000, 40), thorough=(20000000, 600),
                real="every algorithm and view of the library, over compressed, dynamic, undirected and plain-range graphs"),
    "P16": dict(tus=W + ["sim/bulk.cpp", "harness/scn_big.cpp"] + BIG, flags=["-DNDEBUG"],
                link=["-Wl," + ",".join("--wrap=mem" + f for f in ("move", "cpy", "set", "cmp"))], tuflags={t: ["-fsanitize-coverage=trace-pc"] for t in BIG},
                quick=(150000, 45), thorough=(6000000, 600),
                note="the library's real headers run inside the simulator, compiled so that every basic block of the library ticks a work clock; "
                     "the same call is made on a small and a large member of a drawn graph family and its work, peak memory and stack may only grow "
                     "as documented, with and without a failing allocation; sampled, not exhaustive",
                real="every algorithm, view, container operation and query of the library, over compressed, dynamic (6 variants), undirected and plain-range graphs"),
}
