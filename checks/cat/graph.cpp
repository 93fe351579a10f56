// graphs: construction, mutation, traversal, paths, trees, spectra, centralities
#include "gen.h"
#include "mml/base/Graph.h"
#include "mml/algorithms/GraphAlgorithms.h"
#include "mml/algorithms/GraphSpectral.h"
using namespace MML; using namespace cat;
typedef Graph<int, Real> G; typedef std::shared_ptr<G> PG;
static PG make_graph(Ctx& c, bool dir, int nmax, double lo, double hi, bool loops = false) {
    int n = c.i(1, nmax); auto g = std::make_shared<G>((size_t)n, dir ? G::Type::Directed : G::Type::Undirected, loops); int m = c.i(0, 2 * n);
    for (int k = 0; k < m; ++k) { size_t a = (size_t)c.i(0, n - 1), b = (size_t)c.i(0, n - 1); if (a != b && !g->hasEdge(a, b) && (dir || !g->hasEdge(b, a))) g->addEdge(a, b, c.in(c.i(0, 2) ? std::floor(c.u(lo, hi)) + 0.5 : c.u(lo, hi))); }
    return g;
}
static void og(Ctx& c, const G& g) { c.o(g.numVertices()); c.o(g.numEdges()); for (size_t v = 0; v < g.numVertices(); ++v) { c.o(g.vertexData(v)); for (auto& e : g.neighbors(v)) { c.o(e.to); c.o(e.weight); } c.o(g.degree(v)); } }
static void path(Ctx& c, const PathResult& r) { c.o(r.found); c.o(r.path); c.o(r.totalWeight); c.o(r.nodesExplored); c.o(r.diagnostics); }
static void trav(Ctx& c, const TraversalResult& r) { c.o(r.visitOrder); c.o(r.parent); c.o(r.distance); c.o(r.nodesVisited); }
static void mst(Ctx& c, const MSTResult& r) { c.o(r.isComplete); c.o(r.totalWeight); for (auto& e : r.edges) { c.o(std::get<0>(e)); c.o(std::get<1>(e)); c.o(std::get<2>(e)); } c.o(r.diagnostics); }
static size_t pick_v(Ctx& c, const G& g) { return (size_t)c.i(0, (int)g.numVertices() - (c.i(0, 9) ? 1 : 0)); }
OP("graph.traverse", SH | HI | IT) { auto g = make_graph(c, c.b(), 9, 0, 5); return inst([=](Ctx& c) { switch (c.i(0, 4)) { case 0: trav(c, BFS(*g, pick_v(c, *g))); break; case 1: trav(c, DFS(*g, pick_v(c, *g))); break; case 2: { auto r = ConnectedComponents(*g); c.o(r.numComponents); c.o(r.componentId); for (auto& k : r.components) c.o(k); c.o(IsConnected(*g)); break; } case 3: path(c, ShortestPathUnweighted(*g, pick_v(c, *g), pick_v(c, *g))); break; default: { auto r = TopologicalSort(*g); c.o(r.isDAG); c.o(r.order); c.o(r.diagnostics); c.o(IsDAG(*g)); } } }); }
OP("graph.visit", SH | CB) { auto g = make_graph(c, c.b(), 8, 0, 5); return inst([=](Ctx& c) { auto f = [&](size_t v) { tick(); c.o(v); return true; }; if (c.b()) BFSVisit(*g, pick_v(c, *g), f); else DFSVisit(*g, pick_v(c, *g), f); }); }
OP("graph.paths", SH | HI | IT) { auto g = make_graph(c, c.b(), 8, 0, 5); return inst([=](Ctx& c) { if (c.b()) trav(c, Dijkstra(*g, pick_v(c, *g))); else path(c, DijkstraPath(*g, pick_v(c, *g), pick_v(c, *g))); }); }
OP("graph.bellman_ford", SH | HI | IT) { auto g = make_graph(c, true, 8, -1, 5); return inst([=](Ctx& c) { size_t s = pick_v(c, *g); if (c.b()) trav(c, BellmanFord(*g, s)); else c.o(HasNegativeCycle(*g, s)); }); }
OP("graph.mst", SH | HI | IT) { auto g = make_graph(c, false, 8, 0, 5); return inst([=](Ctx& c) { if (c.b()) mst(c, Kruskal(*g)); else mst(c, Prim(*g, pick_v(c, *g))); }); }
OP("graph.spectral", SH | HI | IT) { auto g = make_graph(c, false, 6, 0.1, 5); return inst([=](Ctx& c) { switch (c.i(0, 4)) { case 0: c.o(LaplacianEigenvalues(*g, 1e-10, c.i(5, 100))); break; case 1: c.o(AlgebraicConnectivity(*g)); break; case 2: c.o(LaplacianDegreeSequence(*g)); c.o(AlgebraicConnectivityBound(*g)); break; case 3: c.o(IsConnectedSpectral(*g)); break; default: c.o(g->toNormalizedLaplacian()); } }); }
OP("graph.centrality", SH | HI | IT) { auto g = make_graph(c, c.b(), 7, 0.1, 5); return inst([=](Ctx& c) { switch (c.i(0, 8)) { case 0: c.o(DegreeCentrality(*g)); break; case 1: c.o(ClosenessCentrality(*g)); break; case 2: c.o(BetweennessCentrality(*g, c.b())); break; case 3: c.o(EigenvectorCentrality(*g, (size_t)c.i(1, 100))); break; case 4: c.o(PageRank(*g, c.u(0.1, .99), (size_t)c.i(1, 100))); break; case 5: c.o(GraphDensity(*g)); c.o(AverageClusteringCoefficient(*g)); break; case 6: c.o(GraphDiameter(*g)); break; case 7: c.o(AveragePathLength(*g)); break; default: { c.o(g->toAdjacencyMatrix()); c.o(g->toDegreeMatrix()); c.o(g->toLaplacianMatrix()); c.o(g->isWeighted()); c.o(g->toString()); } } }); }
OP("graph.mutate", HI) { auto seed = c.rng.next(); return inst([=](Ctx& c) { Rng r{seed}; G g(c.b() ? G::Type::Directed : G::Type::Undirected, c.b()); int n = c.i(3, 16);
    for (int k = 0; k < n; ++k) { int v = (int)g.numVertices(); switch (v < 2 ? 0 : r.i(0, 5)) { case 0: again([&] { c.o(g.addVertex(k * 7)); }); break; case 5: { size_t a = (size_t)r.i(0, v - 1), b = (size_t)r.i(0, v - 1); c.o(g.removeEdge(a, b)); break; } default: { size_t a = (size_t)r.i(0, v - 1), b = (size_t)r.i(0, v - 1); double x = r.u(); try { again([&] { g.addEdge(a, b, x); }); } catch (const std::invalid_argument&) { c.o(-1); } } } }
    og(c, g); G h = g; again([&] { h = g; }); again([&] { h.addVertex(3); }); og(c, h); g.clear(); c.o(g.isEmpty()); c.o(g.numEdges()); }); }
OP("graph.factories", SH) { return inst([=](Ctx& c) { size_t n = (size_t)c.i(0, 6); switch (c.i(0, 4)) { case 0: og(c, createPathGraph<int, Real>(n)); break; case 1: og(c, createCycleGraph<int, Real>(n)); break; case 2: og(c, createCompleteGraph<int, Real>(n)); break; case 3: og(c, createStarGraph<int, Real>(n)); break; default: og(c, createGridGraph<int, Real>(n, (size_t)c.i(0, 4))); } }); }
