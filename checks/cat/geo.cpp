// computational geometry, geometric objects, solid bodies
#include "gen.h"
#include "mml/algorithms/ComputationalGeometry.h"
#include "mml/base/Geometry/Geometry.h"
#include "mml/base/Geometry/Geometry2D.h"
#include "mml/base/Geometry/Geometry3D.h"
#include "mml/base/Geometry/Geometry3DBodies.h"
#include "mml/base/Geometry/GeometrySpherical.h"
#include "mml/algorithms/CompGeometry/KDTree.h"
using namespace MML; using namespace MML::CompGeometry; using namespace cat;
typedef Point2Cartesian P2; typedef Point3Cartesian P3; typedef std::vector<P2> VP2; typedef std::vector<P3> VP3;
static P2 p2(Ctx& c, double w = 2) { return P2(c.in(c.u(-w, w)), c.in(c.u(-w, w))); }
static P3 p3(Ctx& c, double w = 2) { return P3(c.in(c.u(-w, w)), c.in(c.u(-w, w)), c.in(c.u(-w, w))); }
static VP2 cloud2(Ctx& c, int lo, int hi) { int n = c.i(lo, hi), k = c.i(0, 5); VP2 v; for (int i = 0; i < n; ++i) switch (k) { case 0: v.push_back(P2(c.in(c.i(-3, 3)), c.in(c.i(-3, 3)))); break; case 1: v.push_back(P2(c.in(i), c.in(2.0 * i))); break; case 2: v.push_back(P2(c.in(std::cos(0.7 * i)), c.in(std::sin(0.7 * i)))); break; default: v.push_back(p2(c)); } return v; }
static VP3 cloud3(Ctx& c, int lo, int hi) { int n = c.i(lo, hi), k = c.i(0, 5); VP3 v; for (int i = 0; i < n; ++i) switch (k) { case 0: v.push_back(P3(c.in(c.i(-2, 2)), c.in(c.i(-2, 2)), c.in(c.i(-2, 2)))); break; case 1: v.push_back(P3(c.in(i), c.in(c.u()), c.in(0))); break; default: v.push_back(p3(c)); } return v; }
static Polygon2D star(Ctx& c, int lo, int hi) { int n = c.i(lo, hi); bool cw = c.b(); Polygon2D p; for (int i = 0; i < n; ++i) { double a = 2 * M_PI * (cw ? n - i : i) / n, r = c.u(0.5, 2); p.AddVertex(P2(c.in(r * std::cos(a)), c.in(r * std::sin(a)))); } return p; }
static void o2(Ctx& c, const P2& p) { c.o(p.X()); c.o(p.Y()); }
static void o3(Ctx& c, const P3& p) { c.o(p.X()); c.o(p.Y()); c.o(p.Z()); }
static void ov2(Ctx& c, const VP2& v) { c.o(v.size()); for (auto& p : v) o2(c, p); }
static void op(Ctx& c, const Polygon2D& p) { ov2(c, p.Vertices()); }
static void ot(Ctx& c, const Triangle2D& t) { o2(c, t.Pnt1()); o2(c, t.Pnt2()); o2(c, t.Pnt3()); }
template <class F> static void gt(Ctx& c, F f) { try { f(); } catch (const MMLException& e) { auto* s = dynamic_cast<const std::exception*>(&e); c.o(s ? s->what() : "?"); } catch (const std::invalid_argument& e) { c.o(e.what()); } }
OP("geo.hull2d", SH) { auto v = std::make_shared<VP2>(cloud2(c, 0, 14)); return inst([=](Ctx& c) { gt(c, [&] { auto h = ConvexHull2D::Compute(*v); op(c, h); if (h.Vertices().size() > 2) { c.o(h.Area()); c.o(h.IsConvex()); } }); }); }
OP("geo.hull3d", SH) { auto v = std::make_shared<VP3>(cloud3(c, 0, 12)); return inst([=](Ctx& c) { gt(c, [&] { auto h = ConvexHull3DComputer::Compute(*v); c.o(h.NumVertices()); c.o(h.NumFaces()); for (auto& f : h.faces) for (int k : f) c.o(k); for (auto& f : h.neighbors) for (int k : f) c.o(k); c.o(h.Volume()); c.o(h.SurfaceArea()); o3(c, h.Centroid()); c.o(h.Contains(p3(c))); }); }); }
OP("geo.delaunay", SH) { auto v = std::make_shared<VP2>(cloud2(c, 0, 12)); return inst([=](Ctx& c) { gt(c, [&] { auto d = Triangulation::ComputeDelaunay(*v); c.o(d.NumTriangles()); for (auto& t : d.triangles) for (int k : t) c.o(k); for (auto& t : d.neighbors) for (int k : t) c.o(k); P2 q = p2(c); c.o(d.LocatePoint(q)); std::vector<Real> z; for (size_t i = 0; i < d.points.size(); ++i) z.push_back(i * .5); c.o(d.Interpolate(q, z, -1)); for (auto& e : d.GetConvexHullEdges()) c.o(e); }); }); }
OP("geo.voronoi", SH) { auto v = std::make_shared<VP2>(cloud2(c, 0, 10)); return inst([=](Ctx& c) { gt(c, [&] { auto d = Voronoi::ComputeVoronoi(*v); ov2(c, d.vertices); for (auto& e : d.edges) { c.o(e.v1); c.o(e.v2); c.o(e.site1); c.o(e.site2); } c.o(d.cells); for (int i = 0; i < (int)d.sites.size(); ++i) { c.o(d.IsCellInfinite(i)); op(c, d.GetClippedCell(i, -2, -2, 2, 2)); } c.o(d.FindNearestSite(p2(c))); }); }); }
OP("geo.earclip", SH) { auto p = std::make_shared<Polygon2D>(star(c, 3, 9)); return inst([=](Ctx& c) { gt(c, [&] { for (auto& t : Triangulation::EarClipTriangulation(*p)) ot(c, t); for (auto& t : p->Triangularization()) ot(c, t); }); }); }
OP("geo.clip", SH) { auto p = std::make_shared<Polygon2D>(star(c, 3, 8)), q = std::make_shared<Polygon2D>(star(c, 3, 6)); return inst([=](Ctx& c) { gt(c, [&] { switch (c.i(0, 4)) { case 0: op(c, PolygonOps::ClipPolygon(*p, *q)); break; case 1: op(c, PolygonOps::ClipToRect(*p, -1, c.u(-1, 0), 1, c.u(0, 1))); break; case 2: for (auto& r : PolygonOps::PolygonIntersectionApprox(*p, *q)) op(c, r); break; case 3: for (auto& r : PolygonOps::PolygonUnionApprox(*p, *q)) op(c, r); break; default: for (auto& r : PolygonOps::PolygonDifferenceApprox(*p, *q)) op(c, r); } }); }); }
OP("geo.circles", SH) { auto v = std::make_shared<VP2>(cloud2(c, 0, 14)); return inst([=](Ctx& c) { gt(c, [&] { if (c.b()) { auto k = Circles::MinimumEnclosingCircle(*v); o2(c, k.Center()); c.o(k.Radius()); } else { auto r = Circles::ClosestPair(*v); o2(c, r.p1); o2(c, r.p2); c.o(r.distance); } }); }); }
OP("geo.intersect", SH | HI) { P2 a = p2(c), b = p2(c), d = p2(c); P3 x = p3(c), y = p3(c), z = p3(c); return inst([=](Ctx& c) { gt(c, [&] { auto s = Intersections::IntersectSegments(a, b, d, p2(c)); c.o((int)s.type); o2(c, s.point); auto l = Intersections::IntersectLines2D(Line2D(a, b), Line2D(d, p2(c))); c.o((int)l.type); o2(c, l.point); auto m = Intersections::IntersectLines3D(Line3D(x, y), Line3D(z, p3(c))); c.o((int)m.type); o3(c, m.point1); o3(c, m.point2); auto r = Intersections::IntersectRayTriangle(p3(c), Vector3Cartesian(c.u(), c.u(), -1), x, y, z, c.b()); c.o(r.hit); c.o(r.t); o3(c, r.point); }); }); }
template <class R> static void knr(Ctx& c, const R& r) { c.o(r.indices); c.o(r.distances); c.o((int)r.status); }
template <class T, class V, class Q> static void kd(Ctx& c, const T& t, const V& v, Q q) {
    c.o(t.size()); c.o(t.empty()); auto& s = t.stats(); c.o(s.num_nodes); c.o(s.num_leaf_nodes); c.o(s.tree_depth);
    auto n = t.findNearest(q()); c.o(n.found); c.o(n.index); c.o(n.distance); c.o(n.nodes_visited); c.o((int)n.status); knr(c, t.findKNearest(q(), c.i(0, 5))); knr(c, t.findInRadius(q(), c.u(0, 2))); auto a = q(), b = q(); c.o(t.findInBox(a, b)); (void)v; }
OP("geo.kdtree2", SH) { auto v = std::make_shared<VP2>(cloud2(c, 0, 30)); auto t = std::make_shared<KDTree2D>(); KDTreeConfig k; k.max_leaf_size = c.i(1, 4); k.balanced = c.b(); t->build(*v, k); return inst([=](Ctx& c) { gt(c, [&] { kd(c, *t, *v, [&] { return p2(c); }); }); }); }
OP("geo.kdtree3", SH) { auto v = std::make_shared<VP3>(cloud3(c, 0, 24)); auto t = std::make_shared<KDTree3D>(); KDTreeConfig k; k.max_leaf_size = c.i(1, 4); t->build(*v, k); return inst([=](Ctx& c) { gt(c, [&] { kd(c, *t, *v, [&] { return p3(c); }); }); }); }
OP("geo.kdtree.mutate", 0) { auto v = std::make_shared<VP2>(cloud2(c, 0, 20)), w = std::make_shared<VP2>(cloud2(c, 1, 20)); int m = c.i(1, 3); return inst([=](Ctx& c) { KDTree2D t; KDTreeConfig k; k.max_leaf_size = m; auto sane = [&](size_t was) { return [&t, was] { if (t.size() != was && t.size() != 0) return false; auto r = t.findNearest(P2(0, 0)); return t.size() ? r.found && r.index < t.size() : !r.found; }; };
    again(c, [&] { t.build(*v, k); }, sane(0)); kd(c, t, *v, [&] { return p2(c); }); size_t was = t.size(); again(c, [&] { t.build(*w, k); }, sane(was)); kd(c, t, *w, [&] { return p2(c); }); KDTree2D u(std::move(t)); kd(c, u, *w, [&] { return p2(c); }); u.clear(); c.o(u.size()); c.o(u.findNearest(P2(0, 0)).found); again([&] { u.build(*v, k); }); kd(c, u, *v, [&] { return p2(c); }); }); }
OP("geo.kdtree.timed", TM) { auto v = std::make_shared<VP2>(cloud2(c, 0, 20)); return inst([=](Ctx& c) { KDTree2D t; t.build(*v); c.o(t.size()); c.ms(t.stats().build_time_ms); }); }
OP("geo.kdtree.4d", SH) { typedef VectorN<Real, 4> V; auto v = std::make_shared<std::vector<V>>(); int n = c.i(0, 16); for (int i = 0; i < n; ++i) v->push_back(vecn<4>(c)); auto t = std::make_shared<KDTree<4>>(); KDTreeConfig k; k.max_leaf_size = c.i(1, 3); t->build(*v, k); return inst([=](Ctx& c) { gt(c, [&] { kd(c, *t, *v, [&] { return vecn<4>(c); }); }); }); }
OP("geo.triangle2d", SH | HI) { auto T = std::make_shared<Triangle2D>(p2(c), p2(c), p2(c)); return inst([=](Ctx& c) { auto v_T = via(c, T); const Triangle2D& t = *v_T; gt(c, [&] { switch (c.i(0, 3)) { case 0: c.o(t.A()); c.o(t.B()); c.o(t.C()); break; case 1: c.o(t.Perimeter()); c.o(t.Area()); c.o(t.SignedArea()); break; case 2: o2(c, t.Centroid()); o2(c, t.Circumcenter()); o2(c, t.Incenter()); break; default: c.o(t.Contains(p2(c))); c.o(t.IsRight()); c.o(t.IsIsosceles()); c.o(t.IsEquilateral()); c.o(t.IsClockwise()); } }); }); }
OP("geo.triangle2d.mutate", HI) { P2 a = p2(c), b = p2(c), d = p2(c); return inst([=](Ctx& c) { Triangle2D t(a, b, d); P2& r = t.Pnt1(); c.o(t.A()); c.o(t.Area()); r = p2(c); c.o(t.A()); c.o(t.Perimeter()); t.Pnt2() = p2(c); c.o(t.Area()); Triangle2D u = t; u.Pnt3() = p2(c); c.o(u.B()); c.o(t.B()); }); }
OP("geo.polygon", SH | HI) { auto P = std::make_shared<Polygon2D>(c.b() ? star(c, 3, 8) : Polygon2D(cloud2(c, 3, 6))); return inst([=](Ctx& c) { auto v_P = via(c, P); const Polygon2D& p = *v_P; gt(c, [&] { switch (c.i(0, 3)) { case 0: c.o(p.Area()); c.o(p.Perimeter()); o2(c, p.Centroid()); break; case 1: c.o(p.IsConvex()); c.o(p.IsSimple()); c.o(p.IsCounterClockwise()); break; case 2: { P2 q = p2(c); c.o(p.Contains(q)); c.o(p.WindingNumber(q)); break; } default: { auto b = p.GetBoundingBox(); c.o(b.minX); c.o(b.maxY); Polygon2D r = p; r.Reverse(); op(c, r); again(c, [&] { r.AddVertex(P2(9, 9)); }, [&] { return r.Vertices().size() == p.Vertices().size(); }); c.o(r.Vertices().size()); } } }); }); }
OP("geo.circlebox", SH | HI) { auto C = std::make_shared<Circle2D>(p2(c), c.u(.3, 2)); auto B = std::make_shared<Box2D>(p2(c), p2(c)); return inst([=](Ctx& c) { auto v_C = via(c, C); auto v_B = via(c, B); const Circle2D& k = *v_C; const Box2D& b = *v_B; gt(c, [&] { P2 q = p2(c); c.o(k.Contains(q)); c.o(k.SignedDistance(q)); o2(c, k.ClosestPoint(q)); o2(c, k.PointAt(c.u())); c.o(k.Intersects(Circle2D(q, 1))); c.o(k.Intersects(Line2D(q, p2(c)))); c.o(b.Contains(q)); c.o(b.DistanceToPoint(q)); o2(c, b.ClosestPoint(q)); ov2(c, b.Corners()); c.o(b.Intersects(k)); Box2D u = b.Union(Box2D(q, p2(c))); o2(c, u.Min()); Box2D e = b.Expanded(.5); o2(c, e.Max()); o2(c, Box2D::FromPoints(cloud2(c, 1, 5)).Min()); op(c, b.ToPolygon()); }); }); }
OP("geo.lines", SH | HI) { P2 a = p2(c), b = p2(c); P3 x = p3(c), y = p3(c); return inst([=](Ctx& c) { gt(c, [&] { Line2D l(a, b); SegmentLine2D s(a, b); P2 q = p2(c); c.o(l.DistanceToPoint(q)); o2(c, l.ClosestPoint(q)); c.o(l.Contains(q)); c.o(s.DistanceToPoint(q)); o2(c, s.ClosestPoint(q)); auto r = s.Intersection(SegmentLine2D(q, p2(c))); c.o((int)r.type); Line3D L(x, y), M(p3(c), p3(c)); P3 z = p3(c); c.o(L.Dist(z)); o3(c, L.NearestPointOnLine(z)); c.o(L.Dist(M)); Real d; P3 f, g; c.o(L.Dist(M, d, f, g)); c.o((int)L.Intersection(M).type); c.o(L.IsParallel(M)); c.o(SegmentLine3D(x, y).Dist(z)); }); }); }
OP("geo.planes", SH | HI) { P3 x = p3(c), y = p3(c), z = p3(c); return inst([=](Ctx& c) { gt(c, [&] { Plane3D p(x, y, z), q(p3(c), Vec3Cart(c.u(), c.u(), 1)); P3 w = p3(c); c.o(p.DistToPoint(w)); o3(c, p.ProjectionToPlane(w)); c.o(p.AngleToPlane(q)); c.o(p.IsParallelToPlane(q)); Line3D l(w, Vec3Cart(c.u(), 1, c.u())); P3 r; c.o(p.IntersectionWithLine(l, r)); o3(c, r); Line3D m; c.o(p.IntersectionWithPlane(q, m)); c.o(m.Direction()); Triangle3D t(x, y, z); c.o(t.Area()); o3(c, t.Centroid()); c.o(t.IsPointInside(w)); TriangleSurface3D s(x, y, z); c.o(s(s.getMinU(), s.getMinW(s.getMinU()))); }); }); }
static std::shared_ptr<IBody> body(Ctx& c) { P3 m = P3(c.u(), c.u(), c.u()); double r = c.u(.5, 2); switch (c.i(0, 5)) { case 0: return std::make_shared<Cube3D>(r, m); case 1: return std::make_shared<CubeWithTriangles3D>(r, m); case 2: return std::make_shared<Sphere3D>(r, m, c.i(3, 6), c.i(3, 8)); case 3: return std::make_shared<Pyramid3D>(r, r, Vec3Cart(m.X(), m.Y(), m.Z())); case 4: return std::make_shared<Torus3D>(r + 1, .4, m, c.i(3, 8), c.i(3, 6)); default: return std::make_shared<Cylinder3D>(r, 1.5, m, c.i(3, 9)); } }
OP("geo.bodies", SH) { auto B = body(c); return inst([=](Ctx& c) { const IBody& b = *B; gt(c, [&] { switch (c.i(0, 2)) { case 0: c.o(b.Volume()); c.o(b.SurfaceArea()); o3(c, b.GetCenter()); break; case 1: { auto x = b.GetBoundingBox(); o3(c, x.Min()); o3(c, x.Max()); auto s = b.GetBoundingSphere(); c.o(s.Radius()); c.o(b.ToString()); c.o(x.ToString()); break; } default: c.o(b.IsInside(p3(c))); } }); }); }
static Real by1(Real x) { return cb(-1 - .1 * x); } static Real by2(Real x) { return cb(1 + .1 * x); } static Real bz1(Real x, Real y) { return cb(-1 + .1 * x * y); } static Real bz2(Real x, Real y) { return cb(1 + .1 * (x + y)); } static Real bden(const VectorN<Real, 3>& x) { return cb(1 + .1 * x[0]); }
OP("geo.bodies.boundary", SH | CB) { double x1 = c.u(-2, -1), x2 = c.u(1, 2); return inst([=](Ctx& c) { SolidBodyWithBoundary s(x1, x2, by1, by2, bz1, bz2, bden); gt(c, [&] { switch (c.i(0, 3)) { case 0: c.o(s.Volume()); break; case 1: o3(c, s.GetCenter()); break; case 2: { auto b = s.GetBoundingBox(); o3(c, b.Min()); o3(c, b.Max()); break; } default: c.o(s.IsInside(p3(c))); c.o(s.getDensity(vecn<3>(c))); } }); }); }
OP("geo.box3d", SH | HI) { auto B = std::make_shared<Box3D>(p3(c), p3(c)); return inst([=](Ctx& c) { auto v_B = via(c, B); const Box3D& b = *v_B; gt(c, [&] { P3 q = p3(c); c.o(b.Contains(q)); c.o(b.DistanceToPoint(q)); o3(c, b.ClosestPoint(q)); for (auto& p : b.Corners()) o3(c, p); Box3D k(q, p3(c)); c.o(b.Intersects(k)); o3(c, b.Union(k).Max()); auto i = b.Intersection(k); o3(c, i.Min()); Box3D e = b; e.ExpandToInclude(q); c.o(e.Contains(q)); c.o(b.Volume()); BoundingSphere3D s(q, c.u(.2, 1)); s.ExpandToInclude(p3(c)); c.o(s.Radius()); c.o(s.ToString()); o3(c, Box3D::FromPoints(cloud3(c, 1, 6)).Max()); }); }); }
OP("geo.spherical", SH | HI) { double a = c.in(c.u(-90, 90)), b = c.in(c.u(-180, 180)); return inst([=](Ctx& c) { gt(c, [&] { auto s = SphericalGeometryCalculator::SphericalFromLatLong(a, b); o3(c, SphericalGeometryCalculator::CartesianFromSpherical(s)); c.o(SphericalGeometryCalculator::DistanceBetweenLatLong(a, b, c.u(-90, 90), c.u(-180, 180))); Point3Spherical q(p3(c)); o3(c, q.TransfToCart()); c.o(q.Dist(s)); Point3Cylindrical y(p3(c)); o3(c, y.TransfToCart()); Point2Polar w(p2(c)); o2(c, w.TransfToCart()); }); }); }
OP("geo.shapes", SH | HI) { double a = c.in(c.u(1, 2)), b = c.in(c.u(1, 2)), d = c.in(c.u(1, 1.9)); return inst([=](Ctx& c) { gt(c, [&] { switch (c.i(0, 5)) { case 0: { Triangle t(a, b, d); c.o(t.Area()); c.o(t.AngleA()); c.o(t.Inradius()); c.o(Circle::Circumscribed(t).Radius()); break; } case 1: { Ellipse e(a, b); c.o(e.Circumference()); c.o(e.Eccentricity()); break; } case 2: { RegularPolygon p(c.i(3, 9), a); c.o(p.Area()); c.o(p.Apothem()); c.o(RegularPolygon::FromArea(5, b).SideLength()); break; } case 3: { Parallelogram p(a, b, c.u(.3, 1.5)); c.o(p.DiagonalP()); c.o(Rhombus(a, b).Inradius()); c.o(Trapezoid::Isosceles(a + 1, a, b).Area()); break; } case 4: { Tetrahedron t(a, a, a, a, a, a); c.o(t.Volume()); c.o(t.Circumradius()); c.o(Spheroid(a, b).SurfaceArea()); break; } default: { c.o(Frustum(a, b, d).Volume()); c.o(ConeGeom(a, b).ApexAngle()); c.o(TorusGeom(a + 1, .5).Volume()); c.o(SphereGeom(a).CapVolume(.2)); } } }); }); }
