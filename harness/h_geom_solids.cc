// Every solid: the crossings of a line, containment, bounding boxes and value semantics, against an independent description of the region (P12).
#include "solids.h"
#include <sstream>
using namespace solids; using namespace mon;
static P3 at(Vector3D const & p, Vector3D const & d, LD t) { return {p.GetX() + t * d.GetX(), p.GetY() + t * d.GetY(), p.GetZ() + t * d.GetZ()}; }
static Vector3D rg(Rng & r, double s) { Vector3D v(r.normal(), r.normal(), r.normal()); v.normalize(); return v * s; }
struct Ray { Vector3D p, d; int how; };
static Ray ray(Rng & r, Solid const & s) { double S = s.size; P3 c0 = s.special.empty() ? P3{0, 0, 0} : s.special.back(); bool mesh = s.kind == K_MESH; Vector3D ctr = mesh ? Vector3D(c0.x, c0.y, c0.z) : Vector3D(0, 0, 0); auto rnd = [&](double f) { return ctr + Vector3D(r.u(-f, f) * S, r.u(-f, f) * S, r.u(-f, f) * S); }; Ray q; q.how = (int)r.i(8); Vector3D a, d;
    switch(q.how) { case 0: case 1: a = rnd(0.5); d = rv(r, 1); break;                                     // any line through the neighbourhood
        case 2: { a = rnd(0.5); int k = (int)r.i(3); d = Vector3D(k == 0, k == 1, k == 2) * r.sgn(); break; }  // parallel to an axis
        case 3: { P3 x = s.special.empty() ? P3{0, 0, 0} : s.special[r.i(s.special.size())]; a = Vector3D(x.x, x.y, x.z) + rg(r, std::max(1e-5, S * r.lu(1e-3, 3e-2))); d = rv(r, 1); break; } // close to an edge, a corner or the centre
        case 4: { a = ctr + Vector3D(0, 0, r.u(-0.6, 0.6) * S); if(mesh || s.kind == K_POLYHEDRA || s.kind == K_BOOL) a = a + rg(r, std::max(1e-5, S * r.lu(1e-3, 3e-2))); d = Vector3D(r.normal(), r.normal(), r.coin(0.3) ? 0 : r.normal()); d.normalize(); break; } // through the axis (which is a seam of a mesh or polyhedron: close to it)
        case 5: { a = rnd(0.4); Vector3D b = rnd(0.4); d = b - a; d.normalize(); a = a - d * (S * r.lu(1, 1e4)); break; } // from far away
        case 6: { a = ctr + Vector3D(r.u(-0.3, 0.3) * S, r.u(-0.3, 0.3) * S, r.u(-0.5, 0.5) * S); d = Vector3D(r.normal(), r.normal(), r.normal() * r.lu(1e-6, 1)); d.normalize(); break; } // nearly horizontal
        default: { a = ctr + Vector3D(r.u(-0.3, 0.3) * S, r.u(-0.3, 0.3) * S, r.u(-0.5, 0.5) * S); double e = r.lu(1e-6, 1); d = Vector3D(r.normal() * e, r.normal() * e, r.sgn()); d.normalize(); } }                  // nearly vertical
    q.p = s.pl.LocalToGlobalPosition(a); q.d = s.pl.LocalToGlobalDirection(d); if(r.coin(0.5)) { double m = r.u(-1, 1) * S; q.p = q.p + q.d * m; } return q; }
static std::string rs(Ray const & q) { return mon::fmt("ray %d (%.17g,%.17g,%.17g) -> (%.17g,%.17g,%.17g)", q.how, q.p.GetX(), q.p.GetY(), q.p.GetZ(), q.d.GetX(), q.d.GetY(), q.d.GetZ()); }
static void probe(Ctx & c, Solid const & s, Ray const & q) { Rng & r = c.r; char const * K = kname(s.kind); auto in = [&](LD t) { return s.in(tolocal(s.pl, at(q.p, q.d, t))); };
    auto H = s.g->Intersections(q.p, q.d); double off = (q.p - s.pl.GetPosition()).magnitude() + s.pl.GetPosition().magnitude(), del = 3e-6 * s.size + 1e-11 * off; std::string where = std::string(K) + " " + s.desc + " " + rs(q);
    bool sorted = true, onray = true, fin = true, alt = true; for(size_t i = 0; i < H.size(); ++i) { fin = fin && std::isfinite(H[i].distance); if(i) { sorted = sorted && H[i].distance >= H[i - 1].distance; alt = alt && H[i].entering != H[i - 1].entering; } P3 x = at(q.p, q.d, H[i].distance); onray = onray && fabsl(x.x - H[i].position.GetX()) + fabsl(x.y - H[i].position.GetY()) + fabsl(x.z - H[i].position.GetZ()) <= del; }
    CHECK("finite", fin, "%s", where.c_str()); CHECK("sorted", sorted, "%s", where.c_str()); CHECK("on_line", onray, "%s", where.c_str()); if(!fin || !sorted) return;
    if(q.how <= 1) { CHECK("alternating", alt && (H.empty() || (H[0].entering && !H.back().entering)), "%zu crossings %s", H.size(), where.c_str()); }
    // where the list says the line is inside
    auto said = [&](LD t, bool & sure) { bool st = false; sure = true; for(auto & h : H) { if(fabsl(h.distance - t) < del) sure = false; if(h.distance < t) st = h.entering; } return st; };
    Vector3D lc = s.pl.GetPosition(); if(s.kind == K_MESH) lc = s.pl.LocalToGlobalPosition(Vector3D(s.special.back().x, s.special.back().y, s.special.back().z)); double mid = scalar_product(lc - q.p, q.d), half = 1.2 * s.size; std::vector<LD> ts; for(int k = 0; k < 24; ++k) ts.push_back(mid + half * (2 * (k + r.u()) / 24 - 1)); for(auto & h : H) for(double e : {-1.5, 1.5, -20., 20., -300., 300.}) ts.push_back(h.distance + e * del); for(size_t i = 1; i < H.size(); ++i) ts.push_back(0.5L * (H[i].distance + H[i - 1].distance)); ts.push_back(0); ts.push_back(mid - 50 * s.size); ts.push_back(mid + 50 * s.size);
    int ni = 0; for(LD t : ts) { bool a = in(t); if(in(t - del) != a || in(t + del) != a) { obs("near_surface"); continue; } bool sure, st = said(t, sure); if(!sure) continue;
        // a line grazing the surface is not judged: the answer must not change under a small sideways shift
        P3 x = at(q.p, q.d, t); bool graze = false; for(int k = 0; k < 3 && !graze; ++k) for(double e : {-1., 1.}) { P3 y = x; (k == 0 ? y.x : k == 1 ? y.y : y.z) += e * del; if(s.in(tolocal(s.pl, y)) != a) { graze = true; break; } } if(graze) { obs("near_surface"); continue; }
        ni += a; if(a) { CHECK("inside_known", st, "at %.17Lg of %zu crossings, %s", t, H.size(), where.c_str()); } else { CHECK("outside_known", !st, "at %.17Lg of %zu crossings, %s", t, H.size(), where.c_str()); }
        if(fabsl(t) < del || r.coin(0.1)) { Vector3D p(x.x, x.y, x.z); if(q.how <= 1) CHECK("is_inside_along", s.g->IsInside(p, q.d) == a, "%d at %Lg %s", a, t, where.c_str()); } if(a && r.coin(0.2)) { AABB b = s.g->GetWorldBoundingBox(), l = s.g->GetBoundingBox(); double e = 1e-12 * (s.size + off); auto has = [&](AABB const & m, P3 v) { return v.x >= m.min_corner.GetX() - e && v.x <= m.max_corner.GetX() + e && v.y >= m.min_corner.GetY() - e && v.y <= m.max_corner.GetY() + e && v.z >= m.min_corner.GetZ() - e && v.z <= m.max_corner.GetZ() + e; }; CHECK("in_world_box", has(b, x), "%s", where.c_str()); CHECK("in_local_box", has(l, tolocal(s.pl, x)), "%s", where.c_str()); } }
    obs(mon::fmt("%s_inside", K), ni); seen("%s %d %zu", K, q.how, H.size());
    auto lp = s.g->ToLocal(q.p, q.d); auto H2 = s.g->Intersections(lp.first, lp.second); bool same = H2.size() == H.size(); for(size_t i = 0; same && i < H.size(); ++i) same = std::fabs(H2[i].distance - H[i].distance) <= del && H2[i].entering == H[i].entering && (H2[i].position - H[i].position).magnitude() <= del; CHECK("local_and_global_agree", same, "%zu %zu %s", H.size(), H2.size(), where.c_str());
    CHECK("closest_approach", std::fabs(s.g->DistanceToClosestApproach(q.p, q.d) - scalar_product(s.pl.GetPosition() - q.p, q.d)) <= 1e-12 * off + 1e-12, "%s", where.c_str());
}
#define SOLID(K, N, Q, T) GROUP(P12, N, Q, T) { Rng & r = c.r; Solid s = make(r, K, r.lu(0.05, 1e4)); for(int k = 0; k < 12; ++k) probe(c, s, ray(r, s)); }
SOLID(K_BOX, box, 400, 30000) SOLID(K_SPHERE, sphere, 500, 40000) SOLID(K_CYL, cylinder, 500, 40000) SOLID(K_CONE, cone, 500, 40000) SOLID(K_TRD, trd, 400, 30000) SOLID(K_PARA, para, 400, 30000) SOLID(K_TRAP, trap, 400, 30000) SOLID(K_ELLIPSOID, ellipsoid, 400, 30000) SOLID(K_ETUBE, etube, 400, 30000) SOLID(K_TORUS, torus, 400, 30000) SOLID(K_CUTTUBE, cuttube, 400, 30000) SOLID(K_POLYCONE, polycone, 500, 40000) SOLID(K_GPOLYCONE, gpolycone, 500, 40000) SOLID(K_POLYHEDRA, polyhedra, 500, 40000) SOLID(K_EXTR, extrpoly, 400, 30000) SOLID(K_MESH, mesh, 400, 30000) SOLID(K_BOOL, boolean, 600, 50000)
GROUP(P12, values, 1500, 60000) { Rng & r = c.r; int k = (int)r.i(K_NK), k2 = r.coin() ? k : (int)r.i(K_NK); Solid a = make(r, k, r.lu(0.1, 100)), b = make(r, k2, r.lu(0.1, 100)); auto A = a.g->create(), B = b.g->create(); char const * K = kname(k);
    CHECK("copy_equal", *A == *a.g && !(*A != *a.g) && !(*A < *a.g) && !(*a.g < *A), "%s", K); CHECK("trichotomy", (*A == *B) + (*A < *B) + (*B < *A) == 1 && (*A == *B) == (*B == *A) && (*A != *B) != (*A == *B), "%s %s", K, kname(k2));
    Ray q = ray(r, a); auto eq = [&](Geometry const & x, Geometry const & y) { auto h = x.Intersections(q.p, q.d), g = y.Intersections(q.p, q.d); bool ok = h.size() == g.size(); for(size_t i = 0; ok && i < h.size(); ++i) ok = h[i].distance == g[i].distance && h[i].entering == g[i].entering && h[i].position == g[i].position; AABB m = x.GetWorldBoundingBox(), n = y.GetWorldBoundingBox(); return ok && m.min_corner == n.min_corner && m.max_corner == n.max_corner; };
    CHECK("copy_behaves", eq(*A, *a.g), "%s", K); if(k == k2) { *A = *B; CHECK("assigned", *A == *b.g && eq(*A, *b.g), "%s", K); A = a.g->create(); A->swap(*B); CHECK("swapped", *A == *b.g && *B == *a.g && eq(*A, *b.g) && eq(*B, *a.g), "%s", K); }
    // a new placement moves the whole solid
    Solid m = a; Placement p = rplace(r, a.size); m.g = a.g->create(); m.g->SetPlacement(p); m.pl = p; CHECK("placement_kept", m.g->GetPlacement() == p, "%s", K); if(p != a.g->GetPlacement()) CHECK("placement_counts", *m.g != *a.g && (*m.g < *a.g) != (*a.g < *m.g), "%s", K); for(int i = 0; i < 3; ++i) probe(c, m, ray(r, m)); std::ostringstream os; os << *m.g; CHECK("prints", !os.str().empty(), "%s", K); seen("%s %s", K, kname(k2)); }

// twins: two solids that differ in one number at most, so that every parameter has to count in equality and order
GROUP(P12, twins, 6000, 200000) { Rng & r = c.r; int k = (int)r.i(K_NK); uint64_t seed = r.next(); double S = r.lu(0.1, 100); std::vector<std::shared_ptr<Geometry>> g; std::vector<Solid> v; for(int i = 0; i < 4; ++i) { Rng q(seed); q.nudge = i == 0 ? 0 : 1 + (int)r.i(k == K_BOOL ? 60 : 25); v.push_back(make(q, k, S)); g.push_back(v.back().g->create()); } char const * K = kname(k); int differ = 0;
    for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { Geometry const & A = *g[i], & B = *g[j]; bool e = A == B; CHECK("twin_trichotomy", e + (A < B) + (B < A) == 1 && e == (B == A) && (A != B) == !e, "%s: %s and %s: equal %d, before %d, after %d", K, v[i].desc.c_str(), v[j].desc.c_str(), e, A < B, B < A); if(i < j && e) { for(int n = 0; n < 4; ++n) { Ray q = ray(r, v[i]); auto h = A.Intersections(q.p, q.d), w = B.Intersections(q.p, q.d); bool ok = h.size() == w.size(); for(size_t m = 0; ok && m < h.size(); ++m) ok = h[m].distance == w[m].distance && h[m].entering == w[m].entering; CHECK("equal_twins_behave_alike", ok, "%s: %s and %s are called equal", K, v[i].desc.c_str(), v[j].desc.c_str()); } } if(i < j && !e) ++differ; for(int m = 0; m < 4; ++m) if(A < B && B < *g[m]) CHECK("twin_transitive", A < *g[m], "%s: %s", K, v[i].desc.c_str()); }
    seen("%s twins %d", K, differ); obs("unequal twins", differ); }
// a line that meets very many surfaces of one solid
GROUP(P12, many_surfaces, 400, 15000) { Rng & r = c.r; int n = r.ri(2, 45), nest = (int)r.i(3); bool holes = r.coin(0.4); double S = r.lu(0.05, 1e3); std::vector<double> lo, hi; double x = S * r.u(-1, 1), x0 = x - S; for(int i = 0; i < n; ++i) { lo.push_back(x); hi.push_back(x + S * r.u(0.3, 1)); x = hi.back() + S * r.u(0.3, 1); } double x1 = x; std::vector<std::shared_ptr<const Geometry>> b; for(int i = 0; i < n; ++i) b.push_back(std::make_shared<Box>(Placement(Vector3D((lo[i] + hi[i]) / 2, 0, 0)), hi[i] - lo[i], S, S)); Placement pl = rplace(r, S); bool root = true; (void)root;
    auto join = [&](std::shared_ptr<const Geometry> p, std::shared_ptr<const Geometry> q, Placement const & w) { return std::make_shared<BooleanGeometry>(w, BooleanOperation::UNION, p, q); }; std::shared_ptr<Geometry> G;
    if(holes) { std::shared_ptr<const Geometry> body = std::make_shared<Box>(Placement(Vector3D((x0 + x1) / 2, 0, 0)), x1 - x0, S, S); for(int i = 0; i < n; ++i) { G = std::make_shared<BooleanGeometry>(i + 1 == n ? pl : Placement(), BooleanOperation::SUBTRACTION, body, b[i]); body = G; } }
    else if(nest == 0) { std::shared_ptr<const Geometry> t = b[0]; for(int i = 1; i < n; ++i) { G = join(t, b[i], i + 1 == n ? pl : Placement()); t = G; } } else if(nest == 1) { std::shared_ptr<const Geometry> t = b[n - 1]; for(int i = n - 1; i-- > 0;) { G = join(b[i], t, i == 0 ? pl : Placement()); t = G; } } else { auto t = b; while(t.size() > 1) { std::vector<std::shared_ptr<const Geometry>> u; for(size_t i = 0; i + 1 < t.size(); i += 2) { G = join(t[i], t[i + 1], t.size() == 2 ? pl : Placement()); u.push_back(G); } if(t.size() % 2) u.push_back(t.back()); t = u; } }
    std::vector<double> want; if(holes) want.push_back(x0); for(int i = 0; i < n; ++i) { want.push_back(lo[i]); want.push_back(hi[i]); } if(holes) want.push_back(x1); double at = x0 + (x1 - x0) * r.u(-0.5, 1.5), sg = r.sgn(); Vector3D lp(at, S * r.u(-0.4, 0.4), S * r.u(-0.4, 0.4)), ld(sg, 0, 0); Vector3D gp = pl.LocalToGlobalPosition(lp), gd = pl.LocalToGlobalDirection(ld); auto H = G->Intersections(gp, gd); std::vector<double> d; for(double w : want) d.push_back((w - at) * sg); std::sort(d.begin(), d.end()); bool ok = H.size() == d.size(); double e = 1e-6 * S + 1e-9 * (x1 - x0 + pl.GetPosition().magnitude()); for(size_t i = 0; ok && i < d.size(); ++i) ok = std::fabs(H[i].distance - d[i]) < e && H[i].entering == (i % 2 == 0);
    CHECK("every_surface", ok, "%d boxes%s nested %d: %zu crossings of %zu", n, holes ? " taken away" : "", nest, H.size(), d.size()); seen("many %d %d %d", n / 8, nest, holes); obs("crossings", H.size()); }
