// Triangle meshes: ray against triangle and box, clipping, and the search tree against brute force (P14).
#include "mon.h"
#include "SIREN/geometry/MeshBuilder.h"
using namespace siren::geometry::Mesh; using namespace mon;
typedef long double LD; typedef std::array<LD, 3> L3;
static L3 l3(Point const & p) { return {p[0], p[1], p[2]}; }
static L3 operator-(L3 const & a, L3 const & b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static L3 cr(L3 const & a, L3 const & b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static LD dt(L3 const & a, L3 const & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static LD nm(L3 const & a) { return sqrtl(dt(a, a)); }
static Point rp(Rng & r, double s) { return {{r.u(-s, s), r.u(-s, s), r.u(-s, s)}}; }
static Point rd(Rng & r) { double x, y, z; r.dir(x, y, z); double n = r.coin(0.3) ? r.lu(0.01, 100) : 1; return {{n * x, n * y, n * z}}; }
static TData tri(Rng & r, double s, int kind) { TData t; Point c = rp(r, s); for(auto & p : t) { p = rp(r, s * 0.4); for(int k = 0; k < 3; ++k) p[k] += c[k]; }
    if(kind == 1) { int k = (int)r.i(3); t[1][k] = t[2][k] = t[0][k]; }                                  // in an axis plane
    if(kind == 2) for(auto & p : t) for(auto & x : p) x = std::round(x / s * 4) / 4 * s;                  // on a grid
    if(kind == 3) { double f = r.lu(1e-4, 1e-1); for(int k = 0; k < 3; ++k) t[2][k] = t[0][k] + 0.5 * (t[1][k] - t[0][k]) + f * (t[2][k] - t[0][k]); } return t; }
static LD area(TData const & t) { return nm(cr(l3(t[1]) - l3(t[0]), l3(t[2]) - l3(t[0]))) / 2; }
// barycentric coordinates and distance of the line's crossing with the triangle's plane; false when parallel to it
struct X { LD u, v, w, t, det, cosn; };
static bool cross(Point const & o, Point const & d, TData const & t, X & x) { L3 e1 = l3(t[1]) - l3(t[0]), e2 = l3(t[2]) - l3(t[0]), D = l3(d), s = l3(o) - l3(t[0]), n = cr(e1, e2); LD den = dt(D, n); x.det = -den; LD nn = nm(n); if(nn == 0) return false; x.cosn = fabsl(den) / (nn * nm(D)); if(x.cosn < 1e-6L) return false;
    x.t = -dt(s, n) / den; L3 p = {s[0] + x.t * D[0], s[1] + x.t * D[1], s[2] + x.t * D[2]}; x.u = dt(cr(p, e2), n) / (nn * nn); x.v = dt(cr(e1, p), n) / (nn * nn); x.w = 1 - x.u - x.v; return true; }
static Voxel vox(Point const & a, Point const & b) { Voxel v; v.AddPoint(a); v.AddPoint(b); return v; }
static std::string ts(TData const & t) { std::string s; for(auto & p : t) s += mon::fmt("(%.17g,%.17g,%.17g)", p[0], p[1], p[2]); return s; }

GROUP(P14, ray_triangle, 20000, 1500000) { Rng & r = c.r; double s = r.lu(0.01, 1e4); int kind = (int)r.i(4); TData t = tri(r, s, kind); if(area(t) < 1e-6 * s * s || area(t) < 1e-8) { obs("skipped_degenerate"); return; }
    Point o = rp(r, 3 * s), d = rd(r); int aim = (int)r.i(4); if(aim) { LD a = r.u(), b = r.u(); if(aim == 2) { a = r.pick({-1e-6, 1e-6, 1 - 1e-6, 1 + 1e-6}); } if(aim == 3) { a = r.u(-0.3, 1.3); b = r.u(-0.3, 1.3); } Point q; for(int k = 0; k < 3; ++k) q[k] = (double)(t[0][k] + a * ((LD)t[1][k] - t[0][k]) + b * (1 - a) * ((LD)t[2][k] - t[0][k])); double f = r.coin() ? 1 : r.u(0.1, 2); for(int k = 0; k < 3; ++k) d[k] = f * (q[k] - o[k]); if(r.coin(0.3)) for(auto & x : d) x = -x; }
    X x; if(!cross(o, d, t, x)) { obs("grazing"); return; } RayTriangleHit h = RayTriangleIntersect(o, d, t[0], t[1], t[2]); LD m = std::min(x.u, std::min(x.v, x.w)); LD L = std::max(nm(l3(t[1]) - l3(t[0])), nm(l3(t[2]) - l3(t[0]))); LD slack = 2e-10L + 1e-13L * (nm(l3(o) - l3(t[0])) * L / area(t)) / x.cosn;
    if(m > slack) { CHECK("hit_found", h.hit, "m=%Lg t=%Lg tri %s o (%g %g %g) d (%g %g %g)", m, x.t, ts(t).c_str(), o[0], o[1], o[2], d[0], d[1], d[2]); obs("hits"); }
    if(m < -slack - 1e-10L) { CHECK("miss_not_reported", !h.hit, "m=%Lg tri %s", m, ts(t).c_str()); obs("misses"); }
    if(h.hit) { LD tt = 1e-12L * (nm(l3(o) - l3(t[0])) + s) / nm(l3(d)) / x.cosn * (1 + L * L / area(t)); CHECK("hit_distance", fabsl(h.t - x.t) < tt + 1e-12L * fabsl(x.t), "t %.17g vs %.17Lg", h.t, x.t); CHECK("hit_side", h.front_face == (x.det > 0), "det %Lg", x.det); }
    seen("k%d a%d f%d h%d b%d", kind, aim, h.front_face, h.hit, h.t < 0);
    // the order of the corners does not matter, except for which side is the front
    RayTriangleHit h2 = RayTriangleIntersect(o, d, t[1], t[2], t[0]), h3 = RayTriangleIntersect(o, d, t[0], t[2], t[1]); if(fabsl(m) > slack + 1e-10L && h.hit) { CHECK("corner_order", h2.hit && h3.hit && h2.front_face == h.front_face && h3.front_face != h.front_face, "%s", ts(t).c_str()); }
}
GROUP(P14, box, 15000, 800000) { Rng & r = c.r; double s = r.lu(0.01, 1e4); Point a = rp(r, s), b = rp(r, s); Voxel V = vox(a, b); std::vector<Point> pts = {a, b}; for(int k = (int)r.i(5); k > 0; --k) { pts.push_back(rp(r, s)); V.AddPoint(pts.back()); }
    bool okb = V.n_points == (int)pts.size(); for(int k = 0; k < 3; ++k) { double lo = pts[0][k], hi = lo; for(auto & p : pts) { lo = std::min(lo, p[k]); hi = std::max(hi, p[k]); } okb = okb && V.min_extent[k] == lo && V.max_extent[k] == hi; } CHECK("bounds", okb, "-");
    L3 ln = l3(V.max_extent) - l3(V.min_extent); CHECK("surface", mon::close(V.SurfaceArea(), (double)(2 * (ln[0] * ln[1] + ln[1] * ln[2] + ln[2] * ln[0])), 1e-14), "%g", V.SurfaceArea());
    Axis ax = Axis(r.i(3)); double at = r.u(V.min_extent[int(ax)], V.max_extent[int(ax)]); Voxel A, B; V.depth = (int)r.i(5); V.Split({ax, at}, A, B); bool oks = A.depth == V.depth + 1 && B.depth == V.depth + 1; for(int k = 0; k < 3; ++k) oks = oks && A.min_extent[k] == V.min_extent[k] && B.max_extent[k] == V.max_extent[k] && A.max_extent[k] == (k == int(ax) ? at : V.max_extent[k]) && B.min_extent[k] == (k == int(ax) ? at : V.min_extent[k]); CHECK("split", oks, "-"); CHECK("contains_halves", V.Contains(A) && V.Contains(B) && V.Contains(V), "-"); CHECK("halves_meet", A.Intersects(B) && B.Intersects(A) && V.Intersects(A), "-");
    Voxel W = vox(rp(r, 1.5 * s), rp(r, 1.5 * s)); if(r.coin(0.3)) W = vox(rp(r, 0.1 * s), rp(r, 0.1 * s)); bool ov = true, in = true; for(int k = 0; k < 3; ++k) { ov = ov && std::max(V.min_extent[k], W.min_extent[k]) <= std::min(V.max_extent[k], W.max_extent[k]); in = in && W.min_extent[k] >= V.min_extent[k] && W.max_extent[k] <= V.max_extent[k]; } CHECK("overlap", V.Intersects(W) == ov && W.Intersects(V) == ov, "-"); CHECK("containment", V.Contains(W) == in, "-"); obs(ov ? "overlapping" : "apart");
    // a line against the box, both with infinite and with zero reciprocals of vanishing components
    Point o = rp(r, 2 * s), d = rd(r); if(r.coin(0.6)) { for(int k = 0; k < 3; ++k) d[k] = r.u(V.min_extent[k], V.max_extent[k]) - o[k]; } if(r.coin(0.4)) d[r.i(3)] = 0; if(r.coin(0.1)) d[r.i(3)] = 0; if(d[0] == 0 && d[1] == 0 && d[2] == 0) d[0] = 1; if(r.coin(0.1)) { int k = (int)r.i(3); if(d[k] == 0) o[k] = V.min_extent[k]; }
    bool z = r.coin(); Point inv; for(int k = 0; k < 3; ++k) inv[k] = d[k] == 0 ? (z ? 0.0 : 1 / d[k]) : 1 / d[k]; double t0 = 7, t1 = -7; bool h = RayVoxelIntersect(o, inv, V, t0, t1);
    auto ref = [&](LD pad, LD & lo, LD & hi) { lo = -INFINITY; hi = INFINITY; for(int k = 0; k < 3; ++k) { LD p = V.min_extent[k] - pad - (LD)o[k], q = V.max_extent[k] + pad - (LD)o[k]; if(d[k] == 0) { if(p > 0 || q < 0) return false; continue; } p /= d[k]; q /= d[k]; lo = std::max(lo, std::min(p, q)); hi = std::min(hi, std::max(p, q)); } return lo <= hi; };
    LD lo, hi, l2, h2; bool sure = ref(0, lo, hi), maybe = ref(2e-8L + 1e-13L * s, l2, h2);
    if(sure) { CHECK("line_meets_box", h, "(%g %g %g) (%g %g %g)", o[0], o[1], o[2], d[0], d[1], d[2]); CHECK("line_interval", t0 <= lo + 1e-12L * (1 + fabsl(lo)) && t1 >= hi - 1e-12L * (1 + fabsl(hi)) && (LD)t0 >= l2 - 1e-12L * (1 + fabsl(lo)) && (LD)t1 <= h2 + 1e-12L * (1 + fabsl(hi)), "[%g,%g] vs [%Lg,%Lg]", t0, t1, lo, hi); obs("line_hits"); }
    if(!maybe) { CHECK("line_misses_box", !h, "(%g %g %g) (%g %g %g)", o[0], o[1], o[2], d[0], d[1], d[2]); obs("line_misses"); } seen("l%d m%d z%d s%d", sure, maybe, z, (int)std::log10(s));
}
// independent clipping of the triangle to the box (long double, one half space at a time)
static std::vector<L3> refclip(TData const & t, Voxel const & V) { std::vector<L3> p = {l3(t[0]), l3(t[1]), l3(t[2])}; for(int k = 0; k < 3; ++k) for(int sgn : {-1, 1}) { LD lim = sgn > 0 ? V.max_extent[k] : V.min_extent[k]; std::vector<L3> q; for(size_t i = 0; i < p.size(); ++i) { L3 a = p[i], b = p[(i + 1) % p.size()]; LD fa = sgn * (a[k] - lim), fb = sgn * (b[k] - lim); if(fa <= 0) q.push_back(a); if((fa < 0 && fb > 0) || (fa > 0 && fb < 0)) { LD f = fa / (fa - fb); L3 m; for(int j = 0; j < 3; ++j) m[j] = a[j] + f * (b[j] - a[j]); m[k] = lim; q.push_back(m); } } p = q; } return p; }
static LD parea(std::vector<L3> const & p) { L3 n = {0, 0, 0}; for(size_t i = 1; i + 1 < p.size(); ++i) { L3 m = cr(p[i] - p[0], p[i + 1] - p[0]); for(int k = 0; k < 3; ++k) n[k] += m[k]; } return nm(n) / 2; }
GROUP(P14, clip, 15000, 800000) { Rng & r = c.r; double s = r.lu(0.01, 1e4); int kind = (int)r.i(4); TData t = tri(r, s, kind); Voxel V = vox(rp(r, s), rp(r, s)); if(r.coin(0.6)) { Point q = t[r.i(3)], a = rp(r, 0.5 * s), b = rp(r, 0.5 * s); double f = r.u(); for(int k = 0; k < 3; ++k) { q[k] += f * (t[0][k] - q[k]); a[k] += q[k]; b[k] += q[k]; } V = vox(a, b); } if(kind == 2 || r.coin(0.2)) for(int k = 0; k < 3; ++k) { V.min_extent[k] = std::round(V.min_extent[k] / s * 2) / 2 * s; V.max_extent[k] = std::round(V.max_extent[k] / s * 2) / 2 * s; if(V.max_extent[k] <= V.min_extent[k]) V.max_extent[k] = V.min_extent[k] + 0.5 * s; }
    if(kind == 1 && r.coin()) { for(int k = 0; k < 3; ++k) if(t[0][k] == t[1][k] && t[1][k] == t[2][k]) { double x = r.coin() ? V.min_extent[k] : V.max_extent[k]; t[0][k] = t[1][k] = t[2][k] = x; } }
    std::vector<L3> ref = refclip(t, V); LD A = parea(ref), T = area(t); if(T < 1e-6 * s * s) { obs("skipped_degenerate"); return; } LD tol = 1e-12L * s * s + 6e-8L * s; PolygonData p = V.Clip(t); std::vector<L3> q; for(auto & x : p) q.push_back(l3(x));
    CHECK("clip_area", fabsl(parea(q) - A) <= tol, "area %Lg, %zu corners, truly %Lg, %zu corners: tri %s box (%g %g %g)-(%g %g %g)", parea(q), q.size(), A, ref.size(), ts(t).c_str(), V.min_extent[0], V.min_extent[1], V.min_extent[2], V.max_extent[0], V.max_extent[1], V.max_extent[2]);
    L3 n = cr(l3(t[1]) - l3(t[0]), l3(t[2]) - l3(t[0])); bool in = true, pl = true; for(auto & x : q) { for(int k = 0; k < 3; ++k) in = in && x[k] >= V.min_extent[k] - 1.1e-8L - 1e-13L * s && x[k] <= V.max_extent[k] + 1.1e-8L + 1e-13L * s; pl = pl && fabsl(dt(x - l3(t[0]), n)) <= 1e-11L * nm(n) * s * 10; } CHECK("clip_inside", in, "%zu corners: tri %s", q.size(), ts(t).c_str()); CHECK("clip_planar", pl, "%zu corners: tri %s", q.size(), ts(t).c_str());
    if(A > tol) for(int k = 0; k < 3; ++k) { LD a = INFINITY, b = -INFINITY, e = INFINITY, f = -INFINITY; for(auto & x : ref) { a = std::min(a, x[k]); b = std::max(b, x[k]); } for(auto & x : q) { e = std::min(e, x[k]); f = std::max(f, x[k]); } if(kind != 3) CHECK("clip_extent", fabsl(a - e) < 1e-5L * s + 1e-7L && fabsl(b - f) < 1e-5L * s + 1e-7L, "axis %d [%Lg,%Lg] vs [%Lg,%Lg]", k, e, f, a, b); }
    seen("k%d n%zu", kind, ref.size()); obs(A > tol ? "overlap" : "no_overlap");
    // overlap test; the algorithm documents a tolerance of 1e-4 of the box, so nearby cases are left out
    auto scaled = [&](LD f) { Voxel W = V; for(int k = 0; k < 3; ++k) { LD h = ((LD)V.max_extent[k] - V.min_extent[k]) / 2, m = ((LD)V.max_extent[k] + V.min_extent[k]) / 2; W.min_extent[k] = (double)(m - h * f); W.max_extent[k] = (double)(m + h * f); } return W; };
    bool fat = true; LD mx = 0; for(int k = 0; k < 3; ++k) { LD h = (LD)V.max_extent[k] - V.min_extent[k]; fat = fat && h > 0.02L * s; mx = std::max(mx, h); } if(!fat || kind == 3) return;
    // (its point-in-triangle step is unreliable for triangles that are nearly axis aligned or small in units of the box)
    L3 e1, e2; for(int k = 0; k < 3; ++k) { LD h = (LD)V.max_extent[k] - V.min_extent[k]; e1[k] = ((LD)t[1][k] - t[0][k]) / h; e2[k] = ((LD)t[2][k] - t[0][k]) / h; } L3 sn = cr(e1, e2); bool skew = std::min(fabsl(sn[0]), std::min(fabsl(sn[1]), fabsl(sn[2]))) > 0.02L;
    if(skew && parea(refclip(t, scaled(0.99L))) > 1e-4L * s * s) { CHECK("triangle_meets_box", V.Intersects(t), "tri %s box (%g %g %g)-(%g %g %g)", ts(t).c_str(), V.min_extent[0], V.min_extent[1], V.min_extent[2], V.max_extent[0], V.max_extent[1], V.max_extent[2]); obs("meets"); }
    if(skew && refclip(t, scaled(1.01L)).empty()) { CHECK("triangle_misses_box", !V.Intersects(t), "tri %s box (%g %g %g)-(%g %g %g)", ts(t).c_str(), V.min_extent[0], V.min_extent[1], V.min_extent[2], V.max_extent[0], V.max_extent[1], V.max_extent[2]); obs("misses"); }
}
// the unit cube against triangles around its faces, edges and corners; the test documents a tolerance of 1e-4, so near misses are left out
GROUP(P14, cube, 30000, 2000000) { Rng & r = c.r; TData t; int kind = (int)r.i(4); L3 n = {0, 0, 0}; LD dist = 0; double off = r.sgn() * r.lu(0.01, 0.6);
    if(kind) { for(int k = 0; k < kind; ++k) { int a; do a = (int)r.i(3); while(n[a] != 0); n[a] = r.sgn(); } dist = kind * 0.5L; LD l = nm(n); Point mid; L3 x, y; { double a, b, e; r.dir(a, b, e); x = cr(n, {a, b, e}); LD m = nm(x); if(m < 0.1L) return; for(auto & v : x) v /= m; y = cr(n, x); for(auto & v : y) v /= l; } for(int k = 0; k < 3; ++k) mid[k] = (double)(n[k] == 0 ? r.u(-0.7, 0.7) : (n[k] * 0.5L)) + (double)(n[k] / l * off); double w = r.lu(0.2, 6), tilt = r.coin() ? 0 : r.lu(1e-2, 0.5); for(auto & p : t) { double a = r.u(-w, w), b = r.u(-w, w), e = r.u(-tilt, tilt); for(int k = 0; k < 3; ++k) p[k] = (double)(mid[k] + a * x[k] + b * y[k] + e * n[k] / l); } }
    else { double w = r.lu(0.3, 4); t = tri(r, w, (int)r.i(3)); }
    if(area(t) < 1e-2) return; Voxel U; U.AddPoint({{-.5, -.5, -.5}}); U.AddPoint({{.5, .5, .5}}); auto sc = [&](double f) { Voxel W = U; for(int k = 0; k < 3; ++k) { W.min_extent[k] *= f; W.max_extent[k] *= f; } return W; };
    L3 sn = cr(l3(t[1]) - l3(t[0]), l3(t[2]) - l3(t[0])); bool skew = std::min(fabsl(sn[0]), std::min(fabsl(sn[1]), fabsl(sn[2]))) > 0.02L; bool meets = !refclip(t, sc(0.998)).empty() && parea(refclip(t, sc(0.998))) > 1e-5L, misses = refclip(t, sc(1.002)).empty(); bool h = t_c_intersection(t) == 0, h2 = U.Intersects(t), h3 = t_c_intersection({{t[2], t[0], t[1]}}) == 0, h4 = t_c_intersection({{t[1], t[0], t[2]}}) == 0; seen("k%d m%d n%d s%d", kind, meets, misses, skew);
    if(meets) { CHECK("cube_met", h && h2 && h3 && h4, "%d %d %d %d: tri %s", h, h2, h3, h4, ts(t).c_str()); obs("met"); } if(misses) { CHECK("cube_missed", !h && !h2 && !h3 && !h4, "%d %d %d %d: tri %s", h, h2, h3, h4, ts(t).c_str()); obs("missed"); }
}
// triangle soups and closed surfaces
static std::vector<TData> mesh(Rng & r, double s, int kind, int n) { std::vector<TData> T; auto quad = [&](Point a, Point b, Point e, Point f) { T.push_back({{a, b, e}}); T.push_back({{a, e, f}}); };
    if(kind == 0) { double f = r.coin(0.3) ? r.lu(1e-6, 1) : 1; for(int i = 0; i < n; ++i) { TData t = tri(r, s * f, (int)r.i(4)); if(f < 1) { Point o = rp(r, s); for(auto & p : t) for(int k = 0; k < 3; ++k) p[k] += o[k]; } T.push_back(t); } }
    else if(kind == 1) { int m = std::max(1, (int)std::sqrt(n / 12.)); double L[3] = {s * r.u(0.3, 2), s * r.u(0.3, 2), s * r.u(0.3, 2)}; for(int k = 0; k < 3; ++k) for(int side : {0, 1}) for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) { auto P = [&](int a, int b) { Point p; p[k] = side ? L[k] : 0; p[(k + 1) % 3] = L[(k + 1) % 3] * a / m; p[(k + 2) % 3] = L[(k + 2) % 3] * b / m; return p; }; if(side) quad(P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)); else quad(P(i, j), P(i, j + 1), P(i + 1, j + 1), P(i + 1, j)); } }   // box
    else if(kind == 2) { int m = std::max(3, (int)std::sqrt(n / 2.)); for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) { auto P = [&](int a, int b) { double th = M_PI * a / m, ph = 2 * M_PI * (b % m) / m; return Point{{s * std::sin(th) * std::cos(ph), s * std::sin(th) * std::sin(ph), s * std::cos(th)}}; }; Point a = P(i, j), b = P(i + 1, j), e = P(i + 1, j + 1), f = P(i, j + 1); if(i > 0) T.push_back({{a, b, f}}); if(i + 1 < m) T.push_back({{b, e, f}}); } }   // ball
    else if(kind == 3) { for(int i = 0; i < n; ++i) { TData t = tri(r, s, 1); for(auto & p : t) p[2] = 0; T.push_back(t); } }     // flat sheet
    else { TData t = tri(r, s, (int)r.i(3)); for(int i = 0; i < n; ++i) { TData u = t; for(auto & p : u) p[0] += s * i * (i % 3 == 0 ? 0 : 1); T.push_back(u); } }   // coinciding copies
    if(r.coin(0.3)) { Point o = rp(r, 10 * s); for(auto & t : T) for(auto & p : t) for(int k = 0; k < 3; ++k) p[k] += o[k]; } return T; }
GROUP(P14, tree, 1200, 60000) { Rng & r = c.r; double s = r.lu(1e-4, 1e4); int kind = (int)r.i(5), n = r.coin(0.04) ? 0 : r.coin(0.2) ? 1 + (int)r.i(3) : 4 + (int)r.i(c.thorough ? 200 : 60); std::vector<TData> T = n ? mesh(r, s, kind, n) : std::vector<TData>(); double tc = r.coin(0.2) ? 0 : r.lu(0.05, 20), ic = r.lu(0.1, 20); int md = r.pick({0, 1, 2, 3, 5, 8, 12, 16});
    auto root = BuildKDTree(T, tc, ic, md); long leaves = 0, refs = 0; int deep = 0; bool ids = true, nest = true; std::set<int> all; std::function<void(KDNode const &)> walk = [&](KDNode const & k) { ++leaves; deep = std::max(deep, k.V.depth); if(k.terminal) { refs += k.T.size(); for(int t : k.T) { ids = ids && t >= 0 && t < (int)T.size(); all.insert(t); } } else { nest = nest && k.left && k.right; if(k.left && k.right) { walk(*k.left); walk(*k.right); } } }; CHECK("tree_built", (bool)root, "-"); if(!root) return; walk(*root);
    CHECK("tree_depth", deep <= md, "%d > %d", deep, md); CHECK("tree_ids", ids && nest, "-"); CHECK("tree_covers_all", all.size() == T.size(), "%zu of %zu", all.size(), T.size()); peak("refs_per_triangle", T.empty() ? 0 : double(refs) / T.size()); peak("depth", deep); obs("nodes", leaves);
    for(int k = 0; k < 60; ++k) { Point o = rp(r, 3 * s), d = rd(r), q = o; if(T.size() && r.coin(0.8)) { TData const & t = T[r.i(T.size())]; double a = r.u(), b = r.u(); if(r.coin(0.2)) a = r.pick({0., 1., 0.5}); for(int j = 0; j < 3; ++j) q[j] = t[0][j] + a * (t[1][j] - t[0][j]) + b * (1 - a) * (t[2][j] - t[0][j]); if(r.coin(0.3)) { for(int j = 0; j < 3; ++j) o[j] = q[j] - 2 * s * (d[j]); } for(int j = 0; j < 3; ++j) d[j] = q[j] - o[j]; if(d[0] == 0 && d[1] == 0 && d[2] == 0) continue; }
        Point inv; for(int j = 0; j < 3; ++j) inv[j] = 1 / d[j]; std::vector<RayTriangleHit> H; std::vector<TriangleID> I; TraverseKDTree(root, T, o, d, inv, H, I); CHECK("hit_lists_match", H.size() == I.size(), "%zu %zu", H.size(), I.size()); std::set<int> got; bool same = true; for(size_t i = 0; i < I.size() && i < H.size(); ++i) { got.insert(I[i]); auto & t = T[I[i]]; RayTriangleHit h = RayTriangleIntersect(o, d, t[0], t[1], t[2]); same = same && h.hit && H[i].hit && h.t == H[i].t && h.front_face == H[i].front_face; } CHECK("tree_hits_true", same, "kind %d", kind);
        int want = 0, lost = -1; for(int i = 0; i < (int)T.size(); ++i) { auto & t = T[i]; X x; RayTriangleHit h = RayTriangleIntersect(o, d, t[0], t[1], t[2]); if(!h.hit) continue; ++want; if(!got.count(i)) lost = i; } CHECK("tree_finds_all", lost < 0, "kind %d, %zu triangles, costs %g %g depth %d: ray (%.17g %.17g %.17g)->(%.17g %.17g %.17g) misses triangle %d %s", kind, T.size(), tc, ic, md, o[0], o[1], o[2], d[0], d[1], d[2], lost, lost < 0 ? "" : ts(T[lost]).c_str()); obs("crossings", want); }
    seen("k%d n%d md%d d%d", kind, (int)std::log2(T.size() + 1), md, deep);
}
// the split with the least expected cost, against trying every candidate
GROUP(P14, split, 3000, 100000) { Rng & r = c.r; double s = r.lu(1e-4, 1e4); std::vector<TData> T = mesh(r, s, (int)r.i(5), 1 + (int)r.i(25)); double tc = r.lu(0.05, 20), ic = r.lu(0.1, 20); std::vector<Event> E; Voxel V; for(size_t i = 0; i < T.size(); ++i) { size_t b = E.size(); GenerateNonClippedTriangleVoxelEvents(E, T[i], (int)i); bool ok = true; for(int k = 0; k < 3; ++k) { double lo = std::min({T[i][0][k], T[i][1][k], T[i][2][k]}), hi = std::max({T[i][0][k], T[i][1][k], T[i][2][k]}); int st = 0, en = 0, pn = 0; for(size_t j = b; j < E.size(); ++j) if(int(E[j].axis) == k) { ok = ok && E[j].triangle == (int)i; if(E[j].type == EventType::START) { ++st; ok = ok && E[j].position == lo; } else if(E[j].type == EventType::END) { ++en; ok = ok && E[j].position == hi; } else { ++pn; ok = ok && lo == hi && E[j].position == lo; } } ok = ok && (lo == hi ? pn == 1 && !st && !en : st == 1 && en == 1 && !pn); } CHECK("events", ok, "%s", ts(T[i]).c_str()); for(auto & p : T[i]) V.AddPoint(p); }
    std::sort(E.begin(), E.end(), EventCompare); bool so = true; for(size_t i = 1; i < E.size(); ++i) so = so && E[i - 1].position <= E[i].position && !(E[i - 1].position == E[i].position && E[i - 1].axis == E[i].axis && int(E[i - 1].type) > int(E[i].type)); CHECK("event_order", so, "-");
    if(V.SurfaceArea() <= 0) return; double best = INFINITY; for(auto & e : E) { int nl = 0, np = 0, nr = (int)T.size(); for(auto & f : E) if(f.axis == e.axis) { if(f.position < e.position && f.type != EventType::END) ++nl; if(f.position == e.position && f.type == EventType::PLANAR) ++np; if(f.position <= e.position && f.type != EventType::START) --nr; } Voxel A, B; AxisAlignedPlane p{e.axis, e.position}; V.Split(p, A, B); double SA = V.SurfaceArea(), pa = A.SurfaceArea() / SA, pb = B.SurfaceArea() / SA; auto cost = [&](int l, int q) { return (l == 0 || q == 0 ? 0.8 : 1.0) * (tc + ic * (pa * l + pb * q)); }; best = std::min(best, std::min(cost(nl + np, nr), cost(nl, nr + np))); }
    auto got = V.FindSplitPlane((int)T.size(), E, tc, ic); CHECK("best_split", mon::close(std::get<2>(got), best, 1e-12), "%zu triangles: cost %.17g, best %.17g", T.size(), std::get<2>(got), best); seen("n%zu a%d s%d", T.size(), int(std::get<0>(got).axis), int(std::get<1>(got)));
    // each half keeps every triangle with a part in it, and its own sorted events
    std::vector<Event> EL, ER; std::vector<TriangleID> TL, TR; AxisAlignedPlane p = std::get<0>(got); SplitEventsByPlane(E, T, V, p, EL, ER, TL, TR, std::get<1>(got)); Voxel A, B; V.Split(p, A, B); std::set<int> L(TL.begin(), TL.end()), R(TR.begin(), TR.end());
    CHECK("halves_listed_once", L.size() == TL.size() && R.size() == TR.size(), "%zu/%zu %zu/%zu of %zu", TL.size(), L.size(), TR.size(), R.size(), T.size());
    for(int i = 0; i < (int)T.size(); ++i) { int k = int(p.axis); double lo = std::min({T[i][0][k], T[i][1][k], T[i][2][k]}), hi = std::max({T[i][0][k], T[i][1][k], T[i][2][k]}); if(lo < p.position - 1e-7) CHECK("left_kept", L.count(i), "%d", i); if(hi > p.position + 1e-7) CHECK("right_kept", R.count(i), "%d", i); if(hi < p.position) CHECK("right_free", !R.count(i), "%d", i); if(lo > p.position) CHECK("left_free", !L.count(i), "%d", i); CHECK("some_side", L.count(i) || R.count(i), "%d", i); }
    for(int sd : {0, 1}) { auto & Q = sd ? ER : EL; Voxel & W = sd ? B : A; auto & S = sd ? R : L; bool ok = true, in = true; std::map<std::pair<int, int>, int> cnt; for(size_t i = 0; i < Q.size(); ++i) { ok = ok && (i == 0 || Q[i - 1].position <= Q[i].position); int k = int(Q[i].axis); in = in && Q[i].position >= W.min_extent[k] - 1e-7 - 1e-12 * s && Q[i].position <= W.max_extent[k] + 1e-7 + 1e-12 * s && S.count(Q[i].triangle); cnt[{Q[i].triangle, k}] += Q[i].type == EventType::PLANAR ? 2 : 1; } CHECK("half_events_sorted", ok, "-"); CHECK("half_events_inside", in, "-"); bool full = true; for(int t : S) for(int k = 0; k < 3; ++k) full = full && cnt[{t, k}] == 2; CHECK("half_events_complete", full, "%zu triangles %zu events", S.size(), Q.size()); }
}
