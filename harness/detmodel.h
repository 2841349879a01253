// Random detector models together with an independent description: which sector holds a point, its density, what a line goes through.
#pragma once
#include "solids.h"
#include "density_pool.h"
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/math/EulerQuaternionConversions.h"
namespace detm {
using namespace solids; using namespace siren::detector; using PT = siren::dataclasses::ParticleType;
struct Sec { Solid s; bool inf; std::string name; int level; std::string mat; int mat_id; Prof pr; bool radial; Vector3D ax, c; std::shared_ptr<DensityDistribution> d;
    bool in(P3 p) const { return inf || s.in(tolocal(s.pl, p)); }
    double rho(P3 p) const { if(pr.kind == 0) return pr.val; LD x = p.x - c.GetX(), y = p.y - c.GetY(), z = p.z - c.GetZ(); return pr.f(radial ? (double)sqrtl(x * x + y * y + z * z) : (double)(x * ax.GetX() + y * ax.GetY() + z * ax.GetZ())); } };
struct Ref { std::vector<Sec> v; Vector3D org; Quaternion q; double S; std::shared_ptr<DetectorModel> m; std::string shape;
    Sec const * at(P3 p) const { Sec const * b = nullptr; for(auto & s : v) if((!b || s.level > b->level) && s.in(p)) b = &s; return b; }
    // not within e of any surface
    bool clear(P3 p, double e) const { for(auto & s : v) if(!s.inf) { bool a = s.in(p); for(int k = 0; k < 3; ++k) for(double f : {-1., 1., -0.1, 0.1}) { P3 y = p; (k == 0 ? y.x : k == 1 ? y.y : y.z) += e * f; if(s.in(y) != a) return false; } } return true; }
    P3 geo(Vector3D const & p) const { LD x = q.GetX(), y = q.GetY(), z = q.GetZ(), w = q.GetW(); P3 a{p.GetX(), p.GetY(), p.GetZ()}; LD tx = 2 * (y * a.z - z * a.y), ty = 2 * (z * a.x - x * a.z), tz = 2 * (x * a.y - y * a.x); return {a.x + w * tx + y * tz - z * ty + org.GetX(), a.y + w * ty + z * tx - x * tz + org.GetY(), a.z + w * tz + x * ty - y * tx + org.GetZ()}; }
    Vector3D det(P3 p) const { LD x = -(LD)q.GetX(), y = -(LD)q.GetY(), z = -(LD)q.GetZ(), w = q.GetW(); P3 a{p.x - org.GetX(), p.y - org.GetY(), p.z - org.GetZ()}; LD tx = 2 * (y * a.z - z * a.y), ty = 2 * (z * a.x - x * a.z), tz = 2 * (x * a.y - y * a.x); return Vector3D(a.x + w * tx + y * tz - z * ty, a.y + w * ty + z * tx - x * tz, a.z + w * tz + x * ty - y * tx); }
    Vector3D detd(Vector3D const & d) const { P3 p{d.GetX() + org.GetX(), d.GetY() + org.GetY(), d.GetZ() + org.GetZ()}; LD x = -(LD)q.GetX(), y = -(LD)q.GetY(), z = -(LD)q.GetZ(), w = q.GetW(); P3 a{d.GetX(), d.GetY(), d.GetZ()}; LD tx = 2 * (y * a.z - z * a.y), ty = 2 * (z * a.x - x * a.z), tz = 2 * (x * a.y - y * a.x); (void)p; return Vector3D(a.x + w * tx + y * tz - z * ty, a.y + w * ty + z * tx - x * tz, a.z + w * tz + x * ty - y * tx); } };
inline P3 along(P3 p, Vector3D const & d, LD t) { return {p.x + t * d.GetX(), p.y + t * d.GetY(), p.z + t * d.GetZ()}; }
inline Vector3D vec(P3 p) { return Vector3D((double)p.x, (double)p.y, (double)p.z); }
static const std::map<std::string, std::map<int, double>> MATS = {{"ROCK", {{1000080160, 0.46}, {1000140280, 0.28}, {1000130270, 0.08}, {1000260560, 0.06}, {1000200400, 0.12}}}, {"ICE", {{1000010010, 0.1119}, {1000080160, 0.8881}}}, {"IRON", {{1000260560, 1.}}}, {"HYDROGEN", {{1000010010, 1.}}}, {"CH", {{1000060120, 0.92}, {1000010010, 0.08}}}};
// what a line goes through from t0 to t1: pieces with one sector each
struct Piece { LD a, b; Sec const * s; };
struct Walk { std::vector<Piece> p; bool sure; double slop; };   // slop: length of pieces too short to be judged
inline Walk walk(Ref const & R, P3 o, Vector3D const & d, LD t0, LD t1, double e) { Walk w; w.sure = true; w.slop = 0; std::vector<LD> ts = {t0, t1}; for(auto & s : R.v) if(!s.inf) { auto H = s.s.g->Intersections(vec(o), d); for(auto & h : H) if(h.distance > t0 && h.distance < t1) ts.push_back(h.distance); } std::sort(ts.begin(), ts.end());
    for(size_t i = 0; i + 1 < ts.size(); ++i) { if(ts[i + 1] - ts[i] <= 0) continue; if(ts[i + 1] - ts[i] < 4 * e) { w.slop += ts[i + 1] - ts[i]; Sec const * s = R.at(along(o, d, (ts[i] + ts[i + 1]) / 2)); w.p.push_back({ts[i], ts[i + 1], s}); continue; } Sec const * s = nullptr; for(double f : {0.5, 0.01, 0.99, 0.23, 0.77}) { Sec const * x = R.at(along(o, d, ts[i] + (ts[i + 1] - ts[i]) * f)); if(!s) s = x; if(x != s) w.sure = false; } if(!R.clear(along(o, d, (ts[i] + ts[i + 1]) / 2), e)) w.sure = false; w.p.push_back({ts[i], ts[i + 1], s}); } return w; }
// the mass along a piece (density in g/cm3, length in m), by Gauss-Legendre on short stretches
inline LD mass(Sec const & s, P3 o, Vector3D const & d, LD a, LD b) { if(s.pr.kind == 0) return s.pr.val * (b - a); static const double x[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717}, w[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881}; std::vector<LD> cut = {a, b}; if(s.radial) { LD t = (s.c.GetX() - o.x) * d.GetX() + (s.c.GetY() - o.y) * d.GetY() + (s.c.GetZ() - o.z) * d.GetZ(); if(t > a && t < b) cut.insert(cut.begin() + 1, t); } LD sum = 0;
    for(size_t k = 0; k + 1 < cut.size(); ++k) { LD lo = cut[k], hi = cut[k + 1]; int n = 24; // graded towards the point of closest approach, where a radial profile varies fastest
        for(int i = 0; i < n; ++i) { auto g = [&](LD u) { return u; }; LD u0 = lo + (hi - lo) * g((LD)i / n), u1 = lo + (hi - lo) * g((LD)(i + 1) / n), m = (u0 + u1) / 2, h = (u1 - u0) / 2; for(int j = 0; j < 5; ++j) sum += w[j] * h * (s.rho(along(o, d, m - h * x[j])) + s.rho(along(o, d, m + h * x[j]))); } } return sum; }
inline Sec sector(Rng & r, Solid s, int level, std::string name, double S) { Sec o; o.s = s; o.inf = false; o.level = level; o.name = name; static char const * mn[] = {"ROCK", "ICE", "IRON", "HYDROGEN", "CH", "VACUUM"}; o.mat = mn[r.i(6)]; o.c = s.pl.GetPosition() + rv(r, s.size * r.u(0, 1)); o.ax = rdir(r); o.radial = r.coin(); o.pr = genprof(r, s.size, true); if(r.coin(0.3)) { o.pr.kind = 0; } o.d = mkD(o.pr, o.radial, o.ax, o.c); (void)S; return o; }
inline Ref model(Rng & r, int maxn = 10, int shape = -1) { Ref R; R.S = r.lu(0.3, 1e5); double S = R.S; R.org = r.coin(0.2) ? Vector3D(0, 0, 0) : rv(r, S * r.u(0, 3)); if(r.coin(0.6)) R.q.SetAxisAngle(rv(r, 1), r.u(-M_PI, M_PI)); int sh = shape >= 0 ? shape : (int)r.i(5); static char const * names[] = {"shells", "slabs", "random", "grid", "duplicates"}; R.shape = names[sh];
    std::vector<Solid> sol; auto put = [&](Solid s, Placement p) { s.g = s.g->create(); s.g->SetPlacement(p); s.pl = p; return s; }; auto box = [&](double a, double b, double c, Placement p) { Solid s; s.kind = K_BOX; s.g = std::make_shared<Box>(p, a, b, c); s.pl = p; s.in = [=](P3 x) { return fabsl(x.x) <= a / 2 && fabsl(x.y) <= b / 2 && fabsl(x.z) <= c / 2; }; s.size = std::max({a, b, c}); s.desc = mon::fmt("%g %g %g", a, b, c); return s; }; auto ball = [&](double a, double b, Placement p) { Solid s; s.kind = K_SPHERE; s.g = std::make_shared<Sphere>(p, a, b); s.pl = p; s.in = [=](P3 x) { LD n = x.x * x.x + x.y * x.y + x.z * x.z; return n <= (LD)a * a && n >= (LD)b * b; }; s.size = 2 * a; s.desc = mon::fmt("%g %g", a, b); return s; };
    auto anywhere = [&](double f) { Placement p; if(r.coin(0.9)) p = Placement(rv(r, S * r.u(0, f))); if(r.coin(0.5)) { Quaternion q; q.SetAxisAngle(rv(r, 1), r.u(-M_PI, M_PI)); p = Placement(p.GetPosition(), q); } return p; }; auto any = [&](double size, double f) { for(;;) { int k = r.coin(0.5) ? r.pick({(int)K_BOX, (int)K_SPHERE, (int)K_CYL}) : (int)r.i(K_NK); Solid s = make(r, k, size); if(k == K_MESH) { P3 c = s.special.back(); if(std::fabs((double)c.x) + std::fabs((double)c.y) + std::fabs((double)c.z) > 3 * size) continue; } return put(s, anywhere(f)); } };
    int n = 1 + (int)r.i(maxn); std::vector<int> lv; bool dense = r.coin(); int l0 = r.coin() ? 0 : -(int)r.i(2000); for(int i = 0; i < 64; ++i) { lv.push_back(l0); l0 += dense ? 1 : 1 + (int)r.i(1000); } bool shuffle = false;
    if(sh == 0) { Placement p = r.coin() ? Placement() : anywhere(1); std::vector<double> rad; for(int i = 0; i < n; ++i) rad.push_back(S * r.u(0.1, 2)); std::sort(rad.rbegin(), rad.rend()); for(double a : rad) sol.push_back(ball(a, 0, p)); if(r.coin()) { sol.push_back(any(S * 0.2, 1.5)); } if(r.coin(0.3)) for(size_t i = 0; i + 1 < rad.size(); ++i) if(r.coin()) sol[i] = ball(rad[i], rad[i + 1], p); }
    else if(sh == 1) { double a = S * r.u(0.5, 2), b = S * r.u(0.5, 2), c = S * r.u(0.5, 2); Placement w = r.coin(0.5) ? Placement() : anywhere(1); sol.push_back(box(a, b, c, w)); double z = -c / 2; for(int i = 0; i < n; ++i) { double h = i + 1 == n ? c / 2 - z : (c / 2 - z) * r.u(0.1, 0.6); double aa = r.coin() ? a : a * r.u(0.3, 1), bb = r.coin() ? b : b * r.u(0.3, 1); Placement q(w.LocalToGlobalPosition(Vector3D(0, 0, z + h / 2)), w.GetQuaternion()); sol.push_back(box(aa, bb, h, q)); z += h; if(r.coin(0.2)) z -= h * 0.3; } }
    else if(sh == 2) { for(int i = 0; i < n; ++i) sol.push_back(any(S * r.lu(0.1, 1), 1.5)); shuffle = true; }
    else if(sh == 3) { int k = 2 + (int)r.i(2); double g = S / k; bool touch = r.coin(0.3); sol.push_back(box(3 * S, 3 * S, 3 * S, Placement())); for(int i = 0; i < k; ++i) for(int j = 0; j < k; ++j) for(int m = 0; m < (maxn < 6 ? 1 : k); ++m) { Placement p(Vector3D((i - k / 2.) * g, (j - k / 2.) * g, (m - k / 2.) * g)); if(r.coin(0.7)) sol.push_back(box(touch ? g : g * r.u(0.2, 1.3), touch ? g : g * r.u(0.2, 0.9), touch ? g : g * r.u(0.2, 0.9), p)); else sol.push_back(ball(g * r.u(0.1, 0.5), 0, p)); } shuffle = r.coin(0.3); }
    else { Solid a = any(S * r.u(0.3, 1), 1); for(int i = 0; i < std::min(n, 4); ++i) { sol.push_back(a); if(r.coin(0.4)) sol.push_back(any(S * r.u(0.1, 0.7), 1)); } }
    R.m = std::make_shared<DetectorModel>(); MaterialModel mats = R.m->GetMaterials(); for(auto & x : MATS) mats.AddMaterial(x.first, x.second); R.m->SetMaterials(mats);
    Sec u; u.inf = true; u.name = "UNIVERSE"; u.level = std::numeric_limits<int>::min(); u.mat = "VACUUM"; u.pr.kind = 0; u.pr.val = ConstantDensityDistribution().Evaluate(Vector3D(0, 0, 0)); u.radial = false; R.v.push_back(u);
    if((int)lv.size() > (int)sol.size()) lv.resize(sol.size()); if(shuffle) for(size_t i = lv.size(); i > 1; --i) std::swap(lv[i - 1], lv[r.i(i)]);
    for(size_t i = 0; i < sol.size() && i < lv.size(); ++i) R.v.push_back(sector(r, sol[i], lv[i], mon::fmt("s%zu", i), S)); if(r.coin(0.4)) for(size_t i = R.v.size(); i > 2; --i) std::swap(R.v[i - 1], R.v[1 + r.i(i - 1)]);
    for(auto & s : R.v) { s.mat_id = mats.GetMaterialId(s.mat); if(s.inf) continue; DetectorSector x; x.name = s.name; x.level = s.level; x.material_id = s.mat_id; x.geo = s.s.g; x.density = s.d; R.m->AddSector(x); }
    R.m->SetDetectorOrigin(GeometryPosition(R.org)); R.m->SetDetectorRotation(R.q); return R; }
inline std::string show(Ref const & R) { std::string o = R.shape; for(auto & s : R.v) if(!s.inf) { Vector3D p = s.s.pl.GetPosition(); o += mon::fmt(" | %s L%d %s %s %s at (%.6g,%.6g,%.6g)", s.name.c_str(), s.level, kname(s.s.kind), s.s.desc.c_str(), s.mat.c_str(), p.GetX(), p.GetY(), p.GetZ()); } return o.substr(0, 1500); }
// a line chosen to meet things: origin and direction in the world frame
struct Line { P3 o; Vector3D d; double len; };
inline P3 spot(Rng & r, Ref const & R) { if(r.coin(0.6) && R.v.size() > 1) { Sec const & s = R.v[1 + r.i(R.v.size() - 1)]; if(!s.inf) { Vector3D c = s.s.pl.GetPosition(); return {c.GetX() + s.s.size * r.u(-0.5, 0.5), c.GetY() + s.s.size * r.u(-0.5, 0.5), c.GetZ() + s.s.size * r.u(-0.5, 0.5)}; } } return {R.S * r.u(-3, 3), R.S * r.u(-3, 3), R.S * r.u(-3, 3)}; }
inline Line line(Rng & r, Ref const & R) { Line l; P3 a = spot(r, R), b = spot(r, R); l.d = Vector3D((double)(b.x - a.x), (double)(b.y - a.y), (double)(b.z - a.z)); l.len = l.d.magnitude(); if(l.len < 1e-3 * R.S || r.coin(0.3)) { l.d = r.coin(0.5) ? rv(r, 1) : Vector3D(r.pick({Vector3D(1, 0, 0), Vector3D(0, 1, 0), Vector3D(0, 0, 1), Vector3D(-1, 0, 0), Vector3D(0, -1, 0), Vector3D(0, 0, -1)})); l.len = R.S * r.lu(0.01, 5); } l.d.normalize(); if(r.coin(0.15)) { double back = R.S * r.lu(1, 100); a = along(a, l.d, -back); l.len += back; } if(r.coin(0.1)) l.len = R.S * r.lu(5, 1000); l.o = {(double)a.x, (double)a.y, (double)a.z}; return l; }
}
