// Random solids of every kind together with an independent description of the region they stand for.
#pragma once
#include "mon.h"
#include <memory>
#include "SIREN/geometry/Geometry.h"
#include "SIREN/geometry/Placement.h"
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/Cylinder.h"
#include "SIREN/geometry/Cone.h"
#include "SIREN/geometry/Trd.h"
#include "SIREN/geometry/Para.h"
#include "SIREN/geometry/Trap.h"
#include "SIREN/geometry/Ellipsoid.h"
#include "SIREN/geometry/EllipticalTube.h"
#include "SIREN/geometry/Torus.h"
#include "SIREN/geometry/CutTube.h"
#include "SIREN/geometry/Polycone.h"
#include "SIREN/geometry/GenericPolycone.h"
#include "SIREN/geometry/Polyhedra.h"
#include "SIREN/geometry/ExtrPoly.h"
#include "SIREN/geometry/BooleanGeometry.h"
#include "SIREN/geometry/GeometryMesh.h"
namespace solids {
using namespace siren::geometry; using namespace siren::math; using mon::Rng; typedef long double LD;
struct P3 { LD x, y, z; };
struct Solid { std::shared_ptr<Geometry> g; std::function<bool(P3)> in; double size; std::string desc; std::vector<P3> special; Placement pl; int kind; };
enum { K_BOX, K_SPHERE, K_CYL, K_CONE, K_TRD, K_PARA, K_TRAP, K_ELLIPSOID, K_ETUBE, K_TORUS, K_CUTTUBE, K_POLYCONE, K_GPOLYCONE, K_POLYHEDRA, K_EXTR, K_MESH, K_BOOL, K_NK };
inline char const * kname(int k) { static char const * n[] = {"Box", "Sphere", "Cylinder", "Cone", "Trd", "Para", "Trap", "Ellipsoid", "EllipticalTube", "Torus", "CutTube", "Polycone", "GenericPolycone", "Polyhedra", "ExtrPoly", "Mesh", "Boolean"}; return n[k]; }
inline Vector3D rv(Rng & r, double s) { double x, y, z; r.dir(x, y, z); return Vector3D(s * x, s * y, s * z); }
inline Placement rplace(Rng & r, double s, bool plain = false) { if(plain || r.coin(0.25)) return Placement(); Vector3D p = r.coin(0.2) ? Vector3D(0, 0, 0) : rv(r, s * r.lu(0.01, 30)); if(r.coin(0.3)) return Placement(p); Quaternion q; q.SetAxisAngle(rv(r, 1), r.coin(0.2) ? r.pick({M_PI / 2, M_PI, -M_PI / 2}) : r.u(-M_PI, M_PI)); return Placement(p, q); }
// the point in the solid's own coordinates, computed independently of Placement
inline P3 tolocal(Placement const & p, P3 v) { Vector3D t = p.GetPosition(); Quaternion q = p.GetQuaternion(); LD x = -(LD)q.GetX(), y = -(LD)q.GetY(), z = -(LD)q.GetZ(), w = q.GetW(); P3 a{v.x - t.GetX(), v.y - t.GetY(), v.z - t.GetZ()}; P3 c{y * a.z - z * a.y, z * a.x - x * a.z, x * a.y - y * a.x}; P3 d{y * c.z - z * c.y, z * c.x - x * c.z, x * c.y - y * c.x}; return P3{a.x + 2 * (w * c.x + d.x), a.y + 2 * (w * c.y + d.y), a.z + 2 * (w * c.z + d.z)}; }
inline bool inphi(P3 p, double s, double d) { if(d >= 2 * M_PI - 1e-9) return true; LD a = atan2l(p.y, p.x) - s; LD T = 2 * M_PIl; a -= T * floorl(a / T); return a <= d; }
inline void rphi(Rng & r, double & s, double & d, bool & cut) { cut = r.coin(); s = 0; d = 2 * M_PI; if(!cut) return; s = r.coin(0.4) ? r.pick({0., M_PI / 2, M_PI, -M_PI / 2, 3.0, -3.5}) : r.u(-2 * M_PI, 2 * M_PI); d = r.coin(0.3) ? r.pick({M_PI / 2, M_PI, 1.5 * M_PI, 2 * M_PI}) : r.u(0.05, 2 * M_PI); }
inline bool inpoly(std::vector<std::array<double, 2>> const & v, LD x, LD y) { bool in = false; for(size_t i = 0, j = v.size() - 1; i < v.size(); j = i++) if((v[i][1] > y) != (v[j][1] > y) && x < ((LD)v[j][0] - v[i][0]) * (y - v[i][1]) / ((LD)v[j][1] - v[i][1]) + v[i][0]) in = !in; return in; }
typedef std::array<Vector3D, 3> Tri;
inline Solid make(Rng & r, int kind, double S, int depth = 0) { Solid o; o.kind = kind; o.size = S; double s, d; bool cut; Placement pl = rplace(r, S); o.pl = pl; auto L = [&]() { return S * r.u(0.1, 1); }; bool id = pl.IsIdentity() && r.coin();
    #define MK(T, ...) (id ? std::make_shared<T>(__VA_ARGS__) : std::make_shared<T>(pl, __VA_ARGS__))
    switch(kind) {
    case K_BOX: { double a = 2 * L(), b = 2 * L(), c = 2 * L(); o.g = MK(Box, a, b, c); o.in = [=](P3 p) { return fabsl(p.x) <= a / 2 && fabsl(p.y) <= b / 2 && fabsl(p.z) <= c / 2; }; o.size = std::max({a, b, c}); o.special = {{a / 2, b / 2, c / 2}, {-a / 2, b / 2, 0}, {a / 2, 0, 0}}; o.desc = mon::fmt("%g %g %g", a, b, c); break; }
    case K_SPHERE: { double R = L(), q = r.coin() ? 0 : R * r.u(0.05, 0.95); rphi(r, s, d, cut); bool th = r.coin(0.4); double ts = 0, td = M_PI; if(th) { ts = r.coin(0.3) ? r.pick({0., M_PI / 2, M_PI / 4}) : r.u(0, 2.8); td = r.coin(0.3) ? M_PI - ts : r.coin(0.2) && ts < M_PI / 2 ? M_PI / 2 - ts : r.u(0.05, M_PI - ts); if(td <= 0.01) td = M_PI - ts; } if(cut || th) o.g = MK(Sphere, R, q, s, d, ts, td); else o.g = MK(Sphere, R, q);
        o.in = [=](P3 p) { LD n = sqrtl(p.x * p.x + p.y * p.y + p.z * p.z); if(n > R || n < q) return false; LD t = atan2l(sqrtl(p.x * p.x + p.y * p.y), p.z); return t >= ts && (t <= (LD)ts + td || ts + td > M_PI - 1e-9) && inphi(p, s, d); }; o.size = 2 * R; o.special = {{0, 0, 0}, {0, 0, R}, {q, 0, 0}, {R * sin(ts) * cos(s), R * sin(ts) * sin(s), R * cos(ts)}}; o.desc = mon::fmt("R %g %g phi %g+%g theta %g+%g", R, q, s, d, ts, td); break; }
    case K_CYL: { double R = L(), q = r.coin() ? 0 : R * r.u(0.05, 0.95), z = 2 * L(); rphi(r, s, d, cut); if(cut) o.g = MK(Cylinder, R, q, z, s, d); else o.g = MK(Cylinder, R, q, z); o.in = [=](P3 p) { LD n = sqrtl(p.x * p.x + p.y * p.y); return n <= R && n >= q && fabsl(p.z) <= z / 2 && inphi(p, s, d); }; o.size = 2 * R + z; o.special = {{0, 0, 0}, {R, 0, z / 2}, {0, 0, z / 2}, {q, 0, -z / 2}, {R * cos(s), R * sin(s), 0}}; o.desc = mon::fmt("R %g %g z %g phi %g+%g", R, q, z, s, d); break; }
    case K_CONE: { double R1 = r.coin(0.15) ? 0 : L(), R2 = R1 > 0 && r.coin(0.2) ? 0 : L(), f = r.coin() ? 0 : r.u(0.05, 0.9), q1 = R1 * f, q2 = R2 * (r.coin(0.3) ? f : f > 0 ? r.u(0, 0.9) : 0), z = 2 * L(); if(r.coin(0.1)) R2 = R1 > 0 ? R1 : R2, q2 = std::min(q1, R2); rphi(r, s, d, cut); if(cut) o.g = MK(Cone, q1, R1, q2, R2, z, s, d); else o.g = MK(Cone, q1, R1, q2, R2, z); o.in = [=](P3 p) { LD u = p.z / z + 0.5L; if(u < 0 || u > 1) return false; LD n = sqrtl(p.x * p.x + p.y * p.y); return n <= R1 + (R2 - (LD)R1) * u && n >= q1 + (q2 - (LD)q1) * u && inphi(p, s, d); }; o.size = 2 * std::max(R1, R2) + z; o.special = {{0, 0, z / 2}, {0, 0, -z / 2}, {R1, 0, -z / 2}, {q2, 0, z / 2}, {0, 0, 0}}; o.desc = mon::fmt("r1 %g %g r2 %g %g z %g phi %g+%g", q1, R1, q2, R2, z, s, d); break; }
    case K_TRD: { double a = r.coin(0.1) ? 0 : L(), b = L(), c = L(), e = r.coin(0.1) ? 0 : L(), h = L(); o.g = MK(Trd, a, b, c, e, h); o.in = [=](P3 p) { LD u = (p.z / h + 1) / 2; return u >= 0 && u <= 1 && fabsl(p.x) <= a + (b - (LD)a) * u && fabsl(p.y) <= c + (e - (LD)c) * u; }; o.size = 2 * std::max({a, b, c, e, h}); o.special = {{a, c, -h}, {b, e, h}, {0, 0, h}}; o.desc = mon::fmt("%g %g %g %g %g", a, b, c, e, h); break; }
    case K_PARA: { double a = L(), b = L(), h = L(), al = r.coin(0.2) ? 0 : r.u(-1.2, 1.2), th = r.coin(0.2) ? 0 : r.u(0, 1.2), ph = r.u(-M_PI, M_PI); o.g = MK(Para, a, b, h, al, th, ph); o.in = [=](P3 p) { LD y = p.y - p.z * tanl(th) * sinl(ph), x = p.x - p.z * tanl(th) * cosl(ph) - y * tanl(al); return fabsl(p.z) <= h && fabsl(y) <= b && fabsl(x) <= a; }; o.size = 2 * (a + b * std::fabs(tan(al)) + b + h + h * tan(th)); o.special = {{0, 0, h}, {a, 0, 0}}; o.desc = mon::fmt("%g %g %g alpha %g theta %g phi %g", a, b, h, al, th, ph); break; }
    case K_TRAP: { double h = L(), th = r.coin(0.2) ? 0 : r.u(0, 1), ph = r.u(-M_PI, M_PI), y1 = L(), x1 = L(), x2 = L(), al = r.coin(0.3) ? 0 : r.u(-1, 1), k = r.coin(0.2) ? 1 : r.u(0.2, 2), y2 = k * y1, x3 = k * x1, x4 = k * x2; o.g = MK(Trap, h, th, ph, y1, x1, x2, al, y2, x3, x4, al); o.in = [=](P3 p) { if(fabsl(p.z) > h) return false; LD u = (p.z / h + 1) / 2, Y = y1 + (y2 - (LD)y1) * u, y = p.y - p.z * tanl(th) * sinl(ph), x = p.x - p.z * tanl(th) * cosl(ph) - y * tanl(al); if(fabsl(y) > Y) return false; LD v = (y / Y + 1) / 2, lo = x1 + (x3 - (LD)x1) * u, hi = x2 + (x4 - (LD)x2) * u; return fabsl(x) <= lo + (hi - lo) * v; }; o.size = 2 * (h + h * tan(th) + std::max(y1, y2) * (1 + std::fabs(tan(al))) + std::max({x1, x2, x3, x4})); o.special = {{0, 0, h}, {0, 0, 0}}; o.desc = mon::fmt("dz %g th %g ph %g dy1 %g %g %g al %g k %g", h, th, ph, y1, x1, x2, al, k); break; }
    case K_ELLIPSOID: { double a = L(), b = L(), c = L(), z1 = -c, z2 = c; bool z = r.coin(); if(z) { z1 = r.coin(0.2) ? -2 * c : r.u(-c, 0.9 * c); z2 = r.coin(0.2) ? 2 * c : r.u(std::max(z1, -c) + 0.02 * c, std::max(z1 + 0.05 * c, c)); o.g = MK(Ellipsoid, a, b, c, z1, z2); } else o.g = MK(Ellipsoid, a, b, c); o.in = [=](P3 p) { return (p.x / a) * (p.x / a) + (p.y / b) * (p.y / b) + (p.z / c) * (p.z / c) <= 1 && p.z >= z1 && p.z <= z2; }; o.size = 2 * std::max({a, b, c}); o.special = {{a, 0, 0}, {0, 0, z1}, {0, 0, 0}}; o.desc = mon::fmt("%g %g %g z %g %g", a, b, c, z1, z2); break; }
    case K_ETUBE: { double a = L(), b = L(), h = L(); o.g = MK(EllipticalTube, a, b, h); o.in = [=](P3 p) { return (p.x / a) * (p.x / a) + (p.y / b) * (p.y / b) <= 1 && fabsl(p.z) <= h; }; o.size = 2 * std::max({a, b, h}); o.special = {{a, 0, h}, {0, 0, h}, {0, 0, 0}}; o.desc = mon::fmt("%g %g %g", a, b, h); break; }
    case K_TORUS: { double T = L(), R = T * (r.coin(0.1) ? r.u(1.01, 1.5) : r.u(0.05, 0.95)), q = r.coin() ? 0 : R * r.u(0.05, 0.95); rphi(r, s, d, cut); if(cut) o.g = MK(Torus, T, R, q, s, d); else o.g = MK(Torus, T, R, q); o.in = [=](P3 p) { LD n = sqrtl(p.x * p.x + p.y * p.y) - T, m = sqrtl(n * n + p.z * p.z); if(R > T) { LD n2 = sqrtl(p.x * p.x + p.y * p.y) + T, m2 = sqrtl(n2 * n2 + p.z * p.z); if(m2 <= R) { m = std::min(m, m2); } } return m <= R && m >= q && inphi(p, s, d); }; o.size = 2 * (T + R); o.special = {{T + R, 0, 0}, {0, 0, 0}, {T, 0, R}, {T - R, 0, 0}}; o.desc = mon::fmt("T %g R %g %g phi %g+%g", T, R, q, s, d); break; }
    case K_CUTTUBE: { double R = L(), q = r.coin() ? 0 : R * r.u(0.05, 0.95), h = L(); double tl = r.u(0, 0.95) * h / R, th = r.u(0, 0.95) * h / R, pa = r.u(0, 2 * M_PI), pb = r.u(0, 2 * M_PI); if(r.coin(0.2)) tl = 0; Vector3D n1(tl * cos(pa), tl * sin(pa), -1), n2(th * cos(pb), th * sin(pb), 1); n1.normalize(); n2.normalize(); rphi(r, s, d, cut); if(cut) o.g = MK(CutTube, q, R, h, n1, n2, s, d); else o.g = MK(CutTube, q, R, h, n1, n2); o.in = [=](P3 p) { LD n = sqrtl(p.x * p.x + p.y * p.y); return n <= R && n >= q && n1.GetX() * p.x + n1.GetY() * p.y + n1.GetZ() * (p.z + h) <= 0 && n2.GetX() * p.x + n2.GetY() * p.y + n2.GetZ() * (p.z - h) <= 0 && inphi(p, s, d); }; o.size = 2 * R + 4 * h; o.special = {{0, 0, h}, {0, 0, 0}, {q, 0, 0}, {R, 0, 0}}; o.desc = mon::fmt("r %g %g h %g tilt %g@%g %g@%g phi %g+%g", q, R, h, tl, pa, th, pb, s, d); break; }
    case K_POLYCONE: case K_POLYHEDRA: { int n = 2 + (int)r.i(4); std::vector<double> z, q, R; double at = -S * r.u(0, 1); for(int i = 0; i < n; ++i) { z.push_back(at); at += r.coin(0.15) && i > 0 && i + 2 < n && !(i > 1 && z[i] == z[i - 1]) ? 0 : S * r.u(0.1, 0.7); double m = r.coin(0.08) && !(i > 0 && R.back() == 0) ? 0 : L(); R.push_back(m); q.push_back(0); } bool hol = r.coin(); if(hol) for(int i = 0; i < n; ++i) q[i] = r.coin(0.15) ? 0 : R[i] * r.u(0.05, 0.85); if(*std::max_element(R.begin(), R.end()) <= 0) R[0] = L(); for(int i = 1; i < n; ++i) if(z[i] == z[i - 1]) { if(R[i] <= 0) R[i] = L(); if(R[i - 1] <= 0) R[i - 1] = L(); q[i] = std::min(q[i], 0.5 * R[i - 1]); q[i - 1] = std::min(q[i - 1], 0.5 * R[i]); } /* the two sides of a step overlap */ rphi(r, s, d, cut); int ns = 3 + (int)r.i(6); std::vector<double> Z = z, Q = q, W = R; bool rev = r.coin(0.2) && z.front() < z.back(); if(rev) { std::reverse(Z.begin(), Z.end()); std::reverse(Q.begin(), Q.end()); std::reverse(W.begin(), W.end()); }
        if(kind == K_POLYCONE) { if(cut) o.g = MK(Polycone, Z, Q, W, s, d); else o.g = MK(Polycone, Z, Q, W); } else { if(cut) { if(d / ns > 2.6) d = 2.6 * ns < 2 * M_PI ? 2.6 * ns : d; o.g = MK(Polyhedra, ns, s, Z, Q, W, d); } else { s = r.u(-M_PI, M_PI); o.g = MK(Polyhedra, ns, s, Z, Q, W); } }
        bool full = !cut; o.in = [=](P3 p) { for(int i = 0; i + 1 < n; ++i) if(z[i + 1] > z[i] && p.z >= z[i] && p.z <= z[i + 1]) { LD u = (p.z - z[i]) / ((LD)z[i + 1] - z[i]), lo = q[i] + ((LD)q[i + 1] - q[i]) * u, hi = R[i] + ((LD)R[i + 1] - R[i]) * u, m; if(kind == K_POLYCONE) m = sqrtl(p.x * p.x + p.y * p.y); else { LD tot = full ? 2 * M_PIl : (LD)d, w = tot / ns, T = 2 * M_PIl, a = atan2l(p.y, p.x) - s; a -= T * floorl(a / T); if(a > tot) return false; int k = std::min(ns - 1, (int)(a / w)); LD mid = s + (k + 0.5L) * w; m = p.x * cosl(mid) + p.y * sinl(mid); } return m <= hi && m >= lo && (kind == K_POLYHEDRA || inphi(p, s, d)); } return false; };
        o.size = 2 * *std::max_element(R.begin(), R.end()) * (kind == K_POLYHEDRA ? 1 / std::cos((full ? 2 * M_PI : d) / ns / 2) : 1) + (z.back() - z.front()); for(int i = 0; i < n; ++i) { o.special.push_back({R[i], 0, z[i]}); o.special.push_back({0, 0, z[i]}); } o.special.push_back({0, 0, (z.front() + z.back()) / 2}); o.desc = mon::fmt("sides %d phi %g+%g%s z,r:", ns, s, full ? 2 * M_PI : d, rev ? " reversed" : ""); for(int i = 0; i < n; ++i) o.desc += mon::fmt(" %g[%g,%g]", z[i], q[i], R[i]); break; }
    case K_GPOLYCONE: { // a star-shaped (r, z) polygon with r >= 0, possibly touching the axis
        int n = 3 + (int)r.i(6); double cr = S * r.u(0.3, 1), cz = S * r.u(-0.5, 0.5), m = cr * (r.coin(0.4) ? 1 : 0.95); std::vector<double> rr, zz; std::vector<std::array<double, 2>> v; bool cw = r.coin(); double ph0 = r.u(0, 2 * M_PI); for(int i = 0; i < n; ++i) { double a = ph0 + 2 * M_PI * (i + (n > 3 ? r.u(0, 0.7) : 0)) / n * (cw ? -1 : 1), w = m * (r.coin(0.3) ? 1 : r.u(0.3, 1)); if(cos(a) < -0.3 && r.coin(0.4)) w = -cr / cos(a); double x = std::max(0.0, cr + w * cos(a)), y = cz + w * sin(a); if(w * cos(a) <= -cr * (1 - 1e-9)) x = 0; rr.push_back(x); zz.push_back(y); v.push_back({{x, y}}); } rphi(r, s, d, cut); if(cut) o.g = MK(GenericPolycone, rr, zz, s, d); else o.g = MK(GenericPolycone, rr, zz); o.in = [=](P3 p) { return inpoly(v, sqrtl(p.x * p.x + p.y * p.y), p.z) && inphi(p, s, d); }; o.size = 4 * cr + 2 * m; for(auto & x : v) o.special.push_back({x[0], 0, x[1]}); o.special.push_back({0, 0, cz}); o.desc = mon::fmt("phi %g+%g r,z:", s, d); for(auto & x : v) o.desc += mon::fmt(" (%g,%g)", x[0], x[1]); break; }
    case K_EXTR: { int n = 3 + (int)r.i(5); std::vector<std::vector<double>> poly; std::vector<std::array<double, 2>> v; bool cw = r.coin(); double a0 = r.u(0, 6), rx = L(), ry = L(), ox = S * r.u(-0.5, 0.5), oy = S * r.u(-0.5, 0.5); for(int i = 0; i < n; ++i) { double a = a0 + 2 * M_PI * (i + r.u(0, 0.6)) / n * (cw ? -1 : 1), x = ox + rx * cos(a), y = oy + ry * sin(a); poly.push_back({x, y}); v.push_back({{x, y}}); } int nz = 2 + (r.coin(0.4) ? (int)r.i(3) : 0); std::vector<ExtrPoly::ZSection> zs; double at = -S * r.u(0, 1); bool plain = r.coin(0.4); std::vector<std::array<double, 4>> sec; for(int i = 0; i < nz; ++i) { double off[2] = {plain ? 0 : S * r.u(-0.3, 0.3), plain ? 0 : S * r.u(-0.3, 0.3)}, sc = plain ? 1 : r.u(0.2, 1.5); zs.emplace_back(at, off, sc); sec.push_back({{at, off[0], off[1], sc}}); at += S * r.u(0.1, 1); } o.g = MK(ExtrPoly, poly, zs);
        o.in = [=](P3 p) { for(int i = 0; i + 1 < nz; ++i) if(p.z >= sec[i][0] && p.z <= sec[i + 1][0]) { LD u = (p.z - sec[i][0]) / ((LD)sec[i + 1][0] - sec[i][0]); auto l = [&](int k) { return sec[i][k] + ((LD)sec[i + 1][k] - sec[i][k]) * u; }; return inpoly(v, (p.x - l(1)) / l(3), (p.y - l(2)) / l(3)); } return false; }; o.size = 4 * (rx + ry + S); o.special = {{ox, oy, sec[0][0]}, {v[0][0] * sec[0][3] + sec[0][1], v[0][1] * sec[0][3] + sec[0][2], sec[0][0]}}; o.desc = mon::fmt("n %d:", n); for(auto & x : v) o.desc += mon::fmt(" (%g,%g)", x[0], x[1]); for(auto & x : sec) o.desc += mon::fmt(" z%g[%g,%g]*%g", x[0], x[1], x[2], x[3]); break; }
    case K_MESH: { int what = (int)r.i(4); std::vector<Tri> T; double off = r.coin(0.4) ? S * r.lu(1, 1e5) : 0; Vector3D C = rv(r, off); double cx = C.GetX(), cy = C.GetY(), cz = C.GetZ(), a = L(), b = L(), h = L(); auto V = [&](double x, double y, double z) { return Vector3D(cx + x, cy + y, cz + z); }; auto quad = [&](Vector3D p, Vector3D q, Vector3D u, Vector3D w) { T.push_back({{p, q, u}}); T.push_back({{p, u, w}}); };
        // exact corner coordinates after the shift
        if(what == 0) { int m = 1 + (int)r.i(4); double X[2] = {cx - a, cx + a}, Y[2] = {cy - b, cy + b}, Z[2] = {cz - h, cz + h}; auto at = [](double const * l, int i, int m) { return i == 0 ? l[0] : i == m ? l[1] : l[0] + (l[1] - l[0]) * i / m; }; for(int k = 0; k < 3; ++k) for(int sd : {0, 1}) for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) { auto P = [&](int e, int f) { double * Ls[3] = {X, Y, Z}; double c[3]; c[k] = Ls[k][sd]; c[(k + 1) % 3] = at(Ls[(k + 1) % 3], e, m); c[(k + 2) % 3] = at(Ls[(k + 2) % 3], f, m); return Vector3D(c[0], c[1], c[2]); }; if(sd) quad(P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)); else quad(P(i, j), P(i, j + 1), P(i + 1, j + 1), P(i + 1, j)); } double x0 = X[0], x1 = X[1], y0 = Y[0], y1 = Y[1], z0 = Z[0], z1 = Z[1]; o.in = [=](P3 p) { return p.x >= x0 && p.x <= x1 && p.y >= y0 && p.y <= y1 && p.z >= z0 && p.z <= z1; }; }
        else if(what == 1) { Vector3D px = V(a, 0, 0), nx = V(-a, 0, 0), py = V(0, b, 0), ny = V(0, -b, 0), pz = V(0, 0, h), nz = V(0, 0, -h); T = {{{px, py, pz}}, {{py, nx, pz}}, {{nx, ny, pz}}, {{ny, px, pz}}, {{py, px, nz}}, {{nx, py, nz}}, {{ny, nx, nz}}, {{px, ny, nz}}}; o.in = [=](P3 p) { return fabsl(p.x - cx) / a + fabsl(p.y - cy) / b + fabsl(p.z - cz) / h <= 1; }; }
        else { // L-shaped or star prism, many-sided
            int n = what == 2 ? 6 : 5 + 2 * (int)r.i(20); std::vector<std::array<double, 2>> v; if(what == 2) v = {{{0, 0}}, {{2 * a, 0}}, {{2 * a, b}}, {{a, b}}, {{a, 2 * b}}, {{0, 2 * b}}}; else for(int i = 0; i < n; ++i) { double t = 2 * M_PI * i / n, w = i % 2 && r.coin(0.7) ? 0.5 : 1; v.push_back({{a * w * cos(t), b * w * sin(t)}}); } for(auto & x : v) { x[0] += cx; x[1] += cy; } double z0 = cz - h, z1 = cz + h; Vector3D ctr0(what == 2 ? cx + a / 2 : cx, what == 2 ? cy + b / 2 : cy, z0), ctr1(ctr0.GetX(), ctr0.GetY(), z1); n = (int)v.size(); for(int i = 0; i < n; ++i) { auto & p = v[i]; auto & q = v[(i + 1) % n]; Vector3D p0(p[0], p[1], z0), p1(p[0], p[1], z1), q0(q[0], q[1], z0), q1(q[0], q[1], z1); quad(p0, q0, q1, p1); T.push_back({{p1, q1, ctr1}}); T.push_back({{q0, p0, ctr0}}); } o.in = [=](P3 p) { return p.z >= z0 && p.z <= z1 && inpoly(v, p.x, p.y); }; o.special.push_back({ctr0.GetX(), ctr0.GetY(), z0}); }
        o.g = MK(TriangularMesh, T); o.size = 2 * (a + b + h) + 1e-9 * off; o.special.push_back({cx, cy, cz}); o.desc = mon::fmt("mesh %d of %zu, %g %g %g about (%.17g,%.17g,%.17g)", what, T.size(), a, b, h, cx, cy, cz); break; }
    case K_BOOL: { auto child = [&]() { int k = depth < 1 && r.coin(0.25) ? (int)K_BOOL : (int)r.i(K_MESH); double f = S * r.u(0.4, 1); Solid c; do { c = make(r, k, f, depth + 1); } while(c.pl.GetPosition().magnitude() > 1.2 * S); return c; }; Solid A = child(), B = child(); BooleanOperation op = r.pick({BooleanOperation::UNION, BooleanOperation::INTERSECTION, BooleanOperation::SUBTRACTION}); std::shared_ptr<const Geometry> l = A.g, t = B.g; o.g = MK(BooleanGeometry, op, l, t); Placement pa = A.pl, pb = B.pl; auto fa = A.in, fb = B.in; o.in = [=](P3 p) { bool x = fa(tolocal(pa, p)), y = fb(tolocal(pb, p)); return op == BooleanOperation::UNION ? x || y : op == BooleanOperation::INTERSECTION ? x && y : x && !y; }; o.size = std::max(A.size + 2 * pa.GetPosition().magnitude(), B.size + 2 * pb.GetPosition().magnitude()); Vector3D q = pa.GetPosition(); o.special = {{q.GetX(), q.GetY(), q.GetZ()}}; for(auto & x : A.special) { Vector3D w = pa.LocalToGlobalPosition(Vector3D(x.x, x.y, x.z)); o.special.push_back({w.GetX(), w.GetY(), w.GetZ()}); } o.desc = mon::fmt("op %d {%s %s} {%s %s}", int(op), kname(A.kind), A.desc.c_str(), kname(B.kind), B.desc.c_str()); break; }
    }
    if(id) o.pl = Placement();
    #undef MK
    return o; }
}
