// Rotations, vectors, polynomials (P18); tables and quadrature (P17).
#include "mon.h"
#include <array>
#include <memory>
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Matrix3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/EulerAngles.h"
#include "SIREN/math/Conversions.h"
#include "SIREN/math/EulerQuaternionConversions.h"
#include "SIREN/math/Polynomial.h"
#include "SIREN/utilities/Interpolator.h"
#include "SIREN/utilities/Integration.h"
using namespace siren::math; using namespace siren::utilities; using namespace mon;

// ---------------------------------------------------------------------------------------------- reference algebra
typedef long double LD;
struct M3 { LD a[3][3]; };
static M3 ident() { M3 m{}; for(int i = 0; i < 3; ++i) m.a[i][i] = 1; return m; }
static M3 mul(M3 const & p, M3 const & q) { M3 r{}; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) for(int k = 0; k < 3; ++k) r.a[i][j] += p.a[i][k] * q.a[k][j]; return r; }
static M3 axrot(int ax, LD t) { M3 m = ident(); int p = (ax + 1) % 3, q = (ax + 2) % 3; LD C = cosl(t), S = sinl(t); m.a[p][p] = C; m.a[p][q] = -S; m.a[q][p] = S; m.a[q][q] = C; return m; }
static M3 rodrigues(LD x, LD y, LD z, LD t) { LD C = cosl(t), S = sinl(t), V = 1 - C; M3 m; LD u[3] = {x, y, z};
    for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m.a[i][j] = V * u[i] * u[j] + (i == j ? C : 0);
    m.a[0][1] -= S * z; m.a[0][2] += S * y; m.a[1][0] += S * z; m.a[1][2] -= S * x; m.a[2][0] -= S * y; m.a[2][1] += S * x; return m; }
static M3 of(Matrix3D const & m) { M3 r; for(unsigned i = 0; i < 3; ++i) for(unsigned j = 0; j < 3; ++j) r.a[i][j] = m[{i, j}]; return r; }
static double dist(M3 const & p, M3 const & q) { LD d = 0; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { LD e = fabsl(p.a[i][j] - q.a[i][j]); if(!(e <= d)) d = e; } return (double)d; }
static Vector3D app(M3 const & m, Vector3D const & v) { LD w[3]; for(int i = 0; i < 3; ++i) w[i] = m.a[i][0] * v.GetX() + m.a[i][1] * v.GetY() + m.a[i][2] * v.GetZ(); return Vector3D((double)w[0], (double)w[1], (double)w[2]); }
static M3 inv(M3 const & m) { M3 r; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r.a[i][j] = m.a[j][i]; return r; }
// the rotation matrix of a unit quaternion, by rotating the three axes
static M3 qmat(Quaternion const & q) { M3 r; for(int j = 0; j < 3; ++j) { Vector3D e(j == 0, j == 1, j == 2), f = q.rotate(e, false); r.a[0][j] = f.GetX(); r.a[1][j] = f.GetY(); r.a[2][j] = f.GetZ(); } return r; }
static double vd(Vector3D const & a, Vector3D const & b) { double x = std::fabs(a.GetX() - b.GetX()), y = std::fabs(a.GetY() - b.GetY()), z = std::fabs(a.GetZ() - b.GetZ()); double m = 0; for(double t : {x, y, z}) if(!(t <= m)) m = t; return m; }
static Vector3D rv(Rng & r, double scale = 1) { double x, y, z; r.dir(x, y, z); return Vector3D(scale * x, scale * y, scale * z); }
static Quaternion rq(Rng & r) { Quaternion q; if(r.coin(0.2)) { q.SetAxisAngle(rv(r), r.pick({0., M_PI, M_PI / 2, -M_PI, 2 * M_PI, 1e-9, M_PI - 1e-9, 1e-4})); return q; }
    q = Quaternion(r.normal(), r.normal(), r.normal(), r.normal()); q.normalize(); return q; }
static double rang(Rng & r) { if(r.coin(0.3)) return r.pick({0., M_PI / 2, -M_PI / 2, M_PI, -M_PI, M_PI / 4, 2 * M_PI}); return r.u(-M_PI, M_PI) * (r.coin(0.1) ? 3 : 1); }

// Shoemake's 24 orders: name -> axes; static abc: R = Rc(gamma) Rb(beta) Ra(alpha); rotating abc: R = Ra(alpha) Rb(beta) Rc(gamma)
struct Ord { EulerOrder o; char const * n; };
#define O(x) {EulerOrder::x, #x}
static std::vector<Ord> const ORD = {O(XYZs), O(XYXs), O(XZYs), O(XZXs), O(YZXs), O(YZYs), O(YXZs), O(YXYs), O(ZXYs), O(ZXZs), O(ZYXs), O(ZYZs),
    O(ZYXr), O(XYXr), O(YZXr), O(XZXr), O(XZYr), O(YZYr), O(ZXYr), O(YXYr), O(YXZr), O(ZXZr), O(XYZr), O(ZYZr)};
static M3 euler_ref(Ord const & o, double a, double b, double g) { M3 A = axrot(o.n[0] - 'X', a), B = axrot(o.n[1] - 'X', b), G = axrot(o.n[2] - 'X', g); return o.n[3] == 's' ? mul(G, mul(B, A)) : mul(A, mul(B, G)); }

GROUP(P18, euler, 4000, 120000) { Rng & r = c.r; auto & o = ORD[c.cas % 24];
    double a = rang(r), b = rang(r), g = rang(r); M3 R = euler_ref(o, a, b, g); EulerAngles e(o.o, a, b, g);
    CHECK("euler_getters", e.GetAlpha() == a && e.GetBeta() == b && e.GetGamma() == g && e.GetOrder() == o.o, "%s", o.n);
    double d = dist(of(Matrix3DFromEulerAngles(e)), R); CHECK("matrix_of_euler", d < 1e-13, "%s %g %g %g: %g", o.n, a, b, g, d);
    Quaternion q = QuaternionFromEulerAngles(e); d = dist(qmat(q), R); CHECK("quaternion_of_euler", d < 1e-13, "%s %g %g %g: %g", o.n, a, b, g, d);
    CHECK("quaternion_of_euler_unit", std::fabs(q.magnitude() - 1) < 1e-14, "%s", o.n);
    Quaternion q2; q2.SetEulerAngles(e); CHECK("set_euler", q2 == q, "%s", o.n);
    // sin (repeated) or cos (distinct) of the middle angle: how far from gimbal lock
    double lock = std::fabs(o.n[0] == o.n[2] ? std::sin(b) : std::cos(b)); double tol = lock < 3e-15 ? 1e-13 : std::min(4.0, 1e-13 + 2e-15 / lock);
    EulerAngles f = EulerAnglesFromQuaternion(q, o.o); M3 R2 = euler_ref(o, f.GetAlpha(), f.GetBeta(), f.GetGamma());
    CHECK("euler_of_quaternion", f.GetOrder() == o.o && dist(R2, R) < tol, "%s %.17g %.17g %.17g -> %g %g %g: %g", o.n, a, b, g, f.GetAlpha(), f.GetBeta(), f.GetGamma(), dist(R2, R));
    Matrix3D M; q.GetMatrix(M); EulerAngles h = EulerAnglesFromMatrix3D(M, o.o); R2 = euler_ref(o, h.GetAlpha(), h.GetBeta(), h.GetGamma()); CHECK("euler_of_matrix", dist(R2, R) < tol, "%s: %g", o.n, dist(R2, R));
    EulerAngles k; q.GetEulerAngles(k, o.o); CHECK("get_euler", k == f, "%s", o.n);
    if(o.o == EulerOrder::ZXZr) { Quaternion z = QFromZXZr(a, b, g); CHECK("zxz_shortcut", dist(qmat(z), R) < 1e-13, "%g", dist(qmat(z), R)); EulerAngles y = ZXZrFromQ(z); R2 = euler_ref(o, y.GetAlpha(), y.GetBeta(), y.GetGamma());
        CHECK("zxz_back", y.GetOrder() == o.o && dist(R2, R) < tol, "%.17g %.17g %.17g: %g", a, b, g, dist(R2, R)); double A, B, G; z.GetEulerAnglesZXZr(A, B, G); CHECK("zxz_get", A == y.GetAlpha() && B == y.GetBeta() && G == y.GetGamma(), "-"); Quaternion w; w.SetEulerAnglesZXZr(a, b, g); CHECK("zxz_set", w == z, "-"); }
    if(o.o == EulerOrder::XYZs) { Quaternion z = QFromXYZs(a, b, g); CHECK("xyz_shortcut", dist(qmat(z), R) < 1e-13, "%g", dist(qmat(z), R)); EulerAngles y = XYZsFromQ(z); R2 = euler_ref(o, y.GetAlpha(), y.GetBeta(), y.GetGamma());
        CHECK("xyz_back", y.GetOrder() == o.o && dist(R2, R) < tol, "%.17g %.17g %.17g: %g", a, b, g, dist(R2, R)); double A, B, G; z.GetEulerAnglesXYZs(A, B, G); CHECK("xyz_get", A == y.GetAlpha() && B == y.GetBeta() && G == y.GetGamma(), "-"); Quaternion w; w.SetEulerAnglesXYZs(a, b, g); CHECK("xyz_set", w == z, "-"); }
    EulerAngles s1 = e, s2(ORD[r.i(24)].o, r.u(), r.u(), r.u()), s2c = s2; s1.swap(s2); CHECK("euler_swap", s2 == e && s1 == s2c, "%s", o.n);
    s1 = e; double nudge = std::nextafter(g, 9); s1.SetGamma(nudge); CHECK("euler_neq", s1 != e && !(s1 == e), "%s", o.n);
    seen("%s lock%d", o.n, (int)std::floor(std::log10(lock + 1e-18))); }

GROUP(P18, quaternion, 3000, 100000) { Rng & r = c.r; Quaternion p = rq(r), q = rq(r); Vector3D v = rv(r, r.lu(1e-6, 1e7)); double L = v.magnitude();
    M3 P = qmat(p), Q = qmat(q);
    // the sandwich product is the definition of the rotation
    auto sand = [](Quaternion const & a, Vector3D const & u) { Quaternion s = a * Quaternion(u.GetX(), u.GetY(), u.GetZ(), 0) * a.inverted(); return Vector3D(s.GetX(), s.GetY(), s.GetZ()); };
    CHECK("rotate_is_sandwich", vd(p.rotate(v, false), sand(p, v)) < 1e-13 * L, "%g", vd(p.rotate(v, false), sand(p, v)));
    CHECK("rotation_preserves_length", close(p.rotate(v, false).magnitude(), L, 1e-13), "-");
    M3 PtP = mul(inv(P), P); CHECK("rotation_orthogonal", dist(PtP, ident()) < 1e-13, "%g", dist(PtP, ident()));
    LD det = P.a[0][0] * (P.a[1][1] * P.a[2][2] - P.a[1][2] * P.a[2][1]) - P.a[0][1] * (P.a[1][0] * P.a[2][2] - P.a[1][2] * P.a[2][0]) + P.a[0][2] * (P.a[1][0] * P.a[2][1] - P.a[1][1] * P.a[2][0]); CHECK("rotation_proper", fabsl(det - 1) < 1e-13, "%g", (double)det);
    CHECK("inverse_undoes", vd(p.rotate(p.rotate(v, false), true), v) < 1e-13 * L, "-");
    CHECK("inverse_flag_is_inverse", vd(p.rotate(v, true), p.inverted().rotate(v, false)) < 1e-13 * L && vd(p.rotate(v, true), p.conjugated().rotate(v, false)) < 1e-13 * L, "-");
    CHECK("product_composes", dist(qmat(p * q), mul(P, Q)) < 1e-13, "%g", dist(qmat(p * q), mul(P, Q)));
    CHECK("product_norm", std::fabs((p * q).magnitude() - 1) < 1e-14, "-");
    CHECK("matrix_of_quaternion", dist(of(p.GetMatrix()), P) < 1e-13 && dist(of(Matrix3DFromQuaternion(p)), P) < 1e-13, "-");
    Quaternion b; b.SetMatrix(p.GetMatrix()); CHECK("quaternion_of_matrix", dist(qmat(b), P) < 1e-13 && std::fabs(b.magnitude() - 1) < 1e-13, "%g", dist(qmat(b), P));
    // scaling a quaternion does not change the rotation
    double s = r.lu(1e-3, 1e3) * r.sgn(); Quaternion ps = p * s; CHECK("rotation_scale_free", vd(ps.rotate(v, false), p.rotate(v, false)) < 1e-13 * L && vd(ps.rotate(v, true), p.rotate(v, true)) < 1e-13 * L, "scale %g", s);
    CHECK("matrix_scale_free", dist(of(Matrix3DFromQuaternion(ps)), P) < 1e-13, "scale %g", s);
    Quaternion vr = ps.rotate(Quaternion(v.GetX(), v.GetY(), v.GetZ(), 0), false), vi = ps.rotate(Quaternion(v.GetX(), v.GetY(), v.GetZ(), 0), true); CHECK("rotate_quaternion", vd(Vector3D(vr.GetX(), vr.GetY(), vr.GetZ()), p.rotate(v, false)) < 1e-12 * L && vd(Vector3D(vi.GetX(), vi.GetY(), vi.GetZ()), p.rotate(v, true)) < 1e-12 * L && vr.GetW() == 0, "-");
    Quaternion id = ps * ps.inverted(); CHECK("inverse", std::fabs(id.GetW() - 1) < 1e-12 && std::fabs(id.GetX()) + std::fabs(id.GetY()) + std::fabs(id.GetZ()) < 1e-12, "-"); CHECK("bang_is_inverse", !ps == ps.inverted() && ~ps == ps.conjugated(), "-");
    CHECK("normalized", std::fabs(ps.normalized().magnitude() - 1) < 1e-14 && std::fabs(std::fabs(ps.normalized().DotProduct(p)) - 1) < 1e-13, "-"); CHECK("dot", close(p.DotProduct(q), p.GetX() * q.GetX() + p.GetY() * q.GetY() + p.GetZ() * q.GetZ() + p.GetW() * q.GetW(), 1e-14, 1e-15) && close(ps.DotProduct(ps), s * s, 1e-12) && close(ps.magnitude(), std::fabs(s), 1e-12) && close(ps.magnitudesq(), s * s, 1e-12), "-");
    { double k = r.u(-3, 3); Quaternion su = p + q, su2 = p; su2 += q; CHECK("sum", su == su2 && su.GetX() == p.GetX() + q.GetX() && su.GetY() == p.GetY() + q.GetY() && su.GetZ() == p.GetZ() + q.GetZ() && su.GetW() == p.GetW() + q.GetW(), "-");
      Quaternion a1 = p + k, a2 = p; a2 += k; CHECK("sum_scalar", a1 == a2 && a1.GetX() == p.GetX() + k, "+%g", k); Quaternion m1 = p * k, m2 = p; m2 *= k; CHECK("scale", m1 == m2 && m1.GetZ() == k * p.GetZ() && m1.GetW() == k * p.GetW(), "-"); }
    // axis and angle
    Vector3D ax = rv(r), axs = ax * r.lu(1e-3, 1e3); double t = r.coin(0.3) ? r.pick({0., 1e-8, M_PI, M_PI - 1e-8, -M_PI / 2}) : r.u(-M_PI, M_PI); Quaternion aq; aq.SetAxisAngle(axs, t); M3 A = rodrigues(ax.GetX(), ax.GetY(), ax.GetZ(), t);
    CHECK("axis_angle", dist(qmat(aq), A) < 1e-13, "angle %g: %g", t, dist(qmat(aq), A)); Vector3D ga; double gt; aq.GetAxisAngle(ga, gt); M3 A2 = rodrigues(ga.GetX(), ga.GetY(), ga.GetZ(), gt); CHECK("axis_angle_back", dist(A2, A) < 1e-7 && std::fabs(ga.magnitude() - 1) < 1e-12, "angle %g -> %g: %g", t, gt, dist(A2, A));
    std::tuple<Vector3D, double> tup = aq.GetAxisAngle(); CHECK("axis_angle_tuple", std::get<1>(tup) == gt && vd(std::get<0>(tup), ga) == 0, "-");
    // interpolation between rotations
    { double u = r.pick({0., 1., r.u(), r.u()}); Quaternion e = r.coin(0.2) ? p : q; Quaternion sl = Quaternion::slerp(p, e, u), le = Quaternion::lerp(p, e, u); double d = std::min(1.0, std::max(-1.0, p.DotProduct(e)));
      CHECK("lerp", close(le.GetX(), (1 - u) * p.GetX() + u * e.GetX(), 1e-13, 1e-15) && close(le.GetW(), (1 - u) * p.GetW() + u * e.GetW(), 1e-13, 1e-15), "-");
      if(d > -0.9999999) { double th = std::acos(d); CHECK("slerp_unit", std::fabs(sl.magnitude() - 1) < 1e-13, "dot %.17g at %g: %g", d, u, sl.magnitude()); CHECK("slerp_angle", std::fabs(std::min(1.0, sl.DotProduct(p)) - std::cos(u * th)) < 1e-9 && std::fabs(std::min(1.0, sl.DotProduct(e)) - std::cos((1 - u) * th)) < 1e-9, "dot %.17g at %g: %g", d, u, sl.DotProduct(p)); } }
    Quaternion x = p, y = q; x.swap(y); CHECK("swap", x == q && y == p, "-"); Quaternion z = p; z.SetW(std::nextafter(z.GetW(), 9)); CHECK("neq", z != p && !(z == p), "-"); CHECK("less", (p < q) != (q < p) || p == q, "-"); CHECK("less_irrefl", !(p < Quaternion(p)), "-");
    seen("w%.2f", p.GetW()); }

GROUP(P18, between, 4000, 150000) { Rng & r = c.r; Vector3D a = rv(r), b; int k = r.ri(0, 5); double eps = r.lu(1e-18, 1e-2); Vector3D n = cross_product(a, rv(r)); if(n.magnitude() < 1e-6) n = std::fabs(a.GetX()) < 0.9 ? cross_product(a, Vector3D(1, 0, 0)) : cross_product(a, Vector3D(0, 1, 0)); n.normalize();
    if(k <= 1) b = rv(r); else if(k == 2) b = a; else if(k == 3) b = -a; else if(k == 4) b = -a + n * eps; else b = a + n * eps;
    a = a * r.lu(1e-6, 1e7); b = b * r.lu(1e-6, 1e7); Quaternion q = rotation_between(a, b); Vector3D g = q.rotate(a, false); double e = vd(g.normalized(), b.normalized());
    CHECK("rotates_onto", e < 3e-7 && close(g.magnitude(), a.magnitude(), 1e-12), "kind %d eps %g (%.17g %.17g %.17g)->(%.17g %.17g %.17g): off by %g", k, eps, a.GetX(), a.GetY(), a.GetZ(), b.GetX(), b.GetY(), b.GetZ(), e);
    CHECK("unit", std::fabs(q.magnitude() - 1) < 1e-12, "%g", q.magnitude());
    // the shortest such rotation: the axis is perpendicular to both
    double dp = q.GetX() * a.GetX() + q.GetY() * a.GetY() + q.GetZ() * a.GetZ(); CHECK("shortest", std::fabs(dp) < 3e-7 * a.magnitude(), "kind %d axis.a %g", k, dp / a.magnitude());
    peak("rotation_between error", e); seen("%d eps%d", k, k >= 4 ? (int)std::log10(eps) : 0); }

GROUP(P18, vectors, 3000, 80000) { Rng & r = c.r; auto comp = [&] { return r.coin(0.1) ? 0.0 : r.lu(1e-6, 1e6) * r.sgn(); }; Vector3D a(comp(), comp(), comp()), b(comp(), comp(), comp()); double k = comp(); if(k == 0) k = 2;
    auto is = [](Vector3D const & v, LD x, LD y, LD z, LD s) { return fabsl(v.GetX() - x) <= 4e-16L * s && fabsl(v.GetY() - y) <= 4e-16L * s && fabsl(v.GetZ() - z) <= 4e-16L * s; }; LD ax = a.GetX(), ay = a.GetY(), az = a.GetZ(), bx = b.GetX(), by = b.GetY(), bz = b.GetZ(), A = fabsl(ax) + fabsl(ay) + fabsl(az), B = fabsl(bx) + fabsl(by) + fabsl(bz);
    CHECK("add", is(a + b, ax + bx, ay + by, az + bz, A + B), "-"); CHECK("sub", is(a - b, ax - bx, ay - by, az - bz, A + B), "-"); CHECK("neg", is(-a, -ax, -ay, -az, 0) && is(a.inverted(), -ax, -ay, -az, 0), "-");
    { Vector3D t = a; t += b; CHECK("add_assign", is(t, ax + bx, ay + by, az + bz, A + B), "-"); t = a; t -= b; CHECK("sub_assign", is(t, ax - bx, ay - by, az - bz, A + B), "-"); t = a; t *= k; CHECK("mul_assign", is(t, k * ax, k * ay, k * az, A * fabsl(k)), "-"); t = a; t /= k; CHECK("div_assign", is(t, ax / k, ay / k, az / k, A / fabsl(k)), "-"); t = a; t.invert(); CHECK("invert", is(t, -ax, -ay, -az, 0), "-"); }
    CHECK("mul", is(a * k, k * ax, k * ay, k * az, A * fabsl(k)) && is(k * a, k * ax, k * ay, k * az, A * fabsl(k)), "-"); CHECK("div", is(a / k, ax / k, ay / k, az / k, A / fabsl(k)), "-");
    LD dot = ax * bx + ay * by + az * bz; CHECK("dot", fabsl(scalar_product(a, b) - dot) <= 1e-15L * A * B && (a * b) == scalar_product(a, b), "-"); CHECK("cross", is(cross_product(a, b), ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx, 2 * A * B) && vd(cross_product(a, b), vector_product(a, b)) == 0, "-");
    LD m = sqrtl(ax * ax + ay * ay + az * az); CHECK("magnitude", close(a.magnitude(), (double)m, 1e-15), "-"); if(m > 0) { Vector3D n = a.normalized(), n2 = a; n2.normalize(); CHECK("normalized", is(n, ax / m, ay / m, az / m, 4) && vd(n, n2) == 0, "-"); }
    // spherical and back
    { Vector3D t = a; t.CalculateSphericalCoordinates(); CHECK("spherical", close(t.GetRadius(), (double)m, 1e-15) && vd(t, a) == 0 && t.GetTheta() >= 0 && t.GetTheta() <= M_PI, "-"); if(m > 0) { CHECK("zenith", std::fabs(std::cos(t.GetTheta()) - (double)(az / m)) < 1e-14, "-"); CHECK("azimuth", (ax == 0 && ay == 0) || std::fabs(std::remainder(t.GetPhi() - (double)atan2l(ay, ax), 2 * M_PI)) < 1e-14, "-"); }
      Vector3D u; u.SetSphericalCoordinates(t.GetRadius(), t.GetPhi(), t.GetTheta()); u.CalculateCartesianFromSpherical(); CHECK("spherical_back", vd(u, a) <= 3e-8 * (double)m, "%g of %g", vd(u, a), (double)m); }
    if(m > 0) { // deflection of a unit direction by (cos of angle, azimuth)
      Vector3D d = a.normalized(), d0 = d; double cp = r.pick({1., -1., 0., r.u(-1, 1), r.u(-1, 1), 1 - r.lu(1e-14, 1e-2)}), th = r.u(0, 2 * M_PI); d.deflect(cp, th); double tol = 1e-7; CHECK("deflect_unit", close(d.magnitude(), 1, tol), "(%g %g %g) cos %g az %g: |v|=%g", d0.GetX(), d0.GetY(), d0.GetZ(), cp, th, d.magnitude()); CHECK("deflect_angle", std::fabs(scalar_product(d, d0) - cp) < tol, "cos %g az %g: got %g", cp, th, scalar_product(d, d0));
      Vector3D e = d0; double ph = r.u(0, 2 * M_PI); e.deflect(cp, ph); double sp2 = std::max(0.0, 1 - cp * cp); CHECK("deflect_azimuth", std::fabs(scalar_product(d, e) - (cp * cp + sp2 * std::cos(th - ph))) < 2 * tol, "cos %g az %g %g", cp, th, ph); Vector3D z = d0; z.deflect(1, 0); CHECK("deflect_none", vd(z, d0) == 0, "-"); }
    std::array<double, 3> arr = a; Vector3D fa(arr); CHECK("array", fa.GetX() == a.GetX() && fa.GetY() == a.GetY() && fa.GetZ() == a.GetZ() && fa == a, "-");
    Vector3D s1 = a, s2 = b; s1.swap(s2); CHECK("swap", s1 == b && s2 == a, "-"); CHECK("less_total", (a == b) || ((a < b) != (b < a)), "-"); CHECK("less_irrefl", !(a < Vector3D(a)), "-"); { Vector3D d(comp(), comp(), comp()); CHECK("less_trans", !((a < b) && (b < d)) || (a < d), "-"); } { Vector3D t = a; t.SetCartesianCoordinates(a.GetX(), a.GetY(), std::nextafter(a.GetZ(), 9e9)); CHECK("neq", t != a && !(t == a), "-"); }
    seen("%a", a.GetX()); }

GROUP(P18, matrices, 2000, 60000) { Rng & r = c.r; auto rm = [&] { double v[9]; for(double & x : v) x = r.coin(0.1) ? 0 : r.normal() * r.pick({1., 1e3, 1e-3}); return Matrix3D(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); }; Matrix3D a = rm(), b = rm(); M3 A = of(a), B = of(b); double k = r.u(-5, 5);
    CHECK("index_matches_getters", a.GetXX() == (double)A.a[0][0] && a.GetXY() == (double)A.a[0][1] && a.GetXZ() == (double)A.a[0][2] && a.GetYX() == (double)A.a[1][0] && a.GetYY() == (double)A.a[1][1] && a.GetYZ() == (double)A.a[1][2] && a.GetZX() == (double)A.a[2][0] && a.GetZY() == (double)A.a[2][1] && a.GetZZ() == (double)A.a[2][2], "-");
    M3 S, D, H; LD sc = 0; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { S.a[i][j] = A.a[i][j] + B.a[i][j]; D.a[i][j] = A.a[i][j] - B.a[i][j]; H.a[i][j] = A.a[i][j] * B.a[i][j]; sc = std::max(sc, std::max(fabsl(A.a[i][j]), fabsl(B.a[i][j]))); } double t = 1e-15 * (double)sc;
    CHECK("add", dist(of(a + b), S) <= t, "-"); { Matrix3D x = a; x += b; CHECK("add_assign", dist(of(x), S) <= t, "-"); x = a; x *= k; CHECK("mul_assign", dist(of(x), of(k * a)) == 0 && dist(of(a * k), of(x)) == 0, "-"); x = a; x /= k; CHECK("div_assign", dist(of(x), of(a / k)) == 0, "-"); } CHECK("sub", dist(of(a - b), D) <= t, "-"); CHECK("elementwise", dist(of(scalar_product(a, b)), H) <= t * (double)sc, "-"); CHECK("product", dist(of(a * b), mul(A, B)) <= 4 * t * (double)sc && dist(of(matrix_product(a, b)), of(a * b)) == 0, "-");
    M3 K = A, N = A, Q = A; for(auto & w : K.a) for(auto & x : w) x *= k; for(auto & w : N.a) for(auto & x : w) x = -x; for(auto & w : Q.a) for(auto & x : w) x /= k; CHECK("scale", dist(of(k * a), K) <= 6 * t, "-"); CHECK("neg", dist(of(-a), N) == 0, "-"); CHECK("div", dist(of(a / k), Q) <= 2e-16 * (double)sc / std::fabs(k), "-");
    Vector3D v = rv(r, r.lu(1e-3, 1e3)); CHECK("apply", vd(a * v, app(A, v)) <= 4 * t * v.magnitude(), "-"); CHECK("apply_composes", vd((a * b) * v, a * (b * v)) <= 20 * t * (double)sc * v.magnitude(), "-");
    unsigned i = r.i(3), j = r.i(3); Matrix3D x = a; x[{i, j}] = 7.25; M3 X = of(x); bool ok = X.a[i][j] == 7.25; for(unsigned p = 0; p < 3; ++p) for(unsigned q = 0; q < 3; ++q) if(p != i || q != j) ok = ok && X.a[p][q] == A.a[p][q]; CHECK("index_write", ok, "[%u,%u]", i, j); CHECK("neq", x != a && !(x == a), "-"); bool thrown = false; try { double z = x[{3u, i}]; (void)z; } catch(std::exception const &) { thrown = true; } CHECK("index_bounds", thrown, "-");
    Matrix3D y = b; x = a; x.swap(y); CHECK("swap", x == b && y == a, "-"); seen("%a", a.GetXX()); }

GROUP(P18, values, 2000, 40000) { Rng & r = c.r; auto x = [&] { return r.pick({0., 1., -2.5, r.normal(), r.normal(), r.lu(1e-9, 1e9) * r.sgn()}); }; auto up = [](double v) { return std::nextafter(v, 1e300); };
    // every copy, move, assignment and setter leaves exactly the given components, and one differing component is a difference
    auto routes = [&](auto const & v, auto const & other, char const * nm) { typedef typename std::decay<decltype(v)>::type T; T a(v), s1(v), s2(v), b(std::move(s1)), k(other), m(other), n(other); k = v; m = std::move(s2); T const cv(v); n = std::move(cv); T self(v); T & al = self; self = al; CHECK("value-routes", a == v && b == v && k == v && m == v && n == v && self == v && !(a != v), "%s: a copy or move differs", nm); T p(v), q(other); p.swap(q); CHECK("value-routes", p == other && q == v, "%s: swap", nm); CHECK("value-differs", !(v == other) && v != other, "%s: values with one differing component compare equal", nm); };
    { double w[3] = {x(), x(), x()}; int i = r.i(3); double u[3] = {w[0], w[1], w[2]}; u[i] = up(u[i]); Vector3D v(w[0], w[1], w[2]), o(u[0], u[1], u[2]); routes(v, o, "vector"); CHECK("value-order", (v < o) && !(o < v), "vector order with component %d larger", i); CHECK("value-components", v.GetX() == w[0] && v.GetY() == w[1] && v.GetZ() == w[2], "-"); Vector3D z; CHECK("value-default", z.GetX() == 0 && z.GetY() == 0 && z.GetZ() == 0, "default vector"); z.SetCartesianCoordinates(w[0], w[1], w[2]); CHECK("value-components", z == v, "set"); seen("vector %d", i); }
    { double w[4] = {x(), x(), x(), x()}; int i = r.i(4); double u[4] = {w[0], w[1], w[2], w[3]}; u[i] = up(u[i]); Quaternion v(w[0], w[1], w[2], w[3]), o(u[0], u[1], u[2], u[3]); routes(v, o, "quaternion"); CHECK("value-order", (v < o) != (o < v), "quaternion order with component %d larger", i); CHECK("value-components", v.GetX() == w[0] && v.GetY() == w[1] && v.GetZ() == w[2] && v.GetW() == w[3], "-"); Quaternion z(o); z.SetX(w[0]); z.SetY(w[1]); z.SetZ(w[2]); z.SetW(w[3]); CHECK("value-components", z == v, "quaternion setters"); Quaternion d; CHECK("value-default", d.GetX() == 0 && d.GetY() == 0 && d.GetZ() == 0 && d.GetW() == 1, "default quaternion is not the identity"); seen("quaternion %d", i); }
    { double w[9]; for(double & t : w) t = x(); int i = r.i(9); double u[9]; std::copy(w, w + 9, u); u[i] = up(u[i]); auto mk = [](double * t) { return Matrix3D(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8]); }; Matrix3D v = mk(w), o = mk(u); routes(v, o, "matrix"); Matrix3D z(o); z.SetXX(w[0]); z.SetXY(w[1]); z.SetXZ(w[2]); z.SetYX(w[3]); z.SetYY(w[4]); z.SetYZ(w[5]); z.SetZX(w[6]); z.SetZY(w[7]); z.SetZZ(w[8]); CHECK("value-components", z == v, "matrix setters"); seen("matrix %d", i); }
    { auto o1 = ORD[r.i(24)].o, o2 = ORD[r.i(24)].o; double w[3] = {x(), x(), x()}; int i = r.i(o1 == o2 ? 3 : 4); double u[3] = {w[0], w[1], w[2]}; if(i < 3) u[i] = up(u[i]); EulerAngles v(o1, w[0], w[1], w[2]), o(i < 3 ? o1 : o2, u[0], u[1], u[2]); routes(v, o, "euler angles"); EulerAngles z(o); z.SetOrder(o1); z.SetAlpha(w[0]); z.SetBeta(w[1]); z.SetGamma(w[2]); CHECK("value-components", z == v && z.GetOrder() == o1 && z.GetAlpha() == w[0] && z.GetBeta() == w[1] && z.GetGamma() == w[2], "euler setters"); seen("euler %d", i); }
    { int n = r.ri(1, 6); std::vector<double> w(n), u; for(double & t : w) t = x(); u = w; int i = r.i(n); u[i] = up(u[i]); Polynom v(w), o(u); CHECK("value-differs", !(v == o) && v != o, "polynomials with coefficient %d differing compare equal", i); std::unique_ptr<Polynom> k(v.clone()); CHECK("value-routes", *k == v && k->GetCoefficient() == w, "clone of a polynomial"); Polynom m(std::move(*k)); CHECK("value-routes", m == v, "moved polynomial"); k->shift(0.5); CHECK("value-routes", v.GetCoefficient() == w, "changing a clone changed the original"); } }

GROUP(P18, polynomials, 3000, 80000) { Rng & r = c.r; int n = r.ri(0, 7); std::vector<double> co(n); for(double & x : co) x = r.coin(0.1) ? 0 : r.normal() * r.pick({1., 1., 100., 0.01}); Polynom p(co); auto ev = [](std::vector<double> const & k, LD x, LD * mag = nullptr) { LD s = 0, m = 0, pw = 1; for(double q : k) { s += q * pw; m += fabsl(q * pw); pw *= x; } if(mag) *mag = m; return s; };
    double x = r.pick({0., 1., -1., r.u(-3, 3), r.u(-3, 3), r.u(-100, 100)}); LD mag; LD v = ev(co, x, &mag); CHECK("evaluate", fabsl(p.evaluate(x) - v) <= 1e-14L * mag + 1e-300L, "deg %d at %g: %g vs %g", n - 1, x, p.evaluate(x), (double)v); CHECK("function", p.GetFunction()(x) == p.evaluate(x), "-"); CHECK("coefficients", p.GetCoefficient() == co, "-");
    { std::vector<double> d; for(int i = 1; i < n; ++i) d.push_back(i * co[i]); LD m2; LD dv = ev(d, x, &m2); CHECK("derivative", fabsl(p.GetDerivative().evaluate(x) - dv) <= 1e-14L * m2, "-"); }
    { double k = r.u(-2, 2); Polynom a = p.GetAntiderivative(k); CHECK("antiderivative", close(a.evaluate(0), k, 1e-15, 1e-18), "-"); double y = r.u(-2, 2); LD I = 0, m = 0; for(int i = 0; i < n; ++i) { I += co[i] * (powl(x, i + 1) - powl(y, i + 1)) / (i + 1); m += fabsl(co[i]) * (powl(fabsl(x), i + 1) + powl(fabsl(y), i + 1)) / (i + 1); } CHECK("antiderivative_integral", fabsl(a.evaluate(x) - a.evaluate(y) - I) <= 1e-13L * (m + fabsl(k)), "-"); Polynom back = a.GetDerivative(); bool ok = back.GetCoefficient().size() == co.size(); for(int i = 0; ok && i < n; ++i) ok = close(back.GetCoefficient()[i], co[i], 1e-15); CHECK("derivative_undoes", ok, "deg %d", n - 1); }
    { double s = r.pick({1., -1., r.u(-3, 3), r.u(-3, 3), r.lu(1e-12, 1e-3), 1e-9, 0.}); Polynom q = p; q.shift(s); double t = r.u(-3, 3); LD m2; LD w = ev(co, (LD)t + s, nullptr); ev(co, fabs(t) + fabs(s), &m2); LD m1; { LD t1 = 0, q1 = 1; for(double z : co) { t1 += fabsl(z) * q1; q1 *= 1 + fabs(t); } m1 = t1; } LD mm = 0, pw = 1; for(double z : co) { mm += fabsl(z) * pw; pw *= fabs(t) + fabs(s); } CHECK("shift", fabsl(q.evaluate(t) - w) <= 1e-12L * mm + (std::fabs(s) <= 1e-9 ? 1e-8L * m1 : 0), "deg %d shift %g at %g: %g vs %g", n - 1, s, t, q.evaluate(t), (double)w); CHECK("shift_degree", q.GetCoefficient().size() == co.size(), "-"); }
    { double s = r.pick({1., -1., 0., r.u(-3, 3)}); Polynom q = p; q.scale(s); double t = r.u(-3, 3); LD m2; LD w = ev(co, (LD)t * s, &m2); CHECK("scale", fabsl(q.evaluate(t) - w) <= 1e-13L * m2, "deg %d scale %g", n - 1, s); }
    { Polynom q = p; CHECK("copy_equal", q == p && !(q != p), "-"); if(n) { auto c2 = co; int i = r.i(n); c2[i] = std::nextafter(c2[i], 1e9); CHECK("neq", Polynom(c2) != p && !(Polynom(c2) == p), "coefficient %d", i); } auto c3 = co; c3.push_back(1); CHECK("neq_degree", Polynom(c3) != p && p != Polynom(c3), "-"); Polynom z(std::vector<double>{9., 9.}); z = p; CHECK("assign", z == p && z.evaluate(x) == p.evaluate(x), "-"); }
    seen("n%d x%.1f", n, x); }

GROUP(P18, roots, 2000, 80000) { Rng & r = c.r; // a monotone function with a known root inside the bracket, hostile starting points
    double root = r.u(-5, 5), lo = root - r.lu(1e-3, 50), hi = root + r.lu(1e-3, 50), sl = r.lu(1e-3, 1e3) * r.sgn(); int kind = r.ri(0, 4); double w = r.lu(1e-3, 30);
    auto f = [&](double x) { double t = x - root; switch(kind) { case 0: return sl * t; case 1: return sl * std::atan(t * w); case 2: return sl * t * t * t; case 3: return sl * (std::exp(t * std::min(w, 5.)) - 1); default: return sl * (t + 0.2 * std::sin(3 * t)); } };
    auto df = [&](double x) { double t = x - root; switch(kind) { case 0: return sl; case 1: return sl * w / (1 + t * t * w * w); case 2: return 3 * sl * t * t; case 3: return sl * std::min(w, 5.) * std::exp(t * std::min(w, 5.)); default: return sl * (1 + 0.6 * std::cos(3 * t)); } };
    double init = r.pick({lo, hi, 0.5 * (lo + hi), r.u(lo, hi), root}); bool sw = r.coin(0.2); double x = sw ? NewtonRaphson(f, df, hi, lo, init, 200, 1e-9) : NewtonRaphson(f, df, lo, hi, init, 200, 1e-9); double tol = kind == 2 ? 1e-4 : 1e-7; CHECK("root", std::fabs(x - root) < tol * (1 + std::fabs(root)), "kind %d [%g,%g] init %g: %.12g vs %.12g", kind, lo, hi, init, x, root); CHECK("root_in_bracket", x >= lo - 1e-9 && x <= hi + 1e-9, "%g", x);
    bool thrown = false; double d = r.lu(1e-3, 3); try { NewtonRaphson(f, df, root + d, root + 2 * d, root + 1.5 * d, 100, 1e-9); } catch(std::exception const &) { thrown = true; } CHECK("unbracketed_rejected", thrown, "-");
    CHECK("root_at_edge", NewtonRaphson(f, df, root, hi, hi, 100, 1e-9) == root && NewtonRaphson(f, df, lo, root, lo, 100, 1e-9) == root, "-"); seen("%d s%d", kind, (int)std::log10(std::fabs(sl))); }

// ---------------------------------------------------------------------------------------------- P17: tables
static std::vector<double> nodes(Rng & r, int & kind, int n) { std::vector<double> x; kind = r.ri(0, 5);
    if(kind == 0) { double a = r.lu(1e-6, 1e3), b = a * r.lu(1.5, 1e8); for(int i = 0; i < n; ++i) x.push_back(a * std::pow(b / a, i / double(n - 1))); }                    // regular in log
    else if(kind == 1) { double a = r.u(-10, 10), w = std::fabs(a) * 0.3 + r.lu(1e-3, 1e4); for(int i = 0; i < n; ++i) x.push_back(a + w * i / (n - 1)); }                                         // regular
    else if(kind == 2) { double a = 0, w = r.lu(1e-3, 1e4); for(int i = 0; i < n; ++i) x.push_back(a + w * i / (n - 1)); }                                                    // regular from 0
    else if(kind == 3) { double v = r.lu(1e-3, 10); for(int i = 0; i < n; ++i) { x.push_back(v); v *= 1 + r.lu(0.02, 10); } }                                                  // irregular positive
    else if(kind == 4) { double v = r.u(-20, 5); for(int i = 0; i < n; ++i) { x.push_back(v); v += r.lu(0.01, 10); } }                                                         // irregular, any sign
    else { double v = 0; for(int i = 0; i < n; ++i) { x.push_back(v); v += r.lu(0.01, 10); } }
    return x; }
struct Ax { bool lg; };
GROUP(P17, table1d, 3000, 90000) { Rng & r = c.r; int n = r.ri(2, 14), kind; auto x = nodes(r, kind, n); std::vector<double> f(n); int fk = r.ri(0, 3); for(int i = 0; i < n; ++i) f[i] = fk == 0 ? r.lu(1e-40, 1e-30) : fk == 1 ? r.u(0.1, 10) : fk == 2 ? (r.coin(0.3) ? 0 : r.lu(1e-3, 1e3)) : 3.25;
    std::vector<int> perm(n); for(int i = 0; i < n; ++i) perm[i] = i; if(r.coin()) for(int i = n - 1; i > 0; --i) std::swap(perm[i], perm[r.i(i + 1)]); TableData1D<double> t; for(int i : perm) { t.x.push_back(x[i]); t.f.push_back(f[i]); } Interpolator1D<double> I(t); bool lg = I.IsLog();
    CHECK("log_needs_positive", !lg || x[0] > 0, "log scale with x0=%g", x[0]); CHECK("range", close(I.MinX(), x[0], 1e-13, 0) && close(I.MaxX(), x[n - 1], 1e-13, 0) && close(I.RangeX(), x[n - 1] - x[0], 1e-12, 1e-12 * std::max(std::fabs(x[0]), std::fabs(x[n - 1]))), "[%g,%g] vs [%g,%g]", I.MinX(), I.MaxX(), x[0], x[n - 1]);
    double fm = *std::max_element(f.begin(), f.end()), appr = 1e-12;
    for(int i = 0; i < n; ++i) CHECK("reproduces_nodes", close(I(x[i]), f[i], 1e-9, appr * fm), "kind %d n %d node %d x=%.17g: %g vs %g", kind, n, i, x[i], I(x[i]), f[i]);
    for(int k = 0; k < 12; ++k) { int i = r.i(n - 1); double u = r.pick({r.u(), r.u(), 1e-9, 1 - 1e-9}), q = x[i] + u * (x[i + 1] - x[i]); if(q < x[0] || q > x[n - 1]) continue; LD w; LD tu = lg ? (logl(q) - logl(x[i])) / (logl(x[i + 1]) - logl(x[i])) : ((LD)q - x[i]) / ((LD)x[i + 1] - x[i]); bool zero = f[i] <= 0 || f[i + 1] <= 0;
        if(lg && !zero) w = expl(logl(f[i]) + (logl(f[i + 1]) - logl(f[i])) * tu); else { LD lu = ((LD)q - x[i]) / ((LD)x[i + 1] - x[i]); w = f[i] + (f[i + 1] - f[i]) * lu; }
        double g = I(q), e = 1e-8 * std::max(f[i], f[i + 1]) + (lg ? 1e-9 * (double)w : 0) + appr * fm; CHECK("interpolates", std::fabs(g - (double)w) <= e, "kind %d n %d log %d between %g (%g) and %g (%g) at %.17g: %g vs %g", kind, n, lg, x[i], f[i], x[i + 1], f[i + 1], q, g, (double)w);
        CHECK("between_neighbours", g >= std::min(f[i], f[i + 1]) - e && g <= std::max(f[i], f[i + 1]) + e, "%g not in [%g,%g]", g, f[i], f[i + 1]); CHECK("non_negative", g >= 0 && std::isfinite(g), "%g", g); }
    TableData1D<double> t2 = t; Interpolator1D<double> J(t2); CHECK("equal", I == J && t == t2, "-"); int w = r.i(n); t2.f[w] = t2.f[w] * 1.5 + 1e-3; Interpolator1D<double> K(t2); CHECK("not_equal", !(I == K) && !(t == t2), "-"); CHECK("ordered", (t < t2) != (t2 < t), "-"); seen("k%d n%d f%d lg%d", kind, n, fk, lg); }

GROUP(P17, table2d, 1500, 50000) { Rng & r = c.r; int nx = r.ri(2, 8), ny = r.ri(2, 8), kx, ky; auto x = nodes(r, kx, nx), y = nodes(r, ky, ny); int fk = r.ri(0, 3); std::vector<std::vector<double>> f(nx, std::vector<double>(ny)); for(auto & v : f) for(double & z : v) z = fk == 0 ? r.lu(1e-40, 1e-30) : fk == 1 ? r.u(0.1, 10) : fk == 2 ? (r.coin(0.25) ? 0 : r.lu(1e-3, 1e3)) : 2.5;
    std::vector<std::pair<int, int>> cells; for(int i = 0; i < nx; ++i) for(int j = 0; j < ny; ++j) cells.push_back({i, j}); if(r.coin()) for(int i = cells.size() - 1; i > 0; --i) std::swap(cells[i], cells[r.i(i + 1)]);
    TableData2D<double> t; for(auto & ij : cells) { t.x.push_back(x[ij.first]); t.y.push_back(y[ij.second]); t.f.push_back(f[ij.first][ij.second]); } Interpolator2D<double> I(t); bool lx = I.IsLogX(), ly = I.IsLogY();
    CHECK("log_needs_positive", (!lx || x[0] > 0) && (!ly || y[0] > 0), "-"); CHECK("range", close(I.MinX(), x[0], 1e-13) && close(I.MaxX(), x[nx - 1], 1e-13) && close(I.MinY(), y[0], 1e-13) && close(I.MaxY(), y[ny - 1], 1e-13), "x[%g,%g] y[%g,%g]", I.MinX(), I.MaxX(), I.MinY(), I.MaxY());
    double fm = 0; for(auto & v : f) for(double z : v) fm = std::max(fm, z);
    for(int k = 0; k < 8; ++k) { int i = r.i(nx), j = r.i(ny); CHECK("reproduces_nodes", close(I(x[i], y[j]), f[i][j], 1e-8, 1e-11 * fm), "kinds %d %d node (%d,%d) (%.17g,%.17g): %g vs %g", kx, ky, i, j, x[i], y[j], I(x[i], y[j]), f[i][j]); }
    for(int k = 0; k < 10; ++k) { int i = r.i(nx - 1), j = r.i(ny - 1); double qx = x[i] + r.pick({r.u(), r.u(), 1e-9, 1 - 1e-9}) * (x[i + 1] - x[i]), qy = y[j] + r.pick({r.u(), r.u(), 1e-9, 1 - 1e-9}) * (y[j + 1] - y[j]); auto fr = [](bool l, double a, double b, double q) -> LD { return l ? (logl(q) - logl(a)) / (logl(b) - logl(a)) : ((LD)q - a) / ((LD)b - a); };
        double F[4] = {f[i][j], f[i][j + 1], f[i + 1][j], f[i + 1][j + 1]}; bool zero = false; for(double z : F) zero = zero || z <= 0; bool lg = (lx || ly) && !zero; LD u = fr(lx && !zero, x[i], x[i + 1], qx), v = fr(ly && !zero, y[j], y[j + 1], qy); if(!(lx || ly)) { u = fr(false, x[i], x[i + 1], qx); v = fr(false, y[j], y[j + 1], qy); }
        auto T = [&](double z) -> LD { return lg ? logl(z) : (LD)z; }; LD s = (1 - u) * (1 - v) * T(F[0]) + (1 - u) * v * T(F[1]) + u * (1 - v) * T(F[2]) + u * v * T(F[3]); LD w = lg ? expl(s) : s; double g = I(qx, qy), mx = *std::max_element(F, F + 4), mn = *std::min_element(F, F + 4), e = 1e-8 * mx;
        CHECK("interpolates", std::fabs(g - (double)w) <= e, "kinds %d %d log %d %d cell (%d,%d) at (%.17g,%.17g): %g vs %g", kx, ky, lx, ly, i, j, qx, qy, g, (double)w); CHECK("between_neighbours", g >= mn - e && g <= mx + e, "%g not in [%g,%g]", g, mn, mx); }
    TableData2D<double> t2 = t; Interpolator2D<double> J(t2); CHECK("equal", I == J && t == t2, "-"); int w = r.i(t2.f.size()); t2.f[w] = t2.f[w] * 1.5 + 1e-3; Interpolator2D<double> K(t2); CHECK("not_equal", !(I == K) && !(t == t2), "-"); CHECK("ordered", (t < t2) != (t2 < t), "-"); seen("k%d%d n%dx%d f%d", kx, ky, nx, ny, fk); }

GROUP(P17, romberg, 2000, 60000) { Rng & r = c.r; int k = r.ri(0, 5); double a = r.u(-3, 3), b = a + r.lu(1e-3, 6), p = r.u(0.2, 3), q = r.u(-2, 2), s = r.coin(0.3) ? r.lu(1e-40, 1e30) : 1; if(k == 3) { a = r.lu(1e-2, 3); b = a * r.u(1.01, 8); } if(k == 5) b = a + r.lu(1e-3, 4) / p;
    auto F = [&](double x) -> double { switch(k) { case 0: return s * std::exp(q * x) / (q == 0 ? 1 : q); case 1: return -s * std::cos(p * x) / p + 2 * s * x; case 2: return s * (x * x * x * x / 4 + q * x * x / 2 + 20 * x); case 3: return s * std::log(x); case 4: return s * 3.5 * x; default: return s * std::atan(p * x) / p; } };
    auto f = [&](double x) -> double { switch(k) { case 0: return s * std::exp(q * x); case 1: return s * std::sin(p * x) + 2 * s; case 2: return s * (x * x * x + q * x + 20); case 3: return s / x; case 4: return s * 3.5; default: return s / (1 + p * p * x * x); } };
    double tol = r.pick({1e-6, 1e-4, 1e-8}), want = F(b) - F(a), mag = integ([&](double x) { return std::fabs(f(x)); }, a, b, 40); if(std::fabs(want) < 0.02 * mag) return; double got = rombergIntegrate(f, a, b, tol); CHECK("romberg", std::fabs(got - want) <= (50 * tol + 1e-11 + (k == 3 || k == 5 ? 2e-3 : 0)) * mag, "kind %d [%g,%g] tol %g: %.12g vs %.12g", k, a, b, tol, got, want); peak("romberg relative error / tol", std::fabs(got - want) / std::fabs(want) / tol);
    TrapezoidalIntegrator<decltype(f)> T(f, a, b); int d = r.ri(0, 8); double v = T.integrate(d); int N = 1 << d; double h = (b - a) / N, ref = 0; for(int i = 0; i <= N; ++i) ref += (i == 0 || i == N ? 0.5 : 1) * f(a + i * h); ref *= h; CHECK("trapezoid_levels", close(v, ref, 1e-11, 1e-12 * mag), "detail %d: %g vs %g", d, v, ref); v = T.integrate(d > 1 ? d - 1 : 0); CHECK("trapezoid_reuse", close(v, ref, 1e-11, 1e-12 * mag), "-"); v = T.integrate(d + 2); N *= 4; h = (b - a) / N; ref = 0; for(int i = 0; i <= N; ++i) ref += (i == 0 || i == N ? 0.5 : 1) * f(a + i * h); ref *= h; CHECK("trapezoid_refine", close(v, ref, 1e-11, 1e-12 * mag), "-");
    bool th = false; try { rombergIntegrate(f, a, b, -1e-3); } catch(std::exception const &) { th = true; } CHECK("negative_tolerance", th, "-");
    int calls = 0; auto bad = [&](double x) -> double { ++calls; return (x > a + 0.37 * (b - a) ? 1e6 : -1) * (1 + (calls % 7)); }; th = false; if(c.cas % 50 == 0) { try { rombergIntegrate(bad, a, b, 1e-12); } catch(std::exception const &) { th = true; } CHECK("no_false_convergence", th, "accepted noise"); } seen("k%d t%g", k, tol); }

GROUP(P17, simpson, 600, 20000) { Rng & r = c.r; double a = r.u(-2, 2), b = a + r.lu(0.1, 3), a2 = r.u(-2, 2), b2 = a2 + r.lu(0.1, 3), p = r.u(-1, 1), q = r.u(-1, 1), s = r.coin(0.5) ? r.lu(1e-40, 1e20) : 1; int k = r.ri(0, 2); auto f = [&](double x, double y) { return s * (k == 0 ? std::exp(p * x + q * y) : k == 1 ? 3 + x * y * y + p * x : 2 + std::sin(3 * x) * std::cos(2 * y)); };
    double want = integ([&](double x) { return integ([&](double y) { return f(x, y); }, a2, b2, 4); }, a, b, 4), tol = r.pick({1e-3, 1e-5}); if(std::fabs(want) < 0.02 * integ([&](double x) { return integ([&](double y) { return std::fabs(f(x, y)); }, a2, b2, 4); }, a, b, 4)) return; unsigned N1 = 2 * r.ri(1, 8), N2 = 2 * r.ri(1, 8); double got = simpsonIntegrate2D(f, a, b, a2, b2, tol, N1, N2); CHECK("simpson2d", std::fabs(got - want) <= 2 * tol * std::fabs(want), "kind %d N %u %u tol %g: %.10g vs %.10g", k, N1, N2, tol, got, want);
    // exact for products of cubics, at any refinement
    double e = simpsonIntegrate2D([&](double x, double y) { return s * (1 + x * x * x + p * x * x) * (2 + q * y + y * y * y); }, a, b, a2, b2, 1e-3, N1, N2); auto P = [&](double x) { return x + x * x * x * x / 4 + p * x * x * x / 3; }; auto Q = [&](double y) { return 2 * y + q * y * y / 2 + y * y * y * y / 4; }; double w = s * (P(b) - P(a)) * (Q(b2) - Q(a2)); CHECK("simpson_exact_cubic", std::fabs(e - w) <= 1e-10 * s * 1e3, "%g vs %g", e, w);
    bool th = false; try { simpsonIntegrate2D(f, a, b, a2, b2, -1.); } catch(std::exception const &) { th = true; } CHECK("negative_tolerance", th, "-"); CHECK("zero_integrand", simpsonIntegrate2D([](double, double) { return 0.0; }, a, b, a2, b2) == 0, "-"); seen("k%d %g N%u,%u", k, tol, N1, N2); }

GROUP(P17, trapezoid, 3000, 90000) { Rng & r = c.r; int n = r.ri(2, 12); std::vector<double> x, y; double v = r.u(-5, 5); for(int i = 0; i < n; ++i) { x.push_back(v); y.push_back(r.coin(0.1) ? 0 : r.u(-1, 5)); v += r.lu(1e-3, 4); } auto ref = [&](double a, double b) { LD s = 0; for(int i = 1; i < n; ++i) { LD l = std::max((LD)a, (LD)x[i - 1]), h = std::min((LD)b, (LD)x[i]); if(h <= l) continue; auto L = [&](LD t) { return y[i - 1] + (y[i] - y[i - 1]) * (t - x[i - 1]) / ((LD)x[i] - x[i - 1]); }; s += (L(l) + L(h)) / 2 * (h - l); } return s; };
    double W = 6 * (x[n - 1] - x[0]); CHECK("full", fabsl(trapezoidIntegrate(x, y) - ref(x[0], x[n - 1])) <= 1e-13L * W, "-");
    for(int k = 0; k < 10; ++k) { auto pt = [&] { return r.coin(0.3) ? x[r.i(n)] : r.u(x[0] - 2, x[n - 1] + 2); }; double a = pt(), b = pt(); if(a > b) std::swap(a, b); double g = trapezoidIntegrate(x, y, a, b); CHECK("restricted", fabsl(g - ref(a, b)) <= 1e-13L * W, "n %d [%.17g,%.17g]: %g vs %g", n, a, b, g, (double)ref(a, b)); double m = r.u(a, b); CHECK("additive", std::fabs(trapezoidIntegrate(x, y, a, m) + trapezoidIntegrate(x, y, m, b) - g) <= 1e-12 * W, "at %g", m); }
    bool th = false; auto y2 = y; y2.pop_back(); try { trapezoidIntegrate(x, y2); } catch(std::exception const &) { th = true; } bool th2 = false; try { trapezoidIntegrate(x, y2, x[0], x[1]); } catch(std::exception const &) { th2 = true; } CHECK("size_mismatch", th && th2, "-"); seen("n%d %.2f", n, x[0]); }
MON_MAIN
