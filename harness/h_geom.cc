// Placements (P13). Mesh search tree (P14): h_geom_mesh.cc. Solids (P12): h_geom_solids.cc.
#include "mon.h"
#include <sstream>
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/EulerQuaternionConversions.h"
#include "SIREN/geometry/Placement.h"
using namespace siren::math; using namespace siren::geometry; using namespace mon;
typedef long double LD;
static Vector3D rv(Rng & r, double s) { double x, y, z; r.dir(x, y, z); return Vector3D(s * x, s * y, s * z); }
// a quaternion of any norm, and the exact rotation it stands for
static Quaternion rq(Rng & r) { if(r.coin(0.1)) return Quaternion(0, 0, 0, r.pick({1., -1., 2.})); double n = r.coin(0.5) ? 1 : r.lu(1e-3, 1e3); int k = r.coin(0.25) ? (int)r.i(4) : -1; if(k >= 0) return Quaternion(k == 0 ? n : 0, k == 1 ? n : 0, k == 2 ? n : 0, k == 3 ? n : 0);
    if(r.coin(0.1)) { double e = r.lu(1e-11, 1e-5); return Quaternion(e * r.normal(), e * r.normal(), e * r.normal(), 1); }
    Quaternion q(r.normal(), r.normal(), r.normal(), r.normal()); double m = std::sqrt(q.GetX() * q.GetX() + q.GetY() * q.GetY() + q.GetZ() * q.GetZ() + q.GetW() * q.GetW()); return Quaternion(q.GetX() * n / m, q.GetY() * n / m, q.GetZ() * n / m, q.GetW() * n / m); }
struct R3 { LD a[3][3]; };
static R3 rot(Quaternion const & q) { LD x = q.GetX(), y = q.GetY(), z = q.GetZ(), w = q.GetW(), n = x * x + y * y + z * z + w * w; R3 m; LD s = 2 / n;
    m.a[0][0] = 1 - s * (y * y + z * z); m.a[0][1] = s * (x * y - z * w); m.a[0][2] = s * (x * z + y * w);
    m.a[1][0] = s * (x * y + z * w); m.a[1][1] = 1 - s * (x * x + z * z); m.a[1][2] = s * (y * z - x * w);
    m.a[2][0] = s * (x * z - y * w); m.a[2][1] = s * (y * z + x * w); m.a[2][2] = 1 - s * (x * x + y * y); return m; }
static Vector3D fwd(R3 const & m, Vector3D const & v) { LD w[3]; for(int i = 0; i < 3; ++i) w[i] = m.a[i][0] * v.GetX() + m.a[i][1] * v.GetY() + m.a[i][2] * v.GetZ(); return Vector3D((double)w[0], (double)w[1], (double)w[2]); }
static Vector3D bwd(R3 const & m, Vector3D const & v) { LD w[3]; for(int i = 0; i < 3; ++i) w[i] = m.a[0][i] * v.GetX() + m.a[1][i] * v.GetY() + m.a[2][i] * v.GetZ(); return Vector3D((double)w[0], (double)w[1], (double)w[2]); }
static double vd(Vector3D const & a, Vector3D const & b) { double m = 0; for(double t : {std::fabs(a.GetX() - b.GetX()), std::fabs(a.GetY() - b.GetY()), std::fabs(a.GetZ() - b.GetZ())}) if(!(t <= m)) m = t; return m; }

GROUP(P13, placement, 8000, 400000) { Rng & r = c.r; Quaternion q = rq(r); Vector3D P = r.coin(0.15) ? Vector3D(0, 0, 0) : rv(r, r.lu(1e-6, 1e8)); R3 R = rot(q);
    Placement p; int how = (int)r.i(8); bool hp = true, hq = true;
    if(how == 0) p = Placement(P, q); else if(how == 1) { p = Placement(P); hq = false; } else if(how == 2) { p = Placement(q); hp = false; }
    else if(how == 3) { p = Placement(rv(r, 3), rq(r)); p.SetPosition(P); p.SetQuaternion(q); } else if(how == 4) { Placement t(P, q); p = Placement(std::move(t)); } else if(how == 5) { Placement t(P, q); p = t; } else if(how == 7) { hp = hq = false; if(r.coin()) p = *Placement().create(); } else { Placement const t(P, q), s(t); p = *s.create(); }
    if(!hq) { q = Quaternion(0, 0, 0, 1); R = rot(q); } if(!hp) P = Vector3D(0, 0, 0);
    CHECK("position_kept", vd(p.GetPosition(), P) == 0, "how %d", how);
    Quaternion g = p.GetQuaternion(); LD n2 = (LD)g.GetX() * g.GetX() + (LD)g.GetY() * g.GetY() + (LD)g.GetZ() * g.GetZ() + (LD)g.GetW() * g.GetW(); CHECK("quaternion_unit", fabsl(n2 - 1) < 1e-14, "how %d norm2 %Lg", how, n2);
    double S = r.lu(1e-3, 1e8); Vector3D v = rv(r, S), w = rv(r, r.lu(1e-3, 1e3)), d = rv(r, 1), G = fwd(R, v); double sc = S + P.magnitude(), tol = 4e-15 * sc;
    Vector3D ref((double)((LD)G.GetX() + P.GetX()), (double)((LD)G.GetY() + P.GetY()), (double)((LD)G.GetZ() + P.GetZ()));
    Vector3D o = p.LocalToGlobalPosition(v); CHECK("to_global", vd(o, ref) < tol, "how %d off by %g of %g", how, vd(o, ref), sc);
    CHECK("back_to_local", vd(p.GlobalToLocalPosition(o), v) < 3 * tol, "how %d off by %g of %g", how, vd(p.GlobalToLocalPosition(o), v), sc);
    Vector3D l = p.GlobalToLocalPosition(v), lr = bwd(R, Vector3D(v.GetX() - P.GetX(), v.GetY() - P.GetY(), v.GetZ() - P.GetZ())); CHECK("to_local", vd(l, lr) < tol, "how %d off by %g of %g", how, vd(l, lr), sc);
    CHECK("and_back_to_global", vd(p.LocalToGlobalPosition(l), v) < 3 * tol, "how %d", how);
    CHECK("direction_to_global", vd(p.LocalToGlobalDirection(d), fwd(R, d)) < 4e-15, "how %d %g", how, vd(p.LocalToGlobalDirection(d), fwd(R, d))); CHECK("direction_to_local", vd(p.GlobalToLocalDirection(d), bwd(R, d)) < 4e-15, "how %d", how);
    CHECK("direction_length", std::fabs(p.GlobalToLocalDirection(d).magnitude() - 1) < 4e-15 && std::fabs(p.LocalToGlobalDirection(d).magnitude() - 1) < 4e-15, "how %d", how);
    CHECK("rotate", vd(p.Rotate(w), fwd(R, w)) < 4e-15 * w.magnitude() && vd(p.Rotate(w, true), bwd(R, w)) < 4e-15 * w.magnitude() && vd(p.Rotate(w, false), p.Rotate(w)) == 0, "how %d", how);
    // the identity flag lets callers skip the transformation, so it may only be set when that changes nothing
    if(p.IsIdentity()) { CHECK("identity_is_identity", vd(o, v) < 4e-12 * S && vd(l, v) < 4e-12 * S && P.magnitude() == 0, "how %d %g", how, vd(o, v)); obs("identity"); }
    if(P.magnitude() == 0 && q.GetX() == 0 && q.GetY() == 0 && q.GetZ() == 0) CHECK("identity_known", p.IsIdentity(), "how %d", how);
    if(P.magnitude() != 0) CHECK("moved_not_identity", !p.IsIdentity(), "how %d", how);
    Placement a = p, b(rv(r, 5), rq(r)), b0 = b; if(r.coin(0.3)) b = Placement(p.GetPosition(), b.GetQuaternion()), b0 = b; bool ia = a.IsIdentity(), ib = b.IsIdentity();
    CHECK("copy_equal", a == p && !(a != p) && !(a < p) && !(p < a), "how %d", how); CHECK("trichotomy", (a == b) + (a < b) + (b < a) == 1 && (a != b) == !(a == b), "how %d", how);
    a.swap(b); CHECK("swap", a == b0 && b == p && a.IsIdentity() == ib && b.IsIdentity() == ia && vd(a.LocalToGlobalPosition(v), b0.LocalToGlobalPosition(v)) == 0 && vd(b.LocalToGlobalPosition(v), o) == 0, "how %d", how);
    Placement t; t = b; CHECK("assigned", t == p && t.IsIdentity() == p.IsIdentity() && vd(t.LocalToGlobalPosition(v), o) == 0, "how %d", how); Placement u; u = std::move(t); CHECK("moved", u == p && u.IsIdentity() == p.IsIdentity() && vd(u.GlobalToLocalPosition(v), l) == 0, "how %d", how);
    Placement const k(p); Placement m; m = static_cast<Placement const &&>(k); CHECK("const_moved", m == p && k == p && m.IsIdentity() == p.IsIdentity(), "how %d", how);
    // setters change one thing only
    Placement s = p; s.SetPosition(w); CHECK("set_position", vd(s.GetPosition(), w) == 0 && s.GetQuaternion() == p.GetQuaternion(), "how %d", how); Quaternion q2 = rq(r); s = p; s.SetQuaternion(q2); CHECK("set_quaternion", vd(s.GetPosition(), P) == 0 && vd(s.LocalToGlobalDirection(d), fwd(rot(q2), d)) < 4e-15, "how %d", how); if(s.GetQuaternion() != p.GetQuaternion()) CHECK("rotation_counts", s != p && (s < p) != (p < s), "how %d", how);
    std::ostringstream os; os << p; CHECK("prints", !os.str().empty(), "how %d", how);
    seen("h%d id%d q%d", how, p.IsIdentity(), (int)(10 * std::fabs(g.GetW())));
}
MON_MAIN
