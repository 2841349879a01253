// P10: density profiles are consistent with their own integrals; P11: material composition bookkeeping.
#include "density_pool.h"

// ---------------------------------------------------------------- P10
GROUP(P10, profiles, 4000, 60000) {
    Rng & r = c.r; double L = r.lu(1e-2, 1e7); Prof p = genprof(r, L, false); auto d = mk1(p); Distribution1D & o = *d;
    seen("%s %d", KN[p.kind], (int)p.co.size());
    auto k = d->create(); std::unique_ptr<Distribution1D> cl(d->clone());
    CHECK("profile-copy-equal", *k == o && *cl == o && !(o != *k), "%s copies compare unequal", KN[p.kind]);
    if(p.kind == 1) { PolynomialDistribution1D q{siren::math::Polynom(p.co)}; double x = L * r.u(-2, 2); CHECK("profile-ways-to-build", q == o && q.Evaluate(x) == o.Evaluate(x) && q.Derivative(x) == o.Derivative(x) && q.AntiDerivative(x) == o.AntiDerivative(x), "built from a polynomial: %g, from its coefficients: %g at %g", q.Evaluate(x), o.Evaluate(x), x); }
    if(p.kind >= 2) { auto & e = dynamic_cast<ExponentialDistribution1D &>(o); CHECK("profile-getters", e.GetSigma() == p.sig && (p.kind > 2 || (e.GetAmplitude() == p.amp && e.GetX0() == p.x0)), "sigma %g amplitude %g x0 %g, made with %g %g %g", e.GetSigma(), e.GetAmplitude(), e.GetX0(), p.sig, p.amp, p.x0); }
    for(int i = 0; i < 12; ++i) {
        double x = i == 0 ? 0 : i == 1 ? p.x0 : L * r.u(-3, 3), y = L * r.u(-3, 3), s = p.absf(x);
        CHECK("profile-value", close(o.Evaluate(x), p.f(x), 1e-12, 1e-13 * s), "%s f(%g)=%.17g want %.17g", KN[p.kind], x, o.Evaluate(x), p.f(x));
        CHECK("profile-copy-value", k->Evaluate(x) == o.Evaluate(x) && cl->Derivative(x) == o.Derivative(x) && k->AntiDerivative(x) == o.AntiDerivative(x), "%s copy differs at %g", KN[p.kind], x);
        CHECK("profile-derivative", close(o.Derivative(x), p.d(x), 1e-12, 1e-13 * p.absd(x)), "%s f'(%g)=%.17g want %.17g", KN[p.kind], x, o.Derivative(x), p.d(x));
        double I = mon::integ([&](double t) { return p.f(t); }, x, y, 24), sc = std::max(p.absf(x), p.absf(y)) * (std::fabs(x) + std::fabs(y)) + (p.kind >= 2 ? (p.f(x) + p.f(y)) / std::fabs(p.sig) : 0);
        CHECK("profile-antiderivative", close(o.AntiDerivative(y) - o.AntiDerivative(x), I, 1e-10, 1e-12 * sc), "%s F(%g)-F(%g)=%.17g want %.17g", KN[p.kind], y, x, o.AntiDerivative(y) - o.AntiDerivative(x), I);
    }
}
GROUP(P10, axes, 3000, 40000) {
    Rng & r = c.r; double L = r.lu(1e-2, 1e7); Vector3D p0(L * r.u(-1, 1), L * r.u(-1, 1), L * r.u(-1, 1)); if(r.coin(0.2)) p0 = Vector3D(0, 0, 0);
    Vector3D a = rdir(r), u = rdir(r), x(L * r.u(-2, 2), L * r.u(-2, 2), L * r.u(-2, 2)); CartesianAxis1D ca(a, p0); RadialAxis1D ra(p0);
    auto dot = [](Vector3D const & A, Vector3D const & B) { return A.GetX() * B.GetX() + A.GetY() * B.GetY() + A.GetZ() * B.GetZ(); };
    double dx = x.GetX() - p0.GetX(), dy = x.GetY() - p0.GetY(), dz = x.GetZ() - p0.GetZ(), R = std::sqrt(dx * dx + dy * dy + dz * dz);
    seen("axis %ld", c.cas % 500);
    CHECK("axis-value", close(ca.GetX(x), a.GetX() * dx + a.GetY() * dy + a.GetZ() * dz, 1e-12, 1e-14 * 8 * L) && close(ra.GetX(x), R, 1e-12), "axis coordinate wrong: %.17g %.17g", ca.GetX(x), ra.GetX(x));
    CHECK("axis-slope", close(ca.GetdX(x, u), dot(a, u), 1e-12, 1e-15) && close(ra.GetdX(x, u), (dx * u.GetX() + dy * u.GetY() + dz * u.GetZ()) / R, 1e-10, 1e-13), "axis slope wrong: %.17g %.17g", ca.GetdX(x, u), ra.GetdX(x, u));
    CartesianAxis1D ca2(a, p0), ca3(a, Vector3D(p0.GetX() + L, p0.GetY(), p0.GetZ())), ca4(Vector3D(a.GetY(), a.GetZ() + 0.5, a.GetX()), p0); RadialAxis1D ra2(p0), ra3(Vector3D(p0.GetX(), p0.GetY(), p0.GetZ() - L));
    Axis1D & A = ca;
    CHECK("axis-equality", A == ca2 && !(A == ca3) && !(A == ca4) && !(A == ra) && (Axis1D &)ra == ra2 && !((Axis1D &)ra == ra3) && !((Axis1D &)ra == ca) && A != ca3, "axis comparison wrong");
    auto k = A.create(); std::unique_ptr<Axis1D> kl(ra.clone());
    RadialAxis1D rb(a, p0); CHECK("axis-ways-to-build", (Axis1D &)rb == ra && rb.GetX(x) == ra.GetX(x) && rb.GetdX(x, u) == ra.GetdX(x, u) && rb.GetFp0() == p0 && ra.GetFp0() == p0 && ca.GetFp0() == p0 && ca.GetAxis() == a, "a radial axis made with a direction differs from one made without: %g %g", rb.GetX(x), ra.GetX(x)); CartesianAxis1D c0; RadialAxis1D r0; CHECK("axis-default", close(c0.GetX(x), x.GetX() * c0.GetAxis().GetX() + x.GetY() * c0.GetAxis().GetY() + x.GetZ() * c0.GetAxis().GetZ(), 1e-12, 1e-13 * L) && close(r0.GetX(x), x.magnitude(), 1e-12), "default axes: %g %g", c0.GetX(x), r0.GetX(x));
    CHECK("axis-copy", *k == A && k->GetX(x) == ca.GetX(x) && *kl == (Axis1D &)ra && kl->GetX(x) == ra.GetX(x), "axis copy differs");
}
GROUP(P10, integrals, 4000, 80000) {
    Rng & r = c.r; double L = r.lu(1e-1, 1e6); Prof p = genprof(r, L, true); bool rad = r.coin();
    Vector3D p0(L * r.u(-1, 1), L * r.u(-1, 1), L * r.u(-1, 1)); if(r.coin(0.3)) p0 = Vector3D(0, 0, 0);
    Vector3D ax = rdir(r), u = rdir(r), x(L * r.u(-2, 2), L * r.u(-2, 2), L * r.u(-2, 2)); char const * geo = "generic";
    int mode = r.i(6);
    if(!rad && mode == 0) { // exactly perpendicular
        int k = r.i(3), j = (k + 1 + r.i(2)) % 3; double av[3] = {0, 0, 0}, uv[3] = {0, 0, 0}; av[k] = r.sgn(); uv[j] = r.sgn(); ax = Vector3D(av[0], av[1], av[2]); u = Vector3D(uv[0], uv[1], uv[2]); geo = "perpendicular"; }
    else if(!rad && mode == 1) { ax = Vector3D(0, 0, 1); double ph = r.u(0, 6.28), e = 1e-3 * std::pow(10, -r.u(0, 16)); u = Vector3D(std::sqrt(1 - e * e) * std::cos(ph), std::sqrt(1 - e * e) * std::sin(ph), e); geo = "nearly perpendicular"; }
    else if(rad && mode == 0) { x = p0 + u * (L * r.u(0.1, 2)); u = u * (-1.0); geo = "towards the centre"; }
    double dist = L * r.lu(1e-3, 4); if(mode == 5 && r.coin(0.2)) dist = 0;
    auto D = mkD(p, rad, ax, p0); seen("%s %s %s", KN[p.kind], rad ? "radial" : "cartesian", geo);
    CartesianAxis1D ca(ax, p0); auto co = [&](double t) { Vector3D q = x + u * t; double a = q.GetX() - p0.GetX(), b = q.GetY() - p0.GetY(), e = q.GetZ() - p0.GetZ(); return rad ? std::sqrt(a * a + b * b + e * e) : ax.GetX() * a + ax.GetY() * b + ax.GetZ() * e; };
    auto f = [&](double t) { return p.f(co(t)); };
    std::string w = mon::fmt("%s %s %s L=%g dist=%g", KN[p.kind], rad ? "radial" : "cartesian", geo, L, dist);
    for(double t : {0.0, dist, 0.37 * dist}) CHECK("density-value", close(D->Evaluate(x + u * t), f(t), 1e-9), "%s density(%g)=%.17g want %.17g", w.c_str(), t, D->Evaluate(x + u * t), f(t));
    double X = co(0), slope = rad ? ((x.GetX() - p0.GetX()) * u.GetX() + (x.GetY() - p0.GetY()) * u.GetY() + (x.GetZ() - p0.GetZ()) * u.GetZ()) / X : ax.GetX() * u.GetX() + ax.GetY() * u.GetY() + ax.GetZ() * u.GetZ();
    CHECK("density-derivative", close(D->Derivative(x, u), p.d(X) * slope, 1e-7, 1e-9 * p.absd(X) + 1e-12 * std::fabs(p.f(X)) / L), "%s directional derivative %.17g want %.17g", w.c_str(), D->Derivative(x, u), p.d(X) * slope);
    // truth integral, split at the point of closest approach
    double tca = std::min(dist, std::max(0.0, (p0.GetX() - x.GetX()) * u.GetX() + (p0.GetY() - x.GetY()) * u.GetY() + (p0.GetZ() - x.GetZ()) * u.GetZ()));
    auto T = [&](double a, double b) { double m = std::min(b, std::max(a, tca)); return mon::integ(f, a, m, 40) + mon::integ(f, m, b, 40); };
    double I = D->Integral(x, u, dist), want = T(0, dist), tol = rad ? 2e-4 : 1e-6; { double b2 = co(tca); if(rad && b2 < 0.05 * dist) tol = 3e-3; } // the density has a kink there
    CHECK("integral-value", close(I, want, tol), "%s integral %.17g want %.17g", w.c_str(), I, want);
    if(dist > 0) { double J = D->Integral(x, x + u * dist); CHECK("integral-two-points", close(J, want, tol), "%s integral between points %.17g want %.17g", w.c_str(), J, want); }
    else CHECK("integral-zero-length", I == 0 && D->Integral(x, x) == 0, "%s zero length integral %g %g", w.c_str(), I, D->Integral(x, x));
    { double a = D->Integral(x, u, 0.4 * dist), b = D->Integral(x + u * (0.4 * dist), u, 0.6 * dist); CHECK("integral-additive", close(a + b, I, tol), "%s %.17g + %.17g != %.17g", w.c_str(), a, b, I); }
    if(strcmp(geo, "nearly perpendicular")) { double A1 = D->AntiDerivative(x + u * dist, u), A0 = D->AntiDerivative(x, u), sc = std::max(std::fabs(A1), std::fabs(A0)); CHECK("antiderivative-difference", close(A1 - A0, want, 2 * tol, 1e-6 * tol + (rad ? 3e-3 : 1e-9) * sc), "%s antiderivative difference %.17g want %.17g", w.c_str(), A1 - A0, want); }
    // inverse: the distance after which the given depth is reached
    if(dist > 0) {
        double t = r.coin(0.1) ? 0 : dist * r.u(0.01, 0.95), maxd = dist, con = r.coin(0.3) ? 0 : want / dist * r.lu(1e-2, 10);
        double It = T(0, t), inv = D->InverseIntegral(x, u, It, maxd), invc = D->InverseIntegral(x, u, con, It + con * t, maxd);
        double tt = 5e-6 + (rad ? 5e-3 : 1e-5) * dist;
        CHECK("inverse-integral", std::fabs(inv - t) <= tt, "%s inverse of %.17g is %.17g want %.17g", w.c_str(), It, inv, t);
        CHECK("inverse-integral-constant", std::fabs(invc - t) <= tt, "%s inverse of %.17g with constant %g is %.17g want %.17g", w.c_str(), It + con * t, con, invc, t);
        CHECK("inverse-unreachable", D->InverseIntegral(x, u, want * 1.5, maxd) < 0 && D->InverseIntegral(x, u, con, (want + con * dist) * 1.5, maxd) < 0, "%s unreachable depth: %g %g", w.c_str(), D->InverseIntegral(x, u, want * 1.5, maxd), D->InverseIntegral(x, u, con, (want + con * dist) * 1.5, maxd));
    }
}
GROUP(P10, equality, 1500, 20000) {
    Rng & r = c.r; double L = r.lu(0.1, 1e4); Prof p = genprof(r, L, false); bool rad = r.coin(); Vector3D p0(L, -L, 2 * L), ax = rdir(r);
    auto A = mkD(p, rad, ax, p0), B = mkD(p, rad, ax, p0); auto C = A->create(); std::unique_ptr<DensityDistribution> E(A->clone());
    CHECK("density-equal", *A == *B && *A == *C && *E == *A && !(*A != *B), "equal densities compare unequal (%s)", KN[p.kind]);
    Prof q = p; int w = r.i(3); bool rad2 = rad; Vector3D p1 = p0, ax2 = ax;
    if(w == 0) { if(p.kind == 0) q.val *= 1 + 1e-9; else if(p.kind == 1) q.co[r.i(q.co.size())] += 1e-3 * p.co[0] + 1e-3; else if(p.kind == 2) { int z = r.i(3); (z == 0 ? q.sig : z == 1 ? q.amp : q.x0) += 1e-3; } else q.sig *= 2; }
    else if(w == 1) p1 = Vector3D(L, -L, 2.5 * L); else { if(r.coin()) rad2 = !rad; else { if(rad) { q = p; w = 1; p1 = Vector3D(0, 0, 0); } else ax2 = Vector3D(-ax.GetX(), -ax.GetY(), -ax.GetZ()); } }
    auto F = mkD(q, rad2, ax2, p1); seen("%s differs in %d radial %d %d", KN[p.kind], w, rad, rad2);
    CHECK("density-unequal", !(*A == *F) && *A != *F && !(*F == *A), "%s radial=%d densities that differ in %d compare equal", KN[p.kind], rad, w);
    Prof o = genprof(r, L, false); o.kind = (p.kind + 1 + r.i(2)) % 3; if(p.kind == 3) o.kind = r.i(2); if(o.kind == 1 && o.co.empty()) o.co = {1};
    auto G = mkD(o, rad, ax, p0); CHECK("density-unequal-kind", !(*A == *G), "%s equals %s", KN[p.kind], KN[o.kind]);
}

// ---------------------------------------------------------------- P11
static std::map<std::array<int, 4>, double> const & masses() {
    static std::map<std::array<int, 4>, double> m; if(m.empty()) { std::ifstream in(std::string(getenv("MON_HARNESS_DIR") ? getenv("MON_HARNESS_DIR") : ".") + "/atomic_masses.txt"); std::array<int, 4> k; double v; while(in >> k[0] >> k[1] >> k[2] >> k[3] >> v) m[k] = v; if(m.size() < 3000) throw std::runtime_error("mass reference missing"); }
    return m;
}
static int pdg(int L, int Z, int A, int I = 0) { return 1000000000 + L * 10000000 + Z * 10000 + A * 10 + I; }
typedef siren::dataclasses::ParticleType PT;
static double const NA = 6.02214076e23, MN = 1.00866491590, MP = 1.00782503189, ME = 5.4857990888e-4;
struct Nuc { int Z, A; double m; };
static Nuc rnuc(Rng & r) { static std::vector<Nuc> v; if(v.empty()) for(auto & e : masses()) if(e.first[0] == 0 && e.first[2] > 0 && e.first[3] < 250) v.push_back({e.first[2], e.first[3], e.second});
    if(r.coin(0.4)) { static int const common[][2] = {{1, 1}, {6, 12}, {7, 14}, {8, 16}, {14, 28}, {18, 40}, {26, 56}, {82, 208}, {20, 40}, {92, 238}}; auto & k = common[r.i(10)]; return {k[0], k[1], masses().at({0, k[1] - k[0], k[0], k[1]})}; }
    return v[r.i(v.size())]; }
struct Mat { std::string name; std::map<int, double> f; std::vector<Nuc> n; std::vector<double> w; };
static Mat rmat(Rng & r, std::string name) { Mat m; m.name = name; int k = r.ri(1, 5); double s = 0; std::set<int> used; for(int i = 0; i < k; ++i) { Nuc n = rnuc(r); if(!used.insert(pdg(0, n.Z, n.A)).second) continue; m.n.push_back(n); m.w.push_back(r.lu(1e-3, 1)); s += m.w.back(); }
    for(size_t i = 0; i < m.n.size(); ++i) { m.w[i] /= s; m.f[pdg(0, m.n[i].Z, m.n[i].A)] = m.w[i]; } return m; }
static void checkmat(MaterialModel const & M, Mat const & m, char const * how, int nid) {
    CHECK("material-known", M.HasMaterial(m.name) && M.GetMaterialId(m.name) == nid && M.HasMaterial(nid) && M.GetMaterialName(nid) == m.name, "%s: material %s id/name mismatch", how, m.name.c_str());
    int id = M.GetMaterialId(m.name); double np = 0, nn = 0, na = 0, x0 = 0; std::map<int, double> part, rad;
    for(size_t i = 0; i < m.n.size(); ++i) { double pf = NA * m.w[i] / m.n[i].m; int k = pdg(0, m.n[i].Z, m.n[i].A); part[k] = pf; np += pf * m.n[i].Z; nn += pf * (m.n[i].A - m.n[i].Z); na += pf * m.n[i].A;
        double X = 716.4 * m.n[i].A / (m.n[i].Z * (m.n[i].Z + 1) * std::log(287 / std::sqrt((double)m.n[i].Z))); rad[k] = m.w[i] / X; x0 += m.w[i] / X; }
    std::vector<PT> ty; std::vector<double> mf, pf; double tol = 1e-6;
    for(auto & e : m.f) { ty.push_back(PT(e.first)); mf.push_back(e.second); pf.push_back(part[e.first]); }
    ty.push_back(PT::PPlus); mf.push_back(np / NA * MP); pf.push_back(np); ty.push_back(PT::Neutron); mf.push_back(nn / NA * MN); pf.push_back(nn); ty.push_back(PT::Nucleon); mf.push_back(na / NA * (MP + MN) / 2); pf.push_back(na); ty.push_back(PT::EMinus); mf.push_back(np / NA * ME); pf.push_back(np);
    size_t nreal = ty.size(); ty.push_back(PT::MuMinus); mf.push_back(0); pf.push_back(0); int absent = pdg(0, 50, 120); if(!m.f.count(absent)) { ty.push_back(PT(absent)); mf.push_back(0); pf.push_back(0); }
    std::vector<double> vm = M.GetTargetMassFraction(id, ty), vp = M.GetTargetParticleFraction(id, ty), im = M.GetTargetMassFraction(id, ty.begin(), ty.end()), ip = M.GetTargetParticleFraction(id, ty.begin(), ty.end()), vr = M.GetTargetRadiationFraction(id, ty), ir = M.GetTargetRadiationFraction(id, ty.begin(), ty.end());
    CHECK("material-vector-sizes", vm.size() == ty.size() && vp.size() == ty.size() && im.size() == ty.size() && ip.size() == ty.size() && vr.size() == ty.size() && ir.size() == ty.size(), "%s: wrong number of fractions", how);
    double rs = 0;
    for(size_t i = 0; i < ty.size(); ++i) { double a = M.GetTargetMassFraction(id, ty[i]), b = M.GetTargetParticleFraction(id, ty[i]);
        CHECK("material-mass-fraction", close(a, mf[i], tol) && vm[i] == a && im[i] == a, "%s %s target %d: mass fraction %.10g/%.10g/%.10g want %.10g", how, m.name.c_str(), (int)ty[i], a, vm[i], im[i], mf[i]);
        CHECK("material-particle-fraction", close(b, pf[i], tol) && vp[i] == b && ip[i] == b, "%s %s target %d: particles per gram %.10g/%.10g/%.10g want %.10g", how, m.name.c_str(), (int)ty[i], b, vp[i], ip[i], pf[i]);
        double wr = rad.count((int)ty[i]) ? rad[(int)ty[i]] / x0 : 0; rs += vr[i];
        CHECK("material-radiation-fraction", close(vr[i], wr, 1e-9) && close(ir[i], wr, 1e-9), "%s target %d: radiation fraction %.10g/%.10g want %.10g", how, (int)ty[i], vr[i], ir[i], wr); }
    CHECK("material-radiation-sum", close(rs, 1, 1e-9), "%s radiation fractions sum to %g", how, rs);
    CHECK("material-radiation-length", close(M.GetMaterialRadiationLength(id), 1 / x0, 1e-9), "%s radiation length %.10g want %.10g", how, M.GetMaterialRadiationLength(id), 1 / x0);
    std::set<int> want, got1, got2; for(size_t i = 0; i < nreal; ++i) if(pf[i] > 0) want.insert((int)ty[i]); auto t1 = M.GetMaterialTargets(id), t2 = M.GetMaterialConstituents(id); for(auto t : t1) got1.insert((int)t); for(auto t : t2) got2.insert((int)t);
    CHECK("material-targets", got1 == want && got2 == want && t1.size() == want.size() && t2.size() == want.size(), "%s %s lists %zu/%zu targets want %zu", how, m.name.c_str(), t1.size(), t2.size(), want.size());
    seen("%zu components %s", m.n.size(), how);
}
GROUP(P11, composition, 1500, 30000) {
    Rng & r = c.r; MaterialModel M; std::vector<Mat> all; int n = r.ri(1, 8);
    for(int i = 0; i < n; ++i) { if(i && r.coin(0.3)) { size_t j = r.i(all.size()); all[j] = rmat(r, all[j].name); M.AddMaterial(all[j].name, all[j].f); obs("redefined"); } else { all.push_back(rmat(r, mon::fmt("MAT%d", i))); M.AddMaterial(all.back().name, all.back().f); } }
    for(size_t i = 0; i < all.size(); ++i) checkmat(M, all[i], "programmatic", i);
    CHECK("material-unknown", !M.HasMaterial("NOPE") && !M.HasMaterial((int)all.size()) && !M.HasMaterial(-1), "unknown material reported present");
    bool t1 = false, t2 = false; try { M.GetMaterialId("NOPE"); } catch(std::exception &) { t1 = true; } try { M.GetMaterialName(all.size()); } catch(std::exception &) { t2 = true; }
    CHECK("material-unknown-refused", t1 && t2, "lookups of unknown materials do not fail");
    MaterialModel C(M), F; for(auto & m : all) F.AddMaterial(m.name, m.f); CHECK("material-model-equal", C == M && F == M, "copied or rebuilt model compares unequal");
    Mat x = rmat(r, "EXTRA"); C.AddMaterial(x.name, x.f); CHECK("material-model-unequal", !(C == M), "model with an extra material compares equal");
}
GROUP(P11, files, 600, 10000) {
    Rng & r = c.r; std::string fn = mon::fmt("mat_%d_%ld.dat", (int)getpid(), c.cas), txt; std::vector<Mat> all; int n = r.ri(1, 6);
    for(int i = 0; i < n; ++i) { while(r.coin(0.4)) txt += r.pick<char const *>({"# comment 1 2 3\n", "\n", "  indented 4\n", "\ttab\n"}); Mat m = rmat(r, mon::fmt("M%d", i)); for(auto & e : m.f) { double v = atof(mon::fmt("%.9g", e.second).c_str()); for(size_t j = 0; j < m.n.size(); ++j) if(pdg(0, m.n[j].Z, m.n[j].A) == e.first) m.w[j] = v; e.second = v; }
        txt += mon::fmt("%s %zu%s\n", m.name.c_str(), m.f.size(), r.coin() ? "  # note" : ""); for(auto & e : m.f) { if(r.coin(0.15)) txt += r.pick<char const *>({"# between\n", "\n", " x\n"}); txt += mon::fmt("%d   %.9g%s\n", e.first, e.second, r.coin(0.3) ? "   # isotope" : ""); } all.push_back(m); }
    int how = r.i(4); std::string good = txt; char const * kind = "good";
    if(how == 0) { size_t cut = good.rfind('\n', good.size() - 2); txt = good.substr(0, cut + 1); kind = "last component line missing"; } // the last line is a component
    if(how == 1) { kind = "header without count"; txt = good + "LONELY\n"; }
    if(how == 2 && r.coin()) { kind = "component without fraction"; txt = good + "BAD 1\n1000080160\n"; }
    else if(how == 2) { kind = "component is not a number"; txt = good + "BAD 2\n1000080160 0.5\nOXYGEN 0.5\n"; }
    { std::ofstream o(fn); o << txt; }
    if(how == 3) { MaterialModel M(fn); for(size_t i = 0; i < all.size(); ++i) checkmat(M, all[i], "file", i);
        MaterialModel P; P.SetPath("."); P.AddModelFile(fn.substr(0, fn.size() - 4)); CHECK("material-file-lookup", P == M, "file found by name differs"); }
    else { bool threw = false; try { MaterialModel M(fn); } catch(std::exception const &) { threw = true; } CHECK("material-file-refused", threw, "file with %s accepted", kind); }
    seen("%s", kind); remove(fn.c_str());
    bool t = false; try { MaterialModel M("/nonexistent/dir/materials"); } catch(std::exception const &) { t = true; } CHECK("material-missing-file", t, "missing file accepted");
}
GROUP(P11, several_files, 200, 4000) { // materials spread over several files, found through any of the ways to name them
    Rng & r = c.r; std::vector<Mat> all; std::map<std::string, size_t> at; std::vector<std::string> names; int nf = r.ri(1, 4); std::string dir = mon::fmt("matd_%d_%ld", (int)getpid(), c.cas), sub = dir + "/materials"; mkdir(dir.c_str(), 0755); mkdir(sub.c_str(), 0755); std::vector<std::string> made; MaterialModel ref;
    for(int f = 0; f < nf; ++f) { std::string base = mon::fmt("file%d", f), file = (r.coin() ? dir : sub) + "/" + base + (r.coin() ? ".dat" : ""), txt = r.coin() ? "# materials\n" : ""; int k = r.ri(1, 3); for(int i = 0; i < k; ++i) { std::string nm = (all.size() && r.coin(0.2)) ? all[r.i(all.size())].name : mon::fmt("M%zu", all.size()); Mat m = rmat(r, nm); for(auto & e : m.f) { double v = atof(mon::fmt("%.9g", e.second).c_str()); for(size_t j = 0; j < m.n.size(); ++j) if(pdg(0, m.n[j].Z, m.n[j].A) == e.first) m.w[j] = v; e.second = v; } txt += mon::fmt("%s %zu\n", nm.c_str(), m.f.size()); for(auto & e : m.f) txt += mon::fmt("%d %.9g\n", e.first, e.second); if(at.count(nm)) all[at[nm]] = m; else { at[nm] = all.size(); all.push_back(m); } } { std::ofstream o(file); o << txt; } made.push_back(file); names.push_back(r.coin(0.3) ? file : base); }
    int how = r.i(4); auto ck = [&](MaterialModel const & M, char const * w) { for(size_t i = 0; i < all.size(); ++i) checkmat(M, all[i], w, i); CHECK("material-known", !M.HasMaterial((int)all.size()), "%s: extra material", w); };
    if(how == 0) ck(MaterialModel(made), "list of files"); else if(how == 1) ck(MaterialModel(dir, names), "path and list of files"); else if(how == 2) { MaterialModel M; M.SetPath(dir); M.AddModelFiles(names); ck(M, "files added"); } else { MaterialModel M(dir, names[0]); for(int f = 1; f < nf; ++f) M.AddModelFile(names[f]); ck(M, "path and file"); CHECK("material-model-equal", M == MaterialModel(dir, names), "models of the same files unequal"); }
    bool t = false; try { MaterialModel M(dir, "nofile"); } catch(std::exception const &) { t = true; } CHECK("material-missing-file", t, "missing file accepted"); t = false; try { MaterialModel M(dir, std::string()); } catch(std::exception const &) { t = true; } CHECK("material-missing-file", t, "empty file name accepted");
    for(auto & f : made) remove(f.c_str()); rmdir(sub.c_str()); rmdir(dir.c_str()); }
// Dan, Chowdhury, Samanta: generalised Bethe-Weizsaecker mass formula for nuclei and hypernuclei (nucl-th/0504085), binding energy in MeV
static double bethe(int L, int Z, int A) { double a = A, n = A - Z - L, z = Z, d = 0; bool ev = Z % 2 == 0, en = (A - Z - L) % 2 == 0; if(ev && en) d = 12 / std::sqrt(a); if(!ev && !en) d = -12 / std::sqrt(a); double c = std::cbrt(a);
    return 15.777 * a - 18.34 * c * c - 0.71 * z * (z - 1) / c - 23.21 * (n - z) * (n - z) / (a * (1 + std::exp(-a / 17))) + d * (1 - std::exp(-a / 30)) + L * (0.0335 * 1115.683 - 26.7 - 48.7 / (c * c)); }
GROUP(P11, nuclei, 64, 64) {
    Rng & r = c.r; auto const & ref = masses(); long k = 0;
    for(auto const & e : ref) { if(k++ % 64 != c.cas) continue; int L = e.first[0], N = e.first[1], Z = e.first[2], A = e.first[3]; PT t = PT(pdg(L, Z, A)); auto it = MaterialModel::atomic_masses.find(std::make_tuple(L, N, Z, A));
        CHECK("mass-table", it != MaterialModel::atomic_masses.end() && std::fabs(it->second - e.second) < 2e-3, "atomic mass of Z=%d A=%d is %.6f want %.6f", Z, A, it == MaterialModel::atomic_masses.end() ? -1.0 : it->second, e.second);
        if(Z == 0) continue;
        CHECK("nucleus-counts", MaterialModel::GetProtonCount(t) == Z && MaterialModel::GetNucleonCount(t) == A && MaterialModel::GetNeutronCount(t) == N && MaterialModel::GetStrangeCount(t) == L, "counts of %d: Z=%d A=%d N=%d L=%d", (int)t, MaterialModel::GetProtonCount(t), MaterialModel::GetNucleonCount(t), MaterialModel::GetNeutronCount(t), MaterialModel::GetStrangeCount(t));
        CHECK("nucleus-mass", std::fabs(MaterialModel::GetMolarMass(t) - e.second) < 2e-3, "molar mass of %d is %.6f want %.6f", (int)t, MaterialModel::GetMolarMass(t), e.second);
        double B = MaterialModel::GetEmpericalNuclearBindingEnergy(L, N, Z, A) / 0.93149410242, fromB = Z * MP + N * MN - B; if(A >= 12) { mon::peak("binding-error", std::fabs(fromB - e.second)); CHECK("empirical-binding", std::fabs(fromB - e.second) < 0.045, "empirical mass of Z=%d A=%d %.4f, measured %.4f", Z, A, fromB, e.second); }
        seen("Z=%d A=%d", Z, A); }
    // nuclei outside of the table and hypernuclei: mass close to that of their constituents
    for(int i = 0; i < 40; ++i) { int Z = r.ri(8, 100), A = (int)(2.0 * Z + 0.006 * Z * Z) + r.ri(-4, 8), L = r.ri(0, 2); if(A - Z - L < 0 || A > 290) continue; PT t = PT(pdg(L, Z, A)); double lm = L * 1.115683 / 0.93149410242; double raw = Z * MP + (A - Z - L) * MN + lm, m = MaterialModel::GetMolarMass(t);
        CHECK("any-nucleus-counts", MaterialModel::GetProtonCount(t) == Z && MaterialModel::GetNucleonCount(t) == A && MaterialModel::GetNeutronCount(t) == A - Z - L && MaterialModel::GetStrangeCount(t) == L, "counts of %d", (int)t);
        double want = bethe(L, Z, A), B = 1e3 * MaterialModel::GetEmpericalNuclearBindingEnergy(L, A - Z - L, Z, A); mon::peak("binding-vs-formula", std::fabs(B - want)); CHECK("binding-formula", std::fabs(B - want) < 0.02, "binding energy of Z=%d A=%d L=%d is %.5f MeV, the mass formula gives %.5f", Z, A, L, B, want);
        if(!masses().count({L, A - Z - L, Z, A})) { obs("nuclei outside of the mass table"); CHECK("formula-mass", std::fabs(m - (raw - want / 931.49410242)) < 2e-4, "molar mass of %d (Z=%d A=%d L=%d), which is not in the mass table, is %.6f, the mass formula gives %.6f", (int)t, Z, A, L, m, raw - want / 931.49410242); }
        CHECK("any-nucleus-mass", m < raw + 0.12 && m > raw * (1 - 0.012), "molar mass of %d (Z=%d A=%d L=%d) is %.5f, constituents weigh %.5f", (int)t, Z, A, L, m, raw); }
    CHECK("nucleon-masses", std::fabs(MaterialModel::GetMolarMass(PT::PPlus) - MP) < 1e-3 && std::fabs(MaterialModel::GetMolarMass(PT::Neutron) - MN) < 1e-5 && std::fabs(MaterialModel::GetMolarMass(PT::Nucleon) - (MP + MN) / 2) < 1e-3 && std::fabs(MaterialModel::GetMolarMass(PT::EMinus) - ME) < 1e-8, "nucleon or electron molar masses");
    bool t = false; MaterialModel M; try { M.AddMaterial("X", {{22, 1.0}}); } catch(std::exception const &) { t = true; } CHECK("massless-component-refused", t && !M.HasMaterial("X"), "material made of photons accepted");
}
static void walk(std::string const & d, std::vector<std::string> & out) { DIR * h = opendir(d.c_str()); if(!h) return; while(dirent * e = readdir(h)) { std::string n = e->d_name; if(n[0] == '.') continue; std::string p = d + "/" + n; struct stat s; if(stat(p.c_str(), &s)) continue; if(S_ISDIR(s.st_mode)) walk(p, out); else if(n == "materials.dat") out.push_back(p); } closedir(h); }
GROUP(P11, shipped, 1, 1) { // the material files that come with the project
    std::vector<std::string> fs; walk(std::string(getenv("SIREN_REPO") ? getenv("SIREN_REPO") : "/repo") + "/resources/detectors", fs); std::sort(fs.begin(), fs.end());
    for(auto const & f : fs) { MaterialModel M(f); int n = 0; while(M.HasMaterial(n)) ++n; CHECK("shipped-materials", n > 0, "%s defines no material", f.c_str());
        for(int i = 0; i < n; ++i) { double s = 0; for(auto t : M.GetMaterialTargets(i)) if((int)t > 1000000000 && (int)t < 1100000000) s += M.GetTargetMassFraction(i, t); CHECK("shipped-mass-sum", std::fabs(s - 1) < 0.05, "%s material %s sums to %g", f.c_str(), M.GetMaterialName(i).c_str(), s); seen(f + M.GetMaterialName(i)); } }
}
MON_MAIN
