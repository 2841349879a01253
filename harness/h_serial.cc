// MON-REG
// P03: everything that can be saved comes back as it was. Values, tables, densities, materials and primary distributions.
#include "serial.h"
#include "dist_pool.h"
#include "density_pool.h"
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Matrix3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/EulerAngles.h"
#include "SIREN/math/Polynomial.h"
#include "SIREN/utilities/Interpolator.h"
#include "SIREN/dataclasses/Particle.h"
#include "SIREN/dataclasses/DecaySignature.h"
#include "SIREN/distributions/primary/vertex/DecayRangeFunction.h"
#include "SIREN/distributions/primary/vertex/LeptonDepthFunction.h"
using namespace siren; using namespace siren::math; namespace dc = siren::dataclasses;
static double num(Rng & r) { switch(r.i(14)) { case 0: return 0.0; case 1: return -0.0; case 2: return 1.7976931348623157e308; case 3: return 5e-324; case 4: return 1.0 / 3; case 5: return -1e-300; default: return r.normal() * r.lu(1e-12, 1e12); } }
static bool eqb(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool eqv(Vector3D const & a, Vector3D const & b) { return eqb(a.GetX(), b.GetX()) && eqb(a.GetY(), b.GetY()) && eqb(a.GetZ(), b.GetZ()); }

GROUP(P03, math_values, 1500, 60000) { Rng & r = c.r;
    { Vector3D v(num(r), num(r), num(r)); if(r.coin()) v.CalculateSphericalCoordinates(); ser::value("Vector3D", r, v, [](Vector3D const & a, Vector3D const & b) { return eqv(a, b) && eqb(a.GetRadius(), b.GetRadius()) && eqb(a.GetPhi(), b.GetPhi()) && eqb(a.GetTheta(), b.GetTheta()); }); }
    { Matrix3D m(num(r), num(r), num(r), num(r), num(r), num(r), num(r), num(r), num(r)); ser::value("Matrix3D", r, m, [](Matrix3D const & a, Matrix3D const & b) { return eqb(a.GetXX(), b.GetXX()) && eqb(a.GetXY(), b.GetXY()) && eqb(a.GetXZ(), b.GetXZ()) && eqb(a.GetYX(), b.GetYX()) && eqb(a.GetYY(), b.GetYY()) && eqb(a.GetYZ(), b.GetYZ()) && eqb(a.GetZX(), b.GetZX()) && eqb(a.GetZY(), b.GetZY()) && eqb(a.GetZZ(), b.GetZZ()); }); }
    { Quaternion q(num(r), num(r), num(r), num(r)); ser::value("Quaternion", r, q, [](Quaternion const & a, Quaternion const & b) { return eqb(a.GetX(), b.GetX()) && eqb(a.GetY(), b.GetY()) && eqb(a.GetZ(), b.GetZ()) && eqb(a.GetW(), b.GetW()); }); }
    { static const EulerOrder O[] = {EulerOrder::XYZs, EulerOrder::XYXs, EulerOrder::XZYs, EulerOrder::XZXs, EulerOrder::YZXs, EulerOrder::YZYs, EulerOrder::YXZs, EulerOrder::YXYs, EulerOrder::ZXYs, EulerOrder::ZXZs, EulerOrder::ZYXs, EulerOrder::ZYZs, EulerOrder::ZYXr, EulerOrder::XYXr, EulerOrder::YZXr, EulerOrder::XZXr, EulerOrder::XZYr, EulerOrder::YZYr, EulerOrder::ZXYr, EulerOrder::YXYr, EulerOrder::YXZr, EulerOrder::ZXZr, EulerOrder::XYZr, EulerOrder::ZYZr}; EulerAngles e(O[r.i(24)], r.u(-4, 4), r.u(-4, 4), r.u(-4, 4)); ser::value("EulerAngles", r, e, [](EulerAngles const & a, EulerAngles const & b) { return a.GetOrder() == b.GetOrder() && eqb(a.GetAlpha(), b.GetAlpha()) && eqb(a.GetBeta(), b.GetBeta()) && eqb(a.GetGamma(), b.GetGamma()); }); }
    { int n = r.ri(1, 8); std::vector<double> co(n); for(double & x : co) x = num(r); Polynom p(co), b(std::vector<double>{1}); int f = r.i(3); std::string s = ser::save(f, p), e = ser::tryload(f, s, b); CHECK("loads", e.empty(), "Polynom %s: %s", ser::F[f], e.c_str()); bool ok = p.GetCoefficient() == b.GetCoefficient() && p == b; for(int k = 0; k < 5; ++k) { double x = r.u(-3, 3), u = p.evaluate(x), v = b.evaluate(x); ok &= eqb(u, v) || (std::isnan(u) && std::isnan(v)); } CHECK("same-after-loading", ok, "Polynom %s differs after loading", ser::F[f]); CHECK("saves-the-same-again", ser::save(f, b) == s, "Polynom"); }
    std::string j = ser::save(0, Vector3D(1, 2, 3)); Vector3D w; CHECK("newer-version-refused", !ser::tryload(0, ser::bump(j, r.i(ser::versions(j))), w).empty(), "Vector3D of a newer version loaded");
}
GROUP(P03, record_values, 1500, 60000) { Rng & r = c.r; auto pt = [&] { return static_cast<dc::ParticleType>(r.pick({12, 14, -14, 16, 13, -13, 11, 22, 2212, 5914, -2000001006, 1000080160, 421, -431, 0, 2147483647})); }; auto id = [&] { return r.coin(0.15) ? dc::ParticleID() : dc::ParticleID(r.next(), (int32_t)r.next()); };
    auto sid = [](dc::ParticleID const & a, dc::ParticleID const & b) { return a.IsSet() == b.IsSet() && a.GetMajorID() == b.GetMajorID() && a.GetMinorID() == b.GetMinorID(); };
    ser::value("ParticleID", r, id(), sid);
    { dc::Particle p(id(), pt(), num(r), {num(r), num(r), num(r), num(r)}, {num(r), num(r), num(r)}, num(r), num(r)); ser::value("Particle", r, p, [&](dc::Particle const & a, dc::Particle const & b) { bool k = sid(a.id, b.id) && a.type == b.type && eqb(a.mass, b.mass) && eqb(a.length, b.length) && eqb(a.helicity, b.helicity); for(int i = 0; i < 4; ++i) k &= eqb(a.momentum[i], b.momentum[i]); for(int i = 0; i < 3; ++i) k &= eqb(a.position[i], b.position[i]); return k; }); }
    { dc::InteractionSignature s; s.primary_type = pt(); s.target_type = pt(); for(int i = r.i(5); i > 0; --i) s.secondary_types.push_back(pt()); ser::value("InteractionSignature", r, s, [](dc::InteractionSignature const & a, dc::InteractionSignature const & b) { return a.primary_type == b.primary_type && a.target_type == b.target_type && a.secondary_types == b.secondary_types; }); }
    { dc::DecaySignature s; s.primary_type = pt(); for(int i = r.i(5); i > 0; --i) s.secondary_types.push_back(pt()); ser::value("DecaySignature", r, s, [](dc::DecaySignature const & a, dc::DecaySignature const & b) { return a.primary_type == b.primary_type && a.secondary_types == b.secondary_types; }); }
    { std::map<dc::ParticleType, double> m; for(int i = r.i(6); i > 0; --i) m[pt()] = num(r); ser::value("map of ParticleType", r, m, [](std::map<dc::ParticleType, double> const & a, std::map<dc::ParticleType, double> const & b) { return a == b; }); }
    { utilities::SIREN_random g(r.i(2) ? (unsigned)r.next() : 7u); int n = r.i(20); for(int i = 0; i < n; ++i) g.Uniform(0, 1); uint64_t s0 = g.get_seed(); int f = r.i(3); utilities::SIREN_random h; std::string e = ser::tryload(f, ser::save(f, g), h); CHECK("loads", e.empty(), "SIREN_random: %s", e.c_str()); utilities::SIREN_random q(s0); bool ok = (uint64_t)h.get_seed() == s0; for(int i = 0; i < 20; ++i) ok &= h.Uniform(0, 1) == q.Uniform(0, 1); CHECK("same-after-loading", ok, "a generator loaded from an archive does not restart the sequence of its seed"); }
}
GROUP(P03, tables, 800, 30000) { Rng & r = c.r; auto t = pool::gen_table(r, r.coin(0.3)); utilities::TableData1D<double> d; d.x = t.x; d.f = t.f; if(r.coin(0.3)) for(size_t i = d.x.size() - 1; i > 0; --i) { size_t j = r.i(i + 1); std::swap(d.x[i], d.x[j]); std::swap(d.f[i], d.f[j]); }
    ser::value("TableData1D", r, d, [](utilities::TableData1D<double> const & a, utilities::TableData1D<double> const & b) { return a.x == b.x && a.f == b.f; });
    utilities::Interpolator1D<double> I(d); ser::value("Interpolator1D", r, I, [&](utilities::Interpolator1D<double> const & a, utilities::Interpolator1D<double> const & b) { bool k = eqb(a.MinX(), b.MinX()) && eqb(a.MaxX(), b.MaxX()) && a.IsLog() == b.IsLog(); for(int i = 0; i < 12; ++i) { double x = r.u(t.a, t.b); k &= eqb(a(x), b(x)); } return k && a == b && !(a < b) && !(b < a); });
    auto t2 = pool::gen_table2(r); utilities::TableData2D<double> e; e.x = t2.x; e.y = t2.y; e.f = t2.f; ser::value("TableData2D", r, e, [](utilities::TableData2D<double> const & a, utilities::TableData2D<double> const & b) { return a.x == b.x && a.y == b.y && a.f == b.f; });
    utilities::Interpolator2D<double> J(e); ser::value("Interpolator2D", r, J, [&](utilities::Interpolator2D<double> const & a, utilities::Interpolator2D<double> const & b) { bool k = eqb(a.MinX(), b.MinX()) && eqb(a.MaxX(), b.MaxX()) && eqb(a.MinY(), b.MinY()) && eqb(a.MaxY(), b.MaxY()); for(int i = 0; i < 12; ++i) { double x = r.u(t2.gx.front(), t2.gx.back()), y = r.u(t2.gy.front(), t2.gy.back()); k &= eqb(a(x, y), b(x, y)); } return k && a == b; });
}
GROUP(P03, densities, 1500, 60000) { Rng & r = c.r; double L = r.lu(1e-2, 1e7); Prof p = genprof(r, L, true); bool radial = p.kind != 0 && r.coin(); auto P = [&] { return rdir(r) * (L * r.lu(1e-3, 10)); }; Vector3D ax = rdir(r) * r.lu(0.1, 10), p0 = P(); auto d = mkD(p, radial, ax, p0);
    ser::poly<DensityDistribution>(std::string(radial ? "radial " : "cartesian ") + KN[p.kind] + " density", r, d, [&](DensityDistribution const & a, DensityDistribution const & b) { CHECK("same-after-loading", a == b, "density differs after loading"); for(int k = 0; k < 6; ++k) { Vector3D x = P(), u = rdir(r), y = P(); double l = L * r.lu(1e-3, 5); bool ok = eqb(a.Evaluate(x), b.Evaluate(x)) && eqb(a.Derivative(x, u), b.Derivative(x, u)) && eqb(a.Integral(x, u, l), b.Integral(x, u, l)) && eqb(a.Integral(x, y), b.Integral(x, y)); double m = a.Integral(x, u, l) * 0.7; if(std::isfinite(m) && m > 0) { double ia, ib; try { ia = a.InverseIntegral(x, u, m, l); } catch(std::exception const &) { ia = -2; } try { ib = b.InverseIntegral(x, u, m, l); } catch(std::exception const &) { ib = -2; } ok &= eqb(ia, ib) || (std::isnan(ia) && std::isnan(ib)); } CHECK("same-after-loading", ok, "%s density behaves differently after loading", KN[p.kind]); } }, true, false);
    auto d1 = mk1(p); ser::poly<Distribution1D>(std::string(KN[p.kind]) + " profile", r, d1, [&](Distribution1D const & a, Distribution1D const & b) { bool ok = a == b; for(int k = 0; k < 6; ++k) { double x = L * r.u(-2, 2); ok &= eqb(a.Evaluate(x), b.Evaluate(x)) && eqb(a.Derivative(x), b.Derivative(x)) && eqb(a.AntiDerivative(x), b.AntiDerivative(x)); } CHECK("same-after-loading", ok, "%s profile differs after loading", KN[p.kind]); }, true, false);
    std::shared_ptr<Axis1D> A; if(radial) A = std::make_shared<RadialAxis1D>(p0); else A = std::make_shared<CartesianAxis1D>(ax, p0); ser::poly<Axis1D>(radial ? "RadialAxis1D" : "CartesianAxis1D", r, A, [&](Axis1D const & a, Axis1D const & b) { bool ok = a == b; for(int k = 0; k < 6; ++k) { Vector3D x = P(), u = rdir(r); ok &= eqb(a.GetX(x), b.GetX(x)) && eqb(a.GetdX(x, u), b.GetdX(x, u)); } CHECK("same-after-loading", ok, "axis differs after loading"); });
    if(p.kind >= 2) { // files of the first class version keep sigma alone: amplitude one, origin zero
        std::string j = ser::save(0, ExponentialDistribution1D(p.sig)); size_t a = j.find("\"Amplitude\""), b = j.find("\"value0\"", a); size_t v = j.find("\"cereal_class_version\": 1"); if(v != std::string::npos && a != std::string::npos && b != std::string::npos) { std::string o = j.substr(0, a) + j.substr(b); o.replace(v, 25, "\"cereal_class_version\": 0"); ExponentialDistribution1D x(3, 4, 5); std::string e = ser::tryload(0, o, x); CHECK("older-version-loads", e.empty(), "exponential profile of version 0: %s", e.c_str()); if(e.empty()) { double t = r.u(-1, 1) / std::fabs(p.sig); CHECK("older-version-loads", close(x.Evaluate(t), std::exp(p.sig * t), 1e-12), "exponential profile of version 0: %.12g at %g, expected %.12g", x.Evaluate(t), t, std::exp(p.sig * t)); } } else CHECK("older-version-loads", false, "layout of the exponential profile changed: %s", j.c_str()); }
}
GROUP(P03, materials, 300, 10000) { Rng & r = c.r; MaterialModel m; int n = r.ri(1, 5); std::vector<dc::ParticleType> N = {dc::ParticleType::HNucleus, dc::ParticleType::O16Nucleus, dc::ParticleType::C12Nucleus, dc::ParticleType::Ar40Nucleus, dc::ParticleType::Fe56Nucleus, dc::ParticleType::Pb208Nucleus, dc::ParticleType::Si28Nucleus}; for(int i = 0; i < n; ++i) { std::map<int, double> q; int k = r.ri(1, 4); double tot = 0; std::vector<double> w(k); for(double & x : w) tot += x = r.u(0.1, 1); for(int a = 0; a < k; ++a) q[(int)N[r.i(N.size())]] += w[a] / tot; double s = 0; for(auto & x : q) s += x.second; for(auto & x : q) x.second /= s; m.AddMaterial("M" + std::to_string(i), q); }
    ser::value("MaterialModel", r, m, [&](MaterialModel const & a, MaterialModel const & b) { bool ok = a == b; for(int i = 0; i < n; ++i) { std::string s = "M" + std::to_string(i); ok &= b.HasMaterial(s) && b.HasMaterial(i) && a.GetMaterialId(s) == b.GetMaterialId(s) && b.GetMaterialName(a.GetMaterialId(s)) == s; if(!ok) break; int id = a.GetMaterialId(s); auto ta = a.GetMaterialTargets(id), tb = b.GetMaterialTargets(id); ok &= ta == tb && eqb(a.GetMaterialRadiationLength(id), b.GetMaterialRadiationLength(id)) && a.GetTargetMassFraction(id, ta) == b.GetTargetMassFraction(id, ta) && a.GetTargetParticleFraction(id, ta) == b.GetTargetParticleFraction(id, ta) && a.GetTargetRadiationFraction(id, ta) == b.GetTargetRadiationFraction(id, ta); } return ok && !b.HasMaterial("M" + std::to_string(n)); }, false);
    { std::string j = ser::save(0, m); MaterialModel x; CHECK("newer-version-refused", !ser::tryload(0, ser::bump(j, 0), x).empty(), "MaterialModel of a newer version loaded"); std::string b = ser::save(1, m); MaterialModel y; CHECK("truncated-refused", !ser::tryload(1, b.substr(0, r.i(b.size())), y).empty(), "truncated material model loaded"); }
    { MaterialModel x; int f = r.i(3); if(ser::tryload(f, ser::save(f, m), x).empty()) { x.AddMaterial("NEW", {{(int)N[0], 1.0}}); CHECK("usable-after-loading", x.GetMaterialId("NEW") == n && x.GetMaterialId("M0") == 0, "material added to a loaded model gets number %d", x.GetMaterialId("NEW")); } }
}
// distributions: same reported density on records drawn from the original, same draws from the same seed, same normalisation
GROUP(P03, distributions, 1800, 60000) { Rng & r = c.r; int k = c.cas % pool::KN; auto d = pool::gen(r, k); if(auto pn = std::dynamic_pointer_cast<pool::PhysicallyNormalizedDistribution>(d)) { if(r.coin(0.4)) pn->SetNormalization(r.lu(1e-6, 1e6)); }
    dc::ParticleType t = r.coin() ? dc::ParticleType::NuMu : dc::ParticleType::NuEBar; bool renorm = k == pool::KCone || k == pool::KFixed; double tol = renorm ? 1e-14 : 0; uint64_t seed = r.next() % 1000000;
    auto cmp = [&](pool::WeightableDistribution const & a, pool::WeightableDistribution const & b) { CHECK("same-after-loading", renorm || a == b, "%s differs after loading", pool::name(k)); CHECK("same-after-loading", a.DensityVariables() == b.DensityVariables() && a.Name() == b.Name(), "%s: names differ", pool::name(k));
        auto pa = dynamic_cast<pool::PhysicallyNormalizedDistribution const *>(&a), pb = dynamic_cast<pool::PhysicallyNormalizedDistribution const *>(&b); CHECK("same-after-loading", !pa == !pb, "%s: normalisation lost", pool::name(k)); if(pa && pb) CHECK("same-after-loading", pa->IsNormalizationSet() == pb->IsNormalizationSet() && (!pa->IsNormalizationSet() || eqb(pa->GetNormalization(), pb->GetNormalization())), "%s: normalisation %d %.17g, after loading %d %.17g", pool::name(k), pa->IsNormalizationSet(), pa->IsNormalizationSet() ? pa->GetNormalization() : 0, pb->IsNormalizationSet(), pb->IsNormalizationSet() ? pb->GetNormalization() : 0);
        auto & da = dynamic_cast<pool::PrimaryInjectionDistribution const &>(a); auto & db = dynamic_cast<pool::PrimaryInjectionDistribution const &>(b); auto ra = pool::rng(seed), rb = pool::rng(seed); for(int i = 0; i < 4; ++i) { auto x = pool::draw(da, k, ra, t), y = pool::draw(db, k, rb, t); bool ok = mon::close(x.primary_mass, y.primary_mass, tol); for(int q = 0; q < 4; ++q) ok &= mon::close(x.primary_momentum[q], y.primary_momentum[q], tol, tol * std::fabs(x.primary_momentum[0])); for(int q = 0; q < 3; ++q) ok &= mon::close(x.primary_initial_position[q], y.primary_initial_position[q], tol) && mon::close(x.interaction_vertex[q], y.interaction_vertex[q], tol); CHECK("same-after-loading", ok, "%s: draw %d from seed %llu is another one after loading", pool::name(k), i, (unsigned long long)seed);
            double u = a.GenerationProbability(nullptr, nullptr, x), v = b.GenerationProbability(nullptr, nullptr, x); CHECK("same-after-loading", eqb(u, v) || (tol && mon::close(u, v, 1e-12)), "%s: density %.17g, after loading %.17g", pool::name(k), u, v); } };
    ser::poly<pool::PrimaryInjectionDistribution>(pool::name(k), r, d, cmp, !renorm); if(r.coin(0.3)) ser::poly<pool::WeightableDistribution>(std::string(pool::name(k)) + " as weightable", r, d, cmp, !renorm);
    if(r.coin(0.1)) { double n = r.lu(1e-10, 1e10); std::shared_ptr<pool::WeightableDistribution> q = std::make_shared<pool::NormalizationConstant>(n); ser::poly<pool::WeightableDistribution>("NormalizationConstant", r, q, [&](pool::WeightableDistribution const & a, pool::WeightableDistribution const & b) { CHECK("same-after-loading", a == b && eqb(dynamic_cast<pool::NormalizationConstant const &>(b).GetNormalization(), n) && dynamic_cast<pool::NormalizationConstant const &>(b).IsNormalizationSet(), "normalisation constant differs"); }); }
}
GROUP(P03, range_functions, 800, 30000) { Rng & r = c.r; double m = r.lu(1e-2, 10), w = r.lu(1e-22, 1e-12), mu = r.u(0.5, 10), mx = r.lu(1, 1e6); std::shared_ptr<distributions::RangeFunction> f = std::make_shared<distributions::DecayRangeFunction>(m, w, mu, mx); dc::ParticleType T[] = {dc::ParticleType::NuE, dc::ParticleType::NuMu, dc::ParticleType::NuTau, dc::ParticleType::NuTauBar, dc::ParticleType::N4};
    ser::poly<distributions::RangeFunction>("DecayRangeFunction", r, f, [&](distributions::RangeFunction const & a, distributions::RangeFunction const & b) { bool ok = a == b; for(int k = 0; k < 5; ++k) { double E = m * r.lu(1, 1e5); ok &= eqb(a(T[k], E), b(T[k], E)); } CHECK("same-after-loading", ok, "decay range function differs after loading"); });
    auto l = std::make_shared<distributions::LeptonDepthFunction>(); if(r.coin(0.8)) { l->SetMuParams(r.lu(1e-4, 1), r.lu(1e-5, 1)); l->SetTauParams(r.lu(1e-4, 1), r.lu(1e-5, 1)); l->SetScale(r.u(0.1, 3)); l->SetMaxDepth(r.lu(1, 1e8)); } std::shared_ptr<distributions::DepthFunction> g = l;
    ser::poly<distributions::DepthFunction>("LeptonDepthFunction", r, g, [&](distributions::DepthFunction const & a, distributions::DepthFunction const & b) { bool ok = a == b; auto & x = dynamic_cast<distributions::LeptonDepthFunction const &>(b); ok &= eqb(x.GetMuAlpha(), l->GetMuAlpha()) && eqb(x.GetMuBeta(), l->GetMuBeta()) && eqb(x.GetTauAlpha(), l->GetTauAlpha()) && eqb(x.GetTauBeta(), l->GetTauBeta()) && eqb(x.GetScale(), l->GetScale()) && eqb(x.GetMaxDepth(), l->GetMaxDepth()); dc::InteractionRecord q; for(int k = 0; k < 5; ++k) { double E = r.lu(1, 1e8); q.signature.primary_type = T[k]; ok &= eqb(a(T[k], E), b(T[k], E)); } CHECK("same-after-loading", ok, "lepton depth function differs after loading"); });
}
MON_MAIN
