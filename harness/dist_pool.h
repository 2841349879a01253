// Random but valid primary distributions of every kind that needs no detector, used by several harnesses.
#pragma once
#include "mon.h"
#include <memory>
#include <array>
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/distributions/Distributions.h"
#include "SIREN/distributions/primary/PrimaryExternalDistribution.h"
#include "SIREN/distributions/primary/direction/Cone.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#include "SIREN/distributions/primary/direction/IsotropicDirection.h"
#include "SIREN/distributions/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/distributions/primary/energy/PiDARNuEDistribution.h"
#include "SIREN/distributions/primary/energy/PowerLaw.h"
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include "SIREN/distributions/primary/helicity/PrimaryNeutrinoHelicityDistribution.h"
#include "SIREN/distributions/primary/mass/PrimaryMass.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Constants.h"
namespace pool {
using namespace siren::distributions; using siren::math::Vector3D; using mon::Rng;
typedef std::shared_ptr<PrimaryInjectionDistribution> DP;
typedef std::shared_ptr<siren::utilities::SIREN_random> RP;
inline RP rng(uint64_t s) { return std::make_shared<siren::utilities::SIREN_random>(s); }

struct Table { std::vector<double> x, f; bool log; double a, b; bool bounds; };
// sorted energy grid with at least 4 nodes: regular, log-regular or irregular; optionally zeros
inline Table gen_table(Rng & r, bool zeros) {
    Table t; int kind = r.ri(0, 2); int n = r.coin(0.2) ? r.ri(4, 8) : r.ri(20, 60);
    double lo = r.lu(1e-3, 1e2), hi = lo * r.lu(3, 300);
    double g = r.u(-1, 3), k = r.u(0, 6.28), amp = r.lu(1e-8, 1e3);
    t.log = kind == 1;
    double acc = 0; std::vector<double> st(n, 1.0); if(kind == 2) for(auto & s : st) s = r.lu(0.3, 3);
    double tot = 0; for(int i = 1; i < n; ++i) tot += st[i];
    for(int i = 0; i < n; ++i) { if(i) acc += st[i]; double q = acc / tot; double x = kind == 1 ? lo * std::pow(hi / lo, q) : lo + (hi - lo) * q; if(i == 0) x = lo; if(i == n - 1) x = hi;
        t.x.push_back(x); t.f.push_back(amp * std::pow(x / lo, -g) * (1.2 + std::sin(k + 5 * q))); }
    if(zeros) { int z = r.ri(0, n - 2), w = r.ri(1, 3); for(int i = z; i < std::min(n, z + w); ++i) t.f[i] = 0; bool any = false; for(double f : t.f) any |= f > 0; if(!any) t.f[n - 1] = amp; }
    t.bounds = r.coin(0.4); t.a = t.x.front(); t.b = t.x.back();
    if(t.bounds) { double w = t.b - t.a; if(r.coin()) { t.a += w * r.u(0, 0.4); t.b -= w * r.u(0, 0.4); } else { int i = r.ri(0, n / 2 - 1), j = r.ri(n / 2, n - 1); t.a = t.x[i]; t.b = t.x[j]; } }
    if(zeros) { bool any = false; for(int i = 0; i < n; ++i) any |= t.f[i] > 0 && t.x[i] >= t.a && t.x[i] <= t.b; if(!any) { t.bounds = false; t.a = t.x.front(); t.b = t.x.back(); } }
    return t;
}
inline std::shared_ptr<TabulatedFluxDistribution> make(Table const & t, bool phys, bool romb) {
    std::vector<double> x = t.x, f = t.f;
    return t.bounds ? std::make_shared<TabulatedFluxDistribution>(t.a, t.b, x, f, phys, romb) : std::make_shared<TabulatedFluxDistribution>(x, f, phys, romb);
}
struct Table2 { std::vector<double> x, y, f, gx, gy; double a, b, ca, cb; int bounds; bool logx; };
inline Table2 gen_table2(Rng & r) {
    Table2 t; int nx = r.ri(3, 12), ny = r.ri(3, 9); t.logx = r.coin();
    double lo = r.lu(1e-2, 1e2), hi = lo * r.lu(2, 30), c0 = r.coin(0.5) ? -1 : r.u(-1, 0), c1 = r.coin(0.5) ? 1 : r.u(0.1, 1);
    bool irr = r.coin(0.3);
    double g = r.u(-0.5, 1.5), s = r.u(-0.8, 0.8), amp = r.lu(1e-10, 1e2), k = r.u(0, 6.28);
    std::vector<double> gx(nx), gy(ny);
    for(int i = 0; i < nx; ++i) { double q = double(i) / (nx - 1); if(irr && i > 0 && i < nx - 1) q += 0.3 / nx * r.u(-1, 1); gx[i] = t.logx ? lo * std::pow(hi / lo, q) : lo + (hi - lo) * q; }
    for(int i = 0; i < ny; ++i) { double q = double(i) / (ny - 1); if(irr && i > 0 && i < ny - 1) q += 0.3 / ny * r.u(-1, 1); gy[i] = c0 + (c1 - c0) * q; }
    gy[0] = c0; gy[ny-1] = c1; gx[0] = lo; gx[nx-1] = hi;
    for(int i = 0; i < nx; ++i) for(int j = 0; j < ny; ++j) { t.x.push_back(gx[i]); t.y.push_back(gy[j]); t.f.push_back(amp * std::pow(gx[i] / lo, -g) * (1 + s * gy[j]) * (1.3 + std::sin(k + i + 0.7 * j))); }
    if(r.coin(0.5)) for(size_t i = t.x.size() - 1; i > 0; --i) { size_t j = r.i(i + 1); std::swap(t.x[i], t.x[j]); std::swap(t.y[i], t.y[j]); std::swap(t.f[i], t.f[j]); }
    t.gx = gx; t.gy = gy; t.a = lo; t.b = hi; t.ca = c0; t.cb = c1; t.bounds = r.ri(0, 2);
    if(t.bounds >= 1) { double w = hi - lo; t.a += w * r.u(0, 0.3); t.b -= w * r.u(0, 0.3); }
    if(t.bounds >= 2) { double w = c1 - c0; t.ca += w * r.u(0, 0.3); t.cb -= w * r.u(0, 0.3); }
    return t;
}
inline std::shared_ptr<Tabulated2DFluxDistribution> make(Table2 const & t, bool phys) {
    std::vector<double> x = t.x, y = t.y, f = t.f;
    if(t.bounds == 0) return std::make_shared<Tabulated2DFluxDistribution>(x, y, f, phys);
    if(t.bounds == 1) return std::make_shared<Tabulated2DFluxDistribution>(t.a, t.b, x, y, f, phys);
    return std::make_shared<Tabulated2DFluxDistribution>(t.a, t.b, t.ca, t.cb, x, y, f, phys);
}
inline std::string tmpfile(std::string const & content) {
    static int n = 0; std::string p = mon::fmt("pool_%d_%d.txt", (int)getpid(), n++); std::ofstream(p) << content; return p;
}
struct Moyal { double a, b, mu, sg, A, l, B; };
inline Moyal gen_moyal(Rng & r) { Moyal m; m.a = r.u(0.01, 2); m.b = m.a * r.lu(2, 20); m.mu = r.u(m.a, m.b); m.sg = r.u(0.1, 1) * (m.b - m.a) / 3; m.A = r.u(0.2, 3); m.l = r.u(0.1, 1) * (m.b - m.a); m.B = r.coin(0.2) ? 0 : r.u(0.1, 3); return m; }
inline Vector3D gen_dir(Rng & r, bool unit) { double x, y, z; r.dir(x, y, z); double s = unit ? 1 : r.lu(0.1, 50); return Vector3D(s * x, s * y, s * z); }
inline std::string gen_csv(Rng & r, int & rows, double emin, std::vector<std::string> & keys, std::vector<std::vector<double>> & data) {
    std::vector<std::string> cand; if(r.coin(0.6)) { cand.insert(cand.end(), {"x0", "y0", "z0"}); } if(r.coin(0.6)) cand.insert(cand.end(), {"x", "y", "z"}); if(r.coin(0.7)) cand.insert(cand.end(), {"px", "py", "pz"});
    if(r.coin(0.8)) cand.push_back("E"); if(r.coin(0.3)) cand.push_back("t0"); if(r.coin(0.4)) cand.push_back("m"); if(r.coin(0.5)) cand.push_back("weight"); if(r.coin(0.3)) cand.push_back("nu_parent");
    if(cand.empty()) cand.push_back("E");
    for(size_t i = cand.size() - 1; i > 0; --i) std::swap(cand[i], cand[r.i(i + 1)]);
    keys = cand; std::string s; for(size_t i = 0; i < keys.size(); ++i) s += (i ? (r.coin(0.3) ? ", " : ",") : "") + keys[i]; s += r.coin(0.2) ? "\r\n" : "\n";
    int n = r.ri(1, 12); rows = 0; data.clear();
    for(int k = 0; k < n; ++k) { if(r.coin(0.1)) s += "# comment\n"; if(r.coin(0.1)) s += "\n"; std::vector<double> row; bool pass = true;
        for(size_t i = 0; i < keys.size(); ++i) { double v = r.u(-10, 10); if(keys[i] == "E") { v = r.u(0, 10); if(k == n - 1 && rows == 0) v = std::max(v, emin + 0.5); if(k == 0 && r.coin(0.3)) v = emin; if(v < emin) pass = false; } if(keys[i] == "m") v = r.u(0, 1); v = std::strtod(mon::fmt("%.17g", v).c_str(), 0); row.push_back(v); s += (i ? "," : "") + mon::fmt("%.17g", v); }
        s += "\n"; if(pass) { ++rows; data.push_back(row); } }
    return s;
}
enum Kind { KPower, KMono, KPiDAR, KMoyal, KTab, KTab2, KCone, KFixed, KIso, KMass, KHel, KExt, KN };
inline char const * name(int k) { static char const * n[] = {"PowerLaw", "Monoenergetic", "PiDAR", "Moyal", "TabulatedFlux", "Tabulated2DFlux", "Cone", "FixedDirection", "Isotropic", "PrimaryMass", "Helicity", "External"}; return n[k]; }
inline double gen_index(Rng & r) { if(r.coin(0.25)) return 1 + r.sgn() * r.lu(1e-8, 0.2); return r.coin(0.5) ? r.pick({0.0, 1.0, 2.0, -1.0, 1.0 + 1e-6, 2.7, 3.0, -2.0}) : r.u(-2, 4); }
inline DP gen(Rng & r, int k) {
    switch(k) {
        case KPower: { double a = r.lu(1e-3, 1e3); double b = r.coin(0.1) ? a : a * r.lu(1.01, 1e4); auto d = std::make_shared<PowerLaw>(gen_index(r), a, b); if(r.coin(0.3)) d->SetNormalizationAtEnergy(r.lu(1e-3, 1e3), r.u(a, b)); return d; }
        case KMono: return std::make_shared<Monoenergetic>(r.lu(1e-3, 1e5));
        case KPiDAR: return std::make_shared<PiDARNuEDistribution>();
        case KMoyal: { Moyal m = gen_moyal(r); return std::make_shared<ModifiedMoyalPlusExponentialEnergyDistribution>(m.a, m.b, m.mu, m.sg, m.A, m.l, m.B, r.coin()); }
        case KTab: return make(gen_table(r, r.coin(0.3)), r.coin(), false);
        case KTab2: return make(gen_table2(r), r.coin());
        case KCone: return std::make_shared<Cone>(gen_dir(r, r.coin()), r.coin(0.2) ? r.pick({M_PI / 2, M_PI, 0.1}) : r.u(0.01, 3.1));
        case KFixed: return std::make_shared<FixedDirection>(gen_dir(r, r.coin()));
        case KIso: return std::make_shared<IsotropicDirection>();
        case KMass: return std::make_shared<PrimaryMass>(r.coin(0.2) ? 0 : r.lu(1e-3, 10));
        case KHel: return std::make_shared<PrimaryNeutrinoHelicityDistribution>();
        default: { int rows; std::vector<std::string> keys; std::vector<std::vector<double>> data; double emin = r.coin() ? 0 : r.u(0, 5); std::string f = tmpfile(gen_csv(r, rows, emin, keys, data)); std::shared_ptr<PrimaryExternalDistribution> d; if(rows == 0) { std::ofstream(f) << "E\n9\n"; } d = std::make_shared<PrimaryExternalDistribution>(f, emin); unlink(f.c_str()); return d; }
    }
}
// one finalised record of a distribution: what it does not set is filled with fixed values
inline siren::dataclasses::InteractionRecord draw(PrimaryInjectionDistribution const & d, int k, RP rand, siren::dataclasses::ParticleType type) {
    siren::dataclasses::PrimaryDistributionRecord rec(type);
    if(k == KExt) {
        d.Sample(rand, nullptr, nullptr, rec);
        siren::dataclasses::InteractionRecord out; out.signature.primary_type = type;
        auto get = [&](std::function<double()> f) { try { return f(); } catch(std::exception const &) { return -12345.0; } };
        out.primary_momentum = {get([&]{return rec.GetEnergy();}), get([&]{return rec.GetThreeMomentum()[0];}), get([&]{return rec.GetThreeMomentum()[1];}), get([&]{return rec.GetThreeMomentum()[2];})};
        out.primary_initial_position = {get([&]{return rec.GetInitialPosition()[0];}), get([&]{return rec.GetInitialPosition()[1];}), get([&]{return rec.GetInitialPosition()[2];})};
        out.interaction_vertex = {get([&]{return rec.GetInteractionVertex()[0];}), get([&]{return rec.GetInteractionVertex()[1];}), get([&]{return rec.GetInteractionVertex()[2];})};
        out.primary_mass = get([&]{return rec.GetMass();}); return out;
    }
    if(k != KMass) rec.SetMass(0);
    if(k == KCone || k == KFixed || k == KIso || k == KMass || k == KHel) rec.SetEnergy(20);
    if(k != KCone && k != KFixed && k != KIso && k != KTab2) rec.SetDirection(std::array<double, 3>{0, 0.6, 0.8});
    rec.SetInitialPosition(std::array<double, 3>{0, 0, 0}); rec.SetInteractionVertex(std::array<double, 3>{0, 0, 1});
    d.Sample(rand, nullptr, nullptr, rec);
    siren::dataclasses::InteractionRecord out; out.signature.primary_type = type;
    out.primary_initial_position = {0, 0, 0};
    out.primary_mass = rec.GetMass(); out.primary_helicity = rec.GetHelicity();
    auto dir = rec.GetDirection(); double e = rec.GetEnergy(), p = std::sqrt(std::max(0.0, e * e - out.primary_mass * out.primary_mass));
    out.primary_momentum = {e, p * dir[0], p * dir[1], p * dir[2]};
    return out;
}
inline siren::dataclasses::InteractionRecord rec_E(double e) { siren::dataclasses::InteractionRecord r; r.signature.primary_type = siren::dataclasses::ParticleType::NuMu; r.primary_mass = 0; r.primary_momentum = {e, 0, 0.6 * e, 0.8 * e}; r.primary_helicity = -0.5; return r; }
inline siren::dataclasses::InteractionRecord rec_Edir(double e, double x, double y, double z) { auto r = rec_E(e); r.primary_momentum = {e, e * x, e * y, e * z}; return r; }
inline double prob(WeightableDistribution const & d, siren::dataclasses::InteractionRecord const & r) { return d.GenerationProbability(nullptr, nullptr, r); }
} // namespace pool
