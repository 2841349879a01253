// Shared by the interaction harnesses: four-vectors, records, sampling and conservation monitors.
#pragma once
#include "mon.h"
#include <SIREN/dataclasses/InteractionRecord.h>
#include <SIREN/dataclasses/InteractionSignature.h>
#include <SIREN/dataclasses/Particle.h>
#include <SIREN/dataclasses/ParticleMasses.h>
#include <SIREN/utilities/Constants.h>
#include <SIREN/utilities/Random.h>
#include <SIREN/interactions/Decay.h>
#include <SIREN/interactions/CrossSection.h>
using namespace siren; using siren::dataclasses::ParticleType; using siren::dataclasses::InteractionRecord; using siren::dataclasses::InteractionSignature; using siren::dataclasses::CrossSectionDistributionRecord;
namespace K = siren::utilities::Constants;
typedef ParticleType PT; typedef long double L;
typedef std::shared_ptr<utilities::SIREN_random> Rnd;
static inline Rnd rng(uint64_t s) { return std::make_shared<utilities::SIREN_random>((unsigned)(s % 4000000000u)); }
struct V4 { L e = 0, x = 0, y = 0, z = 0;
    V4() {} V4(L e_, L x_, L y_, L z_) : e(e_), x(x_), y(y_), z(z_) {} V4(std::array<double, 4> const & a) : e(a[0]), x(a[1]), y(a[2]), z(a[3]) {}
    V4 operator+(V4 const & o) const { return {e + o.e, x + o.x, y + o.y, z + o.z}; } V4 operator-(V4 const & o) const { return {e - o.e, x - o.x, y - o.y, z - o.z}; }
    L p2() const { return x * x + y * y + z * z; } L p() const { return sqrtl(p2()); } L m2() const { return (e - p()) * (e + p()); } L dot3(V4 const & o) const { return x * o.x + y * o.y + z * o.z; } L dot(V4 const & o) const { return e * o.e - dot3(o); }
    V4 scale(L s) const { return {e * s, x * s, y * s, z * s}; } };
// put the energy on the mass shell (the records keep it rounded)
static inline V4 shell(V4 v, L m) { v.e = sqrtl(v.p2() + m * m); return v; }
// v seen in the rest frame of P (mass M)
static inline V4 rest(V4 v, V4 P, L M) { L pv = v.dot3(P), es = (P.e * v.e - pv) / M, f = -v.e / M + pv / (M * (P.e + M)); return {es, v.x + f * P.x, v.y + f * P.y, v.z + f * P.z}; }
static inline V4 unrest(V4 v, V4 P, L M) { return rest(v, {P.e, -P.x, -P.y, -P.z}, M); }
// polar cosine and azimuth about the axis of P
static inline void angles(V4 v, V4 P, double & c, double & phi) { L n = P.p(); L ux = P.x / n, uy = P.y / n, uz = P.z / n; L par = v.x * ux + v.y * uy + v.z * uz; c = (double)(par / v.p()); if(c > 1) c = 1; if(c < -1) c = -1;
    L ax, ay, az; if(fabsl(uz) < 0.7) { ax = -uy; ay = ux; az = 0; } else { ax = 0; ay = -uz; az = uy; } L an = sqrtl(ax * ax + ay * ay + az * az); ax /= an; ay /= an; az /= an; L bx = uy * az - uz * ay, by = uz * ax - ux * az, bz = ux * ay - uy * ax;
    phi = atan2((double)(v.x * bx + v.y * by + v.z * bz), (double)(v.x * ax + v.y * ay + v.z * az)); }
static inline InteractionRecord mkrec(InteractionSignature const & s, double mass, double p, double dx, double dy, double dz, double hel, double tmass = 0) { InteractionRecord r; r.signature = s; r.primary_mass = mass; r.primary_momentum = {std::sqrt(p * p + mass * mass), p * dx, p * dy, p * dz}; r.primary_helicity = hel; r.target_mass = tmass; return r; }
template<class X> static InteractionRecord sample(X const & x, InteractionRecord const & r, Rnd const & rnd, double tm = -1) { CrossSectionDistributionRecord cr(r); if(tm >= 0) cr.SetTargetMass(tm); x.SampleFinalState(cr, rnd); InteractionRecord o = r; cr.Finalize(o); return o; }
static inline std::string pname(PT t) { auto it = dataclasses::ParticleTypeNames.find(t); return it == dataclasses::ParticleTypeNames.end() ? std::to_string((int)t) : it->second; }
static inline std::string signame(InteractionSignature const & s) { std::string o = pname(s.primary_type) + ">"; for(auto t : s.secondary_types) o += pname(t) + ","; return o; }
// monitors of one sampled final state. masses < 0: not checked
static inline void conserve(std::string const & tag, InteractionRecord const & o, double tmass, std::vector<double> const & masses, double rel = 3e-8) {
    V4 P = shell(V4(o.primary_momentum), o.primary_mass), T(P.e + tmass, P.x, P.y, P.z), S; bool fin = true; size_t n = o.signature.secondary_types.size();
    CHECK("secondary-count", o.secondary_momenta.size() == n && o.secondary_masses.size() == n && o.secondary_helicities.size() == n, "%s: %zu secondaries of %zu in the signature", tag.c_str(), o.secondary_momenta.size(), n); if(o.secondary_momenta.size() != n || o.secondary_masses.size() != n) return;
    for(size_t k = 0; k < n; ++k) { auto const & m = o.secondary_momenta[k]; for(double v : m) fin &= std::isfinite(v); fin &= std::isfinite(o.secondary_masses[k]) && std::isfinite(o.secondary_helicities[k]); }
    CHECK("finite-final-state", fin, "%s: non-finite secondary (primary E %.17g m %g target %g)", tag.c_str(), (double)P.e, o.primary_mass, tmass); if(!fin) return;
    L sc = T.e;
    for(size_t k = 0; k < n; ++k) { V4 v(o.secondary_momenta[k]); S = S + v; L m = o.secondary_masses[k];
        CHECK("on-shell", v.e >= 0 && m >= 0 && fabsl(v.m2() - m * m) <= 1e-11L * v.e * v.e + 1e-12L * sc * sc + 1e-14L, "%s: secondary %zu has E %.17Lg p %.17Lg mass %.17Lg: m2 off by %.3Lg", tag.c_str(), k, v.e, v.p(), m, v.m2() - m * m);
        if(k < masses.size() && masses[k] >= 0) { L t = masses[k]; CHECK("secondary-mass", fabsl(m * m - t * t) <= 1e-9L * t * t + 1e-12L * sc * sc, "%s: secondary %zu has mass %.12Lg, expected %.12Lg (E %.6Lg)", tag.c_str(), k, m, t, v.e); } }
    L de = fabsl(S.e - T.e), dp = (S - T).p(); mon::peak("energy defect/E", (double)(de / sc)); mon::peak("momentum defect/E", (double)(dp / sc));
    CHECK("energy-conserved", de <= rel * sc, "%s: initial energy %.15Lg, final %.15Lg (defect %.3Lg of it; primary mass %g p %.6Lg)", tag.c_str(), T.e, S.e, de / sc, o.primary_mass, P.p());
    CHECK("momentum-conserved", dp <= rel * sc, "%s: momentum defect %.6Lg at energy %.15Lg (primary mass %g)", tag.c_str(), dp, T.e, o.primary_mass);
    L M2 = o.primary_mass * (L)o.primary_mass + 2 * P.e * tmass + (L)tmass * tmass; CHECK("invariant-mass", fabsl(S.m2() - M2) <= 1e-7L * M2 + 1e-11L * sc * sc, "%s: final invariant mass squared %.12Lg, initial %.12Lg (E %.6Lg, direction %.9Lg %.9Lg %.9Lg)", tag.c_str(), S.m2(), M2, T.e, P.x / P.p(), P.y / P.p(), P.z / P.p());
}
static inline double kslim(double n) { return std::sqrt(std::log(2e11) / (2 * n)); }
static inline void isoazimuth(std::string const & tag, std::vector<double> const & phi) { double d = mon::ks(phi, [](double x) { return (x + M_PI) / (2 * M_PI); }); CHECK("azimuth-uniform", d < kslim(phi.size()), "%s: azimuth about the primary is not uniform: KS %.4f over %zu", tag.c_str(), d, phi.size()); }
