// Interactions with known totals, and the stretch of a line where they may be placed (shared by h_vertex and h_inject).
#pragma once
#include "pathref.h"
#include "SIREN/interactions/CrossSection.h"
#include "SIREN/interactions/Decay.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/utilities/Errors.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/distributions/primary/vertex/CylinderVolumePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/SphereVolumePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/PointSourcePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/ColumnDepthPositionDistribution.h"
#include "SIREN/distributions/primary/vertex/RangePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/DecayRangePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/DecayRangeFunction.h"
#include "SIREN/distributions/primary/vertex/LeptonDepthFunction.h"
#include "SIREN/distributions/primary/vertex/FixedTargetPositionDistribution.h"
#include "SIREN/distributions/primary/vertex/PrimaryBoundedVertexDistribution.h"
#include "SIREN/distributions/primary/vertex/PrimaryPhysicalVertexDistribution.h"
#include "SIREN/distributions/secondary/vertex/SecondaryBoundedVertexDistribution.h"
#include "SIREN/distributions/secondary/vertex/SecondaryPhysicalVertexDistribution.h"
namespace sd = siren::distributions; namespace si = siren::interactions; namespace sc = siren::dataclasses; using sc::InteractionRecord; using sc::InteractionSignature; typedef std::shared_ptr<siren::utilities::SIREN_random> Rnd; typedef std::shared_ptr<si::InteractionCollection const> ICP;
// a cross section and a decay whose totals are known in closed form from what the record of the primary holds
// the first secondary takes a fraction y of the momentum, with a density (a + 1) y^a
static double massof(PT t) { return t == PT::N4 ? 0.1 : 0; }
static void split(sc::CrossSectionDistributionRecord & r, Rnd rnd, double a) { double y = std::pow(rnd->Uniform(0, 1), 1 / (a + 1)); auto P = r.GetPrimaryMomentum(); for(int i = 0; i < 2; ++i) { double f = i ? 1 - y : y, m = massof(r.GetSignature().secondary_types[i]); double x = f * P[1], z = f * P[2], w = f * P[3]; auto & s = r.GetSecondaryParticleRecord(i); s.SetMass(m); s.SetFourMomentum({std::sqrt(m * m + x * x + z * z + w * w), x, z, w}); s.SetHelicity(i ? -0.5 : 0.5); } r.SetInteractionParameter("y", y); }
struct MyXs : si::CrossSection { PT prim; std::map<PT, std::vector<double>> s; double k = 0, a = 0, dt = 0; PT out[3] = {PT::NuE, PT::NuMu, PT::NuTau};
    double SampleInteractionTime(sc::CrossSectionDistributionRecord const & r, Rnd) const override { return r.GetInteractionTime() + dt; }
    static double f(double E, double p, double m, double tm, double k) { return (1 + k * std::log1p(E)) * (1 + k * p / E) * (1 + k * m) * (1 + k * tm); }
    InteractionSignature sig(PT p, PT t, int j) const { InteractionSignature g; g.primary_type = p; g.target_type = t; g.secondary_types = {out[j], t}; return g; }
    bool equal(si::CrossSection const & o) const override { auto x = dynamic_cast<MyXs const *>(&o); return x && x->prim == prim && x->s == s && x->k == k && x->a == a && x->dt == dt && x->out[0] == out[0] && x->out[1] == out[1] && x->out[2] == out[2]; }
    double TotalCrossSection(InteractionRecord const & r) const override { auto i = s.find(r.signature.target_type); if(i == s.end() || r.signature.primary_type != prim) return 0; auto g = GetPossibleSignaturesFromParents(prim, i->first); for(size_t j = 0; j < g.size(); ++j) if(g[j] == r.signature) { auto & P = r.primary_momentum; return i->second[j] * f(P[0], std::sqrt(P[1] * P[1] + P[2] * P[2] + P[3] * P[3]), r.primary_mass, r.target_mass, k); } return 0; }
    double DifferentialCrossSection(InteractionRecord const & r) const override { return TotalCrossSection(r); } double InteractionThreshold(InteractionRecord const &) const override { return 0; } void SampleFinalState(sc::CrossSectionDistributionRecord & r, Rnd rnd) const override { split(r, rnd, a); }
    std::vector<PT> GetPossibleTargets() const override { std::vector<PT> v; for(auto & x : s) v.push_back(x.first); return v; } std::vector<PT> GetPossibleTargetsFromPrimary(PT p) const override { return p == prim ? GetPossibleTargets() : std::vector<PT>(); } std::vector<PT> GetPossiblePrimaries() const override { return {prim}; }
    std::vector<InteractionSignature> GetPossibleSignatures() const override { std::vector<InteractionSignature> v; for(auto & x : s) for(size_t j = 0; j < x.second.size(); ++j) v.push_back(sig(prim, x.first, (int)j)); return v; }
    std::vector<InteractionSignature> GetPossibleSignaturesFromParents(PT p, PT t) const override { std::vector<InteractionSignature> v; auto i = s.find(t); if(i != s.end() && p == prim) for(size_t j = 0; j < i->second.size(); ++j) v.push_back(sig(p, t, (int)j)); return v; }
    double FinalStateProbability(InteractionRecord const & r) const override { auto i = r.interaction_parameters.find("y"); return i == r.interaction_parameters.end() ? 1 : (a + 1) * std::pow(i->second, a); } std::vector<std::string> DensityVariables() const override { return {}; } };
struct MyDecay : si::Decay { PT prim; double G, a = 0, dt = 0; PT out = PT::NuE;
    double SampleDecayTime(sc::CrossSectionDistributionRecord const & r, Rnd) const override { return r.GetInteractionTime() + dt; }
    bool equal(si::Decay const & o) const override { auto x = dynamic_cast<MyDecay const *>(&o); return x && x->prim == prim && x->G == G && x->a == a && x->dt == dt && x->out == out; }
    double TotalDecayWidthAllFinalStates(InteractionRecord const & r) const override { return r.signature.primary_type == prim ? G : 0; } double TotalDecayWidth(PT p) const override { return p == prim ? G : 0; } double TotalDecayWidth(InteractionRecord const & r) const override { return TotalDecayWidthAllFinalStates(r); } double DifferentialDecayWidth(InteractionRecord const & r) const override { return TotalDecayWidthAllFinalStates(r); } void SampleFinalState(sc::CrossSectionDistributionRecord & r, Rnd rnd) const override { split(r, rnd, a); }
    std::vector<InteractionSignature> GetPossibleSignatures() const override { InteractionSignature g; g.primary_type = prim; g.target_type = PT::Decay; g.secondary_types = {out, PT::Gamma}; return {g}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParent(PT p) const override { return p == prim ? GetPossibleSignatures() : std::vector<InteractionSignature>(); }
    double FinalStateProbability(InteractionRecord const & r) const override { auto i = r.interaction_parameters.find("y"); return i == r.interaction_parameters.end() ? 1 : (a + 1) * std::pow(i->second, a); } std::vector<std::string> DensityVariables() const override { return {}; } };
struct MyRange : sd::RangeFunction { double l; MyRange(double x) : l(x) {} double operator()(PT const & t, double E) const override { return l * (1 + 0.1 * std::log1p(E)) * (t == PT::NuMu ? 1 : 1.5); } bool equal(sd::RangeFunction const & o) const override { auto x = dynamic_cast<MyRange const *>(&o); return x && x->l == l; } bool less(sd::RangeFunction const & o) const override { auto x = dynamic_cast<MyRange const *>(&o); return x && l < x->l; } };
struct MyDepth : sd::DepthFunction { double l; MyDepth(double x) : l(x) {} double operator()(PT const & t, double E) const override { return l * (1 + 0.1 * std::log1p(E)) * (t == PT::NuMu ? 1 : 1.5); } bool equal(sd::DepthFunction const & o) const override { auto x = dynamic_cast<MyDepth const *>(&o); return x && x->l == l; } bool less(sd::DepthFunction const & o) const override { auto x = dynamic_cast<MyDepth const *>(&o); return x && l < x->l; } };
struct Prim { PT type; double m, E, p; Vector3D d; };
struct Inter { ICP c; Xs x; };   // the collection, and the totals to expect for the primary
static Prim rprim(Rng & r) { Prim q; q.type = r.pick({PT::NuMu, PT::N4, PT::NuE}); q.m = q.type == PT::N4 ? r.lu(1e-3, 2) : 0; q.p = r.lu(1e-2, 1e5); q.E = std::sqrt(q.p * q.p + q.m * q.m); q.d = r.coin(0.2) ? Vector3D(r.pick({Vector3D(0, 0, 1), Vector3D(0, 0, -1), Vector3D(1, 0, 0), Vector3D(0, -1, 0)})) : rv(r, 1); q.d.normalize(); return q; }
static Inter rinter(Rng & r, Ref const & R, Prim const & q, bool nothing = false) { Inter o; Xs x; std::vector<std::shared_ptr<si::CrossSection>> X; std::vector<std::shared_ptr<si::Decay>> D; if(nothing) { o.c = std::make_shared<si::InteractionCollection>(q.type, X, D); o.x.L = INFINITY; return o; } x = rxs(r, R.S); double scale = r.coin(0.3) ? r.lu(1e-12, 1e-3) : 1; std::map<PT, double> tot; size_t n = x.t.empty() ? 0 : 1 + r.i(2); for(size_t i = 0; i < n; ++i) { auto s = std::make_shared<MyXs>(); s->prim = q.type; s->k = r.coin() ? 0 : r.u(0, 1); for(size_t j = 0; j < x.t.size(); ++j) { if(i > 0 && r.coin()) continue; int m = r.ri(1, 3); for(int z = 0; z < m; ++z) s->s[x.t[j]].push_back(x.s[j] * scale * r.u(0.1, 1)); double sum = 0; for(double y : s->s[x.t[j]]) sum += y; tot[x.t[j]] += sum * MyXs::f(q.E, q.p, q.m, R.m->GetTargetMass(x.t[j]), s->k); } X.push_back(s); }
    o.x.L = INFINITY; if(q.m > 0 && (X.empty() || r.coin(0.6))) { int m = r.ri(1, 2); double inv = 0; for(int i = 0; i < m; ++i) { auto d = std::make_shared<MyDecay>(); d->prim = q.type; double len = R.S * r.lu(0.1, 1e4) / scale; d->G = q.p / q.m * siren::utilities::Constants::hbarc / len; inv += 1 / len; D.push_back(d); } o.x.L = 1 / inv; }
    for(auto & t : tot) { o.x.t.push_back(t.first); o.x.s.push_back(t.second); } o.c = std::make_shared<si::InteractionCollection>(q.type, X, D); return o; }
// the stretch of a line (detector frame, from o along d) where interactions may be placed
struct Stretch { LD a = 0, b = 0; bool none = false, unsure = false; };
static Stretch region(Ref const & R, P3 o, Vector3D const & w, LD back, LD len, Solid const * fid, Vector3D const & od, Vector3D const & dd) { Stretch g; LD lo = INFINITY, hi = -INFINITY, e = 1e-5 * R.S + 1e-8 * (sqrtl(o.x * o.x + o.y * o.y + o.z * o.z) + R.S); auto near = [&](LD x, LD y) { if(std::isfinite((double)x) && std::isfinite((double)y) && fabsl(x - y) < e) g.unsure = true; }; for(auto & z : R.v) if(!z.inf) for(auto & h : z.s.g->Intersections(vec(o), w)) { lo = std::min(lo, (LD)h.distance); hi = std::max(hi, (LD)h.distance); } near(lo, -back); near(hi, -back); near(lo, len); near(hi, len); g.a = std::max(-back, lo); g.b = std::min(len, hi); g.none = !(g.b > g.a);
    if(fid) { LD f0 = INFINITY, f1 = -INFINITY; for(auto & h : fid->g->Intersections(od, dd)) { f0 = std::min(f0, (LD)h.distance); f1 = std::max(f1, (LD)h.distance); } near(f0, 0); near(f1, 0); near(f0, len); near(f1, len); if(f1 > f0 && f0 < len && f1 > 0) { g.a = std::max((LD)0, f0); g.b = std::min(len, f1); g.none = false; } } return g; }
static void pit(char const * cls, char const * what, double u) { static std::map<std::string, std::pair<std::vector<double>, size_t>> P; auto & p = P[std::string(cls) + " " + what]; p.first.push_back(u); if(p.first.size() >= 200 && p.first.size() >= 2 * p.second) { p.second = p.first.size(); double d = ks(p.first, [](double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }), lim = std::sqrt(std::log(2e11) / (2. * p.first.size())); CHECK("sample-distribution", d < lim, "%s: the %s of %zu samples does not follow the density: KS %.4f > %.4f", cls, what, p.first.size(), d, lim); obs(std::string("KS tests ") + cls); } }
static double fr(LD x) { return (double)(x < 0 ? 0 : x > 1 ? 1 : x); }
typedef std::shared_ptr<sd::VertexPositionDistribution> VD; typedef std::shared_ptr<sd::SecondaryVertexPositionDistribution> SVD;
static sc::PrimaryDistributionRecord prec(Prim const & q) { sc::PrimaryDistributionRecord p(q.type); p.SetMass(q.m); p.SetEnergy(q.E); p.SetDirection({q.d.GetX(), q.d.GetY(), q.d.GetZ()}); return p; }
static InteractionRecord irec(Prim const & q, Vector3D const & init, Vector3D const & v) { InteractionRecord i; i.signature.primary_type = q.type; i.primary_mass = q.m; i.primary_momentum = {q.E, q.p * q.d.GetX(), q.p * q.d.GetY(), q.p * q.d.GetZ()}; i.primary_initial_position = {init.GetX(), init.GetY(), init.GetZ()}; i.interaction_vertex = {v.GetX(), v.GetY(), v.GetZ()}; return i; }
static bool tame(Ref const & R) { return R.S > 1; }   // bounds are only kept to a millimetre
