#pragma once
// a detector, what particles do in it, and injectors for it
#include "vertexref.h"
#include "SIREN/dataclasses/InteractionTree.h"
#include "SIREN/injection/Injector.h"
#include "SIREN/injection/Process.h"
#define SIREN_Weighter_TCC   // its definitions are in the library
#include "SIREN/injection/Weighter.h"
#include "SIREN/injection/WeightingUtils.h"
#include "SIREN/distributions/primary/energy/PowerLaw.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#undef SIREN_Cone_H   // the solid of the same name has the same include guard
#include "SIREN/distributions/primary/direction/Cone.h"
#include "SIREN/distributions/primary/direction/IsotropicDirection.h"
#include "SIREN/distributions/primary/mass/PrimaryMass.h"
#include "SIREN/distributions/primary/helicity/PrimaryNeutrinoHelicityDistribution.h"
namespace sj = siren::injection; using sc::InteractionTree; using sc::InteractionTreeDatum; typedef std::shared_ptr<si::InteractionCollection> ICM; typedef std::shared_ptr<sd::PrimaryInjectionDistribution> PD; typedef std::shared_ptr<sd::WeightableDistribution> WD;
static const PT CASC[] = {PT::NuE, PT::N4, PT::NuTau, PT::Gamma};
// what one kind of particle can do
struct Kind { PT type = PT::unknown; std::vector<std::shared_ptr<MyXs>> xs; std::vector<std::shared_ptr<MyDecay>> dec; ICM c; };
// no more than one decay of a kind goes to the same particles, as their widths are reported for the kind as a whole
static Kind rkind(Rng & r, Ref const & R, PT type, double p, bool flat = false) { Kind k; k.type = type; double m = massof(type); Xs x = rxs(r, R.S); for(auto & s : x.s) s *= r.lu(1e-3, 30); if(x.t.empty() && m == 0) { x.t = {PT::O16Nucleus, PT::HNucleus}; x.s = {1e-27 / R.S, 1e-27 / R.S}; } size_t n = x.t.empty() ? 0 : 1 + r.i(3); PT outs[] = {PT::NuE, PT::N4, PT::NuTau, PT::NuMu};
    for(size_t i = 0; i < n; ++i) { auto s = std::make_shared<MyXs>(); s->prim = type; s->k = flat || r.coin() ? 0 : r.u(0, 1); s->a = r.coin(0.3) ? 0 : r.u(0, 3); s->dt = r.coin(0.7) ? 0 : r.u(0, 100); int o = (int)r.i(4); for(int j = 0; j < 3; ++j) s->out[j] = outs[(o + j) % 4]; for(size_t j = 0; j < x.t.size(); ++j) { if(i > 0 && r.coin()) continue; int z = r.ri(1, 3); for(int q = 0; q < z; ++q) s->s[x.t[j]].push_back(r.coin(0.1) ? 0 : x.s[j] * r.u(0.05, 1)); } if(!s->s.empty()) k.xs.push_back(s); }
    if(m > 0 && (k.xs.empty() || r.coin(0.7))) { int z = flat ? 0 : r.ri(1, 2); for(int i = 0; i < z; ++i) { auto d = std::make_shared<MyDecay>(); d->prim = type; d->out = outs[i == 0 ? 0 : 2]; d->a = r.u(0, 3); d->dt = r.coin(0.7) ? 0 : r.u(0, 100); d->G = p / m * siren::utilities::Constants::hbarc / (R.S * r.lu(0.1, 1e3)); k.dec.push_back(d); } }
    std::vector<std::shared_ptr<si::CrossSection>> X(k.xs.begin(), k.xs.end()); std::vector<std::shared_ptr<si::Decay>> D(k.dec.begin(), k.dec.end()); k.c = std::make_shared<si::InteractionCollection>(type, X, D); return k; }
static double pof(InteractionRecord const & r) { auto & P = r.primary_momentum; return std::sqrt(P[1] * P[1] + P[2] * P[2] + P[3] * P[3]); }
static Vector3D dirof(InteractionRecord const & r) { Vector3D d(r.primary_momentum[1], r.primary_momentum[2], r.primary_momentum[3]); d.normalize(); return d; }
// how often each thing happens per length, and how the final states are spread
struct Rate { InteractionSignature s; double v; double a; }; static std::vector<Rate> rates(Kind const & k, DetectorModel const & M, InteractionRecord const & r) { std::vector<Rate> o; double p = pof(r), E = r.primary_momentum[0]; for(auto & x : k.xs) for(auto & t : x->s) { double n = M.GetParticleDensity(DetectorPosition(Vector3D(r.interaction_vertex)), t.first); for(size_t j = 0; j < t.second.size(); ++j) o.push_back({x->sig(k.type, t.first, (int)j), n * t.second[j] * MyXs::f(E, p, r.primary_mass, M.GetTargetMass(t.first), x->k), x->a}); } for(auto & d : k.dec) o.push_back({d->GetPossibleSignatures()[0], d->G * r.primary_mass / p / siren::utilities::Constants::hbarc * 0.01, d->a}); return o; }
static Xs totals(Kind const & k, DetectorModel const & M, InteractionRecord const & r) { Xs x; std::map<PT, double> t; double p = pof(r), E = r.primary_momentum[0], inv = 0; for(auto & s : k.xs) for(auto & y : s->s) for(double v : y.second) t[y.first] += v * MyXs::f(E, p, r.primary_mass, M.GetTargetMass(y.first), s->k); for(auto & d : k.dec) inv += d->G * r.primary_mass / p / siren::utilities::Constants::hbarc; for(auto & y : t) { x.t.push_back(y.first); x.s.push_back(y.second); } x.L = inv > 0 ? 1 / inv : INFINITY; return x; }
static double cspro(Kind const & k, DetectorModel const & M, InteractionRecord const & r) { double tot = 0, sel = 0, y = r.interaction_parameters.at("y"); for(auto & q : rates(k, M, r)) { tot += q.v; if(q.s == r.signature) sel += q.v * (q.a + 1) * std::pow(y, q.a); } return tot > 0 ? sel / tot : 0; }
static bool fits(double a, double b, double e) { return std::isfinite(a) && std::fabs(a - b) <= e * std::fabs(b) + 1e-290; }
// a detector, what particles do in it, and an injector for it
struct Scene { Ref R; std::shared_ptr<DetectorModel> M; std::map<PT, Kind> kinds; Kind prim; double m, pm; bool hel; Vector3D start, d; double maxlen; };
struct Inj { std::shared_ptr<sj::Injector> i; std::shared_ptr<sj::PrimaryInjectionProcess> pp; std::vector<std::shared_ptr<sj::SecondaryInjectionProcess>> sp; VD v; std::map<PT, SVD> sv; unsigned N; std::string what; std::vector<std::pair<PT, size_t>> *asked = nullptr; };
static bool scene(Rng & r, Scene & s, bool flat = false) { s.R = model(r, 5); for(int k = 0; k < 20 && !tame(s.R); ++k) s.R = model(r, 5); if(!tame(s.R)) return false; Ref & R = s.R; P3 aim = spot(r, R); R.m->SetDetectorOrigin(GeometryPosition(vec(aim))); R.org = vec(aim); s.M = R.m; PT t = r.pick({PT::NuMu, PT::N4, PT::NuTau}); s.m = massof(t); s.hel = r.coin(); s.pm = r.lu(0.1, 1e4); s.prim = rkind(r, R, t, s.pm, flat); s.d = rv(r, 1); s.d.normalize(); s.start = s.d * (-R.S * r.lu(0.01, 5)); s.maxlen = s.start.magnitude() + R.S * r.lu(0.1, 10); if(!flat) for(PT y : CASC) if(r.coin(0.5)) s.kinds[y] = y == t && r.coin() ? s.prim : rkind(r, R, y, s.pm * 0.5); return true; }
enum { V_POINT, V_COLUMN, V_RANGE, V_DECAYRANGE, V_CYL, V_SPHERE, V_N }; static char const * VN[] = {"point", "column depth", "range", "decay range", "cylinder", "sphere"};
#ifndef DEPTH
#define DEPTH MyDepth
#define RANGE MyRange
#endif
static VD position(Rng & r, Scene const & s, int k) { double S = s.R.S, rad = S * r.lu(0.01, 0.3), cap = S * r.lu(0.1, 2); std::set<PT> T; for(auto & x : s.prim.xs) for(auto & t : x->s) T.insert(t.first); switch(k) { case V_POINT: return std::make_shared<sd::PointSourcePositionDistribution>(s.start, s.maxlen); case V_COLUMN: return std::make_shared<sd::ColumnDepthPositionDistribution>(rad, cap, std::make_shared<DEPTH>(S * r.lu(0.1, 1e4))); case V_RANGE: return std::make_shared<sd::RangePositionDistribution>(rad, cap, std::make_shared<RANGE>(S * r.lu(0.01, 3)), T); case V_DECAYRANGE: return std::make_shared<sd::DecayRangePositionDistribution>(rad, cap, std::make_shared<sd::DecayRangeFunction>(0.1, 1e-17 / S * r.lu(0.1, 1e3), r.u(0.1, 4), S * r.u(0.1, 5))); case V_CYL: return std::make_shared<sd::CylinderVolumePositionDistribution>(Cylinder(rad, r.coin() ? 0 : rad * 0.4, cap)); default: return std::make_shared<sd::SphereVolumePositionDistribution>(Sphere(rad, r.coin() ? 0 : rad * 0.4)); } }
static PD energy(Rng & r, Scene const & s) { double lo = std::max(s.pm * 0.3, s.m * 1.1), hi = lo * r.u(2, 20); return r.coin(0.2) ? PD(std::make_shared<sd::Monoenergetic>(std::max(s.pm, s.m * 1.2))) : PD(std::make_shared<sd::PowerLaw>(r.coin(0.3) ? 1 : r.u(-1, 4), lo, hi)); }
static PD direction(Rng & r, Scene const & s) { int k = (int)r.i(3); return k == 0 ? PD(std::make_shared<sd::FixedDirection>(s.d)) : k == 1 ? PD(std::make_shared<siren::distributions::Cone>(s.d, r.u(0.01, 1))) : PD(std::make_shared<sd::IsotropicDirection>()); }
static Rnd dice(Rng & r) { return std::make_shared<siren::utilities::SIREN_random>((unsigned)(r.next() % 4000000000u)); }
static Inj injector(Rng & r, Scene & s, int vk, unsigned N, PD e, PD d, bool with_secondaries, bool special = false) { Inj o; o.N = N; o.v = position(r, s, vk); o.what = VN[vk]; o.pp = std::make_shared<sj::PrimaryInjectionProcess>(s.prim.type, s.prim.c); std::vector<PD> ds = {std::make_shared<sd::PrimaryMass>(s.m), e, d}; if(s.hel) ds.push_back(std::make_shared<sd::PrimaryNeutrinoHelicityDistribution>()); for(size_t i = ds.size(); i > 1; --i) std::swap(ds[i - 1], ds[r.i(i)]); for(auto & x : ds) o.pp->AddPrimaryInjectionDistribution(x);
    if(with_secondaries) for(auto & k : s.kinds) { auto p = std::make_shared<sj::SecondaryInjectionProcess>(k.first, k.second.c); SVD v = r.coin() ? SVD(std::make_shared<sd::SecondaryPhysicalVertexDistribution>()) : SVD(std::make_shared<sd::SecondaryBoundedVertexDistribution>(s.R.S * r.lu(0.1, 5))); p->AddSecondaryInjectionDistribution(v); o.sv[k.first] = v; o.sp.push_back(p); }
    auto rnd = dice(r); (void)special; o.pp->AddPrimaryInjectionDistribution(o.v); int how = (int)r.i(3); if(how == 0) o.i = std::make_shared<sj::Injector>(N, s.M, o.pp, o.sp, rnd); else { o.i = o.sp.empty() && r.coin() ? std::make_shared<sj::Injector>(N, s.M, o.pp, rnd) : std::make_shared<sj::Injector>(N, s.M, rnd); if(!o.i->GetPrimaryProcess()) o.i->SetPrimaryProcess(o.pp); if(r.coin() && !o.sp.empty()) { o.i->SetSecondaryProcesses({o.sp.back()}); o.i->SetSecondaryProcesses(o.sp); } else for(auto & p : o.sp) o.i->AddSecondaryProcess(p); } return o; }
static Kind const & kindof(Scene const & s, InteractionTreeDatum const & d) { return d.is_root() ? s.prim : s.kinds.at(d.record.signature.primary_type); }
static std::string sname(InteractionSignature const & g) { std::string w = mon::fmt("%d on %d ->", (int)g.primary_type, (int)g.target_type); for(auto t : g.secondary_types) w += mon::fmt(" %d", (int)t); return w; }
