// MON-REG
// P03: cross sections, decays, collections and processes come back from an archive as they were.
#include "serial.h"
#include "xs_pool.h"
#include "dist_pool.h"
#include <SIREN/interactions/HNLDecay.h>
#include <SIREN/interactions/ElectroweakDecay.h>
#include <SIREN/interactions/CharmMesonDecay.h>
#include <SIREN/interactions/CharmMesonDecay3Body.h>
#include <SIREN/interactions/DMesonELoss.h>
#include <SIREN/injection/Process.h>
#include <SIREN/distributions/secondary/vertex/SecondaryPhysicalVertexDistribution.h>
static bool eqb(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool samefinal(InteractionRecord const & a, InteractionRecord const & b) { return a.secondary_momenta == b.secondary_momenta && a.secondary_masses == b.secondary_masses && a.secondary_helicities == b.secondary_helicities && a.interaction_parameters == b.interaction_parameters; }
typedef std::shared_ptr<CrossSection> XP; typedef std::shared_ptr<Decay> YP;
static bool none(std::function<double()> f, double & v) { try { v = f(); return false; } catch(std::exception const &) { v = -7; return true; } }
static void samex(std::string const & nm, Rng & r, CrossSection const & a, CrossSection const & b, std::function<InteractionRecord()> gen, bool draw) {
    CHECK("same-after-loading", a == b, "%s differs after loading", nm.c_str()); CHECK("same-after-loading", a.GetPossibleSignatures() == b.GetPossibleSignatures() && a.GetPossibleTargets() == b.GetPossibleTargets() && a.GetPossiblePrimaries() == b.GetPossiblePrimaries() && a.DensityVariables() == b.DensityVariables(), "%s: channel lists differ after loading", nm.c_str());
    for(int k = 0; k < 3; ++k) { auto q = gen(); double u, v; bool x = none([&] { return a.TotalCrossSection(q); }, u), y = none([&] { return b.TotalCrossSection(q); }, v); CHECK("same-after-loading", x == y && eqb(u, v), "%s: total cross section %.17g, after loading %.17g", nm.c_str(), u, v); x = none([&] { return a.InteractionThreshold(q); }, u); y = none([&] { return b.InteractionThreshold(q); }, v); CHECK("same-after-loading", x == y && eqb(u, v), "%s: threshold %.17g, after loading %.17g", nm.c_str(), u, v);
        if(!draw) continue; uint64_t s = r.next(); InteractionRecord o, p; bool fa = false, fb = false; try { o = sample(a, q, rng(s)); } catch(std::exception const &) { fa = true; } try { p = sample(b, q, rng(s)); } catch(std::exception const &) { fb = true; } CHECK("same-after-loading", fa == fb && (fa || samefinal(o, p)), "%s: final state from the same seed differs after loading", nm.c_str()); if(fa || fb) continue; double d1 = a.DifferentialCrossSection(o), d2 = b.DifferentialCrossSection(o), p1 = a.FinalStateProbability(o), p2 = b.FinalStateProbability(o); CHECK("same-after-loading", eqb(d1, d2) && eqb(p1, p2), "%s: differential %.17g and density %.17g, after loading %.17g %.17g", nm.c_str(), d1, p1, d2, p2); }
}
static void samey(std::string const & nm, Rng & r, Decay const & a, Decay const & b, double m, bool draw) {
    CHECK("same-after-loading", a == b, "%s differs after loading", nm.c_str()); auto sigs = a.GetPossibleSignatures(); CHECK("same-after-loading", sigs == b.GetPossibleSignatures() && a.DensityVariables() == b.DensityVariables(), "%s: channel lists differ after loading", nm.c_str()); if(sigs.empty()) return;
    for(int k = 0; k < 4; ++k) { auto s = sigs[r.i(sigs.size())]; double mm = m > 0 ? m : dataclasses::GetParticleMass(s.primary_type), x, y, z; r.dir(x, y, z); auto q = mkrec(s, mm, mm * r.lu(0.1, 100), x, y, z, r.sgn() * 0.5); double u, v; bool e = none([&] { return a.TotalDecayWidth(q); }, u), f = none([&] { return b.TotalDecayWidth(q); }, v); CHECK("same-after-loading", e == f && eqb(u, v), "%s %s: width %.17g, after loading %.17g", nm.c_str(), signame(s).c_str(), u, v); e = none([&] { return a.TotalDecayLength(q); }, u); f = none([&] { return b.TotalDecayLength(q); }, v); CHECK("same-after-loading", e == f && eqb(u, v), "%s: decay length %.17g, after loading %.17g", nm.c_str(), u, v);
        none([&] { return a.TotalDecayWidth(q); }, u); if(!draw || !(u > 0)) continue; uint64_t sd = r.next(); InteractionRecord o, p; bool fa = false, fb = false; try { o = sample(a, q, rng(sd)); } catch(std::exception const &) { fa = true; } try { p = sample(b, q, rng(sd)); } catch(std::exception const &) { fb = true; } CHECK("same-after-loading", fa == fb && (fa || samefinal(o, p)), "%s: final state from the same seed differs after loading", nm.c_str()); if(!fa && !fb) { e = none([&] { return a.FinalStateProbability(o); }, u); f = none([&] { return b.FinalStateProbability(o); }, v); CHECK("same-after-loading", e == f && (eqb(u, v) || (std::isnan(u) && std::isnan(v))), "%s %s: density %.17g, after loading %.17g", nm.c_str(), signame(s).c_str(), u, v); } }
}
static std::set<PT> some(Rng & r, std::vector<PT> v) { std::set<PT> s; for(PT p : v) if(r.coin(0.6)) s.insert(p); if(s.empty()) s.insert(v[r.i(v.size())]); return s; }
static std::vector<PT> NUv(NU, NU + 6);
struct AnyX { XP p; std::string nm; std::function<InteractionRecord()> gen; bool draw = true; };
static AnyX genx(Rng & r, int k) { AnyX a; switch(k) {
    case 0: { auto s = some(r, {PT::NuE, PT::NuMu}); a.p = std::make_shared<ElasticScattering>(s); a.nm = "ElasticScattering"; std::vector<PT> v(s.begin(), s.end()); a.gen = [&r, v] { PT p = v[r.i(v.size())]; double x, y, z; r.dir(x, y, z); return mkrec(xsig(p, PT::EMinus, {p, PT::EMinus}), 0, r.lu(0.01, 1e3), x, y, z, -0.5, ME); }; break; }
    case 1: a.p = std::make_shared<DummyCrossSection>(); a.nm = "DummyCrossSection"; a.gen = [&r] { PT p = NU[r.i(6)]; double x, y, z; r.dir(x, y, z); return mkrec(xsig(p, PT::Nucleon, {p, PT::Nucleon}), 0, r.lu(0.1, 1e5), x, y, z, -0.5, 0.938918); }; break;
    case 2: { auto d = std::make_shared<Dip>(mkdip(r, r.coin())); a.p = d->x; a.nm = "HNLDipoleFromTable"; a.gen = [&r, d] { return diprec(r, *d, r.lu(d->Emin * 1.0001, d->Emax * 0.9999), r.coin()); }; break; }
    default: { a.p = std::make_shared<DMesonELoss>(); a.nm = "DMesonELoss"; auto ps = a.p->GetPossiblePrimaries(); std::vector<PT> v(ps.begin(), ps.end()); a.gen = [&r, v, p = a.p] { auto s = p->GetPossibleSignaturesFromParents(v[r.i(v.size())], PT::PPlus); double x, y, z; r.dir(x, y, z); if(s.empty()) s = p->GetPossibleSignatures(); double m = dataclasses::GetParticleMass(s[0].primary_type); return mkrec(s[0], m, r.lu(100, 1e6), x, y, z, 0.5, 0.938272); }; a.draw = false; } }
    return a; }
struct AnyY { YP p; std::string nm; double m = -1; bool draw = true; };
static AnyY geny(Rng & r, int k) { AnyY a; switch(k) {
    case 0: { std::vector<double> u = {r.coin(0.2) ? 0 : r.lu(1e-6, 1), r.lu(1e-6, 1), r.lu(1e-6, 1)}; a.m = r.lu(0.01, 5); a.p = std::make_shared<HNLDecay>(a.m, u, r.coin() ? HNLDecay::Majorana : HNLDecay::Dirac, some(r, {PT::N4, PT::N4Bar})); a.nm = "HNLDecay"; break; }
    case 1: { std::vector<double> u = {r.coin(0.2) ? 0 : r.lu(1e-9, 1e-3), r.lu(1e-9, 1e-3), r.lu(1e-9, 1e-3)}; a.m = r.lu(0.01, 5); a.p = std::make_shared<HNLDipoleDecay>(a.m, u, r.coin() ? HNLDipoleDecay::Majorana : HNLDipoleDecay::Dirac, some(r, {PT::N4, PT::N4Bar})); a.nm = "HNLDipoleDecay"; break; }
    case 2: a.p = std::make_shared<ElectroweakDecay>(some(r, {PT::WPlus, PT::WMinus, PT::Z0})); a.nm = "ElectroweakDecay"; break;
    case 3: a.p = r.coin() ? std::make_shared<CharmMesonDecay>() : std::make_shared<CharmMesonDecay>(r.pick(std::vector<PT>{PT::DPlus, PT::D0, PT::DMinus, PT::D0Bar})); a.nm = "CharmMesonDecay"; break;
    default: a.p = r.coin() ? std::make_shared<CharmMesonDecay3Body>() : std::make_shared<CharmMesonDecay3Body>(r.pick(std::vector<PT>{PT::DPlus, PT::D0})); a.nm = "CharmMesonDecay3Body"; }
    return a; }
GROUP(P03, cross_sections, 400, 16000) { Rng & r = c.r; auto a = genx(r, c.cas % 4); auto cmp = [&](CrossSection const & x, CrossSection const & y) { samex(a.nm, r, x, y, a.gen, a.draw); }; ser::poly<CrossSection>(a.nm, r, a.p, cmp, true, false); }
GROUP(P03, decays, 300, 12000) { Rng & r = c.r; mon::case_budget() = 200; auto a = geny(r, c.cas % 5); auto cmp = [&](Decay const & x, Decay const & y) { samey(a.nm, r, x, y, a.m, a.draw); }; ser::poly<Decay>(a.nm, r, a.p, cmp, true, false); }
GROUP(P03, collections, 200, 8000) { Rng & r = c.r; int nx = r.ri(0, 3), ny = r.ri(nx ? 0 : 1, 2); std::vector<AnyX> X; std::vector<AnyY> Y; std::vector<XP> xs; std::vector<YP> ys; for(int i = 0; i < nx; ++i) { X.push_back(genx(r, r.i(3))); xs.push_back(X.back().p); } for(int i = 0; i < ny; ++i) { Y.push_back(geny(r, r.i(3))); ys.push_back(Y.back().p); } if(nx && r.coin(0.3)) { xs.push_back(xs[0]); X.push_back(X[0]); } PT p = r.coin() ? PT::NuMu : PT::N4; auto col = std::make_shared<InteractionCollection>(p, xs, ys);
    auto cmp = [&](InteractionCollection const & a, InteractionCollection const & b) { auto ax = a.GetCrossSections(), bx = b.GetCrossSections(); auto ad = a.GetDecays(), bd = b.GetDecays(); bool n = ax.size() == bx.size() && ad.size() == bd.size() && a.GetPrimaryType() == b.GetPrimaryType() && a.TargetTypes() == b.TargetTypes() && a.HasCrossSections() == b.HasCrossSections() && a.HasDecays() == b.HasDecays(); CHECK("same-after-loading", n, "collection has %zu+%zu interactions, after loading %zu+%zu", ax.size(), ad.size(), bx.size(), bd.size()); if(!n) return; for(size_t i = 0; i < ax.size(); ++i) { CrossSection const & u = *ax[i]; CrossSection const & v = *bx[i]; CHECK("dynamic-type", typeid(u) == typeid(v), "cross section %zu of a collection changed type", i); samex(X[i].nm, r, u, v, X[i].gen, false); for(size_t j = 0; j < i; ++j) CHECK("shared-objects-stay-shared", (ax[i] == ax[j]) == (bx[i] == bx[j]), "sharing in a collection changed"); } for(size_t i = 0; i < ad.size(); ++i) samey(Y[i].nm, r, *ad[i], *bd[i], Y[i].m, false);
        for(PT t : a.TargetTypes()) { auto & u = a.GetCrossSectionsForTarget(t); auto & v = b.GetCrossSectionsForTarget(t); bool k = u.size() == v.size(); for(size_t i = 0; k && i < u.size(); ++i) k &= *u[i] == *v[i]; CHECK("same-after-loading", k, "collection: cross sections of target %d differ after loading", (int)t); } InteractionRecord q; q.signature.primary_type = p; q.primary_mass = p == PT::N4 ? 0.5 : 0; q.primary_momentum = {10, 0, 0, std::sqrt(100 - q.primary_mass * q.primary_mass)}; CHECK("same-after-loading", a.MatchesPrimary(q) == b.MatchesPrimary(q), "collection: primary match"); double u, v; bool e = none([&] { return a.TotalDecayLengthAllFinalStates(q); }, u), f = none([&] { return b.TotalDecayLengthAllFinalStates(q); }, v); CHECK("same-after-loading", e == f && eqb(u, v), "collection: length %.17g, after loading %.17g", u, v); };
    ser::poly<InteractionCollection>("InteractionCollection", r, col, cmp, true, false);
    // processes
    if(r.coin(0.5)) return; auto prim = std::make_shared<injection::PrimaryInjectionProcess>(p, col); std::vector<pool::DP> ds; for(int i = r.ri(0, 3); i > 0; --i) { int k = r.pick({0, 1, 3, 4, 8, 9}); auto d = pool::gen(r, k); bool dup = false; for(auto & x : ds) dup |= *x == *d; if(dup) continue; ds.push_back(d); prim->AddPrimaryInjectionDistribution(d); }
    auto cmpp = [&](injection::Process const & a, injection::Process const & b) { CHECK("same-after-loading", a.GetPrimaryType() == b.GetPrimaryType(), "process primary type"); CHECK("same-after-loading", bool(b.GetInteractions()), "process lost its interactions"); if(b.GetInteractions()) cmp(*a.GetInteractions(), *b.GetInteractions()); auto pa = dynamic_cast<injection::PhysicalProcess const *>(&a), pb = dynamic_cast<injection::PhysicalProcess const *>(&b); if(pa && pb) { auto & u = pa->GetPhysicalDistributions(); auto & v = pb->GetPhysicalDistributions(); bool k = u.size() == v.size(); for(size_t i = 0; k && i < u.size(); ++i) k &= *u[i] == *v[i]; CHECK("same-after-loading", k, "physical distributions of a process differ after loading (%zu, %zu)", u.size(), v.size()); } auto ia = dynamic_cast<injection::PrimaryInjectionProcess const *>(&a), ib = dynamic_cast<injection::PrimaryInjectionProcess const *>(&b); if(ia && ib) { auto & u = ia->GetPrimaryInjectionDistributions(); auto & v = ib->GetPrimaryInjectionDistributions(); bool k = u.size() == v.size(); for(size_t i = 0; k && i < u.size(); ++i) k &= *u[i] == *v[i]; CHECK("same-after-loading", k, "injection distributions of a process differ after loading (%zu, %zu)", u.size(), v.size()); auto & pu = ia->GetPhysicalDistributions(); auto & pv = ib->GetPhysicalDistributions(); if(pu.size() == pv.size() && u.size() == v.size()) for(size_t i = 0; i < u.size(); ++i) for(size_t j = 0; j < pu.size(); ++j) CHECK("shared-objects-stay-shared", (std::dynamic_pointer_cast<distributions::WeightableDistribution>(u[i]) == pu[j]) == (std::dynamic_pointer_cast<distributions::WeightableDistribution>(v[i]) == pv[j]), "a distribution shared by generation and physics is no longer shared"); } auto sa = dynamic_cast<injection::SecondaryInjectionProcess const *>(&a), sb = dynamic_cast<injection::SecondaryInjectionProcess const *>(&b); if(sa && sb) { CHECK("same-after-loading", sa->GetSecondaryType() == sb->GetSecondaryType() && sa->GetSecondaryInjectionDistributions().size() == sb->GetSecondaryInjectionDistributions().size(), "secondary process differs after loading"); } };
    std::shared_ptr<injection::PhysicalProcess> b1 = prim; ser::poly<injection::PhysicalProcess>("PrimaryInjectionProcess", r, b1, cmpp, true, false); auto sec = std::make_shared<injection::SecondaryInjectionProcess>(p, col); if(r.coin()) sec->AddSecondaryInjectionDistribution(std::make_shared<distributions::SecondaryPhysicalVertexDistribution>()); std::shared_ptr<injection::Process> b2 = sec; if(r.coin()) ser::poly<injection::Process>("SecondaryInjectionProcess", r, b2, cmpp, true, false); b2 = prim; if(r.coin()) ser::poly<injection::Process>("PrimaryInjectionProcess as process", r, b2, cmpp, true, false);
}
