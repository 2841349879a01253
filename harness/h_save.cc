// MON-REG
// P27: detectors, injectors and weighters come back from a file as they were: same answers, same events, same weights.
#define DENSITIES_SAVABLE
#include "vertexref.h"
struct SavedRange : MyRange { SavedRange(double x = 1) : MyRange(x) {} template<class A> void save(A & a, std::uint32_t) const { a(l); } template<class A> void load(A & a, std::uint32_t) { a(l); } };
struct SavedDepth : MyDepth { SavedDepth(double x = 1) : MyDepth(x) {} template<class A> void save(A & a, std::uint32_t) const { a(l); } template<class A> void load(A & a, std::uint32_t) { a(l); } };
#define RANGE SavedRange
#define DEPTH SavedDepth
#include "injectref.h"
#include "serial.h"
#include <unistd.h>
#include <cstdlib>
// interactions and ranges that can be saved
struct SavedXs : MyXs { template<class A> void save(A & a, std::uint32_t) const { std::vector<PT> o(out, out + 3); a(prim, s, k, this->a, dt, o); } template<class A> void load(A & a, std::uint32_t) { std::vector<PT> o; a(prim, s, k, this->a, dt, o); for(int i = 0; i < 3; ++i) out[i] = o.at(i); } };
struct SavedDecay : MyDecay { template<class A> void save(A & a, std::uint32_t) const { a(prim, G, this->a, dt, out); } template<class A> void load(A & a, std::uint32_t) { a(prim, G, this->a, dt, out); } };
CEREAL_REGISTER_TYPE(SavedXs); CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::interactions::CrossSection, SavedXs); CEREAL_REGISTER_TYPE(SavedDecay); CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::interactions::Decay, SavedDecay);
CEREAL_REGISTER_TYPE(SavedRange); CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::distributions::RangeFunction, SavedRange); CEREAL_REGISTER_TYPE(SavedDepth); CEREAL_REGISTER_POLYMORPHIC_RELATION(siren::distributions::DepthFunction, SavedDepth);
static struct Scratch { std::string d; Scratch() { char t[] = "/tmp/siren_save_XXXXXX"; d = mkdtemp(t); } ~Scratch() { std::string c = d + "/f"; unlink(c.c_str()); unlink((c + ".siren_weighter").c_str()); rmdir(d.c_str()); } std::string f() { return d + "/f"; } } SCRATCH;
static void savable(Kind & k, std::map<si::InteractionCollection *, ICM> & seen) { ICM & done = seen[k.c.get()]; if(!done) { std::vector<std::shared_ptr<si::CrossSection>> X; std::vector<std::shared_ptr<si::Decay>> D; for(auto & x : k.xs) { auto y = std::make_shared<SavedXs>(); static_cast<MyXs &>(*y) = *x; X.push_back(y); } for(auto & x : k.dec) { auto y = std::make_shared<SavedDecay>(); static_cast<MyDecay &>(*y) = *x; D.push_back(y); } done = std::make_shared<si::InteractionCollection>(k.type, X, D); } k.c = done; }
static void savable(Scene & s) { std::map<si::InteractionCollection *, ICM> seen; Kind old = s.prim; savable(s.prim, seen); std::map<PT, Kind> keep = s.kinds; for(auto & k : s.kinds) savable(k.second, seen); }
static bool same(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-13 * (std::fabs(a) + std::fabs(b)); }
static bool same(Vector3D const & a, Vector3D const & b) { return (a - b).magnitude() <= 1e-13 * (a.magnitude() + b.magnitude()); }
template<size_t N> static bool same(std::array<double, N> const & a, std::array<double, N> const & b) { for(size_t i = 0; i < N; ++i) if(!same(a[i], b[i])) return false; return true; }
template<class V> static bool sameall(V const & a, V const & b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!same(a[i], b[i])) return false; return true; }
static std::string differ(InteractionRecord const & a, InteractionRecord const & b) { std::string w; auto x = [&](bool ok, char const * n) { if(!ok) w += std::string(w.empty() ? "" : ", ") + n; }; x(a.signature == b.signature, "signature"); x(same(a.primary_mass, b.primary_mass), "mass"); x(same(a.primary_momentum, b.primary_momentum), "momentum"); x(same(a.primary_helicity, b.primary_helicity), "helicity"); x(same(a.primary_initial_position, b.primary_initial_position), "start"); x(same(a.primary_initial_time, b.primary_initial_time), "start time"); x(same(a.interaction_vertex, b.interaction_vertex), "vertex"); x(same(a.interaction_time, b.interaction_time), "time"); x(same(a.target_mass, b.target_mass), "target mass"); x(sameall(a.secondary_masses, b.secondary_masses) && sameall(a.secondary_momenta, b.secondary_momenta) && sameall(a.secondary_helicities, b.secondary_helicities), "secondaries"); x(a.interaction_parameters == b.interaction_parameters, "parameters"); return w; }
static std::string differ(InteractionTree const & a, InteractionTree const & b) { if(a.tree.size() != b.tree.size()) return mon::fmt("%zu and %zu interactions", a.tree.size(), b.tree.size()); for(size_t i = 0; i < a.tree.size(); ++i) { auto & x = *a.tree[i]; auto & y = *b.tree[i]; std::string w = differ(x.record, y.record); if(x.parent_index != y.parent_index || x.daughter_indices != y.daughter_indices) w += " place in the tree"; if(!w.empty()) return mon::fmt("interaction %zu: ", i) + w; } return ""; }
// the same questions to both
static void compare(Rng & r, Ref const & R, DetectorModel const & A, DetectorModel const & B, std::string const & tag) { CHECK("origin", same(A.GetDetectorOrigin().get(), B.GetDetectorOrigin().get()), "%s", tag.c_str()); auto S = A.GetSectors(), T = B.GetSectors(); CHECK("regions", S.size() == T.size(), "%s: %zu and %zu", tag.c_str(), S.size(), T.size()); if(S.size() != T.size()) return; for(size_t i = 0; i < S.size(); ++i) CHECK("regions", S[i].name == T[i].name && S[i].level == T[i].level && S[i].material_id == T[i].material_id && S[i].geo && T[i].geo && *S[i].geo == *T[i].geo && S[i].density && T[i].density && *S[i].density == *T[i].density, "%s: region %zu, %s and %s", tag.c_str(), i, S[i].name.c_str(), T[i].name.c_str()); CHECK("path", A.GetPath() == B.GetPath(), "%s", tag.c_str());
    for(int k = 0; k < 6; ++k) { Vector3D g = vec(spot(r, R)) + rv(r, R.S * r.lu(1e-3, 1)), d = rv(r, 1); d.normalize(); Vector3D h = g + d * (R.S * r.lu(1e-3, 3)); Vector3D ad = A.ToDet(GeometryPosition(g)).get(), bd = B.ToDet(GeometryPosition(g)).get(); CHECK("frames", same(ad, bd) && same(A.ToGeo(DetectorPosition(g)).get(), B.ToGeo(DetectorPosition(g)).get()) && same(A.ToDet(siren::detector::GeometryDirection(d)).get(), B.ToDet(siren::detector::GeometryDirection(d)).get()) && same(A.ToGeo(siren::detector::DetectorDirection(d)).get(), B.ToGeo(siren::detector::DetectorDirection(d)).get()), "%s: (%g %g %g) is seen elsewhere from the detector", tag.c_str(), g.GetX(), g.GetY(), g.GetZ()); CHECK("mass-density", same(A.GetMassDensity(DetectorPosition(g)), B.GetMassDensity(DetectorPosition(g))), "%s: %.15g and %.15g", tag.c_str(), A.GetMassDensity(DetectorPosition(g)), B.GetMassDensity(DetectorPosition(g))); CHECK("region", A.GetContainingSector(DetectorPosition(g)).name == B.GetContainingSector(DetectorPosition(g)).name, "%s", tag.c_str()); for(PT t : {PT::HNucleus, PT::O16Nucleus, PT::EMinus, PT::PPlus, PT::Neutron}) CHECK("target-density", same(A.GetParticleDensity(DetectorPosition(g), t), B.GetParticleDensity(DetectorPosition(g), t)), "%s", tag.c_str()); double ca = 0, cb = 0; std::string ea, eb; try { ca = A.GetColumnDepthInCGS(DetectorPosition(g), DetectorPosition(h)); } catch(std::exception const & e) { ea = e.what(); } try { cb = B.GetColumnDepthInCGS(DetectorPosition(g), DetectorPosition(h)); } catch(std::exception const & e) { eb = e.what(); } CHECK("column-depth", ea == eb && same(ca, cb), "%s: %.15g and %.15g %s%s", tag.c_str(), ca, cb, ea.c_str(), eb.c_str()); CHECK("available-targets", A.GetAvailableTargets(DetectorPosition(g)) == B.GetAvailableTargets(DetectorPosition(g)), "%s", tag.c_str()); } }
GROUP(P27, detector, 1500, 12000) { Rng & r = c.r; Ref R = model(r, 6); if(r.coin(0.3)) R.m->SetPath("some where/" + mon::fmt("%d", (int)r.i(9))); int f = (int)r.i(3); std::shared_ptr<DetectorModel> L; std::string t = ser::save(f, R.m), e = ser::tryload(f, t, L), tag = mon::fmt("%s as %s", R.shape.c_str(), ser::F[f]); CHECK("loads", e.empty() && L, "%s: %s", tag.c_str(), e.c_str()); if(!L) return; compare(r, R, *R.m, *L, tag); CHECK("saved-again", ser::save(f, L) == t, "%s: saving it again gives another file", tag.c_str());
    // a change shows
    DetectorModel E; E.SetMaterials(R.m->GetMaterials()); E.SetSectors(R.m->GetSectors()); E.SetDetectorOrigin(R.m->GetDetectorOrigin()); E.SetDetectorRotation(R.m->GetDetectorRotation()); CHECK("equal", E == *R.m && *R.m == E, "%s: the same regions and the same frame, yet not equal", tag.c_str()); siren::math::Quaternion z; z.SetAxisAngle(rv(r, 1), r.u(0.1, 1)); E.SetDetectorRotation(z * R.m->GetDetectorRotation()); CHECK("unequal", !(*R.m == E), "%s: equal though turned", tag.c_str()); E.SetDetectorRotation(R.m->GetDetectorRotation()); E.SetDetectorOrigin(GeometryPosition(R.m->GetDetectorOrigin().get() + Vector3D(R.S, 0, 0))); CHECK("unequal", !(*R.m == E), "%s: equal though moved", tag.c_str());
    // into a model that already holds something else
    Ref O = model(r, 4); std::shared_ptr<DetectorModel> M2 = O.m; e = ""; { std::string tt; { std::ostringstream o; cereal::BinaryOutputArchive a(o); a(*R.m); tt = o.str(); } std::istringstream i(tt); cereal::BinaryInputArchive a(i); O.m->GetMassDensity(DetectorPosition(O.org)); a(*M2); } compare(r, R, *R.m, *M2, tag + ", over another"); /* files of earlier versions know of no rotation */ if(f == 0 && c.cas % 3 == 0) { std::string o = t, key = "\"cereal_class_version\": "; size_t p = o.find(key); CHECK("versioned", p != std::string::npos, "%s", tag.c_str()); if(p != std::string::npos) { p += key.size(); size_t q = p; while(isdigit((unsigned char)o[q])) ++q; o.replace(p, q - p, "0"); std::shared_ptr<DetectorModel> V; std::string e = ser::tryload(0, o, V); CHECK("older-version", e.empty() && V, "%s: %s", tag.c_str(), e.c_str()); if(V) { CHECK("older-version", V->GetDetectorRotation() == siren::math::Quaternion() && V->GetDetectorOrigin().get() == R.m->GetDetectorOrigin().get(), "%s", tag.c_str()); V->SetDetectorRotation(R.m->GetDetectorRotation()); compare(r, R, *R.m, *V, tag + ", older version"); } } } if(c.cas % 7 == 0) ser::hostile("detector", r, R.m, false); seen("%s %s %zu", R.shape.c_str(), ser::F[f], R.v.size()); obs("detectors"); }
static std::shared_ptr<sj::Injector> reload(Rng & r, Inj const & I, Scene & s, int how, unsigned asked, std::string & what, std::string & err) { std::shared_ptr<sj::Injector> L; try { switch(how) { case 0: case 1: case 2: { what = ser::F[how]; err = ser::tryload(how, ser::save(how, I.i), L); break; } case 3: { what = "file"; I.i->SaveInjector(SCRATCH.f()); L = std::make_shared<sj::Injector>(asked, SCRATCH.f(), dice(r)); break; } default: { what = "file, over another"; I.i->SaveInjector(SCRATCH.f()); Scene o; if(!scene(r, o)) o = s; savable(o); Inj J = injector(r, o, V_POINT, 3, energy(r, o), direction(r, o), true); L = J.i; if(r.coin()) try { L->GenerateEvent(); } catch(std::exception const &) {} L->LoadInjector(SCRATCH.f()); } } } catch(std::exception const & e) { err = e.what(); err += " "; } return L; }
GROUP(P27, injector, 1500, 10000) { Rng & r = c.r; Scene s; if(!scene(r, s)) return; savable(s); int vk = (int)r.i(V_N); if(vk == V_DECAYRANGE && s.m == 0) vk = V_POINT; unsigned N = (unsigned)r.ri(1, 9); Inj I = injector(r, s, vk, N, energy(r, s), direction(r, s), true); int done = r.ri(0, (int)N); auto stop = [](InteractionTree const & t, std::shared_ptr<InteractionTreeDatum> d, size_t) { return d->depth(t) >= 2 || t.tree.size() > 6; }; I.i->SetStoppingCondition(stop); try { for(int k = 0; k < done; ++k) I.i->GenerateEvent(); } catch(std::runtime_error const & e) { if(numeric(s.R) && std::string(e.what()).find("converge") != std::string::npos) return; throw; }
    int how = (int)r.i(5); std::string what, err; unsigned asked = how == 3 && r.coin() ? (unsigned)r.ri(1, 12) : N; auto L = reload(r, I, s, how, asked, what, err); std::string tag = mon::fmt("%s injector in %s, %s", VN[vk], s.R.shape.c_str(), what.c_str()); CHECK("loads", err.empty() && L, "%s: %s", tag.c_str(), err.c_str()); if(!L || !err.empty()) return; CHECK("counts", L->EventsToInject() == asked && L->InjectionAttempts() == I.i->InjectionAttempts() && L->InjectedEvents() == I.i->InjectedEvents() && (asked != N || (bool)*L == (bool)*I.i), "%s: %u of %u attempts, %u events; %u of %u and %u before", tag.c_str(), L->InjectionAttempts(), L->EventsToInject(), L->InjectedEvents(), I.i->InjectionAttempts(), asked, I.i->InjectedEvents()); CHECK("processes", L->GetSecondaryProcesses().size() == I.sp.size() && L->GetSecondaryProcessMap().size() == I.i->GetSecondaryProcessMap().size() && L->GetPrimaryInjectionDistributions().size() == I.i->GetPrimaryInjectionDistributions().size(), "%s: %zu secondary processes, %zu before", tag.c_str(), L->GetSecondaryProcesses().size(), I.sp.size()); compare(r, s.R, *s.M, *L->GetDetectorModel(), tag);
    unsigned seed = (unsigned)(r.next() % 4000000000u); I.i->SetRandom(std::make_shared<siren::utilities::SIREN_random>(seed)); L->SetRandom(std::make_shared<siren::utilities::SIREN_random>(seed)); L->SetStoppingCondition(stop); if(!*L || r.coin(0.3)) { I.i->ResetInjectedEvents(); L->ResetInjectedEvents(); } int n = 0; while(*I.i && *L) { InteractionTree A, B; std::string ea, eb; try { A = I.i->GenerateEvent(); } catch(std::exception const & e) { ea = e.what(); } try { B = L->GenerateEvent(); } catch(std::exception const & e) { eb = e.what(); } std::string w = differ(A, B); CHECK("same-events", ea == eb && w.empty() && A.header.event_number == B.header.event_number, "%s: event %d differs: %s %s %s", tag.c_str(), n, w.c_str(), ea.c_str(), eb.c_str()); if(!w.empty() || !ea.empty()) break; ++n; if(A.tree.empty()) { obs("failed events"); continue; } obs("events"); double ga = I.i->GenerationProbability(A), gb = L->GenerationProbability(A); gb *= (double)N / asked; CHECK("same-probability", same(ga, gb) || std::fabs(ga - gb) <= 1e-9 * std::fabs(ga), "%s: %.15g and %.15g", tag.c_str(), ga, gb); seen("%s %s nodes %zu", VN[vk], what.c_str(), std::min<size_t>(A.tree.size(), 4)); } CHECK("same-end", (bool)*I.i == (bool)*L || n == 0 || asked != N, "%s", tag.c_str()); 
    if(r.coin(0.1) && !access("/dev/full", W_OK)) { bool th = false; try { I.i->SaveInjector("/dev/full"); } catch(std::exception const &) { th = true; } CHECK("failed-save-is-reported", th, "%s: saved to a full disk, and nothing is said", tag.c_str()); }
    if(r.coin(0.1)) { bool th = false; try { I.i->SaveInjector(SCRATCH.d + "/no/such/place"); } catch(std::exception const &) { th = true; } CHECK("failed-save-is-reported", th, "%s: saved to a place that does not exist, and nothing is said", tag.c_str()); th = false; try { L->LoadInjector(SCRATCH.d + "/nothing"); } catch(std::exception const &) { th = true; } CHECK("failed-load-is-reported", th, "%s", tag.c_str()); } }
GROUP(P27, weighter, 1000, 8000) { Rng & r = c.r; Scene s; if(!scene(r, s)) return; savable(s); size_t ni = 1 + r.i(3); std::vector<Inj> I; PD d = direction(r, s), e0 = energy(r, s); bool point = r.coin(0.2); for(size_t i = 0; i < ni; ++i) { int vk = point ? V_POINT : 1 + (int)r.i(V_N - 1); if(vk == V_DECAYRANGE && s.m == 0) vk = V_RANGE; I.push_back(injector(r, s, vk, (unsigned)r.ri(3, 20), r.coin() ? e0 : energy(r, s), d, true)); I.back().i->SetStoppingCondition([](InteractionTree const & t, std::shared_ptr<InteractionTreeDatum> x, size_t) { return x->depth(t) >= 1 || t.tree.size() > 6; }); }
    auto ph = std::make_shared<sj::PhysicalProcess>(s.prim.type, s.prim.c); bool hase = false, hasd = false; for(auto & x : I[0].pp->GetPrimaryInjectionDistributions()) if(x != I[0].v && r.coin(0.6)) { ph->AddPhysicalDistribution(x); hase |= (bool)std::dynamic_pointer_cast<sd::PrimaryEnergyDistribution>(x); hasd |= (bool)std::dynamic_pointer_cast<sd::PrimaryDirectionDistribution>(x); } if(!hase) { auto pl = std::make_shared<sd::PowerLaw>(r.u(0, 4), std::max(s.pm * 0.1, s.m * 1.01), s.pm * 100 + s.m * 2); if(r.coin()) pl->SetNormalization(r.lu(1e-3, 1e3)); ph->AddPhysicalDistribution(pl); } if(!hasd) ph->AddPhysicalDistribution(std::make_shared<sd::IsotropicDirection>()); std::vector<std::shared_ptr<sj::PhysicalProcess>> sp; for(auto & k : s.kinds) sp.push_back(std::make_shared<sj::PhysicalProcess>(k.first, k.second.c)); std::vector<std::shared_ptr<sj::Injector>> iv; for(auto & x : I) iv.push_back(x.i); auto W = std::make_shared<sj::Weighter>(iv, s.M, ph, sp); std::shared_ptr<sj::Weighter> L; int how = (int)r.i(5); std::string err, what; try { if(how < 3) { what = ser::F[how]; err = ser::tryload(how, ser::save(how, W), L); } else { W->SaveWeighter(SCRATCH.f()); if(how == 3) { what = "file"; L = std::make_shared<sj::Weighter>(r.coin() ? std::vector<std::shared_ptr<sj::Injector>>() : iv, SCRATCH.f()); } else { what = "file, over another"; L = std::make_shared<sj::Weighter>(std::vector<std::shared_ptr<sj::Injector>>{iv[0]}, s.M, ph); L->LoadWeighter(SCRATCH.f()); } } } catch(std::exception const & e) { err = std::string(e.what()) + " "; } std::string tag = mon::fmt("%zu injectors in %s, %s", ni, s.R.shape.c_str(), what.c_str()); CHECK("loads", err.empty() && L, "%s: %s", tag.c_str(), err.c_str()); if(!L || !err.empty()) return;
    for(size_t g = 0; g < ni; ++g) for(int it = 0; it < 3 && *I[g].i; ++it) try { InteractionTree T = I[g].i->GenerateEvent(); if(T.tree.empty()) continue; double a = W->EventWeight(T), b = L->EventWeight(T); CHECK("same-weight", same(a, b) || std::fabs(a - b) <= 1e-9 * std::fabs(a), "%s: %.15g and %.15g", tag.c_str(), a, b); for(size_t i = 0; i < ni; ++i) { auto p = W->GetInteractionProbabilities(T, (int)i), q = L->GetInteractionProbabilities(T, (int)i), u = W->GetSurvivalProbabilities(T, (int)i), v = L->GetSurvivalProbabilities(T, (int)i); CHECK("same-probabilities", sameall(p, q) && sameall(u, v), "%s", tag.c_str()); } obs("weights"); seen("%s %zu injectors nodes %zu", what.c_str(), ni, std::min<size_t>(T.tree.size(), 4)); } catch(std::runtime_error const & e) { if(!numeric(s.R) || std::string(e.what()).find("converge") == std::string::npos) throw; obs("not judged: no convergence"); }
    if(r.coin(0.1) && !access("/dev/full", W_OK)) { std::string n = SCRATCH.d + "/full", l = n + ".siren_weighter"; if(symlink("/dev/full", l.c_str()) == 0) { bool th = false; try { W->SaveWeighter(n); } catch(std::exception const &) { th = true; } unlink(l.c_str()); CHECK("failed-save-is-reported", th, "a weighter saved to a full disk, and nothing is said"); } }
    if(r.coin(0.1)) { bool th = false; try { W->SaveWeighter(SCRATCH.d + "/no/such/place"); } catch(std::exception const &) { th = true; } CHECK("failed-save-is-reported", th, "%s: saved to a place that does not exist, and nothing is said", tag.c_str()); } }
MON_MAIN
