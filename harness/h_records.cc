// P01: every quantity an event record hands out agrees with the particle it describes.
// Oracle: a fully consistent truth (m,E,KE,p,dir,x0,vertex,length,closest approach,times) is generated, a random subset is given to the
// record in random order, and every getter must return the truth or refuse (and must not refuse what is derivable).
#include "mon.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/ParticleMasses.h"
#include "SIREN/utilities/Constants.h"
#include <memory>
#include <array>
using namespace siren::dataclasses;
using mon::close; using mon::Rng;
typedef std::array<double, 3> V3; typedef std::array<double, 4> V4;
static double dot(V3 const & a, V3 const & b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static V3 add(V3 const & a, V3 const & b, double s = 1) { return {a[0]+s*b[0], a[1]+s*b[1], a[2]+s*b[2]}; }
static double norm(V3 const & a) { return std::sqrt(dot(a, a)); }
static double const C = siren::utilities::Constants::c;
static bool vclose(V3 const & a, V3 const & b, double tol) { for(int i = 0; i < 3; ++i) if(!(std::fabs(a[i]-b[i]) <= tol)) return false; return true; }
static std::string vs(V3 const & v) { return mon::fmt("(%.17g,%.17g,%.17g)", v[0], v[1], v[2]); }

struct Truth { double dt, m, E, KE, pm, len, d0, dv, hel, t0, t1; V3 dir, p, x0, v, pca; double scale; };
static Truth gen(Rng & r) {
    Truth t; t.m = r.coin(0.3) ? 0 : r.lu(1e-4, 200);
    double ke = t.m > 0 ? t.m * r.lu(1e-2, 1e4) : r.lu(1e-3, 1e6);
    t.E = t.m + ke; t.KE = t.E - t.m; t.pm = std::sqrt((t.E - t.m) * (t.E + t.m));
    r.dir(t.dir[0], t.dir[1], t.dir[2]);
    t.p = {t.pm * t.dir[0], t.pm * t.dir[1], t.pm * t.dir[2]};
    double s = r.lu(1e-1, 1e6); t.x0 = {s * r.u(-1, 1), s * r.u(-1, 1), s * r.u(-1, 1)}; if(r.coin(0.05)) t.x0 = {0, 0, 0};
    t.len = s * r.lu(1e-2, 10); t.v = add(t.x0, t.dir, t.len);
    t.d0 = dot(t.x0, t.dir); t.dv = t.d0 + t.len; t.pca = add(t.x0, t.dir, -t.d0);
    t.hel = r.pick({-1.0, -0.5, 0.0, 0.5, 1.0}); t.t0 = r.coin(0.4) ? 0 : r.u(-1e5, 1e5);
    t.dt = t.len / (std::min(1.0, t.pm / t.E) * C); t.t1 = t.t0 + t.dt;
    t.scale = norm(t.x0) + norm(t.v) + t.len;
    return t;
}
enum { M = 1, E = 2, K = 4, D = 8, P = 16, L = 32, X = 64, V = 128, A = 256, DV = 512, D0 = 1024 };
static bool derivable(int have, int want) {
    static std::map<int, std::vector<int>> const T = {
        {M, {E|P, E|K}}, {E, {M|P, M|K}}, {K, {M|E, M|P}}, {D, {P, X|V}}, {P, {E|M|D, M|K|D}}, {L, {X|V, D0|DV}},
        {X, {V|D|L, V|D|D0|DV, D0|D|A}}, {V, {X|D|L, X|D|D0|DV, DV|D|A}}, {A, {X|D|D0, V|D|DV, X|V}},
        {DV, {D0|L, V|D, V|X}}, {D0, {DV|L, X|D, X|V}}};
    if(have & want) return true;
    for(int s : T.at(want)) if((have & s) == s) return true;
    return false;
}
static char const * nm(int w) { switch(w) { case M: return "mass"; case E: return "energy"; case K: return "kinetic-energy"; case D: return "direction"; case P: return "momentum"; case L: return "length"; case X: return "initial-position"; case V: return "vertex"; case A: return "closest-approach"; case DV: return "vertex-distance"; case D0: return "initial-distance"; } return "?"; }

// tolerances: what the information given can determine
static double tolm(Truth const & t) { double e = 4e-15 * t.E * t.E + 1e-300; return t.m > 0 ? std::min(e / t.m, std::sqrt(e)) + 4e-16 * t.E : std::sqrt(e) + 4e-16 * t.E; }
static double tolp(Truth const & t) { return 1e-13 * t.pm + 4e-15 * t.E * t.E / std::max(t.pm, 1e-300); }

static void check_getters(PrimaryDistributionRecord const & r, Truth const & t, int have, int const * order, int n, std::string const & tag) {
    double px = 1e-12 * t.scale;
    for(int i = 0; i < n; ++i) {
        int w = order[i]; bool must = derivable(have, w); bool threw = false; double got = 0; V3 g{0, 0, 0};
        try { switch(w) { case M: got = r.GetMass(); break; case E: got = r.GetEnergy(); break; case K: got = r.GetKineticEnergy(); break; case D: g = r.GetDirection(); break; case P: g = r.GetThreeMomentum(); break;
            case L: got = r.GetLength(); break; case X: g = r.GetInitialPosition(); break; case V: g = r.GetInteractionVertex(); break; case A: g = r.GetPointOfClosestApproach(); break; case DV: got = r.GetVertexDistanceFromClosestApproach(); break; case D0: got = r.GetInitialDistanceFromClosestApproach(); break; } }
        catch(std::runtime_error const &) { threw = true; }
        if(threw) { CHECK("refuses-derivable", !must, "%s refused although given set=%#x (%s)", nm(w), have, tag.c_str()); obs("refused"); continue; }
        seen("get %s from %x", nm(w), have);
        obs(std::string("derived-") + nm(w));
        bool ok; double dt = 1e-13 + 1e-13 * t.scale / t.len;
        switch(w) {
            case M: ok = std::fabs(got - t.m) <= tolm(t); break;
            case E: ok = std::fabs(got - t.E) <= 1e-13 * t.E; break;
            case K: ok = std::fabs(got - t.KE) <= 1e-12 * t.E; break;
            case D: ok = vclose(g, t.dir, dt); break;
            case P: ok = vclose(g, t.p, tolp(t)); break;
            case L: ok = std::fabs(got - t.len) <= px; break;
            case X: ok = vclose(g, t.x0, px); break; case V: ok = vclose(g, t.v, px); break;
            case A: ok = vclose(g, t.pca, px + dt * t.scale); break;
            case DV: ok = std::fabs(got - t.dv) <= px + dt * t.scale; break; case D0: ok = std::fabs(got - t.d0) <= px + dt * t.scale; break;
            default: ok = false; }
        V3 tv = w == D ? t.dir : w == P ? t.p : w == X ? t.x0 : w == V ? t.v : t.pca; double ts = w == M ? t.m : w == E ? t.E : w == K ? t.KE : w == L ? t.len : w == DV ? t.dv : t.d0;
        bool vec = w == D || w == P || w == X || w == V || w == A;
        CHECK(std::string("derived-value-") + nm(w), ok, "%s given=%#x got %s truth %s (E=%g m=%g len=%g) %s", nm(w), have, vec ? vs(g).c_str() : mon::fmt("%.17g", got).c_str(), vec ? vs(tv).c_str() : mon::fmt("%.17g", ts).c_str(), t.E, t.m, t.len, tag.c_str());
    }
}

GROUP(P01, primary, 24000, 1200000) {
    Rng & r = c.r; Truth t = gen(r);
    PrimaryDistributionRecord rec(ParticleType::NuMu);
    int all[] = {M, E, K, D, P, L, X, V, A, DV, D0}; int have = 0; double dens = r.u(0.15, 0.85);
    for(int i = 10; i > 0; --i) std::swap(all[i], all[r.i(i + 1)]);
    bool overwrite = r.coin(0.2), particle = r.coin(0.05), four = r.coin(0.2);
    auto setone = [&](int w, Truth const & t) { switch(w) {
        case M: rec.SetMass(t.m); break; case E: rec.SetEnergy(t.E); break; case K: rec.SetKineticEnergy(t.KE); break; case D: rec.SetDirection(t.dir); break; case P: rec.SetThreeMomentum(t.p); break;
        case L: rec.SetLength(t.len); break; case X: rec.SetInitialPosition(t.x0); break; case V: rec.SetInteractionVertex(t.v); break; case A: rec.SetPointOfClosestApproach(t.pca); break;
        case DV: rec.SetVertexDistanceFromClosestApproach(t.dv); break; case D0: rec.SetInitialDistanceFromClosestApproach(t.d0); break; } };
    Truth wrong = gen(r);
    std::vector<int> given;
    for(int w : all) if(r.u() < dens) given.push_back(w);
    if(overwrite) { for(int w : given) setone(w, wrong);   // a second assignment must fully replace the first, also after derived values were read
        if(r.coin()) { try { rec.GetFourMomentum(); rec.GetInteractionTime(); } catch(std::runtime_error const &) {} for(int w : all) { try { switch(w) { case M: rec.GetMass(); break; case D: rec.GetDirection(); break; case A: rec.GetPointOfClosestApproach(); break; case D0: rec.GetInitialDistanceFromClosestApproach(); break; default: break; } } catch(std::runtime_error const &) {} } } }
    for(int w : given) { setone(w, t); have |= w; }
    if(four) { rec.SetFourMomentum({t.E, t.p[0], t.p[1], t.p[2]}); have |= E | P; }
    if(particle) { Particle p(rec.GetID(), rec.GetType(), t.m, {t.E, t.p[0], t.p[1], t.p[2]}, t.x0, t.len, t.hel); rec.SetParticle(p); have |= M | E | P | X | L; }
    if(!have) have = 0;
    bool ht = r.coin(); if(ht) rec.SetInitialTime(t.t0); double t0 = ht ? t.t0 : 0;
    bool hh = r.coin() || particle; if(hh) rec.SetHelicity(t.hel);
    bool hi = r.coin(0.15); double ti = r.u(-1e4, 1e4); if(hi) rec.SetInteractionTime(ti);
    std::map<std::string, double> par; for(int i = r.i(4); i > 0; --i) par["k" + std::to_string(r.i(5))] = r.normal();
    if(r.coin()) rec.SetInteractionParameters(par); else for(auto & kv : par) rec.SetInteractionParameter(kv.first, kv.second);
    int order[22]; for(int i = 0; i < 22; ++i) order[i] = all[i % 11]; for(int i = 21; i > 0; --i) std::swap(order[i], order[r.i(i + 1)]);
    std::string tag = mon::fmt("overwrite=%d particle=%d four=%d", overwrite, particle, four);
    check_getters(rec, t, have, order, 22, tag);
    // four momentum
    bool mP = derivable(have, P), mE = derivable(have, E);
    try { V4 q = rec.GetFourMomentum();
        CHECK("four-momentum", close(q[0], t.E, 1e-13) && vclose({q[1], q[2], q[3]}, t.p, tolp(t)), "given=%#x got E=%.17g p=(%.17g %.17g %.17g), truth E=%.17g p=%s", have, q[0], q[1], q[2], q[3], t.E, vs(t.p).c_str());
    } catch(std::runtime_error const &) { CHECK("refuses-derivable", !(mP && mE), "four momentum refused although given=%#x", have); }
    double texp = hi ? ti : t0 + t.dt; bool tmust = hi || (derivable(have, X) && derivable(have, V) && mE && derivable(have, M));
    double ttol = 1e-9 * (std::fabs(t0) + t.dt) + 1e-12 * t.scale / C; // mass recovered from a boosted four-momentum is only good to tolm
    if(!(have & M)) ttol += t.dt * tolm(t) * (t.m + tolm(t)) / std::max(t.pm * t.pm, 1e-300);
    try { double g = rec.GetInteractionTime(); CHECK("interaction-time", std::fabs(g - texp) <= ttol, "given=%#x got %.17g expected %.17g (m=%.17g E=%.17g len=%.17g scale=%.17g)", have, g, texp, t.m, t.E, t.len, t.scale); }
    catch(std::runtime_error const &) { CHECK("refuses-derivable", !tmust, "interaction time refused although given=%#x", have); }
    if(hh) CHECK("helicity", rec.GetHelicity() == t.hel, "helicity %g expected %g", rec.GetHelicity(), t.hel);
    CHECK("initial-time", rec.GetInitialTime() == t0, "initial time %g expected %g", rec.GetInitialTime(), t0);
    // finalisation: all or nothing consistency of the written record
    InteractionRecord out; out.interaction_parameters["old"] = 5; bool fin = true;
    bool must = derivable(have, X) && derivable(have, V) && derivable(have, M) && mP && mE;
    try { rec.Finalize(out); } catch(std::runtime_error const &) { fin = false; CHECK("finalize-refuses", !must, "Finalize refused although given=%#x", have); }
    if(fin) {
        obs("finalized"); seen("finalize %x", have);
        CHECK("finalized-type-id", out.signature.primary_type == ParticleType::NuMu && out.primary_id == rec.GetID() && bool(out.primary_id), "id/type not transferred");
        CHECK("finalized-mass", std::fabs(out.primary_mass - t.m) <= tolm(t), "given=%#x mass %.17g truth %.17g", have, out.primary_mass, t.m);
        CHECK("finalized-momentum", close(out.primary_momentum[0], t.E, 1e-13) && vclose({out.primary_momentum[1], out.primary_momentum[2], out.primary_momentum[3]}, t.p, tolp(t)), "given=%#x E %.17g truth %.17g", have, out.primary_momentum[0], t.E);
        CHECK("finalized-positions", vclose(out.primary_initial_position, t.x0, 1e-12 * t.scale) && vclose(out.interaction_vertex, t.v, 1e-12 * t.scale), "given=%#x x0 %s truth %s vertex %s truth %s", have, vs(out.primary_initial_position).c_str(), vs(t.x0).c_str(), vs(out.interaction_vertex).c_str(), vs(t.v).c_str());
        CHECK("finalized-times", out.primary_initial_time == t0 && std::fabs(out.interaction_time - texp) <= ttol, "given=%#x t0 %g/%g t1 %.17g/%.17g", have, out.primary_initial_time, t0, out.interaction_time, texp);
        CHECK("finalized-helicity", out.primary_helicity == (hh ? t.hel : 0), "helicity %g", out.primary_helicity);
        bool pok = out.interaction_parameters.count("old") && out.interaction_parameters.size() == par.size() + 1; for(auto & kv : par) pok = pok && out.interaction_parameters.count(kv.first) && out.interaction_parameters[kv.first] == kv.second;
        CHECK("finalized-parameters", pok, "interaction parameters not all transferred");
    }
    // partial finalisation: available quantities are written, the others are left alone
    InteractionRecord av; av.primary_mass = -77; av.primary_momentum = {-77, -78, -79, -80}; av.primary_initial_position = {-1e9, 2, 3}; av.interaction_vertex = {-1e9, 5, 6}; av.interaction_time = -7.7e9;
    rec.FinalizeAvailable(av);
    auto avail = [&](char const * what, int w, bool untouched, bool ok) { CHECK("finalize-available", ok || (untouched && !derivable(have, w)), "%s wrong after FinalizeAvailable, given=%#x", what, have); };
    avail("mass", M, av.primary_mass == -77, std::fabs(av.primary_mass - t.m) <= tolm(t));
    avail("energy", E, av.primary_momentum[0] == -77, close(av.primary_momentum[0], t.E, 1e-13));
    avail("momentum", P, av.primary_momentum[1] == -78 && av.primary_momentum[2] == -79 && av.primary_momentum[3] == -80, vclose({av.primary_momentum[1], av.primary_momentum[2], av.primary_momentum[3]}, t.p, tolp(t)));
    avail("position", X, av.primary_initial_position[0] == -1e9, vclose(av.primary_initial_position, t.x0, 1e-12 * t.scale));
    avail("vertex", V, av.interaction_vertex[0] == -1e9, vclose(av.interaction_vertex, t.v, 1e-12 * t.scale));
    CHECK("finalize-available", (std::fabs(av.interaction_time - texp) <= ttol) || (av.interaction_time == -7.7e9 && !tmust), "interaction time %g expected %g given=%#x", av.interaction_time, texp, have);
    CHECK("finalize-available", av.primary_id == rec.GetID() && av.primary_initial_time == t0, "id/initial time after FinalizeAvailable");
    Particle p = rec.GetParticle();
    CHECK("particle-view", p.id == rec.GetID() && p.type == ParticleType::NuMu && (p.mass == 0 || std::fabs(p.mass - t.m) <= tolm(t)) && (p.momentum[0] == 0 || close(p.momentum[0], t.E, 1e-13)) && (p.length == 0 || std::fabs(p.length - t.len) <= 1e-12 * t.scale), "GetParticle inconsistent given=%#x", have);
    if(derivable(have, M)) CHECK("particle-view", std::fabs(p.mass - t.m) <= tolm(t), "GetParticle mass %g truth %g given=%#x", p.mass, t.m, have);
    if(derivable(have, X)) CHECK("particle-view", vclose(p.position, t.x0, 1e-12 * t.scale), "GetParticle position given=%#x", have);
    if(c.cas % 64 == 0) { std::string s = to_str(rec) + to_repr(rec); obs("printed", s.size() > 0); }
}

GROUP(P01, secondary_particle, 16000, 600000) {
    Rng & r = c.r; InteractionRecord base; size_t n = 1 + r.i(5);
    base.signature.primary_type = ParticleType::NuMu; base.signature.target_type = ParticleType::Nucleon;
    for(size_t i = 0; i < n; ++i) base.signature.secondary_types.push_back(r.pick({ParticleType::MuMinus, ParticleType::Hadrons, ParticleType::NuMu, ParticleType::Gamma}));
    Truth pt = gen(r); base.primary_id = ParticleID::GenerateID(); base.primary_mass = pt.m; base.primary_momentum = {pt.E, pt.p[0], pt.p[1], pt.p[2]}; base.primary_initial_position = pt.x0; base.interaction_vertex = pt.v; base.primary_helicity = pt.hel;
    base.primary_initial_time = pt.t0; base.interaction_time = pt.t1; base.target_mass = r.lu(0.1, 200); base.target_helicity = r.pick({-0.5, 0.5}); base.interaction_parameters["keep"] = 3;
    bool hastid = r.coin(); if(hastid) base.target_id = ParticleID::GenerateID();
    bool presec = r.coin(); if(presec) for(size_t i = 0; i < n; ++i) base.secondary_ids.push_back(r.coin(0.7) ? ParticleID::GenerateID() : ParticleID());
    InteractionRecord out = base;
    CrossSectionDistributionRecord cs(base);
    CHECK("cs-view", cs.GetPrimaryID() == base.primary_id && cs.GetPrimaryType() == ParticleType::NuMu && cs.GetPrimaryMass() == pt.m && cs.GetPrimaryMomentum() == base.primary_momentum && cs.GetPrimaryHelicity() == pt.hel && cs.GetPrimaryInitialPosition() == pt.x0 && cs.GetInteractionVertex() == pt.v && cs.GetInteractionTime() == pt.t1 && cs.GetTargetMass() == base.target_mass && cs.GetTargetHelicity() == base.target_helicity && cs.GetTargetType() == ParticleType::Nucleon && cs.GetSignature() == base.signature, "view of the interaction record differs from it");
    CHECK("cs-view", bool(cs.GetTargetID()) && (!hastid || cs.GetTargetID() == base.target_id), "target id");
    CHECK("cs-view", cs.GetSecondaryParticleRecords().size() == n, "number of secondaries %zu expected %zu", cs.GetSecondaryParticleRecords().size(), n);
    bool over = r.coin(0.4); double tov = pt.t1 + r.u(-10, 100); bool early = r.coin();
    if(over && early) cs.SetInteractionTime(tov);
    double tm = r.lu(0.1, 300), th = r.pick({-0.5, 0.5}); if(r.coin()) cs.SetTargetMass(tm); else tm = cs.GetTargetMass(); if(r.coin()) cs.SetTargetHelicity(th); else th = cs.GetTargetHelicity();
    std::map<std::string, double> par; for(int i = r.i(4); i > 0; --i) par["q" + std::to_string(i)] = r.normal();
    if(r.coin()) cs.SetInteractionParameters(par); else for(auto & kv : par) cs.SetInteractionParameter(kv.first, kv.second);
    std::vector<Truth> ts; std::vector<double> tsec; std::vector<int> have; bool must = true; std::set<std::pair<uint64_t, int64_t>> ids;
    for(size_t i = 0; i < n; ++i) {
        SecondaryParticleRecord & s = cs.GetSecondaryParticleRecord(i); Truth t = gen(r); int h = 0;
        CHECK("secondary-view", s.GetType() == base.signature.secondary_types[i] && s.secondary_index == i && s.GetInitialPosition() == pt.v && bool(s.GetID()) && (!(presec && base.secondary_ids[i]) || s.GetID() == base.secondary_ids[i]), "secondary %zu view", i);
        CHECK("secondary-id-unique", ids.insert({s.GetID().GetMajorID(), s.GetID().GetMinorID()}).second, "two secondaries share an id");
        int w5[] = {M, E, K, D, P}; for(int k = 4; k > 0; --k) std::swap(w5[k], w5[r.i(k + 1)]); double dens = r.u(0.3, 1);
        for(int w : w5) if(r.u() < dens) { h |= w; switch(w) { case M: s.SetMass(t.m); break; case E: s.SetEnergy(t.E); break; case K: s.SetKineticEnergy(t.KE); break; case D: s.SetDirection(t.dir); break; case P: s.SetThreeMomentum(t.p); break; } }
        if(r.coin(0.3)) { s.SetFourMomentum({t.E, t.p[0], t.p[1], t.p[2]}); h |= E | P; }
        if(r.coin(0.05)) { s.SetParticle(Particle(s.GetID(), s.GetType(), t.m, {t.E, t.p[0], t.p[1], t.p[2]}, {0, 0, 0}, 0, t.hel)); h |= M | E | P; }
        s.SetHelicity(t.hel);
        for(int rep = 0; rep < 8; ++rep) { int w = w5[r.i(5)]; bool mu = w == D ? (h & (D | P)) : derivable(h, w); try { double g = 0; V3 v{0, 0, 0}; bool ok = true;
                switch(w) { case M: g = s.GetMass(); ok = std::fabs(g - t.m) <= tolm(t); break; case E: g = s.GetEnergy(); ok = close(g, t.E, 1e-13); break; case K: g = s.GetKineticEnergy(); ok = std::fabs(g - t.KE) <= 1e-12 * t.E; break; case D: v = s.GetDirection(); ok = vclose(v, t.dir, 1e-13); break; case P: v = s.GetThreeMomentum(); ok = vclose(v, t.p, tolp(t)); break; }
                seen("sec %s %x", nm(w), h); CHECK(std::string("secondary-derived-") + nm(w), ok, "%s given=%#x got %.17g %s (truth m=%g E=%g p=%g)", nm(w), h, g, vs(v).c_str(), t.m, t.E, t.pm);
            } catch(std::runtime_error const &) { CHECK("refuses-derivable", !mu, "secondary %s refused given=%#x", nm(w), h); } }
        bool st = r.coin(0.3); double tt = r.u(-1e3, 1e3); if(st) s.SetTime(tt);
        tsec.push_back(st ? tt : (over ? tov : pt.t1)); ts.push_back(t); have.push_back(h);
        must = must && derivable(h, M) && derivable(h, E) && (derivable(h, P));
    }
    if(over && !early) cs.SetInteractionTime(tov);
    for(size_t i = 0; i < n; ++i) CHECK("secondary-time", cs.GetSecondaryParticleRecord(i).GetTime() == tsec[i], "secondary time %g expected %g", cs.GetSecondaryParticleRecord(i).GetTime(), tsec[i]);
    CHECK("cs-time", cs.GetInteractionTime() == (over ? tov : pt.t1), "vertex time %g", cs.GetInteractionTime());
    if(r.coin(0.2)) { out.secondary_masses.assign(r.i(7), 9); out.secondary_momenta.assign(r.i(7), V4{9, 9, 9, 9}); out.secondary_times.assign(r.i(7), 1); out.secondary_ids.assign(r.i(7), ParticleID()); }
    bool fin = true; try { cs.Finalize(out); } catch(std::runtime_error const &) { fin = false; CHECK("finalize-refuses", !must, "Finalize refused although all secondaries are determined"); }
    if(!fin) { obs("refused"); return; }
    obs("finalized"); seen("n=%zu over=%d pre=%d", n, over, presec);
    CHECK("cs-finalized-sizes", out.secondary_ids.size() == n && out.secondary_masses.size() == n && out.secondary_momenta.size() == n && out.secondary_helicities.size() == n && out.secondary_times.size() == n, "secondary arrays sized %zu %zu %zu %zu %zu for %zu particles", out.secondary_ids.size(), out.secondary_masses.size(), out.secondary_momenta.size(), out.secondary_helicities.size(), out.secondary_times.size(), n);
    CHECK("cs-finalized-target", out.target_id == cs.GetTargetID() && out.target_mass == tm && out.target_helicity == th, "target id/mass/helicity");
    CHECK("cs-finalized-time", out.interaction_time == (over ? tov : pt.t1), "vertex time %g", out.interaction_time);
    CHECK("cs-finalized-primary-untouched", out.primary_id == base.primary_id && out.primary_mass == base.primary_mass && out.primary_momentum == base.primary_momentum && out.primary_initial_position == base.primary_initial_position && out.interaction_vertex == base.interaction_vertex && out.primary_helicity == base.primary_helicity && out.primary_initial_time == base.primary_initial_time && out.signature == base.signature, "Finalize of the final state changed the initial state");
    bool pok = out.interaction_parameters.count("keep") && out.interaction_parameters.size() == 1 + par.size(); for(auto & kv : par) pok = pok && out.interaction_parameters.count(kv.first) && out.interaction_parameters[kv.first] == kv.second; CHECK("cs-finalized-parameters", pok, "parameters not transferred");
    for(size_t i = 0; i < n && i < out.secondary_masses.size() && i < out.secondary_momenta.size(); ++i) { Truth const & t = ts[i];
        CHECK("secondary-finalized", std::fabs(out.secondary_masses[i] - t.m) <= tolm(t) && close(out.secondary_momenta[i][0], t.E, 1e-13) && vclose({out.secondary_momenta[i][1], out.secondary_momenta[i][2], out.secondary_momenta[i][3]}, t.p, tolp(t)) && out.secondary_helicities.at(i) == t.hel && out.secondary_times.at(i) == tsec[i] && out.secondary_ids.at(i) == cs.GetSecondaryParticleRecord(i).GetID(), "secondary %zu of %zu given=%#x: m %.17g/%.17g E %.17g/%.17g hel %g/%g t %g/%g", i, n, have[i], out.secondary_masses[i], t.m, out.secondary_momenta[i][0], t.E, out.secondary_helicities[i], t.hel, out.secondary_times[i], tsec[i]); }
    if(c.cas % 64 == 0) { std::string s = to_str(cs) + to_repr(cs) + to_str(out) + to_repr(out); obs("printed", s.size() > 0); }
    // hand-over: every secondary becomes the primary of the next vertex
    InteractionRecord const & parent = out;
    for(size_t i = 0; i < n; ++i) {
        Truth const & t = ts[i]; std::unique_ptr<SecondaryDistributionRecord> sd(new SecondaryDistributionRecord(parent, i));
        if(r.coin(0.3)) { std::unique_ptr<SecondaryDistributionRecord> cp(new SecondaryDistributionRecord(*sd)); sd.swap(cp); obs("copied-record"); } // the copy must stand on its own
        bool same = sd->id == parent.secondary_ids[i] && sd->type == parent.signature.secondary_types[i] && sd->mass == parent.secondary_masses[i] && sd->momentum == parent.secondary_momenta[i] && sd->helicity == parent.secondary_helicities[i] && sd->initial_position == parent.interaction_vertex && sd->initial_time == parent.secondary_times[i] && sd->GetSecondaryIndex() == i;
        CHECK("handover", same, "secondary %zu handed over with different properties", i);
        CHECK("handover-direction", vclose(sd->direction, t.dir, 1e-9), "direction %s truth %s", vs(sd->direction).c_str(), vs(t.dir).c_str());
        bool th2 = false; try { sd->GetLength(); } catch(std::runtime_error const &) { th2 = true; } CHECK("handover-length-unset", th2, "length available before it was set");
        double len = r.coin(0.1) ? 0 : r.lu(1e-3, 1e5); bool ov = r.coin(0.3), noset = r.coin(0.1); double ot = r.u(-1e3, 1e3);
        if(ov) sd->SetInteractionTime(ot);
        if(noset) { InteractionRecord nx; bool threw = false; try { sd->Finalize(nx); } catch(std::runtime_error const &) { threw = true; } CHECK("handover-finalize-without-length", threw, "Finalize without a length wrote vertex %s (time override %d)", vs(nx.interaction_vertex).c_str(), ov); }
        if(r.coin(0.2)) sd->SetLength(len * 3 + 1);
        sd->SetLength(len); InteractionRecord nx; sd->Finalize(nx);
        V3 ev = add(parent.interaction_vertex, t.dir, len); double et = ov ? ot : parent.secondary_times[i] + (len > 0 ? len / (std::min(1.0, t.pm / t.E) * C) : 0);
        CHECK("handover-finalized", nx.primary_id == parent.secondary_ids[i] && nx.signature.primary_type == parent.signature.secondary_types[i] && nx.primary_mass == parent.secondary_masses[i] && nx.primary_momentum == parent.secondary_momenta[i] && nx.primary_helicity == parent.secondary_helicities[i] && nx.primary_initial_position == parent.interaction_vertex && nx.primary_initial_time == parent.secondary_times[i], "secondary vertex record differs from its parent");
        CHECK("handover-vertex", vclose(nx.interaction_vertex, ev, 1e-9 * (norm(ev) + len)), "vertex %s expected %s", vs(nx.interaction_vertex).c_str(), vs(ev).c_str());
        CHECK("handover-time", close(nx.interaction_time, et, 1e-9, 1e-9 * std::fabs(parent.secondary_times[i])), "time %.17g expected %.17g", nx.interaction_time, et);
    }
}

GROUP(P01, at_rest, 400, 4000) { // particles at rest have no direction: everything stays finite and in place
    Rng & r = c.r; InteractionRecord parent; parent.signature.primary_type = ParticleType::NuMu; parent.signature.secondary_types = {ParticleType::N4};
    double m = r.lu(1e-3, 100); parent.secondary_ids = {ParticleID::GenerateID()}; parent.secondary_masses = {m}; parent.secondary_momenta = {V4{m, 0, 0, 0}}; parent.secondary_helicities = {0}; parent.secondary_times = {r.u(0, 10)}; parent.interaction_vertex = {r.u(-5, 5), r.u(-5, 5), r.u(-5, 5)};
    SecondaryDistributionRecord sd(parent, 0); sd.SetLength(0); InteractionRecord nx; sd.Finalize(nx);
    seen("rest %ld", c.cas % 20);
    CHECK("rest-vertex", vclose(nx.interaction_vertex, parent.interaction_vertex, 1e-12), "vertex %s", vs(nx.interaction_vertex).c_str());
    CHECK("rest-time", nx.interaction_time == parent.secondary_times[0], "time %g", nx.interaction_time);
    PrimaryDistributionRecord pr(ParticleType::N4); pr.SetMass(m); if(r.coin()) pr.SetEnergy(m); else pr.SetKineticEnergy(0); pr.SetDirection({0, 0, 1}); pr.SetInitialPosition({1, 2, 3}); pr.SetLength(r.coin() ? 0 : 2.); InteractionRecord o; pr.Finalize(o);
    CHECK("rest-primary", o.primary_momentum[1] == 0 && o.primary_momentum[2] == 0 && o.primary_momentum[3] == 0 && o.primary_momentum[0] == m && o.interaction_time == 0, "at-rest primary p=(%g %g %g %g) t=%g", o.primary_momentum[0], o.primary_momentum[1], o.primary_momentum[2], o.primary_momentum[3], o.interaction_time);
}

GROUP(P01, identity_guards, 500, 5000) {
    Rng & r = c.r; Truth t = gen(r); PrimaryDistributionRecord rec(ParticleType::NuMu);
    Particle p(rec.GetID(), ParticleType::NuMu, t.m, {t.E, t.p[0], t.p[1], t.p[2]}, t.x0, t.len, t.hel);
    bool bid = r.coin(), bty = r.coin(); if(bid) p.id = ParticleID::GenerateID(); if(bty) p.type = r.pick({ParticleType::NuE, ParticleType::MuMinus, ParticleType::unknown});
    bool threw = false; try { rec.SetParticle(p); } catch(std::runtime_error const &) { threw = true; }
    seen("guard %d%d", bid, bty);
    CHECK("identity-guard", threw == (bid || bty), "SetParticle with wrong id=%d type=%d: threw=%d", bid, bty, threw);
    if(threw) { bool unset = false; try { rec.GetMass(); } catch(std::runtime_error const &) { unset = true; } CHECK("identity-guard-no-effect", unset, "rejected particle still changed the record"); }
    InteractionRecord b; b.signature.secondary_types = {ParticleType::MuMinus}; SecondaryParticleRecord s(b, 0); Particle q(s.GetID(), ParticleType::MuMinus, t.m, {t.E, t.p[0], t.p[1], t.p[2]}, t.x0, 0, t.hel); if(bid) q.id = ParticleID(); if(bty) q.type = ParticleType::MuPlus;
    threw = false; try { s.SetParticle(q); } catch(std::runtime_error const &) { threw = true; } CHECK("identity-guard", threw == (bid || bty), "secondary SetParticle wrong id=%d type=%d: threw=%d", bid, bty, threw);
}
MON_MAIN
