// P01: records made from complete records, what a secondary hands out as a particle, what a cross section record holds, kinds of particles, and the text forms.
#include "mon.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/Particle.h"
#include "SIREN/utilities/Constants.h"
#include <memory>
#include <sstream>
using namespace siren::dataclasses; using mon::close; using mon::Rng; using mon::seen; using mon::obs;
typedef std::array<double, 3> V3; typedef std::array<double, 4> V4; typedef ParticleType PT;
static std::vector<PT> const & all_types() { static std::vector<PT> v = {
#define X(a, b) PT::a,
#include "SIREN/dataclasses/ParticleTypes.def"
#undef X
}; return v; }
static V4 mom(Rng & r, double m) { double x, y, z, p = r.lu(1e-3, 1e5); r.dir(x, y, z); return {std::sqrt(m * m + p * p), p * x, p * y, p * z}; }
static V3 pos(Rng & r) { double s = r.lu(0.1, 1e6); return {s * r.u(-1, 1), s * r.u(-1, 1), s * r.u(-1, 1)}; }
static InteractionRecord rec(Rng & r) { InteractionRecord q; int n = (int)r.i(5); q.signature.primary_type = all_types()[r.i(all_types().size())]; q.signature.target_type = all_types()[r.i(all_types().size())]; if(r.coin(0.8)) q.primary_id = ParticleID::GenerateID(); if(r.coin()) q.target_id = ParticleID::GenerateID(); q.primary_mass = r.coin(0.3) ? 0 : r.lu(1e-4, 1e2); q.primary_momentum = mom(r, q.primary_mass); q.primary_helicity = r.u(-1, 1); q.primary_initial_position = pos(r); q.primary_initial_time = r.u(-1e3, 1e3); q.target_mass = r.lu(1e-3, 200); q.target_helicity = r.u(-1, 1); q.interaction_vertex = pos(r); q.interaction_time = r.u(-1e3, 1e3); bool ids = r.coin(), full = r.coin(0.7); for(int i = 0; i < n; ++i) { q.signature.secondary_types.push_back(all_types()[r.i(all_types().size())]); if(ids) q.secondary_ids.push_back(r.coin(0.8) ? ParticleID::GenerateID() : ParticleID()); if(full) { double m = r.coin(0.3) ? 0 : r.lu(1e-4, 1e2); q.secondary_masses.push_back(m); q.secondary_momenta.push_back(mom(r, m)); q.secondary_helicities.push_back(r.u(-1, 1)); q.secondary_times.push_back(r.u(-1e3, 1e3)); } } while(r.coin(0.4)) q.interaction_parameters[mon::fmt("p%d", (int)r.i(5))] = r.normal(); return q; }
// a record of a particle that goes on, made from the complete record of its interaction: stands on its own, keeps everything
GROUP(P01, continued, 3000, 100000) { Rng & r = c.r; InteractionRecord orig = rec(r); std::unique_ptr<InteractionRecord> q(new InteractionRecord(orig)); std::unique_ptr<SecondaryDistributionRecord> s(new SecondaryDistributionRecord(*q)); if(r.coin(0.3)) s.reset(new SecondaryDistributionRecord(SecondaryDistributionRecord(*s))); ParticleID given = q->primary_id; bool had = bool(orig.primary_id);
    CHECK("continued_identity", given && (!had || given == orig.primary_id) && s->id == given && s->record.primary_id == given, "identifier given %d", had);
    { InteractionRecord cmp = *q; cmp.primary_id = orig.primary_id; CHECK("continued_leaves_rest", cmp == orig, "the record handed in was changed"); }
    bool gone = r.coin(); if(gone) { q->primary_mass = -5; q->primary_momentum = {9, 9, 9, 9}; q->primary_helicity = 7; q->primary_initial_position = {1e9, 1e9, 1e9}; q->primary_initial_time = 1e99; q->signature.primary_type = PT::unknown; if(r.coin()) q.reset(); }
    CHECK("continued_values", s->type == orig.signature.primary_type && s->mass == orig.primary_mass && s->momentum == orig.primary_momentum && s->helicity == orig.primary_helicity && s->initial_position == orig.primary_initial_position && s->initial_time == orig.primary_initial_time, "type %d mass %g/%g", (int)s->type, s->mass, orig.primary_mass);
    double p = std::sqrt(orig.primary_momentum[1] * orig.primary_momentum[1] + orig.primary_momentum[2] * orig.primary_momentum[2] + orig.primary_momentum[3] * orig.primary_momentum[3]); bool dir = true; for(int i = 0; i < 3; ++i) dir = dir && close(s->direction[i], orig.primary_momentum[i + 1] / p, 1e-12, 1e-15); CHECK("continued_direction", dir, "%g", s->direction[0]);
    bool unset = false; try { s->GetLength(); } catch(std::runtime_error const &) { unset = true; } CHECK("continued_length_unset", unset, " "); double L = r.lu(1e-3, 1e7); s->SetLength(L); bool tset = r.coin(0.3); double t = r.u(-5, 5); if(tset) s->SetInteractionTime(t); double want = tset ? t : orig.primary_initial_time + L / (siren::utilities::Constants::c * p / orig.primary_momentum[0]) ; InteractionRecord o; s->Finalize(o); double sc = L + std::fabs(orig.primary_initial_position[0]) + std::fabs(orig.primary_initial_position[1]) + std::fabs(orig.primary_initial_position[2]);
    bool v = true; for(int i = 0; i < 3; ++i) v = v && std::fabs(o.interaction_vertex[i] - (orig.primary_initial_position[i] + L * orig.primary_momentum[i + 1] / p)) <= 1e-13 * sc; CHECK("continued_vertex", v, "(%.17g %.17g %.17g) after %g", o.interaction_vertex[0], o.interaction_vertex[1], o.interaction_vertex[2], L);
    CHECK("continued_finalized", o.primary_id == given && o.signature.primary_type == orig.signature.primary_type && o.primary_mass == orig.primary_mass && o.primary_momentum == orig.primary_momentum && o.primary_helicity == orig.primary_helicity && o.primary_initial_position == orig.primary_initial_position && o.primary_initial_time == orig.primary_initial_time && close(o.interaction_time, want, 1e-10, 1e-10 * std::fabs(orig.primary_initial_time)), "time %.17g expected %.17g (length %g)", o.interaction_time, want, L); seen("%d %d %d", had, gone, tset); }
// what the record of a cross section hands out, and what a secondary is as a particle
GROUP(P01, cross_section_record, 3000, 100000) { Rng & r = c.r; InteractionRecord q = rec(r), before = q; CrossSectionDistributionRecord x(q); CrossSectionDistributionRecord const & k = x; size_t n = q.signature.secondary_types.size();
    CHECK("csr_primary", k.GetSignature() == q.signature && k.GetPrimaryID() == q.primary_id && k.GetPrimaryType() == q.signature.primary_type && k.GetPrimaryInitialPosition() == q.primary_initial_position && k.GetPrimaryMass() == q.primary_mass && k.GetPrimaryMomentum() == q.primary_momentum && k.GetPrimaryHelicity() == q.primary_helicity && k.GetInteractionVertex() == q.interaction_vertex && k.GetInteractionTime() == q.interaction_time, " ");
    CHECK("csr_target", k.GetTargetID() && (!q.target_id || k.GetTargetID() == q.target_id) && k.GetTargetType() == q.signature.target_type && k.GetTargetMass() == q.target_mass && k.GetTargetHelicity() == q.target_helicity, " ");
    CHECK("csr_secondaries", k.GetSecondaryParticleRecords().size() == n && x.GetSecondaryParticleRecords().size() == n, "%zu of %zu", k.GetSecondaryParticleRecords().size(), n); bool t = false; try { k.GetSecondaryParticleRecord(n); } catch(std::exception const &) { t = true; } CHECK("csr_no_such_secondary", t, " ");
    double tm = q.target_mass, th = q.target_helicity; std::map<std::string, double> pars; if(r.coin()) x.SetTargetMass(tm = r.lu(0.1, 10)); if(r.coin()) x.SetTargetHelicity(th = r.u(-1, 1)); if(r.coin(0.6)) { int m = (int)r.i(4); for(int i = 0; i < m; ++i) pars[mon::fmt("p%d", (int)r.i(8))] = r.normal(); if(r.coin()) x.SetInteractionParameters(pars); else for(auto & e : pars) x.SetInteractionParameter(e.first, e.second); } bool same = true; for(auto & e : pars) { auto it = x.GetInteractionParameters().find(e.first); same = same && it != x.GetInteractionParameters().end() && it->second == e.second; } CHECK("csr_parameters", same, " "); bool ts = r.coin(0.4); double tv = r.u(-9, 9); if(ts) { x.SetInteractionTime(tv); CHECK("csr_time", k.GetInteractionTime() == tv, " "); }
    std::vector<double> M(n), H(n), T(n); std::vector<V4> P(n); std::vector<int> how(n); for(size_t i = 0; i < n; ++i) { SecondaryParticleRecord & s = x.GetSecondaryParticleRecord(i); CHECK("csr_secondary", s.GetType() == q.signature.secondary_types[i] && s.GetID() && (i >= q.secondary_ids.size() || !q.secondary_ids[i] || s.GetID() == q.secondary_ids[i]) && s.GetInitialPosition() == q.interaction_vertex && k.GetSecondaryParticleRecord(i).GetID() == s.GetID(), "%zu of %zu", i, n);
        Particle e = s.GetParticle(); CHECK("empty_particle", e.id == s.GetID() && e.type == s.GetType() && e.position == q.interaction_vertex && e.mass == 0 && e.momentum == V4({0, 0, 0, 0}), "before anything is set");
        M[i] = r.coin(0.3) ? 0 : r.lu(1e-3, 10); P[i] = mom(r, M[i]); H[i] = r.u(-1, 1); how[i] = (int)r.i(4); if(how[i] == 0) { s.SetMass(M[i]); s.SetFourMomentum(P[i]); s.SetHelicity(H[i]); } else if(how[i] == 1) { s.SetThreeMomentum({P[i][1], P[i][2], P[i][3]}); s.SetHelicity(H[i]); s.SetMass(M[i]); } else if(how[i] == 2) { Particle b(s.GetID(), s.GetType(), M[i], P[i], {0, 0, 0}, 3, H[i]); s.SetParticle(b); } else { double pm = std::sqrt(P[i][1] * P[i][1] + P[i][2] * P[i][2] + P[i][3] * P[i][3]); s.SetMass(M[i]); s.SetEnergy(P[i][0]); s.SetDirection({P[i][1] / pm, P[i][2] / pm, P[i][3] / pm}); s.SetHelicity(H[i]); } bool st = r.coin(0.3); T[i] = st ? r.u(-9, 9) : NAN; if(st) s.SetTime(T[i]);
        Particle b = s.GetParticle(); bool ok = b.id == s.GetID() && b.type == s.GetType() && close(b.mass, M[i], 1e-9) && b.helicity == H[i] && b.position == q.interaction_vertex; double loss = P[i][0] > M[i] && how[i] == 3 ? 1e-15 * P[i][0] * P[i][0] / std::max(P[i][0] - M[i], 1e-300) : 0; for(int j = 0; j < 4; ++j) ok = ok && close(b.momentum[j], P[i][j], 1e-9, 1e-11 * P[i][0] + loss); CHECK("as_particle", ok, "how %d: mass %.17g/%.17g E %.17g/%.17g px %.17g/%.17g", how[i], b.mass, M[i], b.momentum[0], P[i][0], b.momentum[1], P[i][1]); }
    InteractionRecord o = before; bool fresh = r.coin(0.3); if(fresh) { o = InteractionRecord(); o.signature = q.signature; o.interaction_time = q.interaction_time; } x.Finalize(o); CHECK("csr_source_untouched", q == before, "making or finalizing the record changed the record it was made from");
    CHECK("csr_finalized_target", o.target_id == k.GetTargetID() && o.target_mass == tm && o.target_helicity == th && o.interaction_time == (ts ? tv : q.interaction_time), "target mass %g/%g helicity %g/%g time %g", o.target_mass, tm, o.target_helicity, th, o.interaction_time); CHECK("csr_finalized_sizes", o.secondary_ids.size() == n && o.secondary_masses.size() == n && o.secondary_momenta.size() == n && o.secondary_helicities.size() == n && o.secondary_times.size() == n, " "); bool po = true; for(auto & e : pars) po = po && o.interaction_parameters.count(e.first) && o.interaction_parameters[e.first] == e.second; CHECK("csr_finalized_parameters", po, " "); if(o.secondary_ids.size() != n || o.secondary_times.size() != n) return;
    for(size_t i = 0; i < n; ++i) { double want = std::isnan(T[i]) ? q.interaction_time : T[i]; CHECK("csr_finalized_secondary", o.secondary_ids[i] == k.GetSecondaryParticleRecord(i).GetID() && close(o.secondary_masses[i], M[i], 1e-9) && o.secondary_helicities[i] == H[i] && close(o.secondary_momenta[i][0], P[i][0], 1e-9) && (o.secondary_times[i] == want || (ts && std::isnan(T[i]) && o.secondary_times[i] == tv)), "%zu of %zu: time %g expected %g", i, n, o.secondary_times[i], want); seen("%zu %d %d %d", n, how[i], ts, std::isnan(T[i])); } if(!fresh) CHECK("csr_keeps_primary", o.primary_id == before.primary_id && o.primary_momentum == before.primary_momentum && o.signature == before.signature && o.interaction_vertex == before.interaction_vertex && o.primary_initial_position == before.primary_initial_position && o.primary_helicity == before.primary_helicity, " "); }
// primaries for which only some things are known: what can be derived is written, the rest is left alone
GROUP(P01, available, 2000, 60000) { Rng & r = c.r; PrimaryDistributionRecord p(all_types()[r.i(all_types().size())]); double m = r.coin(0.3) ? 0 : r.lu(1e-3, 10); V4 P = mom(r, m); V3 x0 = pos(r), v = pos(r); bool sm = r.coin(), sp = r.coin(), se = r.coin(), sh = r.coin(), sx = r.coin(), sv = r.coin(), st = r.coin(), si = r.coin(0.3); double t0 = r.u(-99, 99), t1 = r.u(-99, 99), h = r.u(-1, 1); if(sm) p.SetMass(m); if(sp) p.SetThreeMomentum({P[1], P[2], P[3]}); if(se) p.SetEnergy(P[0]); if(sh) p.SetHelicity(h); if(sx) p.SetInitialPosition(x0); if(sv) p.SetInteractionVertex(v); if(st) p.SetInitialTime(t0); if(si) p.SetInteractionTime(t1);
    InteractionRecord q = rec(r), b = q; bool threw = false; try { p.FinalizeAvailable(q); } catch(...) { threw = true; } CHECK("available_never_refuses", !threw, "m%d p%d e%d x%d v%d", sm, sp, se, sx, sv); CHECK("available_identity", q.primary_id == p.GetID() && q.signature.primary_type == p.GetType(), " "); bool e = se || (sm && sp), mm = sm || (se && sp);
    CHECK("available_energy", e ? close(q.primary_momentum[0], P[0], 1e-9) : q.primary_momentum[0] == b.primary_momentum[0], "m%d p%d e%d: %.17g, true %.17g, before %.17g", sm, sp, se, q.primary_momentum[0], P[0], b.primary_momentum[0]); if(sp) CHECK("available_momentum", q.primary_momentum[1] == P[1] && q.primary_momentum[2] == P[2] && q.primary_momentum[3] == P[3], " "); CHECK("available_mass", sm ? q.primary_mass == m : mm ? std::fabs(q.primary_mass * q.primary_mass - m * m) <= 1e-13 * P[0] * P[0] : q.primary_mass == b.primary_mass, "m%d p%d e%d: %.17g true %.17g before %.17g", sm, sp, se, q.primary_mass, m, b.primary_mass); if(sx) CHECK("available_position", q.primary_initial_position == x0, " "); if(sv) CHECK("available_vertex", q.interaction_vertex == v, " "); if(sh) CHECK("available_helicity", q.primary_helicity == h, " "); if(st) CHECK("available_initial_time", q.primary_initial_time == t0, " "); if(si) CHECK("available_interaction_time", q.interaction_time == t1, " ");
    CHECK("available_leaves_rest", q.target_id == b.target_id && q.target_mass == b.target_mass && q.secondary_ids == b.secondary_ids && q.secondary_momenta == b.secondary_momenta && q.signature.target_type == b.signature.target_type, " "); seen("%d%d%d%d%d%d%d%d", sm, sp, se, sh, sx, sv, st, si); }
// kinds of particles, by their codes
GROUP(P01, kinds, 40, 400) { Rng & r = c.r; for(PT t : all_types()) { int a = std::abs((int)t); bool nu = a == 12 || a == 14 || a == 16, cl = a == 11 || a == 13 || a == 15, had = t == PT::Hadrons; CHECK("is_neutrino", isNeutrino(t) == nu, "%d", (int)t); CHECK("is_lepton", isLepton(t) == (nu || cl), "%d", (int)t); bool threw = false, ch = false; try { ch = isCharged(t); } catch(std::exception const &) { threw = true; } CHECK("is_charged", (nu || cl || had) ? (!threw && ch == (cl || had)) : threw, "%d", (int)t); CHECK("is_d_meson", isD(t) == (a == 421 || a == 411 || a == 431), "%d", (int)t); seen("%d", (int)t); }
    Particle p(all_types()[r.i(all_types().size())], 1, mom(r, 1), pos(r), 2, 0.5); CHECK("particle_without_id", !p.id, " "); ParticleID i = p.GenerateID(); CHECK("particle_new_id", i && p.id == i && p.GenerateID() != i, " "); Particle z; CHECK("blank_particle", !z.id && z.type == PT::unknown && z.mass == 0 && z.momentum == V4({0, 0, 0, 0}) && z.position == V3({0, 0, 0}) && z.length == 0 && z.helicity == 0, " "); }
// the text form names every value
GROUP(P01, text, 300, 3000) { Rng & r = c.r; auto has = [](std::string const & s, double v) { std::ostringstream o; o << v; return s.find(o.str()) != std::string::npos; }; InteractionRecord q = rec(r); q.primary_id = ParticleID::GenerateID(); q.target_id = ParticleID::GenerateID();
    for(int k = 0; k < 2; ++k) { std::string s = k ? to_repr(q) : to_str(q); bool ok = has(s, q.primary_mass) && has(s, q.primary_momentum[0]) && has(s, q.primary_momentum[3]); CHECK("text_of_record", !s.empty() && (k || ok), "%s", s.substr(0, 300).c_str()); }
    Particle p(ParticleID::GenerateID(), all_types()[r.i(all_types().size())], r.lu(1e-3, 9), mom(r, 1), pos(r), r.lu(1, 9), 0.5); for(int k = 0; k < 3; ++k) { std::ostringstream o; o << p; std::string s = k == 0 ? to_str(p) : k == 1 ? to_repr(p) : o.str(); bool ok = has(s, p.mass) && has(s, p.length) && has(s, p.helicity); for(double v : p.momentum) ok = ok && has(s, v); for(double v : p.position) ok = ok && has(s, v); CHECK("text_of_particle", ok, "%s", s.c_str()); }
    CrossSectionDistributionRecord x(q); std::ostringstream o; o << q << x; for(auto & s : x.GetSecondaryParticleRecords()) { s.SetMass(1.5); s.SetThreeMomentum({2.25, 3.125, 4.0625}); o << s << to_str(s) << to_repr(s); std::string u = to_repr(s); if(r.coin()) { s.SetEnergy(7.75); s.SetHelicity(0.25); s.SetKineticEnergy(6.25); s.SetDirection({0, 0, 1}); s.SetTime(9.5); } o << to_repr(s); CHECK("text_of_secondary", !u.empty(), " "); } o << to_str(x) << to_repr(x); PrimaryDistributionRecord d(PT::NuMu); if(r.coin()) d.SetEnergy(5); if(r.coin()) d.SetMass(1); if(r.coin()) d.SetDirection({0, 0, 1}); o << d << to_str(d) << to_repr(d); SecondaryDistributionRecord sd(q); if(r.coin()) sd.SetLength(3); o << sd << to_str(sd) << to_repr(sd); InteractionSignature const & g = q.signature; o << g << to_str(g) << to_repr(g); CHECK("text", o.str().size() > 100, " "); seen("%zu", q.signature.secondary_types.size()); }
