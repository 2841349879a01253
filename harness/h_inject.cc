// Injectors generate consistent events in the proportions their inputs ask for (P25); weights undo the generation (P26).
#include "injectref.h"
// sums of independent trials against their expectation (Bernstein)
struct Tally { double n = 0, d = 0, v = 0, b = 1; }; static void tally(char const * what, std::string const & cls, double hit, double p, double var, double b = 1) { static std::map<std::string, Tally> T; auto & t = T[std::string(what) + " " + cls]; t.n += 1; t.d += hit - p; t.v += var; t.b = std::max(t.b, b); double L = std::log(2e13), lim = std::sqrt(2 * t.v * L + t.b * t.b * L * L / 9) + t.b * L / 3; if(((long)t.n & 15) == 0) { CHECK(what, std::fabs(t.d) <= lim, "%s: off by %.6g after %.0f trials, more than %.6g", cls.c_str(), t.d, t.n, lim); obs(std::string("trials: ") + cls, 16); } }
// every event on its own: one process, one story
GROUP(P25, trees, 4000, 30000) { Rng & r = c.r; Scene s; if(!scene(r, s)) return; int vk = (int)r.i(s.m > 0 ? V_N : V_N); if(vk == V_DECAYRANGE && s.m == 0) vk = V_POINT; unsigned N = r.coin(0.1) ? 0 : (unsigned)r.ri(1, 8); Inj I = injector(r, s, vk, N, energy(r, s), direction(r, s), true); DetectorModel const & M = *s.M; std::string tag = mon::fmt("%s injector in %s, %zu kinds of secondaries", VN[vk], s.R.shape.c_str(), s.kinds.size());
    int maxdepth = r.ri(0, 3); bool dflt = r.coin(0.1); std::map<std::pair<InteractionTreeDatum *, size_t>, bool> asked; bool twice = false, strange = false; if(!dflt) { unsigned salt = (unsigned)r.next(); I.i->SetStoppingCondition([&, salt](InteractionTree const & t, std::shared_ptr<InteractionTreeDatum> d, size_t i) { bool in = false; for(auto & x : t.tree) in |= x == d; strange |= !in || i >= d->record.signature.secondary_types.size(); auto k = std::make_pair(d.get(), i); twice |= asked.count(k); bool stop = d->depth(t) >= maxdepth || t.tree.size() > 12 || ((salt + 7 * i + t.tree.size()) % 5) == 0; asked[k] = stop; return stop; }); }
    unsigned attempts = 0, good = 0; unsigned total = N ? N : (unsigned)r.ri(1, 8); bool reset = r.coin(0.1);
    for(unsigned it = 0; it < total; ++it) { asked.clear(); CHECK("more-to-come", (bool)*I.i, "%s: no more events after %u of %u attempts, %u of them good", tag.c_str(), attempts, N, good); InteractionTree T; std::string err; try { T = I.i->GenerateEvent(); } catch(std::exception const & e) { err = e.what(); } CHECK("generates", err.empty(), "%s: generating event %u of %u gives up with \"%s\"", tag.c_str(), it, N, err.c_str()); if(!err.empty()) return; ++attempts; bool ok = !T.tree.empty(); good += ok; CHECK("counts", I.i->InjectionAttempts() == attempts && I.i->InjectedEvents() == good && I.i->EventsToInject() == N, "%s: %u attempts counted as %u, %u events as %u", tag.c_str(), attempts, I.i->InjectionAttempts(), good, I.i->InjectedEvents()); if(!ok) { obs("failed events"); continue; } obs("events");
        CHECK("event-number", T.header.event_number == good - 1, "%s: event %u has number %zu", tag.c_str(), good - 1, (size_t)T.header.event_number); CHECK("stopping-condition", !twice && !strange, "%s: asked twice %d or for something not in the event %d", tag.c_str(), twice, strange);
        std::set<std::pair<size_t, size_t>> used; for(size_t i = 0; i < T.tree.size(); ++i) { auto & D = *T.tree[i]; InteractionRecord const & q = D.record; std::string at = tag + mon::fmt(", node %zu of %zu (%s)", i, T.tree.size(), sname(q.signature).c_str()); CHECK("node-ids", D.node_id == i && D.is_root() == (i == 0) && (i == 0 || D.parent_index < i), "%s: id %u parent %u", at.c_str(), D.node_id, D.parent_index); if(i > 0 && D.parent_index >= i) return; Kind const & K = kindof(s, D);
            if(i == 0) { CHECK("primary-type", q.signature.primary_type == s.prim.type && q.primary_mass == s.m, "%s: mass %g", at.c_str(), q.primary_mass); CHECK("on-shell", std::fabs(pof(q) - std::sqrt(std::max(0., q.primary_momentum[0] * q.primary_momentum[0] - s.m * s.m))) <= 1e-9 * q.primary_momentum[0], "%s", at.c_str()); double len = (Vector3D(q.interaction_vertex) - Vector3D(q.primary_initial_position)).magnitude(), beta = pof(q) / q.primary_momentum[0]; (void)beta; (void)len; }
            else { auto & P = *T.tree[D.parent_index]; auto & p = P.record; size_t n = p.signature.secondary_types.size(), hit = n; for(size_t j = 0; j < n; ++j) if(p.secondary_ids[j] == q.primary_id && p.signature.secondary_types[j] == q.signature.primary_type) hit = j; CHECK("parent", hit < n, "%s: the parent has no such particle", at.c_str()); if(hit == n) return; CHECK("one-story-per-particle", used.insert({D.parent_index, hit}).second, "%s: particle %zu of node %u goes on twice", at.c_str(), hit, D.parent_index); CHECK("same-particle", q.primary_mass == p.secondary_masses[hit] && q.primary_momentum == p.secondary_momenta[hit] && q.primary_helicity == p.secondary_helicities[hit] && q.primary_initial_position == p.interaction_vertex, "%s: momentum, mass, helicity or origin differ from the parent's", at.c_str()); CHECK("same-time", p.secondary_times.size() == n && p.secondary_times[hit] == q.primary_initial_time && q.primary_initial_time == p.interaction_time, "%s: starts at %g, parent interacts at %g", at.c_str(), q.primary_initial_time, p.interaction_time); CHECK("listed-as-daughter", std::count(P.daughter_indices.begin(), P.daughter_indices.end(), (std::uint32_t)i) == 1, "%s", at.c_str()); CHECK("asked-first", !dflt && asked.count({&P, hit}) && !asked.at({&P, hit}), "%s: not wanted by the stopping condition", at.c_str()); }
            // time of flight and what the interaction adds to it
            { double dt = -1; for(auto & x : K.xs) for(auto & g : x->GetPossibleSignatures()) if(g == q.signature) dt = x->dt; std::set<double> dts; for(auto & x : K.xs) for(auto & g : x->GetPossibleSignatures()) if(g == q.signature) dts.insert(x->dt); for(auto & x : K.dec) if(x->GetPossibleSignatures()[0] == q.signature) dts.insert(x->dt); double len = (Vector3D(q.interaction_vertex) - Vector3D(q.primary_initial_position)).magnitude(), fly = q.primary_initial_time + len / (pof(q) / q.primary_momentum[0] * siren::utilities::Constants::c); bool any = false; for(double x : dts) any |= std::fabs(q.interaction_time - fly - x) <= 1e-7 * (fly + x) + 1e-12; CHECK("time-of-flight", any, "%s: interacts at %.12g, arrives at %.12g", at.c_str(), q.interaction_time, fly); (void)dt; }
            // something that can happen here
            double rate = 0; bool known = false; for(auto & y : rates(K, M, q)) if(y.s == q.signature) { known = true; rate += y.v; } bool clear = s.R.clear(s.R.geo(Vector3D(q.interaction_vertex)), 1e-5 * s.R.S); CHECK("possible", known && (rate > 0 || !clear), "%s: %s", at.c_str(), known ? "never happens at this place" : "unknown interaction"); CHECK("target-mass", q.target_mass == (q.signature.target_type == PT::Decay ? 0 : M.GetTargetMass(q.signature.target_type)), "%s: target mass %g", at.c_str(), q.target_mass); size_t n = q.signature.secondary_types.size(); CHECK("complete-secondaries", q.secondary_ids.size() == n && q.secondary_masses.size() == n && q.secondary_momenta.size() == n && q.secondary_helicities.size() == n && q.secondary_times.size() == n, "%s", at.c_str()); if(q.secondary_momenta.size() != n) return; double y = q.interaction_parameters.count("y") ? q.interaction_parameters.at("y") : -1; CHECK("final-state-kept", y >= 0 && y <= 1 && q.secondary_helicities[0] == 0.5 && q.secondary_helicities[1] == -0.5 && std::fabs(q.secondary_momenta[0][1] - y * q.primary_momentum[1]) <= 1e-12 * pof(q) && std::fabs(q.secondary_momenta[1][3] - (1 - y) * q.primary_momentum[3]) <= 1e-12 * pof(q), "%s: y %g", at.c_str(), y); }
        // nothing that was wanted is missing
        for(auto & a : asked) if(!a.second) { size_t at = 0; while(at < T.tree.size() && T.tree[at].get() != a.first.first) ++at; CHECK("nothing-missing", at < T.tree.size() && used.count({at, a.first.second}), "%s: particle %zu of node %zu was wanted, but does not go on", tag.c_str(), a.first.second, at); } if(!dflt) for(auto & D : T.tree) for(size_t j = 0; j < D->record.signature.secondary_types.size(); ++j) CHECK("asked-for", asked.count({D.get(), j}) == s.kinds.count(D->record.signature.secondary_types[j]), "%s: the stopping condition was %sasked for %d", tag.c_str(), asked.count({D.get(), j}) ? "" : "not ", (int)D->record.signature.secondary_types[j]);
        seen("%s nodes %zu depth %d kinds %zu decay %d", VN[vk], std::min<size_t>(T.tree.size(), 8), T.tree.back()->depth(T), s.kinds.size(), T.tree[0]->record.signature.target_type == PT::Decay); }
    if(N) { bool thrown = false; try { I.i->GenerateEvent(); } catch(std::runtime_error const &) { thrown = true; } CHECK("no-more-than-asked", thrown && !(bool)*I.i && I.i->InjectionAttempts() == N, "%s: thrown %d, wants more %d, %u attempts of %u", tag.c_str(), thrown, (bool)*I.i, I.i->InjectionAttempts(), N); if(reset) { I.i->ResetInjectedEvents(); std::string err; try { auto T = I.i->GenerateEvent(); if(!T.tree.empty()) CHECK("event-number", T.header.event_number == 0, "%s: first event after a reset has number %zu", tag.c_str(), (size_t)T.header.event_number); } catch(std::exception const & e) { err = e.what(); } CHECK("reset", err.empty() && (N == 1 || (bool)*I.i), "%s: after a reset, \"%s\"", tag.c_str(), err.c_str()); } } }
// at a given place, what happens is drawn in proportion to how often it happens
GROUP(P25, choice, 4000, 30000) { Rng & r = c.r; Scene s; if(!scene(r, s)) return; Inj I = injector(r, s, V_POINT, 5, energy(r, s), direction(r, s), true); DetectorModel const & M = *s.M; Prim q; q.type = s.prim.type; q.m = s.m; q.p = s.pm * r.u(0.3, 3); q.E = std::sqrt(q.p * q.p + q.m * q.m); q.d = rv(r, 1); q.d.normalize(); Vector3D v = s.R.det(spot(r, s.R)) + rv(r, s.R.S * 0.02); if(!s.R.clear(s.R.geo(v), 1e-5 * s.R.S)) return; InteractionRecord rec = irec(q, v - q.d, v); rec.primary_id = sc::ParticleID::GenerateID(); auto ra = rates(s.prim, M, rec); double tot = 0; for(auto & x : ra) tot += x.v; std::string tag = mon::fmt("%zu cross sections and %zu decays in %s", s.prim.xs.size(), s.prim.dec.size(), s.R.shape.c_str());
    std::map<std::string, double> want; std::map<std::string, bool> dec; double pd = 0; for(auto & x : ra) { want[sname(x.s)] += x.v / tot; if(x.s.target_type == PT::Decay) pd += x.v / tot; } std::string top, last; double pt = 0; for(auto & w : want) if(w.second > pt) { pt = w.second; top = w.first; } last = want.empty() ? "" : want.begin()->first; std::string firsts = ra.empty() ? "" : sname(ra[0].s), lasts = ra.empty() ? "" : sname(ra.back().s);
    for(int it = 0; it < 40; ++it) { InteractionRecord x = rec; bool failed = false; std::string err; try { I.i->SampleCrossSection(x); } catch(siren::utilities::InjectionFailure const &) { failed = true; } catch(std::exception const & e) { err = e.what(); } CHECK("only-injection-failures", err.empty(), "%s: \"%s\"", tag.c_str(), err.c_str()); if(!err.empty()) return; CHECK("fails-only-when-nothing-happens", failed == !(tot > 0), "%s: %s at a total rate of %g per cm", tag.c_str(), failed ? "fails" : "succeeds", tot); if(failed) { seen("nothing happens"); return; } std::string n = sname(x.signature); CHECK("possible", want.count(n) && want[n] > 0, "%s: %s does not happen here", tag.c_str(), n.c_str()); auto var = [](double p) { return p * (1 - p); };
        tally("proportions", "decays", x.signature.target_type == PT::Decay, pd, var(pd)); tally("proportions", "most common", n == top, pt, var(pt)); double pf = want[firsts], pl = want[lasts]; tally("proportions", "first", n == firsts, pf, var(pf)); tally("proportions", "last", n == lasts, pl, var(pl)); double p1 = 0; for(auto & w : ra) if(w.s.target_type == ra[0].s.target_type) p1 += w.v / tot; tally("proportions", "first target", x.signature.target_type == ra[0].s.target_type, p1, var(p1));
        /* what depends on the mass of the target, and the energy, most */ { double mm = 0, mb = 0, m2 = 0, hitm = 0, km = 0; for(auto & x : s.prim.xs) km = std::max(km, x->k); for(auto & w : ra) if(w.v > 0 && w.s.target_type != PT::Decay) mm = std::max(mm, M.GetTargetMass(w.s.target_type)); if(mm > 0 && x.signature.target_type != PT::Decay) { double pw = 0; for(auto & w : ra) if(w.s.target_type != PT::Decay) { double y = M.GetTargetMass(w.s.target_type) / mm; mb += w.v * y; m2 += w.v * y * y; pw += w.v; } mb /= pw; m2 /= pw; hitm = M.GetTargetMass(x.signature.target_type) / mm; if(m2 - mb * mb > 1e-6) tally("proportions", km > 0 ? "mass of the target, rising" : "mass of the target", hitm, mb, m2 - mb * mb); } }
        // the final state is the one of the interaction drawn
        double mean = 0, m2 = 0, w = 0; for(auto & z : ra) if(z.s == x.signature) { w += z.v; mean += z.v * (z.a + 1) / (z.a + 2); m2 += z.v * (z.a + 1) / (z.a + 3); } mean /= w; m2 /= w; tally("final-states", x.signature.target_type == PT::Decay ? "of decays" : "of interactions", x.interaction_parameters.at("y"), mean, m2 - mean * mean); double cs = sj::CrossSectionProbability(s.M, s.prim.c, x), cw = cspro(s.prim, M, x); CHECK("probability", fits(cs, cw, 1e-9), "%s: %s has probability %.12g, expected %.12g", tag.c_str(), n.c_str(), cs, cw); InteractionRecord other = x; other.primary_id = rec.primary_id; CHECK("rest-untouched", x.primary_momentum == rec.primary_momentum && x.interaction_vertex == rec.interaction_vertex && x.primary_initial_position == rec.primary_initial_position && x.primary_mass == rec.primary_mass && x.primary_id == rec.primary_id, "%s: sampling the interaction changes the primary", tag.c_str()); }
    // what cannot happen has no probability
    if(!ra.empty()) { InteractionRecord x = rec; x.signature = ra[0].s; x.signature.secondary_types.push_back(PT::Gamma); x.interaction_parameters["y"] = 0.5; CHECK("impossible", sj::CrossSectionProbability(s.M, s.prim.c, x) == 0, "%s: an unknown interaction has probability %g", tag.c_str(), sj::CrossSectionProbability(s.M, s.prim.c, x)); } seen("targets %zu decays %zu xs %zu channels %zu dominant %d", totals(s.prim, M, rec).t.size(), s.prim.dec.size(), s.prim.xs.size(), want.size(), (int)(pt * 5)); }
// the weight of an event from its parts
static double nodegen(Inj const & I, Scene const & s, InteractionTreeDatum const & D, std::vector<WD> const & shared) { double g = cspro(kindof(s, D), *s.M, D.record); auto add = [&](WD d) { for(auto & x : shared) if(x == d) return; g *= d->GenerationProbability(s.M, kindof(s, D).c, D.record); }; if(D.is_root()) { for(auto & d : I.pp->GetPrimaryInjectionDistributions()) add(d); } else add(I.sv.at(D.record.signature.primary_type)); return g; }
GROUP(P26, weights, 1500, 30000) { Rng & r = c.r; Scene s; if(!scene(r, s)) return; DetectorModel const & M = *s.M; size_t ni = r.coin() ? 1 : 2 + r.i(2); std::vector<Inj> I; PD d = direction(r, s); PD e0 = energy(r, s); bool point = r.coin(0.2); /* a density along a line and one in a volume do not mix */ for(size_t i = 0; i < ni; ++i) { int vk = point ? V_POINT : 1 + (int)r.i(V_N - 1); if(vk == V_DECAYRANGE && s.m == 0) vk = V_RANGE; I.push_back(injector(r, s, vk, (unsigned)r.ri(1, 50), r.coin() ? e0 : energy(r, s), r.coin(0.8) ? d : direction(r, s), true)); auto md = std::make_shared<int>(r.ri(0, 2)); I.back().i->SetStoppingCondition([md](InteractionTree const & t, std::shared_ptr<InteractionTreeDatum> x, size_t) { return x->depth(t) >= *md || t.tree.size() > 8; }); }
    // the physical side: some of the distributions are the very ones used for the generation
    auto ph = std::make_shared<sj::PhysicalProcess>(s.prim.type, s.prim.c); std::vector<WD> pd; double norm = 1; for(auto & x : I[0].pp->GetPrimaryInjectionDistributions()) if(x != I[0].v && r.coin(0.6)) pd.push_back(x); auto pl = std::make_shared<sd::PowerLaw>(r.u(0, 4), std::max(s.pm * 0.1, s.m * 1.01), s.pm * 100 + s.m * 2); bool hase = false; for(auto & x : pd) hase |= (bool)std::dynamic_pointer_cast<sd::PrimaryEnergyDistribution>(x); if(!hase) { if(r.coin()) { double n = r.lu(1e-3, 1e3); pl->SetNormalization(n); } pd.push_back(pl); } bool hasd = false; for(auto & x : pd) hasd |= (bool)std::dynamic_pointer_cast<sd::PrimaryDirectionDistribution>(x); if(!hasd) pd.push_back(std::make_shared<sd::IsotropicDirection>()); if(r.coin(0.4)) pd.push_back(std::make_shared<sd::NormalizationConstant>(r.lu(1e-6, 1e6))); for(size_t i = pd.size(); i > 1; --i) std::swap(pd[i - 1], pd[r.i(i)]); for(auto & x : pd) { ph->AddPhysicalDistribution(x); if(auto y = std::dynamic_pointer_cast<sd::PhysicallyNormalizedDistribution>(x)) if(y->IsNormalizationSet()) norm *= y->GetNormalization(); }
    std::vector<std::shared_ptr<sj::PhysicalProcess>> sp; bool partial = !s.kinds.empty() && r.coin(0.08); for(auto & k : s.kinds) { if(partial && k.first == s.kinds.begin()->first) continue; auto p = std::make_shared<sj::PhysicalProcess>(k.first, k.second.c); sp.push_back(p); } std::vector<std::shared_ptr<sj::Injector>> iv; for(auto & x : I) iv.push_back(x.i); std::shared_ptr<sj::Weighter> W = sp.empty() && r.coin() ? std::make_shared<sj::Weighter>(iv, s.M, ph) : std::make_shared<sj::Weighter>(iv, s.M, ph, sp); std::string tag = mon::fmt("%zu injectors (%s) in %s", ni, I[0].what.c_str(), s.R.shape.c_str());
    for(size_t gi = 0; gi < ni; ++gi) for(int it = 0; it < 6; ++it) try { if(!*I[gi].i) break; InteractionTree T = I[gi].i->GenerateEvent(); if(T.tree.empty()) continue; bool covered = true, edge = false; for(auto & D : T.tree) { if(partial && !D->is_root() && D->record.signature.primary_type == s.kinds.begin()->first) covered = false; if(!s.R.clear(s.R.geo(Vector3D(D->record.interaction_vertex)), 1e-5 * s.R.S)) edge = true; } if(!covered) { double w = W->EventWeight(T); CHECK("no-weight-without-physics", w == 0, "%s: weight %g though nothing says what a secondary does", tag.c_str(), w); obs("events with secondaries nothing is known of"); continue; }
        double num = numeric(s.R) ? 5e-3 : 0, inv = 0, tol = 3e-6, steep = 0, least = 1; bool nan = false; std::vector<double> gens; for(size_t i = 0; i < ni; ++i) { bool dots = false; double g = I[i].N, p = norm; std::vector<double> ip, svp; double genfull = I[i].N; for(auto & D : T.tree) { auto & q = D->record; Kind const & K = kindof(s, *D); std::vector<WD> shared; if(D->is_root()) for(auto & x : pd) for(auto & y : I[i].pp->GetPrimaryInjectionDistributions()) if(x == WD(y)) shared.push_back(x); double ng = nodegen(I[i], s, *D, shared), full = nodegen(I[i], s, *D, {}); g *= ng; genfull *= full; if(!(g > 0)) break; auto B = D->is_root() ? I[i].v->InjectionBounds(s.M, K.c, q) : I[i].sv.at(q.signature.primary_type)->InjectionBounds(s.M, K.c, q); Xs x = totals(K, M, q); Vector3D v(q.interaction_vertex), a = std::get<0>(B), b = std::get<1>(B); double dep = M.GetInteractionDepthInCGS(DetectorPosition(a), DetectorPosition(b), x.t, x.s, x.L), tr = M.GetInteractionDepthInCGS(DetectorPosition(a), DetectorPosition(v), x.t, x.s, x.L), rho = M.GetInteractionDensity(DetectorPosition(v), x.t, x.s, x.L), pre = M.GetInteractionDepthInCGS(DetectorPosition(Vector3D(q.primary_initial_position)), DetectorPosition(a), x.t, x.s, x.L); steep = std::max(steep, std::max(dep, tr)); least = std::min(least, dep); /* where one volume ends and the next one begins is known to within rounding, and so is whether something dense shows in between */ { double z = a.magnitude() + b.magnitude() + s.R.S, top = 0.01 / x.L; for(double y : x.s) top += 1.2e25 * y; if(1e-15 * z * 100 * top > 1e-7 * dep) { dots = true; least = 0; } } ip.push_back(-std::expm1(-dep)); svp.push_back(std::exp(-pre)); p *= rho * std::exp(-tr) * cspro(K, M, q); if(D->is_root()) for(auto & y : pd) { bool sh = false; for(auto & z : shared) sh |= z == y; if(!sh) p *= y->GenerationProbability(s.M, K.c, q); } }
            if(g > 0) { auto P = W->GetInteractionProbabilities(T, (int)i); auto U = W->GetSurvivalProbabilities(T, (int)i); CHECK("one-probability-per-interaction", P.size() == ip.size() && U.size() == ip.size(), "%s", tag.c_str()); if(P.size() != ip.size() || U.size() != ip.size()) return; for(size_t j = 0; j < ip.size() && !dots; ++j) { CHECK("interaction-probability", std::fabs(P[j] - ip[j]) <= (num + 1e-6) * ip[j] + 1e-25, "%s: %.12g, expected %.12g (node %zu)", tag.c_str(), P[j], ip[j], j); CHECK("survival-probability", std::fabs(U[j] - svp[j]) <= num + 1e-6, "%s: %.12g, expected %.12g (node %zu)", tag.c_str(), U[j], svp[j], j); } }
            if(g > 0 || i == gi) { double G = I[i].i->GenerationProbability(T); CHECK("generation-probability", edge || fits(G, genfull, 1e-6 + num), "%s: %.12g, expected %.12g", tag.c_str(), G, genfull); } if(!(g == g)) nan = true; gens.push_back(g); if(g > 0) inv += g / p; }
        CHECK("generated-where-generated", edge || nan || gens[gi] > 0, "%s: the injector of an event gives it a density of %g", tag.c_str(), gens[gi]); if(edge || nan || steep > 300 || least < 1e-25) { obs(edge ? "not judged: at an edge" : nan ? "not judged: nan" : steep > 300 ? "not judged: steep" : "not judged: vacuum"); continue; } double w = W->EventWeight(T), want = 1 / inv; tol += (1e-8 + num) * steep; CHECK("weight", fits(w, want, tol), "%s: %.12g, expected %.12g (%zu nodes)", tag.c_str(), w, want, T.tree.size()); CHECK("weight-again", W->EventWeight(T) == w, "%s", tag.c_str()); obs("weights"); int zero = 0; for(double g : gens) zero += g == 0; seen("%s %zu injectors %d unable nodes %zu shared %zu norm %d depth 1e%d", I[gi].what.c_str(), ni, zero, std::min<size_t>(T.tree.size(), 5), pd.size(), norm != 1, steep > 0 ? (int)std::floor(std::log10(steep)) : -99); } catch(std::runtime_error const & e) { /* the only densities without a formula are the ones along spheres */ if(!numeric(s.R) || std::string(e.what()).find("converge") == std::string::npos) throw; obs("not judged: no convergence"); } }
// all weights together make up the expected number of interactions, however the events were generated
GROUP(P26, closure, 250, 6000) { Rng & r = c.r; Scene s; if(!scene(r, s, true)) return; size_t ni = 1 + r.i(3); double lo = std::max(s.pm * 0.3, s.m * 1.5), hi = lo * r.u(1.5, 4), g0 = r.coin(0.3) ? 1 : r.u(-1, 3); PD fd = std::make_shared<sd::FixedDirection>(s.d); std::vector<Inj> I; int vk = V_POINT; std::vector<double> gam; double Ntot = 0; std::vector<double> frac; VD v = position(r, s, vk); for(size_t i = 0; i < ni; ++i) { double g = r.coin(0.3) ? g0 : r.u(-1, 3); unsigned N = (unsigned)r.ri(20, 80); gam.push_back(g); I.push_back(injector(r, s, vk, N, std::make_shared<sd::PowerLaw>(g, lo, hi), fd, false)); Ntot += N; }
    auto ph = std::make_shared<sj::PhysicalProcess>(s.prim.type, s.prim.c); auto pl = std::make_shared<sd::PowerLaw>(g0, lo, hi); double n = 1; if(r.coin()) { n = r.lu(1e-3, 1e3); pl->SetNormalization(n); } ph->AddPhysicalDistribution(pl); ph->AddPhysicalDistribution(fd); std::vector<std::shared_ptr<sj::Injector>> iv; for(auto & x : I) iv.push_back(x.i); sj::Weighter W(iv, s.M, ph);
    auto pdf = [&](double g, double E) { return std::fabs(g - 1) < 1e-12 ? 1 / (E * std::log(hi / lo)) : (1 - g) / (std::pow(hi, 1 - g) - std::pow(lo, 1 - g)) * std::pow(E, -g); }; double rmax = 0; for(int k = 0; k <= 20; ++k) { double E = lo + (hi - lo) * k / 20, q = 0; for(size_t i = 0; i < ni; ++i) q += I[i].N / Ntot * pdf(gam[i], E); rmax = std::max(rmax, pdf(g0, E) / q); } rmax *= 1.1; bool none = false, some = false; double last = -1; for(auto & x : I) while(*x.i) { InteractionTree T = x.i->GenerateEvent(); if(T.tree.empty()) { none = true; break; } some = true; auto & q = T.tree[0]->record; Xs xx = totals(s.prim, *s.M, q); auto B = x.v->InjectionBounds(s.M, s.prim.c, q); double dep = s.M->GetInteractionDepthInCGS(DetectorPosition(std::get<0>(B)), DetectorPosition(std::get<1>(B)), xx.t, xx.s, xx.L), P = -std::expm1(-dep); if(dep < 1e-25) { obs("all but nothing to interact with"); break; } if(last >= 0) CHECK("closure-setup", std::fabs(P - last) <= 1e-6 * P, "%.12g %.12g", P, last); last = P; double w = W.EventWeight(T) * Ntot / (n * P); CHECK("weight-in-range", w >= 0 && w <= rmax * 1.5, "%zu injectors: %g times the mean, more than %g (depth %g weight %g energy %g of %g..%g, index %g and %g)", ni, w, rmax, dep, W.EventWeight(T), q.primary_momentum[0], lo, hi, g0, gam[0]); tally("closure", mon::fmt("%zu injectors", ni), w, 1, rmax - 1 + 1e-3, rmax); tally("closure", "energy", w * std::log(q.primary_momentum[0] / lo) / std::log(hi / lo), [&] { double a = 0, b = 0; for(int k = 0; k < 400; ++k) { double u = (k + 0.5) / 400, E = lo * std::pow(hi / lo, u); a += u * pdf(g0, E) * E; b += pdf(g0, E) * E; } return a / b; }(), rmax, rmax); } seen("injectors %zu %s%s same %d", ni, none ? "none" : "", some ? "some" : "", (int)std::count(gam.begin(), gam.end(), g0)); }
MON_MAIN
