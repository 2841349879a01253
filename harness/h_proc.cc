// Lepton and decay ranges (P15) and processes (P16).
#include "mon.h"
#include "dist_pool.h"
#include "SIREN/distributions/primary/vertex/DecayRangeFunction.h"
#include "SIREN/distributions/primary/vertex/LeptonDepthFunction.h"
#include "SIREN/distributions/secondary/vertex/SecondaryPhysicalVertexDistribution.h"
#include "SIREN/distributions/secondary/vertex/SecondaryBoundedVertexDistribution.h"
#include "SIREN/injection/Process.h"
#include "SIREN/interactions/DummyCrossSection.h"
#include "SIREN/interactions/InteractionCollection.h"
using namespace siren; using namespace siren::distributions; using namespace siren::injection; using namespace mon; using PT = dataclasses::ParticleType; typedef long double LD;
static const PT ALL[] = {PT::NuE, PT::NuEBar, PT::NuMu, PT::NuMuBar, PT::NuTau, PT::NuTauBar, PT::TauMinus, PT::TauPlus, PT::MuMinus, PT::N4, PT::Gamma, PT::unknown};
static PT anyp(Rng & r) { return ALL[r.i(12)]; }
struct Other : DecayRangeFunction { double v; Other(double v) : DecayRangeFunction(1, 1, 1, 1), v(v) {} double operator()(PT const &, double) const override { return v; } bool equal(RangeFunction const & o) const override { auto x = dynamic_cast<Other const *>(&o); return x && x->v == v; } bool less(RangeFunction const & o) const override { return v < dynamic_cast<Other const &>(o).v; } };
struct OtherR : virtual RangeFunction { double v; OtherR(double v) : v(v) {} double operator()(PT const &, double) const override { return v; } bool equal(RangeFunction const & o) const override { auto x = dynamic_cast<OtherR const *>(&o); return x && x->v == v; } bool less(RangeFunction const & o) const override { return v < dynamic_cast<OtherR const &>(o).v; } };
struct OtherD : virtual DepthFunction { double v; OtherD(double v) : v(v) {} double operator()(PT const &, double) const override { return v; } bool equal(DepthFunction const & o) const override { auto x = dynamic_cast<OtherD const *>(&o); return x && x->v == v; } bool less(DepthFunction const & o) const override { return v < dynamic_cast<OtherD const &>(o).v; } };
template<class F> static void ordered(std::vector<std::shared_ptr<F>> const & v, char const * what) { size_t n = v.size(); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) { bool e = *v[i] == *v[j], l = *v[i] < *v[j], g = *v[j] < *v[i]; if(i == j) { CHECK("order_reflexive", e && !l, "%s", what); continue; } CHECK("order_consistent", e + l + g == 1 && e == (*v[j] == *v[i]), "%s %zu %zu: equal %d less %d greater %d", what, i, j, e, l, g); for(size_t k = 0; k < n; ++k) if(l && *v[j] < *v[k]) CHECK("order_transitive", *v[i] < *v[k], "%s", what); } }
// the range of a lepton losing a + b E per unit depth
GROUP(P15, lepton_depth, 8000, 300000) { Rng & r = c.r; LeptonDepthFunction f; double ma = 1.76666667e-3, mb = 2.0916666667e-6, ta = 1.473684210526e1, tb = 2.6315789473684212e-7, sc = 1, mx = 3e7; bool set = r.coin(0.8);
    if(set) { ma = r.lu(1e-4, 1); mb = r.lu(1e-8, 1e-2); ta = r.lu(1e-4, 100); tb = r.lu(1e-9, 1e-2); mx = r.lu(1, 1e9); f.SetMuParams(ma, mb); f.SetTauParams(ta, tb); f.SetMaxDepth(mx); }
    CHECK("parameters_kept", f.GetMuAlpha() == ma && f.GetMuBeta() == mb && f.GetTauAlpha() == ta && f.GetTauBeta() == tb && f.GetMaxDepth() == mx && f.GetScale() == sc, "set %d", set);
    PT p = anyp(r); bool tau = p == PT::NuTau || p == PT::NuTauBar; double E = r.coin(0.05) ? 0 : r.lu(1e-2, 1e12); DepthFunction const & g = f; double v = g(p, E);
    LD R = log1pl((LD)E * mb / ma) / mb + (tau ? log1pl((LD)E * tb / ta) / tb : 0); LD ref = std::min(R, (LD)mx), tol = 1e-12 * ref + 4e-16L / mb + (tau ? 4e-16L / tb : 0);
    CHECK("range", fabsl(v - ref) <= tol, "particle %d E %g: %.17g expected %.17Lg (mu %g %g tau %g %g max %g)", int(p), E, v, ref, ma, mb, ta, tb, mx); CHECK("capped", v <= mx && v >= 0, "%g of %g", v, mx);
    double E2 = E * r.u(1, 3) + 1e-9; CHECK("grows_with_energy", g(p, E2) >= v * (1 - 1e-12) - (double)tol, "%g %g at %g %g", v, g(p, E2), E, E2); if(tau) CHECK("tau_goes_further", v >= g(PT::NuMu, E), "%g", E);
    // independent of how it came about: the loss integrated step by step
    if(R < mx && r.coin(0.1) && E > 0) { LD s = 0; int n = 4000; LD u0 = 0, u1 = log1pl((LD)E * mb / ma), h = (u1 - u0) / n; for(int i = 0; i < n; ++i) { LD e0 = ma / (LD)mb * expm1l(u0 + i * h), e1 = ma / (LD)mb * expm1l(u0 + (i + 1) * h), em = ma / (LD)mb * expm1l(u0 + (i + 0.5L) * h); s += (e1 - e0) / (ma + mb * em); } LD mu = g(PT::NuMu, E); CHECK("loss_integral", fabsl(s - mu) <= 1e-4 * s + 4e-16L / mb, "%.12Lg %.12Lg", s, mu); }
    auto mk = [&](int k, double q) { auto o = std::make_shared<LeptonDepthFunction>(); o->SetMuParams(k == 0 ? ma * q : ma, k == 1 ? mb * q : mb); o->SetTauParams(k == 2 ? ta * q : ta, k == 3 ? tb * q : tb); o->SetMaxDepth(k == 4 ? mx * q : mx); o->SetScale(k == 5 ? q : 1); CHECK("parameters_kept", o->GetScale() == (k == 5 ? q : 1), "scale %g", o->GetScale()); return o; };
    std::vector<std::shared_ptr<DepthFunction>> v6; int k = (int)r.i(6); double q = r.coin() ? 1 + r.lu(1e-6, 1) : 1 - r.lu(1e-6, 0.5); v6 = {mk(-1, 1), mk(k, q), mk((int)r.i(6), r.u(0.5, 2)), std::make_shared<OtherD>(1.0), std::make_shared<OtherD>(2.0), mk(-1, 1)}; CHECK("parameters_distinguish", !(*v6[0] == *v6[1]), "parameter %d times %.17g", k, q); CHECK("equal_when_same", *v6[0] == *v6[5], "set %d", set); CHECK("kinds_differ", !(*v6[0] == *v6[3]) && !(*v6[3] == *v6[0]), " "); ordered(v6, "depth"); seen("%d t%d %d", set, tau, (int)std::log10(E + 1)); if(v == mx) obs("capped"); else obs("free"); }
GROUP(P15, decay_range, 8000, 300000) { Rng & r = c.r; double m = r.lu(1e-4, 100), w = r.lu(1e-30, 1e-2), mul = r.lu(0.1, 100), mx = r.lu(1e-3, 1e10); DecayRangeFunction f(m, w, mul, mx); double E = r.coin(0.05) ? m : m * (1 + r.lu(1e-6, 1e8)); PT p = anyp(r);
    CHECK("parameters_kept", f.ParticleMass() == m && f.DecayWidth() == w && f.Multiplier() == mul && f.MaxDistance() == mx, " ");
    LD bg = sqrtl(((LD)E - m) * ((LD)E + m)) / m, len = bg / w * 1.973269804593025e-16L; double L = f.DecayLength(p, E), S = DecayRangeFunction::DecayLength(m, w, E); double rel = 1e-13 + 2e-16 * E / std::max(1e-300, (E - m));
    CHECK("decay_length", L == S && (E == m ? L == 0 : fabsl(L - len) <= rel * len), "m %g w %g E %.17g: %.17g expected %.17Lg", m, w, E, L, len); RangeFunction const & g = f; double v = g(p, E); LD ref = std::min(len * mul, (LD)mx);
    CHECK("range", fabsl(v - ref) <= (E == m ? 0 : rel) * ref + 1e-15 * ref && f.Range(p, E) == v, "%g expected %Lg", v, ref); CHECK("capped", v <= mx && v >= 0, "%g of %g", v, mx); CHECK("grows_with_energy", g(p, E * 1.5) >= v, "%g %g", v, g(p, E * 1.5));
    // half the width, twice the length
    CHECK("inverse_to_width", close(DecayRangeFunction::DecayLength(m, w / 2, E), 2 * L, 1e-14, 0), "%g %g", DecayRangeFunction::DecayLength(m, w / 2, E), L);
    double q = r.coin() ? 1 + r.lu(1e-6, 1) : 1 - r.lu(1e-6, 0.5); int k = (int)r.i(4); auto mk = [&](int k, double q) { return std::make_shared<DecayRangeFunction>(k == 0 ? m * q : m, k == 1 ? w * q : w, k == 2 ? mul * q : mul, k == 3 ? mx * q : mx); }; std::vector<std::shared_ptr<RangeFunction>> s = {mk(-1, 1), mk(k, q), mk((int)r.i(4), r.u(0.5, 2)), std::make_shared<Other>(1.0), std::make_shared<OtherR>(2.0), std::make_shared<OtherR>(1.0), mk(-1, 1)}; CHECK("parameters_distinguish", !(*s[0] == *s[1]), "parameter %d times %.17g", k, q); CHECK("equal_when_same", *s[0] == *s[6], " "); CHECK("kinds_differ", !(*s[0] == *s[4]) && !(*s[4] == *s[0]), " "); s.erase(s.begin() + 3); ordered(s, "range"); seen("E%d c%d", (int)std::log10(E / m), v == mx); if(v == mx) obs("capped"); else obs("free"); }
// a process driven through a random history next to a model of what it should hold
typedef std::shared_ptr<interactions::InteractionCollection> IC;
static IC coll(Rng & r) { PT p = anyp(r); return std::make_shared<interactions::InteractionCollection>(p, std::vector<std::shared_ptr<interactions::CrossSection>>{std::make_shared<interactions::DummyCrossSection>()}); }
template<class V> static bool samep(V const & a, V const & b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(a[i].get() != b[i].get()) return false; return true; }
typedef std::shared_ptr<WeightableDistribution> WP; typedef std::shared_ptr<PrimaryInjectionDistribution> PP; typedef std::shared_ptr<SecondaryInjectionDistribution> SP;
static PP pdist(Rng & r) { return r.coin(0.5) ? std::static_pointer_cast<PrimaryInjectionDistribution>(std::make_shared<Monoenergetic>(r.pick({1., 2., 3., 5.}))) : r.coin(0.4) ? std::static_pointer_cast<PrimaryInjectionDistribution>(std::make_shared<PrimaryMass>(r.pick({0., 1., 2.}))) : pool::gen(r, (int)r.i(pool::KExt)); }
static SP sdist(Rng & r) { return r.coin(0.3) ? std::static_pointer_cast<SecondaryInjectionDistribution>(std::make_shared<SecondaryPhysicalVertexDistribution>()) : std::static_pointer_cast<SecondaryInjectionDistribution>(std::make_shared<SecondaryBoundedVertexDistribution>(r.pick({1., 2., 3., 4.}))); }
template<class D> static std::vector<D> list(Rng & r, std::vector<D> const & pool, D (*mk)(Rng &), bool & dup) { std::vector<D> v; int n = (int)r.i(5); for(int i = 0; i < n; ++i) v.push_back(!pool.empty() && r.coin(0.3) ? pool[r.i(pool.size())] : mk(r)); dup = false; for(size_t i = 0; i < v.size(); ++i) for(size_t j = i + 1; j < v.size(); ++j) dup |= *v[i] == *v[j]; return v; }
struct Model { PT t; IC i; std::vector<WP> w; std::vector<PP> p; std::vector<SP> s; };
template<class T, class F> static bool raises(F f) { try { f(); } catch(T const &) { return true; } return false; }
static WP wdist(Rng & r) { return r.coin(0.3) ? std::static_pointer_cast<WeightableDistribution>(std::make_shared<NormalizationConstant>(r.pick({1., 2.}))) : std::static_pointer_cast<WeightableDistribution>(pdist(r)); }
GROUP(P16, physical, 2500, 60000) { Rng & r = c.r; PT t = anyp(r); IC ic = coll(r); PhysicalProcess p(t, ic); Model m{t, ic, {}, {}, {}}; int steps = 3 + (int)r.i(14); std::string h;
    for(int k = 0; k < steps; ++k) { int op = (int)r.i(9); h += char('a' + op); switch(op) {
        case 0: case 1: { WP d = !m.w.empty() && r.coin(0.4) ? m.w[r.i(m.w.size())] : wdist(r); if(auto x = std::dynamic_pointer_cast<PrimaryInjectionDistribution>(d)) if(r.coin()) d = x->clone(); bool dup = false; for(auto & w : m.w) dup |= *w == *d; bool thrown = raises<std::runtime_error>([&] { p.AddPhysicalDistribution(d); }); CHECK("add_rejects_equal", thrown == dup, "history %s", h.c_str()); if(!thrown) m.w.push_back(d); if(dup) obs("duplicates"); break; }
        case 2: { bool dup; auto v = list<WP>(r, m.w, wdist, dup); if(!v.empty() && r.coin(0.3)) { if(auto x = std::dynamic_pointer_cast<PrimaryInjectionDistribution>(v[0])) { v.push_back(x->clone()); dup = true; } } bool thrown = raises<std::runtime_error>([&] { p.SetPhysicalDistributions(v); }); CHECK("set_rejects_equal", thrown == dup, "history %s: %zu", h.c_str(), v.size()); if(!thrown) m.w = v; if(dup) obs("duplicates"); break; }
        case 3: { PT q = anyp(r); p.SetPrimaryType(q); m.t = q; CHECK("interactions_follow_type", p.GetInteractions()->GetPrimaryType() == q, "history %s", h.c_str()); break; }
        case 4: { IC q = coll(r); p.SetInteractions(q); m.i = q; m.t = q->GetPrimaryType(); break; }
        case 5: { PhysicalProcess q(p); CHECK("copy_equal", q == p && samep(q.GetPhysicalDistributions(), m.w), "history %s", h.c_str()); q.SetInteractions(coll(r)); q.SetPhysicalDistributions({}); break; }
        case 6: { PhysicalProcess q(anyp(r), coll(r)); q = p; CHECK("assigned", q == p && samep(q.GetPhysicalDistributions(), m.w), "history %s", h.c_str()); PhysicalProcess u(std::move(q)); CHECK("moved", u == p && samep(u.GetPhysicalDistributions(), m.w), "history %s", h.c_str()); p = std::move(u); break; }
        case 7: { PhysicalProcess q(m.t, m.i); CHECK("equal_same", q == p, "history %s", h.c_str()); PhysicalProcess w(m.t == PT::NuE ? PT::NuMu : PT::NuE, m.i); CHECK("type_distinguishes", !(w == p), "history %s", h.c_str()); PhysicalProcess x(m.t, coll(r)); CHECK("interactions_distinguish", !(x == p), "history %s", h.c_str()); break; }
        default: { std::shared_ptr<Process> q = std::make_shared<Process>(r.coin() ? m.t : anyp(r), coll(r)); CHECK("matches_head", p.MatchesHead(q) == (q->GetPrimaryType() == m.t), "history %s", h.c_str()); } }
        CHECK("type", p.GetPrimaryType() == m.t, "history %s", h.c_str()); CHECK("interactions", p.GetInteractions() == m.i, "history %s", h.c_str()); CHECK("distributions", samep(p.GetPhysicalDistributions(), m.w), "history %s", h.c_str()); }
    seen("%s", h.substr(0, 5).c_str()); obs("steps", steps); }
// primary and secondary injection: what is injected is exactly what is weighted
template<class P, class D, class ADD, class SET, class GET> static void inject_history(Ctx & c, D (*mk)(Rng &), ADD add, SET set, GET get, char const * what) { Rng & r = c.r; PT t = anyp(r); IC ic = coll(r); P p(t, ic); std::vector<D> m; int steps = 3 + (int)r.i(12); std::string h;
    auto weighted = [](std::vector<D> const & v) { std::vector<WP> w; for(auto & d : v) w.push_back(d); return w; };
    for(int k = 0; k < steps; ++k) { int op = (int)r.i(7); h += char('a' + op); switch(op) {
        case 0: case 1: { D d = !m.empty() && r.coin(0.4) ? m[r.i(m.size())] : mk(r); if(r.coin()) d = d->clone(); bool dup = false; for(auto & w : m) dup |= *w == *d; bool thrown = raises<std::runtime_error>([&] { add(p, d); }); CHECK("add_rejects_equal", thrown == dup, "%s history %s", what, h.c_str()); if(!thrown) m.push_back(d); if(dup) obs("duplicates"); break; }
        case 2: { bool dup; auto v = list<D>(r, m, mk, dup); if(!v.empty() && r.coin(0.3)) { v.push_back(v[0]->clone()); dup = true; } bool thrown = raises<std::runtime_error>([&] { set(p, v); }); CHECK("set_rejects_equal", thrown == dup, "%s history %s: %zu", what, h.c_str(), v.size()); if(!thrown) m = v; if(dup) obs("duplicates"); break; }
        case 3: { WP d = wdist(r); CHECK("no_other_weights", raises<std::runtime_error>([&] { p.AddPhysicalDistribution(d); }), "%s history %s", what, h.c_str()); break; }
        case 4: { P q(p); CHECK("copy_equal", q == p && samep(get(q), m) && samep(q.GetPhysicalDistributions(), weighted(m)), "%s history %s", what, h.c_str()); set(q, {}); break; }
        case 5: { P q(anyp(r), coll(r)); q = p; CHECK("assigned", q == p && samep(get(q), m) && samep(q.GetPhysicalDistributions(), weighted(m)), "%s history %s", what, h.c_str()); P u(std::move(q)); CHECK("moved", u == p && samep(get(u), m) && samep(u.GetPhysicalDistributions(), weighted(m)), "%s history %s", what, h.c_str()); p = std::move(u); break; }
        default: { PT q = anyp(r); p.SetPrimaryType(q); t = q; CHECK("interactions_follow_type", ic->GetPrimaryType() == q, "%s history %s", what, h.c_str()); } }
        CHECK("type", p.GetPrimaryType() == t && p.GetInteractions() == ic, "%s history %s", what, h.c_str()); CHECK("injected", samep(get(p), m), "%s history %s", what, h.c_str()); CHECK("weighted_is_injected", samep(p.GetPhysicalDistributions(), weighted(m)), "%s history %s", what, h.c_str()); }
    seen("%s %s", what, h.substr(0, 4).c_str()); obs("steps", steps); }
GROUP(P16, primary_injection, 2500, 60000) { inject_history<PrimaryInjectionProcess, PP>(c, pdist, [](PrimaryInjectionProcess & p, PP d) { p.AddPrimaryInjectionDistribution(d); }, [](PrimaryInjectionProcess & p, std::vector<PP> const & v) { p.SetPrimaryInjectionDistributions(v); }, [](PrimaryInjectionProcess const & p) { return p.GetPrimaryInjectionDistributions(); }, "primary"); }
GROUP(P16, secondary_injection, 2500, 60000) { inject_history<SecondaryInjectionProcess, SP>(c, sdist, [](SecondaryInjectionProcess & p, SP d) { p.AddSecondaryInjectionDistribution(d); }, [](SecondaryInjectionProcess & p, std::vector<SP> const & v) { p.SetSecondaryInjectionDistributions(v); }, [](SecondaryInjectionProcess const & p) { return p.GetSecondaryInjectionDistributions(); }, "secondary"); SecondaryInjectionProcess p(PT::NuE, coll(c.r)); PT q = anyp(c.r); p.SetSecondaryType(q); CHECK("secondary_type", p.GetSecondaryType() == q && p.GetPrimaryType() == q && p.GetInteractions()->GetPrimaryType() == q, "%d", int(q)); }
MON_MAIN
