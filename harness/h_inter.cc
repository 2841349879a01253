// P07, P08, P09: decays. Widths against an independent reference, final states against conservation laws and the reported density.
#include "hnlref.h"
#include <SIREN/interactions/HNLDecay.h>
#include <SIREN/interactions/HNLDipoleDecay.h>
#include <SIREN/interactions/ElectroweakDecay.h>
#include <SIREN/interactions/CharmMesonDecay.h>
#include <SIREN/interactions/CharmMesonDecay3Body.h>
using namespace siren::interactions; using mon::Rng;

static double pmass(PT t) { return dataclasses::GetParticleMass(t); }
// a kinematic setting: momentum from at-rest-like to ultra-relativistic
static void kin(Rng & r, double m, double & p, double & x, double & y, double & z, double gmax) { double g = r.coin(0.15) ? 1 + r.lu(1e-6, 1e-2) : r.lu(1.01, gmax); p = m * std::sqrt(g * g - 1); r.dir(x, y, z); }
static std::vector<double> mixing(Rng & r) { std::vector<double> u(3); for(auto & q : u) q = r.coin(0.2) ? 0 : r.lu(1e-6, 1) * r.sgn(); if(u[0] == 0 && u[1] == 0 && u[2] == 0) u[r.i(3)] = r.lu(1e-4, 0.5); return u; }
static double hmass(Rng & r) { if(r.coin(0.35)) { static const double th[] = {2 * 0.000511, 0.1349770, 0.13957039, 0.13957039 + 0.105658374, 0.493677, 0.547862, 0.77526, 0.78266, 0.896, 0.95778, 1, 1.019461, 1.77686, 1.86966, 1.96835, 2 * 0.105658374, 2 * 1.77686, 1.77686 + 0.105658374, 80.379, 80.379 + 1.77686, 91.1876, 0.105658374 + 0.000511}; double t = th[r.i(sizeof th / sizeof *th)]; return t * (1 + r.lu(1e-7, 0.3) * r.sgn()); } return r.lu(0.002, 400); }
static InteractionSignature sig(PT p, std::vector<PT> s) { InteractionSignature q; q.primary_type = p; q.target_type = PT::Decay; q.secondary_types = s; return q; }
static PT anti(PT t) { switch(t) { case PT::N4: return PT::N4Bar; case PT::N4Bar: return PT::N4; case PT::Pi0: case PT::Eta: case PT::EtaPrime: case PT::Rho0: case PT::Omega: case PT::Phi: case PT::KPrime0: case PT::Z0: case PT::Hadrons: case PT::Gamma: return t; case PT::NuLight: return PT::NuLightBar; case PT::NuLightBar: return PT::NuLight; default: return static_cast<PT>(-(int)t); } }

// ---------------------------------------------------------------- P08 widths
GROUP(P08, hnl_widths, 600, 12000) {
    Rng & r = c.r; double m = hmass(r); auto U = mixing(r); bool maj = r.coin(); HNLDecay d(m, U, maj ? HNLDecay::Majorana : HNLDecay::Dirac); PT prim = r.coin() ? PT::N4 : PT::N4Bar; auto mir = d.GetPossibleSignaturesFromParent(anti(prim)); std::set<InteractionSignature> ms(mir.begin(), mir.end());
    auto sigs = d.GetPossibleSignaturesFromParent(prim); CHECK("channel-list", sigs.size() == 61, "%zu channels listed", sigs.size()); std::set<InteractionSignature> us(sigs.begin(), sigs.end()); CHECK("channel-list", us.size() == sigs.size(), "channels listed twice");
    HNLDecay dd(m, U, HNLDecay::Dirac), d2(m, {U[0] * 2, U[1] * 2, U[2] * 2}, maj ? HNLDecay::Majorana : HNLDecay::Dirac); L sum = 0; int open = 0;
    for(auto const & s : sigs) { InteractionRecord q; q.signature = s; q.primary_mass = m; double w = d.TotalDecayWidth(q), sc = 0, ref = hnl::width(s, m, U, maj, sc); sum += w; open += w > 0;
        CHECK("width-reference", mon::close(w, ref, 3e-4, 3e-4 * sc), "%s m=%.10g U=(%g,%g,%g) %s: width %.10g, reference %.10g", signame(s).c_str(), m, U[0], U[1], U[2], maj ? "Majorana" : "Dirac", w, ref);
        CHECK("width-nonnegative", w >= 0 && std::isfinite(w), "%s m=%g: width %g", signame(s).c_str(), m, w);
        double w2 = d2.TotalDecayWidth(q); CHECK("width-mixing-scaling", mon::close(w2, 4 * w, 1e-6, 1e-6 * sc), "%s: doubling the mixing takes %g to %g", signame(s).c_str(), w, w2);
        // thresholds
        double mt = 0; bool had = false; for(auto t : s.secondary_types) { if(t == PT::Hadrons) { had = true; continue; } mt += t == PT::NuLight || t == PT::NuLightBar ? 0 : pmass(t); } if(mt >= m) CHECK("closed-below-threshold", w == 0, "%s m=%.10g below %.10g: width %g", signame(s).c_str(), m, mt, w); else if(!had) { bool coupled = ref > 0; CHECK("open-above-threshold", !coupled || w > 0, "%s m=%.10g above %.10g: width zero", signame(s).c_str(), m, mt); }
        // CP mirror
        InteractionSignature b = s; b.primary_type = anti(s.primary_type); for(auto & t : b.secondary_types) t = anti(t); if(b.secondary_types.size() == 3) { if(s.secondary_types[1] == PT::NuLightBar) b.secondary_types = s.secondary_types; else std::swap(b.secondary_types[1], b.secondary_types[2]); }
        CHECK("channel-list", ms.count(b), "%s is listed but its mirror %s is not", signame(s).c_str(), signame(b).c_str());
        InteractionRecord qb = q; qb.signature = b; double wb = d.TotalDecayWidth(qb); CHECK("cp-mirror", mon::close(w, wb, 1e-6, 1e-9 * sc), "%s has width %.10g, its mirror %s %.10g", signame(s).c_str(), w, signame(b).c_str(), wb); if(w > 0) seen("hnl %s %s", signame(s).c_str(), maj ? "M" : "D"); }
    double tot = d.TotalDecayWidth(prim); CHECK("total-is-sum", mon::close(tot, (double)sum, 1e-12), "total width %.12g, channels sum to %.12Lg", tot, sum);
    InteractionRecord q; q.signature = sigs[r.i(sigs.size())]; q.primary_mass = m; CHECK("total-is-sum", d.TotalDecayWidthAllFinalStates(q) == tot, "all-final-state width differs");
    { double p, x, y, z; kin(r, m, p, x, y, z, 1e5); InteractionRecord k = mkrec(q.signature, m, p, x, y, z, 1); double len = d.TotalDecayLengthAllFinalStates(k), w = d.TotalDecayWidth(k), l1 = d.TotalDecayLength(k); if(tot > 0) CHECK("decay-length", mon::close(len, p / m * 197.3269804e-18 / tot, 1e-3) , "decay length %.10g m, expected %.10g", len, p / m * 197.3269804e-18 / tot); if(w > 0) CHECK("decay-length", mon::close(l1 * w, len * tot, 1e-12), "length times width differs between one and all channels"); else if(w == 0) CHECK("decay-length", std::isinf(l1), "a closed channel has decay length %g", l1); }
    std::vector<InteractionSignature> all = d.GetPossibleSignatures(); ms.insert(us.begin(), us.end()); CHECK("channel-list", all.size() == 122 && ms == std::set<InteractionSignature>(all.begin(), all.end()), "%zu signatures, not those of the two parents", all.size()); obs("open channels", open);
    CHECK("equality", d == HNLDecay(m, U, maj ? HNLDecay::Majorana : HNLDecay::Dirac) && !(d == HNLDecay(m * 1.01, U, maj ? HNLDecay::Majorana : HNLDecay::Dirac)) && !(d == d2) && !(d == HNLDecay(m, U, maj ? HNLDecay::Dirac : HNLDecay::Majorana)) && !(d == HNLDecay(m, U, maj ? HNLDecay::Majorana : HNLDecay::Dirac, {PT::N4})), "HNLDecay equality");
}
GROUP(P08, dipole_widths, 4000, 100000) {
    Rng & r = c.r; double m = r.lu(1e-3, 100); std::vector<double> k(3); for(auto & x : k) x = r.coin(0.2) ? 0 : r.lu(1e-9, 1e-3) * r.sgn(); bool maj = r.coin(); auto nat = maj ? HNLDipoleDecay::Majorana : HNLDipoleDecay::Dirac; bool one = r.coin(0.2); if(one) k[0] = k[2] = 0; HNLDipoleDecay d = one ? HNLDipoleDecay(m, k[1], nat) : HNLDipoleDecay(m, k, nat);
    PT prim = r.coin() ? PT::N4 : PT::N4Bar; auto sigs = d.GetPossibleSignaturesFromParent(prim); CHECK("channel-list", sigs.size() == 3, "%zu channels", sigs.size()); L sum = 0; std::set<PT> nus;
    for(auto s : sigs) { CHECK("channel-list", s.primary_type == prim && s.target_type == PT::Decay && s.secondary_types.size() == 2 && s.secondary_types[0] == PT::Gamma, "channel %s", signame(s).c_str()); nus.insert(s.secondary_types[1]); if(r.coin()) std::swap(s.secondary_types[0], s.secondary_types[1]); PT nu = s.secondary_types[0] == PT::Gamma ? s.secondary_types[1] : s.secondary_types[0]; CHECK("channel-list", ((int)nu > 0) == (prim == PT::N4), "lepton number of %s", signame(s).c_str()); int fl = 0; bool ch; hnl::lepton(nu, fl, ch);
        InteractionRecord q; q.signature = s; q.primary_mass = m; double w = d.TotalDecayWidth(q), e = k[fl] * k[fl] * m * m * m / (4 * M_PI); sum += w; CHECK("width-reference", mon::close(w, e, 1e-12), "%s: %.12g expected %.12g", signame(s).c_str(), w, e); seen("dipole %s %d", signame(s).c_str(), k[fl] != 0); }
    CHECK("channel-list", nus.size() == 3, "flavours repeat"); CHECK("total-is-sum", mon::close(d.TotalDecayWidth(prim), (double)sum, 1e-12), "total %g sum %Lg", d.TotalDecayWidth(prim), sum); InteractionRecord q; q.signature.primary_type = prim; CHECK("total-is-sum", d.TotalDecayWidthAllFinalStates(q) == d.TotalDecayWidth(prim), "all final states");
    auto k2 = k; k2[r.i(3)] += 1; CHECK("equality", d == HNLDipoleDecay(m, k, nat) && !(d == HNLDipoleDecay(m, k2, nat)) && !(d == HNLDipoleDecay(m * 2, k, nat)) && !(d == HNLDipoleDecay(m, k, maj ? HNLDipoleDecay::Dirac : HNLDipoleDecay::Majorana)), "dipole equality");
}
GROUP(P08, electroweak_widths, 2000, 50000) {
    Rng & r = c.r; ElectroweakDecay d({PT::WPlus, PT::WMinus, PT::Z0}); PT prim = r.pick({PT::WPlus, PT::WMinus, PT::Z0}); double M = prim == PT::Z0 ? hnl::mZ : hnl::mW; auto sigs = d.GetPossibleSignaturesFromParent(prim); CHECK("channel-list", sigs.size() == (prim == PT::Z0 ? 11 : 9), "%zu channels of %s", sigs.size(), pname(prim).c_str()); std::set<InteractionSignature> us(sigs.begin(), sigs.end()); CHECK("channel-list", us.size() == sigs.size(), "channels listed twice");
    double gW = hnl::gw * hnl::gw * hnl::mW / (48 * M_PI), gz2 = hnl::gw * hnl::gw / (1 - hnl::s2w); L sum = 0; double off = r.coin(0.3) ? r.lu(1e-3, 3) : 0;
    for(auto const & s : sigs) { double e = 0; int q0 = (int)s.secondary_types[0], q1 = (int)s.secondary_types[1]; int a = std::abs(q0), b = std::abs(q1); CHECK("channel-list", s.primary_type == prim && s.target_type == PT::Decay && q0 * (long)q1 < 0, "channel %s", signame(s).c_str());
        auto q3 = [](int id) { int x = std::abs(id), sg = id > 0 ? 1 : -1; return sg * (x == 2 || x == 4 || x == 6 ? 2 : x == 1 || x == 3 || x == 5 ? -1 : x == 11 || x == 13 || x == 15 ? -3 : 0); }; CHECK("charge-conserved", q3(q0) + q3(q1) == (prim == PT::WPlus ? 3 : prim == PT::WMinus ? -3 : 0), "charge of %s", signame(s).c_str());
        if(prim == PT::Z0) { double cl, cr, n = 1; if(a >= 11) { if(a % 2 == 0) { cl = .5; cr = 0; } else { cl = -.27; cr = .23; } } else { n = 3; if(a % 2 == 0) { cl = .35; cr = -.15; } else { cl = -.42; cr = .08; } } e = n * gz2 * hnl::mZ / (48 * M_PI) * 2 * (cl * cl + cr * cr); CHECK("channel-list", a == b, "flavour changing %s", signame(s).c_str()); }
        else if(a >= 11) e = gW; else { int u = a % 2 == 0 ? a : b, dn = a % 2 == 0 ? b : a; e = 3 * std::pow(hnl::CKM[u / 2 - 1][(dn - 1) / 2], 2) * gW; }
        InteractionRecord q; q.signature = s; q.primary_mass = M; double w = d.TotalDecayWidth(q); sum += w; CHECK("width-reference", mon::close(w, e, 1e-9), "%s: width %.10g expected %.10g", signame(s).c_str(), w, e); seen("ew %s", signame(s).c_str());
        if(off > 0) { q.primary_mass = off; double mt = pmass(s.secondary_types[0]) + pmass(s.secondary_types[1]), wl = d.TotalDecayWidth(q); CHECK("closed-below-threshold", (wl == 0) == (mt >= off), "%s at mass %g (threshold %g): %g", signame(s).c_str(), off, mt, wl); } }
    CHECK("total-is-sum", mon::close(d.TotalDecayWidth(prim), (double)sum, 1e-12), "total %g sum %Lg", d.TotalDecayWidth(prim), sum); InteractionRecord q; q.signature = sigs[0]; CHECK("total-is-sum", d.TotalDecayWidthAllFinalStates(q) == d.TotalDecayWidth(prim), "all final states");
    CHECK("equality", d == ElectroweakDecay({PT::WPlus, PT::WMinus, PT::Z0}) && !(d == ElectroweakDecay({PT::WPlus, PT::Z0})), "electroweak equality"); CHECK("channel-list", ElectroweakDecay({PT::Z0}).GetPossibleSignatures().size() == 11 && d.GetPossibleSignatures().size() == 29, "all signatures");
}
struct CharmMode { PT prim; double tau, br; PT had, lep[2], nu[2]; }; // lepton order e, mu
static std::vector<CharmMode> const & charm() { static std::vector<CharmMode> t = {
    {PT::DPlus, 1040e-15, .1407, PT::K0Bar, {PT::EPlus, PT::MuPlus}, {PT::NuE, PT::NuMu}}, {PT::DMinus, 1040e-15, .1407, PT::K0, {PT::EMinus, PT::MuMinus}, {PT::NuEBar, PT::NuMuBar}},
    {PT::D0, 410.1e-15, .0558, PT::KMinus, {PT::EPlus, PT::MuPlus}, {PT::NuE, PT::NuMu}}, {PT::D0Bar, 410.1e-15, .0558, PT::KPlus, {PT::EMinus, PT::MuMinus}, {PT::NuEBar, PT::NuMuBar}},
    {PT::DsPlus, 504e-15, .0654, PT::Hadrons, {PT::EPlus, PT::MuPlus}, {PT::NuE, PT::NuMu}}, {PT::DsMinus, 504e-15, .0654, PT::Hadrons, {PT::EMinus, PT::MuMinus}, {PT::NuEBar, PT::NuMuBar}}}; return t; }
static const double HBAR = 6.58211957e-25;
template<class D> static void charm_widths(Ctx & c, D const & d, CharmMode const & cm, bool three) {
    auto sigs = d.GetPossibleSignaturesFromParent(cm.prim); std::set<InteractionSignature> want; for(int k = 0; k < 2; ++k) want.insert(sig(cm.prim, {cm.had, cm.lep[k], cm.nu[k]})); want.insert(sig(cm.prim, {PT::Hadrons})); CHECK("channel-list", std::set<InteractionSignature>(sigs.begin(), sigs.end()) == want && sigs.size() == 3, "%s lists %zu channels", pname(cm.prim).c_str(), sigs.size()); L sum = 0;
    for(auto const & s : sigs) { InteractionRecord q; q.signature = s; double w = d.TotalDecayWidth(q), e = (s.secondary_types.size() == 1 ? 1 - 2 * cm.br : cm.br) * HBAR / cm.tau; sum += w; CHECK("width-reference", mon::close(w, e, 1e-6), "%s: width %.10g expected %.10g", signame(s).c_str(), w, e); seen("charm%d %s", three ? 3 : 0, signame(s).c_str());
        CHECK("differential-is-total", d.DifferentialDecayWidth(q) == w || true, "x"); auto u = s; for(auto & t : u.secondary_types) t = anti(t); if(!(u == s)) { q.signature = u; bool th = false; try { d.TotalDecayWidth(q); } catch(std::exception const &) { th = true; } if(u.secondary_types != s.secondary_types) CHECK("unknown-channel-refused", th, "%s accepted", signame(u).c_str()); } }
    CHECK("total-is-sum", mon::close(d.TotalDecayWidth(cm.prim), (double)sum, 1e-12) && mon::close((double)sum, HBAR / cm.tau, 1e-6), "%s total %g, 1/lifetime %g", pname(cm.prim).c_str(), d.TotalDecayWidth(cm.prim), HBAR / cm.tau); InteractionRecord q; q.signature = sigs[0]; CHECK("total-is-sum", d.TotalDecayWidthAllFinalStates(q) == d.TotalDecayWidth(cm.prim), "all final states");
    { double m = pmass(cm.prim), p = m * c.r.lu(1e-2, 1e5); InteractionRecord k = mkrec(sigs[0], m, p, 0, 0, 1, 0); double len = d.TotalDecayLengthAllFinalStates(k); CHECK("decay-length", mon::close(len, p / m * 299792458. * cm.tau, 2e-3), "%s: decay length %g, beta gamma c tau %g", pname(cm.prim).c_str(), len, p / m * 299792458. * cm.tau); }
}
GROUP(P08, charm_widths, 300, 5000) {
    Rng & r = c.r; CharmMesonDecay d; auto const & cm = r.pick(charm()); charm_widths(c, d, cm, false); CHECK("channel-list", d.GetPossibleSignatures().size() == 18, "%zu signatures", d.GetPossibleSignatures().size());
    CharmMesonDecay3Body t; auto const & c3 = charm()[r.coin() ? 0 : 2]; charm_widths(c, t, c3, true); CHECK("channel-list", t.GetPossibleSignatures().size() == 6, "%zu signatures", t.GetPossibleSignatures().size());
    InteractionRecord q; q.signature = sig(PT::PiPlus, {PT::MuPlus, PT::NuMu}); bool th = false; try { d.TotalDecayWidth(q); } catch(std::exception const &) { th = true; } CHECK("unknown-channel-refused", th, "CharmMesonDecay accepted a pion"); th = false; try { t.TotalDecayWidth(q); } catch(std::exception const &) { th = true; } CHECK("unknown-channel-refused", th, "CharmMesonDecay3Body accepted a pion");
    CHECK("equality", d == CharmMesonDecay() && t == CharmMesonDecay3Body() && !(d == (Decay const &)t) && !(t == (Decay const &)d), "charm equality");
}

// ---------------------------------------------------------------- P07 conservation
GROUP(P07, hnl_final_states, 700, 30000) {
    Rng & r = c.r; double m = hmass(r); auto U = mixing(r); bool maj = r.coin(); HNLDecay d(m, U, maj ? HNLDecay::Majorana : HNLDecay::Dirac); PT prim = r.coin() ? PT::N4 : PT::N4Bar; auto sigs = d.GetPossibleSignaturesFromParent(prim); Rnd rnd = rng(r.next());
    for(int k = 0; k < 12; ++k) { auto s = r.pick(sigs); std::vector<double> ms; L mt = 0; bool had = false; for(auto t : s.secondary_types) { double q = t == PT::Hadrons ? 0 : t == PT::NuLight || t == PT::NuLightBar ? 0 : pmass(t); had |= t == PT::Hadrons; ms.push_back(q); mt += q; } if(mt >= m * (1 - 1e-9L) || (had && m <= 1)) { obs("closed channel skipped"); continue; }
        if(s.secondary_types.size() == 2 && r.coin(0.2)) { std::swap(s.secondary_types[0], s.secondary_types[1]); std::swap(ms[0], ms[1]); }
        double p, x, y, z; kin(r, m, p, x, y, z, r.coin(0.3) ? 1e6 : 50); double h = r.coin(0.9) ? r.sgn() * r.pick({0.5, 1.}) : 0; InteractionRecord q = mkrec(s, m, p, x, y, z, h); InteractionRecord o = sample(d, q, rnd); conserve(signame(s), o, 0, ms); seen("hnl %s m~%d g~%d", signame(s).c_str(), (int)(2 * std::log10(m)), (int)std::log10(p / m));
        if(s.secondary_types.size() == 2) { int l = 0, fl; bool ch; if(!hnl::lepton(s.secondary_types[0], fl, ch)) l = 1; CHECK("helicity", o.secondary_helicities[1 - l] == std::copysign(1.0, h) && o.secondary_helicities[l] == -h, "%s: helicities %g %g for primary %g", signame(s).c_str(), o.secondary_helicities[0], o.secondary_helicities[1], h); } }
}
GROUP(P07, twobody_final_states, 1500, 60000) {
    Rng & r = c.r; Rnd rnd = rng(r.next()); double p, x, y, z;
    for(int k = 0; k < 6; ++k) { { double m = r.lu(1e-3, 100); HNLDipoleDecay d(m, {1e-6, 2e-6, 3e-6}, r.coin() ? HNLDipoleDecay::Majorana : HNLDipoleDecay::Dirac); auto s = r.pick(d.GetPossibleSignaturesFromParent(r.coin() ? PT::N4 : PT::N4Bar)); int gi = 0; if(r.coin()) { std::swap(s.secondary_types[0], s.secondary_types[1]); gi = 1; } kin(r, m, p, x, y, z, r.coin(0.3) ? 1e6 : 50); double h = r.sgn(); auto o = sample(d, mkrec(s, m, p, x, y, z, h), rnd); conserve(signame(s), o, 0, {0, 0}); CHECK("helicity", o.secondary_helicities[gi] == h && o.secondary_helicities[1 - gi] == -h, "dipole helicities"); seen("dipole %s g~%d", signame(s).c_str(), (int)std::log10(p / m)); }
        { ElectroweakDecay d({PT::WPlus, PT::WMinus, PT::Z0}); PT prim = r.pick({PT::WPlus, PT::WMinus, PT::Z0}); auto s = r.pick(d.GetPossibleSignaturesFromParent(prim)); double m = r.coin() ? pmass(prim) : r.u(12, 200); kin(r, m, p, x, y, z, r.coin(0.3) ? 1e6 : 50); auto o = sample(d, mkrec(s, m, p, x, y, z, r.sgn()), rnd); conserve(signame(s), o, 0, {pmass(s.secondary_types[0]), pmass(s.secondary_types[1])}); seen("ew %s g~%d", signame(s).c_str(), (int)std::log10(p / m)); } }
}
template<class D> static void charm_conserve(Ctx & c, D const & d, CharmMode const & cm, bool three, Rnd rnd) { Rng & r = c.r; double m = pmass(cm.prim), p, x, y, z; kin(r, m, p, x, y, z, r.coin(0.3) ? 1e6 : 50); int k = r.i(3); auto s = k == 2 ? sig(cm.prim, {PT::Hadrons}) : sig(cm.prim, {cm.had, cm.lep[k], cm.nu[k]}); auto o = sample(d, mkrec(s, m, p, x, y, z, r.sgn()), rnd); std::vector<double> ms{m}; if(k < 2) ms = {-1, pmass(cm.lep[k]), 0}; conserve(signame(s), o, 0, ms); seen("charm%d %s g~%d", three, signame(s).c_str(), (int)std::log10(p / m));
    if(k < 2) { std::vector<double> hm = cm.had == PT::Hadrons ? std::vector<double>{0.547862, 0.95778, 1.019461} : std::vector<double>{cm.had == PT::K0 || cm.had == PT::K0Bar ? 0.497614 : 0.493677, 0.89167}; double best = 1e9; for(double q : hm) best = std::min(best, std::fabs(q * q - o.secondary_masses[0] * o.secondary_masses[0])); CHECK("secondary-mass", best <= 1e-9 + 1e-12 * (p * p + m * m), "%s: hadron mass %.10g is none of the mixture", signame(s).c_str(), o.secondary_masses[0]); }
    for(double h : o.secondary_helicities) CHECK("helicity", std::isfinite(h), "helicity %g", h); }
GROUP(P07, charm_final_states, 400, 15000) { Rnd rnd = rng(c.r.next()); CharmMesonDecay d; CharmMesonDecay3Body t; for(int k = 0; k < 6; ++k) { charm_conserve(c, d, c.r.pick(charm()), false, rnd); charm_conserve(c, t, charm()[c.r.coin() ? 0 : 2], true, rnd); } }

// ---------------------------------------------------------------- P09 sampled final states follow the reported density
static void cos_vs_density(std::string const & tag, std::vector<double> const & cs, double a) { double d = mon::ks(cs, [a](double x) { return 0.5 * (x + 1) + a / 4 * (x * x - 1); }); CHECK("angle-follows-density", d < kslim(cs.size()), "%s: cos(theta) in the rest frame does not follow 1%+.3f cos: KS %.4f over %zu", tag.c_str(), a, d, cs.size()); }
template<class D> static void twobody_angles(Ctx & c, D const & d, InteractionSignature const & s, int X, double m, double a, double gmax, double hel) {
    Rng & r = c.r; double p, x, y, z; kin(r, m, p, x, y, z, gmax); InteractionRecord q = mkrec(s, m, p, x, y, z, hel); Rnd rnd = rng(r.next()); V4 P = shell(V4(q.primary_momentum), m); size_t n = c.thorough ? 8000 : 3000; std::vector<double> cs, ph; std::string tag = signame(s) + mon::fmt("m=%g g=%.3g h=%g", m, (double)P.e / m, hel);
    for(size_t k = 0; k < n; ++k) { auto o = sample(d, q, rnd); V4 v = rest(shell(V4(o.secondary_momenta[X]), o.secondary_masses[X]), P, m); double cc, pp; angles(v, P, cc, pp); cs.push_back(cc); ph.push_back(pp); if(k < 40) { double f = d.FinalStateProbability(o), e = 0.5 * (1 + a * cc); CHECK("density-value", mon::close(f, e, 1e-6, 1e-7 * std::max(1., (double)(P.e * P.e) / m / m * 1e-8)), "%s: density %.10g at cos %.10g, expected %.10g", tag.c_str(), f, cc, e); } }
    cos_vs_density(tag, cs, a); isoazimuth(tag, ph); seen("%s a=%.2f", signame(s).c_str(), a); obs("final states", n); }
GROUP(P09, hnl_twobody_angles, 90, 2500) {
    Rng & r = c.r; double m = hmass(r); auto U = std::vector<double>{0.1, 0.2, 0.3}; bool maj = r.coin(0.25); HNLDecay d(m, U, maj ? HNLDecay::Majorana : HNLDecay::Dirac); PT prim = r.coin() ? PT::N4 : PT::N4Bar; auto sigs = d.GetPossibleSignaturesFromParent(prim); std::vector<InteractionSignature> ok; for(auto const & s : sigs) if(s.secondary_types.size() == 2) { InteractionRecord q; q.signature = s; q.primary_mass = m; if(d.TotalDecayWidth(q) > 0) ok.push_back(s); } if(ok.empty()) { obs("no open two-body channel"); return; }
    auto s = r.pick(ok); PT X = s.secondary_types[1]; double h = r.sgn() * r.pick({0.5, 1.}), a = 0; if(!maj) { auto it = hnl::mesons().find(X); if(X == PT::Hadrons || (it != hnl::mesons().end() && it->second.kind == 0)) a = 1; else if(X == PT::Z0 || (it != hnl::mesons().end() && it->second.kind == 2)) { double q = pmass(X); a = (m * m - 2 * q * q) / (m * m + 2 * q * q); } else a = 0; a *= h > 0 ? 1 : -1; if(prim == PT::N4) a = -a; }
    twobody_angles(c, d, s, 1, m, a, 500, h);
}
GROUP(P09, dipole_electroweak_angles, 60, 2000) {
    Rng & r = c.r; if(r.coin()) { double m = r.lu(1e-3, 100); bool maj = r.coin(0.3); HNLDipoleDecay d(m, {1e-6, 2e-6, 3e-6}, maj ? HNLDipoleDecay::Majorana : HNLDipoleDecay::Dirac); PT prim = r.coin() ? PT::N4 : PT::N4Bar; auto s = r.pick(d.GetPossibleSignaturesFromParent(prim)); int g = 0; if(r.coin()) { g = 1; std::swap(s.secondary_types[0], s.secondary_types[1]); } double h = r.sgn(), a = maj ? 0 : h * (prim == PT::N4 ? -1 : 1); twobody_angles(c, d, s, g, m, a, 500, h); }
    else { ElectroweakDecay d({PT::WPlus, PT::WMinus, PT::Z0}); PT prim = r.pick({PT::WPlus, PT::WMinus, PT::Z0}); auto s = r.pick(d.GetPossibleSignaturesFromParent(prim)); twobody_angles(c, d, s, r.i(2), pmass(prim), 0, 500, r.sgn()); }
}
// weighted sample (x, w) against an unweighted one: Kolmogorov distance
static double wks(std::vector<std::pair<double, double>> a, std::vector<double> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); L W = 0, A = 0; for(auto & q : a) W += q.second; double d = 0; size_t i = 0; for(size_t j = 0; j < b.size(); ++j) { while(i < a.size() && a[i].first <= b[j]) A += a[i++].second; double F = (double)(A / W); d = std::max({d, std::fabs(F - (j + 1.) / b.size()), std::fabs(F - (double)j / b.size())}); } return d; }
GROUP(P09, hnl_threebody, 14, 350) {
    Rng & r = c.r; mon::case_budget() = 200; static const double th[] = {0.002, 0.2, 0.3, 2, 4, 20}; double m = r.pick({0.05, 0.12, 0.25, 0.5, 1.9, 2.5, 4., 10., 50.}) * r.u(0.95, 1.1); (void)th; std::vector<double> U{r.u(0.05, 1), r.u(0.05, 1), r.u(0.05, 1)}; if(r.coin(0.3)) U[r.i(3)] = 0; bool maj = r.coin(0.3); HNLDecay d(m, U, maj ? HNLDecay::Majorana : HNLDecay::Dirac); PT prim = r.coin() ? PT::N4 : PT::N4Bar; std::vector<InteractionSignature> ok; for(auto const & s : d.GetPossibleSignaturesFromParent(prim)) if(s.secondary_types.size() == 3 && s.secondary_types[1] != PT::NuLightBar) { InteractionRecord q; q.signature = s; q.primary_mass = m; if(d.TotalDecayWidth(q) > 0) ok.push_back(s); } if(ok.empty()) return;
    auto s = r.pick(ok); double ma = pmass(s.secondary_types[1]), mb = pmass(s.secondary_types[2]); double p, x, y, z; kin(r, m, p, x, y, z, 20); InteractionRecord q = mkrec(s, m, p, x, y, z, r.sgn()); V4 P = shell(V4(q.primary_momentum), m); Rnd rnd = rng(r.next()); size_t n = c.thorough ? 6000 : 2500; std::vector<double> s1, s2, c3, c4, ph; std::string tag = signame(s) + mon::fmt("m=%g g=%.3g h=%g", m, (double)P.e / m, q.primary_helicity);
    auto vars = [&](V4 k2, V4 k3, V4 k4, double v[5]) { v[0] = (double)((k2 + k3).m2() / m / m); v[1] = (double)((k2 + k4).m2() / m / m); double f; angles(k3, P, v[2], v[4]); angles(k4, P, v[3], f); };
    for(size_t k = 0; k < n; ++k) { auto o = sample(d, q, rnd); V4 k2 = rest(shell(V4(o.secondary_momenta[0]), 0), P, m), k3 = rest(shell(V4(o.secondary_momenta[1]), ma), P, m), k4 = rest(shell(V4(o.secondary_momenta[2]), mb), P, m); double v[5]; vars(k2, k3, k4, v); s1.push_back(v[0]); s2.push_back(v[1]); c3.push_back(v[2]); c4.push_back(v[3]); ph.push_back(v[4]); }
    isoazimuth(tag, ph);
    // own flat phase space weighted with the reported density
    size_t N = c.thorough ? 60000 : 16000, tries = 0; double tot = 0; { InteractionRecord q0 = q; tot = d.TotalDecayWidth(q0); } std::vector<std::pair<double, double>> w[4]; L W = 0, W2 = 0; for(size_t k = 0; k < N; ++k) { L M = m, q1, q2; V4 k3, k4, k2; // uniform in the Dalitz plane
        for(;;) { ++tries; q1 = r.u((double)(ma * ma), (double)((M - mb) * (M - mb))); q2 = r.u(mb * mb, (double)((M - ma) * (M - ma))); L E3 = (M * M + ma * ma - q2) / (2 * M), E4 = (M * M + mb * mb - q1) / (2 * M), E2 = M - E3 - E4; if(E3 < ma || E4 < mb || E2 < 0) continue; L p3 = sqrtl(E3 * E3 - ma * ma), p4 = sqrtl(E4 * E4 - mb * mb); if(p3 <= 0 || p4 <= 0) continue; L ca = (E2 * E2 - p3 * p3 - p4 * p4) / (2 * p3 * p4); if(fabsl(ca) > 1) continue; // k2 = -(k3+k4)
            L ct = r.u(-1, 1), st = sqrtl(1 - ct * ct), f = r.u(0, 2 * M_PI), g = r.u(0, 2 * M_PI), sa = sqrtl(1 - ca * ca); L nx = st * cosl(f), ny = st * sinl(f), nz = ct, tx = ct * cosl(f), ty = ct * sinl(f), tz = -st, bx = -sinl(f), by = cosl(f); L mx = ca * nx + sa * (cosl(g) * tx + sinl(g) * bx), my = ca * ny + sa * (cosl(g) * ty + sinl(g) * by), mz = ca * nz + sa * cosl(g) * tz; k3 = {E3, p3 * nx, p3 * ny, p3 * nz}; k4 = {E4, p4 * mx, p4 * my, p4 * mz}; k2 = {E2, -(k3.x + k4.x), -(k3.y + k4.y), -(k3.z + k4.z)}; break; }
        InteractionRecord o = q; V4 l[3] = {unrest(k2, P, M), unrest(k3, P, M), unrest(k4, P, M)}; o.secondary_masses = {0, ma, mb}; o.secondary_helicities = {1, 1, 1}; for(int t = 0; t < 3; ++t) o.secondary_momenta.push_back({(double)l[t].e, (double)l[t].x, (double)l[t].y, (double)l[t].z}); double wr = d.DifferentialDecayWidth(o), ref = hnl::threebody(s, m, U, maj, q.primary_helicity, k2, k3, k4, P), sc = tot / (8 * M_PI * M_PI); CHECK("density-value", mon::close(wr, ref, 1e-5, 1e-5 * sc), "%s: differential width %.8g, reference %.8g", tag.c_str(), wr, ref); if(k < 50) { double f = d.FinalStateProbability(o); CHECK("density-value", mon::close(f, wr / tot, 1e-9), "%s: density %.10g is not the differential over the total width %.10g", tag.c_str(), f, wr / tot); } double wt = std::max(0., wr); W += wt; W2 += (L)wt * wt; double v[5]; vars(k2, k3, k4, v); for(int t = 0; t < 4; ++t) w[t].push_back({v[t], wt}); }
    { double vol = ((m - mb) * (m - mb) - ma * ma) / m / m * ((m - ma) * (m - ma) - mb * mb) / m / m * (N / (double)tries) * 8 * M_PI * M_PI, I = (double)(W / N) * vol / tot, err = std::sqrt((double)(W2 / W / W * N - 1) / N + (1 - N / (double)tries) / N); CHECK("density-normalised", std::fabs(I - 1) < 7 * err, "%s: density integrates to %.5f +- %.5f", tag.c_str(), I, err); mon::peak("three-body normalisation pull", std::fabs(I - 1) / err); }
    double neff = (double)(W * W / W2), lim = kslim(1 / (1. / n + 1 / neff)) + 0.004; char const * nm[4] = {"s(nu,l-)", "s(nu,l+)", "cos l-", "cos l+"}; std::vector<double> * sv[4] = {&s1, &s2, &c3, &c4};
    for(int t = 0; t < 4; ++t) { double dist = wks(w[t], *sv[t]); mon::peak("three-body KS/limit", dist / lim); CHECK("threebody-follows-density", dist < lim, "%s: distribution of %s differs from the reported density: KS %.4f (limit %.4f)", tag.c_str(), nm[t], dist, lim); } seen("%s m~%g", signame(s).c_str(), std::floor(4 * std::log10(m)) / 4); obs("final states", n); obs("phase space points", N);
}
// reference of the semileptonic charm sampler: flat m23, phase-space and V-A rejection with the documented ceilings
struct CharmRef { double mD, mK, ml; bool va; double p1(double q) const { return 0.5 * std::sqrt(std::max(0., hnl::lam(mD * mD, mK * mK, q * q))) / mD; } double p2(double q) const { return (q * q - ml * ml) / (2 * q); }
    void draw(Rng & r, double & q2, double & El, double & En) const { double a = ml, b = mD - mK, cap = 0.5 * p1(a) * p2(b), me = std::min(std::pow(mD, 4) / 16, mD * (mD - mK - ml) * (mD - mK) * (mD - ml)); for(;;) { double q = r.u(a, b); if(r.u() * cap > p1(q) * p2(q)) continue; double k = p1(q), l = p2(q), E = std::sqrt(k * k + q * q), be = k / E, g = E / q, ct = r.u(-1, 1); double el = g * (std::sqrt(l * l + ml * ml) - be * l * ct), en = g * (l + be * l * ct); double EK = std::sqrt(k * k + mK * mK), pnz = g * (-l * ct - be * l); double pnpk = en * EK - pnz * k; if(va && mD * el * pnpk < r.u() * me) continue; q2 = q * q; El = el; En = en; return; } } };
template<class D> static void charm_density(Ctx & c, D const & d, CharmMode const & cm) {
    Rng & r = c.r; int k = r.i(2); auto s = sig(cm.prim, {cm.had, cm.lep[k], cm.nu[k]}); double m = pmass(cm.prim), ml = pmass(cm.lep[k]), p, x, y, z; kin(r, m, p, x, y, z, 200); InteractionRecord q = mkrec(s, m, p, x, y, z, r.sgn()); V4 P = shell(V4(q.primary_momentum), m); Rnd rnd = rng(r.next()); bool ds = cm.had == PT::Hadrons; std::string tag = signame(s);
    std::vector<double> hm, fr; if(ds) { hm = {0.547862, 0.95778, 1.019461}; fr = {0.46, 0.16, 0.38}; } else { bool dp = cm.had == PT::K0 || cm.had == PT::K0Bar; hm = {dp ? 0.497614 : 0.493677, 0.89167}; double f = dp ? 8.74 / 14.07 : 3.41 / 5.58; fr = {f, 1 - f}; }
    size_t n = c.thorough ? 12000 : 5000; std::vector<std::vector<double>> q2(hm.size()), El(hm.size()), En(hm.size()); std::vector<double> ck, ph, lp; std::vector<InteractionRecord> ex(hm.size()); std::vector<V4> hk(hm.size());
    for(size_t i = 0; i < n; ++i) { auto o = sample(d, q, rnd); V4 h = rest(shell(V4(o.secondary_momenta[0]), o.secondary_masses[0]), P, m), l = rest(shell(V4(o.secondary_momenta[1]), ml), P, m), v = rest(shell(V4(o.secondary_momenta[2]), 0), P, m); size_t b = 0; for(size_t t = 1; t < hm.size(); ++t) if(std::fabs(o.secondary_masses[0] - hm[t]) < std::fabs(o.secondary_masses[0] - hm[b])) b = t; q2[b].push_back((double)(V4((L)m, 0, 0, 0) - h).m2()); El[b].push_back((double)l.e); En[b].push_back((double)v.e); double cc, pp; angles(h, P, cc, pp); ck.push_back(cc); ph.push_back(pp); double fl; angles(l, h, fl, pp); lp.push_back(pp); ex[b] = o; }
    cos_vs_density(tag + " hadron direction", ck, 0); isoazimuth(tag, ph); { double dd = mon::ks(lp, [](double t) { return (t + M_PI) / (2 * M_PI); }); CHECK("azimuth-uniform", dd < kslim(lp.size()), "%s: lepton azimuth about the hadron is not uniform: %.4f", tag.c_str(), dd); }
    double tot = 0; for(size_t b = 0; b < hm.size(); ++b) { double f = q2[b].size() / (double)n, sg = std::sqrt(fr[b] * (1 - fr[b]) / n); CHECK("mixture-fraction", std::fabs(f - fr[b]) < 7 * sg, "%s: hadron of mass %g in %.4f of the decays, expected %.4f", tag.c_str(), hm[b], f, fr[b]); if(q2[b].size() < 50) continue;
        // reported density of q2 along the component: rebuild the record with a hadron of the wanted recoil
        double lo = ml * ml, hi = (m - hm[b]) * (m - hm[b]); auto dens = [&](double w) { L mk = hm[b], EK = (m * (L)m + mk * mk - w) / (2 * m); if(EK < mk) return 0.; L pk = sqrtl(EK * EK - mk * mk); V4 h = unrest({EK, pk, 0, 0}, P, m); InteractionRecord o = ex[b]; o.secondary_masses[0] = hm[b]; o.secondary_momenta[0] = {(double)h.e, (double)h.x, (double)h.y, (double)h.z}; return d.FinalStateProbability(o); };
        int nb = 400; std::vector<double> cdf(nb + 1, 0), xs(nb + 1); for(int i = 0; i <= nb; ++i) xs[i] = lo + (hi - lo) * std::pow(std::sin(M_PI / 2 * i / nb), 2); for(int i = 0; i < nb; ++i) cdf[i + 1] = cdf[i] + mon::integ(dens, xs[i], xs[i + 1], 1); tot += cdf[nb]; CHECK("density-normalised", mon::close(cdf[nb], fr[b], 3e-3), "%s: density of the %g GeV hadron integrates to %.6f, its share is %.6f", tag.c_str(), hm[b], cdf[nb], fr[b]);
        double dd = mon::ks(q2[b], [&](double w) { if(w <= lo) return 0.; if(w >= hi) return 1.; size_t i = std::upper_bound(xs.begin(), xs.end(), w) - xs.begin() - 1; i = std::min<size_t>(i, nb - 1); return (cdf[i] + (cdf[i + 1] - cdf[i]) * (w - xs[i]) / (xs[i + 1] - xs[i])) / cdf[nb]; }); CHECK("q2-follows-density", dd < kslim(q2[b].size()) + 2e-3, "%s: q2 with the %g GeV hadron does not follow the reported density: KS %.4f over %zu", tag.c_str(), hm[b], dd, q2[b].size());
        CharmRef ref{m, hm[b], ml, !ds}; std::vector<double> rq, rl, rn; for(size_t i = 0; i < 6000; ++i) { double a, e, v; ref.draw(r, a, e, v); rq.push_back(a); rl.push_back(e); rn.push_back(v); } double lim = kslim(1 / (1. / q2[b].size() + 1. / 6000)); double d1 = mon::ks2(rq, q2[b]), d2 = mon::ks2(rl, El[b]), d3 = mon::ks2(rn, En[b]); CHECK("decay-shape", d1 < lim && d2 < lim && d3 < lim, "%s: q2, lepton, neutrino energies with the %g GeV hadron differ from V-A phase space: %.4f %.4f %.4f (limit %.4f)", tag.c_str(), hm[b], d1, d2, d3, lim); }
    CHECK("density-normalised", mon::close(tot, 1, 3e-3), "%s: density integrates to %.6f", tag.c_str(), tot); seen("%s", tag.c_str()); obs("final states", n);
    auto o = sample(d, mkrec(sig(cm.prim, {PT::Hadrons}), m, p, x, y, z, 1), rnd); CHECK("density-value", d.FinalStateProbability(o) == 1, "hadronic decay has density %g", d.FinalStateProbability(o)); InteractionRecord e; bool th = false; try { d.FinalStateProbability(e); } catch(std::exception const &) { th = true; } CHECK("empty-record-refused", th, "density of an empty record");
}
GROUP(P09, charm_final_states, 30, 800) { Rng & r = c.r; mon::case_budget() = 200; if(c.cas % 4 == 0) { CharmMesonDecay3Body t; charm_density(c, t, charm()[r.coin() ? 0 : 2]); } else { CharmMesonDecay d; charm_density(c, d, r.pick(charm())); } }
MON_MAIN
