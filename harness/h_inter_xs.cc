// P07, P08, P09: cross sections and collections of interactions.
#include "xs_pool.h"
template<class X> static void lists(char const * nm, X const & x, std::set<PT> prims, std::set<PT> targets) {
    auto ps = x.GetPossiblePrimaries(); auto ts = x.GetPossibleTargets(); CHECK("channel-list", std::set<PT>(ps.begin(), ps.end()) == prims && ps.size() == prims.size(), "%s: %zu primaries listed, %zu expected", nm, ps.size(), prims.size()); CHECK("channel-list", std::set<PT>(ts.begin(), ts.end()) == targets && ts.size() == targets.size(), "%s: %zu targets listed, %zu expected", nm, ts.size(), targets.size());
    auto all = x.GetPossibleSignatures(); std::set<InteractionSignature> sa(all.begin(), all.end()), su; CHECK("channel-list", sa.size() == all.size(), "%s: signature listed twice", nm); std::set<PT> pp(prims), tt(targets); pp.insert({PT::MuMinus, PT::NuTauBar, PT::NuTau, PT::N4}); tt.insert({PT::EMinus, PT::Nucleon, PT::HNucleus, PT::O16Nucleus});
    for(PT p : pp) { auto tp = x.GetPossibleTargetsFromPrimary(p); CHECK("channel-list", std::set<PT>(tp.begin(), tp.end()) == (prims.count(p) ? targets : std::set<PT>()), "%s: targets of %s", nm, pname(p).c_str()); for(PT t : tt) { auto s = x.GetPossibleSignaturesFromParents(p, t); bool ok = prims.count(p) && targets.count(t); CHECK("channel-list", ok ? !s.empty() : s.empty(), "%s: %zu signatures for %s on %s", nm, s.size(), pname(p).c_str(), pname(t).c_str()); for(auto const & q : s) { CHECK("channel-list", q.primary_type == p && q.target_type == t && q.secondary_types.size() == 2, "%s: signature %s listed for %s on %s", nm, signame(q).c_str(), pname(p).c_str(), pname(t).c_str()); su.insert(q); } } }
    CHECK("channel-list", sa == su, "%s: signatures listed overall and by parents differ", nm); }

// ---------------------------------------------------------------- elastic scattering on electrons
static double els(PT p, double E, double y, double m, double s) { double a = p == PT::NuE ? 0.7276 : -0.2730, b = 0.2334; return std::max(0., GF * GF * s / M_PI * (a * a + b * b * (1 - y) * (1 - y) - a * b * m * y / E) * INV); }
static double elstot(PT p, double E, double b = -1) { double s = 2 * ME * E + ME * ME, ym = 2 * E / (2 * E + ME); return mon::integ([&](double y) { return els(p, E, y, ME, s); }, 0, b < 0 ? ym : b, 200); }
static InteractionRecord elrec(Rng & r, PT p, double E, double dx, double dy, double dz, bool swap) { auto s = xsig(p, PT::EMinus, swap ? std::vector<PT>{PT::EMinus, p} : std::vector<PT>{p, PT::EMinus}); auto q = mkrec(s, 0, E, dx, dy, dz, r.sgn() * 0.5, ME); q.target_helicity = r.sgn() * 0.5; return q; }
static double elE(Rng & r) { return r.lu(1e-4, 1e5); }
GROUP(P08, elastic_cross_section, 400, 20000) {
    Rng & r = c.r; ElasticScattering x({PT::NuE, PT::NuMu}); PT p = r.coin() ? PT::NuE : PT::NuMu; double E = elE(r), tot = x.TotalCrossSection(p, E, PT::EMinus), ref = elstot(p, E), ym = 2 * E / (2 * E + ME); CHECK("total-is-integral", mon::close(tot, ref, 1e-3), "%s E=%g: total %.10g, integral of the differential %.10g", pname(p).c_str(), E, tot, ref); mon::peak("elastic total defect", std::fabs(tot / ref - 1));
    for(int k = 0; k < 10; ++k) { double y = r.u(0, ym), e = els(p, E, y, ME, 2 * ME * E + ME * ME), v = x.DifferentialCrossSection(p, E, y); CHECK("differential-value", mon::close(v, e, 1e-5, 1e-9 * ref), "%s E=%g y=%g: %.10g, expected %.10g", pname(p).c_str(), E, y, v, e); CHECK("nonnegative", v >= 0, "negative"); }
    double dx, dy, dz; r.dir(dx, dy, dz); auto q = elrec(r, p, E, dx, dy, dz, false); CHECK("total-of-record", x.TotalCrossSection(q) == tot && x.TotalCrossSectionAllFinalStates(q) == tot, "record total %g, %g", x.TotalCrossSection(q), tot); CHECK("threshold", x.InteractionThreshold(q) == 0, "threshold");
    bool th = false; try { std::cout.setstate(std::ios::failbit); x.TotalCrossSection(r.pick({PT::NuTau, PT::NuEBar, PT::MuMinus}), E, PT::EMinus); } catch(std::exception const &) { th = true; } std::cout.clear(); CHECK("unknown-channel-refused", th, "unsupported primary accepted");
    ElasticScattering y({p}); lists("elastic", x, {PT::NuE, PT::NuMu}, {PT::EMinus}); lists("elastic", y, {p}, {PT::EMinus}); CHECK("equality", x == ElasticScattering({PT::NuE, PT::NuMu}) && !(x == y) && y == ElasticScattering({p}) && !(x == DummyCrossSection()), "elastic equality"); seen("elastic %s E~%d", pname(p).c_str(), (int)std::floor(std::log10(E)));
}
GROUP(P07, elastic_final_states, 400, 20000) {
    Rng & r = c.r; ElasticScattering x({PT::NuE, PT::NuMu}); Rnd rnd = rng(r.next()); for(int k = 0; k < 8; ++k) { PT p = r.coin() ? PT::NuE : PT::NuMu; double E = elE(r), dx, dy, dz; r.dir(dx, dy, dz); bool sw = r.coin(); auto q = elrec(r, p, E, dx, dy, dz, sw); auto o = sample(x, q, rnd); conserve(signame(q.signature) + mon::fmt(" E=%g", E), o, ME, sw ? std::vector<double>{ME, 0} : std::vector<double>{0, ME}, 1e-6); CHECK("helicity", o.secondary_helicities[sw ? 0 : 1] == q.target_helicity && o.secondary_helicities[sw ? 1 : 0] == q.primary_helicity, "elastic helicities"); double y = o.interaction_parameters.at("bjorken_y"); CHECK("parameters", mon::close(o.interaction_parameters.at("energy"), E, 1e-12) && mon::close((o.secondary_momenta[sw ? 0 : 1][0] - ME) / E, y, 1e-6, 1e-6 * ME / E), "recorded y %g, electron energy %g", y, o.secondary_momenta[sw ? 0 : 1][0]); seen("elastic %s E~%d", pname(p).c_str(), (int)std::floor(std::log10(E))); }
}
GROUP(P09, elastic_density, 60, 1500) {
    Rng & r = c.r; ElasticScattering x({PT::NuE, PT::NuMu}); PT p = r.coin() ? PT::NuE : PT::NuMu; double E = elE(r), dx, dy, dz, ym = 2 * E / (2 * E + ME), tot = elstot(p, E); r.dir(dx, dy, dz); bool sw = r.coin(); auto q = elrec(r, p, E, dx, dy, dz, sw); Rnd rnd = rng(r.next()); size_t n = c.thorough ? 8000 : 3000; int ei = sw ? 0 : 1; std::vector<double> ys, ph; V4 P(q.primary_momentum);
    for(size_t k = 0; k < n; ++k) { auto o = sample(x, q, rnd); double y = (o.secondary_momenta[ei][0] - ME) / E; ys.push_back(y); double cc, pp; angles(V4(o.secondary_momenta[ei]), P, cc, pp); ph.push_back(pp); if(k < 30) { double f = x.FinalStateProbability(o), e = els(p, E, y, ME, 2 * ME * E + ME * ME) / tot; CHECK("density-value", mon::close(f, e, 2e-3, 1e-6 / ym), "%s E=%g y=%.8g: density %.8g, expected %.8g", pname(p).c_str(), E, y, f, e); } }
    int nb = 200; std::vector<double> cdf(nb + 1, 0); for(int i = 0; i < nb; ++i) cdf[i + 1] = cdf[i] + mon::integ([&](double y) { return els(p, E, y, ME, 1); }, ym * i / nb, ym * (i + 1) / nb, 1); double d = mon::ks(ys, [&](double y) { double t = std::min(std::max(y / ym * nb, 0.), (double)nb); int i = std::min((int)t, nb - 1); return (cdf[i] + (t - i) * (cdf[i + 1] - cdf[i])) / cdf[nb]; }); CHECK("y-follows-density", d < kslim(n) + 2e-3, "%s E=%g: y does not follow the differential cross section: KS %.4f over %zu", pname(p).c_str(), E, d, n); isoazimuth("elastic", ph); seen("elastic %s E~%d", pname(p).c_str(), (int)std::floor(std::log10(E))); obs("final states", n);
}

// ---------------------------------------------------------------- dummy
GROUP(P08, dummy_cross_section, 300, 10000) {
    Rng & r = c.r; DummyCrossSection x; PT p = NU[r.i(6)]; double E = r.lu(1e-2, 1e8), dx, dy, dz; r.dir(dx, dy, dz); auto q = mkrec(xsig(p, PT::Nucleon, {p, PT::Nucleon}), 0, E, dx, dy, dz, -0.5, 0.939); double e = E / 1e5 / (1e8 * 6.0221415e23), t = x.TotalCrossSection(q); CHECK("total-value", mon::close(t, e, 1e-9) && x.TotalCrossSection(p, E, PT::Nucleon) == t, "E=%g: %g expected %g", E, t, e); CHECK("total-of-record", x.TotalCrossSectionAllFinalStates(q) == t, "all final states"); CHECK("differential-value", x.DifferentialCrossSection(q) == t && x.InteractionThreshold(q) == 0, "differential");
    lists("dummy", x, {NU[0], NU[1], NU[2], NU[3], NU[4], NU[5]}, {PT::Nucleon}); CHECK("equality", x == DummyCrossSection() && !(x == ElasticScattering()), "dummy equality"); seen("dummy %s E~%d", pname(p).c_str(), (int)std::floor(std::log10(E)));
}
GROUP(P07, dummy_final_states, 400, 20000) {
    Rng & r = c.r; DummyCrossSection x; Rnd rnd = rng(r.next()); for(int k = 0; k < 8; ++k) { PT p = NU[r.i(6)]; double E = r.lu(1e-2, 1e6), M = r.coin() ? 0.938918 : r.u(0.5, 2), dx, dy, dz; r.dir(dx, dy, dz); auto q = mkrec(xsig(p, PT::Nucleon, {p, PT::Nucleon}), 0, E, dx, dy, dz, r.sgn() * 0.5, M); q.target_helicity = r.sgn() * 0.5; auto o = sample(x, q, rnd); conserve(signame(q.signature) + mon::fmt("dummy E=%g", E), o, M, {0, -1}, 1e-9); CHECK("helicity", o.secondary_helicities[0] == q.primary_helicity && o.secondary_helicities[1] == q.target_helicity, "dummy helicities"); double X = o.interaction_parameters.at("bjorken_x"), y = o.interaction_parameters.at("bjorken_y"); V4 k1(q.primary_momentum), k3(o.secondary_momenta[0]), d = k1 - k3; CHECK("parameters", mon::close((double)d.e / E, y, 1e-9, 1e-9) && mon::close((double)(2 * k1.dot(k3)), 2 * M * E * X * y, 1e-6, 1e-12 * E * E) && mon::close(o.interaction_parameters.at("energy"), E, 1e-12), "x=%g y=%g do not describe the final state (E=%g M=%g)", X, y, E, M); seen("dummy %s E~%d", pname(p).c_str(), (int)std::floor(std::log10(E))); }
}
GROUP(P09, dummy_density, 40, 800) {
    Rng & r = c.r; DummyCrossSection x; PT p = NU[r.i(6)]; double E = r.lu(1e-1, 1e6), M = 0.938918, dx, dy, dz; r.dir(dx, dy, dz); auto q = mkrec(xsig(p, PT::Nucleon, {p, PT::Nucleon}), 0, E, dx, dy, dz, -0.5, M); Rnd rnd = rng(r.next()); size_t n = c.thorough ? 6000 : 3000; std::vector<double> xs, ys, ph; V4 P(q.primary_momentum); for(size_t k = 0; k < n; ++k) { auto o = sample(x, q, rnd); xs.push_back(o.interaction_parameters.at("bjorken_x")); ys.push_back(o.interaction_parameters.at("bjorken_y")); double cc, pp; angles(V4(o.secondary_momenta[0]), P, cc, pp); ph.push_back(pp); if(k < 10) CHECK("density-value", x.FinalStateProbability(o) == 1, "density %g", x.FinalStateProbability(o)); }
    double a = M / (2 * E); double A = std::log1p(a) / a; double d1 = mon::ks(xs, [&](double t) { return std::log1p(a * t) / a / A; }), d2 = mon::ks(ys, [&](double t) { double t0 = 1 / (1 + a); if(t <= t0) return t / A; return (t0 + (std::log(t / t0) - (t - t0)) / a) / A; }); CHECK("xy-uniform", d1 < kslim(n) && d2 < kslim(n), "E=%g: x, y not uniform over the allowed region: KS %.4f %.4f", E, d1, d2); isoazimuth("dummy", ph); seen("dummy E~%d", (int)std::floor(std::log10(E))); obs("final states", n);
}

// ---------------------------------------------------------------- dipole upscattering from tables
GROUP(P08, dipole_upscattering, 300, 15000) {
    Rng & r = c.r; Dip d = mkdip(r, false); double E = r.lu(d.Emin * 1.0001, d.Emax * 0.9999); double u = d.d * d.d * (d.inv ? INV : 1), e = d.t1(E); if(d.Z && E > d.tp.MinX() && E < d.tp.MaxX()) e += d.Z * d.tp(E); e *= u; bool sw = r.coin(); auto q = diprec(r, d, E, sw); double t = d.x->TotalCrossSection(q); CHECK("total-value", mon::close(t, e, 1e-6), "dipole E=%g Z=%d: total %.10g, table %.10g", E, d.Z, t, e); { auto q2 = q; std::swap(q2.signature.secondary_types[0], q2.signature.secondary_types[1]); CHECK("total-of-record", mon::close(d.x->TotalCrossSectionAllFinalStates(q), t, 1e-12), "all final states %g of %g", d.x->TotalCrossSectionAllFinalStates(q), t); }
    double th = Dip::thr(d.m, d.M); CHECK("threshold", mon::close(d.x->InteractionThreshold(q), th, 1e-12), "threshold %g expected %g", d.x->InteractionThreshold(q), th); { auto b = q; for(auto & v : b.primary_momentum) v *= th * 0.99 / E; CHECK("closed-below-threshold", d.x->TotalCrossSection(b) == 0, "cross section below threshold %g", d.x->TotalCrossSection(b)); bool f = false; try { sample(*d.x, b, rng(r.next())); } catch(utilities::InjectionFailure const &) { f = true; } CHECK("closed-below-threshold", f, "final state sampled below threshold"); }
    for(double Eo : {d.Emin * 0.999, d.Emax * 1.001}) { bool f = false; try { d.x->TotalCrossSection(*d.prims.begin(), Eo, d.T); } catch(std::exception const &) { f = true; } CHECK("outside-table-refused", f, "total cross section extrapolated to %g outside [%g, %g]", Eo, d.Emin, d.Emax); }
    { bool f = false; std::cout.setstate(std::ios::failbit); try { d.x->TotalCrossSection(*d.prims.begin(), E, PT::Pb208Nucleus); } catch(std::exception const &) { f = true; } std::cout.clear(); CHECK("unknown-channel-refused", f, "target without table accepted"); f = false; try { d.x->TotalCrossSection(PT::MuMinus, E, d.T); } catch(std::exception const &) { f = true; } CHECK("unknown-channel-refused", f, "muon accepted"); CHECK("unknown-channel-refused", d.x->DifferentialCrossSection(PT::MuMinus, E, d.T, d.M, 0.5) == 0, "muon has a differential cross section"); }
    double lo = Dip::ymin(E, d.m, d.M), hi = Dip::ymax(E, d.m, d.M); int l = sw ? 1 : 0;
    for(int k = 0; k < 12; ++k) { double y = r.coin() ? r.u(lo, hi) : r.lu(lo, hi); double v = d.x->DifferentialCrossSection(q.signature.primary_type, E, d.T, d.M, y), f = dipdiff(d, E, y); bool edge = mon::close(y, lo, 1e-9) || mon::close(y, hi, 1e-9); if(!edge) CHECK("differential-value", mon::close(v, f, 1e-5), "dipole E=%g y=%g: %.10g, table %.10g", E, y, v, f); auto o = dipfinal(q, d, y, l, r.u(0, 6.28)); double w = d.x->DifferentialCrossSection(o), dl = 1e-7 * y + 1e-13, f1 = dipdiff(d, E, y - dl), f2 = dipdiff(d, E, y + dl); if(f1 > 0 && f2 > 0) { double sl = std::fabs(f1 - f2) / f; CHECK("differential-value", mon::close(w, f, 1e-5 + 4 * sl), "dipole E=%g y=%g from momenta: %.10g, table %.10g (lo %g hi %g)", E, y, w, f, lo, hi); double fs = d.x->FinalStateProbability(o); CHECK("probability-is-ratio", mon::close(fs, w / t, 1e-9), "probability %.10g, ratio %.10g", fs, w / t); } CHECK("differential-value", d.x->DifferentialCrossSection(q.signature.primary_type, E, d.T, d.M, hi * 1.001) == 0 && (lo <= 1e-12 || d.x->DifferentialCrossSection(q.signature.primary_type, E, d.T, d.M, lo * 0.999) == 0), "differential cross section beyond the kinematic limits"); }
    { double M = r.lu(5e-4, 200), m = r.lu(1e-3, 5), E2 = Dip::thr(m, M) * (1 + r.lu(1e-3, 1e4)); double a = HNLDipoleFromTable::DipoleyMin(E2, m, M), b = HNLDipoleFromTable::DipoleyMax(E2, m, M), ra = Dip::ymin(E2, m, M), rb = Dip::ymax(E2, m, M); double am = 4e-15 * (M / E2) * (M / E2) / (E2 / Dip::thr(m, M) - 1); CHECK("kinematic-limits", mon::close(a, ra, 1e-5 + am * rb / ra, 3e-15) && mon::close(b, rb, 1e-9 + am), "E=%g m=%g M=%g: y limits %.12g..%.12g, expected %.12g..%.12g", E2, m, M, a, b, ra, rb); }
    std::set<PT> ts{PT::HNucleus, d.T}; lists("dipole", *d.x, d.prims, ts); for(auto const & s : d.x->GetPossibleSignatures()) CHECK("channel-list", s.secondary_types[0] == ((int)s.primary_type > 0 ? PT::N4 : PT::N4Bar) && s.secondary_types[1] == s.target_type, "dipole signature %s", signame(s).c_str());
    auto var = [&](int w) { double m = d.m, cc = d.d; bool z = d.z, iv = d.inv, il = d.inel, fl = d.flip; auto pr = d.prims; if(w == 1) m *= 1.01; if(w == 2) cc *= 2; if(w == 3) z = !z; if(w == 4) iv = !iv; if(w == 5) il = !il; if(w == 6) fl = !fl; if(w == 7) { pr.clear(); pr.insert(PT::MuMinus); } HNLDipoleFromTable y(m, cc, fl ? HNLDipoleFromTable::Flipping : HNLDipoleFromTable::Conserving, z, iv, il, pr); if(d.T != PT::HNucleus) { y.AddTotalCrossSection(PT::HNucleus, d.tp); y.AddDifferentialCrossSection(PT::HNucleus, d.fp); } if(w != 8) y.AddTotalCrossSection(d.T, d.t1); if(w != 9) y.AddDifferentialCrossSection(d.T, d.f1); return *d.x == y; }; CHECK("equality", var(0), "dipole cross section differs from its copy"); int w = 1 + r.i(9); CHECK("equality", !var(w), "dipole cross sections differing in parameter %d compare equal", w); seen("dipole Z=%d z=%d inv=%d inel=%d", d.Z, d.z, d.inv, d.inel);
}
GROUP(P07, dipole_final_states, 300, 12000) {
    Rng & r = c.r; Dip d = mkdip(r, r.coin()); Rnd rnd = rng(r.next()); for(int k = 0; k < 5; ++k) { double E = r.lu(d.Emin * 1.0001, d.Emax * 0.9999); bool sw = r.coin(); auto q = diprec(r, d, E, sw); auto o = sample(*d.x, q, rnd); int l = sw; conserve(signame(q.signature) + mon::fmt(" E=%g m=%g", E, d.m), o, d.M, sw ? std::vector<double>{d.M, d.m} : std::vector<double>{d.m, d.M}, 1e-9); double h = std::copysign(0.5, q.primary_helicity * (d.flip ? -1 : 1)); CHECK("helicity", o.secondary_helicities[0] == h && o.secondary_helicities[1] == h, "dipole helicities %g %g", o.secondary_helicities[0], o.secondary_helicities[1]); double y = o.interaction_parameters.at("bjorken_y"); CHECK("parameters", mon::close(o.interaction_parameters.at("energy"), E, 1e-12) && mon::close(1 - o.secondary_momenta[l][0] / E, y, 1e-6, 1e-13), "recorded y=%g, HNL energy fraction %g", y, o.secondary_momenta[l][0] / E); CHECK("kinematic-limits", y >= Dip::ymin(E, d.m, d.M) * (1 - 1e-4) - 1e-14 && y <= Dip::ymax(E, d.m, d.M) * (1 + 1e-9), "y=%g outside the limits", y); CHECK("density-positive", d.x->FinalStateProbability(o) > 0, "sampled final state has density %g (y=%g)", d.x->FinalStateProbability(o), y); seen("dipole %s E~%d z=%d", signame(q.signature).c_str(), (int)std::floor(std::log10(E)), d.z); }
}
// chain length 41 from an independence proposal: the distance from the target is at most (1-1/b)^41, b = largest weight over the mean
static double chainbias(std::function<double(double)> w, double a, double b) { double mx = 0; L s = 0; int n = 4000; for(int i = 0; i < n; ++i) { double v = w(a + (b - a) * (i + .5) / n); mx = std::max(mx, v); s += v; } return std::pow(1 - (double)(s / n) / mx, 41); }
GROUP(P09, dipole_density, 60, 1500) {
    Rng & r = c.r; Dip d = mkdip(r, true); double E = r.lu(d.Emin * 1.0001, d.Emax * 0.9999), lo = Dip::ymin(E, d.m, d.M), hi = Dip::ymax(E, d.m, d.M); bool sw = r.coin(); auto q = diprec(r, d, E, sw); auto w = [&](double t) { double y = std::exp(t); return y * dipdiff(d, E, y); }; double bias = chainbias(w, std::log(lo), std::log(hi)); if(!(bias < 0.01)) { obs("chain too short for its own bound"); return; }
    size_t n = c.thorough ? 6000 : 3000; Rnd rnd = rng(r.next()); std::vector<double> ys, ph; V4 P(q.primary_momentum); int l = sw; for(size_t k = 0; k < n; ++k) { auto o = sample(*d.x, q, rnd); ys.push_back(std::log(o.interaction_parameters.at("bjorken_y"))); double cc, pp; angles(V4(o.secondary_momenta[l]), P, cc, pp); ph.push_back(pp); }
    int nb = 4000; double a = std::log(lo), b = std::log(hi); std::vector<double> cdf(nb + 1, 0); for(int i = 0; i < nb; ++i) cdf[i + 1] = cdf[i] + w(a + (b - a) * (i + .5) / nb); double D = mon::ks(ys, [&](double t) { double x = std::min(std::max((t - a) / (b - a) * nb, 0.), (double)nb); int i = std::min((int)x, nb - 1); return (cdf[i] + (x - i) * (cdf[i + 1] - cdf[i])) / cdf[nb]; }); CHECK("y-follows-density", D < kslim(n) + bias + 3e-3, "dipole E=%g m=%g Z=%d: y does not follow the differential cross section: KS %.4f over %zu (chain bias %.4f)", E, d.m, d.Z, D, n, bias); isoazimuth("dipole", ph); seen("dipole Z=%d z=%d E~%d", d.Z, d.z, (int)std::floor(std::log10(E))); obs("final states", n);
}

// ---------------------------------------------------------------- DarkNews interfaces, implemented here as a python user would
struct DN : DarkNewsCrossSection { double M, m3, pw; PT prim, targ; DN(double M_, double m3_, double pw_, PT p, PT t) : M(M_), m3(m3_), pw(pw_), prim(p), targ(t) {} mutable PT lastT = PT::unknown;
    double TotalCrossSection(InteractionRecord const & r) const override { return DarkNewsCrossSection::TotalCrossSection(r); } double DifferentialCrossSection(InteractionRecord const & r) const override { return DarkNewsCrossSection::DifferentialCrossSection(r); }
    double lim(double E, int sg) const { L s = 2 * (L)E * M + (L)M * M, p1 = (s - (L)M * M) / (2 * sqrtl(s)), e3 = (s + (L)m3 * m3 - (L)M * M) / (2 * sqrtl(s)), p3 = sqrtl(e3 * e3 - (L)m3 * m3); L hi = 2 * p1 * (e3 + p3) - (L)m3 * m3, prod = (L)m3 * m3 * m3 * m3 * M * M / s; return (double)(sg > 0 ? hi : prod / hi); } // Q2 limits; (Q2min)(Q2max) = m^4 M^2/s
    double dsig(double E, double Q2) const { return 1e-38 * std::pow(Q2, -pw) * (1 + E); } double TotalCrossSection(PT p, double E, PT t) const override { lastT = t; if(p != prim || t != targ) return 0; double a = lim(E, -1), b = lim(E, 1); return 1e-38 * (1 + E) * (pw == 1 ? std::log(b / a) : (std::pow(b, 1 - pw) - std::pow(a, 1 - pw)) / (1 - pw)); }
    double DifferentialCrossSection(PT p, PT t, double E, double Q2) const override { if(p != prim || t != targ) return 0; return dsig(E, Q2); } double InteractionThreshold(InteractionRecord const &) const override { return m3 + m3 * m3 / 2 / M; } double Q2Min(InteractionRecord const & r) const override { return lim(r.primary_momentum[0], -1); } double Q2Max(InteractionRecord const & r) const override { return lim(r.primary_momentum[0], 1); } double TargetMass(PT const &) const override { return M; } std::vector<double> SecondaryMasses(std::vector<PT> const &) const override { return {m3, M}; } std::vector<double> SecondaryHelicities(InteractionRecord const & r) const override { return {r.primary_helicity, 0.25}; }
    std::vector<PT> GetPossibleTargets() const override { return {targ}; } std::vector<PT> GetPossibleTargetsFromPrimary(PT) const override { return {targ}; } std::vector<PT> GetPossiblePrimaries() const override { return {prim}; } std::vector<InteractionSignature> GetPossibleSignatures() const override { return {xsig(prim, targ, {PT::N4, targ})}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParents(PT p, PT t) const override { return p == prim && t == targ ? GetPossibleSignatures() : std::vector<InteractionSignature>(); } };
struct DNbare : DarkNewsCrossSection { using DarkNewsCrossSection::TotalCrossSection; using DarkNewsCrossSection::DifferentialCrossSection; std::vector<PT> GetPossibleTargets() const override { return {}; } std::vector<PT> GetPossibleTargetsFromPrimary(PT) const override { return {}; } std::vector<PT> GetPossiblePrimaries() const override { return {}; } std::vector<InteractionSignature> GetPossibleSignatures() const override { return {}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParents(PT, PT) const override { return {}; } };
struct DD : DarkNewsDecay { double dd, td; bool called = false; DD(double a, double b) : dd(a), td(b) {} double TotalDecayWidth(PT) const override { return 3 * td; } double TotalDecayWidth(InteractionRecord const &) const override { return td; } double DifferentialDecayWidth(InteractionRecord const &) const override { return dd; } void SampleRecordFromDarkNews(dataclasses::CrossSectionDistributionRecord & r, Rnd) const override { r.GetSecondaryParticleRecord(0).SetMass(0.125); r.GetSecondaryParticleRecord(0).SetFourMomentum({0.125, 0, 0, 0}); } std::vector<InteractionSignature> GetPossibleSignatures() const override { return {}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParent(PT) const override { return {}; } std::vector<std::string> DensityVariables() const override { return {}; } };
template<class F> static bool pyerr(F f) { try { f(); } catch(utilities::PythonImplementationError const &) { return true; } return false; }
GROUP(P08, darknews_interface, 200, 8000) {
    Rng & r = c.r; int k = r.i(5); DN x(nM[k], r.lu(0.01, 1.5), r.u(0, 2), NU[r.i(6)], nuclei[k]); double E = Dip::thr(x.m3, x.M) * (1 + r.lu(1e-2, 1e3)), dx, dy, dz; r.dir(dx, dy, dz); auto q = mkrec(xsig(x.prim, x.targ, {PT::N4, x.targ}), 0, E, dx, dy, dz, 0.5, x.M); CrossSection const & b = x; double t = b.TotalCrossSection(q); CHECK("total-value", mon::close(t, x.TotalCrossSection(x.prim, E, x.targ), 1e-12) && t > 0, "total for the record %g, for its primary and target %g", t, x.TotalCrossSection(x.prim, E, x.targ)); CHECK("total-of-record", mon::close(b.TotalCrossSectionAllFinalStates(q), t, 1e-12), "all final states");
    double lo = x.lim(E, -1), hi = x.lim(E, 1), Q2 = r.lu(lo, hi); L E3 = (L)E - (L)Q2 / (2 * x.M), p3 = sqrtl(E3 * E3 - (L)x.m3 * x.m3), cs = ((L)E * E3 - 0.5L * (Q2 + (L)x.m3 * x.m3)) / ((L)E * p3); if(fabsl(cs) <= 1) { V4 k3 = about(E3, p3, cs, r.u(0, 6.28), dx, dy, dz), k4 = V4(q.primary_momentum) - k3; k4.e = (L)E + x.M - E3; auto o = q; o.secondary_momenta = {arr(k3), arr(k4)}; o.secondary_masses = {x.m3, x.M}; o.secondary_helicities = {0, 0}; double v = b.DifferentialCrossSection(o), e = x.dsig(E, Q2), tol = 1e-6 + 4e-16 * E * E / Q2 * 50; CHECK("differential-value", mon::close(v, e, tol), "DarkNews E=%g Q2=%g: %.10g, expected %.10g", E, Q2, v, e); CHECK("probability-is-ratio", mon::close(b.FinalStateProbability(o), v / t, 1e-9), "probability"); seen("darknews Z~%d E~%d", k, (int)std::floor(std::log10(E))); }
    DNbare n; auto rnd = rng(1); CHECK("unimplemented-refused", pyerr([&] { n.TotalCrossSection(x.prim, E, x.targ); }) && pyerr([&] { n.DifferentialCrossSection(x.prim, x.targ, E, 1); }) && pyerr([&] { n.InteractionThreshold(q); }) && pyerr([&] { n.Q2Min(q); }) && pyerr([&] { n.Q2Max(q); }) && pyerr([&] { n.TargetMass(x.targ); }) && pyerr([&] { n.SecondaryMasses({}); }) && pyerr([&] { n.SecondaryHelicities(q); }) && pyerr([&] { n.TotalCrossSection(q); }), "a method that python must provide does not say so");
    DD d(r.coin(0.2) ? 0 : r.lu(1e-20, 1), r.coin(0.2) ? 0 : r.lu(1e-20, 1)); CHECK("probability-is-ratio", d.FinalStateProbability(q) == (d.dd == 0 || d.td == 0 ? 0 : d.dd / d.td), "decay probability"); CHECK("total-is-sum", d.TotalDecayWidthAllFinalStates(q) == 3 * d.td, "decay width of all final states"); CHECK("equality", x == DN(1, 1, 1, x.prim, x.targ) && !(x == DummyCrossSection()) && d == DD(0, 0), "DarkNews equality");
}
GROUP(P07, darknews_final_states, 300, 12000) {
    Rng & r = c.r; int k = r.i(5); DN x(nM[k], r.lu(0.01, 1.5), r.u(0, 2), NU[r.i(6)], nuclei[k]); Rnd rnd = rng(r.next()); for(int j = 0; j < 5; ++j) { double E = Dip::thr(x.m3, x.M) * (1 + r.lu(1e-3, 1e3)), dx, dy, dz; r.dir(dx, dy, dz); auto q = mkrec(xsig(x.prim, x.targ, {PT::N4, x.targ}), 0, E, dx, dy, dz, 0.5, r.coin() ? x.M : 0); auto o = sample(x, q, rnd); CHECK("target-mass", o.target_mass == x.M, "target mass %g, DarkNews says %g", o.target_mass, x.M); conserve(signame(q.signature) + mon::fmt(" darknews E=%g m=%g", E, x.m3), o, x.M, {x.m3, x.M}, 1e-9); CHECK("helicity", o.secondary_helicities[0] == 0.5 && o.secondary_helicities[1] == 0.25, "DarkNews helicities"); seen("darknews Z~%d E~%d", k, (int)std::floor(std::log10(E))); }
    DD d(1, 1); auto o = sample(d, [&] { auto q = mkrec(xsig(PT::N4, PT::Decay, {PT::NuE}), 1, 1, 0, 0, 1, 0); return q; }(), rnd); CHECK("delegated-sampling", o.secondary_masses.at(0) == 0.125, "DarkNews decay sampling is not delegated");
}
GROUP(P09, darknews_density, 60, 1500) {
    Rng & r = c.r; int k = r.i(5); DN x(nM[k], r.lu(0.05, 1.5), r.u(0.6, 1.5), NU[r.i(6)], nuclei[k]); double E = Dip::thr(x.m3, x.M) * (1 + r.lu(1e-1, 50)), dx, dy, dz; r.dir(dx, dy, dz); auto q = mkrec(xsig(x.prim, x.targ, {PT::N4, x.targ}), 0, E, dx, dy, dz, 0.5, x.M); double a = std::log(x.lim(E, -1)), b = std::log(x.lim(E, 1)), bias = chainbias([&](double t) { return std::exp(t * (1 - x.pw)); }, a, b); if(!(bias < 0.01)) { obs("chain too short for its own bound"); return; } Rnd rnd = rng(r.next()); size_t n = c.thorough ? 6000 : 3000; std::vector<double> ts, ph; V4 P(q.primary_momentum);
    for(size_t i = 0; i < n; ++i) { auto o = sample(x, q, rnd); ts.push_back(std::log(2 * x.M * (o.secondary_momenta[1][0] - x.M))); double cc, pp; angles(V4(o.secondary_momenta[0]), P, cc, pp); ph.push_back(pp); } auto F = [&](double t) { double g = 1 - x.pw; return std::fabs(g) < 1e-9 ? (t - a) / (b - a) : std::expm1(g * (t - a)) / std::expm1(g * (b - a)); }; double D = mon::ks(ts, F); CHECK("q2-follows-density", D < kslim(n) + bias + 1e-3, "DarkNews Q2 with density Q2^-%.2f: KS %.4f over %zu (chain bias %.4f)", x.pw, D, n, bias); isoazimuth("darknews", ph); seen("darknews pw~%.1f", x.pw); obs("final states", n);
}

// ---------------------------------------------------------------- collections
struct MX : CrossSection { std::map<PT, std::map<PT, std::vector<std::pair<PT, double>>>> t; bool equal(CrossSection const & o) const override { auto x = dynamic_cast<MX const *>(&o); return x && x->t == t; } double TotalCrossSection(InteractionRecord const & r) const override { auto a = t.find(r.signature.primary_type); if(a == t.end()) return 0; auto b = a->second.find(r.signature.target_type); if(b == a->second.end()) return 0; for(auto const & p : b->second) if(r.signature.secondary_types.size() == 1 && r.signature.secondary_types[0] == p.first) return p.second * r.primary_momentum[0]; return 0; } double DifferentialCrossSection(InteractionRecord const &) const override { return 0; } double InteractionThreshold(InteractionRecord const &) const override { return 0; } void SampleFinalState(dataclasses::CrossSectionDistributionRecord & r, Rnd rnd) const override { r.GetSecondaryParticleRecord(0).SetFourMomentum({rnd->Uniform(1, 2), 0, 0, 0}); r.GetSecondaryParticleRecord(0).SetMass(0.5); r.GetSecondaryParticleRecord(0).SetHelicity(0.5); }
    std::vector<PT> GetPossibleTargets() const override { std::set<PT> s; for(auto const & a : t) for(auto const & b : a.second) s.insert(b.first); return std::vector<PT>(s.begin(), s.end()); } std::vector<PT> GetPossibleTargetsFromPrimary(PT p) const override { std::vector<PT> v; if(t.count(p)) for(auto const & b : t.at(p)) v.push_back(b.first); return v; } std::vector<PT> GetPossiblePrimaries() const override { std::vector<PT> v; for(auto const & a : t) v.push_back(a.first); return v; } std::vector<InteractionSignature> GetPossibleSignatures() const override { std::vector<InteractionSignature> v; for(auto const & a : t) for(auto const & b : a.second) for(auto const & p : b.second) v.push_back(xsig(a.first, b.first, {p.first})); return v; } std::vector<InteractionSignature> GetPossibleSignaturesFromParents(PT p, PT q) const override { std::vector<InteractionSignature> v; for(auto const & s : GetPossibleSignatures()) if(s.primary_type == p && s.target_type == q) v.push_back(s); return v; } double FinalStateProbability(InteractionRecord const &) const override { return 1; } std::vector<std::string> DensityVariables() const override { return {}; } };
struct MD : Decay { double w; MD(double w_) : w(w_) {} bool equal(Decay const & o) const override { auto x = dynamic_cast<MD const *>(&o); return x && x->w == w; } double TotalDecayWidthAllFinalStates(InteractionRecord const &) const override { return w; } double TotalDecayWidth(PT) const override { return w; } double TotalDecayWidth(InteractionRecord const &) const override { return w / 2; } double DifferentialDecayWidth(InteractionRecord const &) const override { return w; } void SampleFinalState(dataclasses::CrossSectionDistributionRecord &, Rnd) const override {} std::vector<InteractionSignature> GetPossibleSignatures() const override { return {}; } std::vector<InteractionSignature> GetPossibleSignaturesFromParent(PT) const override { return {}; } double FinalStateProbability(InteractionRecord const &) const override { return 1; } std::vector<std::string> DensityVariables() const override { return {}; } };
struct Neither : Interaction {};
GROUP(P08, collections, 1500, 60000) {
    Rng & r = c.r; static const PT pr[] = {PT::NuE, PT::NuMu, PT::N4}, tg[] = {PT::HNucleus, PT::O16Nucleus, PT::EMinus, PT::Nucleon, PT::Fe56Nucleus}, fs[] = {PT::EMinus, PT::MuMinus, PT::Hadrons, PT::Gamma}; int nx = r.i(4), nd = r.i(4); std::vector<std::shared_ptr<CrossSection>> xs; std::vector<std::shared_ptr<Decay>> ds; std::vector<std::shared_ptr<Interaction>> is; std::vector<std::shared_ptr<MX>> mx; std::vector<std::shared_ptr<MD>> md;
    for(int i = 0; i < nx; ++i) { auto m = std::make_shared<MX>(); int np = 1 + r.i(2); for(int a = 0; a < np; ++a) { PT p = pr[r.i(3)]; int nt = 1 + r.i(3); for(int b = 0; b < nt; ++b) { auto & v = m->t[p][tg[r.i(5)]]; v.clear(); std::set<PT> u; for(int s = 1 + r.i(3); s > 0; --s) u.insert(fs[r.i(4)]); for(PT f : u) v.push_back({f, r.lu(1e-40, 1e-30)}); } } if(i && r.coin(0.25)) m->t = mx[r.i(i)]->t; mx.push_back(m); xs.push_back(m); is.push_back(m); } for(int i = 0; i < nd; ++i) { auto d = std::make_shared<MD>(r.coin(0.15) ? 0 : r.lu(1e-25, 1e-3)); if(i && r.coin(0.25)) d->w = md[r.i(i)]->w; md.push_back(d); ds.push_back(d); is.push_back(d); } for(size_t i = is.size(); i > 1; --i) std::swap(is[i - 1], is[r.i(i)]);
    PT prim = pr[r.i(3)]; int how = r.i(4); if(how == 1 && nd) how = 2; if(how == 3 && nx) how = 2; InteractionCollection q = how == 0 ? InteractionCollection(prim, is) : how == 1 ? InteractionCollection(prim, xs) : how == 3 ? InteractionCollection(prim, ds) : InteractionCollection(prim, xs, ds);
    std::set<std::shared_ptr<CrossSection>> sx(xs.begin(), xs.end()), qx(q.GetCrossSections().begin(), q.GetCrossSections().end()); std::set<std::shared_ptr<Decay>> sd(ds.begin(), ds.end()), qd(q.GetDecays().begin(), q.GetDecays().end()); CHECK("members", sx == qx && q.GetCrossSections().size() == xs.size() && sd == qd && q.GetDecays().size() == ds.size() && q.HasCrossSections() == (nx > 0) && q.HasDecays() == (nd > 0) && q.GetPrimaryType() == prim, "collection lost or invented members");
    std::set<PT> T; std::map<PT, std::set<std::shared_ptr<CrossSection>>> by; for(auto & m : mx) for(PT t : m->GetPossibleTargets()) { T.insert(t); by[t].insert(m); } CHECK("target-types", q.TargetTypes() == T, "%zu targets, expected %zu", q.TargetTypes().size(), T.size()); for(PT t : tg) { auto const & v = q.GetCrossSectionsForTarget(t); CHECK("by-target", std::set<std::shared_ptr<CrossSection>>(v.begin(), v.end()) == by[t] && v.size() == by[t].size(), "%zu cross sections for %s, expected %zu", v.size(), pname(t).c_str(), by[t].size()); } CHECK("by-target", q.GetCrossSectionsByTarget().size() == T.size(), "map by target");
    PT rp = pr[r.i(3)]; double m = r.lu(0.01, 10), p = r.coin(0.1) ? 0 : r.lu(1e-3, 1e4); PT f = fs[r.i(4)]; auto rec = mkrec(xsig(rp, tg[r.i(5)], {f}), m, p, 0, 0.6, 0.8, 0.5); CHECK("matches-primary", q.MatchesPrimary(rec) == (rp == prim), "primary match"); double E = rec.primary_momentum[0]; auto before = rec;
    auto one = q.TotalCrossSectionByTarget(rec), all = q.TotalCrossSectionByTargetAllFinalStates(rec); CHECK("total-is-sum", one.size() == T.size() && all.size() == T.size(), "targets in the totals"); for(PT t : T) { L so = 0, sa = 0; for(auto & x : mx) { auto a = x->t.find(rp); if(a == x->t.end()) continue; auto b = a->second.find(t); if(b == a->second.end()) continue; for(auto & v : b->second) { sa += v.second * (L)E; if(v.first == f) so += v.second * (L)E; } } CHECK("total-is-sum", mon::close(one.at(t), (double)so, 1e-12) && mon::close(all.at(t), (double)sa, 1e-12), "%s: totals %g %g expected %Lg %Lg", pname(t).c_str(), one.at(t), all.at(t), so, sa); }
    L w = 0; for(auto & d : md) w += d->w; CHECK("total-is-sum", mon::close(q.TotalDecayWidthAllFinalStates(rec), (double)w, 1e-12), "widths %g expected %Lg", q.TotalDecayWidthAllFinalStates(rec), w); double len = q.TotalDecayLengthAllFinalStates(rec); bool z0 = false; for(auto & d : md) z0 |= d->w == 0; if(p == 0 && z0) ; else if(w == 0) CHECK("decay-length", std::isinf(len) || p == 0, "length without width %g", len); else CHECK("decay-length", mon::close(len, (double)(p / m * 197.3269804e-18L / w), 1e-3), "decay length %g expected %Lg", len, p / m * 197.3269804e-18L / w);
    for(auto & d : md) { double l1 = d->TotalDecayLength(rec), la = d->TotalDecayLengthAllFinalStates(rec); if(d->w > 0) CHECK("decay-length", mon::close(la, p / m * 197.3269804e-18 / d->w, 1e-3) && mon::close(l1, 2 * la, 1e-9), "decay lengths %g %g", l1, la); }
    CHECK("record-unchanged", rec == before, "the record was modified"); bool th = false; auto bad = is; bad.push_back(std::make_shared<Neither>()); try { InteractionCollection z(prim, bad); } catch(std::exception const &) { th = true; } CHECK("unknown-channel-refused", th, "an interaction that is neither cross section nor decay was accepted");
    InteractionCollection q2 = q; CHECK("equality", q2 == q, "copy differs"); q2.SetPrimaryType(PT::TauMinus); CHECK("equality", q2.GetPrimaryType() == PT::TauMinus && !(q2 == q), "primary type"); if(nx) { auto ys = xs; ys.pop_back(); CHECK("equality", !(InteractionCollection(prim, ys, ds) == InteractionCollection(prim, xs, ds)), "fewer cross sections compare equal"); } if(nd) { auto es = ds; es.pop_back(); CHECK("equality", !(InteractionCollection(prim, xs, es) == InteractionCollection(prim, xs, ds)), "fewer decays compare equal"); }
    { dataclasses::CrossSectionDistributionRecord cr(rec); cr.SetInteractionTime(r.u(0, 1e3)); Rnd rnd = rng(1); if(nx) CHECK("time-hook", xs[0]->SampleInteractionTime(cr, rnd) == cr.GetInteractionTime(), "interaction time"); if(nd) CHECK("time-hook", ds[0]->SampleDecayTime(cr, rnd) == cr.GetInteractionTime(), "decay time"); }
    seen("collection x%d d%d how%d", nx, nd, how);
}

// ---------------------------------------------------------------- energy loss of charmed mesons
#include <SIREN/interactions/DMesonELoss.h>
static const PT DM[6] = {PT::D0, PT::DPlus, PT::DsPlus, PT::D0Bar, PT::DMinus, PT::DsMinus};
static double dmcdf(double z) { return 0.5 * std::erfc(-(z - 0.56) / (0.2 * std::sqrt(2.))); }
static InteractionRecord dmrec(Rng & r, PT p, double E, double m) { double dx, dy, dz; r.dir(dx, dy, dz); auto q = mkrec(xsig(p, PT::PPlus, {p, PT::Hadrons}), m, std::sqrt(std::max(0., (E - m) * (E + m))), dx, dy, dz, r.sgn() * 0.5, 0.938272); return q; }
GROUP(P08, charm_loss, 300, 10000) {
    Rng & r = c.r; DMesonELoss x; PT p = DM[r.i(6)]; double m = r.coin() ? r.u(1.8, 2) : dataclasses::GetParticleMass(p), E = m * r.lu(1.01, 1e9); if(!(m > 0)) m = 1.87; auto q = dmrec(r, p, E, m); E = q.primary_momentum[0]; L lg = log10l(E), e = (expl(1.891L + 0.205L * lg) - 2.157L + 1.264L * lg) * 1e-27L; double t = x.TotalCrossSection(q);
    CHECK("total-value", mon::close(t, (double)e, 1e-9, 1e-36) && mon::close(x.TotalCrossSection(p, E), t, 1e-12, 1e-40), "%s E=%g: %g expected %Lg", pname(p).c_str(), E, t, e); CHECK("total-of-record", mon::close(x.TotalCrossSectionAllFinalStates(q), t, 1e-12, 1e-40), "all final states %g instead of %g", x.TotalCrossSectionAllFinalStates(q), t); CHECK("threshold", x.InteractionThreshold(q) == 0, "threshold %g", x.InteractionThreshold(q));
    lists("charm loss", x, {DM[0], DM[1], DM[2], DM[3], DM[4], DM[5]}, {PT::PPlus}); CHECK("equality", x == DMesonELoss() && !(x == DummyCrossSection()) && !(DummyCrossSection() == x), "charm loss equality"); bool threw = false; try { x.TotalCrossSection(PT::NuMu, E); } catch(std::runtime_error const &) { threw = true; } CHECK("foreign-primary-refused", threw, "a neutrino was accepted"); seen("charm loss %s E~%d", pname(p).c_str(), (int)std::floor(std::log10(E)));
}
GROUP(P07, charm_loss_final_states, 400, 15000) { // the hadrons are taken to be massless and collinear, so energy is conserved and momentum is not
    Rng & r = c.r; DMesonELoss x; Rnd rnd = rng(r.next()); for(int k = 0; k < 8; ++k) { PT p = DM[r.i(6)]; double m = r.u(1.8, 2), E = m * (r.coin(0.3) ? r.u(1.2, 3) : r.lu(1.2, 1e6)); auto q = dmrec(r, p, E, m); E = q.primary_momentum[0]; InteractionRecord o; try { o = sample(x, q, rnd); } catch(utilities::InjectionFailure const &) { CHECK("gives-up-only-near-threshold", E < 1.6 * m, "%s E=%g m=%g: no final state", pname(p).c_str(), E, m); continue; }
        CHECK("secondary-count", o.secondary_momenta.size() == 2 && o.secondary_masses.size() == 2, "%zu secondaries", o.secondary_momenta.size()); if(o.secondary_momenta.size() != 2) continue; V4 P(q.primary_momentum), a(o.secondary_momenta[0]), b(o.secondary_momenta[1]); bool fin = true; for(auto & v : o.secondary_momenta) for(double w : v) fin &= std::isfinite(w); CHECK("finite-final-state", fin, "non-finite"); if(!fin) continue;
        CHECK("energy-conserved", fabsl(a.e + b.e - P.e) <= 1e-9L * P.e, "%s E=%.12Lg: meson %.12Lg hadrons %.12Lg", pname(p).c_str(), P.e, a.e, b.e); CHECK("on-shell", fabsl(a.m2() - (L)m * m) <= 1e-11L * P.e * P.e + 1e-9L && mon::close(o.secondary_masses[0], m, 1e-6, 1e-9 * E) && fabsl(b.m2()) <= 1e-11L * P.e * P.e && std::fabs(o.secondary_masses[1]) <= 1e-6 * E, "E=%g: masses %g %g", E, o.secondary_masses[0], o.secondary_masses[1]);
        CHECK("loses-energy", a.e <= P.e * (1 - 0.001L + 1e-9L) && a.e >= m * (1 - 1e-9L), "E=%.12Lg, afterwards %.12Lg", P.e, a.e); CHECK("collinear", a.p() < 1e-4 * m || fabsl(a.dot3(P) / (a.p() * P.p()) - 1) < 1e-9L, "meson turned"); CHECK("collinear-hadrons", fabsl(b.dot3(P) / (b.p() * P.p()) - 1) < 1e-9L, "hadrons turned"); CHECK("helicity", o.secondary_helicities[0] == q.primary_helicity && o.secondary_helicities[1] == q.primary_helicity, "helicities"); seen("charm loss %s E~%d", pname(p).c_str(), (int)std::floor(std::log10(E))); }
    { double m = r.u(1.8, 2); auto q = dmrec(r, DM[r.i(6)], m, m); q.primary_momentum = {m, 0, 0, 0}; bool failed = false; try { sample(x, q, rnd); } catch(utilities::InjectionFailure const &) { failed = true; } CHECK("at-rest-fails-recoverably", failed, "a meson at rest lost energy"); }
}
GROUP(P09, charm_loss_density, 60, 1500) {
    Rng & r = c.r; DMesonELoss x; PT p = DM[r.i(6)]; double m = r.u(1.8, 2), E = m * (r.coin(0.4) ? r.u(1.3, 4) : r.lu(1.3, 1e6)); auto q = dmrec(r, p, E, m); E = q.primary_momentum[0]; Rnd rnd = rng(r.next()); double hi = std::min(1., 1 - m / E), lo = 0.001, N = dmcdf(hi) - dmcdf(lo); size_t n = c.thorough ? 8000 : 3000; std::vector<double> zs;
    for(size_t k = 0; k < n; ++k) { InteractionRecord o; try { o = sample(x, q, rnd); } catch(utilities::InjectionFailure const &) { continue; } double z = 1 - o.secondary_momenta[0][0] / E; zs.push_back(z); if(k < 30) { double e = std::exp(-(z - 0.56) * (z - 0.56) / 0.08) / (0.2 * std::sqrt(2 * M_PI)) / N, f = x.FinalStateProbability(o), d = x.DifferentialCrossSection(o), t = x.TotalCrossSection(o); CHECK("density-value", (z > lo + 1e-9 && z < hi - 1e-9) ? mon::close(f, e, 1e-5) && mon::close(d, f * t, 1e-9) : true, "%s E=%g z=%.9g: density %.9g, expected %.9g", pname(p).c_str(), E, z, f, e); } }
    CHECK("draws-succeed", zs.size() > 0.95 * n, "%zu of %zu draws at E/m=%g", zs.size(), n, E / m); double d = mon::ks(zs, [&](double z) { return std::min(1., std::max(0., (dmcdf(z) - dmcdf(lo)) / N)); }); CHECK("follows-density", d < kslim(zs.size()), "%s E=%g m=%g: energy loss does not follow the density: KS %.4f over %zu", pname(p).c_str(), E, m, d, zs.size());
    for(double z : {-0.2, 0., 0.0009, hi + 0.5 * (1 - hi) + 1e-6}) { auto o = q; o.secondary_momenta = {{E * (1 - z), 0, 0, 0}, {E * z, 0, 0, 0}}; o.secondary_masses = {m, 0}; o.secondary_helicities = {0, 0}; CHECK("zero-outside", x.DifferentialCrossSection(o) == 0 && x.FinalStateProbability(o) == 0, "E=%g: density at an energy loss of %g", E, z); } seen("charm loss E/m~%d", (int)std::floor(2 * std::log10(E / m))); obs("final states", zs.size());
}
