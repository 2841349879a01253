// P07, P08: tables read from files, shorter constructors, and the routes by which final states are sampled.
#include "xs_pool.h"
#include <SIREN/interactions/HNLDecay.h>
#include <unistd.h>
#include <sys/stat.h>
static void put(std::string const & p, std::string const & s) { FILE * f = fopen(p.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
struct Unlink { std::string p; ~Unlink() { unlink(p.c_str()); } };
// file name: Z_<n>, A_<n>, mHNL_<mass> in any order among other words
static std::string fname(Rng & r, int Z, int A, std::string m) { std::vector<std::string> t{mon::fmt("Z_%d", Z), mon::fmt("A_%d", A)}; if(!m.empty()) t.push_back("mHNL_" + m); for(size_t i = t.size() - 1; i > 0; --i) std::swap(t[i], t[r.i(i + 1)]); std::string s = r.pick({std::string("dxsec_"), std::string("xsec_"), std::string(""), std::string("table_v2_")}); for(size_t i = 0; i < t.size(); ++i) s += (i ? "_" : "") + t[i]; if(r.coin()) s += r.pick({std::string("_hf"), std::string("_hc")}); return s + r.pick({std::string(".dat"), std::string(".txt")}); }
static std::string row(Rng & r, std::vector<double> v) { std::string s = r.coin(0.2) ? " \t" : ""; for(size_t i = 0; i < v.size(); ++i) s += mon::fmt("%s%.17g", i ? (r.coin() ? " " : "\t") : "", v[i]); return s + (r.coin(0.1) ? " # note" : "") + (r.coin(0.1) ? " \r\n" : "\n") + (r.coin(0.05) ? "\n# comment 1 2 3\n   \n" : ""); }
static const int FA[] = {1, 16, 12, 40, 56};
GROUP(P08, dipole_files, 400, 15000) {
    Rng & r = c.r; int k = r.i(5); double m = r.coin(0.5) ? r.pick({0.001, 0.1, 0.25, 1.0, 0.02}) : r.lu(1e-3, 1.5), cp = r.lu(1e-8, 1e-3); std::string ms = mon::fmt("%.9g", m); if(ms.find('e') != std::string::npos) ms = mon::fmt("%.12f", m); m = atof(ms.c_str());
    PT T = nuclei[k]; double M = nM[k]; bool z = r.coin(), inv = r.coin(); auto ch = r.coin() ? HNLDipoleFromTable::Flipping : HNLDipoleFromTable::Conserving; HNLDipoleFromTable x(m, cp, ch, z, inv, false), ref(m, cp, ch, z, inv, false);
    double E0 = Dip::thr(m, M) * r.u(1.01, 1.5), E1 = E0 * r.lu(10, 1e3); int ne = 4 + r.i(6), ny = 4 + r.i(6); TableData1D<double> a; TableData2D<double> b; std::string ta = r.coin() ? "# E xs\n" : "", tb = r.coin() ? "# E y xs\n" : ""; for(int i = 0; i < ne; ++i) { double E = E0 * std::pow(E1 / E0, i / (ne - 1.)), f = r.lu(1e-3, 1); a.x.push_back(E); a.f.push_back(f); ta += row(r, {E, f}); for(int j = 0; j < ny; ++j) { double y = z ? j / (ny - 1.) : std::pow(1e-6, 1 - j / (ny - 1.)), g = r.lu(1e-3, 1); b.x.push_back(E); b.y.push_back(y); b.f.push_back(g); tb += row(r, {E, y, g}); } }
    ref.AddTotalCrossSection(T, a); ref.AddDifferentialCrossSection(T, b); bool diff = r.coin(); std::string dir = r.pick({std::string(""), std::string("./"), std::string("../") + [](std::string s) { return s.substr(s.rfind('/') + 1); }([]{ char b[4096]; return std::string(getcwd(b, sizeof b) ? b : "."); }()) + "/"}); int mode = r.i(8); // 0-3 good
    auto add = [&](std::string n, std::string const & t, PT tt, bool make = true) { Unlink u{dir + n}; if(make) put(u.p, t); try { if(diff) x.AddDifferentialCrossSectionFile(u.p, tt); else x.AddTotalCrossSectionFile(u.p, tt); return true; } catch(std::exception const &) { return false; } };
    if(mode <= 3) { for(int d = 0; d < 2; ++d) { diff = d; std::string n = fname(r, nZ[k], FA[k], r.coin(0.15) ? "" : ms); CHECK("file-accepted", add(n, d ? tb : ta, T), "file %s refused for mass %s", n.c_str(), ms.c_str()); }
        if(T != PT::HNucleus) for(auto * h : {&x, &ref}) { h->AddTotalCrossSection(PT::HNucleus, a); h->AddDifferentialCrossSection(PT::HNucleus, b); } for(int i = 0; i < 10; ++i) { double E = r.lu(E0 * 1.0001, E1 * 0.9999), v = x.TotalCrossSection(PT::NuMu, E, T), w = ref.TotalCrossSection(PT::NuMu, E, T); CHECK("file-contents", v == w && w > 0, "total from file %g, from table %g", v, w); double lo = Dip::ymin(E, m, M), hi = Dip::ymax(E, m, M), y = r.u(lo, hi); v = x.DifferentialCrossSection(PT::NuMu, E, T, M, y); w = ref.DifferentialCrossSection(PT::NuMu, E, T, M, y); CHECK("file-contents", v == w, "differential from file %g, from table %g", v, w); } CHECK("file-contents", x == ref, "interaction from files not equal to that from the same tables"); CHECK("mass", x.GetHNLMass() == m, "mass"); obs("dipole.files-read", 2); return; }
    std::string what, n = fname(r, nZ[k], FA[k], ms), t = diff ? tb : ta; bool acc = false; auto cutrow = [&]{ auto p = t.rfind('\n', t.size() - 2); size_t q = p == std::string::npos ? 0 : p + 1; return q; }; (void)cutrow;
    switch(mode) { case 4: { int k2 = (k + 1 + r.i(4)) % 5; what = "another target"; acc = add(n, t, nuclei[k2]); break; }
        case 5: what = "another mass"; acc = add(fname(r, nZ[k], FA[k], mon::fmt("%.9f", m * r.pick({1.5, 0.5, 1.01, 10.}))), t, T); break;
        case 6: { int w = r.i(5); what = w == 0 ? "row with too few numbers" : w == 1 ? "row that is not a number" : w == 2 ? "empty file" : w == 3 ? "file of comments" : "word within a row"; std::string bad = w == 0 ? (diff ? "1.5 0.5\n" : "1.5\n") : w == 1 ? "energy xsec\n" : w == 4 ? (diff ? "1.5 0.25 x\n" : "1.5 x\n") : ""; std::string u = w == 2 ? "" : w == 3 ? "# only\n\n#words\n" : r.coin() ? t + bad : bad + t; acc = add(n, u, T); break; }
        default: what = "absent file"; acc = add(n, t, T, false); }
    CHECK("file-refused", !acc, "%s accepted: %s", what.c_str(), n.c_str()); obs("dipole.files-refused"); auto ts = x.GetPossibleTargets(); CHECK("file-refused", ts.empty(), "%s: refused file left a target behind", what.c_str()); }
GROUP(P08, short_constructors, 300, 5000) {
    Rng & r = c.r; double m = r.lu(1e-2, 3), u = r.lu(1e-6, 1e-1); auto nat = r.coin() ? HNLDecay::Majorana : HNLDecay::Dirac; auto nd = r.coin() ? HNLDipoleDecay::Majorana : HNLDipoleDecay::Dirac; std::set<PT> only{r.coin() ? PT::N4 : PT::N4Bar};
    { HNLDecay a(m, u, nat), b(m, std::vector<double>{0, 0, u}, nat), e(m, u, nat, only), f(m, std::vector<double>{0, 0, u}, nat, only); CHECK("single-coupling", a == b && e == f && !(a == e) && a == a, "a single mixing is not the tau mixing"); CHECK("mass", a.GetHNLMass() == m && e.GetHNLMass() == m, "mass"); for(auto const & s : b.GetPossibleSignatures()) { InteractionRecord q; q.signature = s; q.primary_mass = m; q.primary_momentum = {2 * m, 0, 0, std::sqrt(3.) * m}; double v = a.TotalDecayWidth(q), w = b.TotalDecayWidth(q); CHECK("single-coupling", v == w, "width %g with a single mixing, %g with a vector", v, w); if(only.count(s.primary_type)) { CHECK("single-coupling", e.TotalDecayWidth(q) == w, "width with one primary"); } }
        CHECK("single-coupling", a.GetPossibleSignatures() == b.GetPossibleSignatures() && e.GetPossibleSignatures() == f.GetPossibleSignatures(), "signatures"); for(auto const & s : e.GetPossibleSignatures()) CHECK("single-coupling", only.count(s.primary_type), "signature of another primary"); obs("hnl.single"); }
    { HNLDipoleDecay a(m, u, nd), b(m, std::vector<double>{0, u, 0}, nd), e(m, u, nd, only), f(m, std::vector<double>{0, u, 0}, nd, only); CHECK("single-coupling", a == b && e == f && !(a == e) && a == a, "a single dipole coupling is not the muon coupling"); CHECK("mass", a.GetHNLMass() == m, "mass"); for(auto const & s : b.GetPossibleSignatures()) { InteractionRecord q; q.signature = s; q.primary_mass = m; CHECK("single-coupling", a.TotalDecayWidth(q) == b.TotalDecayWidth(q), "dipole width"); } for(auto const & s : e.GetPossibleSignatures()) CHECK("single-coupling", only.count(s.primary_type), "signature of another primary"); obs("dipoledecay.single"); }
    for(int n : {0, 1, 2, 4}) { bool t1 = false, t2 = false, t3 = false; std::vector<double> v(n, u); try { HNLDecay x(m, v, nat); } catch(std::exception const &) { t1 = true; } try { HNLDipoleDecay x(m, v, nd); } catch(std::exception const &) { t2 = true; } try { HNLDipoleDecay x(m, v, nd, only); } catch(std::exception const &) { t3 = true; } CHECK("coupling-count", t1 && t2 && t3, "%d couplings accepted", n); obs("couplings.refused"); }
    { auto ch = r.coin() ? HNLDipoleFromTable::Flipping : HNLDipoleFromTable::Conserving; std::set<PT> nu(NU, NU + 6), some{NU[r.i(6)]}; bool z = r.coin(), iv = r.coin(); typedef HNLDipoleFromTable H; CHECK("defaults", H(m, u, ch) == H(m, u, ch, true, true, true, nu) && H(m, u, ch, z, iv) == H(m, u, ch, z, iv, true, nu) && H(m, u, ch, some) == H(m, u, ch, true, true, true, some) && H(m, u, ch, z, iv, some) == H(m, u, ch, z, iv, true, some) && !(H(m, u, ch, some) == H(m, u, ch)), "shorter constructors of the upscattering differ from the full one"); obs("dipole.short"); } }
GROUP(P07, sampling_routes, 250, 8000) { // the same random numbers give the same final state, and sampling leaves the incoming state alone
    Rng & r = c.r; Dip d = mkdip(r, true); double E = r.lu(d.Emin * 1.0001, d.Emax * 0.9999); auto q = diprec(r, d, E, r.coin()); auto seed = r.next(); auto go = [&](interactions::CrossSection const & x, InteractionRecord const & q0, char const * nm) { InteractionRecord a = q0, b = q0; auto ra = rng(seed), rb = rng(seed); CrossSectionDistributionRecord ka(a); x.SampleFinalState(ka, ra); ka.Finalize(a); CrossSectionDistributionRecord k(b); x.SampleFinalState(k, rb); k.Finalize(b); bool same = a.secondary_momenta == b.secondary_momenta && a.secondary_masses == b.secondary_masses && a.secondary_helicities == b.secondary_helicities && a.signature == b.signature && a.interaction_parameters == b.interaction_parameters; CHECK("sampling-route", same && a.secondary_momenta.size() == q0.signature.secondary_types.size(), "%s: sampling into the record and into a distribution record differ", nm); CHECK("sampling-route", a.primary_momentum == q0.primary_momentum && a.primary_mass == q0.primary_mass && a.target_mass == q0.target_mass && a.primary_helicity == q0.primary_helicity && a.signature == q0.signature && a.interaction_vertex == q0.interaction_vertex && a.primary_initial_position == q0.primary_initial_position, "%s: incoming state changed by sampling", nm); CHECK("sampling-route", x == x, "%s not equal to itself", nm); auto rc = rng(seed); InteractionRecord e = q0; CrossSectionDistributionRecord ke(e); x.SampleFinalState(ke, rc); ke.Finalize(e); CHECK("sampling-route", e.secondary_momenta == a.secondary_momenta, "%s: the same seed gives another final state", nm); obs("routes"); seen("route %s", nm); };
    q.interaction_vertex = {r.normal(), r.normal(), r.normal()}; q.primary_initial_position = {r.normal(), r.normal(), r.normal()}; go(*d.x, q, "dipole");
    { ElasticScattering x; double dx, dy, dz; r.dir(dx, dy, dz); PT p = r.coin() ? PT::NuE : PT::NuMu; go(x, mkrec(xsig(p, PT::EMinus, {p, PT::EMinus}), 0, r.lu(1e-2, 1e3), dx, dy, dz, r.sgn() * 0.5, ME), "elastic"); } }
