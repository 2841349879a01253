// P04 reproducible sampling, P05 sampled primaries follow the reported density, P06 equality and ordering of distributions.
#include "dist_pool.h"
#include <algorithm>
using namespace pool; using mon::close; using siren::dataclasses::ParticleType; using siren::dataclasses::InteractionRecord;

static bool same(InteractionRecord const & a, InteractionRecord const & b) {
    return a.primary_momentum == b.primary_momentum && a.primary_mass == b.primary_mass && a.primary_helicity == b.primary_helicity && a.primary_initial_position == b.primary_initial_position && a.interaction_vertex == b.interaction_vertex;
}
// ---------------------------------------------------------------- P04
GROUP(P04, rng, 600, 4000) {
    uint64_t s = c.r.coin(0.2) ? c.r.pick({0ull, 1ull, 2ull, 0xFFFFFFFFFFFFFFFFull}) : c.r.next();
    auto a = rng(s), b = rng(s); CHECK("seed-reported", a->get_seed() == s, "seed %llu reported %llu", (unsigned long long)s, (unsigned long long)a->get_seed());
    int n = c.r.ri(1, 400); std::vector<double> first;
    for(int i = 0; i < n; ++i) {
        double lo = c.r.u(-100, 100), hi = c.r.coin(0.1) ? lo : c.r.u(-100, 100); bool plain = c.r.coin(0.5);
        double x = plain ? a->Uniform() : a->Uniform(lo, hi), y = plain ? b->Uniform() : b->Uniform(lo, hi);
        CHECK("same-seed-same-sequence", x == y, "seed %llu draw %d: %.17g vs %.17g", (unsigned long long)s, i, x, y);
        double l = plain ? 0 : std::min(lo, hi), h = plain ? 1 : std::max(lo, hi), e = 1e-13 * (std::fabs(l) + std::fabs(h));
        CHECK("uniform-in-range", x >= l - e && x <= h + e, "Uniform(%g,%g)=%.17g", l, h, x);
        first.push_back(x); if(!plain) first.back() = (h > l) ? (x - l) / (h - l) : 0;
    }
    // reseeding restarts the sequence whatever was drawn before
    a->set_seed(s); CHECK("seed-reported", a->get_seed() == s, "after set_seed");
    auto d = rng(s); for(int i = 0; i < 50; ++i) { double x = a->Uniform(), y = d->Uniform(); CHECK("reseed-restarts", x == y, "seed %llu draw %d after reseeding: %.17g vs %.17g", (unsigned long long)s, i, x, y); }
    // a different seed gives a different sequence, also through set_seed
    uint64_t s2 = c.r.coin(0.3) ? s + 1 : s ^ (1ull << c.r.i(64)); d->set_seed(s2); a->set_seed(s); int eq = 0; for(int i = 0; i < 20; ++i) eq += a->Uniform() == d->Uniform();
    CHECK("different-seed-different-sequence", eq < 3, "seeds %llu and %llu share %d of 20 draws", (unsigned long long)s, (unsigned long long)s2, eq);
    seen("seed %llu n %d", (unsigned long long)s, n); obs("draws", n);
}
GROUP(P04, rng_shape, 100, 400) {
    auto a = rng(c.r.next()); int n = c.thorough ? 60000 : 20000; std::vector<double> v(n), w(n);
    double lo = c.r.lu(1e-2, 10), hi = lo * c.r.lu(1.5, 100), g = c.r.pick({-1.0, -2.0, -3.0, 0.0, 1.0, 2.5, -0.5}); if(c.r.coin(0.4)) { g = c.r.coin() ? c.r.u(-4, 3) : -1 + c.r.sgn() * c.r.lu(1e-8, 0.3); hi = lo * c.r.lu(1.5, 1e7); }
    for(int i = 0; i < n; ++i) { v[i] = a->Uniform(); w[i] = a->PowerLaw(lo, hi, g); }
    double p = mon::ks_p(mon::ks(v, [](double x) { return std::min(1.0, std::max(0.0, x)); }), n);
    CHECK("uniform-shape", p > 1e-10, "KS p=%g over %d draws", p, n);
    double q = mon::ks_p(mon::ks(w, [&](double x) { if(x <= lo) return 0.0; if(x >= hi) return 1.0; return g == -1 ? std::log(x / lo) / std::log(hi / lo) : (std::pow(x, g + 1) - std::pow(lo, g + 1)) / (std::pow(hi, g + 1) - std::pow(lo, g + 1)); }), n);
    CHECK("power-shape", q > 1e-10, "PowerLaw(%g,%g,%g): KS p=%g over %d draws", lo, hi, g, q, n);
    for(double x : w) CHECK("power-range", x >= lo * (1 - 1e-12) && x <= hi * (1 + 1e-12), "PowerLaw(%g,%g,%g)=%.17g", lo, hi, g, x);
    // serial correlation
    double s = 0; for(int i = 1; i < n; ++i) s += (v[i] - 0.5) * (v[i-1] - 0.5); s = s * 12 / std::sqrt(double(n)); CHECK("uniform-independent", std::fabs(s) < 7, "lag-1 correlation %.2f sigma", s);
    seen("shape %g %g %g", lo, hi, g);
}
GROUP(P04, samplers, 2400, 6000) {
    int k = c.cas % KN; DP d = gen(c.r, k); uint64_t s = c.r.next(); ParticleType t = c.r.coin() ? ParticleType::NuMu : ParticleType::NuMuBar;
    int n = c.r.ri(1, 25); std::vector<InteractionRecord> ref; { auto rd = rng(s); DP f = d->clone(); for(int i = 0; i < n; ++i) ref.push_back(draw(*f, k, rd, t)); }
    // the same object, before and after unrelated use of it and of other objects with other generators
    DP e = d->clone();
    auto rd = rng(s), other = rng(c.r.next()); DP o = gen(c.r, (int)c.r.i(KN)); 
    for(int i = 0; i < n; ++i) {
        int j = (int)c.r.i(3); if(j == 1) d->clone(); if(j == 2) prob(*d, ref[i]);
        auto x = draw(*d, k, rd, t); CHECK("same-seed-same-event", same(x, ref[i]), "%s: draw %d differs between two runs with the same seed (E %.17g vs %.17g)", name(k), i, x.primary_momentum[0], ref[i].primary_momentum[0]);
    }
    // history independence: an object that has already sampled gives the same events as a fresh one
    for(int i = 0; i < c.r.ri(1, 60); ++i) draw(*e, k, other, t);
    auto rd2 = rng(s); for(int i = 0; i < n; ++i) { auto x = draw(*e, k, rd2, t); CHECK("no-hidden-state", same(x, ref[i]), "%s: draw %d depends on what the object sampled before (E %.17g vs %.17g)", name(k), i, x.primary_momentum[0], ref[i].primary_momentum[0]); }
    // interleaving two generators on one object
    auto ra = rng(s), rb = rng(s ^ 77); for(int i = 0; i < n; ++i) { auto x = draw(*d, k, ra, t); draw(*d, k, rb, t); CHECK("no-hidden-state", same(x, ref[i]), "%s: interleaved draw %d differs", name(k), i); }
    seen("%s %d", name(k), n); obs(std::string("sampler-") + name(k), 3 * n);
}
// ---------------------------------------------------------------- P05
static double kslim(int n) { return std::sqrt(std::log(2e11) / (2.0 * n)); }   // P(D > kslim) ~ 1e-11
// cdf of a non-negative function tabulated on [a,b] with break points, cubic-free: fine cumulative sums of Gauss-Legendre panels
struct Cdf { std::vector<double> x, y; double total;
    template<class F> Cdf(F f, std::vector<double> br, int sub) { std::sort(br.begin(), br.end()); br.erase(std::unique(br.begin(), br.end()), br.end()); x.push_back(br[0]); y.push_back(0); double s = 0;
        for(size_t i = 1; i < br.size(); ++i) for(int k = 0; k < sub; ++k) { double a = br[i-1] + (br[i] - br[i-1]) * k / sub, b = k + 1 == sub ? br[i] : br[i-1] + (br[i] - br[i-1]) * (k + 1) / sub; s += mon::integ(f, a, b, 1); x.push_back(b); y.push_back(s); }
        total = s; for(auto & v : y) v /= s; }
    double operator()(double t) const { if(t <= x.front()) return 0; if(t >= x.back()) return 1; size_t i = std::upper_bound(x.begin(), x.end(), t) - x.begin(); return y[i-1] + (y[i] - y[i-1]) * (t - x[i-1]) / (x[i] - x[i-1]); } };
static std::vector<double> logbreaks(double a, double b, int n) { std::vector<double> v; for(int i = 0; i <= n; ++i) v.push_back(a > 0 ? a * std::pow(b / a, double(i) / n) : a + (b - a) * i / n); v[0] = a; v[n] = b; return v; }

static int nsamp(Ctx & c) { return c.thorough ? (c.cas % 8 ? 4000 : 150000) : (c.cas % 16 ? 1500 : 50000); }
template<class F> static void energy_case(Ctx & c, PrimaryInjectionDistribution const & d, int k, F shape, double a, double b, std::string const & tag, double sys) {
    auto br = logbreaks(a, b, 400); Cdf cdf(shape, br, 3);
    // reported density is the documented shape, normalised over the support
    for(int i = 0; i < 25; ++i) { double e = i == 0 ? a : i == 1 ? b : c.r.coin() && a > 0 ? c.r.lu(a, b) : c.r.u(a, b); e = std::min(std::max(e, a), b); double p = prob(d, rec_E(e)), q = shape(e) / cdf.total; mon::peak("density-rel-dev", std::fabs(p / q - 1) * (q > 1e-6 / (b - a)));
        CHECK("density-is-shape", close(p, q, 2e-6, 1e-9 / (b - a)), "%s: density at %.17g is %.12g, normalised shape %.12g", tag.c_str(), e, p, q); }
    for(int i = 0; i < 8; ++i) { double e = c.r.coin() ? a - (std::fabs(a) + 1e-9) * c.r.lu(1e-9, 0.9) : b * (1 + c.r.lu(1e-9, 10)); if(c.r.coin(0.1)) e = -1; double p = prob(d, rec_E(e)); CHECK("zero-outside", p == 0, "%s: density %.12g at %.17g outside [%.17g,%.17g]", tag.c_str(), p, e, a, b); }
    auto rd = rng(c.r.next()); int n = nsamp(c); std::vector<double> v; v.reserve(n);
    for(int i = 0; i < n; ++i) { siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuMu); d.Sample(rd, nullptr, nullptr, rec); v.push_back(rec.GetEnergy()); }
    for(int i = 0; i < n; ++i) { double e = v[i]; CHECK("sample-in-support", e >= a && e <= b, "%s: sampled %.17g outside [%.17g,%.17g]", tag.c_str(), e, a, b); if(i < 100) { double p = prob(d, rec_E(e)); CHECK("sample-has-density", p > 0 && std::isfinite(p), "%s: sampled %.17g has density %g", tag.c_str(), e, p); } }
    double D = mon::ks(v, [&](double x) { return cdf(x); }); CHECK("samples-follow-density", D < kslim(n) + sys + 2e-4, "%s: KS distance %.4f of %d samples (limit %.4f)", tag.c_str(), D, n, kslim(n) + sys); mon::peak("ks-over-limit", D / (kslim(n) + sys)); obs("samples", n);
}
GROUP(P05, powerlaw, 640, 1600) {
    double a = c.r.lu(1e-3, 1e4), b = a * c.r.lu(1.01, 1e5), g = gen_index(c.r); if(c.cas % 16 == 0 && c.r.coin(0.6)) { g = 1 + c.r.sgn() * c.r.lu(1e-3, 0.2); b = a * c.r.lu(1e4, 1e7); } PowerLaw d(g, a, b);
    std::string tag = mon::fmt("PowerLaw(%.9g,%.9g,%.9g)", g, a, b); seen("%s", tag.c_str());
    energy_case(c, d, KPower, [&](double e) { return std::pow(e / a, -g); }, a, b, tag, 0);
    double N = c.r.lu(1e-5, 1e5), e0 = c.r.lu(a, b); d.SetNormalizationAtEnergy(N, e0); CHECK("normalization-at-energy", d.IsNormalizationSet() && close(d.GetNormalization() * prob(d, rec_E(e0)), N, 1e-9), "%s: norm*density at %.9g is %.12g, asked %.12g", tag.c_str(), e0, d.GetNormalization() * prob(d, rec_E(e0)), N);
    double M = c.r.lu(1e-5, 1e5); d.SetNormalization(M); CHECK("normalization-set", d.GetNormalization() == M, "SetNormalization(%g) -> %g", M, d.GetNormalization());
    CHECK("density-ignores-normalization", close(prob(d, rec_E(e0)) / prob(PowerLaw(g, a, b), rec_E(e0)), 1, 1e-12), "density changed with the normalization");
    // degenerate range: exactly that energy
    PowerLaw o(g, a, a); auto rd = rng(c.r.next()); siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuMu); o.Sample(rd, nullptr, nullptr, rec); CHECK("degenerate-range", rec.GetEnergy() == a && prob(o, rec_E(a)) == 1, "PowerLaw on a point: sampled %.17g, density %g", rec.GetEnergy(), prob(o, rec_E(a)));
    CHECK("density-variables", d.DensityVariables() == std::vector<std::string>{"PrimaryEnergy"}, "density variables");
}
GROUP(P05, mono, 200, 600) {
    double e = c.r.lu(1e-4, 1e7); Monoenergetic d(e); auto rd = rng(1); for(int i = 0; i < 5; ++i) { siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuE); d.Sample(rd, nullptr, nullptr, rec); CHECK("sample-in-support", rec.GetEnergy() == e, "Monoenergetic(%.17g) sampled %.17g", e, rec.GetEnergy()); }
    CHECK("sample-has-density", prob(d, rec_E(e)) == 1, "Monoenergetic density at its energy %g", prob(d, rec_E(e)));
    double o = e * (c.r.coin() ? 1 + c.r.lu(1e-5, 10) : 1 - c.r.lu(1e-5, 0.9)); CHECK("zero-outside", prob(d, rec_E(o)) == 0, "Monoenergetic(%.17g) density %g at %.17g", e, prob(d, rec_E(o)), o); seen("%.6g", e);
}
GROUP(P05, pidar, 64, 200) {
    PiDARNuEDistribution d; double m = siren::utilities::Constants::muonMass; seen("case %ld", c.cas);
    energy_case(c, d, KPiDAR, [&](double e) { return e * e * (m / 2 - e); }, 0, m / 2, "PiDAR", 2e-5);
    for(int i = 0; i < 20; ++i) { double u = c.r.u(), e = d.inv_cdf(u); CHECK("inverse-cdf", close(d.cdf(e), u, 0, 1e-4), "PiDAR cdf(inv_cdf(%g))=%g", u, d.cdf(e)); double h = 1e-4, x = c.r.u(0.001, m / 2 - 0.001); CHECK("cdf-derivative", close((d.cdf(x + h) - d.cdf(x - h)) / (2 * h), d.pdf(x), 1e-3, 1e-2), "PiDAR dcdf/dE %g vs pdf %g", (d.cdf(x + h) - d.cdf(x - h)) / (2 * h), d.pdf(x)); }
}
GROUP(P05, moyal, 256, 640) {
    Moyal m = gen_moyal(c.r); bool phys = c.r.coin(); std::string tag = mon::fmt("Moyal(%.6g,%.6g,mu=%.6g,sigma=%.6g,A=%.6g,l=%.6g,B=%.6g)", m.a, m.b, m.mu, m.sg, m.A, m.l, m.B); seen("%s", tag.c_str());
    ModifiedMoyalPlusExponentialEnergyDistribution d(m.a, m.b, m.mu, m.sg, m.A, m.l, m.B, phys);
    auto f = [&](double e) { double x = (e - m.mu) / m.sg; return m.A / m.sg * std::exp(-(x + std::exp(-x)) / 2) / std::sqrt(2 * M_PI) + m.B / m.l * std::exp(-e / m.l); };
    double w = 0; for(int i = 0; i <= 1000; ++i) w = std::max(w, f(m.a + (m.b - m.a) * i / 1000)); double tot = mon::integ(f, m.a, m.b, 200); w *= (m.b - m.a) / tot;
    energy_case(c, d, KMoyal, f, m.a, m.b, tag, w > 1 ? std::pow(1 - 1 / w, 41) : 0);
    CHECK("physical-normalization", d.IsNormalizationSet() == phys && (!phys || close(d.GetNormalization(), tot, 1e-5)), "%s: normalization %.12g, integral of the flux %.12g", tag.c_str(), d.GetNormalization(), tot);
}
GROUP(P05, tabulated, 640, 1600) {
    bool romb = c.r.coin(0.15); Table t = gen_table(c.r, !romb && c.r.coin(0.3)); if(romb) { /* the adaptive rule is for smooth tables */ t.bounds = false; t.a = t.x.front(); t.b = t.x.back(); int n = 60; double lo = t.a, hi = std::min(t.b, lo * 30); t.b = hi; t.x.clear(); t.f.clear(); double g = c.r.u(-1, 2.5); for(int i = 0; i < n; ++i) { double x = t.log ? lo * std::pow(hi / lo, double(i) / (n - 1)) : lo + (hi - lo) * i / (n - 1); if(i == n - 1) x = hi; t.x.push_back(x); t.f.push_back(std::pow(x / lo, -g)); } }
    bool phys = c.r.coin(), file = c.r.coin(0.3); std::shared_ptr<TabulatedFluxDistribution> d;
    std::string tag = mon::fmt("TabulatedFlux(%zu nodes %s, [%.9g,%.9g]%s%s%s)", t.x.size(), t.log ? "log" : "lin/irregular", t.a, t.b, t.bounds ? " bounds" : "", romb ? " romberg" : "", file ? " file" : "");
    int late = t.bounds && c.r.coin(0.4); Table u = t; if(late) u.bounds = false;
    try {
        if(file) { std::string s = "# energy flux\n\n"; for(size_t i = 0; i < t.x.size(); ++i) s += mon::fmt("%s%.17g%s%.17g%s\n", c.r.coin(0.2) ? "  " : "", t.x[i], c.r.coin() ? " " : "\t", t.f[i], c.r.coin(0.2) ? " # c" : ""); std::string p = tmpfile(s);
            d = u.bounds ? std::make_shared<TabulatedFluxDistribution>(t.a, t.b, p, phys, romb) : std::make_shared<TabulatedFluxDistribution>(p, phys, romb); unlink(p.c_str()); }
        else d = make(u, phys, romb);
        if(late) d->SetEnergyBounds(t.a, t.b);
    } catch(std::runtime_error const & e) { CHECK("constructs", romb && std::string(e.what()).find("converge") != std::string::npos, "%s: %s", tag.c_str(), e.what()); obs("romberg-refused"); return; }
    seen("%s", tag.c_str());
    double fmax = 0; for(double f : t.f) fmax = std::max(fmax, f);
    // the flux: exact at the nodes, between the neighbouring nodes elsewhere
    for(size_t i = 0; i < t.x.size(); ++i) { double q = d->SampleUnnormedPDF(t.x[i]); CHECK("table-nodes", close(q, t.f[i], 1e-9, 1e-12 * fmax), "%s: flux at node %zu E=%.17g is %.12g, table says %.12g", tag.c_str(), i, t.x[i], q, t.f[i]); }
    for(int i = 0; i < 30; ++i) { size_t j = 1 + c.r.i(t.x.size() - 1); double e = c.r.u(t.x[j-1], t.x[j]), q = d->SampleUnnormedPDF(e), lo = std::min(t.f[j-1], t.f[j]), hi = std::max(t.f[j-1], t.f[j]); CHECK("table-between", q >= lo * (1 - 1e-9) - 1e-12 * fmax && q <= hi * (1 + 1e-9) + 1e-12 * fmax, "%s: flux at %.17g is %.12g, neighbours %.12g %.12g", tag.c_str(), e, q, lo, hi); }
    std::vector<double> br{t.a, t.b}; for(double x : t.x) if(x > t.a && x < t.b) br.push_back(x); std::sort(br.begin(), br.end());
    Cdf cdf([&](double e) { return d->SampleUnnormedPDF(e); }, br, 2);
    double trap = 0; std::vector<double> tc{0}; for(size_t i = 1; i < br.size(); ++i) { trap += 0.5 * (br[i] - br[i-1]) * (d->SampleUnnormedPDF(br[i]) + d->SampleUnnormedPDF(br[i-1])); tc.push_back(trap); }
    if(!(cdf.total > 0)) { obs("empty-range"); return; }
    // the table is integrated by the trapezoid rule (or romberg); its own resolution bounds the deviation
    double sysN = std::fabs(trap / cdf.total - 1) + (romb ? 2e-3 : 1e-9); double sysC = 0; for(size_t i = 0; i < br.size(); ++i) sysC = std::max(sysC, std::fabs(tc[i] / trap - cdf(br[i]))); 
    // at the bounds the table is interpolated; a log table is interpolated linearly there by the integrator
    double edge = 0; if(t.bounds) for(double e : {t.a, t.b}) { size_t j = std::min<size_t>(t.x.size() - 1, std::max<size_t>(1, std::upper_bound(t.x.begin(), t.x.end(), e) - t.x.begin())); double lin = t.f[j-1] + (t.f[j] - t.f[j-1]) * (e - t.x[j-1]) / (t.x[j] - t.x[j-1]); edge += std::fabs(lin - d->SampleUnnormedPDF(e)) * (t.x[j] - t.x[j-1]) / cdf.total; }
    CHECK("normalised", close(d->GetIntegral(), cdf.total, sysN + edge + 1e-6), "%s: integral %.12g, of the flux %.12g (resolution %.2g)", tag.c_str(), d->GetIntegral(), cdf.total, sysN + edge); mon::peak("tab-norm-dev", std::fabs(d->GetIntegral() / cdf.total - 1));
    for(int i = 0; i < 20; ++i) { double e = i == 0 ? t.a : i == 1 ? t.b : c.r.u(t.a, t.b), p = prob(*d, rec_E(e)), q = d->SampleUnnormedPDF(e) / d->GetIntegral(); CHECK("density-is-shape", close(p, q, 1e-9, 1e-300) && close(d->SamplePDF(e), q, 1e-9, 1e-300), "%s: density at %.9g is %.12g / %.12g, flux over integral %.12g", tag.c_str(), e, p, d->SamplePDF(e), q); }
    for(double e : {t.a * (1 - 1e-9), t.b * (1 + 1e-9), t.a * 0.5, t.b * 2, 0.0, -1.0}) CHECK("zero-outside", prob(*d, rec_E(e)) == 0, "%s: density %g at %.17g", tag.c_str(), prob(*d, rec_E(e)), e);
    CHECK("physical-normalization", d->IsNormalizationSet() == phys && (!phys || late || close(d->GetNormalization(), d->GetIntegral(), 1e-12)), "%s: normalization %.12g integral %.12g", tag.c_str(), d->GetNormalization(), d->GetIntegral());
    // published CDF and its inverse
    auto cv = d->GetCDF(), ce = d->GetCDFEnergyNodes(); CHECK("cdf-published", cv.size() == ce.size() && !cv.empty() && std::is_sorted(cv.begin(), cv.end()) && close(cv.back(), 1, 1e-12) && cv.front() == 0, "%s: cdf %zu energies %zu last %g", tag.c_str(), cv.size(), ce.size(), cv.empty() ? -1 : cv.back());
    for(size_t i = 0; i < cv.size() && i < ce.size(); ++i) { CHECK("cdf-values", close(cv[i], cdf(ce[i]), 0, sysC + edge + 1e-6), "%s: cdf at %.9g is %.9g, flux integral %.9g", tag.c_str(), ce[i], cv[i], cdf(ce[i])); }
    // samples: support, and the content between any two nodes
    int n = nsamp(c); auto rd = rng(c.r.next()); std::vector<double> v; for(int i = 0; i < n; ++i) { siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuMu); d->Sample(rd, nullptr, nullptr, rec); v.push_back(rec.GetEnergy()); CHECK("sample-in-support", v.back() >= t.a * (1 - 1e-12) && v.back() <= t.b * (1 + 1e-12), "%s: sampled %.17g outside [%.17g,%.17g]", tag.c_str(), v.back(), t.a, t.b); }
    std::sort(v.begin(), v.end()); double D = 0; for(double e : br) { double F = double(std::upper_bound(v.begin(), v.end(), e) - v.begin()) / n; D = std::max(D, std::fabs(F - cdf(e))); }
    CHECK("samples-follow-density", D < kslim(n) + sysC + edge + 1e-6, "%s: cumulative distance at the nodes %.4f of %d samples (limit %.4f)", tag.c_str(), D, n, kslim(n) + sysC + edge); mon::peak("ks-over-limit", D / (kslim(n) + sysC)); obs("samples", n);
    // inside a bin the sampler is at the resolution of the table: it may not leave the bin structure (no atoms)
    int rep = 0, mx = 0; for(int i = 1; i < n; ++i) { rep = v[i] == v[i-1] ? rep + 1 : 0; mx = std::max(mx, rep); } CHECK("samples-no-atom", mx < 5, "%s: one energy sampled %d times of %d", tag.c_str(), mx + 1, n);
}
GROUP(P05, tabulated2d, 256, 640) {
    Table2 t = gen_table2(c.r); bool phys = c.r.coin(), file = c.r.coin(0.3), late = t.bounds > 0 && c.r.coin(0.4); std::shared_ptr<Tabulated2DFluxDistribution> d; Table2 u = t; if(late) u.bounds = 0;
    std::string tag = mon::fmt("Tabulated2DFlux(%zux%zu %s [%.6g,%.6g]x[%.6g,%.6g] bounds=%d%s%s)", t.gx.size(), t.gy.size(), t.logx ? "logE" : "linE", t.a, t.b, t.ca, t.cb, t.bounds, late ? " late" : "", file ? " file" : ""); seen("%s", tag.c_str());
    if(file) { std::string s = "# E cz flux\n"; for(size_t i = 0; i < t.x.size(); ++i) s += mon::fmt("%.17g %.17g\t%.17g%s\n", t.x[i], t.y[i], t.f[i], c.r.coin(0.1) ? " # c\n" : ""); std::string p = tmpfile(s);
        d = u.bounds == 0 ? std::make_shared<Tabulated2DFluxDistribution>(p, phys) : u.bounds == 1 ? std::make_shared<Tabulated2DFluxDistribution>(t.a, t.b, p, phys) : std::make_shared<Tabulated2DFluxDistribution>(t.a, t.b, t.ca, t.cb, p, phys); unlink(p.c_str()); }
    else d = make(u, phys);
    if(late) { d->SetEnergyBounds(t.a, t.b); if(t.bounds == 2) d->SetCosZenithBounds(t.ca, t.cb); }
    double fmax = 0; for(double f : t.f) fmax = std::max(fmax, f);
    for(size_t i = 0; i < t.x.size(); ++i) { double q = d->SampleUnnormedPDF(t.x[i], t.y[i]); CHECK("table-nodes", close(q, t.f[i], 1e-8, 1e-11 * fmax), "%s: flux at node (%.12g,%.12g) is %.12g, table says %.12g", tag.c_str(), t.x[i], t.y[i], q, t.f[i]); }
    for(int i = 0; i < 20; ++i) { size_t a = 1 + c.r.i(t.gx.size() - 1), b = 1 + c.r.i(t.gy.size() - 1); double e = c.r.u(t.gx[a-1], t.gx[a]), z = c.r.u(t.gy[b-1], t.gy[b]); double lo = 1e300, hi = 0; for(size_t j = 0; j < t.x.size(); ++j) if((t.x[j] == t.gx[a] || t.x[j] == t.gx[a-1]) && (t.y[j] == t.gy[b] || t.y[j] == t.gy[b-1])) { lo = std::min(lo, t.f[j]); hi = std::max(hi, t.f[j]); }
        double q = d->SampleUnnormedPDF(e, z); CHECK("table-between", q >= lo * (1 - 1e-9) && q <= hi * (1 + 1e-9), "%s: flux at (%.9g,%.9g) is %.12g, corners %.12g..%.12g", tag.c_str(), e, z, q, lo, hi); }
    // marginals by numerical integration
    std::vector<double> bx{t.a, t.b}, by{t.ca, t.cb}; for(double x : t.gx) if(x > t.a && x < t.b) bx.push_back(x); for(double y : t.gy) if(y > t.ca && y < t.cb) by.push_back(y); std::sort(bx.begin(), bx.end()); std::sort(by.begin(), by.end());
    auto seg = [&](std::vector<double> const & br, std::function<double(double)> f) { double s = 0; for(size_t i = 1; i < br.size(); ++i) s += mon::integ(f, br[i-1], br[i], 1); return s; };
    Cdf ce([&](double e) { return seg(by, [&](double z) { return d->SampleUnnormedPDF(e, z); }); }, bx, 2 + 60 / (int)bx.size()), cz([&](double z) { return seg(bx, [&](double e) { return d->SampleUnnormedPDF(e, z); }); }, by, 2 + 60 / (int)by.size());
    CHECK("normalised", close(d->GetIntegral(), ce.total, 2e-2), "%s: integral %.9g, of the flux %.9g", tag.c_str(), d->GetIntegral(), ce.total); mon::peak("tab2-norm-dev", std::fabs(d->GetIntegral() / ce.total - 1));
    CHECK("physical-normalization", d->IsNormalizationSet() == phys && (!phys || late || close(d->GetNormalization(), d->GetIntegral(), 1e-12)), "%s: normalization %.12g integral %.12g", tag.c_str(), d->GetNormalization(), d->GetIntegral());
    double w = 0; for(int i = 0; i < 400; ++i) { double e = t.logx ? c.r.lu(t.a, t.b) : c.r.u(t.a, t.b), z = c.r.u(t.ca, t.cb); double p = d->SampleUnnormedPDF(e, z) / d->GetIntegral(); w = std::max(w, p * (t.cb - t.ca) * std::max(e * std::log(t.b / t.a), t.b - t.a)); /* proposals may be uniform in E or log E */ double ph = c.r.u(0, 6.28), s = std::sqrt(1 - z * z); if(i < 20) { double q = prob(*d, rec_Edir(e, s * std::cos(ph), s * std::sin(ph), z)); CHECK("density-is-shape", close(p, q, 1e-7), "%s: density at (%.9g,%.9g) is %.12g, flux over integral %.12g", tag.c_str(), e, z, q, p); } }
    for(int i = 0; i < 10; ++i) { double e = c.r.u(t.a, t.b), z = c.r.u(t.ca, t.cb); int o = (int)c.r.i(3); if(o != 1) e = c.r.coin() ? t.a * (1 - c.r.lu(1e-9, 0.9)) : t.b * (1 + c.r.lu(1e-9, 3)); if(o != 0) { z = c.r.coin() ? t.ca - c.r.lu(1e-7, 0.5) : t.cb + c.r.lu(1e-7, 0.5); if(z < -1 || z > 1) continue; } double s = std::sqrt(std::max(0.0, 1 - z * z)); CHECK("zero-outside", prob(*d, rec_Edir(e, s, 0, z)) == 0, "%s: density %g at (%.12g,%.12g)", tag.c_str(), prob(*d, rec_Edir(e, s, 0, z)), e, z); }
    double sys = w > 1 ? std::pow(1 - 1 / (1.3 * w), 41) : 0; int n = std::min(nsamp(c), 20000); if(sys > 0.05) { obs("sampler-not-converged-by-design"); n = 200; }
    auto rd = rng(c.r.next()); std::vector<double> ve, vz, vp; for(int i = 0; i < n; ++i) { siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuMu); d->Sample(rd, nullptr, nullptr, rec); auto q = rec.GetDirection(); double e = rec.GetEnergy(); ve.push_back(e); vz.push_back(q[2]); vp.push_back(std::atan2(q[1], q[0]));
        CHECK("sample-in-support", e >= t.a * (1 - 1e-12) && e <= t.b * (1 + 1e-12) && q[2] >= t.ca - 1e-12 && q[2] <= t.cb + 1e-12 && close(q[0]*q[0] + q[1]*q[1] + q[2]*q[2], 1, 1e-12), "%s: sampled E=%.17g dir=(%.12g,%.12g,%.12g)", tag.c_str(), e, q[0], q[1], q[2]); }
    double lim = kslim(n) + sys + 1e-3; double De = mon::ks(ve, [&](double x) { return ce(x); }), Dz = mon::ks(vz, [&](double x) { return cz(x); }), Dp = mon::ks(vp, [&](double x) { return (x + M_PI) / (2 * M_PI); });
    CHECK("samples-follow-density", De < lim && Dz < lim && Dp < lim, "%s: KS distances energy %.4f cosZenith %.4f azimuth %.4f of %d samples (limit %.4f)", tag.c_str(), De, Dz, Dp, n, lim); obs("samples", n); mon::peak("ks-over-limit", std::max(De, std::max(Dz, Dp)) / lim);
    // joint: product moments in the four quadrants
    double me = t.logx ? std::sqrt(t.a * t.b) : 0.5 * (t.a + t.b), mz = 0.5 * (t.ca + t.cb); double q = 0; { auto in = [&](std::vector<double> br, double m) { std::vector<double> o; for(double x : br) if(x < m) o.push_back(x); o.push_back(m); return o; }; auto bx2 = in(bx, me), by2 = in(by, mz); q = seg(bx2, [&](double e) { return seg(by2, [&](double z) { return d->SampleUnnormedPDF(e, z); }); }) / ce.total; }
    int k = 0; for(int i = 0; i < n; ++i) k += ve[i] < me && vz[i] < mz; CHECK("samples-joint", std::fabs(double(k) / n - q) < lim, "%s: quadrant content %.4f, density says %.4f", tag.c_str(), double(k) / n, q);
}
GROUP(P05, direction, 640, 1200) {
    Vector3D ax = gen_dir(c.r, c.r.coin()); if(c.r.coin(0.1)) ax = Vector3D(c.r.lu(1e-12, 1e-6), 0, c.r.sgn()); Vector3D n = ax; n.normalize(); double al = c.r.coin(0.25) ? c.r.pick({M_PI / 2, M_PI, 0.1, 1.0}) : c.r.u(0.01, M_PI); bool iso = c.r.coin(0.15);
    std::shared_ptr<PrimaryDirectionDistribution> d; if(iso) { d = std::make_shared<IsotropicDirection>(); al = M_PI; } else d = std::make_shared<Cone>(ax, al);
    std::string tag = iso ? "Isotropic" : mon::fmt("Cone(axis (%.9g,%.9g,%.9g), angle %.9g)", ax.GetX(), ax.GetY(), ax.GetZ(), al); seen("%s", tag.c_str());
    double P = 1 / (2 * M_PI * (1 - std::cos(al)));
    Vector3D e1 = std::fabs(n.GetX()) < 0.6 ? Vector3D(1, 0, 0) : Vector3D(0, 1, 0); e1 = e1 - n * (n * e1); e1.normalize(); Vector3D e2 = siren::math::vector_product(n, e1);
    for(int i = 0; i < 20; ++i) { double th = c.r.u(0, M_PI), ph = c.r.u(0, 6.3); if(i == 0) th = 0; if(i == 1) th = M_PI; if(i == 2) th = al * (1 - 1e-5); if(i == 3) th = std::min(M_PI, al * (1 + 1e-5)); if(std::fabs(th - al) < 1e-6) continue; Vector3D v = n * std::cos(th) + e1 * (std::sin(th) * std::cos(ph)) + e2 * (std::sin(th) * std::sin(ph)); double E = c.r.lu(0.1, 1e4), q = prob(*d, rec_Edir(E, v.GetX(), v.GetY(), v.GetZ())); bool in = th < al;
        CHECK(in ? "density-is-shape" : "zero-outside", in ? close(q, P, 1e-9) : q == 0, "%s: density %.12g at %.9g rad from the axis (uniform density %.12g)", tag.c_str(), q, th, P); }
    int N = nsamp(c); auto rd = rng(c.r.next()); std::vector<double> vc, vp; for(int i = 0; i < N; ++i) { siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuMu); d->Sample(rd, nullptr, nullptr, rec); auto q = rec.GetDirection(); Vector3D v(q[0], q[1], q[2]); double cs = v * n; vc.push_back(cs); vp.push_back(std::atan2(v * e2, v * e1));
        CHECK("sample-in-support", close(v.magnitude(), 1, 1e-12) && cs >= std::cos(al) - 1e-9, "%s: sampled direction at cos %.12g, |v|=%.12g", tag.c_str(), cs, v.magnitude()); if(i < 60) { double p = prob(*d, rec_Edir(20, q[0], q[1], q[2])); CHECK("sample-has-density", p > 0, "%s: own sample at cos %.17g (edge %.17g) has density %g", tag.c_str(), cs, std::cos(al), p); } }
    double Dc = mon::ks(vc, [&](double x) { return std::min(1.0, std::max(0.0, (x - std::cos(al)) / (1 - std::cos(al)))); }), Dp = mon::ks(vp, [&](double x) { return (x + M_PI) / (2 * M_PI); });
    CHECK("samples-follow-density", Dc < kslim(N) + 1e-6 && Dp < kslim(N) + 1e-6, "%s: KS distances polar %.4f azimuth %.4f of %d (limit %.4f)", tag.c_str(), Dc, Dp, N, kslim(N)); obs("samples", N);
    FixedDirection f(ax); auto rd2 = rng(3); siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuE); static_cast<PrimaryInjectionDistribution const &>(f).Sample(rd2, nullptr, nullptr, rec); auto q = rec.GetDirection();
    CHECK("sample-in-support", close(q[0], n.GetX(), 1e-12, 1e-12) && close(q[1], n.GetY(), 1e-12, 1e-12) && close(q[2], n.GetZ(), 1e-12, 1e-12), "FixedDirection(%g,%g,%g) sampled (%g,%g,%g)", ax.GetX(), ax.GetY(), ax.GetZ(), q[0], q[1], q[2]);
    CHECK("sample-has-density", prob(f, rec_Edir(7, n.GetX(), n.GetY(), n.GetZ())) == 1, "FixedDirection(%g,%g,%g): density of its own direction is %g", ax.GetX(), ax.GetY(), ax.GetZ(), prob(f, rec_Edir(7, n.GetX(), n.GetY(), n.GetZ())));
    double th = c.r.coin() ? c.r.lu(1e-3, 3.1) : M_PI; Vector3D v = n * std::cos(th) + e1 * std::sin(th); CHECK("zero-outside", prob(f, rec_Edir(7, v.GetX(), v.GetY(), v.GetZ())) == 0, "FixedDirection: density %g at %g rad away", prob(f, rec_Edir(7, v.GetX(), v.GetY(), v.GetZ())), th);
}
GROUP(P05, mass_helicity, 480, 1200) {
    double m = c.r.coin(0.2) ? 0 : c.r.lu(1e-4, 1e3); PrimaryMass d(m); auto rd = rng(5); siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuMu); d.Sample(rd, nullptr, nullptr, rec); CHECK("sample-in-support", rec.GetMass() == m && d.GetPrimaryMass() == m, "PrimaryMass(%g) sampled %g", m, rec.GetMass());
    auto q = rec_E(10 + m); q.primary_mass = m; CHECK("sample-has-density", prob(d, q) == 1, "PrimaryMass(%g) density of its own mass is %g", m, prob(d, q)); q.primary_mass = m == 0 ? 0.1 : m * (c.r.coin() ? 1 + c.r.lu(1e-6, 2) : 1 - c.r.lu(1e-6, 0.9)); { std::cerr.setstate(std::ios::failbit); double p = prob(d, q); std::cerr.clear(); CHECK("zero-outside", p == 0, "PrimaryMass(%.12g) density %g for mass %.12g", m, p, q.primary_mass); }
    ParticleType t = c.r.pick({ParticleType::NuE, ParticleType::NuMu, ParticleType::NuTau, ParticleType::NuEBar, ParticleType::NuMuBar, ParticleType::NuTauBar, ParticleType::N4, ParticleType::N4Bar, ParticleType::MuMinus, ParticleType::MuPlus}); bool part = (int32_t)t > 0; seen("helicity %d", (int)t);
    PrimaryNeutrinoHelicityDistribution h; siren::dataclasses::PrimaryDistributionRecord r2(t); h.Sample(rd, nullptr, nullptr, r2); CHECK("sample-in-support", r2.GetHelicity() == (part ? -0.5 : 0.5), "helicity of %d sampled %g", (int)t, r2.GetHelicity());
    double E = c.r.lu(0.1, 100), x, y, z; c.r.dir(x, y, z); auto w = rec_Edir(E, x, y, z); w.signature.primary_type = t; for(double hel : {-0.5, 0.5, 0.0, 1.0, -1.0, 0.4, -0.6}) { w.primary_helicity = hel; double want = hel == (part ? -0.5 : 0.5); CHECK(want ? "sample-has-density" : "zero-outside", prob(h, w) == want, "helicity %g for particle %d has density %g", hel, (int)t, prob(h, w)); }
    double N = c.r.lu(1e-4, 1e4); NormalizationConstant k(N); CHECK("normalization-set", k.GetNormalization() == N && k.IsNormalizationSet() && prob(k, w) == 1, "NormalizationConstant(%g): %g", N, k.GetNormalization());
}
GROUP(P05, external, 400, 1000) {
    double emin = c.r.coin() ? 0 : c.r.u(0, 6); int rows; std::vector<std::string> keys; std::vector<std::vector<double>> data; std::string s = gen_csv(c.r, rows, emin, keys, data); std::string f = tmpfile(s);
    std::string hdr = s.substr(0, s.find('\n')); seen("%s rows %d", hdr.c_str(), rows);
    if(rows == 0) { bool thr = false; try { PrimaryExternalDistribution d(f, emin); } catch(std::runtime_error const &) { thr = true; } CHECK("external-refuses", thr, "table without usable rows accepted"); unlink(f.c_str()); return; }
    PrimaryExternalDistribution d(f, emin); unlink(f.c_str()); CHECK("external-rows", (int)d.GetPhysicalNumEvents() == rows, "%zu usable rows reported, %d in the file above emin=%g: %s", d.GetPhysicalNumEvents(), rows, emin, s.c_str());
    auto at = [&](std::string k) { for(size_t i = 0; i < keys.size(); ++i) if(keys[i] == k) return (int)i; return -1; };
    int n = c.thorough ? 4000 : 600; auto rd = rng(c.r.next()); std::vector<int> hits(rows, 0);
    for(int i = 0; i < n; ++i) { siren::dataclasses::PrimaryDistributionRecord rec(ParticleType::NuMu); d.Sample(rd, nullptr, nullptr, rec); int found = -1;
        for(int k = 0; k < rows && found < 0; ++k) { bool ok = true; auto eq = [&](char const * key, std::function<double()> g) { int j = at(key); if(j < 0 || !ok) return; double v; try { v = g(); } catch(std::exception const &) { ok = false; return; } ok = v == data[k][j]; };
            eq("E", [&] { return rec.GetEnergy(); }); eq("m", [&] { return rec.GetMass(); }); eq("t0", [&] { return rec.GetInitialTime(); });
            eq("px", [&] { return rec.GetThreeMomentum()[0]; }); eq("py", [&] { return rec.GetThreeMomentum()[1]; }); eq("pz", [&] { return rec.GetThreeMomentum()[2]; });
            eq("x0", [&] { return rec.GetInitialPosition()[0]; }); eq("y0", [&] { return rec.GetInitialPosition()[1]; }); eq("z0", [&] { return rec.GetInitialPosition()[2]; });
            eq("x", [&] { return rec.GetInteractionVertex()[0]; }); eq("y", [&] { return rec.GetInteractionVertex()[1]; }); eq("z", [&] { return rec.GetInteractionVertex()[2]; });
            if(at("x") >= 0 && at("x0") < 0 && ok) { try { ok = rec.GetInitialPosition()[0] == data[k][at("x")]; } catch(std::exception const &) { ok = false; } }
            siren::dataclasses::InteractionRecord fin; bool hasfin = false; if(ok && (at("weight") >= 0 || at("nu_parent") >= 0)) { try { siren::dataclasses::PrimaryDistributionRecord & w = rec; if(at("m") < 0) w.SetMass(0.0); if(at("E") < 0) w.SetEnergy(20); if(at("px") < 0) w.SetDirection(std::array<double, 3>{0, 0.6, 0.8}); if(at("x") < 0) { w.SetInteractionVertex(std::array<double, 3>{0, 0, 1}); } if(at("x0") < 0 && at("x") < 0) w.SetInitialPosition(std::array<double, 3>{0, 0, 0}); rec.Finalize(fin); hasfin = true; } catch(std::exception const & e) { obs(std::string("finalize: ") + e.what()); } }
            for(char const * w : {"weight", "nu_parent"}) if(at(w) >= 0 && ok && hasfin) { auto const & ip = fin.interaction_parameters; obs("external-parameters-seen"); auto it = ip.find(w); ok = it != ip.end() && it->second == data[k][at(w)]; }
            if(ok) found = k; }
        CHECK("external-row-verbatim", found >= 0, "sampled event matches no row of the table:\n%s", s.c_str()); if(found >= 0) ++hits[found]; }
    // rows are equally likely (duplicate rows cannot occur with continuous values)
    double chi = 0; for(int h : hits) chi += (h - double(n) / rows) * (h - double(n) / rows) / (double(n) / rows); int dof = rows - 1; if(dof > 0) CHECK("external-uniform", chi < dof + 10 * std::sqrt(2.0 * dof) + 60, "row frequencies chi2=%.1f for %d rows", chi, rows);
    if(rows > 1) { for(int k = 0; k < rows; ++k) CHECK("external-every-row", hits[k] > 0, "row %d of %d never sampled in %d draws", k, rows, n); }
    CHECK("sample-has-density", prob(d, rec_E(emin + 1)) == 1 && prob(d, rec_E(emin)) == 1, "density above threshold"); if(emin > 0) CHECK("zero-outside", prob(d, rec_E(emin * 0.999)) == 0, "density below the threshold is %g", prob(d, rec_E(emin * 0.999)));
    // malformed variants are refused
    struct Bad { char const * what; std::string text; }; std::vector<Bad> bad{{"incomplete momentum", "px,py,E\n1,2,3\n"}, {"incomplete vertex", "E,x\n1,2\n"}, {"incomplete position", "z0,E\n1,2\n"}, {"too many columns", "E,m\n1,2,3\n"}, {"too few columns", "E,m\n1\n"}, {"no rows", "E,m\n"}, {"empty", ""}, {"comment only", "E\n# 1\n"}};
    Bad const & b = bad[c.r.i(bad.size())]; std::string bf = tmpfile(b.text); bool thr = false; try { PrimaryExternalDistribution x(bf); } catch(std::exception const &) { thr = true; } unlink(bf.c_str()); CHECK("external-refuses", thr, "table with %s accepted", b.what); seen("bad %s", b.what);
}
GROUP(P05, bad_tables, 160, 400) {
    int k = (int)c.r.i(16); bool thr = false; char const * what = ""; std::vector<double> e{1, 2, 3}, z{-1, 0, 1}, f{1, 1, 1};
    try { switch(k) {
        case 0: what = "missing 1D file"; TabulatedFluxDistribution("does/not/exist.txt"); break;
        case 1: what = "missing 2D file"; Tabulated2DFluxDistribution("does/not/exist.txt"); break;
        case 2: what = "malformed 2D row"; { auto p = tmpfile("1 0 1\n2 0\n"); try { Tabulated2DFluxDistribution d(p); } catch(...) { unlink(p.c_str()); throw; } unlink(p.c_str()); } break;
        case 3: what = "empty 2D file"; { auto p = tmpfile("# nothing\n"); try { Tabulated2DFluxDistribution d(p); } catch(...) { unlink(p.c_str()); throw; } unlink(p.c_str()); } break;
        case 4: what = "empty 2D vectors"; { std::vector<double> o; Tabulated2DFluxDistribution d(o, o, o); } break;
        case 5: what = "mismatched 2D vectors"; { f.pop_back(); Tabulated2DFluxDistribution d(e, z, f); } break;
        case 9: case 10: case 11: case 12: { what = k == 9 ? "malformed 1D row" : k == 10 ? "1D row that is not a number" : k == 11 ? "empty 1D file" : "1D file of comments"; auto p = tmpfile(k == 9 ? "1 2\n3\n4 5\n" : k == 10 ? "1 2\nenergy flux\n4 5\n" : k == 11 ? "" : "# nothing\n\n"); try { if(c.r.coin()) TabulatedFluxDistribution d(p); else TabulatedFluxDistribution d(1, 4, p); } catch(...) { unlink(p.c_str()); throw; } unlink(p.c_str()); } break;
        case 13: what = "mismatched 1D vectors"; { if(c.r.coin()) f.pop_back(); else e.pop_back(); if(c.r.coin()) TabulatedFluxDistribution d(e, f); else TabulatedFluxDistribution d(1, 2, e, f); } break;
        case 14: what = "empty 1D vectors"; { std::vector<double> o; if(c.r.coin()) TabulatedFluxDistribution d(o, o); else TabulatedFluxDistribution d(1, 2, o, o); } break;
        case 15: what = "log spaced energies with a bound of zero"; { std::vector<double> x, y, g; for(double E : {1., 10., 100., 1000.}) for(double z : {-0.5, 0., 0.5}) { x.push_back(E); y.push_back(z); g.push_back(1 + E); } Tabulated2DFluxDistribution d(x, y, g); d.SetEnergyBounds(-1, 10); } break;
        case 6: case 7: case 8: { Table2 t = gen_table2(c.r); auto d = make(t, false); double a = k == 6 ? -1.5 : k == 7 ? 0.5 : 0.6, b = k == 6 ? 0.5 : k == 7 ? 1.2 : 0.2; what = k == 8 ? "reversed cosZenith bounds" : "cosZenith bounds outside [-1,1]"; d->SetCosZenithBounds(a, b); } break;
    } } catch(std::runtime_error const &) { thr = true; }
    CHECK("table-refuses", thr, "%s accepted", what); seen("%s", what);
}
// ---------------------------------------------------------------- P06
static DP small(Rng & r, int k) { // parameters from tiny sets so that equal objects occur
    auto p = [&](std::initializer_list<double> v) { return *(v.begin() + r.i(v.size())); };
    switch(k) {
        case KPower: return std::make_shared<PowerLaw>(p({1, 2}), p({1, 2}), p({10, 20}));
        case KMono: return std::make_shared<Monoenergetic>(p({1, 2, 3}));
        case KMoyal: return std::make_shared<ModifiedMoyalPlusExponentialEnergyDistribution>(p({0.1, 0.2}), p({5, 6}), p({1, 2}), p({0.5, 1}), p({1, 2}), p({1, 2}), p({1, 2}), false);
        case KTab: { std::vector<double> e{1, 2, 3, p({4, 5})}, f{1, p({1, 2}), 3, p({1, 2})}; return r.coin() ? std::make_shared<TabulatedFluxDistribution>(e, f, false, false) : std::make_shared<TabulatedFluxDistribution>(p({1, 1.5}), p({3, 3.5}), e, f, false, false); }
        case KTab2: { std::vector<double> e{1, 1, 2, 2, 3, 3}, z{-1, 1, -1, 1, -1, 1}, f{1, p({1, 2}), 1, p({1, 2}), 1, 1}; return std::make_shared<Tabulated2DFluxDistribution>(p({1, 1.5}), p({2.5, 3}), p({-1, -0.5}), p({0.5, 1}), e, z, f); }
        case KCone: return std::make_shared<Cone>(Vector3D(p({0, 1}), p({-1, 0, 1}), 1), p({0.1, 0.2}));
        case KFixed: return std::make_shared<FixedDirection>(Vector3D(p({0, 1, -1}), p({0, 1}), p({1, -1})));
        case KMass: return std::make_shared<PrimaryMass>(p({0, 1, 2}));
        case KExt: { double em = p({0, 1.5}); std::string t = std::string(r.coin() ? "E,m\n" : "m,E\n") + (r.coin() ? "2,3\n" : "4,3\n") + (r.coin() ? "5,6\n" : ""); auto f = tmpfile(t); DP d = std::make_shared<PrimaryExternalDistribution>(f, em); unlink(f.c_str()); return d; }
        case KPiDAR: return std::make_shared<PiDARNuEDistribution>(); case KIso: return std::make_shared<IsotropicDirection>(); default: return std::make_shared<PrimaryNeutrinoHelicityDistribution>();
    }
}
static bool behave_same(WeightableDistribution const & a, WeightableDistribution const & b, Rng & r) { std::cerr.setstate(std::ios::failbit); bool ok = true; for(int i = 0; i < 12 && ok; ++i) { double x, y, z; r.dir(x, y, z); auto q = rec_Edir(r.coin(0.3) ? r.pick({1.0, 2.0, 3.0, 10.0, 1.5}) : r.u(0.01, 25), x, y, z); q.primary_mass = r.pick({0.0, 1.0, 2.0}); double p = prob(a, q), s = prob(b, q); ok = p == s || close(p, s, 1e-6); } std::cerr.clear(); return ok; }
GROUP(P06, order, 1600, 4000) {
    int k = c.cas % 3 == 0 ? -1 : (int)c.r.i(KN); std::vector<std::shared_ptr<WeightableDistribution>> v; std::vector<int> kind;
    for(int i = 0; i < 7; ++i) { int q = k < 0 ? (int)c.r.i(KN + 1) : k; kind.push_back(q); if(q == KN) v.push_back(std::make_shared<NormalizationConstant>(c.r.pick({1.0, 2.0}))); else v.push_back(small(c.r, q)); }
    v.push_back(std::dynamic_pointer_cast<PrimaryInjectionDistribution>(v[0]) ? std::static_pointer_cast<WeightableDistribution>(std::dynamic_pointer_cast<PrimaryInjectionDistribution>(v[0])->clone()) : v[0]); kind.push_back(kind[0]);
    CHECK("clone-equal", *v[0] == *v[7] && *v[7] == *v[0] && v[7]->Name() == v[0]->Name() && behave_same(*v[0], *v[7], c.r), "%s: clone differs from its original", v[0]->Name().c_str());
    size_t n = v.size();
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
        bool eq = *v[i] == *v[j], lt = *v[i] < *v[j], gt = *v[j] < *v[i]; char const * nm = kind[i] < KN ? name(kind[i]) : "NormalizationConstant";
        if(i == j) { CHECK("reflexive", eq && !lt, "%s: not equal to itself or less than itself", nm); continue; }
        CHECK("symmetric", eq == (*v[j] == *v[i]), "%s vs %s: equality not symmetric", nm, v[j]->Name().c_str());
        CHECK("order-consistent", int(eq) + int(lt) + int(gt) == 1, "%s vs %s: equal=%d less=%d greater=%d", nm, v[j]->Name().c_str(), eq, lt, gt);
        if(kind[i] != kind[j]) CHECK("types-differ", !eq, "%s equals %s", nm, v[j]->Name().c_str());
        if(eq && kind[i] == kind[j]) CHECK("equal-behaves-equal", behave_same(*v[i], *v[j], c.r), "%s: equal objects report different densities", nm);
        CHECK("equivalent-if-equal", v[i]->AreEquivalent(nullptr, nullptr, v[j], nullptr, nullptr) == eq, "%s: equivalence without detector disagrees with equality", nm);
        for(size_t m = 0; m < n; ++m) { if(lt && *v[j] < *v[m]) CHECK("transitive", *v[i] < *v[m], "%s: order not transitive", nm); if(eq && *v[j] == *v[m]) CHECK("transitive", *v[i] == *v[m], "%s: equality not transitive", nm); }
        seen("%s/%s %d%d%d", nm, v[j]->Name().c_str(), eq, lt, gt);
    }
    std::sort(v.begin(), v.end(), [](auto const & a, auto const & b) { return *a < *b; }); for(size_t i = 1; i < n; ++i) CHECK("sorts", !(*v[i] < *v[i-1]), "sorted sequence out of order at %zu", i);
}
// each parameter matters to equality
GROUP(P06, distinguishes, 1600, 2000) {
    auto ne = [&](char const * what, WeightableDistribution const & a, WeightableDistribution const & b) { CHECK("distinguishes", !(a == b) && !(b == a) && ((a < b) != (b < a)), "%s: objects that differ compare equal=%d less=%d greater=%d", what, a == b, a < b, b < a); seen("%s", what); };
    double f = c.r.coin() ? 1 + c.r.lu(1e-6, 1) : 1 - c.r.lu(1e-6, 0.5);
    switch((int)c.r.i(9)) {
        case 0: { double g = c.r.u(0.5, 3), a = c.r.lu(1, 10), b = a * c.r.lu(20, 100); PowerLaw o(g, a, b); ne("power index", o, PowerLaw(g * f, a, b)); ne("power min", o, PowerLaw(g, a * f, b)); ne("power max", o, PowerLaw(g, a, b * f)); break; }
        case 1: { double e = c.r.lu(1, 10); ne("mono", Monoenergetic(e), Monoenergetic(e * f)); break; }
        case 2: { Moyal m = gen_moyal(c.r); auto mk = [](Moyal const & m) { return ModifiedMoyalPlusExponentialEnergyDistribution(m.a, m.b, m.mu, m.sg, m.A, m.l, m.B); }; auto o = mk(m); Moyal q;
            if(m.B == 0) m.B = 1, o.~ModifiedMoyalPlusExponentialEnergyDistribution(), new(&o) ModifiedMoyalPlusExponentialEnergyDistribution(m.a, m.b, m.mu, m.sg, m.A, m.l, m.B);
            q = m; q.a *= std::min(f, 1.2); ne("moyal min", o, mk(q)); q = m; q.b *= std::max(f, 0.8); ne("moyal max", o, mk(q)); q = m; q.mu *= f; ne("moyal mu", o, mk(q)); q = m; q.sg *= f; ne("moyal sigma", o, mk(q)); q = m; q.A *= f; ne("moyal A", o, mk(q)); q = m; q.l *= f; ne("moyal l", o, mk(q)); q = m; q.B *= f; ne("moyal B", o, mk(q)); break; }
        case 3: { Table t = gen_table(c.r, false); auto o = make(t, false, false); Table u = t; size_t i = c.r.i(t.f.size()); u.f[i] *= f; ne("flux value", *o, *make(u, false, false)); u = t; i = 1 + c.r.i(t.x.size() - 2); u.x[i] = 0.5 * (t.x[i-1] + t.x[i]); ne("flux energy", *o, *make(u, false, false)); u = t; u.bounds = true; u.b = t.b - (t.b - t.a) * 0.1; ne("flux max", *o, *make(u, false, false)); u = t; u.bounds = true; u.a = t.a + (t.b - t.a) * 0.1; ne("flux min", *o, *make(u, false, false)); break; }
        case 4: { Table2 t = gen_table2(c.r); t.bounds = 2; auto o = make(t, false); Table2 u = t; u.f[c.r.i(u.f.size())] *= f; ne("flux2 value", *o, *make(u, false)); double w = t.b - t.a, v = t.cb - t.ca; u = t; u.a += 0.1 * w; ne("flux2 emin", *o, *make(u, false)); u = t; u.b -= 0.1 * w; ne("flux2 emax", *o, *make(u, false)); u = t; u.ca += 0.1 * v; ne("flux2 czmin", *o, *make(u, false)); u = t; u.cb -= 0.1 * v; ne("flux2 czmax", *o, *make(u, false)); break; }
        case 5: { Vector3D a = gen_dir(c.r, true), b = a + gen_dir(c.r, true) * 0.3; double al = c.r.u(0.05, 1.5); ne("cone angle", Cone(a, al), Cone(a, al * f)); if(std::fabs(1 - a * b / b.magnitude()) > 1e-6) ne("cone axis", Cone(a, al), Cone(b, al)); ne("cone opposite", Cone(a, al), Cone(a * -1.0, al)); break; }
        case 6: { Vector3D a = gen_dir(c.r, true), b = a + gen_dir(c.r, true) * 0.3; if(std::fabs(1 - a * b / b.magnitude()) > 1e-6) ne("fixed direction", FixedDirection(a), FixedDirection(b)); ne("fixed opposite", FixedDirection(a), FixedDirection(a * -1.0)); break; }
        case 7: { double m = c.r.lu(1e-3, 10); ne("mass", PrimaryMass(m), PrimaryMass(m * f)); ne("normalization", NormalizationConstant(m), NormalizationConstant(m * f)); break; }
        default: { auto mk = [&](std::string const & t, double e) { auto p = tmpfile(t); PrimaryExternalDistribution d(p, e); unlink(p.c_str()); return d; }; auto o = mk("E,m\n2,1\n3,1\n", 1); ne("external emin", o, mk("E,m\n2,1\n3,1\n", 1 * std::min(f, 1.9))); ne("external value", o, mk(mon::fmt("E,m\n2,1\n3,%.17g\n", f), 1)); ne("external keys", o, mk("E,t0\n2,1\n3,1\n", 1)); ne("external rows", o, mk("E,m\n2,1\n", 1)); break; }
    }
}
MON_MAIN
