// Independent reference of the heavy neutral lepton widths (own integration, own particle tables).
#pragma once
#include "inter.h"
#include <CRunDec3.1/CRunDec.h>
namespace hnl {
static const double G = 1.16639e-5, s2w = 0.2312, gw = 0.64, mW = 80.379, mZ = 91.1876, PI = M_PI;
static inline double lam(double a, double b, double c) { double d = a - b - c; return d * d - 4 * b * c; }
// integrals with endpoint square roots: s = a + (b-a) sin^2(t)
template<class F> static double sqint(F f, double a, double b) { return mon::integ([&](double t) { double sn = std::sin(t), cs = std::cos(t); return f(a + (b - a) * sn * sn) * 2 * (b - a) * sn * cs; }, 0, M_PI / 2, 64); }
// for tiny lower edges the 1/s factor needs logarithmic resolution
template<class F> static double edge(F f, double a, double b) { if(a <= 0 || b / a < 50) return sqint(f, a, b); double s = 0, lo = a, hi = 4 * a; s += sqint(f, a, a + 0) ; (void)lo; (void)hi; std::vector<double> cut{a}; for(double x = 3 * a; x < 0.5 * b; x *= 3) cut.push_back(x); cut.push_back(b); s = 0; for(size_t i = 0; i + 1 < cut.size(); ++i) s += sqint(f, cut[i], cut[i + 1]); return s; }
static inline double I1(double x, double y, double z) { double a = std::pow(std::sqrt(x) + std::sqrt(y), 2), b = std::pow(1 - std::sqrt(z), 2); return edge([&](double s) { return 12 / s * (s - x - y) * (1 + z - s) * std::sqrt(std::max(0., lam(s, x, y)) * std::max(0., lam(1, s, z))); }, a, b); }
static inline double I2(double x, double y, double z) { double a = std::pow(std::sqrt(y) + std::sqrt(z), 2), b = std::pow(1 - std::sqrt(x), 2); return edge([&](double s) { return 24 * std::sqrt(y * z) / s * (1 + x - s) * std::sqrt(std::max(0., lam(s, y, z)) * std::max(0., lam(1, s, x))); }, a, b); }
struct Meson { double m, f, v; int kind; };   // kind 0: neutral PS, 1: charged PS, 2: neutral V, 3: charged V; v: CKM element or neutral coupling
static std::map<PT, Meson> const & mesons() { static std::map<PT, Meson> t = {
    {PT::Pi0, {0.1349770, .130, 1, 0}}, {PT::Eta, {0.547862, .0816, 1, 0}}, {PT::EtaPrime, {0.95778, .0946, 1, 0}},
    {PT::PiPlus, {0.13957039, .130, .9740, 1}}, {PT::PiMinus, {0.13957039, .130, .9740, 1}}, {PT::KPlus, {0.493677, .156, .2265, 1}}, {PT::KMinus, {0.493677, .156, .2265, 1}},
    {PT::DPlus, {1.86966, .212, .2263, 1}}, {PT::DMinus, {1.86966, .212, .2263, 1}}, {PT::DsPlus, {1.96835, .249, .9732, 1}}, {PT::DsMinus, {1.96835, .249, .9732, 1}},
    {PT::Rho0, {0.77526, .171, 1 - 2 * s2w, 2}}, {PT::Omega, {0.78266, .155, 2. / 3 * s2w, 2}}, {PT::Phi, {1.019461, .232, std::sqrt(2.) * (0.5 - 2. / 3 * s2w), 2}}, {PT::KPrime0, {0.896, .178, 0, 2}},
    {PT::RhoPlus, {0.77511, .171, .9740, 3}}, {PT::RhoMinus, {0.77511, .171, .9740, 3}}, {PT::KPrimePlus, {0.89167, .178, .2265, 3}}, {PT::KPrimeMinus, {0.89167, .178, .2265, 3}}}; return t; }
static const double mlep[3] = {0.000511, 0.105658374, 1.77686};
// flavour and charge of a light lepton
static inline bool lepton(PT t, int & fl, bool & ch) { switch(t) { case PT::NuE: case PT::NuEBar: fl = 0; ch = false; return true; case PT::NuMu: case PT::NuMuBar: fl = 1; ch = false; return true; case PT::NuTau: case PT::NuTauBar: fl = 2; ch = false; return true;
    case PT::EMinus: case PT::EPlus: fl = 0; ch = true; return true; case PT::MuMinus: case PT::MuPlus: fl = 1; ch = true; return true; case PT::TauMinus: case PT::TauPlus: fl = 2; ch = true; return true; default: return false; } }
static inline double wmeson(Meson const & q, double m, double ma, double U2) { double x = q.m / m, a = ma / m; if(x + a >= 1) return 0; double x2 = x * x, a2 = a * a, G2 = G * G, f2 = q.f * q.f, V2 = q.v * q.v;
    switch(q.kind) { case 0: return f2 * G2 / (32 * PI) * m * m * m * U2 * (1 - x2) * (1 - x2);
        case 1: return f2 * G2 / (16 * PI) * m * m * m * U2 * V2 * std::sqrt(lam(1, x2, a2)) * (1 - x2 - a2 * (2 + x2 - a2));
        case 2: return f2 * V2 * G2 / (32 * PI) * m * m * m / (q.m * q.m) * U2 * (1 + 2 * x2) * (1 - x2) * (1 - x2);
        default: return f2 * G2 / (16 * PI) * m * m * m / (q.m * q.m) * U2 * V2 * std::sqrt(lam(1, x2, a2)) * ((1 - x2) * (1 + 2 * x2) + a2 * (x2 + a2 - 2)); } }
static const double qu[3] = {0.00232, 1.280, 173.3}, qd[3] = {0.00471, 0.0929, 4.198}; static const double CKM[3][3] = {{.9740, .2265, .0036}, {.2263, .9732, .0405}, {.0085, .0398, .99917}};
static inline double dqcd(double m) { int nf = 0; for(double q : {0.00232, 0.00471, 0.0929, 1.280, 4.198, 173.3}) nf += m > q; CRunDec c; double a = nf <= 5 ? c.AlphasExact(0.332, 1.77686, m, nf, 5) : c.AlphasExact(0.1179, 91.1876, m, nf, 5); double t = a / PI; return t + 5.2 * t * t + 26.4 * t * t * t; }
static inline double ncquark(double m, double mq, bool up) { double x = mq / m; if(2 * x >= 1) return 0; double c1 = up ? 0.25 * (1 - 8. / 3 * s2w + 32. / 9 * s2w * s2w) : 0.25 * (1 - 4. / 3 * s2w + 8. / 9 * s2w * s2w), c2 = up ? s2w / 3 * (4. / 3 * s2w - 1) : s2w / 6 * (2. / 3 * s2w - 1);
    double x2 = x * x, r = std::sqrt(1 - 4 * x2), num = x < 3e-3 ? 2 * std::pow(x, 6) + 6 * std::pow(x, 8) + 18 * std::pow(x, 10) : 1 - 3 * x2 - (1 - x2) * r, Lx = std::log(num / (x2 * (1 + r)));
    double f1 = (1 - 14 * x2 - 2 * x2 * x2 - 12 * x2 * x2 * x2) * r + 12 * x2 * x2 * (x2 * x2 - 1) * Lx, f2 = x2 * (2 + 10 * x2 - 12 * x2 * x2) * r + 6 * x2 * x2 * (1 - 2 * x2 + 2 * x2 * x2) * Lx; return 3 * (c1 * f1 + 4 * c2 * f2); }
// Dirac (maj=false) or Majorana width of one channel; scale: size of the terms it is a difference of
static inline double width(InteractionSignature const & s, double m, std::vector<double> const & U, bool maj, double & scale) { auto const & t = s.secondary_types; double p5 = G * G * std::pow(m, 5) / (192 * PI * PI * PI); scale = 0;
    if(t.size() == 3) { if(t[1] == PT::NuLightBar && t[2] == PT::NuLight) return (maj ? 2 : 1) * p5 * (U[0] * U[0] + U[1] * U[1] + U[2] * U[2]);
        int a, b; bool c; lepton(t[1], a, c); lepton(t[2], b, c); double xa = mlep[a] / m, xb = mlep[b] / m; if(xa + xb >= 1) return 0;
        if(a == b) { double gL = -0.5 + s2w, gR = s2w, w = 0, i1 = I1(0, xa * xa, xa * xa), i2 = I2(0, xa * xa, xa * xa); for(int g = 0; g < 3; ++g) { double d = g == a; w += U[g] * U[g] * ((gL * gR + d * gR) * i2 + (gL * gL + gR * gR + d * (1 + 2 * gL)) * i1); } return (maj ? 2 : 1) * p5 * w; }
        double A = U[a] * U[a] * I1(0, xa * xa, xb * xb), B = U[b] * U[b] * I1(0, xb * xb, xa * xa); return p5 * (maj ? A + B : s.primary_type == PT::N4 ? A : B); }
    int fl; bool ch; lepton(t[0], fl, ch); double U2 = U[fl] * U[fl], ma = ch ? mlep[fl] : 0, w; auto it = mesons().find(t[1]);
    if(it != mesons().end()) w = wmeson(it->second, m, ma, U2);
    else if(t[1] == PT::Z0) { if(m <= mZ) return 0; double q = 1 - mZ * mZ / (m * m); w = 0.5 * U2 * (gw * gw / (64 * PI * mW * mW) * m * m * m + gw * gw / (32 * PI * (1 - s2w)) * m) * q * q; }
    else if(t[1] == PT::WPlus || t[1] == PT::WMinus) { if(m <= mW + ma) return 0; double q = 1 - mW * mW / (m * m); w = U2 * (gw * gw / (64 * PI * mW * mW) * m * m * m + gw * gw / (32 * PI) * m) * q * q; }
    else { if(m <= 1) return 0; double ms = 0, d = dqcd(m); for(auto const & q : mesons()) { bool chm = q.second.kind & 1; if(chm != ch) continue; if(ch && (int)q.first < 0) continue; ms += wmeson(q.second, m, ma, U2); }
        if(ch) { double g = 0; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { double a = qu[i] / m, b = qd[j] / m, l = ma / m; if(a + b + l > 1) continue; g += 3 * CKM[i][j] * CKM[i][j] * p5 * U2 * I1(a * a, b * b, l * l); } scale = (1 + d) * std::max(g, ms); w = (1 + d) * (g - ms); }
        else { double g = 0; for(int i = 0; i < 3; ++i) { g += ncquark(m, qu[i], true); double k = 1; if(i == 1) { k = 1 - 4 * std::pow(0.493677 / m, 2); if(k <= 0) continue; } g += std::sqrt(k) * ncquark(m, qd[i], false); } g *= p5 * U2 * (1 + d); scale = std::max(g, ms); w = g - ms; }
        w = std::max(0., w); scale *= maj ? 2 : 1; }
    return (maj ? 2 : 1) * w; }
// differential width of N -> nu(k2) l-(k3) l+(k4) per ds1 ds2 dcos dphi dphi, all momenta in the rest frame, flight axis n
static inline double threebody(InteractionSignature const & s, double m, std::vector<double> const & U, bool maj, double hel, V4 k2, V4 k3, V4 k4, V4 n) { int a, b; bool ch; lepton(s.secondary_types[1], a, ch); lepton(s.secondary_types[2], b, ch); double gL = -0.5 + s2w, gR = s2w, A = 0, B = 0, C = 0, D = 0, E = 0, F = 0; bool nu = maj || s.primary_type == PT::N4, nb = maj || s.primary_type == PT::N4Bar;
    for(int g = 0; g < 3; ++g) { double u = U[g] * U[g], da = g == a, db = g == b; if(a == b) { double l = (gL + da) * (gL + da), r = gR * gR, x = gR * (gL + da); if(nu) { A += u * l; B += u * r; C += u * x; D += u * l; E += u * r; F += u * x; } if(nb) { A += u * r; B += u * l; C += u * x; D -= u * r; E -= u * l; F -= u * x; } } else { if(nu) { A += u * da; D += u * da; } if(nb) { B += u * db; E -= u * db; } } }
    L M2 = (L)m * m, x34 = (L)mlep[a] * mlep[b] / M2, k23 = 2 * k2.dot(k3) / M2, k24 = 2 * k2.dot(k4) / M2, a0 = A * k23 * 2 * k4.e / m + B * k24 * 2 * k3.e / m + 2 * C * x34 * 2 * k2.e / m, a1 = (D * k23 - 2 * F * x34) * 2 * k4.dot3(n) / n.p() / m + (E * k24 - 2 * F * x34) * 2 * k3.dot3(n) / n.p() / m;
    return (double)(G * G * std::pow(m, 5) / (128 * std::pow(PI, 5)) * (a0 + (hel > 0 ? a1 : -a1))); }
} // namespace hnl
