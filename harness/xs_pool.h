// Cross sections with tables of their own, used by several harnesses.
#pragma once
#include "inter.h"
#include <SIREN/interactions/ElasticScattering.h>
#include <SIREN/interactions/DummyCrossSection.h>
#include <SIREN/interactions/HNLDipoleFromTable.h>
#include <SIREN/interactions/DarkNewsCrossSection.h>
#include <SIREN/interactions/DarkNewsDecay.h>
#include <SIREN/interactions/InteractionCollection.h>
#include <SIREN/interactions/HNLDipoleDecay.h>
#include <SIREN/utilities/Interpolator.h>
#include <SIREN/utilities/Errors.h>
using namespace siren::interactions; using mon::Rng; using utilities::Interpolator1D; using utilities::Interpolator2D; using utilities::TableData1D; using utilities::TableData2D;
static const double ME = utilities::Constants::electronMass, GF = 1.16639e-5, INV = 3.893793656e-28; // INV: GeV^-2 in cm^2
static InteractionSignature xsig(PT p, PT t, std::vector<PT> s) { InteractionSignature q; q.primary_type = p; q.target_type = t; q.secondary_types = s; return q; }
static const PT NU[6] = {PT::NuE, PT::NuMu, PT::NuTau, PT::NuEBar, PT::NuMuBar, PT::NuTauBar};
// rotate a vector given about +z into the direction (dx,dy,dz), with azimuth phi
static V4 about(L e, L p, L c, L phi, double dx, double dy, double dz) { L s = sqrtl(std::max((L)0, 1 - c * c)), ux = dx, uy = dy, uz = dz, ax, ay, az; if(fabsl(uz) < 0.7) { ax = -uy; ay = ux; az = 0; } else { ax = 0; ay = -uz; az = uy; } L an = sqrtl(ax * ax + ay * ay + az * az); ax /= an; ay /= an; az /= an; L bx = uy * az - uz * ay, by = uz * ax - ux * az, bz = ux * ay - uy * ax; L f = cosl(phi), g = sinl(phi); return {e, p * (c * ux + s * (f * ax + g * bx)), p * (c * uy + s * (f * ay + g * by)), p * (c * uz + s * (f * az + g * bz))}; }
static std::array<double, 4> arr(V4 v) { return {(double)v.e, (double)v.x, (double)v.y, (double)v.z}; }
struct Dip { double m, d; bool z, inv, inel, flip; std::set<PT> prims; PT T; double M, Emin, Emax; std::shared_ptr<HNLDipoleFromTable> x; Interpolator1D<double> t1, tp; Interpolator2D<double> f1, fp; int Z; bool withp;
    static double ymin(double E, double m, double M) { L s = 2 * (L)E * M + (L)M * M, a = sqrtl(std::max((L)0, (s - (L)m * m - (L)M * M) * (s - (L)m * m - (L)M * M) - 4 * (L)m * m * M * M)), b = 2 * (L)E * M - (L)m * m - (L)M * m * m / E; return (double)((L)m * m * m * m / (2 * (L)E * E * (b + a))); } // product of the roots: (b-a)(b+a) = s m^4/E^2
    static double ymax(double E, double m, double M) { L s = 2 * (L)E * M + (L)M * M, a = sqrtl(std::max((L)0, (s - (L)m * m - (L)M * M) * (s - (L)m * m - (L)M * M) - 4 * (L)m * m * M * M)), b = 2 * (L)E * M - (L)m * m - (L)M * m * m / E; return (double)((b + a) / (2 * s)); }
    static double thr(double m, double M) { return m + m * m / (2 * M); } };
static PT nuclei[] = {PT::HNucleus, PT::O16Nucleus, PT::C12Nucleus, PT::Ar40Nucleus, PT::Fe56Nucleus}; static int nZ[] = {1, 8, 6, 18, 26}; static double nM[] = {0.938272, 14.895, 11.175, 37.215, 52.09};
static Dip mkdip(Rng & r, bool flat) { Dip d; d.m = r.lu(0.01, 1.5); d.d = r.lu(1e-8, 1e-3); d.z = r.coin(); d.inv = r.coin(); d.inel = r.coin(); d.flip = r.coin(); int k = r.i(5); d.T = nuclei[k]; d.Z = nZ[k]; d.M = nM[k]; for(PT p : NU) if(r.coin(0.6)) d.prims.insert(p); if(d.prims.empty()) d.prims.insert(PT::NuMu);
    double th = Dip::thr(d.m, d.M), thp = Dip::thr(d.m, 0.938272); d.Emin = th * r.u(1.01, 1.3); d.Emax = d.Emin * r.lu(20, 1e3); HNLDipoleFromTable::HelicityChannel ch = d.flip ? HNLDipoleFromTable::Flipping : HNLDipoleFromTable::Conserving; d.x = std::make_shared<HNLDipoleFromTable>(d.m, d.d, ch, d.z, d.inv, d.inel, d.prims);
    auto mk = [&](double Elo, double Ehi, double M, Interpolator1D<double> & t, Interpolator2D<double> & f) { TableData1D<double> a; TableData2D<double> b; double pw = flat ? r.u(0.8, 1.2) : r.u(0, 1.5), am = r.lu(1e-6, 1e3); int ne = 6 + r.i(8), ny = 6 + r.i(12); double y0 = 1e-6; (void)M; for(int i = 0; i < ne; ++i) { double E = Elo * std::pow(Ehi / Elo, i / (ne - 1.)); a.x.push_back(E); a.f.push_back(am * std::log(2 + E)); for(int j = 0; j < ny; ++j) { double y = d.z ? (flat ? std::pow(1e-4, 1 - j / (ny - 1.)) : j / (ny - 1.)) : y0 * std::pow(1 / y0, j / (ny - 1.)); b.x.push_back(E); b.y.push_back(y); b.f.push_back(am * std::log(2 + E) * std::pow(y + 1e-3 * y0, -pw) * (1 + 0.3 * y)); } } t = Interpolator1D<double>(a); f = Interpolator2D<double>(b); };
    mk(d.Emin, d.Emax, d.M, d.t1, d.f1); bool H = d.T == PT::HNucleus; if(!H) { double lo = thp * r.u(1.01, 1.2), hi = std::max(d.Emax * r.pick({0.5, 2.}), lo * 10); mk(lo, hi, 0.938272, d.tp, d.fp); d.x->AddTotalCrossSection(PT::HNucleus, d.tp); d.x->AddDifferentialCrossSection(PT::HNucleus, d.fp); } else { d.tp = d.t1; d.fp = d.f1; }
    d.x->AddTotalCrossSection(d.T, d.t1); d.x->AddDifferentialCrossSection(d.T, d.f1); if(!d.inel || H) d.Z = 0; return d; }
static double dipdiff(Dip & d, double E, double y) { double lo = Dip::ymin(E, d.m, d.M), hi = Dip::ymax(E, d.m, d.M), v = d.z ? (y - lo) / (hi - lo) : y; if(y < lo || y > hi || v < d.f1.MinY() || v > d.f1.MaxY()) return 0; double f = d.f1(E, v); if(d.Z && E > d.fp.MinX() && E < d.fp.MaxX() && v > d.fp.MinY() && v < d.fp.MaxY()) f += d.Z * d.fp(E, v); return f * d.d * d.d * (d.inv ? INV : 1); }
static InteractionRecord diprec(Rng & r, Dip & d, double E, bool swap) { auto it = d.prims.begin(); std::advance(it, r.i(d.prims.size())); PT N = (int)*it > 0 ? PT::N4 : PT::N4Bar; double dx, dy, dz; r.dir(dx, dy, dz); return mkrec(xsig(*it, d.T, swap ? std::vector<PT>{d.T, N} : std::vector<PT>{N, d.T}), 0, E, dx, dy, dz, r.sgn() * 0.5, d.M); }
static InteractionRecord dipfinal(InteractionRecord q, Dip & d, double y, int l, double phi) { double E = q.primary_momentum[0]; L e3 = (L)E * (1 - (L)y), p3 = sqrtl(std::max((L)0, e3 * e3 - (L)d.m * d.m)), cs = std::min((L)1, (e3 - (L)d.M * y - (L)d.m * d.m / (2 * E)) / p3); V4 P(q.primary_momentum); V4 k3 = about(e3, p3, cs, phi, q.primary_momentum[1] / E, q.primary_momentum[2] / E, q.primary_momentum[3] / E), k4 = P - k3; k4.e = (L)E + d.M - e3; q.secondary_momenta = {arr(l ? k4 : k3), arr(l ? k3 : k4)}; q.secondary_masses = {l ? d.M : d.m, l ? d.m : d.M}; q.secondary_helicities = {0.5, 0.5}; return q; }
