// A path in the reference frame of the monitors: where it is and how well depths along it can be known.
#pragma once
#include "detmodel.h"
#include "SIREN/detector/Path.h"
using namespace detm; using namespace mon;
static const PT TG[] = {PT::HNucleus, PT::O16Nucleus, PT::Fe56Nucleus, PT::EMinus, PT::PPlus, PT::Neutron, PT::C12Nucleus};
struct Xs { std::vector<PT> t; std::vector<double> s; double L; };
static Xs rxs(Rng & r, double S) { Xs x; int n = (int)r.i(4); for(int i = 0; i < n; ++i) { PT p = TG[r.i(7)]; if(std::find(x.t.begin(), x.t.end(), p) == x.t.end()) { x.t.push_back(p); x.s.push_back(r.lu(1e-30, 1e-24) / std::max(1., S)); } } x.L = (x.t.empty() || r.coin(0.5)) ? S * r.lu(0.1, 1e3) : INFINITY; return x; }
// where the path has to be, in the world frame
struct St { P3 f; Vector3D d; LD L; bool open; };
struct Q { Ref const * R; Path * p; St s; std::string log; bool num;
    DetectorModel const & m() const { return *R->m; }
    DetectorPosition at(LD t) const { return DetectorPosition(R->det(along(s.f, s.d, t))); }
    double col(LD a, LD b) const { return m().GetColumnDepthInCGS(at(a), at(b)); }
    double dep(LD a, LD b, Xs const & x) const { return m().GetInteractionDepthInCGS(at(a), at(b), x.t, x.s, x.L); }
    double tp() const { return 1e-9 * (R->S + std::fabs((double)s.f.x) + std::fabs((double)s.f.y) + std::fabs((double)s.f.z) + (double)(s.open ? 0 : s.L)); }
    // how well a depth over a stretch can be known: surfaces are found to 1e-6, radial profiles are integrated numerically
    double slack(LD a, LD b, Xs const * x) const { LD e = 1e-5 * R->S + tp() * 10 + 1e-6 * fabsl(b - a); LD lo = std::min(a, b) - e, hi = std::max(a, b) + e; double w = x ? dep(lo, hi, *x) : col(lo, hi), i = x ? dep(a, b, *x) : col(a, b); LD far = 5 * R->S + (s.open ? 0 : s.L); double all = col(-far, far); if(x) { double c = 0; for(auto & z : R->v) { auto f = m().GetMaterials().GetTargetParticleFraction(z.mat_id, x->t); double y = 0; for(size_t k = 0; k < f.size(); ++k) y += f[k] * x->s[k]; c = std::max(c, y); } all *= c; } /* faces that coincide leave slivers of rounding size */ return 2 * std::fabs(w - i) + (num ? 2e-3 : 1e-6) * w + 1e-9 * all + 1e-300; } };
static bool v3(Vector3D const & a, Vector3D const & b, double e) { return (a - b).magnitude() <= e; }
static bool numeric(Ref const & R) { for(auto & s : R.v) if(!s.inf && s.radial && s.pr.kind >= 1) return true; return false; }
static bool sure(Ref const & R, St const & s) { LD L = s.open ? R.S : s.L, m = 3 * R.S + L; return walk(R, along(s.f, s.d, -m), s.d, 0, 2 * m + L, 1e-6 * R.S + 1e-10 * (double)(L + m)).sure; }
