// Density profiles and axes with a reference of their own, used by several harnesses.
#pragma once
#include "mon.h"
#include "SIREN/detector/CartesianAxis1D.h"
#include "SIREN/detector/RadialAxis1D.h"
#include "SIREN/detector/ConstantDistribution1D.h"
#include "SIREN/detector/PolynomialDistribution1D.h"
#include "SIREN/detector/ExponentialDistribution1D.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
#include "SIREN/detector/DensityDistribution1D.h"
#include "SIREN/detector/CartesianAxisDensityDistribution.h"
#include "SIREN/detector/CartesianAxisExponentialDensityDistribution.h"
#include "SIREN/detector/CartesianAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/RadialAxisExponentialDensityDistribution.h"
#include "SIREN/detector/RadialAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/math/Polynomial.h"
#include <memory>
#include <sys/stat.h>
#include <dirent.h>
using namespace siren::detector; using siren::math::Vector3D; using mon::Rng; using mon::close;

struct Prof { int kind; double val; std::vector<double> co; double sig, amp, x0;   // 0 const 1 poly 2 exp 3 exp(sigma only)
    double f(double x) const { if(kind == 0) return val; if(kind == 1) { double s = 0; for(size_t i = co.size(); i-- > 0;) s = s * x + co[i]; return s; } return amp * std::exp(sig * (x - x0)); }
    double d(double x) const { if(kind == 0) return 0; if(kind == 1) { double s = 0; for(size_t i = co.size(); i-- > 1;) s = s * x + i * co[i]; return s; } return sig * f(x); }
    double absf(double x) const { if(kind != 1) return std::fabs(f(x)); double s = 0, p = 1; for(double c : co) { s += std::fabs(c) * p; p *= std::fabs(x); } return s; }
    double absd(double x) const { if(kind != 1) return std::fabs(d(x)); double s = 0, p = 1; for(size_t i = 1; i < co.size(); ++i) { s += i * std::fabs(co[i]) * p; p *= std::fabs(x); } return s; }
};
static Prof genprof(Rng & r, double L, bool positive) { // L: length scale of positions
    Prof p; p.kind = r.i(4); p.val = r.lu(1e-4, 20); p.sig = r.sgn() * r.lu(0.01, 3) / L; p.amp = 1; p.x0 = 0;
    if(p.kind == 2) { p.amp = r.lu(1e-3, 15); p.x0 = r.coin(0.3) ? 0 : L * r.u(-1, 1); }
    if(p.kind == 1) { // positive everywhere: sum of even powers of (x-c) plus a positive constant; or non-negative coefficients on the half line
        if(positive || r.coin()) { double a = r.lu(0.1, 10), b = r.lu(0.1, 10) / (L * L), c = L * r.u(-1, 1); p.co = {a + b * c * c, -2 * b * c, b}; if(r.coin(0.3)) { double q = r.lu(0.01, 1) / std::pow(L, 4); p.co.resize(5, 0.0); p.co[4] = q; } }
        else { int n = r.ri(1, 6); for(int i = 0; i < n; ++i) p.co.push_back(r.u(-3, 3) / std::pow(L, i)); }
        if(r.coin(0.1)) p.co.resize(1);
    }
    return p;
}
static std::shared_ptr<Distribution1D> mk1(Prof const & p) {
    if(p.kind == 0) return std::make_shared<ConstantDistribution1D>(p.val);
    if(p.kind == 1) return std::make_shared<PolynomialDistribution1D>(p.co);
    if(p.kind == 2) return std::make_shared<ExponentialDistribution1D>(p.sig, p.amp, p.x0);
    return std::make_shared<ExponentialDistribution1D>(p.sig);
}
static std::shared_ptr<DensityDistribution> mkD(Prof const & p, bool radial, Vector3D ax, Vector3D p0) {
    CartesianAxis1D ca(ax, p0); RadialAxis1D ra(p0);
    switch(p.kind) {
        case 0:
#ifndef DENSITIES_SAVABLE   // constant along a radius: no file asks for it
            if(radial) return std::make_shared<DensityDistribution1D<RadialAxis1D, ConstantDistribution1D>>(ra, ConstantDistribution1D(p.val));
#endif
            return std::make_shared<ConstantDensityDistribution>(ca, ConstantDistribution1D(p.val));
        case 1: if(radial) return std::make_shared<RadialAxisPolynomialDensityDistribution>(ra, PolynomialDistribution1D(p.co)); return std::make_shared<DensityDistribution1D<CartesianAxis1D, PolynomialDistribution1D>>(ca, PolynomialDistribution1D(p.co));
        case 2: if(radial) return std::make_shared<RadialAxisExponentialDensityDistribution>(ra, ExponentialDistribution1D(p.sig, p.amp, p.x0)); return std::make_shared<DensityDistribution1D<CartesianAxis1D, ExponentialDistribution1D>>(ca, ExponentialDistribution1D(p.sig, p.amp, p.x0));
        default: if(radial) return std::make_shared<RadialAxisExponentialDensityDistribution>(ra, ExponentialDistribution1D(p.sig)); return std::make_shared<DensityDistribution1D<CartesianAxis1D, ExponentialDistribution1D>>(ca, ExponentialDistribution1D(p.sig));
    }
}
static char const * KN[] = {"constant", "polynomial", "exponential", "exponential1"};
static Vector3D rdir(Rng & r) { double x, y, z; r.dir(x, y, z); return Vector3D(x, y, z); }

