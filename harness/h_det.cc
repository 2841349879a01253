// The detector model: what is where, how much of it a line goes through, and how far to go for a given amount (P22).
#include "detmodel.h"
using namespace detm; using namespace mon; using siren::geometry::Geometry;
static const PT TG[] = {PT::HNucleus, PT::O16Nucleus, PT::Fe56Nucleus, PT::EMinus, PT::PPlus, PT::Neutron, PT::Nucleon, PT::C12Nucleus};
struct Xs { std::vector<PT> t; std::vector<double> s; double L; };
static Xs rxs(Rng & r, double S) { Xs x; int n = (int)r.i(4); for(int i = 0; i < n; ++i) { PT p = TG[r.i(8)]; if(std::find(x.t.begin(), x.t.end(), p) == x.t.end()) { x.t.push_back(p); x.s.push_back(r.lu(1e-30, 1e-24) / std::max(1., S)); } } x.L = (x.t.empty() || r.coin(0.4)) ? S * r.lu(0.1, 1e3) : INFINITY; return x; }
static double comp(Ref const & R, Sec const & s, Xs const & x) { double c = 0; auto f = R.m->GetMaterials().GetTargetParticleFraction(s.mat_id, x.t); for(size_t i = 0; i < f.size(); ++i) c += f[i] * x.s[i]; return c; }
static std::string rs(Line const & l) { return mon::fmt("line (%.17g,%.17g,%.17g) -> (%.17g,%.17g,%.17g) %.17g", (double)l.o.x, (double)l.o.y, (double)l.o.z, l.d.GetX(), l.d.GetY(), l.d.GetZ(), l.len); }
GROUP(P22, points, 1500, 40000) { Rng & r = c.r; Ref R = model(r); DetectorModel & m = *R.m; for(int k = 0; k < 12; ++k) { P3 p0 = spot(r, R); Vector3D dp = R.det(p0); P3 p = R.geo(dp); double off = R.S * 10; if(!R.clear(p, 3e-6 * R.S + 1e-11 * off)) { obs("near_surface"); continue; }
        Vector3D pv = vec(p); GeometryPosition gp = m.ToGeo(DetectorPosition(dp)); CHECK("to_world", (gp.get() - pv).magnitude() <= 1e-12 * off, "%s", R.shape.c_str()); CHECK("and_back", (m.ToDet(gp).get() - dp).magnitude() <= 1e-12 * off, "%s", R.shape.c_str()); Vector3D dd = rv(r, 1); CHECK("direction_back", (m.ToDet(m.ToGeo(DetectorDirection(dd))).get() - dd).magnitude() <= 1e-13 && (R.detd(m.ToGeo(DetectorDirection(dd)).get()) - dd).magnitude() <= 1e-13, " ");
        Sec const * s = R.at(p); DetectorPosition P(dp); DetectorSector got = m.GetContainingSector(P); CHECK("sector", got.name == s->name && got.level == s->level && got.material_id == s->mat_id, "got %s expected %s at (%.17g,%.17g,%.17g) of %s", got.name.c_str(), s->name.c_str(), pv.GetX(), pv.GetY(), pv.GetZ(), show(R).c_str());
        double rho = s->rho(p), tol = 1e-9; CHECK("density", close(m.GetMassDensity(P), rho, tol, 0), "%.17g expected %.17g in %s", m.GetMassDensity(P), rho, s->name.c_str()); auto const & mm = m.GetMaterials();
        Xs x = rxs(r, R.S); auto pf = mm.GetTargetParticleFraction(s->mat_id, x.t), mf = mm.GetTargetMassFraction(s->mat_id, x.t); double ref = 0, msum = 0; for(size_t i = 0; i < x.t.size(); ++i) { ref += rho * pf[i] * x.s[i] * 100; msum += mf[i]; CHECK("particles", close(m.GetParticleDensity(P, x.t[i]), rho * pf[i], tol, 0), "%d: %g expected %g", int(x.t[i]), m.GetParticleDensity(P, x.t[i]), rho * pf[i]); } ref += 1 / x.L;
        CHECK("interactions", close(m.GetInteractionDensity(P, x.t, x.s, x.L), ref, tol, 1e-300), "%.17g expected %.17g", m.GetInteractionDensity(P, x.t, x.s, x.L), ref);
        if(!x.t.empty()) { std::set<PT> ts(x.t.begin(), x.t.end()); std::vector<PT> tv(ts.begin(), ts.end()); auto pv2 = mm.GetTargetParticleFraction(s->mat_id, tv); CHECK("mass_of_targets", close(m.GetMassDensity(P, ts), rho * msum, tol, 1e-300) && close(m.GetMassDensity(P, x.t.begin(), x.t.end()), rho * msum, tol, 1e-300), "%g expected %g", m.GetMassDensity(P, ts), rho * msum); auto g = m.GetParticleDensity(P, ts); auto g2 = m.GetParticleDensity(P, tv.begin(), tv.end()); bool ok = g.size() == tv.size() && g2.size() == tv.size(); for(size_t i = 0; ok && i < g.size(); ++i) ok = close(g[i], rho * pv2[i], tol, 1e-300) && close(g2[i], rho * pv2[i], tol, 1e-300); CHECK("particles_of_targets", ok, "%zu", g.size()); }
        auto cons = mm.GetMaterialConstituents(s->mat_id); std::set<PT> cs(cons.begin(), cons.end()); CHECK("targets", m.GetAvailableTargets(P) == cs, "%s", s->mat.c_str());
        // the same answers along any line through the point
        Vector3D d = rv(r, 1); double back = r.coin(0.2) ? 0 : R.S * r.u(-3, 3); Vector3D o = pv - d * back; auto I = m.GetIntersections(DetectorPosition(R.det({o.GetX(), o.GetY(), o.GetZ()})), DetectorDirection(R.detd(d))); bool near = false; for(auto & h : I.intersections) if(std::fabs(h.distance - back) < 1e-5 * R.S) near = true; if(near) continue;
        CHECK("sector_along", m.GetContainingSector(I, P).name == s->name, "got %s expected %s", m.GetContainingSector(I, P).name.c_str(), s->name.c_str()); CHECK("density_along", close(m.GetMassDensity(I, P), rho, tol, 0), "%g expected %g back %g %s", m.GetMassDensity(I, P), rho, back, show(R).c_str()); CHECK("interactions_along", close(m.GetInteractionDensity(I, P, x.t, x.s, x.L), ref, tol, 1e-300), "%g expected %g", m.GetInteractionDensity(I, P, x.t, x.s, x.L), ref); CHECK("targets_along", m.GetAvailableTargets(I, P) == cs, "%s", s->mat.c_str()); if(!x.t.empty()) CHECK("particles_along", close(m.GetParticleDensity(I, P, x.t[0]), rho * pf[0], tol, 0), "%g", rho * pf[0]); if(!x.t.empty()) { std::set<PT> ts(x.t.begin(), x.t.end()); CHECK("mass_of_targets_along", close(m.GetMassDensity(I, P, ts), rho * msum, tol, 1e-300) && close(m.GetMassDensity(I, P, x.t.begin(), x.t.end()), rho * msum, tol, 1e-300), " "); }
        seen("%s %s %d %d", R.shape.c_str(), s->inf ? "universe" : kname(s->s.kind), s->pr.kind, s->radial); } }
GROUP(P22, crossings, 1500, 40000) { Rng & r = c.r; Ref R = model(r); DetectorModel & m = *R.m; for(int k = 0; k < 6; ++k) { Line l = line(r, R); auto I = m.GetIntersections(DetectorPosition(R.det(l.o)), DetectorDirection(R.detd(l.d))); double e = 1e-6 * R.S + 1e-10 * l.len; auto & v = I.intersections; std::string w = rs(l) + " " + show(R);
        bool sorted = true; for(size_t i = 1; i < v.size(); ++i) sorted = sorted && v[i - 1].distance <= v[i].distance; CHECK("sorted", sorted, "%s", w.c_str());
        // each sector's crossings are all there, and nothing else; grazed solids (where the solid itself is undecided) are left out
        size_t total = 0; for(auto & s : R.v) if(!s.inf) { auto H = s.s.g->Intersections(vec(l.o), l.d); bool stable = true; for(int j = 0; j < 3; ++j) { Vector3D sh = rv(r, e); auto H2 = s.s.g->Intersections(vec(l.o) + sh, l.d); if(H2.size() != H.size()) stable = false; } std::vector<Geometry::Intersection> G; for(auto & h : v) if(h.hierarchy == s.level) G.push_back(h); total += G.size(); if(!stable) { obs("grazing"); continue; } bool ok = G.size() == H.size(); std::sort(H.begin(), H.end(), [](Geometry::Intersection const & a, Geometry::Intersection const & b) { return a.distance < b.distance; }); for(size_t i = 0; ok && i < H.size(); ++i) ok = std::fabs(H[i].distance - G[i].distance) <= e * 10 && H[i].entering == G[i].entering && G[i].matID == s.mat_id; CHECK("complete", ok, "%s has %zu of %zu crossings, %s", s.name.c_str(), G.size(), H.size(), w.c_str()); }
        CHECK("nothing_else", total + 2 == v.size(), "%zu of %zu %s", total, v.size(), w.c_str()); if(v.size() >= 2) CHECK("universe_outermost", v.front().hierarchy == std::numeric_limits<int>::min() && v.back().hierarchy == std::numeric_limits<int>::min() && v.front().distance == -INFINITY && v.back().distance == INFINITY && v.front().entering && !v.back().entering, "%s", w.c_str());
        auto B = m.GetOuterBounds(DetectorPosition(R.det(l.o)), DetectorDirection(R.detd(l.d))); if(v.size() <= 2) { CHECK("no_bounds", B.intersections.empty(), "%zu", B.intersections.size()); } else CHECK("bounds", B.intersections.size() == 2 && B.intersections[0].distance == v[1].distance && B.intersections[1].distance == v[v.size() - 2].distance, "%s", w.c_str());
        seen("%s %zu", R.shape.c_str(), std::min<size_t>(v.size(), 12)); obs("crossings", v.size()); } }
GROUP(P22, depths, 1500, 40000) { Rng & r = c.r; Ref R = model(r); DetectorModel & m = *R.m; for(int k = 0; k < 5; ++k) { Line l = line(r, R); double e = 1e-6 * R.S + 1e-10 * l.len; P3 q = along(l.o, l.d, l.len); Vector3D a = R.det(l.o), b = R.det({(double)q.x, (double)q.y, (double)q.z}); DetectorPosition A(a), B(b); Walk W = walk(R, l.o, l.d, 0, l.len, e); if(!W.sure) { obs("grazing"); continue; } std::string w = rs(l) + " " + show(R); Xs x = rxs(r, R.S);
        LD col = 0, dep = 0; double top = 0; std::vector<LD> pc(x.t.size(), 0); for(auto & p : W.p) { LD M = mass(*p.s, l.o, l.d, p.a, p.b); col += M; dep += M * 100 * comp(R, *p.s, x); auto f = R.m->GetMaterials().GetTargetParticleFraction(p.s->mat_id, x.t); for(size_t i = 0; i < f.size(); ++i) pc[i] += M * 100 * f[i]; for(double u : {0., 0.5, 1.}) top = std::max(top, p.s->rho(along(l.o, l.d, p.a + (p.b - p.a) * u))); } col *= 100; dep += l.len / x.L; double ctop = 0; for(auto & s : R.v) ctop = std::max(ctop, comp(R, s, x));
        double slack = (W.slop + W.p.size() * e * 2) * top * 100, tol = 2e-6; for(auto & p : W.p) if(p.s->radial && p.s->pr.kind >= 1) tol = 1e-3;   // integrated numerically by the library, to a tolerance it estimates itself
        double g = m.GetColumnDepthInCGS(A, B), g2 = m.GetColumnDepthInCGS(B, A); CHECK("column", close(g, (double)col, tol, slack), "%.17g expected %.17Lg (%zu pieces) %s", g, col, W.p.size(), w.c_str()); CHECK("either_way", close(g, g2, tol, slack), "%.17g %.17g %s", g, g2, w.c_str());
        double h = m.GetInteractionDepthInCGS(A, B, x.t, x.s, x.L), h2 = m.GetInteractionDepthInCGS(B, A, x.t, x.s, x.L); CHECK("interaction", close(h, (double)dep, tol, slack * ctop + e / x.L), "%.17g expected %.17Lg (%zu targets, L %g) %s", h, dep, x.t.size(), x.L, w.c_str()); CHECK("interaction_either_way", close(h, h2, tol, slack * ctop + e / x.L), "%.17g %.17g", h, h2);
        // with the crossings found from another point of the line, in either direction
        bool rev = r.coin(); double back = r.coin(0.2) ? 0 : R.S * r.u(-5, 5); P3 o2 = along(l.o, l.d, -back); auto I = m.GetIntersections(DetectorPosition(R.det(o2)), DetectorDirection(R.detd(rev ? -l.d : l.d))); double sl2 = slack * 4;
        CHECK("column_along", close(m.GetColumnDepthInCGS(I, A, B), (double)col, tol, sl2), "rev %d back %g: %.17g expected %.17Lg %s", rev, back, m.GetColumnDepthInCGS(I, A, B), col, w.c_str()); CHECK("interaction_along", close(m.GetInteractionDepthInCGS(I, A, B, x.t, x.s, x.L), (double)dep, tol, sl2 * ctop + e / x.L), "rev %d back %g", rev, back); auto P = m.GetParticleColumnDepth(I, A, B, x.t); bool ok = P.size() == x.t.size(); for(size_t i = 0; ok && i < P.size(); ++i) { double f = 0; for(auto & s : R.v) f = std::max(f, m.GetMaterials().GetTargetParticleFraction(s.mat_id, x.t[i])); ok = close(P[i], (double)pc[i], tol, sl2 * f); } CHECK("particles", ok, "%s", w.c_str());
        // additive
        LD mid = l.len * r.u(0.01, 0.99); P3 qm = along(l.o, l.d, mid); DetectorPosition C(R.det(qm)); CHECK("additive", close(m.GetColumnDepthInCGS(A, C) + m.GetColumnDepthInCGS(C, B), g, tol, slack), "%s", w.c_str());
        CHECK("nothing_to_itself", m.GetColumnDepthInCGS(A, A) == 0 && m.GetInteractionDepthInCGS(A, A, x.t, x.s, x.L) == 0, " ");
        std::string kinds; for(auto & p : W.p) kinds += p.s->inf ? 'u' : char('a' + p.s->pr.kind); seen("%s %s %zu %d", R.shape.c_str(), kinds.substr(0, 6).c_str(), x.t.size(), std::isfinite(x.L)); obs("pieces", W.p.size()); } }
// how far to go: the depth over the distance returned is the depth asked for
GROUP(P22, inverse, 1500, 40000) { Rng & r = c.r; Ref R = model(r); DetectorModel & m = *R.m; for(int k = 0; k < 5; ++k) { Line l = line(r, R); double e = 1e-6 * R.S + 1e-10 * l.len; Vector3D a = R.det(l.o), dd = R.detd(l.d); DetectorPosition A(a); DetectorDirection D(dd); Walk W = walk(R, l.o, l.d, 0, l.len, e); if(!W.sure || W.p.empty()) { obs("grazing"); continue; } Xs x = rxs(r, R.S); std::string w = rs(l) + " " + show(R);
        auto upto = [&](LD t, LD & col, LD & dep) { col = dep = 0; for(auto & p : W.p) { if(p.a >= t) break; LD b = std::min(p.b, t); LD M = mass(*p.s, l.o, l.d, p.a, b); col += M * 100; dep += M * 100 * comp(R, *p.s, x) + (b - p.a) / x.L; } }; LD cT, dT; upto(l.len, cT, dT); LD t = l.len * r.u(0.02, 0.98), cX, dX; upto(t, cX, dX); double top = 0, ctop = 0; for(auto & p : W.p) { for(double u : {0., 0.5, 1.}) top = std::max(top, p.s->rho(along(l.o, l.d, p.a + (p.b - p.a) * u))); ctop = std::max(ctop, comp(R, *p.s, x)); }
        double slack = (W.slop + W.p.size() * e * 2) * top * 100; bool rev = r.coin(); double back = R.S * r.u(-5, 5); auto I = m.GetIntersections(DetectorPosition(R.det(along(l.o, l.d, -back))), DetectorDirection(rev ? -dd : dd)); auto back_to = [&](double dist, bool column) { LD cc, dp; upto(std::min((LD)dist, (LD)l.len), cc, dp); return column ? cc : dp; };
        double num = 1e-5; for(auto & p : W.p) if(p.s->radial && p.s->pr.kind >= 1) num = 1e-3; auto judge = [&](char const * mon_, double dist, bool column) { LD want = column ? cX : dX, got = back_to(dist, column); double tol = num * (double)want + slack * (column ? 1 : ctop) + (column || !std::isfinite(x.L) ? 0 : e / x.L); CHECK(mon_, dist >= 0 && std::isfinite(dist) && fabsl(got - want) <= tol, "went %.17g for %.17Lg: %.17Lg (there at %.17Lg of %.17g, targets %zu L %g, rev %d back %g) %s", dist, want, got, t, l.len, x.t.size(), x.L, rev, back, w.c_str()); };
        LD here = 0; for(auto & p : W.p) if(p.a < t && p.b >= t) here = p.s->rho(along(l.o, l.d, t)); if(cX > 1e-3 * cT && here * 100 * l.len > 1e-9 * cX /* likewise past the last matter */) { judge("column_from", m.DistanceForColumnDepthFromPoint(A, D, (double)cX), true); judge("column_to", m.DistanceForColumnDepthToPoint(A, DetectorDirection(-dd), (double)cX), true); judge("column_from_along", m.DistanceForColumnDepthFromPoint(I, A, D, (double)cX), true); judge("column_to_along", m.DistanceForColumnDepthToPoint(I, A, DetectorDirection(-dd), (double)cX), true); double n = m.DistanceForColumnDepthFromPoint(A, DetectorDirection(-dd), -(double)cX); judge("column_negative", -n, true); }
        LD rate = 0; for(auto & p : W.p) if(p.a < t && p.b >= t) rate = p.s->rho(along(l.o, l.d, t)) * 100 * comp(R, *p.s, x) + 1 / x.L; /* past the last target no further interaction can be asked for */ if(dX > 1e-3 * dT && dT > 1e-18 && rate * l.len > 1e-9 * dX) { judge("interaction_from", m.DistanceForInteractionDepthFromPoint(A, D, (double)dX, x.t, x.s, x.L), false); judge("interaction_to", m.DistanceForInteractionDepthToPoint(A, DetectorDirection(-dd), (double)dX, x.t, x.s, x.L), false); judge("interaction_from_along", m.DistanceForInteractionDepthFromPoint(I, A, D, (double)dX, x.t, x.s, x.L), false); judge("interaction_to_along", m.DistanceForInteractionDepthToPoint(I, A, DetectorDirection(-dd), (double)dX, x.t, x.s, x.L), false); judge("interaction_negative", -m.DistanceForInteractionDepthFromPoint(A, DetectorDirection(-dd), -(double)dX, x.t, x.s, x.L), false); }
        CHECK("nowhere_for_nothing", m.DistanceForColumnDepthFromPoint(A, D, 0) == 0, "%g", m.DistanceForColumnDepthFromPoint(A, D, 0));
        std::string kinds; for(auto & p : W.p) kinds += p.s->inf ? 'u' : char('a' + p.s->pr.kind); seen("%s %s %zu %d %d", R.shape.c_str(), kinds.substr(0, 5).c_str(), x.t.size(), std::isfinite(x.L), rev); } }
MON_MAIN
