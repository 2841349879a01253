// Where interactions are placed: samples, densities and bounds of the position distributions agree with the detector (P24).
#include "vertexref.h"
enum { C_POINT, C_COLUMN, C_RANGE, C_DECAYRANGE, C_TARGET, C_PBOUND, C_PPHYS, C_SBOUND, C_SPHYS, C_N };
static char const * CN[] = {"PointSource", "ColumnDepth", "Range", "DecayRange", "FixedTarget", "PrimaryBounded", "PrimaryPhysical", "SecondaryBounded", "SecondaryPhysical"};
GROUP(P24, along_lines, 4000, 60000) { Rng & r = c.r; Ref R = model(r, 5); for(int k = 0; k < 20 && !tame(R); ++k) R = model(r, 5); if(!tame(R)) return; double S = R.S; int k = (int)r.i(C_N); bool empty = r.coin(0.05); Prim q = rprim(r); if(k == C_DECAYRANGE && q.m == 0) { q.type = PT::N4; q.m = r.lu(1e-3, 2); q.E = std::sqrt(q.p * q.p + q.m * q.m); } Inter I = rinter(r, R, q, empty); Xs const & x = I.x; Rnd rnd = std::make_shared<siren::utilities::SIREN_random>((unsigned)(r.next() % 4000000000u));
    P3 aim = spot(r, R); Vector3D ad = R.det(aim); LD back = S * r.lu(0.01, r.coin(0.2) ? 300 : 5); Vector3D start = ad - q.d * (double)back; double maxlen = r.coin(0.4) ? INFINITY : (double)back * r.u(0.3, 1.3) + S * r.u(0.1, 2); if(k == C_POINT && std::isinf(maxlen)) maxlen = (double)back + S * 10;
    Solid fid; bool hasfid = (k == C_TARGET || k == C_PBOUND || k == C_SBOUND) && r.coin(0.6); if(hasfid) { fid = make(r, (int)r.i(K_NK), S * r.lu(0.1, 1)); fid.g = fid.g->create(); Quaternion fq; fq.SetAxisAngle(rv(r, 1), r.u(-M_PI, M_PI)); Placement fp(ad + rv(r, fid.size * r.u(0, 0.6)), fq); fid.g->SetPlacement(fp); fid.pl = fp; }
    // disks and cylinders stand at the detector's origin or where the particle starts
    double rad = S * r.lu(0.01, 1), cap = S * r.lu(0.1, 5), ext = 0, lam = 0; Vector3D shift(0, 0, 0); VD v; SVD sv; siren::geometry::Cylinder cyl; auto fg = hasfid ? fid.g : std::shared_ptr<siren::geometry::Geometry>();
    if(k == C_POINT) v = std::make_shared<sd::PointSourcePositionDistribution>(start, maxlen);
    else if(k == C_COLUMN) { auto f = std::make_shared<MyDepth>(S * r.lu(0.1, 1e4)); ext = (*f)(q.type, q.E); v = std::make_shared<sd::ColumnDepthPositionDistribution>(rad, cap, f); }
    else if(k == C_RANGE) { auto f = std::make_shared<MyRange>(S * r.lu(0.01, 3)); ext = (*f)(q.type, q.E); v = std::make_shared<sd::RangePositionDistribution>(rad, cap, f, std::set<PT>(x.t.begin(), x.t.end())); }
    else if(k == C_DECAYRANGE) { lam = S * r.lu(0.03, r.coin(0.2) ? 1e10 : 100); double G = q.p / q.m * 1.973269804593025e-16 / lam, mu = r.u(0.1, 4), mx = r.coin() ? INFINITY : lam * r.u(0.1, 4); auto f = std::make_shared<sd::DecayRangeFunction>(q.m, G, mu, mx); ext = std::min(lam * mu, mx); v = std::make_shared<sd::DecayRangePositionDistribution>(rad, cap, f); }
    else if(k == C_TARGET) { Quaternion cq; cq.SetAxisAngle(rv(r, 1), r.u(-M_PI, M_PI)); Placement pl(start, cq); double h = S * r.lu(0.02, 0.5), ri = r.coin() ? 0 : rad * r.u(0.1, 0.9); cyl = r.coin(0.3) ? siren::geometry::Cylinder(pl, rad, ri, h, r.u(-3, 3), r.u(0.5, 6)) : siren::geometry::Cylinder(pl, rad, ri, h); v = hasfid ? (std::isinf(maxlen) && r.coin() ? std::make_shared<sd::FixedTargetPositionDistribution>(cyl, fg) : std::make_shared<sd::FixedTargetPositionDistribution>(cyl, fg, maxlen)) : std::make_shared<sd::FixedTargetPositionDistribution>(cyl, maxlen); }
    else if(k == C_PBOUND) v = hasfid ? (std::isinf(maxlen) && r.coin() ? std::make_shared<sd::PrimaryBoundedVertexDistribution>(fg) : std::make_shared<sd::PrimaryBoundedVertexDistribution>(fg, maxlen)) : std::isinf(maxlen) ? std::make_shared<sd::PrimaryBoundedVertexDistribution>() : std::make_shared<sd::PrimaryBoundedVertexDistribution>(maxlen);
    else if(k == C_PPHYS) { maxlen = INFINITY; v = std::make_shared<sd::PrimaryPhysicalVertexDistribution>(); }
    else if(k == C_SBOUND) sv = hasfid ? (std::isinf(maxlen) && r.coin() ? std::make_shared<sd::SecondaryBoundedVertexDistribution>(fg) : std::make_shared<sd::SecondaryBoundedVertexDistribution>(fg, maxlen)) : std::isinf(maxlen) ? std::make_shared<sd::SecondaryBoundedVertexDistribution>() : std::make_shared<sd::SecondaryBoundedVertexDistribution>(maxlen);
    else { maxlen = INFINITY; sv = std::make_shared<sd::SecondaryPhysicalVertexDistribution>(); }
    if(r.coin(0.3)) { if(v) v = std::dynamic_pointer_cast<sd::VertexPositionDistribution>(v->clone()); else sv = std::dynamic_pointer_cast<sd::SecondaryVertexPositionDistribution>(sv->clone()); }
    bool disk = k == C_COLUMN || k == C_RANGE || k == C_DECAYRANGE; std::shared_ptr<DetectorModel const> M = R.m; std::string tag = mon::fmt("%s in %s, %zu targets, decay length %g", CN[k], R.shape.c_str(), x.t.size(), x.L);
    P3 zero{0, 0, 0}; auto world = [&](Vector3D const & p) { return R.geo(p); }; (void)zero; P3 w0 = world(start), w1 = world(start + q.d); Vector3D wd((double)(w1.x - w0.x), (double)(w1.y - w0.y), (double)(w1.z - w0.z)); wd.normalize();
    int n = c.thorough ? 24 : 16; if(disk && r.coin(0.8)) { /* move the detector so that the disk is where the matter is */ R.m->SetDetectorOrigin(GeometryPosition(vec(aim))); R.org = vec(aim); w0 = world(start); }
    for(int it = 0; it < n; ++it) { Vector3D init, vx; bool failed = false; std::string err; InteractionRecord out;
        try { if(v) { auto p = prec(q); if(k == C_PBOUND || k == C_PPHYS) p.SetInitialPosition({start.GetX(), start.GetY(), start.GetZ()}); v->Sample(rnd, M, I.c, p); auto a = p.GetInitialPosition(), b = p.GetInteractionVertex(); init = Vector3D(a); vx = Vector3D(b); p.Finalize(out); }
            else { InteractionRecord par; par.signature.primary_type = PT::NuMu; par.signature.secondary_types = {PT::NuE, q.type}; par.interaction_vertex = {start.GetX(), start.GetY(), start.GetZ()}; par.secondary_ids.resize(2); par.secondary_masses = {0, q.m}; par.secondary_helicities = {0, 0}; par.secondary_momenta = {{1, 0, 0, 1}, {q.E, q.p * q.d.GetX(), q.p * q.d.GetY(), q.p * q.d.GetZ()}}; sc::SecondaryDistributionRecord s(par, 1); sv->Sample(rnd, M, I.c, s); double len = s.GetLength(); init = start; vx = start + q.d * len; s.Finalize(out); } }
        catch(siren::utilities::InjectionFailure const & e) { failed = true; } catch(std::exception const & e) { failed = true; err = e.what(); }
        CHECK("only-injection-failures", err.empty(), "%s: sampling gives up with \"%s\" instead of an injection failure", tag.c_str(), err.c_str()); if(!err.empty()) return;
        // the line the vertex has to be on, and the stretch of it
        Vector3D o = start; LD bk = 0, len = maxlen; if(disk) { if(failed) { obs("failed on a disk"); continue; } Vector3D pca = vx - q.d * scalar_product(q.d, vx); o = pca - q.d * cap; len = 2 * cap; bk = ext; CHECK("on-disk", pca.magnitude() <= rad * (1 + 1e-9) + 1e-9 * (S + vx.magnitude()), "%s: passes the origin at %.9g, more than %.9g", tag.c_str(), pca.magnitude(), rad); }
        std::vector<LD> ch; if(k == C_TARGET) { if(failed) { obs("failed behind a target"); continue; } LD mx = -INFINITY; for(auto & h : cyl.Intersections(vx, q.d)) { ch.push_back(h.distance); mx = std::max(mx, (LD)h.distance); } std::sort(ch.begin(), ch.end()); CHECK("from-target", ch.size() >= 2, "%s: the particle does not come from the target", tag.c_str()); if(ch.size() < 2) return; Vector3D il = cyl.GlobalToLocalPosition(init); double rr = std::hypot(il.GetX(), il.GetY()); double ph = std::atan2(il.GetY(), il.GetX()) - cyl.GetStartPhi(); ph -= 2 * M_PI * std::floor(ph / (2 * M_PI)); double t = 1e-9 * (S + start.magnitude()); CHECK("starts-in-target", rr <= cyl.GetRadius() + t && rr >= cyl.GetInnerRadius() - t && std::fabs(il.GetZ()) <= cyl.GetZ() / 2 + t && (ph <= cyl.GetDeltaPhi() + t / rr || ph >= 2 * M_PI - t / rr), "%s: starts at r %g of %g..%g, z %g of %g, azimuth %g of %g in the target", tag.c_str(), rr, cyl.GetInnerRadius(), cyl.GetRadius(), il.GetZ(), cyl.GetZ(), ph, cyl.GetDeltaPhi()); double ri2 = cyl.GetInnerRadius() * cyl.GetInnerRadius(), ro2 = cyl.GetRadius() * cyl.GetRadius(); pit("FixedTarget", "radius", fr((rr * rr - ri2) / (ro2 - ri2))); pit("FixedTarget", "height", fr(il.GetZ() / cyl.GetZ() + 0.5)); pit("FixedTarget", "azimuth", fr(ph / cyl.GetDeltaPhi())); o = vx + q.d * (double)mx; Vector3D off = vx - init; CHECK("on-line", (off - q.d * scalar_product(off, q.d)).magnitude() <= 1e-9 * (S + vx.magnitude() + off.magnitude()), "%s: vertex off the line by %g", tag.c_str(), (off - q.d * scalar_product(off, q.d)).magnitude()); }
        P3 wo = world(o); LD bb = bk; if(k == C_COLUMN) { /* as far back as the column depth asks for */ Vector3D far = init - o; bb = -scalar_product(far, q.d); if(bb < 0) bb = 0; }
        Stretch g = region(R, wo, wd, (k == C_COLUMN && bb > 0) ? 1e9 * S : bb, len, hasfid ? &fid : nullptr, o, q.d); if(g.unsure) { obs("bounds too close to an end"); continue; } if(k == C_COLUMN && bb > 0) { LD lo = g.a; Q z{&R, nullptr, {along(wo, wd, -bb), wd, bb, false}, "", numeric(R)}; double got = z.col(0, bb), t = z.slack(0, bb, nullptr) + (z.num ? 4e-3 : 2e-5) * ext; bool all = fabsl(-bb - lo) <= 1e-5 * S + 1e-8 * bb; if(all) CHECK("back-by-depth", got <= ext + t, "%s: starts %.12Lg further back, over a depth of %.12g, more than %.12g (+-%.3g)", tag.c_str(), bb, got, ext, t); else CHECK("back-by-depth", std::fabs(got - ext) <= t, "%s: starts %.12Lg further back, over a depth of %.12g instead of %.12g (+-%.3g)", tag.c_str(), bb, got, ext, t); g.a = std::max(lo, -bb); g.none = !(g.b > g.a); }
        St st{along(wo, wd, g.a), wd, g.b - g.a, false}; Q z{&R, nullptr, st, "", numeric(R)}; if(g.none) { CHECK("nothing-there", failed, "%s: nothing of the line is within reach, but a vertex was placed", tag.c_str()); seen("%s nothing there", CN[k]); InteractionRecord rec = irec(q, start, start + q.d * (S * r.u(0.1, 3))); double gp = v ? v->GenerationProbability(M, I.c, rec) : sv->GenerationProbability(M, I.c, rec); CHECK("no-density-where-nothing", gp == 0, "%s: density %g though nothing can be placed", tag.c_str(), gp); break; }
        if(!::sure(R, st)) { obs("grazing"); break; } double T = k == C_DECAYRANGE ? (double)(st.L / lam) : z.dep(0, st.L, x), sT = k == C_DECAYRANGE ? 1e-6 * T + (1e-5 * S + 10 * z.tp()) / lam : z.slack(0, st.L, &x);
        if(failed) { CHECK("fails-only-without-interactions", T <= sT, "%s: no vertex was placed though the depth is %g (+-%g)", tag.c_str(), T, sT); if(T == 0) { InteractionRecord rec = irec(q, start, R.det(along(st.f, wd, st.L * 0.4))); double gp = v ? v->GenerationProbability(M, I.c, rec) : sv->GenerationProbability(M, I.c, rec); CHECK("no-density-without-interactions", gp == 0, "%s: density %g though nothing interacts", tag.c_str(), gp); } seen("%s failed", CN[k]); break; }
        CHECK("no-vertex-without-interactions", T > 0 || sT > 0, "%s: a vertex was placed though nothing interacts", tag.c_str());
        CHECK("finite-vertex", std::isfinite(vx.GetX()) && std::isfinite(vx.GetY()) && std::isfinite(vx.GetZ()), "%s: vertex at %g %g %g (depth %g)", tag.c_str(), vx.GetX(), vx.GetY(), vx.GetZ(), T); if(!std::isfinite(vx.magnitude())) return;
        double e = 1e-5 * S + 10 * z.tp() + 1e-8 * vx.magnitude() + (double)(2e-15L * bb); /* where the line grazes what bounds it, its rounding moves the ends */ if(bb == bk) { double mag = S + vx.magnitude() + sqrt((double)(wo.x * wo.x + wo.y * wo.y + wo.z * wo.z)); for(int dir = 0; dir < 3; ++dir) for(int sg = -1; sg < 2; sg += 2) { Vector3D sh(dir == 0, dir == 1, dir == 2); sh = sh * (sg * 1e-10 * mag); P3 w2{wo.x + sh.GetX(), wo.y + sh.GetY(), wo.z + sh.GetZ()}; Stretch g2 = region(R, w2, wd, bb, len, hasfid ? &fid : nullptr, o + sh, q.d); if(g2.none || g2.unsure) { e = INFINITY; continue; } e = std::max(e, 10 * (double)std::max(fabsl(g2.a - g.a), fabsl(g2.b - g.b))); } } if(!std::isfinite(e)) { obs("grazing"); continue; } Vector3D rel = vx - o; LD t = scalar_product(rel, q.d) - g.a; CHECK("on-line", (rel - q.d * scalar_product(rel, q.d)).magnitude() <= e, "%s: vertex off the line by %g", tag.c_str(), (rel - q.d * scalar_product(rel, q.d)).magnitude());
        CHECK("within-stretch", t >= -e && t <= st.L + e, "%s: vertex at %.12Lg of 0..%.12Lg", tag.c_str(), t, st.L); if(t < -e || t > st.L + e) return; t = std::min(std::max(t, (LD)0), st.L);
        Vector3D first = o + q.d * (double)g.a, last = o + q.d * (double)g.b; Vector3D wi = k == C_TARGET ? init : (k == C_PBOUND || k == C_PPHYS || sv) ? start : first; CHECK("initial-position", v3(init, wi, e), "%s: starts %g away from where it should (S %g e %g r %g back %g cap %g vx %g ga %.12Lg gb %.12Lg)", tag.c_str(), (init - wi).magnitude(), S, e, rad, (double)bb, cap, vx.magnitude(), g.a, g.b);
        // what the record says afterwards
        Vector3D ov(out.interaction_vertex), oi(out.primary_initial_position); CHECK("record", v3(ov, vx, e) && v3(oi, init, e) && close(out.primary_momentum[0], q.E, 1e-9, 0), "%s: vertex and initial position of the record", tag.c_str());
        InteractionRecord rec = irec(q, init, vx); auto B = v ? v->InjectionBounds(M, I.c, rec) : sv->InjectionBounds(M, I.c, rec); CHECK("bounds", v3(std::get<0>(B), first, e) && v3(std::get<1>(B), last, e), "%s: bounds off by %g and %g (vertex %.9Lg of %.9Lg)", tag.c_str(), (std::get<0>(B) - first).magnitude(), (std::get<1>(B) - last).magnitude(), t, st.L);
        // the distribution of the samples
        if(k == C_DECAYRANGE) { double a = (double)(t / lam); pit(CN[k], "distance", T < 1e-6 ? fr(t / st.L) : fr(std::expm1(-a) / std::expm1(-T))); } else { double a = z.dep(0, t, x); if(T > 100 * sT) pit(CN[k], "depth", T < 1e-9 ? fr(a / T) : fr(std::expm1(-a) / std::expm1(-T))); }
        // the density, at the vertex and elsewhere on the stretch
        for(int j = 0; j < 3; ++j) { LD u = j == 0 ? t : st.L * r.u(0.001, 0.999); Vector3D y = o + q.d * (double)(g.a + u); P3 wy = world(y); if(!R.clear(wy, 1e-5 * S + 1e-9 * (double)z.tp()) || u < 10 * e || u > st.L - 10 * e) continue; InteractionRecord ry = irec(q, k == C_TARGET ? y : init, y); double gp = v ? v->GenerationProbability(M, I.c, ry) : sv->GenerationProbability(M, I.c, ry), a, su, rho; if(k == C_DECAYRANGE) { a = (double)(u / lam); su = (double)(e / lam); rho = 1 / lam; } else { a = z.dep(0, u, x); su = z.slack(0, u, &x); rho = R.m->GetInteractionDensity(DetectorPosition(y), x.t, x.s, x.L); } if(sT > 0.05 * T || su > 0.05) continue; double want = rho * std::exp(-a) / -std::expm1(-T); if(disk) want /= M_PI * rad * rad; if(k == C_TARGET) { LD chord = 0; for(size_t h = 0; h + 1 < ch.size(); h += 2) chord += ch[h + 1] - ch[h]; want *= (double)chord / (cyl.GetDeltaPhi() / 2 * (cyl.GetRadius() * cyl.GetRadius() - cyl.GetInnerRadius() * cyl.GetInnerRadius()) * cyl.GetZ()); } double tol = (z.num ? 5e-3 : 1e-5) + 2 * sT / T + 2 * su; CHECK("density", std::isfinite(gp) && std::fabs(gp - want) <= tol * want + 1e-290, "%s: density %.12g, expected %.12g (+-%.2g of it) at %.9Lg of %.9Lg, depth %.9g of %.9g", tag.c_str(), gp, want, tol, u, st.L, a, T); obs("densities"); }
        // nowhere else
        { LD u = r.coin() ? st.L + 0.002 + e * 20 + S * r.lu(1e-3, 3) : -0.002 - e * 20 - S * r.lu(1e-3, 3); Vector3D y = o + q.d * (double)(g.a + u); InteractionRecord ry = irec(q, init, y); bool judge = k != C_TARGET || u > 0; if(judge) { double gp = v ? v->GenerationProbability(M, I.c, ry) : sv->GenerationProbability(M, I.c, ry); CHECK("density-outside", gp == 0, "%s: density %g at %.9Lg of 0..%.9Lg", tag.c_str(), gp, u, st.L); }
            if(disk || k == C_TARGET) { Vector3D s = cross_product(q.d, rv(r, 1)); if(s.magnitude() > 1e-3) { s.normalize(); Vector3D yy = k == C_TARGET ? vx + s * (S * 10 + vx.magnitude() + start.magnitude()) * r.u(1, 3) : vx - q.d * 0.0 - (vx - q.d * scalar_product(vx, q.d)) + s * (rad * r.u(1.01, 5)); InteractionRecord rz = irec(q, init, yy); double gp = v->GenerationProbability(M, I.c, rz); CHECK("density-beside", gp == 0, "%s: density %g beside the %s", tag.c_str(), gp, disk ? "disk" : "target"); auto bz = v->InjectionBounds(M, I.c, rz); CHECK("bounds-beside", v3(std::get<0>(bz), std::get<1>(bz), 0), "%s: bounds beside the disk or target", tag.c_str()); } } }
        seen("%s %s fid %d open %d depth 1e%d targets %zu decays %d", CN[k], R.shape.c_str(), hasfid, std::isinf(maxlen), T > 0 ? (int)std::floor(std::log10(T)) : -999, x.t.size(), std::isfinite(x.L)); } }
// positions spread evenly over volumes and disks
static double wrap(double a, double s) { a -= s; a -= 2 * M_PI * std::floor(a / (2 * M_PI)); return a; }
GROUP(P24, volumes, 4000, 80000) { Rng & r = c.r; int k = (int)r.i(5); static char const * N[] = {"CylinderVolume", "SphereVolume", "ColumnDepth", "Range", "DecayRange"}; double S = r.lu(1, 1e4); Prim q = rprim(r); if(k == 4 && q.m == 0) { q.type = PT::N4; q.m = r.lu(1e-3, 2); q.E = std::sqrt(q.p * q.p + q.m * q.m); } auto m = std::make_shared<DetectorModel>(); MaterialModel mats = m->GetMaterials(); for(auto & x : MATS) mats.AddMaterial(x.first, x.second); m->SetMaterials(mats); DetectorSector sec; sec.name = "all"; sec.level = 0; sec.material_id = m->GetMaterials().GetMaterialId("ICE"); sec.geo = std::make_shared<Sphere>(Placement(), 20 * S, 0); sec.density = std::make_shared<ConstantDensityDistribution>(0.9); m->AddSector(sec); std::shared_ptr<DetectorModel const> M = m; Rnd rnd = std::make_shared<siren::utilities::SIREN_random>((unsigned)(r.next() % 4000000000u));
    auto xs = std::make_shared<MyXs>(); xs->prim = q.type; xs->s[PT::O16Nucleus] = {1e-27 / S * r.lu(1e-6, 1)}; ICP I = std::make_shared<si::InteractionCollection>(q.type, std::vector<std::shared_ptr<si::CrossSection>>{xs}, std::vector<std::shared_ptr<si::Decay>>{}); Placement pl; if(r.coin(0.7)) { Quaternion z; z.SetAxisAngle(rv(r, 1), r.u(-M_PI, M_PI)); pl = Placement(rv(r, S * r.lu(0.1, 5)), r.coin() ? z : Quaternion()); } bool cut = r.coin(0.4); double ro = S * r.u(0.1, 1), ri = r.coin() ? 0 : ro * r.u(0.05, 0.95), h = S * r.lu(0.01, 2), p0 = cut ? r.u(-4, 7) : 0, dp = cut ? r.u(0.1, 6.2) : 2 * M_PI, t0 = 0, dt = M_PI; if(k == 1 && cut && r.coin()) { t0 = r.u(0, 2.5); dt = r.u(0.1, M_PI - t0); }
    VD v; std::shared_ptr<Geometry> G; if(k == 0) { Cylinder y = cut ? Cylinder(pl, ro, ri, h, p0, dp) : Cylinder(pl, ro, ri, h); G = y.create(); v = std::make_shared<sd::CylinderVolumePositionDistribution>(y); } else if(k == 1) { Sphere y = cut ? Sphere(pl, ro, ri, p0, dp, t0, dt) : Sphere(pl, ro, ri); G = y.create(); v = std::make_shared<sd::SphereVolumePositionDistribution>(y); } else if(k == 2) v = std::make_shared<sd::ColumnDepthPositionDistribution>(ro, h, std::make_shared<MyDepth>(h)); else if(k == 3) v = std::make_shared<sd::RangePositionDistribution>(ro, h, std::make_shared<MyRange>(h), std::set<PT>{PT::O16Nucleus}); else v = std::make_shared<sd::DecayRangePositionDistribution>(ro, h, std::make_shared<sd::DecayRangeFunction>(q.m, q.p / q.m * 1.973269804593025e-16 / S, 1., S));
    if(r.coin(0.3)) v = std::dynamic_pointer_cast<sd::VertexPositionDistribution>(v->clone()); double vol = k == 0 ? dp / 2 * (ro * ro - ri * ri) * h : k == 1 ? dp * (std::cos(t0) - std::cos(t0 + dt)) * (ro * ro * ro - ri * ri * ri) / 3 : 0; double e = 1e-9 * (S + pl.GetPosition().magnitude()); std::string tag = mon::fmt("%s r %g..%g h %g azimuth %g+%g polar %g+%g", N[k], ri, ro, h, p0, dp, t0, dt);
    for(int it = 0; it < 8; ++it) { auto p = prec(q); v->Sample(rnd, M, I, p); Vector3D x(p.GetInteractionVertex()), i(p.GetInitialPosition());
        if(k >= 2) { Vector3D pca = x - q.d * scalar_product(q.d, x); Vector3D a = cross_product(std::fabs(q.d.GetZ()) < 0.9 ? Vector3D(0, 0, 1) : Vector3D(1, 0, 0), q.d); a.normalize(); Vector3D b = cross_product(q.d, a); double ph = std::atan2(scalar_product(pca, b), scalar_product(pca, a)); pit(N[k], "disk radius", fr(scalar_product(pca, pca) / (ro * ro))); pit(N[k], "disk azimuth", fr(wrap(ph, 0) / (2 * M_PI))); continue; }
        P3 y = tolocal(pl, {x.GetX(), x.GetY(), x.GetZ()}); double X = (double)y.x, Y = (double)y.y, Z = (double)y.z, rr = k == 0 ? std::hypot(X, Y) : std::sqrt(X * X + Y * Y + Z * Z), ph = wrap(std::atan2(Y, X), p0), th = std::acos(std::min(1., std::max(-1., Z / rr))); double rxy = std::hypot(X, Y) + 1e-300; bool pin = dp > 6.283 || ph <= dp + e / rxy || ph >= 2 * M_PI - e / rxy; if(ph > 2 * M_PI - e / rxy) ph = 0;
        CHECK("in-volume", rr <= ro + e && rr >= ri - e && pin && (k == 0 ? std::fabs(Z) <= h / 2 + e : th >= t0 - e / rr && th <= t0 + dt + e / rr), "%s: vertex at r %g z %g azimuth %g polar %g", tag.c_str(), rr, Z, ph, th);
        pit(N[k], "azimuth", fr(ph / dp)); if(k == 0) { pit(N[k], "radius", fr((rr * rr - ri * ri) / (ro * ro - ri * ri))); pit(N[k], "height", fr(Z / h + 0.5)); } else { pit(N[k], "radius", fr((rr * rr * rr - ri * ri * ri) / (ro * ro * ro - ri * ri * ri))); pit(N[k], "polar angle", fr((std::cos(t0) - std::cos(th)) / (std::cos(t0) - std::cos(t0 + dt)))); }
        // an even density within, none outside
        auto H = G->Intersections(x, q.d); LD f = INFINITY, l = -INFINITY; for(auto & z : H) { f = std::min(f, (LD)z.distance); l = std::max(l, (LD)z.distance); } InteractionRecord rec = irec(q, i, x); bool edge = rr > ro - 10 * e || (ri > 0 && rr < ri + 10 * e) || (k == 0 && std::fabs(Z) > h / 2 - 10 * e) || (dp < 6.283 && (ph * rxy < 10 * e || (dp - ph) * rxy < 10 * e)) || (k == 1 && ((th - t0) * rr < 10 * e || (t0 + dt - th) * rr < 10 * e)); if(edge) continue; double g = v->GenerationProbability(M, I, rec); CHECK("even-density", close(g, 1 / vol, 1e-9, 0), "%s: density %.12g, expected %.12g", tag.c_str(), g, 1 / vol);
        if(l > f) { auto B = v->InjectionBounds(M, I, rec); double be = 1e-6 * S; CHECK("volume-bounds", v3(std::get<0>(B), x + q.d * (double)f, be) && v3(std::get<1>(B), x + q.d * (double)l, be), "%s: bounds off by %g and %g", tag.c_str(), (std::get<0>(B) - x - q.d * (double)f).magnitude(), (std::get<1>(B) - x - q.d * (double)l).magnitude()); CHECK("volume-start", v3(i, x + q.d * (double)f, be), "%s: starts %g from where the line enters", tag.c_str(), (i - x - q.d * (double)f).magnitude()); }
        // anywhere: the density follows the volume
        double s = r.u(0, 1.3); Vector3D w = pl.GetPosition() + rv(r, ro * s * (k == 0 ? 1.2 : 1)); P3 z = tolocal(pl, {w.GetX(), w.GetY(), w.GetZ()}); X = (double)z.x; Y = (double)z.y; Z = (double)z.z; rr = k == 0 ? std::hypot(X, Y) : std::sqrt(X * X + Y * Y + Z * Z); ph = wrap(std::atan2(Y, X), p0); th = std::acos(std::min(1., std::max(-1., Z / rr))); rxy = std::hypot(X, Y) + 1e-300; edge = std::fabs(rr - ro) < 10 * e || std::fabs(rr - ri) < 10 * e || (k == 0 && std::fabs(std::fabs(Z) - h / 2) < 10 * e) || (dp < 6.283 && (ph * rxy < 10 * e || (2 * M_PI - ph) * rxy < 10 * e || std::fabs(dp - ph) * rxy < 10 * e)) || (k == 1 && (std::fabs(th - t0) * rr < 10 * e || std::fabs(t0 + dt - th) * rr < 10 * e)); if(edge) continue; bool in = rr < ro && rr > ri && (dp > 6.283 || ph < dp) && (k == 0 ? std::fabs(Z) < h / 2 : th >= t0 && th <= t0 + dt); g = v->GenerationProbability(M, I, irec(q, w, w)); CHECK("density-follows-volume", close(g, in ? 1 / vol : 0., 1e-9, 0), "%s: density %.12g, expected %.12g at r %g z %g azimuth %g polar %g", tag.c_str(), g, in ? 1 / vol : 0., rr, Z, ph, th); seen("%s in %d hollow %d wedge %d polar %d", N[k], in, ri > 0, cut, t0 > 0); } }
// equal only when every parameter is, and ordered like numbers
GROUP(P24, compare, 400, 8000) { Rng & r = c.r; struct V { std::shared_ptr<sd::WeightableDistribution> d; std::vector<double> key; }; std::vector<V> vs; int k = (int)r.i(9); double S = 10; auto val = [&]() { return r.pick({1., 2., 3.}); }; std::vector<std::shared_ptr<Geometry>> fids = {nullptr, std::make_shared<Box>(1., 1., 1.), std::make_shared<Box>(1., 2., 1.), std::make_shared<Box>(Placement(Vector3D(1, 0, 0)), 1., 1., 1.), std::make_shared<Sphere>(1., 0.)}; (void)S;
    int n = 6; for(int i = 0; i < n; ++i) { double a = val(), b = val(), d = val(), e = val(); int f = (int)r.i(fids.size()); auto fg = fids[f] ? fids[f]->create() : nullptr; V v; switch(k) {
        case 0: v.d = std::make_shared<sd::PointSourcePositionDistribution>(Vector3D(a, b, 0), d); v.key = {a, b, d}; break;
        case 1: v.d = std::make_shared<sd::ColumnDepthPositionDistribution>(a, b, std::make_shared<MyDepth>(d)); v.key = {a, b, d}; break;
        case 2: { std::set<PT> t; if(e > 1) t.insert(PT::O16Nucleus); if(e > 2) t.insert(PT::HNucleus); v.d = std::make_shared<sd::RangePositionDistribution>(a, b, std::make_shared<MyRange>(d), t); v.key = {a, b, d, e}; break; }
        case 3: { double g = val(), h = val(); v.d = std::make_shared<sd::DecayRangePositionDistribution>(a, b, std::make_shared<sd::DecayRangeFunction>(d, e, g, h)); v.key = {a, b, d, e, g, h}; break; }
        case 4: { double g = val(); v.d = std::make_shared<sd::FixedTargetPositionDistribution>(Cylinder(Placement(Vector3D(a, 0, 0)), b + 3, d * 0.1, e), fg, g); v.key = {a, b, d, e, g, (double)f}; break; }
        case 5: v.d = std::make_shared<sd::PrimaryBoundedVertexDistribution>(fg, a); v.key = {a, (double)f}; break;
        case 6: v.d = std::make_shared<sd::SecondaryBoundedVertexDistribution>(fg, a); v.key = {a, (double)f}; break;
        case 7: v.d = std::make_shared<sd::CylinderVolumePositionDistribution>(Cylinder(Placement(Vector3D(a, 0, 0)), b + 3, d * 0.1, e)); v.key = {a, b, d, e}; break;
        case 8: v.d = std::make_shared<sd::SphereVolumePositionDistribution>(Sphere(Placement(Vector3D(a, 0, 0)), b + 3, d * 0.1)); v.key = {a, b, d}; break; } vs.push_back(v); }
    for(auto & a : vs) for(auto & b : vs) { bool same = a.key == b.key; std::string w; for(double z : a.key) w += mon::fmt("%g ", z); w += "vs "; for(double z : b.key) w += mon::fmt("%g ", z); CHECK("equal", (*a.d == *b.d) == same, "%s: parameters %s compare %s", a.d->Name().c_str(), w.c_str(), *a.d == *b.d ? "equal" : "different"); bool lt = *a.d < *b.d, gt = *b.d < *a.d; CHECK("order", same ? !lt && !gt : lt != gt, "%s: parameters %s: less %d, greater %d", a.d->Name().c_str(), w.c_str(), lt, gt); for(auto & z : vs) if(lt && *b.d < *z.d) CHECK("order-transitive", *a.d < *z.d, "%s", a.d->Name().c_str()); if(!same) { int df = 0, at = 0; for(size_t j = 0; j < a.key.size(); ++j) if(a.key[j] != b.key[j]) { ++df; at = (int)j; } if(df == 1) seen("%s differs in %d", a.d->Name().c_str(), at); } } }
MON_MAIN
