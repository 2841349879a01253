// Paths through a detector: end points, direction, length and depths stay consistent whatever is done to them (P23).
#include "pathref.h"
static void verify(Rng & r, Q & q, Xs const & x) { Path & p = *q.p; St const & s = q.s; double e = q.tp(); char const * w = q.log.c_str(); Ref const & R = *q.R;
    CHECK("has-points", p.HasPoints() && p.HasDetectorModel() && p.GetDetectorModel() == R.m, "%s", w);
    bool det = r.coin(); for(int k = 0; k < 2; ++k, det = !det) if(det) { CHECK("first-point", v3(p.GetFirstPoint().get(), R.det(s.f), e), "%s: first point off by %g", w, (p.GetFirstPoint().get() - R.det(s.f)).magnitude()); CHECK("direction", v3(p.GetDirection().get(), R.detd(s.d), 1e-9), "%s: direction off by %g", w, (p.GetDirection().get() - R.detd(s.d)).magnitude()); if(!s.open) CHECK("last-point", v3(p.GetLastPoint().get(), R.det(along(s.f, s.d, s.L)), e), "%s: last point off by %g", w, (p.GetLastPoint().get() - R.det(along(s.f, s.d, s.L))).magnitude()); }
        else { CHECK("first-point", v3(p.GetGeoFirstPoint().get(), vec(s.f), e), "%s: first point (world) off by %g", w, (p.GetGeoFirstPoint().get() - vec(s.f)).magnitude()); CHECK("direction", v3(p.GetGeoDirection().get(), s.d, 1e-9), "%s: direction (world)", w); if(!s.open) CHECK("last-point", v3(p.GetGeoLastPoint().get(), vec(along(s.f, s.d, s.L)), e), "%s: last point (world) off by %g", w, (p.GetGeoLastPoint().get() - vec(along(s.f, s.d, s.L))).magnitude()); }
    if(s.open) CHECK("distance", std::isinf(p.GetDistance()), "%s: open path is %g long", w, p.GetDistance()); else CHECK("distance", std::fabs(p.GetDistance() - (double)s.L) <= e, "%s: %.12g long, expected %.12Lg", w, p.GetDistance(), s.L);
    // points within bounds
    for(int k = 0; k < 2; ++k) { LD L = s.open ? R.S : s.L, t = L * r.u(-0.7, 1.7); P3 y = along(s.f, s.d, t); Vector3D off = cross_product(s.d, rv(r, 1)); if(r.coin()) y = {y.x + off.GetX() * R.S * 0.3, y.y + off.GetY() * R.S * 0.3, y.z + off.GetZ() * R.S * 0.3}; GeometryPosition gy(vec(y)); DetectorPosition dy(R.det(y)); double want = std::max(0., (double)t);
        CHECK("distance-to-point", std::fabs(p.GetDistanceFromStartInBounds(gy) - want) <= 4 * e && std::fabs(p.GetDistanceFromStartInBounds(dy) - want) <= 4 * e, "%s: %.12g %.12g expected %.12g", w, p.GetDistanceFromStartInBounds(gy), p.GetDistanceFromStartInBounds(dy), want);
        if(!s.open && fabsl(t) > 1.1e-3 + e * 4 && fabsl(t - L) > 1.1e-3 + e * 4) { bool in = t > 0 && t < L; CHECK("within-bounds", p.IsWithinBounds(gy) == in && p.IsWithinBounds(dy) == in, "%s: point at %Lg of %Lg is said to be %s/%s", w, t, L, p.IsWithinBounds(gy) ? "inside" : "outside", p.IsWithinBounds(dy) ? "inside" : "outside"); } }
    // depths, against the detector's own answer for the same two points
    auto same = [&](char const * mon_, double got, LD a, LD b, bool neg, Xs const * xx) { double want = xx ? q.dep(a, b, *xx) : q.col(a, b); if(neg) want = -want; double t = q.slack(a, b, xx); CHECK(mon_, std::fabs(got - want) <= t, "%s: %.12g, the detector says %.12g (+-%.3g) between %Lg and %Lg of %Lg", w, got, want, t, a, b, s.L); };
    double S = R.S, u = (double)(s.open ? S : s.L) * r.u(0.05, 1.6), sg = r.coin(0.3) ? -u : u; LD L = s.L; bool ix = r.coin(); Xs const * X = ix ? &x : nullptr;
    if(!s.open) same("depth-in-bounds", ix ? p.GetInteractionDepthInBounds(x.t, x.s, x.L) : p.GetColumnDepthInBounds(), 0, L, false, X);
    LD lim = s.open ? (LD)sg : std::min((LD)sg, L); if(lim < 0) lim = 0;
    switch(r.i(6)) { case 0: same("depth-from-start-in-bounds", ix ? p.GetInteractionDepthFromStartInBounds(sg, x.t, x.s, x.L) : p.GetColumnDepthFromStartInBounds(sg), 0, lim, false, X); break;
        case 1: if(!s.open) same("depth-from-end-in-bounds", ix ? p.GetInteractionDepthFromEndInBounds(sg, x.t, x.s, x.L) : p.GetColumnDepthFromEndInBounds(sg), L - lim, L, false, X); break;
        case 2: same("depth-from-start", ix ? p.GetInteractionDepthFromStartAlongPath(sg, x.t, x.s, x.L) : p.GetColumnDepthFromStartAlongPath(sg), 0, sg, sg < 0, X); break;
        case 3: if(!s.open) same("depth-from-end", ix ? p.GetInteractionDepthFromEndAlongPath(sg, x.t, x.s, x.L) : p.GetColumnDepthFromEndAlongPath(sg), L, L + sg, sg < 0, X); break;
        case 4: same("depth-back-from-start", ix ? p.GetInteractionDepthFromStartInReverse(sg, x.t, x.s, x.L) : p.GetColumnDepthFromStartInReverse(sg), 0, -sg, sg < 0, X); break;
        case 5: if(!s.open) same("depth-back-from-end", ix ? p.GetInteractionDepthFromEndInReverse(sg, x.t, x.s, x.L) : p.GetColumnDepthFromEndInReverse(sg), L, L - sg, sg < 0, X); break; }
    // distances for depths: the depth over the distance returned is the depth asked for
    auto depth = [&](LD a, LD b) { return ix ? q.dep(a, b, x) : q.col(a, b); }; auto there = [&](char const * mon_, double dist, LD a, int dir, double ask) { double got = depth(a, a + dir * (LD)dist); double t = q.slack(a, a + dir * (LD)dist, X) + (q.num ? 2e-3 : 1e-5) * std::fabs(ask); CHECK(mon_, std::isfinite(dist) && std::fabs(got - std::fabs(ask)) <= t && (dist >= 0) == (ask >= 0), "%s: %.12g away for %.12g, but that is %.12g (+-%.3g)", w, dist, ask, got, t); };
    int k = (int)r.i(6); LD a = (k % 2 == 1) ? L : 0; int dir = (k < 4) ? ((k % 2 == 0) ? 1 : (k == 1 ? -1 : 1)) : -1; // 0 start in bounds, 1 end in bounds, 2 start along, 3 end along, 4 start back, 5 end back
    if(s.open && (k % 2 == 1)) return; double ask = depth(a, a + dir * (LD)u), near = depth(a + dir * (LD)u * 0.999, a + dir * (LD)u); if(!(near > 1e-8 * ask) || ask < 1e-18) return;   // the depth asked for is reached in the middle of nothing
    if(k <= 1) { double dist = k == 0 ? (ix ? p.GetDistanceFromStartInBounds(ask, x.t, x.s, x.L) : p.GetDistanceFromStartInBounds(ask)) : (ix ? p.GetDistanceFromEndInBounds(ask, x.t, x.s, x.L) : p.GetDistanceFromEndInBounds(ask)); double whole = s.open ? INFINITY : depth(0, L); if(ask > whole + q.slack(0, s.open ? (LD)u : L, X)) CHECK("distance-capped", dist == p.GetDistance(), "%s: %.12g for more than the whole depth of %.12g", w, dist, p.GetDistance()); else if(ask < whole) there("distance-for-depth-in-bounds", dist, a, dir, ask); CHECK("distance-none", (k == 0 ? (ix ? p.GetDistanceFromStartInBounds(-ask, x.t, x.s, x.L) : p.GetDistanceFromStartInBounds(-ask)) : (ix ? p.GetDistanceFromEndInBounds(-ask, x.t, x.s, x.L) : p.GetDistanceFromEndInBounds(-ask))) == 0, "%s: distance for a negative depth within bounds", w); }
    else { auto get = [&](double y) { return k == 2 ? (ix ? p.GetDistanceFromStartAlongPath(y, x.t, x.s, x.L) : p.GetDistanceFromStartAlongPath(y)) : k == 3 ? (ix ? p.GetDistanceFromEndAlongPath(y, x.t, x.s, x.L) : p.GetDistanceFromEndAlongPath(y)) : k == 4 ? (ix ? p.GetDistanceFromStartInReverse(y, x.t, x.s, x.L) : p.GetDistanceFromStartInReverse(y)) : (ix ? p.GetDistanceFromEndInReverse(y, x.t, x.s, x.L) : p.GetDistanceFromEndInReverse(y)); };
        there("distance-for-depth", get(ask), a, dir, ask); double b = depth(a, a - dir * (LD)u), nb = depth(a - dir * (LD)u * 0.999, a - dir * (LD)u); if(nb > 1e-8 * b && b > 1e-18) there("distance-for-negative-depth", get(-b), a, dir, -b); }
    seen("getters %d %d open %d", k, ix, s.open); }
static St place(Rng & r, Ref const & R, Path & p, std::string & log, int how) { Line l = line(r, R); St s; s.open = false; s.L = std::min(l.len, R.S * 50); s.d = l.d; s.f = l.o; P3 q = along(s.f, s.d, s.L); q = {(double)q.x, (double)q.y, (double)q.z}; double k = r.lu(0.1, 10);
    if(how == 0) { p.SetPoints(GeometryPosition(vec(s.f)), GeometryPosition(vec(q))); log += " points(world)"; } else if(how == 1) { p.SetPoints(DetectorPosition(R.det(s.f)), DetectorPosition(R.det(q))); log += " points(detector)"; }
    else { s.open = r.coin(0.15); double len = s.open ? INFINITY : (double)s.L; if(how == 2) { p.SetPointsWithRay(GeometryPosition(vec(s.f)), GeometryDirection(s.d * k), len); log += " ray(world)"; } else { p.SetPointsWithRay(DetectorPosition(R.det(s.f)), DetectorDirection(R.detd(s.d) * k), len); log += " ray(detector)"; } if(s.open) { s.L = INFINITY; log += "-open"; } }
    if(how < 2) { Vector3D dd = vec(q) - vec(s.f); dd.normalize(); s.d = dd; } return s; }
GROUP(P23, histories, 800, 30000) { Rng & r = c.r; Ref R = model(r, 6), R2 = model(r, 4); auto p = std::make_shared<Path>(R.m); Q q; q.R = &R; q.p = p.get(); q.num = numeric(R); q.s = place(r, R, *p, q.log, (int)r.i(4)); Xs x = rxs(r, R.S); if(!sure(R, q.s)) { obs("grazing"); return; } verify(r, q, x); int n = r.ri(2, 10); bool moved = false;
    for(int i = 0; i < n; ++i) { St & s = q.s; double S = R.S; LD u = (s.open ? (LD)S : std::max(s.L, (LD)1e-3 * S)) * r.u(0.02, r.coin(0.2) ? 1.8 : 0.9); int op = (int)r.i(13); bool ext = r.coin(), end = r.coin(); bool ix = r.coin(); Xs y = r.coin() ? x : rxs(r, S);
        if(op == 0) { q.s = place(r, R, *p, q.log, (int)r.i(4)); if(!sure(R, q.s)) { obs("grazing"); return; } }
        else if(op == 1 && !s.open) { p->Flip(); q.log += " flip"; s.f = along(s.f, s.d, s.L); s.d = -s.d; }
        else if(op == 2) { /* the same line again, from another point or the other way round: what was found along it may be used again */ LD t = S * r.u(-2, 2); bool rev = r.coin(); P3 f = along(s.f, s.d, t); f = {(double)f.x, (double)f.y, (double)f.z}; LD L = S * r.u(0.1, 3); Vector3D d = rev ? -s.d : s.d; bool wf = r.coin(); if(wf) p->SetPointsWithRay(GeometryPosition(vec(f)), GeometryDirection(d), (double)L); else p->SetPointsWithRay(DetectorPosition(R.det(f)), DetectorDirection(R.detd(d)), (double)L); s.f = f; s.d = d; s.L = L; s.open = false; q.log += mon::fmt(" shifted%s%s", rev ? "-back" : "", wf ? "(world)" : "(detector)"); }
        else if(op == 3) { LD lo = INFINITY, hi = -INFINITY; for(auto & z : R.v) if(!z.inf) for(auto & h : z.s.g->Intersections(vec(s.f), s.d)) { lo = std::min(lo, (LD)h.distance); hi = std::max(hi, (LD)h.distance); } LD e = 1e-5 * S + 10 * q.tp(); if(fabsl(lo) < e || fabsl(hi) < e || (!s.open && (fabsl(lo - s.L) < e || fabsl(hi - s.L) < e))) continue; p->ClipToOuterBounds(); q.log += " clip"; LD a = std::max((LD)0, lo), b = s.open ? hi : std::min(s.L, hi);
            if(lo > hi || a >= b) { q.log += lo > hi ? "-nothing" : "-outside"; CHECK("clipped-away", p->GetDistance() == 0 && v3(p->GetGeoFirstPoint().get(), p->GetGeoLastPoint().get(), q.tp()), "%s: nothing of the path is within the bounds, but %.12g is left of it", q.log.c_str(), p->GetDistance()); CHECK("clipped-away-depth", p->GetColumnDepthInBounds() <= q.slack(0, 0, nullptr), "%s", q.log.c_str()); q.s = place(r, R, *p, q.log, (int)r.i(4)); if(!sure(R, q.s)) { obs("grazing"); return; } }
            else { CHECK("clip", fabsl(p->GetDistance() - (b - a)) <= e, "%s: %.12g long after clipping, expected %.12Lg", q.log.c_str(), p->GetDistance(), b - a); CHECK("clip-start", v3(p->GetGeoFirstPoint().get(), vec(along(s.f, s.d, a)), (double)e), "%s", q.log.c_str()); Vector3D f = p->GetGeoFirstPoint().get(); s.f = {f.GetX(), f.GetY(), f.GetZ()}; s.L = p->GetDistance(); s.open = false; } }
        else if(op <= 5) { if(s.open && end) continue; LD by = r.coin(0.15) ? -u : u; if(op == 4) { if(end) ext ? p->ExtendFromEndByDistance((double)by) : p->ShrinkFromEndByDistance((double)by); else ext ? p->ExtendFromStartByDistance((double)by) : p->ShrinkFromStartByDistance((double)by); } else { if(s.open) continue; LD to = r.coin(0.1) ? (LD)0 : s.L * r.u(0.1, 2); if(end) ext ? p->ExtendFromEndToDistance((double)to) : p->ShrinkFromEndToDistance((double)to); else ext ? p->ExtendFromStartToDistance((double)to) : p->ShrinkFromStartToDistance((double)to); by = ext ? std::max((LD)0, to - s.L) : std::max((LD)0, s.L - to); }
            if(!ext) by = -by; LD L = std::max((LD)0, s.L + by); if(!end) s.f = along(s.f, s.d, s.open ? -by : s.L - L); s.L = L; q.log += mon::fmt(" %s%s%s(%.3Lg)", ext ? "extend" : "shrink", end ? "End" : "Start", op == 4 ? "By" : "To", by); }
        else if(op <= 9) { if(s.open) continue; auto depth = [&](LD a, LD b) { return ix ? q.dep(a, b, y) : q.col(a, b); }; Xs const * X = ix ? &y : nullptr; LD L = s.L, a = end ? L : 0; int dir = (ext == end) ? 1 : -1; LD b = a + dir * u; double ask = depth(a, b), near = depth(a + dir * u * 0.999, b); if(!(near > 1e-8 * ask) || ask < 1e-18) continue; bool to = op >= 8; double before = depth(0, L), arg = ask; q.log += mon::fmt(" %s%s%s%s(%.6g)", ext ? "extend" : "shrink", end ? "End" : "Start", to ? "To" : "By", ix ? "Interaction" : "Column", ask);
            if(to) { bool noop = r.coin(0.15); arg = ext ? before + (noop ? -ask : ask) : before - (noop ? -ask : ask); if(!ext && !noop && arg < 0) arg = 0; /* everything away */ if(ask < 1e-5 * before) continue; if(noop) ask = 0; }
            std::vector<PT> const & T = y.t; std::vector<double> const & xs = y.s; double dl = y.L;
            if(ext) { if(end) { if(to) ix ? p->ExtendFromEndToInteractionDepth(arg, T, xs, dl) : p->ExtendFromEndToColumnDepth(arg); else ix ? p->ExtendFromEndByInteractionDepth(arg, T, xs, dl) : p->ExtendFromEndByColumnDepth(arg); } else { if(to) ix ? p->ExtendFromStartToInteractionDepth(arg, T, xs, dl) : p->ExtendFromStartToColumnDepth(arg); else ix ? p->ExtendFromStartByInteractionDepth(arg, T, xs, dl) : p->ExtendFromStartByColumnDepth(arg); } }
            else { if(end) { if(to) ix ? p->ShrinkFromEndToInteractionDepth(arg, T, xs, dl) : p->ShrinkFromEndToColumnDepth(arg); else ix ? p->ShrinkFromEndByInteractionDepth(arg, T, xs, dl) : p->ShrinkFromEndByColumnDepth(arg); } else { if(to) ix ? p->ShrinkFromStartToInteractionDepth(arg, T, xs, dl) : p->ShrinkFromStartToColumnDepth(arg); else ix ? p->ShrinkFromStartByInteractionDepth(arg, T, xs, dl) : p->ShrinkFromStartByColumnDepth(arg); } }
            LD N = p->GetDistance(), by = fabsl(N - L); bool gone = !ext && ask >= before; if(!ext && !gone) CHECK("shrinks", N <= L + q.tp() && N >= 0, "%s: from %.12Lg to %.12Lg", q.log.c_str(), L, N); if(ext) CHECK("extends", N >= L - q.tp(), "%s: from %.12Lg to %.12Lg", q.log.c_str(), L, N);
            double sl = q.slack(0, L, X) + q.slack(a, a + dir * by, X) + (q.num ? 4e-3 : 2e-5) * (ask + (to ? before : 0)); if(gone) { double left = depth(0, N); CHECK("shrunk-away", left <= sl, "%s: depth %.12g left of %.12g", q.log.c_str(), left, before); } else { double moved = depth(a, a + dir * by); CHECK("by-depth", std::fabs(moved - ask) <= sl, "%s: moved by %.12Lg, a depth of %.12g, instead of %.12g (+-%.3g); %.12g before", q.log.c_str(), by, moved, ask, sl, before); }
            if(!end) s.f = along(s.f, s.d, ext ? -by : by); s.L = N; }
        else if(op == 10) { if(s.open || moved) continue; moved = true; q.log += " other-model"; bool same = r.coin(0.3); if(same) { p->SetDetectorModel(R.m); } else { Vector3D a = R.det(s.f), b = R.detd(s.d); p->SetDetectorModel(R2.m); P3 f = R2.geo(a), g = R2.geo(a + b); s.f = f; s.d = Vector3D((double)(g.x - f.x), (double)(g.y - f.y), (double)(g.z - f.z)); s.d.normalize(); std::swap(R, R2); q.R = &R; q.num = numeric(R); if(!sure(R, s)) { obs("grazing"); return; } } }
        else if(op == 11) { if(r.coin()) p->EnsureIntersections(); else p->ComputeIntersections(); CHECK("has-intersections", p->HasIntersections(), "%s", q.log.c_str()); q.log += " crossings"; }
        else if(op == 12) { auto z = std::make_shared<Path>(*p); if(r.coin()) { p->Flip(); if(!s.open) p->ExtendFromEndByDistance(R.S); } p = z; q.p = p.get(); q.log += " copy"; }
        if(!s.open && s.L > 100 * R.S) return; verify(r, q, x); seen("op %d ext %d end %d ix %d %s", op, ext, end, ix, R.shape.c_str()); } obs("operations", n); }
// what was found along one line is not used for another one, however close
GROUP(P23, close_lines, 600, 20000) { Rng & r = c.r; Ref R = model(r, 5); if(numeric(R)) return; Path p(R.m); Xs x = rxs(r, R.S); P3 a = spot(r, R); Vector3D d = rv(r, 1); LD back = R.S * r.lu(10, 3e4); P3 o = along(a, d, -back); o = {(double)o.x, (double)o.y, (double)o.z}; LD L = back + 3 * R.S; p.SetPointsWithRay(GeometryPosition(vec(o)), GeometryDirection(d), (double)L); p.EnsureIntersections(); double ang = r.lu(1e-7, 1e-2); Vector3D t = cross_product(d, rv(r, 1)); t.normalize(); Vector3D d2 = d + t * std::tan(ang); d2.normalize(); bool w = r.coin(); if(w) p.SetPointsWithRay(GeometryPosition(vec(o)), GeometryDirection(d2), (double)L); else p.SetPointsWithRay(DetectorPosition(R.det(o)), DetectorDirection(R.detd(d2)), (double)L);
    Q q; q.R = &R; q.p = &p; q.num = false; q.s = {o, d2, L, false}; q.log = mon::fmt("ray tilted by %.3g at %.3Lg sizes (%s frame)", ang, back / R.S, w ? "world" : "detector"); if(!walk(R, o, d2, 0, L, 1e-6 * R.S + 1e-10 * (double)L).sure) { obs("grazing"); return; } double want = q.col(0, L), got = p.GetColumnDepthInBounds(), sl = q.slack(0, L, nullptr); CHECK("close-line", std::fabs(got - want) <= sl, "%s: depth %.12g, the detector says %.12g", q.log.c_str(), got, want); seen("angle 1e%d back 1e%d", (int)std::floor(std::log10(ang)), (int)std::log10((double)(back / R.S))); }
// nothing can be asked of a path without points or without a detector, and end points have to be finite
GROUP(P23, refusals, 200, 4000) { Rng & r = c.r; Ref R = model(r, 3); auto thr = [](std::function<void()> f) { try { f(); } catch(std::exception const &) { return true; } return false; }; Line l = line(r, R); GeometryPosition A(vec(l.o)); GeometryDirection D(l.d); GeometryPosition B(vec(along(l.o, l.d, l.len)));
    { Path p; CHECK("no-detector", !p.HasDetectorModel() && !p.HasPoints() && !p.HasIntersections() && thr([&] { p.GetColumnDepthInBounds(); }) && thr([&] { p.EnsureDetectorModel(); }) && thr([&] { p.EnsurePoints(); }), "empty path answers"); p.SetPoints(A, B); CHECK("no-detector", p.HasPoints() && thr([&] { p.GetColumnDepthInBounds(); }) && thr([&] { p.ComputeIntersections(); }), "path without a detector answers"); }
    { Path p(R.m); CHECK("no-points", thr([&] { p.GetColumnDepthInBounds(); }) && thr([&] { p.ComputeIntersections(); }) && thr([&] { p.ClipToOuterBounds(); }) && thr([&] { p.ExtendFromEndByDistance(1); }), "path without points answers"); }
    double inf = r.coin() ? INFINITY : -INFINITY; { Path p(R.m); Vector3D v = vec(l.o); int k = r.i(3); GeometryPosition I(Vector3D(k == 0 ? inf : v.GetX(), k == 1 ? inf : v.GetY(), k == 2 ? inf : v.GetZ())); CHECK("infinite-point-refused", thr([&] { p.SetPoints(I, B); }) && thr([&] { p.SetPoints(A, I); }) && thr([&] { p.SetPointsWithRay(I, D, 1); }) && thr([&] { p.SetPoints(DetectorPosition(I.get()), DetectorPosition(B.get())); }), "infinite end point accepted"); }
    { Path p(R.m, A, D, INFINITY); CHECK("open-path-refused", thr([&] { p.GetColumnDepthInBounds(); }) && thr([&] { p.ExtendFromEndByDistance(1); }) && thr([&] { p.GetColumnDepthFromEndInBounds(1); }) && thr([&] { p.GetInteractionDepthInBounds({}, {}, 1.); }) && thr([&] { p.GetDistanceFromEndAlongPath(1.); }) && thr([&] { p.IsWithinBounds(A); }), "open path answers about its end"); p.ClipToOuterBounds(); }
    seen("%s", R.shape.c_str()); }
MON_MAIN
