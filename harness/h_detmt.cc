// Several threads asking one detector model at once, the first queries building its search tree (P22).
#include "detmodel.h"
#include "SIREN/detector/Path.h"
#include <thread>
#include <atomic>
using namespace detm; using namespace mon;
GROUP(P22, concurrent, 60, 2000) { Rng & r = c.r; Ref R = model(r, 8); DetectorModel & m = *R.m; int T = 2 + (int)r.i(5), rounds = 1 + (int)r.i(3); struct Q { Vector3D a, b; int op; }; 
    for(int k = 0; k < rounds; ++k) { std::vector<std::vector<Q>> qs(T); for(auto & v : qs) for(int i = 0; i < 12; ++i) { Line l = line(r, R); P3 e = along(l.o, l.d, l.len); v.push_back({R.det(l.o), R.det(e), (int)r.i(5)}); }
        auto ask = [&](DetectorModel const & m, Q const & q) -> double { DetectorPosition A(q.a), B(q.b); Vector3D d = q.b - q.a; d.normalize(); switch(q.op) { case 0: return m.GetMassDensity(A); case 1: return m.GetColumnDepthInCGS(A, B); case 2: return m.GetContainingSector(A).level; case 3: return (double)m.GetIntersections(A, DetectorDirection(d)).intersections.size(); default: { std::shared_ptr<const DetectorModel> p(&m, [](DetectorModel const *) {}); Path path(p, A, B); return path.GetColumnDepthInBounds(); } } };
        // a change makes the next queries rebuild the search tree
        if(k) { Sec s = R.v[1 + r.i(R.v.size() - 1)]; DetectorSector x; x.name = mon::fmt("extra%d", k); x.level = 100000000 + k; x.material_id = s.mat_id; x.geo = s.s.g; x.density = s.d; m.AddSector(x); }
        std::vector<std::vector<double>> got(T); std::atomic<int> ready{0}; std::vector<std::thread> th; for(int t = 0; t < T; ++t) th.emplace_back([&, t] { ready++; while(ready < T) {} for(auto & q : qs[t]) got[t].push_back(ask(m, q)); }); for(auto & x : th) x.join();
        DetectorModel one; one.SetMaterials(m.GetMaterials()); one.SetSectors(m.GetSectors()); one.SetDetectorOrigin(m.GetDetectorOrigin()); one.SetDetectorRotation(m.GetDetectorRotation()); for(int t = 0; t < T; ++t) for(size_t i = 0; i < qs[t].size(); ++i) { double ref = ask(one, qs[t][i]); CHECK("same_as_alone", got[t][i] == ref || (std::isnan(ref) && std::isnan(got[t][i])), "query %d: %.17g alone %.17g", qs[t][i].op, got[t][i], ref); } obs("queries", T * 12); }
    seen("%d threads %s %d", T, R.shape.c_str(), rounds); }
MON_MAIN
