// Detector models changed step by step, read from files, and as shipped (P22).
#include "detmodel.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace detm; using namespace mon; using siren::geometry::Geometry;
template<class F> static bool raises(F f) { try { f(); } catch(std::exception const &) { return true; } return false; }
static void agree(Ctx & c, Ref const & R, DetectorModel & m, std::string const & h, char const * mon1, char const * mon2, int n) { Rng & r = c.r; for(int k = 0; k < n; ++k) { P3 p = spot(r, R); Vector3D pv = vec(p); p = {pv.GetX(), pv.GetY(), pv.GetZ()}; if(!R.clear(p, 3e-5 * R.S)) continue; Sec const * s = R.at(p); DetectorPosition P = m.ToDet(GeometryPosition(pv)); DetectorSector g = m.GetContainingSector(P); CHECK(mon1, s ? g.name == s->name && g.material_id == s->mat_id : !g.geo, "got %s expected %s, history %s, %s", g.name.c_str(), s ? s->name.c_str() : "nothing", h.c_str(), show(R).c_str()); if(s && s->inf) CHECK("vacuum", m.GetMassDensity(P) == s->rho(p), " "); if(s) CHECK("density", close(m.GetMassDensity(P), s->rho(p), 1e-9, 0), "%g expected %g, history %s", m.GetMassDensity(P), s->rho(p), h.c_str());
        Vector3D d = rv(r, 1); auto I = m.GetIntersections(P, m.ToDet(GeometryDirection(d))); size_t n = 0, un = 0; for(auto & x : R.v) { if(x.inf) { n += 2; continue; } auto H = x.s.g->Intersections(pv, d); for(int j = 0; j < 2; ++j) { auto H2 = x.s.g->Intersections(pv + rv(r, 1e-6 * R.S), d); if(H2.size() != H.size()) un = 1; } n += H.size(); } if(!un) CHECK(mon2, I.intersections.size() == n, "%zu of %zu crossings, history %s", I.intersections.size(), n, h.c_str()); } }
GROUP(P22, histories, 700, 20000) { Rng & r = c.r; Ref P = model(r, 8), R = P; R.m = std::make_shared<DetectorModel>(); DetectorModel & m = *R.m; m.SetMaterials(P.m->GetMaterials()); m.SetDetectorOrigin(GeometryPosition(R.org)); m.SetDetectorRotation(R.q); R.v.resize(1); auto ds = [](Sec const & s) { DetectorSector x; x.name = s.name; x.level = s.level; x.material_id = s.mat_id; x.geo = s.s.g; x.density = s.d; return x; }; DetectorSector uni = m.GetSectors()[0]; std::string h; int fresh = 0;
    auto pick = [&]() { Sec s = P.v[1 + r.i(P.v.size() - 1)]; if(r.coin(0.7)) { s.name += mon::fmt("_%d", fresh); s.level = 5000000 + (r.coin() ? 1 : -1) * (++fresh); } return s; }; int steps = 2 + (int)r.i(12);
    for(int k = 0; k < steps; ++k) { int op = (int)r.i(8); h += char('a' + op); switch(op) {
        case 0: case 1: case 2: { Sec s = pick(); bool bad = false; for(auto & x : R.v) bad |= x.level == s.level || x.name == s.name; bool thrown = raises([&] { m.AddSector(ds(s)); }); CHECK("add_refuses_duplicates", thrown == bad, "history %s", h.c_str()); if(!thrown) R.v.push_back(s); break; }
        case 3: { std::vector<Sec> v; if(r.coin(0.8)) v.push_back(P.v[0]); int n = (int)r.i(5); for(int i = 0; i < n; ++i) v.push_back(pick()); bool bad = false; for(size_t i = 0; i < v.size(); ++i) for(size_t j = 0; j < i; ++j) bad |= v[i].level == v[j].level || v[i].name == v[j].name; std::vector<DetectorSector> q; for(auto & s : v) q.push_back(s.inf ? uni : ds(s)); bool thrown = raises([&] { m.SetSectors(q); }); CHECK("set_refuses_duplicates", thrown == bad, "history %s", h.c_str()); if(!thrown) R.v = v; break; }
        case 4: if(r.coin(0.3)) { m.ClearSectors(); R.v.clear(); m.AddSector(uni); R.v.push_back(P.v[0]); } break;
        case 5: { Quaternion q; q.SetAxisAngle(rv(r, 1), r.u(-3, 3)); R.q = q; m.SetDetectorRotation(q); break; }
        case 6: { R.org = rv(r, R.S * r.u(0, 3)); m.SetDetectorOrigin(GeometryPosition(R.org)); break; }
        default: for(auto & s : R.v) { DetectorSector a = m.GetSector(s.level), b = m.GetSector(s.name); CHECK("lookup", a.name == s.name && b.level == s.level && a == b && (s.inf || a.geo == s.s.g), "history %s sector %s", h.c_str(), s.name.c_str()); } CHECK("unknown_name", raises([&] { m.GetSector(std::string("nowhere")); }), "history %s", h.c_str()); }
        auto const & v = m.GetSectors(); bool same = v.size() == R.v.size(); for(size_t i = 0; same && i < v.size(); ++i) same = v[i].name == R.v[i].name && v[i].level == R.v[i].level; CHECK("sectors_kept", same, "%zu of %zu, history %s", v.size(), R.v.size(), h.c_str()); bool uk = false; for(auto & s : R.v) uk |= s.inf; if(r.coin(0.6) && uk) agree(c, R, m, h, "sector_after_change", "crossings_after_change", 3); }
    seen("%s", h.substr(0, 5).c_str()); obs("steps", steps); }
// files ---------------------------------------------------------------------------------------------------------------------------------------------------
static std::string num(Rng & r, double v) { return mon::fmt(r.coin(0.9) ? "%.17g" : "%.17e", v); } static std::string sp(Rng & r) { return r.coin(0.8) ? " " : r.coin() ? "   " : "\t"; }
struct Txt { std::vector<std::string> tok; Solid s; };
static Txt shape(Rng & r, double S) { Txt t; Solid s; double a = r.u(-3.2, 3.2), b = r.u(0, 3.1), g = r.u(-3.2, 3.2); if(r.coin(0.4)) a = b = g = 0; Vector3D p = r.coin(0.2) ? Vector3D(0, 0, 0) : rv(r, S * r.u(0, 1.5)); // rotations: about z by a, then the new x by b, then the new z by g
    Quaternion qa, qb, qc; qa.SetAxisAngle(Vector3D(0, 0, 1), a); qb.SetAxisAngle(Vector3D(1, 0, 0), b); qc.SetAxisAngle(Vector3D(0, 0, 1), g); s.pl = Placement(p, qa * qb * qc); auto L = [&]() { return S * r.u(0.1, 1); }; std::vector<double> q; std::string nm;
    switch(r.i(6)) { case 0: { double R = L(); q = {R}; nm = "sphere"; s.in = [=](P3 x) { return x.x * x.x + x.y * x.y + x.z * x.z <= (LD)R * R; }; s.size = 2 * R; s.kind = K_SPHERE; s.g = std::make_shared<Sphere>(s.pl, R, 0.); break; }
        case 1: { double A = 2 * L(), B = 2 * L(), C = 2 * L(); q = {A, B, C}; nm = "box"; s.in = [=](P3 x) { return fabsl(x.x) <= A / 2 && fabsl(x.y) <= B / 2 && fabsl(x.z) <= C / 2; }; s.size = std::max({A, B, C}); s.kind = K_BOX; s.g = std::make_shared<Box>(s.pl, A, B, C); break; }
        case 2: { double R = L(), I = r.coin() ? 0 : R * r.u(0.1, 0.9), Z = 2 * L(); q = {R, I, Z}; nm = "cylinder"; s.in = [=](P3 x) { LD n = hypotl(x.x, x.y); return n <= R && n >= I && fabsl(x.z) <= Z / 2; }; s.size = 2 * R + Z; s.kind = K_CYL; s.g = std::make_shared<Cylinder>(s.pl, R, I, Z); break; }
        case 3: { double R1 = L(), R2 = L(), f = r.coin() ? 0 : r.u(0.1, 0.9), Z = 2 * L(); q = {R1 * f, R1, R2 * f, R2, Z}; nm = "cone"; s.in = [=](P3 x) { LD u = x.z / Z + 0.5L; LD ro = R1 + ((LD)R2 - R1) * u, n = hypotl(x.x, x.y); return u >= 0 && u <= 1 && n <= ro && n >= f * ro; }; s.size = 2 * std::max(R1, R2) + Z; s.kind = K_CONE; s.g = std::make_shared<Cone>(s.pl, R1 * f, R1, R2 * f, R2, Z); break; }
        case 4: { double x1 = L(), x2 = L(), y1 = L(), y2 = L(), z = L(); q = {x1, x2, y1, y2, z}; nm = "trd"; s.in = [=](P3 x) { LD u = (x.z / z + 1) / 2; return u >= 0 && u <= 1 && fabsl(x.x) <= x1 + ((LD)x2 - x1) * u && fabsl(x.y) <= y1 + ((LD)y2 - y1) * u; }; s.size = 2 * std::max({x1, x2, y1, y2, z}); s.kind = K_TRD; s.g = std::make_shared<Trd>(s.pl, x1, x2, y1, y2, z); break; }
        default: { int n = 3 + (int)r.i(4); double R = L(), z0 = -L(), z1 = L(); std::vector<std::array<double, 2>> v; std::vector<std::vector<double>> pl; q = {(double)n}; for(int i = 0; i < n; ++i) { double t = 2 * M_PI * i / n; v.push_back({{R * std::cos(t), R * std::sin(t)}}); pl.push_back({v.back()[0], v.back()[1]}); q.push_back(v.back()[0]); q.push_back(v.back()[1]); } double k = r.u(0.5, 1.5), ox = S * r.u(-0.1, 0.1); for(double w : {2., z0, 0., 0., 1., z1, ox, 0., k}) q.push_back(w); nm = "extr"; double o0[2] = {0, 0}, o1[2] = {ox, 0}; std::vector<ExtrPoly::ZSection> zs = {ExtrPoly::ZSection(z0, o0, 1), ExtrPoly::ZSection(z1, o1, k)}; s.in = [=](P3 x) { if(x.z < z0 || x.z > z1) return false; LD u = (x.z - z0) / ((LD)z1 - z0), sc = 1 + (k - 1.L) * u; return inpoly(v, (x.x - ox * u) / sc, x.y / sc); }; s.size = 2 * R * std::max(1., k) + z1 - z0; s.kind = K_EXTR; s.g = std::make_shared<ExtrPoly>(s.pl, pl, zs); } }
    t.tok = {nm}; for(double w : {p.GetX(), p.GetY(), p.GetZ(), a, b, g}) t.tok.push_back(num(r, w)); for(double w : q) t.tok.push_back(nm == "extr" && w == std::floor(w) && w < 100 && w >= 0 ? mon::fmt("%d", (int)w) : num(r, w)); t.s = s; return t; }
static std::string join(Rng & r, std::vector<std::string> const & v) { std::string o; for(auto & x : v) o += (o.empty() ? "" : sp(r)) + x; return o; }
GROUP(P22, files, 500, 12000) { Rng & r = c.r; Ref R; R.S = r.lu(0.3, 1e4); R.m = std::make_shared<DetectorModel>(); R.shape = "file"; DetectorModel & m = *R.m; MaterialModel mats = m.GetMaterials(); for(auto & x : MATS) mats.AddMaterial(x.first, x.second); m.SetMaterials(mats); Sec u; u.inf = true; u.name = "UNIVERSE"; u.level = std::numeric_limits<int>::min(); u.mat = "VACUUM"; u.mat_id = mats.GetMaterialId("VACUUM"); u.pr.kind = 0; u.pr.val = ConstantDensityDistribution().Evaluate(Vector3D(0, 0, 0)); u.radial = false; R.v.push_back(u);
    int n = 1 + (int)r.i(6); std::vector<std::vector<std::string>> lines; for(int i = 0; i < n; ++i) { Txt t = shape(r, R.S); Sec s = sector(r, t.s, i, mon::fmt("thing_%d", i), R.S); if(s.pr.kind >= 2) s.pr.kind = 0; s.radial = s.pr.kind == 1; s.mat_id = mats.GetMaterialId(s.mat); std::vector<std::string> l = {"object"}; l.insert(l.end(), t.tok.begin(), t.tok.end()); l.push_back(s.name); l.push_back(s.mat); if(s.pr.kind == 0) { l.push_back("constant"); l.push_back(num(r, s.pr.val)); } else { l.push_back("radial_polynomial"); for(double w : {s.c.GetX(), s.c.GetY(), s.c.GetZ()}) l.push_back(num(r, w)); l.push_back(mon::fmt("%zu", s.pr.co.size())); for(double w : s.pr.co) l.push_back(num(r, w)); } lines.push_back(l); R.v.push_back(s); }
    bool rot = r.coin(); double a = r.u(-3, 3), b = r.u(0.1, 3), g = r.u(-3, 3); R.org = rv(r, R.S * r.u(0, 2)); std::vector<std::string> dl = {"detector", num(r, R.org.GetX()), num(r, R.org.GetY()), num(r, R.org.GetZ())}; if(rot) { for(double w : {a, b, g}) dl.push_back(num(r, w)); Quaternion qa, qb, qc; qa.SetAxisAngle(Vector3D(0, 0, 1), a); qb.SetAxisAngle(Vector3D(1, 0, 0), b); qc.SetAxisAngle(Vector3D(0, 0, 1), g); R.q = qa * qb * qc; }
    std::string dline = join(r, dl); std::vector<std::string> txt; for(auto & l : lines) txt.push_back(join(r, l) + (r.coin(0.3) ? "  # comment with object sphere 0 0 0" : "") + (r.coin(0.2) ? " " : "")); txt.insert(txt.begin() + r.i(txt.size() + 1), dline); if(r.coin(0.3)) txt.insert(txt.begin() + r.i(txt.size() + 1), "# a comment"); if(r.coin(0.3)) txt.insert(txt.begin() + r.i(txt.size() + 1), r.coin() ? "" : "   \t "); bool crlf = r.coin(0.2); std::string body; for(auto & l : txt) body += (r.coin(0.1) ? "  " : "") + l + (crlf ? "\r\n" : "\n");
    std::string fn = mon::fmt("det_%d.dat", getpid()); { std::ofstream o(fn); o << body; } std::string err; try { if(r.coin()) m.LoadDetectorModel(fn); else m.LoadDetectorModel(fn.substr(0, fn.size() - 4)); } catch(std::exception const & e) { err = e.what(); } CHECK("loads", err.empty(), "%s for:\n%s", err.c_str(), body.substr(0, 800).c_str()); if(!err.empty()) { unlink(fn.c_str()); return; }
    CHECK("origin", (m.GetDetectorOrigin().get() - R.org).magnitude() <= 1e-14 * R.S * 3, " "); Vector3D d = rv(r, 1); CHECK("rotation", (R.detd(m.ToGeo(DetectorDirection(d)).get()) - d).magnitude() <= 1e-12, "%g %g %g: %s", a, b, g, dline.c_str()); CHECK("count", m.GetSectors().size() == R.v.size(), "%zu of %zu", m.GetSectors().size(), R.v.size()); agree(c, R, m, "file", "sector", "crossings", 6);
    // cut short or damaged lines are refused
    size_t li = r.i(lines.size()); auto cut = lines[li]; int how = (int)r.i(6); std::string what; if(how <= 1) { cut.resize(1 + r.i(cut.size() - 1)); what = "cut"; } else if(how == 2) { size_t k = 2 + r.i(5); cut[k] = "abc"; what = "word for a number"; } else if(how == 3) { cut[1] = "dodecahedron"; what = "shape"; } else if(how == 4) { for(auto & w : cut) if(MATS.count(w) || w == "VACUUM") w = "UNOBTAINIUM"; what = "material"; } else { bool next = false; for(auto & w : cut) if(w == "constant" || w == "radial_polynomial") { w = "exotic"; next = true; } what = next ? "density" : "?"; }
    std::string bad; for(size_t i = 0; i < lines.size(); ++i) bad += join(r, i == li ? cut : lines[i]) + "\n"; { std::ofstream o(fn); o << bad; } DetectorModel m2; m2.SetMaterials(mats); CHECK("damaged_refused", raises([&] { m2.LoadDetectorModel(fn); }), "%s: %s", what.c_str(), join(r, cut).c_str()); { std::vector<std::string> dd(dl.begin(), dl.begin() + 1 + r.i(dl.size() - 1)); if(dd.size() != 4 && dd.size() != 7) { std::ofstream o(fn); o << join(r, dd) << "\n"; o.close(); DetectorModel m3; CHECK("cut_detector_refused", raises([&] { m3.LoadDetectorModel(fn); }), "%s", join(r, dd).c_str()); } } unlink(fn.c_str()); DetectorModel m4; CHECK("missing_file_refused", raises([&] { m4.LoadDetectorModel("no_such_file_here"); }) && raises([&] { m4.LoadDetectorModel(""); }), " ");
    // fiducial volumes: the region in detector coordinates
    Txt t = shape(r, R.S); int coords = (int)r.i(3); std::string fl = (r.coin(0.8) ? "fiducial " : "") + std::string(coords == 0 ? "" : coords == 1 ? "detector_coords " : "geometry_coords ") + join(r, t.tok); auto gv = DetectorModel::ParseFiducialVolume(fl, dline + (r.coin(0.5) ? "  " : "")); for(int k = 0; k < 6; ++k) { Ref F = R; F.v.clear(); Sec s; s.inf = false; s.s = t.s; F.v.push_back(s); P3 p = spot(r, F); if(k < 3) { Vector3D q = t.s.pl.GetPosition(); p = {q.GetX() + t.s.size * r.u(-0.5, 0.5), q.GetY() + t.s.size * r.u(-0.5, 0.5), q.GetZ() + t.s.size * r.u(-0.5, 0.5)}; } if(!F.clear(p, 1e-5 * R.S)) continue; Vector3D at = coords == 2 ? R.det(p) : vec(p); CHECK("fiducial", gv->IsInside(at) == s.in(p), "%s with %s", fl.c_str(), dline.c_str()); }
    { auto tk = t.tok; tk.resize(1 + r.i(tk.size() - 1)); std::string l = "fiducial " + join(r, tk); CHECK("cut_fiducial_refused", raises([&] { DetectorModel::ParseFiducialVolume(l, dline); }), "%s", l.c_str()); }
    seen("%d sectors rot %d crlf %d damage %s fiducial %d %s", n, rot, crlf, what.c_str(), coords, kname(t.s.kind)); }
// the models shipped with the library: every sector's own solid decides what holds a point
static void dats(std::string const & d, std::vector<std::string> & o) { DIR * h = opendir(d.c_str()); if(!h) return; while(auto * e = readdir(h)) { std::string n = e->d_name; if(n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if(stat(p.c_str(), &st)) continue; if(S_ISDIR(st.st_mode)) dats(p, o); else if(n == "densities.dat") o.push_back(d); } closedir(h); }
GROUP(P22, shipped, 64, 2000) { Rng & r = c.r; static std::vector<std::string> fs; if(fs.empty()) { dats(std::string(getenv("SIREN_REPO") ? getenv("SIREN_REPO") : "/repo") + "/resources/detectors", fs); std::sort(fs.begin(), fs.end()); } if(fs.empty()) return; std::string d = fs[c.cas % fs.size()]; struct stat st; if(stat((d + "/materials.dat").c_str(), &st)) return; std::string err; std::shared_ptr<DetectorModel> pm; try { pm = std::make_shared<DetectorModel>(d + "/densities.dat", d + "/materials.dat"); } catch(std::exception const & e) { err = e.what(); } CHECK("loads", err.empty(), "%s: %s", d.c_str(), err.c_str()); if(!pm) return; DetectorModel & m = *pm; auto const & v = m.GetSectors(); size_t nobj = 0; { std::ifstream in(d + "/densities.dat"); std::string l; while(std::getline(in, l)) { std::stringstream s(l); std::string w; s >> w; nobj += w == "object"; } } CHECK("every_object", v.size() == nobj + 1, "%zu sectors of %zu objects in %s", v.size(), nobj, d.c_str());
    for(int k = 0; k < 20; ++k) { DetectorSector const & s = v[r.i(v.size())]; Vector3D ctr(0, 0, 0); double e = 1; auto b = s.geo->GetWorldBoundingBox(); if(std::isfinite(b.max_corner.GetX() - b.min_corner.GetX())) { ctr = (b.max_corner + b.min_corner) * 0.5; e = (b.max_corner - b.min_corner).magnitude() * 0.5; } else e = 1e7; Vector3D p = ctr + Vector3D(r.u(-1, 1) * e, r.u(-1, 1) * e, r.u(-1, 1) * e); DetectorPosition P = m.ToDet(GeometryPosition(p)); DetectorSector const * best = nullptr; bool edge = false; for(auto & x : v) { bool in = x.geo->IsInside(p); for(int j = 0; j < 3; ++j) if(x.geo->IsInside(p + rv(r, 1e-3)) != in) edge = true; if(in && (!best || x.level > best->level)) best = &x; } if(edge || !best) { obs("near_surface"); continue; } DetectorSector g = m.GetContainingSector(P); CHECK("sector", g.name == best->name, "%s: got %s expected %s at (%.17g,%.17g,%.17g)", d.c_str(), g.name.c_str(), best->name.c_str(), p.GetX(), p.GetY(), p.GetZ()); double rho = m.GetMassDensity(P); CHECK("density", rho >= 0 && close(rho, best->density->Evaluate(p), 1e-12, 0), "%g", rho);
        Vector3D dir = rv(r, 1); auto I = m.GetIntersections(P, m.ToDet(GeometryDirection(dir))); CHECK("sector_along", m.GetContainingSector(I, P).name == best->name, "%s: got %s expected %s", d.c_str(), m.GetContainingSector(I, P).name.c_str(), best->name.c_str()); double L = e * r.lu(1e-3, 3); Vector3D q = p + dir * L; DetectorPosition Q = m.ToDet(GeometryPosition(q)); double col = m.GetColumnDepthInCGS(P, Q), back = m.GetColumnDepthInCGS(Q, P); CHECK("either_way", close(col, back, 1e-6, 1e-3), "%s: %.17g %.17g", d.c_str(), col, back); double riem = 0; int N = 400; for(int i = 0; i < N; ++i) riem += m.GetMassDensity(m.ToDet(GeometryPosition(p + dir * (L * (i + r.u()) / N)))) * L / N * 100; double slack = 0; for(size_t i = 0; i < I.intersections.size(); ++i) if(I.intersections[i].distance > 0 && I.intersections[i].distance < L) slack += 15 * L / N * 100; CHECK("column", close(col, riem, 0.05, slack * 2 + 1e-6), "%s: %.17g against %.17g summed, %zu crossings", d.c_str(), col, riem, I.intersections.size()); double half = col * r.u(0.05, 0.95); if(col > 1e-3) { double x = m.DistanceForColumnDepthFromPoint(P, m.ToDet(GeometryDirection(dir)), half); CHECK("inverse", x >= 0 && x <= L * (1 + 1e-9) && close(m.GetColumnDepthInCGS(P, m.ToDet(GeometryPosition(p + dir * x))), half, 1e-5, 1e-3), "%s: %g of %g m for %g of %g", d.c_str(), x, L, half, col); } }
    seen("%s", d.substr(d.rfind('/') + 1).c_str()); }
