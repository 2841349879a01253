// MON-REG
// P02: interaction trees. A reference model (parent vector) is maintained next to the real tree; archives are written, read back,
// truncated and corrupted.
#include "mon.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include "SIREN/dataclasses/InteractionTree.h"
#include <memory>
using namespace siren::dataclasses; using mon::Rng;
typedef std::shared_ptr<InteractionTreeDatum> DP;

static InteractionRecord rrec(Rng & r) {
    InteractionRecord x; auto pt = [&] { return static_cast<ParticleType>(r.pick({12, 14, -14, 16, 13, -13, 11, 22, 2212, 5914, -2000001006, 1000080160, 421, -431})); };
    auto d = [&] { switch(r.i(12)) { case 0: return 0.0; case 1: return -0.0; case 2: return 1e308; case 3: return 5e-324; case 4: return 1.0 / 3; default: return r.normal() * r.lu(1e-9, 1e9); } };
    x.signature.primary_type = pt(); x.signature.target_type = pt(); size_t n = r.i(6); for(size_t i = 0; i < n; ++i) x.signature.secondary_types.push_back(pt());
    if(r.coin(0.9)) x.primary_id = ParticleID(r.next(), (int32_t)r.next()); if(r.coin(0.9)) x.target_id = ParticleID(r.next(), (int32_t)r.next());
    x.primary_mass = d(); x.primary_helicity = d(); x.target_mass = d(); x.target_helicity = d(); x.primary_initial_time = d(); x.interaction_time = d();
    for(auto & v : x.primary_momentum) v = d(); for(auto & v : x.primary_initial_position) v = d(); for(auto & v : x.interaction_vertex) v = d();
    for(size_t i = 0; i < n; ++i) { x.secondary_ids.push_back(ParticleID(r.next(), (int32_t)i)); x.secondary_masses.push_back(d()); x.secondary_momenta.push_back({d(), d(), d(), d()}); x.secondary_helicities.push_back(d()); x.secondary_times.push_back(d()); }
    for(int i = r.i(4); i > 0; --i) x.interaction_parameters["p" + std::to_string(r.i(9)) + (r.coin(0.1) ? "\n\"\\" : "")] = d();
    return x;
}
// full-field comparison that does not use the library's operator==
static bool same(InteractionRecord const & a, InteractionRecord const & b) {
    return a.signature.primary_type == b.signature.primary_type && a.signature.target_type == b.signature.target_type && a.signature.secondary_types == b.signature.secondary_types
        && a.primary_id.IsSet() == b.primary_id.IsSet() && a.primary_id.GetMajorID() == b.primary_id.GetMajorID() && a.primary_id.GetMinorID() == b.primary_id.GetMinorID()
        && a.target_id.IsSet() == b.target_id.IsSet() && a.target_id.GetMajorID() == b.target_id.GetMajorID() && a.target_id.GetMinorID() == b.target_id.GetMinorID()
        && a.primary_mass == b.primary_mass && a.primary_momentum == b.primary_momentum && a.primary_helicity == b.primary_helicity && a.primary_initial_position == b.primary_initial_position && a.primary_initial_time == b.primary_initial_time
        && a.target_mass == b.target_mass && a.target_helicity == b.target_helicity && a.interaction_vertex == b.interaction_vertex && a.interaction_time == b.interaction_time
        && a.secondary_ids.size() == b.secondary_ids.size() && std::equal(a.secondary_ids.begin(), a.secondary_ids.end(), b.secondary_ids.begin(), [](ParticleID const & x, ParticleID const & y) { return x.IsSet() == y.IsSet() && x.GetMajorID() == y.GetMajorID() && x.GetMinorID() == y.GetMinorID(); })
        && a.secondary_masses == b.secondary_masses && a.secondary_momenta == b.secondary_momenta && a.secondary_helicities == b.secondary_helicities && a.secondary_times == b.secondary_times && a.interaction_parameters == b.interaction_parameters;
}
struct Model { std::vector<int> parent; std::vector<InteractionRecord> rec; };
static std::shared_ptr<InteractionTree> build(Rng & r, Model & m, size_t maxn) {
    auto t = std::make_shared<InteractionTree>(); size_t n = r.i(maxn + 1); int shape = r.i(4);
    for(size_t i = 0; i < n; ++i) {
        InteractionRecord rec = rrec(r); int p = -1;
        if(i > 0) p = shape == 0 ? (int)i - 1 : shape == 1 ? 0 : shape == 2 ? (int)r.i(i) : (r.coin(0.2) ? -1 : (int)r.i(i));
        DP par = p < 0 ? nullptr : t->tree[p], got;
        switch(r.i(4)) {
            case 0: got = t->add_entry(rec, par); break;
            case 1: { InteractionTreeDatum d(rec); if(r.coin()) { d.node_id = r.i(5); d.parent_index = r.i(5); d.daughter_indices = {7, 8}; } got = t->add_entry(d, par); break; }
            case 2: { DP d = std::make_shared<InteractionTreeDatum>(rec); if(r.coin()) { d->node_id = 3; d->parent_index = 1; d->daughter_indices = {9}; } got = t->add_entry(d, par); CHECK("add-returns-node", got == d, "add_entry did not keep the given node"); break; }
            default: { DP d = std::make_shared<InteractionTreeDatum>(rec); got = t->add_entry(d, par); }
        }
        m.parent.push_back(p); m.rec.push_back(rec);
        CHECK("add-returns-node", got && t->tree.size() == i + 1 && t->tree.back() == got, "add_entry result is not the new last node");
    }
    t->header.event_number = r.next(); for(int i = r.i(4); i > 0; --i) t->header.weights.push_back(r.normal()); for(int i = r.i(3); i > 0; --i) t->header.provenance["k" + std::to_string(i)] = std::string(r.i(20), 'a' + r.i(26));
    return t;
}
static void structure(InteractionTree const & t, Model const & m, char const * when) {
    CHECK("node-count", t.tree.size() == m.parent.size(), "%s: %zu nodes, expected %zu", when, t.tree.size(), m.parent.size()); if(t.tree.size() != m.parent.size()) return;
    std::vector<std::vector<uint32_t>> kids(m.parent.size()); for(size_t i = 0; i < m.parent.size(); ++i) if(m.parent[i] >= 0) kids[m.parent[i]].push_back(i);
    for(size_t i = 0; i < m.parent.size(); ++i) {
        auto const & d = t.tree[i]; CHECK("non-null", bool(d), "%s: node %zu null", when, i); if(!d) return;
        CHECK("node-id-is-position", d->node_id == i, "%s: node %zu has id %u", when, i, d->node_id);
        CHECK("parent-link", d->parent_index == (m.parent[i] < 0 ? kNoParent : (uint32_t)m.parent[i]) && d->is_root() == (m.parent[i] < 0), "%s: node %zu parent %u expected %d", when, i, d->parent_index, m.parent[i]);
        CHECK("daughter-links", d->daughter_indices == kids[i], "%s: node %zu daughters %zu expected %zu", when, i, d->daughter_indices.size(), kids[i].size());
        int dep = 0; for(int p = m.parent[i]; p >= 0; p = m.parent[p]) ++dep;
        CHECK("depth", t.depth(i) == dep && d->depth(t) == dep, "%s: node %zu depth %d expected %d", when, i, t.depth(i), dep);
        CHECK("record-kept", same(d->record, m.rec[i]), "%s: node %zu record changed", when, i);
        CHECK("node-access", t.at(i) == d, "%s: at(%zu) is another node", when, i);
    }
}
static bool valid(InteractionTree const & t) { // what a successful load promises
    for(size_t i = 0; i < t.tree.size(); ++i) { auto const & d = t.tree[i]; if(!d || d->node_id != i) return false; if(d->parent_index != kNoParent && d->parent_index >= t.tree.size()) return false; for(auto k : d->daughter_indices) if(k >= t.tree.size()) return false; }
    return true;
}
struct Tmp { std::string p; Tmp() { char b[] = "tree_XXXXXX"; int fd = mkstemp(b); close(fd); p = b; unlink(b); } ~Tmp() { unlink((p + ".siren_events").c_str()); } };

GROUP(P02, build_and_roundtrip, 1200, 40000) {
    Rng & r = c.r; std::vector<std::shared_ptr<InteractionTree>> trees; std::vector<Model> ms; size_t nt = r.i(5);
    for(size_t i = 0; i < nt; ++i) { Model m; trees.push_back(build(r, m, r.coin(0.05) ? 120 : 12)); ms.push_back(m); structure(*trees.back(), ms.back(), "built"); seen("nodes=%zu h=%llx", m.parent.size(), (unsigned long long)mon::hstr(std::string((char *)m.parent.data(), m.parent.size() * sizeof(int)))); }
    // file round trip
    Tmp f; SaveInteractionTrees(trees, f.p); auto back = LoadInteractionTrees(f.p);
    // a disk without room: what is not on disk has to be reported
    if(c.cas % 4 == 0) { Tmp g; if(symlink("/dev/full", (g.p + ".siren_events").c_str()) == 0 && access("/dev/full", W_OK) == 0) { bool th = false; try { SaveInteractionTrees(trees, g.p); } catch(std::exception const &) { th = true; } CHECK("failed-save-is-reported", th, "%zu trees saved to a full disk, and nothing is said", nt); obs("saves to a full disk"); } }
    CHECK("file-count", back.size() == nt, "%zu trees read, %zu written", back.size(), nt);
    for(size_t i = 0; i < nt && i < back.size(); ++i) { structure(*back[i], ms[i], "file round trip"); CHECK("header-kept", back[i]->header.event_number == trees[i]->header.event_number && back[i]->header.weights == trees[i]->header.weights && back[i]->header.provenance == trees[i]->header.provenance, "header changed"); CHECK("equal-after-roundtrip", *back[i] == *trees[i], "read tree compares unequal"); }
    for(size_t i = 0; i < nt; ++i) { // stream round trips
        std::stringstream ss; { cereal::BinaryOutputArchive a(ss); a(*trees[i]); } InteractionTree t2; if(r.coin()) { InteractionRecord q = rrec(r); t2.add_entry(q); t2.header.weights = {1, 2}; } { cereal::BinaryInputArchive a(ss); a(t2); } structure(t2, ms[i], "binary round trip"); CHECK("equal-after-roundtrip", t2 == *trees[i], "binary round trip unequal");
        if(r.coin(0.3)) { std::stringstream js; { cereal::JSONOutputArchive a(js); a(*trees[i]); } InteractionTree t3; { cereal::JSONInputArchive a(js); a(t3); } structure(t3, ms[i], "json round trip"); CHECK("equal-after-roundtrip", t3 == *trees[i], "json round trip unequal"); }
    }
    // equality sees every difference
    if(nt && !ms[0].parent.empty()) { auto & t = *trees[0]; InteractionTree u; u.header = t.header; for(auto & d : t.tree) u.tree.push_back(std::make_shared<InteractionTreeDatum>(*d)); CHECK("equality", u == t, "deep copy unequal");
        auto & d = *u.tree[r.i(u.tree.size())]; switch(r.i(9)) { case 0: d.node_id += 1; break; case 1: d.parent_index ^= 1; break; case 2: d.daughter_indices.push_back(0); break; case 3: d.record.primary_mass = d.record.primary_mass == 1.5 ? 2 : 1.5; break; case 4: u.header.event_number ^= 1ull << r.i(64); break; case 5: u.header.weights.push_back(0); break; case 6: u.header.provenance["zz"] = "1"; break; case 7: u.tree.push_back(std::make_shared<InteractionTreeDatum>()); break; case 8: d.record.interaction_time = d.record.interaction_time == 3 ? 4 : 3; break; }
        CHECK("equality", !(u == t) && !(t == u), "mutated tree still compares equal"); }
    std::string s; for(auto & t : trees) { s += to_str(*t) + to_repr(*t); for(auto & d : t->tree) s += to_str(*d) + to_repr(*d); } obs("printed-bytes", s.size()); obs("trees", nt);
}
// version-0 archives: edges were shared pointers; a writer for that layout
struct LegacyDatum { InteractionRecord record; std::shared_ptr<LegacyDatum> parent; std::vector<std::shared_ptr<LegacyDatum>> daughters;
    template<class A> void serialize(A & a, std::uint32_t const) { a(cereal::make_nvp("Record", record)); a(cereal::make_nvp("Parent", parent)); a(cereal::make_nvp("Daughters", daughters)); } };
struct LegacyTree { std::vector<std::shared_ptr<LegacyDatum>> tree; template<class A> void serialize(A & a, std::uint32_t const) { a(cereal::make_nvp("Tree", tree)); } };
CEREAL_CLASS_VERSION(LegacyDatum, 0); CEREAL_CLASS_VERSION(LegacyTree, 0);
GROUP(P02, legacy_archives, 400, 10000) {
    Rng & r = c.r; Model m; auto t = build(r, m, 14); LegacyTree lt;
    for(size_t i = 0; i < m.parent.size(); ++i) { auto d = std::make_shared<LegacyDatum>(); d->record = m.rec[i]; if(m.parent[i] >= 0) { d->parent = lt.tree[m.parent[i]]; d->parent->daughters.push_back(d); } lt.tree.push_back(d); }
    std::stringstream ss; bool js = r.coin(0.3); if(js) { cereal::JSONOutputArchive a(ss); a(lt); } else { cereal::BinaryOutputArchive a(ss); a(lt); }
    for(auto & d : lt.tree) { d->parent.reset(); d->daughters.clear(); }
    InteractionTree u; if(js) { cereal::JSONInputArchive a(ss); a(u); } else { cereal::BinaryInputArchive a(ss); a(u); }
    structure(u, m, "legacy load"); seen("legacy n=%zu %d", m.parent.size(), js);
    for(auto & d : u.tree) CHECK("legacy-edges-cleared", !d->legacy_parent && d->legacy_daughters.empty(), "legacy pointers survive the load"); // no ownership cycle
    std::vector<std::weak_ptr<InteractionTreeDatum>> w(u.tree.begin(), u.tree.end()); u.tree.clear(); for(auto & x : w) CHECK("nodes-released", x.expired(), "node kept alive by a reference cycle");
}
GROUP(P02, truncated_archives, 250, 6000) {
    Rng & r = c.r; Model m; std::vector<std::shared_ptr<InteractionTree>> trees; std::vector<Model> ms; size_t nt = 1 + r.i(3); for(size_t i = 0; i < nt; ++i) { Model mm; trees.push_back(build(r, mm, 6)); ms.push_back(mm); }
    Tmp f; SaveInteractionTrees(trees, f.p); std::string path = f.p + ".siren_events"; std::ifstream is(path, std::ios::binary); std::string bytes((std::istreambuf_iterator<char>(is)), {}); is.close();
    for(int k = 0; k < 12; ++k) { size_t cut = k == 0 ? bytes.size() - 1 : k == 1 ? 0 : r.i(bytes.size()); { std::ofstream os(path, std::ios::binary | std::ios::trunc); os.write(bytes.data(), cut); }
        bool threw = false; size_t got = 0; try { auto b = LoadInteractionTrees(f.p); got = b.size(); } catch(std::exception const &) { threw = true; }
        CHECK("truncated-rejected", threw, "file cut to %zu of %zu bytes was accepted with %zu trees", cut, bytes.size(), got); seen("cut %zu", cut); }
    bool threw = false; try { LoadInteractionTrees("no/such/file"); } catch(std::exception const &) { threw = true; } CHECK("missing-rejected", threw, "missing file was accepted");
}
GROUP(P02, corrupt_indices, 2500, 60000) {
    Rng & r = c.r; Model m; auto t = build(r, m, 8); if(t->tree.empty()) { InteractionRecord q = rrec(r); t->add_entry(q); m.parent.push_back(-1); m.rec.push_back(q); }
    size_t n = t->tree.size(); auto & d = t->tree[r.i(n)]; int kind = r.i(7); bool must = true; uint32_t bad = r.pick({(uint32_t)n, (uint32_t)n + 1, 0xFFFFFFFEu, 0xFFFFFFFFu, 0x80000000u, 0x10000u + (uint32_t)r.i(n), (uint32_t)n + 1000}); if(kind == 1 && bad == kNoParent) bad = n;
    switch(kind) { case 0: d->node_id = bad; break; case 1: d->parent_index = bad; break; case 2: d->daughter_indices.insert(d->daughter_indices.begin() + r.i(d->daughter_indices.size() + 1), bad); break; case 3: if(!d->daughter_indices.empty()) d->daughter_indices[r.i(d->daughter_indices.size())] = bad; else d->daughter_indices.push_back(bad); break;
        case 4: d = nullptr; break; case 5: if(n > 1) { uint32_t o = d->node_id; uint32_t j; do j = r.i(n); while(j == o); std::swap(t->tree[o], t->tree[j]); } else d->node_id = kNoParent; break;
        case 6: d->parent_index = r.i(n); must = false; break; } // in range but possibly cyclic
    std::stringstream ss; bool js = r.coin(0.25); if(js) { cereal::JSONOutputArchive a(ss); a(*t); } else { cereal::BinaryOutputArchive a(ss); a(*t); }
    InteractionTree u; bool threw = false; try { if(js) { cereal::JSONInputArchive a(ss); a(u); } else { cereal::BinaryInputArchive a(ss); a(u); } } catch(std::exception const &) { threw = true; }
    seen("corrupt %d n=%zu js=%d", kind, n, js);
    if(must) CHECK("corrupt-rejected", threw, "corruption kind %d (value %u, %zu nodes) was accepted", kind, bad, n);
    if(!threw) { CHECK("loaded-tree-valid", valid(u), "accepted tree violates its invariant (kind %d)", kind);
        for(size_t i = 0; i < u.tree.size(); ++i) { bool th = false; int dd = -1; try { dd = u.depth(i); } catch(std::exception const &) { th = true; }
            int exp = 0; std::vector<bool> vis(u.tree.size()); uint32_t p = u.tree[i]->parent_index; bool cyc = false; while(p != kNoParent) { ++exp; if(vis[p]) { cyc = true; break; } vis[p] = true; p = u.tree[p]->parent_index; }
            CHECK("depth-terminates", cyc ? th : (!th && dd == exp), "depth of node %zu: cyclic=%d threw=%d depth=%d expected %d", i, cyc, th, dd, exp); } }
    // unsupported versions
    for(std::uint32_t v : {2u, 7u, 0xFFFFFFFFu}) { bool th = false; std::stringstream x; { cereal::BinaryOutputArchive o(x); InteractionTree e; try { e.save(o, v); } catch(std::runtime_error const &) { th = true; } } CHECK("version-rejected", th, "tree saved with version %u", v);
        th = false; std::stringstream y(std::string(64, '\0')); cereal::BinaryInputArchive a(y); InteractionTree e; try { e.load(a, v); } catch(std::runtime_error const &) { th = true; } CHECK("version-rejected", th, "tree loaded with version %u", v);
        th = false; InteractionTreeDatum dd; std::stringstream z(std::string(512, '\0')); cereal::BinaryInputArchive az(z); try { dd.load(az, v); } catch(std::runtime_error const &) { th = true; } CHECK("version-rejected", th, "datum loaded with version %u", v); }
}
// ordering and equality of records and signatures used as keys
GROUP(P02, record_order, 6000, 200000) {
    Rng & r = c.r; std::vector<InteractionRecord> v; v.push_back(rrec(r)); v.push_back(v[0]); v.push_back(v[0]);
    for(int k = 1; k < 3; ++k) { auto & x = v[k]; size_t ns = x.signature.secondary_types.size(); auto nudge = [&](double & d) { d = d + (r.coin() ? 1 : -1) * (std::fabs(d) + 1); };
        switch(r.i(19)) { case 0: x.signature.primary_type = static_cast<ParticleType>(r.ri(-20, 20)); break; case 1: x.signature.target_type = static_cast<ParticleType>(r.ri(-20, 20)); break; case 2: x.signature.secondary_types.push_back(ParticleType::Gamma); break; case 3: x.primary_id = ParticleID(r.i(3), r.i(3)); break; case 4: nudge(x.primary_initial_position[r.i(3)]); break; case 5: nudge(x.primary_initial_time); break; case 6: nudge(x.primary_mass); break; case 7: nudge(x.primary_momentum[r.i(4)]); break; case 8: nudge(x.primary_helicity); break; case 9: x.target_id = ParticleID(r.i(3), r.i(3)); break; case 10: nudge(x.target_mass); break; case 11: nudge(x.target_helicity); break; case 12: nudge(x.interaction_vertex[r.i(3)]); break; case 13: nudge(x.interaction_time); break; case 14: if(ns) nudge(x.secondary_masses[r.i(ns)]); break; case 15: if(ns) nudge(x.secondary_momenta[r.i(ns)][r.i(4)]); break; case 16: if(ns) nudge(x.secondary_helicities[r.i(ns)]); break; case 17: if(ns) nudge(x.secondary_times[r.i(ns)]); break; case 18: x.interaction_parameters["p" + std::to_string(r.i(9))] = r.normal(); break; } }
    for(auto & a : v) { CHECK("order-irreflexive", !(a < a) && a == a, "record less than or different from itself"); for(auto & b : v) { bool eq = same(a, b); CHECK("record-equality", (a == b) == eq, "operator== says %d, field comparison says %d", a == b, eq); CHECK("order-total", (a < b) + (b < a) + (a == b) == 1, "a<b=%d b<a=%d a==b=%d", a < b, b < a, a == b);
            auto const & s = a.signature; auto const & q = b.signature; CHECK("signature-order", (s < q) + (q < s) + (s == q) == 1 && (s != q) == !(s == q), "signature order"); for(auto & d : v) CHECK("order-transitive", !(a < b && b < d) || a < d, "order is not transitive"); } }
    seen("ord %d%d%d", (int)(v[0] < v[1]), (int)(v[0] < v[2]), (int)(v[1] < v[2]));
}
MON_MAIN
