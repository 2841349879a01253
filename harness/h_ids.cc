// Particle identifiers across threads and processes (P19), with delays injected at the loads, stores and branches of the real code.
#include "mon.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
#include <sys/wait.h>
#include <sched.h>
#include "SIREN/dataclasses/ParticleID.h"
#include "SIREN/dataclasses/Particle.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Random.h"
using namespace siren::dataclasses; using namespace mon;

// ---- delay injection: called by the instrumented library code (configuration "sched") -----------------------
static std::atomic<int> g_inject{0}; static std::atomic<unsigned long> g_points{0}, g_delays{0}; static thread_local uint64_t t_rng = 0; static std::atomic<uint64_t> g_tseed{1};
static void point() { int p = g_inject.load(std::memory_order_relaxed); if(!p) return; if(!t_rng) t_rng = mix(g_tseed.fetch_add(1) * 977 + getpid()); t_rng = mix(t_rng); g_points.fetch_add(1, std::memory_order_relaxed);
    if((int)(t_rng % 1000) < p) { g_delays.fetch_add(1, std::memory_order_relaxed); unsigned k = (t_rng >> 20) % 4; if(k == 0) sched_yield(); else { for(volatile int i = 0, n = 200 << (2 * k); i < n; i = i + 1) {} } } }
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t * a, uint32_t * b) { for(; a < b; ++a) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { point(); }
void __sanitizer_cov_load1(uint8_t *) { point(); } void __sanitizer_cov_load2(uint16_t *) { point(); } void __sanitizer_cov_load4(uint32_t *) { point(); } void __sanitizer_cov_load8(uint64_t *) { point(); } void __sanitizer_cov_load16(__int128 *) { point(); }
void __sanitizer_cov_store1(uint8_t *) { point(); } void __sanitizer_cov_store2(uint16_t *) { point(); } void __sanitizer_cov_store4(uint32_t *) { point(); } void __sanitizer_cov_store8(uint64_t *) { point(); } void __sanitizer_cov_store16(__int128 *) { point(); }
}
struct Id { uint64_t major; int64_t minor; int32_t set; int32_t pid; };
static Id raw(ParticleID const & p) { return {p.GetMajorID(), p.GetMinorID(), p.IsSet(), (int32_t)getpid()}; }
// nthr threads start together and draw n identifiers each; how: which public way an identifier is created
static std::vector<Id> draw(int nthr, int n, int how, int inject) {
    std::vector<std::vector<Id>> out(nthr); std::atomic<int> ready{0}; std::atomic<bool> go{false}; std::vector<std::thread> th;
    for(int t = 0; t < nthr; ++t) th.emplace_back([&, t] { auto & o = out[t]; o.reserve(n); ++ready; while(!go) {}
        for(int i = 0; i < n; ++i) { switch(how) { case 0: o.push_back(raw(ParticleID::GenerateID())); break; case 1: { Particle p; o.push_back(raw(p.GenerateID())); break; } default: { PrimaryDistributionRecord r(ParticleType::NuMu); o.push_back(raw(r.GetID())); } } } });
    while(ready < nthr) sched_yield(); g_inject = inject; go = true; for(auto & t : th) t.join(); g_inject = 0; std::vector<Id> r; for(auto & o : out) r.insert(r.end(), o.begin(), o.end()); return r; }
static bool wr(int fd, std::vector<Id> const & v) { char const * p = (char const *)v.data(); size_t n = v.size() * sizeof(Id); while(n) { ssize_t k = write(fd, p, n); if(k <= 0) return false; p += k; n -= k; } return true; }
static std::vector<Id> rd(int fd) { std::vector<Id> v; Id b; size_t have = 0; while(true) { ssize_t k = read(fd, (char *)&b + have, sizeof b - have); if(k <= 0) break; have += k; if(have == sizeof b) { v.push_back(b); have = 0; } } return v; }
static void unique(std::vector<Id> const & all, size_t want, char const * what) { std::map<std::pair<uint64_t, int64_t>, int> m; bool set = true; for(auto & i : all) { set = set && i.set; auto r = m.insert({{i.major, i.minor}, i.pid}); if(!r.second) { CHECK("unique", false, "%s: (%llu, %lld) given out twice, by processes %d and %d", what, (unsigned long long)i.major, (long long)i.minor, r.first->second, i.pid); return; } }
    CHECK("unique", m.size() == want, "%s: %zu identifiers of %zu", what, m.size(), want); CHECK("is_set", set, "%s", what); obs("identifiers compared", all.size()); }

GROUP(P19, threads, 150, 6000) { Rng & r = c.r; int nt = r.ri(2, 8), n = r.ri(1, 400), how = r.ri(0, 2), inj = r.pick({0, 5, 50}); g_tseed = r.next(); auto v = draw(nt, n, how, inj); unique(v, (size_t)nt * n, "threads"); std::set<uint64_t> maj; for(auto & i : v) maj.insert(i.major); CHECK("one_process_one_origin", maj.size() == 1, "%zu origins in one process", maj.size()); CHECK("origin_nonzero", !maj.count(0), "-"); seen("t%d how%d inj%d n%d", nt, how, inj, n / 100); obs("delay points", g_points.exchange(0)); obs("delays injected", g_delays.exchange(0)); }

#if !__has_feature(thread_sanitizer)
// a fresh process tree: each process draws before, between and after forking; every process starts several threads at once
static void node(Rng r, int depth, int fd, int inj) { std::vector<Id> v; auto add = [&](std::vector<Id> const & w) { v.insert(v.end(), w.begin(), w.end()); }; g_tseed = r.next();
    if(r.coin(0.6)) add(draw(r.ri(1, 4), r.ri(1, 20), r.ri(0, 2), inj)); std::vector<pid_t> kids;
    if(depth > 0) for(int k = r.ri(1, 2); k > 0; --k) { Rng s(r.next()); pid_t p = fork(); if(p == 0) { node(s, depth - 1, fd, inj); _exit(0); } if(p > 0) kids.push_back(p); if(r.coin(0.5)) add(draw(r.ri(1, 3), r.ri(1, 10), 0, inj)); }
    add(draw(r.ri(2, 6), r.ri(1, 30), r.ri(0, 2), inj)); wr(fd, v); for(pid_t p : kids) { int st; waitpid(p, &st, 0); } }
GROUP(P19, processes, 250, 10000) { Rng & r = c.r; int fds[2]; if(pipe(fds)) return; int inj = r.pick({0, 20, 100, 300}); int depth = r.ri(1, 2); bool warm = r.coin(0.5); if(warm) ParticleID::GenerateID(); Rng s(r.next()); pid_t p = fork(); if(p == 0) { close(fds[0]); node(s, depth, fds[1], inj); _exit(0); } std::vector<Id> own; if(warm) own = draw(2, r.ri(1, 50), 0, inj); close(fds[1]); auto v = rd(fds[0]); close(fds[0]); int st; waitpid(p, &st, 0); CHECK("process_survived", WIFEXITED(st) && WEXITSTATUS(st) == 0, "status %d", st); v.insert(v.end(), own.begin(), own.end()); std::set<int> pids; std::map<int, std::set<uint64_t>> maj; for(auto & i : v) { pids.insert(i.pid); maj[i.pid].insert(i.major); }
    unique(v, v.size(), warm ? "processes forked after first use" : "processes"); for(auto & m : maj) CHECK("one_process_one_origin", m.second.size() == 1, "process %d used %zu origins", m.first, m.second.size()); std::map<uint64_t, int> owner; for(auto & m : maj) for(uint64_t u : m.second) { CHECK("origins_not_shared", !owner.count(u), "processes %d and %d share the origin %llu", owner[u], m.first, (unsigned long long)u); owner[u] = m.first; } obs("processes", pids.size()); seen("d%d warm%d inj%d p%zu", depth, warm, inj, pids.size()); }
#endif

GROUP(P19, semantics, 600, 20000) { Rng & r = c.r; ParticleID z; CHECK("default_unset", !z.IsSet() && !z && z.GetMajorID() == 0 && z.GetMinorID() == 0, "-"); auto rid = [&] { return r.coin(0.15) ? ParticleID() : ParticleID(r.pick({(uint64_t)0, (uint64_t)1, (uint64_t)~0ull, r.next(), (uint64_t)r.i(3)}), r.pick({0, 1, 2, -1, 2147483647, (int)r.i(3)})); }; ParticleID a = rid(), b = rid(), d = rid(); auto key = [](ParticleID const & p) { return std::make_tuple(p.IsSet(), p.GetMajorID(), p.GetMinorID()); };
    CHECK("equal_iff_same", (a == b) == (key(a) == key(b)) && (a != b) == !(a == b), "-"); CHECK("order", ((a < b) + (b < a) + (a == b)) == 1 && !(a < a) && (!((a < b) && (b < d)) || a < d), "-"); CHECK("usable_as_bool", (bool)a == a.IsSet(), "-"); uint64_t M = r.next(); int32_t m = (int32_t)r.next(); ParticleID e; e.SetID(M, m); CHECK("set_get", e.IsSet() && e.GetMajorID() == M && e.GetMinorID() == m && e == ParticleID(M, m), "-"); ParticleID f = e, g; g = e; CHECK("copy", f == e && g == e, "-"); CHECK("printable", to_repr(ParticleID()).find("unset") != std::string::npos && to_repr(e).find(std::to_string(M)) != std::string::npos && to_repr(e).find(std::to_string(m)) != std::string::npos && to_str(e).find(std::to_string(M)) != std::string::npos, "-");
    // an identifier that is already set is kept; one that is missing is created
    Particle p; p.id = e; CHECK("generate_replaces_on_request", p.id == e, "-"); ParticleID n = ParticleID::GenerateID(), n2 = ParticleID::GenerateID(); CHECK("fresh", n.IsSet() && n != n2 && n.GetMajorID() == n2.GetMajorID(), "-");
    InteractionRecord rec; rec.signature.primary_type = ParticleType::NuMu; rec.signature.target_type = ParticleType::Nucleon; int ns = r.ri(1, 4); for(int i = 0; i < ns; ++i) { rec.signature.secondary_types.push_back(i ? ParticleType::Hadrons : ParticleType::MuMinus); rec.secondary_ids.push_back(r.coin() ? ParticleID() : ParticleID(77, i)); rec.secondary_masses.push_back(0.1); rec.secondary_momenta.push_back({{1, 0, 0, 0.9}}); rec.secondary_helicities.push_back(0); } rec.target_id = r.coin() ? ParticleID(5, 5) : ParticleID();
    { CrossSectionDistributionRecord x(rec); std::set<ParticleID> ids; for(int i = 0; i < ns; ++i) { ParticleID q = x.GetSecondaryParticleRecord(i).GetID(); CHECK("secondary_id_set", q.IsSet(), "secondary %d", i); CHECK("secondary_id_kept", !rec.secondary_ids[i].IsSet() || q == rec.secondary_ids[i], "secondary %d", i); ids.insert(q); } CHECK("secondary_ids_distinct", (int)ids.size() == ns, "-"); CHECK("target_id", x.GetTargetID().IsSet() && (!rec.target_id.IsSet() || x.GetTargetID() == rec.target_id), "-"); }
    seen("%d %d ns%d", a.IsSet(), b.IsSet(), ns); }
MON_MAIN
