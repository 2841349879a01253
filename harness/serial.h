// Save and load through cereal's archives, with the monitors every serialisable type shares.
#pragma once
#include "mon.h"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/polymorphic.hpp>
#include <cereal/types/string.hpp>
#include <memory>
#include <sstream>
#include <typeinfo>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#define SER_LEAKY __lsan::ScopedDisabler ser_leaky_;
#endif
#endif
#ifndef SER_LEAKY
#define SER_LEAKY
#endif
namespace ser {
using mon::Rng;
template<class T> std::string save(int f, T const & x) { std::ostringstream o; if(f == 0) { cereal::JSONOutputArchive a(o); a(cereal::make_nvp("v", x)); } else if(f == 1) { cereal::BinaryOutputArchive a(o); a(x); } else { cereal::PortableBinaryOutputArchive a(o); a(x); } return o.str(); }
template<class T> void load(int f, std::string const & s, T & x) { std::istringstream i(s); if(f == 0) { cereal::JSONInputArchive a(i); a(cereal::make_nvp("v", x)); } else if(f == 1) { cereal::BinaryInputArchive a(i); a(x); } else { cereal::PortableBinaryInputArchive a(i); a(x); } }
static char const * F[] = {"json", "binary", "portable"};
template<class T> std::string tryload(int f, std::string const & s, T & x) { try { load(f, s, x); return ""; } catch(std::exception const & e) { return e.what() + std::string(" "); } }
// replace the n-th class version of a JSON document (n<0: all) by a version no class has
static inline int versions(std::string const & s) { int n = 0; for(size_t p = 0; (p = s.find("\"cereal_class_version\":", p)) != std::string::npos; ++p) ++n; return n; }
static inline std::string bump(std::string s, int n) { std::string k = "\"cereal_class_version\": "; int i = 0; for(size_t p = 0; (p = s.find(k, p)) != std::string::npos; ++i) { p += k.size(); if(n < 0 || i == n) { size_t e = p; while(e < s.size() && isdigit((unsigned char)s[e])) ++e; s.replace(p, e - p, "117"); } } return s; }
// hostile: versions newer than the library knows and truncated files have to be refused
template<class P> void hostile(std::string const & nm, Rng & r, P const & p, bool inner) { SER_LEAKY // cereal does not run the destructor of an object whose loading fails half way
    std::string j = save(0, p), b = save(1, p), q = save(2, p); int n = versions(j);
    if(n) { P x; std::string e = tryload(0, bump(j, 0), x); CHECK("newer-version-refused", !e.empty(), "%s: archive of a newer class version loaded", nm.c_str()); if(inner && n > 1) { int k = 1 + r.i(n - 1); P y; e = tryload(0, bump(j, k), y); CHECK("newer-version-refused", !e.empty(), "%s: archive with a newer version of inner class %d loaded", nm.c_str(), k); } }
    if(b.size() > 1) { P x; std::string e = tryload(1, b.substr(0, r.i(b.size())), x); CHECK("truncated-refused", !e.empty(), "%s: truncated binary archive loaded", nm.c_str()); P y; e = tryload(2, q.substr(0, r.i(q.size())), y); CHECK("truncated-refused", !e.empty(), "%s: truncated portable archive loaded", nm.c_str()); }
    { size_t end = j.find_last_of('}'); P x; std::string e = tryload(0, j.substr(0, r.i(end)), x); CHECK("truncated-refused", !e.empty(), "%s: truncated json archive loaded", nm.c_str()); }
}
// a value type: same(a,b) is the harness's own comparison. exact: the text saved again is the same text
template<class T, class S> void value(std::string const & nm, Rng & r, T const & v, S same, bool exact = true) {
    int f = r.i(3); std::string s = save(f, v); T w; std::string e = tryload(f, s, w); CHECK("loads", e.empty(), "%s %s: saved archive does not load: %s", nm.c_str(), F[f], e.c_str()); if(!e.empty()) return;
    CHECK("same-after-loading", same(v, w), "%s %s: loaded object differs", nm.c_str(), F[f]); if(f != 0) CHECK("saving-changes-nothing", save(f, v) == s, "%s %s: an object saved twice is saved differently", nm.c_str(), F[f]); if(exact) CHECK("saves-the-same-again", save(f, w) == s, "%s %s: the loaded object is saved differently", nm.c_str(), F[f]); mon::obs("archives loaded", 1); seen("%s %s", nm.c_str(), F[f]);
}
// a class held by a pointer to its base
template<class B, class S> std::shared_ptr<B> poly(std::string const & nm, Rng & r, std::shared_ptr<B> const & p, S same, bool exact = true, bool inner = true, int f = -1) {
    if(f < 0) f = r.i(3); std::string s; try { s = save(f, p); } catch(std::exception const & e) { CHECK("saves", false, "%s %s: %s", nm.c_str(), F[f], e.what()); return nullptr; }
    std::shared_ptr<B> q; std::string e = tryload(f, s, q); CHECK("loads", e.empty() && q, "%s %s: saved archive does not load: %s", nm.c_str(), F[f], e.c_str()); if(!e.empty() || !q) return nullptr;
    B & pr = *p; B & qr = *q; CHECK("dynamic-type", typeid(pr) == typeid(qr), "%s %s: saved a %s, loaded a %s", nm.c_str(), F[f], typeid(pr).name(), typeid(qr).name()); if(typeid(pr) != typeid(qr)) return nullptr;
    CHECK("saving-changes-nothing", save(f, p) == s, "%s %s: an object saved twice is saved differently", nm.c_str(), F[f]); same(*p, *q); if(exact) CHECK("saves-the-same-again", save(f, q) == s, "%s %s: the loaded object is saved differently", nm.c_str(), F[f]); mon::obs("archives loaded", 1); seen("%s %s", nm.c_str(), F[f]);
    if(r.coin(0.3)) { std::vector<std::shared_ptr<B>> v{p, p, nullptr, q}, w; s = save(f, v); e = tryload(f, s, w); CHECK("shared-objects-stay-shared", e.empty() && w.size() == 4 && w[0] && w[0] == w[1] && !w[2] && w[3] && w[3] != w[0], "%s %s: a list with one object twice came back otherwise: %s", nm.c_str(), F[f], e.c_str()); }
    if(r.coin(0.5)) hostile(nm, r, p, inner); return q;
}
}
