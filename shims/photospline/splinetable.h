// Stand-in for photospline (not available offline): a multi-linear table over a regular grid with the same
// call interface.  It lets the spline-driven cross sections run on synthetic smooth tables.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iterator>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
struct splinetable_buffer { void * data; size_t size; };
namespace photospline {
template<typename Alloc = std::allocator<void>>
class splinetable {
public:
    std::map<std::string, double> keys;
    std::vector<double> lo, hi;
    std::vector<uint32_t> n;
    std::vector<double> v;
    splinetable() = default;
    explicit splinetable(std::string const & f) { load(f); }
    explicit splinetable(char const * f) { load(f); }
    void load(std::string const & f) {
        std::ifstream s(f, std::ios::binary);
        if(!s) throw std::runtime_error("splinetable: cannot open " + f);
        std::vector<char> b((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>());
        read_fits_mem(b.data(), b.size());
    }
    bool operator==(splinetable const & o) const { return keys==o.keys && lo==o.lo && hi==o.hi && n==o.n && v==o.v; }
    bool operator!=(splinetable const & o) const { return !(*this==o); }
    uint32_t get_ndim() const { return n.size(); }
    double lower_extent(uint32_t i) const { return lo.at(i); }
    double upper_extent(uint32_t i) const { return hi.at(i); }
    bool searchcenters(double const * x, int * c) const {
        for(size_t i=0;i<n.size();++i) {
            if(!(x[i] >= lo[i] && x[i] <= hi[i])) return false;
            double t=(x[i]-lo[i])/(hi[i]-lo[i])*(n[i]-1);
            int k=(int)t; if(k>(int)n[i]-2) k=(int)n[i]-2; if(k<0) k=0;
            c[i]=k;
        }
        return true;
    }
    double ndsplineeval(double const * x, int const * c, int) const {
        size_t d=n.size(); double r=0;
        for(size_t m=0;m<(size_t(1)<<d);++m) {
            double w=1; size_t idx=0;
            for(size_t i=0;i<d;++i) {
                double t=(x[i]-lo[i])/(hi[i]-lo[i])*(n[i]-1)-c[i];
                bool up=(m>>i)&1; w*= up? t : 1-t;
                idx=idx*n[i]+c[i]+(up?1:0);
            }
            r+=w*v.at(idx);
        }
        return r;
    }
    template<typename T> bool read_key(char const * k, T & out) const {
        auto it=keys.find(k); if(it==keys.end()) return false; out=(T)it->second; return true;
    }
    std::pair<void*, size_t> write_fits_mem() const {
        std::ostringstream s; s.precision(17);
        s << "STANDIN " << keys.size(); for(auto & k: keys) s << " " << k.first << " " << k.second;
        s << " " << n.size(); for(size_t i=0;i<n.size();++i) s << " " << lo[i] << " " << hi[i] << " " << n[i];
        for(double x: v) s << " " << x;
        std::string o=s.str(); void * p=std::malloc(o.size()+1); std::memcpy(p,o.data(),o.size());
        return {p,o.size()};
    }
    void read_fits_mem(void const * p, size_t sz) {
        std::istringstream s(std::string((char const*)p,sz)); std::string magic; size_t nk=0, nd=0;
        if(!(s>>magic) || magic!="STANDIN") throw std::runtime_error("splinetable: bad table");
        s>>nk; keys.clear(); for(size_t i=0;i<nk;++i){std::string k; double x; s>>k>>x; keys[k]=x;}
        s>>nd; if(nd>8) throw std::runtime_error("splinetable: bad table"); lo.assign(nd,0); hi.assign(nd,0); n.assign(nd,0); size_t t=1;
        for(size_t i=0;i<nd;++i){s>>lo[i]>>hi[i]>>n[i]; t*=n[i];}
        if(t>50000000) throw std::runtime_error("splinetable: bad table");
        v.assign(t,0); for(size_t i=0;i<t;++i) s>>v[i];
        if(!s) throw std::runtime_error("splinetable: truncated table");
    }
};
}
