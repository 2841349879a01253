// Stand-in for delabella: Bowyer-Watson Delaunay triangulation behind the subset of the interface SIREN uses.
#pragma once
#include <cmath>
#include <cstddef>
#include <limits>
#include <map>
#include <memory>
#include <vector>
template<typename T = double, typename I = int>
struct IDelaBella2 {
    struct Vertex { Vertex * next = nullptr; T x, y; I i; };
    struct Simplex { Vertex * v[3]; Simplex * next = nullptr; I index; };
    static IDelaBella2<T, I> * Create() { return new IDelaBella2<T, I>(); }
    void Destroy() { delete this; }
    I Triangulate(I n, T const * x, T const * y, size_t stride) {
        verts.clear(); tris.clear();
        auto at=[&](T const * p, I i){ return *(T const *)((char const *)p + (size_t)i*stride); };
        T mnx=std::numeric_limits<T>::max(), mxx=-mnx, mny=mnx, mxy=-mnx;
        for(I i=0;i<n;++i){ Vertex v; v.x=at(x,i); v.y=at(y,i); v.i=i; verts.push_back(v);
            mnx=std::min(mnx,v.x); mxx=std::max(mxx,v.x); mny=std::min(mny,v.y); mxy=std::max(mxy,v.y);}
        if(n<3) return 0;
        T d=std::max(mxx-mnx,mxy-mny)*1000+1, cx=(mnx+mxx)/2, cy=(mny+mxy)/2;
        std::vector<std::pair<T,T>> P; for(auto & v: verts) P.push_back({v.x,v.y});
        P.push_back({cx-d,cy-d}); P.push_back({cx+d,cy-d}); P.push_back({cx,cy+d});
        struct Tr{int a,b,c;}; std::vector<Tr> t{{n,n+1,n+2}};
        for(int i=0;i<n;++i){ std::map<std::pair<int,int>,int> e; std::vector<Tr> keep;
            for(auto & q: t){
                long double ax=P[q.a].first-P[i].first, ay=P[q.a].second-P[i].second, bx=P[q.b].first-P[i].first, by=P[q.b].second-P[i].second, cx2=P[q.c].first-P[i].first, cy2=P[q.c].second-P[i].second;
                long double det=(ax*ax+ay*ay)*(bx*cy2-cx2*by)-(bx*bx+by*by)*(ax*cy2-cx2*ay)+(cx2*cx2+cy2*cy2)*(ax*by-bx*ay);
                if(det>0){ int k[3]={q.a,q.b,q.c}; for(int m=0;m<3;++m){int u=k[m],w=k[(m+1)%3]; e[{u,w}]++; } }
                else keep.push_back(q);
            }
            for(auto & kv: e) if(!e.count({kv.first.second,kv.first.first})) {
                int u=kv.first.first,w=kv.first.second;
                long double o=((long double)P[w].first-P[u].first)*(P[i].second-P[u].second)-((long double)P[w].second-P[u].second)*(P[i].first-P[u].first);
                if(o>0) keep.push_back({u,w,i});
            }
            t.swap(keep);
        }
        for(auto & q: t) if(q.a<n && q.b<n && q.c<n){ Simplex s; s.v[0]=&verts[q.a]; s.v[1]=&verts[q.b]; s.v[2]=&verts[q.c]; s.index=(I)tris.size(); tris.push_back(s);}
        for(size_t i=0;i+1<tris.size();++i) tris[i].next=&tris[i+1];
        return (I)tris.size()*3;
    }
    I GetNumPolygons() const { return (I)tris.size(); }
    Simplex const * GetFirstDelaunaySimplex() const { return tris.empty()?nullptr:&tris[0]; }
private:
    std::vector<Vertex> verts; std::vector<Simplex> tris;
};
