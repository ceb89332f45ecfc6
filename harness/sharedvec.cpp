// Shared arrays (C10): handles on shared storage, for plain and non-trivial elements.
#include "pvh.h"
#include <pv/sharedVector.h>
using namespace epics::pvData;
using namespace vh;
namespace {
// an element whose copies can fail
struct Bomb { int v; static long fuse; static long live; Bomb():v(0){live++;} Bomb(int v):v(v){live++;} Bomb(const Bomb& o):v(o.v){live++;} ~Bomb(){live--; v=-77;}
    Bomb& operator=(const Bomb& o) { if(fuse>=0 && fuse--==0) throw std::runtime_error("bomb"); v=o.v; return *this; } bool operator==(const Bomb& o) const { return v==o.v; } };
long Bomb::fuse=-1; long Bomb::live=0;
}
namespace epics{namespace pvData{ template<> struct ScalarTypeID<Bomb>{ enum{value=int(pvInt)}; }; template<> struct ScalarTypeID<const Bomb>{ enum{value=int(pvInt)}; }; }}
namespace {
template<class T> T mk(int v) { return T(v); }
template<> std::string mk<std::string>(int v) { return v%3==0?std::to_string(v):std::string(30,'s')+std::to_string(v); }
template<class T> int un(const T& v) { return int(v); }
template<> int un<std::string>(const std::string& s) { if(s.empty()) return -1; return atoi(s.c_str()+(s[0]=='s'?30:0)); }
template<> int un<Bomb>(const Bomb& b) { return b.v; }
std::vector<int> freedTags;
struct Stor { const void *b, *e; };
std::map<int,Stor> stor;
template<class T> struct Del { int tag; void operator()(T* p) { freedTags.push_back(tag); stor.erase(tag); delete[] p; } };
template<class T> struct DelOff { int tag; size_t off; void operator()(T* p) { freedTags.push_back(tag); stor.erase(tag); delete[] (p-off); } };
template<class T> struct Hist {
    typedef shared_vector<T> M; typedef shared_vector<const T> C; typedef shared_vector<void> VM; typedef shared_vector<const void> VC;
    enum { NM=4, NC=3, NVM=2, NVC=2, N=NM+NC+NVM+NVC };
    Ctx& c; Rng& r; bool numeric, vals; M m[NM]; C k[NC]; VM vm[NVM]; VC vc[NVC]; int nexttag;
    Hist(Ctx& c, bool numeric):c(c),r(c.rng),numeric(numeric),vals(true),nexttag(1) {}
    bool ro(int h) { return (h>=NM && h<NM+NC) || h>=NM+NC+NVM; }
    bool vd(int h) { return h>=NM+NC; }
    template<class F> auto with(int h, F f) -> decltype(f(m[0])) { if(h<NM) return f(m[h]); h-=NM; return f(k[h]); }
    struct O { size_t n, cap; bool u, in, ty; const T* p; const void* base; };
    O look(int h) { O o; o.ty=true; size_t S=sizeof(T); const void* lo=0;
        if(h<NM) { M& x=m[h]; o.n=x.size(); o.cap=x.dataTotal(); o.u=x.unique(); o.p=x.data(); o.base=x.dataPtr().get(); if(x.capacity()!=x.dataTotal()||x.dataCount()!=x.size()||x.empty()!=(x.size()==0)) o.cap=999999; }
        else if(h<NM+NC) { C& x=k[h-NM]; o.n=x.size(); o.cap=x.capacity(); o.u=x.unique(); o.p=x.data(); o.base=x.dataPtr().get(); }
        else if(h<NM+NC+NVM) { VM& x=vm[h-NM-NC]; o.n=x.size(); o.cap=x.dataTotal(); o.u=x.unique(); o.p=(const T*)x.data(); o.base=x.dataPtr().get(); o.ty=x.original_type()==(ScalarType)ScalarTypeID<T>::value; }
        else { VC& x=vc[h-NM-NC-NVM]; o.n=x.size(); o.cap=x.dataTotal(); o.u=x.unique(); o.p=(const T*)x.data(); o.base=x.dataPtr().get(); o.ty=x.original_type()==(ScalarType)ScalarTypeID<T>::value; }
        if(vd(h)) { if(o.n%S||o.cap%S) o.n=999999; else { o.n/=S; o.cap/=S; } }
        (void)lo; return o; }
    int tagOf(const void* b) { for(auto& s: stor) if(b>=s.second.b && b<s.second.e) return s.first; return 0; }
    Raw hs() { std::vector<Raw> v; std::map<const void*,int> g; for(int h=0;h<N;h++) { O o=look(h); int t=o.base?tagOf(o.base):0; bool in=o.n<=o.cap; if(t) in=in && (const void*)o.p>=stor[t].b && (const void*)(o.p+o.cap)<=stor[t].e;
            std::vector<int> e; if(in) for(size_t i=0;i<o.n;i++) e.push_back(un<T>(o.p[i])); int q=0; if(o.base) q=g.insert(std::make_pair(o.base,int(g.size())+1)).first->second;
            v.push_back(Obj()("ro",ro(h))("vd",vd(h))("n",o.n)("cap",o.cap)("u",o.u)("v",e)("g",q)("t",t)("in",in)("ty",o.ty).done()); } return jv(v); }
    void log(Obj& o) { std::vector<int> f(freedTags); freedTags.clear(); o("hs",hs())("freed",f); c.log(o); }
    // fresh values into any typed handle
    void fresh() { int h=int(r.below(NM+NC)); size_t n=r.chance(1,8)?0:r.chance(1,12)?1000+r.below(60):r.below(5), off=r.below(3), extra=r.below(3); std::vector<int> v; for(size_t i=0;i<n;i++) v.push_back(int(r.below(100)));
        Obj o; o("op","new")("h",h+1)("n",n); T* raw=0; int kind=int(r.below(6)), tag=0;
        if(kind>=3) { raw=new T[off+n+extra]; for(size_t i=0;i<off+n+extra;i++) raw[i]=mk<T>(i>=off&&i<off+n?v[i-off]:91); }
        if(kind>=4) { tag=nexttag++; stor[tag].b=raw; stor[tag].e=raw+off+n; if(off+n==0) stor[tag].e=(const char*)raw+1; }
        switch(kind) {
        case 0: if(std::is_fundamental<T>::value||h<NM||1) { with(h,[&](auto& x) { typedef typename std::remove_reference<decltype(x)>::type X; x=X(n); return 0; }); } break;
        case 1: { int a=int(r.below(100)); with(h,[&](auto& x) { typedef typename std::remove_reference<decltype(x)>::type X; x=X(n,mk<T>(a)); return 0; }); o("c",std::vector<int>(n,a)); break; }
        case 2: { if(n>3) { n=3; v.resize(3); o=Obj(); o("op","new")("h",h+1)("n",n); } std::vector<T> t; for(int a: v) t.push_back(mk<T>(a)); with(h,[&](auto& x) { typedef typename std::remove_reference<decltype(x)>::type X; if(n==0) x=X(std::initializer_list<T>{}); else if(n==1) x=X({t[0]}); else if(n==2) x=X({t[0],t[1]}); else x=X({t[0],t[1],t[2]}); return 0; }); o("c",v); break; }
        case 3: with(h,[&](auto& x) { typedef typename std::remove_reference<decltype(x)>::type X; x=X(raw,off,n); return 0; }); o("c",v); break;
        case 4: { Del<T> d={tag}; with(h,[&](auto& x) { typedef typename std::remove_reference<decltype(x)>::type X; x=X(raw,d,off,n); return 0; }); o("c",v)("tag",tag); break; }
        default: { Del<T> d={tag}; std::tr1::shared_ptr<T> p(raw,d); with(h,[&](auto& x) { typedef typename std::remove_reference<decltype(x)>::type X; x=X(p,off,n); return 0; }); p.reset(); o("c",v)("tag",tag); break; } }
        log(o); }
    int same(int h) { // another handle of the same kind
        if(h<NM) return int(r.below(NM)); if(h<NM+NC) return NM+int(r.below(NC)); if(h<NM+NC+NVM) return NM+NC+int(r.below(NVM)); return NM+NC+NVM+int(r.below(NVC)); }
    template<class X> void pair(int op, X& a, X& b) { switch(op) { case 0: a=b; break; case 1: { X t(b); a.swap(t); break; } case 2: a=std::move(b); break; case 3: { X t(std::move(b)); if(&a!=&b) a=t; else a=std::move(t); break; } case 4: a.swap(b); break; default: { X t(const_shared_vector_cast<typename X::value_type>(b)); a=std::move(t); } } }
    void share() { int h=int(r.below(N)), g=same(h), k_=r.chance(1,2)?int(r.below(2)):int(r.below(6)); for(int i=0;k_<2&&i<3&&(h==g||!look(g).n);i++) g=same(h); if(k_==3&&h==g) k_=2;   // through a temporary, a self move is a plain copy back
        Obj o; o("op",k_<2?"copy":k_==4?"swap":"move")("h",h+1)("g",g+1);
        if(h<NM) pair(k_,m[h],m[g]); else if(h<NM+NC) pair(k_,k[h-NM],k[g-NM]); else if(h<NM+NC+NVM) pair(k_,vm[h-NM-NC],vm[g-NM-NC]); else pair(k_,vc[h-NM-NC-NVM],vc[g-NM-NC-NVM]);
        log(o); }
    void slice() { int h=int(r.below(N)); O q=look(h); size_t a=r.below(q.n+2), b=r.chance(1,4)?1000000:r.below(q.n+2); size_t S=vd(h)?sizeof(T):1; bool all=b==1000000; size_t l=all?size_t(-1):b*S; if(!vd(h)&&r.chance(1,6)) { a=999999; }
        auto f=[&](auto& x){ if(all&&r.chance(1,2)) x.slice(a*S); else x.slice(a*S,l); };
        if(h<NM) f(m[h]); else if(h<NM+NC) f(k[h-NM]); else if(h<NM+NC+NVM) f(vm[h-NM-NC]); else f(vc[h-NM-NC-NVM]);
        Obj o; o("op","slice")("h",h+1)("o",a)("k",b); log(o); }
    void drop() { int h=int(r.below(N)); bool cl=r.chance(1,2); auto f=[&](auto& x){ typedef typename std::remove_reference<decltype(x)>::type X; if(cl) x.clear(); else x=X(); };
        if(h<NM) f(m[h]); else if(h<NM+NC) f(k[h-NM]); else if(h<NM+NC+NVM) f(vm[h-NM-NC]); else f(vc[h-NM-NC-NVM]);
        Obj o; o("op","drop")("h",h+1); log(o); }
    void freezethaw() { bool f=r.chance(1,2); Obj o;
        if(f) { bool v=r.chance(1,3); bool ok=true; int a,b; if(v) { a=int(r.below(NVM)); b=int(r.below(NVC)); try { VC x(freeze(vm[a])); vc[b]=x; } catch(std::runtime_error&) { ok=false; } a+=NM+NC; b+=NM+NC+NVM; }
            else { a=int(r.below(NM)); b=int(r.below(NC)); try { if(r.chance(1,2)) { C x(freeze(m[a])); k[b]=x; } else { C x(const_shared_vector_cast<const T>(m[a])); k[b]=std::move(x); } } catch(std::runtime_error&) { ok=false; } b+=NM; }
            o("op","freeze")("h",b+1)("g",a+1)("ok",ok); }
        else { int a=int(r.below(NC)), b=int(r.below(NM)); if(r.chance(1,2)) { M x(thaw(k[a])); m[b]=x; } else { M x(const_shared_vector_cast<T>(k[a])); m[b].swap(x); } o("op","thaw")("h",b+1)("g",a+NM+1); }
        log(o); }
    void cast() { int kind=int(r.below(4)); bool conv=r.chance(1,2)&&numeric; int h,g; Obj o;
        switch(kind) {
        case 0: g=int(r.below(NM)); h=int(r.below(NVM)); vm[h]=conv?shared_vector_convert<void>(m[g]):static_shared_vector_cast<void>(m[g]); h+=NM+NC; break;
        case 1: g=int(r.below(NC)); h=int(r.below(NVC)); vc[h]=conv?shared_vector_convert<const void>(k[g]):static_shared_vector_cast<const void>(k[g]); g+=NM; h+=NM+NC+NVM; break;
        case 2: g=int(r.below(NVM)); h=int(r.below(NM)); conv=conv&&0; m[h]=static_shared_vector_cast<T>(vm[g]); g+=NM+NC; break;
        default: g=int(r.below(NVC)); h=int(r.below(NC)); if(!vals) conv=false; if(conv) k[h]=conv_(vc[g]); else k[h]=static_shared_vector_cast<const T>(vc[g]); g+=NM+NC+NVM; h+=NM; }
        o("op","cast")("h",h+1)("g",g+1)("conv",conv); log(o); }
    C conv_(VC& x) { return cv(x,std::is_same<T,Bomb>()); }
    C cv(VC& x, std::true_type) { return static_shared_vector_cast<const T>(x); }
    C cv(VC& x, std::false_type) { return shared_vector_convert<const T>(x); }
    void convert() { if(!numeric) return; cvd(std::is_arithmetic<T>()); }
    void cvd(std::false_type) {}
    void cvd(std::true_type) { // to another element type: always a copy
        int kind=int(r.below(4)), g; std::vector<int> v; bool own=true; shared_vector<const double> d; shared_vector<double> dm;
        switch(kind) { case 0: g=int(r.below(NM)); dm=shared_vector_convert<double>(m[g]); break; case 1: g=NM+int(r.below(NC)); d=shared_vector_convert<const double>(static_shared_vector_cast<const void>(k[g-NM])); break;
            case 2: g=NM+NC+int(r.below(NVM)); { VM t(vm[g-NM-NC]); VC z; dm=shared_vector<double>(); shared_vector<const double> e; { shared_vector<const void> w(static_cast<const VM&>(t).dataPtr(),t.dataOffset(),t.dataCount()); w.set_original_type(t.original_type()); d=shared_vector_convert<const double>(w); } } break;
            default: g=NM+NC+NVM+int(r.below(NVC)); d=shared_vector_convert<const double>(vc[g-NM-NC-NVM]); }
        for(size_t i=0;i<d.size();i++) v.push_back(int(d[i])); for(size_t i=0;i<dm.size();i++) { v.push_back(int(dm[i])); }
        own=d.unique()&&dm.unique(); for(size_t i=0;i<dm.size();i++) dm[i]=-5;
        Obj o; o("op","convert")("g",g+1)("r",v)("own",own); log(o); }
    // a typed handle: often one which shares its storage, or at least shows elements
    int pickT(int n) { int h=int(r.below(n)); bool sh=r.chance(1,2), ne=r.chance(1,2);
        for(int i=0;(sh||ne) && i<2*n;i++) { int g=(h+i)%n; O q=look(g); if(q.n && (i>=n||!sh||!q.u)) return g; } return h; }
    // make two handles of one storage
    int two(int n) { int g=int(r.below(n)); for(int i=0;i<n && !look(g).n;i++) g=(g+1)%n; int h=same(g); if(h==g||!look(g).n) return g; if(h<NM) m[h]=m[g]; else k[h-NM]=k[g-NM];
        Obj o; o("op","copy")("h",h+1)("g",g+1); log(o); return r.chance(1,2)?h:g; }
    void shape() { int h=r.chance(1,3)?two(NM+NC):pickT(NM+NC); O q=look(h); size_t n=r.chance(1,5)?q.n:r.chance(1,6)?q.cap+r.below(3):r.below(q.n+4); int v=int(r.below(100)); Obj o; o("h",h+1);
        long pfuse=-1; if(std::is_same<T,Bomb>::value && r.chance(3,4)) pfuse=long(r.below(q.n+1));
        int op=int(r.below(8)); if(op>=4&&h>=NM) op=int(r.below(4));
        if(op>=4) pfuse=-1;
        Bomb::fuse=pfuse;
        try { switch(op) {
        case 0: case 3: with(h,[&](auto& x){ x.reserve(n); return 0; }); o("op","reserve")("n",n); break;
        case 1: with(h,[&](auto& x){ x.resize(n); return 0; }); o("op","resize")("n",n); break;
        case 2: with(h,[&](auto& x){ x.make_unique(); return 0; }); o("op","unique"); break;
        case 4: if(q.n && r.chance(1,3)) { size_t i=r.below(q.n); v=un<T>(m[h][i]); m[h].resize(n,m[h][i]); } else m[h].resize(n,mk<T>(v)); o("op","resizev")("n",n)("v",v); break;
        case 5: if(q.n) { m[h].pop_back(); o("op","pop"); break; } // fall through
        default: if(q.n && r.chance(1,3)) { size_t i=r.below(q.n); v=un<T>(m[h][i]); m[h].push_back(m[h][i]); } else m[h].push_back(mk<T>(v)); o("op","push")("v",v); } }
        catch(std::runtime_error&) { o=Obj(); o("op","bomb")("h",h+1); }
        Bomb::fuse=-1; log(o); }
    void access() { int h=int(r.below(NM+NC)); O q=look(h); Obj o;
        switch(r.below(4)) {
        case 0: { size_t i=r.chance(1,3)?q.n:r.chance(1,8)?size_t(-1):r.below(q.n+2); int v=-999; bool t=false; if(i==q.n) { try { with(h,[&](auto& x){ (void)&x.at(i); return 0; }); } catch(std::out_of_range&) { t=true; } } else try { v=with(h,[&](auto& x){ return un<T>(x.at(i)); }); } catch(std::out_of_range&) { t=true; } o("op","at")("h",h+1)("i",i>1000000?1000000:i)("thrown",t)("v",v); break; }
        case 1: if(!q.n) return; { int f=0,b=0; with(h,[&](auto& x){ switch(r.below(3)) { case 0: f=un<T>(x.front()); b=un<T>(x.back()); break; case 1: f=un<T>(*x.begin()); b=un<T>(*x.rbegin()); break; default: f=un<T>(*x.cbegin()); b=un<T>(*(x.cend()-1)); } return 0; }); o("op","ends")("h",h+1)("f",f)("b",b); } break;
        default: { int g=int(r.below(NM+NC)); bool e=false,n=false; with(h,[&](auto& x){ return with(g,[&](auto& y){ e=x==y; n=x!=y; return 0; }); }); o("op","cmp")("h",h+1)("g",g+1)("eq",e)("ne",n); } }
        log(o); }
    void set() { int h=r.chance(1,4)?two(NM):pickT(NM); if(!m[h].size()) return; size_t i=r.below(m[h].size()); int v=int(r.below(100)); switch(r.below(4)) { case 0: m[h][i]=mk<T>(v); break; case 1: *(m[h].begin()+i)=mk<T>(v); break; case 2: m[h].data()[i]=mk<T>(v); break; default: m[h].at(i)=mk<T>(v); } Obj o; o("op","set")("h",h+1)("i",i)("v",v); log(o); }
    void run(size_t ops) { stor.clear(); freedTags.clear(); c.start(Obj()("hs",hs()));
        for(size_t i=0;i<ops;i++) switch(r.below(16)) { case 0: case 1: fresh(); break; case 2: case 3: share(); break; case 4: case 5: slice(); break; case 6: drop(); break; case 7: case 8: freezethaw(); break; case 9: cast(); break; case 10: convert(); break; case 11: case 12: case 13: shape(); break; case 14: access(); break; default: set(); }
    }
};
void run(Ctx& c) {
    size_t n=c.n(150,1500); for(size_t i=0;i<n;i++) { size_t ops=25+c.rng.below(30);
        switch(i%5) { case 0: Hist<int32>(c,true).run(ops); break; case 1: Hist<uint8>(c,true).run(ops); break; case 2: case 3: Hist<std::string>(c,false).run(ops); break; default: Hist<Bomb>(c,false).run(ops); if(Bomb::live) { c.log(Obj()("op","leak")("n",Bomb::live)); Bomb::live=0; } } }
}
}
VH_MAIN(run)
