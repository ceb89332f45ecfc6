// The value builder (C29).
#include "pvh.h"
#include "leak.h"
#include <pv/valueBuilder.h>
using namespace epics::pvData;
using namespace vh;
namespace {
typedef std::vector<std::string> Path;
struct H { Ctx& c; Rng& r; GenOpt g; std::vector<std::pair<Path,ValueBuilder*> > at; H(Ctx& c):c(c),r(c.rng) { g.nan=true; g.maxf=3; }
    std::string name() { if(r.chance(1,60)) { static const char* w[]={"","1x","a.b","a b","-","x\xc3\xa9"}; return w[r.below(6)]; } static const char* w[]={"a","b","c","value","B","_z","ab"}; return w[r.below(7)]; }
    std::string id() { static const char* w[]={"","structure","T","epics:nt/X:1.0"," "}; return w[r.below(5)]; }
    std::string sub(const Path& p) { if(r.chance(1,2)) { std::vector<std::string> v; for(auto& x: at) if(x.first.size()==p.size()+1 && std::equal(p.begin(),p.end(),x.first.begin())) v.push_back(x.first.back()); if(v.size()) return r.pick(v); } return name(); }
    Raw jp(const Path& p) { std::vector<Raw> v; for(auto& x: p) v.push_back(jbytes(x)); return jv(v); }
    template<class F> std::string watched(F f) { leak::Watch w; try { f(); return ""; } catch(std::exception& e) { return "refused"; } }
    template<class T,ScalarType C> void add(size_t k) { std::string n(name()); T v(gscalar<T>(r,true)); ValueBuilder* q=0;
        std::string ex=watched([&]{ q=&at[k].second->add<C>(n,v); }); if(ex.empty() && q!=at[k].second) ex="not itself";
        c.log(Obj()("op","add")("p",jp(at[k].first))("n",jbytes(n))("t",jtype(getFieldCreate()->createScalar(C)))("v",jscalar<T>(v))("ex",ex)); }
    template<class T,ScalarType C> void arr(size_t k) { std::string n(name()); shared_vector<T> m(r.below(r.chance(1,8)?40:4)); std::vector<Raw> j; for(auto& x: m) { x=gscalar<T>(r,true); j.push_back(jscalar<T>(x)); } shared_vector<const T> v(freeze(m)); ValueBuilder* q=0;
        std::string ex=watched([&]{ q=&at[k].second->add(n,static_shared_vector_cast<const void>(v)); }); if(ex.empty() && q!=at[k].second) ex="not itself";
        c.log(Obj()("op","add")("p",jp(at[k].first))("n",jbytes(n))("t",jtype(getFieldCreate()->createScalarArray(C)))("v",j)("ex",ex)); }
    void known(const Path& p, ValueBuilder* b) { for(auto& x: at) if(x.second==b) return; at.push_back(std::make_pair(p,b)); }
    PVStructurePtr some() { GenOpt o(g); if(r.chance(9,10)) { o.any=o.unions=o.arrays=o.sarrays=false; } FieldConstPtr f(gstruct(r,o,2)); PVStructurePtr p(std::tr1::static_pointer_cast<PVStructure>(mkpv(f))); gfill(r,p.get(),o); return p; }
    bool step() { size_t k=r.below(at.size()); if(r.chance(1,2)) k=at.size()-1; Path p(at[k].first);
        size_t what=r.below(14); if(what>11) what=r.below(2); return step(what,k,p); }
    bool step(size_t what, size_t k, Path p) { switch(what) {
        case 0: case 1: { std::string n(sub(p)), i(id()); bool st=!r.chance(1,15), dflt=r.chance(1,4); if(dflt) { st=true; i=""; } ValueBuilder* b=0; std::string ex=watched([&]{ b=dflt?&at[k].second->addNested(n):&at[k].second->addNested(n,st?structure:Type(1+r.below(5)==1?scalar:union_),i); });
            c.log(Obj()("op","nest")("p",jp(p))("n",jbytes(n))("id",jbytes(i))("st",st)("ex",ex)); if(b) { p.push_back(n); known(p,b); } break; }
        case 2: { ValueBuilder* b=0; std::string ex=watched([&]{ b=&at[k].second->endNested(); }); bool up=true; if(b) { up=false; Path q(p); if(q.size()) { q.pop_back(); for(auto& x: at) if(x.first==q && x.second==b) up=true; } } c.log(Obj()("op","end")("p",jp(p))("ex",ex)("up",up)); break; }
        case 3: { PVStructurePtr v(some()); std::string n(sub(p)); std::string ex=watched([&]{ at[k].second->add(n,*v); }); c.log(Obj()("op","struct")("p",jp(p))("n",jbytes(n))("t",jtype(v->getField()))("v",jval(v.get()))("ex",ex)("last",!ex.empty()));
            if(!ex.empty()) return false;
            break; }
        case 4: case 5: { size_t j=r.chance(3,4)?0:k; PVStructurePtr a,b; std::string ex; try { a=at[j].second->buildPVStructure(); } catch(std::exception&) { ex="refused"; }
            Obj e; e("op","build")("p",jp(at[j].first))("ex",ex); if(a) { Raw t(jtype(a->getField())), v(jval(a.get())); for(size_t m=r.below(3);m;m--) vmut(r,a.get(),g); b=at[j].second->buildPVStructure(); e("t",t)("v",v)("t2",jtype(b->getField()))("v2",jval(b.get())); } c.log(e); break; }
        default: switch(r.below(24)) { 
#define X(T,C) case C: add<T,C>(k); break; case 12+C: arr<T,C>(k); break;
            ALLSCALARS(X)
#undef X
            } }
        return true; }
    void run() { at.clear(); std::string i(id()); bool clone=r.chance(1,4); leak::forget(); ValueBuilder* b=0; 
        c.start(Obj()("id",jbytes(clone?"":i))("ex","")); 
        if(clone) { PVStructurePtr v(some()); std::string ex; { leak::Watch w; try { b=new ValueBuilder(*v); } catch(std::exception&) { ex="refused"; } } c.log(Obj()("op","clone")("p",jp(Path()))("t",jtype(v->getField()))("v",jval(v.get()))("ex",ex)); }
        else { leak::Watch w; b=i.empty() && r.chance(1,2)?new ValueBuilder():new ValueBuilder(i); }
        if(b) { at.push_back(std::make_pair(Path(),b)); bool more=true; for(size_t k=0,n=3+r.below(25);more && k<n;k++) more=step(); if(more) step(4,0,Path()); delete b; }
        c.log(Obj()("op","done")("lost",leak::alive())); } };
void run(Ctx& c) { for(size_t i=0,n=c.n(220,3000);i<n;i++) { H h(c); h.run(); } }
}
VH_MAIN(run)
