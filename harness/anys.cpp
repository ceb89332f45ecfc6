// The any-scalar (C30).
#include "convs.h"
#include "leak.h"
#include <pv/anyscalar.h>
using namespace epics::pvData;
using namespace vh;
namespace {
bool nonul(const std::string& s) { return s.find('\0')==std::string::npos; }
std::string text(Rng& r, ScalarType to) { std::string s; do { s=r.chance(1,2)?anytext(r,to):gstring(r,60); } while(!nonul(s)); if(r.chance(1,4)) s+=std::string(r.below(40),'q'); return s; }
template<class T> T val(Rng& r) { return ConvNum<T>::gen(r,pvString); }
template<> std::string val<std::string>(Rng& r) { return text(r,ScalarType(r.below(12))); }
struct Hist {
    Ctx& c; Rng& r; std::vector<AnyScalar*> as;
    Hist(Ctx& c):c(c),r(c.rng) {}
    Raw show(AnyScalar& a) { Obj o; 
        switch(int(a.type())) {
#define X(T,C) case C: { T v; unsigned how=r.below(3); if(how==0) v=a.ref<T>(); else if(how==1) v=((const AnyScalar&)a).ref<T>(); else v=*static_cast<const T*>(((const AnyScalar&)a).unsafe()); \
    bool same=true; if(C!=pvString) same=memcmp(a.bufferUnsafe(),a.unsafe(),sizeof(T))==0; else same=strcmp((const char*)a.bufferUnsafe(),a.ref<std::string>().c_str())==0; o("t",same?stype(C):"?")("v",jscalar<T>(v)); break; }
        ALLSCALARS(X)
#undef X
        default: o("t","nil"); }
        if(a.empty()!=(int(a.type())==-1)) return Obj()("t","?").done();
        o("bool",bool(a)); return o.done(); }
    void log(Obj o) { std::vector<Raw> v; for(auto a: as) v.push_back(show(*a)); c.log(o("as",v)); }
    template<class T> void put(size_t d, ScalarType st) { T v=val<T>(r); unsigned how=r.below(6);
        { leak::Watch w;
          switch(how) {
          case 0: *as[d]=AnyScalar(v); break;
          case 1: *as[d]=v; break;
          case 2: { AnyScalar* n=new AnyScalar(v); delete as[d]; as[d]=n; break; }
          case 3: { AnyScalar* n=new AnyScalar(st,&v); delete as[d]; as[d]=n; break; }
          case 4: { const AnyScalar t(v); *as[d]=t; break; }
          default: cstr(d,v,st); } }
        log(Obj()("op","put")("d",d+1)("t",stype(st))("v",jscalar<T>(v))); }
    template<class T> void cstr(size_t d, const T& v, ScalarType st) { AnyScalar t(st,&v); t.swap(*as[d]); }
    void cstr(size_t d, const std::string& v, ScalarType) { const char* p=v.c_str(); if(r.chance(1,2)) *as[d]=AnyScalar(p); else *as[d]=AnyScalar(const_cast<char*>(p)); }
    template<class T> void ref(size_t d, ScalarType st) { std::string exc; Raw rv("[]"); T v=val<T>(r);
        if(r.chance(1,2)) { try { leak::Watch w; as[d]->ref<T>()=v; } catch(AnyScalar::bad_cast&) { exc="bad_cast"; } catch(std::exception&) { exc="other"; }
            log(Obj()("op","refset")("d",d+1)("t",stype(st))("v",jscalar<T>(v))("exc",exc)); }
        else { const AnyScalar& a=*as[d]; try { rv=jscalar<T>(a.ref<const T>()); } catch(AnyScalar::bad_cast&) { exc="bad_cast"; } catch(std::exception&) { exc="other"; }
            log(Obj()("op","ref")("d",d+1)("t",stype(st))("r",rv)("exc",exc)); } }
    template<class T> void as_(size_t d, ScalarType st) { std::string exc; Raw rv("[]");
        // out of range numbers are not to be converted to integers
        if(st!=pvString && st!=pvFloat && st!=pvDouble && (as[d]->type()==pvFloat||as[d]->type()==pvDouble)) { double x=as[d]->as<double>(); double lim=std::ldexp(1.0,int(8*sizeof(T))-(stype(st)[0]=='u'?0:1)); if(st!=pvBoolean && !(x<lim && x>(stype(st)[0]=='u'?-1.0:-lim-(sizeof(T)<4?0.5:0.0)))) return; }
        try { T v; { leak::Watch w; v=as[d]->as<T>(); } rv=jscalar<T>(v); } catch(AnyScalar::bad_cast&) { exc="bad_cast"; } catch(std::exception&) { exc="other"; }
        log(Obj()("op","as")("d",d+1)("t",stype(st))("r",rv)("exc",exc)); }
    template<class T> void typed(size_t d, ScalarType st) { switch(r.below(4)) { case 0: case 1: put<T>(d,st); break; case 2: ref<T>(d,st); break; default: as_<T>(d,st); } }
    void step() { size_t d=r.below(as.size()), s=r.below(as.size());
        switch(r.below(10)) {
        case 0: { unsigned how=r.below(3); { leak::Watch w; if(how==0) *as[d]=*as[s]; else if(how==1) { AnyScalar* n=new AnyScalar(*as[s]); delete as[d]; as[d]=n; } else { AnyScalar t(*as[s]); t.swap(*as[d]); } } log(Obj()("op","copy")("d",d+1)("s",s+1)); break; }
        case 1: if(d!=s) { unsigned how=r.below(2); { leak::Watch w; if(how==0) *as[d]=std::move(*as[s]); else { AnyScalar* n=new AnyScalar(std::move(*as[s])); delete as[d]; as[d]=n; } } log(Obj()("op","move")("d",d+1)("s",s+1)); } break;
        case 2: case 3: { leak::Watch w; as[d]->swap(*as[s]); } log(Obj()("op","swap")("d",d+1)("s",s+1)); break;
        case 4: { { leak::Watch w; if(r.chance(1,2)) as[d]->clear(); else *as[d]=AnyScalar(); } log(Obj()("op","clear")("d",d+1)); break; }
        case 5: { std::ostringstream o; o<<*as[d]; log(Obj()("op","print")("d",d+1)("r",jbytes(o.str()))); break; }
        default: { ScalarType t=ScalarType(r.below(12)); if(r.chance(1,4)) t=pvString; if(r.chance(1,3) && !as[d]->empty()) t=as[d]->type();
            switch(t) {
#define X(T,C) case C: typed<T>(d,C); break;
            ALLSCALARS(X)
#undef X
            } } } }
    void run() { as.reserve(4); leak::forget(); c.start(Obj()("n",4)); { leak::Watch w; for(int i=0;i<4;i++) as.push_back(new AnyScalar()); }
        for(int k=0;k<150;k++) step();
        for(auto a: as) delete a; if(getenv("LEAKDBG")) leak::dump(); c.log(Obj()("op","gone")("leak",leak::alive())); } };
void run(Ctx& c) { for(size_t i=0,n=c.n(60,600);i<n;i++) { Hist h(c); h.run(); } }
}
VH_MAIN(run)
