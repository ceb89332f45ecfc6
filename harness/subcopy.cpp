// Sub-array copy (C21).
#include "pvh.h"
#include <pv/pvSubArrayCopy.h>
using namespace epics::pvData;
using namespace vh;
namespace {
template<class T> Raw els(const shared_vector<const T>& v) { std::vector<Raw> o; for(size_t i=0;i<v.size();i++) o.push_back(jscalar<T>(v[i])); return jv(o); }
template<class P> Raw pels(const shared_vector<const P>& v) { std::vector<Raw> o; for(size_t i=0;i<v.size();i++) o.push_back(v[i]?jval(v[i].get()):Raw("[]")); return jv(o); }
// one array of any kind
struct Box { PVFieldPtr f; PVArray* a() { return dynamic_cast<PVArray*>(f.get()); }
    Raw show() { 
        if(PVScalarArray* s=dynamic_cast<PVScalarArray*>(f.get())) switch(s->getScalarArray()->getElementType()) {
#define X(T,C) case C: return els<T>(static_cast<PVValueArray<T>*>(s)->view());
            ALLSCALARS(X)
#undef X
        }
        if(PVStructureArray* s=dynamic_cast<PVStructureArray*>(f.get())) return pels<PVStructurePtr>(s->view());
        return pels<PVUnionPtr>(static_cast<PVUnionArray*>(f.get())->view()); } };
// a view of the contents as they are now
struct View { std::function<std::string()> now; std::string was; };
void keep(Box& b, std::vector<View>& w) { View v;
    if(PVScalarArray* s=dynamic_cast<PVScalarArray*>(b.f.get())) switch(s->getScalarArray()->getElementType()) {
#define X(T,C) case C: { shared_vector<const T> k(static_cast<PVValueArray<T>*>(s)->view()); v.now=[k]{ return els<T>(k).t; }; break; }
        ALLSCALARS(X)
#undef X
    } else if(PVStructureArray* s=dynamic_cast<PVStructureArray*>(b.f.get())) { PVStructureArray::const_svector k(s->view()); v.now=[k]{ return pels<PVStructurePtr>(k).t; }; }
    else { PVUnionArray::const_svector k(static_cast<PVUnionArray*>(b.f.get())->view()); v.now=[k]{ return pels<PVUnionPtr>(k).t; }; }
    v.was=v.now(); w.push_back(v); }
struct Gen { Rng& r; GenOpt o; StructureConstPtr st[2]; UnionConstPtr un[2];
    Gen(Rng& r):r(r) { o.depth=1; o.maxf=2; o.bounds=false; for(int i=0;i<2;i++) { do st[i]=gstruct(r,o,1,1); while(i && st[1]==st[0]); do un[i]=r.chance(1,4)?getFieldCreate()->createVariantUnion():gunion(r,o,1); while(i && un[1]==un[0]); } }
    Box mk(int kind, ScalarType t, int which, int& max, bool& fix) { FieldCreatePtr fc(getFieldCreate()); PVDataCreatePtr pd(getPVDataCreate()); Box b; max=-1; fix=false; size_t n=r.chance(1,8)?0:r.below(8); bool spare=r.chance(1,3);
        if(kind==0) { unsigned k=r.below(6); if(k==0) { max=int(n+r.below(3)); if(!max) max=2; } else if(k==1 && n) { max=int(n); fix=true; }
            b.f=pd->createPVScalarArray(max<0?fc->createScalarArray(t):fix?fc->createFixedScalarArray(t,max):fc->createBoundedScalarArray(t,max));
            switch(t) {
#define X(T,C) case C: { shared_vector<T> v; if(spare) v.reserve(n+r.below(9)); for(size_t i=0;i<n;i++) v.push_back(gscalar<T>(r)); static_cast<PVValueArray<T>*>(b.f.get())->replace(freeze(v)); break; }
            ALLSCALARS(X)
#undef X
            } }
        else if(kind==1) { PVStructureArrayPtr p(pd->createPVStructureArray(st[which])); PVStructureArray::svector v; if(spare) v.reserve(n+r.below(9)); for(size_t i=0;i<n;i++) { PVStructurePtr x; if(!r.chance(1,6)) { x=pd->createPVStructure(st[which]); gfill(r,x.get(),o); } v.push_back(x); } p->replace(freeze(v)); b.f=p; }
        else { PVUnionArrayPtr p(pd->createPVUnionArray(un[which])); PVUnionArray::svector v; if(spare) v.reserve(n+r.below(9)); for(size_t i=0;i<n;i++) { PVUnionPtr x; if(!r.chance(1,6)) { x=pd->createPVUnion(un[which]); gfill(r,x.get(),o); } v.push_back(x); } p->replace(freeze(v)); b.f=p; }
        return b; }
    Raw zero(int kind, ScalarType t, int which) { if(kind==1) return jval(getPVDataCreate()->createPVStructure(st[which]).get()); if(kind==2) return jval(getPVDataCreate()->createPVUnion(un[which]).get());
        switch(t) {
#define X(T,C) case C: return jscalar<T>(T());
        ALLSCALARS(X)
#undef X
        } return Raw("[]"); } };
const size_t HUGE_=size_t(1)<<62;
void one(Ctx& c, Gen& g) { Rng& r=c.rng; int kf=r.chance(2,3)?0:1+int(r.below(2)), kt=kf; ScalarType tf=ScalarType(r.below(12)), tt=tf; int wf=int(r.below(2)), wt=wf; if(r.chance(1,12)) { switch(r.below(3)) { case 0: kt=int(r.below(3)); break; case 1: tt=ScalarType(r.below(12)); break; default: wt=1-wt; } }
    bool same=kf==kt && (kf==0?tf==tt:wf==wt); int max,m0; bool fix,f0; Box from(g.mk(kf,tf,wf,m0,f0)), to; bool self=same && r.chance(1,6); if(self) { to=from; max=m0; fix=f0; } else to=g.mk(kt,tt,wt,max,fix);
    size_t nf=from.a()->getLength(), nt=to.a()->getLength(), fo=r.chance(1,3)?0:r.below(nf+2), fs=1+(r.chance(1,2)?0:r.below(4)), off=r.chance(1,3)?0:r.below(nt+3), ts=1+(r.chance(1,2)?0:r.below(4)), n=fo<nf?(nf-fo+fs-1)/fs:0; n=r.chance(1,3)?n:r.chance(1,6)?n+1+r.below(2):r.below(n+1);
    if(r.chance(1,20)) fs=0; if(r.chance(1,20)) ts=0;
    // the numbers are chosen so that no allocation of a huge size is attempted
    switch(r.below(12)) { case 0: fs=HUGE_*2-r.below(3); break; case 1: ts=HUGE_*2+r.below(100); if(n==2) n=1; break;      // (n-1)*ts does not fit
     case 2: fo=size_t(0)-1-r.below(9); break; case 3: if(r.chance(1,2)) off=size_t(0)-1; break; case 4: n=size_t(0)-1-r.below(3); break; default: break; }
    auto big=[](size_t x)->long { return x>=(size_t(1)<<40)?-1L:long(x); };
    bool im=false; if(r.chance(1,15)) { to.f->setImmutable(); im=true; } if(!self && r.chance(1,10)) from.f->setImmutable();
    std::vector<View> w; if(r.chance(1,2)) keep(from,w); if(r.chance(1,2)) keep(to,w); Raw fv(from.show()), tv(to.show()); bool ok=true;
    try {
        unsigned how=r.below(3); PVArray::shared_pointer pt(std::tr1::static_pointer_cast<PVArray>(to.f)), pf(std::tr1::static_pointer_cast<PVArray>(from.f));
        if(how==0) copy(*from.a(),fo,fs,*to.a(),off,ts,n);
        else if(how==1 || kf!=kt || kf==2) copy(pf,fo,fs,pt,off,ts,n);
        else if(kf==0) copy(static_cast<PVScalarArray&>(*pf),fo,fs,static_cast<PVScalarArray&>(*pt),off,ts,n);
        else copy(static_cast<PVStructureArray&>(*pf),fo,fs,static_cast<PVStructureArray&>(*pt),off,ts,n);
    } catch(std::exception&) { ok=false; }
    int vw=0; for(auto& x: w) if(x.now()!=x.was) vw++;
    c.every(400); c.log(Obj()("op","sub")("kind",kf)("same",same)("self",self)("im",im)("max",max)("fix",fix)("from",fv)("to",tv)("fo",big(fo))("fs",big(fs))("off",big(off))("ts",big(ts))("n",big(n))("z",g.zero(kt,tt,wt))("ok",ok)("from2",from.show())("to2",to.show())("vw",vw)); }
void run(Ctx& c) { for(size_t i=0,n=c.n(60,600);i<n;i++) { Gen g(c.rng); for(int k=0;k<100;k++) one(c,g); } }
}
VH_MAIN(run)
