// Scalar arrays: length, capacity, mutability, views (C16).
#include "pvh.h"
#include "ctl.h"
#include <pv/convert.h>
using namespace epics::pvData;
using namespace vh;
namespace {
template<class T> T mk(int v) { return T(v); }
template<> std::string mk<std::string>(int v) { return std::to_string(v); }
template<class T> struct Hist {
    typedef PVValueArray<T> A; typedef typename A::svector SV; typedef typename A::const_svector CV;
    Ctx& c; Rng& r; ScalarType st; int top; std::vector<std::tr1::shared_ptr<A> > as; std::vector<CV> views; std::vector<std::vector<T> > was;
    Hist(Ctx& c):c(c),r(c.rng),st(ScalarType(ScalarTypeID<T>::value)),top(st==pvBoolean?2:100) {}
    template<class V> Raw js(const V& v) { std::vector<Raw> o; for(size_t i=0;i<v.size();i++) o.push_back(jscalar<T>(v[i])); return jv(o); }
    void log(Obj& o) { std::vector<Raw> v; for(auto& a: as) { bool cm=a->isCapacityMutable(); CV x(a->view()); size_t n=a->getLength(); v.push_back(Obj()("v",js(x))("cap",n==x.size()?a->getCapacity():999999)("im",a->isImmutable())("cm",cm).done()); }
        int vw=0; for(size_t i=0;i<views.size();i++) { bool same=views[i].size()==was[i].size(); for(size_t k=0;same&&k<was[i].size();k++) same=views[i][k]==was[i][k]; if(!same) vw++; }
        o("as",v)("vw",vw); c.log(o); }
    SV some(size_t n) { SV v(n); for(size_t i=0;i<n;i++) v[i]=mk<T>(int(r.below(top))); return v; }
    size_t len(A* a) { size_t m=a->getArray()->getMaximumCapacity(); Array::ArraySizeType t=a->getArray()->getArraySizeType(); if(t!=Array::variable && r.chance(1,2)) return m; if(t==Array::bounded && r.chance(1,4)) return m+1+r.below(2); if(r.chance(1,40)) return 3000; return r.below(7); }
    size_t legal(A* a) { size_t m=a->getArray()->getMaximumCapacity(); Array::ArraySizeType t=a->getArray()->getArraySizeType(); return t==Array::fixed?m:t==Array::bounded?r.below(m+1):r.below(6); }
    template<class F> bool tried(F f) { try { f(); return true; } catch(std::exception&) { return false; } }
    void keep(const CV& v) { views.push_back(v); was.push_back(std::vector<T>(v.begin(),v.end())); }
    void make() { FieldCreatePtr fc(getFieldCreate()); int k=int(r.below(3)); size_t n=k==0?0:1+r.below(5); ScalarArrayConstPtr t(k==0?fc->createScalarArray(st):k==1?fc->createBoundedScalarArray(st,n):fc->createFixedScalarArray(st,n));
        as.push_back(std::tr1::static_pointer_cast<A>(r.chance(1,2)?PVScalarArrayPtr(getPVDataCreate()->createPVScalarArray(t)):std::tr1::static_pointer_cast<PVScalarArray>(getPVDataCreate()->createPVField(t))));
        Obj o; o("op","new")("b",k==0?"v":k==1?"b":"f")("n",n)("z",jscalar<T>(T())); log(o); }
    template<class U> void putfrom(A* a, const std::vector<int>& iv, bool viaArr, Obj& o) { shared_vector<U> v(iv.size()); for(size_t i=0;i<iv.size();i++) v[i]=mk<U>(iv[i]); shared_vector<const U> cv(freeze(v)); bool ok;
        if(viaArr) { std::tr1::shared_ptr<PVValueArray<U> > b(std::tr1::static_pointer_cast<PVValueArray<U> >(getPVDataCreate()->createPVScalarArray(ScalarType(ScalarTypeID<U>::value)))); b->replace(cv); ok=tried([&]{ switch(r.below(3)) { case 0: a->copy(*b); break; case 1: a->assign(*b); break; default: a->assign(*b); } }); }
        else ok=tried([&]{ a->template putFrom<U>(cv); });
        o("ok",ok); }
    void step() { size_t i=r.below(as.size()); A* a=as[i].get(); Obj o; o("a",i+1); bool ok;
        switch(r.below(18)) {
        case 0: case 1: case 2: { size_t k=len(a); ok=tried([&]{ a->setLength(k); }); o("op","setlen")("k",k)("ok",ok); break; }
        case 3: case 4: { size_t k=r.chance(1,5)?a->getLength():len(a); ok=tried([&]{ a->setCapacity(k); }); o("op","setcap")("k",k)("ok",ok); break; }
        case 5: { bool m=r.chance(1,2); ok=tried([&]{ a->setCapacityMutable(m); }); o("op","capmut")("m",m)("ok",ok); break; }
        case 6: if(!r.chance(1,3)) return; a->setImmutable(); o("op","immut")("ok",true); break;
        case 7: case 8: { if(a->isImmutable()) return; CV v(freeze_(some(len(a)))); keep(v); ok=tried([&]{ switch(r.below(3)) { case 0: a->replace(v); break; case 1: a->template putFrom<T>(v); break; default: { CV w(v); a->replace(w); } } }); o("op","replace")("v",js(v))("ok",ok); break; }
        case 9: { size_t n=legal(a); CV v(freeze_(some(n))); std::vector<T> given(v.begin(),v.end()); if(r.chance(1,3)) keep(v); ok=tried([&]{ a->swap(v); }); o("op","swap")("v",js(given))("r",js(v))("ok",ok); break; }
        case 10: { // take the data out, change it, put it back
            SV v; bool imm=a->isImmutable(); ok=tried([&]{ v=a->reuse(); }); o("op","reuse")("r",js(v))("ok",ok); log(o); if(!ok) return; if(!v.unique()) { Obj q; q("op","notunique"); log(q); } for(size_t k=0;k<v.size();k++) if(r.chance(1,2)) v[k]=mk<T>(int(r.below(top))); if(r.chance(1,4)) v.resize(legal(a)); for(size_t k=0;k<v.size();k++) v[k]=mk<T>(int(r.below(top)));
            if(a->getArray()->getArraySizeType()==Array::fixed) v.resize(a->getArray()->getMaximumCapacity()); for(size_t k=0;k<v.size();k++) v[k]=mk<T>(int(r.below(top)));
            (void)imm; CV w(freeze(v)); ok=tried([&]{ a->replace(w); }); Obj q; q("op","replace")("a",i+1)("v",js(w))("ok",ok); log(q); return; }
        case 11: case 12: { size_t s=r.below(as.size()); unsigned how=r.below(3); if(how==2&&(a->isImmutable())) how=0; ok=tried([&]{ switch(how) { case 0: a->copy(*as[s]); break; case 1: a->assign(*as[s]); break; default: a->copyUnchecked(*as[s]); } }); o("op","copy")("s",s+1)("ok",ok); break; }
        case 13: { if(st==pvBoolean) return; std::vector<int> iv; size_t n=len(a); if(n>50) n=5; for(size_t k=0;k<n;k++) iv.push_back(int(r.below(top))); std::vector<T> tv; for(int x: iv) tv.push_back(mk<T>(x)); bool imm=a->isImmutable(), via=imm||r.chance(1,2);
            switch(r.below(4)) { case 0: if(st==pvInt) return; putfrom<int32>(a,iv,via,o); break; case 1: if(st==pvUByte) return; putfrom<uint8>(a,iv,via,o); break; case 2: if(st==pvDouble||st==pvString) return; putfrom<double>(a,iv,via,o); break; default: if(st==pvLong) return; putfrom<int64>(a,iv,via,o); }
            o("op","copyx")("v",js(tv)); break; }
        case 14: { CV v; size_t n; switch(r.below(3)) { case 0: a->template getAs<T>(v); break; case 1: static_cast<PVScalarArray*>(a)->template getAs<T>(v); break; default: v=a->view(); } n=a->getLength(); o("op","get")("r",js(v))("len",n); break; }
        case 15: { size_t n=a->getLength(), k=r.chance(1,3)?n:r.below(n+2); T x=T(); ok=tried([&]{ CV v(a->view()); x=v.at(k); }); std::ostringstream s; bool ok2=tried([&]{ a->dumpValue(s,k); }); if(ok!=ok2) k=999999; o("op","at")("i",k)("ok",ok)("x",jscalar<T>(x)); break; }
        default: { CV v(a->view()); keep(v); o("op","view")("r",js(v)); } }
        log(o); }
    CV freeze_(SV v) { return freeze(v); }
    void run(size_t n) { c.start(); size_t k=1+r.below(4); for(size_t i=0;i<k;i++) make(); for(size_t i=0;i<n;i++) { if(views.size()>6) { size_t j=r.below(views.size()); views.erase(views.begin()+j); was.erase(was.begin()+j); } step(); } }
};
void run(Ctx& c) { size_t n=c.n(20,110); for(size_t i=0;i<n;i++) {
#define X(T,C) Hist<T>(c).run(20+c.rng.below(30));
    ALLSCALARS(X)
#undef X
} }
}
VH_MAIN(run)
