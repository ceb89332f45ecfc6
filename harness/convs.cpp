// Scalar conversion by every route (C19).
#include "convs.h"
#include <pv/typeCast.h>
#include <pv/anyscalar.h>
using namespace epics::pvData;
using namespace vh;
namespace {
typedef std::tr1::shared_ptr<PVScalar> SP; typedef std::tr1::shared_ptr<PVScalarArray> AP;
template<class TO, class FROM> struct Direct { static TO cast(const FROM& v) { return castUnsafe<TO,FROM>(v); } static TO get(PVScalarValue<FROM>* p) { return p->template getAs<TO>(); } static void put(PVScalarValue<TO>* p, const FROM& v) { p->template putFrom<FROM>(v); } };
// numeric <-> boolean: only through the run-time dispatch, which refuses it
template<class TO, class FROM> struct Dispatch { static TO cast(const FROM& v) { TO r; castUnsafeV(1,ScalarType(ScalarTypeID<TO>::value),&r,ScalarType(ScalarTypeID<FROM>::value),&v); return r; } static TO get(PVScalarValue<FROM>* p) { return static_cast<PVScalar*>(p)->getAs<TO>(); } static void put(PVScalarValue<TO>* p, const FROM& v) { static_cast<PVScalar*>(p)->putFrom((const void*)&v,ScalarType(ScalarTypeID<FROM>::value)); } };
template<class TO, class FROM> struct Route : public Direct<TO,FROM> {};
template<class FROM> struct Route<boolean,FROM> : public Dispatch<boolean,FROM> {};
template<class TO> struct Route<TO,boolean> : public Dispatch<TO,boolean> {};
template<> struct Route<boolean,boolean> : public Direct<boolean,boolean> {};
template<> struct Route<std::string,boolean> : public Direct<std::string,boolean> {};
template<> struct Route<boolean,std::string> : public Direct<boolean,std::string> {};
template<class TO, class FROM> struct CStr { static TO cast(const FROM& v) { return Route<TO,FROM>::cast(v); } };
template<class TO> struct CStr<TO,std::string> { static TO cast(const std::string& v) { return castUnsafe<TO,const char*>(v.c_str()); } };
template<> struct CStr<std::string,std::string> { static std::string cast(const std::string& v) { return castUnsafe<std::string,std::string>(v); } };
bool nonul(const std::string& s) { return s.find('\0')==std::string::npos; }
template<class T> bool usable(const T&) { return true; }
template<> bool usable<std::string>(const std::string& s) { return nonul(s); }
int index(const std::string& m) { size_t p=m.find("at index "); return p==std::string::npos?-1:atoi(m.c_str()+p+9); }
template<class T> Raw js(const T* v, size_t n) { std::vector<Raw> o; for(size_t i=0;i<n;i++) o.push_back(jscalar<T>(v[i])); return jv(o); }
template<class TO, class FROM> void one(Ctx& c) {
    Rng& r=c.rng; ScalarType to=ScalarType(ScalarTypeID<TO>::value), from=ScalarType(ScalarTypeID<FROM>::value); PVDataCreatePtr pd(getPVDataCreate());
    c.every(400); unsigned how=r.below(14); size_t n=how<9?1:r.chance(1,8)?0:1+r.below(5);
    std::vector<FROM> v; for(size_t i=0;i<n;i++) { FROM x=ConvNum<FROM>::gen(r,to); if(!usable(x)) x=FROM(); v.push_back(x); }
    // mostly acceptable elements in arrays of text
    if(from==pvString && n>1 && r.chance(2,3)) for(auto& x: v) { TO t=ConvNum<TO>::gen(r,to); if(r.chance(5,6)) x=FROM(castUnsafe<FROM,TO>(t)); }
    std::vector<TO> out; bool ok=true, un=true; int idx=-1; shared_vector<FROM> mv(n); for(size_t i=0;i<n;i++) mv[i]=v[i]; shared_vector<const FROM> cv(freeze(mv));
    try {
        switch(how) {
        case 0: out.push_back(Route<TO,FROM>::cast(v[0])); break;
        case 1: out.push_back(CStr<TO,FROM>::cast(v[0])); break;
        case 2: { TO x; castUnsafeV(1,to,&x,from,&v[0]); out.push_back(x); break; }
        case 3: case 4: { std::tr1::shared_ptr<PVScalarValue<FROM> > p(std::tr1::static_pointer_cast<PVScalarValue<FROM> >(pd->createPVScalar(from))); p->put(v[0]); out.push_back(how==3?static_cast<PVScalar*>(p.get())->getAs<TO>():Route<TO,FROM>::get(p.get())); break; }
        default: {
            if(how<9) { std::tr1::shared_ptr<PVScalarValue<TO> > p(std::tr1::static_pointer_cast<PVScalarValue<TO> >(pd->createPVScalar(to))); TO was=ConvNum<TO>::gen(r,to); p->put(was);
                try { if(how==5) static_cast<PVScalar*>(p.get())->putFrom<FROM>(v[0]); else if(how==6) Route<TO,FROM>::put(p.get(),v[0]);
                    else if(how==7) { AnyScalar a(v[0]); p->putFrom(a); }
                    else { SP q(pd->createPVScalar(from)); std::tr1::static_pointer_cast<PVScalarValue<FROM> >(q)->put(v[0]); switch(r.below(3)) { case 0: p->assign(*q); break; case 1: p->copy(*q); break; default: p->copyUnchecked(*q); } }
                } catch(...) { un=jscalar<TO>(p->get()).t==jscalar<TO>(was).t; throw; }
                out.push_back(p->get());
            } else if(how==9) { std::vector<TO> x(n+1); std::unique_ptr<TO[]> d(new TO[n+1]()); TO guard=d[n]; castUnsafeV(n,to,d.get(),from,cv.data()); out.assign(d.get(),d.get()+n); if(jscalar<TO>(d[n]).t!=jscalar<TO>(guard).t) out.clear(); }
            else if(how==10) { shared_vector<const void> vv(static_shared_vector_cast<const void>(cv)); shared_vector<const TO> o(shared_vector_convert<const TO>(vv)); out.assign(o.begin(),o.end()); }
            else if(how==11) { std::tr1::shared_ptr<PVValueArray<FROM> > p(std::tr1::static_pointer_cast<PVValueArray<FROM> >(pd->createPVScalarArray(from))); p->replace(cv); shared_vector<const TO> o; static_cast<PVScalarArray*>(p.get())->getAs<TO>(o); out.assign(o.begin(),o.end()); }
            else { std::tr1::shared_ptr<PVValueArray<TO> > p(std::tr1::static_pointer_cast<PVValueArray<TO> >(pd->createPVScalarArray(to))); shared_vector<TO> w(3); for(size_t i=0;i<3;i++) w[i]=ConvNum<TO>::gen(r,to); shared_vector<const TO> was(freeze(w)); p->replace(was);
                try { if(how==12) p->template putFrom<FROM>(cv); else { std::tr1::shared_ptr<PVValueArray<FROM> > q(std::tr1::static_pointer_cast<PVValueArray<FROM> >(pd->createPVScalarArray(from))); q->replace(cv); switch(r.below(3)) { case 0: p->assign(*q); break; case 1: p->copy(*q); break; default: p->copyUnchecked(*q); } }
                } catch(...) { shared_vector<const TO> o(p->view()); un=js(o.data(),o.size()).t==js(was.data(),was.size()).t; throw; }
                shared_vector<const TO> o(p->view()); out.assign(o.begin(),o.end()); }
        } }
    } catch(std::exception& e) { ok=false; idx=index(e.what()); out.clear(); }
    std::unique_ptr<TO[]> ra(new TO[out.size()+1]()); for(size_t i=0;i<out.size();i++) ra[i]=out[i];
    c.log(Obj()("op","cv")("how",how)("to",stype(to))("from",stype(from))("v",js(cv.data(),n))("ok",ok)("r",js(ra.get(),out.size()))("un",un)("idx",idx));
}
template<class TO> void row(Ctx& c, size_t k) {
#define X(T,C) for(size_t i=0;i<k;i++) one<TO,T>(c);
    ALLSCALARS(X)
#undef X
    for(size_t i=0;i<2*k;i++) one<TO,std::string>(c);
}
void run(Ctx& c) { size_t n=c.n(14,110); 
#define X(T,C) row<T>(c,n); row<std::string>(c,1);
    for(size_t k=0;k<4;k++) { ALLSCALARS(X) }
#undef X
}
}
VH_MAIN(run)
