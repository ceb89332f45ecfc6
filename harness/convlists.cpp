// The conversion facade: lists, transfers, typed getters and setters (C20).
#include "convs.h"
#include <pv/convert.h>
using namespace epics::pvData;
using namespace vh;
namespace {
bool nonul(const std::string& s) { return s.find('\0')==std::string::npos; }
typedef std::tr1::shared_ptr<PVScalar> SP; typedef std::tr1::shared_ptr<PVScalarArray> AP;
Raw texts(const std::vector<std::string>& v) { std::vector<Raw> o; for(auto& x: v) o.push_back(jbytes(x)); return jv(o); }
template<class T> T val(Rng& r, ScalarType to=pvString) { return ConvNum<T>::gen(r,to); }
std::string any(Rng& r, ScalarType t) { std::string s; do s=anytext(r,t); while(!nonul(s)); return s; }
template<> std::string val<std::string>(Rng& r, ScalarType) { return any(r,ScalarType(r.below(12))); }
// a text of a value of type t, mostly
template<class T> std::string good(Rng& r) { return castUnsafe<std::string,T>(val<T>(r)); }
template<class T> Raw arr(const PVValueArray<T>& a) { typename PVValueArray<T>::const_svector v(a.view()); std::vector<Raw> o; for(size_t i=0;i<v.size();i++) o.push_back(jscalar<T>(v[i])); return jv(o); }
std::string item(std::string s, Rng& r) { if(r.chance(19,20)) for(char& ch: s) if(ch==',') ch=';'; return s; }
template<class T> struct One {
    Ctx& c; Rng& r; ScalarType st; ConvertPtr cv; PVDataCreatePtr pd; int max; bool fix;
    One(Ctx& c):c(c),r(c.rng),st(ScalarType(ScalarTypeID<T>::value)),cv(getConvert()),pd(getPVDataCreate()),max(-1),fix(false) {}
    typedef PVValueArray<T> A; typedef std::tr1::shared_ptr<A> P;
    P mk(size_t n, bool bound=true) { unsigned k=bound?r.below(8):9; FieldCreatePtr fc(getFieldCreate()); max=-1; fix=false;
        if(k==0) { max=int(n+r.below(3)); if(!max) max=1; } else if(k==1 && n) { max=int(n); fix=true; }
        P p(std::tr1::static_pointer_cast<A>(pd->createPVScalarArray(max<0?fc->createScalarArray(st):fix?fc->createFixedScalarArray(st,max):fc->createBoundedScalarArray(st,max))));
        typename A::svector v(n); for(size_t i=0;i<n;i++) v[i]=val<T>(r); p->replace(freeze(v)); return p; }
    std::vector<std::string> some(size_t n) { std::vector<std::string> v; bool ok=r.chance(3,4); for(size_t i=0;i<n;i++) v.push_back(ok||r.chance(3,4)?good<T>(r):any(r,st)); return v; }
    size_t num(size_t n) { return r.chance(1,2)?n:r.chance(1,12)?1000:r.below(n+3); }
    void toarr() { P p(mk(r.below(7))); size_t n=p->getLength(), off=r.chance(1,2)?0:num(n), len=num(n), toff=r.chance(1,2)?0:r.below(6); StringArray to; for(size_t i=0,k=r.below(8);i<k;i++) to.push_back(good<int>(r)); StringArray was(to); Raw v(arr(*p)); bool ok=true; size_t k=0;
        try { k=cv->toStringArray(p,off,len,to,toff); } catch(std::exception&) { ok=false; }
        c.log(Obj()("op","toarr")("t",stype(st))("v",v)("v2",arr(*p))("off",off)("len",len)("to",texts(was))("toff",toff)("to2",texts(to))("ok",ok)("r",k)); }
    void fromarr() { P p(mk(r.below(5))); std::vector<std::string> f(some(r.below(7))); size_t n=p->getLength(), foff=r.chance(1,2)?0:r.chance(1,8)?f.size()+r.below(3):r.below(f.size()+1), off=r.chance(3,4)?0:num(n), len=r.chance(1,2)?f.size():num(r.chance(1,2)?n:f.size()); Raw v(arr(*p)); bool ok=true; size_t k=0;
        try { k=cv->fromStringArray(p,off,len,f,foff); } catch(std::exception&) { ok=false; }
        c.log(Obj()("op","fromarr")("t",stype(st))("max",max)("fix",fix)("v",v)("v2",arr(*p))("off",off)("len",len)("from",texts(f))("foff",foff)("ok",ok)("r",k)); }
    std::string list() { std::vector<std::string> f(some(r.below(6))); std::string s; for(size_t i=0;i<f.size();i++) { if(i) s+=','; s+=item(f[i],r); if(r.chance(1,8)) s+=' '; } unsigned k=r.below(12); if(k<8) s="["+s+"]"; else if(k==8) s="["+s; else if(k==9) s+="]"; return s; }
    void lst() { P p(mk(r.below(6))); std::string s(list()); Raw v(arr(*p)); bool ok=true; size_t k=0;
        try { k=cv->fromString(p,s); } catch(std::exception&) { ok=false; }
        c.log(Obj()("op","list")("t",stype(st))("max",max)("fix",fix)("v",v)("v2",arr(*p))("s",jbytes(s))("ok",ok)("r",k)); }
    void back() { if(st==pvFloat||st==pvDouble) return; P p(mk(r.below(8),false)), q(mk(r.below(4),false)); if(st==pvString) { typename A::svector v(r.below(6)); for(size_t i=0;i<v.size();i++) v[i]=T(val<T>(r)); fixcomma(v); p->replace(freeze(v)); if(p->getLength()==1 && good0(*p)) return; }
        StringArray x; cv->toStringArray(p,0,p->getLength(),x,0); std::string s("["); for(size_t i=0;i<x.size();i++) { if(i) s+=','; s+=x[i]; } s+="]"; bool ok=true; size_t k=0;
        try { k=cv->fromString(q,s); } catch(std::exception&) { ok=false; }
        c.log(Obj()("op","back")("t",stype(st))("v",arr(*p))("v2",arr(*q))("x",texts(x))("s",jbytes(s))("ok",ok)("r",k)); }
    template<class V> void fixcomma(V&) {}
    void fixcomma(shared_vector<std::string>& v) { for(size_t i=0;i<v.size();i++) for(char& ch: v[i]) if(ch==',') ch='.'; }
    template<class V> bool good0(const V&) { return false; }
    bool good0(const PVValueArray<std::string>& p) { return p.view()[0].empty(); }
    template<class U> void log(const char* op, ScalarType to, ScalarType from, const Raw& v, bool ok, const U& x, const Raw& was) { c.log(Obj()("op",op)("to",stype(to))("from",stype(from))("v",v)("ok",ok)("r",jscalar<U>(x))("was",was)); }
    // typed getters and setters
    template<class U> void got(ScalarType u, U (Convert::*get)(const SP&), void (Convert::*put)(const SP&, U)) {
        std::tr1::shared_ptr<PVScalarValue<T> > p(std::tr1::static_pointer_cast<PVScalarValue<T> >(pd->createPVScalar(st)));
        { T v=val<T>(r,u); p->put(v); bool ok=true; U x=U(); try { x=((*cv).*get)(p); } catch(std::exception&) { ok=false; } log<U>("get",u,st,jscalar<T>(v),ok,x,Raw("[]")); }
        { U x=val<U>(r,st); T was=val<T>(r); p->put(was); bool ok=true; try { ((*cv).*put)(p,x); } catch(std::exception&) { ok=false; } log<T>("put",st,u,jscalar<U>(x),ok,p->get(),jscalar<T>(was)); } }
    void typed() { switch(r.below(11)) {
        case 0: got<int8>(pvByte,&Convert::toByte,&Convert::fromByte); break; case 1: got<int16>(pvShort,&Convert::toShort,&Convert::fromShort); break;
        case 2: got<int32>(pvInt,&Convert::toInt,&Convert::fromInt); break; case 3: got<int64>(pvLong,&Convert::toLong,&Convert::fromLong); break;
        case 4: got<uint8>(pvUByte,&Convert::toUByte,&Convert::fromUByte); break; case 5: got<uint16>(pvUShort,&Convert::toUShort,&Convert::fromUShort); break;
        case 6: got<uint32>(pvUInt,&Convert::toUInt,&Convert::fromUInt); break; case 7: got<uint64>(pvULong,&Convert::toULong,&Convert::fromULong); break;
        case 8: got<float>(pvFloat,&Convert::toFloat,&Convert::fromFloat); break; case 9: got<double>(pvDouble,&Convert::toDouble,&Convert::fromDouble); break;
        default: { std::tr1::shared_ptr<PVScalarValue<T> > p(std::tr1::static_pointer_cast<PVScalarValue<T> >(pd->createPVScalar(st))); T v=val<T>(r); p->put(v); bool ok=true; std::string x; try { x=cv->toString(p); } catch(std::exception&) { ok=false; } log<std::string>("get",pvString,st,jscalar<T>(v),ok,x,Raw("[]"));
            std::string s(any(r,st)); ok=true; try { cv->fromString(SP(p),s); } catch(std::exception&) { ok=false; } log<T>("put",st,pvString,jbytes(s),ok,p->get(),jscalar<T>(v)); } } }
    void all() { c.every(400); switch(r.below(9)) { case 0: toarr(); break; case 1: toarr(); break; case 2: case 3: fromarr(); break; case 4: case 5: lst(); break; case 6: back(); break; default: typed(); } }
};
// structures: every leaf takes one text
struct Leaf { char k; ScalarType t; PVFieldPtr p; };
void leaves(const PVStructurePtr& s, std::vector<Leaf>& out) { for(auto& f: s->getPVFields()) { Type t=f->getField()->getType(); if(t==structure) leaves(std::tr1::static_pointer_cast<PVStructure>(f),out); else if(t==scalar) out.push_back(Leaf{'s',std::tr1::static_pointer_cast<PVScalar>(f)->getScalar()->getScalarType(),f}); else if(t==scalarArray) out.push_back(Leaf{'a',std::tr1::static_pointer_cast<PVScalarArray>(f)->getScalarArray()->getElementType(),f}); else out.push_back(Leaf{'x',pvInt,f}); } }
Raw plain(const Leaf& f) { switch(f.k) { 
    case 's': switch(f.t) {
#define X(T,C) case C: return jscalar<T>(std::tr1::static_pointer_cast<PVScalarValue<T> >(f.p)->get());
        ALLSCALARS(X)
#undef X
    } break;
    case 'a': switch(f.t) {
#define X(T,C) case C: return arr<T>(*std::tr1::static_pointer_cast<PVValueArray<T> >(f.p));
        ALLSCALARS(X)
#undef X
    } break; }
    return jval(f.p); }
std::string gt(Ctx& c, ScalarType t) { switch(t) {
#define X(T,C) case C: return good<T>(c.rng);
    ALLSCALARS(X)
#undef X
    } return ""; }
std::string lt(Ctx& c, ScalarType t) { switch(t) {
#define X(T,C) case C: { One<T> o(c); return o.list(); }
    ALLSCALARS(X)
#undef X
    } return ""; }
void strct(Ctx& c) { Rng& r=c.rng; GenOpt o; bool odd=r.chance(1,8); o.any=o.unions=o.sarrays=odd; o.bounds=false; o.depth=2; PVStructurePtr s(getPVDataCreate()->createPVStructure(gstruct(r,o,2))); gfill(r,s.get(),o);
    std::vector<Leaf> f; leaves(s,f); std::vector<std::string> from; size_t start=r.chance(1,2)?0:r.below(3); for(size_t i=0;i<start;i++) from.push_back("skip"); bool ok=true, neat=r.chance(3,4); size_t k=0;
    for(auto& x: f) { std::string t; if(x.k=='s') t=neat||r.chance(3,4)?gt(c,x.t):any(r,x.t); else if(x.k=='a') { t=lt(c,x.t); if(neat) { t="["; for(size_t i=0,n=r.below(4);i<n;i++) { if(i) t+=','; t+=item(gt(c,x.t),r); } t+="]"; } } else t="1"; from.push_back(t); }
    if(r.chance(1,6) && !from.empty()) from.pop_back(); else if(r.chance(1,6)) from.push_back("more"); if(r.chance(1,30)) start=from.size()+r.below(4);
    from.shrink_to_fit(); std::vector<Raw> was; for(auto& x: f) was.push_back(plain(x));
    try { k=getConvert()->fromString(s,from,start); } catch(std::exception&) { ok=false; }
    std::vector<Raw> fl; for(size_t i=0;i<f.size();i++) fl.push_back(Obj()("k",std::string(1,f[i].k))("t",stype(f[i].t))("v",was[i])("v2",plain(f[i])).done());
    c.log(Obj()("op","struct")("f",fl)("from",texts(from))("start",start)("ok",ok)("r",k)); }
void run(Ctx& c) { for(size_t i=0,n=c.n(300,3000);i<n;i++) {
#define X(T,C) { One<T> o(c); o.all(); }
    ALLSCALARS(X)
#undef X
    strct(c); } }
}
VH_MAIN(run)
