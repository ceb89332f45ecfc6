// Exceptions and helpers for unit tests (C40).
#include "pvh.h"
#include <sstream>
#include <unistd.h>
#include <epicsUnitTest.h>
#include <pv/pvUnitTest.h>
#include <pv/epicsException.h>
using namespace epics::pvData;
using namespace vh;
namespace {
// test results go to the standard output
struct Cap { FILE* f; Cap():f(tmpfile()) { fflush(stdout); if(dup2(fileno(f),1)<0) abort(); }
    std::string take() { fflush(stdout); off_t n=lseek(1,0,SEEK_CUR); std::string s(size_t(n),'\0'); if(n && pread(1,&s[0],size_t(n),0)!=n) abort(); lseek(1,0,SEEK_SET); if(ftruncate(1,0)) abort(); return s; } };
std::string slurp(FILE* f) { fflush(f); fseek(f,0,SEEK_END); std::string s(size_t(ftell(f)),'\0'); rewind(f); if(s.size() && fread(&s[0],1,s.size(),f)!=s.size()) abort(); return s; }
struct H { Ctx& c; Rng& r; Cap cap; int tests; size_t since; H(Ctx& c):c(c),r(c.rng),tests(0),since(0) { testPlan(0); cap.take(); }
    void begin() { if(since++%30==0) c.start(Obj()("n",tests)); }
    std::string txt() { static const char* W[]={"","oops","a b","\n","x\ny","x\n\ny\n","%s %d %n","# no","ok 1 - no","\n\n","last\n"}; return r.chance(1,3)?std::string(W[r.below(11)]):[&]{ std::string s; for(size_t i=0,n=r.below(12);i<n;i++) s+=r.chance(1,6)?'\n':char(32+r.below(95)); return s; }(); }
    std::vector<Raw> lines(const std::string& s) { std::vector<Raw> v; std::istringstream i(s); std::string l; while(std::getline(i,l)) v.push_back(jbytes(l)); return v; }
    void done(Obj& e) { e("out",lines(cap.take())); c.log(e); }
    std::string str() { std::string s(txt()); return s; }
    // ---- exceptions
    template<class E> void caught(E& x, Obj& e) { FILE* f=tmpfile(); e("what1",jbytes(std::string(x.what()))); std::string sh(SHOW_EXCEPTION(x)); e("shown",jbytes(sh)); PRINT_EXCEPTION2(x,f); e("printed",jbytes(slurp(f))); fclose(f); e("what2",jbytes(std::string(x.what())))("mixed",dynamic_cast<ExceptionMixin*>(&x)!=0); }
    template<class E> void thrown(bool base, int how, const std::string& msg) { begin(); Obj e; e("op","throw")("how",how)("base",base)("macro",how!=0)("msg",jbytes(msg))("file",jbytes(std::string(__FILE__))); bool ok=false; int line=0;
        try { switch(how) { case 0: throw E(msg); case 1: line=__LINE__; THROW_EXCEPTION2(E,msg); default: { E x(msg); if(r.chance(1,2)) (void)x.what(); line=__LINE__; THROW_EXCEPTION(E(msg)); } } }
        catch(E& x) { ok=true; caught(static_cast<std::exception&>(x),e);
            if(how==0) { E y(x); e("copy",jbytes(std::string(y.what()))); }
            else { ::epics::pvData::detail::ExceptionMixed<E> y(dynamic_cast< ::epics::pvData::detail::ExceptionMixed<E>& >(x)); e("copy",jbytes(std::string(y.what()))); } }
        e("line",line)("caught",ok); c.log(e); }
    void exceptions() { for(size_t i=0;i<c.n(25,200);i++) for(int how=0;how<3;how++) { std::string m(txt()); if(r.chance(1,6)) m+=std::string(1,'\0')+"hidden"; thrown<std::logic_error>(false,how,m); thrown<std::runtime_error>(false,how,m); thrown<std::invalid_argument>(false,how,m); thrown<BaseException>(true,how,m); } 
        { begin(); Obj e; int line=0; bool ok=false; e("op","throw")("how",3)("base",true)("macro",true)("msg",jbytes(std::string("m")))("file",jbytes(std::string(__FILE__))); try { line=__LINE__; THROW_BASE_EXCEPTION("m"); } catch(std::exception& x) { ok=true; caught(x,e); e("copy",jbytes(std::string(x.what()))); } e("line",line)("caught",ok); c.log(e); } }
    // ---- tests
    std::string word() { static const char* W[]={"","a","b","x y","a\nb"}; return W[r.below(5)]; }
    void compare() { begin(); Obj e; std::string m(txt());
        if(r.chance(1,2)) { int a=int(r.below(7))-3, b=r.chance(1,2)?a:int(r.below(2000000))-1000000; bool eq=r.chance(1,2); e("op",eq?"equal":"differ")("s","int")("l",jscalar<int32>(a))("r",jscalar<int32>(b))("nl",jbytes(std::string("a")))("nr",jbytes(std::string("b")))("more",jbytes(m)); if(eq) testEqual(a,b)<<m; else testNotEqual(a,b)<<m; }
        else { std::string a(word()), b(r.chance(1,3)?a:word()); bool eq=r.chance(1,2); e("op",eq?"equal":"differ")("s","string")("l",jbytes(a))("r",jbytes(b))("nl",jbytes(std::string("a")))("nr",jbytes(std::string("b + \"\"")))("more",jbytes(m)); if(eq) testEqual(a,b + "")<<m; else testNotEqual(a,b + "")<<m; }
        tests++; done(e); }
    void truth() { begin(); Obj e; std::string m(txt()); bool b=r.chance(1,2);
        if(r.chance(1,2)) { e("op","true")("b",!b)("nl",jbytes(std::string("!b")))("more",jbytes(m)); testTrue(!b)<<m; }
        else { e("op","text")("b",b)("more",jbytes(m)); if(r.chance(1,2)) ::detail::testPassx(b)<<m; else { ::detail::testPassx x(b); x<<m.substr(0,m.size()/2); ::detail::testPassx y(x); y<<m.substr(m.size()/2); } }   // handed on: still one result
        tests++; done(e); }
    void show() { begin(); Obj e; std::string m(txt()); e("op","show")("more",jbytes(m)); testShow()<<m; done(e); }
    void throws() { begin(); Obj e; e("op","throws"); bool t=r.chance(1,2); std::string m("why"); e("did",t?"expected":"nothing")("msg",jbytes(m))("code",jbytes(std::string("if(t) throw std::runtime_error(m)"))); testThrows(std::runtime_error, if(t) throw std::runtime_error(m)); tests++; done(e); }
    template<class PVD> void field(const PVStructurePtr& s, const std::string& nm, ScalarType st, typename PVD::value_type want) { begin(); Obj e; std::string m(txt()); bool given=!r.chance(1,15); e("op","field")("given",given)("t",jtype(s->getField()))("v",jval(PVFieldPtr(s)))("name",jbytes(nm))("k","s")("s",stype(st))("want",jscalar<typename PVD::value_type>(want))("more",jbytes(m));
        PVStructurePtr none; testFieldEqual<PVD>(given?s:none,nm.c_str(),want)<<m; tests++; done(e); }
    template<class PVA> void array(const PVStructurePtr& s, const std::string& nm, ScalarType st, typename PVA::const_svector want) { begin(); Obj e; bool given=!r.chance(1,15); typedef typename PVA::value_type T; std::vector<Raw> w; for(size_t i=0;i<want.size();i++) w.push_back(jscalar<T>(want[i])); e("op","array")("given",given)("t",jtype(s->getField()))("v",jval(PVFieldPtr(s)))("name",jbytes(nm))("k","sa")("s",stype(st))("want",w)("more",jbytes(std::string()));
        PVStructurePtr none; testFieldEqual<PVA>(given?s:none,nm.c_str(),want); tests++; done(e); }
    StructureConstPtr shape() { FieldCreatePtr fc(getFieldCreate()); FieldBuilderPtr b(fc->createFieldBuilder()); static const char* N[]={"a","b","c","d","e"};
        for(int i=0;i<5;i++) switch(r.below(9)) { case 0: b=b->add(N[i],pvInt); break; case 1: b=b->add(N[i],pvString); break; case 2: b=b->addArray(N[i],pvInt); break; case 3: b=b->addArray(N[i],pvString); break; case 4: b=b->add(N[i],fc->createVariantUnion()); break; case 5: b=b->addNestedUnion(N[i])->add("i",pvInt)->add("s",pvString)->add("u",pvUInt)->endNested(); break; case 6: b=b->addNestedStructure(N[i])->add("x",pvInt)->add("y",pvString)->addArray("z",pvInt)->endNested(); break; case 7: b=b->add(N[i],pvUInt); break; default: b=b->addBoundedString(N[i],200); }
        return b->createStructure(); }
    void set(PVField* f) { // small values, so that equal ones are met
        if(PVUnion* u=dynamic_cast<PVUnion*>(f)) { if(r.chance(1,4)) return; if(u->getUnion()->isVariant()) { PVFieldPtr p(getPVDataCreate()->createPVScalar(r.chance(1,2)?pvInt:r.chance(1,2)?pvString:pvUInt)); set(p.get()); u->set(p); } else { int i=int(r.below(3)); set(u->select(i).get()); } }
        else if(PVInt* p=dynamic_cast<PVInt*>(f)) p->put(r.chance(1,4)?int32(r.below(2000000000))*(r.chance(1,2)?1:-1):int32(r.below(2)));
        else if(PVString* p=dynamic_cast<PVString*>(f)) p->put(word());
        else if(PVIntArray* p=dynamic_cast<PVIntArray*>(f)) { PVIntArray::svector v(r.below(3)); for(size_t i=0;i<v.size();i++) v[i]=int32(r.below(2)); p->replace(freeze(v)); }
        else if(PVStringArray* p=dynamic_cast<PVStringArray*>(f)) { PVStringArray::svector v(r.below(3)); for(size_t i=0;i<v.size();i++) v[i]=r.chance(1,2)?"a":"b"; p->replace(freeze(v)); } }
    void fields() { PVStructurePtr s(shape()->build()); std::vector<PVField*> w; walk(s.get(),w); for(auto f: w) set(f); static const char* N[]={"a","b","c","d","e","a.x","b.y","c.z","d.x","e.y","f","a.q","b.x","c.x"};
        for(int i=0;i<6;i++) { std::string nm(N[r.below(14)]); PVFieldPtr f(s->getSubField(nm)); int32 wi=int32(r.below(2)); std::string ws(word());
            PVFieldPtr g(f); if(PVUnion* u=dynamic_cast<PVUnion*>(f.get())) g=u->get<PVField>();
            if(PVInt* p=dynamic_cast<PVInt*>(g.get())) { if(r.chance(1,2)) wi=p->get(); }
            switch(r.below(4)) { case 0: case 1: if(dynamic_cast<PVString*>(g.get())?r.chance(1,6):true) { field<PVInt>(s,nm,pvInt,wi); break; } // fallthrough
                default: field<PVString>(s,nm,pvString,ws); break;
                case 3: { PVIntArray::svector v(r.below(3)); for(size_t j=0;j<v.size();j++) v[j]=int32(r.below(2)); array<PVIntArray>(s,nm,pvInt,freeze(v)); PVStringArray::svector q(r.below(2),"a"); array<PVStringArray>(s,nm,pvString,freeze(q)); } } } }
    void run() { exceptions(); for(size_t i=0;i<c.n(120,900);i++) { compare(); truth(); show(); throws(); if(i%3==0) fields(); } } };
void run(Ctx& c) { H h(c); h.run(); }
}
VH_MAIN(run)
