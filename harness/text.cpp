// Text output (C38).
#include "pvh.h"
#include <pv/typeCast.h>
#include <pv/convert.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/json.h>
#include <math.h>
#include <iomanip>
#include <stdlib.h>
using namespace epics::pvData;
using namespace vh;
namespace {
struct H { Ctx& c; Rng& r; GenOpt o; FieldCreatePtr fc; H(Ctx& c):c(c),r(c.rng),fc(getFieldCreate()) {}
    // texts of the floating point numbers within
    std::set<std::string> seen; std::vector<Raw> g;
    template<class T> void num(const char* t, T v) { std::string b(bebytes(v)); if(!seen.insert(t+b).second) return; char x[64]; snprintf(x,sizeof x,"%.6g",double(v)); g.push_back(Obj()("t",t)("v",jbytes(b))("x",jbytes(x)).done()); }
    void nums(const PVField* f) { if(!f) return; switch(f->getField()->getType()) {
        case scalar: if(auto p=dynamic_cast<const PVFloat*>(f)) num("float",p->get()); else if(auto p=dynamic_cast<const PVDouble*>(f)) num("double",p->get()); break;
        case scalarArray: if(auto p=dynamic_cast<const PVFloatArray*>(f)) { PVFloatArray::const_svector v(p->view()); for(float x: v) num("float",x); } else if(auto p=dynamic_cast<const PVDoubleArray*>(f)) { PVDoubleArray::const_svector v(p->view()); for(double x: v) num("double",x); } break;
        case structure: for(auto& x: static_cast<const PVStructure*>(f)->getPVFields()) nums(x.get()); break;
        case structureArray: { PVStructureArray::const_svector v(static_cast<const PVStructureArray*>(f)->view()); for(auto& x: v) nums(x.get()); break; }
        case union_: nums(static_cast<const PVUnion*>(f)->get().get()); break;
        case unionArray: { PVUnionArray::const_svector v(static_cast<const PVUnionArray*>(f)->view()); for(auto& x: v) nums(x.get()); break; } } }
    Raw texts(const PVField* f) { seen.clear(); g.clear(); nums(f); return jv(g); }
    size_t indent() { return r.chance(1,2)?0:r.below(4); }
    std::string str() { return r.chance(1,2)?gstring(r):gtext(); }
    std::string gtext() { std::string s; static const char K[]="ab ,\"'\\\n\t\r\a\b\f\v\x7f\x80\x99\xa9\x19\x9f\xff\x01z09~!"; for(size_t i=0,n=r.below(7);i<n;i++) s+=r.chance(1,4)?char(r.below(256)):K[r.below(sizeof K)]; return s; }
    void esc() { std::string s(gtext()); if(r.chance(1,3)) s=std::string(1,char(r.below(256))); std::ostringstream q; q<<maybeQuote(s); std::string a,b(escape(s).style(escape::CSV).str()); if(r.chance(1,2)) { std::ostringstream t; t<<escape(s); a=t.str(); } else a=escape(s).str();
        c.every(100); c.log(Obj()("op","esc")("s",jbytes(s))("c",jbytes(a))("csv",jbytes(b))("q",jbytes(q.str()))); }
    void type(const FieldConstPtr& t) { size_t n=indent(); std::ostringstream s; s<<format::indent_level(n); s<<*t; c.every(40); c.log(Obj()("op","type")("t",jtype(t))("n",n)("x",jbytes(s.str()))("n2",format::indent_value(s))); }
    void dump(PVField* f) { size_t n=indent(); Raw v(jval(f)); std::ostringstream s; s<<format::indent_level(n); s<<*f; std::string cs; getConvert()->getString(&cs,f,0);
        c.every(40); c.log(Obj()("op","dump")("t",jtype(f->getField()))("v",v)("nm",jbytes(f->getFieldName()))("n",n)("x",jbytes(s.str()))("s",jbytes(cs))("n2",format::indent_value(s))("same",jval(f).t==v.t)("g",texts(f))); }
    void elem(PVArray* f) { size_t n=indent(), i=f->getLength()&&r.chance(5,6)?r.below(f->getLength()):f->getLength()+r.below(3); Raw v(jval(f)); std::ostringstream s; s<<format::indent_level(n); std::string ex; try { s<<format::array_at(i)<<*f; } catch(std::exception&) { ex="refused"; }
        c.every(40); c.log(Obj()("op","elem")("t",jtype(f->getField()))("v",v)("i",i)("n",n)("x",jbytes(s.str()))("ex",ex)("n2",format::indent_value(s))("same",jval(f).t==v.t)("g",texts(f))); }
    void fmt(PVStructure* f, int how) { size_t n=indent(), nf=f->getNumberFields(); Raw v(jval(f)); BitSet m, hm; bool sm=r.chance(2,3), sh=r.chance(1,2), ansi=sh?r.chance(5,6):r.chance(1,4); m=gmask(r,nf); hm=gmask(r,nf); if(r.chance(1,3)) { m.clear(); m.set(r.below(nf)); } if(r.chance(1,3)) { hm.clear(); hm.set(r.below(nf)); } if(r.chance(1,20)) { m.clear(); m.set(nf+r.below(5)); }
        std::ostringstream s; s<<format::indent_level(n); PVStructure::Formatter F(f->stream()); if(sm) F.show(m); if(sh) F.highlight(hm); F.format(how==0?PVStructure::Formatter::Raw:how==1?PVStructure::Formatter::NT:PVStructure::Formatter::JSON);
        if(ansi) F.mode(PVStructure::Formatter::ANSI); else if(r.chance(1,2)) F.mode(PVStructure::Formatter::Plain); else if(r.chance(1,2)) F.mode(PVStructure::Formatter::Auto);
        s<<F; std::string js; if(how==2) { JSONPrintOptions jo; jo.multiLine=false; jo.json5=true; std::ostringstream t; BitSet w; w.set(0); printJSON(t,*f,sm?m:w,jo); js=t.str(); } BitSet z; z.set(0); BitSet none; static const char* O[]={"raw","nt","json"};
        c.every(40); c.log(Obj()("op",O[how])("t",jtype(f->getField()))("v",v)("m",members(sm?m:z))("hm",members(sh&&ansi?hm:none))("n",n)("x",jbytes(s.str()))("j",jbytes(js))("n2",format::indent_value(s))("same",jval(f).t==v.t)("g",texts(f))); }
    // alarms, times, choices
    StructureConstPtr alarm() { if(r.chance(2,3)) return getStandardField()->alarm(); FieldBuilderPtr b(fc->createFieldBuilder()); b->setId("alarm_t"); if(r.chance(3,4)) b->add("severity",r.chance(3,4)?pvInt:pvShort); if(r.chance(3,4)) b->add("status",r.chance(3,4)?pvInt:pvString); if(r.chance(3,4)) b->add("message",r.chance(3,4)?pvString:pvInt); if(r.chance(1,4)) b->addArray("x",pvInt); return b->createStructure(); }
    StructureConstPtr stamp() { if(r.chance(2,3)) return getStandardField()->timeStamp(); static const ScalarType K[]={pvLong,pvULong,pvInt,pvUInt}; FieldBuilderPtr b(fc->createFieldBuilder()); b->setId("time_t"); if(r.chance(4,5)) b->add("secondsPastEpoch",K[r.below(4)]); if(r.chance(3,4)) b->add("nanoseconds",K[r.below(4)]); if(r.chance(3,4)) b->add("userTag",r.chance(1,2)?pvInt:pvLong); return b->createStructure(); }
    StructureConstPtr enumt() { if(r.chance(2,3)) return getStandardField()->enumerated(); static const ScalarType K[]={pvInt,pvUShort,pvUInt,pvByte}; FieldBuilderPtr b(fc->createFieldBuilder()); b->setId("enum_t"); if(r.chance(4,5)) b->add("index",K[r.below(4)]); if(r.chance(4,5)) b->addArray("choices",r.chance(4,5)?pvString:pvInt); return b->createStructure(); }
    void setInt(const PVStructurePtr& s, const char* nm, int64 v) { PVScalarPtr x(s->getSubField<PVScalar>(nm)); if(x && x->getScalar()->getScalarType()!=pvString) x->putFrom<int64>(v); }
    void special(const PVStructurePtr& s) { std::string id(s->getField()->getID());
        if(id=="alarm_t" || id=="time_t" || id=="enum_t") { gfill(r,s.get(),o);
            setInt(s,"severity",r.chance(1,8)?int64(int32(r.next())):int64(r.below(6))); setInt(s,"status",r.chance(1,8)?int64(int32(r.next())):int64(r.below(9))); if(PVStringPtr p=s->getSubField<PVString>("message")) p->put(r.chance(1,3)?std::string():str());
            { PVScalarPtr x(s->getSubField<PVScalar>("secondsPastEpoch")); int64 v; switch(r.below(6)) { case 0: v=0; break; case 1: v=631152000+int64(r.below(3))-1; break; case 2: v=int64(r.below(2000000000)); break; case 3: v=int64(r.next()%4926119000ull); break; case 4: { static const int64 K[]={951782399,951782400,1709164800,1709251199,1735689599,2147483647,2147483648ll,4102444800ll,4107542400ll,4294967295ll,4294967296ll,4294967297ll,4926119295ll,-1,-1000000000}; v=K[r.below(15)]; break; } default: v=631152000+int64(r.below(4294967295u)); }
              if(x) { ScalarType t=x->getScalar()->getScalarType(); if(t==pvInt && v>2147483647ll) v%=2147483647ll; if(t==pvUInt && v>4294967295ll) v%=4294967295ll; if((t==pvUInt||t==pvULong)&&v<0) v=-v; setInt(s,"secondsPastEpoch",v); } }
            { static const int64 K[]={0,0,1,499999,500000,999999,1000000,999499999,999500000,999999999}; setInt(s,"nanoseconds",r.chance(1,2)?K[r.below(10)]:int64(r.below(1000000000))); }
            setInt(s,"userTag",r.chance(1,2)?0:int64(int32(r.next()))); setInt(s,"index",r.chance(1,8)?-1:int64(r.below(6)));
            if(PVStringArrayPtr p=s->getSubField<PVStringArray>("choices")) { PVStringArray::svector v; for(size_t i=0,n=r.below(6);i<n;i++) v.push_back(str()); p->replace(freeze(v)); } return; }
        for(auto& x: s->getPVFields()) { if(x->getField()->getType()==structure) special(std::tr1::static_pointer_cast<PVStructure>(x)); else if(x->getField()->getType()==scalarArray && r.chance(1,3)) { if(auto p=dynamic_cast<PVStringArray*>(x.get())) if(static_cast<const Array*>(p->getField().get())->getArraySizeType()==Array::variable) { PVStringArray::svector v; for(size_t i=0,n=r.below(5);i<n;i++) v.push_back(str()); p->replace(freeze(v)); } } else if(x->getField()->getType()==scalar && r.chance(1,3)) { if(auto p=dynamic_cast<PVString*>(x.get())) if(!dynamic_cast<const BoundedString*>(p->getField().get())) p->put(str()); } } }
    PVStructurePtr nt() { GenOpt q(o); q.maxf=3; q.depth=2; FieldBuilderPtr b(fc->createFieldBuilder()); static const char* ID[]={"epics:nt/NTScalar:1.0","epics:nt/NTTable:1.0","epics:nt/NTTable:1","epics:nt/NTTable:10.0","structure","epics:nt/NTEnum:1.0",".x"}; int k=int(r.below(8)); if(k>5) k=3; b->setId(k==3&&r.chance(4,5)?ID[1+r.below(2)]:ID[r.below(7)]);
        bool early=r.chance(1,3); if(early) meta(b);
        switch(k) {
        case 0: b->add("value",ScalarType(r.below(pvString+1))); break;
        case 1: b->addArray("value",ScalarType(r.below(pvString+1))); break;
        case 2: b->add("value",enumt()); break;
        case 3: { if(r.chance(2,3)) b->addArray("labels",r.chance(7,8)?pvString:pvInt); FieldBuilderPtr v(b->addNestedStructure("value")); for(size_t i=0,n=r.below(20)?1+r.below(4):0;i<n;i++) { static const char* N[]={"a","bb","c_c","ddddddd"}; if(r.chance(1,14)) v->add(N[i],pvInt); else v->addArray(N[i],ScalarType(r.below(pvString+1))); } v->endNested(); break; }
        case 4: b->add("value",gtype(r,q,2)); break;
        default: b->add("other",gtype(r,q,1)); }
        if(!early && r.chance(4,5)) meta(b); if(r.chance(1,4)) b->add("descriptor",pvString);
        PVStructurePtr s(getPVDataCreate()->createPVStructure(b->createStructure())); if(r.chance(5,6)) gfill(r,s.get(),o); special(s);
        if(k==3) { if(PVStringArrayPtr p=s->getSubField<PVStringArray>("labels")) { PVStringArray::svector v; for(size_t i=0,n=r.below(6);i<n;i++) v.push_back(str()); p->replace(freeze(v)); }
            if(PVStructurePtr t=s->getSubField<PVStructure>("value")) { size_t rows=r.below(4); for(auto& x: t->getPVFields()) if(PVScalarArray* a=dynamic_cast<PVScalarArray*>(x.get())) { if(a->getLength()>8 || r.chance(3,4)) { shared_vector<const std::string> v; a->setLength(0); if(PVStringArray* p=dynamic_cast<PVStringArray*>(a)) { PVStringArray::svector w; for(size_t i=0;i<rows+r.below(2);i++) w.push_back(str()); p->replace(freeze(w)); } else if(PVBooleanArray* p=dynamic_cast<PVBooleanArray*>(a)) { PVBooleanArray::svector w(rows+r.below(2)); for(auto& y: w) y=r.below(2); p->replace(freeze(w)); } else { shared_vector<int32> w(rows+r.below(2)); for(auto& y: w) y=r.chance(1,3)?int32(r.next()):int32(r.below(3)); shared_vector<const int32> z(freeze(w)); a->putFrom<int32>(z); } } } } }
        return s; }
    void meta(const FieldBuilderPtr& b) { if(r.chance(3,4)) { if(r.chance(9,10)) b->add("alarm",alarm()); else b->add("alarm",pvInt); } if(r.chance(3,4)) { if(r.chance(9,10)) b->add("timeStamp",stamp()); else b->addArray("timeStamp",pvLong); } }
    StructureConstPtr mixed() { GenOpt q(o); q.maxf=3; FieldBuilderPtr b(fc->createFieldBuilder()); static const char* N[]={"a","b","c","d","e"}; for(size_t i=0,n=1+r.below(4);i<n;i++) switch(r.below(6)) { case 0: b->add(N[i],alarm()); break; case 1: b->add(N[i],stamp()); break; case 2: b->add(N[i],enumt()); break; case 3: { FieldBuilderPtr x(b->addNestedStructure(N[i])); x->add("q",alarm()); x->add("w",pvString); x->add("z",gtype(r,q,1)); x->endNested(); break; } default: b->add(N[i],gtype(r,q,2)); } return b->createStructure(); }
    void run() { o.nan=true; for(size_t k=0;k<c.n(700,4000);k++) {
            esc();
            switch(r.below(8)) {
            case 0: type(r.chance(1,2)?gtype(r,o,3):FieldConstPtr(r.chance(1,2)?gunion(r,o,3):UnionConstPtr(gunion(r,o,2)))); break;
            case 1: case 2: { PVFieldPtr f(mkpv(gtype(r,o,r.chance(1,2)?2:1))); gfill(r,f.get(),o); if(PVStructurePtr s=std::tr1::dynamic_pointer_cast<PVStructure>(f)) special(s); dump(f.get()); std::vector<PVField*> v; walk(f.get(),v); PVField* x=v[r.below(v.size())]; if(x!=f.get()) dump(x); for(auto y: v) if(PVArray* a=dynamic_cast<PVArray*>(y)) { elem(a); break; } break; }
            case 3: case 4: { PVStructurePtr s(getPVDataCreate()->createPVStructure(r.chance(1,2)?mixed():gstruct(r,o,3,1))); if(r.chance(9,10)) gfill(r,s.get(),o); special(s); for(int i=0;i<3;i++) fmt(s.get(),0); break; }
            case 5: case 6: { PVStructurePtr s(nt()); fmt(s.get(),1); fmt(s.get(),1); if(r.chance(1,4)) dump(s.get()); break; }
            default: { PVStructurePtr s(getPVDataCreate()->createPVStructure(gstruct(r,o,2,1))); if(r.chance(9,10)) gfill(r,s.get(),o); fmt(s.get(),2); } } } }
};
void run(Ctx& c) { setenv("TZ","UTC",1); setenv("EPICS_TIMEZONE","UTC::0",1); tzset(); H h(c); h.run(); }
}
VH_MAIN(run)
