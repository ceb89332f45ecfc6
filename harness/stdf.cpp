// Standard structures (C37).
#include "pvh.h"
#include <pv/standardField.h>
#include <pv/standardPVField.h>
using namespace epics::pvData;
using namespace vh;
namespace {
static const char* P[]={"alarm","timeStamp","display","control","valueAlarm"};
struct H { Ctx& c; Rng& r; StandardFieldPtr f; StandardPVFieldPtr p; H(Ctx& c):c(c),r(c.rng),f(getStandardField()),p(getStandardPVField()) {}
    std::string text(int m) { std::vector<std::string> v; for(int i=0;i<5;i++) if(m>>i&1) v.push_back(P[i]); if(v.size() && r.chance(1,6)) v.push_back(r.pick(v)); for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.below(i)]); if(r.chance(1,6)) v.insert(v.begin(),"value");
        std::string s; for(size_t i=0;i<v.size();i++) { if(i) s+=r.chance(1,6)?", ":r.chance(1,12)?" ,":","; s+=v[i]; } return s; }
    Obj ev(const char* op, const char* kd, const FieldConstPtr& t, int m) { std::vector<Raw> ps; for(int i=0;i<5;i++) if(m>>i&1) ps.push_back(jv(P[i])); Obj e; e("op",op)("kd",kd)("t",jtype(t))("ps",ps); return e; }
    template<class F> void type(const char* kd, const FieldConstPtr& t, int m, F make) { std::string s(text(m)), ex; StructureConstPtr q; try { q=make(s); } catch(std::exception&) { ex="refused"; } c.every(1); Obj e(ev("type",kd,t,m)); e("text",s)("ex",ex); if(q) e("r",jtype(q)); c.log(e); }
    template<class F> void value(const char* kd, const FieldConstPtr& t, int m, const StringArray& ch, F make) { std::string s(text(m)), ex; PVStructurePtr q; try { q=make(s); } catch(std::exception&) { ex="refused"; } c.every(1); std::vector<Raw> cs; for(auto& x: ch) cs.push_back(jbytes(x)); Obj e(ev("value",kd,t,m)); e("text",s)("ex",ex)("ch",cs); if(q) e("r",jtype(q->getField()))("v",jval(q.get())); c.log(e); }
    void parts() { std::vector<Raw> n;
#define X(T,N) n.push_back(Obj()("t",T)("r",jtype(f->N##Alarm())).done());
        X("byte",byte) X("short",short) X("int",int) X("long",long) X("ubyte",ubyte) X("ushort",ushort) X("uint",uint) X("ulong",ulong) X("float",float) X("double",double)
#undef X
        c.every(1); c.log(Obj()("op","parts")("a",jtype(f->alarm()))("ts",jtype(f->timeStamp()))("di",jtype(f->display()))("co",jtype(f->control()))("bo",jtype(f->booleanAlarm()))("en",jtype(f->enumeratedAlarm()))("enumt",jtype(f->enumerated()))("num",n)); }
    void run() { FieldCreatePtr fc(getFieldCreate()); GenOpt o; parts();
        for(size_t rep=0;rep<c.n(1,4);rep++) for(int m=0;m<32;m++) { StringArray none;
            for(int t=pvBoolean;t<=pvString;t++) { ScalarType st=ScalarType(t);
                type("scalar",fc->createScalar(st),m,[&](const std::string& s){ return f->scalar(st,s); }); value("scalar",fc->createScalar(st),m,none,[&](const std::string& s){ return p->scalar(st,s); });
                if((m+t)%2==int(rep%2) || c.thorough) { type("scalarArray",fc->createScalarArray(st),m,[&](const std::string& s){ return f->scalarArray(st,s); }); value("scalarArray",fc->createScalarArray(st),m,none,[&](const std::string& s){ return p->scalarArray(st,s); }); } }
            StructureConstPtr st(gstruct(r,o,2)); UnionConstPtr un; do un=gunion(r,o,2); while(un->isVariant()); UnionConstPtr ua(gunion(r,o,2)); if(ua->isVariant()) ua=fc->createVariantUnion();
            type("structureArray",fc->createStructureArray(st),m,[&](const std::string& s){ return f->structureArray(st,s); }); value("structureArray",fc->createStructureArray(st),m,none,[&](const std::string& s){ return p->structureArray(st,s); });
            type("regUnion",un,m,[&](const std::string& s){ return f->regUnion(un,s); }); type("variantUnion",fc->createVariantUnion(),m,[&](const std::string& s){ return f->variantUnion(s); });
            type("unionArray",fc->createUnionArray(ua),m,[&](const std::string& s){ return f->unionArray(ua,s); }); value("unionArray",fc->createUnionArray(ua),m,none,[&](const std::string& s){ return p->unionArray(ua,s); });
            StringArray ch; for(size_t i=0,n=r.below(5);i<n;i++) ch.push_back(gstring(r)); FieldConstPtr et(f->enumerated());
            type("enumerated",et,m,[&](const std::string& s){ return f->enumerated(s); }); value("enumerated",et,m,ch,[&](const std::string& s){ return p->enumerated(ch,s); });
            { PVStructurePtr q(p->enumerated(ch)); std::vector<Raw> cs; for(auto& x: ch) cs.push_back(jbytes(x)); c.every(1); c.log(Obj()("op","enum")("ch",cs)("ex","")("r",jtype(q->getField()))("v",jval(q.get()))); } }
        parts(); } };
void run(Ctx& c) { H h(c); h.run(); }
}
VH_MAIN(run)
