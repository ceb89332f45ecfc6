// Names, classes and codes; creation of data (C39).
#include "pvh.h"
#include <sstream>
#include <climits>
#include <pv/alarm.h>
using namespace epics::pvData;
using namespace vh;
namespace {
template<class F> std::string what(F f) { try { f(); return ""; } catch(std::exception&) { return "refused"; } }
struct H { Ctx& c; Rng& r; FieldCreatePtr fc; PVDataCreatePtr pc; H(Ctx& c):c(c),r(c.rng),fc(getFieldCreate()),pc(getPVDataCreate()) {}
    void names() {
        for(int n=0;n<16;n++) { ScalarType t=ScalarType(n); std::string nm, sh, ex(what([&]{ nm=ScalarTypeFunc::name(t); std::ostringstream o; o<<t; sh=o.str(); })); size_t sz=0; std::string sx(what([&]{ sz=ScalarTypeFunc::elementSize(t); }));
            c.every(1); c.log(Obj()("op","class")("n",n)("ex",ex)("name",jbytes(nm))("shown",jbytes(sh))("sx",sx)("size",int(sz))("str",int(sizeof(std::string)))
                ("int",ScalarTypeFunc::isInteger(t))("uint",ScalarTypeFunc::isUInteger(t))("num",ScalarTypeFunc::isNumeric(t))("prim",ScalarTypeFunc::isPrimitive(t)));
            for(int q=0;q<3;q++) { size_t want=q==0?0:q==1?1+r.below(3):r.below(20); shared_vector<void> v; std::string ax(what([&]{ v=ScalarTypeFunc::allocArray(t,want); }));
                c.every(1); Obj e; e("op","alloc")("n",n)("want",int(want))("ex",ax);
                if(ax.empty()) { /* the contents of numbers are not defined and not looked at */ std::vector<Raw> w; ScalarType ot=v.original_type();
                    switch(ot) {
#define X(T,E) case E: { shared_vector<T> a(static_shared_vector_cast<T>(v)); for(size_t i=0;i<a.size();i++) { if(E!=pvString) a[i]=T(); w.push_back(jscalar<T>(a[i])); } break; }
                    ALLSCALARS(X)
#undef X
                    }
                    e("t",stype(ot))("len",int(w.size()))("v",w); }
                c.log(e); } }
        for(int n=0;n<8;n++) { Type t=Type(n); std::string nm, sh, ex(what([&]{ nm=TypeFunc::name(t); std::ostringstream o; o<<t; sh=o.str(); })); c.every(1); c.log(Obj()("op","kind")("n",n)("ex",ex)("name",jbytes(nm))("shown",jbytes(sh))); }
        static const char* W[]={"boolean","byte","short","int","long","ubyte","ushort","uint","ulong","float","double","string"};
        for(size_t i=0;i<c.n(120,600);i++) { std::string s(W[i<12?i:r.below(12)]);
            if(i>=12) switch(r.below(9)) { case 0: s=s.substr(0,s.size()-1); break; case 1: s+="s"; break; case 2: s+=' '; break; case 3: s=" "+s; break; case 4: s[0]=toupper(s[0]); break; case 5: s=gstring(r,6); break; case 6: s+=std::string(1,'\0'); break; case 7: s="u"+s; break; default: if(s.size()) s[r.below(s.size())]^=1; }
            int q=-1; std::string ex(what([&]{ q=ScalarTypeFunc::getScalarType(s); })); c.every(1); c.log(Obj()("op","parse")("s",jbytes(s))("ex",ex)("r",q)); } }
    void alarms() {
        std::vector<int> v; for(int i=-3;i<12;i++) v.push_back(i); for(int x: {INT_MAX,-INT_MAX,255,256,257,65536,65537,-256}) v.push_back(x); for(int i=0;i<20;i++) v.push_back(int(r.next()>>33));
        for(int n: v) { int q=-1; std::string ex(what([&]{ q=AlarmSeverityFunc::getSeverity(n); })); c.every(1); c.log(Obj()("op","sev")("n",n)("ex",ex)("r",q));
            q=-1; ex=what([&]{ q=AlarmStatusFunc::getStatus(n); }); c.every(1); c.log(Obj()("op","stat")("n",n)("ex",ex)("r",q)); }
        for(int k=0;k<3;k++) { std::vector<Raw> a,b; StringArrayPtr p(AlarmSeverityFunc::getSeverityNames()), q(AlarmStatusFunc::getStatusNames()); for(auto& s: *p) a.push_back(jbytes(s)); for(auto& s: *q) b.push_back(jbytes(s)); c.every(1); c.log(Obj()("op","words")("sev",a)("stat",b)); }
        for(int s=0;s<5;s++) for(int t=0;t<8;t++) { Alarm a; std::string m(gstring(r)); if(r.chance(1,2)) { a.setStatus(AlarmStatus(r.below(8))); a.setSeverity(AlarmSeverity(r.below(5))); } a.setMessage(m); a.setSeverity(AlarmSeverity(s)); a.setStatus(AlarmStatus(t));
            c.every(1); c.log(Obj()("op","alarm")("s",s)("st",t)("m",jbytes(m))("sev",int(a.getSeverity()))("stat",int(a.getStatus()))("msg",jbytes(a.getMessage()))); } }
    void guesses() { GenOpt o; o.maxf=6;
        for(size_t i=0;i<c.n(250,1500);i++) { UnionConstPtr u;
            if(r.chance(1,8)) u=fc->createVariantUnion();
            else if(r.chance(1,3)) u=gunion(r,o,1);
            else { StringArray n; FieldConstPtrArray f; size_t k=1+r.below(6); ScalarType pal[3]={ScalarType(r.below(12)),ScalarType(r.below(12)),pvString};
                for(size_t j=0;j<k;j++) { n.push_back(std::string(1,char('a'+j))); ScalarType t=pal[r.below(3)]; switch(r.below(8)) { case 0: f.push_back(fc->createFixedScalarArray(t,1+r.below(3))); break; case 1: f.push_back(fc->createBoundedScalarArray(t,1+r.below(3))); break; case 2: case 3: f.push_back(fc->createScalarArray(t)); break; case 4: f.push_back(fc->createBoundedString(1+r.below(9))); break; case 5: f.push_back(gtype(r,o,1)); break; default: f.push_back(fc->createScalar(t)); } }
                u=fc->createUnion(n,f); }
            for(int q=0;q<3;q++) { Type k=q==2&&r.chance(1,4)?Type(2+r.below(4)):q&1?scalarArray:scalar; ScalarType s=ScalarType(r.below(12));
                if(r.chance(1,2) && u->getNumberFields()) { FieldConstPtr m(u->getField(r.below(u->getNumberFields()))); if(m->getType()==scalar) s=static_cast<const Scalar*>(m.get())->getScalarType(); else if(m->getType()==scalarArray) s=static_cast<const ScalarArray*>(m.get())->getElementType(); }
                int g=-2; std::string ex(what([&]{ g=u->guess(k,s); })); static const char* K[]={"s","sa","st","sta","u","ua"};
                c.every(1); c.log(Obj()("op","guess")("u",jtype(u))("k",K[k])("s",stype(s))("ex",ex)("r",g)); } } }
    void tree(Obj& e, const PVFieldPtr& p) { std::vector<PVField*> w; walk(p.get(),w); std::vector<Raw> n; bool im=false; for(auto f: w) { n.push_back(jv(int(f->getFieldOffset()))); im=im||f->isImmutable(); } e("nums",n)("off",int(p->getFieldOffset()))("imm",im)("name",jbytes(p->getFieldName()))("root",p->getParent()==0); }
    void make(const char* how, const FieldConstPtr& t, const PVFieldPtr& p) { c.every(1); Obj e; e("op","make")("how",how)("t",jtype(t))("r",jtype(p->getField()))("v",jval(p)); tree(e,p); c.log(e); }
    void makes() { GenOpt o;
        for(int t=0;t<12;t++) { ScalarType s=ScalarType(t); make("scalar",fc->createScalar(s),pc->createPVScalar(s)); make("scalarArray",fc->createScalarArray(s),pc->createPVScalarArray(s)); make("scalarType",fc->createScalar(s),pc->createPVScalar(fc->createScalar(s))); }
#define X(T,E) make("template",fc->createScalar(E),pc->createPVScalar<PVScalarValue<T> >()); make("templateArray",fc->createScalarArray(E),pc->createPVScalarArray<PVValueArray<T> >());
        ALLSCALARS(X)
#undef X
        make("any",fc->createVariantUnion(),pc->createPVVariantUnion()); make("anyArray",fc->createVariantUnionArray(),pc->createPVVariantUnionArray());
        for(size_t i=0;i<c.n(60,400);i++) { FieldConstPtr t(gtype(r,o,3)); make("field",t,pc->createPVField(t)); make("build",t,t->build()); StructureConstPtr s(gstruct(r,o,3)); make("structure",s,pc->createPVStructure(s)); make("buildStructure",s,s->build());
            make("structureArray",fc->createStructureArray(s),pc->createPVStructureArray(s)); UnionConstPtr u(gunion(r,o,2)); make("union",u,pc->createPVUnion(u)); make("buildUnion",u,u->build()); make("unionArray",fc->createUnionArray(u),pc->createPVUnionArray(u)); } }
    void clone(const char* how, const PVFieldPtr& p, const PVFieldPtr& q, const Raw& before) { c.every(1); Obj e; e("op","clone")("how",how)("t",jtype(p->getField()))("v",before)("src",jval(p))("r",jtype(q->getField()))("w",jval(q))("same",p.get()==q.get()); tree(e,q); c.log(e); }
    void clones() { GenOpt o;
        for(size_t i=0;i<c.n(120,900);i++) { FieldConstPtr t(i%3?gtype(r,o,3):FieldConstPtr(gstruct(r,o,3))); PVFieldPtr p(mkpv(t)); gfill(r,p.get(),o);
            if(t->getType()==structure && r.chance(1,3)) { std::vector<PVField*> w; walk(p.get(),w); w[r.below(w.size())]->setImmutable(); }     // a clone of something frozen is not frozen
            if(t->getType()==structure && r.chance(1,3)) { std::vector<PVField*> w; walk(p.get(),w); p=w[r.below(w.size())]->shared_from_this(); t=p->getField(); }   // ... or of a part
            if(r.chance(1,4)) p->setImmutable();
            Raw b(jval(p)); clone("field",p,pc->createPVField(p),b);
            switch(t->getType()) { case scalar: clone("scalar",p,pc->createPVScalar(std::tr1::static_pointer_cast<PVScalar>(p)),b); break; case scalarArray: clone("scalarArray",p,pc->createPVScalarArray(std::tr1::static_pointer_cast<PVScalarArray>(p)),b); break;
                case structure: clone("structure",p,pc->createPVStructure(std::tr1::static_pointer_cast<PVStructure>(p)),b); break; case union_: clone("union",p,pc->createPVUnion(std::tr1::static_pointer_cast<PVUnion>(p)),b); break; default: break; } } }
    void parts() { GenOpt o; static const char* N[]={"a","b","c","value","x1","_","","9a","a.b","a b","B"};
        { PVStructurePtr none, s(pc->createPVStructure(none)); c.every(1); c.log(Obj()("op","nothing")("r",jtype(s->getField()))("v",jval(PVFieldPtr(s)))); }
        for(size_t i=0;i<c.n(120,600);i++) { size_t k=r.below(5); StringArray n; PVFieldPtrArray f; std::vector<Raw> jn,jf,jp; bool odd=r.chance(1,3);
            for(size_t j=0;j<k;j++) { std::string s(odd?N[r.below(11)]:std::string(1,char('a'+j))+(r.chance(1,3)?"_1":"")); PVFieldPtr p(mkpv(gtype(r,o,2))); gfill(r,p.get(),o); n.push_back(s); f.push_back(p); jn.push_back(jbytes(s)); jf.push_back(jtype(p->getField())); jp.push_back(jval(p)); }
            PVStructurePtr s; std::string ex(what([&]{ s=pc->createPVStructure(n,f); })); c.every(1); Obj e; e("op","parts")("n",jn)("f",jf)("p",jp)("ex",ex);
            if(s) { bool same=true, found=true; for(size_t j=0;j<k;j++) { same=same&&s->getPVFields()[j]==f[j]&&f[j]->getParent()==s.get()&&f[j]->getFieldName()==n[j]; found=found&&s->getSubField(n[j])==f[j]&&s->getSubField(f[j]->getFieldOffset())==f[j]; }
                e("r",jtype(s->getField()))("v",jval(PVFieldPtr(s)))("same",same)("found",found); tree(e,s); }
            c.log(e); } }
    template<class T> void assign(ScalarType t) { std::tr1::shared_ptr<PVScalarValue<T> > p(pc->createPVScalar<PVScalarValue<T> >()); for(int i=0;i<6;i++) { T x(gscalar<T>(r)), y=T(); *p<<=x; *p>>=y; c.every(1); c.log(Obj()("op","assign")("t",stype(t))("x",jscalar<T>(x))("r",jval(PVFieldPtr(p)))("o",jscalar<T>(y))); } }
    void run() { names(); alarms(); guesses(); makes(); clones(); parts();
#define X(T,E) assign<T>(E);
        ALLSCALARS(X)
#undef X
    } };
void run(Ctx& c) { H h(c); h.run(); }
}
VH_MAIN(run)
