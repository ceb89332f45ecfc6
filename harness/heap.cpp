// Histories on real fields with identity (PVHeapTrace): unions (C15), arrays of structures and
// unions (C17), copies and clones (C14), notifications and immutability (C36).
#include "pvh.h"
#include "ctl.h"
#include <pv/convert.h>
using namespace vh;
namespace {
struct World;
struct Handler : public PostHandler { World* w; size_t id; int no; Handler(World* w,size_t id,int no):w(w),id(id),no(no){} void postPut(); };
struct World {
    Ctx& c; Rng& r; std::vector<PVFieldPtr> obj; std::map<PVField*,size_t> id; std::vector<std::string> snap; std::vector<size_t> roots;
    std::vector<Raw> posts; std::vector<std::tr1::shared_ptr<Handler> > hs; std::vector<std::vector<std::tr1::shared_ptr<Handler> > > byfield;
    struct View { PVStructureArray::const_svector s; PVUnionArray::const_svector u; PVFieldPtr sa; std::string txt; int k; std::function<std::string()> show; };
    std::vector<std::function<std::string()> > views; std::vector<std::string> vtxt; std::function<std::string()> late;
    World(Ctx& c):c(c),r(c.rng) {}
    size_t idof(const PVField* p) { if(!p) return 0; auto i=id.find(const_cast<PVField*>(p)); return i==id.end()?999999:i->second; }
    template<class A> Raw ids(const A& a) { std::vector<size_t> v; for(size_t i=0;i<a.size();i++) v.push_back(idof(a[i].get())); return jv(v); }
    Raw content(PVField* f) { switch(f->getField()->getType()) {
        case scalar: case scalarArray: return jval(f);
        case structure: return ids(static_cast<PVStructure*>(f)->getPVFields());
        case structureArray: return ids(static_cast<PVStructureArray*>(f)->view());
        case unionArray: return ids(static_cast<PVUnionArray*>(f)->view());
        case union_: { PVUnion* u=static_cast<PVUnion*>(f); int s=u->getSelectedIndex(); std::string nm=u->getSelectedFieldName(), want=(s<0||u->getUnion()->isVariant())?"":u->getUnion()->getFieldName(s); if(nm!=want) s=-99; return Obj()("sel",s)("c",idof(u->get().get())).done(); }
        } return Raw("0"); }
    Raw seen(PVField* f) { switch(f->getField()->getType()) { case scalar: case scalarArray: return jval(f); case structure: return Raw("0"); case union_: return jv(static_cast<PVUnion*>(f)->getSelectedIndex());
        case structureArray: return jv(static_cast<PVStructureArray*>(f)->view().size()); case unionArray: return jv(static_cast<PVUnionArray*>(f)->view().size()); } return Raw("0"); }
    void add(const PVFieldPtr& p) { if(!p||id.count(p.get())) return; obj.push_back(p); id[p.get()]=obj.size(); kids(p); }
    void kids(const PVFieldPtr& p) { switch(p->getField()->getType()) {
        case structure: for(auto& x: static_cast<PVStructure*>(p.get())->getPVFields()) add(x); break;
        case union_: add(static_cast<PVUnion*>(p.get())->get()); break;
        case structureArray: { PVStructureArray::const_svector v(static_cast<PVStructureArray*>(p.get())->view()); for(size_t i=0;i<v.size();i++) add(v[i]); } break;
        case unionArray: { PVUnionArray::const_svector v(static_cast<PVUnionArray*>(p.get())->view()); for(size_t i=0;i<v.size();i++) add(v[i]); } break;
        default: break; } }
    std::string node(PVField* f) { return Obj()("v",content(f))("p",idof(f->getParent()))("im",f->isImmutable()).done().t; }
    // run one operation and log what changed
    void ev(Obj e, std::function<Raw()> fn, PVFieldPtr* root=0) {
        posts.clear(); Raw ret("0"); bool ok=true; std::string ex;
        try { ret=fn(); } catch(std::exception& x) { ok=false; ex=typeid(x).name(); }
        size_t n0=obj.size(); for(size_t i=0;i<n0;i++) kids(obj[i]);
        if(root && *root) add(*root);
        std::vector<Raw> ch; snap.resize(obj.size());
        for(size_t i=0;i<obj.size();i++) { std::string s(node(obj[i].get())); if(s!=snap[i]) { Obj x; x("id",i+1); if(i>=n0) x("t",jtype(obj[i]->getField())); std::string t(x.done().t); t.resize(t.size()-1); t+=","+s.substr(1); ch.push_back(Raw(t)); snap[i]=s; } }
        int vw=0; for(size_t i=0;i<views.size();i++) if(views[i]()!=vtxt[i]) { vw++; vtxt[i]=views[i](); }
        if(ok && root) ret=jv(idof(root->get()));
        if(late) { std::string t(late()); e.t+=","+t.substr(1,t.size()-2); late=nullptr; }
        c.log(e("ok",ok)("r",ret)("cnt",obj.size())("ch",ch)("ps",posts)("vw",vw)("ex",ex));
    }
    PVFieldPtr& at(size_t i) { return obj[i-1]; }
    std::vector<size_t> where(std::function<bool(PVField*)> f) { std::vector<size_t> v; for(size_t i=0;i<obj.size();i++) if(f(obj[i].get())) v.push_back(i+1); return v; }
    bool anyimm(PVField* f) { if(f->isImmutable()) return true; if(f->getField()->getType()==structure) for(auto& x: static_cast<PVStructure*>(f)->getPVFields()) if(anyimm(x.get())) return true; if(f->getField()->getType()==union_) { PVFieldPtr v(static_cast<PVUnion*>(f)->get()); if(v&&anyimm(v.get())) return true; }
        if(f->getField()->getType()==structureArray) { PVStructureArray::const_svector v(static_cast<PVStructureArray*>(f)->view()); for(size_t i=0;i<v.size();i++) if(v[i]&&anyimm(v[i].get())) return true; }
        if(f->getField()->getType()==unionArray) { PVUnionArray::const_svector v(static_cast<PVUnionArray*>(f)->view()); for(size_t i=0;i<v.size();i++) if(v[i]&&anyimm(v[i].get())) return true; }
        return false; }
};
void Handler::postPut() { w->posts.push_back(Obj()("n",id)("v",w->seen(w->obj[id-1].get())).done()); }
template<class T> Raw putrand(Rng& r, PVField* f, Obj& e, bool conv, std::function<Raw()>& fn) {
    PVScalarValue<T>* s=static_cast<PVScalarValue<T>*>(f); T v=gscalar<T>(r); e("v",jscalar<T>(v));
    unsigned how=r.below(4); fn=[=]{ if(how==0) s->template putFrom<T>(v); else if(how==1) { *s<<=v; } else if(how==2) static_cast<PVScalar*>(s)->template putFrom<T>(v); else s->put(v); return Raw("0"); }; return Raw(""); }
template<> Raw putrand<std::string>(Rng& r, PVField* f, Obj& e, bool, std::function<Raw()>& fn) {
    PVString* s=static_cast<PVString*>(f); std::string v=gstring(r,r.chance(1,3)?8:4); e("v",jbytes(v)); unsigned how=r.below(2); fn=[=]{ if(how) s->put(v); else s->putFrom<std::string>(v); return Raw("0"); }; return Raw(""); }
template<class T> void arrrand(Rng& r, PVField* f, Obj& e, std::function<Raw()>& fn) {
    PVValueArray<T>* s=static_cast<PVValueArray<T>*>(f); size_t n=r.below(5); const ScalarArray* t=s->getScalarArray().get(); if(t->getArraySizeType()!=Array::variable && r.chance(2,3)) n=t->getMaximumCapacity();
    typename PVValueArray<T>::svector v(n); std::vector<Raw> j; for(size_t i=0;i<n;i++) { T x=gscalar<T>(r); v[i]=x; j.push_back(jscalar<T>(x)); } e("v",j);
    typename PVValueArray<T>::const_svector cv(freeze(v)); bool how=r.below(2); fn=[=]{ if(how) s->replace(cv); else s->template putFrom<T>(cv); return Raw("0"); }; }
template<> void arrrand<std::string>(Rng& r, PVField* f, Obj& e, std::function<Raw()>& fn) {
    PVStringArray* s=static_cast<PVStringArray*>(f); size_t n=r.below(4); const ScalarArray* t=s->getScalarArray().get(); if(t->getArraySizeType()!=Array::variable && r.chance(2,3)) n=t->getMaximumCapacity();
    PVStringArray::svector v(n); std::vector<Raw> j; for(size_t i=0;i<n;i++) { v[i]=gstring(r,6); j.push_back(jbytes(v[i])); } e("v",j); PVStringArray::const_svector cv(freeze(v)); fn=[=]{ s->replace(cv); return Raw("0"); }; }
template<class T> std::function<std::string()> saview(PVField* f) { typename PVValueArray<T>::const_svector v(static_cast<PVValueArray<T>*>(f)->view()); return [v]{ std::string o; for(size_t i=0;i<v.size();i++) o+=jscalar<T>(v[i]).t; return o; }; }

struct Hist {
    World w; Rng& r; GenOpt o; std::vector<FieldConstPtr> types; std::string mode;
    Hist(Ctx& c):w(c),r(c.rng),mode(c.mode) { o.maxf=3; o.bounds=true; o.nan=false; o.names={"a","b","c","value"}; }
    FieldConstPtr pick() {
        FieldCreatePtr fc(getFieldCreate());
        for(;;) { FieldConstPtr t;
            if(mode=="union") t=r.chance(1,5)?FieldConstPtr(fc->createVariantUnion()):r.chance(1,3)?FieldConstPtr(gstruct(r,o,2,1)):FieldConstPtr(gunion(r,o,2));
            else if(mode=="objarr") t=r.chance(2,3)?FieldConstPtr(fc->createStructureArray(gstruct(r,o,1,1))):r.chance(1,3)?FieldConstPtr(fc->createVariantUnionArray()):FieldConstPtr(gtype(r,o,2));
            else t=r.chance(1,3)?gtype(r,o,2):FieldConstPtr(gstruct(r,o,3,1));
            PVFieldPtr p(mkpv(t)); if(p->getNumberFields()<=9) return t; } }
    // two variant unions holding values of nearly the same type
    void variants() { FieldCreatePtr fc(getFieldCreate()); FieldConstPtr v(fc->createVariantUnion()), a, b; for(int k=0;;k++) { a=r.chance(1,2)?FieldConstPtr(gstruct(r,o,1,1)):pick(); b=tmut(r,a,o); if(mkpv(a)->getNumberFields()<=6 && mkpv(b)->getNumberFields()<=6) break; }
        fresh(v); size_t u1=w.roots.back(); fresh(v); size_t u2=w.roots.back(); fresh(a); size_t x=w.roots.back(); fresh(b); size_t y=w.roots.back();
        if(x==0||y==0) return; setcur(u1,x); setcur(u2,y); if(r.chance(1,2)) fillin(y);
        for(int k=0;k<3;k++) { cross(u1,u2);
            mutate(); } }
    // two unions of one type with like members, on different selections
    void twins() { UnionConstPtr t; for(;;) { GenOpt q(o); q.any=false; t=gunion(r,q,2); if(t->getNumberFields()>1 && mkpv(t->getField(0))->getNumberFields()<=6) break; }
        fresh(t); size_t u1=w.roots.back(); fresh(t); size_t u2=w.roots.back(); size_t nf=t->getNumberFields();
        for(int k=0;k<4;k++) { for(size_t u: {u1,u2}) if(r.chance(2,3)) { PVUnion* U=static_cast<PVUnion*>(w.at(u).get()); int i=int(r.below(nf+1))-1; PVFieldPtr got; w.ev(Obj()("op","select")("n",u)("i",i),[&]{ got=U->select(i); return Raw("0"); },&got); if(got&&r.chance(1,2)) fillin(w.idof(got.get())); }
            cross(u1,u2); } }
    void cross(size_t u1, size_t u2) { size_t d=r.chance(1,2)?u1:u2, q=d==u1?u2:u1; PVUnion *D=static_cast<PVUnion*>(w.at(d).get()), *Q=static_cast<PVUnion*>(w.at(q).get());
        if(r.chance(1,2)) w.ev(Obj()("op","copy")("n",d)("s",q),[&]{ D->copy(*Q); return Raw("0"); });
        else if(!reach(D,Q)&&!reach(Q,D)) { PVField *dv=D->get().get(), *qv=Q->get().get(); if(dv&&qv&&(aliased(dv,qv)||aliased(qv,dv))) return; int bo=r.below(2)?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE; OutCtl oc(r,64,bo); Q->serialize(&oc.buf,&oc); std::string bytes(oc.finish()); InCtl ic(r,bytes,64,bo); w.ev(Obj()("op","decode")("n",d)("s",q),[&]{ D->deserialize(&ic.buf,&ic); return Raw("0"); }); } }
    void setcur(size_t u, size_t x) { PVUnion* U=static_cast<PVUnion*>(w.at(u).get()); PVFieldPtr p(w.at(x)); w.ev(Obj()("op","setcur")("n",u)("c",x),[&]{ U->set(p); return Raw("0"); }); }
    void fillin(size_t y) { PVField* Y=w.at(y).get(); for(int k=0;k<2;k++) { size_t n=one([&](PVField* f){ if(!isT(f,scalar)&&!isT(f,scalarArray)) return false; for(PVField* q=f;q;q=q->getParent()) if(q==Y) return true; return false; }); if(n) put(n); } }
    void fresh(const FieldConstPtr& t) { PVFieldPtr p; w.ev(Obj()("op","new")("t",jtype(t)),[&]{ p=mkpv(t); return Raw(); },&p); if(p) w.roots.push_back(w.idof(p.get())); }
    // an existing field of type t, sometimes a wrong one
    size_t oftype(const FieldConstPtr& t, unsigned wrong) {
        if(wrong && r.chance(1,wrong)) return r.chance(1,3)?0:1+r.below(w.obj.size());
        std::vector<size_t> v(w.where([&](PVField* f){ return f->getField()==t && !f->getParent(); })); if(v.empty() || r.chance(1,4)) { fresh(t); return w.obj.empty()?0:w.idof(w.at(w.roots.back()).get()); } return r.pick(v); }
    // does the field named x hold, directly or indirectly, the field y?
    bool reach(PVField* x, PVField* y, int depth=0) { if(x==y) return true; if(depth>12) return true; switch(x->getField()->getType()) {
        case structure: for(auto& k: static_cast<PVStructure*>(x)->getPVFields()) if(reach(k.get(),y,depth+1)) return true; return false;
        case union_: { PVFieldPtr v(static_cast<PVUnion*>(x)->get()); return v&&reach(v.get(),y,depth+1); }
        case structureArray: { PVStructureArray::const_svector v(static_cast<PVStructureArray*>(x)->view()); for(size_t i=0;i<v.size();i++) if(v[i]&&reach(v[i].get(),y,depth+1)) return true; return false; }
        case unionArray: { PVUnionArray::const_svector v(static_cast<PVUnionArray*>(x)->view()); for(size_t i=0;i<v.size();i++) if(v[i]&&reach(v[i].get(),y,depth+1)) return true; return false; }
        default: return false; } }
    void put(size_t n) { PVField* f=w.at(n).get(); if(f->isImmutable()) return; Obj e; std::function<Raw()> fn;
        if(f->getField()->getType()==scalar) { e("op","put")("n",n); switch(static_cast<PVScalar*>(f)->getScalar()->getScalarType()) {
#define X(T,C) case C: putrand<T>(r,f,e,false,fn); break;
            ALLSCALARS(X)
#undef X
            } }
        else { e("op","replace")("n",n); switch(static_cast<PVScalarArray*>(f)->getScalarArray()->getElementType()) {
#define X(T,C) case C: arrrand<T>(r,f,e,fn); break;
            ALLSCALARS(X)
#undef X
            } }
        w.ev(e,fn); }
    Raw tail(PVField* f, size_t from) { std::vector<Raw> o; if(isT(f,structureArray)) { PVStructureArray::const_svector v(static_cast<PVStructureArray*>(f)->view()); for(size_t i=from;i<v.size();i++) o.push_back(jv(w.idof(v[i].get()))); }
        else if(isT(f,unionArray)) { PVUnionArray::const_svector v(static_cast<PVUnionArray*>(f)->view()); for(size_t i=from;i<v.size();i++) o.push_back(jv(w.idof(v[i].get()))); }
        else switch(static_cast<PVScalarArray*>(f)->getScalarArray()->getElementType()) {
#define X(T,C) case C: { PVValueArray<T>::const_svector v(static_cast<PVValueArray<T>*>(f)->view()); for(size_t i=from;i<v.size();i++) o.push_back(jscalar<T>(v[i])); } break;
            ALLSCALARS(X)
#undef X
            } return jv(o); }
    void setlen(size_t n) { PVArray* a=static_cast<PVArray*>(w.at(n).get()); size_t k=r.chance(1,4)?a->getLength():r.below(6), len=a->getLength(); w.late=[=]{ return Obj()("tail",tail(a,std::min(len,a->getLength()))).done().t; }; w.ev(Obj()("op","setlen")("n",n)("k",k),[&]{ a->setLength(k); return Raw("0"); }); }
    template<class A> void objarr(size_t n, unsigned what) {
        A* a=static_cast<A*>(w.at(n).get()); bool imm=a->isImmutable(); size_t len=a->getLength();
        switch(what) {
        case 0: { size_t k=r.below(3); w.ev(Obj()("op","append")("n",n)("k",k),[&]{ return jv(a->append(k)); }); break; }
        case 1: { size_t off=r.below(len+2), k=r.below(4); if(r.chance(1,12)) { off=size_t(-1)-r.below(3); k=1+r.below(5);} if(r.chance(1,12)) k=size_t(-1)-r.below(3);
            w.ev(Obj()("op","remove")("n",n)("off",long(std::min<size_t>(off,1000000)))("k",long(std::min<size_t>(k,1000000))),[&]{ return jv(int(a->remove(off,k))); }); break; }
        case 2: w.ev(Obj()("op","compress")("n",n),[&]{ a->compress(); return Raw("0"); }); break;
        case 3: { size_t k=r.below(8); w.ev(Obj()("op","setcap")("n",n)("k",k),[&]{ a->setCapacity(k); return Raw("0"); }); break; }
        case 4: setlen(n); break;
        default: { // replace or swap with given elements
            typename A::svector v; std::vector<size_t> ids; FieldConstPtr et=elem(a); size_t k=r.below(5);
            for(size_t i=0;i<k;i++) { size_t x=r.chance(1,4)?0:oftype(et,0); if(x && reach(w.at(x).get(),a)) x=0; typename A::value_type p; if(x) p=std::tr1::static_pointer_cast<typename A::value_type::element_type>(w.at(x)); v.push_back(p); ids.push_back(x); }
            typename A::const_svector cv(freeze(v)); bool sw=imm||r.chance(1,2); 
            if(sw) { typename A::const_svector old; w.ev(Obj()("op","swap")("n",n)("v",ids),[&]{ a->swap(cv); return w.ids(cv); }); }
            else w.ev(Obj()("op","replace")("n",n)("v",ids),[&]{ a->replace(cv); return Raw("0"); });
            } } }
    FieldConstPtr elem(PVStructureArray* a) { return a->getStructureArray()->getStructure(); }
    FieldConstPtr elem(PVUnionArray* a) { return a->getUnionArray()->getUnion(); }
    void uni(size_t n) { PVUnion* u=static_cast<PVUnion*>(w.at(n).get()); if(u->isImmutable()) return; int nf=(int)u->getUnion()->getNumberFields(); bool var=u->getUnion()->isVariant(); UnionConstPtr ut(u->getUnion());
        int i=r.chance(1,8)?(r.chance(1,2)?nf+int(r.below(3)):-1-int(r.below(3))):nf?int(r.below(nf)):-1; if(r.chance(1,5)) i=u->getSelectedIndex();
        std::string nm=(i>=0&&i<nf&&r.chance(9,10))?ut->getFieldName(i):r.chance(1,2)?std::string("nosuch"):std::string(""); if(r.chance(1,15)&&nm.size()) nm.resize(nm.size()-1);
        switch(r.below(var?4:6)) {
        case 0: case 4: { PVFieldPtr got; w.ev(Obj()("op","select")("n",n)("i",i),[&]{ got=u->select(i); return Raw("0"); },&got); break; }
        case 5: { PVFieldPtr got; w.ev(Obj()("op","selname")("n",n)("nm",jbytes(nm)),[&]{ got=u->select(nm); return Raw("0"); },&got); break; }
        case 1: { size_t x=r.chance(1,10)?0: (i>=0&&i<nf)?oftype(ut->getField(i),5):var&&r.chance(1,2)?oftype(pick(),0):1+r.below(w.obj.size()); if(x&&reach(w.at(x).get(),u)) return; PVFieldPtr p; if(x) p=w.at(x);
            w.ev(Obj()("op","set")("n",n)("i",i)("c",x),[&]{ u->set(i,p); return Raw("0"); }); break; }
        case 2: { size_t x=r.chance(1,10)?0: (i>=0&&i<nf)?oftype(ut->getField(i),5):1+r.below(w.obj.size()); if(x&&reach(w.at(x).get(),u)) return; PVFieldPtr p; if(x) p=w.at(x);
            w.ev(Obj()("op","setname")("n",n)("nm",jbytes(nm))("c",x),[&]{ u->set(nm,p); return Raw("0"); }); break; }
        default: { int s=u->getSelectedIndex(); size_t x=r.chance(1,8)?0: (s>=0&&s<nf)?oftype(ut->getField(s),5):1+r.below(w.obj.size()); if(x&&reach(w.at(x).get(),u)) return; PVFieldPtr p; if(x) p=w.at(x);
            w.ev(Obj()("op","setcur")("n",n)("c",x),[&]{ u->set(p); return Raw("0"); }); break; }
        } }
    void doCopy(unsigned how) {
        std::vector<size_t> cand(w.where([&](PVField* f){ return f->getField()->getType()!=scalar||how==3||r.chance(1,3); })); if(cand.empty()) return;
        size_t d=r.pick(cand); PVField* D=w.at(d).get(); std::vector<size_t> same(w.where([&](PVField* f){ return f->getField()==D->getField(); }));
        size_t s=r.chance(1,10)?1+r.below(w.obj.size()):r.pick(same); if(same.size()<2&&r.chance(2,3)) { fresh(D->getField()); s=w.roots.back(); } PVField* S=w.at(s).get(); D=w.at(d).get();
        bool typesame=S->getField()==D->getField();
        if(!D->isImmutable() && w.anyimm(D)) return;   // what lies beneath an immutable field is not guarded by its parents
        if(how==0) { w.ev(Obj()("op","copy")("n",d)("s",s),[&]{ generic(D,S,typesame); return Raw("0"); }); return; }
        if(w.anyimm(D)||!typesame) return;
        if(how==1) { w.ev(Obj()("op","copyu")("n",d)("s",s),[&]{ D->copyUnchecked(*S); return Raw("0"); }); return; }
        if(how==2) { if(D->getField()->getType()!=structure) return; PVStructure* PD=static_cast<PVStructure*>(D), *PS=static_cast<PVStructure*>(S); PVStructure* top=PS; while(top->getParent()) top=top->getParent();
            size_t nf=top->getNumberFields(); BitSet m(gmask(r,nf)); bool inv=r.chance(1,3); w.ev(Obj()("op","copym")("n",d)("s",s)("m",members(m))("inv",inv)("base",PS->getFieldOffset())("nf",nf+2),[&]{ PD->copyUnchecked(*PS,m,inv); return Raw("0"); }); return; }
        // decode into d the bytes of s
        if(reach(S,D)||reach(D,S)) return;
        { std::vector<PVField*> shared; if(d==s) return; if(aliased(D,S)) return; }
        int bo=r.below(2)?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE; OutCtl oc(r,64,bo); S->serialize(&oc.buf,&oc); std::string bytes(oc.finish()); InCtl ic(r,bytes,64,bo);
        w.ev(Obj()("op","decode")("n",d)("s",s),[&]{ D->deserialize(&ic.buf,&ic); return Raw("0"); });
    }
    // the type-specific copy where the types agree, otherwise the generic one
    void generic(PVField* D, PVField* S, bool same) {
        unsigned k=r.below(2); if(!same||k) { switch(D->getField()->getType()) {
            case structure: if(S->getField()->getType()==structure) { static_cast<PVStructure*>(D)->copy(*static_cast<PVStructure*>(S)); return; } break;
            case union_: if(S->getField()->getType()==union_) { static_cast<PVUnion*>(D)->copy(*static_cast<PVUnion*>(S)); return; } break;
            case structureArray: if(S->getField()->getType()==structureArray) { static_cast<PVStructureArray*>(D)->copy(*static_cast<PVStructureArray*>(S)); return; } break;
            case unionArray: if(S->getField()->getType()==unionArray) { static_cast<PVUnionArray*>(D)->copy(*static_cast<PVUnionArray*>(S)); return; } break;
            case scalar: if(same) { static_cast<PVScalar*>(D)->assign(*static_cast<PVScalar*>(S)); return; } break;
            case scalarArray: if(same) { static_cast<PVScalarArray*>(D)->assign(*static_cast<PVScalarArray*>(S)); return; } break;
            } }
        static_cast<PVField*>(D)->copy(*S); }
    bool aliased(PVField* a, PVField* b) { std::vector<PVField*> v; own(a,v); for(PVField* x: v) if(reach(b,x)) return true; return false; }
    void own(PVField* x, std::vector<PVField*>& v) { v.push_back(x); if(x->getField()->getType()==structure) for(auto& k: static_cast<PVStructure*>(x)->getPVFields()) own(k.get(),v); if(x->getField()->getType()==union_) { PVFieldPtr c(static_cast<PVUnion*>(x)->get()); if(c) own(c.get(),v); } }
    void clone() { size_t s=1+r.below(w.obj.size()); PVFieldPtr S(w.at(s)), p; unsigned how=r.below(2); if(w.anyimm(S.get())) {}
        w.ev(Obj()("op","clone")("s",s),[&]{ PVDataCreatePtr dc(getPVDataCreate()); Type k=S->getField()->getType();
            if(how && k==structure) p=dc->createPVStructure(std::tr1::static_pointer_cast<PVStructure>(S)); else if(how && k==union_) p=dc->createPVUnion(std::tr1::static_pointer_cast<PVUnion>(S));
            else if(how && k==scalar) p=dc->createPVScalar(std::tr1::static_pointer_cast<PVScalar>(S)); else if(how && k==scalarArray) p=dc->createPVScalarArray(std::tr1::static_pointer_cast<PVScalarArray>(S)); else p=dc->createPVField(S); return Raw("0"); },&p);
        if(p) w.roots.push_back(w.idof(p.get())); }
    void view(size_t n) { PVField* f=w.at(n).get(); std::function<std::string()> fn; World* W=&w; switch(f->getField()->getType()) {
        case structureArray: { PVStructureArray::const_svector v(static_cast<PVStructureArray*>(f)->view()); fn=[v,W]{ return W->ids(v).t; }; break; }
        case unionArray: { PVUnionArray::const_svector v(static_cast<PVUnionArray*>(f)->view()); fn=[v,W]{ return W->ids(v).t; }; break; }
        case scalarArray: switch(static_cast<PVScalarArray*>(f)->getScalarArray()->getElementType()) {
#define X(T,C) case C: fn=saview<T>(f); break;
            ALLSCALARS(X)
#undef X
            } break;
        default: return; }
        w.views.push_back(fn); w.vtxt.push_back(fn()); w.ev(Obj()("op","view")("n",n),[]{ return Raw("0"); }); }
    size_t one(std::function<bool(PVField*)> f) { std::vector<size_t> v(w.where(f)); return v.empty()?0:r.pick(v); }
    static bool isT(PVField* f, Type t) { return f->getField()->getType()==t; }
    void mutate() { size_t n; switch(r.below(5)) {
        case 0: case 1: n=one([&](PVField* f){ return isT(f,scalar)||isT(f,scalarArray); }); if(n) put(n); break;
        case 2: n=one([&](PVField* f){ return isT(f,union_); }); if(n) uni(n); break;
        case 3: n=one([&](PVField* f){ return isT(f,structureArray)||isT(f,unionArray); }); if(n) arr(n,r.below(8)); break;
        default: n=one([&](PVField* f){ return isT(f,scalarArray); }); if(n) setlen(n); break; } }
    void arr(size_t n, unsigned what) { if(isT(w.at(n).get(),structureArray)) objarr<PVStructureArray>(n,what); else objarr<PVUnionArray>(n,what); }
    void handler() { size_t n=1+r.below(w.obj.size()); PVField* f=w.at(n).get(); w.byfield.resize(w.obj.size()+1); int k; std::tr1::shared_ptr<Handler> h; auto& v=w.byfield[n]; if(v.size()&&r.chance(1,2)) h=r.pick(v); else { h.reset(new Handler(&w,n,int(v.size())+1)); v.push_back(h); } k=h->no;
        w.ev(Obj()("op","handler")("n",n)("k",k),[&]{ f->setPostHandler(h); return Raw("0"); }); }
    void run(size_t steps) {
        w.c.start(); size_t nt=1+r.below(2); for(size_t i=0;i<nt;i++) { FieldConstPtr t(pick()); types.push_back(t); fresh(t); fresh(t); }
        if((mode=="copy"||mode=="union") && r.chance(1,3)) { if(r.chance(1,2)) variants(); else twins(); }
        if(mode=="post"||r.chance(1,3)) for(int i=0;i<12;i++) handler();
        for(size_t k=0;k<steps && w.obj.size()<70;k++) { size_t n; unsigned x=r.below(20);
            if(mode=="union" && x<13) { n=one([&](PVField* f){ return isT(f,union_); }); if(n) { uni(n); continue; } }
            if(mode=="objarr" && x<14) { n=one([&](PVField* f){ return isT(f,structureArray)||isT(f,unionArray); }); if(n) { arr(n,r.below(8)); continue; } }
            if(mode=="copy" && x<9) { if(r.chance(1,4)) clone(); else doCopy(r.below(4)); continue; }
            if(mode=="post" && x<5) { unsigned y=r.below(12); if(y<5) handler(); else if(y<9) { n=1+r.below(w.obj.size()); w.ev(Obj()("op","post")("n",n),[&]{ w.at(n)->postPut(); return Raw("0"); }); } else { n=1+r.below(w.obj.size()); w.ev(Obj()("op","freeze")("n",n),[&]{ w.at(n)->setImmutable(); return Raw("0"); }); } continue; }
            if(mode=="post" && x<8) { n=one([&](PVField* f){ return f->isImmutable(); }); if(n) { PVField* f=w.at(n).get(); // every guarded mutator
                if(isT(f,structureArray)||isT(f,unionArray)) { unsigned q=r.below(8); arr(n,q); continue; }
                if(isT(f,scalarArray)&&r.chance(1,2)) { if(r.chance(1,2)) setlen(n); else { PVArray* a=static_cast<PVArray*>(f); size_t q=r.below(5); w.ev(Obj()("op","setcap")("n",n)("k",q),[&]{ a->setCapacity(q); return Raw("0"); }); } continue; }
                std::vector<size_t> same(w.where([&](PVField* g){ return g->getField()==f->getField(); })); size_t s=r.pick(same); PVField* S=w.at(s).get(); w.ev(Obj()("op","copy")("n",n)("s",s),[&]{ generic(f,S,true); return Raw("0"); }); continue; } }
            switch(r.below(12)) { case 0: clone(); break; case 1: case 2: doCopy(r.below(4)); break; case 3: { n=one([&](PVField* f){ return isT(f,scalarArray)||isT(f,structureArray)||isT(f,unionArray); }); if(n) view(n); break; }
                case 4: if(mode!="post") { std::vector<size_t> cs; StringArray ns; std::vector<Raw> jn; PVFieldPtrArray fs; for(int i=0;i<2;i++) { std::vector<size_t> v(w.where([&](PVField* f){ return !f->getParent() && !f->isImmutable() && std::find(cs.begin(),cs.end(),w.idof(f))==cs.end(); })); if(v.empty()) break; size_t q=r.pick(v); bool held=false; for(auto& x: w.obj) if(!isT(x.get(),structure) && x.get()!=w.at(q).get() && reach(x.get(),w.at(q).get())) held=true; if(held) break; cs.push_back(q); ns.push_back(i?"right":"left"); jn.push_back(jbytes(ns.back())); fs.push_back(w.at(q)); }
                    if(cs.size()==2 && r.chance(1,3)) { PVFieldPtr p; w.ev(Obj()("op","build")("nm",jn)("cs",cs),[&]{ p=getPVDataCreate()->createPVStructure(ns,fs); return Raw("0"); },&p); } break; }
                default: mutate(); } } }
};
void drive(Ctx& c) { size_t n=c.n(c.mode=="post"?130:110,2500); for(size_t i=0;i<n;i++) { Hist h(c); h.run(c.thorough?60:40); } }
}
VH_MAIN(drive)
