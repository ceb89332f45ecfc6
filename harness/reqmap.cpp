// Request mapping (C24).
#include "pvh.h"
#include <pv/createRequest.h>
#include <pv/bitSet.h>
using namespace epics::pvData;
using namespace vh;
namespace {
struct Q { bool x; std::vector<std::pair<std::string,Q> > c; Q():x(false){} };
Q gen(Rng& r, const FieldConstPtr& t, int d, bool odd) { Q q; if(odd && r.chance(1,25)) { q.x=true; return q; }
    const Structure* s=dynamic_cast<const Structure*>(t.get()); std::set<std::string> u;
    if(!s) { if(odd && r.chance(1,6)) { Q y; q.c.push_back(std::make_pair("zz",y)); } return q; }
    if(d && r.chance(1,d>2?20:3)) return q;
    std::vector<std::string> ns(s->getFieldNames()); for(size_t i=ns.size();i>1;i--) std::swap(ns[i-1],ns[r.below(i)]); size_t k=1+r.below(ns.size()+1); if(k>ns.size()) k=ns.size(); ns.resize(k);
    for(auto& n: ns) if(u.insert(n).second) q.c.push_back(std::make_pair(n,gen(r,s->getField(n),d+1,odd)));
    if(odd && r.chance(1,5)) { std::string n(r.chance(1,4)?"_options":"nn"); if(u.insert(n).second) q.c.insert(q.c.begin()+r.below(q.c.size()+1),std::make_pair(n,gen(r,getFieldCreate()->createScalar(pvInt),d+1,odd))); }
    return q; }
FieldConstPtr qtype(Rng& r, const Q& q) { FieldCreatePtr f(getFieldCreate()); if(q.x) { switch(r.below(3)) { case 0: return f->createScalar(pvString); case 1: return f->createVariantUnion(); default: return f->createScalarArray(pvInt); } }
    StringArray n; FieldConstPtrArray v; for(auto& c: q.c) { n.push_back(c.first); v.push_back(qtype(r,c.second)); } return f->createStructure(n,v); }
Raw jq(const Q& q) { if(q.x) return Obj()("k","x").done(); std::vector<Raw> n,f; for(auto& c: q.c) { n.push_back(jbytes(c.first)); f.push_back(jq(c.second)); } return Obj()("k","st")("n",n)("f",f).done(); }
struct One { PVRequestMapper m; PVStructurePtr b, r; };
Raw state(const PVRequestMapper& m) { if(!m.base()) return Obj()("none",!m.requested() && m.requestedMask().isEmpty()).done(); return Obj()("none",false)("base",jtype(m.base()))("req",jtype(m.requested()))("mask",members(m.requestedMask())).done(); }
std::string kind(std::function<void()> f) { try { f(); return ""; } catch(std::logic_error& e) { return dynamic_cast<std::invalid_argument*>(&e)?"invalid":"logic"; } catch(std::runtime_error& e) { return "runtime"; } catch(std::exception& e) { return typeid(e).name(); } }
struct D { Ctx& c; Rng& r; One o[2]; GenOpt g; std::vector<StructureConstPtr> ts; D(Ctx& c):c(c),r(c.rng) { g.nan=true; g.maxf=3; }
    void fresh(One& x) { if(!x.m.base()) { x.b.reset(); x.r.reset(); return; } if(!x.b || x.b->getStructure()!=x.m.base() || r.chance(1,2)) { x.b=x.m.buildBase(); gfill(r,x.b.get(),g); } x.r=x.m.buildRequested(); if(r.chance(3,4)) gfill(r,x.r.get(),g); }
    void compute(int i) { One& x=o[i]; StructureConstPtr t(r.pick(ts)); if(x.m.base() && r.chance(1,3)) t=x.m.base(); PVStructurePtr b(getPVDataCreate()->createPVStructure(t)); bool top=true; const PVStructure* B=b.get();
        if(r.chance(1,25)) { std::vector<PVField*> w; walk(b.get(),w); for(size_t k=1;k<w.size();k++) if(w[k]->getField()->getType()==structure) { B=static_cast<PVStructure*>(w[k]); top=false; } }
        Q q(gen(r,t,0,r.chance(1,2))); if(q.x && r.chance(2,3)) { q.x=false; } if(r.chance(1,10)) { q=Q(); }
        bool mask=r.chance(1,2), has=r.chance(14,15);
        FieldCreatePtr f(getFieldCreate()); StringArray n; FieldConstPtrArray v; std::string keep="none"; int kk=(int)r.below(7); FieldConstPtr kt;
        switch(kk) { case 0: kt=f->createScalar(pvBoolean); break; case 1: case 2: case 3: kt=f->createScalar(pvString); break; case 4: kt=f->createScalar(pvInt); break; case 5: kt=f->createScalarArray(pvInt); break; default: break; }
        if(kt) { FieldConstPtr op(f->createStructure(StringArray(1,"keepIDs"),FieldConstPtrArray(1,kt))); n.push_back("record"); v.push_back(f->createStructure(StringArray(1,"_options"),FieldConstPtrArray(1,op))); }
        if(has) { n.push_back("field"); v.push_back(qtype(r,q)); } if(r.chance(1,4)) { n.push_back("getField"); v.push_back(f->createStructure()); }
        PVStructurePtr p(getPVDataCreate()->createPVStructure(f->createStructure(n,v)));
        bool yes=r.chance(1,2); if(kt && kk<5) { PVFieldPtr o(p->getSubField("record._options.keepIDs")); if(kk==0) static_cast<PVBoolean&>(*o).put(yes); else if(kk<3) static_cast<PVString&>(*o).put(yes?"true":"false"); else if(kk==3) static_cast<PVString&>(*o).put(yes?"perhaps":""); else if(kk==4) static_cast<PVInt&>(*o).put(yes?7:0);
            if(kk>=3) keep="bad"; else keep=yes?"yes":"no"; }
        std::string w0(x.m.warnings()); std::string ex=kind([&]{ if(r.chance(1,6) && !x.m.base()) { PVRequestMapper y(*B,*p,mask?PVRequestMapper::Mask:PVRequestMapper::Slice); x.m.swap(y); } else x.m.compute(*B,*p,mask?PVRequestMapper::Mask:PVRequestMapper::Slice); });
        if(ex.empty()) fresh(x);
        c.log(Obj()("op","compute")("i",i+1)("t",jtype(B->getStructure()))("top",top)("q",Obj()("has",has && !q.x)("f",jq(q)).done())("keep",keep)("mask",mask)("ex",ex)("s",state(x.m))("warn",!x.m.warnings().empty())("w",x.m.warnings())("rewarned",x.m.warnings()!=w0)); }
    BitSet gm(const PVStructure& s) { size_t n=s.getNumberFields(); BitSet m(gmask(r,n)); if(r.chance(1,10)) m=BitSet().set(0); if(r.chance(1,8)) m.set(n+r.below(70)); return m; }
    void copy(int i) { One& x=o[i]; bool r2b=r.chance(1,2); PVStructure& F=r2b?*x.r:*x.b; PVStructure& T=r2b?*x.b:*x.r; if(r.chance(2,3)) gfill(r,&F,g);
        BitSet fm(gm(F)), tm(r.chance(1,2)?BitSet():gm(T)); if(r.chance(1,5)) { fm=BitSet(); fm.set(r.below(F.getNumberFields())); } BitSet only(tm), tm0(tm), fm0(fm);
        if(r.chance(1,8)) tm=only=tm0=BitSet();
        Raw from(jval(&F)), to(jval(&T)); PVRequestMapper other(x.m); PVRequestMapper& M=r.chance(1,4)?other:x.m;
        if(r2b) M.maskBaseFromRequested(only,fm); else M.maskBaseToRequested(fm,only);
        std::string ex=kind([&]{ if(r2b) M.copyBaseFromRequested(T,tm,F,fm); else M.copyBaseToRequested(F,fm,T,tm); });
        c.log(Obj()("op","copy")("i",i+1)("r2b",r2b)("fm",members(fm0))("fm2",members(fm))("tm",members(tm0))("tm2",members(tm))("only",members(only))("from",from)("from2",jval(&F))("to",to)("to2",jval(&T))("ex",ex)); }
    void run() { ts.clear(); for(size_t k=0,n=1+r.below(3);k<n;k++) { if(r.chance(1,4)) { GenOpt h(g); h.maxf=2; StructureConstPtr s(gstruct(r,h,2,1)); for(size_t d=0,e=2+r.below(7);d<e;d++) { StringArray nn(1,"a"); FieldConstPtrArray f(1,s); if(r.chance(1,2)) { nn.push_back("b"); f.push_back(getFieldCreate()->createScalar(pvByte)); } s=getFieldCreate()->createStructure("D",nn,f); } ts.push_back(s); } else ts.push_back(gstruct(r,g,3,r.chance(1,15)?0:1)); }
        c.start(); o[0]=One(); o[1]=One();
        for(size_t k=0,n=6+r.below(14);k<n;k++) { int i=(int)r.below(2); One& x=o[i];
            switch(r.below(12)) { case 0: case 1: case 2: compute(i); break;
            case 3: if(r.chance(1,3)) { x.m.reset(); fresh(x); c.log(Obj()("op","reset")("i",i+1)("s",state(x.m))("warn",!x.m.warnings().empty())); } break;
            case 4: if(r.chance(1,2)) { o[0].m.swap(o[1].m); std::swap(o[0].b,o[1].b); std::swap(o[0].r,o[1].r); c.log(Obj()("op","swap")("s1",state(o[0].m))("s2",state(o[1].m))); } else if(r.chance(1,2)) { x.m=o[1-i].m; fresh(x); c.log(Obj()("op","assign")("i",i+1)("s",state(x.m))); } break;
            case 5: { PVStructurePtr a,b; std::string e1=kind([&]{ a=x.m.buildRequested(); }), e2=kind([&]{ b=x.m.buildBase(); }); Obj e; e("op","build")("i",i+1)("ex",e1==e2?e1:e1+"/"+e2); if(a&&b) e("rt",jtype(a->getField()))("bt",jtype(b->getField()))("r",jval(a.get()))("b",jval(b.get())); c.log(e); break; }
            default: if(x.m.base()) copy(i); else compute(i); } } }
};
void run(Ctx& c) { D d(c); for(size_t i=0,n=c.n(110,1500);i<n;i++) d.run(); }
}
VH_MAIN(run)
