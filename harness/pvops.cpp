// Values as a user handles them: equality (C18), tree and numbering (C13), changed-set compression (C22).
#include "pvh.h"
#include <pv/bitSetUtil.h>
using namespace vh;
static GenOpt opt() { GenOpt o; o.nan=true; o.maxf=3; return o; }
static bool sameptr(const PVField* a, const PVField* b) { return a==b; }
static void eq(Ctx& c) {
    Rng& r=c.rng; size_t n=c.n(1500,25000); GenOpt o(opt());
    for(size_t i=0;i<n;i++) { c.every(20);
        FieldCreatePtr fc(getFieldCreate()); FieldConstPtr t(i<24?FieldConstPtr(i<12?FieldConstPtr(fc->createScalar((ScalarType)i)):FieldConstPtr(fc->createScalarArray((ScalarType)(i-12)))): gtype(r,o,2));
        std::vector<FieldConstPtr> ts; std::vector<PVFieldPtr> v;
        PVFieldPtr a(mkpv(t)); gfill(r,a.get(),o); ts.push_back(t); v.push_back(a);
        for(int k=1;k<3;k++) { FieldConstPtr tk(t); PVFieldPtr p;
            if(r.chance(1,6)) { tk=tmut(r,t,o); p=mkpv(tk); if(r.chance(1,2)) gfill(r,p.get(),o); }
            else { p=r.chance(1,6)?mkpv(t):deepcopy(v[r.below(k)].get()); for(size_t m=r.below(3);m;m--) vmut(r,p.get(),o); }
            ts.push_back(p->getField()); v.push_back(p); }
        std::vector<Raw> jt,jx; for(int k=0;k<3;k++) { jt.push_back(jtype(ts[k])); jx.push_back(jval(v[k])); }
        std::vector<Raw> E; std::string ex;
        for(int x=0;x<3;x++) { std::vector<int> row; for(int y=0;y<3;y++) { int q=-1; PVField& B=*v[y]; ex+=exname([&]{ bool e=*v[x]==B, ne=*v[x]!=B; q=(e?1:0)+(ne?2:0); }); row.push_back(q); } E.push_back(jv(row)); }
        PVFieldPtr self(deepcopy(v[0].get())); int se=-1; ex+=exname([&]{ se=*self==*v[0]; });
        c.log(Obj()("op","eq")("t",jt)("v",jx)("m",E)("ex",ex)("self",se));
    }
}
static int findp(const std::vector<PVField*>& w, const PVField* f) { for(size_t i=0;i<w.size();i++) if(w[i]==f) return (int)i; return f?-2:-1; }
static void tree(Ctx& c) {
    Rng& r=c.rng; size_t n=c.n(260,5000); GenOpt o(opt()); o.maxf=4;
    for(size_t i=0;i<n;i++) { c.every(8);
        StructureConstPtr t(gstruct(r,o,3,r.chance(1,10)?0:1)); PVStructurePtr p(getPVDataCreate()->createPVStructure(t));
        std::vector<PVField*> w; walk(p.get(),w);
        Obj e; e("op","tree")("t",jtype(t))("dflt",jval(p.get()));
        if(r.chance(1,2)) gfill(r,p.get(),o);
        std::vector<Raw> fs; std::vector<size_t> ord; for(size_t k=0;k<w.size();k++) ord.push_back(k); for(size_t k=ord.size();k>1;k--) std::swap(ord[k-1],ord[r.below(k)]);
        std::vector<Raw> tmp(w.size());
        for(size_t q=0;q<ord.size();q++) { size_t k=ord[q]; PVField* f=w[k];   // queries in random order: offsets are computed lazily
            Obj x; x("off",f->getFieldOffset())("next",f->getNextFieldOffset())("num",f->getNumberFields())("name",jbytes(f->getFieldName()))("full",jbytes(f->getFullName()))("parent",findp(w,f->getParent()))
             ("t",jtype(f->getField()));
            if(f->getField()->getType()==structure) { PVStructure* s=static_cast<PVStructure*>(f); std::vector<int> by; for(size_t z=0;z<w.size()+3;z++) { PVFieldPtr g(s->getSubField(z)); by.push_back(findp(w,g.get())); } x("byoff",by);
                std::vector<int> kids; for(auto& y: s->getPVFields()) kids.push_back(findp(w,y.get())); x("kids",kids); }
            tmp[k]=x.done(); }
        e("f",tmp);
        // by name: real names, prefixes, corruptions, from the root and from inner structures
        std::vector<Raw> L; const Structure* ts=t.get();
        for(int q=0;q<14;q++) { size_t base=0; if(q%4==3) { std::vector<size_t> k; for(size_t j=0;j<w.size();j++) if(w[j]->getField()->getType()==structure) k.push_back(j); base=r.pick(k); }
            PVStructure* s=static_cast<PVStructure*>(w[base]); std::string nm; size_t k=r.below(w.size()); nm=w[k]->getFullName();
            std::string bf=w[base]->getFullName(); if(bf.size() && nm.size()>bf.size() && r.chance(3,4)) nm=nm.substr(bf.size()+1);
            switch(r.below(12)) { case 6: case 7: { size_t d=nm.find('.'); char ch=" ,/:[\t"[r.below(6)]; if(r.chance(1,3)) ch=' '; if(d!=std::string::npos) nm[d]=ch; else if(r.chance(1,2)) nm+=ch; else nm.insert(r.below(nm.size()+1),1,ch); break; } case 8: if(nm.size()) { nm+=' '; nm+=r.pick(o.names); } break; case 0: nm+="."; break; case 1: nm="."+nm; break; case 2: nm+=".a"; break; case 3: if(nm.size()) nm.erase(r.below(nm.size()),1); break; case 4: { size_t d=nm.find('.'); if(d!=std::string::npos) nm.insert(d,"."); break; } case 5: nm=r.pick(o.names); break; default: break; }
            PVFieldPtr g; PVField* g2=0; std::string ex=exname([&]{ g=s->getSubField(nm); }), ex2=exname([&]{ g2=s->getSubFieldT(nm).get(); });
            // typed lookup
            PVIntPtr ti; PVStructurePtr tst; PVStructureArrayPtr tsa; PVUnionPtr tu; PVStringPtr tstr; PVDoubleArrayPtr tda; PVScalarPtr tsc; PVScalarArrayPtr tsca; std::string ex3=exname([&]{ ti=s->getSubField<PVInt>(nm); tst=s->getSubField<PVStructure>(nm); tu=s->getSubField<PVUnion>(nm); tstr=s->getSubField<PVString>(nm); tda=s->getSubField<PVDoubleArray>(nm); tsa=s->getSubField<PVStructureArray>(nm); tsc=s->getSubField<PVScalar>(nm); tsca=s->getSubField<PVScalarArray>(nm); });
            std::string xi=exname([&]{ s->getSubFieldT<PVInt>(nm); }), xs=exname([&]{ s->getSubFieldT<PVStructure>(nm); }), xsc=exname([&]{ s->getSubFieldT<PVScalar>(nm); });
            L.push_back(Obj()("base",base)("name",jbytes(nm))("ex",ex)("got",findp(w,g.get()))("ex2",ex2)("got2",findp(w,g2))("ex3",ex3)
              ("int",findp(w,ti.get()))("st",findp(w,tst.get()))("u",findp(w,tu.get()))("str",findp(w,tstr.get()))("da",findp(w,tda.get()))("sta",findp(w,tsa.get()))("sc",findp(w,tsc.get()))("sca",findp(w,tsca.get()))
              ("xi",xi.empty())("xs",xs.empty())("xsc",xsc.empty())("field",jtype(s->getStructure()->getField(nm)))("fidx",(long)s->getStructure()->getFieldIndex(nm)).done());
        }
        // typed lookup by offset
        std::vector<Raw> O; for(int q=0;q<6;q++) { size_t off=r.below(w.size()+2); PVStringPtr a; PVStructurePtr b; std::string ex=exname([&]{ a=p->getSubField<PVString>(off); b=p->getSubField<PVStructure>(off); });
            std::string ex2=exname([&]{ p->getSubFieldT(off); }), ex3=exname([&]{ p->getSubFieldT<PVStructure>(off); });
            O.push_back(Obj()("off",off)("ex",ex)("str",findp(w,a.get()))("st",findp(w,b.get()))("ok",ex2.empty())("okst",ex3.empty()).done()); }
        std::vector<PVField*> w2; walk(p.get(),w2);
        e("look",L)("offs",O)("same",w2==w)("typesame",jtype(p->getField()).t==jtype(t).t);
        c.log(e);
    }
}
static void compress(Ctx& c) {
    Rng& r=c.rng; size_t n=c.n(420,8000); GenOpt o(opt()); o.maxf=4; o.sarrays=true;
    for(size_t i=0;i<n;i++) { c.every(20);
        StructureConstPtr t(gstruct(r,o,4,r.chance(1,12)?0:1)); PVStructurePtr p(getPVDataCreate()->createPVStructure(t)); size_t nf=p->getNumberFields();
        for(int k=0;k<4;k++) { BitSet::shared_pointer m(new BitSet(gmask(r,nf)));
            if(r.chance(1,4)) { // nearly everything beneath some structure
                std::vector<PVField*> w; walk(p.get(),w); PVField* s=w[r.below(w.size())]; for(size_t j=s->getFieldOffset()+1;j<s->getNextFieldOffset();j++) m->set(j); if(r.chance(1,3) && s->getNumberFields()>1) m->clear(s->getFieldOffset()+1+r.below(s->getNumberFields()-1)); if(r.chance(1,2)) m->clear(0); }
            auto within=[&]{ std::vector<int> v(members(*m)), w; for(int b: v) if(size_t(b)<nf) w.push_back(b); return w; };
            if(r.chance(1,5)) m->set(nf+r.below(70)); // beyond the structure: selects nothing
            if(r.chance(1,40)) { m->clear(); m->set(nf+r.below(3)); }
            std::vector<int> in(within()); bool ret=false; std::string ex=exname([&]{ ret=BitSetUtil::compress(m,p); }); std::vector<int> out(within());
            bool ret2=false; std::string ex2=exname([&]{ ret2=BitSetUtil::compress(m,p); });
            c.log(Obj()("op","compress")("t",jtype(t))("m",in)("ex",ex+ex2)("ret",ret)("out",out)("ret2",ret2)("out2",within())); }
    }
}
static void drive(Ctx& c) { if(c.mode=="eq") eq(c); else if(c.mode=="tree") tree(c); else compress(c); }
VH_MAIN(drive)
