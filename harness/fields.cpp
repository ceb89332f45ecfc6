// Construction and identity of types (C11, C12).
#include "pvh.h"
#include "ctl.h"
#include "coop.h"
using namespace epics::pvData;
using namespace vh;
namespace {
typedef std::weak_ptr<const Field> Weak;
struct Known { int id; Weak w; };
struct Hist {
    Ctx& c; Rng& r; FieldCreatePtr fc; std::map<const Field*, Known> reg; int nid; bool quiet;
    std::vector<FieldConstPtr> H; std::vector<FieldBuilderPtr> B; std::map<FieldBuilder*, int> bidx;
    std::vector<std::string> names, ids;
    Hist(Ctx& c):c(c),r(c.rng),fc(getFieldCreate()),nid(0),quiet(true),names({"a","b","c","a1","_x"}),ids({"structure","x","X","any","union"}) {}
    // ---- observation
    std::vector<int> gone; std::vector<Raw> news;
    static bool same(const Weak& a, const Weak& b) { return !a.owner_before(b) && !b.owner_before(a); }
    int see(const FieldConstPtr& f) {
        if(!f) return 0;
        Weak w(f); auto it=reg.find(f.get());
        if(it!=reg.end()) { if(same(it->second.w,w)) return it->second.id; gone.push_back(it->second.id); reg.erase(it); }
        std::vector<int> k;
        switch(f->getType()) {
        case structure: for(auto& x: static_cast<const Structure*>(f.get())->getFields()) k.push_back(see(x)); break;
        case union_: for(auto& x: static_cast<const Union*>(f.get())->getFields()) k.push_back(see(x)); break;
        case structureArray: k.push_back(see(static_cast<const StructureArray*>(f.get())->getStructure())); break;
        case unionArray: k.push_back(see(static_cast<const UnionArray*>(f.get())->getUnion())); break;
        default: break; }
        Known n={++nid,w}; reg[f.get()]=n; news.push_back(Obj()("id",n.id)("t",jtype(f))("c",k).done()); return n.id;
    }
    void sweep() { for(auto it=reg.begin(); it!=reg.end(); ) if(it->second.w.expired()) { gone.push_back(it->second.id); reg.erase(it++); } else ++it; }
    std::string* out; 
    void log(Obj& o) { sweep(); o("gone",gone)("new",news)("q",quiet); gone.clear(); news.clear(); if(out) { *out+=o.t+"}\n"; } else c.log(o); }
    int idof(const FieldConstPtr& f) { return see(f); }   // a held one is known already
    std::vector<int> idsof(const FieldConstPtrArray& a) { std::vector<int> v; for(auto& x: a) v.push_back(idof(x)); return v; }
    std::vector<Raw> jn(const std::vector<std::string>& n) { std::vector<Raw> v; for(auto& x: n) v.push_back(jbytes(x)); return v; }
    // ---- arguments
    bool bad; // illegal arguments too
    std::string name() { if(bad && r.chance(1,14)) { static const std::string w[]={"","0a","a.b","a b","-","\xc3\xa4",std::string("a\0b",3),"a-","1","@","[","`","{","/",":"}; return w[r.below(15)]; } return r.pick(names); }
    std::string ident() { if(bad && r.chance(1,14)) return ""; if(r.chance(1,20)) return "\xff weird id\n"; return r.pick(ids); }
    FieldConstPtr any() { if(bad && r.chance(1,16)) return FieldConstPtr(); if(H.empty()) return fc->createScalar(pvInt); if(r.chance(1,8)) return fc->createScalar(ScalarType(r.below(12))); return r.pick(H); }
    // an existing one of a kind, or null
    FieldConstPtr of(Type t) { if(bad && r.chance(1,16)) return FieldConstPtr(); std::vector<FieldConstPtr> v; for(auto& h: H) if(h->getType()==t) v.push_back(h); return v.empty()?FieldConstPtr():r.pick(v); }
    ScalarType st() { if(bad && r.chance(1,20)) return ScalarType(r.chance(1,2)?12:15); return r.chance(1,2)?pvString:ScalarType(r.below(12)); }
    std::string stn(ScalarType t) { return int(t)<=11?stype(t):"bad"; }
    void know(const FieldConstPtr& f) { if(f && !(reg.count(f.get()) && same(reg[f.get()].w,Weak(f)))) { Obj o; FieldConstPtr k(f); H.push_back(k); int i=see(k); // seen outside of a request
            o("op","mk")("w","wire")("t",jtype(k))("ok",true)("r",i); log(o); } }
    void knows(const FieldConstPtrArray& a) { for(auto& x: a) know(x); }
    void result(Obj& o, bool ok, const FieldConstPtr& f) { int i=ok?see(f):0; if(ok) H.push_back(f); o("ok",ok)("r",i); log(o); }
    template<class F> void request(Obj& o, F f) { FieldConstPtr g; bool ok=true; try { g=f(); } catch(std::exception&) { ok=false; } result(o,ok,g); }
    void fieldlist(StringArray& n, FieldConstPtrArray& f, size_t lo) { size_t k=lo+r.below(3); for(size_t i=0;i<k;i++) { n.push_back(name()); f.push_back(any()); }
        if(!r.chance(1,bad?5:50)) for(size_t i=0;i<n.size();i++) for(size_t j=0;j<i;j++) if(n[i]==n[j]) { n[i]="d"+std::to_string(i); }
        if(bad && r.chance(1,14)) { if(r.chance(1,2)) n.push_back(name()); else if(!f.empty()) f.pop_back(); } }
    void make() { Obj o; o("op","mk"); StringArray n; FieldConstPtrArray f;
        switch(r.below(14)) {
        case 0: { ScalarType t=st(); o("w","s")("st",stn(t)); request(o,[&]{ return fc->createScalar(t); }); break; }
        case 1: { size_t k=(bad&&r.chance(1,6))?0:1+r.below(3); if(r.chance(1,10)) k=300; o("w","str")("max",k); request(o,[&]{ return fc->createBoundedString(k); }); break; }
        case 2: case 3: { ScalarType t=st(); int b=int(r.below(3)); size_t k=b==0?0:1+r.below(3); o("w","sa")("st",stn(t))("b",b==0?"v":b==1?"b":"f")("max",k);
            request(o,[&]{ return b==0?fc->createScalarArray(t):b==1?fc->createBoundedScalarArray(t,k):fc->createFixedScalarArray(t,k); }); break; }
        case 4: case 5: case 6: { fieldlist(n,f,0); knows(f); bool noid=r.chance(1,3); std::string id=ident(); o("w","st")("noid",noid)("id",jbytes(id))("n",jn(n))("f",idsof(f));
            request(o,[&]{ if(noid && n.empty() && f.empty() && r.chance(1,2)) return fc->createStructure(); return noid?fc->createStructure(n,f):fc->createStructure(id,n,f); }); break; }
        case 7: case 8: { fieldlist(n,f,bad?0:1); knows(f); bool noid=r.chance(1,3); std::string id=ident(); o("w","u")("noid",noid)("id",jbytes(id))("n",jn(n))("f",idsof(f));
            request(o,[&]{ return noid?fc->createUnion(n,f):fc->createUnion(id,n,f); }); break; }
        case 9: { FieldConstPtr e(of(structure)); if(!e && !bad) return; o("w","sta")("e",idof(e)); StructureConstPtr s(std::tr1::static_pointer_cast<const Structure>(e)); request(o,[&]{ return fc->createStructureArray(s); }); break; }
        case 10: { if(r.chance(1,3)) { bool a=r.chance(1,2); o("w",a?"vara":"var"); request(o,[&]()->FieldConstPtr{ if(a) return fc->createVariantUnionArray(); return fc->createVariantUnion(); }); break; }
            FieldConstPtr e(of(union_)); if(!e && !bad) return; o("w","ua")("e",idof(e)); UnionConstPtr s(std::tr1::static_pointer_cast<const Union>(e)); request(o,[&]{ return fc->createUnionArray(s); }); break; }
        case 11: { FieldConstPtr e(of(structure)); if(!e && !bad) return; StructureConstPtr s(std::tr1::static_pointer_cast<const Structure>(e)); bool one=r.chance(1,2); if(one) { n.push_back(name()); f.push_back(any()); } else fieldlist(n,f,0);
            knows(f); o("w","app")("s",idof(e))("n",jn(n))("f",idsof(f)); request(o,[&]{ return one?fc->appendField(s,n[0],f[0]):fc->appendFields(s,n,f); }); break; }
        default: wire(); }
    }
    void wire() { if(H.empty()) return; FieldConstPtr h(r.pick(H)); Raw t(jtype(h)); std::string data; int bo=r.chance(1,2)?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE;
        { OutCtl w(r,64,bo); h->serialize(&w.buf,&w); data=w.finish(); }
        if(r.chance(1,2)) drop(h); else h.reset();
        InCtl in(r,data,64,bo); Obj o; o("op","mk")("w","wire")("t",t); request(o,[&]{ return fc->deserialize(&in.buf,&in); }); }
    void drop(FieldConstPtr& h) { int id=idof(h), k=0; for(size_t i=0;i<H.size();) if(H[i]==h) { H.erase(H.begin()+i); k++; } else i++; h.reset(); dropped(id,k); }
    void dropped(int id, int k) { Obj o; o("op","drop")("i",id)("k",k); log(o); }
    void dropone() { if(H.empty()) return; size_t i=r.below(H.size()); int id=idof(H[i]); H.erase(H.begin()+i); dropped(id,1); }
    template<class T> static bool cmpAs(const FieldConstPtr& a, const FieldConstPtr& b) { return epics::pvData::compare(static_cast<const T&>(*a),static_cast<const T&>(*b)); }
    // the comparison of the kind, if they are of one kind
    static bool kinded(const FieldConstPtr& a, const FieldConstPtr& b) {
        if(a->getType()!=b->getType()) return false;
        switch(a->getType()) { case scalar: return dynamic_cast<const BoundedString*>(a.get())&&dynamic_cast<const BoundedString*>(b.get())?cmpAs<BoundedString>(a,b):cmpAs<Scalar>(a,b); case scalarArray: return cmpAs<ScalarArray>(a,b); case structure: return cmpAs<Structure>(a,b); case structureArray: return cmpAs<StructureArray>(a,b); case union_: return cmpAs<Union>(a,b); default: return cmpAs<UnionArray>(a,b); } }
    void cmp() { if(H.empty()) return; FieldConstPtr a(r.pick(H)), b(r.pick(H)); if(r.chance(1,2)) { std::vector<FieldConstPtr> v; for(auto& h: H) if(h->getType()==a->getType()) v.push_back(h); b=r.pick(v); }
        else if(H.size()<14 && r.chance(2,3)) { GenOpt g; b=tmut(r,a,g); know(b); }     // much the same
        Obj o; o("op","cmp")("a",idof(a))("b",idof(b))("eq",*a==*b)("ne",*a!=*b)("full",epics::pvData::compare(*a,*b))("rev",epics::pvData::compare(*b,*a))("kind",kinded(a,b)); log(o); }
    // ---- lookups
    template<class F> bool got(F f, FieldConstPtr& g) { try { g=f(); return true; } catch(std::runtime_error&) { g.reset(); return false; } catch(std::out_of_range&) { g.reset(); return false; } }
    template<class S, class FT> void typed(const S* s, const std::string& n, FieldConstPtr& rk, bool& kok, FieldConstPtr& rkt) { rk=s->template getField<FT>(n); kok=got([&]{ return s->template getFieldT<FT>(n); },rkt); }
    template<class S, class FT> void typedp(const S* s, size_t p, FieldConstPtr& rk, bool& kok, FieldConstPtr& rkt) { got([&]{ return s->template getField<FT>(p); },rk); kok=got([&]{ return s->template getFieldT<FT>(p); },rkt); }
    template<class S> void lookup(const S* s) {
        static const char* kinds[]={"s","sa","st","sta","u","ua"}; int k=int(r.below(6)); FieldConstPtr f,ft,rk,rkt; bool tok,kok=false; Obj o; o("i",idof(s->shared_from_this()))("kind",kinds[k]);
        if(r.chance(1,2)) { std::string n(s->getNumberFields()&&r.chance(2,3)?s->getFieldNames()[r.below(s->getNumberFields())]:name()); if(r.chance(1,12)&&!n.empty()) n+="x";
            size_t idx=s->getFieldIndex(n); f=s->getField(n); tok=got([&]{ return s->getFieldT(n); },ft);
            switch(k) { case 0: typed<S,Scalar>(s,n,rk,kok,rkt); break; case 1: typed<S,ScalarArray>(s,n,rk,kok,rkt); break; case 2: typed<S,Structure>(s,n,rk,kok,rkt); break; case 3: typed<S,StructureArray>(s,n,rk,kok,rkt); break; case 4: typed<S,Union>(s,n,rk,kok,rkt); break; case 5: typed<S,UnionArray>(s,n,rk,kok,rkt); break; }
            o("op","look")("name",jbytes(n))("idx",idx==size_t(-1)?-1L:idx>1000?-2L:long(idx));
        } else { size_t p=r.below(s->getNumberFields()+2); if(r.chance(1,10)) p=size_t(-1); std::string n; bool ok=got([&]{ return s->getField(p); },f), nok=true; try { n=s->getFieldName(p); } catch(std::out_of_range&) { nok=false; } tok=got([&]{ return s->getFieldT(p); },ft);
            switch(k) { case 0: typedp<S,Scalar>(s,p,rk,kok,rkt); break; case 1: typedp<S,ScalarArray>(s,p,rk,kok,rkt); break; case 2: typedp<S,Structure>(s,p,rk,kok,rkt); break; case 3: typedp<S,StructureArray>(s,p,rk,kok,rkt); break; case 4: typedp<S,Union>(s,p,rk,kok,rkt); break; case 5: typedp<S,UnionArray>(s,p,rk,kok,rkt); break; }
            o("op","pos")("p",p>1000?1000L:long(p))("nf",s->getNumberFields())("ok",ok)("nok",nok)("name",jbytes(n)); }
        o("r",idof(f))("rt",idof(ft))("tok",tok)("rk",idof(rk))("kok",kok)("rkt",idof(rkt)); log(o); }
    void look() { FieldConstPtr h(of(r.chance(1,2)?structure:union_)); if(!h) return; if(h->getType()==structure) lookup(static_cast<const Structure*>(h.get())); else lookup(static_cast<const Union*>(h.get())); }
    // ---- builders
    int bnum(const FieldBuilderPtr& b) { auto i=bidx.find(b.get()); return i==bidx.end()?0:i->second; }
    void badd(const FieldBuilderPtr& b) { B.push_back(b); bidx[b.get()]=int(B.size()); }
    template<class F> void bdo(Obj& o, F f) { bool ok=true; FieldBuilderPtr p; try { p=f(); } catch(std::exception&) { ok=false; } o("ok",ok)("r",0)("to",ok?bnum(p):0); log(o); }
    struct Nest { size_t x; std::string n; bool u, a; }; std::vector<Nest> nests;
    void bop() {
        Obj o; if(B.empty() || (B.size()<6 && r.chance(1,25))) { FieldBuilderPtr b; bool ok=true; o("op","bnew"); if(r.chance(1,2)) { b=r.chance(1,2)?fc->createFieldBuilder():FieldBuilder::begin(); o("s",-1); }
            else { FieldConstPtr e(of(structure)); if(!e && !bad) return; StructureConstPtr s(std::tr1::static_pointer_cast<const Structure>(e)); o("s",idof(e)); try { b=r.chance(1,2)?fc->createFieldBuilder(s):FieldBuilder::begin(s); } catch(std::exception&) { ok=false; } }
            if(ok) badd(b); o("ok",ok)("r",0); log(o); return; }
        size_t x=r.chance(2,3)?B.size()-1:r.below(B.size()); FieldBuilderPtr b(B[x]); o("x",x+1);
        switch(r.below(16)) {
        case 0: { std::string id(ident()); o("op","bid")("id",jbytes(id)); bdo(o,[&]{ return b->setId(id); }); break; }
        case 1: case 2: case 3: case 4: { std::string n(name()); o("op","badd")("name",jbytes(n)); ScalarType t=st(); size_t k=1+r.below(3);
            switch(r.below(7)) {
            case 0: o("w","s")("st",stn(t)); bdo(o,[&]{ return b->add(n,t); }); break;
            case 1: if(bad&&r.chance(1,6)) k=0; o("w","str")("max",k); bdo(o,[&]{ return b->addBoundedString(n,k); }); break;
            case 2: o("w","sa")("st",stn(t))("b","v")("max",0); bdo(o,[&]{ return b->addArray(n,t); }); break;
            case 3: o("w","sa")("st",stn(t))("b","f")("max",k); bdo(o,[&]{ return b->addFixedArray(n,t,k); }); break;
            case 4: o("w","sa")("st",stn(t))("b","b")("max",k); bdo(o,[&]{ return b->addBoundedArray(n,t,k); }); break;
            case 5: { FieldConstPtr f(any()); know(f); Obj q; q("x",x+1)("op","badd")("name",jbytes(n))("w","fld")("e",idof(f)); bdo(q,[&]{ return b->add(n,f); }); break; }
            default: { FieldConstPtr f(any()); know(f); Obj q; q("x",x+1)("op","badd")("name",jbytes(n))("w","arr")("e",idof(f)); bdo(q,[&]{ return b->addArray(n,f); }); } } break; }
        case 5: case 6: case 7: { if(B.size()>8) return; std::string n(name()); bool u=r.chance(1,2), a=r.chance(1,2); FieldBuilderPtr p; bool ok=true;
            if(!nests.empty() && r.chance(1,2)) { Nest q(r.pick(nests)); if(q.x<B.size()) { b=B[q.x]; n=q.n; u=q.u; a=q.a; Obj z; z("x",q.x+1); o=z; x=q.x; } }   // the same again: extend what was nested before
            nests.push_back(Nest{x,n,u,a}); o("op","bnest")("name",jbytes(n))("kind",u?"u":"st")("arr",a);
            try { p=u?(a?b->addNestedUnionArray(n):b->addNestedUnion(n)):(a?b->addNestedStructureArray(n):b->addNestedStructure(n)); } catch(std::exception&) { ok=false; }
            if(ok) badd(p); o("ok",ok)("r",0); log(o); break; }
        case 8: case 9: case 10: o("op","bend"); bdo(o,[&]{ return b->endNested(); }); break;
        case 11: b=B[r.below(B.size())]; x=bnum(b)-1; { Obj q; q("x",x+1); o=q; } // fallthrough
        case 12: case 13: { bool u=r.chance(1,3); o("op","bmake")("kind",u?"u":"st"); request(o,[&]()->FieldConstPtr{ if(u) return b->createUnion(); return b->createStructure(); }); break; }
        default: { // something to nest in
            std::string n(r.pick(names)); o("op","badd")("name",jbytes(n))("w","s")("st","int"); bdo(o,[&]{ return b->add(n,pvInt); }); } }
    }
    // a well-formed program: nested builders are ended, and often opened again
    void fill(size_t x, int depth) { std::vector<Nest> mine;
        for(size_t i=0,k=1+r.below(5);i<k && B.size()<14;i++) { Obj o; o("x",x+1); FieldBuilderPtr b(B[x]);
            if(depth<2 && r.chance(1,2)) { Nest q; if(!mine.empty() && r.chance(2,3)) q=r.pick(mine); else { q=Nest{x,r.pick(names),r.chance(1,2),r.chance(1,2)}; mine.push_back(q); }
                FieldBuilderPtr p; bool ok=true; o("op","bnest")("name",jbytes(q.n))("kind",q.u?"u":"st")("arr",q.a);
                try { p=q.u?(q.a?b->addNestedUnionArray(q.n):b->addNestedUnion(q.n)):(q.a?b->addNestedStructureArray(q.n):b->addNestedStructure(q.n)); } catch(std::exception&) { ok=false; }
                if(ok) badd(p); o("ok",ok)("r",0); log(o); if(!ok) continue;
                size_t y=B.size()-1; fill(y,depth+1); Obj e; e("x",y+1)("op","bend"); bdo(e,[&]{ return p->endNested(); }); }
            else { std::string n(r.pick(names)); if(r.chance(1,8)) { std::string id(ident()); o("op","bid")("id",jbytes(id)); bdo(o,[&]{ return b->setId(id); }); } else { ScalarType t=r.chance(2,3)?pvInt:st(); o("op","badd")("name",jbytes(n))("w","s")("st",stn(t)); bdo(o,[&]{ return b->add(n,t); }); } } } }
    void program() { out=0; bad=false; nests.clear(); c.start();
        for(int k=0;k<2;k++) { FieldBuilderPtr b(fc->createFieldBuilder()); Obj o; o("op","bnew")("s",-1); badd(b); o("ok",true)("r",0); log(o); size_t x=B.size()-1; fill(x,0);
            bool u=r.chance(1,4); Obj m; m("x",x+1)("op","bmake")("kind",u?"u":"st"); request(m,[&]()->FieldConstPtr{ if(u) return b->createUnion(); return b->createStructure(); }); }
        B.clear(); H.clear(); }
    void history(int mode, size_t n) { out=0; bad=mode==1; nests.clear(); c.start();
        for(size_t i=0;i<n;i++) { if(H.size()>10) { dropone(); continue; }
            size_t k=r.below(20);
            if(mode==0) { if(k<9) make(); else if(k<13) dropone(); else if(k<18) cmp(); else bop(); }
            else { if(k<6) make(); else if(k<7) dropone(); else if(k<8) cmp(); else if(k<16) bop(); else look(); } }
        B.clear(); H.clear(); }
};
// threads creating and releasing the same few types
Ctx* C; std::string buf;
void flushBuf() { fwrite(buf.data(),1,buf.size(),C->out); fflush(C->out); for(char ch: buf) C->lines+=ch=='\n'; buf.clear(); }
struct Shared { Hist h; int left; Shared(Ctx& c):h(c) { h.quiet=false; h.out=&buf; h.bad=false; } };
void worker(Shared& s, Rng r, size_t n) {
    FieldCreatePtr fc(s.h.fc); std::vector<FieldConstPtr> own; std::vector<std::string> nm(1,"a");
    for(size_t i=0;i<n;i++) {
        size_t k=r.below(10);
        if(k<5 || own.empty()) {
            Obj o; o("op","mk"); FieldConstPtr f; std::vector<FieldConstPtr> ss; for(auto& x: own) if(x->getType()==structure) ss.push_back(x);
            switch(r.below(6)) {
            case 0: case 1: { size_t m=1+r.below(2); o("w","str")("max",m); sched::Lib lib; f=fc->createBoundedString(m); break; }
            case 2: { o("w","sa")("st","int")("b","f")("max",2); sched::Lib lib; f=fc->createFixedScalarArray(pvInt,2); break; }
            case 3: case 4: { if(own.empty()) continue; FieldConstPtr e(own[r.below(own.size())]); bool u=r.chance(1,3); FieldConstPtrArray fs(1,e); int id=s.h.idof(e); o("w",u?"u":"st")("noid",true)("id","")("n",s.h.jn(nm))("f",std::vector<int>(1,id)); sched::Lib lib; if(u) f=fc->createUnion(nm,fs); else f=fc->createStructure(nm,fs); break; }
            default: { if(ss.empty()) continue; FieldConstPtr e(ss[r.below(ss.size())]); o("w","sta")("e",s.h.idof(e)); sched::Lib lib; f=fc->createStructureArray(std::tr1::static_pointer_cast<const Structure>(e)); } }
            own.push_back(f); o("ok",true)("r",s.h.see(f)); s.h.log(o);
        } else if(k<9) { size_t j=r.below(own.size()); Obj o; o("op","drop")("i",s.h.idof(own[j]))("k",1); s.h.log(o); FieldConstPtr f; f.swap(own[j]); own.erase(own.begin()+j); sched::Lib lib; f.reset(); }
        else sched::point();
    }
    while(!own.empty()) { Obj o; o("op","drop")("i",s.h.idof(own.back()))("k",1); s.h.log(o); FieldConstPtr f; f.swap(own.back()); own.pop_back(); sched::Lib lib; f.reset(); }
}
void threads(Ctx& c) {
    C=&c; size_t n=c.n(200,1500);
    for(size_t i=0;i<n;i++) {
        c.start(); { Shared s(c); sched::Opts op; op.seed=c.rng.next(); op.strategy=int(c.rng.below(4)); if(c.mode.find("fine")!=c.mode.npos) { static const int M[]={3,10,30,100}; op.fine=M[c.rng.below(4)]; } size_t k=2+c.rng.below(3), len=4+c.rng.below(8); std::vector<Rng> rs; for(size_t j=0;j<k;j++) rs.push_back(Rng(c.rng.next()));
        sched::begin(op); std::vector<int> th; for(size_t j=0;j<k;j++) th.push_back(sched::spawn([&,j]{ worker(s,rs[j],len); }));
        for(int t: th) sched::join(t); sched::end();
        s.h.quiet=true; Obj o; o("op","quiet"); s.h.log(o); }
        flushBuf();
    }
}
void run(Ctx& c) {
    if(c.mode.find("threads")==0) { threads(c); return; }
    int mode=c.mode=="build"; size_t n=c.n(mode?260:220,mode?1800:1500);
    for(size_t i=0;i<n;i++) { Hist h(c); h.history(mode,20+c.rng.below(40)); }
    if(mode==1) for(size_t i=0;i<c.n(150,1500);i++) { Hist h(c); h.program(); }
}
}
VH_MAIN(run)
