// Histories on property helpers (C28).
#include "pvh.h"
#include <pv/pvAlarm.h>
#include <pv/pvTimeStamp.h>
#include <pv/pvControl.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
#include <cmath>
using namespace vh;
namespace {
struct Req { const char* n; ScalarType t; bool arr; };
const Req REQ[5][5]={ {{"severity",pvInt,0},{"status",pvInt,0},{"message",pvString,0}}, {{"secondsPastEpoch",pvLong,0},{"nanoseconds",pvInt,0},{"userTag",pvInt,0}},
  {{"limitLow",pvDouble,0},{"limitHigh",pvDouble,0},{"minStep",pvDouble,0}}, {{"description",pvString,0},{"format",pvString,0},{"units",pvString,0},{"limitLow",pvDouble,0},{"limitHigh",pvDouble,0}}, {{"index",pvInt,0},{"choices",pvString,1}} };
const size_t NREQ[5]={3,3,3,5,2};
const char* KN[5]={"alarm","time","control","display","enum"};
struct Hlp { int k; PVAlarm a; PVTimeStamp t; PVControl c; PVDisplay d; PVEnumerated e; Hlp(int k):k(k){} };
struct W {
    Ctx& c; Rng& r; std::vector<PVStructurePtr> roots; std::vector<PVField*> n; std::map<PVField*,size_t> id; std::vector<std::string> snap; std::vector<std::shared_ptr<Hlp> > h;
    W(Ctx& c):c(c),r(c.rng) {}
    std::string node(PVField* f) { return Obj()("v",f->getField()->getType()==structure?Raw("0"):jval(f))("im",f->isImmutable()).done().t; }
    void reg(PVField* f, std::vector<Raw>& out) { n.push_back(f); id[f]=n.size(); snap.push_back(node(f)); 
        Obj o; o("p",f->getParent()?id[f->getParent()]:0)("nm",jbytes(f->getFieldName()))("t",jtype(f->getField())); std::string s(o.done().t); s.resize(s.size()-1); out.push_back(Raw(s+","+snap.back().substr(1)));
        if(f->getField()->getType()==structure) for(auto& x: static_cast<PVStructure*>(f)->getPVFields()) reg(x.get(),out); }
    FieldConstPtr gen(int depth) {
        FieldBuilderPtr b(getFieldCreate()->createFieldBuilder()); std::set<std::string> used; 
        std::vector<int> kinds; size_t nk=r.below(3)+(depth==0); for(size_t i=0;i<nk;i++) kinds.push_back(r.below(5)); if(depth==0) for(int k=0;k<5;k++) if(r.chance(1,2)) kinds.push_back(k);
        for(int k: kinds) for(size_t j=0;j<NREQ[k];j++) { const Req& q=REQ[k][j]; if(used.count(q.n) || r.chance(1,30)) continue; used.insert(q.n); ScalarType t=q.t; bool arr=q.arr; if(r.chance(1,40)) { t=(ScalarType)r.below(12); } if(r.chance(1,30)) arr=!arr; if(arr) b->addArray(q.n,t); else b->add(q.n,t); }
        if(r.chance(1,3)) b->add("x1",pvInt);
        if(depth<2) for(const char* s: {"alarm","timeStamp","sub"}) if(r.chance(1,3)) b->add(s,gen(depth+1));
        return b->createStructure(); }
    void tree() { PVStructurePtr p(getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(gen(0)))); roots.push_back(p); std::vector<Raw> out; reg(p.get(),out); c.log(Obj()("op","tree")("nodes",out)); }
    void ev(Obj e, std::function<void(Obj&)> fn) { bool ok=true; std::string ex; Obj res(e); try { fn(res); } catch(std::exception& x) { ok=false; ex=typeid(x).name(); }
        std::vector<Raw> ch; for(size_t i=0;i<n.size();i++) { std::string s(node(n[i])); if(s!=snap[i]) { ch.push_back(Raw("{\"id\":"+std::to_string(i+1)+","+s.substr(1))); snap[i]=s; } }
        c.log(res("ok",ok)("ch",ch)("ex",ex)); }
    template<class F> void each(Hlp& x, F f) { switch(x.k) { case 0: f(x.a); break; case 1: f(x.t); break; case 2: f(x.c); break; case 3: f(x.d); break; default: f(x.e); } }
    double gd() { return r.chance(1,4)?(r.chance(1,2)?0.0:-0.0):r.chance(1,12)?NAN:(double)r.range(-3,3); }
    void get(size_t i) { Hlp& x=*h[i]; ev(Obj()("op","get")("h",i+1),[&](Obj& o) { std::vector<Raw> v; switch(x.k) {
        case 0: { Alarm a; x.a.get(a); v.push_back(jscalar<int32>(a.getSeverity())); v.push_back(jscalar<int32>(a.getStatus())); v.push_back(jbytes(a.getMessage())); break; }
        case 1: { TimeStamp t; x.t.get(t); o("sec",jscalar<int64>(t.getSecondsPastEpoch()))("ns",t.getNanoseconds())("tag",jscalar<int32>(t.getUserTag())); break; }
        case 2: { Control t; x.c.get(t); for(double d: {t.getLow(),t.getHigh(),t.getMinStep()}) v.push_back(jscalar<double>(d)); break; }
        case 3: { Display t; x.d.get(t); for(std::string s: {t.getDescription(),t.getFormat(),t.getUnits()}) v.push_back(jbytes(s)); for(double d: {t.getLow(),t.getHigh()}) v.push_back(jscalar<double>(d)); break; }
        default: return; } if(x.k!=1) o("v",v); }); }
    bool again() { return r.chance(1,5); }
    void set(size_t i) { Hlp& x=*h[i]; std::vector<Raw> v; Obj e; e("op","set")("h",i+1); switch(x.k) {
        case 0: { int s=r.below(5), st=r.below(8); if(r.chance(1,2)) { s=0; st=r.below(2); } std::string m(gstring(r,4)); if(r.chance(1,3)) m=""; v={jscalar<int32>(s),jscalar<int32>(st),jbytes(m)}; e("v",v); Alarm a; a.setSeverity((AlarmSeverity)s); a.setStatus((AlarmStatus)st); a.setMessage(m); int rep=1+again(); while(rep--) ev(e,[&](Obj& o){ bool q=x.a.set(a); o("r",q); }); break; }
        case 1: { int64 s=r.chance(1,3)?r.range(0,3):(int64)(r.next()>>20); int32 ns=r.chance(1,3)?r.range(0,2):r.range(0,999999999), g=r.range(0,2); v={jscalar<int64>(s),jscalar<int32>(ns),jscalar<int32>(g)}; e("v",v); TimeStamp t(s,ns,g); int rep=1+again(); while(rep--) ev(e,[&](Obj& o){ bool q=x.t.set(t); o("r",q); }); break; }
        case 2: { double a=gd(),b=gd(),d=gd(); v={jscalar<double>(a),jscalar<double>(b),jscalar<double>(d)}; e("v",v); Control t; t.setLow(a); t.setHigh(b); t.setMinStep(d); int rep=1+again(); while(rep--) ev(e,[&](Obj& o){ bool q=x.c.set(t); o("r",q); }); break; }
        case 3: { double a=gd(),b=gd(); std::string s[3]; for(auto& q: s) q=r.chance(1,2)?"":gstring(r,3); v={jbytes(s[0]),jbytes(s[1]),jbytes(s[2]),jscalar<double>(a),jscalar<double>(b)}; e("v",v); Display t; t.setDescription(s[0]); t.setFormat(s[1]); t.setUnits(s[2]); t.setLow(a); t.setHigh(b); int rep=1+again(); while(rep--) ev(e,[&](Obj& o){ bool q=x.d.set(t); o("r",q); }); break; }
        default: break; } }
    void enumop(size_t i) { Hlp& x=*h[i]; switch(r.below(3)) {
        case 0: { int32 k=r.chance(1,5)?(int32)r.next():r.range(-1,4); ev(Obj()("op","setindex")("h",i+1)("v",jscalar<int32>(k)),[&](Obj& o){ bool q=x.e.setIndex(k); o("r",q); }); break; }
        case 1: { StringArray s; std::vector<Raw> v; for(size_t k=r.below(4);k>0;k--) { s.push_back(gstring(r,3)); v.push_back(jbytes(s.back())); } ev(Obj()("op","setchoices")("h",i+1)("v",v),[&](Obj& o){ bool q=x.e.setChoices(s); o("r",q); }); break; }
        default: ev(Obj()("op","choice")("h",i+1),[&](Obj& o){ std::string s(x.e.getChoice()); int k=x.e.getNumberChoices(); bool m=x.e.choicesMutable(); int32 ix=x.e.getIndex(); PVField* f=0; (void)f; o("v",jbytes(s))("num",k)("mut",m)("ix",jscalar<int32>(ix)); }); } }
    void put() { size_t i=r.below(n.size()); PVField* f=n[i]; if(f->getField()->getType()==structure || f->isImmutable()) return; GenOpt o; o.bounds=false;
        ev(Obj()("op","put")("n",i+1),[&](Obj& e) { if(f->getField()->getType()==scalar && static_cast<PVScalar*>(f)->getScalar()->getScalarType()==pvInt && r.chance(3,4)) static_cast<PVInt*>(f)->put(r.chance(1,4)?1000000000+r.range(-1,3):r.range(-1,8)); 
            else if(f->getField()->getType()==scalar && static_cast<PVScalar*>(f)->getScalar()->getScalarType()==pvLong) static_cast<PVLong*>(f)->put(r.range(-3,5)); else gfill(r,f,o); e("v",jval(f)); }); }
    void run(size_t steps) {
        c.start(); tree(); tree(); for(int k=0;k<5;k++) { h.push_back(std::make_shared<Hlp>(k)); bool att=false; each(*h.back(),[&](auto& q){ att=q.isAttached(); }); c.log(Obj()("op","helper")("kind",KN[k])("att",att)); }
        for(size_t s=0;s<steps;s++) { size_t i=r.below(h.size()); Hlp& x=*h[i];
            switch(r.below(14)) {
            case 0: case 1: case 2: { size_t k=r.below(n.size()); if(r.chance(3,4)) { std::vector<size_t> st; for(size_t q=0;q<n.size();q++) if(n[q]->getField()->getType()==structure && (r.chance(1,8) || static_cast<PVStructure*>(n[q])->getSubField(REQ[x.k][0].n))) st.push_back(q); if(st.size()) k=r.pick(st); } PVFieldPtr f(n[k]->shared_from_this()); ev(Obj()("op","attach")("h",i+1)("n",k+1),[&](Obj& o){ bool q=false; each(x,[&](auto& p){ q=p.attach(f); }); o("r",q); }); break; }
            case 3: if(r.chance(1,4)) ev(Obj()("op","detach")("h",i+1),[&](Obj&){ each(x,[&](auto& p){ p.detach(); }); }); break;
            case 4: ev(Obj()("op","isatt")("h",i+1),[&](Obj& o){ bool q=false; each(x,[&](auto& p){ q=p.isAttached(); }); o("r",q); }); break;
            case 5: case 6: if(x.k==4) enumop(i); else get(i); break;
            case 7: case 8: case 9: if(x.k==4) enumop(i); else set(i); break;
            case 10: if(r.chance(1,4)) { size_t k=r.below(n.size()); for(int q=0;q<4 && n[k]->getField()->getType()==structure;q++) k=r.below(n.size()); ev(Obj()("op","freeze")("n",k+1),[&](Obj&){ n[k]->setImmutable(); }); } break;
            default: put(); } } }
};
void drive(Ctx& c) { for(size_t i=0;i<c.n(160,2500);i++) { W w(c); w.run(c.thorough?80:60); } }
}
VH_MAIN(drive)
